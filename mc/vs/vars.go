package vs

import (
	"fmt"
	"reflect"
	"sort"
)

// RegisterVar restores package variable *p (and the contents of maps and
// slices it holds) before every execution, so that no state leaks from one
// execution into the next.
func RegisterVar(p any) {
	v := reflect.ValueOf(p).Elem()
	var restore func()
	first := true
	RegisterReset(func() {
		if first {
			// package initialisation is over: take the snapshot
			first = false
			restore = snap(v, 0)
			return
		}
		restore()
	})
}

func snap(v reflect.Value, depth int) func() {
	saved := reflect.New(v.Type()).Elem()
	saved.Set(v)
	switch v.Kind() {
	case reflect.Map:
		if v.IsNil() {
			break
		}
		m := reflect.MakeMap(v.Type())
		it := v.MapRange()
		for it.Next() {
			m.SetMapIndex(it.Key(), it.Value())
		}
		return func() {
			v.Set(saved)
			it := v.MapRange()
			var del []reflect.Value
			for it.Next() {
				if !m.MapIndex(it.Key()).IsValid() {
					del = append(del, it.Key())
				}
			}
			for _, k := range del {
				v.SetMapIndex(k, reflect.Value{})
			}
			it = m.MapRange()
			for it.Next() {
				v.SetMapIndex(it.Key(), it.Value())
			}
		}
	case reflect.Slice:
		if v.IsNil() {
			break
		}
		full := saved.Slice(0, saved.Cap())
		c := reflect.MakeSlice(v.Type(), full.Len(), full.Len())
		reflect.Copy(c, full)
		return func() {
			v.Set(saved)
			reflect.Copy(full, c)
		}
	case reflect.Ptr:
		if v.IsNil() || depth > 0 || v.Elem().Kind() != reflect.Struct && v.Elem().Kind() != reflect.Array {
			break
		}
		pp := v.Elem().Type().PkgPath()
		if v.Elem().Kind() == reflect.Struct && len(pp) < len("github.com/zhiqiangxu/qrpc") {
			break
		}
		inner := snap(v.Elem(), depth+1)
		return func() {
			v.Set(saved)
			inner()
		}
	}
	return func() { v.Set(saved) }
}

// Keys returns the keys of m in a deterministic order.
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return less(reflect.ValueOf(ks[i]), reflect.ValueOf(ks[j])) })
	return ks
}

func less(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() < b.Uint()
	case reflect.String:
		return a.String() < b.String()
	case reflect.Ptr, reflect.UnsafePointer, reflect.Chan:
		return a.Pointer() < b.Pointer()
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}
