package main

import "fmt"

// Method of a service: argument and result kinds and the packages (indices into Def.Pkgs) they come from.
type Method struct {
	Name         string
	In, Out      string
	InPkg, OuPkg int
}

// Service is the main service (NS empty) or a sub service.
type Service struct {
	NS, Camel string
	Methods   []Method
}

// Def is one service definition.
type Def struct {
	ID            string
	Name, Camel   string
	Custom        bool // NewWithCmd
	Pkgs          []string
	Services      []Service
	With          int // generated in one process with the previous With definitions
	What          string
	rpcCmd, erCmd int
}

var inKinds = []string{"string", "int", "bool", "float64", "J", "B", "V", "C", "M", "L", "S", "*J", "*B", "[]J", "[]byte", "map[string]J", "[2]int", "[]*J", "interface{}", "map[S]*B"}
var outKinds = []string{"J", "B", "V", "C", "M", "L"}

func enumerate(tier string) (defs []*Def) {
	add := func(d Def) *Def {
		d.ID = fmt.Sprintf("d%04d", len(defs))
		if d.Name == "" {
			d.Name, d.Camel = "Foo", "Foo"
		}
		if d.Pkgs == nil {
			d.Pkgs = []string{"t"}
		}
		defs = append(defs, &d)
		return &d
	}
	sub := func(ms ...Method) Service { return Service{NS: "Sub", Camel: "Sub", Methods: ms} }
	sub2 := func(ms ...Method) Service { return Service{NS: "Bus", Camel: "Bus", Methods: ms} }
	mainS := func(ms ...Method) Service { return Service{Methods: ms} }
	// one method, every argument kind with every result kind, in the main and in a sub service
	for _, in := range inKinds {
		for _, out := range outKinds {
			m := Method{Name: "Do", In: in, Out: out}
			add(Def{Services: []Service{mainS(m)}, What: "kinds"})
			add(Def{Services: []Service{sub(m)}, What: "kinds"})
		}
	}
	// two methods: every pair of kind classes, in every placement
	cls := []string{"J", "B"}
	var ms []Method
	for _, in := range cls {
		for _, out := range cls {
			ms = append(ms, Method{In: in, Out: out})
		}
	}
	named := func(m Method, n string) Method { m.Name = n; return m }
	for i, a := range ms {
		for j, b := range ms {
			if j >= i {
				add(Def{Services: []Service{mainS(named(a, "Do"), named(b, "Get"))}, What: "pairs"})
				add(Def{Services: []Service{sub(named(a, "Do"), named(b, "Get"))}, What: "pairs"})
				add(Def{Services: []Service{sub(named(a, "Do")), sub2(named(b, "Do"))}, What: "pairs"})
			}
			add(Def{Services: []Service{mainS(named(a, "Do")), sub(named(b, "Do"))}, What: "pairs"})
		}
	}
	// shapes: 0-2 main methods, 0-2 sub services of 1-2 methods
	p, q := Method{Name: "Do", In: "J", Out: "B"}, Method{Name: "Get", In: "string", Out: "J"}
	set := [][]Method{nil, {p}, {p, q}, {q}}
	if tier == "thorough" {
		set = append(set, []Method{p, q, {Name: "X", In: "B", Out: "C"}})
	}
	for _, a := range set {
		for _, b := range set {
			for _, c := range set {
				var ss []Service
				if a != nil {
					ss = append(ss, mainS(a...))
				}
				if b != nil {
					ss = append(ss, sub(b...))
				}
				if c != nil {
					ss = append(ss, sub2(c...))
				}
				if ss == nil || b == nil && c != nil {
					continue
				}
				add(Def{Services: ss, What: "shapes"})
			}
		}
	}
	// names and commands
	for _, n := range [][2]string{{"foo", "Foo"}, {"Foo", "Foo"}, {"my_svc", "MySvc"}, {"fooBar", "FooBar"}, {"a", "A"}, {"svc2", "Svc2"}, {"URL", "URL"}} {
		for _, s := range [][2]string{{"Sub", "Sub"}, {"sub", "Sub"}, {"my_ns", "MyNs"}, {"x", "X"}, {"Foo", "Foo"}, {"ns2", "Ns2"}} {
			for _, custom := range []bool{false, true} {
				if custom && s[0] != "sub" {
					continue
				}
				add(Def{Name: n[0], Camel: n[1], Custom: custom, Services: []Service{mainS(p), {NS: s[0], Camel: s[1], Methods: []Method{p, q}}}, What: "names"})
			}
		}
	}
	// method names beside those of the runtime client, predeclared and keyword-like ones
	for _, n := range []string{"Request", "Mux", "Register", "RegisterSub", "String", "Error", "Type", "Marshal", "Sub", "A", "Get_it", "ÄÖ"} {
		add(Def{Services: []Service{mainS(named(p, n)), sub2(named(p, n), named(q, n+"2"))}, What: "methods"})
	}
	// packages of the argument and result types
	pk := []string{"t", "a/t", "b/t", "p/qrpc", "p/context", "p/json", "p/fmt", "p/codegen", "p/my-pkg", "p/v2", "p/type",
		"p/s", "p/ss", "p/m", "p/c", "p/cc", "p/ctx", "p/err", "p/input", "p/output", "p/inBytes", "p/outBytes", "p/mux", "p/ns", "p/addrs", "p/conf", "p/ssInterface",
		"p/error", "p/string", "p/byte", "p/make", "p/panic", "p/nil", "p/9x", "p/t1", "p/math", "p/proto", "p/interfaces"}
	for i, a := range pk {
		for _, out := range []string{"J", "B"} {
			m := Method{Name: "Do", In: "J", Out: out}
			add(Def{Pkgs: []string{a}, Services: []Service{mainS(m), sub(m)}, What: "package " + a})
			n := m
			n.OuPkg = 1
			b := pk[(i+1)%len(pk)]
			add(Def{Pkgs: []string{a, b}, Services: []Service{mainS(n), sub(n)}, What: "packages " + a + " " + b})
		}
		if tier == "thorough" || i < 8 {
			for j, b := range pk {
				if j <= i || tier != "thorough" && j >= 8 {
					continue
				}
				m := Method{Name: "Do", In: "[]*J", Out: "J", OuPkg: 1}
				n := Method{Name: "Get", In: "map[S]*B", InPkg: 1, Out: "B"}
				add(Def{Pkgs: []string{a, b}, Services: []Service{mainS(m, n), sub(n, m)}, What: "packages " + a + " " + b})
			}
		}
	}
	// the three classes of packages with one name
	m3 := []Method{{Name: "Do", In: "J", Out: "J", OuPkg: 1}, {Name: "Get", In: "B", InPkg: 2, Out: "J"}}
	add(Def{Pkgs: []string{"t", "a/t", "b/t"}, Services: []Service{mainS(m3...), sub(m3...)}, What: "packages"})
	// several generators in one process
	for n := 1; n <= 3; n++ {
		for k := 0; k <= n && k < 3; k++ {
			d := add(Def{Name: []string{"Foo", "bar", "Baz"}[k], Camel: []string{"Foo", "Bar", "Baz"}[k], Pkgs: [][]string{{"a/t", "b/t"}, {"b/t", "p/json"}, {"t", "a/t"}}[(n+k)%3],
				Services: []Service{mainS(Method{Name: "Do", In: "J", Out: "B", OuPkg: 1}), sub(q)}, What: "several"})
			d.With = k
		}
	}
	for i, d := range defs {
		d.rpcCmd, d.erCmd = 10000, 10001
		if d.Custom {
			d.rpcCmd, d.erCmd = 1+i%7, 20+i%5
		}
	}
	return
}
