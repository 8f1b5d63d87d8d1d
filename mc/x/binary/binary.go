// Package binary records the byte accesses of encoding/binary's byte orders.
package binary

import (
	"encoding/binary"

	"github.com/zhiqiangxu/qrpc/zz/vs"
)

type be struct{}

// BigEndian is binary.BigEndian with access records.
var BigEndian be

func r(b []byte, n int) { if len(b) >= n { vs.TouchNet(b[:n], false) } }
func w(b []byte, n int) { if len(b) >= n { vs.TouchNet(b[:n], true) } }

func (be) Uint16(b []byte) uint16       { r(b, 2); return binary.BigEndian.Uint16(b) }
func (be) Uint32(b []byte) uint32       { r(b, 4); return binary.BigEndian.Uint32(b) }
func (be) Uint64(b []byte) uint64       { r(b, 8); return binary.BigEndian.Uint64(b) }
func (be) PutUint16(b []byte, v uint16) { w(b, 2); binary.BigEndian.PutUint16(b, v) }
func (be) PutUint32(b []byte, v uint32) { w(b, 4); binary.BigEndian.PutUint32(b, v) }
func (be) PutUint64(b []byte, v uint64) { w(b, 8); binary.BigEndian.PutUint64(b, v) }
func (be) AppendUint16(b []byte, v uint16) []byte { return binary.BigEndian.AppendUint16(b, v) }
func (be) AppendUint32(b []byte, v uint32) []byte { return binary.BigEndian.AppendUint32(b, v) }
func (be) AppendUint64(b []byte, v uint64) []byte { return binary.BigEndian.AppendUint64(b, v) }
func (be) String() string { return "BigEndian" }
