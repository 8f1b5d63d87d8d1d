// Package crand is a deterministic crypto/rand.
package crand

import "io"

type zero struct{}

func (zero) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(0x5a + i)
	}
	return len(b), nil
}

// Reader is deterministic.
var Reader io.Reader = zero{}

// Read reads.
func Read(b []byte) (int, error) { return Reader.Read(b) }
