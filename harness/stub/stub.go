// Package stub replaces the sm3 package under the engine (sym.StubSM3).
package stub

import (
	"hash"

	"gmharness/sym"
)

type digest struct{ data []byte }

func New() hash.Hash { return &digest{} }

func (d *digest) Write(p []byte) (int, error) {
	d.data = append(d.data, p...)
	return len(p), nil
}
func (d *digest) Sum(b []byte) []byte { return append(b, sym.Hash(d.data)...) }
func (d *digest) Reset()              { d.data = nil }
func (d *digest) Size() int           { return 32 }
func (d *digest) BlockSize() int      { return 64 }

func Sum(data []byte) [32]byte {
	var r [32]byte
	copy(r[:], sym.Hash(data))
	return r
}
