// Package simcrand replaces the entropy source of crypto/rand.
package simcrand

import (
	"crypto/rand"
	"io"

	"verifsim/simrt"
)

// Fail, when set, may make a read of the entropy source fail.
var Fail func() error

type reader struct{}

func (reader) Read(p []byte) (int, error) {
	if _, ok := simrt.Draw(simrt.StreamCrypto); !ok {
		return rand.Read(p)
	}
	simrt.Y(-11)
	if f := Fail; f != nil {
		if err := f(); err != nil {
			return 0, err
		}
	}
	for i := range p {
		v, _ := simrt.Draw(simrt.StreamCrypto)
		p[i] = byte(v >> 13)
	}
	return len(p), nil
}

var Reader io.Reader = reader{}

func Read(p []byte) (int, error) { return io.ReadFull(Reader, p) }

func Text() string {
	const a = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	Read(b)
	for i := range b {
		b[i] = a[b[i]%32]
	}
	return string(b)
}
