// Package rand replaces crypto/rand.
package rand

import (
	"io"
	"math/big"

	srand "verif.local/simrt/rand"
)

var Reader io.Reader = srand.Reader{}

func Read(p []byte) (int, error) { return Reader.Read(p) }
func Int(r io.Reader, max *big.Int) (*big.Int, error) {
	b := make([]byte, 32)
	_, _ = r.Read(b)
	return new(big.Int).Mod(new(big.Int).SetBytes(b), max), nil
}
func Text() string {
	const a = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	_, _ = Read(b)
	for i := range b {
		b[i] = a[b[i]%32]
	}
	return string(b)
}
