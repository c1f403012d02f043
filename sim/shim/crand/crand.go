// Package rand is crypto/rand drawing from the run's choice streams.
package rand

import (
	"io"
	"math/big"

	mr "verif.local/sim/shim/rand"
)

type reader struct{}

func (reader) Read(p []byte) (int, error) { return mr.Read(p) }

var Reader io.Reader = reader{}

func Read(p []byte) (int, error) { return mr.Read(p) }

func Int(r io.Reader, max *big.Int) (*big.Int, error) {
	b := make([]byte, len(max.Bytes())+8)
	r.Read(b)
	return new(big.Int).Mod(new(big.Int).SetBytes(b), max), nil
}
