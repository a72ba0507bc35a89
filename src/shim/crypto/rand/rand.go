// Package rand: random bytes come from the simulator.
package rand

import (
	"io"
	"math/big"

	"github.com/hsiaosiyuan0/mole/zzsim/sim"
)

type rd struct{}

func (rd) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(sim.Rand() >> 24)
	}
	return len(p), nil
}

var Reader io.Reader = rd{}

func Read(p []byte) (int, error) { return Reader.Read(p) }

func Int(_ io.Reader, max *big.Int) (*big.Int, error) {
	n := new(big.Int).SetUint64(sim.Rand())
	return n.Mod(n, max), nil
}

func Text() string {
	b := make([]byte, 26)
	for i := range b {
		b[i] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"[sim.Rand()>>40&31]
	}
	return string(b)
}
