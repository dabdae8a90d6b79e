//go:build verif_gf

package main

import (
	"math/big"

	"github.com/ing-bank/zkrp/crypto/bn256"
)

func init() {
	gfOp = func(n int, op string, args [][]*big.Int, k *big.Int, alias int, dirty, recv []*big.Int) gfResult {
		return gfResult(bn256.VerifGF(n, op, args, k, alias, dirty, recv))
	}
	gfPoints = bn256.VerifPoints
}
