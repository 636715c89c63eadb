// Package test runs circuits without compiling them.
package test

import (
	"math/big"

	"github.com/consensys/gnark/frontend"
)

func IsSolved(circuit, witness frontend.Circuit, field *big.Int, _ ...any) error {
	return frontend.Solved(circuit, witness, field)
}
