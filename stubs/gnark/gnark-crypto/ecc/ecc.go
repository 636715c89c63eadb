// Package ecc names the curves.
package ecc

import (
	"math/big"

	bls12381fr "github.com/consensys/gnark-crypto/ecc/bls12-381/fr"
	bn254fr "github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

// ID of a curve.
type ID uint16

const (
	UNKNOWN ID = iota
	BN254
	BLS12_377
	BLS12_381
	BW6_761
)

func (id ID) String() string {
	return [...]string{"unknown", "bn254", "bls12_377", "bls12_381", "bw6_761"}[id]
}

// ScalarField of the curve.
func (id ID) ScalarField() *big.Int {
	switch id {
	case BN254:
		return bn254fr.Modulus()
	case BLS12_381:
		return bls12381fr.Modulus()
	}
	panic("curve " + id.String() + " is not in the stand-in")
}
