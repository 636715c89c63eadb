// Package r1cs makes builders.
package r1cs

import (
	"math/big"

	"github.com/consensys/gnark/frontend"
)

// NewBuilder of rank-one systems.
func NewBuilder(field *big.Int, _ any) (frontend.Builder, error) { return field, nil }
