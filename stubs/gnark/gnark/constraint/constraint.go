// Package constraint has compiled circuits.
package constraint

import (
	"github.com/consensys/gnark-crypto/ecc"
	groth16_bn254 "github.com/consensys/gnark/backend/groth16/bn254"
	"github.com/consensys/gnark/backend/witness"
)

type ConstraintSystem interface {
	GetNbConstraints() int
	GetNbPublicVariables() int
}
type System struct {
	Curve ecc.ID
	// the key the circuit checks proofs of
	Inner *groth16_bn254.VerifyingKey
	// runs the circuit on a witness
	Solve func(w witness.Witness) error
	Pub   int
}

func (s *System) GetNbConstraints() int     { return 1 }
func (s *System) GetNbPublicVariables() int { return s.Pub + 1 }

// FailVerify makes the check of the outer proof fail.
var FailVerify bool
