// Package witness has the values of a circuit's variables.
package witness

import (
	"github.com/consensys/gnark-crypto/ecc/bls12-381/fr"
)

type Witness interface {
	// Vector of the values: the public ones first.
	Vector() any
	Public() (Witness, error)
	// Secret says whether there are secret parts.
	Secret() bool
	// Circuit the values belong to.
	Circuit() any
}
type Values struct {
	All  fr.Vector
	N    int
	Full bool
	Of   any
}

func (v *Values) Vector() any {
	if v.Full {
		return v.All
	}
	return v.All[:v.N:v.N]
}
func (v *Values) Public() (Witness, error) { return &Values{v.All, v.N, false, nil}, nil }
func (v *Values) Secret() bool             { return v.Full }
func (v *Values) Circuit() any             { return v.Of }
