// Package bls12381 has the points a wrapped proof is made of; the pairing is one a script gives.
package bls12381

import (
	"fmt"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark-crypto/ecc/bls12-381/fp"
)

const ID = ecc.BLS12_381

type E2 struct{ A0, A1 fp.Element }
type E6 struct{ B0, B1, B2 E2 }
type E12 struct{ C0, C1 E6 }
type GT = E12
type G1Affine struct{ X, Y fp.Element }
type G2Affine struct{ X, Y E2 }

func (z *E2) IsZero() bool                    { return *z == E2{} }
func (z *E2) String() string                  { return z.A0.String() + "+" + z.A1.String() + "*u" }
func (p *G1Affine) IsInfinity() bool          { return *p == G1Affine{} }
func (p *G2Affine) IsInfinity() bool          { return *p == G2Affine{} }
func (p *G1Affine) Equal(q *G1Affine) bool    { return *p == *q }
func (p *G2Affine) Equal(q *G2Affine) bool    { return *p == *q }
func (p *G1Affine) Set(q *G1Affine) *G1Affine { *p = *q; return p }
func (p *G2Affine) Set(q *G2Affine) *G2Affine { *p = *q; return p }

type pair struct {
	P G1Affine
	Q G2Affine
}

var pairings = map[pair]GT{}

// Script makes a pairing known.
func Script(p G1Affine, q G2Affine, v GT) { pairings[pair{p, q}] = v }

// Pair is the product of the pairings of points.
func Pair(p []G1Affine, q []G2Affine) (GT, error) {
	if len(p) != 1 || len(q) != 1 {
		return GT{}, fmt.Errorf("the stand-in pairs two points")
	}
	v, ok := pairings[pair{p[0], q[0]}]
	if !ok {
		return GT{}, fmt.Errorf("a pairing of points nobody gave")
	}
	return v, nil
}
