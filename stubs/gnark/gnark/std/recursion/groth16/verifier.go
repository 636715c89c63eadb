// Package groth16 checks Groth16 proofs inside a circuit.
package groth16

import (
	"fmt"
	"math/big"

	groth16_bn254 "github.com/consensys/gnark/backend/groth16/bn254"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/math/emulated"
)

type Proof[G1El, G2El any] struct {
	inner *groth16_bn254.Proof
	Ar    G1El
	Krs   G1El
	Bs    G2El
}
type VerifyingKey[G1El, G2El, GtEl any] struct {
	E  GtEl
	G1 struct{ K []G1El }
	G2 struct{ GammaNeg, DeltaNeg G2El }

	inner *groth16_bn254.VerifyingKey
}
type Witness[FR any] struct{ Public []emulated.Element[FR] }

func proofOf(p any) (*groth16_bn254.Proof, error) {
	q, ok := p.(*groth16_bn254.Proof)
	if !ok || q == nil {
		return nil, fmt.Errorf("not an inner proof: %T", p)
	}
	return q, nil
}
func ValueOfProof[G1El, G2El any](p any) (r Proof[G1El, G2El], err error) {
	r.inner, err = proofOf(p)
	return
}
func ValueOfVerifyingKey[G1El, G2El, GtEl any](k any) (r VerifyingKey[G1El, G2El, GtEl], err error) {
	q, ok := k.(*groth16_bn254.VerifyingKey)
	if !ok || q == nil {
		return r, fmt.Errorf("not an inner key: %T", k)
	}
	r.inner = q
	r.G1.K = make([]G1El, q.N+1)
	return
}
func ValueOfVerifyingKeyFixed[G1El, G2El, GtEl any](k any) (VerifyingKey[G1El, G2El, GtEl], error) {
	return ValueOfVerifyingKey[G1El, G2El, GtEl](k)
}

type Verifier[FR, G1El, G2El, GtEl any] struct{ api frontend.API }

func NewVerifier[FR, G1El, G2El, GtEl any](api frontend.API) (*Verifier[FR, G1El, G2El, GtEl], error) {
	return &Verifier[FR, G1El, G2El, GtEl]{api}, nil
}

type VerifierOption func(*config)
type config struct{ complete bool }

func WithCompleteArithmetic() VerifierOption { return func(c *config) { c.complete = true } }
func WithSubgroupCheck() VerifierOption      { return func(*config) {} }

// AssertProof asserts that a proof holds for a witness under a key.
func (v *Verifier[FR, G1El, G2El, GtEl]) AssertProof(k VerifyingKey[G1El, G2El, GtEl], p Proof[G1El, G2El], w Witness[FR], o ...VerifierOption) error {
	var c config
	for _, f := range o {
		f(&c)
	}
	given := true
	x := make([]*big.Int, len(w.Public))
	for i, e := range w.Public {
		x[i] = e.Value()
		given = given && x[i] != nil
	}
	return v.api.Statement(p.inner, k.inner, x, given, c.complete)
}
