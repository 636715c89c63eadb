// Package groth16 proves what a script lets it prove.
package groth16

import (
	"fmt"
	"io"

	"github.com/consensys/gnark-crypto/ecc"
	bls "github.com/consensys/gnark-crypto/ecc/bls12-381"
	groth16_bls12381 "github.com/consensys/gnark/backend/groth16/bls12-381"
	groth16_bn254 "github.com/consensys/gnark/backend/groth16/bn254"
	"github.com/consensys/gnark/backend/witness"
	"github.com/consensys/gnark/constraint"
)

type Proof interface {
	CurveID() ecc.ID
	io.WriterTo
	io.ReaderFrom
}
type VerifyingKey interface {
	CurveID() ecc.ID
	NbPublicWitness() int
	io.WriterTo
	io.ReaderFrom
}
type ProvingKey interface {
	CurveID() ecc.ID
}
type key struct {
	id  ecc.ID
	ccs *constraint.System
}

func (k *key) CurveID() ecc.ID { return k.id }

func NewCS(id ecc.ID) constraint.ConstraintSystem { return &constraint.System{Curve: id} }
func NewProvingKey(id ecc.ID) ProvingKey          { return &key{id: id} }
func NewProof(id ecc.ID) Proof {
	switch id {
	case ecc.BN254:
		return &groth16_bn254.Proof{}
	case ecc.BLS12_381:
		return &groth16_bls12381.Proof{}
	}
	panic("curve")
}
func NewVerifyingKey(id ecc.ID) VerifyingKey {
	switch id {
	case ecc.BN254:
		return &groth16_bn254.VerifyingKey{}
	case ecc.BLS12_381:
		return &groth16_bls12381.VerifyingKey{}
	}
	panic("curve")
}

// Setup of the circuit that checks a proof.
func Setup(r constraint.ConstraintSystem) (ProvingKey, VerifyingKey, error) {
	s := r.(*constraint.System)
	if s.Inner == nil {
		return nil, nil, fmt.Errorf("a circuit that checks nothing")
	}
	if s.Inner.Fail == "setup" {
		return nil, nil, fmt.Errorf("the setup fails")
	}
	o := s.Inner.Outer
	vk := &groth16_bls12381.VerifyingKey{}
	vk.G1.Alpha, vk.G1.Beta, vk.G1.Delta, vk.G1.K = o.Alpha, o.Beta, o.Delta, o.K
	vk.G2.Beta, vk.G2.Gamma, vk.G2.Delta = o.Beta2, o.Gamma2, o.Delta2
	bls.Script(o.Alpha, o.Beta2, o.AlphaBeta)
	return &key{ecc.BLS12_381, s}, vk, nil
}

// Prove that a witness satisfies a circuit.
func Prove(r constraint.ConstraintSystem, pk ProvingKey, w witness.Witness, _ ...any) (Proof, error) {
	s := r.(*constraint.System)
	if pk.(*key).ccs != s {
		return nil, fmt.Errorf("the key of another circuit")
	}
	if s.Inner.Fail == "prove" {
		return nil, fmt.Errorf("the prover fails")
	}
	if err := s.Solve(w); err != nil {
		return nil, err
	}
	o := s.Inner.Outer
	return &groth16_bls12381.Proof{Ar: o.Ar, Bs: o.Bs, Krs: o.Krs}, nil
}

// Verify the outer proof: Prove has looked at the witness already.
func Verify(p Proof, vk VerifyingKey, public witness.Witness, _ ...any) error {
	if _, ok := p.(*groth16_bls12381.Proof); !ok {
		return fmt.Errorf("not an outer proof")
	}
	if public.Secret() {
		return fmt.Errorf("a witness with secret parts")
	}
	if constraint.FailVerify {
		return fmt.Errorf("the outer proof is wrong")
	}
	return nil
}
