// Package groth16 has the outer proofs and keys.
package groth16

import (
	"errors"
	"io"

	"github.com/consensys/gnark-crypto/ecc"
	bls "github.com/consensys/gnark-crypto/ecc/bls12-381"
)

type Proof struct {
	Ar, Krs bls.G1Affine
	Bs      bls.G2Affine
}
type VerifyingKey struct {
	G1 struct {
		Alpha, Beta, Delta bls.G1Affine
		K                  []bls.G1Affine
	}
	G2 struct {
		Beta, Delta, Gamma bls.G2Affine
	}
}

var errNo = errors.New("not in the stand-in")

func (p *Proof) ReadFrom(io.Reader) (int64, error)        { return 0, errNo }
func (p *Proof) WriteTo(io.Writer) (int64, error)         { return 0, errNo }
func (p *Proof) CurveID() ecc.ID                          { return ecc.BLS12_381 }
func (k *VerifyingKey) ReadFrom(io.Reader) (int64, error) { return 0, errNo }
func (k *VerifyingKey) WriteTo(io.Writer) (int64, error)  { return 0, errNo }
func (k *VerifyingKey) CurveID() ecc.ID                   { return ecc.BLS12_381 }
func (k *VerifyingKey) NbPublicWitness() int              { return len(k.G1.K) - 1 }
