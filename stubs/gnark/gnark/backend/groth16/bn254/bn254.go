// Package groth16 has the inner proofs and keys. A proof says what it proves; a key has a name, and what wrapping a
// proof of it gives.
package groth16

import (
	"encoding/json"
	"fmt"
	"io"
	"math/big"

	"github.com/consensys/gnark-crypto/ecc"
	bls "github.com/consensys/gnark-crypto/ecc/bls12-381"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

// Proof of publics under a key.
type Proof struct {
	Key     string   `json:"key"`
	Publics []string `json:"publics"`
	// points at infinity need complete arithmetic
	Infinity bool `json:"infinity"`
}

// Outer is what wrapping gives.
type Outer struct {
	Ar, Krs            bls.G1Affine
	Bs                 bls.G2Affine
	Alpha, Beta, Delta bls.G1Affine
	Beta2, Gamma2      bls.G2Affine
	Delta2             bls.G2Affine
	K                  []bls.G1Affine
	AlphaBeta          bls.GT
}

// VerifyingKey of a circuit.
type VerifyingKey struct {
	Name  string `json:"name"`
	N     int    `json:"n"`
	Outer *Outer `json:"outer"`
	// the step that fails
	Fail string `json:"fail"`
}

func read(r io.Reader, v any) (int64, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	return int64(len(b)), json.Unmarshal(b, v)
}
func write(w io.Writer, v any) (int64, error) {
	b, err := json.Marshal(v)
	if err != nil {
		return 0, err
	}
	n, err := w.Write(b)
	return int64(n), err
}
func (p *Proof) ReadFrom(r io.Reader) (int64, error)        { return read(r, p) }
func (p *Proof) WriteTo(w io.Writer) (int64, error)         { return write(w, p) }
func (p *Proof) CurveID() ecc.ID                            { return ecc.BN254 }
func (k *VerifyingKey) ReadFrom(r io.Reader) (int64, error) { return read(r, k) }
func (k *VerifyingKey) WriteTo(w io.Writer) (int64, error)  { return write(w, k) }
func (k *VerifyingKey) CurveID() ecc.ID                     { return ecc.BN254 }
func (k *VerifyingKey) NbPublicWitness() int                { return k.N }

// Holds says whether a proof proves the values under a key.
func Holds(p *Proof, k *VerifyingKey, v []*big.Int) error {
	if k.Name == "" || p.Key != k.Name {
		return fmt.Errorf("the proof is one for %q, not %q", p.Key, k.Name)
	}
	if len(v) != k.N || len(p.Publics) != k.N {
		return fmt.Errorf("%d public inputs, not %d", len(v), k.N)
	}
	for i, x := range p.Publics {
		if x != v[i].String() {
			return fmt.Errorf("public input %d is %s, not %s", i, v[i], x)
		}
	}
	return nil
}

// Verify a proof.
func Verify(p *Proof, k *VerifyingKey, public fr.Vector, _ ...any) error {
	v := make([]*big.Int, len(public))
	for i := range public {
		v[i] = public[i].BigInt(new(big.Int))
	}
	return Holds(p, k, v)
}
