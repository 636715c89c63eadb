// Package frontend runs circuits on values.
package frontend

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark-crypto/ecc/bls12-381/fr"
	groth16_bn254 "github.com/consensys/gnark/backend/groth16/bn254"
	"github.com/consensys/gnark/backend/witness"
	"github.com/consensys/gnark/constraint"
)

type Variable interface{}
type API interface {
	// Statement is called where the circuit asserts that a proof holds.
	Statement(p *groth16_bn254.Proof, k *groth16_bn254.VerifyingKey, v []*big.Int, given bool, complete bool) error
}
type Circuit interface{ Define(api API) error }
type Builder interface{}
type NewBuilder func(*big.Int, any) (Builder, error)
type CompileOption func() error
type WitnessOption func() error

// Limbed is a variable that is several numbers of the field.
type Limbed interface {
	Limbs() []*big.Int
	Given() bool
}

// api records what a circuit asserts.
type api struct {
	compile bool
	inner   *groth16_bn254.VerifyingKey
	n       int
	checked int
}

func (a *api) Statement(p *groth16_bn254.Proof, k *groth16_bn254.VerifyingKey, v []*big.Int, given bool, complete bool) error {
	if k == nil {
		return fmt.Errorf("no key")
	}
	if len(v) != k.N {
		return fmt.Errorf("%d public inputs for a key of %d", len(v), k.N)
	}
	a.inner, a.n = k, len(v)
	if a.compile {
		return nil
	}
	if p == nil || !given {
		return fmt.Errorf("no value for a variable")
	}
	if p.Infinity && !complete {
		return fmt.Errorf("incomplete arithmetic on a point at infinity")
	}
	a.checked++
	return groth16_bn254.Holds(p, k, v)
}

func tagged(f reflect.StructField) (public, skip bool) {
	t := strings.Split(f.Tag.Get("gnark"), ",")
	for _, x := range t[1:] {
		public = public || x == "public"
	}
	return public, t[0] == "-" || !f.IsExported()
}

// fill is the circuit with the variables of an assignment.
func fill(circuit, assignment Circuit) (Circuit, error) {
	c, a := reflect.ValueOf(circuit), reflect.ValueOf(assignment)
	if c.Kind() != reflect.Pointer || c.Type() != a.Type() {
		return nil, fmt.Errorf("an assignment of another circuit")
	}
	r := reflect.New(c.Elem().Type())
	r.Elem().Set(c.Elem())
	for i := 0; i < c.Elem().NumField(); i++ {
		if _, skip := tagged(c.Elem().Type().Field(i)); !skip {
			if err := shape(c.Elem().Field(i), a.Elem().Field(i)); err != nil {
				return nil, err
			}
			r.Elem().Field(i).Set(a.Elem().Field(i))
		}
	}
	return r.Interface().(Circuit), nil
}

// shape compares the lengths of lists of variables.
func shape(c, a reflect.Value) error {
	switch c.Kind() {
	case reflect.Slice:
		if c.Len() != a.Len() {
			return fmt.Errorf("%d variables, %d values", c.Len(), a.Len())
		}
	case reflect.Struct:
		for i := 0; i < c.NumField(); i++ {
			if err := shape(c.Field(i), a.Field(i)); err != nil {
				return err
			}
		}
	}
	return nil
}
func run(circuit, assignment Circuit) error {
	c, err := fill(circuit, assignment)
	if err != nil {
		return err
	}
	return c.Define(&api{})
}

// Solved runs a circuit on an assignment.
func Solved(circuit, assignment Circuit, field *big.Int) error {
	if field.Cmp(ecc.BLS12_381.ScalarField()) != 0 {
		return fmt.Errorf("the stand-in has circuits over BLS12-381 only")
	}
	if err := run(circuit, assignment); err != nil {
		return err
	}
	a := &api{compile: true}
	if err := circuit.Define(a); err != nil {
		return err
	}
	if a.inner != nil && a.inner.Fail == "solve" {
		return fmt.Errorf("the circuit is not solved")
	}
	return nil
}

// Compile a circuit.
func Compile(field *big.Int, newBuilder NewBuilder, circuit Circuit, _ ...CompileOption) (constraint.ConstraintSystem, error) {
	if field.Cmp(ecc.BLS12_381.ScalarField()) != 0 {
		return nil, fmt.Errorf("the stand-in has circuits over BLS12-381 only")
	}
	if _, err := newBuilder(field, nil); err != nil {
		return nil, err
	}
	a := &api{compile: true}
	if err := circuit.Define(a); err != nil {
		return nil, err
	}
	if a.inner != nil && a.inner.Fail == "compile" {
		return nil, fmt.Errorf("the circuit does not compile")
	}
	constraint.FailVerify = a.inner != nil && a.inner.Fail == "verify"
	return &constraint.System{Curve: ecc.BLS12_381, Inner: a.inner, Pub: a.n, Solve: func(w witness.Witness) error {
		c, ok := w.Circuit().(Circuit)
		if !ok {
			return fmt.Errorf("a witness without secret parts")
		}
		return run(circuit, c)
	}}, nil
}

// limbs collects the numbers of the variables below a value.
func limbs(v reflect.Value, out *fr.Vector) error {
	if v.CanInterface() {
		if l, ok := v.Interface().(Limbed); ok {
			if !l.Given() {
				return fmt.Errorf("no value for a variable")
			}
			for _, x := range l.Limbs() {
				var e fr.Element
				*out = append(*out, *e.SetBigInt(x))
			}
			return nil
		}
	}
	switch v.Kind() {
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if err := limbs(v.Index(i), out); err != nil {
				return err
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if err := limbs(v.Field(i), out); err != nil {
				return err
			}
		}
	}
	return nil
}

// NewWitness has the values of an assignment.
func NewWitness(assignment Circuit, field *big.Int, _ ...WitnessOption) (witness.Witness, error) {
	if field.Cmp(ecc.BLS12_381.ScalarField()) != 0 {
		return nil, fmt.Errorf("the stand-in has circuits over BLS12-381 only")
	}
	var public, secret fr.Vector
	v := reflect.ValueOf(assignment).Elem()
	for i := 0; i < v.NumField(); i++ {
		p, skip := tagged(v.Type().Field(i))
		if skip {
			continue
		}
		to := &secret
		if p {
			to = &public
		}
		if err := limbs(v.Field(i), to); err != nil {
			return nil, err
		}
	}
	return &witness.Values{All: append(public, secret...), N: len(public), Full: true, Of: assignment}, nil
}
