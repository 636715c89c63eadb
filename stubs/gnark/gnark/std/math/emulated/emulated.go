// Package emulated has numbers of another field as four limbs.
package emulated

import (
	"math/big"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

type Element[T any] struct{ v *big.Int }

// ValueOf a number, modulo the field's size.
func ValueOf[T any](x any) Element[T] {
	var e fr.Element
	switch v := x.(type) {
	case fr.Element:
		e = v
	case *fr.Element:
		e = *v
	default:
		if _, err := e.SetInterface(x); err != nil {
			panic(err)
		}
	}
	return Element[T]{e.BigInt(new(big.Int))}
}

// Value of the element; nil if it has none.
func (e Element[T]) Value() *big.Int { return e.v }
func (e Element[T]) Given() bool     { return e.v != nil }

// Limbs of 64 bits, the least first.
func (e Element[T]) Limbs() []*big.Int {
	mask := new(big.Int).SetUint64(1<<64 - 1)
	r := make([]*big.Int, 4)
	for i := range r {
		r[i] = new(big.Int).Rsh(e.v, uint(64*i))
		r[i].And(r[i], mask)
	}
	return r
}
