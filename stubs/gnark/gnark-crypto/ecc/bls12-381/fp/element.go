// Package fp is a prime field.
package fp

import (
	"encoding/json"
	"math/big"

	"github.com/consensys/gnark-crypto/internal/el"
)

var modulus = el.Int("4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787")

// Modulus of the field.
func Modulus() *big.Int { return new(big.Int).Set(modulus) }

// Bytes of an element.
const Bytes = 48

// Limbs of an element.
const Limbs = Bytes / 8

// Element of the field.
type Element [Limbs]uint64

// Vector of elements.
type Vector []Element

// SetBigInt sets z to v modulo the field's size.
func (z *Element) SetBigInt(v *big.Int) *Element {
	var b [Bytes]byte
	el.Reduce(v, modulus).FillBytes(b[:])
	for i := range z {
		z[i] = 0
		for k := 0; k < 8; k++ {
			z[i] |= uint64(b[Bytes-1-8*i-k]) << (8 * k)
		}
	}
	return z
}

// BigInt sets res to the value of z.
func (z Element) BigInt(res *big.Int) *big.Int {
	res.SetInt64(0)
	for i := Limbs - 1; i >= 0; i-- {
		res.Lsh(res, 64)
		res.Or(res, new(big.Int).SetUint64(z[i]))
	}
	return res
}
func (z *Element) SetZero() *Element           { *z = Element{}; return z }
func (z *Element) SetOne() *Element            { return z.SetBigInt(big.NewInt(1)) }
func (z *Element) SetUint64(v uint64) *Element { return z.SetBigInt(new(big.Int).SetUint64(v)) }
func (z *Element) SetInt64(v int64) *Element   { return z.SetBigInt(big.NewInt(v)) }
func (z *Element) Set(x *Element) *Element     { *z = *x; return z }
func (z *Element) IsZero() bool                { return *z == Element{} }
func (z *Element) IsOne() bool                 { return z.BigInt(new(big.Int)).Cmp(big.NewInt(1)) == 0 }
func (z *Element) Equal(x *Element) bool       { return *z == *x }
func (z *Element) Cmp(x *Element) int {
	return z.BigInt(new(big.Int)).Cmp(x.BigInt(new(big.Int)))
}

// String is the decimal value.
func (z *Element) String() string { return z.BigInt(new(big.Int)).String() }

// Text is the value in a base.
func (z *Element) Text(base int) string { return z.BigInt(new(big.Int)).Text(base) }

// Bytes is the value, most significant byte first.
func (z Element) Bytes() (r [Bytes]byte) {
	z.BigInt(new(big.Int)).FillBytes(r[:])
	return
}

// SetBytes reads a value, most significant byte first.
func (z *Element) SetBytes(b []byte) *Element { return z.SetBigInt(new(big.Int).SetBytes(b)) }

// SetString reads a decimal, or prefixed, value.
func (z *Element) SetString(s string) (*Element, error) {
	v, err := el.From(s)
	if err != nil {
		return nil, err
	}
	return z.SetBigInt(v), nil
}

// SetInterface reads a value of several kinds.
func (z *Element) SetInterface(x any) (*Element, error) {
	v, err := el.From(x)
	if err != nil {
		return nil, err
	}
	return z.SetBigInt(v), nil
}
func (z Element) MarshalJSON() ([]byte, error) { return json.Marshal(z.BigInt(new(big.Int)).String()) }
func (z *Element) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	_, err := z.SetString(s)
	return err
}
