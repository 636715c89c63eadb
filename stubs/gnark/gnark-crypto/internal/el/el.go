// Package el has the arithmetic of the fields of the stand-ins: a canonical number below a modulus.
package el

import (
	"fmt"
	"math/big"
)

// Reduce is the canonical value of a number.
func Reduce(v, mod *big.Int) *big.Int { return new(big.Int).Mod(v, mod) }

// Int is a number from its digits.
func Int(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 0)
	if !ok {
		panic("number: " + s)
	}
	return v
}

// From is the value an interface holds.
func From(x any) (*big.Int, error) {
	switch v := x.(type) {
	case *big.Int:
		return v, nil
	case big.Int:
		return &v, nil
	case uint64:
		return new(big.Int).SetUint64(v), nil
	case int:
		return big.NewInt(int64(v)), nil
	case int64:
		return big.NewInt(v), nil
	case string:
		r, ok := new(big.Int).SetString(v, 0)
		if !ok {
			return nil, fmt.Errorf("not a number: %s", v)
		}
		return r, nil
	}
	return nil, fmt.Errorf("not a number: %T", x)
}
