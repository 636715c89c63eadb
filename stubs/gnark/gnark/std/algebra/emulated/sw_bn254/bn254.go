// Package sw_bn254 names the types of BN254 inside a circuit.
package sw_bn254

type ScalarField struct{}
type BaseField struct{}
type G1Affine struct{}
type G2Affine struct{}
type GTEl struct{}
