//! Reference arithmetic: integers modulo p = 2^64 - 2^32 + 1 through u128, and polynomials over them.
use crate::GL_P as P;

pub fn add(a: u64, b: u64) -> u64 {
    ((a as u128 + b as u128) % P as u128) as u64
}
pub fn sub(a: u64, b: u64) -> u64 {
    ((a as u128 + P as u128 - b as u128) % P as u128) as u64
}
pub fn neg(a: u64) -> u64 {
    sub(0, a)
}
pub fn mul(a: u64, b: u64) -> u64 {
    ((a as u128 * b as u128) % P as u128) as u64
}
pub fn pow(a: u64, mut e: u64) -> u64 {
    let (mut r, mut b) = (1u64, a);
    while e > 0 {
        if e & 1 == 1 {
            r = mul(r, b);
        }
        b = mul(b, b);
        e >>= 1;
    }
    r
}
/// Inverse through the extended Euclidean algorithm (not a power, so independent of the code under test).
pub fn inv(a: u64) -> u64 {
    assert!(a % P != 0);
    let (mut r0, mut r1) = (P as i128, (a % P) as i128);
    let (mut t0, mut t1) = (0i128, 1i128);
    while r1 != 0 {
        let q = r0 / r1;
        (r0, r1) = (r1, r0 - q * r1);
        (t0, t1) = (t1, t0 - q * t1);
    }
    t0.rem_euclid(P as i128) as u64
}
/// Montgomery radix of this code base: 2^128 mod p.
pub const MONT: u64 = P - (1 << 32);
const MONT_INV: u64 = 0xFFFF_FFFF; // 2^64: 2^192 = 1 (mod p)
/// canonical -> Montgomery limb and back
pub fn to_mont(a: u64) -> u64 {
    mul(a, MONT)
}
pub fn from_mont(a: u64) -> u64 {
    mul(a, MONT_INV)
}
/// 2^n-th root of unity: 7^((p-1)/2^n)
pub fn root(n: usize) -> u64 {
    pow(7, (P - 1) >> n)
}

/// Multiplication modulo x^n = sum red[k] x^k.
pub fn polmulmod(a: &[u64], b: &[u64], red: &[u64]) -> Vec<u64> {
    let n = a.len();
    assert!(b.len() == n && red.len() == n);
    let mut c = vec![0u64; 2 * n];
    for i in 0..n {
        for j in 0..n {
            c[i + j] = add(c[i + j], mul(a[i], b[j]));
        }
    }
    for k in (n..2 * n).rev() {
        let t = c[k];
        c[k] = 0;
        for (j, r) in red.iter().enumerate() {
            c[k - n + j] = add(c[k - n + j], mul(t, *r));
        }
    }
    c.truncate(n);
    c
}
pub const RED3: [u64; 3] = [1, 1, 0];
pub const RED5: [u64; 5] = [3, 0, 0, 0, 0];

pub type E3 = [u64; 3];
pub fn e3(v: &[u64]) -> E3 {
    [v[0], v[1], v[2]]
}
pub fn e3add(a: E3, b: E3) -> E3 {
    [add(a[0], b[0]), add(a[1], b[1]), add(a[2], b[2])]
}
pub fn e3sub(a: E3, b: E3) -> E3 {
    [sub(a[0], b[0]), sub(a[1], b[1]), sub(a[2], b[2])]
}
pub fn e3mul(a: E3, b: E3) -> E3 {
    e3(&polmulmod(&a, &b, &RED3))
}
pub fn e3base(a: u64) -> E3 {
    [a, 0, 0]
}

/// Evaluation of a base-field polynomial at a base-field point.
pub fn eval(c: &[u64], x: u64) -> u64 {
    c.iter().rev().fold(0, |acc, k| add(mul(acc, x), *k))
}
