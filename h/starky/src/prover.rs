//! A second prover, written from the protocol rather than from `stark_gen`, over which every message can be
//! forged. It shares with the code under test only the commitments, the transcripts and the layout that setup
//! publishes (each of which has its own checks).
use crate::air::{self, Air};
use crate::conv::{gfr, gint, gvec};
use crate::m01::Tree;
use fields::field_gl::Fr as FGL;
use starky::f3g::F3G;
use starky::polsarray::PolKind;
use starky::stark_gen::StarkProof;
use starky::stark_setup::StarkSetup;
use starky::traits::{FieldExtension, MTNodeType, Transcript};
use starky::types::{Expression, PIL};
use std::collections::HashMap;
use vh::gl;

pub type E3 = [u64; 3];
pub const Z3: E3 = [0; 3];
pub const O3: E3 = [1, 0, 0];
pub fn add(a: E3, b: E3) -> E3 {
    gl::e3add(a, b)
}
pub fn sub(a: E3, b: E3) -> E3 {
    gl::e3sub(a, b)
}
/// Goldilocks extended by x^3 = x + 1.
pub fn mul(a: E3, b: E3) -> E3 {
    if b[1] == 0 && b[2] == 0 {
        return scale(a, b[0]);
    }
    let m = |i: usize, j: usize| gl::mul(a[i], b[j]);
    let c0 = m(0, 0);
    let c1 = gl::add(m(0, 1), m(1, 0));
    let c2 = gl::add(gl::add(m(0, 2), m(2, 0)), m(1, 1));
    let c3 = gl::add(m(1, 2), m(2, 1));
    let c4 = m(2, 2);
    // x^3 = x + 1, x^4 = x^2 + x
    [gl::add(c0, c3), gl::add(gl::add(c1, c3), c4), gl::add(c2, c4)]
}
pub fn scale(a: E3, k: u64) -> E3 {
    [gl::mul(a[0], k), gl::mul(a[1], k), gl::mul(a[2], k)]
}
pub fn pow(a: E3, mut e: u64) -> E3 {
    let (mut r, mut b) = (O3, a);
    while e > 0 {
        if e & 1 == 1 {
            r = mul(r, b);
        }
        b = mul(b, b);
        e >>= 1;
    }
    r
}
/// Inverse by solving the linear system a*y = 1.
pub fn inv(a: E3) -> E3 {
    let cols = [a, mul(a, [0, 1, 0]), mul(a, [0, 0, 1])];
    let mut m = [[0u64; 4]; 3];
    for r in 0..3 {
        for c in 0..3 {
            m[r][c] = cols[c][r];
        }
    }
    m[0][3] = 1;
    for c in 0..3 {
        let p = (c..3).find(|r| m[*r][c] != 0).expect("inverse of zero");
        m.swap(c, p);
        let k = gl::inv(m[c][c]);
        for x in m[c].iter_mut() {
            *x = gl::mul(*x, k);
        }
        for r in 0..3 {
            if r != c {
                let k = m[r][c];
                for j in 0..4 {
                    m[r][j] = gl::sub(m[r][j], gl::mul(k, m[c][j]));
                }
            }
        }
    }
    [m[0][3], m[1][3], m[2][3]]
}
pub fn f3(a: E3) -> F3G {
    F3G::new(gfr(a[0]), gfr(a[1]), gfr(a[2]))
}
pub fn e3(f: &F3G) -> E3 {
    let v = gint(&f.as_elements());
    [v[0], *v.get(1).unwrap_or(&0), *v.get(2).unwrap_or(&0)]
}
/// Values -> coefficients over the subgroup of order 2^k (recursive, decimation in time).
fn fft(v: &[E3], w: u64) -> Vec<E3> {
    if v.len() == 1 {
        return v.to_vec();
    }
    let ev: Vec<E3> = v.iter().step_by(2).cloned().collect();
    let od: Vec<E3> = v.iter().skip(1).step_by(2).cloned().collect();
    let w2 = gl::mul(w, w);
    let (e, o) = (fft(&ev, w2), fft(&od, w2));
    let h = e.len();
    let mut out = vec![Z3; v.len()];
    let mut x = 1;
    for i in 0..h {
        let t = scale(o[i], x);
        out[i] = add(e[i], t);
        out[i + h] = sub(e[i], t);
        x = gl::mul(x, w);
    }
    out
}
fn bits(n: usize) -> usize {
    n.trailing_zeros() as usize
}
/// Coefficients of the polynomial with values `v` on shift*<w>.
pub fn coeffs(v: &[E3], shift: u64) -> Vec<E3> {
    let n = v.len();
    let w = gl::inv(gl::root(bits(n)));
    let (ni, si) = (gl::inv(n as u64), gl::inv(shift));
    let mut k = ni;
    fft(v, w)
        .into_iter()
        .map(|c| {
            let r = scale(c, k);
            k = gl::mul(k, si);
            r
        })
        .collect()
}
pub fn values(c: &[E3], shift: u64, n: usize) -> Vec<E3> {
    let mut k = 1;
    let mut v: Vec<E3> = c
        .iter()
        .map(|x| {
            let r = scale(*x, k);
            k = gl::mul(k, shift);
            r
        })
        .collect();
    v.resize(n, Z3);
    fft(&v, gl::root(bits(n)))
}
pub fn horner(c: &[E3], x: E3) -> E3 {
    c.iter().rev().fold(Z3, |a, k| add(mul(a, x), *k))
}
pub const SHIFT: u64 = 49;

pub struct Proving<T: Tree> {
    pub air: Air,
    /// the program as setup left it
    pub pil: PIL,
    pub setup: StarkSetup<T>,
}
/// Builds the setup; a failure is the code's.
pub fn setup<T: Tree>(a: &Air) -> Result<Proving<T>, String> {
    let mut pil = a.pil.clone();
    let l1 = if a.l1 == "Global.L1" { None } else { Some(a.l1.clone()) };
    let setup = StarkSetup::<T>::new(&a.pols(PolKind::Constant), &mut pil, &a.ss, l1).map_err(|e| e.to_string())?;
    Ok(Proving { air: a.clone(), pil, setup })
}
impl<T: Tree> Proving<T> {
    pub fn prove<Tr: Transcript>(&self, a: &Air) -> Result<StarkProof<T>, String> {
        StarkProof::<T>::stark_gen::<Tr>(
            a.pols(PolKind::Commit),
            a.pols(PolKind::Constant),
            &self.setup.const_tree,
            &self.setup.starkinfo,
            &self.setup.program,
            &self.pil,
            &a.ss,
            "273030697313060285579891744179749754319274977764",
        )
        .map_err(|e| e.to_string())
    }
    pub fn verify<Tr: Transcript>(&self, p: &StarkProof<T>) -> Result<bool, String> {
        starky::stark_verify::stark_verify::<T, Tr>(
            p,
            &self.setup.const_root,
            &self.setup.starkinfo,
            &self.air.ss,
            &self.setup.program,
        )
        .map_err(|e| e.to_string())
    }
}

/// What is known at one point.
struct Point<'a> {
    cm: &'a dyn Fn(usize, bool) -> E3,
    co: &'a dyn Fn(usize, bool) -> E3,
    x: E3,
    ch: &'a [E3; 8],
    publics: &'a [E3],
    evals: &'a [E3],
    xdx: E3,
    xdwx: E3,
}
struct Ev<'a> {
    pil: &'a PIL,
    /// replaced by a committed column
    im: &'a HashMap<usize, usize>,
}
impl<'a> Ev<'a> {
    fn exp(&self, id: usize, next: bool, p: &Point, memo: &mut HashMap<(usize, bool), E3>) -> E3 {
        if let Some(c) = self.im.get(&id) {
            return (p.cm)(*c, next);
        }
        if let Some(v) = memo.get(&(id, next)) {
            return *v;
        }
        let v = self.go(&self.pil.expressions[id], next, p, memo);
        memo.insert((id, next), v);
        v
    }
    fn go(&self, e: &Expression, next: bool, p: &Point, memo: &mut HashMap<(usize, bool), E3>) -> E3 {
        let id = e.id.unwrap_or(0);
        let n = next || e.next();
        let vs = e.values.as_deref().unwrap_or(&[]);
        match e.op.as_str() {
            "number" => [air::parse(e.value.as_ref().unwrap()), 0, 0],
            "cm" => (p.cm)(id, n),
            "const" => (p.co)(id, n),
            "exp" => self.exp(id, n, p, memo),
            "public" => p.publics[id],
            "challenge" => p.ch[id],
            "eval" => p.evals[id],
            "x" => p.x,
            "xDivXSubXi" => p.xdx,
            "xDivXSubWXi" => p.xdwx,
            "add" => add(self.go(&vs[0], next, p, memo), self.go(&vs[1], next, p, memo)),
            "sub" => sub(self.go(&vs[0], next, p, memo), self.go(&vs[1], next, p, memo)),
            "mul" => mul(self.go(&vs[0], next, p, memo), self.go(&vs[1], next, p, memo)),
            "neg" => sub(Z3, self.go(&vs[0], next, p, memo)),
            o => panic!("op {o}"),
        }
    }
}

/// Deviations from the honest protocol.
#[derive(Debug, Clone, Default)]
pub struct Attack {
    /// coefficients added to the committed polynomial of a stage-1 column: (column, degree, value)
    pub high: Vec<(usize, usize, u64)>,
    pub publics: Option<Vec<u64>>,
    /// Z polynomials: all zero
    pub zero_z: bool,
    /// h1/h2: the table twice instead of the merged multiset
    pub bad_h: bool,
    /// intermediate columns set to zero
    pub zero_im: bool,
    /// publish quotient evaluations that satisfy the check at xi whatever was committed
    pub lie_q: bool,
    /// leave everything above the legal degree in the last quotient piece
    pub wide_q: bool,
    /// publish a wrong value for one evaluation and repair the quotient
    pub lie_eval: Option<(usize, E3)>,
    /// announce a root of another tree (index 0..5; 4 is the constants)
    pub fake_root: Option<(usize, u64)>,
    /// announce the root of another FRI layer tree
    pub fake_layer: Option<(usize, u64)>,
    /// values added to the codeword of a FRI layer (0 = the input polynomial): (layer, [(position, value)])
    pub noise: Option<(usize, Vec<(usize, E3)>)>,
    /// replace the final polynomial by the nearest one that passes the degree check
    pub truncate_last: bool,
}
pub struct Out<T: Tree> {
    pub proof: StarkProof<T>,
    /// the root the verifier is given for the constants
    pub const_root: T::MTNode,
    /// for each FRI step, whether every query is consistent with the next layer
    pub consistent: Vec<bool>,
    /// degree of the final polynomial
    pub last_deg: usize,
    /// degree of the polynomial handed to FRI
    pub fri_deg: usize,
    pub q_ok: bool,
}

/// The first degree of the FRI polynomial that a folding schedule refuses. It is the number of rows, except
/// when the last polynomial is smaller than the blow-up factor.
pub fn degree_bound(a: &Air) -> usize {
    let last = a.ss.steps.last().unwrap().nBits;
    a.n().max(1 << (a.ss.nBitsExt - last))
}

impl<T: Tree> Proving<T> {
    pub fn forge<Tr: Transcript>(&self, a: &Air, at: &Attack) -> Result<Out<T>, String> {
        let si = &self.setup.starkinfo;
        let n = a.n();
        let ne = 1usize << a.ss.nBitsExt;
        let step = ne / n;
        let im: HashMap<usize, usize> = si.im_exp2cm.clone();
        let ev = Ev { pil: &self.pil, im: &im };
        let none: HashMap<usize, usize> = HashMap::new();
        let ev_raw = Ev { pil: &self.pil, im: &none };
        let w = gl::root(a.ss.nBits);
        let publics: Vec<E3> =
            at.publics.clone().unwrap_or_else(|| a.publics.clone()).iter().map(|v| [*v, 0, 0]).collect();
        let base = |v: &Vec<u64>| -> Vec<E3> { v.iter().map(|x| [*x, 0, 0]).collect() };
        let lde = |v: &[E3]| values(&coeffs(v, 1), SHIFT, ne);
        let mut ch = [Z3; 8];
        // columns on the trace domain and on the coset, by id
        let co_n: Vec<Vec<E3>> = a.consts.iter().map(base).collect();
        let co_e: Vec<Vec<E3>> = co_n.iter().map(|v| lde(v)).collect();
        let total = self.pil.nCommitments;
        let mut cm_n: Vec<Vec<E3>> = a.cm.iter().map(base).collect();
        let mut cm_e: Vec<Vec<E3>> = cm_n.iter().map(|v| lde(v)).collect();
        for (c, d, v) in &at.high {
            let mut k = vec![Z3; *d + 1];
            k[*d] = [*v, 0, 0];
            for (x, y) in cm_e[*c].iter_mut().zip(values(&k, SHIFT, ne)) {
                *x = add(*x, y);
            }
        }
        let tree = |ids: std::ops::Range<usize>, cm_e: &[Vec<E3>], section: &str| -> Result<T, String> {
            let width = si.map_sectionsN.get(section);
            let mut flat = vec![FGL::ZERO; width * ne];
            for id in ids {
                let p = &si.var_pol_map[si.cm_2ns[id]];
                if p.section != section {
                    return Err(format!("layout: column {id} is in {} not {section}", p.section));
                }
                for r in 0..ne {
                    for k in 0..p.dim {
                        flat[r * width + p.section_pos + k] = gfr(cm_e[id][r][k]);
                    }
                    if cm_e[id][r][p.dim..].iter().any(|x| *x != 0) {
                        return Err(format!("layout: column {id} does not fit dimension {}", p.dim));
                    }
                }
            }
            let mut t = T::new();
            t.merkelize(flat, width, ne).map_err(|e| e.to_string())?;
            Ok(t)
        };
        let mut tr = Tr::new();
        let err = |e: anyhow_error| e.to_string();
        let announce = |i: usize, root: T::MTNode| -> T::MTNode {
            match at.fake_root {
                Some((k, v)) if k == i => other_root::<T>(&root, v),
                _ => root,
            }
        };
        for p in &publics {
            tr.put(&[vec![gfr(p[0])]]).map_err(err)?;
        }
        let t1 = tree(0..si.n_cm1, &cm_e, "cm1_2ns")?;
        let root1 = announce(0, t1.root());
        tr.put(&[root1.as_elements().to_vec()]).map_err(err)?;
        ch[0] = e3(&tr.get_field::<F3G>());
        ch[1] = e3(&tr.get_field::<F3G>());
        // evaluates an expression of the program on the trace domain
        let on_n = |id: usize, raw: bool, cm_n: &[Vec<E3>], ch: &[E3; 8]| -> Vec<E3> {
            (0..n)
                .map(|r| {
                    let at = |c: &[E3], nx: bool| c[(r + nx as usize) % n];
                    let p = Point {
                        cm: &|i, nx| at(&cm_n[i], nx),
                        co: &|i, nx| at(&co_n[i], nx),
                        x: [gl::pow(w, r as u64), 0, 0],
                        ch,
                        publics: &publics,
                        evals: &[],
                        xdx: Z3,
                        xdwx: Z3,
                    };
                    let e = if raw { &ev_raw } else { &ev };
                    e.go(&self.pil.expressions[id], false, &p, &mut HashMap::new())
                })
                .collect()
        };
        for pu in &si.pu_ctx {
            let f = on_n(pu.f_exp_id, true, &cm_n, &ch);
            let t = on_n(pu.t_exp_id, true, &cm_n, &ch);
            // the merged sequence: each table row followed by the rows of f that equal it
            let mut s = vec![];
            let mut pos: HashMap<E3, usize> = HashMap::new();
            for (i, x) in t.iter().enumerate() {
                pos.insert(*x, i);
            }
            let mut by: Vec<Vec<E3>> = t.iter().map(|x| vec![*x]).collect();
            for (i, x) in f.iter().enumerate() {
                let k = *pos.get(x).unwrap_or(&i);
                by[k].push(*x);
            }
            for b in by {
                s.extend(b);
            }
            if at.bad_h {
                s = t.iter().flat_map(|x| [*x, *x]).collect();
            }
            for k in 0..2 {
                let v: Vec<E3> = s.iter().skip(k).step_by(2).cloned().collect();
                cm_e.push(lde(&v));
                cm_n.push(v);
            }
        }
        let t2 = tree(si.n_cm1..cm_n.len(), &cm_e, "cm2_2ns")?;
        let root2 = announce(1, t2.root());
        tr.put(&[root2.as_elements().to_vec()]).map_err(err)?;
        ch[2] = e3(&tr.get_field::<F3G>());
        ch[3] = e3(&tr.get_field::<F3G>());
        let n12 = cm_n.len();
        for c in si.pu_ctx.iter().chain(&si.pe_ctx).chain(&si.ci_ctx) {
            let num = on_n(c.num_id, true, &cm_n, &ch);
            let den = on_n(c.den_id, true, &cm_n, &ch);
            let mut z = vec![O3];
            for r in 0..n - 1 {
                let d = if den[r] == Z3 { O3 } else { inv(den[r]) };
                let v = mul(z[r], mul(num[r], d));
                z.push(v);
            }
            if at.zero_z {
                z = vec![Z3; n];
            }
            cm_e.push(lde(&z));
            cm_n.push(z);
        }
        let mut ims = vec![];
        for id in &si.im_exps_list {
            let v = if at.zero_im { vec![Z3; n] } else { on_n(*id, true, &cm_n, &ch) };
            ims.push(v);
        }
        for v in ims {
            cm_e.push(lde(&v));
            cm_n.push(v);
        }
        let t3 = tree(n12..cm_n.len(), &cm_e, "cm3_2ns")?;
        let root3 = announce(2, t3.root());
        tr.put(&[root3.as_elements().to_vec()]).map_err(err)?;
        ch[4] = e3(&tr.get_field::<F3G>());
        // quotient on the coset
        let we = gl::root(a.ss.nBitsExt);
        let xs: Vec<u64> = (0..ne).map(|k| gl::mul(SHIFT, gl::pow(we, k as u64))).collect();
        let mut q = vec![Z3; ne];
        for k in 0..ne {
            let at = |c: &[E3], nx: bool| c[(k + if nx { step } else { 0 }) % ne];
            let p = Point {
                cm: &|i, nx| at(&cm_e[i], nx),
                co: &|i, nx| at(&co_e[i], nx),
                x: [xs[k], 0, 0],
                ch: &ch,
                publics: &publics,
                evals: &[],
                xdx: Z3,
                xdwx: Z3,
            };
            let c = ev.go(&self.pil.expressions[si.c_exp], false, &p, &mut HashMap::new());
            let z = gl::sub(gl::pow(xs[k], n as u64), 1);
            q[k] = scale(c, gl::inv(z));
        }
        let qc = coeffs(&q, SHIFT);
        let n123 = cm_e.len();
        for i in 0..si.q_deg {
            let end = if at.wide_q && i + 1 == si.q_deg { ne } else { (i + 1) * n };
            let piece = &qc[i * n..end];
            cm_e.push(values(piece, SHIFT, ne));
            cm_n.push(vec![]);
        }
        assert_eq!(cm_e.len(), total, "layout: number of columns");
        let t4 = tree(n123..total, &cm_e, "cm4_2ns")?;
        let root4 = announce(3, t4.root());
        tr.put(&[root4.as_elements().to_vec()]).map_err(err)?;
        ch[7] = e3(&tr.get_field::<F3G>());
        let xi = ch[7];
        let wxi = scale(xi, w);
        let cm_c: Vec<Vec<E3>> = cm_e.iter().map(|v| coeffs(v, SHIFT)).collect();
        let co_c: Vec<Vec<E3>> = co_e.iter().map(|v| coeffs(v, SHIFT)).collect();
        let mut evals: Vec<E3> = si
            .ev_map
            .iter()
            .map(|e| {
                let x = if e.prime { wxi } else { xi };
                horner(if e.type_ == "cm" { &cm_c[e.id] } else { &co_c[e.id] }, x)
            })
            .collect();
        if let Some((i, d)) = at.lie_eval {
            let k = i % evals.len().max(1);
            if let Some(v) = evals.get_mut(k) {
                *v = add(*v, d);
            }
        }
        // the value of the constraint polynomial at xi that the published evaluations imply
        let c_xi = |evals: &[E3]| {
            let find = |ty: &str, i: usize, nx: bool| {
                si.ev_map
                    .iter()
                    .position(|e| e.type_ == ty && e.id == i && e.prime == nx)
                    .map(|k| evals[k])
                    .unwrap_or_else(|| {
                        let x = if nx { wxi } else { xi };
                        horner(if ty == "cm" { &cm_c[i] } else { &co_c[i] }, x)
                    })
            };
            let p = Point {
                cm: &|i, nx| find("cm", i, nx),
                co: &|i, nx| find("const", i, nx),
                x: xi,
                ch: &ch,
                publics: &publics,
                evals,
                xdx: Z3,
                xdwx: Z3,
            };
            ev.go(&self.pil.expressions[si.c_exp], false, &p, &mut HashMap::new())
        };
        let xn = pow(xi, n as u64);
        let zh = sub(xn, O3);
        let q_at = |evals: &[E3]| {
            let mut acc = Z3;
            let mut k = O3;
            for i in &si.qs {
                let e = si.ev_map.iter().position(|e| e.type_ == "cm" && e.id == *i && !e.prime).unwrap();
                acc = add(acc, mul(k, evals[e]));
                k = mul(k, xn);
            }
            acc
        };
        if (at.lie_q || at.lie_eval.is_some()) && si.q_deg > 0 {
            let want = mul(c_xi(&evals), inv(zh));
            let d = sub(want, q_at(&evals));
            let e = si.ev_map.iter().position(|e| e.type_ == "cm" && e.id == si.qs[0] && !e.prime).unwrap();
            evals[e] = add(evals[e], d);
        }
        let q_ok = c_xi(&evals) == mul(q_at(&evals), zh);
        for e in &evals {
            for k in e {
                tr.put(&[vec![gfr(*k)]]).map_err(err)?;
            }
        }
        ch[5] = e3(&tr.get_field::<F3G>());
        ch[6] = e3(&tr.get_field::<F3G>());
        let mut f = vec![Z3; ne];
        for k in 0..ne {
            let x = [xs[k], 0, 0];
            let p = Point {
                cm: &|i, _| cm_e[i][k],
                co: &|i, _| co_e[i][k],
                x,
                ch: &ch,
                publics: &publics,
                evals: &evals,
                xdx: mul(x, inv(sub(x, xi))),
                xdwx: mul(x, inv(sub(x, wxi))),
            };
            f[k] = ev.go(&self.pil.expressions[si.fri_exp_id], false, &p, &mut HashMap::new());
        }
        let fri_deg = coeffs(&f, SHIFT).iter().rposition(|c| *c != Z3).unwrap_or(0);
        // FRI
        let steps: Vec<usize> = a.ss.steps.iter().map(|s| s.nBits).collect();
        let mut proof = empty::<T>(steps.len());
        let mut layers: Vec<Vec<E3>> = vec![];
        let mut folds: Vec<Vec<E3>> = vec![];
        let mut trees: Vec<T> = vec![];
        let mut pol = f;
        let mut shift = SHIFT;
        for (i, nb) in steps.iter().enumerate() {
            let special = e3(&tr.get_field::<F3G>());
            let m = 1usize << nb;
            let k = pol.len() / m;
            let wp = gl::root(bits(pol.len()));
            let mut next = if i == 0 {
                pol.clone()
            } else {
                (0..m)
                    .map(|g| {
                        let v: Vec<E3> = (0..k).map(|j| pol[j * m + g]).collect();
                        horner(&coeffs(&v, gl::mul(shift, gl::pow(wp, g as u64))), special)
                    })
                    .collect::<Vec<E3>>()
            };
            for _ in 0..bits(k) {
                shift = gl::mul(shift, shift);
            }
            folds.push(next.clone());
            if let Some((l, noise)) = &at.noise {
                if *l == i {
                    for (p, v) in noise {
                        let p = p % next.len();
                        next[p] = add(next[p], *v);
                    }
                }
            }
            if i + 1 < steps.len() {
                let g = 1usize << steps[i + 1];
                let h = m / g;
                let mut flat = vec![];
                for a in 0..g {
                    for j in 0..h {
                        flat.extend(gvec(&next[j * g + a]));
                    }
                }
                let mut t = T::new();
                t.merkelize(flat, 3 * h, g).map_err(err)?;
                let mut root = t.root();
                if let Some((l, v)) = at.fake_layer {
                    if l == i {
                        root = other_root::<T>(&root, v);
                    }
                }
                proof.fri_proof.queries[i + 1].root = root;
                tr.put(&[root.as_elements().to_vec()]).map_err(err)?;
                trees.push(t);
            } else {
                if at.truncate_last {
                    let mut c = coeffs(&next, 1);
                    let keep = 1usize << nb.saturating_sub(a.ss.nBitsExt - a.ss.nBits);
                    for x in c.iter_mut().skip(keep) {
                        *x = Z3;
                    }
                    next = values(&c, 1, m);
                }
                for e in &next {
                    for k in e {
                        tr.put(&[vec![gfr(*k)]]).map_err(err)?;
                    }
                }
            }
            layers.push(next.clone());
            pol = next;
        }
        let last = layers.last().unwrap();
        let last_deg = coeffs(last, 1).iter().rposition(|c| *c != Z3).unwrap_or(0);
        proof.fri_proof.last = last.iter().map(|e| f3(*e)).collect();
        let ys = tr.get_permutations(a.ss.nQueries, steps[0]).map_err(err)?;
        let mut consistent = vec![];
        for i in 0..steps.len() {
            let mut ok = true;
            for y in &ys {
                let y = y % (1 << steps[i]);
                if i == 0 {
                    proof.fri_proof.queries[0].pol_queries.push(vec![
                        t1.get_group_proof(y).map_err(err)?,
                        t2.get_group_proof(y).map_err(err)?,
                        t3.get_group_proof(y).map_err(err)?,
                        t4.get_group_proof(y).map_err(err)?,
                        self.setup.const_tree.get_group_proof(y).map_err(err)?,
                    ]);
                } else {
                    proof.fri_proof.queries[i].pol_queries.push(vec![trees[i - 1].get_group_proof(y).map_err(err)?]);
                }
                ok &= folds[i][y] == layers[i][y];
            }
            consistent.push(ok);
        }
        proof.root1 = root1;
        proof.root2 = root2;
        proof.root3 = root3;
        proof.root4 = root4;
        proof.evals = evals.iter().map(|e| f3(*e)).collect();
        proof.publics = publics.iter().map(|e| F3G::from(gfr(e[0]))).collect();
        let const_root = announce(4, self.setup.const_root);
        proof.rootC = Some(const_root);
        Ok(Out { proof, const_root, consistent, last_deg, fri_deg, q_ok })
    }
    pub fn verify_with_root<Tr: Transcript>(&self, p: &StarkProof<T>, root: &T::MTNode) -> Result<bool, String> {
        starky::stark_verify::stark_verify::<T, Tr>(p, root, &self.setup.starkinfo, &self.air.ss, &self.setup.program)
            .map_err(|e| e.to_string())
    }
}
#[allow(non_camel_case_types)]
type anyhow_error = anyhow::Error;

pub fn other_root<T: Tree>(r: &T::MTNode, v: u64) -> T::MTNode {
    let mut e = r.as_elements().to_vec();
    let k = (v % 4) as usize;
    e[k] = e[k] + gfr(1 + v % 7);
    T::MTNode::new(&e)
}
/// An accepted verdict is `Ok(true)` without a panic; everything else is a refusal.
pub fn accepted(r: impl FnOnce() -> Result<bool, String>) -> bool {
    matches!(vh::guard(r), Ok(Ok(true)))
}
pub fn empty<T: Tree>(steps: usize) -> StarkProof<T> {
    let mut p = StarkProof::<T> {
        root1: Default::default(),
        root2: Default::default(),
        root3: Default::default(),
        root4: Default::default(),
        fri_proof: Default::default(),
        evals: vec![],
        publics: vec![],
        rootC: None,
        prover_addr: String::new(),
    };
    for _ in 0..steps {
        p.fri_proof.queries.push(Default::default());
    }
    p
}
pub fn dup<T: Tree>(p: &StarkProof<T>) -> StarkProof<T> {
    let mut o = empty::<T>(p.fri_proof.queries.len());
    o.root1 = p.root1;
    o.root2 = p.root2;
    o.root3 = p.root3;
    o.root4 = p.root4;
    o.fri_proof.last = p.fri_proof.last.clone();
    for (a, b) in o.fri_proof.queries.iter_mut().zip(&p.fri_proof.queries) {
        a.root = b.root;
        a.pol_queries = b.pol_queries.clone();
    }
    o.evals = p.evals.clone();
    o.publics = p.publics.clone();
    o.rootC = p.rootC;
    o.prover_addr = p.prover_addr.clone();
    o
}
