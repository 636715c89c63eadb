//! Constraint systems with custom gates, their meaning, and generators of satisfying assignments.
use vh::gl::{self, *};
use vh::{Src, GL_P};

pub type Lc = Vec<(usize, u64)>;

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Poseidon,
    CMulAdd,
    EvPol,
    /// first w, its increment, scale, type (4 or 2)
    Fft([u64; 4]),
}
impl Kind {
    pub fn name(&self) -> &'static str {
        match self {
            Kind::Poseidon => "Poseidon12",
            Kind::CMulAdd => "CMulAdd",
            Kind::EvPol => "EvPol4",
            Kind::Fft(_) => "FFT4",
        }
    }
    pub fn params(&self) -> Vec<u64> {
        match self {
            Kind::Fft(p) => p.to_vec(),
            _ => vec![],
        }
    }
    /// number of signals, and of those that are free
    pub fn arity(&self) -> (usize, usize) {
        match self {
            Kind::Poseidon => (372, 12),
            Kind::CMulAdd => (12, 9),
            Kind::EvPol => (21, 18),
            Kind::Fft(_) => (24, 12),
        }
    }
    /// The dependent signals from the free ones.
    pub fn apply(&self, v: &[u64]) -> Vec<u64> {
        let x = |k: usize| e3(&v[3 * k..3 * k + 3]);
        let scale = |e: E3, s: u64| e3mul(e, e3base(s));
        let flat = |o: Vec<E3>| o.into_iter().flatten().collect::<Vec<u64>>();
        match self {
            Kind::CMulAdd => flat(vec![e3add(e3mul(x(0), x(1)), x(2))]),
            Kind::EvPol => {
                // c0 + c1 x + .. + c4 x^4
                let mut pw = e3base(1);
                let mut s = e3base(0);
                for k in 0..5 {
                    s = e3add(s, e3mul(x(k), pw));
                    pw = e3mul(pw, x(5));
                }
                flat(vec![s])
            }
            Kind::Fft([w, inc, s, t]) => {
                let w2 = mul(*w, *w);
                let o = if *t == 4 {
                    // two butterflies of the first layer, then two of the second
                    let (e0, e1) = (e3add(x(0), scale(x(1), w2)), e3sub(x(0), scale(x(1), w2)));
                    let (o0, o1) = (e3add(x(2), scale(x(3), w2)), e3sub(x(2), scale(x(3), w2)));
                    let (t0, t1) = (scale(o0, *w), scale(o1, mul(*w, *inc)));
                    vec![e3add(e0, t0), e3add(e1, t1), e3sub(e0, t0), e3sub(e1, t1)]
                } else {
                    let (t0, t1) = (scale(x(1), *w), scale(x(3), mul(*w, *inc)));
                    vec![e3add(x(0), t0), e3sub(x(0), t0), e3add(x(2), t1), e3sub(x(2), t1)]
                };
                flat(o.into_iter().map(|e| scale(e, *s)).collect())
            }
            Kind::Poseidon => {
                let mut s: [u64; 12] = v[..12].try_into().unwrap();
                let mut o = vec![];
                for r in 0..30 {
                    s = href::gl_round(&s, r);
                    o.extend(s);
                }
                o
            }
        }
    }
    pub fn holds(&self, v: &[u64]) -> bool {
        let (n, f) = self.arity();
        v.len() == n && self.apply(&v[..f]) == v[f..]
    }
}

#[derive(Clone, Debug, Default)]
pub struct Sys {
    pub n_out: usize,
    pub n_in: usize,
    pub n_wires: usize,
    pub cons: Vec<[Lc; 3]>,
    pub gates: Vec<Kind>,
    pub uses: Vec<(usize, Vec<usize>)>,
}
pub fn lc(l: &Lc, w: &[u64]) -> u64 {
    l.iter().fold(0, |a, (i, c)| add(a, mul(*c, w[*i])))
}
impl Sys {
    pub fn n_pub(&self) -> usize {
        self.n_out + self.n_in
    }
    pub fn cons_hold(&self, w: &[u64]) -> bool {
        self.cons.iter().all(|[a, b, c]| mul(lc(a, w), lc(b, w)) == lc(c, w))
    }
    pub fn holds(&self, w: &[u64]) -> bool {
        self.cons_hold(w) && self.uses.iter().all(|(g, s)| self.gates[*g].holds(&s.iter().map(|i| w[*i]).collect::<Vec<_>>()))
    }
    /// The binary form of an R1CS over Goldilocks.
    pub fn file(&self) -> Vec<u8> {
        let u32b = |f: &mut Vec<u8>, x: usize| f.extend((x as u32).to_le_bytes());
        let mut secs: Vec<(u32, Vec<u8>)> = vec![];
        let mut s = vec![];
        u32b(&mut s, 8);
        s.extend(GL_P.to_le_bytes());
        for x in [self.n_wires, self.n_out, self.n_in, 0] {
            u32b(&mut s, x);
        }
        s.extend((self.n_wires as u64).to_le_bytes());
        u32b(&mut s, self.cons.len());
        secs.push((1, s));
        let mut s = vec![];
        for l in self.cons.iter().flatten() {
            u32b(&mut s, l.len());
            for (i, c) in l {
                u32b(&mut s, *i);
                s.extend(c.to_le_bytes());
            }
        }
        secs.push((2, s));
        secs.push((3, (0..self.n_wires as u64).flat_map(|x| x.to_le_bytes()).collect()));
        if !self.gates.is_empty() {
            let mut s = vec![];
            u32b(&mut s, self.gates.len());
            for g in &self.gates {
                s.extend(g.name().as_bytes());
                s.push(0);
                u32b(&mut s, g.params().len());
                for p in g.params() {
                    s.extend(p.to_le_bytes());
                }
            }
            secs.push((4, s));
            let mut s = vec![];
            u32b(&mut s, self.uses.len());
            for (g, sig) in &self.uses {
                u32b(&mut s, *g);
                u32b(&mut s, sig.len());
                for x in sig {
                    s.extend((*x as u64).to_le_bytes());
                }
            }
            secs.push((5, s));
        }
        let mut f = b"r1cs".to_vec();
        u32b(&mut f, 1);
        u32b(&mut f, secs.len());
        for (t, s) in secs {
            f.extend(t.to_le_bytes());
            f.extend((s.len() as u64).to_le_bytes());
            f.extend(s);
        }
        f
    }
}
pub fn coef(s: &mut Src) -> u64 {
    match s.weighted(&[4, 3, 2, 4]) {
        0 => 1,
        1 => GL_P - 1,
        2 => 0,
        _ => s.gl(),
    }
}
/// A linear combination of distinct wires.
pub fn gen_lc(s: &mut Src, n_wires: usize) -> Lc {
    match s.weighted(&[6, 2, 4, 3]) {
        // one wire and perhaps a constant
        0 => {
            let mut l = vec![];
            if n_wires > 1 {
                l.push((1 + s.usize(n_wires - 1), coef(s)));
            }
            if s.chance(1, 3) {
                l.push((0, coef(s)));
            }
            l
        }
        1 => vec![],
        2 => vec![(0, coef(s))],
        _ if n_wires > 100 => {
            // now and then a long one
            let n = if s.chance(1, 20) { s.usize(200) } else { s.usize(9) };
            let mut idx: Vec<usize> = vec![];
            for _ in 0..n {
                let i = s.usize(n_wires);
                if !idx.contains(&i) {
                    idx.push(i);
                }
            }
            idx.iter().map(|i| (*i, coef(s))).collect()
        }
        _ => {
            let mut idx: Vec<usize> = (0..n_wires).collect();
            s.shuffle(&mut idx);
            let n = s.usize(idx.len().min(8) + 1);
            idx[..n].iter().map(|i| (*i, coef(s))).collect()
        }
    }
}
/// A map of wires 1.. onto themselves.
fn shuffled(s: &mut Src, n: usize) -> Vec<usize> {
    let mut p: Vec<usize> = (1..n).collect();
    if n > 100 {
        let k = s.usize(n - 1);
        p.rotate_left(k);
    } else {
        s.shuffle(&mut p);
    }
    p
}
/// Adds to the constant term of the third combination what is missing under w.
pub fn settle(c: &mut [Lc; 3], w: &[u64]) {
    let d = gl::sub(mul(lc(&c[0], w), lc(&c[1], w)), lc(&c[2], w));
    if d != 0 {
        match c[2].iter().position(|t| t.0 == 0) {
            Some(k) => c[2][k].1 = add(c[2][k].1, d),
            None => c[2].push((0, d)),
        }
    }
}
pub fn gen_kind(s: &mut Src) -> Kind {
    match s.weighted(&[4, 4, 4, 1]) {
        0 => Kind::CMulAdd,
        1 => Kind::EvPol,
        2 => {
            let t = *s.pick(&[4, 2]);
            Kind::Fft([s.gl(), s.gl(), s.gl(), t])
        }
        _ => Kind::Poseidon,
    }
}
/// The gates a circuit declares: the first three once at most, transforms with different parameters.
pub fn gen_gates(s: &mut Src, n: usize) -> Vec<Kind> {
    let mut g: Vec<Kind> = vec![];
    for _ in 0..n {
        let k = gen_kind(s);
        if !g.contains(&k) {
            g.push(k);
        }
    }
    g
}
/// A gate use on existing wires; dependent signals become new wires. w grows with them.
pub fn gen_use(s: &mut Src, sys: &mut Sys, w: &mut Vec<u64>, g: usize) {
    let k = sys.gates[g].clone();
    let (_, f) = k.arity();
    let mut sig: Vec<usize> = vec![];
    for _ in 0..f {
        // wire 0 is the constant and never a signal of a gate
        if w.len() > 1 && s.chance(3, 4) {
            sig.push(1 + s.usize(w.len() - 1));
        } else {
            w.push(s.gl());
            sig.push(w.len() - 1);
        }
    }
    let v: Vec<u64> = sig.iter().map(|i| w[*i]).collect();
    for o in k.apply(&v) {
        w.push(o);
        sig.push(w.len() - 1);
    }
    sys.n_wires = w.len();
    sys.uses.push((g, sig));
}
/// A system that its assignment satisfies.
pub fn gen_sys(s: &mut Src, max_pub: usize, max_cons: usize, max_gates: usize) -> (Sys, Vec<u64>) {
    let n_out = s.usize(max_pub / 2 + 1);
    let n_in = s.usize(max_pub - max_pub / 2 + 1);
    let n0 = n_out + n_in + 1 + s.usize(8);
    let mut w = vec![1u64];
    w.extend(s.many(n0 - 1, |s| s.gl()));
    let mut sys = Sys { n_out, n_in, n_wires: n0, ..Default::default() };
    if max_gates > 0 && s.chance(3, 4) {
        let n = s.range(1, 4);
        sys.gates = gen_gates(s, n);
        for _ in 0..s.usize(max_gates + 1) {
            let g = s.usize(sys.gates.len());
            gen_use(s, &mut sys, &mut w, g);
        }
    }
    sys.n_wires = w.len();
    let n = s.usize(max_cons + 1);
    // a small stock of shapes solved for a new wire, so that rows are shared
    let stock: Vec<([Lc; 3], u64)> = s.vec(0, 3, |s| {
        let c = if s.chance(1, 2) { vec![] } else { gen_lc(s, w.len()) };
        let k = coef(s).max(1);
        ([gen_lc(s, w.len()), gen_lc(s, w.len()), c], k)
    });
    for _ in 0..n {
        let mut c;
        if !stock.is_empty() && s.chance(2, 3) {
            let (shape, k) = s.pick(&stock).clone();
            c = shape;
            // same coefficients, other wires
            let perm = if s.chance(3, 4) { shuffled(s, w.len()) } else { (1..w.len()).collect() };
            for t in c.iter_mut().flatten().filter(|t| t.0 > 0) {
                t.0 = perm[t.0 - 1]
            }
            let d = gl::sub(mul(lc(&c[0], &w), lc(&c[1], &w)), lc(&c[2], &w));
            c[2].push((w.len(), k));
            w.push(mul(d, inv(k)));
        } else {
            c = [gen_lc(s, w.len()), gen_lc(s, w.len()), gen_lc(s, w.len())];
            settle(&mut c, &w);
        }
        sys.cons.push(c);
    }
    sys.n_wires = w.len();
    (sys, w)
}
/// Changes some wires (never the constant); the result may or may not satisfy the system.
pub fn alter(s: &mut Src, w: &[u64]) -> Vec<u64> {
    let mut v = w.to_vec();
    if v.len() < 2 {
        return v;
    }
    for _ in 0..s.range(1, 2) {
        let i = 1 + s.usize(v.len() - 1);
        v[i] = match s.weighted(&[3, 1, 1, 1]) {
            0 => add(v[i], 1),
            1 => s.gl(),
            2 => neg(v[i]),
            _ => v[1 + s.usize(v.len() - 1)],
        };
    }
    v
}
