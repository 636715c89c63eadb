//! T01: transcripts as histories of absorb and squeeze operations.
use crate::conv::{gfr, gint, gvec, limb_overflow, node_limbs, scalar, Kind};
use href::{Bls, Bn, FrTranscript, GlTranscript, Spec};
use starky::f3g::F3G;
use starky::traits::{FieldExtension, Transcript};
use starky::transcript::TranscriptGL;
use starky::transcript_bls12381::TranscriptBLS128;
use starky::transcript_bn128::TranscriptBN128;
use vh::{ensure, ensure_eq, Ctx, Fail, Res, Src};

#[derive(Debug, Clone)]
enum Op<D> {
    Put(Vec<D>),
    Field,
    Field1,
    Perm(usize, usize),
}
/// What the 256-bit transcripts absorb: an element or a digest.
#[derive(Debug, Clone, PartialEq)]
enum Item<F> {
    One(u64),
    Scalar(F),
}

fn ops<D: Clone>(s: &mut Src, mut item: impl FnMut(&mut Src) -> D) -> Vec<Op<D>> {
    s.vec(1, 24, |s| match s.weighted(&[6, 3, 2, 1]) {
        0 => {
            let n = match s.weighted(&[3, 2, 1]) {
                0 => s.range(0, 3),
                1 => s.range(4, 9),
                _ => s.range(10, 40),
            };
            Op::Put(s.many(n, &mut item))
        }
        1 => Op::Field,
        2 => Op::Field1,
        _ => {
            let nbits = s.range(1, 28);
            Op::Perm(s.range(1, 40), nbits)
        }
    })
}
/// From a seed: more operations, longer puts, more squeezed bits.
fn long_ops<D: Clone>(s: &mut Src, mut item: impl FnMut(&mut Src) -> D) -> Vec<Op<D>> {
    let (count, most) = *s.pick(&[(300usize, 10usize), (40, 300), (6, 5000)]);
    let q = &mut Src::random(s.u64());
    (0..1 + q.usize(count))
        .map(|_| match q.weighted(&[5, 3, 3, 2]) {
            0 => {
                let n = q.usize(most);
                Op::Put(q.many(n, &mut item))
            }
            1 => Op::Field,
            2 => Op::Field1,
            _ => {
                let (n, nbits) = if q.bool() { (q.range(1, 300), q.range(1, 40)) } else { (q.range(1, 3), q.range(1, 62)) };
                Op::Perm(n, nbits)
            }
        })
        .collect()
}
trait Plain {
    type Item: Clone + std::fmt::Debug + PartialEq;
    fn fresh() -> Self;
    fn absorb(&mut self, i: &Self::Item);
    fn get(&mut self) -> u64;
    fn perm(&mut self, n: usize, b: usize) -> Vec<usize>;
    fn code(i: &Self::Item) -> Vec<fields::field_gl::Fr>;
    /// the values one item absorbs
    fn vals(i: &Self::Item) -> Vec<[u64; 4]>;
    fn gen(s: &mut Src) -> Self::Item;
}
impl Plain for GlTranscript {
    type Item = Vec<u64>;
    fn fresh() -> Self {
        Self::default()
    }
    fn absorb(&mut self, i: &Vec<u64>) {
        i.iter().for_each(|v| self.put(*v));
    }
    fn get(&mut self) -> u64 {
        self.get1()
    }
    fn perm(&mut self, n: usize, b: usize) -> Vec<usize> {
        self.permutations(n, b)
    }
    fn code(i: &Vec<u64>) -> Vec<fields::field_gl::Fr> {
        gvec(i)
    }
    fn vals(i: &Vec<u64>) -> Vec<[u64; 4]> {
        i.iter().map(|v| [*v, 0, 0, 0]).collect()
    }
    fn gen(s: &mut Src) -> Vec<u64> {
        let n = *s.pick(&[1usize, 3, 4, 0, 2, 5, 8, 9]);
        s.many(n, |s| s.gl())
    }
}
impl<S: Spec + Kind> Plain for FrTranscript<S> {
    type Item = Item<S::F>;
    fn fresh() -> Self {
        Self::default()
    }
    fn absorb(&mut self, i: &Item<S::F>) {
        match i {
            Item::One(v) => self.put(href::reduce([*v, 0, 0, 0])),
            Item::Scalar(f) => self.put(*f),
        }
    }
    fn get(&mut self) -> u64 {
        self.get1()
    }
    fn perm(&mut self, n: usize, b: usize) -> Vec<usize> {
        self.permutations(n, b)
    }
    fn code(i: &Item<S::F>) -> Vec<fields::field_gl::Fr> {
        match i {
            Item::One(v) => vec![gfr(*v)],
            // four limbs denote a digest node
            Item::Scalar(f) => gvec(&node_limbs(f)),
        }
    }
    fn vals(i: &Item<S::F>) -> Vec<[u64; 4]> {
        match i {
            Item::One(v) => vec![[*v, 0, 0, 0]],
            Item::Scalar(f) => vec![href::to_limbs(f)],
        }
    }
    fn gen(s: &mut Src) -> Item<S::F> {
        if s.chance(1, 2) {
            let f = scalar::<S>(s);
            if !limb_overflow(&f) {
                return Item::Scalar(f);
            }
        }
        Item::One(s.gl())
    }
}

#[derive(Debug, Clone, PartialEq)]
enum Out {
    F(Vec<u64>),
    P(Vec<usize>),
}
fn run_code<T: Transcript, P: Plain>(ops: &[Op<P::Item>], split: bool) -> Result<Vec<Out>, Fail> {
    let mut t = T::new();
    let mut out = vec![];
    for o in ops {
        match o {
            Op::Put(items) => {
                let v: Vec<_> = items.iter().map(P::code).collect();
                if split {
                    for x in v {
                        t.put(&[x]).map_err(|e| e.to_string())?;
                    }
                } else {
                    t.put(&v).map_err(|e| e.to_string())?;
                }
            }
            Op::Field => {
                let f: F3G = t.get_field();
                ensure_eq!(f.dim(), 3, "dimension of a challenge");
                out.push(Out::F(gint(&f.as_elements())));
            }
            Op::Field1 => out.push(Out::F(vec![t.get_fields1().map_err(|e| e.to_string())?.as_int()])),
            Op::Perm(n, b) => out.push(Out::P(t.get_permutations(*n, *b).map_err(|e| e.to_string())?)),
        }
    }
    Ok(out)
}
fn run_plain<P: Plain>(ops: &[Op<P::Item>]) -> Vec<Out> {
    let mut t = P::fresh();
    let mut out = vec![];
    for o in ops {
        match o {
            Op::Put(items) => items.iter().for_each(|i| t.absorb(i)),
            Op::Field => out.push(Out::F((0..3).map(|_| t.get()).collect())),
            Op::Field1 => out.push(Out::F(vec![t.get()])),
            Op::Perm(n, b) => out.push(Out::P(t.perm(*n, *b))),
        }
    }
    out
}
fn history<T: Transcript, P: Plain>(ops: &[Op<P::Item>]) -> Res {
    let want = run_plain::<P>(ops);
    let got = run_code::<T, P>(ops, false)?;
    ensure_eq!(got, want, "challenges");
    ensure_eq!(run_code::<T, P>(ops, true)?, want, "challenges with one put per value");
    for (o, w) in ops.iter().filter(|o| !matches!(o, Op::Put(_))).zip(&got) {
        if let (Op::Perm(n, b), Out::P(v)) = (o, w) {
            ensure_eq!(v.len(), *n, "number of positions");
            ensure!(v.iter().all(|x| *x < 1 << b), "position outside of 2^{b}: {v:?}");
        }
    }
    Ok(())
}
/// Absorb before and after, then squeeze; an edit of what was absorbed must change the challenges.
fn binding<T: Transcript, P: Plain>(pre: &[Op<P::Item>], edit: &Edit<P::Item>) -> Result<bool, Fail> {
    let mut a = pre.to_vec();
    let mut b = pre.to_vec();
    let Op::Put(items) = &pre[edit.op] else { return Ok(false) };
    let mut items = items.clone();
    match edit.kind {
        0 if !items.is_empty() => {
            let i = edit.at % items.len();
            if items[i] == edit.item {
                return Ok(false);
            }
            items[i] = edit.item.clone();
        }
        1 => items.insert(edit.at % (items.len() + 1), edit.item.clone()),
        2 if !items.is_empty() => {
            items.remove(edit.at % items.len());
        }
        3 if items.len() > 1 => {
            let (i, j) = (edit.at % items.len(), (edit.at + 1) % items.len());
            items.swap(i, j);
        }
        _ => return Ok(false),
    }
    // the sequence of absorbed values must really differ beyond trailing zero padding of a block
    let flat = |v: &[P::Item]| v.iter().flat_map(|i| P::vals(i)).collect::<Vec<_>>();
    let Op::Put(old) = &pre[edit.op] else { unreachable!() };
    let (mut x, mut y) = (flat(old), flat(&items));
    for v in [&mut x, &mut y] {
        while v.last() == Some(&[0; 4]) {
            v.pop();
        }
    }
    if x == y {
        return Ok(false);
    }
    b[edit.op] = Op::Put(items);
    a.truncate(edit.op + 1);
    b.truncate(edit.op + 1);
    for v in [&mut a, &mut b] {
        v.extend([Op::Field1, Op::Field, Op::Perm(8, 20)]);
    }
    let (ra, rb) = (run_code::<T, P>(&a, false)?, run_code::<T, P>(&b, false)?);
    let k = ra.len() - 3;
    for i in k..ra.len() {
        ensure!(ra[i] != rb[i], "challenge {} does not depend on the absorbed values", i - k);
    }
    Ok(true)
}
#[derive(Debug)]
struct Edit<D> {
    op: usize,
    kind: u64,
    at: usize,
    item: D,
}

fn both<T: Transcript, P: Plain>(ctx: &mut Ctx, name: &str, quick: u64, thorough: u64) {
    ctx.sub(&format!("{name}_history"), quick, thorough)
        .rule("1..24 operations: put of 0..40 values (elements, extension elements, digests), get_field, get_fields1, get_permutations; trivial when nothing is absorbed before something is squeezed")
        .run(
            |s| ops(s, P::gen),
            |o, info| {
                let first_put = o.iter().position(|x| matches!(x, Op::Put(v) if !v.is_empty()));
                let last_get = o.iter().rposition(|x| !matches!(x, Op::Put(_)));
                match (first_put, last_get) {
                    (Some(p), Some(g)) if p < g => {}
                    _ => info.trivial(),
                }
                if o.windows(3).any(|w| matches!(w, [Op::Field1, Op::Put(_), Op::Field1])) {
                    info.class("put between two single-element squeezes");
                }
                history::<T, P>(o)
            },
        );
    ctx.sub(&format!("{name}_long"), quick / 100, thorough / 100)
        .shrink(10)
        .rule("up to 300 operations, puts of up to 5000 values, up to 12000 bits of query positions; every case")
        .run(|s| long_ops(s, P::gen), |o, _| history::<T, P>(o));
    ctx.sub(&format!("{name}_binding"), quick / 2, thorough / 2)
        .rule("a history and one edit of an absorbed value (change, insert, remove, swap); trivial when the edit does not change the absorbed sequence")
        .run(
            |s| {
                let mut o = ops(s, P::gen);
                if !o.iter().any(|x| matches!(x, Op::Put(_))) {
                    o.push(Op::Put(vec![P::gen(s)]));
                }
                let puts: Vec<usize> = o.iter().enumerate().filter(|(_, x)| matches!(x, Op::Put(_))).map(|(i, _)| i).collect();
                let e = Edit { op: *s.pick(&puts), kind: s.below(4), at: s.usize(40), item: P::gen(s) };
                (o, e)
            },
            |(o, e), info| {
                info.evals(1);
                if !binding::<T, P>(o, e)? {
                    info.trivial();
                }
                Ok(())
            },
        );
}

pub fn run(ctx: &mut Ctx) {
    both::<TranscriptGL, GlTranscript>(ctx, "GL", 40_000, 800_000);
    both::<TranscriptBN128, FrTranscript<Bn>>(ctx, "BN128", 12_000, 200_000);
    both::<TranscriptBLS128, FrTranscript<Bls>>(ctx, "BLS12381", 12_000, 200_000);
    ctx.assume("absorbed blocks are padded with zeros, so two histories that differ only in trailing zeros of a block are treated as equal (the published sponge has no length padding)");
}
