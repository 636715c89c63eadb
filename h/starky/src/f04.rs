//! F04: number-theoretic transforms against direct evaluation.
use crate::f02::Ext;
use starky::f3g::F3G;
use starky::fft::FFT;
use starky::fft_p;
use starky::polutils::extend_pol;
use starky::traits::FieldExtension;
use vh::gl;
use vh::{ensure_eq, Ctx, Fail, Src};

fn coef(s: &mut Src, dim3: bool) -> Vec<u64> {
    if dim3 {
        s.many(3, |s| s.gl())
    } else {
        vec![s.gl()]
    }
}
type El = gl::E3;
fn el(v: &[u64]) -> El {
    [v[0], *v.get(1).unwrap_or(&0), *v.get(2).unwrap_or(&0)]
}
fn got(x: &F3G) -> El {
    gl::e3(&x.coords())
}
fn scale(a: El, k: u64) -> El {
    [gl::mul(a[0], k), gl::mul(a[1], k), gl::mul(a[2], k)]
}
fn eval(c: &[El], x: u64) -> El {
    c.iter().rev().fold([0; 3], |acc, k| gl::e3add(scale(acc, x), *k))
}
fn dft(c: &[El], n_out: usize, shift: u64) -> Vec<El> {
    let bits = n_out.trailing_zeros() as usize;
    let w = gl::root(bits);
    let mut x = shift;
    (0..n_out)
        .map(|_| {
            let v = eval(c, x);
            x = gl::mul(x, w);
            v
        })
        .collect()
}
fn idft(v: &[El]) -> Vec<El> {
    let n = v.len();
    let w = gl::inv(gl::root(n.trailing_zeros() as usize));
    let ninv = gl::inv(n as u64);
    let mut x = 1;
    (0..n)
        .map(|_| {
            let r = scale(eval(v, x), ninv);
            x = gl::mul(x, w);
            r
        })
        .collect()
}
fn column(buf: &[F3G], n_pols: usize, k: usize) -> Vec<El> {
    buf.iter().skip(k).step_by(n_pols).map(got).collect()
}

#[derive(Debug)]
struct Small {
    nbits: usize,
    ext: usize,
    n_pols: usize,
    cells: Vec<Vec<u64>>,
    garbage: Vec<u64>,
    warm: Vec<(usize, usize)>,
}

fn small(s: &mut Src) -> Small {
    let nbits = s.range(1, 6);
    let ext = s.range(0, 3);
    let n_pols = s.range(1, 5);
    let cells = (0..(n_pols << nbits)).map(|_| {
        let d3 = s.chance(1, 4);
        coef(s, d3)
    }).collect();
    Small { nbits, ext, n_pols, cells, garbage: s.many(3, |s| s.gl()), warm: s.vec(0, 4, |s| {
            let b = s.range(1, 8);
            // indices past the domain denote their remainder
            (b, s.range(0, (4 << b) - 1))
        }) }
}

pub fn run(ctx: &mut Ctx) {
    ctx.sub("small_all", 20_000, 400_000)
        .rule("2..64 rows, 1..5 columns, blow-up 1..8, coefficients of both dimensions; earlier bit-reversal requests of other sizes first; trivial when all cells are equal")
        .run(small, |c, info| {
            let n = 1 << c.nbits;
            if c.cells.iter().all(|x| *x == c.cells[0]) {
                info.trivial();
            }
            info.class(format!("2^{}", c.nbits));
            // history: whatever indices were asked for before
            for (b, x) in &c.warm {
                let r = fft_p::BR(*x, *b);
                let want = ((*x % (1 << b)) as u64).reverse_bits() >> (64 - b);
                ensure_eq!(r as u64, want, "BR({x}, {b})");
            }
            let buf: Vec<F3G> = c.cells.iter().map(|v| F3G::build(v)).collect();
            let mut out = vec![F3G::build(&c.garbage); buf.len()];
            fft_p::fft(&buf, c.n_pols, c.nbits, &mut out);
            let mut iout = vec![F3G::build(&c.garbage); buf.len()];
            fft_p::ifft(&buf, c.n_pols, c.nbits, &mut iout);
            let mut ext = vec![F3G::ZERO; buf.len() << c.ext];
            fft_p::interpolate(&buf, c.n_pols, c.nbits, &mut ext, c.nbits + c.ext);
            let mut serial = FFT::<F3G>::new();
            for k in 0..c.n_pols {
                let col: Vec<El> = (0..n).map(|i| el(&c.cells[i * c.n_pols + k])).collect();
                let colf: Vec<F3G> = (0..n).map(|i| buf[i * c.n_pols + k]).collect();
                let f = dft(&col, n, 1);
                ensure_eq!(column(&out, c.n_pols, k), f, "fft_p::fft column {k}");
                ensure_eq!(serial.fft(&colf).iter().map(got).collect::<Vec<_>>(), f, "FFT::fft column {k}");
                let i = idft(&col);
                ensure_eq!(column(&iout, c.n_pols, k), i, "fft_p::ifft column {k}");
                ensure_eq!(serial.ifft(&colf).iter().map(got).collect::<Vec<_>>(), i, "FFT::ifft column {k}");
                let e = dft(&i, n << c.ext, 49);
                ensure_eq!(column(&ext, c.n_pols, k), e, "interpolate column {k}");
                ensure_eq!(extend_pol(&colf, c.ext).iter().map(got).collect::<Vec<_>>(), e, "extend_pol column {k}");
            }
            Ok(())
        });

    ctx.sub("round_trip", 300, 6_000)
        .rule("2^7..2^12 rows, 1..7 columns, inverse of forward and forward of inverse, destination buffers pre-filled; all cases count")
        .run(
            |s| (s.range(7, 12), s.range(1, 7), s.u64(), s.gl()),
            |&(nbits, n_pols, seed, garbage), _| {
                let mut r = vh::Rng::new(seed);
                let buf: Vec<F3G> = (0..(n_pols << nbits)).map(|_| F3G::from(r.next() % vh::GL_P)).collect();
                let mut a = vec![F3G::from(garbage); buf.len()];
                let mut b = a.clone();
                fft_p::fft(&buf, n_pols, nbits, &mut a);
                fft_p::ifft(&a, n_pols, nbits, &mut b);
                ensure_eq!(b == buf, true, "ifft(fft(x)) = x for 2^{nbits} x {n_pols}");
                fft_p::ifft(&buf, n_pols, nbits, &mut a);
                fft_p::fft(&a, n_pols, nbits, &mut b);
                ensure_eq!(b == buf, true, "fft(ifft(x)) = x for 2^{nbits} x {n_pols}");
                Ok(())
            },
        );

    // The parallel code splits into blocks and transposes only above 2^12 rows.
    ctx.sub("blocks", 150, 2_000)
        .shards(2)
        .shrink(12)
        .rule("2^12..2^18 rows (several blocks and transposes), 1..8 columns, blow-up 1..4: rows sampled by direct evaluation of sparse polynomials, all rows against the serial transform; all cases count")
        .run(
            |s| {
                // rows grow with the thorough tier only through more cases; sizes are bounded by cells
                let nbits = s.range(12, 18);
                let max_pols = (1usize << 20 >> nbits).clamp(1, 8);
                (nbits, s.range(1, max_pols), s.range(0, 2).min(18 - nbits), s.u64())
            },
            |&(nbits, n_pols, ext, seed), info| blocks(nbits, n_pols, ext, seed, info),
        );

    // Blocks of more than 2^12 rows, up to the cap of 2^16, follow from the number of cells.
    ctx.sub("large_blocks", 4, 40)
        .shards(1)
        .shrink(2)
        .rule("2^14..2^20 rows, 2^20..2^22 cells (blocks of up to 2^16 rows), blow-up 1 and 2, otherwise as above; all cases count")
        .run(
            |s| {
                let nbits = s.range(14, 20);
                let cells = 1usize << s.range(20, 22);
                ((nbits, ((cells >> nbits) + s.usize(3)).max(1)), s.range(0, 1), s.u64())
            },
            |&((nbits, n_pols), ext, seed), info| blocks(nbits, n_pols, ext, seed, info),
        );

    ctx.sub("wide", 120, 1_500)
        .shards(3)
        .shrink(12)
        .rule("2^1..2^13 rows, 9..9000 columns (fewer cells than columns per thread included), blow-up 1..4, both dimensions: every column as by itself, which the other checks decide, five of them against the serial transform; all cases count")
        .run(
            |s| {
                let nbits = s.range(1, 13);
                let top = (1usize << 18 >> nbits).clamp(10, 9000);
                let n_pols = match s.below(4) {
                    0 => s.range(9, top),
                    1 => top - s.usize(3).min(top - 9),
                    2 => 1usize << s.range(3, 13).min(top.ilog2() as usize),
                    _ => s.range(9, top.min(100)),
                };
                (nbits, n_pols, s.range(0, 2), s.chance(1, 3), s.u64())
            },
            |&(nbits, n_pols, ext, d3, seed), info| wide(nbits, n_pols, ext, d3, seed, info),
        );
}

fn wide(nbits: usize, n_pols: usize, ext: usize, d3: bool, seed: u64, info: &mut vh::Info) -> Result<(), Fail> {
    let n = 1usize << nbits;
    info.class(format!("2^{} columns", n_pols.ilog2()));
    let mut r = vh::Rng::new(seed);
    let buf: Vec<F3G> = (0..n * n_pols)
        .map(|_| if d3 { F3G::build(&[r.next() % vh::GL_P, r.next() % vh::GL_P, r.next() % vh::GL_P]) } else { F3G::from(r.next() % vh::GL_P) })
        .collect();
    let dirt = F3G::from(seed % 1000);
    let (mut f, mut i, mut e) = (vec![dirt; n * n_pols], vec![dirt; n * n_pols], vec![F3G::ZERO; (n << ext) * n_pols]);
    fft_p::fft(&buf, n_pols, nbits, &mut f);
    fft_p::ifft(&buf, n_pols, nbits, &mut i);
    fft_p::interpolate(&buf, n_pols, nbits, &mut e, nbits + ext);
    let serial: Vec<usize> = vec![0, n_pols - 1, r.below(n_pols as u64) as usize, r.below(n_pols as u64) as usize, n_pols / 2];
    let mut s = FFT::<F3G>::new();
    for k in 0..n_pols {
        let col: Vec<F3G> = (0..n).map(|j| buf[j * n_pols + k]).collect();
        let (mut f1, mut i1, mut e1) = (vec![dirt; n], vec![dirt; n], vec![F3G::ZERO; n << ext]);
        fft_p::fft(&col, 1, nbits, &mut f1);
        fft_p::ifft(&col, 1, nbits, &mut i1);
        fft_p::interpolate(&col, 1, nbits, &mut e1, nbits + ext);
        ensure_eq!(column(&f, n_pols, k), column(&f1, 1, 0), "fft of column {k} of {n_pols}");
        ensure_eq!(column(&i, n_pols, k), column(&i1, 1, 0), "ifft of column {k} of {n_pols}");
        ensure_eq!(column(&e, n_pols, k), column(&e1, 1, 0), "extension of column {k} of {n_pols}");
        if serial.contains(&k) {
            ensure_eq!(column(&f, n_pols, k), s.fft(&col).iter().map(got).collect::<Vec<_>>(), "serial fft of column {k}");
            ensure_eq!(column(&e, n_pols, k), extend_pol(&col, ext).iter().map(got).collect::<Vec<_>>(), "serial extension of column {k}");
        }
    }
    Ok(())
}

fn blocks(nbits: usize, n_pols: usize, ext: usize, seed: u64, info: &mut vh::Info) -> Result<(), Fail> {
    info.class(format!("2^{nbits}"));
    let n = 1usize << nbits;
    let mut r = vh::Rng::new(seed);
    // sparse coefficients per column: direct evaluation stays cheap
    let cols: Vec<Vec<(usize, u64)>> =
        (0..n_pols).map(|_| (0..1 + r.below(3)).map(|_| (r.below(n as u64) as usize, r.next() % vh::GL_P)).collect()).collect();
    let at = |k: usize, x: u64| -> u64 {
        let mut acc = 0;
        for (e, c) in &cols[k] {
            acc = gl::add(acc, gl::mul(*c, gl::pow(x, *e as u64)));
        }
        acc
    };
    let mut coefs = vec![F3G::ZERO; n * n_pols];
    for (k, col) in cols.iter().enumerate() {
        for (e, c) in col {
            coefs[e * n_pols + k] += F3G::from(*c);
        }
    }
    let mut vals = vec![F3G::from(seed % 1000); n * n_pols];
    fft_p::fft(&coefs, n_pols, nbits, &mut vals);
    let w = gl::root(nbits);
    for _ in 0..64 {
        let (i, k) = (r.below(n as u64) as usize, r.below(n_pols as u64) as usize);
        ensure_eq!(got(&vals[i * n_pols + k]), [at(k, gl::pow(w, i as u64)), 0, 0], "fft row {i} column {k}");
    }
    let mut back = vec![F3G::from(7u64); n * n_pols];
    fft_p::ifft(&vals, n_pols, nbits, &mut back);
    ensure_eq!(back == coefs, true, "ifft undoes fft, 2^{nbits} x {n_pols}");
    let mut big = vec![F3G::ZERO; (n << ext) * n_pols];
    fft_p::interpolate(&vals, n_pols, nbits, &mut big, nbits + ext);
    let w = gl::root(nbits + ext);
    for _ in 0..64 {
        let (i, k) = (r.below((n << ext) as u64) as usize, r.below(n_pols as u64) as usize);
        let x = gl::mul(49, gl::pow(w, i as u64));
        ensure_eq!(got(&big[i * n_pols + k]), [at(k, x), 0, 0], "interpolate row {i} column {k}");
    }
    // all rows of one column against the serial code
    let k = r.below(n_pols as u64) as usize;
    let dense: Vec<F3G> = (0..n).map(|_| F3G::from(r.next() % vh::GL_P)).collect();
    let mut buf = coefs;
    for i in 0..n {
        buf[i * n_pols + k] = dense[i];
    }
    fft_p::fft(&buf, n_pols, nbits, &mut vals);
    let serial = FFT::<F3G>::new().fft(&dense);
    for i in 0..n {
        ensure_eq!(vals[i * n_pols + k], serial[i], "fft row {i} column {k} against the serial transform");
    }
    Ok(())
}
