//! The compressor's products and what they say about a trace.
use crate::pil::*;
use crate::sys::Sys;
use powdr::ast::analyzed::*;
use powdr::number::GoldilocksField as G;
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use vh::gl::{self, add, mul};
use vh::{ensure, ensure_eq, guard, Fail};

static SEQ: AtomicUsize = AtomicUsize::new(0);
pub struct Dir(std::path::PathBuf);
pub fn dir(tag: &str) -> Dir {
    let d = std::env::temp_dir().join(format!("vh-{tag}-{}-{}", std::process::id(), SEQ.fetch_add(1, Ordering::Relaxed)));
    std::fs::create_dir_all(&d).unwrap();
    Dir(d)
}
impl Dir {
    pub fn path(&self, f: &str) -> String {
        self.0.join(f).to_str().unwrap().to_string()
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub struct Comp {
    pub dir: Dir,
    pub pil: Pil,
    pub cc: Vec<Vec<u64>>,
    /// left wire, right wire and their factors
    pub adds: Vec<(usize, usize, u64, u64)>,
    /// rows of twelve wires, 0 where nothing is wired
    pub plan: Vec<Vec<usize>>,
    /// committed column of every plan column
    pub cols: Vec<usize>,
}
/// Columns of a file of rows.
pub fn columns(bytes: &[u8], n_cols: usize) -> Vec<Vec<u64>> {
    let v: Vec<u64> = bytes.chunks(8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).collect();
    (0..n_cols).map(|c| v.iter().skip(c).step_by(n_cols.max(1)).copied().collect()).collect()
}
/// None: refused.
pub fn setup(sys: &Sys, force: usize) -> Result<Result<Comp, String>, Fail> {
    let d = dir("rec");
    let (r, p, c, e) = (d.path("c.r1cs"), d.path("c.pil"), d.path("c.const"), d.path("c.exec"));
    std::fs::write(&r, sys.file()).unwrap();
    match guard(|| recursion::compressor12_setup::setup(&r, &p, &c, &e, force)) {
        Err(m) => return Ok(Err(m)),
        Ok(Err(m)) => return Ok(Err(format!("{m:#}"))),
        Ok(Ok(())) => {}
    }
    let pil = Pil::new(powdr::pil_analyzer::analyze_string::<G>(&std::fs::read_to_string(&p).unwrap()));
    ensure!(pil.n.is_power_of_two(), "{} rows", pil.n);
    if force > 0 {
        ensure_eq!(pil.n, 1 << force, "rows, with the size forced");
    }
    let bytes = std::fs::read(&c).unwrap();
    ensure_eq!(bytes.len(), 8 * pil.n * pil.n_const, "size of the constants");
    let cc = columns(&bytes, pil.n_const);
    ensure!(cc.iter().flatten().all(|v| *v < vh::GL_P), "constant not reduced");
    let exec: Vec<u64> = serde_json::from_slice(&std::fs::read(&e).unwrap()).map_err(|e| format!("exec file: {e}"))?;
    ensure!(exec.len() >= 2, "exec file");
    let (na, rows) = (exec[0] as usize, exec[1] as usize);
    ensure_eq!(exec.len(), 2 + 4 * na + 12 * rows, "size of the exec file");
    ensure!(rows <= pil.n, "{rows} rows planned in a trace of {}", pil.n);
    let adds = exec[2..2 + 4 * na].chunks(4).map(|a| (a[0] as usize, a[1] as usize, gl::from_mont(a[2]), gl::from_mont(a[3]))).collect();
    let plan: Vec<Vec<usize>> = exec[2 + 4 * na..].chunks(12).map(|r| r.iter().map(|x| *x as usize).collect()).collect();
    ensure!(plan.iter().flatten().all(|x| *x < sys.n_wires + na), "plan names a wire beyond {}", sys.n_wires + na);
    let (a, _) = pil.an.definitions.get("Compressor.a").ok_or("no Compressor.a".to_string())?;
    ensure_eq!(a.length, Some(12), "columns");
    let cols = a.array_elements().map(|(_, id)| id.id as usize).collect();
    Ok(Ok(Comp { dir: d, pil, cc, adds, plan, cols }))
}
impl Comp {
    /// A wire assignment with the auxiliary wires.
    pub fn extend(&self, w: &[u64]) -> Vec<u64> {
        let mut e = w.to_vec();
        for (l, r, a, b) in &self.adds {
            e.push(add(mul(e[*l], *a), mul(e[*r], *b)));
        }
        e
    }
    /// The trace of an assignment; cells where nothing is wired come from `free`.
    pub fn trace(&self, e: &[u64], mut free: impl FnMut() -> u64) -> Vec<Vec<u64>> {
        let mut cm = vec![vec![0; self.pil.n]; self.pil.n_cm];
        for r in 0..self.pil.n {
            for c in 0..12 {
                cm[self.cols[c]][r] = match self.plan.get(r).map(|p| p[c]) {
                    Some(s) if s > 0 => e[s],
                    _ => free(),
                };
            }
        }
        cm
    }
    /// The wires in the cells of the public values, in order.
    pub fn public_cells(&self) -> Result<Vec<(String, usize, usize)>, Fail> {
        let mut v = vec![];
        for s in &self.pil.an.source_order {
            if let StatementIdentifier::PublicDeclaration(n) = s {
                let d = &self.pil.an.public_declarations[n];
                let p = d.polynomial.poly_id.unwrap();
                ensure!(p.ptype == PolynomialType::Committed, "public {n} of a constant");
                let id = p.id as usize + d.array_index.unwrap_or(0);
                let c = self.cols.iter().position(|c| *c == id).ok_or(format!("public {n} of another column"))?;
                v.push((n.clone(), c, d.index as usize));
            }
        }
        Ok(v)
    }
    pub fn public_values(&self, cm: &[Vec<u64>]) -> Result<HashMap<String, u64>, Fail> {
        Ok(self.public_cells()?.into_iter().map(|(n, c, r)| (n, cm[self.cols[c]][r])).collect())
    }
    /// The first identity violated by a trace.
    pub fn violated(&self, cm: &[Vec<u64>], publics: HashMap<String, u64>) -> Option<String> {
        let t = Trace { cm, cc: &self.cc, publics };
        self.pil.violated(&t, 0..self.pil.n).map(|(k, r)| format!("row {r}: {}", self.pil.describe(k)))
    }
    /// The permutation of cells the connections stand for, as classes: cells (column, row) to class.
    pub fn classes(&self) -> Result<Vec<Vec<usize>>, Fail> {
        let n = self.pil.n;
        let bits = n.trailing_zeros() as usize;
        let k1 = 12275445934081160404u64;
        let mut class = vec![vec![usize::MAX; n]; 12];
        let mut conns = self.pil.an.identities.iter().filter(|i| i.kind == IdentityKind::Connect);
        let i = conns.next().ok_or("no connection".to_string())?;
        ensure!(conns.next().is_none(), "several connections");
        ensure!(i.left.selector.is_none() && i.right.selector.is_none(), "a connection with a selector");
        let id = |e: &Ex, t: PolynomialType| match e {
            Ex::Reference(f) if f.poly_id.ptype == t && !f.next => Ok(f.poly_id.id as usize),
            _ => Err(Fail::from("a connection of something else than columns")),
        };
        let mut left = vec![];
        let mut right = vec![];
        for (l, r) in i.left.expressions.iter().zip(&i.right.expressions) {
            left.push(id(l, PolynomialType::Committed)?);
            right.push(id(r, PolynomialType::Constant)?);
        }
        for c in &self.cols {
            ensure!(left.contains(c), "column {c} is not connected");
        }
        // value of a cell's identity
        let mut cell = HashMap::new();
        let (mut k, w) = (1u64, gl::root(bits));
        for j in 0..left.len() {
            let mut v = k;
            for r in 0..n {
                cell.insert(v, (j, r));
                v = mul(v, w);
            }
            k = mul(k, k1);
        }
        let mut next = vec![vec![(0, 0); n]; left.len()];
        let mut seen = std::collections::HashSet::new();
        for j in 0..left.len() {
            for r in 0..n {
                let v = self.cc[right[j]][r];
                let to = *cell.get(&v).ok_or(format!("connection of column {j}, row {r} leads nowhere: {v}"))?;
                ensure!(seen.insert(to), "two cells lead to {to:?}");
                next[j][r] = to;
            }
        }
        let mut count = 0;
        for j in 0..left.len() {
            for r in 0..n {
                let at = |x: usize| self.cols.iter().position(|c| *c == left[x]).unwrap();
                if class[at(j)][r] != usize::MAX {
                    continue;
                }
                let mut p = (j, r);
                while class[at(p.0)][p.1] == usize::MAX {
                    class[at(p.0)][p.1] = count;
                    p = next[p.0][p.1];
                }
                count += 1;
            }
        }
        Ok(class)
    }
}
