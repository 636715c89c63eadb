//! S07: tables of polynomials, in memory and in files.
use crate::conv::gfr;
use starky::f3g::F3G;
use starky::polsarray::{PolKind, PolsArray};
use starky::traits::FieldExtension;
use starky::types::{Reference, PIL};
use std::collections::HashMap;
use vh::{ensure, ensure_eq, guard, Ctx, Info, Res, Src};

#[derive(Debug, Clone)]
struct Ref {
    ns: String,
    name: String,
    /// number of columns, and whether it is an array (of one column, possibly)
    len: usize,
    array: bool,
}
#[derive(Debug, Clone)]
struct Table {
    n: usize,
    cm: Vec<Ref>,
    co: Vec<Ref>,
    /// values by row, then by column, of the committed and the constant table
    cells: [Vec<u64>; 2],
    /// (table, reference, element, row, value)
    sets: Vec<(usize, usize, usize, usize, u64)>,
    cut: usize,
    /// where the file on disk ends instead of the table
    extra: usize,
}
fn refs(s: &mut Src, tag: &str) -> Vec<Ref> {
    let ns = ["Main", "Arith", "Global", "a_b"];
    let mut v = s.vec(1, 7, |s| Ref { ns: s.pick(&ns).to_string(), name: String::new(), len: 0, array: s.chance(1, 3) });
    for (i, r) in v.iter_mut().enumerate() {
        // names repeat over name spaces, and over the two kinds of polynomials
        r.name = if s.chance(1, 2) { format!("pol{i}") } else { format!("{tag}{i}") };
        r.len = if r.array { s.range(1, 4) } else { 1 };
    }
    v
}
fn table(s: &mut Src, nbits: (usize, usize)) -> Table {
    let n = 1 << s.range(nbits.0, nbits.1);
    let cm = refs(s, "cm");
    let mut co = refs(s, "c");
    for r in co.iter_mut() {
        if cm.iter().any(|x| x.ns == r.ns && x.name == r.name) {
            r.name = format!("const_{}", r.name);
        }
    }
    let w = [&cm, &co].map(|v| v.iter().map(|r| r.len).sum::<usize>());
    let cells = w.map(|w| s.many(n * w, |s| s.gl()));
    let sets = s.vec(0, 12, |s| (s.usize(2), s.usize(16), s.usize(4), s.usize(n), s.gl()));
    Table { n, cm, co, cells, sets, cut: s.usize(1 << 20), extra: s.usize(20) }
}
fn pil(t: &Table) -> PIL {
    let mut references = HashMap::new();
    for (v, ty) in [(&t.cm, "cmP"), (&t.co, "constP")] {
        let mut id = 0;
        for r in v {
            references.insert(
                format!("{}.{}", r.ns, r.name),
                Reference {
                    polType: None,
                    type_: ty.into(),
                    id,
                    polDeg: t.n,
                    isArray: r.array,
                    elementType: None,
                    len: r.array.then_some(r.len),
                },
            );
            id += r.len;
        }
    }
    // an intermediate polynomial is no column
    references.insert(
        "Main.im".into(),
        Reference { polType: None, type_: "imP".into(), id: 0, polDeg: t.n, isArray: false, elementType: None, len: None },
    );
    PIL {
        nCommitments: t.cm.iter().map(|r| r.len).sum(),
        nQ: 0,
        nIm: 1,
        nConstants: t.co.iter().map(|r| r.len).sum(),
        publics: vec![],
        references,
        expressions: vec![],
        polIdentities: vec![],
        plookupIdentities: vec![],
        permutationIdentities: None,
        connectionIdentities: None,
        cm_dims: vec![],
        q2exp: vec![],
    }
}
fn directory(t: &Table, which: usize, a: &PolsArray, cells: &[u64], pil: &PIL, when: &str) -> Res {
    let v = [&t.cm, &t.co][which];
    let w: usize = v.iter().map(|r| r.len).sum();
    let mut id = 0;
    for r in v {
        let at = a.def.get(&r.ns).and_then(|d| d.get(&r.name)).ok_or_else(|| format!("{when}: {}.{} is not listed", r.ns, r.name))?;
        ensure_eq!(*at, (id..id + r.len).collect::<Vec<_>>(), "columns of a name");
        for k in 0..r.len {
            let p = &a.defArray[id + k];
            ensure!(
                p.name == format!("{}.{}", r.ns, r.name) && p.id == id + k && p.polDeg == t.n && p.idx == r.array.then_some(k),
                "{when}: column {} is described as {p:?}",
                id + k
            );
            ensure_eq!(a.get_pol_id(pil, &r.ns, &r.name, k), id + k, "column of an element");
            for row in 0..t.n {
                let g = a.get(pil, &r.ns, &r.name, k, row).as_int();
                ensure!(g == cells[row * w + id + k], "{when}: {}.{}[{k}] row {row} is {g}", r.ns, r.name);
                ensure!(a.array[id + k][row].as_int() == g, "{when}: array and get differ");
            }
        }
        id += r.len;
    }
    ensure_eq!(a.def.values().map(|d| d.len()).sum::<usize>(), v.len(), "number of names");
    ensure!(a.n == t.n && a.nPols == w && a.array.len() == w && a.array.iter().all(|c| c.len() == t.n), "{when}: shape");
    let b: Vec<F3G> = a.write_buff();
    ensure!(
        b.iter().map(|x| x.as_elements()[0].as_int()).eq(cells.iter().copied()) && b.iter().all(|x| x.dim == 1),
        "{when}: row-major buffer of extension elements"
    );
    Ok(())
}
fn check(t: &Table, info: &mut Info) -> Res {
    let pil = pil(t);
    let dir = std::env::temp_dir().join(format!("vh-s07-{}-{:?}", std::process::id(), std::thread::current().id()));
    std::fs::create_dir_all(&dir).unwrap();
    let r = in_dir(t, &pil, &dir, info);
    std::fs::remove_dir_all(&dir).ok();
    r
}
fn in_dir(t: &Table, pil: &PIL, dir: &std::path::Path, info: &mut Info) -> Res {
    let text = serde_json::to_string(pil).unwrap();
    let stored: PIL = serde_json::from_str(&text).map_err(|e| e.to_string())?;
    for (which, kind) in [(0, PolKind::Commit), (1, PolKind::Constant)] {
        let kind2 = if which == 0 { PolKind::Commit } else { PolKind::Constant };
        let v = [&t.cm, &t.co][which];
        let w: usize = v.iter().map(|r| r.len).sum();
        info.class(if v.iter().any(|r| r.array) { "arrays" } else { "no arrays" });
        let mut cells = t.cells[which].clone();
        let mut a = PolsArray::new(pil, kind);
        directory(t, which, &a, &vec![0; cells.len()], pil, "new")?;
        let mut id = 0;
        for r in v {
            for k in 0..r.len {
                for row in 0..t.n {
                    a.set_matrix(pil, &r.ns, &r.name, k, row, gfr(cells[row * w + id + k]));
                }
            }
            id += r.len;
        }
        directory(t, which, &a, &cells, pil, "filled")?;
        // single cells
        for (tb, r, k, row, val) in &t.sets {
            if *tb != which {
                continue;
            }
            let i = r % v.len();
            let k = k % v[i].len;
            let id: usize = v[..i].iter().map(|r| r.len).sum();
            a.set_matrix(pil, &v[i].ns, &v[i].name, k, *row, gfr(*val));
            cells[row * w + id + k] = *val;
        }
        directory(t, which, &a, &cells, pil, "after setting cells")?;
        let mut bytes = vec![];
        a.save(&mut bytes).map_err(|e| e.to_string())?;
        let want: Vec<u8> = cells.iter().flat_map(|c| c.to_le_bytes()).collect();
        ensure!(bytes == want, "the file is not the table, row by row");
        let path = dir.join("f");
        let file = path.to_str().unwrap();
        {
            let f = std::fs::File::create(&path).unwrap();
            a.save(f).map_err(|e| e.to_string())?;
        }
        ensure!(std::fs::read(&path).unwrap() == want, "file contents");
        // a table that held something else before
        let mut b = PolsArray::new(&stored, kind2);
        for c in b.array.iter_mut() {
            c.iter_mut().for_each(|x| *x = gfr(t.sets.len() as u64 + 7));
        }
        b.load(file).map_err(|e| format!("loading fails: {e}"))?;
        directory(t, which, &b, &cells, &stored, "loaded")?;
        let mut again = vec![];
        b.save(&mut again).map_err(|e| e.to_string())?;
        ensure!(again == want, "second file differs");
        // a shorter file
        let cut = t.cut % want.len();
        std::fs::write(&path, &want[..cut]).unwrap();
        match guard(|| b.load(file)) {
            Ok(Ok(())) => return Err(format!("{cut} of {} bytes load as a table", want.len()).into()),
            Ok(Err(_)) => {}
            Err(e) => return Err(format!("a short file panics: {e}").into()),
        }
        std::fs::remove_file(&path).unwrap();
        ensure!(b.load(file).is_err(), "a missing file loads");
        info.class(if t.extra == 0 { "empty file" } else { "cut file" });
    }
    Ok(())
}
/// Tables that do not fit the 2^25 words a file is read and written by.
#[derive(Debug, Clone)]
struct Huge {
    w: usize,
    nbits: usize,
    seed: u64,
    constant: bool,
    cut: u64,
}
fn huge(s: &mut Src) -> Huge {
    // (odd widths: the buffer ends inside a row)
    let (w, nbits) = *s.pick(&[(9usize, 22usize), (5, 23), (3, 24), (11, 22), (17, 21), (513, 16), (33, 20), (8, 22)]);
    Huge { w, nbits, seed: s.u64(), constant: s.bool(), cut: s.u64() }
}
fn check_huge(h: &Huge, info: &mut Info) -> Res {
    use std::io::Read;
    let n = 1usize << h.nbits;
    let at = |row: usize, j: usize| -> u64 {
        let x = (row as u64 * 0x9e37_79b9_7f4a_7c15) ^ (j as u64 + 1).wrapping_mul(0xd6e8_feb8_6659_fd93) ^ h.seed;
        (x ^ (x >> 29)).wrapping_mul(0xbf58_476d_1ce4_e5b9) % vh::GL_P
    };
    let r = Ref { ns: "Main".into(), name: "wide".into(), len: h.w, array: true };
    let one = Ref { ns: "Main".into(), name: "one".into(), len: 1, array: false };
    let (cm, co) = if h.constant { (vec![one], vec![r]) } else { (vec![r], vec![one]) };
    let t = Table { n, cm, co, cells: [vec![], vec![]], sets: vec![], cut: 0, extra: 1 };
    let pil = pil(&t);
    let kind = || if h.constant { PolKind::Constant } else { PolKind::Commit };
    let dir = std::env::temp_dir().join(format!("vh-s07-{}-{:?}", std::process::id(), std::thread::current().id()));
    std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join("f");
    let go = |info: &mut Info| -> Res {
        let mut a = PolsArray::new(&pil, kind());
        ensure!(a.nPols == h.w && a.n == n && a.array.len() == h.w, "shape");
        for (j, c) in a.array.iter_mut().enumerate() {
            c.iter_mut().enumerate().for_each(|(row, x)| *x = gfr(at(row, j)));
        }
        a.save(std::fs::File::create(&path).unwrap()).map_err(|e| e.to_string())?;
        // the file starts with the table
        let mut f = std::io::BufReader::with_capacity(1 << 22, std::fs::File::open(&path).unwrap());
        let mut row_buf = vec![0u8; h.w * 8];
        for row in 0..n {
            f.read_exact(&mut row_buf).map_err(|e| format!("the file ends in row {row}: {e}"))?;
            for j in 0..h.w {
                let v = u64::from_le_bytes(row_buf[8 * j..8 * j + 8].try_into().unwrap());
                ensure!(v == at(row, j), "row {row} of column {j} is {v} in the file");
            }
        }
        drop(f);
        a.array.iter_mut().for_each(|c| c.iter_mut().for_each(|x| *x = gfr(3)));
        // exactly the table
        let words = (n * h.w) as u64;
        std::fs::OpenOptions::new().write(true).open(&path).unwrap().set_len(words * 8).unwrap();
        a.load(path.to_str().unwrap()).map_err(|e| format!("loading fails: {e}"))?;
        for (j, c) in a.array.iter().enumerate() {
            for (row, x) in c.iter().enumerate() {
                ensure!(x.as_int() == at(row, j), "row {row} of column {j} is loaded as {}", x.as_int());
            }
        }
        let cut = if h.cut % 3 == 0 { words * 8 - 1 - h.cut % 64 } else { h.cut % (words * 8) };
        std::fs::OpenOptions::new().write(true).open(&path).unwrap().set_len(cut).unwrap();
        match guard(|| a.load(path.to_str().unwrap())) {
            Ok(Ok(())) => return Err(format!("{cut} of {} bytes load as a table", words * 8).into()),
            Ok(Err(_)) => {}
            Err(e) => return Err(format!("a short file panics: {e}").into()),
        }
        info.class(if (1 << 25) % h.w == 0 { "buffer ends with a row" } else { "buffer ends inside a row" });
        Ok(())
    };
    let r = go(info);
    std::fs::remove_dir_all(&dir).ok();
    r
}
pub fn run(ctx: &mut Ctx) {
    ctx.sub("huge_tables", 4, 24)
        .shards(2)
        .shrink(2)
        .rule("tables of more than 2^25 cells, filled, saved, loaded and cut; all count")
        .run(huge, check_huge);
    ctx.sub("tables", 6000, 200_000)
        .rule("random columns and arrays over several name spaces, filled, changed cell by cell, saved, loaded and cut; all count")
        .run(|s| table(s, (0, 6)), check);
    ctx.sub("long_tables", 60, 1000).rule("2^10 to 2^14 rows").run(|s| table(s, (10, 14)), check);
}
