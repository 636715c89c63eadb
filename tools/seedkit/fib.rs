//! The Fibonacci program of the repository's data, at any size.
use fields::field_gl::Fr as FGL;
use starky::polsarray::{PolKind, PolsArray};
use starky::stark_gen::StarkProof;
use starky::stark_setup::StarkSetup;
use starky::traits::{FieldExtension, MerkleTree, Transcript};
use starky::types::{StarkStruct, PIL};

pub fn pil(nbits: usize) -> PIL {
    let text = std::fs::read_to_string("/repo/starky/data/fib.pil.json").unwrap();
    let n = 1usize << nbits;
    let text = text.replace("1024", &n.to_string()).replace("1023", &(n - 1).to_string());
    serde_json::from_str(&text).unwrap()
}
pub fn structure(nbits: usize, ext: usize, queries: usize, steps: &[usize], hash: &str) -> StarkStruct {
    let steps: Vec<_> = steps.iter().map(|b| serde_json::json!({ "nBits": b })).collect();
    serde_json::from_value(serde_json::json!({"nBits": nbits, "nBitsExt": nbits + ext, "nQueries": queries,
        "verificationHashType": hash, "steps": steps}))
    .unwrap()
}
pub fn traces(pil: &PIL, nbits: usize) -> (PolsArray, PolsArray) {
    let n = 1usize << nbits;
    let mut c = PolsArray::new(pil, PolKind::Constant);
    c.n = n;
    c.array = vec![vec![FGL::ZERO; n]; 2];
    c.array[0][0] = FGL::ONE;
    c.array[1][n - 1] = FGL::ONE;
    let mut w = PolsArray::new(pil, PolKind::Commit);
    w.n = n;
    w.array = vec![vec![FGL::ZERO; n]; 2];
    w.array[1][0] = FGL::from(1u64);
    w.array[0][0] = FGL::from(2u64);
    for i in 1..n {
        let (a, b) = (w.array[0][i - 1], w.array[1][i - 1]);
        w.array[1][i] = a;
        w.array[0][i] = a * a + b * b;
    }
    (c, w)
}
/// Setup and proof; the program may be changed first.
pub fn run<M: MerkleTree, T: Transcript>(
    nbits: usize,
    st: &StarkStruct,
    change: impl Fn(&mut PIL, &mut PolsArray, &mut PolsArray),
) -> (StarkSetup<M>, StarkProof<M>) {
    let mut pil = pil(nbits);
    let (mut c, mut w) = traces(&pil, nbits);
    change(&mut pil, &mut c, &mut w);
    let setup = StarkSetup::<M>::new(&c, &mut pil, st, None).unwrap();
    let proof =
        StarkProof::<M>::stark_gen::<T>(w, c, &setup.const_tree, &setup.starkinfo, &setup.program, &pil, st, "1")
            .unwrap();
    (setup, proof)
}
