//! A witness generator in WebAssembly that records what it is given: the interface is that of circom's output, and the
//! witness is 1, followed by (msb, lsb, position, value) of every input signal in the order they were set.
use num_bigint::BigUint;

fn uleb(mut v: u32) -> Vec<u8> {
    let mut o = vec![];
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            o.push(b);
            return o;
        }
        o.push(b | 0x80);
    }
}
fn sleb(v: i32) -> Vec<u8> {
    let mut v = v as i64;
    let mut o = vec![];
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if (v == 0 && b & 0x40 == 0) || (v == -1 && b & 0x40 != 0) {
            o.push(b);
            return o;
        }
        o.push(b | 0x80);
    }
}
const COUNT: u32 = 512;
const BASE: u32 = 1024;
#[derive(Default)]
struct Code(Vec<u8>);
impl Code {
    fn c(mut self, v: u32) -> Self {
        self.0.push(0x41);
        self.0.extend(sleb(v as i32));
        self
    }
    fn get(mut self, l: u8) -> Self {
        self.0.extend([0x20, l]);
        self
    }
    fn set(mut self, l: u8) -> Self {
        self.0.extend([0x21, l]);
        self
    }
    fn load(mut self, off: u32) -> Self {
        self.0.extend([0x28, 2]);
        self.0.extend(uleb(off));
        self
    }
    fn store(mut self, off: u32) -> Self {
        self.0.extend([0x36, 2]);
        self.0.extend(uleb(off));
        self
    }
    fn op(mut self, b: u8) -> Self {
        self.0.push(b);
        self
    }
    /// address of record number (top of stack)
    fn record(self) -> Self {
        self.c(6).op(0x74).c(BASE).op(0x6a)
    }
}
fn section(id: u8, body: Vec<u8>) -> Vec<u8> {
    let mut o = vec![id];
    o.extend(uleb(body.len() as u32));
    o.extend(body);
    o
}
fn list(items: Vec<Vec<u8>>) -> Vec<u8> {
    let mut o = uleb(items.len() as u32);
    o.extend(items.concat());
    o
}
fn name(s: &str) -> Vec<u8> {
    let mut o = uleb(s.len() as u32);
    o.extend(s.as_bytes());
    o
}
/// version None: the module does not say.
pub fn recorder(prime: &BigUint, n32: u32, version: Option<u32>) -> Vec<u8> {
    const I: u8 = 0x7f;
    let ty = |p: usize, r: usize| {
        let mut o = vec![0x60, p as u8];
        o.extend(vec![I; p]);
        o.push(r as u8);
        o.extend(vec![I; r]);
        o
    };
    let types = list(vec![ty(0, 1), ty(0, 0), ty(1, 1), ty(2, 0), ty(3, 0), ty(1, 0)]);
    let mut words = prime.to_u32_digits();
    words.resize(n32 as usize, 0);
    let n = || Code::default();
    let mut f: Vec<(&str, u8, u8, Code)> = vec![]; // name, type, locals, code
    if let Some(v) = version {
        f.push(("getVersion", 0, 0, n().c(v)));
    }
    f.push(("getFieldNumLen32", 0, 0, n().c(n32)));
    let mut c = n();
    for (j, w) in words.iter().enumerate() {
        c = c.c(4 * j as u32).c(*w).store(0);
    }
    f.push(("getRawPrime", 1, 0, c));
    f.push(("readSharedRWMemory", 2, 0, n().get(0).c(2).op(0x74).load(0)));
    f.push(("writeSharedRWMemory", 3, 0, n().get(0).c(2).op(0x74).get(1).store(0)));
    f.push(("init", 5, 0, n().c(COUNT).c(0).store(0)));
    let mut c = n().c(COUNT).load(0).record().set(3);
    for k in 0..3 {
        c = c.get(3).get(k).store(4 * k as u32);
    }
    for j in 0..n32 {
        c = c.get(3).c(4 * j).load(0).store(16 + 4 * j);
    }
    c = c.c(COUNT).c(COUNT).load(0).c(1).op(0x6a).store(0);
    f.push(("setInputSignal", 4, 1, c));
    f.push(("getWitnessSize", 0, 0, n().c(COUNT).load(0).c(2).op(0x74).c(1).op(0x6a)));
    // getWitness(i): 1 if i = 0, else part (i-1)%4 of record (i-1)/4
    let mut c = n();
    for j in 0..n32 {
        c = c.c(4 * j).c(0).store(0);
    }
    c = c.get(0).op(0x45).op(0x04).op(0x40).c(0).c(1).store(0).op(0x05); // if i == 0 .. else
    c = c.get(0).c(1).op(0x6b).set(0).get(0).c(2).op(0x76).record().set(1);
    c = c.get(0).c(3).op(0x71).c(3).op(0x46).op(0x04).op(0x40); // if part == 3
    for j in 0..n32 {
        c = c.c(4 * j).get(1).load(16 + 4 * j).store(0);
    }
    c = c.op(0x05).c(0).get(1).get(0).c(3).op(0x71).c(2).op(0x74).op(0x6a).load(0).store(0).op(0x0b).op(0x0b);
    f.push(("getWitness", 5, 1, c));

    let mut import = name("env");
    import.extend(name("memory"));
    import.extend([2, 0, 1]);
    let mut o = b"\0asm\x01\0\0\0".to_vec();
    o.extend(section(1, types));
    o.extend(section(2, list(vec![import])));
    o.extend(section(3, list(f.iter().map(|x| vec![x.1]).collect())));
    let exports = f.iter().enumerate().map(|(i, x)| {
        let mut e = name(x.0);
        e.push(0);
        e.extend(uleb(i as u32));
        e
    });
    o.extend(section(7, list(exports.collect())));
    let bodies = f.iter().map(|x| {
        let mut b = if x.2 == 0 { vec![0] } else { vec![1, x.2, I] };
        b.extend(&x.3 .0);
        b.push(0x0b);
        let mut e = uleb(b.len() as u32);
        e.extend(b);
        e
    });
    o.extend(section(10, list(bodies.collect())));
    o
}
