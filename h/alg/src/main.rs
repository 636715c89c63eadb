mod a01;
mod a02;
mod a03;
mod a04;
mod sides;
mod wasm;

use num_bigint::BigUint;
use num_traits::One;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use vh::Src;

/// Records the largest request of the current thread; requests nothing could serve come back empty.
struct Alloc;
thread_local! { static MOST: Cell<usize> = const { Cell::new(0) }; }
fn see(n: usize) -> bool {
    let _ = MOST.try_with(|m| m.set(m.get().max(n)));
    n <= 6 << 30
}
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if see(l.size()) {
            System.alloc(l)
        } else {
            std::ptr::null_mut()
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if see(l.size()) {
            System.alloc_zeroed(l)
        } else {
            std::ptr::null_mut()
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if see(n) {
            System.realloc(p, l, n)
        } else {
            std::ptr::null_mut()
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOC: Alloc = Alloc;
/// The result of f, and the largest single memory request it made on this thread.
pub fn measured<T>(f: impl FnOnce() -> T) -> (T, usize) {
    MOST.with(|m| m.set(0));
    let r = f();
    (r, MOST.with(|m| m.get()))
}

/// A value below p, boundary biased.
pub fn biguint(s: &mut Src, p: &BigUint) -> BigUint {
    let v = match s.weighted(&[2, 3, 2, 2, 6]) {
        0 => BigUint::from(s.below(3)),
        1 => BigUint::from(s.below(1000)),
        2 => p.clone() - 1u8 - s.below(3),
        3 => (BigUint::one() << s.usize(260)) + s.below(3),
        _ => s.many(4, |s| s.u64()).iter().fold(BigUint::from(0u8), |a, x| (a << 64) + *x),
    };
    v % p
}

/// A scratch directory, removed on drop.
pub struct Dir(PathBuf);
static SEQ: AtomicU64 = AtomicU64::new(0);
pub fn dir(tag: &str) -> Dir {
    let d = std::env::temp_dir().join(format!("vh-{tag}-{}-{}", std::process::id(), SEQ.fetch_add(1, Ordering::Relaxed)));
    std::fs::create_dir_all(&d).unwrap();
    Dir(d)
}
impl Dir {
    pub fn path(&self, f: &str) -> String {
        self.0.join(f).to_str().unwrap().to_string()
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn main() {
    vh::main(&[("A01", a01::run), ("A02", a02::run), ("A03", a03::run), ("A04", a04::run)]);
}
