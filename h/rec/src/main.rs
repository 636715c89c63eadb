mod comp;
mod j01;
mod pil;
mod r01;
mod r02;
mod r03;
mod r04;
mod sys;

fn main() {
    vh::main(&[("R01", r01::run), ("R02", r02::run), ("R03", r03::run), ("R04", r04::run), ("J01", j01::run)]);
}

/// A request no case of these sizes needs fails, before it takes the machine down.
struct Cap;
unsafe impl std::alloc::GlobalAlloc for Cap {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() > 1 << 31 {
            return std::ptr::null_mut();
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() > 1 << 31 {
            return std::ptr::null_mut();
        }
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        if n > 1 << 31 {
            return std::ptr::null_mut();
        }
        std::alloc::System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOC: Cap = Cap;
