//! Guard-page allocator: while enabled, every allocation of at least 16 bytes is right-aligned
//! against an inaccessible page, and the bytes in front of it lie in a page preceded by another
//! inaccessible page, so that any read or write past the end of any buffer the library owns or is
//! given faults at once.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, Ordering};

pub struct G;
pub static ON: AtomicBool = AtomicBool::new(false);
const P: usize = 4096;
// guarded blocks are remembered by address range: they come from one reserved arena
static mut BASE: usize = 0;
const ARENA: usize = 1 << 42;
static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

pub fn init() {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            ARENA,
            libc::PROT_NONE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        if p != libc::MAP_FAILED {
            BASE = p as usize;
        }
    }
}
pub fn available() -> bool {
    unsafe { BASE != 0 }
}

unsafe impl GlobalAlloc for G {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ON.load(Ordering::Relaxed) || l.size() < 16 || l.align() > P || BASE == 0 {
            return System.alloc(l);
        }
        let body = (l.size() + P - 1) / P * P;
        let off = NEXT.fetch_add(body + P, Ordering::Relaxed);
        if off + body + P > ARENA - P {
            return System.alloc(l);
        }
        let start = BASE + P + off;
        if libc::mprotect(start as *mut _, body, libc::PROT_READ | libc::PROT_WRITE) != 0 {
            return System.alloc(l);
        }
        // fresh pages are zero; fill with a recognisable garbage pattern instead
        let p = (start + body - l.size()) & !(l.align() - 1);
        std::ptr::write_bytes(p as *mut u8, 0xA5, start + body - p);
        p as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = p as usize;
        if BASE != 0 && a >= BASE && a < BASE + ARENA {
            let body = (l.size() + P - 1) / P * P;
            let start = a / P * P;
            libc::madvise(start as *mut _, body, libc::MADV_DONTNEED);
            libc::mprotect(start as *mut _, body, libc::PROT_NONE);
        } else {
            System.dealloc(p, l)
        }
    }
}
