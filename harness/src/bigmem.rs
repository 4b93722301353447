//! Guest memories straight from the host: ThreadSanitizer's calloc writes every byte of them.

use std::alloc::{GlobalAlloc, Layout, System};

struct BigMem;

const BIG: usize = 1 << 28;

unsafe impl GlobalAlloc for BigMem {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() >= BIG {
            self.alloc_zeroed(l)
        } else {
            System.alloc(l)
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() < BIG {
            return System.alloc_zeroed(l);
        }
        let p = libc::mmap(std::ptr::null_mut(), l.size(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        if p == libc::MAP_FAILED { std::ptr::null_mut() } else { p as *mut u8 }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() < BIG {
            System.dealloc(p, l)
        } else {
            libc::munmap(p as *mut libc::c_void, l.size());
        }
    }
}

#[global_allocator]
static MEM: BigMem = BigMem;
