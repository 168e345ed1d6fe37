//! Checking allocator: canaries around blocks, poisoned memory, layout checks, live counts.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicIsize, AtomicUsize, Ordering::*};

pub struct Checker;

const LIVE_MAGIC: usize = 0x5AFE_B10C_5AFE_B10C;
const DEAD_MAGIC: usize = 0xDEAD_B10C_DEAD_B10C;
const CANARY: u8 = 0xC7;
const TAIL: usize = 32;
const SLOTS: usize = 32;

pub static LIVE: AtomicIsize = AtomicIsize::new(0);
pub static ALLOCS: AtomicUsize = AtomicUsize::new(0);
static ERROR: AtomicUsize = AtomicUsize::new(0);
static LOCK: AtomicBool = AtomicBool::new(false);

struct Quarantine(UnsafeCell<([*mut u8; SLOTS], usize)>);
unsafe impl Sync for Quarantine {}
static QUARANTINE: Quarantine = Quarantine(UnsafeCell::new(([std::ptr::null_mut(); SLOTS], 0)));

const ERRORS: [&str; 7] = [
    "",
    "a write past the end of an allocation",
    "a write before the start of an allocation, or a pointer freed that was not allocated",
    "memory freed with another size than it was allocated with",
    "memory freed with another alignment than it was allocated with",
    "memory freed twice",
    "a write to memory after it was freed",
];

fn error(code: usize) {
    let _ = ERROR.compare_exchange(0, code, SeqCst, SeqCst);
}

/// Returns and clears the first error recorded.
pub fn take_error() -> Option<&'static str> {
    match ERROR.swap(0, SeqCst) {
        0 => None,
        n => Some(ERRORS[n]),
    }
}

/// Number of live allocations.
pub fn live() -> isize {
    LIVE.load(SeqCst)
}

fn pad(align: usize) -> usize {
    align.max(64)
}

unsafe fn header(ptr: *mut u8) -> *mut usize {
    unsafe { (ptr as *mut usize).sub(4) }
}

unsafe fn release(ptr: *mut u8) {
    unsafe {
        let h = header(ptr);
        let (size, align) = (*h, *h.add(1));
        for i in 0..size {
            if *ptr.add(i) != 0xDD {
                error(6);
                break;
            }
        }
        let total = *h.add(3) + pad(align) + TAIL;
        System.dealloc(
            ptr.sub(pad(align)),
            Layout::from_size_align_unchecked(total, align.max(64)),
        );
    }
}

fn lock() {
    while LOCK.swap(true, Acquire) {
        std::hint::spin_loop();
    }
}

fn unlock() {
    LOCK.store(false, Release);
}

/// Checks and releases all freed blocks that were held back.
pub fn flush() {
    if cfg!(feature = "plain-alloc") {
        return;
    }
    lock();
    unsafe {
        let q = &mut *QUARANTINE.0.get();
        for slot in q.0.iter_mut() {
            if !slot.is_null() {
                release(*slot);
                *slot = std::ptr::null_mut();
            }
        }
    }
    unlock();
}

unsafe impl GlobalAlloc for Checker {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if layout.size() > 1 << 30 {
            return std::ptr::null_mut();
        }
        let (size, align) = (layout.size(), layout.align());
        let pad = pad(align);
        // Room to grow in place, as real allocators have.
        let room = size + if size <= 2048 { size / 2 + 8 } else { 0 };
        unsafe {
            let base = System.alloc(Layout::from_size_align_unchecked(
                room + pad + TAIL,
                align.max(64),
            ));
            if base.is_null() {
                return base;
            }
            let ptr = base.add(pad);
            base.write_bytes(CANARY, pad);
            let h = header(ptr);
            *h = size;
            *h.add(1) = align;
            *h.add(2) = LIVE_MAGIC;
            *h.add(3) = room;
            ptr.write_bytes(0xA5, size);
            ptr.add(size).write_bytes(CANARY, room - size + TAIL);
            LIVE.fetch_add(1, Relaxed);
            ALLOCS.fetch_add(1, Relaxed);
            ptr
        }
    }

    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        unsafe {
            let h = header(ptr);
            match *h.add(2) {
                LIVE_MAGIC => (),
                DEAD_MAGIC => {
                    error(5);
                    return;
                }
                _ => {
                    error(2);
                    return;
                }
            }
            let (size, align) = (*h, *h.add(1));
            if size != layout.size() {
                error(3);
            }
            if align != layout.align() {
                error(4);
            }
            for i in size..*h.add(3) + TAIL {
                if *ptr.add(i) != CANARY {
                    error(1);
                    break;
                }
            }
            let base = ptr.sub(pad(align));
            for i in 0..pad(align) - 32 {
                if *base.add(i) != CANARY {
                    error(2);
                    break;
                }
            }
            *h.add(2) = DEAD_MAGIC;
            ptr.write_bytes(0xDD, size);
            LIVE.fetch_sub(1, Relaxed);
            if size > 4096 {
                release(ptr);
                return;
            }
            lock();
            let q = &mut *QUARANTINE.0.get();
            let old = std::mem::replace(&mut q.0[q.1], ptr);
            q.1 = (q.1 + 1) % SLOTS;
            unlock();
            if !old.is_null() {
                release(old);
            }
        }
    }

    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        unsafe {
            let h = header(ptr);
            let size = layout.size();
            let valid = *h.add(2) == LIVE_MAGIC && *h == size && *h.add(1) == layout.align();
            // Some blocks stay in place and some move; the choice depends on the sizes only.
            if valid && new_size <= *h.add(3) && (size ^ (new_size >> 1)) % 3 != 0 {
                for i in size..*h.add(3) + TAIL {
                    if *ptr.add(i) != CANARY {
                        error(1);
                        break;
                    }
                }
                if new_size > size {
                    ptr.add(size).write_bytes(0xA5, new_size - size);
                }
                *h = new_size;
                ptr.add(new_size).write_bytes(CANARY, *h.add(3) - new_size + TAIL);
                return ptr;
            }
            let new = self.alloc(Layout::from_size_align_unchecked(new_size, layout.align()));
            if !new.is_null() {
                ptr.copy_to_nonoverlapping(new, size.min(new_size));
                self.dealloc(ptr, layout);
            }
            new
        }
    }
}

#[cfg(not(feature = "plain-alloc"))]
#[global_allocator]
static GLOBAL: Checker = Checker;
