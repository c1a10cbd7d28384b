//! Global allocator that can watch one thread: every block is accounted for, freed blocks are
//! poisoned and kept until the end of the observation, so that a second free, a write after free
//! or a leak is seen, and a read after free gives garbage.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering};

pub struct Track;

#[global_allocator]
static GLOBAL: Track = Track;

static ON: AtomicBool = AtomicBool::new(false);
thread_local! {
    static MINE: Cell<bool> = const { Cell::new(false) };
}

const SLOTS: usize = 1 << 17;
const POISON: u8 = 0xDE;

#[derive(Clone, Copy)]
struct Block {
    ptr: usize,
    size: usize,
    align: usize,
    /// 0 none, 1 live, 2 freed and kept
    state: u8,
    /// order of allocation
    serial: u32,
}

struct Table {
    blocks: [Block; SLOTS],
    /// the slots in use
    order: [u32; SLOTS],
    used: usize,
    serial: u32,
    errors: [u32; 4],
    /// blocks released that were taken before the observation
    older: u32,
}

static mut TABLE: Table = Table { blocks: [Block { ptr: 0, size: 0, align: 0, state: 0, serial: 0 }; SLOTS], order: [0; SLOTS], used: 0, serial: 0, errors: [0; 4], older: 0 };

#[allow(static_mut_refs)]
fn table() -> &'static mut Table {
    // only the watched thread comes here
    unsafe { &mut TABLE }
}

fn slot(t: &Table, ptr: usize) -> usize {
    let mut i = (ptr >> 4).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40 & (SLOTS - 1);
    loop {
        if t.blocks[i].ptr == ptr || t.blocks[i].ptr == 0 {
            return i;
        }
        i = (i + 1) & (SLOTS - 1);
    }
}

#[inline]
fn watched() -> bool {
    ON.load(Ordering::Relaxed) && MINE.try_with(Cell::get).unwrap_or(false)
}

unsafe impl GlobalAlloc for Track {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if watched() && !p.is_null() {
            let t = table();
            if t.used > SLOTS / 2 {
                t.errors[3] += 1;
                return p;
            }
            t.serial += 1;
            let serial = t.serial;
            let i = slot(t, p as usize);
            if t.blocks[i].ptr == 0 {
                t.order[t.used] = i as u32;
                t.used += 1;
            }
            t.blocks[i] = Block { ptr: p as usize, size: l.size(), align: l.align(), state: 1, serial };
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if watched() {
            let t = table();
            let i = slot(t, p as usize);
            let b = &mut t.blocks[i];
            if b.ptr != 0 {
                if b.state == 2 {
                    t.errors[0] += 1;
                    return;
                }
                let wrong = b.size != l.size() || b.align != l.align();
                b.state = 2;
                std::ptr::write_bytes(p, POISON, b.size);
                if wrong {
                    t.errors[1] += 1;
                }
                return;
            }
            t.older += 1;
        }
        System.dealloc(p, l);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if watched() {
            let n = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
            if !n.is_null() {
                std::ptr::copy_nonoverlapping(p, n, l.size().min(new));
                self.dealloc(p, l);
            }
            return n;
        }
        System.realloc(p, l, new)
    }
}

#[derive(Debug, Default)]
pub struct Verdict {
    pub double_free: u32,
    pub wrong_layout: u32,
    pub written_after_free: u32,
    pub leaked: Vec<(usize, u32)>,
    /// Blocks from before the observation that were released (a buffer that is kept and replaced
    /// from time to time keeps nothing more than before).
    pub older: u32,
    pub overflow: bool,
    pub allocations: u32,
}

/// Watches the allocations of `f`, which must release everything it allocates.
pub fn watch<T>(f: impl FnOnce() -> T) -> (T, Verdict) {
    let t = table();
    t.errors = [0; 4];
    t.serial = 0;
    t.older = 0;
    ON.store(true, Ordering::Relaxed);
    MINE.with(|m| m.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    MINE.with(|m| m.set(false));
    ON.store(false, Ordering::Relaxed);
    let mut v = Verdict { double_free: t.errors[0], wrong_layout: t.errors[1], overflow: t.errors[3] > 0, allocations: t.serial, older: t.older, ..Verdict::default() };
    for k in 0..t.used {
        let i = t.order[k] as usize;
        let b = t.blocks[i];
        if b.state == 1 {
            if v.leaked.len() < 16 {
                v.leaked.push((b.size, b.serial));
            }
        } else {
            let bytes = unsafe { std::slice::from_raw_parts(b.ptr as *const u8, b.size) };
            if bytes.iter().any(|&x| x != POISON) {
                v.written_after_free += 1;
            }
            unsafe { System.dealloc(b.ptr as *mut u8, Layout::from_size_align_unchecked(b.size, b.align)) };
        }
        t.blocks[i] = Block { ptr: 0, size: 0, align: 0, state: 0, serial: 0 };
    }
    t.used = 0;
    v.leaked.sort_by_key(|x| x.1);
    match r {
        Ok(x) => (x, v),
        Err(p) => std::panic::resume_unwind(p),
    }
}
