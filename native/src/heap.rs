//! A checking allocator: every block carries a header with the layout it was allocated with and
//! red zones on both sides.  Freed blocks are poisoned and kept for a while.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

pub struct Checked;

const MAGIC_LIVE: u64 = 0xA11C_0DED_5AFE_B10C;
const MAGIC_FREE: u64 = 0xDEAD_F5EE_DEAD_F5EE;
const RZ: usize = 32;
const RZ_BYTE: u8 = 0xBD;
const POISON: u8 = 0xD7;
const QN: usize = 256;
/// Above this size a freed block is returned at once.
const QMAX: usize = 1 << 16;
/// No single case may own more than this many live bytes.
const LIMIT: usize = 6 << 30;

thread_local! {
    static LIVE_N: Cell<i64> = const { Cell::new(0) };
    static LIVE_B: Cell<i64> = const { Cell::new(0) };
    static Q: Cell<[(usize, usize, usize); QN]> = const { Cell::new([(0, 0, 0); QN]) };
    static QI: Cell<usize> = const { Cell::new(0) };
    static QLAST: Cell<usize> = const { Cell::new(0) };
}
static ERR: AtomicU64 = AtomicU64::new(0);
static TOTAL: AtomicUsize = AtomicUsize::new(0);

pub const E_DOUBLE: u64 = 1;
pub const E_LAYOUT: u64 = 2;
pub const E_REDZONE: u64 = 4;
pub const E_UAF: u64 = 8;

pub fn live() -> (i64, i64) {
    (LIVE_N.with(Cell::get), LIVE_B.with(Cell::get))
}

pub fn take_errors() -> u64 {
    flush();
    ERR.swap(0, Relaxed)
}

pub fn describe(e: u64) -> String {
    let mut v = vec![];
    if e & E_DOUBLE != 0 {
        v.push("a block was freed that is not live (double free or foreign pointer)");
    }
    if e & E_LAYOUT != 0 {
        v.push("a block was freed or resized with a size or alignment other than it was allocated with");
    }
    if e & E_REDZONE != 0 {
        v.push("bytes outside an allocated block were overwritten");
    }
    if e & E_UAF != 0 {
        v.push("a block was written to after it was freed");
    }
    v.join("; ")
}

#[repr(C)]
#[derive(Clone, Copy)]
struct Head {
    magic: u64,
    size: usize,
    align: usize,
    base: usize,
}

fn pre(align: usize) -> usize {
    let need = std::mem::size_of::<Head>() + RZ;
    (need + align - 1) / align * align
}

unsafe fn head(p: *mut u8) -> *mut Head {
    p.sub(RZ + std::mem::size_of::<Head>()).cast()
}

unsafe fn rz_ok(p: *const u8) -> bool {
    (0..RZ).all(|i| *p.add(i) == RZ_BYTE)
}

unsafe fn evict(ent: (usize, usize, usize)) {
    let (p, size, align) = ent;
    if p == 0 {
        return;
    }
    let p = p as *mut u8;
    let mut ok = true;
    for i in 0..size {
        if *p.add(i) != POISON {
            ok = false;
            break;
        }
    }
    if !ok || !rz_ok(p.sub(RZ)) || !rz_ok(p.add(size)) || (*head(p)).magic != MAGIC_FREE {
        ERR.fetch_or(E_UAF, Relaxed);
    }
    let al = align.max(16);
    let base = p.sub(pre(al));
    System.dealloc(base, Layout::from_size_align_unchecked(pre(al) + size + RZ, al));
}

/// Check the blocks freed since the last call.
fn flush() {
    let _ = Q.try_with(|q| {
        let arr = q.as_ptr();
        let end = QI.with(Cell::get);
        let mut i = QLAST.with(Cell::get);
        let mut budget = QN;
        while i != end && budget > 0 {
            budget -= 1;
            let (p, size, _) = unsafe { (*arr)[i] };
            if p != 0 && size <= 512 {
                unsafe {
                    let p = p as *const u8;
                    for k in 0..size {
                        if *p.add(k) != POISON {
                            ERR.fetch_or(E_UAF, Relaxed);
                            break;
                        }
                    }
                }
            }
            i = (i + 1) % QN;
        }
        QLAST.with(|c| c.set(end));
    });
}

unsafe impl GlobalAlloc for Checked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let al = l.align().max(16);
        if TOTAL.load(Relaxed).saturating_add(l.size()) > LIMIT {
            crate::ctx::fatal("memory: more than 6 GiB of live allocations");
        }
        let base = System.alloc(Layout::from_size_align_unchecked(pre(al) + l.size() + RZ, al));
        if base.is_null() {
            return base;
        }
        let p = base.add(pre(al));
        *head(p) = Head { magic: MAGIC_LIVE, size: l.size(), align: l.align(), base: base as usize };
        p.sub(RZ).write_bytes(RZ_BYTE, RZ);
        p.add(l.size()).write_bytes(RZ_BYTE, RZ);
        if l.size() <= QMAX {
            p.write_bytes(0xC9, l.size());
        }
        TOTAL.fetch_add(l.size(), Relaxed);
        let _ = LIVE_N.try_with(|c| c.set(c.get() + 1));
        let _ = LIVE_B.try_with(|c| c.set(c.get() + l.size() as i64));
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = head(p);
        if (*h).magic != MAGIC_LIVE {
            ERR.fetch_or(E_DOUBLE, Relaxed);
            return;
        }
        let (size, align) = ((*h).size, (*h).align);
        if size != l.size() || align != l.align() {
            ERR.fetch_or(E_LAYOUT, Relaxed);
        }
        if !rz_ok(p.sub(RZ)) || !rz_ok(p.add(size)) {
            ERR.fetch_or(E_REDZONE, Relaxed);
            p.sub(RZ).write_bytes(RZ_BYTE, RZ);
            p.add(size).write_bytes(RZ_BYTE, RZ);
        }
        (*h).magic = MAGIC_FREE;
        TOTAL.fetch_sub(size, Relaxed);
        let _ = LIVE_N.try_with(|c| c.set(c.get() - 1));
        let _ = LIVE_B.try_with(|c| c.set(c.get() - size as i64));
        if size > QMAX {
            let al = align.max(16);
            System.dealloc(p.sub(pre(al)), Layout::from_size_align_unchecked(pre(al) + size + RZ, al));
            return;
        }
        p.write_bytes(POISON, size);
        let done = Q.try_with(|q| {
            let i = QI.with(|c| {
                let i = c.get();
                c.set((i + 1) % QN);
                i
            });
            let arr = q.as_ptr();
            let old = (*arr)[i];
            (*arr)[i] = (p as usize, size, align);
            evict(old);
        });
        if done.is_err() {
            evict((p as usize, size, align));
        }
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, new_size: usize) -> *mut u8 {
        let n = self.alloc(Layout::from_size_align_unchecked(new_size, l.align()));
        if !n.is_null() {
            let h = head(p);
            let have = if (*h).magic == MAGIC_LIVE { (*h).size } else { 0 };
            std::ptr::copy_nonoverlapping(p, n, have.min(new_size));
            self.dealloc(p, l);
        }
        n
    }
}
