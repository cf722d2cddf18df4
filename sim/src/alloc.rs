//! Global allocator: counts live bytes and, when armed, overwrites freed memory and keeps it in
//! quarantine, so that a view into a released buffer deterministically shows foreign bytes.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::Relaxed};

pub struct SimAlloc;

static LIVE: AtomicI64 = AtomicI64::new(0);
static QUARANTINE: AtomicBool = AtomicBool::new(false);

const SLOTS: usize = 4096;
static mut RING: [(usize, usize, usize); SLOTS] = [(0, 0, 0); SLOTS];
static mut POS: usize = 0;

static mut HELD: usize = 0;
/// what is kept in quarantine
const MOST: usize = 1 << 30;
/// how much of either end of a large block is overwritten
const ENDS: usize = 1 << 19;

unsafe fn release(slot: usize) {
    let (p, s, a) = RING[slot];
    if p != 0 {
        RING[slot] = (0, 0, 0);
        HELD -= s;
        System.dealloc(p as *mut u8, Layout::from_size_align_unchecked(s, a));
    }
}

pub fn live() -> i64 {
    LIVE.load(Relaxed)
}

pub fn set_quarantine(on: bool) {
    QUARANTINE.store(on, Relaxed);
    if !on {
        unsafe {
            for i in 0..SLOTS {
                release(i);
            }
        }
    }
}

// Every block starts with a word that tells whether the library asked for it.

static IN_LIB: AtomicBool = AtomicBool::new(false);
static LIB_LIVE: AtomicI64 = AtomicI64::new(0);
static LIB_PEAK: AtomicI64 = AtomicI64::new(0);

/// bytes that the library holds now, and the most since the last `reset_peak`
pub fn lib_live() -> i64 {
    LIB_LIVE.load(Relaxed)
}
pub fn lib_peak() -> i64 {
    LIB_PEAK.load(Relaxed)
}
pub fn reset_peak() {
    LIB_PEAK.store(lib_live(), Relaxed);
}

/// From here to the end of its life, memory is taken by the library (or not).
pub struct Side(bool);
impl Side {
    pub fn library() -> Side {
        Side(IN_LIB.swap(true, Relaxed))
    }
    pub fn harness() -> Side {
        Side(IN_LIB.swap(false, Relaxed))
    }
}
impl Drop for Side {
    fn drop(&mut self) {
        IN_LIB.store(self.0, Relaxed);
    }
}

fn count_lib(n: i64) {
    let now = LIB_LIVE.fetch_add(n, Relaxed) + n;
    if now > LIB_PEAK.load(Relaxed) {
        LIB_PEAK.store(now, Relaxed);
    }
}

/// (the layout with room for the mark, its length)
fn marked(l: Layout) -> (Layout, usize) {
    let h = l.align().max(16);
    unsafe { (Layout::from_size_align_unchecked(l.size() + h, h), h) }
}

unsafe fn place(p: *mut u8, h: usize, size: usize) -> *mut u8 {
    if p.is_null() {
        return p;
    }
    let lib = IN_LIB.load(Relaxed);
    let q = p.add(h);
    *(q.sub(8) as *mut u64) = lib as u64;
    LIVE.fetch_add(size as i64, Relaxed);
    if lib {
        count_lib(size as i64);
    }
    q
}

unsafe fn by_lib(p: *mut u8) -> bool {
    *(p.sub(8) as *mut u64) == 1
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let (m, h) = marked(l);
        place(System.alloc(m), h, l.size())
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let (m, h) = marked(l);
        place(System.alloc_zeroed(m), h, l.size())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let (m, h) = marked(l);
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        if by_lib(p) {
            count_lib(-(l.size() as i64));
        }
        if QUARANTINE.load(Relaxed) {
            if l.size() <= 2 * ENDS {
                std::ptr::write_bytes(p, 0xDB, l.size());
            } else {
                // (pages in the middle that nobody used stay unused)
                std::ptr::write_bytes(p, 0xDB, ENDS);
                std::ptr::write_bytes(p.add(l.size() - ENDS), 0xDB, ENDS);
            }
            release(POS);
            RING[POS] = (p.sub(h) as usize, m.size(), m.align());
            HELD += m.size();
            POS = (POS + 1) % SLOTS;
            let mut oldest = POS;
            while HELD > MOST {
                release(oldest);
                oldest = (oldest + 1) % SLOTS;
            }
        } else {
            System.dealloc(p.sub(h), m);
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let lib = by_lib(p);
        if QUARANTINE.load(Relaxed) {
            let _side = if lib { Side::library() } else { Side::harness() };
            let nl = Layout::from_size_align_unchecked(n, l.align());
            let q = self.alloc(nl);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                self.dealloc(p, l);
            }
            return q;
        }
        let (m, h) = marked(l);
        let q = System.realloc(p.sub(h), m, n + h);
        if q.is_null() {
            return q;
        }
        let more = n as i64 - l.size() as i64;
        LIVE.fetch_add(more, Relaxed);
        if lib {
            // moving takes both for a moment
            if more > 0 && n > 1 << 16 {
                count_lib(n as i64);
                count_lib(-(n as i64));
            }
            count_lib(more);
        }
        q.add(h)
    }
}
