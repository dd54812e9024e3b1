//! Monitoring global allocator.
//!
//! Every block carries a header and a trailer with canaries. Freeing checks that the block is
//! live, that the layout is the one it was allocated with, and that nothing was written outside
//! it. Fresh memory and freed memory are filled with patterns; freed blocks stay in quarantine
//! for a while and are checked for writes when they leave it. Live counts feed the leak oracle.
//! A complaint prints one `MONITOR:` line and aborts.

use std::{
    alloc::{GlobalAlloc, Layout, System},
    ptr,
    sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering::*},
};

pub static LIVE_COUNT: AtomicI64 = AtomicI64::new(0);
pub static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
pub static TOTAL_ALLOCS: AtomicI64 = AtomicI64::new(0);
pub static CAP_BYTES: AtomicI64 = AtomicI64::new(2_500_000_000);
/// If set, a block of at least that size is refused (null is returned).
pub static CAP_HIT: AtomicBool = AtomicBool::new(false);

const HEAD: usize = 48;
const TAIL: usize = 16;
const LIVE: u64 = 0x11FE_B10C_600D_600D;
const DEAD: u64 = 0xDEAD_B10C_DEAD_B10C;
const CANARY: u64 = 0x5AFE_CA4A_5AFE_CA4A;
const FRESH: u8 = 0xA5;
const POISON: u8 = 0xDD;
const SLOTS: usize = 8192;
const MAX_Q_BYTES: usize = 24 << 20;
/// Bigger blocks are neither filled nor kept.
const BIG: usize = 1 << 20;

#[repr(C)]
struct Head {
    magic: u64,
    size: usize,
    align: usize,
    base: *mut u8,
    total: usize,
    canary: u64,
}

pub struct Mon;

struct Quarantine {
    lock: AtomicBool,
    slots: [AtomicUsize; SLOTS],
    pos: AtomicUsize,
    bytes: AtomicUsize,
    tail: AtomicUsize,
}

static Q: Quarantine = Quarantine {
    lock: AtomicBool::new(false),
    slots: [const { AtomicUsize::new(0) }; SLOTS],
    pos: AtomicUsize::new(0),
    bytes: AtomicUsize::new(0),
    tail: AtomicUsize::new(0),
};

#[cold]
pub fn complain(what: &str, a: usize, b: usize) -> ! {
    // no allocation here
    use std::io::Write;
    let mut buf = [0u8; 256];
    let n = {
        let mut cur = std::io::Cursor::new(&mut buf[..]);
        let _ = writeln!(cur, "MONITOR: {} ({}, {})", what, a, b);
        cur.position() as usize
    };
    let _ = std::io::stderr().write_all(&buf[..n]);
    std::process::abort()
}

unsafe fn check_freed(head: *mut Head) {
    let h = &*head;
    if h.magic != DEAD || h.canary != CANARY {
        complain("header of a freed block was overwritten", h.size, h.align);
    }
    let body = (head as *mut u8).add(HEAD);
    let mut p = body as *const u64;
    let words = h.size / 8;
    let pat = u64::from_ne_bytes([POISON; 8]);
    for _ in 0..words {
        if ptr::read_unaligned(p) != pat {
            complain("write to freed memory", h.size, h.align);
        }
        p = p.add(1);
    }
    for i in words * 8..h.size {
        if *body.add(i) != POISON {
            complain("write to freed memory", h.size, h.align);
        }
    }
}

unsafe fn release(head: *mut Head) {
    let base = (*head).base;
    let total = (*head).total;
    let align = (*head).align.max(16);
    System.dealloc(base, Layout::from_size_align_unchecked(total, align));
}

/// Freed blocks by size, last one first, whichever thread freed them.
static SHELF: [AtomicUsize; 64] = [const { AtomicUsize::new(0) }; 64];

fn shelf(total: usize, align: usize) -> Option<&'static AtomicUsize> {
    (align <= 16).then(|| SHELF.get(total / 16)).flatten()
}

unsafe fn take_back(total: usize, align: usize) -> Option<*mut u8> {
    let shelf = shelf(total, align)?;
    if shelf.load(Relaxed) == 0 {
        return None;
    }
    lock();
    // the blocks of a shelf differ by less than 16 bytes
    let mut from = shelf as *const AtomicUsize as *mut usize;
    let mut found = None;
    for _ in 0..8 {
        let at = *from;
        if at == 0 {
            break;
        }
        let [next, size] = *(at as *const [usize; 2]);
        if size == total {
            *from = next;
            found = Some(at as *mut u8);
            break;
        }
        from = at as *mut usize;
    }
    unlock();
    found
}

/// Like `release`, but the next block of that size will be this one.
unsafe fn put_aside(head: *mut Head) {
    let (base, total, align) = ((*head).base, (*head).total, (*head).align.max(16));
    match shelf(total, align) {
        Some(shelf) => {
            lock();
            *(base as *mut [usize; 2]) = [shelf.load(Relaxed), total];
            shelf.store(base as usize, Relaxed);
            unlock();
        }
        None => release(head),
    }
}

unsafe fn clear_shelves() {
    lock();
    for shelf in &SHELF {
        let mut at = shelf.swap(0, Relaxed);
        while at != 0 {
            let [next, total] = *(at as *const [usize; 2]);
            System.dealloc(at as *mut u8, Layout::from_size_align_unchecked(total, 16));
            at = next;
        }
    }
    unlock();
}

unsafe fn evict_one() -> bool {
    let tail = Q.tail.load(Relaxed);
    if tail == Q.pos.load(Relaxed) {
        return false;
    }
    let head = Q.slots[tail % SLOTS].load(Relaxed) as *mut Head;
    Q.tail.store(tail + 1, Relaxed);
    Q.bytes.fetch_sub((*head).size, Relaxed);
    check_freed(head);
    release(head);
    true
}

fn lock() {
    while Q.lock.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() {
        std::hint::spin_loop();
    }
}

fn unlock() {
    Q.lock.store(false, Release);
}

static REUSE: AtomicBool = AtomicBool::new(false);

/// Freed blocks are not kept in quarantine but used again as soon as they can, by any thread: what
/// is remembered by its address must be forgotten in time.
pub fn reuse(on: bool) {
    if on {
        flush();
    }
    REUSE.store(on, Relaxed);
    if !on {
        unsafe { clear_shelves() }
    }
}

/// Checks everything still in quarantine, and empties it.
pub fn flush() {
    unsafe {
        lock();
        while evict_one() {}
        unlock();
    }
}

unsafe impl GlobalAlloc for Mon {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let align = layout.align().max(16);
        let lead = (HEAD + align - 1) / align * align;
        let total = lead + layout.size() + TAIL;
        let live = LIVE_BYTES.load(Relaxed) + layout.size() as i64;
        if live > CAP_BYTES.load(Relaxed) {
            complain("runaway allocation", live as usize, layout.size());
        }
        let used = if REUSE.load(Relaxed) { take_back(total, align) } else { None };
        let base = match used {
            Some(it) => it,
            None => System.alloc(Layout::from_size_align_unchecked(total, align)),
        };
        if base.is_null() {
            return base;
        }
        let body = base.add(lead);
        let head = body.sub(HEAD) as *mut Head;
        ptr::write(head, Head { magic: LIVE, size: layout.size(), align: layout.align(), base, total, canary: CANARY });
        if layout.size() < BIG {
            ptr::write_bytes(body, FRESH, layout.size());
        }
        ptr::write_unaligned(body.add(layout.size()) as *mut [u64; 2], [CANARY; 2]);
        LIVE_COUNT.fetch_add(1, Relaxed);
        TOTAL_ALLOCS.fetch_add(1, Relaxed);
        LIVE_BYTES.fetch_add(layout.size() as i64, Relaxed);
        body
    }

    unsafe fn dealloc(&self, body: *mut u8, layout: Layout) {
        let head = body.sub(HEAD) as *mut Head;
        let h = &mut *head;
        if h.magic == DEAD && h.canary == CANARY {
            complain("double free", layout.size(), layout.align());
        }
        if h.magic != LIVE || h.canary != CANARY {
            complain("free of a foreign or corrupted block", layout.size(), layout.align());
        }
        if h.size != layout.size() || h.align != layout.align() {
            complain("free with the wrong layout", h.size, layout.size());
        }
        if ptr::read_unaligned(body.add(h.size) as *const [u64; 2]) != [CANARY; 2] {
            complain("write past the end of a block", h.size, h.align);
        }
        LIVE_COUNT.fetch_sub(1, Relaxed);
        LIVE_BYTES.fetch_sub(layout.size() as i64, Relaxed);
        h.magic = DEAD;
        if h.size < BIG && REUSE.load(Relaxed) {
            put_aside(head);
            return;
        }
        if h.size >= BIG {
            release(head);
            return;
        }
        ptr::write_bytes(body, POISON, h.size);
        let size = h.size;
        lock();
        while Q.bytes.load(Relaxed) + size > MAX_Q_BYTES || Q.pos.load(Relaxed) - Q.tail.load(Relaxed) >= SLOTS {
            if !evict_one() {
                break;
            }
        }
        let pos = Q.pos.load(Relaxed);
        Q.slots[pos % SLOTS].store(head as usize, Relaxed);
        Q.pos.store(pos + 1, Relaxed);
        Q.bytes.fetch_add(size, Relaxed);
        unlock();
    }
}

pub fn live() -> (i64, i64) {
    (LIVE_COUNT.load(Relaxed), LIVE_BYTES.load(Relaxed))
}
