//! Watches the heap: which of given byte strings ("needles") are in blocks that are given back, and in blocks that are in use.
//!
//! Only the thread that calls [`watch`] is watched, and only while it runs.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static STATE: RefCell<State> = const { RefCell::new(State::new()) };
}

/// What to look for: `parts` are alternatives, any one of which being there counts.
pub struct Needle {
    pub id: usize,
    pub parts: Vec<Vec<u8>>,
}

struct State {
    /// single words of the needles, sorted
    words: Vec<([u8; 8], usize)>,
    first: [bool; 1 << 16],
    needles: Vec<Needle>,
    /// blocks in use, allocated while watching
    live: Vec<(usize, usize)>,
    freed: Vec<usize>,
}

impl State {
    const fn new() -> Self {
        State { words: Vec::new(), first: [false; 1 << 16], needles: Vec::new(), live: Vec::new(), freed: Vec::new() }
    }
    fn scan(&mut self, block: &[u8]) {
        for w in block.windows(8) {
            if !self.first[w[0] as usize | (w[1] as usize) << 8] {
                continue;
            }
            let k: [u8; 8] = w.try_into().unwrap();
            let i = self.words.partition_point(|x| x.0 < k);
            for x in &self.words[i..] {
                if x.0 != k {
                    break;
                }
                if !self.freed.contains(&x.1) {
                    self.freed.push(x.1);
                }
            }
        }
    }
}

pub struct Watch;

#[global_allocator]
static WATCH: Watch = Watch;

fn with(f: impl FnOnce(&mut State)) {
    if ON.try_with(|on| on.replace(false)).unwrap_or(false) {
        STATE.with(|s| f(&mut s.borrow_mut()));
        ON.with(|on| on.set(true));
    }
}

unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ON.try_with(|on| on.get()).unwrap_or(false) {
            return System.alloc(l);
        }
        // zeroed, so that what is in it later was written by its user
        self.alloc_zeroed(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        with(|s| s.live.push((p as usize, l.size())));
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        with(|s| {
            if let Some(i) = s.live.iter().rposition(|b| b.0 == p as usize) {
                s.live.swap_remove(i);
                // SAFETY: the block is still owned by the caller, and was zeroed when it was allocated.
                let block = unsafe { std::slice::from_raw_parts(p, l.size()) };
                s.scan(block);
            }
        });
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
        if !ON.try_with(|on| on.get()).unwrap_or(false) {
            return System.realloc(p, l, size);
        }
        // a new block, so that what becomes of the old one is seen
        let new = self.alloc(Layout::from_size_align_unchecked(size, l.align()));
        if !new.is_null() {
            std::ptr::copy_nonoverlapping(p, new, l.size().min(size));
            self.dealloc(p, l);
        }
        new
    }
}

/// The bytes of a value as they are in memory.
pub fn raw<T>(x: &T) -> Vec<u8> {
    // SAFETY: used with plain arrays of integers, which have no padding.
    unsafe { std::slice::from_raw_parts(x as *const T as *const u8, std::mem::size_of::<T>()) }.to_vec()
}

/// Words that hardly occur by chance.
fn telling(w: &[u8]) -> bool {
    let mut seen: Vec<u8> = w.to_vec();
    seen.sort();
    seen.dedup();
    seen.len() >= 5
}

/// Runs `f` while looking for `needles`.
pub fn watch<R>(needles: Vec<Needle>, f: impl FnOnce() -> R) -> R {
    STATE.with(|s| {
        let mut s = s.borrow_mut();
        s.words.clear();
        s.first = [false; 1 << 16];
        for n in &needles {
            for p in &n.parts {
                for w in p.chunks(8).filter(|w| w.len() == 8 && telling(w)) {
                    s.words.push((w.try_into().unwrap(), n.id));
                    s.first[w[0] as usize | (w[1] as usize) << 8] = true;
                }
            }
        }
        s.words.sort();
        s.words.dedup();
        s.needles = needles;
        s.live.clear();
        s.freed.clear();
    });
    ON.with(|on| on.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    ON.with(|on| on.set(false));
    r.unwrap_or_else(|e| std::panic::resume_unwind(e))
}

/// Does not look while `f` runs.
pub fn aside<R>(f: impl FnOnce() -> R) -> R {
    let on = ON.with(|on| on.replace(false));
    let r = f();
    ON.with(|o| o.set(on));
    r
}

/// The needles found (in part) in blocks given back since the last time, and those that are (whole) in blocks in use.
pub fn seen() -> (Vec<usize>, Vec<usize>) {
    aside(|| {
        STATE.with(|s| {
            let mut s = s.borrow_mut();
            let freed = std::mem::take(&mut s.freed);
            let mut held = Vec::new();
            for n in &s.needles {
                let there = n.parts.iter().any(|p| {
                    s.live.iter().any(|&(at, size)| {
                        // SAFETY: allocated by this thread and not given back.
                        let block = unsafe { std::slice::from_raw_parts(at as *const u8, size) };
                        !p.is_empty() && block.windows(p.len()).any(|w| w == &p[..])
                    })
                });
                if there {
                    held.push(n.id);
                }
            }
            (freed, held)
        })
    })
}
