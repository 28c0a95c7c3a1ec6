//! Symbolic-input runtime shared by the harness crates.
//!
//! Without the `replay` feature the `__sym_*` functions are undefined externals that the
//! symbolic executor interprets.  With it they are implemented here over a concrete tape, so
//! the very same harness code runs natively against the real crates (counterexample replay
//! and translation validation).
#![allow(dead_code)]

#[cfg(not(feature = "replay"))]
unsafe extern "C" {
    fn __sym_bytes(p: *mut u8, n: usize);
    fn __sym_choose(n: u32) -> u32;
    fn __sym_assume(c: bool);
    fn __sym_check(c: bool, id: *const u8, n: usize);
    fn __sym_fail(id: *const u8, n: usize);
    fn __sym_reach(id: *const u8, n: usize);
    fn __sym_observe(p: *const u8, n: usize);
    fn __sym_alloc_limit(n: usize);
    fn __sym_concretize(n: u64) -> u64;
    fn __sym_utf8(p: *const u8, n: usize) -> bool;
}

#[cfg(not(feature = "replay"))]
mod imp {
    use super::*;
    pub fn fill(p: &mut [u8]) {
        unsafe { __sym_bytes(p.as_mut_ptr(), p.len()) }
    }
    pub fn choose(n: u32) -> u32 {
        unsafe { __sym_choose(n) }
    }
    pub fn assume(c: bool) {
        unsafe { __sym_assume(c) }
    }
    pub fn check(c: bool, id: &str) {
        unsafe { __sym_check(c, id.as_ptr(), id.len()) }
    }
    pub fn fail(id: &str) {
        unsafe { __sym_fail(id.as_ptr(), id.len()) }
    }
    pub fn reach(id: &str) {
        unsafe { __sym_reach(id.as_ptr(), id.len()) }
    }
    pub fn observe(b: &[u8]) {
        unsafe { __sym_observe(b.as_ptr(), b.len()) }
    }
    pub fn alloc_limit(n: usize) {
        unsafe { __sym_alloc_limit(n) }
    }
    pub fn utf8(b: &[u8]) -> bool {
        unsafe { __sym_utf8(b.as_ptr(), b.len()) }
    }
    pub fn concretize(n: u64) -> u64 {
        unsafe { __sym_concretize(n) }
    }
}

#[cfg(feature = "replay")]
mod imp {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::RefCell;
    use std::sync::atomic::{AtomicUsize, Ordering};

    pub struct Counting;
    static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
    static WORST: AtomicUsize = AtomicUsize::new(0);
    fn note(n: usize) {
        if n > LIMIT.load(Ordering::Relaxed) && n > WORST.load(Ordering::Relaxed) {
            WORST.store(n, Ordering::Relaxed);
        }
    }
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            note(l.size());
            unsafe { System.alloc(l) }
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            note(l.size());
            unsafe { System.alloc_zeroed(l) }
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            note(n);
            unsafe { System.realloc(p, l, n) }
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            unsafe { System.dealloc(p, l) }
        }
    }
    #[global_allocator]
    static A: Counting = Counting;

    #[derive(Default)]
    struct Tape {
        choices: Vec<u32>,
        ci: usize,
        bytes: Vec<u8>,
        bi: usize,
        digest: u64,
        fails: Vec<String>,
        reach: Vec<String>,
        pruned: bool,
        short: bool,
        verbose: bool,
    }
    thread_local!(static T: RefCell<Tape> = RefCell::new(Tape::default()));
    pub struct Stop;

    pub fn fill(p: &mut [u8]) {
        T.with(|t| {
            let mut t = t.borrow_mut();
            for b in p.iter_mut() {
                *b = match t.bytes.get(t.bi).copied() {
                    Some(x) => x,
                    None => {
                        t.short = true;
                        0
                    }
                };
                t.bi += 1;
            }
        })
    }
    pub fn choose(n: u32) -> u32 {
        T.with(|t| {
            let mut t = t.borrow_mut();
            let i = t.ci;
            t.ci += 1;
            match t.choices.get(i).copied() {
                Some(x) if x < n => x,
                _ => {
                    t.short = true;
                    0
                }
            }
        })
    }
    pub fn assume(c: bool) {
        if !c {
            T.with(|t| t.borrow_mut().pruned = true);
            std::panic::panic_any(Stop);
        }
    }
    pub fn check(c: bool, id: &str) {
        if !c {
            T.with(|t| t.borrow_mut().fails.push(id.to_string()));
        }
    }
    pub fn fail(id: &str) {
        check(false, id);
        std::panic::panic_any(Stop);
    }
    pub fn reach(id: &str) {
        T.with(|t| t.borrow_mut().reach.push(id.to_string()));
    }
    pub fn observe(b: &[u8]) {
        T.with(|t| {
            let mut t = t.borrow_mut();
            for x in b {
                t.digest = (t.digest ^ *x as u64).wrapping_mul(0x100000001b3);
            }
            if t.verbose {
                eprintln!("observe: {:?} {:?}", b, String::from_utf8_lossy(b));
            }
        })
    }
    pub fn alloc_limit(n: usize) {
        LIMIT.store(n, Ordering::Relaxed);
    }
    pub fn concretize(n: u64) -> u64 {
        n
    }
    pub fn utf8(b: &[u8]) -> bool {
        super::utf8_ok(b)
    }

    fn unhex(s: &str) -> Vec<u8> {
        (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
    }

    /// argv: FILE with one tape per line: `entry <tab> c,c,c <tab> hex`; prints one line per tape.
    pub fn main(table: &[(&str, fn())]) {
        let a: Vec<String> = std::env::args().collect();
        let verbose = std::env::var("VERBOSE").is_ok();
        let src = std::fs::read_to_string(&a[1]).expect("tape file");
        std::panic::set_hook(Box::new(move |i| {
            let s = format!("{i}").replace('\n', " ").replace('\t', " ");
            if !i.payload().is::<Stop>() {
                T.with(|t| {
                    if let Ok(mut t) = t.try_borrow_mut() {
                        t.fails.push(format!("panic: {s}"))
                    }
                });
            }
        }));
        for line in src.lines() {
            let mut it = line.split('\t');
            let entry = it.next().unwrap_or("").to_string();
            let ch: Vec<u32> = it.next().unwrap_or("").split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
            let by = unhex(it.next().unwrap_or(""));
            let Some((_, f)) = table.iter().find(|e| e.0 == entry) else {
                println!("NOENTRY\t{entry}");
                continue;
            };
            let f = *f;
            T.with(|t| *t.borrow_mut() = Tape { choices: ch, bytes: by, digest: 0xcbf29ce484222325, verbose, ..Default::default() });
            LIMIT.store(usize::MAX, Ordering::Relaxed);
            WORST.store(0, Ordering::Relaxed);
            let _ = std::panic::catch_unwind(f);
            LIMIT.store(usize::MAX, Ordering::Relaxed);
            T.with(|t| {
                let mut t = t.borrow_mut();
                let w = WORST.load(Ordering::Relaxed);
                if w > 0 {
                    t.fails.push(format!("alloc: {w} bytes in one allocation"));
                }
                println!(
                    "{}\t{:016x}\t{}\t{}",
                    if t.pruned { "PRUNED" } else if t.short { "SHORT" } else if t.fails.is_empty() { "OK" } else { "FAIL" },
                    t.digest,
                    t.reach.join(","),
                    t.fails.join(" | ")
                );
            });
            use std::io::Write;
            let _ = std::io::stdout().flush();
        }
    }
}

/// straightforward UTF-8 validity check (RFC 3629), independent of the standard library
pub fn utf8_ok(s: &[u8]) -> bool {
    let mut i = 0;
    while i < s.len() {
        let b = s[i];
        let n = if b < 0x80 {
            1
        } else if b >= 0xC2 && b <= 0xDF {
            2
        } else if b >= 0xE0 && b <= 0xEF {
            3
        } else if b >= 0xF0 && b <= 0xF4 {
            4
        } else {
            return false;
        };
        if i + n > s.len() {
            return false;
        }
        if n > 1 {
            let c = s[i + 1];
            let (lo, hi) = match b {
                0xE0 => (0xA0, 0xBF),
                0xED => (0x80, 0x9F),
                0xF0 => (0x90, 0xBF),
                0xF4 => (0x80, 0x8F),
                _ => (0x80, 0xBF),
            };
            if c < lo || c > hi {
                return false;
            }
        }
        let mut k = 2;
        while k < n {
            if s[i + k] & 0xC0 != 0x80 {
                return false;
            }
            k += 1;
        }
        i += n;
    }
    true
}


#[cfg(feature = "replay")]
pub use imp::main;
pub use imp::{alloc_limit, assume, check, choose, concretize, fail, fill, observe, reach, utf8};

pub fn arr<const N: usize>() -> [u8; N] {
    let mut a = [0u8; N];
    fill(&mut a);
    a
}
pub fn vec(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    fill(&mut v);
    v
}
pub fn u8() -> u8 {
    arr::<1>()[0]
}
pub fn boolean() -> bool {
    u8() & 1 == 1
}
pub fn u16() -> u16 {
    u16::from_be_bytes(arr())
}
pub fn u32() -> u32 {
    u32::from_be_bytes(arr())
}
pub fn u64() -> u64 {
    u64::from_be_bytes(arr())
}
/// concrete value in 0..n, every one explored
pub fn upto(n: usize) -> usize {
    choose(n as u32) as usize
}

#[macro_export]
macro_rules! entries {
    ($($n:ident),* $(,)?) => {
        #[used]
        #[unsafe(no_mangle)]
        pub static SYM_TABLE: [(&str, fn()); [$(stringify!($n)),*].len()] = [$((stringify!($n), $n as fn())),*];
        fn main() {
            #[cfg(feature = "replay")]
            crate::rt::main(&SYM_TABLE);
        }
    };
}
