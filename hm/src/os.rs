//! The operating system as the program sees it: its arguments, files and output are the
//! harness's while the program runs; otherwise (native replay) calls go to the kernel.
use std::ffi::{c_char, c_int, c_void};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, Ordering};

/// what `open` finds under a path
pub enum Found {
    File(Vec<u8>),
    Errno(c_int),
    /// the file can be opened but not read
    Unreadable(c_int),
}
pub struct Os {
    pub files: Box<dyn Fn(&[u8]) -> Found + Send>,
    /// the most that one `read` returns
    pub chunk: usize,
    open: Option<Result<Vec<u8>, c_int>>,
    pos: usize,
    pub out: Vec<u8>,
    pub err: usize,
    #[cfg(not(feature = "replay"))]
    end: Option<Box<dyn FnOnce(bool, Vec<u8>) + Send>>,
}
static ACTIVE: AtomicBool = AtomicBool::new(false);
static OS: Mutex<Option<Os>> = Mutex::new(None);
const FD: c_int = 100;

fn active() -> bool {
    ACTIVE.load(Ordering::SeqCst)
}
fn os<T>(f: impl FnOnce(&mut Os) -> T) -> T {
    f(OS.lock().unwrap().as_mut().unwrap())
}
unsafe extern "C" {
    fn __errno_location() -> *mut c_int;
}
fn error(e: c_int) -> isize {
    unsafe { *__errno_location() = e };
    -1
}
#[cfg(feature = "replay")]
mod sys {
    use std::ffi::c_int;
    unsafe extern "C" {
        fn syscall(n: i64, ...) -> i64;
    }
    pub fn call(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize) -> isize {
        unsafe { syscall(n, a, b, c, d, e) as isize }
    }
    pub fn exit(c: c_int) -> ! {
        loop {
            call(231, c as usize, 0, 0, 0, 0);
        }
    }
}
#[cfg(not(feature = "replay"))]
mod sys {
    pub fn call(_: i64, _: usize, _: usize, _: usize, _: usize, _: usize) -> isize {
        super::error(38)
    }
}

fn open_any(p: *const c_char) -> c_int {
    let path = unsafe { std::ffi::CStr::from_ptr(p) }.to_bytes();
    os(|o| match (o.files)(path) {
        Found::File(c) => {
            o.open = Some(Ok(c));
            o.pos = 0;
            FD
        }
        Found::Unreadable(e) => {
            o.open = Some(Err(e));
            FD
        }
        Found::Errno(e) => error(e) as c_int,
    })
}
#[unsafe(no_mangle)]
pub extern "C" fn open64(p: *const c_char, f: c_int, m: c_int) -> c_int {
    if active() { open_any(p) } else { sys::call(2, p as usize, f as usize, m as usize, 0, 0) as c_int }
}
#[unsafe(no_mangle)]
pub extern "C" fn read(fd: c_int, p: *mut c_void, n: usize) -> isize {
    if !active() {
        return sys::call(0, fd as usize, p as usize, n, 0, 0);
    }
    if fd != FD {
        return error(9);
    }
    os(|o| match &o.open {
        None => error(9),
        Some(Err(e)) => error(*e),
        Some(Ok(c)) => {
            let k = n.min(o.chunk).min(c.len() - o.pos);
            unsafe { std::ptr::copy_nonoverlapping(c.as_ptr().add(o.pos), p as *mut u8, k) };
            o.pos += k;
            k as isize
        }
    })
}
#[unsafe(no_mangle)]
pub extern "C" fn write(fd: c_int, p: *const c_void, n: usize) -> isize {
    if !active() {
        return sys::call(1, fd as usize, p as usize, n, 0, 0);
    }
    os(|o| {
        if fd == 1 {
            o.out.extend_from_slice(unsafe { std::slice::from_raw_parts(p as *const u8, n) });
        } else if fd == 2 {
            o.err += n;
        } else {
            return error(9);
        }
        n as isize
    })
}
#[repr(C)]
pub struct Iov {
    p: *const c_void,
    n: usize,
}
#[unsafe(no_mangle)]
pub extern "C" fn writev(fd: c_int, v: *const Iov, n: c_int) -> isize {
    if !active() {
        return sys::call(20, fd as usize, v as usize, n as usize, 0, 0);
    }
    let mut t = 0;
    for i in 0..n as usize {
        let e = unsafe { &*v.add(i) };
        t += write(fd, e.p, e.n);
    }
    t
}
#[unsafe(no_mangle)]
pub extern "C" fn close(fd: c_int) -> c_int {
    if active() && fd == FD {
        os(|o| o.open = None);
        return 0;
    }
    sys::call(3, fd as usize, 0, 0, 0, 0) as c_int
}
#[unsafe(no_mangle)]
pub extern "C" fn fstat64(fd: c_int, p: *mut u8) -> c_int {
    if !active() {
        return sys::call(5, fd as usize, p as usize, 0, 0, 0) as c_int;
    }
    if fd != FD {
        return error(9) as c_int;
    }
    let size = os(|o| match &o.open {
        Some(Ok(c)) => c.len(),
        _ => 0,
    });
    fill_stat(p, size)
}
fn fill_stat(p: *mut u8, size: usize) -> c_int {
    unsafe {
        std::ptr::write_bytes(p, 0, 144);
        *(p.add(24) as *mut u32) = 0o100644;
        *(p.add(48) as *mut u64) = size as u64;
    }
    0
}
#[unsafe(no_mangle)]
pub extern "C" fn stat64(n: *const c_char, p: *mut u8) -> c_int {
    if !active() {
        return sys::call(4, n as usize, p as usize, 0, 0, 0) as c_int;
    }
    let path = unsafe { std::ffi::CStr::from_ptr(n) }.to_bytes();
    os(|o| match (o.files)(path) {
        Found::File(c) => fill_stat(p, c.len()),
        Found::Unreadable(_) => fill_stat(p, 0),
        Found::Errno(e) => error(e) as c_int,
    })
}
#[unsafe(no_mangle)]
pub extern "C" fn fcntl(fd: c_int, c: c_int, a: usize) -> c_int {
    if active() && fd == FD {
        return 0;
    }
    sys::call(72, fd as usize, c as usize, a, 0, 0) as c_int
}
#[unsafe(no_mangle)]
pub extern "C" fn statx(fd: c_int, p: *const c_char, f: c_int, m: u32, b: *mut c_void) -> c_int {
    if active() {
        return error(38) as c_int;
    }
    sys::call(332, fd as usize, p as usize, f as usize, m as usize, b as usize) as c_int
}
#[unsafe(no_mangle)]
pub extern "C" fn lseek64(fd: c_int, o: i64, w: c_int) -> i64 {
    if !active() {
        return sys::call(8, fd as usize, o as usize, w as usize, 0, 0) as i64;
    }
    if fd == FD && o == 0 && w == 1 { os(|o| o.pos as i64) } else { error(29) as i64 }
}
#[unsafe(no_mangle)]
pub extern "C" fn isatty(fd: c_int) -> c_int {
    let _ = fd;
    error(25);
    0
}
#[unsafe(no_mangle)]
pub extern "C" fn getenv(p: *const c_char) -> *const c_char {
    #[cfg(feature = "replay")]
    if !active() {
        unsafe extern "C" {
            fn secure_getenv(p: *const c_char) -> *const c_char;
        }
        return unsafe { secure_getenv(p) };
    }
    let _ = p;
    std::ptr::null()
}

#[unsafe(no_mangle)]
pub extern "C" fn __xpg_strerror_r(_: c_int, b: *mut u8, n: usize) -> c_int {
    if n > 5 {
        unsafe { std::ptr::copy_nonoverlapping(b"error\0".as_ptr(), b, 6) };
    }
    0
}

fn arguments(args: &[Vec<u8>]) {
    let mut v: Vec<*const u8> = vec![];
    for a in args {
        let mut s = a.clone();
        s.push(0);
        v.push(s.leak().as_ptr());
    }
    let n = v.len() as c_int;
    v.push(std::ptr::null());
    let env: &'static [*const u8; 1] = Box::leak(Box::new([std::ptr::null()]));
    let v = v.leak().as_ptr();
    type F = extern "C" fn(c_int, *const *const u8, *const *const u8);
    #[cfg(not(feature = "replay"))]
    {
        unsafe extern "C" {
            fn __sym_init_fn(n: u64) -> Option<F>;
        }
        let mut i = 0;
        while let Some(f) = unsafe { __sym_init_fn(i) } {
            f(n, v, env.as_ptr());
            i += 1;
        }
    }
    #[cfg(feature = "replay")]
    {
        unsafe extern "C" {
            static __init_array_start: [F; 0];
            static __init_array_end: [F; 0];
        }
        unsafe {
            let mut p = (&raw const __init_array_start) as *const F;
            while p != (&raw const __init_array_end) as *const F {
                (*p)(n, v, env.as_ptr());
                p = p.add(1);
            }
        }
    }
}
fn system(chunk: usize, files: impl Fn(&[u8]) -> Found + Send + 'static) -> Os {
    Os {
        files: Box::new(files),
        chunk,
        open: None,
        pos: 0,
        out: vec![],
        err: 0,
        #[cfg(not(feature = "replay"))]
        end: None,
    }
}
fn program() -> bool {
    use std::io::Write;
    let r = crate::cli::__verif_main();
    let _ = std::io::stdout().flush();
    r
}

/// run the program; `end` gets whether its status was success, and what it wrote to its
/// standard output
#[cfg(not(feature = "replay"))]
pub fn run(args: &[Vec<u8>], chunk: usize, files: impl Fn(&[u8]) -> Found + Send + 'static, end: impl FnOnce(bool, Vec<u8>) + Send + 'static) {
    let mut o = system(chunk, files);
    o.end = Some(Box::new(end));
    *OS.lock().unwrap() = Some(o);
    arguments(args);
    ACTIVE.store(true, Ordering::SeqCst);
    let ok = program();
    done(ok)
}
#[cfg(not(feature = "replay"))]
fn done(ok: bool) -> ! {
    unsafe extern "C" {
        fn __sym_done() -> !;
    }
    ACTIVE.store(false, Ordering::SeqCst);
    let (end, out) = os(|o| (o.end.take().unwrap(), std::mem::take(&mut o.out)));
    end(ok, out);
    unsafe { __sym_done() }
}
#[cfg(not(feature = "replay"))]
#[unsafe(no_mangle)]
pub extern "C" fn exit(c: c_int) -> ! {
    done(c == 0)
}

/// natively the program runs in a process of its own, which reports through a pipe
#[cfg(feature = "replay")]
static REPORT: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(-1);
#[cfg(feature = "replay")]
fn report(ok: bool, panicked: bool) -> ! {
    ACTIVE.store(false, Ordering::SeqCst);
    let mut m = vec![ok as u8, panicked as u8];
    m.extend(os(|o| std::mem::take(&mut o.out)));
    let fd = REPORT.load(Ordering::SeqCst);
    let mut i = 0;
    while i < m.len() {
        let k = sys::call(1, fd as usize, m[i..].as_ptr() as usize, m.len() - i, 0, 0);
        if k <= 0 {
            break;
        }
        i += k as usize;
    }
    sys::exit(0)
}
#[cfg(feature = "replay")]
#[unsafe(no_mangle)]
pub extern "C" fn exit(c: c_int) -> ! {
    if !active() {
        sys::exit(c)
    }
    report(c == 0, false)
}
#[cfg(feature = "replay")]
pub fn run(args: &[Vec<u8>], chunk: usize, files: impl Fn(&[u8]) -> Found + Send + 'static, end: impl FnOnce(bool, Vec<u8>) + Send + 'static) {
    unsafe extern "C" {
        fn fork() -> c_int;
        fn pipe(p: *mut c_int) -> c_int;
        fn waitpid(p: c_int, s: *mut c_int, o: c_int) -> c_int;
    }
    let mut p = [0; 2];
    unsafe { pipe(p.as_mut_ptr()) };
    let child = unsafe { fork() };
    if child == 0 {
        REPORT.store(p[1], Ordering::SeqCst);
        *OS.lock().unwrap() = Some(system(chunk, files));
        arguments(args);
        ACTIVE.store(true, Ordering::SeqCst);
        match std::panic::catch_unwind(program) {
            Ok(ok) => report(ok, false),
            Err(_) => report(false, true),
        }
    }
    close(p[1]);
    let mut m = vec![];
    let mut b = [0u8; 4096];
    loop {
        let k = sys::call(0, p[0] as usize, b.as_mut_ptr() as usize, b.len(), 0, 0);
        if k <= 0 {
            break;
        }
        m.extend_from_slice(&b[..k as usize]);
    }
    close(p[0]);
    unsafe { waitpid(child, std::ptr::null_mut(), 0) };
    if m.len() < 2 || m[1] != 0 {
        crate::rt::check(false, "the program panics");
        m.resize(2, 0);
    }
    end(m[0] != 0, m.split_off(2));
}
