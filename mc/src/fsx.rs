//! The file system as the code under test sees it: libc's functions replaced by ones that first let a controller
//! decide - which session moves next, or whether the process has just died - and then do the real system call.
#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
use libc::{c_char, c_int, c_uint, c_void, mode_t, off_t, size_t, ssize_t};
use std::cell::{Cell, RefCell};
use std::ffi::CStr;
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    /// Does not change anything.
    Look(&'static str),
    Open { create: bool, trunc: bool, write: bool, append: bool },
    Write(usize),
    Other(&'static str),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct FsOp {
    pub kind: Kind,
    pub path: String,
    pub path2: String,
}

impl FsOp {
    pub fn mutates(&self) -> bool {
        match &self.kind {
            Kind::Look(_) => false,
            Kind::Open { create, trunc, .. } => *create || *trunc,
            _ => true,
        }
    }
    pub fn independent(&self, o: &FsOp) -> bool {
        if !self.mutates() && !o.mutates() {
            return true;
        }
        let names = |x: &FsOp| [x.path.clone(), x.path2.clone()];
        for a in names(self) {
            for b in names(o) {
                if a == "?" || b == "?" || (!a.is_empty() && a == b) {
                    return false;
                }
            }
        }
        true
    }
    pub fn show(&self) -> String {
        let base = |p: &str| p.rsplit('/').next().unwrap_or("").to_string();
        let p2 = if self.path2.is_empty() { String::new() } else { format!(" -> {}", base(&self.path2)) };
        match &self.kind {
            Kind::Look(s) | Kind::Other(s) => format!("{} {}{}", s, base(&self.path), p2),
            Kind::Open { create, trunc, .. } => format!(
                "open{}{} {}",
                if *create { "+create" } else { "" },
                if *trunc { "+truncate" } else { "" },
                base(&self.path)
            ),
            Kind::Write(n) => format!("write {} bytes to {}", n, base(&self.path)),
        }
    }
}

// ---- sessions as coroutines

pub struct Co {
    ctx: libc::ucontext_t,
    back: libc::ucontext_t,
    #[allow(dead_code)]
    stack: Box<[u8]>,
    body: Option<Box<dyn FnOnce()>>,
    pub pending: Option<FsOp>,
    pub done: bool,
    pub panicked: Option<String>,
}

thread_local! {
    static CUR: Cell<*mut Co> = const { Cell::new(std::ptr::null_mut()) };
    static STACKS: RefCell<Vec<Box<[u8]>>> = const { RefCell::new(Vec::new()) };
    static PATHS: RefCell<Vec<(c_int, String)>> = const { RefCell::new(Vec::new()) };
    static WATCH: Cell<bool> = const { Cell::new(false) };
    static CRASH: RefCell<Option<Crash>> = const { RefCell::new(None) };
    static CRASHING: Cell<bool> = const { Cell::new(false) };
}

/// Counts the operations that change something, and lets the process "die" at one of them.
#[derive(Clone, Debug, Default)]
pub struct Crash {
    pub count: usize,
    /// Die at this operation (0-based)...
    pub at: Option<usize>,
    /// ... after so many bytes of it, if it is a write.
    pub bytes: usize,
    pub dead: bool,
    pub log: Vec<FsOp>,
    /// Operations that change nothing count, too, and fail.
    pub looks: bool,
    /// Only that operation fails; nobody dies.
    pub once: bool,
    /// It came to that.
    pub hit: bool,
}

const STACK: usize = 256 * 1024;

extern "C" fn entry() {
    let co = CUR.with(|c| c.get());
    unsafe {
        let body = (*co).body.take().unwrap();
        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(body)).is_err() {
            (*co).panicked = Some(crate::engine::LAST_PANIC.with(|p| p.borrow().clone()));
        }
        (*co).done = true;
        (*co).pending = None;
        let (ctx, back) = (&raw mut (*co).ctx, &raw const (*co).back);
        libc::swapcontext(ctx, back);
    }
}

impl Co {
    pub fn new(body: Box<dyn FnOnce()>) -> Box<Co> {
        unsafe {
            let stack =
                STACKS.with(|s| s.borrow_mut().pop()).unwrap_or_else(|| vec![0u8; STACK].into_boxed_slice());
            let mut co = Box::new(Co {
                ctx: std::mem::zeroed(),
                back: std::mem::zeroed(),
                stack,
                body: Some(body),
                pending: None,
                done: false,
                panicked: None,
            });
            libc::getcontext(&mut co.ctx);
            co.ctx.uc_stack.ss_sp = co.stack.as_mut_ptr() as *mut c_void;
            co.ctx.uc_stack.ss_size = STACK;
            co.ctx.uc_link = std::ptr::null_mut();
            libc::makecontext(&mut co.ctx, entry, 0);
            co
        }
    }
    /// Runs the session up to its next operation, or to its end.
    pub fn step(&mut self) {
        assert!(!self.done);
        self.pending = None;
        let p: *mut Co = self;
        CUR.with(|c| c.set(p));
        WATCH.with(|w| w.set(true));
        unsafe {
            let (back, ctx) = (&raw mut (*p).back, &raw const (*p).ctx);
            libc::swapcontext(back, ctx);
        }
        CUR.with(|c| c.set(std::ptr::null_mut()));
        WATCH.with(|w| w.set(false));
    }
}

impl Drop for Co {
    fn drop(&mut self) {
        let s = std::mem::replace(&mut self.stack, Box::new([]));
        STACKS.with(|p| p.borrow_mut().push(s));
    }
}

/// Runs `f` with operations counted, dying where asked to.
pub fn with_crash<R>(c: Crash, f: impl FnOnce() -> R) -> (R, Crash) {
    CRASH.with(|x| *x.borrow_mut() = Some(c));
    CRASHING.with(|x| x.set(true));
    WATCH.with(|w| w.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    WATCH.with(|w| w.set(false));
    CRASHING.with(|x| x.set(false));
    let c = CRASH.with(|x| x.borrow_mut().take().unwrap());
    match r {
        Ok(r) => (r, c),
        Err(e) => std::panic::resume_unwind(e),
    }
}

enum Go {
    Real,
    /// Only so many bytes, then dead.
    Part(usize),
    Dead,
}

fn watched() -> bool {
    WATCH.with(|w| w.get())
}

fn point(op: FsOp) -> Go {
    let co = CUR.with(|c| c.get());
    if !co.is_null() {
        unsafe {
            (*co).pending = Some(op);
            let (ctx, back) = (&raw mut (*co).ctx, &raw const (*co).back);
            libc::swapcontext(ctx, back);
        }
        return Go::Real;
    }
    if CRASHING.with(|c| c.get()) {
        return CRASH.with(|c| {
            let mut c = c.borrow_mut();
            let c = c.as_mut().unwrap();
            if c.dead {
                return if op.mutates() || c.looks { Go::Dead } else { Go::Real };
            }
            if !op.mutates() && !c.looks {
                return Go::Real;
            }
            let n = c.count;
            c.count += 1;
            let write = matches!(op.kind, Kind::Write(_));
            c.log.push(op);
            if c.at == Some(n) {
                c.hit = true;
                c.dead = !c.once;
                return if write { Go::Part(c.bytes) } else { Go::Dead };
            }
            Go::Real
        });
    }
    Go::Real
}

fn no_watch<R>(f: impl FnOnce() -> R) -> R {
    let w = WATCH.with(|w| w.replace(false));
    let r = f();
    WATCH.with(|x| x.set(w));
    r
}

unsafe fn cstr(p: *const c_char) -> String {
    if p.is_null() {
        "?".into()
    } else {
        CStr::from_ptr(p).to_string_lossy().into_owned()
    }
}

fn fd_path(fd: c_int) -> String {
    PATHS.with(|p| p.borrow().iter().rev().find(|x| x.0 == fd).map(|x| x.1.clone())).unwrap_or_else(|| "?".into())
}

fn eio() -> c_int {
    unsafe { *libc::__errno_location() = libc::EIO };
    -1
}

fn look(what: &'static str, path: String) -> FsOp {
    FsOp { kind: Kind::Look(what), path, path2: String::new() }
}
fn other(what: &'static str, path: String) -> FsOp {
    FsOp { kind: Kind::Other(what), path, path2: String::new() }
}

unsafe fn do_open(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let real = || libc::syscall(libc::SYS_openat, dir, path, flags | libc::O_LARGEFILE, mode as c_uint) as c_int;
    if !watched() {
        return real();
    }
    let name = cstr(path);
    let exists = libc::syscall(libc::SYS_access, path, libc::F_OK) == 0;
    let _ = exists;
    let op = FsOp {
        kind: Kind::Open {
            create: flags & libc::O_CREAT != 0,
            trunc: flags & libc::O_TRUNC != 0,
            write: flags & (libc::O_WRONLY | libc::O_RDWR) != 0,
            append: flags & libc::O_APPEND != 0,
        },
        path: name.clone(),
        path2: String::new(),
    };
    match point(op) {
        Go::Real => {
            let fd = real();
            if fd >= 0 {
                no_watch(|| {
                    PATHS.with(|p| {
                        let mut p = p.borrow_mut();
                        p.retain(|x| x.0 != fd);
                        p.push((fd, name));
                    })
                });
            }
            fd
        }
        _ => eio(),
    }
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(dir, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if watched() && fd > 2 && !matches!(point(look("read", fd_path(fd))), Go::Real) {
        return eio() as ssize_t;
    }
    libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t
}

unsafe fn write_point(fd: c_int, n: usize) -> Go {
    point(FsOp { kind: Kind::Write(n), path: fd_path(fd), path2: String::new() })
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if watched() && fd > 2 {
        match write_point(fd, n) {
            Go::Real => {}
            Go::Part(k) => {
                if k > 0 {
                    libc::syscall(libc::SYS_write, fd, buf, k.min(n));
                }
                return eio() as ssize_t;
            }
            Go::Dead => return eio() as ssize_t,
        }
    }
    libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if watched() && fd > 2 && cnt > 0 {
        // as one write
        let mut all: Vec<u8> = vec![];
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                all.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
            }
        }
        return write(fd, all.as_ptr() as *const c_void, all.len());
    }
    libc::syscall(libc::SYS_writev, fd, iov, cnt) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off_t) -> ssize_t {
    let mut n = n;
    if watched() && fd > 2 {
        match write_point(fd, n) {
            Go::Real => {}
            Go::Part(k) => {
                n = k.min(n);
                if n > 0 {
                    libc::syscall(libc::SYS_pwrite64, fd, buf, n, off);
                }
                return eio() as ssize_t;
            }
            Go::Dead => return eio() as ssize_t,
        }
    }
    libc::syscall(libc::SYS_pwrite64, fd, buf, n, off) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off_t, whence: c_int) -> off_t {
    if watched() && whence == libc::SEEK_END && !matches!(point(look("seek to the end of", fd_path(fd))), Go::Real) {
        return eio() as off_t;
    }
    libc::syscall(libc::SYS_lseek, fd, off, whence) as off_t
}

#[no_mangle]
pub unsafe extern "C" fn statx(
    dir: c_int,
    path: *const c_char,
    flags: c_int,
    mask: c_uint,
    buf: *mut libc::statx,
) -> c_int {
    if watched() {
        let empty = path.is_null() || *path == 0;
        if !matches!(point(look("stat", if empty { fd_path(dir) } else { cstr(path) })), Go::Real) {
            return eio();
        }
    }
    libc::syscall(libc::SYS_statx, dir, path, flags, mask, buf) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if watched() {
        let op = FsOp { kind: Kind::Other("rename"), path: cstr(a), path2: cstr(b) };
        if !matches!(point(op), Go::Real) {
            return eio();
        }
    }
    libc::syscall(libc::SYS_rename, a, b) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    if watched() {
        let op = FsOp { kind: Kind::Other("link"), path: cstr(a), path2: cstr(b) };
        if !matches!(point(op), Go::Real) {
            return eio();
        }
    }
    libc::syscall(libc::SYS_link, a, b) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    if watched() && !matches!(point(other("unlink", cstr(a))), Go::Real) {
        return eio();
    }
    libc::syscall(libc::SYS_unlink, a) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off_t) -> c_int {
    if watched() && !matches!(point(other("truncate", fd_path(fd))), Go::Real) {
        return eio();
    }
    libc::syscall(libc::SYS_ftruncate, fd, n) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn truncate64(p: *const c_char, n: off_t) -> c_int {
    if watched() && !matches!(point(other("truncate", cstr(p))), Go::Real) {
        return eio();
    }
    libc::syscall(libc::SYS_truncate, p, n) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn linkat(ad: c_int, a: *const c_char, bd: c_int, b: *const c_char, flags: c_int) -> c_int {
    if watched() {
        let op = FsOp { kind: Kind::Other("link"), path: cstr(a), path2: cstr(b) };
        if !matches!(point(op), Go::Real) {
            return eio();
        }
    }
    libc::syscall(libc::SYS_linkat, ad, a, bd, b, flags) as c_int
}

// Copying within the kernel is not offered, so that every copy is made of reads and writes.

#[no_mangle]
pub unsafe extern "C" fn copy_file_range(_: c_int, _: *mut i64, _: c_int, _: *mut i64, _: size_t, _: c_uint) -> ssize_t {
    *libc::__errno_location() = libc::ENOSYS;
    -1
}

#[no_mangle]
pub unsafe extern "C" fn sendfile64(_: c_int, _: c_int, _: *mut i64, _: size_t) -> ssize_t {
    *libc::__errno_location() = libc::ENOSYS;
    -1
}

#[no_mangle]
pub unsafe extern "C" fn splice(_: c_int, _: *mut i64, _: c_int, _: *mut i64, _: size_t, _: c_uint) -> ssize_t {
    *libc::__errno_location() = libc::ENOSYS;
    -1
}

/// Waits for a lock by letting others move on.
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, what: c_int) -> c_int {
    if !watched() || CUR.with(|c| c.get()).is_null() {
        return libc::syscall(libc::SYS_flock, fd, what) as c_int;
    }
    for _ in 0..10_000 {
        point(other("lock", fd_path(fd)));
        let r = libc::syscall(libc::SYS_flock, fd, what | libc::LOCK_NB) as c_int;
        if r == 0 || what & libc::LOCK_NB != 0 || *libc::__errno_location() != libc::EWOULDBLOCK {
            return r;
        }
    }
    eio()
}

// ---- scratch directories

use std::sync::atomic::{AtomicUsize, Ordering};

pub fn scratch_root() -> PathBuf {
    let shm = Path::new("/dev/shm");
    let base = if shm.is_dir() { shm.to_path_buf() } else { std::env::temp_dir() };
    base.join(format!("liner-mc-{}", std::process::id()))
}

/// A directory of this thread's own, empty.
pub fn scratch() -> PathBuf {
    static N: AtomicUsize = AtomicUsize::new(0);
    thread_local! {
        static DIR: RefCell<Option<PathBuf>> = const { RefCell::new(None) };
    }
    DIR.with(|d| {
        d.borrow_mut()
            .get_or_insert_with(|| {
                let p = scratch_root().join(N.fetch_add(1, Ordering::Relaxed).to_string());
                std::fs::create_dir_all(&p).expect("scratch directory");
                p
            })
            .clone()
    })
}

pub fn cleanup() {
    let r = scratch_root();
    if r.exists() {
        let _ = std::fs::remove_dir_all(r);
    }
}

/// Whether the operation chosen has failed.
pub fn is_hit() -> bool {
    CRASH.with(|c| c.borrow().as_ref().map_or(false, |c| c.hit))
}

pub fn is_dead() -> bool {
    CRASH.with(|c| c.borrow().as_ref().map_or(false, |c| c.dead))
}
