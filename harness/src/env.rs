//! The environment: terminal, pipes, files, signals. These definitions take
//! the place of libc's, both under symbolic execution and in native replay.
//! Everything here runs between scheduling points, so plain statics do.
#![allow(static_mut_refs)]
use crate::rt;
use crate::screen::Screen;
use std::ffi::c_char;
use std::os::raw::c_int;

extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn __errno_location() -> *mut c_int;
    fn pthread_self() -> u64;
}

const EINTR: i32 = 4;
const EIO: i32 = 5;
const EINVAL: i32 = 22;
const ENXIO: i32 = 6;
const EBADF: i32 = 9;
const ENOENT: i32 = 2;
const ENOSPC: i32 = 28;
const EPIPE: i32 = 32;

fn err(e: i32) -> i32 {
    unsafe { *__errno_location() = e };
    -1
}

static mut SP: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0);
/// A point at which the schedule may switch.
#[inline(never)]
fn sched_point() {
    unsafe { SP.load(std::sync::atomic::Ordering::SeqCst) };
}

// ------------------------------------------------------------------
// waiting

static mut WAITQ: i32 = 0;
/// Wait until somebody calls wake (the caller re-checks its condition).
#[inline(never)]
fn wait() {
    unsafe {
        let v = WAITQ;
        syscall(202, &raw const WAITQ, 128i32, v as i64, 0i64, 0i64, 0i64);
    }
}
#[inline(never)]
fn wake() {
    unsafe {
        WAITQ += 1;
        syscall(202, &raw const WAITQ, 129i32, i32::MAX as i64, 0i64, 0i64, 0i64);
    }
}

// ------------------------------------------------------------------
// objects behind file descriptors

#[derive(Clone, Copy, PartialEq)]
pub enum Obj {
    None,
    /// standard input as given (keyboard or pipe)
    Stdin,
    Stdout,
    Stderr,
    PipeR(usize),
    PipeW(usize),
    File { ino: usize, pos: usize, mode: u8 },
}

#[derive(Default)]
pub struct Pipe {
    pub data: Vec<u8>,
    pub readers: usize,
    pub writers: usize,
}

const NFD: usize = 24;
static mut FDS: [Obj; NFD] = [Obj::None; NFD];
static mut PIPES: Vec<Pipe> = Vec::new();

/// Chunks still to be delivered to readers of the standard input.
static mut IN: Vec<Vec<u8>> = Vec::new();
static mut IN_NEXT: usize = 0;
static mut IN_EOF: bool = false;
static mut IN_ERR: i32 = 0;
/// interrupt the next read with EINTR
static mut IN_INTR: bool = false;
static mut IN_TTY: bool = true;
static mut OUT_TTY: bool = true;
static mut ERR_TTY: bool = true;
/// everything written to stdout / stderr, in order
pub static mut OUT_LOG: Vec<u8> = Vec::new();
pub static mut ERR_LOG: Vec<u8> = Vec::new();
static mut KEEP_LOG: bool = false;
static mut SCREEN: Option<Screen> = None;
static mut WIDTH: u16 = 80;
static mut HEIGHT: u16 = 24;
static mut TERM: *const u8 = b"xterm\0".as_ptr();
static mut INPUT_ENV: *const u8 = core::ptr::null();
static mut WOB: *const u8 = core::ptr::null();
static mut TIO: [u8; 60] = [0; 60];
static mut TIO0: [u8; 60] = [0; 60];
/// What is to happen on each signal (0: the default, 1: nothing).
static mut HANDLERS: [usize; 64] = [0; 64];
static mut BLOCKED: u64 = 0;
static mut INTERRUPTED: u64 = 0;
static mut STOPS: Vec<Stop> = Vec::new();
/// Bytes read so far from the standard input.
pub static mut CONSUMED: usize = 0;
static mut READERS_WAITING: usize = 0;
/// longest piece one write() accepts (0: no limit)
static mut OUT_FAILS: bool = false;
static mut SHORT_WRITES: usize = 0;

/// What the terminal looked like when the process stopped itself.
#[derive(Clone)]
pub struct Stop {
    pub cooked: bool,
    pub screen: Option<Screen>,
}

pub fn init() {
    unsafe {
        FDS[0] = Obj::Stdin;
        FDS[1] = Obj::Stdout;
        FDS[2] = Obj::Stderr;
        // c_iflag, c_oflag, c_cflag, c_lflag
        TIO[12] = 0x3b;
        TIO[13] = 0x8a;
        TIO[0] = 0x00;
        TIO[1] = 0x45;
        TIO[4] = 0x05;
        TIO0 = TIO;
    }
}
/// A terminal of the given width on stdin, stdout (and stderr).
pub fn tty(width: u16) {
    init();
    unsafe {
        WIDTH = width;
        SCREEN = Some(Screen::new(width as usize, false));
    }
}
pub fn vt52(width: u16, height: u16, term: &'static [u8], colors: u32, wob: bool) {
    init();
    unsafe {
        WIDTH = width;
        HEIGHT = height;
        TERM = term.as_ptr();
        SCREEN = Some(Screen::new(width as usize, true).colored(colors, wob));
    }
}
/// Raw logging instead of a terminal emulator; what is a tty is chosen.
pub fn raw(in_tty: bool, out_tty: bool, term: Option<&'static [u8]>) {
    init();
    unsafe {
        IN_TTY = in_tty;
        OUT_TTY = out_tty;
        SCREEN = None;
        KEEP_LOG = true;
        TERM = match term {
            Some(x) => x.as_ptr(),
            None => core::ptr::null(),
        };
    }
}
pub fn keep_log() {
    unsafe { KEEP_LOG = true }
}
pub fn set_width(w: u16) {
    unsafe { WIDTH = w }
}
/// Writing to the terminal fails (it was hung up).
pub fn fail_stdout(v: bool) {
    unsafe { OUT_FAILS = v }
}
pub fn short_writes(n: usize) {
    unsafe { SHORT_WRITES = n }
}
pub fn wob(v: &'static [u8]) {
    unsafe { WOB = v.as_ptr() }
}
pub fn err_tty(t: bool) {
    unsafe { ERR_TTY = t }
}
pub fn screen() -> &'static mut Screen {
    unsafe { SCREEN.as_mut().unwrap() }
}
/// Deliver bytes to the standard input as one read's worth.
pub fn feed(b: &[u8]) {
    unsafe {
        IN.push(b.to_vec());
        wake();
    }
}
pub fn feed_eof() {
    unsafe {
        IN_EOF = true;
        wake();
    }
}
/// How many bytes have been fed but not read yet.
pub fn unread() -> usize {
    unsafe { IN[IN_NEXT..].iter().map(|x| x.len()).sum() }
}
/// The terminal is there again.
pub fn mend() {
    unsafe {
        IN_ERR = 0;
        IN_EOF = false;
        OUT_FAILS = false;
    }
}
pub fn feed_error() {
    unsafe {
        IN_ERR = EIO;
        wake();
    }
}
pub fn feed_intr() {
    unsafe {
        IN_INTR = true;
        wake();
    }
}
/// The terminal's modes are those from before there was an instance.
pub fn cooked() -> bool {
    unsafe {
        let mut ok = true;
        for i in 0..TIO.len() {
            ok &= TIO[i] == TIO0[i];
        }
        ok
    }
}
pub fn raw_mode() -> bool {
    unsafe { TIO[12] & 0x0b == 0 && TIO[4] & 1 == 0 }
}
/// Whether a line feed also returns.
pub fn onlcr() -> bool {
    unsafe { TIO[4] & 5 == 5 }
}
/// Other modes than usual from the beginning.
pub fn modes(at: usize, v: u8) {
    unsafe {
        TIO[at] = v;
        TIO0[at] = v;
    }
}
pub fn stops() -> &'static [Stop] {
    unsafe { &STOPS }
}
pub fn out_log() -> &'static [u8] {
    unsafe { &OUT_LOG }
}
pub fn err_log() -> &'static [u8] {
    unsafe { &ERR_LOG }
}
pub fn clear_log() {
    unsafe {
        OUT_LOG.clear();
        ERR_LOG.clear();
    }
}
/// Standard input is back where it was and nothing else is left open.
pub fn fds_sound() -> bool {
    unsafe {
        let mut ok = FDS[0] == Obj::Stdin && FDS[1] == Obj::Stdout && FDS[2] == Obj::Stderr;
        for f in &FDS[3..] {
            ok &= *f == Obj::None;
        }
        ok
    }
}
pub fn fd2_is_stderr() -> bool {
    unsafe { FDS[2] == Obj::Stderr }
}
pub fn sighup_handler_restored() -> bool {
    unsafe { HANDLERS.iter().all(|h| *h == 0) }
}
/// write to descriptor 2 like a program would
pub fn write_stderr(b: &[u8]) -> isize {
    unsafe { write(2, b.as_ptr(), b.len()) }
}

// ------------------------------------------------------------------
// descriptors

unsafe fn obj(fd: c_int) -> Obj {
    if fd < 0 || fd as usize >= NFD {
        return Obj::None;
    }
    FDS[fd as usize]
}
unsafe fn alloc(o: Obj) -> c_int {
    for i in 0..NFD {
        if FDS[i] == Obj::None {
            FDS[i] = o;
            return i as c_int;
        }
    }
    err(24)
}
unsafe fn refd(o: Obj) {
    match o {
        Obj::PipeR(p) => PIPES[p].readers += 1,
        Obj::PipeW(p) => PIPES[p].writers += 1,
        _ => (),
    }
}
unsafe fn unref(o: Obj) {
    match o {
        Obj::PipeR(p) => {
            PIPES[p].readers -= 1;
            wake()
        }
        Obj::PipeW(p) => {
            PIPES[p].writers -= 1;
            wake()
        }
        _ => (),
    }
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let o = obj(fd);
    if o == Obj::None {
        return err(EBADF);
    }
    if let Obj::PipeR(_) | Obj::PipeW(_) = o {
        sched_point();
    }
    FDS[fd as usize] = Obj::None;
    unref(o);
    0
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    let o = obj(fd);
    if o == Obj::None {
        return err(EBADF);
    }
    refd(o);
    alloc(o)
}
#[no_mangle]
pub unsafe extern "C" fn dup2(a: c_int, b: c_int) -> c_int {
    sched_point();
    let o = obj(a);
    if o == Obj::None || b < 0 || b as usize >= NFD {
        return err(EBADF);
    }
    if a == b {
        return b;
    }
    refd(o);
    let old = FDS[b as usize];
    FDS[b as usize] = o;
    if old != Obj::None {
        unref(old);
    }
    b
}
#[no_mangle]
pub unsafe extern "C" fn pipe(p: *mut c_int) -> c_int {
    let k = PIPES.len();
    PIPES.push(Pipe { data: Vec::new(), readers: 1, writers: 1 });
    *p = alloc(Obj::PipeR(k));
    *p.add(1) = alloc(Obj::PipeW(k));
    0
}
#[no_mangle]
pub unsafe extern "C" fn pipe2(p: *mut c_int, _f: c_int) -> c_int {
    pipe(p)
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    let t = match obj(fd) {
        Obj::Stdin => IN_TTY,
        Obj::Stdout => OUT_TTY,
        Obj::Stderr => ERR_TTY,
        _ => false,
    };
    if !t {
        err(25);
    }
    t as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: u64, p: *mut u16) -> c_int {
    if req == 0x5413 && isatty(fd) == 1 {
        *p = HEIGHT;
        *p.add(1) = WIDTH;
        *p.add(2) = 0;
        *p.add(3) = 0;
        return 0;
    }
    err(25)
}
#[no_mangle]
pub unsafe extern "C" fn tcgetattr(fd: c_int, p: *mut u8) -> c_int {
    if isatty(fd) != 1 {
        return -1;
    }
    core::ptr::copy_nonoverlapping((&raw const TIO) as *const u8, p, 60);
    0
}
#[no_mangle]
pub unsafe extern "C" fn tcsetattr(fd: c_int, _a: c_int, p: *const u8) -> c_int {
    if isatty(fd) != 1 {
        return -1;
    }
    core::ptr::copy_nonoverlapping(p, (&raw mut TIO) as *mut u8, 60);
    0
}
#[no_mangle]
pub unsafe extern "C" fn cfmakeraw(p: *mut u8) {
    // c_iflag &= ~(IGNBRK|BRKINT|PARMRK|ISTRIP|INLCR|IGNCR|ICRNL|IXON)
    *p &= !0xeb;
    *p.add(1) &= !0x05;
    // c_oflag &= ~OPOST
    *p.add(4) &= !1;
    // c_lflag &= ~(ECHO|ECHONL|ICANON|ISIG|IEXTEN)
    *p.add(12) &= !0x4b;
    *p.add(13) &= !0x80;
}

unsafe fn wait_blocked() -> bool {
    // returns true when interrupted by a signal
    BLOCKED = pthread_self();
    READERS_WAITING += 1;
    wait();
    READERS_WAITING -= 1;
    if BLOCKED == pthread_self() {
        BLOCKED = 0;
    }
    if INTERRUPTED == pthread_self() {
        INTERRUPTED = 0;
        return true;
    }
    false
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, p: *mut u8, n: usize) -> isize {
    match obj(fd) {
        Obj::Stdin => loop {
            if IN_INTR {
                IN_INTR = false;
                return err(EINTR) as isize;
            }
            if IN_NEXT < IN.len() {
                let c = &mut IN[IN_NEXT];
                if c.is_empty() {
                    IN_NEXT += 1;
                    continue;
                }
                let k = c.len().min(n);
                core::ptr::copy_nonoverlapping(c.as_ptr(), p, k);
                if k == c.len() {
                    IN_NEXT += 1;
                } else {
                    c.drain(..k);
                }
                CONSUMED += k;
                return k as isize;
            }
            if IN_ERR != 0 {
                return err(IN_ERR) as isize;
            }
            if IN_EOF {
                return 0;
            }
            if wait_blocked() {
                return err(EINTR) as isize;
            }
        },
        Obj::PipeR(k) => {
            sched_point();
            loop {
                let pi = &mut PIPES[k];
                if !pi.data.is_empty() {
                    let m = pi.data.len().min(n);
                    core::ptr::copy_nonoverlapping(pi.data.as_ptr(), p, m);
                    pi.data.drain(..m);
                    return m as isize;
                }
                if pi.writers == 0 {
                    return 0;
                }
                if wait_blocked() {
                    return err(EINTR) as isize;
                }
            }
        }
        Obj::File { ino, pos, mode } => {
            if mode & 3 == 1 {
                return err(EBADF) as isize;
            }
            if fs_op(Op::Read) {
                return err(EIO) as isize;
            }
            let d = &INODES[ino];
            let k = (d.len() - pos.min(d.len())).min(n);
            core::ptr::copy_nonoverlapping(d.as_ptr().add(pos), p, k);
            FDS[fd as usize] = Obj::File { ino, pos: pos + k, mode };
            k as isize
        }
        _ => err(EBADF) as isize,
    }
}

static mut ON_ERR: Option<fn()> = None;
/// Call `f` when something is first written to descriptor 2.
pub fn on_stderr(f: fn()) {
    unsafe { ON_ERR = Some(f) }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, p: *const u8, n: usize) -> isize {
    if fd == 2 {
        let f = ON_ERR;
        ON_ERR = None;
        if let Some(f) = f {
            f()
        }
    }
    let mut s = core::slice::from_raw_parts(p, n);
    match obj(fd) {
        Obj::Stdout => {
            if OUT_FAILS {
                return err(EIO) as isize;
            }
            if SHORT_WRITES != 0 && s.len() > SHORT_WRITES {
                s = &s[..SHORT_WRITES];
            }
            if KEEP_LOG {
                OUT_LOG.extend_from_slice(s);
            }
            if let Some(sc) = SCREEN.as_mut() {
                for b in s {
                    sc.put(*b);
                }
            }
            s.len() as isize
        }
        Obj::Stderr => {
            ERR_LOG.extend_from_slice(s);
            n as isize
        }
        Obj::PipeW(k) => {
            sched_point();
            if PIPES[k].readers == 0 {
                return err(EPIPE) as isize;
            }
            PIPES[k].data.extend_from_slice(s);
            wake();
            n as isize
        }
        Obj::File { ino, pos, mode } => {
            if mode & 3 == 0 {
                return err(EBADF) as isize;
            }
            let pos = if mode & APPEND != 0 { INODES[ino].len() } else { pos };
            let mut m = n;
            if fs_op(Op::Write) {
                // whatever did not fit is lost; with nothing written it fails
                m = if n > 1 { rt::pick(2) * (n / 2) } else { 0 };
                if m == 0 {
                    return err(ENOSPC) as isize;
                }
                // the rest will fail too
                FS_FULL = true;
            }
            let d = &mut INODES[ino];
            if d.len() < pos + m {
                d.resize(pos + m, 0);
            }
            d[pos..pos + m].copy_from_slice(&s[..m]);
            FDS[fd as usize] = Obj::File { ino, pos: pos + m, mode };
            m as isize
        }
        _ => err(EBADF) as isize,
    }
}
#[repr(C)]
pub struct IoVec {
    base: *const u8,
    len: usize,
}
#[no_mangle]
pub extern "C" fn gettid() -> c_int {
    1
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const IoVec, n: c_int) -> isize {
    let mut t = 0;
    for i in 0..n as usize {
        let x = &*v.add(i);
        if x.len == 0 {
            continue;
        }
        let r = write(fd, x.base, x.len);
        if r < 0 {
            return if t == 0 { r } else { t };
        }
        t += r;
        if (r as usize) < x.len {
            break;
        }
    }
    t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const IoVec, n: c_int) -> isize {
    for i in 0..n as usize {
        let x = &*v.add(i);
        if x.len != 0 {
            return read(fd, x.base as *mut u8, x.len);
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_int) -> c_int {
    let o = obj(fd);
    if o == Obj::None {
        return err(EBADF);
    }
    match cmd {
        0 | 1030 => {
            refd(o);
            for i in arg.max(0) as usize..NFD {
                if FDS[i] == Obj::None {
                    FDS[i] = o;
                    return i as c_int;
                }
            }
            err(24)
        }
        3 => 2,
        _ => 0,
    }
}
#[repr(C)]
struct PollFd {
    fd: c_int,
    events: i16,
    revents: i16,
}
unsafe fn ready(f: &mut PollFd) -> bool {
    let r = match obj(f.fd) {
        Obj::None if f.fd >= 0 => 0x20,
        Obj::None => 0,
        Obj::Stdin => {
            let pending = IN[IN_NEXT.min(IN.len())..].iter().any(|c| !c.is_empty());
            if pending || IN_EOF || IN_ERR != 0 { 1 } else { 0 }
        }
        Obj::PipeR(k) => (!PIPES[k].data.is_empty()) as i16 | if PIPES[k].writers == 0 { 0x10 } else { 0 },
        Obj::File { .. } => 5,
        _ => 4,
    };
    f.revents = r & (f.events | 0x38);
    f.revents != 0
}
#[no_mangle]
pub unsafe extern "C" fn poll(p: *mut u8, n: u64, t: c_int) -> c_int {
    let f = core::slice::from_raw_parts_mut(p as *mut PollFd, n as usize);
    let mut waited = false;
    loop {
        let k = f.iter_mut().filter_map(|x| ready(x).then_some(())).count();
        if k > 0 || t == 0 || waited {
            return k as c_int;
        }
        if t > 0 {
            let ts = [(t / 1000) as i64, (t % 1000) as i64 * 1_000_000];
            nanosleep(ts.as_ptr(), core::ptr::null_mut());
            waited = true;
        } else if wait_blocked() {
            return err(EINTR);
        }
    }
}

// ------------------------------------------------------------------
// signals

#[no_mangle]
pub unsafe extern "C" fn raise(sig: c_int) -> c_int {
    if sig == 19 || sig == 20 {
        STOPS.push(Stop { cooked: cooked(), screen: SCREEN.clone() });
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn kill(_p: c_int, sig: c_int) -> c_int {
    raise(sig)
}
#[no_mangle]
pub unsafe extern "C" fn killpg(_p: c_int, sig: c_int) -> c_int {
    raise(sig)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_sigmask(_h: c_int, _n: *const u8, o: *mut u8) -> c_int {
    if !o.is_null() {
        core::ptr::write_bytes(o, 0, 128);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn sigprocmask(h: c_int, n: *const u8, o: *mut u8) -> c_int {
    pthread_sigmask(h, n, o)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_kill(t: u64, sig: c_int) -> c_int {
    if sig != 0 {
        rt::check(HANDLERS[sig as usize & 63] > 1, "a signal sent while nothing handles it");
    }
    sched_point();
    if BLOCKED == t {
        INTERRUPTED = t;
        wake();
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn sigaction(sig: c_int, n: *const usize, o: *mut usize) -> c_int {
    let h = &mut HANDLERS[sig as usize & 63];
    if !o.is_null() {
        core::ptr::write_bytes(o as *mut u8, 0, 152);
        *o = *h;
    }
    if !n.is_null() {
        *h = *n;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _f: u32) -> isize {
    for i in 0..n {
        *p.add(i) = 42;
    }
    n as isize
}
#[no_mangle]
pub unsafe extern "C" fn signal(s: c_int, h: usize) -> usize {
    core::mem::replace(&mut HANDLERS[s as usize & 63], h)
}
#[no_mangle]
pub unsafe extern "C" fn sigaddset(p: *mut u64, s: c_int) -> c_int {
    *p |= 1 << (s - 1);
    0
}
#[no_mangle]
pub unsafe extern "C" fn sigdelset(p: *mut u64, s: c_int) -> c_int {
    *p &= !(1 << (s - 1));
    0
}
#[no_mangle]
pub unsafe extern "C" fn sigfillset(p: *mut u8) -> c_int {
    core::ptr::write_bytes(p, 0xff, 128);
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(_p: c_int, _n: usize, _m: *mut u8) -> c_int {
    err(38)
}
#[no_mangle]
pub unsafe extern "C" fn tcflush(_f: c_int, _q: c_int) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn tcdrain(_f: c_int) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn sigemptyset(p: *mut u8) -> c_int {
    core::ptr::write_bytes(p, 0, 128);
    0
}
#[no_mangle]
pub unsafe extern "C" fn sigaltstack(_n: *const u8, o: *mut u8) -> c_int {
    if !o.is_null() {
        core::ptr::write_bytes(o, 0, 24);
    }
    0
}

// ------------------------------------------------------------------
// environment variables

unsafe fn streq(mut p: *const c_char, s: &[u8]) -> bool {
    for b in s {
        if *p as u8 != *b {
            return false;
        }
        p = p.add(1);
    }
    *p == 0
}
#[no_mangle]
pub unsafe extern "C" fn getenv(p: *const c_char) -> *const u8 {
    if streq(p, b"TERM") {
        return TERM;
    }
    if streq(p, b"LISO_CROSSTERM_INPUT") {
        return INPUT_ENV;
    }
    if streq(p, b"ATARI_WHITE_ON_BLACK") {
        return WOB;
    }
    core::ptr::null()
}

// ------------------------------------------------------------------
// files

#[derive(Clone, Copy, PartialEq)]
enum Op {
    Open,
    Read,
    Write,
    Rename,
    Unlink,
    Sync,
}
static mut INODES: Vec<Vec<u8>> = Vec::new();
/// What of each file's contents certainly survives the machine's stopping.
static mut SYNCED: Vec<Vec<u8>> = Vec::new();
static mut DIR: Vec<(Vec<u8>, usize)> = Vec::new();
static mut FS_FULL: bool = false;
/// Index of the mutating operation that fails (usize::MAX: none).
static mut FS_FAIL_AT: usize = usize::MAX;
/// Number of mutating operations after which the machine stops.
static mut FS_CRASH_AT: usize = usize::MAX;
static mut FS_CRASHED: bool = false;
static mut FS_OPS: usize = 0;
/// Index of the reading operation (opening for reading, reading) that fails.
static mut FS_FAIL_READ_AT: usize = usize::MAX;
static mut FS_READS: usize = 0;
static mut FS_FAILED: bool = false;

/// One step of the file system. True: it fails. Reading never changes state,
/// so only changes count.
unsafe fn fs_op(o: Op) -> bool {
    if FS_CRASHED {
        return true;
    }
    if FS_FULL && o == Op::Write {
        return true;
    }
    if o == Op::Read {
        let k = FS_READS;
        FS_READS += 1;
        if k == FS_FAIL_READ_AT {
            FS_FAILED = true;
            return true;
        }
        return false;
    }
    let k = FS_OPS;
    FS_OPS += 1;
    if k == FS_CRASH_AT {
        FS_CRASHED = true;
        return true;
    }
    if k == FS_FAIL_AT {
        FS_FAILED = true;
        return true;
    }
    false
}
pub fn fs_ops() -> usize {
    unsafe { FS_OPS }
}
pub fn fs_crash_at(k: usize) {
    unsafe {
        FS_OPS = 0;
        FS_CRASH_AT = k
    }
}
pub fn fs_fail_at(k: usize) {
    unsafe {
        FS_OPS = 0;
        FS_FAIL_AT = k
    }
}
pub fn fs_fail_read_at(k: usize) {
    unsafe {
        FS_READS = 0;
        FS_FAIL_READ_AT = k
    }
}
pub fn fs_crashed() -> bool {
    unsafe { FS_CRASHED }
}
pub fn fs_failed() -> bool {
    unsafe { FS_FAILED }
}
/// Restart after a crash or a fault: everything works again. `lose`: file
/// contents that were never synced are gone.
pub fn fs_recover(lose: bool) {
    unsafe {
        if lose && FS_CRASHED {
            for i in 0..INODES.len() {
                INODES[i] = SYNCED[i].clone();
            }
        }
        for i in 0..INODES.len() {
            SYNCED[i] = INODES[i].clone();
        }
        FS_CRASHED = false;
        FS_FULL = false;
        FS_FAILED = false;
        FS_CRASH_AT = usize::MAX;
        FS_FAIL_AT = usize::MAX;
        FS_FAIL_READ_AT = usize::MAX;
        FS_OPS = 0;
        for f in &mut FDS[3..] {
            *f = Obj::None;
        }
    }
}
pub fn fs_get(name: &[u8]) -> Option<&'static [u8]> {
    unsafe {
        for (n, i) in &DIR {
            if n == name {
                return Some(&INODES[*i]);
            }
        }
        None
    }
}
pub fn fs_put(name: &[u8], data: &[u8]) {
    unsafe {
        fs_del(name);
        INODES.push(data.to_vec());
        SYNCED.push(data.to_vec());
        DIR.push((name.to_vec(), INODES.len() - 1));
    }
}
pub fn fs_del(name: &[u8]) -> bool {
    unsafe {
        let n0 = DIR.len();
        DIR.retain(|(n, _)| n != name);
        DIR.len() != n0
    }
}
pub fn fs_names() -> usize {
    unsafe { DIR.len() }
}
unsafe fn cname(p: *const c_char) -> Vec<u8> {
    let mut v = Vec::new();
    let mut q = p;
    while *q != 0 {
        v.push(*q as u8);
        q = q.add(1);
    }
    // (the working directory is /w)
    for x in [&b"/w/"[..], b"./"] {
        if v.starts_with(x) {
            v.drain(..x.len());
        }
    }
    if v == b"/w" {
        v = b".".to_vec();
    }
    v
}
const APPEND: u8 = 4;
unsafe fn lookup(name: &[u8]) -> Option<usize> {
    DIR.iter().find(|(n, _)| n == name).map(|(_, i)| *i)
}
unsafe fn create(name: &[u8]) -> usize {
    INODES.push(Vec::new());
    SYNCED.push(Vec::new());
    DIR.push((name.to_vec(), INODES.len() - 1));
    INODES.len() - 1
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, _mode: c_int) -> c_int {
    let name = cname(p);
    if name.first() == Some(&b'/') {
        return err(ENXIO);
    }
    if flags & 3 != 0 {
        if fs_op(Op::Open) {
            return err(EIO);
        }
    } else if FS_CRASHED {
        return err(EIO);
    } else if fs_op(Op::Read) {
        return err(13);
    }
    let mode = (flags & 3) as u8 | if flags & 0o2000 != 0 { APPEND } else { 0 };
    if name == b"." {
        // (the directory; it can be synced, which changes nothing here)
        if mode & 3 != 0 {
            return err(21);
        }
        INODES.push(Vec::new());
        SYNCED.push(Vec::new());
        return alloc(Obj::File { ino: INODES.len() - 1, pos: 0, mode });
    }
    let ino = match lookup(&name) {
        None if flags & 0o100 == 0 => return err(ENOENT),
        None => create(&name),
        Some(_) if flags & 0o300 == 0o300 => return err(17),
        Some(ino) => {
            if flags & 0o1000 != 0 {
                INODES[ino].clear();
                SYNCED[ino].clear();
            }
            ino
        }
    };
    alloc(Obj::File { ino, pos: 0, mode })
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if fs_op(Op::Rename) {
        return err(EIO);
    }
    let (a, b) = (cname(a), cname(b));
    let mut ino = usize::MAX;
    for (n, i) in &DIR {
        if *n == a {
            ino = *i;
        }
    }
    if ino == usize::MAX {
        return err(ENOENT);
    }
    fs_del(&a);
    fs_del(&b);
    DIR.push((b, ino));
    0
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    if fs_op(Op::Unlink) {
        return err(EIO);
    }
    if fs_del(&cname(a)) {
        0
    } else {
        err(ENOENT)
    }
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    match obj(fd) {
        Obj::File { ino, .. } => {
            if fs_op(Op::Sync) {
                return err(EIO);
            }
            SYNCED[ino] = INODES[ino].clone();
            0
        }
        _ => err(EINVAL),
    }
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    fsync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    if fs_op(Op::Rename) {
        return err(EIO);
    }
    let b = cname(b);
    match lookup(&cname(a)) {
        None => err(ENOENT),
        Some(_) if lookup(&b).is_some() => err(17),
        Some(i) => {
            DIR.push((b, i));
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn linkat(_d: c_int, a: *const c_char, _e: c_int, b: *const c_char, _f: c_int) -> c_int {
    link(a, b)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int {
    match obj(fd) {
        Obj::File { ino, mode, .. } if mode & 3 != 0 && n >= 0 => {
            if fs_op(Op::Write) {
                return err(EIO);
            }
            INODES[ino].resize(n as usize, 0);
            let k = SYNCED[ino].len().min(n as usize);
            SYNCED[ino].truncate(k);
            0
        }
        _ => err(EINVAL),
    }
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, o: i64, w: c_int) -> i64 {
    match obj(fd) {
        Obj::File { ino, pos, mode } => {
            let base = match w {
                0 => 0,
                1 => pos as i64,
                2 => INODES[ino].len() as i64,
                _ => return err(EINVAL) as i64,
            };
            if base + o < 0 {
                return err(EINVAL) as i64;
            }
            FDS[fd as usize] = Obj::File { ino, pos: (base + o) as usize, mode };
            base + o
        }
        Obj::None => err(EBADF) as i64,
        _ => err(29) as i64,
    }
}
unsafe fn stat(len: usize, b: *mut u8) -> c_int {
    core::ptr::write_bytes(b, 0, 144);
    *(b.add(16) as *mut u64) = 1;
    *(b.add(24) as *mut u32) = 0o100644;
    *(b.add(48) as *mut i64) = len as i64;
    *(b.add(56) as *mut i64) = 4096;
    *(b.add(64) as *mut i64) = len.div_ceil(512) as i64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, p: *mut u8) -> c_int {
    match obj(fd) {
        Obj::File { ino, .. } => stat(INODES[ino].len(), p),
        _ => err(EBADF),
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, b: *mut u8) -> c_int {
    match lookup(&cname(p)) {
        Some(i) => stat(INODES[i].len(), b),
        None => err(ENOENT),
    }
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, b: *mut u8) -> c_int {
    stat64(p, b)
}
#[no_mangle]
pub unsafe extern "C" fn statx(_d: c_int, _p: *const u8, _f: c_int, _m: u32, _b: *mut u8) -> c_int {
    err(38)
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(_a: c_int, _b: *mut i64, _c: c_int, _d: *mut i64, _n: usize, _f: u32) -> isize {
    err(38) as isize
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(_a: c_int, _b: c_int, _c: *mut i64, _n: usize) -> isize {
    err(38) as isize
}
#[no_mangle]
pub unsafe extern "C" fn splice(_a: c_int, _b: *mut i64, _c: c_int, _d: *mut i64, _n: usize, _f: u32) -> isize {
    err(38) as isize
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(_f: c_int, _m: u32) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, _m: u32) -> c_int {
    access(p, 0)
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, _m: c_int) -> c_int {
    if lookup(&cname(p)).is_some() {
        0
    } else {
        err(ENOENT)
    }
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    4242
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(p: *mut u8, n: usize) -> *mut u8 {
    if n < 3 {
        err(34);
        return core::ptr::null_mut();
    }
    core::ptr::copy_nonoverlapping(b"/w\0".as_ptr(), p, 3);
    p
}
extern "C" {
    fn malloc(n: usize) -> *mut u8;
    fn nanosleep(t: *const i64, r: *mut i64) -> c_int;
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, r: *mut u8) -> *mut u8 {
    let n = cname(p);
    if n != b"." && lookup(&n).is_none() {
        err(ENOENT);
        return core::ptr::null_mut();
    }
    let r = if r.is_null() { malloc(4096) } else { r };
    let mut v = b"/w".to_vec();
    if n != b"." {
        v.push(b'/');
        v.extend_from_slice(&n);
    }
    v.push(0);
    core::ptr::copy_nonoverlapping(v.as_ptr(), r, v.len());
    r
}
