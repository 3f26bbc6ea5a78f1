//! The interface to the symbolic executor. The same functions have native
//! implementations (`/verif/rt`) that take the values from a replay file.

mod ext {
    extern "C" {
        pub fn lisym_sym_u8() -> u8;
        pub fn lisym_assume(c: bool);
        pub fn lisym_check(c: bool, p: *const u8, n: usize);
        pub fn lisym_settle();
        pub fn lisym_advance_ns(n: u64);
        pub fn lisym_observe(v: u64);
        pub fn lisym_cover(k: u32);
        pub fn lisym_expect_panic(k: u32);
        pub fn lisym_sched(k: u32);
        pub fn lisym_concretize(v: u64) -> u64;
        pub fn lisym_tier() -> u64;
        pub fn lisym_print(p: *const u8, n: usize);
        pub fn lisym_threads_alive() -> u64;
    }
}

/// Choices that are to be made again: 1 while they are recorded, 2 while they are
/// repeated.
static mut TAPE: (u8, Vec<u8>, usize, Vec<usize>, usize) = (0, vec![], 0, vec![], 0);
/// Record the choices made from here on.
#[allow(static_mut_refs)]
pub fn record() {
    unsafe { TAPE = (1, vec![], 0, vec![], 0) }
}
/// Make the recorded choices once more.
#[allow(static_mut_refs)]
pub fn repeat() {
    unsafe {
        TAPE.0 = 2;
        TAPE.2 = 0;
        TAPE.4 = 0;
    }
}
/// Fresh choices again.
#[allow(static_mut_refs)]
pub fn fresh() {
    unsafe { TAPE.0 = 0 }
}

/// A fresh byte, any value.
#[inline(never)]
#[allow(static_mut_refs)]
pub fn any() -> u8 {
    unsafe {
        if TAPE.0 == 2 && TAPE.2 < TAPE.1.len() {
            TAPE.2 += 1;
            return TAPE.1[TAPE.2 - 1];
        }
        let v = ext::lisym_sym_u8();
        if TAPE.0 == 1 {
            TAPE.1.push(v);
        }
        v
    }
}
/// A fresh value below n (still symbolic).
pub fn below(n: u8) -> u8 {
    let v = any();
    assume(v < n);
    v
}
/// A fresh value below n, one path per value.
#[allow(static_mut_refs)]
pub fn pick(n: usize) -> usize {
    if n == 1 {
        return 0;
    }
    unsafe {
        if TAPE.0 == 2 && TAPE.4 < TAPE.3.len() {
            TAPE.4 += 1;
            return TAPE.3[TAPE.4 - 1] % n;
        }
        let v = ext::lisym_sym_u8();
        assume(v < n as u8);
        let v = conc(v as u64) as usize;
        if TAPE.0 == 1 {
            TAPE.3.push(v);
        }
        v
    }
}
/// A fresh Boolean, two paths.
pub fn flip() -> bool {
    pick(2) != 0
}
pub fn assume(c: bool) {
    unsafe { ext::lisym_assume(c) }
}
pub fn check(c: bool, msg: &'static str) {
    unsafe { ext::lisym_check(c, msg.as_ptr(), msg.len()) }
}
/// Let every thread run until all of them wait.
pub fn settle() {
    unsafe { ext::lisym_settle() }
}
/// Let time pass (everything that happens in it happens).
pub fn advance_ms(n: u64) {
    unsafe { ext::lisym_advance_ns(n * 1_000_000) }
}
pub fn observe(v: u64) {
    unsafe { ext::lisym_observe(v) }
}
pub fn cover(k: u32) {
    unsafe { ext::lisym_cover(k) }
}
pub fn expect_panic(k: bool) {
    unsafe { ext::lisym_expect_panic(k as u32) }
}
/// A panic from now on is executed: the program aborts in the end.
pub fn let_panic() {
    unsafe { ext::lisym_expect_panic(2) }
}
/// Explore schedules with up to `k` deviations from the deterministic one.
pub fn sched(k: u32) {
    unsafe { ext::lisym_sched(k) }
}
pub fn sched_off() {
    unsafe { ext::lisym_sched(u32::MAX) }
}
pub fn conc(v: u64) -> u64 {
    unsafe { ext::lisym_concretize(v) }
}
pub fn thorough() -> bool {
    unsafe { ext::lisym_tier() > 0 }
}
pub fn threads_alive() -> u64 {
    unsafe { ext::lisym_threads_alive() }
}
#[allow(dead_code)]
pub fn print(s: &str) {
    unsafe { ext::lisym_print(s.as_ptr(), s.len()) }
}
