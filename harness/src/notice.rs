//! Notices: C13.
use crate::env;
use crate::keys::*;
use crate::rt::*;
use crate::tty::*;
use std::time::Duration;

/// Any notices at any times, each for any time.
#[no_mangle]
pub extern "C" fn entry_c13_time() {
    let mut k = Keys::new(4);
    k.io.prompt("$", true, false);
    k.m.prompt = t("$");
    let n = if thorough() { 5 } else { 4 };
    let mut now = 0u64;
    let mut until = 0u64;
    for i in 0..n {
        match pick(if i == 0 { 1 } else { 4 }) {
            0 => {
                static D: [u64; 4] = [0, 1000, 1500, 4000];
                let d = D[pick(4)];
                let (s, t) = letters(1);
                k.io.notice(s, Duration::from_millis(d));
                k.m.notice = Some(t);
                until = now + d;
            }
            1 => {
                static A: [u64; 4] = [999, 1, 500, 2500];
                let d = A[pick(4)];
                advance_ms(d);
                now += d;
            }
            2 => {
                k.m.allowed = !k.m.allowed;
                k.io.prompt("$", k.m.allowed, false);
            }
            _ => {
                let b = b'a' + below(26);
                env::feed(&[b]);
                k.ascii(b);
            }
        }
        if now >= until {
            k.m.notice = None;
        }
        k.check();
    }
    advance_ms(4000);
    k.m.notice = None;
    k.check();
    k.end();
}
/// Any key dismisses the notice and has its effect.
#[no_mangle]
pub extern "C" fn entry_c13_keys() {
    let mut k = Keys::new(6);
    k.io.prompt("$", true, false);
    k.m.prompt = t("$");
    k.io.println("o");
    k.m.out.push(t("o"));
    if flip() {
        env::feed(b"xy\x02");
        k.ascii(b'x');
        k.ascii(b'y');
        k.ascii(2);
    }
    settle();
    let (s, l) = letters(2);
    k.io.notice(s, Duration::from_secs(1));
    k.m.notice = Some(l);
    k.check();
    // (a key does nothing while input is refused)
    k.m.allowed = flip();
    if !k.m.allowed {
        k.io.prompt("$", false, false);
        k.check();
    }
    match pick(3) {
        0 => {
            let b = any();
            assume(b < 128 && b != 27);
            env::feed(&[b]);
            k.ascii(b);
        }
        1 => {
            static K: [&[u8]; 7] = [b"\x1b[A", b"\x1b[B", b"\x1b[C", b"\x1b[D", b"\x1b[3~", b"\x1b[H", b"\x1b[F"];
            let b = K[pick(7)];
            env::feed(b);
            k.csi(&b[2..]);
        }
        _ => {
            env::feed(b"\x1b");
            advance_ms(50);
            k.escape();
        }
    }
    k.check();
    // another one, seen out
    k.io.notice("n", Duration::from_secs(2));
    k.m.notice = Some(t("n"));
    k.check();
    advance_ms(1000);
    k.check();
    advance_ms(1000);
    k.m.notice = None;
    k.check();
    k.end();
}
/// One that is to stay for as long as possible.
#[no_mangle]
pub extern "C" fn entry_c13_long() {
    let mut k = Keys::new(6);
    let d = match pick(3) {
        0 => Duration::MAX,
        1 => Duration::from_secs(u64::MAX / 2),
        _ => Duration::new(u64::MAX, 0),
    };
    k.io.notice("n", d);
    k.m.notice = Some(t("n"));
    k.check();
    advance_ms(1_000_000_000);
    k.check();
    if flip() {
        k.io.notice("o", Duration::from_secs(1));
        k.m.notice = Some(t("o"));
        k.check();
        advance_ms(1000);
        k.m.notice = None;
        k.check();
    }
    env::feed(b"a");
    k.ascii(b'a');
    k.check();
    k.end();
}
