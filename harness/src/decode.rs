//! Decoding of what the terminal sends: C04.
use crate::env;
use crate::keys::*;
use crate::model::*;
use crate::rt::*;
use crate::tty::*;
use liso::*;

/// Deliver `s` in up to `cuts` + 1 pieces, with or without short pauses.
fn pieces(s: &[u8], cuts: usize) {
    let mut left = cuts;
    let mut at = 0;
    for i in 1..s.len() {
        if left > 0 && flip() {
            left -= 1;
            env::feed(&s[at..i]);
            at = i;
            if flip() {
                advance_ms(20)
            } else {
                settle()
            }
        }
    }
    env::feed(&s[at..]);
    settle();
}
/// One key: its bytes, and what it does.
fn token(k: &mut Keys, s: &mut Vec<u8>, kinds: usize) {
    match pick(kinds) {
        0 => {
            let b = b'a' + below(26);
            s.push(b);
            k.ascii(b);
        }
        1 => {
            // to the left
            s.extend_from_slice(b"\x1b[D");
            k.csi(b"D");
        }
        2 => {
            s.extend_from_slice("é".as_bytes());
            k.m.key();
            k.m.type_char('é' as u32, 1);
        }
        3 => {
            s.push(0x7f);
            k.ascii(0x7f);
        }
        4 => {
            // escape itself, before something that cannot be part of a sequence
            s.push(27);
            k.escape();
            s.push(0x14);
            k.ascii(0x14);
        }
        5 => {
            s.extend_from_slice(b"\x1b[3~");
            k.csi(b"3~");
        }
        6 => {
            s.extend_from_slice("字".as_bytes());
            k.m.key();
            k.m.type_char('字' as u32, 2);
        }
        7 => {
            s.push(13);
            k.ascii(13);
        }
        8 => {
            s.extend_from_slice("\u{1f600}".as_bytes());
            k.m.key();
            k.m.type_char(0x1f600, 2);
        }
        9 => {
            // escape, then a key that begins with it
            s.push(27);
            k.escape();
            s.extend_from_slice(b"\x1b[C");
            k.csi(b"C");
        }
        10 => {
            static C: [&[u8]; 4] = [b"A", b"B", b"H", b"F"];
            let c = C[pick(4)];
            s.extend_from_slice(b"\x1b[");
            s.extend_from_slice(c);
            k.csi(c);
        }
        11 => {
            // a key that is not supported: nothing
            let p = b'0' + below(10);
            s.extend_from_slice(&[27, b'[', b'1', p, b';', b'5', b'~']);
        }
        _ => {
            let b = any();
            assume(b < 32 && b != 27 && b != 26 && b != 12);
            s.push(b);
            k.ascii(b);
        }
    }
}
/// Any keys, cut up anywhere.
#[no_mangle]
pub extern "C" fn entry_c04_tokens() {
    let mut k = Keys::new(5);
    k.io.prompt("$", true, false);
    k.m.prompt = t("$");
    settle();
    let mut s = vec![];
    for _ in 0..(if thorough() { 4 } else { 3 }) {
        token(&mut k, &mut s, 12);
    }
    pieces(&s, if thorough() { 2 } else { 1 });
    k.check();
    k.end();
}
/// Two keys, cut up everywhere.
#[no_mangle]
pub extern "C" fn entry_c04_cuts() {
    let mut k = Keys::new(5);
    settle();
    let mut s = vec![];
    for _ in 0..2 {
        token(&mut k, &mut s, 13);
    }
    pieces(&s, if thorough() { 6 } else { 3 });
    k.check();
    // the whole is followed by silence
    env::feed(b"\x1b");
    advance_ms(50);
    k.escape();
    k.check();
    k.end();
}
/// A character that a keyboard can send.
fn typed(s: &mut Vec<u8>, classes: u8) {
    let c = any_char(s, classes);
    // (control characters and separators are not text)
    assume(!(c >= 0x80 && c < 0xa0) & (c != 0x2028) & (c != 0x2029));
}
/// Keep the worker busy, so that nothing is displayed in the meantime.
struct Hold(std::sync::mpsc::Sender<()>);
impl Hold {
    fn new(io: &InputOutput) -> Hold {
        let (tx, rx) = std::sync::mpsc::channel();
        io.suspend_and_run(move || {
            let _ = rx.recv();
        });
        settle();
        Hold(tx)
    }
    fn release(self) {
        settle();
        let _ = self.0.send(());
        settle();
    }
}
/// Any characters at all, cut up anywhere.
#[no_mangle]
pub extern "C" fn entry_c04_chars() {
    env::raw(true, true, Some(b"xterm\0"));
    let mut io = InputOutput::new();
    let h = Hold::new(&io);
    let mut s = vec![];
    for _ in 0..(if thorough() { 3 } else { 2 }) {
        typed(&mut s, ASCII | TWO | THREE | FOUR);
    }
    let n = s.len();
    s.push(13);
    pieces(&s, if thorough() { 4 } else { 3 });
    h.release();
    match io.try_read() {
        Some(Response::Input(l)) => {
            let l = l.as_bytes();
            check(l.len() == n, "a typed character is lost or entered twice");
            for i in 0..n {
                check(l[i] == s[i], "a typed character is altered");
            }
        }
        _ => check(false, "a typed line is not delivered"),
    }
    check(io.try_read().is_none(), "something is delivered that nobody typed");
}
/// After `s` and a moment of silence, input works.
fn garbage(s: &[u8]) {
    env::raw(true, true, Some(b"xterm\0"));
    let mut io = InputOutput::new();
    let h = Hold::new(&io);
    pieces(s, 1);
    advance_ms(100);
    // (an unfinished sequence may swallow the first key)
    env::feed(b"zz\r");
    h.release();
    let mut last = None;
    for _ in 0..16 {
        match io.try_read() {
            None => break,
            r => last = r,
        }
    }
    match last {
        Some(Response::Input(l)) => {
            let mut z = false;
            for b in l.as_bytes() {
                z |= *b == b'z';
            }
            check(z, "after these bytes, a typed character is lost")
        }
        _ => check(false, "after these bytes, a line is not delivered"),
    }
    env::feed(b"o");
    env::feed(b"k\r");
    settle();
    check(matches!(io.try_read(), Some(Response::Input(l)) if l == "ok"), "after these bytes, a line is not delivered as typed");
    check(io.try_read().is_none(), "something is delivered that nobody typed");
    drop(io);
    check(env::cooked() && env::fds_sound(), "the terminal is not restored");
}
/// Any bytes at all, cut up anywhere.
#[no_mangle]
pub extern "C" fn entry_c04_any() {
    let mut s = vec![];
    for _ in 0..(if thorough() { 3 } else { 2 }) {
        s.push(any());
    }
    garbage(&s);
}
/// Any bytes above 127 (and escapes) in longer runs.
#[no_mangle]
pub extern "C" fn entry_c04_high() {
    let mut s = vec![];
    for _ in 0..(if thorough() { 5 } else { 4 }) {
        let b = any();
        assume((b >= 128) | (b == 27) | (b == b'[') | (b == b';'));
        s.push(b);
    }
    garbage(&s);
}
/// A key that comes at once after something invalid is not held back.
#[no_mangle]
pub extern "C" fn entry_c04_wait() {
    env::raw(true, true, Some(b"xterm\0"));
    let mut io = InputOutput::new();
    let h = Hold::new(&io);
    let mut s = vec![];
    for _ in 0..1 + pick(3) {
        let b = any();
        assume(b >= 128);
        s.push(b);
    }
    s.push(3);
    s.push(13);
    pieces(&s, 1);
    h.release();
    check(matches!(io.try_read(), Some(Response::Quit)), "a key is held back by an incomplete character before it");
    check(matches!(io.try_read(), Some(Response::Input(_))), "a key is held back by an incomplete character before it");
    check(io.try_read().is_none(), "something is delivered that nobody typed");
}
/// Any escape sequence, supported or not: its key or nothing.
#[no_mangle]
pub extern "C" fn entry_c04_csi() {
    let mut k = Keys::new(9);
    env::feed(b"abc\x02\x02");
    for b in *b"abc\x02\x02" {
        k.ascii(b);
    }
    settle();
    let mut s = vec![27];
    let kind = pick(4);
    if kind == 0 {
        // a key that cannot be part of a sequence
        let b = any();
        assume((b < 32) & (b != 27) & (b != 26) & (b != 12) | (b == 127));
        k.escape();
        s.push(b);
        k.ascii(b);
    } else if kind == 1 {
        let g = ["é", "字", "😀"][pick(3)];
        k.escape();
        s.extend_from_slice(g.as_bytes());
        k.m.key();
        k.m.type_char(g.chars().next().unwrap() as u32, if g == "é" { 1 } else { 2 });
    } else if kind == 2 {
        // a single character
        let b = any();
        assume((b >= 32) & (b < 127) & (b != b'['));
        s.push(b);
    } else {
        s.push(b'[');
        let n = pick(if thorough() { 4 } else { 3 });
        for _ in 0..n {
            let b = any();
            assume((b >= 32) & (b < 64));
            s.push(b);
        }
        let f = any();
        assume((f >= 64) & (f < 127));
        s.push(f);
        match n {
            0 => match f {
                b'A' => k.csi(b"A"),
                b'B' => k.csi(b"B"),
                b'C' => k.csi(b"C"),
                b'D' => k.csi(b"D"),
                b'H' => k.csi(b"H"),
                b'F' => k.csi(b"F"),
                _ => (),
            },
            1 if (s[2] == b'3') & (f == b'~') => k.csi(b"3~"),
            _ => (),
        }
    }
    s.push(b'y');
    k.ascii(b'y');
    pieces(&s, 2);
    k.check();
    k.end();
}
/// More than is read at a time, with something at the boundary.
#[no_mangle]
pub extern "C" fn entry_c04_long() {
    env::raw(true, true, Some(b"xterm\0"));
    let mut io = InputOutput::new();
    let h = Hold::new(&io);
    static SIZES: [usize; 3] = [256, 512, 1024];
    let n = SIZES[pick(if thorough() { 3 } else { 2 })] + 3 - pick(8);
    let mut s = vec![b'x'; n];
    let mut want = vec![b'x'; n];
    match pick(6) {
        0 => {
            s.extend_from_slice("é".as_bytes());
            want.extend_from_slice("é".as_bytes());
        }
        1 => {
            s.extend_from_slice("字".as_bytes());
            want.extend_from_slice("字".as_bytes());
        }
        2 => {
            s.extend_from_slice("😀".as_bytes());
            want.extend_from_slice("😀".as_bytes());
        }
        3 => {
            s.extend_from_slice(b"z\x1b[D");
            want.push(b'y');
            want.push(b'z');
        }
        4 => {
            s.extend_from_slice(b"\x1b[H\x1b[3~");
            want.remove(0);
            want.insert(0, b'y');
        }
        _ => {
            s.extend_from_slice(b"\x7f\x7f");
            want.pop();
            want.pop();
        }
    }
    if !want.contains(&b'y') {
        want.push(b'y');
    }
    s.extend_from_slice(b"y\r");
    env::feed(&s);
    h.release();
    match io.try_read() {
        Some(Response::Input(l)) => check(l.as_bytes() == want, "a long line is not delivered as typed"),
        _ => check(false, "a typed line is not delivered"),
    }
    check(io.try_read().is_none(), "something is delivered that nobody typed");
    drop(io);
    check(env::cooked() && env::fds_sound(), "the terminal is not restored");
}
/// A part of a character, then a whole one.
#[no_mangle]
pub extern "C" fn entry_c04_stray() {
    env::raw(true, true, Some(b"xterm\0"));
    let mut io = InputOutput::new();
    let n = pick(3);
    let mut s = vec![b'a'];
    let lead = any();
    match n {
        0 => assume(lead >= 0x80),
        1 => assume(lead >= 0xe0),
        _ => assume(lead >= 0xf0),
    }
    s.push(lead);
    for _ in 0..n {
        let b = any();
        assume((b >= 0x80) & (b < 0xc0));
        s.push(b);
    }
    static C: [&str; 4] = ["é", "字", "😀", "z"];
    let c = C[pick(4)];
    s.extend_from_slice(c.as_bytes());
    if flip() {
        // and one more
        s.push(b'y');
        s.push(0x7f);
    }
    pieces(&s, 2);
    env::feed(b"\r");
    settle();
    match io.try_read() {
        Some(Response::Input(l)) => {
            let l = codes(&l);
            let n = l.len();
            check(n >= 2 && l[0] == 'a' as u32 && l[n - 1] == c.chars().next().unwrap() as u32, "a typed character is lost or altered");
            // (what stands for the part is left open)
            for x in &l[1..n - 1] {
                check(*x == 0xfffd, "something is entered that nobody typed");
            }
        }
        _ => check(false, "a line is not delivered"),
    }
    drop(io);
}
