//! Captured standard error: C19.
use crate::env;
use crate::model::*;
use crate::prompts::*;
use crate::rt::*;
use crate::screen::BOLD;
use crate::tty::*;
use liso::*;

/// What a captured line is displayed as.
fn shown(l: &[u8]) -> T {
    let mut l = l;
    if let [x @ .., b'\r'] = l {
        l = x;
    }
    let mut m = T::new();
    m.cur = BOLD | 2;
    for c in "E: ".chars() {
        m.push(c as u32, 1);
    }
    m.cur = 2;
    for c in codes(&String::from_utf8_lossy(l)) {
        crate::nav::caret(&mut m, c);
    }
    m
}
fn write(b: &[u8]) {
    check(env::write_stderr(b) == b.len() as isize, "writing to the standard error fails");
}
/// Everything that has been written is on the screen, or perhaps, from some
/// point on, went where it would have gone without an instance.
fn all(m: &mut Model, lines: &[Vec<u8>]) {
    let err = env::err_log();
    // (what is in the log is the end of what was written)
    let mut n = 0;
    let mut k = lines.len();
    while n < err.len() {
        check(k > 0, "something else is output to the standard error");
        k -= 1;
        n += lines[k].len() + 1;
    }
    let mut at = 0;
    for (i, l) in lines.iter().enumerate() {
        if i < k {
            m.out.push(shown(l));
        } else {
            for b in l {
                check(at < err.len() && err[at] == *b, "something else is output to the standard error");
                at += 1;
            }
            if at < err.len() {
                check(err[at] == 10, "something else is output to the standard error");
                at += 1;
            }
        }
    }
    check(at == err.len(), "something else is output to the standard error");
    sound(m);
    check(env::fd2_is_stderr(), "the standard error is not restored");
}
/// Split at newlines; what is left at the end if anything.
fn split(s: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut l = vec![];
    for b in s {
        if *b == 10 {
            v.push(core::mem::take(&mut l));
        } else {
            l.push(*b);
        }
    }
    if !l.is_empty() {
        v.push(l);
    }
    v
}
/// Write in up to `cuts` + 1 pieces, each read before the next or not.
fn pieces(s: &[u8], cuts: usize) {
    let mut left = cuts;
    let mut at = 0;
    for i in 1..s.len() {
        if left > 0 && flip() {
            left -= 1;
            write(&s[at..i]);
            at = i;
            if flip() {
                settle()
            }
        }
    }
    if at < s.len() {
        write(&s[at..]);
    }
}
/// Any letters, newlines and carriage returns, cut up anywhere: a carriage
/// return before a newline belongs to it, any other is shown.
#[no_mangle]
pub extern "C" fn entry_c19_lines() {
    env::tty(6);
    env::err_tty(true);
    let io = InputOutput::new();
    let mut m = Model::new(6);
    settle();
    let n = pick(if thorough() { 7 } else { 6 });
    let mut s = vec![];
    for _ in 0..n {
        match pick(3) {
            0 => s.push(b'a' + below(26)),
            1 => s.push(10),
            _ => s.push(13),
        }
    }
    pieces(&s, 2);
    let lines = split(&s);
    let ended = s.last() == Some(&10);
    if flip() {
        settle();
        let k = if ended { lines.len() } else { lines.len().saturating_sub(1) };
        let mut now = m.clone();
        for l in &lines[..k] {
            now.out.push(shown(l));
        }
        now.check();
        check(env::err_log().is_empty(), "captured text is also output to the standard error");
    }
    drop(io);
    all(&mut m, &lines);
    // and from now on it goes where it always did
    env::clear_log();
    write(b"x");
    check(env::err_log() == b"x", "the standard error is not restored");
}
/// Characters of several bytes and bytes that are not characters.
#[no_mangle]
pub extern "C" fn entry_c19_bytes() {
    env::tty(8);
    env::err_tty(true);
    let io = InputOutput::new();
    let mut m = Model::new(8);
    settle();
    static B: [u8; 9] = [b'a', 0xc3, 0xa9, 0xe2, 0x82, 0xff, 10, 0x80, 0xc2];
    let mut s = vec![];
    for _ in 0..(if thorough() { 5 } else { 4 }) {
        s.push(B[pick(9)]);
    }
    s.push(10);
    pieces(&s, 1);
    settle();
    for l in split(&s) {
        // (combining characters and separators are not covered here)
        for c in codes(&String::from_utf8_lossy(&l)) {
            assume(!(0x300..0x370).contains(&c) && c != 0x2028 && c != 0x2029);
        }
        m.out.push(shown(&l));
    }
    m.check();
    drop(io);
    check(env::err_log().is_empty(), "captured text is also output to the standard error");
    m.check_bare(env::screen());
}
/// Lines around the size of a buffer, one after another, with whatever follows.
#[no_mangle]
pub extern "C" fn entry_c19_long() {
    env::tty(300);
    env::err_tty(true);
    let io = InputOutput::new();
    let mut m = Model::new(300);
    settle();
    static N: [usize; 11] = [0, 1, 2, 63, 64, 126, 127, 128, 129, 255, 256];
    let mut s = vec![];
    for i in 0..(if thorough() { 4 } else { 3 }) {
        let n = N[pick(11)];
        for j in 0..n {
            s.push(if j == 0 || j + 1 == n { b'a' + below(26) } else { b'A' + i });
        }
        s.push(10);
        if flip() {
            let at = s.len();
            let _ = at;
            for l in split(&s) {
                m.out.push(shown(&l));
            }
            write(&s);
            s.clear();
            settle();
            m.check();
        }
    }
    s.extend_from_slice(b"end");
    write(&s);
    settle();
    let l = split(&s);
    drop(io);
    all(&mut m, &l);
}
/// A line of any length, at once or in parts.
#[no_mangle]
pub extern "C" fn entry_c19_length() {
    env::tty(9000);
    env::err_tty(true);
    let io = InputOutput::new();
    let mut m = Model::new(9000);
    settle();
    static N: [usize; 14] = [511, 512, 513, 640, 1023, 1024, 1025, 1100, 2047, 2048, 2049, 4095, 4097, 8193];
    let mut s = vec![];
    let n = N[pick(14)];
    for j in 0..n {
        s.push(if j == 0 || j + 1 == n { b'a' + below(26) } else { b'A' + (j / 100 % 26) as u8 });
    }
    if flip() {
        write(&s[..n / 2]);
        settle();
        write(&s[n / 2..]);
    } else {
        write(&s);
    }
    settle();
    write(b"\nend");
    settle();
    s.extend_from_slice(b"\nend");
    let l = split(&s);
    drop(io);
    all(&mut m, &l);
}
/// Lines among other output, for two lives.
#[no_mangle]
pub extern "C" fn entry_c19_mixed() {
    let w = 5;
    env::tty(w as u16);
    env::err_tty(true);
    let mut m = Model::new(w);
    for life in 0..2 {
        let io = InputOutput::new();
        settle();
        for _ in 0..(if life == 0 && thorough() { 4 } else { 3 }) {
            match pick(5) {
                0 => {
                    let b = [b'a' + below(26), 10];
                    write(&b);
                    m.out.push(shown(&b[..1]));
                }
                1 => {
                    io.println("pr");
                    m.out.push(t("pr"));
                }
                2 => {
                    let (s, l) = letters(2);
                    io.prompt(s, true, false);
                    m.prompt = l;
                }
                3 => {
                    // within one write and across several
                    write(b"1\n2");
                    settle();
                    write(b"3\n");
                    m.out.push(shown(b"1"));
                    m.out.push(shown(b"23"));
                }
                _ => {
                    env::feed(b"k");
                    if m.key() {
                        m.type_char(b'k' as u32, 1);
                    }
                }
            }
            settle();
            m.check();
        }
        drop(io);
        sound(&m);
        check(env::fd2_is_stderr(), "the standard error is not restored");
        check(env::err_log().is_empty(), "captured text is also output to the standard error");
        m.prompt = T::new();
        m.input = T::new();
        m.cursor = 0;
    }
}
/// Two threads writing lines, ended at once, in any order.
#[no_mangle]
pub extern "C" fn entry_c19_race() {
    env::tty(6);
    env::err_tty(true);
    let io = InputOutput::new();
    let mut m = Model::new(6);
    settle();
    sched(if thorough() { 2 } else { 1 });
    let two = flip();
    let j = if two {
        Some(std::thread::spawn(|| {
            write(b"c\n");
            write(b"d\n");
        }))
    } else {
        None
    };
    let tail = flip();
    write(b"a\n");
    if tail {
        write(b"b");
    } else {
        write(b"b\n");
    }
    if flip() {
        end(io);
        sched_off();
        if let Some(j) = j {
            let _ = j.join();
        }
    } else {
        if let Some(j) = j {
            let _ = j.join();
        }
        end(io);
        sched_off();
    }
    settle();
    check(env::fd2_is_stderr(), "the standard error is not restored");
    check(env::fds_sound(), "a descriptor is not restored or left open");
    check(threads_alive() == 1, "a thread stays behind");
    // what is where
    let mut got: Vec<u8> = vec![];
    let sc = env::screen();
    let mut lines = 0;
    for r in &sc.rows[..sc.cy] {
        if r[0].ch == b'E' as u32 {
            lines += 1;
            for c in &r[3..] {
                if c.ch != 32 {
                    got.push(c.ch as u8);
                }
            }
        } else {
            check(r[0].ch == 32, "something else is displayed");
        }
    }
    for b in env::err_log() {
        if *b != 10 {
            got.push(*b);
        } else {
            lines += 1;
        }
    }
    check(tail || lines == if two { 4 } else { 2 }, "a newline is lost or invented");
    let (mut a, mut c) = (0, 0);
    for g in &got {
        match g {
            b'a' => {
                check(a == 0, "a line is displayed twice or out of order");
                a = 1;
            }
            b'b' => {
                check(a == 1, "a line is displayed twice or out of order");
                a = 2;
            }
            b'c' => {
                check(c == 0, "a line is displayed twice or out of order");
                c = 1;
            }
            b'd' => {
                check(c == 1, "a line is displayed twice or out of order");
                c = 2;
            }
            _ => check(false, "something else is displayed"),
        }
    }
    check(a == 2, "what was written before the end is lost");
    check(c == if two { 2 } else { 0 }, "what another thread wrote is lost");
    let _ = &mut m;
}
/// Written after the terminal's input has ended, while the instance is still
/// there: it goes where it would have gone without an instance.
#[no_mangle]
pub extern "C" fn entry_c19_dead() {
    env::tty(6);
    env::err_tty(true);
    let io = InputOutput::new();
    let mut m = Model::new(6);
    settle();
    if flip() {
        write(b"x\n");
        m.out.push(shown(b"x"));
        settle();
    }
    let mut s = vec![];
    let part = flip();
    if part {
        write(b"p");
        settle();
    }
    let fails = flip();
    if fails {
        env::fail_stdout(true);
        io.println("y");
        if part {
            s.push(b'p');
        }
    } else {
        env::feed_eof();
        if part {
            m.out.push(shown(b"p"));
        }
    }
    settle();
    let n = pick(if thorough() { 6 } else { 5 });
    let from = s.len();
    for _ in 0..n {
        match pick(3) {
            0 => s.push(b'a' + below(26)),
            1 => s.push(10),
            _ => s.push(0xff),
        }
    }
    pieces(&s[from..], 2);
    if flip() {
        settle();
    }
    end(io);
    check(env::err_log() == s, "what is written to the standard error of a dead instance is lost or altered");
    check(env::fd2_is_stderr() && env::fds_sound(), "the standard error is not restored");
    if !fails {
        m.check_bare(env::screen());
    }
}
/// Not captured when it is not a terminal, nor in pipe mode.
#[no_mangle]
pub extern "C" fn entry_c19_not() {
    if flip() {
        env::tty(6);
        env::err_tty(false);
    } else {
        env::raw(flip(), false, Some(b"xterm\0"));
        env::err_tty(true);
    }
    let io = InputOutput::new();
    if flip() {
        settle();
    }
    let b = [b'a' + below(26), 10, b'b'];
    write(&b);
    settle();
    check(env::err_log() == b, "the standard error is captured without need");
    drop(io);
    check(env::err_log() == b && env::fd2_is_stderr(), "the standard error is not restored");
}
/// Many lines, cut up in any of several ways.
#[no_mangle]
pub extern "C" fn entry_c19_many() {
    env::tty(40);
    env::err_tty(true);
    let io = InputOutput::new();
    let mut m = Model::new(40);
    settle();
    let len = pick(if thorough() { 36 } else { 20 });
    let total = if thorough() { 700 } else { 270 };
    let mut s: Vec<u8> = vec![];
    let mut i = 0u8;
    while s.len() < total {
        for _ in 0..len {
            s.push(b'a' + i % 26);
        }
        if len > 2 && i % 4 == 1 {
            // a character that may be cut in two
            let n = s.len();
            s.truncate(n - 2);
            s.extend_from_slice("é".as_bytes());
        }
        s.push(10);
        i = i.wrapping_add(1);
    }
    let n = s.len();
    s[n - 1] = b'a' + below(26);
    s.push(10);
    let by = [1000, len + 1, 7, 100, 127, 128, 129][pick(7)];
    let wait = flip();
    for c in s.chunks(by) {
        write(c);
        if wait {
            settle();
        }
    }
    if flip() {
        write(b"end");
        s.extend_from_slice(b"end");
    }
    settle();
    let l = split(&s);
    drop(io);
    all(&mut m, &l);
}
