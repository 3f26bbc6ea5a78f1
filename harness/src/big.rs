//! The same guarantees far from the small cases: long texts, many lines, many
//! keys, many lives. Mostly concrete, with some letters and sizes symbolic.
use crate::env;
use crate::keys::*;
use crate::model::*;
use crate::prompts::*;
use crate::rt::*;
use crate::tty::*;
use liso::*;
use std::time::Duration;

/// `n` characters; the last is a symbolic letter.
fn text(n: usize) -> (String, T) {
    let mut s = vec![];
    let mut m = T::new();
    for i in 0..n {
        let b = if i == n - 1 { b'a' + below(26) } else { b'A' + (i % 26) as u8 };
        s.push(b);
        m.push(b as u32, 1);
    }
    (string(s), m)
}
/// Any number below `n`, however large.
fn size(n: usize) -> usize {
    let mut k = 0;
    let mut n = n;
    while n > 200 {
        if flip() {
            return k + pick(200);
        }
        k += 200;
        n -= 200;
    }
    k + pick(n)
}
fn key(k: &mut Keys, b: u8) {
    env::feed(&[b]);
    k.ascii(b);
}

/// Long prompts, statuses and lines on terminals of usual widths.
fn display(w: usize) {
    let mut k = Keys { m: Model::new(w), ..Keys::on(w) };
    let n = [0, 1, 2 * w, 4 * w - 1][pick(4)];
    match pick(3) {
        0 => {
            let (s, l) = text(n.max(1));
            k.io.status(Some(s));
            k.m.status = Some(l);
        }
        1 => {
            let (s, l) = text(n.max(1));
            k.io.println(s);
            k.m.out.push(l);
        }
        _ => (),
    }
    // (all lengths, but with the longer texts around multiples of the width)
    let p = if n < 2 { 1 + pick(2 * w + 2) } else { w * pick(4) + 1 + pick(3) };
    let (s, l) = text(p);
    k.io.prompt(s, true, false);
    k.m.prompt = l;
    key(&mut k, b'x');
    k.check();
    key(&mut k, b'y');
    key(&mut k, 2);
    k.check();
    k.io.println("o");
    k.m.out.push(t("o"));
    k.io.prompt("$", true, false);
    k.m.prompt = t("$");
    k.check();
    k.end();
}
#[no_mangle]
pub extern "C" fn entry_c01_big() {
    let w = [24, 40, 80][pick(if thorough() { 3 } else { 2 })];
    env::tty(w);
    display(w as usize);
}
/// Hundreds of lines at once.
#[no_mangle]
pub extern "C" fn entry_c02_many() {
    let n = if thorough() { 1 + size(1100) } else { [30, 62, 127, 254][pick(4)] + pick(5) };
    let pipe = flip();
    if pipe {
        env::raw(false, false, Some(b"xterm\0"));
    } else {
        env::tty(20);
    }
    let mut m = Model::new(20);
    let mut want = vec![];
    let io = InputOutput::new();
    let kind = pick(2);
    for i in 0..n {
        let v = vec![b'a' + (i / 26 % 26) as u8, b'a' + (i % 26) as u8, if i + 1 == n { b'a' + below(26) } else { b'a' + (i / 676) as u8 }];
        want.extend_from_slice(&v);
        want.push(10);
        m.out.push(t(core::str::from_utf8(&v[..2]).unwrap()));
        m.out.last_mut().unwrap().push(v[2] as u32, 1);
        if kind == 0 {
            io.println(string(v));
        } else {
            io.wrapln(string(v));
        }
    }
    drop(io);
    if pipe {
        check(env::out_log() == &want[..], "the output is not exactly the printed lines");
    } else {
        m.check_bare(env::screen());
    }
}
static EDIT: [&[u8]; 14] = [b"x", b"\x01", b"\x02", b"\x05", b"\x06", b"\x7f", b"\x0b", b"\x15", b"\x17", b"\x19", b"\x07", b"\x1b[3~", b"\x1b[H", b"\x1b[F"];
/// A long input.
#[no_mangle]
pub extern "C" fn entry_c03_big() {
    let mut k = Keys::new(80);
    let n = if thorough() { 1 + size(300) } else { [60, 125, 126, 127, 128, 253, 254, 255, 256, 300][pick(10)] };
    let wide = flip();
    let mut s = vec![];
    for i in 0..n {
        if wide && i % 5 == 2 {
            s.extend_from_slice("字".as_bytes());
            k.m.type_char('字' as u32, 2);
        } else {
            let b = if i % 7 == 3 { b' ' } else { b'a' + (i % 26) as u8 };
            s.push(b);
            k.m.type_char(b as u32, 1);
        }
    }
    env::feed(&s);
    k.check();
    match pick(3) {
        0 => (),
        1 => {
            press(&mut k, b"\x01");
            for _ in 0..3 {
                press(&mut k, b"\x06");
            }
        }
        _ => {
            let b = vec![2; n / 2];
            env::feed(&b);
            for _ in 0..n / 2 {
                k.ascii(2);
            }
        }
    }
    press(&mut k, EDIT[pick(14)]);
    k.check();
    press(&mut k, b"\x19");
    press(&mut k, b"\r");
    k.check();
    k.end();
}
/// Many keys that nobody reads for a while.
#[no_mangle]
pub extern "C" fn entry_c05_many() {
    let mut k = Keys::new(6);
    let n = if thorough() { 1 + size(600) } else { [1, 14, 30, 62, 98, 126, 254][pick(7)] + pick(5) };
    static R: [u8; 8] = [3, 20, 24, 28, 31, 0, 15, 13];
    let off = pick(8);
    let mut s = vec![];
    for i in 0..n {
        let b = if i + 1 == n { b'a' + below(26) } else { R[(i + off) % 8] };
        s.push(b);
        k.ascii(b);
    }
    s.push(13);
    k.ascii(13);
    let custom = flip();
    if custom {
        // (before anything is typed)
        for i in 0..n {
            k.io.send_custom(i as u32);
        }
        settle();
        let mut d = vec![];
        for i in 0..n {
            d.push(Due::Custom(i as u32));
        }
        d.append(&mut k.due);
        k.due = d;
    }
    env::feed(&s);
    k.check();
    k.end();
}
/// Long lines of many pieces.
#[no_mangle]
pub extern "C" fn entry_c06_big() {
    let n = 2 + size(if thorough() { 1030 } else { 260 });
    let mut l = Line::new();
    let mut m = ML::new();
    let odd = pick(3);
    for i in 0..n {
        if odd > 0 && i % odd == 0 {
            let c = (i % 9) as u32;
            l.set_fg_color(COLORS[c as usize]);
            m.fg(c);
        }
        let b = if i + 2 == n { b'a' + below(26) } else if i % 50 == 49 { 7 } else { b'a' + (i % 26) as u8 };
        l.add_text(string(vec![b]));
        m.text(&[b as u32]);
    }
    let (s, k) = any_style();
    l.set_style(s);
    m.style(k);
    l.add_text("z");
    m.text(&[b'z' as u32]);
    check(m.same(&l), "the line does not hold exactly the text and attributes given");
    check(m.same_state(&l), "the attributes in force are not those last set");
    let mut a = Line::from_str("q");
    a.append_line(&l);
    check(a.chars().count() == m.v.len() + 1, "append_line loses something");
    let mut same = true;
    for (i, c) in a.chars().skip(1).enumerate() {
        same &= c.ch as u32 == m.v[i].0;
        same &= attr_of(c.style, c.fg, c.bg) == m.v[i].1;
    }
    check(same, "append_line changes something");
}
/// Many sequences and many parameters.
#[no_mangle]
pub extern "C" fn entry_c07_big() {
    let n = 1 + size(260);
    let mut s = vec![];
    let mut m = ML::new();
    let many = flip();
    if many {
        // one sequence with many parameters
        s.extend_from_slice(b"\x1b[");
        for _ in 0..n - 1 {
            s.extend_from_slice(b"1;");
        }
        let c = below(8);
        s.push(b'3');
        s.push(b'0' + c);
        s.push(b'm');
        if n > 1 {
            m.style(1 << 16);
        }
        m.fg(c as u32 + 1);
    } else {
        for i in 0..n {
            let c = if i + 1 == n { below(8) } else { (i % 8) as u8 };
            s.extend_from_slice(b"\x1b[4");
            s.push(b'0' + c);
            s.push(b'm');
            m.bg(c as u32 + 1);
            if i % 2 == 0 {
                s.push(b'x');
                m.text(&[b'x' as u32]);
            }
        }
    }
    s.push(b'y');
    m.text(&[b'y' as u32]);
    let mut l = Line::new();
    l.add_ansi_text(string(s));
    check(m.same(&l), "the text does not have exactly the attributes its sequences ask for");
    check(m.same_state(&l), "the attributes in force are not those last set");
}
/// Long texts, wide terminals: the words, two of them of any length.
#[no_mangle]
pub extern "C" fn entry_c08_big() {
    let w = if thorough() { 5 + pick(76) } else { [5, 8, 9, 10, 16, 17, 40, 80][pick(8)] };
    let count = if w >= 40 { 48 } else { 12 };
    let (x, y) = (1 + pick(11), 1 + pick(11));
    let mut s = String::new();
    let mut lens = vec![];
    for i in 0..count {
        let n = if i == 2 { x } else if i == 3 { y } else { 2 + i % 4 };
        lens.push(n);
        if i > 0 {
            s.push(' ');
        }
        for _ in 0..n {
            s.push((b'a' + (i % 26) as u8) as char);
        }
    }
    let mut l = Line::new();
    let half = s.len() / 2;
    l.add_text(&s[..half]).set_fg_color(Some(Color::Red)).add_text(&s[half..]);
    l.wrap_to_width(w);
    // the text is the same but for the breaks
    let mut row = 0;
    let mut k = 0;
    let b = s.as_bytes();
    let mut ok = true;
    for c in l.chars() {
        if c.ch == '\n' {
            ok &= row > 0;
            // a space is given up for it, or a word too long for a row is cut
            if k < b.len() && b[k] == b' ' {
                k += 1;
            } else {
                ok &= row == w;
            }
            row = 0;
            continue;
        }
        ok &= k < b.len() && b[k] == c.ch as u8;
        ok &= (c.fg == Some(Color::Red)) == (k >= half);
        k += 1;
        row += 1;
        ok &= row <= w;
    }
    ok &= k == b.len();
    check(ok, "wrapping loses, changes or fails to wrap something");
}
/// Histories of many lines, and long lines, through a file.
#[no_mangle]
pub extern "C" fn entry_c10_big() {
    let (n, len) = match pick(3) {
        0 => (1 + pick(100), 3),
        1 => (3, [1020, 4092, 8188, 16380][pick(4)] + pick(8)),
        _ => (2, 2 + size(300)),
    };
    let mut data = vec![];
    let mut lines = vec![];
    for i in 0..n {
        let mut l = vec![b'a' + (i % 26) as u8; len];
        l[0] = b'a' + (i / 26) as u8;
        l[len - 1] = if i + 1 == n { b'A' + below(26) } else { b'z' };
        data.extend_from_slice(&l);
        data.push(10);
        lines.push(string(l));
    }
    env::fs_put(b"h", &data);
    let mut h = match History::from_file("h") {
        Ok(h) => h,
        Err(_) => return check(false, "from_file fails"),
    };
    check(same_lines(&h, &lines), "a history file does not read back as the same lines");
    if flip() {
        check(h.add_line("new".to_owned()).is_ok(), "add_line fails");
        lines.push("new".to_owned());
        if lines.len() > 100 {
            lines.remove(0);
        }
    }
    drop(h);
    match History::from_file("h") {
        Ok(g) => check(same_lines(&g, &lines), "a history does not read back as the same lines"),
        Err(_) => check(false, "from_file fails"),
    }
}
fn same_lines(h: &History, m: &[String]) -> bool {
    let l = h.get_lines();
    l.len() == m.len() && l.iter().zip(m).all(|(a, b)| a == b)
}
/// A full history.
#[no_mangle]
pub extern "C" fn entry_c11_big() {
    let n = [40, 99, 100, 101, 130][pick(5)];
    let mut k = Keys::new(6);
    {
        let mut h = History::new();
        for i in 0..n {
            let l = string(vec![b'a' + (i / 26) as u8, b'a' + (i % 26) as u8]);
            let mut v = T::new();
            v.push(b'a' as u32 + i as u32 / 26, 1);
            v.push(b'a' as u32 + i as u32 % 26, 1);
            if i + 100 >= n {
                k.hist.push(v.v);
            }
            let _ = h.add_line(l);
        }
        k.io.swap_history(h);
    }
    settle();
    let b = b'a' + below(26);
    key(&mut k, b);
    let up = n.min(100);
    let steps = if thorough() { 1 + pick(up + 2) } else { [1, 2, 31, 32, 33, 63, 64, 65, 98, 99, 100, 101][pick(12)] };
    for _ in 0..steps {
        key(&mut k, 16);
    }
    k.check();
    if flip() {
        // a copy of the line visited is submitted
        key(&mut k, 13);
        while k.hist.len() > 100 {
            k.hist.remove(0);
        }
        key(&mut k, 16);
        key(&mut k, 16);
    } else {
        for _ in 0..steps {
            key(&mut k, 14);
        }
    }
    k.check();
    k.end();
}
/// Many notices, one after another or all at once.
#[no_mangle]
pub extern "C" fn entry_c13_many() {
    let mut k = Keys::new(6);
    k.io.prompt("$", true, false);
    k.m.prompt = t("$");
    key(&mut k, b'x');
    k.check();
    let n = 1 + pick(70);
    let how = pick(4);
    for i in 0..n {
        let (s, l) = if i + 1 == n { letters(1) } else { ("n".to_owned(), t("n")) };
        k.io.notice(s, Duration::from_millis(1000));
        k.m.notice = Some(l);
        match how {
            0 => (),
            1 => {
                settle();
                advance_ms(600);
            }
            2 => {
                settle();
                key(&mut k, 2);
            }
            _ => {
                settle();
                advance_ms(1000);
                k.m.notice = None;
            }
        }
    }
    k.check();
    advance_ms(1000);
    k.m.notice = None;
    k.check();
    k.io.notice("z", Duration::from_millis(10));
    k.m.notice = Some(t("z"));
    k.check();
    advance_ms(10);
    k.m.notice = None;
    k.check();
    k.end();
}
/// Many Tabs in a row.
#[no_mangle]
pub extern "C" fn entry_c12_many() {
    let mut k = crate::nav::with_completor(6);
    let b = b'a' + below(26);
    key(&mut k, b);
    let n = 1 + size(260);
    for _ in 0..n {
        key(&mut k, 9);
    }
    k.check();
    crate::nav::calls(&mut k);
    key(&mut k, b'c');
    key(&mut k, 9);
    k.check();
    crate::nav::calls(&mut k);
    k.end();
}
/// Long lines, and many of them, through a pipe.
#[no_mangle]
pub extern "C" fn entry_c14_big() {
    env::raw(flip(), false, Some(b"xterm\0"));
    let mut io = InputOutput::new();
    let (n, len) = match pick(4) {
        0 => (1 + size(if thorough() { 600 } else { 90 }), 2),
        1 => (2, [8188, 16380][pick(2)] + pick(8)),
        2 => (2, [1020, 2044, 4092][pick(3)] + pick(8)),
        _ => (3, if thorough() { 1 + pick(180) } else { [1, 15, 62, 126, 254][pick(5)] + pick(4) }),
    };
    let mark = [None, Some("é"), Some("字"), Some("😀")][pick(if len > 1000 { 4 } else { 1 })];
    let crlf = flip();
    let mut lines = vec![];
    let mut s = vec![];
    for i in 0..n {
        let mut l = vec![b'a' + (i % 26) as u8; len];
        if let Some(x) = mark {
            l.truncate(len - 1 - 2 * (i % 2));
            l.extend_from_slice(x.as_bytes());
        }
        if i + 1 == n {
            l[0] = b'a' + below(26);
        }
        s.extend_from_slice(&l);
        if crlf {
            s.push(13);
        }
        s.push(10);
        lines.push(l);
    }
    s.extend_from_slice(b"end");
    let cut = if flip() { 0 } else { s.len() / 2 };
    if cut > 0 {
        env::feed(&s[..cut]);
        settle();
    }
    env::feed(&s[cut..]);
    env::feed_eof();
    settle();
    lines.push(b"end".to_vec());
    for l in &lines {
        match io.try_read() {
            Some(Response::Input(x)) => check(x.as_bytes() == &l[..], "an input line is not delivered as it is"),
            _ => check(false, "an input line is not delivered"),
        }
    }
    check(io.try_read().is_none(), "a line is delivered that is not in the input");
    let mut want = vec![];
    for l in &lines {
        want.extend_from_slice(l);
        want.push(10);
        io.println(string(l.clone()));
    }
    drop(io);
    check(env::out_log() == &want[..], "the output is not exactly the printed lines");
}
/// Many lives.
#[no_mangle]
pub extern "C" fn entry_c15_many() {
    env::tty(9);
    let mut m = Model::new(9);
    for i in 0..2 + pick(20) {
        let mut io = InputOutput::new();
        let o = io.clone_output();
        io.println("p");
        m.out.push(t("p"));
        if i % 3 == 0 {
            io.prompt("$", true, false);
            env::feed(b"k\r");
            settle();
            check(matches!(io.try_read(), Some(Response::Input(s)) if s == "k"), "a new instance does not deliver input");
        }
        if i % 2 == 0 {
            drop(io);
        } else {
            wait(io.die());
        }
        drop(o);
    }
    end(InputOutput::new());
    sound(&m);
}
/// Many suspensions.
#[no_mangle]
pub extern "C" fn entry_c16_many() {
    env::tty(9);
    let mut m = Model::new(9);
    let io = InputOutput::new();
    io.prompt("$", true, false);
    m.prompt = t("$");
    let b = b'a' + below(26);
    env::feed(&[b]);
    m.type_char(b as u32, 1);
    settle();
    m.check();
    static mut RUNS: usize = 0;
    let n = 2 + pick(40);
    let both = flip();
    for i in 0..n {
        if both && i % 2 == 1 {
            env::feed(b"\x1a");
            settle();
            m.stop();
        } else {
            io.suspend_and_run(|| unsafe {
                RUNS += 1;
                check(env::cooked(), "the terminal is not in its original mode while suspended");
            });
        }
        io.println("l");
        m.out.push(t("l"));
    }
    settle();
    check(unsafe { RUNS } == if both { (n + 1) / 2 } else { n }, "a function is not run exactly once");
    check(env::raw_mode(), "raw mode is not restored");
    m.check();
    drop(io);
    sound(&m);
}
/// Many prompts.
#[no_mangle]
pub extern "C" fn entry_c17_many() {
    let mut k = Keys::new(9);
    let n = 1 + pick(100);
    let often = pick(3);
    for i in 0..n {
        let allowed = i % 2 == 0;
        let clear = i % 5 == 4;
        let b = b'a' + if i + 1 == n { below(26) } else { (i % 26) as u8 };
        k.io.prompt(string(vec![b]), allowed, clear);
        let mut l = T::new();
        l.push(b as u32, 1);
        k.m.prompt = l;
        k.m.allowed = allowed;
        if clear {
            k.m.input.v.clear();
            k.m.cursor = 0;
        }
        if often > 0 && i % often == 0 {
            settle();
        }
        if often == 2 {
            settle();
            key(&mut k, b'x');
            settle();
        }
    }
    k.check();
    key(&mut k, b'y');
    k.check();
    k.end();
}
/// Long texts on a VT52.
#[no_mangle]
pub extern "C" fn entry_c18_big() {
    let w = [24, 40, 80][pick(if thorough() { 3 } else { 1 })];
    env::vt52(w, 25, b"tw52\0", [2, 16][pick(2)], false);
    display(w as usize);
}
/// Long lines with many changes of attributes.
#[no_mangle]
pub extern "C" fn entry_c20_big() {
    env::tty(40);
    let mut m = Model::new(40);
    let io = InputOutput::new();
    let n = [39, 40, 41, 79, 80, 100, 130][pick(if thorough() { 7 } else { 5 })];
    let mut l = Line::new();
    let mut q = T::new();
    let step = 1 + pick(3);
    for i in 0..n {
        if i % step == 0 {
            let (c, s) = ((i % 9) as u32, (i * 5 % 32) as u32);
            l.set_bg_color(COLORS[c as usize]);
            l.set_style(Style::from_bits_truncate(s));
            q.cur = c << 8 | s << 16;
        }
        let b = b'a' + (i % 26) as u8;
        l.add_text(string(vec![b]));
        q.push(b as u32, 1);
    }
    let (c, k) = any_color();
    l.set_fg_color(c);
    q.cur = q.cur & !0xff | k;
    l.add_text("z");
    q.push(b'z' as u32, 1);
    let which = pick(3);
    match which {
        0 => {
            io.println(l);
            m.out.push(q);
        }
        1 => {
            io.status(Some(l));
            m.status = Some(q);
        }
        _ => {
            io.prompt(l, true, false);
            m.prompt = q;
        }
    }
    settle();
    m.check();
    io.println("o");
    m.out.push(t("o"));
    settle();
    m.check();
    drop(io);
    m.check_bare(env::screen());
}

// ------------------------------------------------------------------
// A few operations, again and again: everything they leave behind adds up.

/// Any two operations, repeated.
fn again_and_again(io: InputOutput, mut m: Model) {
    let n = if thorough() { 3 } else { 2 };
    record();
    for i in 0..[6, 12][thorough() as usize] {
        if i > 0 {
            repeat();
        }
        for _ in 0..n {
            step(&io, &mut m, 10);
            settle();
        }
        m.check();
    }
    drop(io);
    m.check_bare(env::screen());
}
#[no_mangle]
pub extern "C" fn entry_c01_repeat() {
    env::tty(3);
    again_and_again(InputOutput::new(), Model::new(3));
}
#[no_mangle]
pub extern "C" fn entry_c18_repeat() {
    env::vt52(3, 24, b"vt52\0", 2, false);
    again_and_again(InputOutput::new(), Model::new(3));
}
/// The same with a suspension of either kind in between.
#[no_mangle]
pub extern "C" fn entry_c16_repeat() {
    env::tty(3);
    let io = InputOutput::new();
    let mut m = Model::new(3);
    record();
    for i in 0..[5, 9][thorough() as usize] {
        if i > 0 {
            repeat();
        }
        for _ in 0..[1, 2][thorough() as usize] {
            step(&io, &mut m, 10);
        }
        settle();
        if flip() {
            io.suspend_and_run(|| {
                check(env::cooked(), "the terminal is not in its original mode while suspended");
            });
        } else {
            env::feed(b"\x1a");
            settle();
            if m.key() {
                m.stop();
            }
        }
        settle();
        m.check();
        step(&io, &mut m, 10);
        settle();
        m.check();
    }
    drop(io);
    sound(&m);
}
/// Any three keys, over and over.
#[no_mangle]
pub extern "C" fn entry_c03_repeat() {
    let mut k = Keys::new(7);
    static K: [&[u8]; 18] = [
        b"a", b" ", b"\x01", b"\x02", b"\x05", b"\x06", b"\x7f", b"\x0b", b"\x15", b"\x17", b"\x19", b"\x07", b"\x1b[C",
        b"\x1b[D", b"\x1b[3~", b"\x1b[H", b"\x1b[F", b"\r",
    ];
    record();
    for i in 0..5 {
        if i > 0 {
            repeat();
        }
        for _ in 0..3 {
            press(&mut k, K[pick(18)]);
        }
        // (yanking doubles the text)
        assume(k.m.input.v.len() < 200);
        k.check();
    }
    k.end();
}
/// Anything that has to do with the history, over and over.
#[no_mangle]
pub extern "C" fn entry_c11_repeat() {
    let mut k = Keys::new(5);
    k.dups = true;
    let (h, v) = crate::nav::history(pick(4));
    k.io.swap_history(h);
    k.hist = v;
    settle();
    record();
    for i in 0..[4, 6][thorough() as usize] {
        if i > 0 {
            repeat();
        }
        for _ in 0..[3, 4][thorough() as usize] {
            match pick(6) {
                0 => press(&mut k, b"\x1b[A"),
                1 => press(&mut k, b"\x1b[B"),
                2 => press(&mut k, b"x"),
                3 => press(&mut k, b"\r"),
                4 => press(&mut k, b"\x07"),
                _ => {
                    let n = pick(3);
                    crate::nav::swap(&mut k, n);
                }
            }
            k.check();
        }
    }
    k.end();
}
/// Tabs, keys and prompts, over and over.
#[no_mangle]
pub extern "C" fn entry_c12_repeat() {
    let mut k = crate::nav::with_completor(6);
    record();
    for i in 0..4 {
        if i > 0 {
            repeat();
        }
        for _ in 0..[3, 4][thorough() as usize] {
            match pick(5) {
                0 => crate::nav::tab(&mut k, 3),
                1 => press(&mut k, b"a"),
                2 => press(&mut k, b"\x7f"),
                3 => press(&mut k, b"\r"),
                _ => {
                    k.m.allowed = !k.m.allowed;
                    k.io.prompt("$", k.m.allowed, false);
                }
            }
            k.check();
        }
        assume(k.m.input.v.len() < 40);
    }
    k.end();
}
/// Notices, time, keys and prompts, over and over.
#[no_mangle]
pub extern "C" fn entry_c13_repeat() {
    let mut k = Keys::new(4);
    k.io.prompt("$", true, false);
    k.m.prompt = t("$");
    let mut now = 0u64;
    let mut until = 0u64;
    record();
    for i in 0..[5, 8][thorough() as usize] {
        if i > 0 {
            repeat();
        }
        for _ in 0..[3, 4][thorough() as usize] {
            match pick(5) {
                0 => {
                    let d = [1000, 4000][pick(2)];
                    k.io.notice("n", Duration::from_millis(d));
                    k.m.notice = Some(t("n"));
                    until = now + d;
                }
                1 => {
                    let d = [999, 1, 2500][pick(3)];
                    advance_ms(d);
                    now += d;
                }
                2 => {
                    k.m.allowed = !k.m.allowed;
                    k.io.prompt("$", k.m.allowed, false);
                }
                3 => press(&mut k, b"a"),
                _ => {
                    k.io.println("o");
                    k.m.out.push(t("o"));
                }
            }
            if now >= until {
                k.m.notice = None;
            }
            k.check();
        }
    }
    k.end();
}
/// Prompts and keys, over and over.
#[no_mangle]
pub extern "C" fn entry_c17_repeat() {
    let mut k = Keys::new(6);
    static K: [&[u8]; 8] = [b"a", b"\x02", b"\x7f", b"\r", b"\x1b[A", b"\x07", b"\x0b", b"\x19"];
    record();
    for i in 0..[4, 6][thorough() as usize] {
        if i > 0 {
            repeat();
        }
        for j in 0..[3, 4][thorough() as usize] {
            if j % 2 == 0 {
                let p = ["", "$", "> "][pick(3)];
                let (allowed, clear) = (flip(), flip());
                k.io.prompt(p, allowed, clear);
                k.m.prompt = t(p);
                k.m.allowed = allowed;
                if clear {
                    k.m.input.v.clear();
                    k.m.cursor = 0;
                    k.forget();
                }
            } else {
                press(&mut k, K[pick(8)]);
            }
            k.check();
        }
    }
    k.end();
}
/// Building lines, over and over.
#[no_mangle]
pub extern "C" fn entry_c06_repeat() {
    let mut l = Line::new();
    let mut m = ML::new();
    record();
    for i in 0..[8, 20][thorough() as usize] {
        if i > 0 {
            repeat();
        }
        for _ in 0..[3, 4][thorough() as usize] {
            match pick(7) {
                0 => {
                    let (s, c) = any_str(1, ASCII | CTRL);
                    l.add_text(s);
                    m.text(&c);
                }
                1 => {
                    l.add_text("é\n");
                    m.text(&[0xe9, 10]);
                }
                2 => {
                    let (s, k) = any_style();
                    l.set_style(s);
                    m.style(k);
                }
                3 => {
                    let (c, k) = any_color();
                    l.set_fg_color(c);
                    m.fg(k);
                }
                4 => {
                    l.toggle_style(Style::INVERSE);
                    m.cur ^= 8 << 16;
                }
                5 => {
                    l.reset_all();
                    m.cur = 0;
                }
                _ => {
                    let k = l.clone();
                    assume(m.v.len() < 60);
                    l.append_line(&k);
                    let n = m.v.clone();
                    m.v.extend_from_slice(&n);
                }
            }
        }
    }
    check(m.same(&l), "the line does not hold exactly the text and attributes given");
    check(m.same_state(&l), "the attributes in force are not those last set");
}
