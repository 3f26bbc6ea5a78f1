//! The display on VT52 and Atari terminals: C18.
use crate::env;
use crate::keys::*;
use crate::model::*;
use crate::prompts::*;
use crate::rt::*;
use crate::tty::*;
use liso::*;
use std::time::Duration;

/// One of the configurations: 2, 4 or 16 colors, black on white or reverse.
fn config(w: usize, n: usize) {
    let wob = flip();
    let (term, colors): (&'static [u8], u32) = match pick(n) {
        0 => (b"tt52\0", 16),
        1 => (b"atari-m\0", 2),
        _ => (b"vt52\0", 2),
    };
    env::vt52(w as u16, 24, term, colors, wob);
    if wob {
        env::wob(b"1\0");
    }
}
/// Any short script.
#[no_mangle]
pub extern "C" fn entry_c18_script() {
    let w = 3;
    if thorough() {
        config(w, 1);
    } else {
        env::vt52(w as u16, 24, b"vt52\0", 2, false);
    }
    let io = InputOutput::new();
    let mut m = Model::new(w);
    for _ in 0..3 {
        step(&io, &mut m, 10);
        settle();
        m.check();
        observe_screen();
    }
    drop(io);
    sound(&m);
}
/// Wide and combining characters.
#[no_mangle]
pub extern "C" fn entry_c18_wide() {
    let w = 2 + pick(if thorough() { 3 } else { 2 });
    config(w, 1);
    let io = InputOutput::new();
    let mut m = Model::new(w);
    let max = if thorough() { 4 } else { 3 };
    let kinds: &[u8] = if flip() { &[1, 2, 8] } else { &[1, 2, 4] };
    let which = pick(3);
    for _ in 0..2 {
        let n = pick(max + 1);
        let (s, t) = mixed(n, kinds);
        match which {
            0 => {
                io.status(Some(s));
                m.status = Some(t);
            }
            1 => {
                io.prompt(s, true, false);
                m.prompt = t;
            }
            _ => {
                io.println(s);
                m.out.push(t);
            }
        }
        settle();
        m.check();
    }
    drop(io);
    m.check_bare(env::screen());
}
/// Two characters in any style and colors, anywhere.
#[no_mangle]
pub extern "C" fn entry_c18_colors() {
    let wob = flip();
    let (w, h, term, colors): (usize, u16, &'static [u8], u32) = match pick(4) {
        0 => (80, 25, b"st52\0", 4),
        1 => (4, 5, b"at\0", 16),
        2 => (4, 5, b"tw52-m\0", 2),
        _ => (40, 25, b"atarist\0", 16),
    };
    env::vt52(w as u16, h, term, colors, wob);
    if wob {
        env::wob(b"yes\0");
    }
    let io = InputOutput::new();
    let mut m = Model::new(w);
    let (mut l, mut t) = (Line::new(), T::new());
    let inverse = pick(4);
    for i in 0..2 {
        let which = pick(if thorough() { 3 } else { 2 });
        let (f, fb) = if which != 0 { any_color() } else { (None, 0) };
        let (b, bb) = if which != 1 { any_color() } else { (None, 0) };
        l.set_colors(f, b);
        t.cur = fb | bb << 8;
        if inverse >> i & 1 == 1 {
            l.set_style(Style::INVERSE | Style::BOLD);
            t.cur |= crate::screen::INVERSE | crate::screen::BOLD;
        } else {
            l.set_style(Style::UNDERLINE);
            t.cur |= crate::screen::UNDERLINE;
        }
        let b = b'a' + below(26);
        l.add_text(string(vec![b]));
        t.push(b as u32, 1);
    }
    match pick(if thorough() { 4 } else { 2 }) {
        0 => {
            io.println(l);
            m.out.push(t);
        }
        1 => {
            io.prompt(l, true, false);
            m.prompt = t;
        }
        2 => {
            io.status(Some(l));
            m.status = Some(t);
        }
        _ => {
            io.notice(l, Duration::from_secs(1));
            m.notice = Some(t);
        }
    }
    settle();
    m.check();
    drop(io);
    m.check_bare(env::screen());
}
/// Attributes that come and go.
#[no_mangle]
pub extern "C" fn entry_c18_styled() {
    let w = 3;
    config(w, 1);
    let io = InputOutput::new();
    let mut m = Model::new(w);
    for _ in 0..2 {
        let (l, t) = styled(if thorough() { 1 + pick(2) } else { 1 }, false);
        match pick(2) {
            0 => {
                io.prompt(l, true, false);
                m.prompt = t;
            }
            _ => {
                io.println(l);
                m.out.push(t);
            }
        }
        settle();
        m.check();
    }
    env::feed(b"z");
    m.key();
    m.type_char(b'z' as u32, 1);
    settle();
    m.check();
    drop(io);
    m.check_bare(env::screen());
}
/// Every name of such a terminal, at every size that matters.
#[no_mangle]
pub extern "C" fn entry_c18_names() {
    static NAMES: [(&[u8], u32); 16] = [
        (b"st52\0", 3),
        (b"tw52\0", 16),
        (b"tt52\0", 16),
        (b"at\0", 16),
        (b"atari\0", 16),
        (b"atarist\0", 3),
        (b"atari_st\0", 3),
        (b"vt52\0", 2),
        (b"stv52\0", 3),
        (b"stv52pc\0", 3),
        (b"st52-m\0", 2),
        (b"tt52-m\0", 2),
        (b"at-color\0", 16),
        (b"st52-color\0", 3),
        (b"vt52-color\0", 2),
        (b"atari-old-m\0", 2),
    ];
    static SIZES: [(u16, u16, u32); 5] = [(80, 50, 2), (80, 25, 4), (40, 25, 16), (40, 50, 2), (81, 25, 2)];
    let (name, mut colors) = NAMES[pick(16)];
    let (w, h, c) = SIZES[pick(5)];
    if colors == 3 {
        colors = c;
    }
    env::vt52(w, h, name, colors, false);
    let w = w as usize;
    let io = InputOutput::new();
    let mut m = Model::new(w);
    let mut l = Line::new();
    l.set_fg_color(Some(Color::Green)).add_text("green").set_bg_color(Some(Color::Blue)).add_text("blue");
    let mut g = T::new();
    for c in "green".chars() {
        g.cur = 3;
        g.push(c as u32, 1);
    }
    for c in "blue".chars() {
        g.cur = 3 | 5 << 8;
        g.push(c as u32, 1);
    }
    io.println(l.clone());
    m.out.push(g.clone());
    io.prompt(l, true, false);
    m.prompt = g;
    settle();
    m.check();
    drop(io);
    sound(&m);
}
/// Any way of asking for white on black.
#[no_mangle]
pub extern "C" fn entry_c18_wob() {
    static V: [(&[u8], bool); 12] = [
        (b"0\0", false),
        (b"1\0", true),
        (b"no\0", false),
        (b"N\0", false),
        (b"false\0", false),
        (b"F\0", false),
        (b"yes\0", true),
        (b"Y\0", true),
        (b"true\0", true),
        (b"T\0", true),
        (b"2\0", false),
        (b"\0", false),
    ];
    let (v, wob) = V[pick(12)];
    env::vt52(5, 24, b"tt52\0", 16, wob);
    env::wob(v);
    let io = InputOutput::new();
    let mut m = Model::new(5);
    io.status(Some("st"));
    m.status = Some(t("st"));
    settle();
    m.check();
    drop(io);
    m.check_bare(env::screen());
}
/// Any editing keys this terminal has.
#[no_mangle]
pub extern "C" fn entry_c18_keys() {
    config(5, 1);
    let mut k = Keys::on(5);
    k.io.prompt("$", true, false);
    k.m.prompt = t("$");
    press(&mut k, b"h");
    press(&mut k, b"\r");
    for _ in 0..(if thorough() { 3 } else { 2 }) {
        let b = any();
        assume(b < 128 && b != 27);
        env::feed(&[b]);
        k.ascii(b);
        if flip() {
            env::feed(b"\x1b");
            advance_ms(50);
            k.escape();
        }
        let b = b'a' + below(2);
        env::feed(&[b]);
        k.ascii(b);
        k.check();
    }
    press(&mut k, b"\r");
    k.check();
    k.end();
}
/// What this terminal sends, cut up anywhere: no sequence leaves a residue.
#[no_mangle]
pub extern "C" fn entry_c18_decode() {
    config(5, 1);
    let mut k = Keys::on(5);
    let mut s = vec![];
    let n = if thorough() { 3 } else { 2 };
    for i in 0..=n {
        match if i == n { 0 } else { pick(5) } {
            0 => {
                let b = b'a' + below(26);
                s.push(b);
                k.ascii(b);
            }
            1 => {
                // a sequence that is not supported: nothing
                let b = any();
                assume((b >= 32) & (b < 127) & (b != b'/'));
                s.extend_from_slice(&[27, b]);
            }
            2 => {
                // what the terminal says it is
                let b = any();
                assume((b >= 32) & (b < 127));
                s.extend_from_slice(&[27, b'/', b]);
            }
            3 => {
                // escape itself, before something else
                static C: [u8; 3] = [0x14, 0x0d, 0x7f];
                let c = C[pick(3)];
                s.extend_from_slice(&[27, c]);
                k.escape();
                k.ascii(c);
            }
            _ => {
                // nothing that this terminal has
                let b = any();
                assume(b >= 128);
                s.push(b);
            }
        }
    }
    let mut cuts = if thorough() { 4 } else { 3 };
    let mut at = 0;
    for i in 1..s.len() {
        if cuts > 0 && flip() {
            cuts -= 1;
            env::feed(&s[at..i]);
            at = i;
            if flip() {
                advance_ms(20)
            } else {
                settle()
            }
        }
    }
    env::feed(&s[at..]);
    settle();
    k.check();
    // the whole is followed by silence
    env::feed(b"\x1b");
    advance_ms(50);
    k.escape();
    k.check();
    k.end();
}
/// Any bytes at all: input goes on.
#[no_mangle]
pub extern "C" fn entry_c18_bytes() {
    config(5, 1);
    let mut io = InputOutput::new();
    let mut s = vec![];
    for _ in 0..(if thorough() { 3 } else { 2 }) {
        s.push(any());
    }
    let n = pick(s.len() + 1);
    env::feed(&s[..n]);
    if flip() {
        settle();
    }
    env::feed(&s[n..]);
    advance_ms(100);
    // (an unfinished sequence may swallow the first key)
    env::feed(b"zz");
    settle();
    env::feed(b"\x05\x15ok\r");
    settle();
    let mut last = None;
    for _ in 0..16 {
        match io.try_read() {
            None => break,
            r => last = r,
        }
    }
    check(matches!(last, Some(Response::Input(l)) if l == "ok"), "after these bytes, a line is not delivered as typed");
    let sc = env::screen();
    check(sc.bad == 0 && !sc.cut, "the terminal was sent something it does not understand");
    drop(io);
    check(env::cooked() && env::fds_sound(), "the terminal is not restored");
}
/// Ended amid anything, then used again.
#[no_mangle]
pub extern "C" fn entry_c18_end() {
    let w = 3;
    config(w, 1);
    let io = InputOutput::new();
    let mut m = Model::new(w);
    for _ in 0..(if thorough() { 2 } else { 1 }) {
        step(&io, &mut m, 10);
        settle();
    }
    io.println("l");
    m.out.push(t("l"));
    end(io);
    sound(&m);
    again(&mut m);
    again(&mut m);
}
/// Ended while something is under way, in any order.
#[no_mangle]
pub extern "C" fn entry_c18_race() {
    let w = 4;
    config(w, 1);
    let io = InputOutput::new();
    let mut m = Model::new(w);
    sched(if thorough() { 2 } else { 1 });
    io.prompt("> ", true, false);
    match pick(4) {
        0 => env::feed(b"ab"),
        1 => env::feed(b"\x1b"),
        2 => io.suspend_and_run(|| ()),
        _ => io.status(Some("s")),
    }
    io.println("l");
    m.out.push(t("l"));
    end(io);
    sched_off();
    sound(&m);
    if env::unread() == 0 {
        again(&mut m);
    }
}
/// The terminal goes away.
#[no_mangle]
pub extern "C" fn entry_c18_dead() {
    config(4, 1);
    let mut io = InputOutput::new();
    settle();
    match pick(3) {
        0 => {
            env::feed(b"\x03");
            env::feed_eof();
            check(matches!(io.read_blocking(), Response::Quit), "a response delivered before the end is lost");
        }
        1 => env::feed_eof(),
        _ => env::feed_error(),
    }
    check(matches!(io.read_blocking(), Response::Dead), "a reader is not told that the instance is dead");
    env::mend();
    drop(io);
    check(env::cooked() && env::fds_sound(), "the terminal is not restored");
}
/// Suspended, either way.
#[no_mangle]
pub extern "C" fn entry_c18_suspend() {
    let w = 3;
    config(w, 1);
    let io = InputOutput::new();
    let mut m = Model::new(w);
    for _ in 0..(if thorough() { 2 } else { 1 }) {
        step(&io, &mut m, 10);
        settle();
    }
    match pick(2) {
        0 => {
            let was = m.clone();
            io.suspend_and_run(move || {
                was.check_bare(env::screen());
                check(env::cooked(), "the terminal is not in its original mode while a function runs");
                std::println!("run");
            });
            m.out.push(t("run"));
            settle();
        }
        _ => {
            env::feed(b"\x1a");
            settle();
            if m.key() {
                m.stop();
                match &env::stops()[0].screen {
                    Some(sc) => m.check_bare(sc),
                    None => check(false, "there is no screen"),
                }
                check(env::stops()[0].cooked, "the terminal is not in its original mode while the process is stopped");
            }
        }
    }
    m.check();
    step(&io, &mut m, 10);
    settle();
    m.check();
    drop(io);
    m.check_bare(env::screen());
}
