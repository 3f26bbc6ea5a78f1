//! Suspending: C16.
use crate::env;
use crate::keys::*;
use crate::rt::*;
use crate::tty::*;
use liso::*;
use std::sync::atomic::*;
use std::time::Duration;

/// How many functions have run.
static RUNS: AtomicUsize = AtomicUsize::new(0);

/// Give up the terminal to function number `no`, which may print a line.
fn run(io: &Output, m: &mut Model, no: usize, say: bool) {
    let was = m.clone();
    if say {
        m.out.push(t("run"));
    }
    let now = m.clone();
    io.suspend_and_run(move || {
        check(RUNS.fetch_add(1, Ordering::SeqCst) == no, "a function given to suspend_and_run does not run exactly once and in order");
        was.check_bare(env::screen());
        check(env::cooked(), "the terminal is not in its original mode while a function runs");
        if say {
            std::println!("run");
        }
        now.check_bare(env::screen());
    });
}
fn runs(n: usize) {
    check(RUNS.load(Ordering::SeqCst) == n, "a function given to suspend_and_run does not run exactly once");
}
/// Suspended amid anything.
#[no_mangle]
pub extern "C" fn entry_c16_script() {
    let w = 3;
    env::tty(w as u16);
    let io = InputOutput::new();
    let mut m = Model::new(w);
    let n = if thorough() { 3 } else { 2 };
    for _ in 0..n {
        step(&io, &mut m, 10);
        settle();
    }
    run(&io, &mut m, 0, flip());
    settle();
    runs(1);
    m.check();
    check(env::raw_mode(), "raw mode is not entered again");
    step(&io, &mut m, 10);
    settle();
    m.check();
    drop(io);
    runs(1);
    m.check_bare(env::screen());
    check(env::cooked(), "the terminal settings are not restored");
}
/// Several in a row among other requests, none waited for.
#[no_mangle]
pub extern "C" fn entry_c16_order() {
    let w = 4;
    env::tty(w as u16);
    let io = InputOutput::new();
    let mut m = Model::new(w);
    let mut n = 0;
    if flip() {
        io.status(Some("st"));
        m.status = Some(t("st"));
        io.prompt("$", true, false);
        m.prompt = t("$");
        settle();
        env::feed(b"ty");
        m.type_char(b't' as u32, 1);
        m.type_char(b'y' as u32, 1);
        settle();
    }
    for _ in 0..(if thorough() { 6 } else { 5 }) {
        match pick(5) {
            0 => {
                run(&io, &mut m, n, true);
                n += 1;
            }
            1 => {
                run(&io, &mut m, n, false);
                n += 1;
            }
            2 => {
                let (s, l) = letters(1);
                io.println(s);
                m.out.push(l);
            }
            3 => {
                let (s, l) = letters(2);
                io.status(Some(s));
                m.status = Some(l);
            }
            _ => {
                settle();
                runs(n);
                m.check();
            }
        }
    }
    if flip() {
        settle();
        runs(n);
        m.check();
        check(env::raw_mode(), "raw mode is not entered again");
    }
    drop(io);
    runs(n);
    m.check_bare(env::screen());
    check(env::cooked(), "the terminal settings are not restored");
}
/// Any terminal modes from before.
#[no_mangle]
pub extern "C" fn entry_c16_modes() {
    let w = 5;
    env::tty(w as u16);
    // (input, local and line modes; output modes other than the line feed's)
    static AT: [usize; 7] = [0, 1, 12, 13, 8, 17, 22];
    for _ in 0..(if thorough() { 3 } else { 2 }) {
        env::modes(AT[pick(7)], any());
    }
    let io = InputOutput::new();
    let mut m = Model::new(w);
    settle();
    check(env::raw_mode(), "raw mode is not entered");
    io.prompt("$", true, false);
    m.prompt = t("$");
    settle();
    for i in 0..2 {
        if flip() {
            run(&io, &mut m, i, true);
            settle();
        } else {
            RUNS.fetch_add(1, Ordering::SeqCst);
            env::feed(b"\x1a");
            settle();
            check(env::stops().last().is_some_and(|s| s.cooked), "the terminal is not in its original mode while the process is stopped");
            m.stop();
        }
        runs(i + 1);
        m.check();
        check(env::raw_mode(), "raw mode is not entered again");
    }
    drop(io);
    m.check_bare(env::screen());
    check(env::cooked(), "the terminal settings are not restored");
}
/// Stopped with control-Z amid anything.
#[no_mangle]
pub extern "C" fn entry_c16_stop() {
    let w = 3;
    env::tty(w as u16);
    let io = InputOutput::new();
    let mut m = Model::new(w);
    let n = if thorough() { 3 } else { 2 };
    for _ in 0..n {
        step(&io, &mut m, 10);
        settle();
    }
    let mut stops = 0;
    for _ in 0..1 + pick(2) {
        env::feed(b"\x1a");
        settle();
        if m.key() {
            stops += 1;
            m.stop();
            check(env::stops().len() == stops, "control-Z does not stop the process exactly once");
            let s = &env::stops()[stops - 1];
            check(s.cooked, "the terminal is not in its original mode while the process is stopped");
            match &s.screen {
                Some(sc) => m.check_bare(sc),
                None => check(false, "there is no screen"),
            }
            check(env::raw_mode(), "raw mode is not entered again");
        }
        check(env::stops().len() == stops, "control-Z stops the process when input is refused");
        m.check();
    }
    step(&io, &mut m, 10);
    settle();
    m.check();
    drop(io);
    m.check_bare(env::screen());
    check(env::cooked(), "the terminal settings are not restored");
    check(env::stops().len() == stops, "the process is stopped for no reason");
}
/// Any text half typed, and the history, before and after.
#[no_mangle]
pub extern "C" fn entry_c16_typed() {
    let mut k = Keys::new(5);
    press(&mut k, b"h");
    press(&mut k, b"\r");
    let n = pick(if thorough() { 5 } else { 4 });
    let mut s = vec![];
    let v = small_text(&mut s, n, &[1, 2, 4, 8, 16]);
    env::feed(&s);
    for g in &v {
        k.m.key();
        k.m.input.v.push(*g);
        k.m.cursor += 1;
    }
    for _ in 0..pick(v.len() + 1) {
        press(&mut k, b"\x02");
    }
    if flip() {
        press(&mut k, b"\x10");
    }
    settle();
    k.check();
    if flip() {
        run(&k.io, &mut k.m, 0, false);
    } else {
        press(&mut k, b"\x1a");
    }
    k.check();
    static KEYS: [&[u8]; 6] = [b"x", b"\x02", b"\x7f", b"\x0e", b"\x1b[C", b"\x17"];
    press(&mut k, KEYS[pick(6)]);
    k.check();
    press(&mut k, b"\r");
    k.check();
    k.end();
}
/// Nothing is displayed while a function takes its time, whoever wants it.
#[no_mangle]
pub extern "C" fn entry_c16_long() {
    let w = 5;
    env::tty(w as u16);
    let io = InputOutput::new();
    let mut m = Model::new(w);
    io.prompt("$", true, false);
    m.prompt = t("$");
    io.status(Some("st"));
    m.status = Some(t("st"));
    if flip() {
        io.notice("no", Duration::from_millis(100));
        m.notice = Some(t("no"));
    }
    settle();
    m.check();
    let (go, gone) = std::sync::mpsc::channel();
    let was = m.clone();
    io.suspend_and_run(move || {
        RUNS.fetch_add(1, Ordering::SeqCst);
        let _ = gone.recv();
        was.check_bare(env::screen());
        check(env::cooked(), "the terminal is not in its original mode while a function runs");
    });
    settle();
    for _ in 0..(if thorough() { 4 } else { 3 }) {
        match pick(7) {
            0 => {
                let (s, l) = letters(2);
                io.println(s);
                m.out.push(l);
            }
            1 => {
                let (s, l) = letters(2);
                io.status(Some(s));
                m.status = Some(l);
            }
            2 => {
                let (s, l) = letters(2);
                io.prompt(s, true, false);
                m.prompt = l;
            }
            3 => {
                io.notice("xy", Duration::from_secs(1));
                m.notice = Some(t("xy"));
            }
            4 => {
                env::feed(b"k");
                settle();
                if m.key() {
                    m.type_char(b'k' as u32, 1);
                }
            }
            5 => {
                liso::println!("abc");
                m.out.push(t("abc"));
            }
            _ => advance_ms(20),
        }
        settle();
    }
    let _ = go.send(());
    let end = flip();
    if !end {
        advance_ms(200);
        runs(1);
        if m.notice.as_ref().is_some_and(|n| n.v[0].ch == 'n' as u32) {
            m.notice = None;
        }
        m.check();
        check(env::raw_mode(), "raw mode is not entered again");
    }
    drop(io);
    runs(1);
    m.check_bare(env::screen());
    check(env::cooked(), "the terminal settings are not restored");
}
/// Two threads, each giving up the terminal.
#[no_mangle]
pub extern "C" fn entry_c16_race() {
    let w = 5;
    env::tty(w as u16);
    let io = InputOutput::new();
    io.prompt("$", true, false);
    io.status(Some("st"));
    settle();
    sched(if thorough() { 2 } else { 1 });
    fn give(o: &Output, c: u8) {
        o.println(string2(c, b'1'));
        o.suspend_and_run(move || {
            RUNS.fetch_add(1, Ordering::SeqCst);
            check(env::cooked(), "the terminal is not in its original mode while a function runs");
            let sc = env::screen();
            let (x, y) = (sc.cx, sc.cy);
            check(x == 0 && sc.visible, "the cursor is not below the printed lines");
            for c in &sc.rows[y] {
                check(c.ch == 32, "something is displayed below the printed lines");
            }
            std::thread::yield_now();
            std::println!("{}", string2(c, b'2'));
            let sc = env::screen();
            check(sc.cy == y + 1 && sc.cx == 0, "something is displayed while a function runs");
            check(env::cooked(), "the terminal is not in its original mode while a function runs");
        });
        o.println(string2(c, b'3'));
    }
    let o = io.clone_output();
    let j = std::thread::spawn(move || give(&o, b'a'));
    give(&io, b'b');
    let _ = j.join();
    drop(io);
    sched_off();
    runs(2);
    check(env::cooked(), "the terminal settings are not restored");
    let sc = env::screen();
    check(sc.cy == 6 && sc.cx == 0 && sc.bad == 0, "the lines printed before, by and after the functions are not displayed exactly");
    let (mut a, mut b) = (b'0' as u32, b'0' as u32);
    for y in 0..6 {
        let (c, n) = (sc.rows[y][0].ch, sc.rows[y][1].ch);
        if c == 'a' as u32 {
            check(n == a + 1, "lines and functions are not in order");
            a = n;
        } else {
            check(c == 'b' as u32 && n == b + 1, "lines and functions are not in order");
            b = n;
        }
        check(sc.rows[y][2].ch == 32, "something is left behind");
    }
}
fn string2(a: u8, b: u8) -> String {
    crate::model::string(vec![a, b])
}
