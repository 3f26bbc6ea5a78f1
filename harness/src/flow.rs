//! Lines from any number of threads, in any order: C02. Pipes: C14.
use crate::env;
use crate::rt::*;
use crate::screen::*;
use crate::tty::*;
use crate::model::*;
use liso::*;
use std::time::Duration;

/// What was sent: by whom, how, and its symbolic letter.
#[derive(Clone, Copy)]
struct Sent {
    id: u8,
    kind: usize,
    v: u8,
}
fn send(o: &Output, s: &Sent) {
    let l = string(vec![s.id, s.v]);
    match s.kind {
        0 => o.println(l),
        1 => o.wrapln(l),
        2 => o.echoln(l),
        3 => liso::println!(l),
        _ => liso::wrapln!(l),
    }
}
/// The printed lines (each two characters) are an interleaving of what was sent.
fn woven(sent: &[Vec<Sent>], rows: &[(u8, u8)]) {
    let mut next = vec![0usize; sent.len()];
    for r in rows {
        let mut found = false;
        for i in 0..sent.len() {
            if next[i] < sent[i].len() && sent[i][next[i]].id == r.0 {
                check(sent[i][next[i]].v == r.1, "a line is not printed as it was sent");
                next[i] += 1;
                found = true;
                break;
            }
        }
        check(found, "a line is printed twice, out of order, or was never sent");
    }
    for i in 0..sent.len() {
        check(next[i] == sent[i].len(), "a line is lost");
    }
}
fn rows_of(sc: &Screen, n: usize) -> Vec<(u8, u8)> {
    let mut v = vec![];
    check(sc.rows.len() >= n, "a line is lost");
    for (y, r) in sc.rows.iter().enumerate() {
        if y >= n {
            for c in r {
                check(c.ch == 32, "something is left on the screen below the printed lines");
            }
            continue;
        }
        v.push((r[0].ch as u8, r[1].ch as u8));
        for c in &r[2..] {
            check(c.ch == 32, "a line is broken by other output");
        }
    }
    v
}
fn senders(threads: usize, each: usize, kinds: usize) -> Vec<Vec<Sent>> {
    let mut v = vec![];
    for i in 0..threads {
        let mut l = vec![];
        for j in 0..each {
            let kind = match i {
                0 => pick(kinds),
                // (through the global output, too)
                _ if kinds == 1 => [0, 3, 4, 0][(i * 2 + j + 2) % 4],
                _ => (i + j) % kinds,
            };
            l.push(Sent { id: b'A' + (i * 8 + j) as u8, kind, v: b'a' + below(26) });
        }
        v.push(l);
    }
    v
}
fn run(io: &mut InputOutput, sent: &[Vec<Sent>], budget: u32, traffic: usize) {
    let mut th = vec![];
    sched(budget);
    for l in &sent[1..] {
        let o = io.clone_output();
        let l = l.clone();
        th.push(std::thread::spawn(move || {
            for s in &l {
                send(&o, s);
            }
        }));
    }
    for (j, s) in sent[0].iter().enumerate() {
        match (traffic, j) {
            (0, 0) => io.prompt("> ", true, false),
            (1, 0) => io.status(Some("st")),
            (2, 0) => env::feed(b"xy"),
            (3, 0) => io.notice("no", Duration::from_secs(1)),
            (4, 0) => io.prompt("longer", true, false),
            (4, _) => env::feed(b"z"),
            (5, 0) => env::feed(b"q\r"),
            (5, _) => io.status(Some("t")),
            _ => (),
        }
        send(io, s);
    }
    for t in th {
        let _ = t.join();
    }
}
/// A terminal, with everything else going on.
#[no_mangle]
pub extern "C" fn entry_c02_tty() {
    env::tty(5);
    let mut io = InputOutput::new();
    let traffic = pick(7);
    let sent = senders(2, 2, 3);
    run(&mut io, &sent, if thorough() { 2 } else { 1 }, traffic);
    drop(io);
    sched_off();
    let n = 4;
    woven(&sent, &rows_of(env::screen(), n));
    check(env::screen().bad == 0, "the terminal was sent something it does not understand");
}
/// Three threads on a terminal.
#[no_mangle]
pub extern "C" fn entry_c02_three() {
    env::tty(5);
    let mut io = InputOutput::new();
    let sent = senders(3, 2, 1);
    run(&mut io, &sent, if thorough() { 2 } else { 1 }, 0);
    drop(io);
    sched_off();
    woven(&sent, &rows_of(env::screen(), 6));
    check(env::screen().bad == 0, "the terminal was sent something it does not understand");
}
/// Pipe mode: echoed lines are left out.
#[no_mangle]
pub extern "C" fn entry_c02_pipe() {
    env::raw(flip(), false, Some(b"xterm\0"));
    let mut io = InputOutput::new();
    let sent = senders(2, 2, 3);
    if flip() {
        env::short_writes(1 + pick(2));
    }
    run(&mut io, &sent, if thorough() { 2 } else { 1 }, pick(6));
    drop(io);
    sched_off();
    let mut real = vec![];
    for l in &sent {
        let mut k = vec![];
        for s in l {
            if s.kind != 2 {
                k.push(*s);
            }
        }
        real.push(k);
    }
    let log = env::out_log();
    check(log.len() % 3 == 0, "the output is not whole lines");
    let mut rows = vec![];
    for c in log.chunks(3) {
        check(c[2] == 10, "the output is not whole lines");
        rows.push((c[0], c[1]));
    }
    woven(&real, &rows);
}

// ------------------------------------------------------------------
// C14

/// Any reason for pipe mode.
fn some_pipe() {
    match pick(5) {
        0 => env::raw(false, false, Some(b"xterm\0")),
        1 => env::raw(false, true, Some(b"vt52\0")),
        2 => env::raw(true, false, None),
        3 => env::raw(true, true, Some(b"dumb\0")),
        _ => env::raw(true, true, Some(b"pipe\0")),
    }
}
/// The lines of `s`, without their terminators.
fn lines_of(s: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut l: Vec<u8> = vec![];
    let mut open = false;
    for b in s {
        open = true;
        if *b == 10 {
            if l.last() == Some(&13) {
                l.pop();
            }
            v.push(l);
            l = vec![];
            open = false;
        } else {
            l.push(*b);
        }
    }
    if open {
        v.push(l);
    }
    v
}
fn delivered(io: &mut InputOutput, want: &[Vec<u8>]) {
    for w in want {
        match io.try_read() {
            Some(Response::Input(s)) => {
                // what stands for bytes that are not text is left open
                if let Ok(w) = core::str::from_utf8(w) {
                    check(s == w, "an input line is not delivered as it is");
                }
            }
            _ => check(false, "an input line is not delivered"),
        }
    }
    check(io.try_read().is_none(), "a line is delivered that is not in the input");
}
fn input(s: &[u8]) {
    some_pipe();
    let mut io = InputOutput::new();
    let mut at = 0;
    let mut cuts = 0;
    for i in 1..s.len() {
        if cuts < 2 && flip() {
            cuts += 1;
            env::feed(&s[at..i]);
            at = i;
            if flip() {
                env::feed_intr();
            }
            settle();
        }
    }
    if at < s.len() {
        env::feed(&s[at..]);
    }
    let end = flip();
    if end {
        env::feed_eof();
    }
    settle();
    let mut want = lines_of(s);
    if !end && s.last() != Some(&10) {
        want.pop();
    }
    delivered(&mut io, &want);
    advance_ms(1000);
    check(io.try_read().is_none(), "a line is delivered that is not in the input");
    io.println("x");
    drop(io);
    check(env::out_log() == b"x\n", "something else than the printed lines is output");
    check(env::fds_sound() && env::sighup_handler_restored(), "the descriptors are not restored");
    observe(want.len() as u64);
}
/// Any lines, cut up anywhere.
#[no_mangle]
pub extern "C" fn entry_c14_in() {
    let n = pick(if thorough() { 7 } else { 6 });
    let mut s = vec![];
    for _ in 0..n {
        let b = any();
        assume(b < 128);
        s.push(b);
    }
    input(&s);
}
/// Any bytes at all.
#[no_mangle]
pub extern "C" fn entry_c14_bytes() {
    let n = 1 + pick(if thorough() { 3 } else { 2 });
    let mut s = vec![];
    for _ in 0..n {
        s.push(any());
    }
    s.push(10);
    s.push(b'z');
    if flip() {
        s.push(10);
    }
    input(&s);
}
/// Any output: the plain text of what is printed, and nothing else.
#[no_mangle]
pub extern "C" fn entry_c14_out() {
    some_pipe();
    let mut io = InputOutput::new();
    if flip() {
        env::short_writes(1);
    }
    let mut want: Vec<u8> = vec![];
    static mut RUNS: usize = 0;
    let mut runs = 0;
    for _ in 0..(if thorough() { 4 } else { 3 }) {
        match pick(9) {
            0 => {
                let v = vec![b'a' + below(26), 10, b'a' + below(26)];
                want.extend_from_slice(&v);
                want.push(10);
                let (s, _) = any_style();
                io.println(Line::new().set_style(s).add_text(string(v)).clone());
            }
            1 => {
                let b = b'a' + below(26);
                io.wrapln(Line::new().set_bg_color(Some(Color::Red)).add_text(string(vec![b, b' ', b' ', b])).clone());
                want.extend_from_slice(&[b, b' ', b' ', b, 10]);
            }
            2 => io.echoln("echo"),
            3 => io.status(Some("status")),
            4 => io.notice("notice", Duration::from_millis(10)),
            5 => io.prompt("prompt", flip(), true),
            6 => {
                let o = io.clone_output();
                runs += 1;
                io.suspend_and_run(move || unsafe {
                    RUNS += 1;
                    let _ = &o;
                    std::print!("run\n");
                });
                want.extend_from_slice(b"run\n");
            }
            7 => io.bell(),
            _ => {
                io.send_custom(7u8);
                settle();
                let r = io.try_read();
                check(matches!(r, Some(Response::Custom(_))), "a value is not delivered");
            }
        }
        if flip() {
            settle();
            check(env::out_log() == &want[..], "the output is not exactly the printed lines");
        }
    }
    drop(io);
    check(unsafe { RUNS } == runs, "a function is not run exactly once");
    check(env::out_log() == &want[..], "the output is not exactly the printed lines");
    check(env::err_log().is_empty(), "something is output to the standard error");
}
/// Any text: exactly the line's text and one newline, whatever it ends in.
#[no_mangle]
pub extern "C" fn entry_c14_text() {
    some_pipe();
    let io = InputOutput::new();
    let mut want: Vec<u8> = vec![];
    for i in 0..2 {
        let n = pick(if i == 1 { 2 } else if thorough() { 4 } else { 3 });
        let classes = if i == 1 { NL | ASCII } else { NL | ASCII | CTRL | TWO | THREE };
        let (s, c) = any_str(n, classes);
        let mut m = ML::new();
        m.text(&c);
        if flip() {
            io.println(s);
        } else {
            io.wrapln(s);
        }
        want.extend_from_slice(plain(&m.v).as_bytes());
        want.push(10);
        if i == 0 && flip() {
            settle();
            check(env::out_log() == &want[..], "the output is not exactly the printed lines");
        }
    }
    drop(io);
    check(env::out_log() == &want[..], "the output is not exactly the printed lines");
}
