//! C09 and C10: the history list and its file.
use crate::env;
use crate::model::*;
use crate::rt::*;
use liso::{History, InputOutput};
use std::io;
use std::num::NonZeroUsize;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

// ------------------------------------------------------------------
// C09

/// A line over a small alphabet (so that duplicates are likely): its length
/// and characters are symbolic choices.
fn small_line(n: usize) -> String {
    let mut v = Vec::new();
    for i in 0..n {
        v.push(if i == 0 { b'a' + below(3) } else { b'x' });
    }
    string(v)
}
fn nz(n: usize) -> Option<NonZeroUsize> {
    NonZeroUsize::new(n)
}
fn same_lines(h: &History, m: &[String]) -> bool {
    let l = h.get_lines();
    if l.len() != m.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..m.len() {
        let (a, b) = (l[i].as_bytes(), m[i].as_bytes());
        if a.len() != b.len() {
            return false;
        }
        for j in 0..a.len() {
            ok &= a[j] == b[j];
        }
    }
    ok
}
fn model_add(m: &mut Vec<String>, l: String, limit: usize, strip: bool) {
    if strip {
        m.retain(|x| *x != l);
    }
    m.push(l);
    if limit > 0 && m.len() > limit {
        let n = m.len() - limit;
        m.drain(..n);
    }
}
/// Adding lines under any options, changed at any time.
#[no_mangle]
pub extern "C" fn entry_c09_add() {
    let mut h = if flip() { History::new() } else { History::default() };
    let mut m: Vec<String> = Vec::new();
    let (mut limit, mut strip) = (100, true);
    let n = if thorough() { 5 } else { 4 };
    for i in 0..n {
        match pick(if i > 0 { 4 } else { 3 }) {
            0 => {
                limit = pick(4);
                h.set_limit(nz(limit));
                check(same_lines(&h, &m), "set_limit changes the lines at once");
            }
            1 => {
                strip = !strip;
                h.set_strip_duplicates(strip);
                check(same_lines(&h, &m), "set_strip_duplicates changes the lines at once");
            }
            _ => (),
        }
        let l = small_line(if i == 0 { pick(3) } else { 1 });
        let r = h.add_line(l.clone());
        check(r.is_ok(), "add_line fails without a handler");
        model_add(&mut m, l, limit, strip);
        check(same_lines(&h, &m), "the history does not hold exactly the newest lines, in order");
    }
    for l in h.get_lines() {
        observe(l.len() as u64);
    }
    cover(h.get_lines().len() as u32);
}
/// The default limit.
#[no_mangle]
pub extern "C" fn entry_c09_limit() {
    let mut h = History::new();
    let mut m: Vec<String> = Vec::new();
    let limit = [0, 1, 2, 99, 100, 101][pick(6)];
    let set = flip();
    if set {
        h.set_limit(nz(limit));
    }
    let lim = if set { limit } else { 100 };
    let dup = pick(103);
    for i in 0..104 {
        // every line is different, but for one repetition
        let k = if i == 103 { dup } else { i };
        let l = string(vec![b'0' + (k / 10) as u8, b'0' + (k % 10) as u8]);
        let _ = h.add_line(l.clone());
        model_add(&mut m, l, lim, true);
    }
    check(same_lines(&h, &m), "the history does not hold exactly the newest lines, in order");
    cover(1);
}

static CALLS: AtomicUsize = AtomicUsize::new(0);
static SIZE: AtomicUsize = AtomicUsize::new(0);
static FAIL: AtomicUsize = AtomicUsize::new(0);
fn handler(h: &History) -> io::Result<()> {
    CALLS.fetch_add(1, Relaxed);
    SIZE.store(h.get_lines().len(), Relaxed);
    if FAIL.load(Relaxed) != 0 {
        return Err(io::Error::from_raw_os_error(28));
    }
    Ok(())
}
/// The handler runs after every so many lines, and when the history is
/// dropped; its errors reach the caller.
#[no_mangle]
pub extern "C" fn entry_c09_autosave() {
    let mut h = History::new();
    let mut interval = pick(4);
    let mut with = pick(3);
    if with > 0 {
        h.set_autosave_handler(Some(Box::new(handler)));
    }
    h.set_autosave_interval(nz(interval));
    if with == 2 {
        h.set_autosave_handler(None);
    }
    let n = if thorough() { 7 } else { 5 };
    let mut calls = 0;
    let mut since = 0;
    let mut unsaved = false;
    let total = pick(n);
    let change = if flip() { pick(total + 1) } else { n };
    for i in 0..=total {
        if i == change {
            match pick(5) {
                4 => {
                    with = 1 - with.min(1);
                    h.set_autosave_handler(match with {
                        1 => Some(Box::new(handler)),
                        _ => None,
                    });
                }
                v => {
                    if v == 0 {
                        // (lines are not counted without an interval)
                        since = 0;
                    }
                    interval = v;
                    h.set_autosave_interval(nz(v));
                }
            }
        }
        if i == total {
            break;
        }
        let fail = flip();
        FAIL.store(fail as usize, Relaxed);
        let r = h.add_line(string(vec![b'a' + i as u8]));
        unsaved = true;
        let mut saved = false;
        if interval > 0 {
            since += 1;
            // (it might have become shorter)
            if since >= interval {
                since = 0;
                saved = with == 1;
            }
        }
        check(r.is_err() == (saved && fail), "add_line does not report exactly the failures of saving");
        check(h.get_lines().len() == i + 1, "the line was not added");
        if saved {
            calls += 1;
            unsaved = fail;
            check(SIZE.load(Relaxed) == i + 1, "saved without the line just added");
        }
        check(CALLS.load(Relaxed) == calls, "autosave does not run exactly at its interval");
    }
    observe(calls as u64);
    FAIL.store(0, Relaxed);
    drop(h);
    let c = CALLS.load(Relaxed);
    observe(c as u64);
    if with == 1 && unsaved {
        check(c == calls + 1, "dropping a history does not save its unsaved lines exactly once");
        check(SIZE.load(Relaxed) == total, "dropping saves something else than all lines");
    } else if with == 1 {
        check(c <= calls + 1, "dropping saves more than once");
    } else {
        check(c == calls, "a handler that was never set, or was removed, runs");
    }
    cover(1);
}

// ------------------------------------------------------------------
// C10

fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|x| x.to_string()).collect()
}
fn ld() -> io::Result<History> {
    History::from_file("h")
}
/// Lines of any text come back as they were.
#[no_mangle]
pub extern "C" fn entry_c10_roundtrip() {
    let mut h = History::new();
    h.set_strip_duplicates(false);
    let n = pick(if thorough() { 4 } else { 3 });
    let mut m = Vec::new();
    for i in 0..n {
        // (a line cannot contain a newline, end in CR or start with a BOM)
        let k = pick(if i == 0 { 4 } else { 2 });
        let classes = if i == 0 { ASCII | CTRL | TWO | THREE | FOUR } else { ASCII | CTRL | THREE };
        let (s, v) = any_str(k, classes);
        for c in &v {
            assume(*c != 10);
        }
        if let Some(c) = v.last() {
            assume(*c != 13);
        }
        if let Some(c) = v.first() {
            assume(i > 0 || *c != 0xfeff);
        }
        let _ = h.add_line(s.clone());
        m.push(s);
    }
    check(h.write_history_to("f").is_ok(), "write_history_to fails");
    let mut g = History::new();
    match g.read_history_from("f") {
        Ok(k) => check(k == n, "read_history_from miscounts"),
        Err(_) => check(false, "a saved history cannot be read"),
    }
    check(same_lines(&g, &m), "a history does not read back as it was written");
    if n > 0 {
        env::fs_put(b"h", env::fs_get(b"f").unwrap());
        match ld() {
            Ok(h) => check(same_lines(&h, &m), "from_file does not read the file"),
            Err(_) => check(false, "from_file fails"),
        }
    }
    for b in env::fs_get(b"f").unwrap() {
        observe(*b as u64);
    }
    cover(n as u32);
}
/// A history bound to a file is saved at its interval and when dropped,
/// whether or not the file existed.
#[no_mangle]
pub extern "C" fn entry_c10_bound() {
    let old = pick(3);
    let mut m = Vec::new();
    match old {
        1 => env::fs_put(b"h", b""),
        2 => {
            env::fs_put(b"h", b"one\ntwo\n");
            m = strs(&["one", "two"]);
        }
        _ => (),
    }
    let mut h = match ld() {
        Ok(h) => h,
        Err(_) => {
            check(false, "from_file fails");
            return;
        }
    };
    check(same_lines(&h, &m), "from_file does not read the file");
    let interval = pick(3);
    h.set_autosave_interval(nz(interval));
    let n = pick(4);
    let mut on_file = m.clone();
    for i in 0..n {
        let l = string(vec![b'a' + below(2), b'0' + i as u8]);
        check(h.add_line(l.clone()).is_ok(), "saving fails");
        model_add(&mut m, l, 100, true);
        if interval > 0 && (i + 1) % interval == 0 {
            on_file = m.clone();
        }
        let g = History::from_file("h");
        match g {
            Ok(g) => check(same_lines(&g, &on_file), "the file does not hold what the interval demands"),
            Err(_) => check(false, "from_file fails"),
        }
    }
    drop(h);
    match ld() {
        Ok(g) => check(same_lines(&g, &m), "dropping the history did not save it"),
        Err(_) => check(false, "from_file fails"),
    }
    if n > 0 {
        check(env::fs_get(b"h").is_some(), "the file was not created");
    }
    check(env::fs_names() == if n > 0 || old > 0 { 1 } else { 0 }, "auxiliary files are left behind");
    observe(env::fs_names() as u64);
    cover(1);
}
/// One life of the program: open the file, add a line (saved at once) and
/// perhaps another, with a crash or fault at some operation. Returns false
/// if something that cannot be told from a crash happened.
fn life(tag: u8, fault: usize, k: usize, m: &mut Vec<String>) {
    let mut h = match ld() {
        Ok(h) => h,
        Err(_) => {
            check(false, "from_file fails though nothing is wrong");
            return;
        }
    };
    check(same_lines(&h, m), "from_file does not read what was saved");
    h.set_autosave_interval(nz(1));
    let existed = env::fs_get(b"h").is_some();
    if fault == 1 {
        env::fs_crash_at(k);
    } else if fault == 2 {
        env::fs_fail_at(k);
    }
    let before = m.clone();
    let mut states = vec![before];
    let mut broke = false;
    let mut last = true;
    for i in 0..2 {
        let l = string(vec![tag, b'0' + i]);
        let ok = h.add_line(l.clone()).is_ok();
        let mut s = states[states.len() - 1].clone();
        model_add(&mut s, l, 100, true);
        let hit = env::fs_crashed() || env::fs_failed();
        if hit && !broke {
            broke = true;
            // the failing operation may be one that does not matter
            if ok {
                states.clear();
            }
            states.push(s);
        } else if broke {
            // a crash: nothing more happens; a fault: may go on failing
            if ok {
                states.clear();
            }
            states.push(s);
        } else {
            check(ok, "saving fails though nothing is wrong");
            states.clear();
            states.push(s);
        }
        last = ok;
        if env::fs_crashed() {
            break;
        }
    }
    observe(last as u64);
    if env::fs_crashed() {
        std::mem::forget(h);
    } else {
        // saves again, unless nothing is unsaved
        let l = states[states.len() - 1].clone();
        states.push(l);
        drop(h);
    }
    let lose = fault == 1 && flip();
    env::fs_recover(lose);
    if existed {
        // (not just an auxiliary file)
        let mut g = History::new();
        match g.read_history_from("h") {
            Ok(_) => {
                let mut found = false;
                for s in &states {
                    found |= same_lines(&g, s);
                }
                check(found, "after an interrupted save the file itself holds neither the old nor the new lines");
            }
            Err(_) => check(false, "after an interrupted save there is no file"),
        }
    }
    match ld() {
        Ok(g) => {
            let mut found = false;
            for s in &states {
                if same_lines(&g, s) {
                    found = true;
                    *m = s.clone();
                }
            }
            observe(g.get_lines().len() as u64);
            std::mem::forget(g);
            check(found, "after an interrupted save the file holds neither the old nor the new lines");
        }
        Err(_) => check(false, "after an interrupted save the file cannot be read"),
    }
}
fn lives(n: usize, starts: usize) {
    let mut m = Vec::new();
    match pick(starts) {
        1 => {
            env::fs_put(b"h", b"one\ntwo\n");
            m = strs(&["one", "two"]);
        }
        2 => {
            // left over from an earlier interruption
            env::fs_put(b"h~", b"one\n");
            m = strs(&["one"]);
        }
        _ => (),
    }
    for i in 0..n {
        let fault = pick(3);
        // (decided only when that operation happens)
        let k = if fault == 0 { 0 } else { below(60) as usize };
        life(b'p' + i as u8, fault, k, &mut m);
    }
    life(b'z', 0, 0, &mut m);
    cover(1);
}
/// A crash or fault at every operation of a save.
#[no_mangle]
pub extern "C" fn entry_c10_crash() {
    lives(1, 3);
}
/// Two of them in a row.
#[no_mangle]
pub extern "C" fn entry_c10_crash2() {
    lives(2, if thorough() { 3 } else { 1 });
}
/// A save of more than fits in any buffer, with a fault or crash anywhere.
#[no_mangle]
pub extern "C" fn entry_c10_long() {
    env::fs_put(b"h", b"one\n");
    let fault = pick(3);
    let k = if fault == 0 { 0 } else { below(60) as usize };
    let mut h = match ld() {
        Ok(h) => h,
        Err(_) => return check(false, "from_file fails"),
    };
    if flip() {
        env::short_writes(1000);
    }
    let mut m = strs(&["one"]);
    h.set_autosave_interval(nz(3));
    if fault == 1 {
        env::fs_crash_at(k);
    } else if fault == 2 {
        env::fs_fail_at(k);
    }
    let mut r = true;
    let old = m.clone();
    for i in 0..3 {
        let l = string(vec![b'a' + i; 3000]);
        r &= h.add_line(l.clone()).is_ok();
        m.push(l);
    }
    let hit = env::fs_crashed() || env::fs_failed();
    check(hit || r, "saving fails though nothing is wrong");
    std::mem::forget(h);
    env::fs_recover(fault == 1 && flip());
    match ld() {
        Ok(g) => {
            if r {
                check(same_lines(&g, &m), "a save that reported success is not complete");
            } else {
                check(same_lines(&g, &m) || same_lines(&g, &old), "after a failed save the file holds neither the old nor the new lines");
            }
            observe(g.get_lines().len() as u64);
            std::mem::forget(g);
        }
        Err(_) => check(false, "after a failed save the file cannot be read"),
    }
}
/// A file that cannot be read is not taken for an empty one.
#[no_mangle]
pub extern "C" fn entry_c10_load() {
    let state = pick(5);
    match state {
        0 => env::fs_put(b"h", b"one\ntwo\n"),
        1 => {
            // as an earlier version, or a crash, might leave them
            env::fs_put(b"h", b"");
            env::fs_put(b"h~", b"one\ntwo\n");
        }
        2 => env::fs_put(b"h~", b"one\ntwo\n"),
        3 => {
            env::fs_put(b"h", b"one\ntwo\n");
            env::fs_put(b"h~", b"one\n");
            env::fs_put(b"h^", b"on");
        }
        _ => (),
    }
    // (8: nothing fails)
    env::fs_fail_read_at(pick(9) as usize);
    match ld() {
        Ok(mut h) => {
            let ok = if state == 4 { h.get_lines().is_empty() } else { same_lines(&h, &strs(&["one", "two"])) };
            check(ok, "a history that could not be read is taken for another one");
            h.set_autosave_interval(nz(1));
        }
        Err(_) => check(env::fs_failed(), "from_file fails though nothing is wrong"),
    }
    env::fs_recover(false);
    match ld() {
        Ok(h) => {
            let ok = if state == 4 { h.get_lines().is_empty() } else { same_lines(&h, &strs(&["one", "two"])) };
            check(ok, "reading a history changes it");
        }
        Err(_) => check(false, "from_file fails though nothing is wrong"),
    }
    cover(state as u32);
}
/// Writing to a file reports every failure.
#[no_mangle]
pub extern "C" fn entry_c10_write() {
    let mut h = History::new();
    let n = pick(3);
    for i in 0..n {
        let _ = h.add_line(string(vec![b'a' + i as u8; if i == 0 { 2 } else { 9000 }]));
    }
    let k = below(40) as usize;
    env::fs_fail_at(k);
    let r = h.write_history_to("f");
    if env::fs_failed() {
        check(r.is_err(), "write_history_to hides a failure");
    } else {
        check(r.is_ok(), "write_history_to fails");
    }
    observe(r.is_ok() as u64);
    if r.is_ok() {
        let mut g = History::new();
        check(g.read_history_from("f").is_ok() && same_lines(&g, h.get_lines()), "the file is not complete");
    }
    // no file, no lines
    check(h.read_history_from("nope").is_err(), "reading a missing file succeeds");
    check(h.get_lines().len() == n, "a failing read changes the history");
}

/// A history in use by an instance is saved by the time the instance is gone.
#[no_mangle]
pub extern "C" fn entry_c10_instance() {
    let pipe = flip();
    if pipe {
        env::raw(flip(), false, Some(b"xterm\0"));
    } else {
        env::tty(5);
    }
    if flip() {
        env::fs_put(b"h", b"old\n");
    }
    let mut h = History::from_file("h").unwrap();
    let mut want: Vec<u8> = env::fs_get(b"h").unwrap_or(b"").to_vec();
    if flip() {
        let c = b'a' + below(26);
        h.add_line((c as char).to_string()).unwrap();
        want.extend_from_slice(&[c, b'\n']);
    }
    let io = InputOutput::new();
    if flip() {
        settle();
    }
    drop(io.swap_history(h));
    if !pipe {
        let c = b'A' + below(26);
        env::feed(&[c, b'\r']);
        want.extend_from_slice(&[c, b'\n']);
        settle();
    }
    sched(if thorough() { 2 } else { 1 });
    crate::prompts::end(io);
    // (the program could end right here)
    sched_off();
    let got = env::fs_get(b"h").unwrap_or(b"");
    check(got == &want[..], "a history is not saved when its instance ends");
}
/// The user is told when saving the history fails, and nothing is lost.
#[no_mangle]
pub extern "C" fn entry_c10_notice() {
    use crate::{keys::{press, Keys}, tty::*};
    let mut k = Keys::new(40);
    let mut h = History::new();
    let every = 1 + pick(2);
    let fails = [flip(), flip(), flip()];
    h.set_autosave_interval(nz(every));
    static N: AtomicUsize = AtomicUsize::new(0);
    N.store(0, Relaxed);
    h.set_autosave_handler(Some(Box::new(move |_: &History| -> io::Result<()> {
        if fails[N.fetch_add(1, Relaxed) % 3] {
            Err(io::Error::new(io::ErrorKind::Other, "disk"))
        } else {
            Ok(())
        }
    })));
    k.io.swap_history(h);
    let mut said = T::new();
    said.cur = 8 << 16;
    for c in "Unable to write history: disk".bytes() {
        said.push(c as u32, 1);
    }
    let (mut lines, mut saves) = (0, 0);
    for _ in 0..(if thorough() { 4 } else { 3 }) {
        let b = b'a' + below(26);
        match pick(4) {
            0 => {
                env::feed(&[b, b'\r']);
                k.ascii(b);
                k.ascii(b'\r');
                lines += 1;
                if lines % every == 0 {
                    if fails[saves] {
                        k.m.notice = Some(said.clone());
                    }
                    saves += 1;
                }
            }
            1 => {
                env::feed(&[b]);
                k.ascii(b);
            }
            2 => press(&mut k, b"\x10"),
            _ => {
                advance_ms(3000);
                k.m.notice = None;
            }
        }
        k.check();
    }
    k.end();
}

/// Larger limits, and many more lines; any line repeated at any time; the limit lowered.
#[no_mangle]
pub extern "C" fn entry_c09_big() {
    let mut h = History::new();
    let mut m: Vec<String> = Vec::new();
    let limit = [0, 3, 64, 128, 200, 256, 300][pick(7)];
    h.set_limit(nz(limit));
    let back = if thorough() { 1 + pick(200) } else { [1, 2, 7, 40, 63, 64, 65][pick(7)] };
    let dups = flip();
    h.set_strip_duplicates(!dups);
    for i in 0..320usize {
        let k = if i % 64 == 63 { i - back.min(i) } else { i };
        let l = string(vec![b'0' + (k / 100) as u8, b'0' + (k / 10 % 10) as u8, b'0' + (k % 10) as u8]);
        let _ = h.add_line(l.clone());
        model_add(&mut m, l, limit, !dups);
    }
    check(same_lines(&h, &m), "the history does not hold exactly the newest lines, in order");
    let low = [1, 63, 150][pick(3)];
    h.set_limit(nz(low));
    let strip = flip();
    h.set_strip_duplicates(strip);
    let l = if flip() { string(vec![b'x']) } else { m[m.len() - 1 - (m.len() - 1) / 2].clone() };
    let _ = h.add_line(l.clone());
    model_add(&mut m, l, low, strip);
    check(same_lines(&h, &m), "the history does not hold exactly the newest lines, in order");
    cover(1);
}
