//! Moving through the history: C11. Completion: C12.
use crate::env;
use crate::keys::*;
use crate::model::*;
use crate::rt::*;
use crate::tty::*;
use liso::*;

fn line(n: usize) -> (String, Vec<G>) {
    let (s, t) = letters(n);
    (s, t.v)
}
/// A history of `n` lines of one letter, each different from the one before.
pub fn history(n: usize) -> (History, Vec<Vec<G>>) {
    let mut h = History::new();
    h.set_strip_duplicates(false);
    let mut v = vec![];
    for _ in 0..n {
        let (s, l) = line(1);
        let _ = h.add_line(s);
        v.push(l);
    }
    (h, v)
}
fn list(h: &History) -> Vec<Vec<G>> {
    let mut v = vec![];
    for l in h.get_lines() {
        v.push(t(l).v);
    }
    v
}
/// The whole history is replaced: the input stays, and so does the line that
/// was being typed; where the user is, is the newest equal line, if any.
pub fn swap(k: &mut Keys, n: usize) {
    let (h, _) = history(n);
    let now = list(&h);
    let old = k.io.swap_history(h);
    check(list(&old).len() == k.hist.len(), "the old history is not handed back");
    for (a, b) in list(&old).iter().zip(&k.hist) {
        check(same_text(a, b), "the old history is not handed back");
    }
    k.replaced(now);
}
fn key(k: &mut Keys) {
    match pick(6) {
        0 => press(k, b"\x1b[A"),
        1 => press(k, b"\x1b[B"),
        2 => press(k, b"x"),
        3 => press(k, b"\x10"),
        4 => press(k, b"\x0e"),
        _ => press(k, b"\r"),
    }
}
/// Any keys in any history, which is replaced at any time.
#[no_mangle]
pub extern "C" fn entry_c11_swap() {
    let mut k = Keys::new(5);
    k.dups = true;
    let (h, v) = history(pick(4));
    k.io.swap_history(h);
    k.hist = v;
    settle();
    if flip() {
        press(&mut k, b"n");
    }
    for _ in 0..(if thorough() { 6 } else { 5 }) {
        match pick(4) {
            0 => press(&mut k, b"\x1b[A"),
            1 => press(&mut k, b"\x1b[B"),
            2 => press(&mut k, b"x"),
            _ => {
                let n = pick(3);
                swap(&mut k, n);
            }
        }
        k.check();
    }
    // all the way down again
    let mut n = 0;
    while k.at.is_some() || k.stray() {
        press(&mut k, b"\x0e");
        k.check();
        n += 1;
        check(n < 8, "the newest line is never reached");
    }
    k.end();
}
/// Any keys in a history that grows.
#[no_mangle]
pub extern "C" fn entry_c11_keys() {
    let mut k = Keys::new(5);
    for _ in 0..(if thorough() { 9 } else { 7 }) {
        match pick(4) {
            0 => press(&mut k, b"\x10"),
            1 => press(&mut k, b"\x0e"),
            2 => {
                let b = b'a' + below(2);
                env::feed(&[b]);
                k.ascii(b);
            }
            _ => press(&mut k, b"\r"),
        }
        settle();
    }
    k.check();
    let now = list(&k.io.read_history());
    check(now.len() == k.hist.len(), "the history is not what was typed");
    for (a, b) in now.iter().zip(&k.hist) {
        check(same_text(a, b), "the history is not what was typed");
    }
    k.end();
}
/// The input thrown away, in different ways, while moving in a history.
#[no_mangle]
pub extern "C" fn entry_c11_discard() {
    let mut k = Keys::new(5);
    k.dups = true;
    let (h, v) = history(pick(3));
    k.io.swap_history(h);
    k.hist = v;
    settle();
    for _ in 0..(if thorough() { 7 } else { 5 }) {
        match pick(6) {
            0 => press(&mut k, b"\x10"),
            1 => press(&mut k, b"\x0e"),
            2 => press(&mut k, b"x"),
            3 => press(&mut k, b"\x07"),
            4 => press(&mut k, b"\x04"),
            _ => press(&mut k, b"\x15"),
        }
    }
    k.check();
    // all the way down again
    let mut n = 0;
    while k.at.is_some() || k.stray() {
        press(&mut k, b"\x0e");
        k.check();
        n += 1;
        check(n < 8, "the newest line is never reached");
    }
    k.end();
}
/// All the way up and down a history of several lines, from any text.
#[no_mangle]
pub extern "C" fn entry_c11_round() {
    let mut k = Keys::new(6);
    k.dups = true;
    let n = pick(if thorough() { 7 } else { 5 });
    let (h, v) = history(n);
    k.io.swap_history(h);
    k.hist = v;
    settle();
    let (s, l) = line(pick(4));
    env::feed(s.as_bytes());
    for g in &l {
        k.m.key();
        k.m.type_char(g.ch, 1);
    }
    if flip() {
        press(&mut k, b"\x01");
    }
    for _ in 0..n + 1 {
        press(&mut k, b"\x1b[A");
        k.check();
    }
    let turn = if n > 0 { pick(n) } else { 0 };
    for _ in 0..turn {
        press(&mut k, b"\x1b[B");
        k.check();
    }
    match pick(3) {
        0 => press(&mut k, b"\r"),
        1 => {
            // an edited line of the history is a new line
            press(&mut k, b"e");
            press(&mut k, b"\r");
        }
        _ => {
            for _ in 0..n + 1 {
                press(&mut k, b"\x1b[B");
                k.check();
            }
            press(&mut k, b"\r");
        }
    }
    k.check();
    k.end();
}
/// A history replaced by another thread while keys arrive: nothing is lost.
#[no_mangle]
pub extern "C" fn entry_c11_race() {
    env::tty(6);
    let mut io = InputOutput::new();
    let n = pick(4);
    let (h, _) = history(n);
    io.swap_history(h);
    env::feed(b"ty");
    settle();
    static KEYS: [&[u8]; 4] = [b"\x10", b"\x10\x10", b"\x10\x10\x10", b"\x10\x10\x0e"];
    env::feed(KEYS[pick(4)]);
    settle();
    let (h, _) = history(pick(4));
    let first = flip();
    sched(if thorough() { 2 } else { 1 });
    if first {
        env::feed(if flip() { b"\x10" } else { b"\x0e" });
    }
    io.swap_history(h);
    if !first {
        env::feed(if flip() { b"\x10" } else { b"\x0e" });
    }
    settle();
    sched_off();
    // all the way down
    env::feed(&[14; 6]);
    settle();
    env::feed(b"\r");
    settle();
    check(matches!(io.try_read(), Some(Response::Input(s)) if s == "ty"), "the line being typed is lost");
    drop(io);
    check(env::cooked(), "the terminal settings are not restored");
}
/// Lines with characters that are shown in another way.
#[no_mangle]
pub extern "C" fn entry_c11_odd() {
    let mut k = Keys::new(6);
    let mut h = History::new();
    static ODD: [&str; 6] = ["\u{1}", "a\u{1b}b", "\u{7f}", "字", "a\u{301}", "\u{85}x"];
    let s = ODD[pick(6)];
    let _ = h.add_line(s.to_string());
    k.io.swap_history(h);
    k.io.prompt("$", true, false);
    settle();
    env::feed(b"\x10");
    settle();
    k.m.prompt = t("$");
    // what is shown
    let cs: Vec<char> = s.chars().collect();
    // (whether the cursor stops at a control character is left open)
    let mut i = cs.len();
    for _ in 0..pick(3) {
        let mut j = i;
        while j > 0 {
            j -= 1;
            if (cs[j] as u32) < 32 || (127..0xa0).contains(&(cs[j] as u32)) {
                return;
            }
            if j == 0 || crate::screen::width_of(cs[j] as u32) > 0 {
                break;
            }
        }
        i = j;
        env::feed(b"\x02");
    }
    if flip() {
        i = 0;
        env::feed(b"\x01");
    }
    settle();
    let mut shown = T::new();
    let mut cur = 0;
    for (j, c) in cs.iter().enumerate() {
        if j == i {
            cur = shown.v.len();
        }
        caret(&mut shown, *c as u32);
    }
    if i == cs.len() {
        cur = shown.v.len();
    }
    k.m.input = shown;
    k.m.cursor = cur;
    k.m.check();
    env::feed(b"\r");
    settle();
    check(matches!(k.io.try_read(), Some(Response::Input(l)) if l == s), "a line of the history is not delivered as it is");
}
pub fn caret(m: &mut T, c: u32) {
    use crate::screen::INVERSE;
    let plain = m.cur;
    match c {
        0..=31 => {
            m.cur ^= INVERSE;
            m.push(94, 1);
            m.push(c ^ 64, 1);
            m.cur = plain;
        }
        127..=0x9f => {
            m.cur ^= INVERSE;
            m.push(85, 1);
            m.push(43, 1);
            m.push(48, 1);
            m.push(48, 1);
            for i in [4u32, 0] {
                let d = c >> i & 15;
                m.push(if d < 10 { 48 + d } else { 55 + d }, 1);
            }
            m.cur = plain;
        }
        _ => m.push(c, crate::screen::width_of(c) as u8),
    }
}

// ------------------------------------------------------------------
// C12

/// What a completor was asked.
struct Asked {
    who: usize,
    input: String,
    cursor: usize,
    n: u32,
}
static mut ASKED: Vec<Asked> = Vec::new();
static mut ANSWERS: Vec<Answer> = Vec::new();
#[allow(static_mut_refs)]
fn asked() -> &'static mut Vec<Asked> {
    unsafe { &mut ASKED }
}
#[allow(static_mut_refs)]
pub fn answers() -> &'static mut Vec<Answer> {
    unsafe { &mut ANSWERS }
}
struct Comp(usize);
impl Completor for Comp {
    fn complete(&mut self, output: &Output, input: &str, cursor: usize, n: std::num::NonZeroU32) -> Option<Completion> {
        asked().push(Asked { who: self.0, input: input.to_string(), cursor, n: n.get() });
        if answers().is_empty() {
            return None;
        }
        match answers().remove(0) {
            Answer::Nothing => None,
            Answer::Says(s, _) => {
                output.println(s);
                None
            }
            Answer::Notes(s, _) => {
                output.notice(s, std::time::Duration::from_secs(1));
                None
            }
            Answer::Insert(s, _) => Some(Completion::InsertAtCursor { text: s }),
            Answer::Replace(s, v, at) => {
                let mut c = 0;
                for g in &v[..at] {
                    c += char::from_u32(g.ch).unwrap_or('?').len_utf8();
                }
                Some(Completion::ReplaceWholeLine { new_line: s, new_cursor: c })
            }
        }
    }
}
/// One Tab, answered somehow.
pub fn tab(k: &mut Keys, kinds: usize) {
    static TEXT: [&str; 4] = ["", "é", "字", "cd"];
    if k.completor.is_some() && k.m.allowed {
        let a = match pick(kinds) {
            0 => Answer::Nothing,
            1 => {
                let (s, l) = line(1);
                Answer::Insert(s, l)
            }
            2 => {
                let s = TEXT[pick(4)];
                Answer::Insert(s.to_string(), t(s).v)
            }
            3 => {
                let s = TEXT[pick(4)];
                let v = t(s).v;
                let at = pick(v.len() + 1);
                Answer::Replace(s.to_string(), v, at)
            }
            4 => {
                let (s, l) = line(2);
                let at = pick(3);
                Answer::Replace(s, l, at)
            }
            5 => Answer::Says("say".to_string(), t("say")),
            _ => Answer::Notes("no".to_string(), t("no")),
        };
        answers().push(a.clone());
        k.answer = Some(a);
    }
    press(k, b"\t");
    settle();
    k.check();
    calls(k);
}
/// Exactly the calls that are due have been made.
pub fn calls(k: &mut Keys) {
    let due = core::mem::take(&mut k.calls);
    let got = core::mem::take(asked());
    check(got.len() == due.len(), "the completor is not called exactly once for a Tab");
    for (d, g) in due.iter().zip(&got) {
        check(g.who == d.who, "another completor is called");
        check(text_is(&d.text, &g.input), "the completor is not given the current input");
        check(g.cursor <= g.input.len() && g.input.is_char_boundary(g.cursor), "the completor is given a cursor within a character");
        check(codes(&g.input[..g.cursor]).len() == d.cursor, "the completor is not given the cursor");
        check(g.n == d.n, "the number of consecutive presses is wrong");
    }
}
pub fn with_completor(w: usize) -> Keys {
    let mut k = Keys::new(w);
    k.io.prompt("$", true, false);
    k.m.prompt = t("$");
    k.io.set_completor(Some(Box::new(Comp(1))));
    k.completor = Some(1);
    k.check();
    k
}
/// Tabs and other keys in any order, any answers.
#[no_mangle]
pub extern "C" fn entry_c12_tabs() {
    let mut k = with_completor(5);
    for _ in 0..(if thorough() { 4 } else { 3 }) {
        match pick(5) {
            0 => tab(&mut k, 5),
            1 => {
                let b = b'a' + below(26);
                env::feed(&[b]);
                k.ascii(b);
            }
            2 => press(&mut k, b"\x02"),
            3 => press(&mut k, b"\x7f"),
            _ => press(&mut k, b"\x1b[D"),
        }
        k.check();
    }
    press(&mut k, b"\r");
    k.check();
    calls(&mut k);
    k.end();
}
/// Every key ends a run of Tabs.
#[no_mangle]
pub extern "C" fn entry_c12_count() {
    let mut k = with_completor(6);
    env::feed(b"a");
    k.ascii(b'a');
    for _ in 0..pick(4) {
        tab(&mut k, 1);
    }
    match pick(3) {
        0 => {
            let b = any();
            assume(b < 128 && b != 27 && b != 26);
            if b == 9 {
                tab(&mut k, 1);
            } else {
                env::feed(&[b]);
                k.ascii(b);
            }
        }
        1 => {
            static C: [&[u8]; 7] = [b"\x1b[A", b"\x1b[B", b"\x1b[C", b"\x1b[D", b"\x1b[3~", b"\x1b[H", b"\x1b[F"];
            press(&mut k, C[pick(7)]);
        }
        _ => {
            env::feed(b"\x1b");
            advance_ms(50);
            k.escape();
        }
    }
    k.check();
    for _ in 0..2 {
        tab(&mut k, 1);
    }
    k.end();
}
/// Any text, any cursor, any answer.
#[no_mangle]
pub extern "C" fn entry_c12_text() {
    let mut k = with_completor(6);
    let mut s = vec![];
    let v = small_text(&mut s, pick(if thorough() { 5 } else { 4 }), &[1, 2, 4, 8, 16]);
    env::feed(&s);
    for g in &v {
        k.m.key();
        k.m.input.v.push(*g);
        k.m.cursor += 1;
    }
    for _ in 0..pick(v.len() + 1) {
        press(&mut k, b"\x02");
    }
    settle();
    tab(&mut k, 7);
    press(&mut k, b"x");
    k.check();
    tab(&mut k, 2);
    press(&mut k, b"\r");
    k.check();
    k.end();
}
/// Completors set, replaced and removed; input refused; notices.
#[no_mangle]
pub extern "C" fn entry_c12_set() {
    let mut k = with_completor(6);
    for i in 0..(if thorough() { 5 } else { 4 }) {
        match pick(5) {
            0 => tab(&mut k, 2),
            1 => {
                k.io.set_completor(None);
                k.completor = None;
            }
            2 => {
                k.io.set_completor(Some(Box::new(Comp(2 + i))));
                k.completor = Some(2 + i);
            }
            3 => {
                k.m.allowed = flip();
                k.io.prompt("$", k.m.allowed, false);
            }
            _ => {
                k.io.notice("n", std::time::Duration::from_secs(1));
                k.m.notice = Some(t("n"));
            }
        }
        if flip() {
            k.check();
        }
    }
    k.check();
    k.end();
}
