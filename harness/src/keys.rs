//! Keys and responses: a model of the documented line editing, and the
//! entries for C03, C04, C05.
use crate::env;
use crate::model::*;
use crate::rt::*;
use crate::tty::*;
use liso::*;
use std::time::{Duration, Instant};

/// A response that is due.
pub enum Due {
    Input(Vec<G>),
    Discarded(Vec<G>),
    Quit,
    Finish,
    Info,
    Break,
    Escape,
    Swap,
    Unknown(u8),
    Custom(u32),
}
/// What a completor answers.
#[derive(Clone)]
pub enum Answer {
    Nothing,
    Says(String, T),
    Notes(String, T),
    Insert(String, Vec<G>),
    /// the text, and the cursor in characters
    Replace(String, Vec<G>, usize),
}
/// A call of a completor that is due.
pub struct Call {
    pub who: usize,
    pub text: Vec<G>,
    pub cursor: usize,
    pub n: u32,
}
pub struct Keys {
    pub io: InputOutput,
    pub m: Model,
    pub clip: Vec<G>,
    pub due: Vec<Due>,
    pub bells: usize,
    /// the lines of the history, the place in it, and the line being typed
    pub hist: Vec<Vec<G>>,
    pub at: Option<usize>,
    pub kept: Option<Vec<G>>,
    /// the history keeps duplicates
    pub dups: bool,
    /// Tabs in a row, and what a completor is to answer
    pub tabs: u32,
    pub completor: Option<usize>,
    pub calls: Vec<Call>,
    pub answer: Option<Answer>,
    /// control-G on an empty line may or may not be reported
    pub empty_discards: usize,
    pub suspends: usize,
}
fn is_space(g: &G) -> bool {
    g.ch == 32 || g.ch == 0xa0 || g.ch == 0x3000
}
impl Keys {
    pub fn new(w: usize) -> Keys {
        env::tty(w as u16);
        Keys::on(w)
    }
    pub fn on(w: usize) -> Keys {
        Keys {
            io: InputOutput::new(),
            m: Model::new(w),
            clip: vec![],
            due: vec![],
            bells: 0,
            hist: vec![],
            at: None,
            kept: None,
            dups: false,
            tabs: 0,
            completor: None,
            calls: vec![],
            answer: None,
            empty_discards: 0,
            suspends: 0,
        }
    }
    fn set(&mut self, v: Vec<G>) {
        self.m.cursor = v.len();
        self.m.input.v = v;
    }
    pub fn forget(&mut self) {
        self.at = None;
        self.kept = None;
    }
    pub fn left(&mut self) {
        let m = &mut self.m;
        while m.cursor > 0 {
            m.cursor -= 1;
            if m.input.v[m.cursor].wd > 0 {
                break;
            }
        }
    }
    pub fn right(&mut self) {
        let m = &mut self.m;
        while m.cursor < m.input.v.len() {
            m.cursor += 1;
            if m.cursor == m.input.v.len() || m.input.v[m.cursor].wd > 0 {
                break;
            }
        }
    }
    pub fn backspace(&mut self) {
        let e = self.m.cursor;
        self.left();
        self.m.input.v.drain(self.m.cursor..e);
    }
    pub fn delete(&mut self) {
        let b = self.m.cursor;
        self.right();
        self.m.input.v.drain(b..self.m.cursor);
        self.m.cursor = b;
    }
    pub fn delete_word(&mut self) {
        let e = self.m.cursor;
        let mut word = false;
        while self.m.cursor > 0 {
            let b = self.m.cursor;
            self.left();
            let sp = is_space(&self.m.input.v[self.m.cursor]);
            if sp && word {
                self.m.cursor = b;
                break;
            }
            word |= !sp;
        }
        self.m.input.v.drain(self.m.cursor..e);
    }
    pub fn submit(&mut self) {
        let v = core::mem::take(&mut self.m.input.v);
        self.m.cursor = 0;
        self.forget();
        let mut k = vec![];
        for l in self.hist.drain(..) {
            if self.dups || !same_text(&l, &v) {
                k.push(l);
            }
        }
        self.hist = k;
        self.hist.push(v.clone());
        self.due.push(Due::Input(v));
    }
    pub fn older(&mut self) {
        let n = match self.at {
            None => self.hist.len(),
            Some(k) => k,
        };
        if n == 0 {
            self.bells += 1;
            return;
        }
        if self.kept.is_none() {
            self.kept = Some(self.m.input.v.clone());
        }
        self.at = Some(n - 1);
        self.set(self.hist[n - 1].clone());
    }
    pub fn newer(&mut self) {
        match self.at {
            Some(k) if k + 1 < self.hist.len() => {
                self.at = Some(k + 1);
                self.set(self.hist[k + 1].clone());
            }
            _ => match self.kept.take() {
                None => self.bells += 1,
                Some(v) => {
                    self.set(v);
                    self.at = None;
                }
            },
        }
    }
    /// The history is another one now. The user stays at the newest line
    /// equal to the one visited; if there is none, before the newest.
    pub fn replaced(&mut self, now: Vec<Vec<G>>) {
        if let Some(k) = self.at {
            self.at = None;
            for i in 0..now.len() {
                if same_text(&now[i], &self.hist[k]) {
                    self.at = Some(i);
                }
            }
        }
        self.hist = now;
    }
    /// Away from the line being typed.
    pub fn stray(&self) -> bool {
        self.kept.is_some()
    }
    /// What one byte below 128 does (not escape).
    pub fn ascii(&mut self, b: u8) {
        if !self.m.key() {
            return;
        }
        self.tabs = if b == 9 { self.tabs + 1 } else { 0 };
        match b {
            1 => self.m.cursor = 0,
            2 => self.left(),
            3 => self.due.push(Due::Quit),
            4 => {
                if self.m.input.v.is_empty() {
                    self.due.push(Due::Finish)
                } else {
                    self.set(vec![]);
                    self.forget();
                }
            }
            5 => self.m.cursor = self.m.input.v.len(),
            6 => self.right(),
            7 => {
                let v = core::mem::take(&mut self.m.input.v);
                self.m.cursor = 0;
                self.forget();
                if v.is_empty() {
                    self.empty_discards += 1;
                }
                self.due.push(Due::Discarded(v));
            }
            8 | 127 => self.backspace(),
            9 => self.complete(),
            10 | 13 => self.submit(),
            11 => {
                if self.m.cursor < self.m.input.v.len() {
                    self.clip = self.m.input.v.split_off(self.m.cursor);
                }
            }
            12 => {
                // the display is cleared; what was printed is gone
                self.m.out.clear();
                self.m.base.clear();
            }
            14 => self.newer(),
            16 => self.older(),
            20 => self.due.push(Due::Info),
            21 => {
                if self.m.cursor > 0 {
                    self.clip = self.m.input.v.drain(..self.m.cursor).collect();
                    self.m.cursor = 0;
                }
            }
            23 => self.delete_word(),
            24 => self.due.push(Due::Swap),
            25 => {
                for g in self.clip.clone() {
                    self.m.input.v.insert(self.m.cursor, g);
                    self.m.cursor += 1;
                }
            }
            26 => {
                self.suspends += 1;
                self.m.stop();
            }
            28 => self.due.push(Due::Break),
            0..=31 => self.due.push(Due::Unknown(b)),
            _ => self.m.type_char(b as u32, 1),
        }
    }
    fn complete(&mut self) {
        let Some(who) = self.completor else {
            return;
        };
        self.calls.push(Call { who, text: self.m.input.v.clone(), cursor: self.m.cursor, n: self.tabs });
        match self.answer.take() {
            None | Some(Answer::Nothing) => (),
            Some(Answer::Says(_, t)) => self.m.out.push(t),
            Some(Answer::Notes(_, t)) => self.m.notice = Some(t),
            Some(Answer::Insert(_, v)) => {
                for g in v {
                    self.m.input.v.insert(self.m.cursor, g);
                    self.m.cursor += 1;
                }
            }
            Some(Answer::Replace(_, v, at)) => {
                self.m.input.v = v;
                self.m.cursor = at;
            }
        }
    }
    pub fn escape(&mut self) {
        if self.m.key() {
            self.tabs = 0;
            self.due.push(Due::Escape);
        }
    }
    /// One of the keys that send ESC [ ...
    pub fn csi(&mut self, k: &[u8]) {
        if !self.m.key() {
            return;
        }
        self.tabs = 0;
        match k {
            b"A" => self.older(),
            b"B" => self.newer(),
            b"C" => self.right(),
            b"D" => self.left(),
            b"H" => self.m.cursor = 0,
            b"F" => self.m.cursor = self.m.input.v.len(),
            b"3~" => self.delete(),
            _ => (),
        }
    }
    /// Exactly the responses that are due arrive, in order.
    pub fn responses(&mut self) {
        let due = core::mem::take(&mut self.due);
        let mut next = self.io.try_read();
        for d in &due {
            if let Due::Discarded(v) = d {
                if v.is_empty() && !matches!(next, Some(Response::Discarded(_))) {
                    continue;
                }
            }
            let ok = match (d, &next) {
                (Due::Input(v), Some(Response::Input(s))) => text_is(v, s),
                (Due::Discarded(v), Some(Response::Discarded(s))) => text_is(v, s),
                (Due::Quit, Some(Response::Quit)) => true,
                (Due::Finish, Some(Response::Finish)) => true,
                (Due::Info, Some(Response::Info)) => true,
                (Due::Break, Some(Response::Break)) => true,
                (Due::Escape, Some(Response::Escape)) => true,
                (Due::Swap, Some(Response::Swap)) => true,
                (Due::Unknown(a), Some(Response::Unknown(b))) => a == b,
                (Due::Custom(a), Some(Response::Custom(b))) => b.downcast_ref::<u32>() == Some(a),
                _ => false,
            };
            check(ok, "a key does not deliver exactly its documented response");
            let code = match d {
                Due::Input(_) => Some(10),
                Due::Discarded(_) => Some(7),
                Due::Quit => Some(3),
                Due::Finish => Some(4),
                Due::Info => Some(20),
                Due::Break => Some(28),
                Due::Escape => Some(27),
                Due::Swap => Some(24),
                Due::Unknown(x) => Some(*x),
                Due::Custom(_) => None,
            };
            let same = next.as_ref().map(|x| x.as_unknown()) == code || code.is_none();
            check(same, "a response does not tell which key it was");
            next = self.io.try_read();
        }
        check(next.is_none(), "something is delivered that nobody typed");
    }
    pub fn check(&mut self) {
        settle();
        self.m.check();
        self.responses();
        check(env::screen().bells == self.bells, "the bell is rung when and only when there is nothing to do");
    }
    pub fn end(self) {
        let Keys { io, m, .. } = self;
        drop(io);
        m.check_bare(env::screen());
        check(env::cooked(), "the terminal settings are not restored");
        observe_screen();
    }
}
pub fn same_text(a: &[G], b: &[G]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i].ch == b[i].ch;
    }
    ok
}
pub fn text_is(v: &[G], s: &str) -> bool {
    let c = codes(s);
    if c.len() != v.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..c.len() {
        ok &= c[i] == v[i].ch;
    }
    ok
}
/// Type one symbolic character of one of these classes: its bytes.
pub fn any_key(s: &mut Vec<u8>, classes: u8) -> G {
    let n0 = s.len();
    let c = any_char(s, classes);
    let n = s.len() - n0;
    // U+00C0..U+00FF, U+0300.., U+4E00..
    let wd = if n == 2 && s[n0] == 0xcc {
        0
    } else if n == 3 && s[n0] == 0xe4 {
        2
    } else {
        1
    };
    G { ch: c, attr: 0, wd }
}

// ------------------------------------------------------------------
// C03

/// Text of `n` characters; `kinds`: 1 letter, 2 space, 4 wide, 8 two-byte, 16 mark
/// (17: possibly at the start), 32 ideographic space
pub fn small_text(s: &mut Vec<u8>, n: usize, kinds: &[u8]) -> Vec<G> {
    let mut v: Vec<G> = vec![];
    for i in 0..n {
        let k = kinds[pick(kinds.len())];
        if k == 1 {
            let b = b'a' + below(26);
            s.push(b);
            v.push(G { ch: b as u32, attr: 0, wd: 1 });
            continue;
        }
        let (b, ch, wd): (&[u8], u32, u8) = match k {
            2 => (b" ", 32, 1),
            4 => ("字".as_bytes(), '字' as u32, 2),
            8 => ("é".as_bytes(), 'é' as u32, 1),
            32 => ("\u{3000}".as_bytes(), 0x3000, 2),
            _ => ("\u{301}".as_bytes(), 0x301, 0),
        };
        if k == 16 {
            assume(i > 0);
        }
        s.extend_from_slice(b);
        v.push(G { ch, attr: 0, wd });
    }
    v
}
static EDIT: [&[u8]; 16] = [
    b"x", b"\x01", b"\x02", b"\x05", b"\x06", b"\x08", b"\x7f", b"\x0b", b"\x15", b"\x17", b"\x19", b"\x1b[C", b"\x1b[D", b"\x1b[3~", b"\x1b[H", b"\x1b[F",
];
pub fn press(k: &mut Keys, b: &'static [u8]) {
    env::feed(b);
    if b[0] == 27 {
        k.csi(&b[2..]);
    } else {
        k.ascii(b[0]);
    }
}
/// Any text, any cursor position, any editing keys.
#[no_mangle]
pub extern "C" fn entry_c03_edit() {
    let mut k = Keys::new(10);
    let n = if thorough() { 4 } else { 3 };
    let mut s = vec![];
    let v = small_text(&mut s, n, &[1, 2, 4]);
    env::feed(&s);
    k.m.input.v = v;
    k.m.cursor = n;
    k.check();
    let back = pick(n + 1);
    for _ in 0..back {
        press(&mut k, b"\x02");
    }
    for _ in 0..2 {
        press(&mut k, EDIT[pick(16)]);
        k.check();
    }
    press(&mut k, b"\x19");
    k.check();
    press(&mut k, b"\r");
    k.check();
    k.end();
}
/// The same with combining characters and two-byte characters.
#[no_mangle]
pub extern "C" fn entry_c03_marks() {
    let mut k = Keys::new(10);
    k.io.prompt("$", true, false);
    k.m.prompt = t("$");
    let n = if thorough() { 5 } else { 4 };
    let mut s = vec![];
    let v = small_text(&mut s, n, &[1, 2, 8, 17, 32]);
    env::feed(&s);
    k.m.input.v = v;
    k.m.cursor = n;
    k.check();
    let back = pick(n);
    for _ in 0..back {
        press(&mut k, b"\x02");
    }
    press(&mut k, EDIT[pick(16)]);
    k.check();
    press(&mut k, b"\r");
    k.check();
    k.end();
}
/// The input spanning several rows of the terminal.
#[no_mangle]
pub extern "C" fn entry_c03_rows() {
    let w = 3;
    let mut k = Keys::new(w);
    k.io.prompt("> ", true, false);
    k.m.prompt = t("> ");
    let n = pick(if thorough() { 6 } else { 5 });
    let mut s = vec![];
    for _ in 0..n {
        let b = b'a' + below(2);
        s.push(b);
        k.m.type_char(b as u32, 1);
    }
    if n > 0 {
        env::feed(&s);
    }
    k.check();
    let back = pick(n + 1);
    for _ in 0..back {
        press(&mut k, b"\x02");
    }
    for _ in 0..2 {
        press(&mut k, EDIT[pick(11)]);
        k.check();
    }
    k.end();
}

// ------------------------------------------------------------------
// C05

/// Any keys after any text: exactly their responses.
#[no_mangle]
pub extern "C" fn entry_c05_keys() {
    let mut k = Keys::new(6);
    k.io.prompt("$", true, false);
    k.m.prompt = t("$");
    for _ in 0..pick(3) {
        let b = b'a' + below(26);
        env::feed(&[b]);
        k.ascii(b);
    }
    if flip() {
        press(&mut k, b"\x02");
    }
    settle();
    let n = if thorough() { 3 } else { 2 };
    let together = flip();
    let mut s = vec![];
    for _ in 0..n {
        let b = any();
        assume(b < 128 && b != 27);
        s.push(b);
        k.ascii(b);
        if !together {
            env::feed(&[b]);
            k.check();
        }
    }
    if together {
        env::feed(&s);
        k.check();
    }
    if flip() {
        env::feed(b"\x1b");
        advance_ms(50);
        k.escape();
        k.check();
    }
    k.end();
}
/// Longer runs of the keys that are reported, read together.
#[no_mangle]
pub extern "C" fn entry_c05_queue() {
    let mut k = Keys::new(6);
    static R: [u8; 12] = [3, 4, 7, 13, 20, 24, 28, 0, 15, 31, b'a', 10];
    let n = if thorough() { 5 } else { 4 };
    let mut s = vec![];
    for _ in 0..n {
        let b = R[pick(12)];
        s.push(b);
        k.ascii(b);
    }
    if flip() {
        env::feed(&s);
    } else {
        for b in &s {
            env::feed(&[*b]);
        }
    }
    k.check();
    k.end();
}
/// Values sent from clones, between keys.
#[no_mangle]
pub extern "C" fn entry_c05_custom() {
    let mut k = Keys::new(6);
    #[allow(deprecated)]
    let a = k.io.clone_sender();
    let b = a.clone();
    for i in 0..(if thorough() { 7 } else { 5 }) {
        match pick(6) {
            0 => {
                k.io.send_custom(100u32 + i);
                k.due.push(Due::Custom(100 + i));
            }
            1 => {
                a.send_custom(200u32 + i);
                k.due.push(Due::Custom(200 + i));
            }
            2 => {
                b.send_custom_box(Box::new(300u32 + i));
                k.due.push(Due::Custom(300 + i));
            }
            3 => {
                let v = below(200) as u32;
                liso::output().send_custom(v);
                k.due.push(Due::Custom(v));
            }
            4 => press(&mut k, b"\x14"),
            _ => press(&mut k, b"x"),
        }
        // keys and values come by different ways
        settle();
    }
    press(&mut k, b"\r");
    k.check();
    k.end();
}
/// Every way of reading gives the same responses.
#[no_mangle]
pub extern "C" fn entry_c05_read() {
    let mut k = Keys::new(6);
    static R: [u8; 4] = [3, 20, 13, 24];
    let mut s = vec![];
    for _ in 0..2 {
        let b = R[pick(4)];
        s.push(b);
        k.ascii(b);
    }
    let late = flip();
    if !late {
        env::feed(&s);
        settle();
    }
    let due = core::mem::take(&mut k.due);
    for (i, d) in due.iter().enumerate() {
        if late {
            env::feed(&s[i..i + 1]);
        }
        let how = pick(6);
        let r = match how {
            #[allow(deprecated)]
            5 => k.io.blocking_read(),
            0 => {
                settle();
                k.io.try_read().unwrap()
            }
            1 => k.io.read_blocking(),
            2 => k.io.read_timeout(Duration::from_secs(5)).unwrap(),
            3 => k.io.read_deadline(Instant::now() + Duration::from_secs(5)).unwrap(),
            _ => wait(k.io.read_async()),
        };
        let ok = match (d, &r) {
            (Due::Input(v), Response::Input(s)) => text_is(v, s),
            (Due::Quit, Response::Quit) => true,
            (Due::Info, Response::Info) => true,
            (Due::Swap, Response::Swap) => true,
            _ => false,
        };
        check(ok, "a key does not deliver exactly its documented response");
    }
    // and nothing more
    let r = match pick(3) {
        0 => k.io.try_read(),
        1 => k.io.read_timeout(Duration::from_millis(10)),
        _ => k.io.read_deadline(Instant::now() + Duration::from_millis(10)),
    };
    check(r.is_none(), "something is delivered that nobody typed");
    env::feed(b"q\r");
    k.ascii(b'q');
    k.ascii(13);
    k.check();
    k.end();
}
/// Run a future to its end.
pub fn wait<F: core::future::Future>(f: F) -> F::Output {
    use std::sync::Arc;
    use std::task::*;
    struct W(std::thread::Thread);
    impl Wake for W {
        fn wake(self: Arc<Self>) {
            self.0.unpark();
        }
    }
    let mut f = std::pin::pin!(f);
    let w = Waker::from(Arc::new(W(std::thread::current())));
    let mut c = Context::from_waker(&w);
    loop {
        match f.as_mut().poll(&mut c) {
            Poll::Ready(x) => return x,
            Poll::Pending => std::thread::park(),
        }
    }
}
