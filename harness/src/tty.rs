//! A reference model of what the terminal shows, and the entries on display.
use crate::env;
use crate::model::*;
use crate::rt::*;
use crate::screen::*;
use liso::*;
use std::time::Duration;

/// A character as it is displayed: width 0-2, or a line break.
#[derive(Clone, Copy, PartialEq)]
pub struct G {
    pub ch: u32,
    pub attr: u32,
    pub wd: u8,
}
const DUMP: bool = cfg!(feature = "dump");
pub const BREAK: u8 = 9;

/// Styled text: what it says, and the attributes in force at its end.
#[derive(Clone)]
pub struct T {
    pub v: Vec<G>,
    pub cur: u32,
}
impl T {
    pub fn new() -> T {
        T { v: Vec::new(), cur: 0 }
    }
    pub fn push(&mut self, ch: u32, wd: u8) {
        let attr = self.cur;
        self.v.push(G { ch, attr, wd });
    }
    pub fn add(&mut self, o: &T) {
        for g in &o.v {
            self.v.push(*g);
        }
        self.cur = o.cur;
    }
}
/// Plain text.
pub fn t(s: &str) -> T {
    let mut r = T::new();
    for c in s.chars() {
        let k = c as u32;
        r.push(k, if c == '\n' { BREAK } else { width_of(k) as u8 });
    }
    r
}

/// What fills the rest of a row when `attr` is in force.
fn fill(attr: u32) -> Cell {
    let a = if attr & (INVERSE | UNDERLINE | 0xff00) != 0 { attr } else { 0 };
    Cell { ch: 32, mark: 0, attr: a }
}

pub struct Page {
    pub w: usize,
    pub rows: Vec<Vec<Cell>>,
    pub cy: usize,
    pub cx: usize,
}
impl Page {
    pub fn new(w: usize) -> Page {
        Page { w, rows: vec![], cy: 0, cx: 0 }
    }
    fn pad(&mut self, r: &mut Vec<Cell>, attr: u32) {
        while r.len() < self.w {
            r.push(fill(attr));
        }
    }
    fn put(&self, r: &mut Vec<Cell>, g: &G) {
        if g.wd == 0 {
            let mut k = r.len() - 1;
            if r[k].ch == 0 {
                k -= 1;
            }
            r[k].mark = mix(r[k].mark, g.ch);
            return;
        }
        r.push(Cell { ch: g.ch, mark: 0, attr: g.attr });
        if g.wd == 2 {
            r.push(Cell { ch: 0, mark: 0, attr: g.attr });
        }
    }
    /// A line of output.
    pub fn line(&mut self, t: &T) {
        let mut r = vec![];
        for g in &t.v {
            if g.wd == BREAK || (g.wd > 0 && !r.is_empty() && r.len() + g.wd as usize > self.w) {
                self.pad(&mut r, g.attr);
                self.rows.push(r);
                r = vec![];
                if g.wd == BREAK {
                    continue;
                }
            }
            self.put(&mut r, g);
        }
        self.pad(&mut r, t.cur);
        self.rows.push(r);
    }
    /// The status, prompt and input, with the cursor at character `at`.
    pub fn tail(&mut self, t: &T, at: Option<usize>) {
        let mut r: Vec<Cell> = vec![];
        let mut implied = false;
        let n = t.v.len();
        for (i, g) in t.v.iter().enumerate() {
            if at == Some(i) {
                self.cy = self.rows.len();
                self.cx = r.len();
            }
            if g.wd == BREAK {
                if implied {
                    implied = false;
                    continue;
                }
                self.pad(&mut r, g.attr);
                self.rows.push(r);
                r = vec![];
                continue;
            }
            if g.wd > 0 && !r.is_empty() && r.len() + g.wd as usize > self.w {
                self.pad(&mut r, g.attr);
                self.rows.push(r);
                r = vec![];
            }
            self.put(&mut r, g);
            implied = false;
            if r.len() >= self.w && !(i + 1 < n && t.v[i + 1].wd == 0) {
                self.rows.push(r);
                r = vec![];
                implied = true;
            }
        }
        if at == Some(n) {
            self.cy = self.rows.len();
            self.cx = r.len();
        }
        self.pad(&mut r, t.cur);
        self.rows.push(r);
    }
}

/// Everything the terminal should be showing.
#[derive(Clone)]
pub struct Model {
    pub w: usize,
    /// rows left above by a suspension
    pub base: Vec<Vec<Cell>>,
    pub out: Vec<T>,
    pub status: Option<T>,
    pub prompt: T,
    pub notice: Option<T>,
    pub input: T,
    /// in characters
    pub cursor: usize,
    pub allowed: bool,
}
impl Model {
    pub fn new(w: usize) -> Model {
        Model {
            w,
            base: vec![],
            out: vec![],
            status: None,
            prompt: T::new(),
            notice: None,
            input: T::new(),
            cursor: 0,
            allowed: true,
        }
    }
    fn above(&self) -> Page {
        let mut p = Page::new(self.w);
        for r in &self.base {
            p.rows.push(r.clone());
        }
        for l in &self.out {
            p.line(l);
        }
        p
    }
    /// Control-Z: what is displayed stays, up to the cursor.
    pub fn stop(&mut self) {
        let mut p = self.page();
        p.rows.truncate(p.cy + 1);
        let mut r = p.rows.pop().unwrap();
        r.truncate(p.cx);
        for c in "^Z".chars() {
            if r.len() == p.w {
                p.rows.push(r);
                r = vec![];
            }
            r.push(Cell { ch: c as u32, mark: 0, attr: 0 });
        }
        p.pad(&mut r, 0);
        p.rows.push(r);
        self.base = p.rows;
        self.out.clear();
    }
    pub fn page(&self) -> Page {
        let mut p = self.above();
        let mut a = T::new();
        if let Some(s) = &self.status {
            a.add(s);
            a.push(10, BREAK);
            a.cur = 0;
        }
        match &self.notice {
            Some(n) => {
                a.add(n);
                p.tail(&a, None);
            }
            None => {
                if !self.prompt.v.is_empty() {
                    a.add(&self.prompt);
                }
                let at = a.v.len() + self.cursor;
                // (shown in the attributes of the prompt, some of it inverse)
                for g in &self.input.v {
                    a.v.push(G { ch: g.ch, attr: a.cur ^ g.attr, wd: g.wd });
                }
                p.tail(&a, Some(at));
            }
        }
        p
    }
    /// The terminal shows exactly this.
    pub fn check(&self) {
        let sc = env::screen();
        check(sc.bad == 0, "the terminal was sent something it does not understand, or the cursor was moved off the screen");
        check(!sc.cut, "a wide character was cut off at the margin");
        let p = self.page();
        let ok = same(sc, &p.rows);
        if DUMP && !ok {
            dump(sc);
            let mut e = sc.clone();
            e.rows = p.rows.clone();
            print("expected");
            dump(&e);
        }
        check(ok, "the screen does not show exactly the output, status, prompt and input");
        let vis = self.allowed && self.notice.is_none();
        check(sc.visible == vis, "the cursor is shown when and only when input is possible");
        if vis {
            check(sc.cy == p.cy && sc.cx == p.cx, "the cursor is not at the insertion point");
        }
    }
    /// The terminal shows only the printed lines.
    pub fn check_bare(&self, sc: &Screen) {
        let p = self.above();
        let n = p.rows.len();
        check(same(sc, &p.rows), "the screen does not show exactly the printed lines");
        check(sc.bad == 0 && !sc.cut, "the terminal was sent something it does not understand");
        check(sc.cy == n && sc.cx == 0, "the cursor is not below the printed lines");
        check(sc.visible && sc.wrap && sc.plain(), "the terminal's cursor, wrapping or attributes are not restored");
    }
    /// A key arrives. False: it is ignored.
    pub fn key(&mut self) -> bool {
        // (an ignored key changes nothing)
        if self.allowed {
            self.notice = None;
        }
        self.allowed
    }
    pub fn type_char(&mut self, ch: u32, wd: u8) {
        self.input.v.insert(self.cursor, G { ch, attr: 0, wd });
        self.cursor += 1;
    }
}
/// The rows of the screen, blanks compared by what can be seen.
pub fn same(sc: &Screen, rows: &[Vec<Cell>]) -> bool {
    let mut ok = true;
    let none = seen(&sc.shown(&Cell { ch: 32, mark: 0, attr: 0 }));
    for (y, r) in sc.rows.iter().enumerate() {
        if y < rows.len() {
            let q = &rows[y];
            for x in 0..r.len().min(q.len()) {
                let c = sc.shown(&q[x]);
                ok &= (r[x].ch == c.ch) & (r[x].mark == c.mark) & (r[x].attr == c.attr || seen(&r[x]) == seen(&c));
            }
        } else {
            for c in r {
                ok &= (c.ch == 32) & (seen(c) == none);
            }
        }
    }
    for q in rows.iter().skip(sc.rows.len()) {
        for c in q {
            ok &= (c.ch == 32) & (seen(c) == 0);
        }
    }
    ok
}
pub fn observe_screen() {
    let sc = env::screen();
    let mut h = 7u64;
    for r in &sc.rows {
        for c in r {
            h = h.wrapping_mul(31).wrapping_add(c.ch as u64);
        }
    }
    observe(h);
    observe((sc.cy * 100 + sc.cx) as u64);
}

/// A space or one of two letters.
pub fn small() -> u8 {
    let b = any();
    assume((b == b' ') | (b == b'a') | (b == b'b'));
    b
}
/// A line of `n` characters, each a space or one of two letters.
pub fn letters(n: usize) -> (String, T) {
    let mut s = Vec::new();
    let mut m = T::new();
    for _ in 0..n {
        let b = small();
        s.push(b);
        m.push(b as u32, 1);
    }
    (string(s), m)
}

// ------------------------------------------------------------------
// C01

/// One operation that changes what is displayed.
pub fn step(io: &InputOutput, m: &mut Model, kinds: usize) {
    let w = m.w;
    match pick(kinds) {
        0 => {
            // a status of no, one, or just over one row's characters
            static N: [usize; 4] = [0, 1, 3, 4];
            let (s, t) = letters(N[pick(4)]);
            io.status(Some(s));
            m.status = Some(t);
        }
        1 => {
            static N: [usize; 4] = [0, 1, 2, 4];
            let (s, t) = letters(N[pick(4)]);
            io.prompt(s, true, false);
            m.prompt = t;
            m.allowed = true;
        }
        2 => {
            let (s, t) = letters(1 + pick(2) * (w - 1));
            io.println(s);
            m.out.push(t);
        }
        3 => {
            io.remove_status();
            m.status = None;
        }
        4 => {
            let (s, t) = letters(1 + pick(2) * 2);
            io.notice(s, Duration::from_secs(1));
            m.notice = Some(t);
        }
        5 => {
            let b = small();
            env::feed(&[b]);
            if m.key() {
                m.type_char(b as u32, 1);
            }
        }
        6 => {
            env::feed(b"\x02");
            if m.key() {
                m.cursor = m.cursor.saturating_sub(1);
            }
        }
        7 => {
            env::feed(b"\x7f");
            if m.key() && m.cursor > 0 {
                m.cursor -= 1;
                m.input.v.remove(m.cursor);
            }
        }
        8 => {
            io.prompt("$", false, false);
            m.prompt = t("$");
            m.allowed = false;
        }
        9 => {
            advance_ms(1000);
            m.notice = None;
        }
        _ => (),
    }
}

/// Any status replaced by any other.
#[no_mangle]
pub extern "C" fn entry_c01_status() {
    let w = 2 + pick(2);
    env::tty(w as u16);
    let io = InputOutput::new();
    let mut m = Model::new(w);
    let max = if thorough() { 5 } else { 4 };
    for _ in 0..2 {
        let n = pick(max + 1);
        let (mut s, mut t) = letters(n);
        if n > 1 && flip() {
            let k = 1 + pick(n - 1);
            s.replace_range(k..k + 1, "\n");
            t.v[k] = G { ch: 10, attr: 0, wd: BREAK };
        }
        io.status(Some(s));
        m.status = Some(t);
        settle();
        m.check();
    }
    drop(io);
    m.check_bare(env::screen());
}
/// Any short script.
#[no_mangle]
pub extern "C" fn entry_c01_script() {
    let w = 3;
    env::tty(w as u16);
    let io = InputOutput::new();
    let mut m = Model::new(w);
    let n = if thorough() { 4 } else { 3 };
    for _ in 0..n {
        step(&io, &mut m, 10);
        settle();
        m.check();
        observe_screen();
    }
    drop(io);
    m.check_bare(env::screen());
}

/// Text of `n` characters of these kinds: 1 letter (of two), 2 wide, 4 mark,
/// 8 line break. Marks follow something they can combine with.
pub fn mixed(n: usize, kinds: &[u8]) -> (String, T) {
    let mut s = Vec::new();
    let mut m = T::new();
    for i in 0..n {
        match kinds[pick(kinds.len())] {
            1 => {
                let b = small();
                s.push(b);
                m.push(b as u32, 1);
            }
            2 => {
                let b = 0x80 + below(2);
                s.extend_from_slice(&[0xe4, 0xb8, b]);
                m.push(0x4e00 + (b as u32 - 0x80), 2);
            }
            4 => {
                assume(i > 0 && m.v[i - 1].wd != BREAK);
                let b = 0x80 + below(2);
                s.extend_from_slice(&[0xcc, b]);
                m.push(0x300 + (b as u32 - 0x80), 0);
            }
            _ => {
                s.push(10);
                m.push(10, BREAK);
            }
        }
    }
    (string(s), m)
}
/// Wide and combining characters in the status, prompt and input.
#[no_mangle]
pub extern "C" fn entry_c01_wide() {
    let w = 2 + pick(3);
    env::tty(w as u16);
    let io = InputOutput::new();
    let mut m = Model::new(w);
    let max = if thorough() { 4 } else { 3 };
    let kinds: &[u8] = if flip() { &[1, 2, 8] } else { &[1, 2, 4] };
    let which = flip();
    for _ in 0..2 {
        let n = pick(max + 1);
        let (s, t) = mixed(n, kinds);
        if which {
            io.status(Some(s));
            m.status = Some(t);
        } else {
            io.prompt(s, true, false);
            m.prompt = t;
        }
        settle();
        m.check();
    }
    drop(io);
    m.check_bare(env::screen());
}
/// Output of any characters, above a prompt.
#[no_mangle]
pub extern "C" fn entry_c01_out() {
    let w = 2 + pick(3);
    env::tty(w as u16);
    let io = InputOutput::new();
    let mut m = Model::new(w);
    io.prompt("> ", true, false);
    m.prompt = t("> ");
    let max = if thorough() { 6 } else { 5 };
    let kinds: &[u8] = if flip() { &[1, 2, 8] } else { &[1, 2, 4] };
    let n = pick(max + 1);
    let (s, t) = mixed(n, kinds);
    if flip() {
        io.println(s);
    } else {
        io.echoln(s);
    }
    m.out.push(t);
    settle();
    m.check();
    io.println("!");
    m.out.push(crate::tty::t("!"));
    settle();
    m.check();
    drop(io);
    m.check_bare(env::screen());
}
/// wrapln shows what wrapping the line to the terminal's width gives.
#[no_mangle]
pub extern "C" fn entry_c01_wrap() {
    let w = 2 + pick(3);
    env::tty(w as u16);
    let io = InputOutput::new();
    let mut m = Model::new(w);
    io.prompt("> ", true, false);
    m.prompt = t("> ");
    let n = 2 + pick(if thorough() { 7 } else { 5 });
    let mut s = Vec::new();
    for _ in 0..n {
        s.push([b'a', b' ', b'\n'][pick(3)]);
    }
    let s = string(s);
    let mut l = Line::from(s.as_str());
    io.wrapln(s);
    l.wrap_to_width(w);
    m.out.push(t(l.as_str()));
    settle();
    m.check();
    drop(io);
    m.check_bare(env::screen());
}
/// The terminal's width changes between operations.
#[no_mangle]
pub extern "C" fn entry_c01_clear() {
    let w = 3;
    env::tty(w as u16);
    let io = InputOutput::new();
    let mut m = Model::new(w);
    io.println("ab");
    io.status(Some("s"));
    m.status = Some(t("s"));
    for i in 0..2 {
        let (s, t) = letters(pick(5));
        io.prompt(s, true, false);
        m.prompt = t;
        settle();
        if i == 0 {
            env::feed(b"\x0c");
            settle();
            m.check();
        }
    }
    m.check();
    drop(io);
    m.check_bare(env::screen());
}

// ------------------------------------------------------------------
// C20

/// A line of `n` runs with the attributes of `style`, each of one or two
/// letters, and attributes left in force at the end.
pub fn styled(n: usize, full: bool) -> (Line, T) {
    let mut l = Line::new();
    let mut m = T::new();
    for i in 0..=n {
        if full {
            let (s, sb) = any_style();
            let (f, fb) = any_color();
            let (b, bb) = any_color();
            l.set_style(s).set_colors(f, b);
            m.cur = sb | fb | bb << 8;
        } else {
            let k = pick(5);
            match k {
                0 => {
                    l.reset_all();
                    m.cur = 0;
                }
                1 => {
                    l.set_bg_color(Some(Color::Red));
                    m.cur = m.cur & !0xff00 | 2 << 8;
                }
                2 => {
                    l.set_fg_color(Some(Color::Green));
                    m.cur = m.cur & !0xff | 3;
                }
                3 => {
                    l.set_style(Style::INVERSE | Style::BOLD);
                    m.cur = m.cur & 0xffff | INVERSE | BOLD;
                }
                _ => {
                    l.set_style(Style::DIM);
                    m.cur = m.cur & 0xffff | DIM;
                }
            }
        }
        if i < n {
            let b = any();
            assume((b >= 0x20) & (b < 0x7f));
            l.add_text(string(vec![b]));
            m.push(b as u32, 1);
        }
    }
    (l, m)
}
/// Everything on screen has its own attributes and no others.
#[no_mangle]
pub extern "C" fn entry_c20_out() {
    let w = 3;
    env::tty(w as u16);
    let io = InputOutput::new();
    let mut m = Model::new(w);
    let n = if thorough() { 4 } else { 3 };
    let (l, t) = styled(n, false);
    io.println(l);
    m.out.push(t);
    settle();
    m.check();
    io.println("x");
    m.out.push(crate::tty::t("x"));
    settle();
    m.check();
    drop(io);
    m.check_bare(env::screen());
}
/// One prompt after another.
#[no_mangle]
pub extern "C" fn entry_c20_prompt() {
    let w = 3;
    env::tty(w as u16);
    let io = InputOutput::new();
    let mut m = Model::new(w);
    for _ in 0..2 {
        let (l, t) = styled(1 + pick(2), false);
        io.prompt(l, true, false);
        m.prompt = t;
        settle();
        m.check();
    }
    env::feed(b"z");
    m.key();
    m.type_char(b'z' as u32, 1);
    settle();
    m.check();
    drop(io);
    m.check_bare(env::screen());
}
/// Status, prompt and notice with attributes, one after another.
#[no_mangle]
pub extern "C" fn entry_c20_mixed() {
    let w = 3;
    env::tty(w as u16);
    let io = InputOutput::new();
    let mut m = Model::new(w);
    let n = if thorough() { 3 } else { 2 };
    io.prompt("ab", true, false);
    m.prompt = t("ab");
    for _ in 0..n {
        let len = 1 + pick(4);
        let (mut l, mut t) = (Line::new(), T::new());
        for i in 0..len {
            if i == 0 || i == 2 {
                match pick(4) {
                    0 => (),
                    1 => {
                        l.set_bg_color(Some(Color::Red));
                        t.cur = t.cur & !0xff00 | 2 << 8;
                    }
                    2 => {
                        l.set_style(Style::INVERSE);
                        t.cur = t.cur & 0xffff | INVERSE;
                    }
                    _ => {
                        l.set_colors(None, None);
                        l.set_style(Style::BOLD);
                        t.cur = BOLD;
                    }
                }
            }
            let b = b'a' + below(26);
            l.add_text(string(vec![b]));
            t.push(b as u32, 1);
        }
        match pick(3) {
            0 => {
                io.status(Some(l));
                m.status = Some(t);
            }
            1 => {
                io.prompt(l, true, false);
                m.prompt = t;
            }
            _ => {
                io.notice(l, Duration::from_secs(1));
                m.notice = Some(t);
            }
        }
        settle();
        m.check();
    }
    env::feed(b"z");
    m.key();
    m.type_char(b'z' as u32, 1);
    settle();
    m.check();
    drop(io);
    m.check_bare(env::screen());
}
/// A line, status, prompt or notice of one or two characters.
fn show(io: &InputOutput, m: &mut Model, k: usize, l: Line, t: T) {
    match k {
        0 => {
            io.println(l);
            m.out.push(t);
        }
        1 => {
            io.status(Some(l));
            m.status = Some(t);
        }
        2 => {
            io.prompt(l, true, false);
            m.prompt = t;
        }
        _ => {
            io.notice(l, Duration::from_secs(1));
            m.notice = Some(t);
        }
    }
}
fn pieces(styles: bool) {
    let w = 4;
    env::tty(w as u16);
    let io = InputOutput::new();
    let mut m = Model::new(w);
    let k = pick(4);
    let (mut l, mut t) = (Line::new(), T::new());
    let red = flip();
    for i in 0..2 {
        if styles {
            let (s, sb) = any_style();
            l.set_style(s);
            t.cur = t.cur & 0xffff | sb;
            if i == 1 && red {
                l.set_bg_color(Some(Color::Red));
                t.cur |= 2 << 8;
            }
        } else {
            let (f, fb) = any_color();
            let (b, bb) = any_color();
            l.set_colors(f, b);
            t.cur = fb | bb << 8;
            if red {
                l.set_style(Style::BOLD);
                t.cur |= BOLD;
            }
        }
        let b = b'a' + below(26);
        l.add_text(string(vec![b]));
        t.push(b as u32, 1);
    }
    show(&io, &mut m, k, l, t);
    settle();
    m.check();
    drop(io);
    m.check_bare(env::screen());
}
/// Any style after any other, anywhere.
#[no_mangle]
pub extern "C" fn entry_c20_styles() {
    pieces(true);
}
/// Any colors after any others, anywhere.
#[no_mangle]
pub extern "C" fn entry_c20_colors() {
    pieces(false);
}
pub fn dump(sc: &Screen) {
    for r in &sc.rows {
        let mut s = String::new();
        for c in r {
            s.push_str(&format!("{}{:x} ", char::from_u32(c.ch).unwrap_or('?'), c.attr));
        }
        print(&s);
    }
}
/// A terminal that does not know its own size: everything goes on.
#[no_mangle]
pub extern "C" fn entry_c01_unknown() {
    static TERMS: [&[u8]; 3] = [b"xterm\0", b"vt52\0", b"tt52\0"];
    env::raw(true, true, Some(TERMS[pick(3)]));
    env::set_width(0);
    let mut io = InputOutput::new();
    let mut m = Model::new(4);
    for _ in 0..2 {
        step(&io, &mut m, 10);
        settle();
    }
    io.wrapln("wrap me");
    io.prompt("$", true, true);
    settle();
    env::feed(b"ok\r");
    settle();
    check(matches!(io.try_read(), Some(Response::Input(s)) if s == "ok"), "input is not delivered on a terminal without a size");
    io.println("printed");
    settle();
    let log = string(env::out_log().to_vec());
    check(log.contains("wrap me") && log.contains("printed"), "a line is not printed on a terminal without a size");
    drop(io);
    check(env::cooked(), "the terminal settings are not restored");
}
/// The terminal's size changes between operations: everything goes on.
#[no_mangle]
pub extern "C" fn entry_c01_resize() {
    static TERMS: [&[u8]; 2] = [b"xterm\0", b"tt52\0"];
    env::raw(true, true, Some(TERMS[pick(2)]));
    env::set_width(4);
    let mut io = InputOutput::new();
    let mut m = Model::new(4);
    io.status(Some("status"));
    m.status = Some(t("status"));
    settle();
    for _ in 0..(if thorough() { 3 } else { 2 }) {
        env::set_width([1, 2, 3, 5, 9][pick(5)]);
        step(&io, &mut m, 10);
        settle();
    }
    io.wrapln("wrap me");
    io.prompt("$", true, true);
    settle();
    env::feed(b"ok\r");
    settle();
    check(matches!(io.try_read(), Some(Response::Input(s)) if s == "ok"), "input is not delivered after the terminal changed its size");
    drop(io);
    check(env::cooked(), "the terminal settings are not restored");
}
