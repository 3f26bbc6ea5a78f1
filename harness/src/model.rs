//! Symbolic text, styles and colours, and a reference model of styled lines.
use crate::rt::*;
use liso::*;

/// In ANSI order; the index is the number used in `attr` (0 = default).
pub static COLORS: [Option<Color>; 9] = [
    None,
    Some(Color::Black),
    Some(Color::Red),
    Some(Color::Green),
    Some(Color::Yellow),
    Some(Color::Blue),
    Some(Color::Magenta),
    Some(Color::Cyan),
    Some(Color::White),
];
static BACK: [u8; 8] = [1, 2, 3, 4, 5, 7, 6, 8];

pub fn color_no(c: Option<Color>) -> u32 {
    match c {
        None => 0,
        // (the discriminants are not in ANSI order)
        Some(c) => BACK[c as u8 as usize & 7] as u32,
    }
}
pub fn attr_of(s: Style, fg: Option<Color>, bg: Option<Color>) -> u32 {
    color_no(fg) | color_no(bg) << 8 | s.bits() << 16
}
/// any colour (or none), symbolic
pub fn any_color() -> (Option<Color>, u32) {
    let k = below(9);
    (COLORS[k as usize], k as u32)
}
pub fn any_style() -> (Style, u32) {
    let k = below(32) as u32;
    (Style::from_bits_truncate(k), k << 16)
}

pub const ASCII: u8 = 1;
pub const CTRL: u8 = 2;
pub const TWO: u8 = 4;
pub const THREE: u8 = 8;
pub const FOUR: u8 = 16;
pub const MARK: u8 = 32;
pub const WIDE: u8 = 64;
pub const NL: u8 = 128;

fn choice(classes: u8) -> u8 {
    let n = classes.count_ones() as usize;
    let mut k = pick(n);
    for b in 0..8 {
        if classes & (1 << b) != 0 {
            if k == 0 {
                return 1 << b;
            }
            k -= 1;
        }
    }
    0
}

fn push2(s: &mut Vec<u8>, b0: u8, b1: u8) -> u32 {
    s.push(b0);
    s.push(b1);
    (b0 as u32 & 0x1f) << 6 | (b1 as u32 & 0x3f)
}
fn push3(s: &mut Vec<u8>, b0: u8, b1: u8, b2: u8) -> u32 {
    s.push(b0);
    s.push(b1);
    s.push(b2);
    (b0 as u32 & 0xf) << 12 | (b1 as u32 & 0x3f) << 6 | (b2 as u32 & 0x3f)
}

/// Append one symbolic character of one of the given classes.
pub fn any_char(s: &mut Vec<u8>, classes: u8) -> u32 {
    match choice(classes) {
        ASCII => {
            let b = any();
            assume(b >= 0x20 && b < 0x7f);
            s.push(b);
            b as u32
        }
        CTRL => {
            let b = any();
            assume((b < 0x20) | (b == 0x7f));
            s.push(b);
            b as u32
        }
        NL => {
            s.push(b'\n');
            10
        }
        TWO => {
            let (b0, b1) = (any(), any());
            assume((b0 >= 0xc2) & (b0 < 0xe0) & (b1 >= 0x80) & (b1 < 0xc0));
            push2(s, b0, b1)
        }
        THREE => {
            let (b0, b1, b2) = (any(), any(), any());
            assume((b0 >= 0xe0) & (b0 < 0xf0) & (b1 >= 0x80) & (b1 < 0xc0) & (b2 >= 0x80) & (b2 < 0xc0));
            assume((b0 != 0xe0) | (b1 >= 0xa0));
            assume((b0 != 0xed) | (b1 < 0xa0));
            push3(s, b0, b1, b2)
        }
        FOUR => {
            let (b0, b1, b2, b3) = (any(), any(), any(), any());
            assume((b0 >= 0xf0) & (b0 < 0xf5) & (b1 >= 0x80) & (b1 < 0xc0) & (b2 >= 0x80) & (b2 < 0xc0));
            assume((b0 != 0xf0) | (b1 >= 0x90));
            assume((b0 != 0xf4) | (b1 < 0x90));
            assume((b3 >= 0x80) & (b3 < 0xc0));
            s.push(b0);
            s.push(b1);
            s.push(b2);
            s.push(b3);
            (b0 as u32 & 7) << 18 | (b1 as u32 & 0x3f) << 12 | (b2 as u32 & 0x3f) << 6 | (b3 as u32 & 0x3f)
        }
        MARK => {
            // U+0300..U+033F
            let b = any();
            assume((b >= 0x80) & (b < 0xc0));
            push2(s, 0xcc, b)
        }
        WIDE => {
            // U+4E00..U+4E3F
            let b = any();
            assume((b >= 0x80) & (b < 0xc0));
            push3(s, 0xe4, 0xb8, b)
        }
        _ => 0,
    }
}
pub fn string(s: Vec<u8>) -> String {
    unsafe { String::from_utf8_unchecked(s) }
}
/// A string of `n` symbolic characters, with its code points.
pub fn any_str(n: usize, classes: u8) -> (String, Vec<u32>) {
    let mut s = Vec::new();
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(any_char(&mut s, classes));
    }
    (string(s), v)
}
pub fn codes(s: &str) -> Vec<u32> {
    s.chars().map(|c| c as u32).collect()
}

static HEX: &[u8; 16] = b"0123456789ABCDEF";

/// The reference model of a styled line.
#[derive(Clone)]
pub struct ML {
    pub v: Vec<(u32, u32)>,
    pub cur: u32,
}
impl ML {
    pub fn new() -> ML {
        ML { v: Vec::new(), cur: 0 }
    }
    pub fn text(&mut self, t: &[u32]) {
        for &c in t {
            let inv = self.cur ^ (8 << 16);
            if c < 32 && c != 10 {
                self.v.push((b'^' as u32, inv));
                self.v.push((c + 64, inv));
            } else if (c >= 0x7f && c < 0xa0) || c == 0x2028 || c == 0x2029 {
                self.v.push((b'U' as u32, inv));
                self.v.push((b'+' as u32, inv));
                for k in [12, 8, 4, 0] {
                    self.v.push((HEX[(c >> k) as usize & 15] as u32, inv));
                }
            } else {
                self.v.push((c, self.cur));
            }
        }
    }
    pub fn style(&mut self, s: u32) {
        self.cur = self.cur & 0xffff | s;
    }
    pub fn fg(&mut self, c: u32) {
        self.cur = self.cur & !0xff | c;
    }
    pub fn bg(&mut self, c: u32) {
        self.cur = self.cur & !0xff00 | c << 8;
    }
    /// The line has exactly the model's characters and attributes.
    pub fn same(&self, l: &Line) -> bool {
        let mut ok = true;
        let mut n = 0;
        let mut idx = 0;
        for c in l.chars() {
            if n >= self.v.len() {
                return false;
            }
            let (ch, at) = self.v[n];
            ok &= c.ch as u32 == ch;
            ok &= attr_of(c.style, c.fg, c.bg) == at;
            ok &= c.index == idx;
            idx += c.ch.len_utf8();
            n += 1;
        }
        ok && n == self.v.len() && l.len() == idx && l.is_empty() == (n == 0)
    }
    pub fn same_state(&self, l: &Line) -> bool {
        let (fg, bg) = l.get_colors();
        attr_of(l.get_style(), fg, bg) == self.cur
    }
}
/// The reference line as plain text.
pub fn plain(v: &[(u32, u32)]) -> String {
    let mut s = String::new();
    for (c, _) in v {
        s.push(char::from_u32(*c).unwrap_or('?'));
    }
    s
}
