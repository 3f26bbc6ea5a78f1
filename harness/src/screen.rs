//! A small terminal emulator (ANSI and VT52) with unbounded height.

#[derive(Clone, Copy, PartialEq)]
pub struct Cell {
    /// code point; 0 = right half of a wide character
    pub ch: u32,
    /// combining marks, mixed
    pub mark: u32,
    /// fg + 1 (0 = default) | bg + 1 << 8 | style << 16
    pub attr: u32,
}

pub const BOLD: u32 = 1 << 16;
pub const DIM: u32 = 1 << 17;
pub const UNDERLINE: u32 = 1 << 18;
pub const INVERSE: u32 = 1 << 19;
pub const ITALIC: u32 = 1 << 20;

pub fn width_of(c: u32) -> usize {
    if c < 0x300 {
        1
    } else if c < 0x370 {
        0
    } else if c < 0x1100 {
        1
    } else if c < 0x1160 {
        2
    } else if c == 0x200b || c == 0x200d {
        0
    } else if c < 0x2e80 {
        1
    } else if c < 0xa4d0 || (c >= 0xac00 && c < 0xd7a4) || (c >= 0xff01 && c < 0xff61) {
        2
    } else if c >= 0x1f300 && c < 0x1f650 {
        2
    } else {
        1
    }
}

pub fn mix(m: u32, c: u32) -> u32 {
    m.wrapping_mul(33).wrapping_add(c)
}

const BLANK: Cell = Cell { ch: 32, mark: 0, attr: 0 };

#[derive(Clone)]
pub struct Screen {
    pub vt52: bool,
    pub w: usize,
    pub rows: Vec<Vec<Cell>>,
    pub cy: usize,
    pub cx: usize,
    pub wrap: bool,
    pend: bool,
    /// the cell last written, while the cursor has not been moved since
    last: Option<(usize, usize)>,
    pub visible: bool,
    pub attr: u32,
    pub bells: usize,
    /// something a terminal does not define, or that is not allowed here
    pub bad: u32,
    st: u8,
    par: [u32; 8],
    npar: usize,
    private: bool,
    u: u32,
    un: u8,
    yrow: u32,
    /// number of colours (VT52)
    pub fg52: u32,
    pub bg52: u32,
    pub clears: usize,
    /// a wide character that did not fit
    pub cut: bool,
    blank: Cell,
    /// VT52: the number of colours, and whether white on black
    pub colors: u32,
    pub wob: bool,
}

impl Screen {
    pub fn new(w: usize, vt52: bool) -> Screen {
        Screen {
            vt52,
            w,
            rows: vec![vec![BLANK; w]],
            cy: 0,
            cx: 0,
            wrap: true,
            pend: false,
            last: None,
            visible: true,
            attr: 0,
            bells: 0,
            bad: 0,
            st: 0,
            par: [0; 8],
            npar: 0,
            private: false,
            u: 0,
            un: 0,
            yrow: 0,
            fg52: 0,
            bg52: 0,
            clears: 0,
            cut: false,
            blank: BLANK,
            colors: 0,
            wob: false,
        }
    }
    pub fn colored(mut self, colors: u32, wob: bool) -> Screen {
        self.colors = colors;
        self.wob = wob;
        self.blank.attr = self.attr52(0);
        self.attr = self.blank.attr;
        self.rows = vec![vec![self.blank; self.w]];
        self
    }
    /// What is shown on a VT52 for these attributes: palette indices.
    pub fn attr52(&self, a: u32) -> u32 {
        // black red green yellow blue magenta cyan white
        static BRIGHT: [u8; 9] = [0, 8, 1, 2, 13, 4, 12, 9, 0];
        static DULL: [u8; 9] = [0, 15, 3, 5, 11, 6, 14, 10, 7];
        static FOUR: [u8; 9] = [0, 15, 1, 2, 2, 3, 1, 2, 0];
        let (f, b) = (a & 0xff, a >> 8 & 0xff);
        let (ft, bt) = match (self.colors, self.wob) {
            (16, true) => (&BRIGHT, &DULL),
            (16, false) => (&DULL, &BRIGHT),
            _ => (&FOUR, &FOUR),
        };
        let (df, db) = if self.wob { (0, 15) } else { (15, 0) };
        let mut fg = if f == 0 || self.colors == 2 { df } else { ft[f as usize % 9] as u32 };
        let mut bg = if b == 0 || self.colors == 2 { db } else { bt[b as usize % 9] as u32 };
        if a & INVERSE != 0 {
            core::mem::swap(&mut fg, &mut bg);
        }
        (fg + 1) | (bg + 1) << 8
    }
    /// What is shown for a cell.
    pub fn shown(&self, c: &Cell) -> Cell {
        if !self.vt52 {
            return *c;
        }
        let ch = if c.ch >= 0x80 || c.ch == 0 { 0x7f } else { c.ch };
        Cell { ch, mark: 0, attr: self.attr52(c.attr) }
    }
    pub fn plain(&self) -> bool {
        self.attr == self.blank.attr
    }
    fn moved(&mut self) {
        self.pend = false;
        self.last = None;
    }
    fn lf(&mut self) {
        self.cy += 1;
        if self.cy == self.rows.len() {
            let w = self.w;
            let b = self.blank;
            self.rows.push(vec![b; w]);
        }
        self.moved();
    }
    fn print(&mut self, c: u32) {
        let cw = width_of(c);
        if cw == 0 {
            let (y, x) = match self.last {
                Some(p) => p,
                None => {
                    if self.cx == 0 {
                        self.bad |= 1;
                        return;
                    }
                    let mut x = self.cx - 1;
                    if self.rows[self.cy][x].ch == 0 && x > 0 {
                        x -= 1;
                    }
                    (self.cy, x)
                }
            };
            let k = &mut self.rows[y][x];
            k.mark = mix(k.mark, c);
            return;
        }
        if self.pend && self.wrap {
            self.cx = 0;
            self.lf();
        }
        if self.cx + cw > self.w {
            if self.wrap && self.w >= cw {
                self.cx = 0;
                self.lf();
            } else {
                self.cut = true;
                self.rows[self.cy][self.cx] = Cell { ch: 0xfffd, mark: 0, attr: self.attr };
                self.last = Some((self.cy, self.cx));
                return;
            }
        }
        let w = self.w;
        let blank = self.blank;
        let row = &mut self.rows[self.cy];
        let x = self.cx;
        // overwriting half of a wide character destroys the other half
        if row[x].ch == 0 && x > 0 {
            row[x - 1] = blank;
        }
        if x + cw < w && row[x + cw].ch == 0 {
            row[x + cw] = blank;
        }
        row[x] = Cell { ch: c, mark: 0, attr: self.attr };
        if cw == 2 {
            row[x + 1] = Cell { ch: 0, mark: 0, attr: self.attr };
        }
        self.last = Some((self.cy, x));
        self.cx += cw;
        if self.cx >= w {
            self.cx = w - 1;
            self.pend = true;
        } else {
            self.pend = false;
        }
    }
    fn erased(&self) -> Cell {
        if self.vt52 {
            Cell { ch: 32, mark: 0, attr: self.attr & 0xffff }
        } else {
            Cell { ch: 32, mark: 0, attr: self.attr & 0xff00 }
        }
    }
    fn clear_eol(&mut self) {
        let e = self.erased();
        let x = self.cx;
        let blank = self.blank;
        let row = &mut self.rows[self.cy];
        if row[x].ch == 0 && x > 0 {
            row[x - 1] = blank;
        }
        for c in &mut row[x..] {
            *c = e;
        }
        self.last = None;
    }
    fn clear_down(&mut self) {
        self.clear_eol();
        let e = self.erased();
        for r in &mut self.rows[self.cy + 1..] {
            for c in r {
                *c = e;
            }
        }
        self.clears += 1;
    }
    fn up(&mut self, n: usize) {
        if n > self.cy {
            self.bad |= 2;
            self.cy = 0;
        } else {
            self.cy -= n;
        }
        self.moved();
    }
    fn down(&mut self, n: usize) {
        self.cy += n;
        if self.cy >= self.rows.len() {
            // at the bottom of the screen the cursor would not move
            self.bad |= 4;
            self.cy = self.rows.len() - 1;
        }
        self.moved();
    }
    fn left(&mut self, n: usize) {
        if n > self.cx {
            self.bad |= 8;
        }
        self.cx = self.cx.saturating_sub(n);
        self.moved();
    }
    fn right(&mut self, n: usize) {
        if self.cx + n >= self.w {
            self.bad |= 8;
        }
        self.cx = (self.cx + n).min(self.w - 1);
        self.moved();
    }
    pub fn put(&mut self, b: u8) {
        match self.st {
            0 => {
                if self.un > 0 {
                    self.u = (self.u << 6) | (b & 0x3f) as u32;
                    self.un -= 1;
                    if self.un == 0 {
                        let c = self.u;
                        self.print(c);
                    }
                    return;
                }
                if b >= 0x20 && b < 0x7f {
                    self.print(b as u32);
                    return;
                }
                if b >= 0x80 {
                    if self.vt52 {
                        self.bad |= 16;
                        return;
                    }
                    if b >= 0xf0 {
                        self.u = (b & 7) as u32;
                        self.un = 3;
                    } else if b >= 0xe0 {
                        self.u = (b & 15) as u32;
                        self.un = 2;
                    } else {
                        self.u = (b & 31) as u32;
                        self.un = 1;
                    }
                    return;
                }
                match b {
                    0x1b => self.st = 1,
                    b'\r' => {
                        self.cx = 0;
                        self.moved();
                    }
                    b'\n' => {
                        if crate::env::onlcr() {
                            self.cx = 0;
                        }
                        self.lf();
                    }
                    7 => self.bells += 1,
                    0x7f => {
                        if self.vt52 {
                            self.print(0x7f)
                        } else {
                            self.bad |= 32
                        }
                    }
                    _ => self.bad |= 32,
                }
            }
            1 => {
                self.st = 0;
                if self.vt52 {
                    self.esc52(b);
                } else if b == b'[' {
                    self.st = 2;
                    self.par = [0; 8];
                    self.npar = 0;
                    self.private = false;
                } else {
                    self.bad |= 64;
                }
            }
            2 => match b {
                b'0'..=b'9' => {
                    let p = &mut self.par[self.npar];
                    *p = *p * 10 + (b - b'0') as u32;
                }
                b';' => {
                    if self.npar < 7 {
                        self.npar += 1
                    } else {
                        self.bad |= 64
                    }
                }
                b'?' => self.private = true,
                _ => {
                    self.st = 0;
                    self.csi(b);
                }
            },
            3 => {
                // VT52 ESC Y row
                self.yrow = b as u32;
                self.st = 4;
            }
            4 => {
                let y = self.yrow.wrapping_sub(32) as usize;
                let x = (b as usize).wrapping_sub(32);
                self.st = 0;
                if y < self.rows.len() && x < self.w {
                    self.cy = y;
                    self.cx = x;
                } else {
                    self.bad |= 64;
                }
                self.moved();
            }
            5 => {
                self.st = 0;
                self.fg52 = (b & 15) as u32;
                self.attr = self.attr & !0xff | (self.fg52 + 1);
            }
            6 => {
                self.st = 0;
                self.bg52 = (b & 15) as u32;
                self.attr = self.attr & !0xff00 | ((self.bg52 + 1) << 8);
            }
            _ => self.st = 0,
        }
    }
    fn esc52(&mut self, b: u8) {
        match b {
            b'A' => self.up(1),
            b'B' => self.down(1),
            b'C' => self.right(1),
            b'D' => self.left(1),
            b'H' => {
                self.cx = 0;
                self.cy = 0;
                self.moved();
            }
            b'J' => self.clear_down(),
            b'K' => self.clear_eol(),
            b'Y' => self.st = 3,
            b'b' => self.st = 5,
            b'c' => self.st = 6,
            b'e' => self.visible = true,
            b'f' => self.visible = false,
            b'v' => self.wrap = true,
            b'w' => self.wrap = false,
            b'p' => self.attr |= INVERSE,
            b'q' => self.attr &= !INVERSE,
            b'E' => {
                let blank = self.blank;
                for r in &mut self.rows {
                    for c in r {
                        *c = blank;
                    }
                }
                self.cx = 0;
                self.cy = 0;
                self.moved();
                self.clears += 1;
            }
            _ => self.bad |= 64,
        }
    }
    fn csi(&mut self, b: u8) {
        let n = (self.par[0] as usize).max(1);
        if self.private {
            match (self.par[0], b) {
                (25, b'h') => self.visible = true,
                (25, b'l') => self.visible = false,
                (7, b'h') => self.wrap = true,
                (7, b'l') => {
                    self.wrap = false;
                    self.pend = false;
                }
                _ => self.bad |= 64,
            }
            return;
        }
        match b {
            b'A' => self.up(n),
            b'B' => self.down(n),
            b'C' => self.right(n),
            b'D' => self.left(n),
            b'H' => {
                self.cy = (self.par[0] as usize).max(1) - 1;
                self.cx = (self.par[1] as usize).max(1) - 1;
                if self.cy >= self.rows.len() || self.cx >= self.w {
                    self.bad |= 64;
                    self.cy = 0;
                    self.cx = 0;
                }
                self.moved();
            }
            b'J' => {
                if self.par[0] == 0 {
                    self.clear_down()
                } else {
                    let e = self.erased();
                    for r in &mut self.rows {
                        for c in r {
                            *c = e;
                        }
                    }
                    self.clears += 1;
                }
            }
            b'K' => {
                if self.par[0] == 0 {
                    self.clear_eol()
                } else {
                    self.bad |= 64
                }
            }
            b'm' => {
                let mut i = 0;
                while i <= self.npar {
                    let p = self.par[i];
                    let a = self.attr;
                    self.attr = match p {
                        0 => 0,
                        1 => a | BOLD,
                        2 => a | DIM,
                        3 => a | ITALIC,
                        4 => a | UNDERLINE,
                        7 => a | INVERSE,
                        22 => a & !(BOLD | DIM),
                        23 => a & !ITALIC,
                        24 => a & !UNDERLINE,
                        27 => a & !INVERSE,
                        30..=37 => a & !0xff | (p - 29),
                        39 => a & !0xff,
                        40..=47 => a & !0xff00 | ((p - 39) << 8),
                        49 => a & !0xff00,
                        90..=97 => a & !0xff | (p - 81),
                        100..=107 => a & !0xff00 | ((p - 91) << 8),
                        38 | 48 => {
                            let k;
                            if i + 2 <= self.npar && self.par[i + 1] == 5 {
                                k = self.par[i + 2] & 0xff;
                                i += 2;
                            } else {
                                self.bad |= 64;
                                k = 0;
                            }
                            if p == 38 {
                                a & !0xff | (k + 1)
                            } else {
                                a & !0xff00 | ((k + 1) << 8)
                            }
                        }
                        _ => {
                            self.bad |= 64;
                            a
                        }
                    };
                    i += 1;
                }
            }
            _ => self.bad |= 64,
        }
    }
}

/// What can be seen of a cell's attributes.
pub fn seen(c: &Cell) -> u32 {
    if c.ch == 32 && c.mark == 0 && c.attr & (UNDERLINE | INVERSE) == 0 {
        c.attr & 0xff00
    } else {
        c.attr
    }
}
