//! C06 - C09: lines and the history list.
use crate::model::*;
use crate::rt::*;
use liso::*;

// ------------------------------------------------------------------
// C06

/// One line-building operation with symbolic arguments.
fn build_op(l: &mut Line, m: &mut ML, k: usize, nch: usize, classes: u8) {
    match k {
        0 => {
            let (s, c) = any_str(nch, classes);
            l.add_text(s);
            m.text(&c);
        }
        1 => {
            let (s, b) = any_style();
            l.set_style(s);
            m.style(b);
        }
        2 => {
            let (c, n) = any_color();
            l.set_fg_color(c);
            m.fg(n);
        }
        3 => {
            let (c, n) = any_color();
            l.set_bg_color(c);
            m.bg(n);
        }
        4 => {
            let (s, b) = any_style();
            l.toggle_style(s);
            m.cur ^= b;
        }
        5 => {
            let (s, b) = any_style();
            l.activate_style(s);
            m.cur |= b;
        }
        6 => {
            let (s, b) = any_style();
            l.deactivate_style(s);
            m.cur &= !b;
        }
        7 => {
            let (f, a) = any_color();
            let (g, b) = any_color();
            l.set_colors(f, g);
            m.fg(a);
            m.bg(b);
        }
        8 => {
            l.reset_all();
            m.cur = 0;
        }
        9 => {
            l.reset_and_break();
            m.text(&[10]);
            m.cur = 0;
        }
        _ => {
            l.clear_style();
            m.style(0);
        }
    }
}
fn build_check(l: &Line, m: &ML) {
    check(m.same(l), "the line does not hold exactly the text and attributes given");
    check(m.same_state(l), "the attributes in force are not those last set");
    for c in l.chars() {
        observe(c.ch as u64);
        observe(attr_of(c.style, c.fg, c.bg) as u64);
    }
    let s = plain(&m.v);
    check(l.as_str() == s.as_str(), "as_str is not the text");
    let c = l.clone();
    check(c == *l, "a clone differs");
}

/// Sequences of operations, with short text.
#[no_mangle]
pub extern "C" fn entry_c06_ops() {
    let mut l = Line::new();
    let mut m = ML::new();
    let n = if thorough() { 6 } else { 5 };
    for i in 0..n {
        // text at every other place: attributes matter only with text
        let k = if i % 2 == 1 { 0 } else { pick(11) };
        build_op(&mut l, &mut m, k, 1, ASCII);
    }
    build_check(&l, &m);
    cover(1);
}
/// Two attribute changes in a row.
#[no_mangle]
pub extern "C" fn entry_c06_pairs() {
    let mut l = Line::new();
    let mut m = ML::new();
    if flip() {
        build_op(&mut l, &mut m, 0, 1, ASCII);
    }
    let n = if thorough() { 4 } else { 3 };
    for _ in 0..n {
        let k = pick(11);
        build_op(&mut l, &mut m, k, 1, ASCII);
    }
    build_op(&mut l, &mut m, 0, 1, ASCII);
    build_check(&l, &m);
}
/// One piece of `liso!` (number `k`), followed by text or not.
fn macro_piece(l: &mut Line, m: &mut ML, k: usize) {
    let (c, n) = any_color();
    let _ = c;
    match k {
        0 => {
            if flip() {
                liso_add!(l, reset, "x");
            } else {
                liso_add!(l, reset);
                liso_add!(l, "x");
            }
            m.cur = 0;
        }
        1 => {
            if flip() {
                liso_add!(l, plain, "x");
            } else {
                liso_add!(l, plain);
                liso_add!(l, "x");
            }
            m.style(0);
        }
        2 => {
            if flip() {
                liso_add!(l, bold, "x");
            } else {
                liso_add!(l, bold);
                liso_add!(l, "x");
            }
            m.style(1 << 16);
        }
        3 => {
            if flip() {
                liso_add!(l, +bold, "x");
            } else {
                liso_add!(l, +bold);
                liso_add!(l, "x");
            }
            m.cur |= 1 << 16;
        }
        4 => {
            if flip() {
                liso_add!(l, -bold, "x");
            } else {
                liso_add!(l, -bold);
                liso_add!(l, "x");
            }
            m.cur &= !(1 << 16);
        }
        5 => {
            if flip() {
                liso_add!(l, ^bold, "x");
            } else {
                liso_add!(l, ^bold);
                liso_add!(l, "x");
            }
            m.cur ^= 1 << 16;
        }
        6 => {
            if flip() {
                liso_add!(l, dim, "x");
            } else {
                liso_add!(l, dim);
                liso_add!(l, "x");
            }
            m.style(2 << 16);
        }
        7 => {
            if flip() {
                liso_add!(l, +dim, "x");
            } else {
                liso_add!(l, +dim);
                liso_add!(l, "x");
            }
            m.cur |= 2 << 16;
        }
        8 => {
            if flip() {
                liso_add!(l, -dim, "x");
            } else {
                liso_add!(l, -dim);
                liso_add!(l, "x");
            }
            m.cur &= !(2 << 16);
        }
        9 => {
            if flip() {
                liso_add!(l, ^dim, "x");
            } else {
                liso_add!(l, ^dim);
                liso_add!(l, "x");
            }
            m.cur ^= 2 << 16;
        }
        10 => {
            if flip() {
                liso_add!(l, underline, "x");
            } else {
                liso_add!(l, underline);
                liso_add!(l, "x");
            }
            m.style(4 << 16);
        }
        11 => {
            if flip() {
                liso_add!(l, +underline, "x");
            } else {
                liso_add!(l, +underline);
                liso_add!(l, "x");
            }
            m.cur |= 4 << 16;
        }
        12 => {
            if flip() {
                liso_add!(l, -underline, "x");
            } else {
                liso_add!(l, -underline);
                liso_add!(l, "x");
            }
            m.cur &= !(4 << 16);
        }
        13 => {
            if flip() {
                liso_add!(l, ^underline, "x");
            } else {
                liso_add!(l, ^underline);
                liso_add!(l, "x");
            }
            m.cur ^= 4 << 16;
        }
        14 => {
            if flip() {
                liso_add!(l, inverse, "x");
            } else {
                liso_add!(l, inverse);
                liso_add!(l, "x");
            }
            m.style(8 << 16);
        }
        15 => {
            if flip() {
                liso_add!(l, +inverse, "x");
            } else {
                liso_add!(l, +inverse);
                liso_add!(l, "x");
            }
            m.cur |= 8 << 16;
        }
        16 => {
            if flip() {
                liso_add!(l, -inverse, "x");
            } else {
                liso_add!(l, -inverse);
                liso_add!(l, "x");
            }
            m.cur &= !(8 << 16);
        }
        17 => {
            if flip() {
                liso_add!(l, ^inverse, "x");
            } else {
                liso_add!(l, ^inverse);
                liso_add!(l, "x");
            }
            m.cur ^= 8 << 16;
        }
        18 => {
            if flip() {
                liso_add!(l, reverse, "x");
            } else {
                liso_add!(l, reverse);
                liso_add!(l, "x");
            }
            m.style(8 << 16);
        }
        19 => {
            if flip() {
                liso_add!(l, +reverse, "x");
            } else {
                liso_add!(l, +reverse);
                liso_add!(l, "x");
            }
            m.cur |= 8 << 16;
        }
        20 => {
            if flip() {
                liso_add!(l, -reverse, "x");
            } else {
                liso_add!(l, -reverse);
                liso_add!(l, "x");
            }
            m.cur &= !(8 << 16);
        }
        21 => {
            if flip() {
                liso_add!(l, ^reverse, "x");
            } else {
                liso_add!(l, ^reverse);
                liso_add!(l, "x");
            }
            m.cur ^= 8 << 16;
        }
        22 => {
            if flip() {
                liso_add!(l, italic, "x");
            } else {
                liso_add!(l, italic);
                liso_add!(l, "x");
            }
            m.style(16 << 16);
        }
        23 => {
            if flip() {
                liso_add!(l, +italic, "x");
            } else {
                liso_add!(l, +italic);
                liso_add!(l, "x");
            }
            m.cur |= 16 << 16;
        }
        24 => {
            if flip() {
                liso_add!(l, -italic, "x");
            } else {
                liso_add!(l, -italic);
                liso_add!(l, "x");
            }
            m.cur &= !(16 << 16);
        }
        25 => {
            if flip() {
                liso_add!(l, ^italic, "x");
            } else {
                liso_add!(l, ^italic);
                liso_add!(l, "x");
            }
            m.cur ^= 16 << 16;
        }
        26 => {
            if flip() {
                liso_add!(l, fg = black, "x");
            } else {
                liso_add!(l, fg = black);
                liso_add!(l, "x");
            }
            m.fg(1);
        }
        27 => {
            if flip() {
                liso_add!(l, fg = Black, "x");
            } else {
                liso_add!(l, fg = Black);
                liso_add!(l, "x");
            }
            m.fg(1);
        }
        28 => {
            if flip() {
                liso_add!(l, bg = black, "x");
            } else {
                liso_add!(l, bg = black);
                liso_add!(l, "x");
            }
            m.bg(1);
        }
        29 => {
            if flip() {
                liso_add!(l, bg = Black, "x");
            } else {
                liso_add!(l, bg = Black);
                liso_add!(l, "x");
            }
            m.bg(1);
        }
        30 => {
            if flip() {
                liso_add!(l, fg = red, "x");
            } else {
                liso_add!(l, fg = red);
                liso_add!(l, "x");
            }
            m.fg(2);
        }
        31 => {
            if flip() {
                liso_add!(l, fg = Red, "x");
            } else {
                liso_add!(l, fg = Red);
                liso_add!(l, "x");
            }
            m.fg(2);
        }
        32 => {
            if flip() {
                liso_add!(l, bg = red, "x");
            } else {
                liso_add!(l, bg = red);
                liso_add!(l, "x");
            }
            m.bg(2);
        }
        33 => {
            if flip() {
                liso_add!(l, bg = Red, "x");
            } else {
                liso_add!(l, bg = Red);
                liso_add!(l, "x");
            }
            m.bg(2);
        }
        34 => {
            if flip() {
                liso_add!(l, fg = green, "x");
            } else {
                liso_add!(l, fg = green);
                liso_add!(l, "x");
            }
            m.fg(3);
        }
        35 => {
            if flip() {
                liso_add!(l, fg = Green, "x");
            } else {
                liso_add!(l, fg = Green);
                liso_add!(l, "x");
            }
            m.fg(3);
        }
        36 => {
            if flip() {
                liso_add!(l, bg = green, "x");
            } else {
                liso_add!(l, bg = green);
                liso_add!(l, "x");
            }
            m.bg(3);
        }
        37 => {
            if flip() {
                liso_add!(l, bg = Green, "x");
            } else {
                liso_add!(l, bg = Green);
                liso_add!(l, "x");
            }
            m.bg(3);
        }
        38 => {
            if flip() {
                liso_add!(l, fg = yellow, "x");
            } else {
                liso_add!(l, fg = yellow);
                liso_add!(l, "x");
            }
            m.fg(4);
        }
        39 => {
            if flip() {
                liso_add!(l, fg = Yellow, "x");
            } else {
                liso_add!(l, fg = Yellow);
                liso_add!(l, "x");
            }
            m.fg(4);
        }
        40 => {
            if flip() {
                liso_add!(l, bg = yellow, "x");
            } else {
                liso_add!(l, bg = yellow);
                liso_add!(l, "x");
            }
            m.bg(4);
        }
        41 => {
            if flip() {
                liso_add!(l, bg = Yellow, "x");
            } else {
                liso_add!(l, bg = Yellow);
                liso_add!(l, "x");
            }
            m.bg(4);
        }
        42 => {
            if flip() {
                liso_add!(l, fg = blue, "x");
            } else {
                liso_add!(l, fg = blue);
                liso_add!(l, "x");
            }
            m.fg(5);
        }
        43 => {
            if flip() {
                liso_add!(l, fg = Blue, "x");
            } else {
                liso_add!(l, fg = Blue);
                liso_add!(l, "x");
            }
            m.fg(5);
        }
        44 => {
            if flip() {
                liso_add!(l, bg = blue, "x");
            } else {
                liso_add!(l, bg = blue);
                liso_add!(l, "x");
            }
            m.bg(5);
        }
        45 => {
            if flip() {
                liso_add!(l, bg = Blue, "x");
            } else {
                liso_add!(l, bg = Blue);
                liso_add!(l, "x");
            }
            m.bg(5);
        }
        46 => {
            if flip() {
                liso_add!(l, fg = magenta, "x");
            } else {
                liso_add!(l, fg = magenta);
                liso_add!(l, "x");
            }
            m.fg(6);
        }
        47 => {
            if flip() {
                liso_add!(l, fg = Magenta, "x");
            } else {
                liso_add!(l, fg = Magenta);
                liso_add!(l, "x");
            }
            m.fg(6);
        }
        48 => {
            if flip() {
                liso_add!(l, bg = magenta, "x");
            } else {
                liso_add!(l, bg = magenta);
                liso_add!(l, "x");
            }
            m.bg(6);
        }
        49 => {
            if flip() {
                liso_add!(l, bg = Magenta, "x");
            } else {
                liso_add!(l, bg = Magenta);
                liso_add!(l, "x");
            }
            m.bg(6);
        }
        50 => {
            if flip() {
                liso_add!(l, fg = cyan, "x");
            } else {
                liso_add!(l, fg = cyan);
                liso_add!(l, "x");
            }
            m.fg(7);
        }
        51 => {
            if flip() {
                liso_add!(l, fg = Cyan, "x");
            } else {
                liso_add!(l, fg = Cyan);
                liso_add!(l, "x");
            }
            m.fg(7);
        }
        52 => {
            if flip() {
                liso_add!(l, bg = cyan, "x");
            } else {
                liso_add!(l, bg = cyan);
                liso_add!(l, "x");
            }
            m.bg(7);
        }
        53 => {
            if flip() {
                liso_add!(l, bg = Cyan, "x");
            } else {
                liso_add!(l, bg = Cyan);
                liso_add!(l, "x");
            }
            m.bg(7);
        }
        54 => {
            if flip() {
                liso_add!(l, fg = white, "x");
            } else {
                liso_add!(l, fg = white);
                liso_add!(l, "x");
            }
            m.fg(8);
        }
        55 => {
            if flip() {
                liso_add!(l, fg = White, "x");
            } else {
                liso_add!(l, fg = White);
                liso_add!(l, "x");
            }
            m.fg(8);
        }
        56 => {
            if flip() {
                liso_add!(l, bg = white, "x");
            } else {
                liso_add!(l, bg = white);
                liso_add!(l, "x");
            }
            m.bg(8);
        }
        57 => {
            if flip() {
                liso_add!(l, bg = White, "x");
            } else {
                liso_add!(l, bg = White);
                liso_add!(l, "x");
            }
            m.bg(8);
        }
        58 => {
            if flip() {
                liso_add!(l, fg = none, "x");
            } else {
                liso_add!(l, fg = none);
                liso_add!(l, "x");
            }
            m.fg(0);
        }
        59 => {
            if flip() {
                liso_add!(l, fg = None, "x");
            } else {
                liso_add!(l, fg = None);
                liso_add!(l, "x");
            }
            m.fg(0);
        }
        60 => {
            if flip() {
                liso_add!(l, fg = c, "x");
            } else {
                liso_add!(l, fg = c);
                liso_add!(l, "x");
            }
            m.fg(n);
        }
        61 => {
            if flip() {
                liso_add!(l, fg = (COLORS[n as usize]), "x");
            } else {
                liso_add!(l, fg = (COLORS[n as usize]));
                liso_add!(l, "x");
            }
            m.fg(n);
        }
        62 => {
            if flip() {
                liso_add!(l, fg = Some(Color::Cyan), "x");
            } else {
                liso_add!(l, fg = Some(Color::Cyan));
                liso_add!(l, "x");
            }
            m.fg(7);
        }
        63 => {
            if flip() {
                liso_add!(l, bg = none, "x");
            } else {
                liso_add!(l, bg = none);
                liso_add!(l, "x");
            }
            m.bg(0);
        }
        64 => {
            if flip() {
                liso_add!(l, bg = None, "x");
            } else {
                liso_add!(l, bg = None);
                liso_add!(l, "x");
            }
            m.bg(0);
        }
        65 => {
            if flip() {
                liso_add!(l, bg = c, "x");
            } else {
                liso_add!(l, bg = c);
                liso_add!(l, "x");
            }
            m.bg(n);
        }
        66 => {
            if flip() {
                liso_add!(l, bg = (COLORS[n as usize]), "x");
            } else {
                liso_add!(l, bg = (COLORS[n as usize]));
                liso_add!(l, "x");
            }
            m.bg(n);
        }
        67 => {
            if flip() {
                liso_add!(l, bg = Some(Color::Cyan), "x");
            } else {
                liso_add!(l, bg = Some(Color::Cyan));
                liso_add!(l, "x");
            }
            m.bg(7);
        }
        68 => {
            if flip() {
                liso_add!(l, ansi "\x1b[1;31m", "x");
            } else {
                liso_add!(l, ansi "\x1b[1;31m");
                liso_add!(l, "x");
            }
            m.cur |= 1 << 16; m.fg(2);
        }
        69 => {
            if flip() {
                liso_add!(l, bold+underline, "x");
            } else {
                liso_add!(l, bold+underline);
                liso_add!(l, "x");
            }
            m.style(5 << 16);
        }
        _ => {
            if flip() {
                liso_add!(l, plain ^italic -bold +dim, "x");
            } else {
                liso_add!(l, plain ^italic -bold +dim);
                liso_add!(l, "x");
            }
            m.style(18 << 16);
        }
    }
    m.text(&[120]);
}
const PIECES: usize = 71;
/// Every piece of `liso!`, after any attributes.
#[no_mangle]
pub extern "C" fn entry_c06_macro() {
    let mut l = Line::new();
    let mut m = ML::new();
    let (s, b) = any_style();
    let (f, g) = (any_color(), any_color());
    l.set_style(s).set_colors(f.0, g.0);
    m.style(b);
    m.fg(f.1);
    m.bg(g.1);
    if flip() {
        build_op(&mut l, &mut m, 0, 1, ASCII);
    }
    macro_piece(&mut l, &mut m, pick(PIECES));
    if thorough() {
        macro_piece(&mut l, &mut m, pick(PIECES));
    }
    build_check(&l, &m);
}
/// Whole lines built by one `liso!`.
#[no_mangle]
pub extern "C" fn entry_c06_liso() {
    let mut m = ML::new();
    let (c, n) = any_color();
    let (d, k) = any_color();
    let (s, v) = any_str(pick(3), ASCII | CTRL | TWO);
    let t = &s[..];
    let l = match pick(6) {
        0 => {
            m.fg(n);
            m.text(&v);
            m.bg(k);
            m.text(&[65]);
            m.style(1 << 16);
            m.text(&v);
            liso!(fg = c, t, bg = d, "A", bold, t)
        }
        1 => {
            m.style(5 << 16);
            m.text(&v);
            m.cur |= 16 << 16;
            m.bg(k);
            m.text(&[65]);
            m.cur = 0;
            m.text(&v);
            liso!(bold + underline t, +italic bg = d, "A", reset, s.clone())
        }
        2 => {
            m.text(&v);
            m.cur ^= 8 << 16;
            m.text(&v);
            m.cur ^= 8 << 16;
            m.fg(2);
            m.text(&[66]);
            liso!(t, ^inverse t, ^inverse fg = red, "B",)
        }
        3 => {
            m.style(3 << 16);
            m.cur &= !(2 << 16);
            m.fg(k);
            m.bg(n);
            m.text(&v);
            liso!(bold +dim -dim fg = d, bg = c, t)
        }
        4 => {
            m.cur = 3 | 2 << 16;
            m.text(&[67]);
            m.text(&v);
            liso!(ansi "\x1b[2;32mC", t)
        }
        _ => liso!(),
    };
    build_check(&l, &m);
}
/// Text of every kind, in every attribute.
#[no_mangle]
pub extern "C" fn entry_c06_text() {
    let mut l = Line::new();
    let mut m = ML::new();
    let (s, b) = any_style();
    l.set_style(s);
    m.style(b);
    let n = 1 + pick(if thorough() { 3 } else { 2 });
    let (s, c) = any_str(n, ASCII | CTRL | TWO | THREE | FOUR);
    // text may come as any of three types
    match pick(3) {
        0 => drop(l.add_text(s)),
        1 => drop(l.add_text(&s[..])),
        _ => drop(l.add_text(std::borrow::Cow::Borrowed(&s[..]))),
    }
    m.text(&c);
    build_op(&mut l, &mut m, 0, 1, ASCII);
    build_check(&l, &m);
    cover(1);
}
/// The constructors are the same as adding the text to a new line.
#[no_mangle]
pub extern "C" fn entry_c06_from() {
    let n = 1 + pick(2);
    let (s, c) = any_str(n, ASCII | CTRL | TWO | THREE);
    let mut m = ML::new();
    m.text(&c);
    let l = match pick(6) {
        0 => Line::from_str(&s),
        1 => Line::from_string(s),
        2 => Line::from_cow(std::borrow::Cow::Borrowed(&s)),
        3 => Line::from(&s[..]),
        4 => Line::from(s),
        _ => s.parse::<Line>().unwrap(),
    };
    build_check(&l, &m);
}
/// Appending a line adds its characters with its attributes.
#[no_mangle]
pub extern "C" fn entry_c06_append() {
    let (mut a, mut ma) = (Line::new(), ML::new());
    let (mut b, mut mb) = (Line::new(), ML::new());
    static K: [usize; 4] = [0, 1, 2, 7];
    for _ in 0..2 {
        let k = pick(5);
        if k < 4 {
            build_op(&mut a, &mut ma, K[k], 1, ASCII);
        }
    }
    let n = if thorough() { 4 } else { 3 };
    for i in 0..n {
        let k = pick(4);
        if k < 3 {
            build_op(&mut b, &mut mb, k, 1, if i == 1 { ASCII | NL } else { ASCII });
        }
    }
    // the appended line's attributes are those its text was given
    a.append_line(&b);
    for (c, at) in &mb.v {
        ma.v.push((*c, *at));
    }
    check(ma.same(&a), "append_line does not add exactly the other line's text and attributes");
    // a line that has said nothing changes nothing
    if !mb.v.is_empty() || mb.cur != 0 {
        ma.cur = mb.cur;
        check(ma.same_state(&a), "append_line does not leave the appended line's attributes in force");
    }
    build_op(&mut a, &mut ma, 0, 1, ASCII);
    check(ma.same(&a) || mb.v.is_empty(), "text after append_line");
    mb.same(&b);
    check(mb.same(&b), "append_line changed its argument");
}
/// Comparison of characters and lines.
#[no_mangle]
pub extern "C" fn entry_c06_eq() {
    let (mut a, mut ma) = (Line::new(), ML::new());
    let (mut b, mut mb) = (Line::new(), ML::new());
    for _ in 0..2 {
        build_op(&mut a, &mut ma, 1, 1, ASCII);
        build_op(&mut a, &mut ma, 2, 1, ASCII);
        build_op(&mut a, &mut ma, 0, 1, ASCII);
        build_op(&mut b, &mut mb, 1, 1, ASCII);
        build_op(&mut b, &mut mb, 2, 1, ASCII);
        build_op(&mut b, &mut mb, 0, 1, ASCII);
    }
    let mut same = true;
    for i in 0..2 {
        same &= ma.v[i] == mb.v[i];
    }
    let ca: Vec<_> = a.chars().collect();
    let cb: Vec<_> = b.chars().collect();
    check((ca == cb) == same, "characters compare equal exactly when text and attributes agree");
    if a == b {
        check(same, "lines compare equal though they differ");
    }
}
/// Rows that may be filled alike really look alike.
#[no_mangle]
pub extern "C" fn entry_c06_endfill() {
    let (mut a, mut ma) = (Line::new(), ML::new());
    let (mut b, mut mb) = (Line::new(), ML::new());
    for (l, m) in [(&mut a, &mut ma), (&mut b, &mut mb)] {
        build_op(l, m, 1, 1, ASCII);
        build_op(l, m, 7, 1, ASCII);
        build_op(l, m, 0, 1, ASCII);
    }
    let (x, y) = (a.chars().next().unwrap(), b.chars().next().unwrap());
    let r = x.endfills_same_as(&y);
    check(r == y.endfills_same_as(&x), "not symmetric");
    let (p, q) = (ma.v[0].1, mb.v[0].1);
    // bits: 2 = underline, 3 = inverse
    let ul = (p >> 18) & 1;
    let inv = (p >> 19) & 1;
    let same_flags = ((p ^ q) >> 18) & 3 == 0;
    let fgs = (p ^ q) & 0xff == 0;
    let bgs = (p ^ q) & 0xff00 == 0;
    let mut alike = same_flags;
    alike &= if inv == 1 { fgs } else { bgs };
    alike &= if ul == 1 { if inv == 1 { bgs } else { fgs } } else { true };
    check(!r | alike, "spaces that can be told apart are said to be the same");
    check(!(p == q) | r, "identical attributes are said to differ");
}

// ------------------------------------------------------------------
// C07

/// The reference interpretation of ANSI text.
pub fn ansi_model(m: &mut ML, b: &[u32]) {
    let mut i = 0;
    while i < b.len() {
        if b[i] == 27 && i + 1 < b.len() && b[i + 1] == b'[' as u32 {
            let mut j = i + 2;
            while j < b.len() && b[j] >= 0x30 && b[j] <= 0x3f {
                j += 1;
            }
            if j < b.len() && b[j] == b'm' as u32 {
                let p = &b[i + 2..j];
                let plain = p.iter().fold(true, |a, c| a & ((*c < 0x3a) | (*c == 0x3b)));
                if plain {
                    sgr(m, p);
                    i = j + 1;
                    continue;
                }
            }
            // not a sequence we support: unchanged
            m.text(&b[i..i + 2]);
            i += 2;
            continue;
        }
        m.text(&b[i..i + 1]);
        i += 1;
    }
}
fn sgr(m: &mut ML, p: &[u32]) {
    let mut nums: Vec<u32> = vec![0];
    for &c in p {
        if c == b';' as u32 {
            nums.push(0);
        } else {
            let k = nums.len() - 1;
            nums[k] = (nums[k].min(100000)) * 10 + (c - 48);
        }
    }
    let mut i = 0;
    while i < nums.len() {
        let n = nums[i];
        i += 1;
        // colours first: they stay symbolic
        if n >= 30 && n < 38 {
            m.fg(n - 29);
        } else if n >= 40 && n < 48 {
            m.bg(n - 39);
        } else {
            match n {
                0 => m.cur = 0,
                1 => m.cur |= 1 << 16,
                2 => m.cur |= 2 << 16,
                3 => m.cur |= 16 << 16,
                4 => m.cur |= 4 << 16,
                7 => m.cur |= 8 << 16,
                21 => m.cur &= !(1 << 16),
                22 => m.cur &= !(3 << 16),
                23 => m.cur &= !(16 << 16),
                24 => m.cur &= !(4 << 16),
                27 => m.cur &= !(8 << 16),
                39 => m.fg(0),
                49 => m.bg(0),
                38 | 48 | 58 => {
                    // extended colours are not supported; their arguments
                    // are not codes of their own
                    match nums.get(i) {
                        Some(5) => i += 2,
                        Some(2) => i += 4,
                        Some(_) => i += 1,
                        None => (),
                    }
                }
                _ => (),
            }
        }
    }
}
fn ansi_run(t: Vec<u8>) {
    let c = codes(unsafe { std::str::from_utf8_unchecked(&t) });
    let mut l = Line::new();
    let mut m = ML::new();
    // something is in force already
    let (s, b) = any_style();
    l.set_style(s);
    m.style(b);
    let (f, n) = any_color();
    l.set_fg_color(f);
    m.fg(n);
    l.add_ansi_text(string(t));
    ansi_model(&mut m, &c);
    for c in l.chars() {
        observe(c.ch as u64);
        observe(attr_of(c.style, c.fg, c.bg) as u64);
    }
    check(m.same(&l), "ANSI text is not interpreted as documented");
    check(m.same_state(&l), "the attributes after ANSI text are not those it asks for");
}
/// Any single parameter of up to three digits.
#[no_mangle]
pub extern "C" fn entry_c07_one() {
    let n = pick(4);
    let mut t = vec![b'a', 27, b'['];
    for _ in 0..n {
        let d = below(10);
        t.push(b'0' + d);
    }
    t.push(b'm');
    t.push(b'b');
    ansi_run(t);
    cover(1);
}
/// Two parameters of up to two digits, either possibly empty.
#[no_mangle]
pub extern "C" fn entry_c07_two() {
    let mut t = vec![27, b'['];
    for i in 0..2 {
        if i > 0 {
            t.push(b';');
        }
        for _ in 0..pick(3) {
            let d = below(10);
            t.push(b'0' + d);
        }
    }
    t.push(b'm');
    t.push(b'b');
    ansi_run(t);
}
/// Extended colours followed by another code.
#[no_mangle]
pub extern "C" fn entry_c07_ext() {
    let mut t = vec![27, b'['];
    t.extend_from_slice([&b"38"[..], b"48", b"58"][pick(3)]);
    let n = 1 + pick(6);
    for i in 0..n {
        t.push(b';');
        if i == 0 {
            t.push(b'2' + 3 * below(2));
        } else {
            let d = below(10);
            t.push(b'0' + d);
        }
    }
    t.push(b'm');
    t.push(b'b');
    ansi_run(t);
}
/// Arbitrary bytes of the alphabet escape sequences are made of.
#[no_mangle]
pub extern "C" fn entry_c07_any() {
    let n = if thorough() { 6 } else { 5 };
    let mut t = vec![];
    for _ in 0..n {
        static A: &[u8; 12] = b"\x1b[m1;?0 x3:\n";
        let k = below(12);
        t.push(A[k as usize]);
    }
    ansi_run(t);
    cover(1);
}
/// Arbitrary ASCII around a sequence.
#[no_mangle]
pub extern "C" fn entry_c07_ascii() {
    let mut t = vec![];
    let pre = pick(if thorough() { 3 } else { 2 });
    for _ in 0..pre {
        let b = any();
        assume(b < 0x80);
        t.push(b);
    }
    t.extend_from_slice(b"\x1b[");
    for _ in 0..2 {
        let b = any();
        assume(b < 0x80);
        t.push(b);
    }
    t.push(b'm');
    any_char(&mut t, ASCII | TWO | THREE);
    ansi_run(t);
}
/// Parameters about as large as the numbers they are kept in, and larger.
#[no_mangle]
pub extern "C" fn entry_c07_long() {
    static P: [&str; 8] = [
        "2", "655", "42949672", "42949673", "184467440737095516", "99999999999999999999999", "000", "12345678",
    ];
    let mut t = vec![27, b'['];
    t.extend_from_slice(P[pick(8)].as_bytes());
    for _ in 0..2 {
        let d = below(10);
        t.push(b'0' + d);
    }
    t.push(b'm');
    t.push(b'b');
    ansi_run(t);
}

// ------------------------------------------------------------------
// C08

const LET: u8 = 1;
const SP: u8 = 2;
const NLC: u8 = 4;
const LATIN: u8 = 8;
const CJK: u8 = 16;
const HY: u8 = 32;
const ANY: u8 = 64;

/// A character to be wrapped; its width.
fn wrap_char(s: &mut Vec<u8>, classes: u8) -> (u32, u32) {
    let n = classes.count_ones() as usize;
    let mut k = pick(n);
    let mut c = 0;
    for b in 0..8 {
        if classes & (1 << b) != 0 {
            if k == 0 {
                c = 1 << b;
                break;
            }
            k -= 1;
        }
    }
    match c {
        LET => {
            let b = b'a' + below(26);
            s.push(b);
            (b as u32, 1)
        }
        SP => {
            s.push(b' ');
            (32, 1)
        }
        NLC => {
            s.push(b'\n');
            (10, 0)
        }
        LATIN => {
            // U+00E0..U+00F6
            let b = 0xa0 + below(0x17);
            s.push(0xc3);
            s.push(b);
            (0x40 + b as u32, 1)
        }
        HY => {
            s.push(b'-');
            (b'-' as u32, 1)
        }
        ANY => (any_char(s, ASCII), 1),
        _ => (any_char(s, WIDE), 2),
    }
}
/// `o` is `i` wrapped to `w`: the same characters and attributes, with line
/// breaks put in place of (possibly empty) runs of spaces.
fn wrap_ok(i: &[(u32, u32, u32)], o: &[(u32, u32, u32)], w: u32) -> bool {
    let mut ok = true;
    let (mut a, mut b) = (0, 0);
    // the width of the row so far and the number of characters in it
    let (mut rw, mut rn) = (0, 0);
    // the width of the current paragraph
    let para = |a: usize| {
        let mut n = 0;
        for x in &i[a..] {
            if x.0 == 10 {
                break;
            }
            n += x.2;
        }
        n
    };
    let mut pw = para(0);
    loop {
        // spaces from here on
        let mut e = a;
        while e < i.len() && i[e].0 == 32 {
            e += 1;
        }
        let at_end = e == i.len() || i[e].0 == 10;
        if b == o.len() || o[b].0 == 10 {
            // the end of a row
            if a < i.len() && i[a].0 == 10 && b < o.len() {
                a += 1;
                pw = para(a);
            } else if at_end {
                // nothing but spaces that do not fit may be left out
                if e > a && rw + (e - a) as u32 <= w {
                    return false;
                }
                a = e;
                if b == o.len() {
                    return ok && a == i.len();
                }
                if a == i.len() {
                    return false;
                }
                a += 1;
                pw = para(a);
            } else {
                if b == o.len() || pw <= w {
                    return false;
                }
                // (spaces inside an unbreakable word may stay)
                let mut so = 0;
                let mut q = b + 1;
                while q < o.len() && (o[q].0 == 32 || o[q].0 == 10) {
                    so += (o[q].0 == 32) as usize;
                    q += 1;
                }
                a = e - so.min(e - a);
            }
            b += 1;
            rw = 0;
            rn = 0;
        } else {
            if a == i.len() {
                return false;
            }
            ok &= i[a].0 == o[b].0;
            ok &= i[a].1 == o[b].1;
            rw += i[a].2;
            rn += 1;
            if rw > w && rn > 1 {
                return false;
            }
            a += 1;
            b += 1;
        }
    }
}
fn wrap_run(n: usize, classes: u8, widths: usize, bounds: usize) {
    let mut l = Line::new();
    let mut v = Vec::new();
    let w = 1 + pick(widths) as u32;
    // the places where attributes change
    let p = if bounds > 0 { pick(n) } else { 99 };
    let q = if bounds > 1 { pick(n) } else { 99 };
    let mut at = 0;
    let mut t = Vec::new();
    for i in 0..n {
        if i == p || i == q {
            l.add_text(string(std::mem::take(&mut t)));
            let (c, k) = any_color();
            l.set_bg_color(c);
            at = at & !0xff00 | k << 8;
            if i == q {
                l.set_style(Style::UNDERLINE);
                at |= 4 << 16;
            }
        }
        let (c, cw) = wrap_char(&mut t, classes);
        v.push((c, at, cw));
    }
    l.add_text(string(t));
    let st = l.get_style();
    let co = l.get_colors();
    l.wrap_to_width(w as usize);
    let mut o = Vec::new();
    for c in l.chars() {
        let ch = c.ch as u32;
        observe(ch as u64);
        o.push((ch, attr_of(c.style, c.fg, c.bg), 0));
    }
    check(wrap_ok(&v, &o, w), "wrapping loses, changes or fails to wrap something");
    check(l.get_style() == st && l.get_colors() == co, "wrapping changes the attributes in force");
    // the line can still be appended
    let mut l2 = Line::new();
    l2.append_line(&l);
    let mut same = l2.len() == l.len();
    let mut n = 0;
    for c in l2.chars() {
        if n < o.len() {
            same &= c.ch as u32 == o[n].0;
            same &= attr_of(c.style, c.fg, c.bg) == o[n].1;
        }
        n += 1;
    }
    check(same && n == o.len(), "a wrapped line cannot be appended to another");
    // and added to
    l.add_text("z");
    check(l.chars().count() == o.len() + 1, "a wrapped line cannot be added to");
    cover(w);
}
/// Letters, spaces and line breaks.
#[no_mangle]
pub extern "C" fn entry_c08_words() {
    wrap_run(if thorough() { 10 } else { 8 }, LET | SP | NLC, 4, 0);
}
/// Letters and spaces in different attributes.
#[no_mangle]
pub extern "C" fn entry_c08_style() {
    wrap_run(if thorough() { 7 } else { 6 }, LET | SP | NLC, 3, if thorough() { 2 } else { 1 });
}
/// Wide and multi-byte characters.
#[no_mangle]
pub extern "C" fn entry_c08_wide() {
    if thorough() {
        wrap_run(4, LET | SP | NLC | LATIN | CJK, 3, 1);
    } else {
        wrap_run(4, LET | SP | NLC | CJK, 3, 0);
    }
}
/// Multi-byte characters.
#[no_mangle]
pub extern "C" fn entry_c08_multi() {
    wrap_run(if thorough() { 5 } else { 4 }, SP | NLC | LATIN, 2, 1);
}
/// One arbitrary printable ASCII character among letters, spaces and hyphens.
#[no_mangle]
pub extern "C" fn entry_c08_punct() {
    let n = if thorough() { 5 } else { 4 };
    let k = pick(n);
    let mut t = Vec::new();
    let mut v = Vec::new();
    for i in 0..n {
        let cw = if i == k { wrap_char(&mut t, ANY) } else { wrap_char(&mut t, LET | SP | HY) };
        v.push((cw.0, 0, cw.1));
    }
    // (spaces come from their own class)
    assume(v[k].0 != 32);
    let mut l = Line::from_string(string(t));
    let w = 1 + pick(3) as u32;
    l.wrap_to_width(w as usize);
    let mut o = Vec::new();
    for c in l.chars() {
        o.push((c.ch as u32, attr_of(c.style, c.fg, c.bg), 0));
    }
    check(wrap_ok(&v, &o, w), "wrapping loses, changes or fails to wrap something");
}
