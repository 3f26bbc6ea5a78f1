//! Prompt options: C17. Starting and stopping: C15. Suspending: C16.
use crate::env;
use crate::keys::*;
use crate::rt::*;
use crate::tty::*;
use crate::model::*;
use liso::*;
use std::time::Duration;

fn prompt(k: &mut Keys) {
    static P: [&str; 3] = ["", "> ", "ask"];
    let p = P[pick(3)];
    let allowed = flip();
    let clear = flip();
    if p.is_empty() && flip() {
        #[allow(deprecated)]
        k.io.remove_prompt(allowed, clear);
    } else {
        k.io.prompt(p, allowed, clear);
    }
    k.m.prompt = t(p);
    k.m.allowed = allowed;
    if clear {
        k.m.input.v.clear();
        k.m.cursor = 0;
        k.forget();
    }
}
/// Any prompts around any keys.
#[no_mangle]
pub extern "C" fn entry_c17_any() {
    let mut k = Keys::new(5);
    for i in 0..(if thorough() { 5 } else { 4 }) {
        if i % 2 == 0 {
            static KEYS: [&[u8]; 8] = [b"q", b"\x02", b"\x01", b"\x7f", b"\x0b", b"\r", b"\x14", b"\x07"];
            press(&mut k, KEYS[pick(8)]);
            let b = b'a' + below(26);
            env::feed(&[b]);
            k.ascii(b);
        } else {
            prompt(&mut k);
        }
        k.check();
    }
    k.end();
}
/// The same prompts with different options, one after another.
#[no_mangle]
pub extern "C" fn entry_c17_again() {
    let mut k = Keys::new(5);
    let b = b'a' + below(26);
    env::feed(&[b, b'x', 2]);
    k.ascii(b);
    k.ascii(b'x');
    k.ascii(2);
    k.check();
    for _ in 0..(if thorough() { 4 } else { 3 }) {
        prompt(&mut k);
        if flip() {
            k.check();
        }
    }
    press(&mut k, b"y");
    k.check();
    k.io.prompt(">", true, false);
    k.m.prompt = t(">");
    k.m.allowed = true;
    press(&mut k, b"z");
    k.check();
    press(&mut k, b"\r");
    k.check();
    k.end();
}
/// Every key while input is not allowed.
#[no_mangle]
pub extern "C" fn entry_c17_refuse() {
    let mut k = Keys::new(5);
    press(&mut k, b"h");
    press(&mut k, b"\r");
    press(&mut k, b"a");
    press(&mut k, b"b");
    press(&mut k, b"\x02");
    k.check();
    k.io.prompt("$", false, false);
    k.m.prompt = t("$");
    k.m.allowed = false;
    k.check();
    for _ in 0..2 {
        match pick(3) {
            0 => {
                let b = any();
                assume(b < 128 && b != 27);
                env::feed(&[b]);
                k.ascii(b);
            }
            1 => {
                static C: [&[u8]; 7] = [b"\x1b[A", b"\x1b[B", b"\x1b[C", b"\x1b[D", b"\x1b[3~", b"\x1b[H", b"\x1b[F"];
                press(&mut k, C[pick(7)]);
            }
            _ => {
                env::feed(b"\x1b");
                advance_ms(50);
                k.escape();
            }
        }
        k.check();
    }
    k.io.prompt("$", true, false);
    k.m.allowed = true;
    k.check();
    press(&mut k, b"c");
    k.check();
    press(&mut k, b"\r");
    k.check();
    k.end();
}
/// Clearing while a line of the history is being edited.
#[no_mangle]
pub extern "C" fn entry_c17_history() {
    let mut k = Keys::new(5);
    for b in [b"\r", b"h", b"\r"] {
        press(&mut k, b);
    }
    if flip() {
        press(&mut k, b"n");
    }
    for _ in 0..pick(3) {
        press(&mut k, b"\x10");
    }
    k.check();
    prompt(&mut k);
    k.check();
    k.io.prompt("-", true, false);
    k.m.prompt = t("-");
    k.m.allowed = true;
    for _ in 0..(if thorough() { 3 } else { 2 }) {
        static KEYS: [&[u8]; 3] = [b"\x10", b"\x0e", b"x"];
        press(&mut k, KEYS[pick(3)]);
        k.check();
    }
    press(&mut k, b"\r");
    k.check();
    k.end();
}

// ------------------------------------------------------------------
// C15

/// Everything is as it was before there was an instance.
pub fn sound(m: &Model) {
    m.check_bare(env::screen());
    check(env::cooked(), "the terminal settings are not restored");
    check(env::fds_sound(), "a descriptor is not restored or left open");
    check(env::sighup_handler_restored(), "a signal handler is not restored");
    settle();
    check(threads_alive() == 1, "a thread stays behind");
}
pub fn end(io: InputOutput) {
    match pick(3) {
        0 => drop(io),
        1 => io.blocking_die(),
        _ => wait(io.die()),
    }
}
/// Use a new instance.
pub fn again(m: &mut Model) {
    let mut io = InputOutput::new();
    io.println("p");
    io.prompt("$", true, false);
    m.out.push(t("p"));
    m.status = None;
    m.notice = None;
    m.prompt = t("$");
    m.input = T::new();
    m.cursor = 0;
    m.allowed = true;
    settle();
    env::feed(b"k");
    m.type_char(b'k' as u32, 1);
    settle();
    m.check();
    env::feed(b"\r");
    settle();
    check(matches!(io.try_read(), Some(Response::Input(s)) if s == "k"), "a new instance does not deliver input");
    drop(io);
    sound(m);
}
/// Ended from any state, in any way, then used again.
#[no_mangle]
pub extern "C" fn entry_c15_end() {
    let w = 3;
    env::tty(w as u16);
    let io = InputOutput::new();
    let o = io.clone_output();
    let mut m = Model::new(w);
    for _ in 0..(if thorough() { 3 } else { 2 }) {
        step(&io, &mut m, 10);
        settle();
    }
    // printed, but perhaps not displayed yet
    io.println("l");
    m.out.push(t("l"));
    end(io);
    sound(&m);
    match pick(3) {
        0 => {
            again(&mut m);
            again(&mut m);
        }
        1 => {
            expect_panic(true);
            match pick(5) {
                0 => o.println("x"),
                1 => o.bell(),
                2 => o.prompt("x", true, false),
                3 => o.clone().send_custom(1u8),
                _ => o.suspend_and_run(|| ()),
            }
            check(false, "sending to a dead instance is not refused");
        }
        _ => {
            expect_panic(true);
            let _o = liso::output();
            check(false, "output() does not notice that there is no instance");
        }
    }
    observe_screen();
}
/// Ended while anything is still under way, in any order.
#[no_mangle]
pub extern "C" fn entry_c15_race() {
    let w = 4;
    env::tty(w as u16);
    let io = InputOutput::new();
    let mut m = Model::new(w);
    sched(if thorough() { 2 } else { 1 });
    io.prompt("> ", true, false);
    match pick(5) {
        0 => env::feed(b"ab"),
        1 => env::feed(b"\x1b"),
        2 => io.notice("n", Duration::from_millis(1)),
        3 => io.suspend_and_run(|| ()),
        _ => io.status(Some("s")),
    }
    io.println("l");
    m.out.push(t("l"));
    end(io);
    sched_off();
    sound(&m);
    // (what was typed ahead belongs to whoever reads next)
    if env::unread() == 0 {
        again(&mut m);
    }
}
/// Ended with responses that nobody has read.
#[no_mangle]
pub extern "C" fn entry_c15_unread() {
    let mut k = Keys::new(4);
    for _ in 0..(if thorough() { 2 } else { 1 }) {
        let b = any();
        assume(b < 128 && b != 27);
        env::feed(&[b]);
        k.ascii(b);
        settle();
    }
    if flip() {
        k.io.send_custom(1u8);
    }
    let Keys { io, mut m, .. } = k;
    let o = io.clone_output();
    match pick(3) {
        0 => (),
        1 => io.suspend_and_run(|| (0..20).for_each(|_| std::thread::yield_now())),
        _ => io.notice("n", Duration::from_millis(1)),
    }
    o.println("l");
    m.out.push(t("l"));
    sched(if thorough() { 2 } else { 1 });
    end(io);
    sched_off();
    sound(&m);
}
/// Read from and ended within a program's own runtime, where blocking is not
/// allowed.
#[no_mangle]
pub extern "C" fn entry_c15_async() {
    let w = 4;
    let pipe = flip();
    if pipe {
        env::raw(false, false, Some(b"xterm"));
    } else {
        env::tty(w as u16);
    }
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
    let mut m = Model::new(w);
    let how = pick(4);
    let early = flip();
    rt.block_on(async {
        let mut io = InputOutput::new();
        if !pipe {
            step(&io, &mut m, 8);
            settle();
        }
        // reads that are given up lose nothing
        let n = pick(3);
        if early {
            env::feed(b"a\n");
        }
        for _ in 0..n {
            let r = tokio::time::timeout(Duration::from_millis(5), io.read_async()).await;
            match r {
                Ok(Response::Input(s)) => io.send_custom(s),
                Ok(Response::Custom(x)) => io.send_custom_box(x),
                _ => (),
            }
        }
        if !early {
            env::feed(b"a\n");
        }
        settle();
        if how > 1 {
            let mut got = 0;
            while let Ok(r) = tokio::time::timeout(Duration::from_millis(5), io.read_async()).await {
                match r {
                    Response::Input(_) => got += 1,
                    Response::Custom(_) => got += 1,
                    _ => (),
                }
            }
            check(got == 1, "a response is lost when a reader gives up");
        }
        if how % 2 == 0 {
            drop(io);
        } else {
            io.die().await;
        }
    });
    check(env::fds_sound() && env::sighup_handler_restored(), "a descriptor or signal handler is not restored");
    if !pipe {
        check(env::cooked(), "the terminal settings are not restored");
    }
    settle();
    check(threads_alive() == 1, "a thread stays behind");
}
/// A second instance is refused while there is one; afterwards it is sound.
#[no_mangle]
pub extern "C" fn entry_c15_two() {
    env::tty(4);
    let mut m = Model::new(4);
    if flip() {
        let _io = InputOutput::new();
        if flip() {
            settle();
        }
        expect_panic(true);
        let _io2 = InputOutput::new();
        check(false, "a second instance is not refused");
    }
    let io = InputOutput::new();
    io.println("l");
    m.out.push(t("l"));
    settle();
    sched(if thorough() { 2 } else { 1 });
    // one thread ends it while another wants a new one
    let th = std::thread::spawn(move || drop(io));
    for _ in 0..pick(4) * 6 {
        std::thread::yield_now();
    }
    expect_panic(true);
    let io = InputOutput::new();
    expect_panic(false);
    let _ = th.join();
    sched_off();
    settle();
    check(env::raw_mode(), "an instance was created while another was still being shut down");
    io.prompt("$", true, false);
    m.prompt = t("$");
    settle();
    m.check();
    drop(io);
    sound(&m);
}
/// In pipe mode.
#[no_mangle]
pub extern "C" fn entry_c15_pipe() {
    env::raw(flip(), false, Some(b"xterm\0"));
    let io = InputOutput::new();
    let o = io.clone_output();
    sched(if thorough() { 3 } else { 2 });
    match pick(4) {
        0 => env::feed(b"ab"),
        1 => env::feed(b"ab\ncd\n"),
        2 => env::feed_eof(),
        _ => (),
    }
    o.println("l");
    end(io);
    sched_off();
    check(env::out_log() == b"l\n", "a line printed before the end is lost");
    check(env::fds_sound() && env::sighup_handler_restored(), "a descriptor or signal handler is not restored");
    if flip() {
        settle();
        check(threads_alive() == 1, "a thread stays behind");
    }
    if flip() {
        expect_panic(true);
        o.println("x");
        check(false, "sending to a dead instance is not refused");
    }
    env::clear_log();
    env::mend();
    let mut io = InputOutput::new();
    io.println("m");
    env::feed(b"new\n");
    settle();
    let mut got = false;
    while let Some(r) = io.try_read() {
        got |= matches!(r, Response::Input(s) if s.ends_with("new"));
    }
    check(got, "a new instance does not deliver input");
    drop(io);
    check(env::out_log() == b"m\n", "a new instance does not print");
}
fn read_somehow(io: &mut InputOutput) -> Option<Response> {
    match pick(5) {
        0 => io.try_read(),
        1 => Some(io.read_blocking()),
        2 => io.read_timeout(Duration::from_secs(5)),
        3 => io.read_deadline(std::time::Instant::now() + Duration::from_secs(5)),
        _ => Some(wait(io.read_async())),
    }
}
/// The terminal goes away: readers are told, again and again, but not forever.
#[no_mangle]
pub extern "C" fn entry_c15_dead() {
    env::tty(4);
    let mut io = InputOutput::new();
    settle();
    let last = match pick(4) {
        0 => {
            // input ends
            env::feed(b"\x03");
            env::feed_eof();
            1
        }
        1 => {
            env::feed_error();
            0
        }
        2 => {
            env::fail_stdout(true);
            io.println("x");
            0
        }
        _ => {
            env::feed(b"a\x18");
            settle();
            env::fail_stdout(true);
            io.status(Some("x"));
            1
        }
    };
    settle();
    for _ in 0..last {
        let r = read_somehow(&mut io);
        check(matches!(r, Some(Response::Quit) | Some(Response::Swap)), "a response delivered before the end is lost");
    }
    let n = pick(3) * 4;
    for _ in 0..n {
        let r = io.read_blocking();
        check(matches!(r, Response::Dead), "a reader is not told that the instance is dead");
    }
    if n < 8 {
        let r = read_somehow(&mut io);
        check(matches!(r, Some(Response::Dead)), "a reader is not told that the instance is dead");
        env::mend();
        drop(io);
        check(env::fds_sound(), "a descriptor is not restored or left open");
        return;
    }
    expect_panic(true);
    let _ = read_somehow(&mut io);
    check(false, "a program that ignores the end goes on");
}
static GONE: core::sync::atomic::AtomicBool = core::sync::atomic::AtomicBool::new(false);
struct Mine;
impl Drop for Mine {
    fn drop(&mut self) {
        GONE.store(true, core::sync::atomic::Ordering::SeqCst);
    }
}
/// Whether the program's own panic hook is the one in force (it no longer is
/// afterwards).
fn hook_is_mine() {
    check(!GONE.load(core::sync::atomic::Ordering::SeqCst), "the program's panic hook is lost");
    drop(std::panic::take_hook());
    check(GONE.load(core::sync::atomic::Ordering::SeqCst), "the program's panic hook is not put back");
}
/// What the program does on a panic is as it was before, whenever the terminal
/// is.
#[no_mangle]
pub extern "C" fn entry_c15_hook() {
    let kind = pick(3);
    match kind {
        0 => env::tty(4),
        1 => env::vt52(4, 24, b"tt52\0", 16, false),
        _ => env::raw(flip(), false, Some(b"xterm\0")),
    }
    let mine = Mine;
    std::panic::set_hook(Box::new(move |_| {
        let _ = &mine;
    }));
    for _ in 0..pick(3) {
        let mut io = InputOutput::new();
        io.println("l");
        if flip() {
            settle();
        }
        match pick(5) {
            0 => {
                if flip() {
                    io.suspend_and_run(hook_is_mine);
                    drop(io);
                    return;
                }
                io.suspend_and_run(|| ());
            }
            1 => {
                env::feed(b"\x1a");
                settle();
            }
            2 if kind < 2 => {
                env::feed_eof();
                settle();
                check(matches!(read_somehow(&mut io), Some(Response::Dead)), "a reader is not told that the instance is dead");
                env::mend();
            }
            _ => (),
        }
        end(io);
    }
    hook_is_mine();
}
/// A panic is reported on a terminal that is as it was before.
#[no_mangle]
pub extern "C" fn entry_c15_panic() {
    if flip() {
        env::tty(4);
    } else {
        let wob = flip();
        env::vt52(4, 24, b"tt52\0", 16, wob);
        if wob {
            env::wob(b"1\0");
        }
    }
    let io = InputOutput::new();
    let mut m = Model::new(4);
    step(&io, &mut m, 10);
    match pick(4) {
        0 => (),
        1 => io.suspend_and_run(|| panic!("mine")),
        _ => settle(),
    }
    env::on_stderr(|| {
        check(env::cooked(), "a panic is reported before the terminal settings are restored");
        let sc = env::screen();
        check(sc.bad == 0, "the terminal was sent something it does not understand");
        check(sc.visible && sc.wrap && sc.plain(), "a panic is reported before the terminal is restored");
    });
    let_panic();
    if flip() {
        settle();
    }
    panic!("mine");
}
