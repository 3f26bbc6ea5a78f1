use crate::rt::*;
use crate::env;
use liso::*;

#[no_mangle]
pub extern "C" fn entry_s1() {
    env::tty(5);
    let io = InputOutput::new();
    io.prompt("> ", true, false);
    io.println("hello!");
    settle();
    let sc = env::screen();
    check(sc.bad == 0, "bad");
    check(sc.rows.len() == 3, "rows");
    check(sc.cx == 2 && sc.cy == 2, "cursor");
    env::feed(b"ab\n");
    settle();
    check(sc.cx == 2 && sc.cy == 2, "cursor 2");
    drop(io);
    check(env::fds_sound(), "fds");
    check(env::cooked(), "cooked");
    check(sc.rows.len() == 3, "rows");
}
