pub mod env;
pub mod model;
pub mod hist;
pub mod pure;
pub mod rt;
pub mod screen;
pub mod session;
pub mod keys;
pub mod decode;
pub mod nav;
pub mod tty;
pub mod prompts;
pub mod suspend;
pub mod vt52;
#[cfg(feature = "cap")]
pub mod stderr;
pub mod flow;
pub mod selftest;
pub mod notice;
pub mod big;
