//! lisym: symbolic execution of LLVM IR. Driver.
mod exec;
mod expr;
mod ir;
mod mem;
mod z3;

use exec::*;
use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

extern "C" {
    fn fork() -> i32;
    fn _exit(c: i32) -> !;
    fn wait(st: *mut i32) -> i32;
    fn getpid() -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

#[repr(C)]
struct Shared {
    active: AtomicU64,
    viols: AtomicU64,
    stop: AtomicU64,
    paths: AtomicU64,
    procs: AtomicU64,
    errors: AtomicU64,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{:04x}", u);
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    let r = h.join();
    std::process::exit(match r {
        Ok(c) => c,
        Err(_) => 3,
    });
}

fn report(en: &Engine, sh: &Shared, outdir: &str, done: bool) {
    let _ = sh;
    let s = &en.stats;
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"complete\":{},\"paths\":{},\"infeasible\":{},\"insts\":{},\"forks\":{},\"checks_sym\":{},\"checks_conc\":{},\"checks_z3\":{},\"pruned\":{},\"pruned_z3\":{},\"audited\":{},\"queries\":{},\"solver_s\":{:.3},\"max_path\":{},\"left\":{}",
        done, s.paths, s.infeasible, s.insts, s.forks, s.checks_sym, s.checks_conc, s.checks_z3, s.pruned, s.pruned_z3, s.audited,
        en.z3.queries, en.z3.time.as_secs_f64(), en.max_path, en.work.len()
    );
    o.push_str(",\"viols\":[");
    for (i, v) in en.viols.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let _ = write!(
            o,
            "{{\"entry\":{},\"kind\":{},\"msg\":{},\"stack\":[{}],\"input\":{:?},\"sched\":{:?}}}",
            v.entry,
            js(&v.kind),
            js(&v.msg),
            v.stack.iter().take(24).map(|x| js(x)).collect::<Vec<_>>().join(","),
            v.input,
            v.sched.iter().map(|x| x.1).collect::<Vec<_>>()
        );
    }
    o.push_str("],\"covers\":[");
    for (i, ((e, c), n)) in en.covers.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let _ = write!(o, "[{},{},{}]", e, c, n);
    }
    o.push_str("],\"samples\":[");
    for (i, (e, inp, sc, obs)) in en.samples.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let _ = write!(o, "{{\"entry\":{},\"input\":{:?},\"sched\":{:?},\"obs\":{:?}}}", e, inp, sc, obs);
    }
    o.push_str("],\"errors\":[");
    o.push_str(&en.errors.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
    o.push_str("],\"called\":[");
    let mut fs: BTreeSet<String> = BTreeSet::new();
    for (i, c) in en.called.iter().enumerate() {
        if *c {
            let n = demangle(en.m.funcs[i].name);
            if n.contains("liso") && !n.contains("lisoharness") {
                fs.insert(n);
            }
        }
    }
    o.push_str(&fs.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "],\"called_total\":{}}}", en.called.iter().filter(|x| **x).count());
    let f = format!("{}/part-{}.json", outdir, unsafe { getpid() });
    std::fs::write(f, o).unwrap();
}

fn reset_counters(en: &mut Engine) {
    en.stats = Stats::default();
    en.viols.clear();
    en.covers.clear();
    en.samples.clear();
    en.errors.clear();
    en.z3.queries = 0;
    en.z3.time = std::time::Duration::ZERO;
    // `called` is kept: the union is reported
}

fn real_main() -> i32 {
    let mut args = std::env::args().skip(1);
    let mut ll = String::new();
    let mut entries: Vec<String> = vec![];
    let mut jobs = 8u64;
    let mut outdir = String::from("/tmp/lisym-out");
    let mut time = 800.0f64;
    let mut max_viol = 12u64;
    let mut sample_every = 0;
    let mut list = false;
    let mut cfg = Config {
        tier: 0,
        max_insts: 400_000_000,
        settle_insts: 60_000_000,
        slice: 2_000_000,
        audit: 0.0,
        trace: false,
        trace2: false,
        replay: None,
        replay_sched: vec![],
        max_viol: 0,
        seed: 1,
    };
    let mut bytes_arg = |s: String| -> Vec<u8> {
        s.split(',').filter(|x| !x.is_empty()).map(|x| x.trim().parse::<u8>().unwrap()).collect()
    };
    while let Some(a) = args.next() {
        let mut v = || args.next().expect("argument value");
        match a.as_str() {
            "--ll" => ll = v(),
            "--entry" => entries.extend(v().split(',').map(|x| x.to_string())),
            "--jobs" => jobs = v().parse().unwrap(),
            "--out" => outdir = v(),
            "--time" => time = v().parse().unwrap(),
            "--tier" => cfg.tier = v().parse().unwrap(),
            "--seed" => cfg.seed = v().parse().unwrap(),
            "--audit" => cfg.audit = v().parse().unwrap(),
            "--max-insts" => cfg.max_insts = v().parse().unwrap(),
            "--settle-insts" => cfg.settle_insts = v().parse().unwrap(),
            "--slice" => cfg.slice = v().parse().unwrap(),
            "--max-viol" => max_viol = v().parse().unwrap(),
            "--sample" => sample_every = v().parse().unwrap(),
            "--trace" => cfg.trace = true,
            "--trace2" => cfg.trace2 = true,
            "--replay" => cfg.replay = Some(bytes_arg(v())),
            "--replay-sched" => cfg.replay_sched = bytes_arg(v()),
            "--list" => list = true,
            _ => panic!("unknown argument {}", a),
        }
    }
    let text = std::fs::read_to_string(&ll).expect("read ll");
    let text: &'static str = Box::leak(text.into_boxed_str());
    let m = ir::Module::parse(text);
    if list {
        for f in &m.funcs {
            if f.text.is_some() && f.name.starts_with("entry_") {
                println!("{}", f.name);
            }
        }
        return 0;
    }
    let trace = cfg.trace;
    let replay = cfg.replay.is_some();
    let mut en = Engine::new(m, cfg);
    en.sample_every = sample_every;
    let base = en.base_mem();
    for (i, e) in entries.iter().enumerate() {
        let s = en.initial(base.clone(), e, i);
        en.work.push(s);
    }
    let _ = std::fs::create_dir_all(&outdir);
    let sh: &'static Shared = unsafe { &*(mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const Shared) };
    let t0 = std::time::Instant::now();
    if trace || replay || jobs == 1 {
        while let Some(s) = en.work.pop() {
            en.run(s);
            if t0.elapsed().as_secs_f64() > time || en.viols.len() as u64 >= max_viol {
                break;
            }
        }
        report(&en, sh, &outdir, en.work.is_empty());
        if trace {
            let mut v: Vec<_> = en.branch_prof.iter().collect();
            v.sort_by_key(|x| std::cmp::Reverse(*x.1));
            for ((f, b), n) in v.iter().take(40) {
                eprintln!("fork {:8} {} block {}", n, demangle(en.m.funcs[*f as usize].name), b);
            }
            let mut v: Vec<_> = en.inst_prof.iter().collect();
            v.sort_by_key(|x| std::cmp::Reverse(*x.1));
            for (f, n) in v.iter().take(40) {
                eprintln!("insts {:8} {}", n, demangle(en.m.funcs[**f as usize].name));
            }
        }
        return 0;
    }
    unsafe {
        prctl(36, 1, 0, 0, 0); // PR_SET_CHILD_SUBREAPER
        sh.active.store(1, SeqCst);
        sh.procs.store(1, SeqCst);
        let pid = fork();
        if pid == 0 {
            worker(en, sh, &outdir, jobs, t0, time, max_viol);
            _exit(0);
        }
        let mut bad = 0;
        loop {
            let mut st = 0;
            let p = wait(&mut st);
            if p < 0 {
                break;
            }
            if st != 0 {
                bad += 1;
                eprintln!("lisym: worker {} ended with status {:#x}", p, st);
                sh.active.fetch_sub(1, SeqCst);
            }
        }
        eprintln!(
            "lisym: {} paths, {} processes, {:.1}s{}",
            sh.paths.load(SeqCst),
            sh.procs.load(SeqCst),
            t0.elapsed().as_secs_f64(),
            if bad > 0 { format!(", {} workers failed", bad) } else { String::new() }
        );
        if bad > 0 {
            return 4;
        }
    }
    0
}

fn worker(mut en: Engine, sh: &'static Shared, outdir: &str, jobs: u64, t0: std::time::Instant, time: f64, max_viol: u64) {
    let mut last = std::time::Instant::now();
    let mut seen_viols = 0;
    loop {
        let s = match en.work.pop() {
            Some(s) => s,
            None => break,
        };
        let before = en.stats.paths + en.stats.infeasible;
        en.run(s);
        let n = en.stats.paths + en.stats.infeasible - before;
        sh.paths.fetch_add(n, SeqCst);
        if en.viols.len() > seen_viols {
            sh.viols.fetch_add((en.viols.len() - seen_viols) as u64, SeqCst);
            seen_viols = en.viols.len();
        }
        if sh.viols.load(SeqCst) >= max_viol || !en.errors.is_empty() && en.errors.len() > 30 {
            sh.stop.store(1, SeqCst);
        }
        if sh.stop.load(SeqCst) != 0 || t0.elapsed().as_secs_f64() > time {
            break;
        }
        if en.work.len() >= 2 && sh.active.load(SeqCst) < jobs && last.elapsed().as_millis() >= 10 {
            // share half of the work, taking the shallowest states (the
            // biggest subtrees) alternately
            if sh.active.fetch_add(1, SeqCst) >= jobs {
                sh.active.fetch_sub(1, SeqCst);
                continue;
            }
            sh.procs.fetch_add(1, SeqCst);
            let w = std::mem::take(&mut en.work);
            let (mut a, mut b) = (vec![], vec![]);
            for (i, s) in w.into_iter().enumerate() {
                if i % 2 == 0 {
                    a.push(s)
                } else {
                    b.push(s)
                }
            }
            let pid = unsafe { fork() };
            if pid == 0 {
                std::mem::forget(b);
                en.work = a;
                reset_counters(&mut en);
                seen_viols = 0;
                en.rng ^= (unsafe { getpid() } as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15);
            } else {
                drop(a);
                en.work = b;
                if pid < 0 {
                    panic!("fork failed");
                }
            }
            last = std::time::Instant::now();
        }
    }
    report(&en, sh, outdir, en.work.is_empty());
    sh.active.fetch_sub(1, SeqCst);
    unsafe { _exit(0) }
}
