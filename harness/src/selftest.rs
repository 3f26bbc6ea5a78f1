//! Checks of the executor and the environment themselves: parts of the
//! standard library that the code does not use now, but might after a change.
use crate::env;
use crate::rt::*;
use std::collections::*;
use std::fs;
use std::io::{BufRead, BufReader, BufWriter, Read, Seek, SeekFrom, Write};
use std::sync::atomic::*;
use std::sync::*;
use std::time::*;

#[no_mangle]
pub extern "C" fn entry_self_files() {
    fs::write("a", "hello\nworld\n").unwrap();
    check(fs::read_to_string("a").unwrap() == "hello\nworld\n", "write");
    let mut f = fs::OpenOptions::new().append(true).open("a").unwrap();
    f.write_all(b"x").unwrap();
    f.sync_all().unwrap();
    drop(f);
    check(env::fs_get(b"a").unwrap() == b"hello\nworld\nx", "append");
    check(fs::OpenOptions::new().write(true).create_new(true).open("a").is_err(), "create_new");
    let mut f = fs::OpenOptions::new().write(true).read(true).open("a").unwrap();
    f.write_all(b"J").unwrap();
    let mut s = String::new();
    f.read_to_string(&mut s).unwrap();
    check(s == "ello\nworld\nx", "read");
    f.seek(SeekFrom::Start(2)).unwrap();
    f.set_len(4).unwrap();
    check(f.metadata().unwrap().len() == 4, "length");
    s.clear();
    f.read_to_string(&mut s).unwrap();
    check(s == "ll", "seek");
    drop(f);
    fs::copy("a", "b").unwrap();
    check(env::fs_get(b"b").unwrap() == b"Jell", "copy");
    fs::hard_link("b", "c").unwrap();
    check(fs::metadata("c").unwrap().is_file(), "link");
    fs::remove_file("b").unwrap();
    check(std::path::Path::new("c").exists() && !std::path::Path::new("b").exists(), "exists");
    check(fs::File::open(".").unwrap().sync_all().is_ok(), "directory");
    let mut w = BufWriter::new(fs::File::create("d").unwrap());
    writeln!(w, "{} {:?} {:>4} {:.2}", 1, "q", 3, 1.5).unwrap();
    w.into_inner().unwrap().sync_data().unwrap();
    for l in BufReader::new(fs::File::open("d").unwrap()).lines() {
        check(l.unwrap() == "1 \"q\"    3 1.50", "format");
    }
    fs::rename("d", "a").unwrap();
    let mut p = std::path::PathBuf::from("x/y.z");
    p.set_extension("tmp");
    check(p.file_name().unwrap().to_str() == Some("y.tmp"), "path");
    check(fs::canonicalize("nope").is_err() && fs::read(fs::canonicalize("a").unwrap()).is_ok(), "canonicalize");
    check(std::env::current_dir().unwrap().join("a").exists() && fs::exists("a").unwrap(), "current_dir");
    check(fs::symlink_metadata("a").is_ok() && fs::set_permissions("a", fs::metadata("a").unwrap().permissions()).is_ok(), "permissions");
}
#[no_mangle]
pub extern "C" fn entry_self_collections() {
    let b = any();
    assume(b < 4);
    let mut h = HashMap::new();
    h.insert(b'0' + b, 1);
    h.insert(9, 2);
    check(h.len() == 2 && h[&9] == 2, "HashMap");
    let mut t = BTreeMap::new();
    for i in 0..20u32 {
        t.insert(i * 7 % 20, i);
    }
    check(t.keys().copied().eq(0..20), "BTreeMap");
    let mut d: VecDeque<u8> = (0..9).collect();
    d.rotate_left(3);
    d.push_front(b);
    d.make_contiguous().sort_unstable();
    check(d.len() == 10 && d.iter().zip(d.iter().skip(1)).all(|(a, b)| a <= b), "VecDeque");
    let mut s: HashSet<String> = HashSet::new();
    s.insert("x".to_owned());
    check(s.contains("x"), "HashSet");
    let mut q = BinaryHeap::from(vec![3, 1, 2]);
    check(q.pop() == Some(3), "BinaryHeap");
    let mut v: Vec<u32> = (0..50).map(|x| x * 37 % 50).collect();
    v.sort_by(|a, b| b.cmp(a));
    v.dedup();
    v.retain(|x| x % 2 == 0);
    v.splice(1..3, [9, 9, 9]);
    check(v.binary_search_by(|x| 0.cmp(x)).is_ok(), "Vec");
    let x = format!("a{}b,é,{}", b as char, "w\u{301}");
    check(x.split(',').count() == 3, "split");
    check(x.rfind(',').is_some() && x.find("é").is_some() && x.trim_end_matches('\u{301}').ends_with('w'), "find");
    check(x.to_uppercase().starts_with('A') && x.chars().rev().count() == 7 + 1, "chars");
    check(x.replace("é", "e").char_indices().last().is_some(), "replace");
    check("12".parse::<u64>() == Ok(12) && "x".parse::<u8>().is_err(), "parse");
    check(x.bytes().position(|c| c == b',').is_some() && x.as_bytes().windows(2).any(|w| w == b"a\0" || w == [b'a', b]), "windows");
    check(String::from_utf8(vec![0xff, b]).is_err() && String::from_utf8_lossy(&[0xff]) == "\u{fffd}", "utf8");
    check(x.lines().count() >= 1 && x.split_whitespace().count() >= 1 && x.eq_ignore_ascii_case(&x), "lines");
    check(u32::MAX.checked_add(1).is_none() && 7u128.pow(20) > 1 && (7.5f64).floor() as u32 == 7, "numbers");
    check(i32::from_str_radix("-7f", 16) == Ok(-127), "radix");
    check((b as u32).leading_zeros() >= 29 && b.count_ones() < 3 && b.saturating_sub(200) == 0, "bits");
}
#[no_mangle]
pub extern "C" fn entry_self_sync() {
    static N: AtomicUsize = AtomicUsize::new(0);
    static ONCE: OnceLock<u32> = OnceLock::new();
    thread_local! { static L: std::cell::Cell<u32> = const { std::cell::Cell::new(1) }; }
    let pair = Arc::new((Mutex::new(0u32), Condvar::new()));
    let bar = Arc::new(Barrier::new(3));
    let (tx, rx) = mpsc::sync_channel(1);
    let mut th = vec![];
    for i in 0..2u32 {
        let (pair, bar, tx) = (pair.clone(), bar.clone(), tx.clone());
        th.push(std::thread::Builder::new().name(format!("t{i}")).spawn(move || {
            L.with(|l| l.set(l.get() + i));
            N.fetch_add(L.with(|l| l.get()) as usize, Ordering::SeqCst);
            bar.wait();
            *pair.0.lock().unwrap() += 1;
            pair.1.notify_all();
            tx.send(i).unwrap();
            ONCE.get_or_init(|| 7);
            i
        }).unwrap());
    }
    drop(tx);
    bar.wait();
    let mut g = pair.0.lock().unwrap();
    while *g < 2 {
        g = pair.1.wait_timeout(g, Duration::from_secs(1)).unwrap().0;
    }
    drop(g);
    check(rx.recv_timeout(Duration::from_secs(1)).is_ok() && rx.iter().count() == 1, "channel");
    check(th.into_iter().map(|t| t.join().unwrap()).sum::<u32>() == 1, "join");
    check(N.load(Ordering::SeqCst) == 3 && *ONCE.get().unwrap() == 7, "atomics");
    let t0 = Instant::now();
    std::thread::sleep(Duration::from_millis(20));
    check(t0.elapsed() >= Duration::from_millis(20), "sleep");
    std::thread::park_timeout(Duration::from_millis(1));
    check(SystemTime::now().duration_since(UNIX_EPOCH).is_ok(), "SystemTime");
    let rw = RwLock::new(3);
    check(*rw.read().unwrap() == 3 && rw.try_write().is_ok(), "RwLock");
    check(mpsc::channel::<u8>().1.try_recv().is_err(), "channel");
    std::thread::scope(|s| {
        s.spawn(|| N.fetch_sub(1, Ordering::Relaxed));
    });
    check(N.load(Ordering::SeqCst) == 2, "scope");
    check(std::env::var("NOPE").is_err(), "env");
    check(std::thread::current().name() != Some("x") && std::process::id() > 0, "current");
    check(std::thread::available_parallelism().map_or(1, |x| x.get()) >= 1, "parallelism");
    std::sync::LazyLock::force(&std::sync::LazyLock::new(|| 1));
}
