//! The symbolic interpreter: states, threads, forking, instruction semantics.

use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(E),
    A(Rc<[Val]>),
}

pub fn mkv(e: E) -> Val {
    match ex().cval(e) {
        Some(c) => Val::C(c),
        None => Val::S(e),
    }
}

impl Val {
    pub fn e(&self, w: u32) -> E {
        match self {
            Val::C(c) => ex().cst(*c, w),
            Val::S(e) => {
                debug_assert_eq!(ex().w(*e), w);
                *e
            }
            Val::A(_) => panic!("aggregate used as scalar"),
        }
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub body: &'static Body,
    pub blk: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub sp: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Status {
    Run,
    Futex { addr: u64, deadline: Option<u64> },
    Sleep { deadline: u64 },
    Join { tid: usize },
    Advance { until: u64 },
    Done,
}

#[derive(Clone)]
pub struct Thread {
    pub status: Status,
    pub cur: Frame,
    pub stack: Vec<Rc<Frame>>,
    pub tls: u64,
    pub sp: u64,
    pub stack_lo: u64,
    pub errno: u64,
    pub ret: Val,
    pub joined: bool,
    pub specific: BTreeMap<u64, Val>,
    /// instructions executed since this thread was last scheduled
    pub slice: u64,
    /// preempted at a scheduling point: the next one offers no second choice
    pub at_point: bool,
}

#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub threads: Vec<Thread>,
    pub cur: usize,
    pub dom: Vec<[u64; 4]>,
    pub pc: Vec<E>,
    pub multi: Vec<E>,
    pub model: Vec<u8>,
    /// for each variable: is it a schedule choice?
    pub var_kind: Vec<VarKind>,
    pub clock: u64,
    pub insts: u64,
    pub insts_base: u64,
    pub settle_start: u64,
    pub obs: Vec<Val>,
    /// 0: a panic is a violation; 1: it ends the path; 2: it is executed
    pub expect_panic: u8,
    pub sched_budget: u32,
    pub sched_on: bool,
    pub sched_points: u32,
    pub keys: u64,
    pub entry: usize,
    pub covers: BTreeSet<u32>,
    pub replay_pos: usize,
    pub depth: u32,
    pub just_switched: bool,
    /// schedule decision taken by a sibling, to be consumed on re-execution
    pub pending: Option<u8>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum VarKind {
    Input,
    Sched,
}

#[derive(Debug)]
pub enum Stop {
    /// path finished normally
    Done,
    /// path is infeasible (assumption)
    Infeasible,
    /// a property violation was found here and the path cannot continue
    Violation,
    /// the engine cannot continue: inconclusive
    Error(String),
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub entry: usize,
    pub kind: String,
    pub msg: String,
    pub stack: Vec<String>,
    pub input: Vec<u8>,
    pub sched: Vec<(u32, u8)>,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub infeasible: u64,
    pub insts: u64,
    pub forks: u64,
    pub checks_sym: u64,
    pub checks_conc: u64,
    pub checks_z3: u64,
    pub pruned: u64,
    pub pruned_z3: u64,
    pub audited: u64,
    pub states: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum B {
    None,
    Memcpy,
    Memset,
    Memcmp,
    Strlen,
    Malloc,
    Calloc,
    Realloc,
    PosixMemalign,
    Free,
    PthreadCreate,
    PthreadJoin,
    PthreadDetach,
    PthreadSelf,
    Ret0,
    AttrGetStack,
    KeyCreate,
    SetSpecific,
    GetSpecific,
    SchedYield,
    Syscall,
    ClockGettime,
    Nanosleep,
    Errno,
    Sysconf,
    Abort,
    Exit,
    Mmap,
    SymU8,
    Assume,
    Check,
    Settle,
    Advance,
    Observe,
    Cover,
    ExpectPanic,
    Sched,
    IsSym,
    Conc,
    Tier,
    Print,
    PanicFmt,
    PanicOther,
    Case,
    Debug,
    ThreadsAlive,
}

pub struct Config {
    pub tier: u64,
    pub max_insts: u64,
    pub settle_insts: u64,
    pub slice: u64,
    pub audit: f64,
    pub trace: bool,
    pub trace2: bool,
    pub replay: Option<Vec<u8>>,
    pub replay_sched: Vec<u8>,
    pub max_viol: usize,
    pub seed: u64,
}

pub struct Engine {
    pub m: Module,
    pub builtin: Vec<B>,
    pub z3: Z3,
    pub work: Vec<State>,
    pub stats: Stats,
    pub cfg: Config,
    pub viols: Vec<Violation>,
    pub viol_keys: BTreeMap<String, usize>,
    pub covers: BTreeMap<(usize, u32), u64>,
    pub called: Vec<bool>,
    pub cache: HashMap<Vec<E>, bool>,
    pub samples: Vec<(usize, Vec<u8>, Vec<u8>, Vec<u64>)>,
    pub sample_every: u64,
    pub rng: u64,
    pub keys: u64,
    pub errors: Vec<String>,
    pub max_path: u64,
    pub branch_prof: HashMap<(u32, u32), u64>,
    pub inst_prof: HashMap<u32, u64>,
}

type R<T> = Result<T, Stop>;

fn dom_and(d: &[u64; 4], t: &[u64; 256], want: bool) -> [u64; 4] {
    let mut r = [0u64; 4];
    for i in 0..256 {
        if (d[i / 64] >> (i % 64)) & 1 == 1 && (t[i] != 0) == want {
            r[i / 64] |= 1 << (i % 64);
        }
    }
    r
}
fn dom_first(d: &[u64; 4]) -> Option<u8> {
    for i in 0..4 {
        if d[i] != 0 {
            return Some((i * 64) as u8 + d[i].trailing_zeros() as u8);
        }
    }
    None
}
fn dom_count(d: &[u64; 4]) -> u32 {
    d.iter().map(|x| x.count_ones()).sum()
}
fn dom_has(d: &[u64; 4], v: u8) -> bool {
    (d[v as usize / 64] >> (v % 64)) & 1 == 1
}

enum Flow {
    Next,
    Jumped,
}

impl State {
    fn th(&mut self) -> &mut Thread {
        let c = self.cur;
        &mut self.threads[c]
    }
    fn bytes_of_model(&self) -> Vec<u8> {
        self.model
            .iter()
            .zip(self.var_kind.iter())
            .filter(|(_, k)| **k == VarKind::Input)
            .map(|(v, _)| *v)
            .collect()
    }
    fn sched_of_model(&self) -> Vec<u8> {
        self.model
            .iter()
            .zip(self.var_kind.iter())
            .filter(|(_, k)| **k == VarKind::Sched)
            .map(|(v, _)| *v)
            .collect()
    }
}

pub fn builtin_of(name: &str) -> B {
    match name {
        "memcpy" | "memmove" => B::Memcpy,
        "memset" => B::Memset,
        "memcmp" | "bcmp" => B::Memcmp,
        "strlen" => B::Strlen,
        "malloc" => B::Malloc,
        "calloc" => B::Calloc,
        "realloc" => B::Realloc,
        "posix_memalign" => B::PosixMemalign,
        "free" => B::Free,
        "pthread_create" => B::PthreadCreate,
        "pthread_join" => B::PthreadJoin,
        "pthread_detach" => B::PthreadDetach,
        "pthread_self" => B::PthreadSelf,
        "pthread_attr_init" | "pthread_attr_destroy" | "pthread_attr_setstacksize" | "pthread_getattr_np"
        | "pthread_setname_np" | "pthread_key_delete" | "getauxval" | "dlsym" | "sigaltstack" | "munmap"
        | "mprotect" | "__cxa_thread_atexit_impl" | "pthread_attr_getguardsize" => B::Ret0,
        "pthread_attr_getstack" => B::AttrGetStack,
        "pthread_key_create" => B::KeyCreate,
        "pthread_setspecific" => B::SetSpecific,
        "pthread_getspecific" => B::GetSpecific,
        "sched_yield" => B::SchedYield,
        "syscall" => B::Syscall,
        "clock_gettime" => B::ClockGettime,
        "nanosleep" | "clock_nanosleep" => B::Nanosleep,
        "__errno_location" => B::Errno,
        "sysconf" => B::Sysconf,
        "abort" => B::Abort,
        "_exit" | "exit" => B::Exit,
        "mmap64" | "mmap" => B::Mmap,
        "lisym_sym_u8" => B::SymU8,
        "lisym_assume" => B::Assume,
        "lisym_check" => B::Check,
        "lisym_settle" => B::Settle,
        "lisym_advance_ns" => B::Advance,
        "lisym_observe" => B::Observe,
        "lisym_cover" => B::Cover,
        "lisym_expect_panic" => B::ExpectPanic,
        "lisym_sched" => B::Sched,
        "lisym_is_symbolic" => B::IsSym,
        "lisym_concretize" => B::Conc,
        "lisym_tier" => B::Tier,
        "lisym_print" => B::Print,
        "lisym_debug" => B::Debug,
        "lisym_threads_alive" => B::ThreadsAlive,
        _ => {
            if name.contains("4core9panicking9panic_fmt") && name.ends_with("9panic_fmt") {
                B::PanicFmt
            } else if (name.contains("4core9panicking") && (name.ends_with("18panic_nounwind_fmt") || name.contains("panic_nounwind_fmt")))
                || name.contains("3std9panicking20rust_panic_with_hook")
                || (name.contains("3std9panicking") && name.contains("11begin_panic"))
                || name.contains("18handle_alloc_error")
                || name.contains("17handle_error") && name.contains("5alloc7raw_vec")
            {
                B::PanicOther
            } else {
                B::None
            }
        }
    }
}

impl Engine {
    pub fn new(m: Module, cfg: Config) -> Engine {
        let builtin = m
            .funcs
            .iter()
            .map(|f| {
                let b = builtin_of(f.name);
                if f.text.is_some()
                    && !matches!(b, B::PanicFmt | B::PanicOther | B::Memcpy | B::Memset | B::Memcmp | B::Strlen)
                    && !f.name.starts_with("lisym_")
                {
                    B::None
                } else {
                    b
                }
            })
            .collect();
        let n = m.funcs.len();
        let seed = cfg.seed;
        Engine {
            m,
            builtin,
            z3: Z3::new(),
            work: vec![],
            stats: Stats::default(),
            cfg,
            viols: vec![],
            viol_keys: BTreeMap::new(),
            covers: BTreeMap::new(),
            called: vec![false; n],
            cache: HashMap::new(),
            samples: vec![],
            sample_every: 0,
            rng: seed.wrapping_mul(0x9e3779b97f4a7c15) | 1,
            keys: 1,
            errors: vec![],
            max_path: 0,
            branch_prof: HashMap::new(),
            inst_prof: HashMap::new(),
        }
    }
    pub fn rnd(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }
    pub fn base_mem(&self) -> Mem {
        let mut mem = Mem::new(self.m.globals_end);
        self.m.init_globals(&mut |a, b| {
            let _ = mem.write_bytes(a, b);
        });
        mem
    }
    pub fn initial(&mut self, mem: Mem, entry: &str, idx: usize) -> State {
        let f = *self.m.fidx.get(entry).unwrap_or_else(|| panic!("no entry {}", entry));
        let mut st = State {
            mem,
            threads: vec![],
            cur: 0,
            dom: vec![],
            pc: vec![],
            multi: vec![],
            model: vec![],
            var_kind: vec![],
            clock: 1_000_000_000_000,
            insts: 0,
            insts_base: 0,
            settle_start: 0,
            obs: vec![],
            expect_panic: 0,
            sched_budget: 0,
            sched_on: false,
            sched_points: 0,
            keys: 0,
            entry: idx,
            covers: BTreeSet::new(),
            replay_pos: 0,
            depth: 0,
            just_switched: false,
            pending: None,
        };
        self.new_thread(&mut st, f, vec![]).unwrap();
        st
    }
    fn new_thread(&mut self, st: &mut State, f: u32, args: Vec<Val>) -> R<usize> {
        let tid = st.threads.len();
        st.mem.nstacks = tid as u64 + 1;
        let lo = STACK_BASE + tid as u64 * STACK_SIZE;
        let sp = lo + STACK_SIZE - 256;
        let tls_size = self.m.tls_size + 64;
        let tls = self.f(st.mem.malloc(tls_size, 64))?;
        let errno = self.f(st.mem.malloc(16, 16))?;
        for g in &self.m.globals {
            if g.tls {
                st.mem.copy(tls + g.tls_off, g.addr, g.size as usize).map_err(|_| Stop::Error("tls".into()))?;
            }
        }
        let body = self.m.body(f);
        self.called[f as usize] = true;
        let mut regs = vec![Val::C(0); body.nregs as usize];
        for (i, a) in args.into_iter().enumerate() {
            regs[i] = a;
        }
        st.threads.push(Thread {
            status: Status::Run,
            cur: Frame { f, body, blk: 0, ip: 0, regs, sp },
            stack: vec![],
            tls,
            sp,
            stack_lo: lo,
            errno,
            ret: Val::C(0),
            joined: false,
            specific: BTreeMap::new(),
            slice: 0,
            at_point: false,
        });
        Ok(tid)
    }
    fn f<T>(&self, r: Result<T, Fault>) -> R<T> {
        r.map_err(|f| Stop::Error(format!("memory fault at {:#x}", f.0)))
    }

    // ---------------------------------------------------------------
    // constraints

    /// Free (non-singleton) variables of e.
    fn free_vars(&self, st: &State, e: E) -> Vec<u32> {
        ex().vars(e).iter().copied().filter(|v| dom_count(&st.dom[*v as usize]) > 1).collect()
    }
    /// Table of e over its single free variable.
    fn eff_tab(&self, st: &State, e: E, v: u32) -> Rc<[u64; 256]> {
        if ex().supp[e as usize] == v + 1 {
            return ex().tab(e);
        }
        let mut r = [0u64; 256];
        let d = st.dom[v as usize];
        for (i, x) in r.iter_mut().enumerate() {
            if dom_has(&d, i as u8) {
                let mut memo = HashMap::default();
                *x = ex().eval_with(e, &|k| if k == v { i as u8 } else { st.model[k as usize] }, &mut memo) as u64;
            }
        }
        Rc::new(r)
    }
    fn in_multi(&self, st: &State, v: u32) -> bool {
        st.multi.iter().any(|e| ex().vars(*e).contains(&v))
    }
    /// Value of e if it is the same for all assignments allowed by the domains
    /// of at most one free variable.
    fn try_const(&self, st: &State, e: E) -> Option<u64> {
        if let Some(c) = ex().cval(e) {
            return Some(c);
        }
        if ex().w(e) > 64 {
            return None;
        }
        let fv = self.free_vars(st, e);
        match fv.len() {
            0 => Some(ex().eval(e, &st.model) as u64),
            1 => {
                let t = self.eff_tab(st, e, fv[0]);
                let d = &st.dom[fv[0] as usize];
                let f = dom_first(d)?;
                let v = t[f as usize];
                for i in 0..256 {
                    if dom_has(d, i as u8) && t[i] != v {
                        return None;
                    }
                }
                Some(v)
            }
            _ => None,
        }
    }
    /// The conjuncts relevant to `extra` (transitively through shared
    /// variables): multi-variable constraints, plus the domains.
    fn slice(&self, st: &State, extra: &[E]) -> (Vec<E>, Vec<u32>) {
        let mut vars: BTreeSet<u32> = BTreeSet::new();
        for e in extra {
            vars.extend(ex().vars(*e).iter());
        }
        let mut used = vec![false; st.multi.len()];
        let mut out: Vec<E> = vec![];
        loop {
            let mut changed = false;
            for (i, m) in st.multi.iter().enumerate() {
                if !used[i] && ex().vars(*m).iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    changed = true;
                    vars.extend(ex().vars(*m).iter());
                    out.push(*m);
                }
            }
            if !changed {
                break;
            }
        }
        for v in &vars {
            let d = st.dom[*v as usize];
            if d != [u64::MAX; 4] {
                let mut t = [0u64; 256];
                for i in 0..256 {
                    t[i] = dom_has(&d, i as u8) as u64;
                }
                out.push(ex().lut(*v, &t, 1));
            }
        }
        (out, vars.into_iter().collect())
    }
    /// Is PC and c satisfiable? Returns a full model.
    fn sat_with(&mut self, st: &State, c: E) -> R<Option<Vec<u8>>> {
        if let Some(k) = ex().cval(c) {
            return Ok(if k != 0 { Some(st.model.clone()) } else { None });
        }
        if ex().eval(c, &st.model) != 0 {
            return Ok(Some(st.model.clone()));
        }
        let fv = self.free_vars(st, c);
        if fv.is_empty() {
            return Ok(None);
        }
        if fv.len() == 1 {
            let v = fv[0];
            let t = self.eff_tab(st, c, v);
            let d = dom_and(&st.dom[v as usize], &t, true);
            match dom_first(&d) {
                None => return Ok(None),
                Some(x) => {
                    if !self.in_multi(st, v) {
                        let mut m = st.model.clone();
                        m[v as usize] = x;
                        return Ok(Some(m));
                    }
                }
            }
        }
        let (mut cs, vars) = self.slice(st, &[c]);
        cs.push(c);
        let mut key = cs.clone();
        key.sort();
        if let Some(false) = self.cache.get(&key) {
            return Ok(None);
        }
        match self.z3.check(&cs, &vars) {
            Sat::Sat(m) => {
                let mut model = st.model.clone();
                for (v, x) in m {
                    model[v as usize] = x;
                }
                Ok(Some(model))
            }
            Sat::Unsat => {
                self.stats.pruned_z3 += 1;
                if self.cache.len() > 200_000 {
                    self.cache.clear();
                }
                self.cache.insert(key, false);
                Ok(None)
            }
            Sat::Unknown => Err(Stop::Error("solver returned unknown".into())),
        }
    }
    /// Add c (known consistent, `model` satisfies it).
    fn add(&mut self, st: &mut State, c: E, model: Vec<u8>) {
        st.model = model;
        self.add_rec(st, c);
    }
    fn add_rec(&mut self, st: &mut State, c: E) {
        if ex().cval(c).is_some() {
            return;
        }
        let n = ex().nodes[c as usize];
        if n.k == K::And {
            self.add_rec(st, n.a);
            self.add_rec(st, n.b);
            return;
        }
        if n.k == K::Xor && ex().cval(n.b) == Some(1) {
            let i = ex().nodes[n.a as usize];
            if i.k == K::Or {
                let x = ex().not(i.a);
                let y = ex().not(i.b);
                self.add_rec(st, x);
                self.add_rec(st, y);
                return;
            }
        }
        let fv = self.free_vars(st, c);
        match fv.len() {
            0 => (),
            1 => {
                let v = fv[0];
                let t = self.eff_tab(st, c, v);
                st.dom[v as usize] = dom_and(&st.dom[v as usize], &t, true);
            }
            _ => st.multi.push(c),
        }
        st.pc.push(c);
    }
    /// Decide a branch; forks when both sides are possible.
    fn branch(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(k) = ex().cval(c) {
            return Ok(k != 0);
        }
        if let Some(k) = self.try_const(st, c) {
            self.stats.pruned += 1;
            self.maybe_audit(st, c, k != 0)?;
            return Ok(k != 0);
        }
        let nc = ex().not(c);
        let mt = self.sat_with(st, c)?;
        let mf = self.sat_with(st, nc)?;
        match (mt, mf) {
            (Some(mt), Some(mf)) => {
                self.stats.forks += 1;
                if self.cfg.trace {
                    let f = st.threads[st.cur].cur.f;
                    let b = st.threads[st.cur].cur.blk;
                    *self.branch_prof.entry((f, b)).or_insert(0) += 1;
                }
                let mut o = st.clone();
                o.depth += 1;
                st.depth += 1;
                // the sibling executes this instruction again
                o.insts -= 1;
                let oc = o.cur;
                o.threads[oc].slice = o.threads[oc].slice.saturating_sub(1);
                self.add(&mut o, nc, mf);
                self.work.push(o);
                self.add(st, c, mt);
                Ok(true)
            }
            (Some(_), None) => {
                self.stats.pruned += 1;
                Ok(true)
            }
            (None, Some(_)) => {
                self.stats.pruned += 1;
                Ok(false)
            }
            (None, None) => Err(Stop::Error("inconsistent path condition".into())),
        }
    }
    /// A sample (thorough: all) of the branches decided by the fast path are
    /// checked again by z3 against the structural path condition.
    fn maybe_audit(&mut self, st: &State, c: E, val: bool) -> R<()> {
        if self.cfg.audit <= 0.0 {
            return Ok(());
        }
        if self.cfg.audit < 1.0 {
            let r = self.rnd() % 1_000_000;
            if r as f64 >= self.cfg.audit * 1e6 {
                return Ok(());
            }
        }
        let bad = if val { ex().not(c) } else { c };
        let (cs, vars) = self.struct_slice(st, bad);
        self.stats.audited += 1;
        match self.z3.check(&cs, &vars) {
            Sat::Unsat => Ok(()),
            Sat::Sat(m) => Err(Stop::Error(format!("audit failed: z3 disagrees with the fast path, model {:?}", m))),
            Sat::Unknown => Err(Stop::Error("audit: solver unknown".into())),
        }
    }
    /// Structural path-condition conjuncts connected with c, plus c.
    fn struct_slice(&self, st: &State, c: E) -> (Vec<E>, Vec<u32>) {
        let mut vars: BTreeSet<u32> = ex().vars(c).iter().copied().collect();
        let mut used = vec![false; st.pc.len()];
        let mut cs = vec![c];
        loop {
            let mut ch = false;
            for (i, p) in st.pc.iter().enumerate() {
                if !used[i] && ex().vars(*p).iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    ch = true;
                    cs.push(*p);
                    vars.extend(ex().vars(*p).iter());
                }
            }
            if !ch {
                break;
            }
        }
        (cs, vars.into_iter().collect())
    }
    /// Make a value concrete, forking over its possible values.
    fn conc(&mut self, st: &mut State, v: &Val, w: u32) -> R<u64> {
        match v {
            Val::C(c) => Ok(*c),
            Val::S(e) => {
                if w > 64 {
                    return Err(Stop::Error("concretising a wide value".into()));
                }
                loop {
                    if let Some(c) = self.try_const(st, *e) {
                        return Ok(c);
                    }
                    let val = ex().eval(*e, &st.model) as u64;
                    let k = ex().cst(val, w);
                    let c = ex().eq(*e, k);
                    if self.branch(st, c)? {
                        return Ok(val);
                    }
                }
            }
            Val::A(_) => Err(Stop::Error("concretising an aggregate".into())),
        }
    }

    // ---------------------------------------------------------------
    // operands

    #[inline]
    fn opv(fr: &Frame, o: &Op) -> Val {
        match o {
            Op::C(c) => Val::C(*c),
            Op::R(r) => fr.regs[*r as usize].clone(),
            Op::K(k) => const_val(&k.0, &k.1),
        }
    }

    // ---------------------------------------------------------------
    // main loop

    /// Run a state until its path ends.
    pub fn run(&mut self, mut st: State) {
        st.insts_base = st.insts;
        let r = self.run_inner(&mut st);
        self.stats.insts += st.insts - st.insts_base;
        match r {
            Ok(()) => (),
            Err(Stop::Done) => {
                self.stats.paths += 1;
                for c in &st.covers {
                    *self.covers.entry((st.entry, *c)).or_insert(0) += 1;
                }
                self.max_path = self.max_path.max(st.insts);
                if self.sample_every > 0 && st.expect_panic == 0 {
                    let n = self.rnd();
                    if n % self.sample_every == 0 && self.samples.len() < 12 {
                        let obs = st
                            .obs
                            .iter()
                            .map(|v| match v {
                                Val::C(c) => *c,
                                Val::S(e) => ex().eval(*e, &st.model) as u64,
                                _ => 0,
                            })
                            .collect();
                        self.samples.push((st.entry, st.bytes_of_model(), st.sched_of_model(), obs));
                    }
                }
            }
            Err(Stop::Infeasible) => {
                self.stats.infeasible += 1;
            }
            Err(Stop::Violation) => {
                self.stats.paths += 1;
            }
            Err(Stop::Error(s)) => {
                if self.errors.len() < 20 {
                    let stack = self.stack(&st);
                    self.errors.push(format!("{} [entry {}] at {}", s, st.entry, stack.join(" < ")));
                } else {
                    self.errors.push(String::new());
                }
            }
        }
    }
    fn run_inner(&mut self, st: &mut State) -> R<()> {
        if st.threads[st.cur].status != Status::Run {
            self.schedule(st)?;
        }
        loop {
            let t = st.cur;
            {
                let th = &mut st.threads[t];
                th.slice += 1;
                st.insts += 1;
                if th.slice > self.cfg.slice {
                    th.slice = 0;
                    if st.insts > self.cfg.max_insts {
                        return Err(Stop::Error(format!("instruction limit {} reached", self.cfg.max_insts)));
                    }
                    if st.insts - st.settle_start > self.cfg.settle_insts {
                        self.violation(st, "hang", "the program never becomes quiet (livelock)", None)?;
                        return Err(Stop::Violation);
                    }
                    let n = st.threads.len();
                    for k in 1..n {
                        let j = (t + k) % n;
                        if st.threads[j].status == Status::Run {
                            st.cur = j;
                            st.threads[j].slice = 0;
                            break;
                        }
                    }
                    continue;
                }
            }
            self.step(st)?;
        }
    }
    fn jump(&mut self, st: &mut State, to: Blk) {
        let th = st.th();
        let from = th.cur.blk;
        let b = &th.cur.body.blocks[to as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let (d, inc) = &b.phis[0];
                let o = &inc.iter().find(|(p, _)| *p == from).expect("phi").1;
                let v = Self::opv(&th.cur, o);
                th.cur.regs[*d as usize] = v;
            } else {
                let mut vals: Vec<Val> = Vec::with_capacity(b.phis.len());
                for (_, inc) in &b.phis {
                    let o = &inc.iter().find(|(p, _)| *p == from).expect("phi").1;
                    vals.push(Self::opv(&th.cur, o));
                }
                for ((d, _), v) in b.phis.iter().zip(vals) {
                    th.cur.regs[*d as usize] = v;
                }
            }
        }
        th.cur.blk = to;
        th.cur.ip = 0;
    }
    fn fname(&self, f: u32) -> String {
        demangle(self.m.funcs[f as usize].name)
    }
    pub fn stack(&self, st: &State) -> Vec<String> {
        let th = &st.threads[st.cur];
        let mut v = vec![self.fname(th.cur.f)];
        for f in th.stack.iter().rev() {
            v.push(self.fname(f.f));
        }
        v
    }
    /// Record a violation. `cond`: the negated condition that must hold in the
    /// counterexample (None: the current path condition).
    fn violation(&mut self, st: &State, kind: &str, msg: &str, model: Option<&[u8]>) -> R<()> {
        let stack = self.stack(st);
        let key = format!("{}|{}|{}|{}", st.entry, kind, msg, stack.iter().take(4).cloned().collect::<Vec<_>>().join("<"));
        let n = self.viol_keys.entry(key).or_insert(0);
        *n += 1;
        if *n > 2 || self.viols.len() > 200 {
            return Ok(());
        }
        let mut s2 = st.clone();
        if let Some(m) = model {
            s2.model = m.to_vec();
        }
        self.viols.push(Violation {
            entry: st.entry,
            kind: kind.into(),
            msg: msg.into(),
            stack,
            input: s2.bytes_of_model(),
            sched: s2.sched_of_model().into_iter().enumerate().map(|(i, x)| (i as u32, x)).collect(),
        });
        Ok(())
    }
    fn fault(&mut self, st: &mut State, a: u64) -> Stop {
        let _ = self.violation(st, "memory", &format!("invalid memory access at {:#x}", a), None);
        Stop::Violation
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let t = st.cur;
        let fr = &mut st.threads[t].cur;
        let body = fr.body;
        let inst: &'static I = unsafe {
            body.blocks.get_unchecked(fr.blk as usize).insts.get(fr.ip as usize).expect("ip past block end")
        };
        if self.cfg.trace2 {
            eprintln!("T{} {} b{}:{} {:?}", t, self.m.funcs[fr.f as usize].name, fr.blk, fr.ip, inst);
        }
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let v = $v;
                let fr = &mut st.threads[t].cur;
                fr.regs[*$d as usize] = v;
                fr.ip += 1;
                return Ok(());
            }};
        }
        match inst {
            I::Bin { op, w, lanes, d, a, b } => {
                let x = Self::opv(fr, a);
                let y = Self::opv(fr, b);
                if *lanes == 0 {
                    let r = self.bin(st, *op, *w as u32, &x, &y)?;
                    set!(d, r)
                }
                let (x, y) = (lanes_vec(&x, *lanes), lanes_vec(&y, *lanes));
                let mut r = vec![];
                for i in 0..*lanes as usize {
                    r.push(self.bin(st, *op, *w as u32, &x[i], &y[i])?);
                }
                set!(d, Val::A(r.into()))
            }
            I::Icmp { p, w, lanes, d, a, b } => {
                let x = Self::opv(fr, a);
                let y = Self::opv(fr, b);
                if *lanes == 0 {
                    set!(d, icmp(*p, *w as u32, &x, &y))
                }
                let (x, y) = (lanes_vec(&x, *lanes), lanes_vec(&y, *lanes));
                let r: Vec<Val> = (0..*lanes as usize).map(|i| icmp(*p, *w as u32, &x[i], &y[i])).collect();
                set!(d, Val::A(r.into()))
            }
            I::Gep { d, base, off, idx } => {
                let b = Self::opv(fr, base);
                let mut conc = match &b {
                    Val::C(c) => Some(c.wrapping_add(*off as u64)),
                    _ => None,
                };
                if conc.is_some() {
                    for (o, scale, w) in idx.iter() {
                        let v = match o {
                            Op::C(c) => Val::C(*c),
                            Op::R(r) => fr.regs[*r as usize].clone(),
                            _ => return Err(Stop::Error("gep index".into())),
                        };
                        match v {
                            Val::C(c) => {
                                conc = conc.map(|x| x.wrapping_add((crate::ir::sext(c, *w as u32) as u64).wrapping_mul(*scale)))
                            }
                            _ => {
                                conc = None;
                                break;
                            }
                        }
                    }
                }
                if let Some(c) = conc {
                    set!(d, Val::C(c))
                }
                let x = ex();
                let mut acc = b.e(64);
                let k = x.cst(*off as u64, 64);
                acc = x.bin(K::Add, acc, k);
                for (o, scale, w) in idx.iter() {
                    let v = Self::opv(fr, o).e(*w as u32);
                    let v = if (*w as u32) < 64 { x.sext(v, 64) } else { v };
                    let s = x.cst(*scale, 64);
                    let m = x.bin(K::Mul, v, s);
                    acc = x.bin(K::Add, acc, m);
                }
                set!(d, mkv(acc))
            }
            I::Load { d, bits, ptr, atomic } => {
                let p = Self::opv(fr, ptr);
                if *atomic {
                    self.sched_point(st)?;
                    if st.cur != t {
                        return Ok(());
                    }
                }
                let v = self.load(st, &p, *bits as u32)?;
                set!(d, v)
            }
            I::Store { bits, v, ptr, atomic } => {
                let v = Self::opv(fr, v);
                let p = Self::opv(fr, ptr);
                if *atomic {
                    self.sched_point(st)?;
                    if st.cur != t {
                        return Ok(());
                    }
                }
                let a = self.conc(st, &p, 64)?;
                self.store(st, a, &v, *bits as u32)?;
                st.threads[t].cur.ip += 1;
                Ok(())
            }
            I::Br(l) => {
                self.jump(st, *l);
                Ok(())
            }
            I::CondBr { c, t: lt, f: lf } => {
                let v = Self::opv(fr, c);
                let k = match v {
                    Val::C(c) => c != 0,
                    Val::S(e) => self.branch(st, e)?,
                    _ => return Err(Stop::Error("branch on aggregate".into())),
                };
                self.jump(st, if k { *lt } else { *lf });
                Ok(())
            }
            I::Select { d, c, a, b, w, lanes } => {
                let cv = Self::opv(fr, c);
                let a = Self::opv(fr, a);
                let b = Self::opv(fr, b);
                if *lanes > 0 {
                    let cs = lanes_vec(&cv, *lanes);
                    let (a, b) = (lanes_vec(&a, *lanes), lanes_vec(&b, *lanes));
                    let mut r = vec![];
                    for i in 0..*lanes as usize {
                        match &cs[i] {
                            Val::C(c) => r.push(if *c != 0 { a[i].clone() } else { b[i].clone() }),
                            _ => return Err(Stop::Error("vector select".into())),
                        }
                    }
                    set!(d, Val::A(r.into()))
                }
                match cv {
                    Val::C(c) => set!(d, if c != 0 { a } else { b }),
                    Val::S(e) => {
                        if matches!(a, Val::A(_)) || matches!(b, Val::A(_)) {
                            let k = self.branch(st, e)?;
                            set!(d, if k { a } else { b })
                        }
                        let w = *w as u32;
                        let r = ex().ite(e, a.e(w), b.e(w));
                        set!(d, mkv(r))
                    }
                    _ => Err(Stop::Error("select".into())),
                }
            }
            I::CastS { op, fw, tw, d, a } => {
                let v = Self::opv(fr, a);
                let (fw, tw) = (*fw as u32, *tw as u32);
                if let (Val::C(c), true) = (&v, fw <= 64 && tw <= 64) {
                    let r = match op {
                        CastOp::Trunc | CastOp::ZExt | CastOp::Bitcast | CastOp::PtrToInt | CastOp::IntToPtr => {
                            crate::ir::mask(*c, tw)
                        }
                        CastOp::SExt => crate::ir::mask(crate::ir::sext(*c, fw) as u64, tw),
                        CastOp::UiToFp => {
                            if tw == 64 {
                                (*c as f64).to_bits()
                            } else {
                                (*c as f32).to_bits() as u64
                            }
                        }
                        CastOp::SiToFp => {
                            let s = crate::ir::sext(*c, fw);
                            if tw == 64 {
                                (s as f64).to_bits()
                            } else {
                                (s as f32).to_bits() as u64
                            }
                        }
                        CastOp::FpToUi => {
                            let x = if fw == 64 { f64::from_bits(*c) } else { f32::from_bits(*c as u32) as f64 };
                            crate::ir::mask(x as u64, tw)
                        }
                        CastOp::FpToSi => {
                            let x = if fw == 64 { f64::from_bits(*c) } else { f32::from_bits(*c as u32) as f64 };
                            crate::ir::mask(x as i64 as u64, tw)
                        }
                        CastOp::FpExt => (f32::from_bits(*c as u32) as f64).to_bits(),
                        CastOp::FpTrunc => (f64::from_bits(*c) as f32).to_bits() as u64,
                    };
                    set!(d, Val::C(r))
                }
                let e = v.e(fw);
                let x = ex();
                let r = match op {
                    CastOp::Trunc => x.extract(e, 0, tw),
                    CastOp::ZExt | CastOp::PtrToInt | CastOp::IntToPtr | CastOp::Bitcast => {
                        if tw < fw {
                            x.extract(e, 0, tw)
                        } else {
                            x.zext(e, tw)
                        }
                    }
                    CastOp::SExt => x.sext(e, tw),
                    _ => {
                        // floating point: concretise and retry
                        let c = self.conc(st, &v, fw)?;
                        let r = match op {
                            CastOp::UiToFp => {
                                if tw == 64 {
                                    (c as f64).to_bits()
                                } else {
                                    (c as f32).to_bits() as u64
                                }
                            }
                            _ => return Err(Stop::Error("symbolic float cast".into())),
                        };
                        x.cst(r, tw)
                    }
                };
                set!(d, mkv(r))
            }
            I::Cast { op, from, to, d, a } => {
                let v = Self::opv(fr, a);
                let r = self.cast(*op, from, to, v)?;
                set!(d, r)
            }
            I::Call(c) => self.call(st, c),
            I::Ret(o) => {
                let v = match o {
                    Some(o) => Self::opv(fr, o),
                    None => Val::C(0),
                };
                self.ret(st, v)
            }
            I::Switch { w, v, def, cases } => {
                let v = Self::opv(fr, v);
                let target = match v {
                    Val::C(c) => cases.iter().find(|(k, _)| *k == c).map(|(_, l)| *l).unwrap_or(*def),
                    Val::S(e) => {
                        // decide target by target (grouping equal targets)
                        let w = *w as u32;
                        if let Some(c) = self.try_const(st, e) {
                            cases.iter().find(|(k, _)| *k == c).map(|(_, l)| *l).unwrap_or(*def)
                        } else {
                            let mut groups: Vec<(Blk, Vec<u64>)> = vec![];
                            for (k, l) in cases.iter() {
                                match groups.iter_mut().find(|g| g.0 == *l) {
                                    Some(g) => g.1.push(*k),
                                    None => groups.push((*l, vec![*k])),
                                }
                            }
                            let mut target = *def;
                            for (l, ks) in groups {
                                let x = ex();
                                let mut c = x.cst(0, 1);
                                for k in ks {
                                    let kc = x.cst(k, w);
                                    let q = x.eq(e, kc);
                                    c = x.bin(K::Or, c, q);
                                }
                                if self.branch(st, c)? {
                                    target = l;
                                    break;
                                }
                            }
                            target
                        }
                    }
                    _ => return Err(Stop::Error("switch".into())),
                };
                self.jump(st, target);
                Ok(())
            }
            I::Alloca { d, size, align } => {
                let th = &mut st.threads[t];
                let sp = (th.sp - size) / align * align;
                if sp < th.stack_lo + 4096 {
                    self.violation(st, "memory", "stack overflow", None)?;
                    return Err(Stop::Violation);
                }
                th.sp = sp;
                set!(d, Val::C(sp))
            }
            I::Copy { d, a } => {
                let v = Self::opv(fr, a);
                set!(d, v)
            }
            I::ExtractValue { d, a, path } => {
                let mut v = Self::opv(fr, a);
                for p in path.iter() {
                    v = match v {
                        Val::A(l) => l[*p as usize].clone(),
                        Val::C(0) => Val::C(0),
                        _ => return Err(Stop::Error("extractvalue".into())),
                    };
                }
                set!(d, v)
            }
            I::InsertValue { d, a, v, path, ty } => {
                let agg = Self::opv(fr, a);
                let v = Self::opv(fr, v);
                let r = insert(&agg, ty, path, v);
                set!(d, r)
            }
            I::LoadAgg { d, ty, ptr } => {
                let p = Self::opv(fr, ptr);
                let a = self.conc(st, &p, 64)?;
                let v = self.load_ty(st, a, ty)?;
                set!(d, v)
            }
            I::StoreAgg { ty, v, ptr } => {
                let v = Self::opv(fr, v);
                let p = Self::opv(fr, ptr);
                let a = self.conc(st, &p, 64)?;
                self.store_ty(st, a, ty, &v)?;
                st.threads[t].cur.ip += 1;
                Ok(())
            }
            I::AtomicRmw { op, d, bits, ptr, v } => {
                let p = Self::opv(fr, ptr);
                let v = Self::opv(fr, v);
                self.sched_point(st)?;
                if st.cur != t {
                    return Ok(());
                }
                let w = *bits as u32;
                let a = self.conc(st, &p, 64)?;
                let pc = Val::C(a);
                let old = self.load(st, &pc, w)?;
                let x = ex();
                let (o, n) = (old.e(w), v.e(w));
                let r = match op {
                    RmwOp::Xchg => n,
                    RmwOp::Add => x.bin(K::Add, o, n),
                    RmwOp::Sub => x.bin(K::Sub, o, n),
                    RmwOp::And => x.bin(K::And, o, n),
                    RmwOp::Or => x.bin(K::Or, o, n),
                    RmwOp::Xor => x.bin(K::Xor, o, n),
                    RmwOp::Nand => {
                        let q = x.bin(K::And, o, n);
                        x.not(q)
                    }
                    RmwOp::UMax => {
                        let c = x.ult(o, n);
                        x.ite(c, n, o)
                    }
                    RmwOp::UMin => {
                        let c = x.ult(o, n);
                        x.ite(c, o, n)
                    }
                    RmwOp::Max => {
                        let c = x.slt(o, n);
                        x.ite(c, n, o)
                    }
                    RmwOp::Min => {
                        let c = x.slt(o, n);
                        x.ite(c, o, n)
                    }
                };
                self.store(st, a, &mkv(r), w)?;
                set!(d, old)
            }
            I::CmpXchg { d, bits, ptr, c, n } => {
                let p = Self::opv(fr, ptr);
                let c = Self::opv(fr, c);
                let n = Self::opv(fr, n);
                self.sched_point(st)?;
                if st.cur != t {
                    return Ok(());
                }
                let w = *bits as u32;
                let a = self.conc(st, &p, 64)?;
                let old = self.load(st, &Val::C(a), w)?;
                let eq = icmp(Pred::Eq, w, &old, &c);
                let ok = match eq {
                    Val::C(k) => k != 0,
                    Val::S(e) => self.branch(st, e)?,
                    _ => unreachable!(),
                };
                if ok {
                    self.store(st, a, &n, w)?;
                }
                set!(d, Val::A(vec![old, Val::C(ok as u64)].into()))
            }
            I::Fence => {
                fr.ip += 1;
                Ok(())
            }
            I::Fcmp { p, w, d, a, b } => {
                let x = Self::opv(fr, a);
                let y = Self::opv(fr, b);
                let (x, y) = (self.conc(st, &x, *w as u32)?, self.conc(st, &y, *w as u32)?);
                let (x, y) = if *w == 64 {
                    (f64::from_bits(x), f64::from_bits(y))
                } else {
                    (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
                };
                let un = x.is_nan() || y.is_nan();
                let r = match &**p {
                    "oeq" => x == y,
                    "one" => !un && x != y,
                    "olt" => x < y,
                    "ole" => x <= y,
                    "ogt" => x > y,
                    "oge" => x >= y,
                    "ueq" => un || x == y,
                    "une" => x != y,
                    "ult" => un || x < y,
                    "ule" => un || x <= y,
                    "ugt" => un || x > y,
                    "uge" => un || x >= y,
                    "uno" => un,
                    "ord" => !un,
                    _ => return Err(Stop::Error(format!("fcmp {}", p))),
                };
                set!(d, Val::C(r as u64))
            }
            I::ExtractElement { d, a, i } => {
                let v = Self::opv(fr, a);
                let i = Self::opv(fr, i);
                let i = self.conc(st, &i, 64)?;
                let r = match v {
                    Val::A(l) => l[i as usize].clone(),
                    _ => Val::C(0),
                };
                set!(d, r)
            }
            I::InsertElement { d, a, v, i, lanes } => {
                let x = Self::opv(fr, a);
                let v = Self::opv(fr, v);
                let i = Self::opv(fr, i);
                let i = self.conc(st, &i, 64)?;
                let mut l = lanes_vec(&x, *lanes).to_vec();
                l[i as usize] = v;
                set!(d, Val::A(l.into()))
            }
            I::Shuffle { d, a, b, mask: shmask, lanes } => {
                let x = lanes_vec(&Self::opv(fr, a), *lanes);
                let y = lanes_vec(&Self::opv(fr, b), *lanes);
                let n = *lanes as usize;
                let r: Vec<Val> = shmask
                    .iter()
                    .map(|m| {
                        let m = *m as usize;
                        if m < n {
                            x[m].clone()
                        } else {
                            y[(m - n) % n].clone()
                        }
                    })
                    .collect();
                set!(d, Val::A(r.into()))
            }
            I::Unreachable => {
                self.violation(st, "unreachable", "executed an unreachable instruction", None)?;
                Err(Stop::Violation)
            }
            I::LandingPad => Err(Stop::Error("landing pad reached".into())),
        }
    }

    fn bin(&mut self, st: &mut State, op: BinOp, w: u32, x: &Val, y: &Val) -> R<Val> {
        if let (Val::C(a), Val::C(b)) = (x, y) {
            let (a, b) = (*a, *b);
            let r = match op {
                BinOp::Add => a.wrapping_add(b),
                BinOp::Sub => a.wrapping_sub(b),
                BinOp::Mul => a.wrapping_mul(b),
                BinOp::And => a & b,
                BinOp::Or => a | b,
                BinOp::Xor => a ^ b,
                BinOp::Shl => {
                    if b >= w as u64 {
                        0
                    } else {
                        a << b
                    }
                }
                BinOp::LShr => {
                    if b >= w as u64 {
                        0
                    } else {
                        a >> b
                    }
                }
                BinOp::AShr => {
                    let s = crate::ir::sext(a, w);
                    (s >> b.min(63)) as u64
                }
                BinOp::UDiv | BinOp::URem => {
                    if b == 0 {
                        self.violation(st, "arith", "division by zero", None)?;
                        return Err(Stop::Violation);
                    }
                    if op == BinOp::UDiv {
                        a / b
                    } else {
                        a % b
                    }
                }
                BinOp::SDiv | BinOp::SRem => {
                    let (p, q) = (crate::ir::sext(a, w), crate::ir::sext(b, w));
                    if q == 0 {
                        self.violation(st, "arith", "division by zero", None)?;
                        return Err(Stop::Violation);
                    }
                    if op == BinOp::SDiv {
                        p.wrapping_div(q) as u64
                    } else {
                        p.wrapping_rem(q) as u64
                    }
                }
                BinOp::FAdd | BinOp::FSub | BinOp::FMul | BinOp::FDiv => {
                    if w == 64 {
                        let (p, q) = (f64::from_bits(a), f64::from_bits(b));
                        match op {
                            BinOp::FAdd => p + q,
                            BinOp::FSub => p - q,
                            BinOp::FMul => p * q,
                            _ => p / q,
                        }
                        .to_bits()
                    } else {
                        let (p, q) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                        match op {
                            BinOp::FAdd => p + q,
                            BinOp::FSub => p - q,
                            BinOp::FMul => p * q,
                            _ => p / q,
                        }
                        .to_bits() as u64
                    }
                }
            };
            return Ok(Val::C(crate::ir::mask(r, w)));
        }
        let k = match op {
            BinOp::Add => K::Add,
            BinOp::Sub => K::Sub,
            BinOp::Mul => K::Mul,
            BinOp::And => K::And,
            BinOp::Or => K::Or,
            BinOp::Xor => K::Xor,
            BinOp::Shl => K::Shl,
            BinOp::LShr => K::LShr,
            BinOp::AShr => K::AShr,
            BinOp::UDiv => K::UDiv,
            BinOp::URem => K::URem,
            BinOp::SDiv => K::SDiv,
            BinOp::SRem => K::SRem,
            _ => {
                let a = self.conc(st, x, w)?;
                let b = self.conc(st, y, w)?;
                return self.bin(st, op, w, &Val::C(a), &Val::C(b));
            }
        };
        let (a, b) = (x.e(w), y.e(w));
        if matches!(k, K::UDiv | K::URem | K::SDiv | K::SRem) && ex().cvalw(b).is_none() {
            let z = ex().cst(0, w);
            let c = ex().eq(b, z);
            if self.branch(st, c)? {
                self.violation(st, "arith", "division by zero", None)?;
                return Err(Stop::Violation);
            }
        }
        let r = ex().bin(k, a, b);
        Ok(mkv(r))
    }

    fn cast(&mut self, _op: CastOp, from: &Ty, to: &Ty, v: Val) -> R<Val> {
        // vectors: flatten to bits or convert lane-wise
        match (from, to) {
            (Ty::Vec(n, ft), Ty::Vec(m, tt)) if n == m => {
                let l = lanes_vec(&v, *n as u16);
                let mut r = vec![];
                for x in l.iter() {
                    let e = x.e(ft.bits());
                    let o = match _op {
                        CastOp::Trunc => ex().extract(e, 0, tt.bits()),
                        CastOp::ZExt => ex().zext(e, tt.bits()),
                        CastOp::SExt => ex().sext(e, tt.bits()),
                        _ => e,
                    };
                    r.push(mkv(o));
                }
                Ok(Val::A(r.into()))
            }
            _ => {
                let e = match from {
                    Ty::Vec(n, ft) => {
                        let l = lanes_vec(&v, *n as u16);
                        let mut acc: Option<E> = None;
                        for x in l.iter() {
                            let e = x.e(ft.bits());
                            acc = Some(match acc {
                                None => e,
                                Some(lo) => ex().concat(e, lo),
                            });
                        }
                        acc.unwrap()
                    }
                    t => v.e(t.bits()),
                };
                match to {
                    Ty::Vec(n, tt) => {
                        let w = tt.bits();
                        let r: Vec<Val> = (0..*n).map(|i| mkv(ex().extract(e, i * w, w))).collect();
                        Ok(Val::A(r.into()))
                    }
                    _ => Ok(mkv(e)),
                }
            }
        }
    }

    // ---------------------------------------------------------------
    // memory

    pub fn load(&mut self, st: &mut State, p: &Val, bits: u32) -> R<Val> {
        let n = ((bits + 7) / 8) as usize;
        let a = match p {
            Val::C(a) => *a,
            Val::S(e) => {
                let e = *e;
                if let Some(c) = self.try_const(st, e) {
                    c
                } else {
                    let fv = self.free_vars(st, e);
                    if fv.len() == 1 {
                        if let Some(v) = self.load_unary(st, e, fv[0], n, bits)? {
                            return Ok(v);
                        }
                    }
                    self.conc(st, p, 64)?
                }
            }
            _ => return Err(Stop::Error("load ptr".into())),
        };
        match st.mem.read(a, n) {
            Ok(Ok(v)) => Ok(Val::C(if bits % 8 != 0 { crate::ir::mask(v, bits) } else { v })),
            Ok(Err(e)) => {
                let e = if bits as usize != n * 8 { ex().extract(e, 0, bits) } else { e };
                Ok(mkv(e))
            }
            Err(f) => Err(self.fault(st, f.0)),
        }
    }
    fn load_unary(&mut self, st: &mut State, e: E, v: u32, n: usize, bits: u32) -> R<Option<Val>> {
        let t = self.eff_tab(st, e, v);
        let d = st.dom[v as usize];
        let mut out = [0u64; 256];
        let mut syms: Vec<(u64, E)> = vec![];
        let mut first = None;
        for i in 0..256 {
            if !dom_has(&d, i as u8) {
                continue;
            }
            match st.mem.read(t[i], n) {
                Ok(Ok(c)) => {
                    out[i] = crate::ir::mask(c, bits);
                    if first.is_none() {
                        first = Some(out[i]);
                    }
                }
                Ok(Err(s)) => {
                    if !syms.iter().any(|x| x.0 == t[i]) {
                        syms.push((t[i], s));
                    }
                }
                Err(_) => return Ok(None),
            }
        }
        if bits > 64 {
            return Ok(None);
        }
        let fill = first.unwrap_or(0);
        for i in 0..256 {
            if !dom_has(&d, i as u8) {
                out[i] = fill;
            }
        }
        let x = ex();
        let mut acc = x.lut(v, &out, bits);
        for (a, s) in syms {
            let k = x.cst(a, 64);
            let c = x.eq(e, k);
            let s = if bits as usize != n * 8 { x.extract(s, 0, bits) } else { s };
            acc = x.ite(c, s, acc);
        }
        Ok(Some(mkv(acc)))
    }
    pub fn store(&mut self, st: &mut State, a: u64, v: &Val, bits: u32) -> R<()> {
        let n = ((bits + 7) / 8) as usize;
        let r = match v {
            Val::C(c) if n <= 8 => st.mem.write(a, n, *c),
            v => {
                let e = v.e(bits);
                let e = if bits as usize != n * 8 { ex().zext(e, n as u32 * 8) } else { e };
                st.mem.write_e(a, n, e)
            }
        };
        r.map_err(|f| self.fault(st, f.0))
    }
    fn load_ty(&mut self, st: &mut State, a: u64, ty: &Ty) -> R<Val> {
        if ty.is_scalar() {
            return self.load(st, &Val::C(a), ty.bits());
        }
        let n = match ty {
            Ty::Struct(f, _) => f.len(),
            Ty::Array(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => return Err(Stop::Error("load type".into())),
        };
        let mut v = vec![];
        for i in 0..n {
            let t = match ty {
                Ty::Struct(f, _) => &f[i],
                Ty::Array(_, t) | Ty::Vec(_, t) => t,
                _ => unreachable!(),
            };
            v.push(self.load_ty(st, a + ty.field_offset(i), t)?);
        }
        Ok(Val::A(v.into()))
    }
    fn store_ty(&mut self, st: &mut State, a: u64, ty: &Ty, v: &Val) -> R<()> {
        if ty.is_scalar() {
            return self.store(st, a, v, ty.bits());
        }
        let n = match ty {
            Ty::Struct(f, _) => f.len(),
            Ty::Array(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => return Err(Stop::Error("store type".into())),
        };
        for i in 0..n {
            let t = match ty {
                Ty::Struct(f, _) => &f[i],
                Ty::Array(_, t) | Ty::Vec(_, t) => t,
                _ => unreachable!(),
            };
            let x = match v {
                Val::A(l) => l[i].clone(),
                _ => zero_of(t),
            };
            self.store_ty(st, a + ty.field_offset(i), t, &x)?;
        }
        Ok(())
    }

    // ---------------------------------------------------------------
    // calls

    fn ret(&mut self, st: &mut State, v: Val) -> R<()> {
        let t = st.cur;
        let th = &mut st.threads[t];
        match th.stack.pop() {
            None => {
                th.status = Status::Done;
                th.ret = v;
                if t == 0 {
                    return Err(Stop::Done);
                }
                self.thread_exit(st, t)?;
                Ok(())
            }
            Some(f) => {
                th.sp = th.cur.sp;
                th.cur = Rc::try_unwrap(f).unwrap_or_else(|r| (*r).clone());
                self.finish_call(st, t, v);
                Ok(())
            }
        }
    }
    /// Complete the call instruction thread t is at.
    fn finish_call(&mut self, st: &mut State, t: usize, v: Val) {
        let fr = &mut st.threads[t].cur;
        let inst: &'static I = &fr.body.blocks[fr.blk as usize].insts[fr.ip as usize];
        match inst {
            I::Call(c) => {
                if let Some(d) = c.d {
                    fr.regs[d as usize] = v;
                }
                match c.normal {
                    None => fr.ip += 1,
                    Some(l) => {
                        let cur = st.cur;
                        st.cur = t;
                        self.jump(st, l);
                        st.cur = cur;
                    }
                }
            }
            _ => panic!("finish_call"),
        }
    }
    fn thread_exit(&mut self, st: &mut State, t: usize) -> R<()> {
        // wake joiners
        let v = st.threads[t].ret.clone();
        for j in 0..st.threads.len() {
            if st.threads[j].status == (Status::Join { tid: t }) {
                st.threads[j].status = Status::Run;
                let _ = &v;
                self.finish_call(st, j, Val::C(0));
            }
        }
        self.schedule(st)
    }
    fn enter(&mut self, st: &mut State, f: u32, args: Vec<Val>) -> R<()> {
        let body = match self.m.funcs[f as usize].body {
            Some(b) => b,
            None => {
                if self.m.funcs[f as usize].text.is_none() {
                    return Err(Stop::Error(format!("call of undefined function {}", self.m.funcs[f as usize].name)));
                }
                self.m.body(f)
            }
        };
        self.called[f as usize] = true;
        if self.cfg.trace {
            *self.inst_prof.entry(f).or_insert(0) += 1;
        }
        let th = st.th();
        if th.stack.len() > 2000 {
            self.violation(st, "memory", "unbounded recursion", None)?;
            return Err(Stop::Violation);
        }
        let mut regs = Vec::with_capacity(body.nregs as usize);
        let np = self.m.funcs[f as usize].params.len();
        for a in args.into_iter().take(np) {
            regs.push(a);
        }
        regs.resize(body.nregs as usize, Val::C(0));
        let sp = th.sp;
        let old = std::mem::replace(&mut th.cur, Frame { f, body, blk: 0, ip: 0, regs, sp });
        th.stack.push(Rc::new(old));
        Ok(())
    }
    fn call(&mut self, st: &mut State, c: &'static Call) -> R<()> {
        let t = st.cur;
        match &c.callee {
            Callee::Intrinsic(i) => {
                let v = self.intrinsic(st, *i, c)?;
                self.finish_call(st, t, v);
                Ok(())
            }
            Callee::Func(f) => {
                let f = *f;
                let b = self.builtin[f as usize];
                let fr = &st.threads[t].cur;
                let args: Vec<Val> = c.args.iter().map(|a| Self::opv(fr, a)).collect();
                if b != B::None && !(st.expect_panic == 2 && matches!(b, B::PanicFmt | B::PanicOther)) {
                    return self.builtin(st, b, c, args, f);
                }
                self.enter(st, f, args)
            }
            Callee::Indirect(o) => {
                let fr = &st.threads[t].cur;
                let p = Self::opv(fr, o);
                let args: Vec<Val> = c.args.iter().map(|a| Self::opv(fr, a)).collect();
                let a = self.conc(st, &p, 64)?;
                if a < FUNC_BASE || (a - FUNC_BASE) % 16 != 0 || (a - FUNC_BASE) / 16 >= self.m.funcs.len() as u64 {
                    return Err(self.fault(st, a));
                }
                let f = ((a - FUNC_BASE) / 16) as u32;
                let b = self.builtin[f as usize];
                if b != B::None && !(st.expect_panic == 2 && matches!(b, B::PanicFmt | B::PanicOther)) {
                    return self.builtin(st, b, c, args, f);
                }
                self.enter(st, f, args)
            }
            Callee::Named(n) => Err(Stop::Error(format!("call of unsupported {}", n))),
            Callee::Asm => Err(Stop::Error("inline assembly".into())),
        }
    }

    fn intrinsic(&mut self, st: &mut State, i: Intr, c: &'static Call) -> R<Val> {
        let t = st.cur;
        if matches!(i, Intr::Nop | Intr::Assume) {
            return Ok(Val::C(0));
        }
        let fr = &st.threads[t].cur;
        let a: Vec<Val> = c.args.iter().map(|a| Self::opv(fr, a)).collect();
        let w = *c.argw.first().unwrap_or(&0) as u32;
        let x = ex();
        Ok(match i {
            Intr::Nop | Intr::Assume | Intr::Pause => {
                if i == Intr::Pause {
                    // spinning: let others run
                    st.threads[t].slice += 500;
                    let r = self.runnable(st);
                    if let Some(j) = r.first() {
                        st.cur = *j;
                        if *j != t {
                            st.threads[*j].slice = 0;
                        }
                    }
                }
                Val::C(0)
            }
            Intr::Memcpy => {
                let n = self.conc(st, &a[2], 64)?;
                let d = self.conc(st, &a[0], 64)?;
                let s = self.conc(st, &a[1], 64)?;
                if n > 0 {
                    st.mem.copy(d, s, n as usize).map_err(|f| self.fault(st, f.0))?;
                }
                Val::C(0)
            }
            Intr::Memset => {
                let n = self.conc(st, &a[2], 64)?;
                let d = self.conc(st, &a[0], 64)?;
                self.memset(st, d, &a[1], n)?;
                Val::C(0)
            }
            Intr::UMax | Intr::UMin | Intr::SMax | Intr::SMin => {
                let (p, q) = (a[0].e(w), a[1].e(w));
                let lt = if matches!(i, Intr::UMax | Intr::UMin) { x.ult(p, q) } else { x.slt(p, q) };
                let r = if matches!(i, Intr::UMax | Intr::SMax) { x.ite(lt, q, p) } else { x.ite(lt, p, q) };
                mkv(r)
            }
            Intr::Ctpop | Intr::Ctlz | Intr::Cttz | Intr::Bswap | Intr::BitReverse => {
                let v = match &a[0] {
                    Val::C(c) => *c,
                    Val::S(e) => {
                        // unary: a table; otherwise concretise
                        let fv = self.free_vars(st, *e);
                        if fv.len() == 1 && w <= 64 {
                            let tb = self.eff_tab(st, *e, fv[0]);
                            let mut r = [0u64; 256];
                            for k in 0..256 {
                                r[k] = bitop(i, tb[k], w);
                            }
                            return Ok(mkv(ex().lut(fv[0], &r, w)));
                        }
                        self.conc(st, &a[0], w)?
                    }
                    _ => return Err(Stop::Error("ctpop".into())),
                };
                Val::C(bitop(i, v, w))
            }
            Intr::Fshl | Intr::Fshr => {
                let s = self.conc(st, &a[2], w)? % w as u64;
                let (p, q) = (a[0].e(w), a[1].e(w));
                let cat = x.concat(p, q);
                let r = if i == Intr::Fshl {
                    x.extract(cat, w - s as u32, w)
                } else {
                    x.extract(cat, s as u32, w)
                };
                mkv(r)
            }
            Intr::UAddO | Intr::USubO | Intr::SAddO | Intr::SSubO | Intr::UMulO | Intr::SMulO => {
                if let (Val::C(p), Val::C(q)) = (&a[0], &a[1]) {
                    let (p, q) = (*p, *q);
                    let (r, o) = match i {
                        Intr::UAddO => {
                            let s = p as u128 + q as u128;
                            (s as u64, s >> w != 0)
                        }
                        Intr::USubO => (p.wrapping_sub(q), p < q),
                        Intr::UMulO => {
                            let s = p as u128 * q as u128;
                            (s as u64, s >> w != 0)
                        }
                        _ => {
                            let (sp, sq) = (crate::ir::sext(p, w) as i128, crate::ir::sext(q, w) as i128);
                            let s = match i {
                                Intr::SAddO => sp + sq,
                                Intr::SSubO => sp - sq,
                                _ => sp * sq,
                            };
                            let lim = 1i128 << (w - 1);
                            (s as u64, s < -lim || s >= lim)
                        }
                    };
                    return Ok(Val::A(vec![Val::C(crate::ir::mask(r, w)), Val::C(o as u64)].into()));
                }
                let (p, q) = (a[0].e(w), a[1].e(w));
                let ww = match i {
                    Intr::UMulO | Intr::SMulO => 2 * w,
                    _ => w + 1,
                };
                let (r, o) = match i {
                    Intr::UAddO => {
                        let r = x.bin(K::Add, p, q);
                        let o = x.ult(r, p);
                        (r, o)
                    }
                    Intr::USubO => (x.bin(K::Sub, p, q), x.ult(p, q)),
                    Intr::UMulO => {
                        let (pe, qe) = (x.zext(p, ww), x.zext(q, ww));
                        let s = x.bin(K::Mul, pe, qe);
                        let r = x.extract(s, 0, w);
                        let h = x.extract(s, w, w);
                        let z = x.cst(0, w);
                        let e = x.eq(h, z);
                        (r, x.not(e))
                    }
                    _ => {
                        let (pe, qe) = (x.sext(p, ww), x.sext(q, ww));
                        let k = match i {
                            Intr::SAddO => K::Add,
                            Intr::SSubO => K::Sub,
                            _ => K::Mul,
                        };
                        let s = x.bin(k, pe, qe);
                        let r = x.extract(s, 0, w);
                        let back = x.sext(r, ww);
                        let e = x.eq(back, s);
                        (r, x.not(e))
                    }
                };
                Val::A(vec![mkv(r), mkv(o)].into())
            }
            Intr::UAddSat => {
                let (p, q) = (a[0].e(w), a[1].e(w));
                let r = x.bin(K::Add, p, q);
                let o = x.ult(r, p);
                let m = x.cst(u64::MAX, w);
                mkv(x.ite(o, m, r))
            }
            Intr::USubSat => {
                let (p, q) = (a[0].e(w), a[1].e(w));
                let r = x.bin(K::Sub, p, q);
                let o = x.ult(p, q);
                let m = x.cst(0, w);
                mkv(x.ite(o, m, r))
            }
            Intr::SAddSat | Intr::SSubSat => {
                let (p, q) = (a[0].e(w), a[1].e(w));
                let (pe, qe) = (x.sext(p, w + 1), x.sext(q, w + 1));
                let s = x.bin(if i == Intr::SAddSat { K::Add } else { K::Sub }, pe, qe);
                let max = x.cst(crate::ir::mask(u64::MAX, w - 1), w + 1);
                let mn = x.cst(1u64 << (w - 1), w);
                let min = x.sext(mn, w + 1);
                let hi = x.slt(max, s);
                let lo = x.slt(s, min);
                let s1 = x.ite(hi, max, s);
                let s2 = x.ite(lo, min, s1);
                mkv(x.extract(s2, 0, w))
            }
            Intr::UCmp | Intr::SCmp => {
                let rw = c.ret.bits();
                let (p, q) = (a[0].e(w), a[1].e(w));
                let (lt, gt) = if i == Intr::UCmp { (x.ult(p, q), x.ult(q, p)) } else { (x.slt(p, q), x.slt(q, p)) };
                let m1 = x.cst(u64::MAX, rw);
                let one = x.cst(1, rw);
                let z = x.cst(0, rw);
                let r = x.ite(gt, one, z);
                mkv(x.ite(lt, m1, r))
            }
            Intr::IsConstant => Val::C(0),
            Intr::Abs => {
                let p = a[0].e(w);
                let z = x.cst(0, w);
                let n = x.bin(K::Sub, z, p);
                let c = x.slt(p, z);
                mkv(x.ite(c, n, p))
            }
            Intr::Trap => {
                self.violation(st, "trap", "trap", None)?;
                return Err(Stop::Violation);
            }
            Intr::Tls => {
                let a = self.conc(st, &a[0], 64)?;
                let g = self.m.globals.iter().find(|g| g.tls && g.addr == a);
                match g {
                    Some(g) => Val::C(st.threads[t].tls + g.tls_off),
                    None => return Err(Stop::Error("tls".into())),
                }
            }
            Intr::Expect => a[0].clone(),
            Intr::FAbs => {
                let c = self.conc(st, &a[0], w)?;
                Val::C(f64::from_bits(c).abs().to_bits())
            }
            Intr::FMaxNum => {
                let p = self.conc(st, &a[0], w)?;
                let q = self.conc(st, &a[1], w)?;
                Val::C(f64::from_bits(p).max(f64::from_bits(q)).to_bits())
            }
            Intr::Unsupported => return Err(Stop::Error("intrinsic".into())),
        })
    }
    fn memset(&mut self, st: &mut State, d: u64, v: &Val, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let r = match v {
            Val::C(c) => st.mem.write_bytes(d, &vec![*c as u8; n as usize]),
            v => {
                let e = v.e(8);
                let mut r = Ok(());
                for i in 0..n {
                    r = st.mem.write_byte(d + i, 0, e);
                    if r.is_err() {
                        break;
                    }
                }
                r
            }
        };
        r.map_err(|f| self.fault(st, f.0))
    }

    // ---------------------------------------------------------------
    // scheduling

    fn runnable(&self, st: &State) -> Vec<usize> {
        let n = st.threads.len();
        (1..=n).map(|k| (st.cur + k) % n).filter(|j| st.threads[*j].status == Status::Run).collect()
    }
    /// A possible preemption before a visible operation.
    fn sched_point(&mut self, st: &mut State) -> R<()> {
        if !st.sched_on {
            let t = st.cur;
            st.threads[t].at_point = false;
            return Ok(());
        }
        // the thread resumes at this very instruction: no second choice
        let t = st.cur;
        if st.threads[t].at_point {
            st.threads[t].at_point = false;
            return Ok(());
        }
        if st.sched_budget == 0 && st.pending.is_none() {
            return Ok(());
        }
        let r: Vec<usize> = self.runnable(st).into_iter().filter(|j| *j != st.cur).collect();
        if r.is_empty() {
            return Ok(());
        }
        // choice 0: continue; k: preempt in favour of r[k-1]
        let k = self.choose(st, r.len() + 1)?;
        if k == 0 {
            return Ok(());
        }
        st.sched_budget -= 1;
        st.threads[t].at_point = true;
        self.switch_to(st, r[k - 1]);
        Ok(())
    }
    fn switch_to(&mut self, st: &mut State, j: usize) {
        st.cur = j;
        st.threads[j].slice = 0;
    }
    /// A schedule choice, as a fresh symbolic variable over 0..n.
    fn choose(&mut self, st: &mut State, n: usize) -> R<usize> {
        if n == 1 {
            return Ok(0);
        }
        if let Some(k) = st.pending.take() {
            return Ok(k as usize);
        }
        st.sched_points += 1;
        if self.cfg.replay.is_some() {
            let v = self.cfg.replay_sched.get(st.var_kind.iter().filter(|k| **k == VarKind::Sched).count()).copied().unwrap_or(0);
            self.new_var(st, VarKind::Sched, Some(v));
            return Ok((v as usize).min(n - 1));
        }
        // fork n ways, all at once: each sibling has the decision stored
        let v = self.new_var(st, VarKind::Sched, None);
        let x = ex();
        let ve = x.var(v);
        let mut chosen = 0;
        for k in (0..n).rev() {
            let kc = ex().cst(k as u64, 8);
            let c = ex().eq(ve, kc);
            if k == 0 {
                let mut m = st.model.clone();
                m[v as usize] = 0;
                self.add(st, c, m);
                chosen = 0;
            } else {
                let mut o = st.clone();
                let mut m = o.model.clone();
                m[v as usize] = k as u8;
                self.add(&mut o, c, m);
                o.pending = Some(k as u8);
                if o.threads[o.cur].status == Status::Run {
                    o.insts -= 1;
                    let oc = o.cur;
                    o.threads[oc].slice = o.threads[oc].slice.saturating_sub(1);
                }
                self.stats.forks += 1;
                self.work.push(o);
            }
        }
        Ok(chosen)
    }
    fn new_var(&mut self, st: &mut State, kind: VarKind, val: Option<u8>) -> u32 {
        let v = st.dom.len() as u32;
        match val {
            None => {
                st.dom.push([u64::MAX; 4]);
                st.model.push(0);
            }
            Some(x) => {
                let mut d = [0u64; 4];
                d[x as usize / 64] = 1 << (x % 64);
                st.dom.push(d);
                st.model.push(x);
            }
        }
        st.var_kind.push(kind);
        v
    }
    /// Current thread cannot continue: pick another one.
    fn schedule(&mut self, st: &mut State) -> R<()> {
        loop {
            let r = self.runnable(st);
            if !r.is_empty() {
                let mut k = 0;
                if st.sched_on && r.len() > 1 && (st.sched_budget > 0 || st.pending.is_some()) {
                    k = self.choose(st, r.len())?;
                    if k > 0 {
                        st.sched_budget -= 1;
                    }
                }
                self.switch_to(st, r[k]);
                return Ok(());
            }
            // nobody can run: time passes
            let mut adv: Option<(usize, u64)> = None;
            let mut next: Option<u64> = None;
            for (i, th) in st.threads.iter().enumerate() {
                match th.status {
                    Status::Advance { until } => adv = Some((i, until)),
                    Status::Futex { deadline: Some(d), .. } | Status::Sleep { deadline: d } => {
                        next = Some(next.map_or(d, |n: u64| n.min(d)))
                    }
                    _ => (),
                }
            }
            match (adv, next) {
                (Some((_, until)), Some(d)) if d <= until => {
                    st.clock = st.clock.max(d);
                    self.fire(st);
                }
                (Some((i, until)), _) => {
                    st.clock = st.clock.max(until);
                    st.threads[i].status = Status::Run;
                    self.finish_call(st, i, Val::C(0));
                    st.cur = i;
                    st.settle_start = st.insts;
                    return Ok(());
                }
                (None, Some(d)) => {
                    st.clock = st.clock.max(d);
                    self.fire(st);
                }
                (None, None) => {
                    st.cur = 0;
                    self.violation(st, "hang", "all threads are blocked for ever (deadlock)", None)?;
                    return Err(Stop::Violation);
                }
            }
        }
    }
    /// Wake every thread whose deadline has passed.
    fn fire(&mut self, st: &mut State) {
        for i in 0..st.threads.len() {
            match st.threads[i].status {
                Status::Futex { deadline: Some(d), .. } if d <= st.clock => {
                    st.threads[i].status = Status::Run;
                    let e = st.threads[i].errno;
                    let _ = st.mem.write(e, 4, 110);
                    self.finish_call(st, i, Val::C(u64::MAX));
                }
                Status::Sleep { deadline: d } if d <= st.clock => {
                    st.threads[i].status = Status::Run;
                    self.finish_call(st, i, Val::C(0));
                }
                _ => (),
            }
        }
    }

    // ---------------------------------------------------------------
    // built-in functions

    fn done(&mut self, st: &mut State, v: Val) -> R<()> {
        let t = st.cur;
        self.finish_call(st, t, v);
        Ok(())
    }
    fn panic(&mut self, st: &mut State, msg: &str) -> R<()> {
        if st.expect_panic != 0 {
            return Err(Stop::Done);
        }
        self.violation(st, "panic", msg, None)?;
        Err(Stop::Violation)
    }

    fn builtin(&mut self, st: &mut State, b: B, c: &'static Call, a: Vec<Val>, f: u32) -> R<()> {
        let t = st.cur;
        match b {
            B::None => unreachable!(),
            B::Memcpy => {
                let n = self.conc(st, &a[2], 64)?;
                let d = self.conc(st, &a[0], 64)?;
                let s = self.conc(st, &a[1], 64)?;
                st.mem.copy(d, s, n as usize).map_err(|f| self.fault(st, f.0))?;
                self.done(st, Val::C(d))
            }
            B::Memset => {
                let n = self.conc(st, &a[2], 64)?;
                let d = self.conc(st, &a[0], 64)?;
                let v = match &a[1] {
                    Val::S(e) => mkv(ex().extract(*e, 0, 8)),
                    v => v.clone(),
                };
                self.memset(st, d, &v, n)?;
                self.done(st, Val::C(d))
            }
            B::Memcmp => {
                let n = self.conc(st, &a[2], 64)?;
                let p = self.conc(st, &a[0], 64)?;
                let q = self.conc(st, &a[1], 64)?;
                let x = ex();
                // from the end: ite(a_i != b_i, sign, rest)
                let bcmp = self.m.funcs[f as usize].name == "bcmp";
                let mut acc = x.cst(0, 32);
                let m1 = x.cst(u64::MAX, 32);
                let one = x.cst(1, 32);
                if bcmp {
                    let mut all = x.cst(1, 1);
                    for i in 0..n {
                        let u = self.byte(st, p + i)?;
                        let v = self.byte(st, q + i)?;
                        let e = ex().eq(u, v);
                        all = ex().bin(K::And, all, e);
                        if ex().cval(all) == Some(0) {
                            break;
                        }
                    }
                    acc = ex().ite(all, acc, one);
                } else {
                    let mut bytes = vec![];
                    for i in 0..n {
                        let u = self.byte(st, p + i)?;
                        let v = self.byte(st, q + i)?;
                        bytes.push((u, v));
                        if let (Some(k), Some(l)) = (ex().cval(u), ex().cval(v)) {
                            if k != l {
                                break;
                            }
                        }
                    }
                    for (u, v) in bytes.into_iter().rev() {
                        let x = ex();
                        let e = x.eq(u, v);
                        let l = x.ult(u, v);
                        let s = x.ite(l, m1, one);
                        acc = x.ite(e, acc, s);
                    }
                }
                self.done(st, mkv(acc))
            }
            B::Strlen => {
                let p = self.conc(st, &a[0], 64)?;
                let mut n = 0;
                loop {
                    let (b, e) = st.mem.read_byte(p + n).map_err(|f| self.fault(st, f.0))?;
                    if e != 0 {
                        return Err(Stop::Error("symbolic strlen".into()));
                    }
                    if b == 0 {
                        break;
                    }
                    n += 1;
                }
                self.done(st, Val::C(n))
            }
            B::Malloc | B::Calloc => {
                let mut n = self.conc(st, &a[0], 64)?;
                if b == B::Calloc {
                    n = n.wrapping_mul(self.conc(st, &a[1], 64)?);
                }
                if n > 64 << 20 {
                    return Err(Stop::Error("huge allocation".into()));
                }
                let p = self.f(st.mem.malloc(n, 16))?;
                if b == B::Calloc {
                    self.memset(st, p, &Val::C(0), n)?;
                }
                self.done(st, Val::C(p))
            }
            B::Realloc => {
                let p = self.conc(st, &a[0], 64)?;
                let n = self.conc(st, &a[1], 64)?;
                let q = self.f(st.mem.malloc(n, 16))?;
                if p != 0 {
                    let old = match st.mem.size_of(p) {
                        Some(o) => o,
                        None => return Err(self.fault(st, p)),
                    };
                    st.mem.copy(q, p, old.min(n) as usize).map_err(|f| self.fault(st, f.0))?;
                    st.mem.free(p).map_err(|f| self.fault(st, f.0))?;
                }
                self.done(st, Val::C(q))
            }
            B::PosixMemalign => {
                let out = self.conc(st, &a[0], 64)?;
                let al = self.conc(st, &a[1], 64)?;
                let n = self.conc(st, &a[2], 64)?;
                let p = self.f(st.mem.malloc(n, al))?;
                self.store(st, out, &Val::C(p), 64)?;
                self.done(st, Val::C(0))
            }
            B::Free => {
                let p = self.conc(st, &a[0], 64)?;
                if st.mem.free(p).is_err() {
                    self.violation(st, "memory", "invalid or double free", None)?;
                    return Err(Stop::Violation);
                }
                self.done(st, Val::C(0))
            }
            B::PthreadCreate => {
                let out = self.conc(st, &a[0], 64)?;
                let fp = self.conc(st, &a[2], 64)?;
                let fi = ((fp - FUNC_BASE) / 16) as u32;
                let tid = self.new_thread(st, fi, vec![a[3].clone()])?;
                self.store(st, out, &Val::C(tid as u64 + 1), 64)?;
                self.done(st, Val::C(0))
            }
            B::PthreadJoin => {
                let tid = self.conc(st, &a[0], 64)? as usize - 1;
                if st.threads[tid].status == Status::Done {
                    return self.done(st, Val::C(0));
                }
                st.threads[t].status = Status::Join { tid };
                self.schedule(st)
            }
            B::PthreadDetach | B::Ret0 => self.done(st, Val::C(0)),
            B::PthreadSelf => self.done(st, Val::C(t as u64 + 1)),
            B::AttrGetStack => {
                let lo = st.threads[t].stack_lo;
                let p = self.conc(st, &a[1], 64)?;
                let q = self.conc(st, &a[2], 64)?;
                self.store(st, p, &Val::C(lo), 64)?;
                self.store(st, q, &Val::C(STACK_SIZE), 64)?;
                self.done(st, Val::C(0))
            }
            B::KeyCreate => {
                let p = self.conc(st, &a[0], 64)?;
                st.keys += 1;
                let k = st.keys;
                self.store(st, p, &Val::C(k), 32)?;
                self.done(st, Val::C(0))
            }
            B::SetSpecific => {
                let k = self.conc(st, &a[0], 32)?;
                st.threads[t].specific.insert(k, a[1].clone());
                self.done(st, Val::C(0))
            }
            B::GetSpecific => {
                let k = self.conc(st, &a[0], 32)?;
                let v = st.threads[t].specific.get(&k).cloned().unwrap_or(Val::C(0));
                self.done(st, v)
            }
            B::SchedYield => {
                self.done(st, Val::C(0))?;
                let r = self.runnable(st);
                st.threads[t].slice += 500; // a spinning thread uses up its slice
                if let Some(j) = r.first() {
                    st.cur = *j;
                    if *j != t {
                        st.threads[*j].slice = 0;
                    }
                }
                Ok(())
            }
            B::Syscall => self.syscall(st, a),
            B::ClockGettime => {
                let p = self.conc(st, &a[1], 64)?;
                let c = st.clock;
                self.store(st, p, &Val::C(c / 1_000_000_000), 64)?;
                self.store(st, p + 8, &Val::C(c % 1_000_000_000), 64)?;
                self.done(st, Val::C(0))
            }
            B::Nanosleep => {
                let clockn = self.m.funcs[f as usize].name == "clock_nanosleep";
                let p = self.conc(st, &a[if clockn { 2 } else { 0 }], 64)?;
                let s = self.load(st, &Val::C(p), 64)?;
                let n = self.load(st, &Val::C(p + 8), 64)?;
                let (s, n) = (self.conc(st, &s, 64)?, self.conc(st, &n, 64)?);
                let abs = clockn && self.conc(st, &a[1], 32)? & 1 != 0;
                let d = s.saturating_mul(1_000_000_000).saturating_add(n);
                let deadline = if abs { d } else { st.clock.saturating_add(d) };
                st.threads[t].status = Status::Sleep { deadline };
                self.schedule(st)
            }
            B::Errno => {
                let e = st.threads[t].errno;
                self.done(st, Val::C(e))
            }
            B::Sysconf => {
                let k = self.conc(st, &a[0], 32)?;
                let v = match k {
                    30 => 4096,
                    84 | 83 => 8,
                    _ => 0,
                };
                self.done(st, Val::C(v))
            }
            B::Abort if st.expect_panic == 2 => Err(Stop::Done),
            B::Abort => {
                self.violation(st, "abort", "abort", None)?;
                Err(Stop::Violation)
            }
            B::Exit => Err(Stop::Error("exit called".into())),
            B::Mmap => {
                let n = self.conc(st, &a[1], 64)?;
                let p = self.f(st.mem.malloc(n, 4096))?;
                self.done(st, Val::C(p))
            }
            B::SymU8 => {
                if let Some(r) = &self.cfg.replay {
                    let n = st.var_kind.iter().filter(|k| **k == VarKind::Input).count();
                    let v = r.get(n).copied().unwrap_or(0);
                    self.new_var(st, VarKind::Input, Some(v));
                    return self.done(st, Val::C(v as u64));
                }
                let v = self.new_var(st, VarKind::Input, None);
                let e = ex().var(v);
                self.done(st, Val::S(e))
            }
            B::Assume => {
                match &a[0] {
                    Val::C(k) => {
                        if *k == 0 {
                            return Err(Stop::Infeasible);
                        }
                    }
                    v => {
                        let e = tobool(v, c.argw[0] as u32);
                        match self.sat_with(st, e)? {
                            None => return Err(Stop::Infeasible),
                            Some(m) => self.add(st, e, m),
                        }
                    }
                }
                self.done(st, Val::C(0))
            }
            B::Check => {
                let p = self.conc(st, &a[1], 64)?;
                let n = self.conc(st, &a[2], 64)?;
                match &a[0] {
                    Val::C(k) => {
                        self.stats.checks_conc += 1;
                        if *k == 0 {
                            let msg = st.mem.bytes_lossy(p, n);
                            self.violation(st, "check", &msg, None)?;
                            return Err(Stop::Violation);
                        }
                    }
                    v => {
                        let e = tobool(v, c.argw[0] as u32);
                        self.stats.checks_sym += 1;
                        let ne = ex().not(e);
                        let (cs, vars) = self.struct_slice(st, ne);
                        self.stats.checks_z3 += 1;
                        match self.z3.check(&cs, &vars) {
                            Sat::Unsat => (),
                            Sat::Unknown => return Err(Stop::Error("solver unknown at check".into())),
                            Sat::Sat(m) => {
                                let mut model = st.model.clone();
                                for (v, x) in m {
                                    model[v as usize] = x;
                                }
                                let msg = st.mem.bytes_lossy(p, n);
                                self.violation(st, "check", &msg, Some(&model))?;
                                match self.sat_with(st, e)? {
                                    None => return Err(Stop::Violation),
                                    Some(m) => self.add(st, e, m),
                                }
                            }
                        }
                    }
                }
                self.done(st, Val::C(0))
            }
            B::Settle => {
                st.settle_start = st.insts;
                let until = st.clock;
                st.threads[t].status = Status::Advance { until };
                self.schedule(st)
            }
            B::Advance => {
                let n = self.conc(st, &a[0], 64)?;
                st.settle_start = st.insts;
                let until = st.clock.saturating_add(n);
                st.threads[t].status = Status::Advance { until };
                self.schedule(st)
            }
            B::Observe => {
                st.obs.push(a[0].clone());
                self.done(st, Val::C(0))
            }
            B::Cover => {
                let k = self.conc(st, &a[0], 32)?;
                st.covers.insert(k as u32);
                self.done(st, Val::C(0))
            }
            B::ExpectPanic => {
                let k = self.conc(st, &a[0], 32)?;
                st.expect_panic = k as u8;
                self.done(st, Val::C(0))
            }
            B::Sched => {
                let k = self.conc(st, &a[0], 32)?;
                if k == u32::MAX as u64 {
                    st.sched_on = false;
                } else {
                    st.sched_on = true;
                    st.sched_budget = k as u32;
                }
                self.done(st, Val::C(0))
            }
            B::IsSym => self.done(st, Val::C(1)),
            B::Conc => {
                let v = self.conc(st, &a[0], 64)?;
                self.done(st, Val::C(v))
            }
            B::Tier => {
                let v = self.cfg.tier;
                self.done(st, Val::C(v))
            }
            B::ThreadsAlive => {
                let n = st.threads.iter().filter(|t| t.status != Status::Done).count();
                self.done(st, Val::C(n as u64))
            }
            B::Print => {
                let p = self.conc(st, &a[0], 64)?;
                let n = self.conc(st, &a[1], 64)?;
                if self.cfg.trace {
                    eprintln!("[print] {}", st.mem.bytes_lossy(p, n));
                }
                self.done(st, Val::C(0))
            }
            B::Debug => {
                if self.cfg.trace {
                    eprintln!("[debug] {:?} stack {}", a, self.stack(st).join(" < "));
                }
                self.done(st, Val::C(0))
            }
            B::PanicFmt => {
                let mut msg = String::from("panic");
                // last pointer argument: &Location { file ptr, file len, line, col }
                if let Some(Val::C(l)) = a.last() {
                    if let (Ok(Ok(p)), Ok(Ok(n)), Ok(Ok(line))) =
                        (st.mem.read(*l, 8), st.mem.read(*l + 8, 8), st.mem.read(*l + 16, 4))
                    {
                        if n < 400 {
                            msg = format!("panic at {}:{}", st.mem.bytes_lossy(p, n).trim_end_matches('\0'), line);
                        }
                    }
                }
                // literal pieces of the message
                if let Some(Val::C(p)) = a.first() {
                    let s = st.mem.bytes_lossy(*p, 60);
                    let s: String = s.chars().filter(|c| c.is_ascii_graphic() || *c == ' ').collect();
                    msg.push_str(&format!(" [{}]", s.chars().take(60).collect::<String>()));
                }
                self.panic(st, &msg)
            }
            B::PanicOther => self.panic(st, "panic"),
            B::Case => unreachable!(),
        }
    }
    fn byte(&mut self, st: &mut State, a: u64) -> R<E> {
        match st.mem.read_byte(a) {
            Ok((b, 0)) => Ok(ex().cst(b as u64, 8)),
            Ok((_, e)) => Ok(e),
            Err(f) => Err(self.fault(st, f.0)),
        }
    }
    fn syscall(&mut self, st: &mut State, a: Vec<Val>) -> R<()> {
        let t = st.cur;
        let n = self.conc(st, &a[0], 64)?;
        match n {
            202 => {
                let addr = self.conc(st, &a[1], 64)?;
                let op = self.conc(st, &a[2], 64)? & 0x7f;
                match op {
                    0 | 9 => {
                        let val = self.conc(st, &a[3], 64)? as u32;
                        let ts = self.conc(st, &a[4], 64)?;
                        let cur = self.load(st, &Val::C(addr), 32)?;
                        let cur = self.conc(st, &cur, 32)? as u32;
                        if cur != val {
                            let e = st.threads[t].errno;
                            let _ = st.mem.write(e, 4, 11);
                            return self.done(st, Val::C(u64::MAX));
                        }
                        let deadline = if ts == 0 {
                            None
                        } else {
                            let s = self.load(st, &Val::C(ts), 64)?;
                            let ns = self.load(st, &Val::C(ts + 8), 64)?;
                            let (s, ns) = (self.conc(st, &s, 64)?, self.conc(st, &ns, 64)?);
                            let d = s.saturating_mul(1_000_000_000).saturating_add(ns);
                            Some(if op == 9 { d } else { st.clock.saturating_add(d) })
                        };
                        if let Some(d) = deadline {
                            if d <= st.clock {
                                let e = st.threads[t].errno;
                                let _ = st.mem.write(e, 4, 110);
                                return self.done(st, Val::C(u64::MAX));
                            }
                        }
                        st.threads[t].status = Status::Futex { addr, deadline };
                        self.schedule(st)
                    }
                    1 | 10 => {
                        let cnt = self.conc(st, &a[3], 64)? as u32 as i32;
                        let mut woken = 0;
                        for i in 0..st.threads.len() {
                            if woken >= cnt {
                                break;
                            }
                            if let Status::Futex { addr: x, .. } = st.threads[i].status {
                                if x == addr {
                                    st.threads[i].status = Status::Run;
                                    self.finish_call(st, i, Val::C(0));
                                    woken += 1;
                                }
                            }
                        }
                        self.done(st, Val::C(woken as u64))
                    }
                    _ => Err(Stop::Error(format!("futex op {}", op))),
                }
            }
            186 => self.done(st, Val::C(1000 + t as u64)),
            318 => {
                let p = self.conc(st, &a[1], 64)?;
                let k = self.conc(st, &a[2], 64)?;
                self.memset(st, p, &Val::C(0x5a), k)?;
                self.done(st, Val::C(k))
            }
            _ => {
                let e = st.threads[t].errno;
                let _ = st.mem.write(e, 4, 38);
                self.done(st, Val::C(u64::MAX))
            }
        }
    }
}

fn bitop(i: Intr, v: u64, w: u32) -> u64 {
    match i {
        Intr::Ctpop => v.count_ones() as u64,
        Intr::Ctlz => (v << (64 - w)).leading_zeros().min(w) as u64,
        Intr::Cttz => v.trailing_zeros().min(w) as u64,
        Intr::Bswap => v.swap_bytes() >> (64 - w),
        _ => v.reverse_bits() >> (64 - w),
    }
}

fn tobool(v: &Val, w: u32) -> E {
    let e = v.e(w);
    if w == 1 {
        e
    } else {
        let z = ex().cst(0, w);
        let q = ex().eq(e, z);
        ex().not(q)
    }
}

fn lanes_vec(v: &Val, n: u16) -> Rc<[Val]> {
    match v {
        Val::A(l) => l.clone(),
        _ => vec![Val::C(0); n as usize].into(),
    }
}

fn const_val(ty: &Ty, c: &Const) -> Val {
    match c {
        Const::I(x) => Val::C(*x),
        Const::W(x) => Val::S(ex().cstw(*x, ty.bits())),
        Const::Bytes(b) => Val::A(b.iter().map(|x| Val::C(*x as u64)).collect::<Vec<_>>().into()),
        Const::Zero | Const::Undef => zero_of(ty),
        Const::Agg(v) => {
            let l: Vec<Val> = v
                .iter()
                .enumerate()
                .map(|(i, x)| {
                    let t = match ty {
                        Ty::Struct(f, _) => &f[i],
                        Ty::Array(_, t) | Ty::Vec(_, t) => t,
                        _ => panic!("const agg"),
                    };
                    const_val(t, x)
                })
                .collect();
            Val::A(l.into())
        }
    }
}

fn zero_of(ty: &Ty) -> Val {
    match ty {
        Ty::Struct(f, _) => Val::A(f.iter().map(zero_of).collect::<Vec<_>>().into()),
        Ty::Array(n, t) => Val::A(vec![zero_of(t); *n as usize].into()),
        Ty::Vec(n, t) => Val::A(vec![zero_of(t); *n as usize].into()),
        t => {
            if t.bits() > 64 {
                Val::S(ex().cstw(0, t.bits()))
            } else {
                Val::C(0)
            }
        }
    }
}

fn insert(agg: &Val, ty: &Ty, path: &[u32], v: Val) -> Val {
    if path.is_empty() {
        return v;
    }
    let i = path[0] as usize;
    let mut l: Vec<Val> = match agg {
        Val::A(l) => l.to_vec(),
        _ => match zero_of(ty) {
            Val::A(l) => l.to_vec(),
            _ => panic!("insertvalue"),
        },
    };
    let t = match ty {
        Ty::Struct(f, _) => &f[i],
        Ty::Array(_, t) | Ty::Vec(_, t) => t,
        _ => panic!("insertvalue type"),
    };
    l[i] = insert(&l[i], t, &path[1..], v);
    Val::A(l.into())
}

fn icmp(p: Pred, w: u32, x: &Val, y: &Val) -> Val {
    if let (Val::C(a), Val::C(b)) = (x, y) {
        let (a, b) = (*a, *b);
        let s = |v| crate::ir::sext(v, w);
        let r = match p {
            Pred::Eq => a == b,
            Pred::Ne => a != b,
            Pred::Ult => a < b,
            Pred::Ule => a <= b,
            Pred::Ugt => a > b,
            Pred::Uge => a >= b,
            Pred::Slt => s(a) < s(b),
            Pred::Sle => s(a) <= s(b),
            Pred::Sgt => s(a) > s(b),
            Pred::Sge => s(a) >= s(b),
        };
        return Val::C(r as u64);
    }
    let (a, b) = (x.e(w), y.e(w));
    let q = ex();
    let r = match p {
        Pred::Eq => q.eq(a, b),
        Pred::Ne => {
            let r = q.eq(a, b);
            q.not(r)
        }
        Pred::Ult => q.ult(a, b),
        Pred::Uge => {
            let r = q.ult(a, b);
            q.not(r)
        }
        Pred::Ugt => q.ult(b, a),
        Pred::Ule => {
            let r = q.ult(b, a);
            q.not(r)
        }
        Pred::Slt => q.slt(a, b),
        Pred::Sge => {
            let r = q.slt(a, b);
            q.not(r)
        }
        Pred::Sgt => q.slt(b, a),
        Pred::Sle => {
            let r = q.slt(b, a);
            q.not(r)
        }
    };
    mkv(r)
}

/// Rough demangling of v0 symbols: the identifiers, joined.
pub fn demangle(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut parts: Vec<&str> = vec![];
    while i < b.len() {
        if b[i] == b's' {
            // disambiguator s<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j + 1 < b.len() {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() {
            let mut j = i;
            let mut len = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                len = len * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if len > 0 && j + len <= b.len() {
                parts.push(&n[j..j + len]);
                i = j + len;
                continue;
            }
            i = j;
            continue;
        }
        i += 1;
    }
    parts.join("::")
}
