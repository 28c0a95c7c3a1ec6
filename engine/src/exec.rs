//! Symbolic interpreter for the parsed LLVM module.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Default)]
pub struct Obj {
    size: u64,
    data: Vec<u8>, // lazily grown; missing bytes are 0
    sym: BTreeMap<u64, E>,
    heap: bool,
    asked: u64,
}

impl Obj {
    fn new(size: u64, heap: bool) -> Obj {
        Obj { size, data: vec![], sym: BTreeMap::new(), heap, asked: size }
    }
    fn byte(&self, o: u64) -> V {
        if !self.sym.is_empty() {
            if let Some(e) = self.sym.get(&o) {
                return V::S(e.clone());
            }
        }
        V::C(self.data.get(o as usize).copied().unwrap_or(0) as u64, 8)
    }
    fn set_byte(&mut self, o: u64, v: &V) {
        match v {
            V::C(x, _) => {
                self.ensure(o + 1);
                self.data[o as usize] = *x as u8;
                if !self.sym.is_empty() {
                    self.sym.remove(&o);
                }
            }
            V::S(e) => {
                if let Some(c) = as_c(e) {
                    return self.set_byte(o, &V::C(c as u64, 8));
                }
                self.sym.insert(o, e.clone());
            }
            V::A(_) => unreachable!(),
        }
    }
    fn ensure(&mut self, n: u64) {
        if (self.data.len() as u64) < n {
            let want = n.max((self.data.len() as u64 * 2).min(self.size)).min(self.size.max(n));
            self.data.resize(want as usize, 0);
        }
    }
    fn clear_sym(&mut self, o: u64, n: u64) {
        if self.sym.is_empty() {
            return;
        }
        let ks: Vec<u64> = self.sym.range(o..o + n).map(|x| *x.0).collect();
        for k in ks {
            self.sym.remove(&k);
        }
    }
}

#[derive(Clone)]
struct Frame {
    f: u32,
    body: &'static Body,
    regs: Vec<V>,
    blk: u32,
    pc: u32,
    ret: Option<u32>,
    normal: Option<u32>,
    allocas: Vec<u32>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    objs: Vec<Option<Rc<Obj>>>, // heap/stack
    free: Vec<u32>,
    gov: HashMap<u32, Rc<Obj>>, // mutable globals overlay
    pub pc: Pc,
    pub steps: u64,
    pub nvars: u32,
    pub choices: Vec<u32>,
    pub obs: Vec<V>,
    reach: Rc<BTreeSet<String>>,
    alloc_limit: u64,
    alloc_total: u64,
    env_rand: u32,
}

pub enum End {
    Done,
    Pruned,
    Viol,
    Unsup(String),
    Unknown,
}
type R<T> = Result<T, End>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum FK {
    Def,
    Panic,
    Nop,
    NopZero,
    Memcpy,
    Memset,
    Memcmp(bool),
    Strlen,
    Bswap,
    Ctlz,
    Cttz,
    Ctpop,
    Bitrev,
    Fsh(bool),
    Sat(bool, bool), // add?, signed?
    MinMax(bool, bool), // max?, signed?
    CmpI(bool), // signed?
    Abs,
    Ovf(B, bool),
    Tls,
    Expect,
    IsConst,
    VecRed(u8),
    Fabs,
    Copysign,
    FpClass,
    FpSat(bool),
    Malloc,
    Calloc,
    Realloc,
    Free,
    Memalign,
    AlignedAlloc,
    Abort,
    SymBytes,
    SymChoose,
    SymAssume,
    SymCheck,
    SymReach,
    SymObserve,
    SymAllocLimit,
    SymConcretize,
    SymFail,
    SymUtf8,
    SymDone,
    SymInitFn,
    Utf8,
    Syscall,
    Rand,
    Unsup,
    Assume,
    LoadRel,
    Trap,
    Errno,
    ModelEval,
    Write,
}

fn fop32(k: u8, a: f32, b: f32) -> f32 {
    match k {
        b'a' => a + b,
        b's' => a - b,
        b'm' => a * b,
        b'd' => a / b,
        _ => a % b,
    }
}
fn fop64(k: u8, a: f64, b: f64) -> f64 {
    match k {
        b'a' => a + b,
        b's' => a - b,
        b'm' => a * b,
        b'd' => a / b,
        _ => a % b,
    }
}
/// IEEE comparison on the bits; k holds the outcomes accepted: 1 equal, 2 greater, 4 less, 8 unordered
fn fcmp_e(k: u8, w: u32, x: &E, y: &E) -> E {
    let mant = if w == 32 { 23 } else { 52 };
    let inf = cst(w, ((1u128 << (w - 1 - mant)) - 1) << mant);
    let mag = |e: &E| bin(B::And, e, &cst(w, (1u128 << (w - 1)) - 1));
    let (mx, my) = (mag(x), mag(y));
    let nan = |m: &E| cmp(P::Ult, &inf, m);
    let uno = or1(&nan(&mx), &nan(&my));
    let zero = cmp(P::Eq, &bin(B::Or, &mx, &my), &cst(w, 0));
    let eq = or1(&cmp(P::Eq, x, y), &zero);
    let neg = |e: &E| cmp(P::Eq, &extract(e, w - 1, 1), &cst(1, 1));
    let (nx, ny) = (neg(x), neg(y));
    let below = ite(&nx, &ite(&ny, &cmp(P::Ult, y, x), &tt()), &ite(&ny, &ff(), &cmp(P::Ult, x, y)));
    let lt = and1(&below, &not1(&eq));
    let gt = and1(&not1(&below), &not1(&eq));
    let mut r = ff();
    if k & 1 != 0 {
        r = or1(&r, &eq);
    }
    if k & 2 != 0 {
        r = or1(&r, &gt);
    }
    if k & 4 != 0 {
        r = or1(&r, &lt);
    }
    let u = if k & 8 != 0 { tt() } else { ff() };
    ite(&uno, &u, &r)
}

fn classify(n: &str, defined: bool) -> FK {
    if n.contains("4core9panicking") || n.contains("rust_begin_unwind") || n.contains("18handle_alloc_error") || n.contains("rust_panic_with_hook") || n.contains("17rust_oom") {
        return FK::Panic;
    }
    match n {
        "malloc" => return FK::Malloc,
        "calloc" => return FK::Calloc,
        "realloc" => return FK::Realloc,
        "free" => return FK::Free,
        "posix_memalign" => return FK::Memalign,
        "aligned_alloc" => return FK::AlignedAlloc,
        "abort" | "_exit" => return FK::Abort,
        "exit" if !defined => return FK::Abort,
        "bcmp" => return FK::Memcmp(false),
        "memcmp" => return FK::Memcmp(true),
        "strlen" => return FK::Strlen,
        "memcpy" | "memmove" => return FK::Memcpy,
        "memset" => return FK::Memset,
        "__sym_bytes" => return FK::SymBytes,
        "__sym_choose" => return FK::SymChoose,
        "__sym_assume" => return FK::SymAssume,
        "__sym_check" => return FK::SymCheck,
        "__sym_reach" => return FK::SymReach,
        "__sym_observe" => return FK::SymObserve,
        "__sym_alloc_limit" => return FK::SymAllocLimit,
        "__sym_concretize" => return FK::SymConcretize,
        "__sym_fail" => return FK::SymFail,
        "__sym_utf8" => return FK::SymUtf8,
        "__sym_done" => return FK::SymDone,
        "__sym_init_fn" => return FK::SymInitFn,
        "getrandom" | "getentropy" => return FK::Rand,
        "syscall" => return FK::Syscall,
        "getenv" if !defined => return FK::NopZero,
        "pthread_self" | "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "pthread_getspecific" | "pthread_key_delete" | "sigaltstack" | "signal" | "getpid" => return FK::NopZero,
        "__errno_location" => return FK::Errno,
        "write" | "writev" if !defined => return FK::Write,
        _ => {}
    }
    if defined && n.ends_with("3str8converts9from_utf8") {
        return FK::Utf8;
    }
    if defined {
        return FK::Def;
    }
    if let Some(s) = n.strip_prefix("llvm.") {
        let p = |x: &str| s.starts_with(x);
        return if p("memcpy") || p("memmove") {
            FK::Memcpy
        } else if p("memset") {
            FK::Memset
        } else if p("lifetime") || p("dbg") || p("experimental.noalias") || p("invariant") || p("prefetch") || p("donothing") {
            FK::Nop
        } else if p("assume") {
            FK::Assume
        } else if p("bswap") {
            FK::Bswap
        } else if p("ctlz") {
            FK::Ctlz
        } else if p("cttz") {
            FK::Cttz
        } else if p("ctpop") {
            FK::Ctpop
        } else if p("bitreverse") {
            FK::Bitrev
        } else if p("fshl") {
            FK::Fsh(true)
        } else if p("fshr") {
            FK::Fsh(false)
        } else if p("uadd.sat") {
            FK::Sat(true, false)
        } else if p("usub.sat") {
            FK::Sat(false, false)
        } else if p("sadd.sat") {
            FK::Sat(true, true)
        } else if p("ssub.sat") {
            FK::Sat(false, true)
        } else if p("umax") {
            FK::MinMax(true, false)
        } else if p("umin") {
            FK::MinMax(false, false)
        } else if p("smax") {
            FK::MinMax(true, true)
        } else if p("smin") {
            FK::MinMax(false, true)
        } else if p("ucmp") {
            FK::CmpI(false)
        } else if p("scmp") {
            FK::CmpI(true)
        } else if p("abs") {
            FK::Abs
        } else if p("uadd.with") {
            FK::Ovf(B::Add, false)
        } else if p("usub.with") {
            FK::Ovf(B::Sub, false)
        } else if p("umul.with") {
            FK::Ovf(B::Mul, false)
        } else if p("sadd.with") {
            FK::Ovf(B::Add, true)
        } else if p("ssub.with") {
            FK::Ovf(B::Sub, true)
        } else if p("smul.with") {
            FK::Ovf(B::Mul, true)
        } else if p("threadlocal") {
            FK::Tls
        } else if p("expect") {
            FK::Expect
        } else if p("is.constant") {
            FK::IsConst
        } else if p("vector.reduce.add") {
            FK::VecRed(0)
        } else if p("vector.reduce.or") {
            FK::VecRed(1)
        } else if p("vector.reduce.and") {
            FK::VecRed(2)
        } else if p("fabs") {
            FK::Fabs
        } else if p("copysign") {
            FK::Copysign
        } else if p("is.fpclass") {
            FK::FpClass
        } else if p("fptoui.sat") || p("fptosi.sat") {
            FK::FpSat(p("fptosi"))
        } else if p("load.relative") {
            FK::LoadRel
        } else if p("trap") || p("ubsantrap") {
            FK::Trap
        } else if p("x86.sse2.pause") {
            FK::Nop
        } else {
            FK::Unsup
        };
    }
    FK::Unsup
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub id: String,
    pub stack: Vec<String>,
    pub choices: Vec<u32>,
    pub bytes: Vec<u8>,
}

pub struct Sample {
    pub choices: Vec<u32>,
    pub bytes: Vec<u8>,
    pub digest: u64,
}

pub struct Limits {
    pub time: f64,
    pub steps: u64,
    pub depth: usize,
    pub max_viol: usize,
    pub shard: (u32, u32),
    pub samples: usize,
    pub max_paths: u64,
    pub max_mem_mb: u64,
    pub utf8: bool,
}

pub struct Exec {
    m: &'static Module,
    pub solver: Solver,
    kinds: Vec<FK>,
    globs: Vec<Rc<Obj>>,
    work: Vec<State>,
    pub lim: Limits,
    t0: Instant,
    pub viols: Vec<Violation>,
    vkeys: HashMap<String, u32>,
    pub paths: u64,
    pub pruned: u64,
    pub unsup: BTreeMap<String, u64>,
    pub unknown: u64,
    pub steps: u64,
    pub forks: u64,
    pub branches: u64,
    pub checks: BTreeMap<String, (u64, u64)>, // evaluated, symbolic
    pub reach: BTreeMap<String, u64>,
    pub funcs: HashSet<u32>,
    pub samples: Vec<Sample>,
    pub incomplete: Option<String>,
    obj_base: u32,
    ins_pc: u32,
    max_path_steps: u64,
    errno_obj: u32,
}

fn e_of(v: &V) -> E {
    match v {
        V::C(x, w) => cst(*w as u32, *x as u128),
        V::S(e) => e.clone(),
        V::A(_) => panic!("aggregate as scalar"),
    }
}
fn v_of(e: E) -> V {
    if e.w <= 64 {
        if let Some(c) = as_c(&e) {
            return V::C(c as u64, e.w as u16);
        }
    }
    V::S(e)
}
fn width(v: &V) -> u32 {
    match v {
        V::C(_, w) => *w as u32,
        V::S(e) => e.w,
        V::A(_) => panic!("width of aggregate"),
    }
}

fn bin_v(op: B, a: &V, b: &V) -> V {
    match (a, b) {
        (V::C(x, w), V::C(y, _)) => {
            let w32 = *w as u32;
            let m = if w32 >= 64 { u64::MAX } else { (1u64 << w32) - 1 };
            let r = match op {
                B::Add => x.wrapping_add(*y),
                B::Sub => x.wrapping_sub(*y),
                B::Mul => x.wrapping_mul(*y),
                B::And => x & y,
                B::Or => x | y,
                B::Xor => x ^ y,
                _ => binop_c(op, w32, *x as u128, *y as u128) as u64,
            };
            V::C(r & m, *w)
        }
        (V::A(x), V::A(y)) => V::A(Rc::new(x.iter().zip(y.iter()).map(|(a, b)| bin_v(op, a, b)).collect())),
        _ => v_of(bin(op, &e_of(a), &e_of(b))),
    }
}
fn cmp_pred(p: Pred, a: &E, b: &E) -> E {
    match p {
        Pred::Eq => cmp(P::Eq, a, b),
        Pred::Ne => not1(&cmp(P::Eq, a, b)),
        Pred::Ult => cmp(P::Ult, a, b),
        Pred::Ule => cmp(P::Ule, a, b),
        Pred::Ugt => cmp(P::Ult, b, a),
        Pred::Uge => cmp(P::Ule, b, a),
        Pred::Slt => cmp(P::Slt, a, b),
        Pred::Sle => cmp(P::Sle, a, b),
        Pred::Sgt => cmp(P::Slt, b, a),
        Pred::Sge => cmp(P::Sle, b, a),
    }
}
fn sx64(v: u64, w: u16) -> i64 {
    let s = 64 - w as u32;
    ((v << s) as i64) >> s
}
fn icmp_v(p: Pred, a: &V, b: &V) -> V {
    match (a, b) {
        (V::C(x, w), V::C(y, _)) => {
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx64(*x, *w) < sx64(*y, *w),
                Pred::Sle => sx64(*x, *w) <= sx64(*y, *w),
                Pred::Sgt => sx64(*x, *w) > sx64(*y, *w),
                Pred::Sge => sx64(*x, *w) >= sx64(*y, *w),
            };
            V::C(r as u64, 1)
        }
        (V::A(x), V::A(y)) => V::A(Rc::new(x.iter().zip(y.iter()).map(|(a, b)| icmp_v(p, a, b)).collect())),
        _ => v_of(cmp_pred(p, &e_of(a), &e_of(b))),
    }
}
fn zext_v(v: &V, w: u32) -> V {
    match v {
        V::C(x, _) if w <= 64 => V::C(*x, w as u16),
        V::A(a) => V::A(Rc::new(a.iter().map(|x| zext_v(x, w)).collect())),
        _ => v_of(zext(&e_of(v), w)),
    }
}
fn sext_v(v: &V, w: u32) -> V {
    match v {
        V::C(x, ow) if w <= 64 => V::c(w, sx64(*x, *ow) as u64 as u128),
        V::A(a) => V::A(Rc::new(a.iter().map(|x| sext_v(x, w)).collect())),
        _ => v_of(sext_e(&e_of(v), w)),
    }
}
fn trunc_v(v: &V, w: u32) -> V {
    match v {
        V::C(x, _) => V::c(w, *x as u128),
        V::A(a) => V::A(Rc::new(a.iter().map(|x| trunc_v(x, w)).collect())),
        V::S(e) => v_of(extract(e, 0, w)),
    }
}
fn ite_v(c: &E, a: &V, b: &V) -> V {
    match (a, b) {
        (V::A(x), V::A(y)) => V::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| ite_v(c, p, q)).collect())),
        _ => v_of(ite(c, &e_of(a), &e_of(b))),
    }
}
fn map1(v: &V, f: &dyn Fn(&V) -> V) -> V {
    match v {
        V::A(a) => V::A(Rc::new(a.iter().map(|x| map1(x, f)).collect())),
        _ => f(v),
    }
}
fn is_ptrish(v: u64) -> bool {
    v >> SH >= 1 && v & LOW < 0x4000_0000 && v >> 60 == 0
}

pub fn fnv(h: u64, b: u8) -> u64 {
    (h ^ b as u64).wrapping_mul(0x100000001b3)
}

impl Exec {
    pub fn new(m: &'static Module, solver: Solver, lim: Limits) -> Exec {
        let kinds = m.funcs.iter().map(|f| classify(&f.name, f.range.is_some())).collect();
        let globs = m
            .globals
            .iter()
            .map(|g| {
                let mut o = Obj::new(g.size, false);
                o.data = g.init.clone();
                Rc::new(o)
            })
            .collect::<Vec<_>>();
        let obj_base = m.globals.len() as u32 + 18;
        Exec {
            m,
            solver,
            kinds,
            globs,
            work: vec![],
            lim,
            t0: Instant::now(),
            viols: vec![],
            vkeys: HashMap::new(),
            paths: 0,
            pruned: 0,
            unsup: BTreeMap::new(),
            unknown: 0,
            steps: 0,
            forks: 0,
            branches: 0,
            checks: BTreeMap::new(),
            reach: BTreeMap::new(),
            funcs: HashSet::new(),
            samples: vec![],
            incomplete: None,
            obj_base,
            ins_pc: 0,
            max_path_steps: 0,
            errno_obj: 0,
        }
    }

    fn body(&mut self, f: u32) -> &'static Body {
        let b = self.m.body(f).expect("no body");
        self.funcs.insert(f);
        unsafe { &*Rc::as_ptr(&b) }
    }

    pub fn run(&mut self, entry: &str) {
        let Some(Sym::F(f)) = self.m.syms.get(entry).copied() else {
            self.incomplete = Some(format!("no entry {entry}"));
            return;
        };
        let body = self.body(f);
        let mut st = State {
            frames: vec![],
            objs: vec![],
            free: vec![],
            gov: HashMap::new(),
            pc: Pc::default(),
            steps: 0,
            nvars: 0,
            choices: vec![],
            obs: vec![],
            reach: Rc::new(BTreeSet::new()),
            alloc_limit: u64::MAX,
            alloc_total: 0,
            env_rand: 0,
        };
        self.errno_obj = self.alloc(&mut st, 8, false);
        st.frames.push(Rc::new(Frame { f, body, regs: vec![V::C(0, 0); body.nregs], blk: 0, pc: 0, ret: None, normal: None, allocas: vec![] }));
        self.work.push(st);
        let mut tick = 0u64;
        while let Some(mut st) = self.work.pop() {
            if self.t0.elapsed().as_secs_f64() > self.lim.time {
                self.incomplete = Some(format!("time limit, {} states pending", self.work.len() + 1));
                return;
            }
            if self.paths >= self.lim.max_paths {
                self.incomplete = Some(format!("path limit, {} states pending", self.work.len() + 1));
                return;
            }
            tick += 1;
            if tick % 256 == 0 && rss_mb() > self.lim.max_mem_mb {
                self.incomplete = Some(format!("memory limit, {} states pending", self.work.len() + 1));
                return;
            }
            let s0 = st.steps;
            let r = self.run_path(&mut st);
            self.steps += st.steps - s0;
            match r {
                End::Done => {
                    self.paths += 1;
                    self.max_path_steps = self.max_path_steps.max(st.steps);
                    for l in st.reach.iter() {
                        *self.reach.entry(l.clone()).or_insert(0) += 1;
                    }
                    self.sample(&st);
                }
                End::Pruned => self.pruned += 1,
                End::Viol => {
                    self.paths += 1;
                    if self.viols.len() >= self.lim.max_viol {
                        self.incomplete = Some("stopped after violations".into());
                        return;
                    }
                }
                End::Unsup(s) => {
                    if std::env::var("SYMX_DEBUG").is_ok() {
                        eprintln!("unsup: {s}\n  {}", self.stack(&st).join("\n  "));
                    }
                    *self.unsup.entry(s).or_insert(0) += 1;
                }
                End::Unknown => self.unknown += 1,
            }
        }
    }

    fn sample(&mut self, st: &State) {
        let n = self.paths;
        let keep = if self.samples.len() < self.lim.samples {
            true
        } else if self.lim.samples > 0 {
            // deterministic reservoir
            let h = n.wrapping_mul(0x9E3779B97F4A7C15) >> 20;
            h % n < self.lim.samples as u64
        } else {
            false
        };
        if !keep {
            return;
        }
        let mut h = 0xcbf29ce484222325u64;
        let g = new_gen();
        for v in &st.obs {
            let b = match v {
                V::C(x, _) => *x as u8,
                V::S(e) => eval(e, &|v| st.pc.mget(v), g) as u8,
                _ => 0,
            };
            h = fnv(h, b);
        }
        let s = Sample { choices: st.choices.clone(), bytes: self.tape(st, &st.pc.model), digest: h };
        if self.samples.len() < self.lim.samples {
            self.samples.push(s);
        } else {
            let i = (n.wrapping_mul(0xD1342543DE82EF95) >> 17) as usize % self.samples.len();
            self.samples[i] = s;
        }
    }
    fn tape(&self, st: &State, m: &Model) -> Vec<u8> {
        (0..st.nvars).map(|i| m.get(i as usize).copied().unwrap_or(0)).collect()
    }

    fn stack(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(40).map(|f| demangle(&self.m.funcs[f.f as usize].name)).collect()
    }

    fn violation(&mut self, st: &State, kind: &str, id: &str, m: &Model) {
        let stack = self.stack(st);
        let key = format!("{kind}|{id}|{}", stack.iter().take(3).cloned().collect::<Vec<_>>().join("|"));
        let n = self.vkeys.entry(key).or_insert(0);
        *n += 1;
        if *n > 2 {
            return;
        }
        let bytes = self.tape(st, m);
        self.viols.push(Violation { kind: kind.into(), id: id.into(), stack, choices: st.choices.clone(), bytes });
    }

    fn run_path(&mut self, st: &mut State) -> End {
        let mut n = 0u32;
        loop {
            n += 1;
            if n & 0xffff == 0 && self.t0.elapsed().as_secs_f64() > self.lim.time {
                self.incomplete = Some("time limit inside a path".into());
                // put it back so the main loop notices
                self.work.push(st.clone());
                return End::Pruned;
            }
            st.steps += 1;
            if st.steps > self.lim.steps {
                let m = st.pc.model.clone();
                self.violation(st, "hang", "step-limit", &m);
                return End::Viol;
            }
            if let Err(e) = self.step(st) {
                return e;
            }
        }
    }

    // ---------- memory ----------
    fn alloc(&mut self, st: &mut State, size: u64, heap: bool) -> u32 {
        if let Some(i) = st.free.pop() {
            st.objs[i as usize] = Some(Rc::new(Obj::new(size, heap)));
            return i;
        }
        st.objs.push(Some(Rc::new(Obj::new(size, heap))));
        (st.objs.len() - 1) as u32
    }
    fn addr_of(&self, i: u32) -> u64 {
        (((i + self.obj_base) as u64) << SH) + OBJ_OFF
    }
    fn obj<'a>(&'a self, st: &'a State, a: u64) -> Option<(&'a Rc<Obj>, u64)> {
        let id = (a >> SH) as u32;
        let off = (a & LOW).wrapping_sub(OBJ_OFF);
        if id >= self.obj_base {
            match st.objs.get((id - self.obj_base) as usize) {
                Some(Some(o)) => Some((o, off)),
                _ => None,
            }
        } else if id >= 2 && (id - 2) < self.globs.len() as u32 {
            let g = id - 2;
            if let Some(o) = st.gov.get(&g) {
                return Some((o, off));
            }
            Some((&self.globs[g as usize], off))
        } else {
            None
        }
    }
    fn obj_chk<'a>(&'a self, st: &'a State, a: u64, n: u64) -> Option<(&'a Rc<Obj>, u64)> {
        let (o, off) = self.obj(st, a)?;
        if off.checked_add(n)? > o.size {
            return None;
        }
        Some((o, off))
    }
    fn obj_mut<'a>(&'a self, st: &'a mut State, a: u64, n: u64) -> Option<(&'a mut Obj, u64)> {
        let id = (a >> SH) as u32;
        let off = (a & LOW).wrapping_sub(OBJ_OFF);
        let o: &'a mut Obj = if id >= self.obj_base {
            match st.objs.get_mut((id - self.obj_base) as usize) {
                Some(Some(o)) => Rc::make_mut(o),
                _ => return None,
            }
        } else if id >= 2 && (id - 2) < self.globs.len() as u32 {
            let g = id - 2;
            if self.m.globals[g as usize].constant {
                return None;
            }
            let base = &self.globs[g as usize];
            Rc::make_mut(st.gov.entry(g).or_insert_with(|| base.clone()))
        } else {
            return None;
        };
        if off.checked_add(n)? > o.size {
            return None;
        }
        Some((o, off))
    }
    fn fault<T>(&mut self, st: &State, what: &str) -> R<T> {
        let m = st.pc.model.clone();
        self.violation(st, "memfault", what, &m);
        Err(End::Viol)
    }

    fn load_scalar(&mut self, st: &State, a: u64, bits: u32) -> R<V> {
        let n = bits.div_ceil(8) as u64;
        let r = match self.obj_chk(st, a, n) {
            None => None,
            Some((o, off)) => {
                let mut anysym = false;
                if !o.sym.is_empty() {
                    anysym = o.sym.range(off..off + n).next().is_some();
                }
                if !anysym && bits <= 64 {
                    let mut x = 0u64;
                    let d = &o.data;
                    if off + n <= d.len() as u64 {
                        for i in (0..n).rev() {
                            x = (x << 8) | d[(off + i) as usize] as u64;
                        }
                    } else {
                        for i in (0..n).rev() {
                            x = (x << 8) | d.get((off + i) as usize).copied().unwrap_or(0) as u64;
                        }
                    }
                    Some(V::c(bits, x as u128))
                } else {
                    let mut e = e_of(&o.byte(off));
                    for i in 1..n {
                        e = concat(&e_of(&o.byte(off + i)), &e);
                    }
                    Some(v_of(extract(&e, 0, bits)))
                }
            }
        };
        match r {
            Some(v) => Ok(v),
            None => self.fault(st, &format!("load {n} at {a:#x}")),
        }
    }
    fn load_ty(&mut self, st: &State, a: u64, t: Ty) -> R<V> {
        match self.m.tyk(t) {
            TyK::Arr(n, e) => {
                let s = self.m.size(e);
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.load_ty(st, a + i * s, e)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            TyK::Vec(n, e) => {
                let eb = self.m.bits(e);
                if eb % 8 != 0 {
                    let all = self.load_scalar(st, a, n * eb)?;
                    let all = e_of(&all);
                    return Ok(V::A(Rc::new((0..n).map(|i| v_of(extract(&all, i * eb, eb))).collect())));
                }
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.load_scalar(st, a + (i * eb / 8) as u64, eb)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            TyK::Struct(f, _) => {
                let (o, _) = self.m.layout(t, &f);
                let mut v = vec![];
                for (i, ft) in f.iter().enumerate() {
                    v.push(self.load_ty(st, a + o[i], *ft)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => {
                let b = self.m.bits(t);
                self.load_scalar(st, a, b)
            }
        }
    }
    fn store_scalar(&mut self, st: &mut State, a: u64, v: &V) -> R<()> {
        let bits = width(v);
        let n = bits.div_ceil(8) as u64;
        let ok = match self.obj_mut(st, a, n) {
            None => false,
            Some((o, off)) => {
                match v {
                    V::C(x, _) => {
                        o.ensure(off + n);
                        o.data[off as usize..(off + n) as usize].copy_from_slice(&x.to_le_bytes()[..n as usize]);
                        if !o.sym.is_empty() {
                            for i in 0..n {
                                o.sym.remove(&(off + i));
                            }
                        }
                    }
                    V::S(e) => {
                        let e = if bits % 8 != 0 { zext(e, n as u32 * 8) } else { e.clone() };
                        for i in 0..n {
                            o.set_byte(off + i, &v_of(extract(&e, i as u32 * 8, 8)));
                        }
                    }
                    V::A(_) => unreachable!(),
                }
                true
            }
        };
        if ok {
            Ok(())
        } else {
            self.fault(st, &format!("store {n} at {a:#x}"))
        }
    }
    fn store_ty(&mut self, st: &mut State, a: u64, t: Ty, v: &V) -> R<()> {
        match v {
            V::A(x) => match self.m.tyk(t) {
                TyK::Arr(_, e) => {
                    let s = self.m.size(e);
                    for (i, y) in x.iter().enumerate() {
                        self.store_ty(st, a + i as u64 * s, e, y)?;
                    }
                    Ok(())
                }
                TyK::Vec(n, e) => {
                    let eb = self.m.bits(e);
                    if eb % 8 != 0 {
                        let mut acc = e_of(&x[0]);
                        for i in 1..n as usize {
                            acc = concat(&e_of(&x[i]), &acc);
                        }
                        return self.store_scalar(st, a, &v_of(acc));
                    }
                    for (i, y) in x.iter().enumerate() {
                        self.store_scalar(st, a + (i as u32 * eb / 8) as u64, y)?;
                    }
                    Ok(())
                }
                TyK::Struct(f, _) => {
                    let (o, _) = self.m.layout(t, &f);
                    for (i, y) in x.iter().enumerate() {
                        self.store_ty(st, a + o[i], f[i], y)?;
                    }
                    Ok(())
                }
                k => Err(End::Unsup(format!("store agg as {k:?}"))),
            },
            _ => self.store_scalar(st, a, v),
        }
    }

    // ---------- forking ----------
    fn may(&mut self, pc: &Pc, c: &E) -> R<Option<Model>> {
        self.solver.may(pc, c).map_err(|_| End::Unknown)
    }
    /// Concretise a value: fork over its feasible values. The alternative state re-executes
    /// the current instruction, so this must run before any side effect of it.
    fn conc(&mut self, st: &mut State, v: &V) -> R<u64> {
        match v {
            V::C(x, _) => Ok(*x),
            V::S(e) => {
                if let Some(c) = as_c(e) {
                    return Ok(c as u64);
                }
                let x = st.pc.eval(e);
                if self.solver.dom_product(&st.pc, e, 1) == 1 {
                    return Ok(x as u64);
                }
                let eq = cmp(P::Eq, e, &cst(e.w, x));
                let ne = not1(&eq);
                if let Some(m) = self.may(&st.pc, &ne)? {
                    let mut o = st.clone();
                    o.steps -= 1;
                    Rc::make_mut(o.frames.last_mut().unwrap()).pc = self.ins_pc;
                    self.solver.add(&mut o.pc, &ne, m);
                    self.work.push(o);
                    self.forks += 1;
                }
                let m = st.pc.model.clone();
                self.solver.add(&mut st.pc, &eq, m);
                Ok(x as u64)
            }
            V::A(_) => panic!("conc agg"),
        }
    }
    fn fp_width(&self, t: Ty) -> R<u32> {
        match &self.m.types.borrow()[t as usize] {
            TyK::Float => Ok(32),
            TyK::Double => Ok(64),
            k => Err(End::Unsup(format!("floating point type {k:?}"))),
        }
    }
    /// Floating point arithmetic is evaluated, not encoded: a symbolic operand is explored only
    /// at the model's value and a few chosen ones, and the run is marked as not exhaustive.
    fn fp_pick(&mut self, st: &mut State, v: &V, float: bool) -> R<u64> {
        let e = match v {
            V::C(x, _) => return Ok(*x),
            _ => e_of(v),
        };
        if let Some(c) = as_c(&e) {
            return Ok(c as u64);
        }
        let x = st.pc.eval(&e);
        let ne = not1(&cmp(P::Eq, &e, &cst(e.w, x)));
        if self.may(&st.pc, &ne)?.is_none() {
            return Ok(x as u64);
        }
        *self.unsup.entry("floating point arithmetic (evaluated at chosen values only)".into()).or_insert(0) += 1;
        let cand: &[u128] = match (float, e.w) {
            (true, 32) => &[0x7f800001, 0xffc00001, 1, 0x7f7fffff, 0x80000000, 0x3f800001, 0x7f800000, 0xcf000001],
            (true, 64) => &[0x7ff0000000000001, 0xfff8000000000001, 1, 0x7fefffffffffffff, 1 << 63, 0x3ff0000000000001, 0x7ff0000000000000, 0xc3e0000000000001],
            (_, w) => &[1, 0x01000001, 0x20000000000001, (1 << 31) - 1, (1 << 32) - 1, (1 << 63) - 1].map(|v: u128| v & mask(w)),
        };
        for c in cand.iter().filter(|c| **c != x) {
            let eq = cmp(P::Eq, &e, &cst(e.w, *c));
            if let Some(m) = self.may(&st.pc, &eq)? {
                let mut o = st.clone();
                o.steps -= 1;
                Rc::make_mut(o.frames.last_mut().unwrap()).pc = self.ins_pc;
                self.solver.add(&mut o.pc, &eq, m);
                self.work.push(o);
                self.forks += 1;
            }
        }
        let m = st.pc.model.clone();
        self.solver.add(&mut st.pc, &cmp(P::Eq, &e, &cst(e.w, x)), m);
        Ok(x as u64)
    }
    /// Decide a boolean, forking when both outcomes are feasible (other side re-executes).
    fn branch(&mut self, st: &mut State, c: &E) -> R<bool> {
        if let Some(x) = as_c(c) {
            return Ok(x == 1);
        }
        self.branches += 1;
        let cur = st.pc.eval(c) == 1;
        let (mine, other) = if cur { (c.clone(), not1(c)) } else { (not1(c), c.clone()) };
        match self.may(&st.pc, &other)? {
            None => {
                // implied; nothing to add
            }
            Some(m) => {
                let mut o = st.clone();
                o.steps -= 1;
                Rc::make_mut(o.frames.last_mut().unwrap()).pc = self.ins_pc;
                self.solver.add(&mut o.pc, &other, m);
                self.work.push(o);
                self.forks += 1;
                let m = st.pc.model.clone();
                self.solver.add(&mut st.pc, &mine, m);
            }
        }
        Ok(cur)
    }

    fn sym_load(&mut self, st: &mut State, ae: &E, t: Ty) -> R<V> {
        // try: all feasible addresses in one object, small span
        let x = st.pc.eval(ae) as u64;
        let scalar = self.scalar_bits(t);
        if let Some(bits) = scalar {
            let n = bits.div_ceil(8) as u64;
            if let Some((o, off)) = self.obj_chk(st, x, n) {
                let base = x - off;
                let size = o.size;
                // candidate addresses
                let mut cands: Vec<u64> = vec![];
                let mut exact = false;
                if ae.vars.len() == 1 {
                    let mut s = BTreeSet::new();
                    for b in self.solver.dom_values(&st.pc, ae.vars[0]) {
                        s.insert(eval(ae, &|_| b, new_gen()) as u64);
                    }
                    if s.iter().all(|a| *a >= base && *a + n <= base + size) {
                        cands = s.into_iter().collect();
                        exact = true;
                    }
                }
                if !exact {
                    // bound by the object; check stride-1 feasibility through the interval
                    let lo = (ae.lo as u64).max(base);
                    let hi = (ae.hi.min(u64::MAX as u128) as u64).min(base + size - n);
                    if ae.hi < (1u128 << 64) && hi >= lo && hi - lo <= 2048 {
                        // out of object feasible?
                        let inb = and1(&cmp(P::Ule, &cst(64, base as u128), ae), &cmp(P::Ule, ae, &cst(64, (base + size - n) as u128)));
                        if self.may(&st.pc, &not1(&inb))?.is_none() {
                            cands = (lo..=hi).collect();
                            exact = true;
                        }
                    }
                }
                if exact {
                    // build ite grouped by value
                    let mut res: Option<E> = None;
                    let mut groups: Vec<(E, Vec<u64>)> = vec![];
                    for a in &cands {
                        let v = e_of(&self.load_scalar(st, *a, bits)?);
                        if let Some(g) = groups.iter_mut().find(|g| g.0.id == v.id) {
                            g.1.push(*a);
                        } else {
                            groups.push((v, vec![*a]));
                        }
                    }
                    groups.sort_by_key(|g| g.1.len());
                    while let Some((v, addrs)) = groups.pop() {
                        res = Some(match res {
                            None => v,
                            Some(r) => {
                                // ranges
                                let mut c = ff();
                                let mut i = 0;
                                while i < addrs.len() {
                                    let mut j = i;
                                    while j + 1 < addrs.len() && addrs[j + 1] == addrs[j] + 1 {
                                        j += 1;
                                    }
                                    let one = if i == j {
                                        cmp(P::Eq, ae, &cst(64, addrs[i] as u128))
                                    } else {
                                        and1(&cmp(P::Ule, &cst(64, addrs[i] as u128), ae), &cmp(P::Ule, ae, &cst(64, addrs[j] as u128)))
                                    };
                                    c = or1(&c, &one);
                                    i = j + 1;
                                }
                                ite(&c, &v, &r)
                            }
                        });
                    }
                    return Ok(v_of(res.unwrap()));
                }
            }
        }
        let a = self.conc(st, &V::S(ae.clone()))?;
        self.load_any(st, a, t)
    }
    fn scalar_bits(&self, t: Ty) -> Option<u32> {
        match &self.m.types.borrow()[t as usize] {
            TyK::Int(n) => Some(*n),
            TyK::Ptr | TyK::Double => Some(64),
            TyK::Float => Some(32),
            _ => None,
        }
    }
    fn load_any(&mut self, st: &State, a: u64, t: Ty) -> R<V> {
        match self.scalar_bits(t) {
            Some(b) => self.load_scalar(st, a, b),
            None => self.load_ty(st, a, t),
        }
    }

    fn get(&self, fr: &Frame, o: &Op) -> V {
        match o {
            Op::R(r) => fr.regs[*r as usize].clone(),
            Op::K(v) => v.clone(),
        }
    }
    fn set(&self, st: &mut State, d: u32, v: V) {
        Rc::make_mut(st.frames.last_mut().unwrap()).regs[d as usize] = v;
    }
    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let from = fr.blk;
        let b = &fr.body.blocks[to as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let (d, inc) = &b.phis[0];
                let o = &inc.iter().find(|x| x.0 == from).expect("phi edge").1;
                let v = match o {
                    Op::R(r) => fr.regs[*r as usize].clone(),
                    Op::K(v) => v.clone(),
                };
                fr.regs[*d as usize] = v;
            } else {
                let mut vals = Vec::with_capacity(b.phis.len());
                for (d, inc) in &b.phis {
                    let o = &inc.iter().find(|x| x.0 == from).expect("phi edge").1;
                    let v = match o {
                        Op::R(r) => fr.regs[*r as usize].clone(),
                        Op::K(v) => v.clone(),
                    };
                    vals.push((*d, v));
                }
                for (d, v) in vals {
                    fr.regs[d as usize] = v;
                }
            }
        }
        fr.blk = to;
        fr.pc = 0;
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let body = fr.body;
        let blk = &body.blocks[fr.blk as usize];
        self.ins_pc = fr.pc;
        if fr.pc as usize >= blk.ins.len() {
            panic!("fell off block {} of {} ({} ins)", fr.blk, self.m.funcs[fr.f as usize].name, blk.ins.len());
        }
        let ins = &blk.ins[fr.pc as usize];
        fr.pc += 1;
        match ins {
            Ins::Bin(d, op, _, a, b) => {
                let (x, y) = (self.get(fr, a), self.get(fr, b));
                if matches!(op, B::UDiv | B::SDiv | B::URem | B::SRem) {
                    // division by zero is UB in LLVM; rustc guards it
                    if let V::C(0, _) = y {
                        return self.fault(st, "division by zero");
                    }
                }
                fr.regs[*d as usize] = bin_v(*op, &x, &y);
                Ok(())
            }
            Ins::FCmp(d, k, t, a, b) => {
                let (x, y) = (self.get(fr, a), self.get(fr, b));
                let w = self.fp_width(*t)?;
                if matches!(x, V::A(_)) || matches!(y, V::A(_)) {
                    return Err(End::Unsup("vector fcmp".into()));
                }
                let r = v_of(fcmp_e(*k, w, &e_of(&x), &e_of(&y)));
                self.set(st, *d, r);
                Ok(())
            }
            Ins::FNeg(d, t, a) => {
                let x = self.get(fr, a);
                let w = self.fp_width(*t)?;
                if matches!(x, V::A(_)) {
                    return Err(End::Unsup("vector fneg".into()));
                }
                let r = v_of(bin(B::Xor, &e_of(&x), &cst(w, 1 << (w - 1))));
                self.set(st, *d, r);
                Ok(())
            }
            Ins::FOp(d, k, t, a, b) => {
                let (x, y) = (self.get(fr, a), self.get(fr, b));
                let w = self.fp_width(*t)?;
                let x = self.fp_pick(st, &x, true)?;
                let y = self.fp_pick(st, &y, true)?;
                let r = if w == 32 { fop32(*k, f32::from_bits(x as u32), f32::from_bits(y as u32)).to_bits() as u64 } else { fop64(*k, f64::from_bits(x), f64::from_bits(y)).to_bits() };
                self.set(st, *d, V::C(r, w as u16));
                Ok(())
            }
            Ins::ICmp(d, p, _, a, b) => {
                let (x, y) = (self.get(fr, a), self.get(fr, b));
                fr.regs[*d as usize] = icmp_v(*p, &x, &y);
                Ok(())
            }
            Ins::Cast(d, k, ft, tt, a) => {
                let x = self.get(fr, a);
                let r = match k {
                    Cast::ZExt | Cast::SExt | Cast::Trunc => {
                        let w = match &self.m.types.borrow()[*tt as usize] {
                            TyK::Int(n) => *n,
                            TyK::Ptr => 64,
                            TyK::Vec(_, e) => {
                                let e = *e;
                                match &self.m.types.borrow()[e as usize] {
                                    TyK::Int(n) => *n,
                                    _ => 64,
                                }
                            }
                            _ => 64,
                        };
                        match k {
                            Cast::ZExt => zext_v(&x, w),
                            Cast::SExt => sext_v(&x, w),
                            _ => trunc_v(&x, w),
                        }
                    }
                    Cast::PtrToInt | Cast::IntToPtr => {
                        let w = self.m.bits(*tt);
                        let ow = width(&x);
                        if w < ow {
                            trunc_v(&x, w)
                        } else {
                            zext_v(&x, w)
                        }
                    }
                    Cast::BitCast => self.bitcast(&x, *ft, *tt),
                    Cast::Fp(c) => {
                        let (fw, tw) = (self.m.bits(*ft), self.m.bits(*tt));
                        if *c < 2 {
                            self.fp_width(*ft)?;
                        } else {
                            self.fp_width(*tt)?;
                        }
                        if fw > 64 || tw > 64 || matches!(x, V::A(_)) {
                            return Err(End::Unsup("floating point cast".into()));
                        }
                        let v = self.fp_pick(st, &x, *c < 2 || *c == 4)?;
                        let f = |v: u64| if fw == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v) };
                        let sx = |v: u64| ((v << (64 - fw)) as i64) >> (64 - fw);
                        let r = match c {
                            0 => f(v) as u64,
                            1 => f(v) as i64 as u64,
                            2 if tw == 32 => (v as f32).to_bits() as u64,
                            2 => (v as f64).to_bits(),
                            3 if tw == 32 => (sx(v) as f32).to_bits() as u64,
                            3 => (sx(v) as f64).to_bits(),
                            _ if tw == 32 => (f64::from_bits(v) as f32).to_bits() as u64,
                            _ => (f32::from_bits(v as u32) as f64).to_bits(),
                        };
                        V::C(r & mask(tw) as u64, tw as u16)
                    }
                };
                self.set(st, *d, r);
                Ok(())
            }
            Ins::Gep(d, base, off, dynv) => {
                let b = self.get(fr, base);
                let mut r = match &b {
                    V::C(x, w) => V::C(x.wrapping_add(*off as u64), *w),
                    V::S(_) => bin_v(B::Add, &b, &V::C(*off as u64, 64)),
                    V::A(_) => return Err(End::Unsup("vector gep".into())),
                };
                for (o, s) in dynv {
                    let i = self.get(fr, o);
                    let i64v = if width(&i) == 64 { i } else { sext_v(&i, 64) };
                    let m = bin_v(B::Mul, &i64v, &V::C(*s, 64));
                    r = bin_v(B::Add, &r, &m);
                }
                if let V::S(e) = &r {
                    // a position computed from a length word: follow each of its few values separately
                    if e.vars.len() > 1 && self.solver.dom_product(&st.pc, e, 64) <= 64 {
                        r = V::C(self.conc(st, &r)?, 64);
                    }
                }
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                fr.regs[*d as usize] = r;
                Ok(())
            }
            Ins::Load(d, t, p) => {
                let a = self.get(fr, p);
                let v = match a {
                    V::C(a, _) => self.load_any(st, a, *t)?,
                    V::S(e) => self.sym_load(st, &e, *t)?,
                    _ => return Err(End::Unsup("vector load".into())),
                };
                self.set(st, *d, v);
                Ok(())
            }
            Ins::Store(t, v, p) => {
                let a = self.get(fr, p);
                let x = self.get(fr, v);
                let a = self.conc(st, &a)?;
                self.store_ty(st, a, *t, &x)
            }
            Ins::Alloca(d, sz, n) => {
                let n = self.get(fr, n);
                let n = self.conc(st, &n)?;
                let id = self.alloc(st, sz * n, false);
                let a = self.addr_of(id);
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                fr.allocas.push(id);
                fr.regs[*d as usize] = V::ptr(a);
                Ok(())
            }
            Ins::Br(l) => {
                self.jump(st, *l);
                Ok(())
            }
            Ins::CondBr(c, a, b) => {
                let v = self.get(fr, c);
                let t = match v {
                    V::C(x, _) => x & 1 == 1,
                    V::S(e) => self.branch(st, &e)?,
                    _ => return Err(End::Unsup("vector br".into())),
                };
                self.jump(st, if t { *a } else { *b });
                Ok(())
            }
            Ins::Switch(v, dflt, cases) => {
                let x = self.get(fr, v);
                match &x {
                    V::C(x, _) => {
                        let l = cases.iter().find(|c| c.0 == *x).map(|c| c.1).unwrap_or(*dflt);
                        self.jump(st, l);
                        Ok(())
                    }
                    V::S(e) => {
                        self.branches += 1;
                        let mut targets: Vec<(u32, E)> = vec![];
                        let mut none = tt();
                        for (k, l) in cases {
                            let c = cmp(P::Eq, e, &cst(e.w, *k as u128));
                            none = and1(&none, &not1(&c));
                            if let Some(t) = targets.iter_mut().find(|t| t.0 == *l) {
                                t.1 = or1(&t.1, &c);
                            } else {
                                targets.push((*l, c));
                            }
                        }
                        if let Some(t) = targets.iter_mut().find(|t| t.0 == *dflt) {
                            t.1 = or1(&t.1, &none);
                        } else {
                            targets.push((*dflt, none));
                        }
                        let mut feas = vec![];
                        for (l, c) in targets {
                            if let Some(m) = self.may(&st.pc, &c)? {
                                feas.push((l, c, m));
                            }
                        }
                        if feas.is_empty() {
                            return Err(End::Pruned);
                        }
                        if feas.len() == 1 {
                            self.jump(st, feas[0].0);
                            return Ok(());
                        }
                        let (l0, c0, m0) = feas.pop().unwrap();
                        for (l, c, m) in feas {
                            let mut o = st.clone();
                            self.solver.add(&mut o.pc, &c, m);
                            self.jump(&mut o, l);
                            self.work.push(o);
                            self.forks += 1;
                        }
                        self.solver.add(&mut st.pc, &c0, m0);
                        self.jump(st, l0);
                        Ok(())
                    }
                    _ => Err(End::Unsup("vector switch".into())),
                }
            }
            Ins::Ret(v) => {
                let r = v.as_ref().map(|o| self.get(fr, o));
                let f = st.frames.pop().unwrap();
                for a in &f.allocas {
                    st.objs[*a as usize] = None;
                    st.free.push(*a);
                }
                let Some(top) = st.frames.last_mut() else { return Err(End::Done) };
                if let (Some(d), Some(v)) = (f.ret, r) {
                    Rc::make_mut(top).regs[d as usize] = v;
                }
                if let Some(l) = f.normal {
                    self.jump(st, l);
                }
                Ok(())
            }
            Ins::Unreachable => self.fault(st, "unreachable"),
            Ins::Select(d, c, a, b) => {
                let cv = self.get(fr, c);
                let (x, y) = (self.get(fr, a), self.get(fr, b));
                let r = match &cv {
                    V::C(t, _) => {
                        if t & 1 == 1 {
                            x
                        } else {
                            y
                        }
                    }
                    V::S(e) => {
                        let fork = match (&x, &y) {
                            (V::C(p, 64), V::C(q, 64)) => p >> SH != q >> SH && (is_ptrish(*p) || is_ptrish(*q)),
                            (V::C(p, 64), V::S(s)) | (V::S(s), V::C(p, 64)) => is_ptrish(*p) && s.lo >> SH != (*p >> SH) as u128 && s.lo > 0 && is_ptrish(s.lo as u64),
                            _ => false,
                        };
                        if fork {
                            if self.branch(st, e)? {
                                x
                            } else {
                                y
                            }
                        } else {
                            ite_v(e, &x, &y)
                        }
                    }
                    V::A(cs) => {
                        let (V::A(xs), V::A(ys)) = (&x, &y) else { return Err(End::Unsup("vector select".into())) };
                        V::A(Rc::new(cs.iter().zip(xs.iter().zip(ys.iter())).map(|(c, (x, y))| ite_v(&e_of(c), x, y)).collect()))
                    }
                };
                self.set(st, *d, r);
                Ok(())
            }
            Ins::ExtractV(d, a, ix) => {
                let mut v = self.get(fr, a);
                for i in ix {
                    let V::A(x) = &v else { return Err(End::Unsup("extractvalue".into())) };
                    let n = x[*i as usize].clone();
                    v = n;
                }
                fr.regs[*d as usize] = v;
                Ok(())
            }
            Ins::InsertV(d, a, v, ix) => {
                let x = self.get(fr, a);
                let v = self.get(fr, v);
                fn ins(x: &V, v: V, ix: &[u32]) -> V {
                    if ix.is_empty() {
                        return v;
                    }
                    let V::A(a) = x else { panic!("insertvalue") };
                    let mut a = (**a).clone();
                    a[ix[0] as usize] = ins(&a[ix[0] as usize], v, &ix[1..]);
                    V::A(Rc::new(a))
                }
                fr.regs[*d as usize] = ins(&x, v, ix);
                Ok(())
            }
            Ins::ExtractE(d, a, i) => {
                let x = self.get(fr, a);
                let i = self.get(fr, i);
                let i = self.conc(st, &i)?;
                let V::A(x) = &x else { return Err(End::Unsup("extractelement".into())) };
                let r = x[i as usize].clone();
                self.set(st, *d, r);
                Ok(())
            }
            Ins::InsertE(d, a, v, i) => {
                let x = self.get(fr, a);
                let v = self.get(fr, v);
                let i = self.get(fr, i);
                let i = self.conc(st, &i)?;
                let V::A(x) = &x else { return Err(End::Unsup("insertelement".into())) };
                let mut x = (**x).clone();
                x[i as usize] = v;
                self.set(st, *d, V::A(Rc::new(x)));
                Ok(())
            }
            Ins::Shuffle(d, a, b, mk) => {
                let (x, y, mk) = (self.get(fr, a), self.get(fr, b), self.get(fr, mk));
                let (V::A(x), V::A(y), V::A(mk)) = (&x, &y, &mk) else { return Err(End::Unsup("shuffle".into())) };
                let r = mk
                    .iter()
                    .map(|i| {
                        let V::C(i, _) = i else { panic!("shuffle mask") };
                        let i = *i as usize;
                        if i < x.len() {
                            x[i].clone()
                        } else {
                            y[i - x.len()].clone()
                        }
                    })
                    .collect();
                fr.regs[*d as usize] = V::A(Rc::new(r));
                Ok(())
            }
            Ins::Rmw(d, o, t, p, v) => {
                let a = self.get(fr, p);
                let v = self.get(fr, v);
                let a = self.conc(st, &a)?;
                let old = self.load_any(st, a, *t)?;
                let new = match o.as_str() {
                    "xchg" => v,
                    "add" => bin_v(B::Add, &old, &v),
                    "sub" => bin_v(B::Sub, &old, &v),
                    "and" => bin_v(B::And, &old, &v),
                    "or" => bin_v(B::Or, &old, &v),
                    "xor" => bin_v(B::Xor, &old, &v),
                    x => return Err(End::Unsup(format!("atomicrmw {x}"))),
                };
                self.store_ty(st, a, *t, &new)?;
                self.set(st, *d, old);
                Ok(())
            }
            Ins::CmpXchg(d, t, p, c, n) => {
                let a = self.get(fr, p);
                let (c, n) = (self.get(fr, c), self.get(fr, n));
                let a = self.conc(st, &a)?;
                let old = self.load_any(st, a, *t)?;
                let eq = icmp_v(Pred::Eq, &old, &c);
                let t1 = match &eq {
                    V::C(x, _) => *x == 1,
                    V::S(e) => self.branch(st, e)?,
                    _ => false,
                };
                if t1 {
                    self.store_ty(st, a, *t, &n)?;
                }
                self.set(st, *d, V::A(Rc::new(vec![old, V::C(t1 as u64, 1)])));
                Ok(())
            }
            Ins::Freeze(d, a) => {
                let v = self.get(fr, a);
                fr.regs[*d as usize] = v;
                Ok(())
            }
            Ins::Nop => Ok(()),
            Ins::LandingPad(_) | Ins::Resume => self.fault(st, "unwinding"),
            Ins::Call(d, rt, callee, args, normal) => {
                let f = match callee {
                    Callee::F(f) => *f,
                    Callee::Asm => {
                        if let Some(d) = d {
                            let z = self.m.zero(*rt);
                            self.set(st, *d, z);
                        }
                        if let Some(l) = normal {
                            self.jump(st, *l);
                        }
                        return Ok(());
                    }
                    Callee::Ind(o) => {
                        let v = self.get(fr, o);
                        let a = self.conc(st, &v)?;
                        if a >> SH != 1 || a % 16 != 0 || ((a - FN_BASE) / 16) as usize >= self.kinds.len() {
                            return self.fault(st, &format!("indirect call to {a:#x}"));
                        }
                        ((a - FN_BASE) / 16) as u32
                    }
                };
                let kind = self.kinds[f as usize];
                let fr = st.frames.last().unwrap();
                let mut av: Vec<V> = Vec::with_capacity(args.len());
                for (_, o) in args {
                    av.push(self.get(fr, o));
                }
                let mut kind = kind;
                if kind == FK::Utf8 {
                    // summarised only for symbolic contents; the real body runs otherwise
                    let (p, n) = (self.conc(st, &av[1])?, self.conc(st, &av[2])?);
                    if !self.lim.utf8 || n > 48 || self.read_bytes(st, p, n)?.iter().all(|v| matches!(v, V::C(..))) {
                        kind = FK::Def;
                    }
                }
                if kind == FK::Def {
                    if st.frames.len() >= self.lim.depth {
                        let m = st.pc.model.clone();
                        self.violation(st, "stack-overflow", "depth-limit", &m);
                        return Err(End::Viol);
                    }
                    let body = self.body(f);
                    let mut regs = vec![V::C(0, 0); body.nregs];
                    for (i, p) in body.params.iter().enumerate() {
                        regs[*p as usize] = av[i].clone();
                    }
                    st.frames.push(Rc::new(Frame { f, body, regs, blk: 0, pc: 0, ret: *d, normal: *normal, allocas: vec![] }));
                    return Ok(());
                }
                let r = self.intrinsic(st, f, kind, *rt, &av)?;
                if let (Some(d), Some(r)) = (d, r) {
                    self.set(st, *d, r);
                }
                if let Some(l) = normal {
                    self.jump(st, *l);
                }
                Ok(())
            }
        }
    }

    fn bitcast(&self, x: &V, ft: Ty, tt: Ty) -> V {
        if ft == tt {
            return x.clone();
        }
        // flatten
        let flat = match x {
            V::A(a) => {
                let mut e = e_of(&a[0]);
                for y in a.iter().skip(1) {
                    e = concat(&e_of(y), &e);
                }
                e
            }
            _ => {
                if !matches!(self.m.tyk(tt), TyK::Vec(..)) {
                    return x.clone();
                }
                e_of(x)
            }
        };
        match self.m.tyk(tt) {
            TyK::Vec(n, e) => {
                let b = self.m.bits(e);
                V::A(Rc::new((0..n).map(|i| v_of(extract(&flat, i * b, b))).collect()))
            }
            _ => v_of(flat),
        }
    }

    fn read_bytes(&mut self, st: &State, a: u64, n: u64) -> R<Vec<V>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let r = self.obj_chk(st, a, n).map(|(o, off)| (0..n).map(|i| o.byte(off + i)).collect::<Vec<_>>());
        match r {
            Some(v) => Ok(v),
            None => self.fault(st, &format!("read {n} at {a:#x}")),
        }
    }
    fn cstr(&mut self, st: &State, a: u64, n: u64) -> R<String> {
        let b = self.read_bytes(st, a, n)?;
        Ok(b.iter()
            .map(|v| match v {
                V::C(x, _) => *x as u8 as char,
                _ => '?',
            })
            .collect())
    }
    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let got = match self.obj_chk(st, src, n) {
            None => None,
            Some((o, off)) => {
                let e = (off + n).min(o.data.len() as u64);
                let data: Vec<u8> = if off < e { o.data[off as usize..e as usize].to_vec() } else { vec![] };
                let sym: Vec<(u64, E)> = if o.sym.is_empty() { vec![] } else { o.sym.range(off..off + n).map(|(k, v)| (*k - off, v.clone())).collect() };
                Some((data, sym))
            }
        };
        let Some((data, sym)) = got else { return self.fault(st, &format!("memcpy source {n} at {src:#x}")) };
        let ok = match self.obj_mut(st, dst, n) {
            None => false,
            Some((o, off)) => {
                let dl = data.len() as u64;
                o.ensure(off + dl);
                o.data[off as usize..(off + dl) as usize].copy_from_slice(&data);
                let z = (off + n).min(o.data.len() as u64);
                if off + dl < z {
                    o.data[(off + dl) as usize..z as usize].fill(0);
                }
                o.clear_sym(off, n);
                for (k, e) in sym {
                    o.sym.insert(k + off, e);
                }
                true
            }
        };
        if ok {
            Ok(())
        } else {
            self.fault(st, &format!("memcpy dest {n} at {dst:#x}"))
        }
    }

    fn heap_alloc(&mut self, st: &mut State, size: &V) -> R<u64> {
        // limit check over all values of the size
        let e = e_of(size);
        let over = cmp(P::Ult, &cst(64, st.alloc_limit as u128), &e);
        if as_c(&over) != Some(0) {
            if let Some(m) = self.may(&st.pc, &over)? {
                self.violation(st, "alloc", "allocation-limit", &m);
                let under = not1(&over);
                match self.may(&st.pc, &under)? {
                    Some(m) => self.solver.add(&mut st.pc, &under, m),
                    None => return Err(End::Viol),
                }
            }
        }
        let max = match size {
            V::C(x, _) => *x,
            _ => {
                if e.hi <= 1 << 34 {
                    e.hi as u64
                } else {
                    // bound it by the solver if possible
                    let lim = cst(64, 1 << 28);
                    if self.may(&st.pc, &cmp(P::Ult, &lim, &e))?.is_none() {
                        1 << 28
                    } else {
                        self.conc(st, size)?
                    }
                }
            }
        };
        if max > 1 << 35 {
            return Err(End::Unsup(format!("allocation of {max} bytes")));
        }
        st.alloc_total += max;
        let id = self.alloc(st, max, true);
        if let V::S(_) = size {
            Rc::make_mut(st.objs[id as usize].as_mut().unwrap()).asked = u64::MAX;
        }
        Ok(self.addr_of(id))
    }
    fn heap_free(&mut self, st: &mut State, a: u64) -> R<()> {
        if a == 0 {
            return Ok(());
        }
        let id = (a >> SH) as u32;
        if id >= self.obj_base && a & LOW == OBJ_OFF {
            let i = (id - self.obj_base) as usize;
            if let Some(Some(o)) = st.objs.get(i) {
                if o.heap {
                    st.objs[i] = None;
                    st.free.push(i as u32);
                    return Ok(());
                }
            }
        }
        self.fault(st, &format!("free of {a:#x}"))
    }

    fn intrinsic(&mut self, st: &mut State, f: u32, k: FK, rt: Ty, a: &[V]) -> R<Option<V>> {
        Ok(match k {
            FK::Def => unreachable!(),
            FK::Panic => {
                let m = st.pc.model.clone();
                let n = demangle(&self.m.funcs[f as usize].name);
                self.violation(st, "panic", &n, &m);
                return Err(End::Viol);
            }
            FK::Abort | FK::Trap => {
                let m = st.pc.model.clone();
                self.violation(st, "panic", "abort", &m);
                return Err(End::Viol);
            }
            FK::Nop => None,
            FK::NopZero => Some(self.m.zero(rt)),
            FK::Write => Some(a[2].clone()),
            FK::Errno => Some(V::ptr(self.addr_of(self.errno_obj))),
            FK::Assume => None,
            FK::Memcpy => {
                let n = self.conc(st, &a[2])?;
                let d = self.conc(st, &a[0])?;
                let s = self.conc(st, &a[1])?;
                self.copy(st, d, s, n)?;
                Some(a[0].clone())
            }
            FK::Memset => {
                let n = self.conc(st, &a[2])?;
                let d = self.conc(st, &a[0])?;
                if n > 0 {
                    let v = trunc_v(&a[1], 8);
                    let ok = match self.obj_mut(st, d, n) {
                        None => false,
                        Some((o, off)) => {
                            match v {
                                V::C(0, _) if off as usize >= o.data.len() => o.clear_sym(off, n),
                                V::C(x, _) => {
                                    o.ensure(off + n);
                                    for b in &mut o.data[off as usize..(off + n) as usize] {
                                        *b = x as u8;
                                    }
                                    o.clear_sym(off, n);
                                }
                                _ => {
                                    for i in 0..n {
                                        o.set_byte(off + i, &v);
                                    }
                                }
                            }
                            true
                        }
                    };
                    if !ok {
                        return self.fault(st, &format!("memset {n} at {d:#x}"));
                    }
                }
                Some(a[0].clone())
            }
            FK::Memcmp(signed) => {
                let n = self.conc(st, &a[2])?;
                let p = self.conc(st, &a[0])?;
                let q = self.conc(st, &a[1])?;
                let x = self.read_bytes(st, p, n)?;
                let y = self.read_bytes(st, q, n)?;
                let mut r = cst(32, 0);
                for i in (0..n as usize).rev() {
                    if let (V::C(s, _), V::C(t, _)) = (&x[i], &y[i]) {
                        if s != t {
                            r = cst(32, if s < t { u32::MAX as u128 } else { 1 });
                        }
                        continue;
                    }
                    let (s, t) = (e_of(&x[i]), e_of(&y[i]));
                    let ne = if signed { ite(&cmp(P::Ult, &s, &t), &cst(32, u32::MAX as u128), &cst(32, 1)) } else { cst(32, 1) };
                    if !signed {
                        if let Some(c) = as_c(&r) {
                            if c != 0 {
                                r = cst(32, 1);
                            }
                        }
                    }
                    r = ite(&cmp(P::Eq, &s, &t), &r, &ne);
                }
                Some(v_of(r))
            }
            FK::Strlen => {
                let p = self.conc(st, &a[0])?;
                let mut n = 0;
                loop {
                    match self.load_scalar(st, p + n, 8)? {
                        V::C(0, _) => break,
                        V::C(..) => n += 1,
                        v => {
                            let z = cmp(P::Eq, &e_of(&v), &cst(8, 0));
                            if self.branch(st, &z)? {
                                break;
                            }
                            n += 1
                        }
                    }
                }
                Some(V::C(n, 64))
            }
            FK::Bswap => Some(map1(&a[0], &|v| {
                let w = width(v);
                let e = e_of(v);
                let mut r = extract(&e, 0, 8);
                for i in 1..w / 8 {
                    r = concat(&r, &extract(&e, i * 8, 8));
                }
                v_of(r)
            })),
            FK::Bitrev => Some(map1(&a[0], &|v| {
                let w = width(v);
                let e = e_of(v);
                let mut r = extract(&e, 0, 1);
                for i in 1..w {
                    r = concat(&r, &extract(&e, i, 1));
                }
                v_of(r)
            })),
            FK::Ctlz | FK::Cttz => Some(map1(&a[0], &|v| {
                let w = width(v);
                match v {
                    V::C(x, _) => {
                        let r = if k == FK::Ctlz { x.leading_zeros() as u64 - (64 - w as u64) } else { (x.trailing_zeros() as u64).min(w as u64) };
                        V::C(r, w as u16)
                    }
                    _ => {
                        let e = e_of(v);
                        let mut r = cst(w, w as u128);
                        for i in 0..w {
                            let bit = if k == FK::Ctlz { i } else { w - 1 - i };
                            let c = extract(&e, bit, 1);
                            let n = if k == FK::Ctlz { w - 1 - bit } else { bit };
                            r = ite(&c, &cst(w, n as u128), &r);
                        }
                        v_of(r)
                    }
                }
            })),
            FK::Ctpop => Some(map1(&a[0], &|v| {
                let w = width(v);
                match v {
                    V::C(x, _) => V::C(x.count_ones() as u64, w as u16),
                    _ => {
                        let e = e_of(v);
                        let mut r = cst(w, 0);
                        for i in 0..w {
                            r = bin(B::Add, &r, &zext(&extract(&e, i, 1), w));
                        }
                        v_of(r)
                    }
                }
            })),
            FK::Fsh(left) => {
                let w = width(&a[0]);
                let n = self.conc(st, &a[2])? as u32 % w;
                let c = concat(&e_of(&a[0]), &e_of(&a[1]));
                let lo = if left { w - n } else { n };
                Some(v_of(extract(&c, lo, w)))
            }
            FK::Sat(add, signed) => {
                let (x, y) = (e_of(&a[0]), e_of(&a[1]));
                let w = x.w;
                if signed {
                    let op = if add { B::Add } else { B::Sub };
                    let full = bin(op, &sext_e(&x, w + 1), &sext_e(&y, w + 1));
                    let r = extract(&full, 0, w);
                    let ovf = not1(&cmp(P::Eq, &extract(&full, w, 1), &extract(&full, w - 1, 1)));
                    let neg = cmp(P::Eq, &extract(&full, w, 1), &cst(1, 1));
                    let lim = ite(&neg, &cst(w, 1 << (w - 1)), &cst(w, (1 << (w - 1)) - 1));
                    return Ok(Some(v_of(ite(&ovf, &lim, &r))));
                }
                let r = bin(if add { B::Add } else { B::Sub }, &x, &y);
                Some(v_of(if add { ite(&cmp(P::Ult, &r, &x), &cst(w, mask(w)), &r) } else { ite(&cmp(P::Ult, &x, &y), &cst(w, 0), &r) }))
            }
            FK::MinMax(max, signed) => {
                let f = |x: &V, y: &V| {
                    let p = if signed { Pred::Slt } else { Pred::Ult };
                    let c = e_of(&icmp_v(p, x, y));
                    if max {
                        ite_v(&c, y, x)
                    } else {
                        ite_v(&c, x, y)
                    }
                };
                Some(match (&a[0], &a[1]) {
                    (V::A(x), V::A(y)) => V::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| f(p, q)).collect())),
                    (x, y) => f(x, y),
                })
            }
            FK::CmpI(signed) => {
                let w = self.m.bits(rt);
                let p = if signed { Pred::Slt } else { Pred::Ult };
                let lt = e_of(&icmp_v(p, &a[0], &a[1]));
                let gt = e_of(&icmp_v(p, &a[1], &a[0]));
                Some(v_of(ite(&lt, &cst(w, mask(w)), &ite(&gt, &cst(w, 1), &cst(w, 0)))))
            }
            FK::Abs => {
                let e = e_of(&a[0]);
                let w = e.w;
                let neg = cmp(P::Slt, &e, &cst(w, 0));
                Some(v_of(ite(&neg, &bin(B::Sub, &cst(w, 0), &e), &e)))
            }
            FK::Ovf(op, signed) => {
                let w = width(&a[0]);
                let r = bin_v(op, &a[0], &a[1]);
                let o = match (op, signed) {
                    (B::Add, false) => icmp_v(Pred::Ult, &r, &a[0]),
                    (B::Sub, false) => icmp_v(Pred::Ult, &a[0], &a[1]),
                    (_, s) => {
                        let ww = if op == B::Mul { 2 * w } else { w + 1 };
                        if ww > 128 {
                            if let (V::C(x, 64), V::C(y, 64)) = (&a[0], &a[1]) {
                                let o = if s { (*x as i64).checked_mul(*y as i64).is_none() && op == B::Mul } else { x.checked_mul(*y).is_none() };
                                V::C(o as u64, 1)
                            } else {
                                return Err(End::Unsup("wide overflow".into()));
                            }
                        } else {
                            let ex = |v: &V| if s { sext_e(&e_of(v), ww) } else { zext(&e_of(v), ww) };
                            let full = bin(op, &ex(&a[0]), &ex(&a[1]));
                            let back = ex(&r);
                            v_of(not1(&cmp(P::Eq, &full, &back)))
                        }
                    }
                };
                Some(V::A(Rc::new(vec![r, o])))
            }
            FK::Tls | FK::Expect => Some(a[0].clone()),
            FK::IsConst => Some(V::C(0, 1)),
            FK::VecRed(o) => {
                let V::A(x) = &a[0] else { return Err(End::Unsup("reduce".into())) };
                let mut r = x[0].clone();
                for y in x.iter().skip(1) {
                    r = bin_v([B::Add, B::Or, B::And][o as usize], &r, y);
                }
                Some(r)
            }
            FK::Fabs | FK::Copysign | FK::FpClass if a.iter().any(|x| matches!(x, V::A(_))) => return Err(End::Unsup("vector float".into())),
            FK::Fabs => {
                let e = e_of(&a[0]);
                Some(v_of(bin(B::And, &e, &cst(e.w, (1 << (e.w - 1)) - 1))))
            }
            FK::Copysign => {
                let (e, s) = (e_of(&a[0]), e_of(&a[1]));
                let sg = 1u128 << (e.w - 1);
                Some(v_of(bin(B::Or, &bin(B::And, &e, &cst(e.w, sg - 1)), &bin(B::And, &s, &cst(e.w, sg)))))
            }
            FK::FpClass => {
                let (e, V::C(k, _)) = (e_of(&a[0]), &a[1]) else { return Err(End::Unsup("is.fpclass".into())) };
                let w = e.w;
                let mant = if w == 32 { 23 } else { 52 };
                let mag = bin(B::And, &e, &cst(w, (1 << (w - 1)) - 1));
                let inf = ((1u128 << (w - 1 - mant)) - 1) << mant;
                let quiet = cst(w, inf | 1 << (mant - 1));
                let inf = cst(w, inf);
                let (nan, isinf, zero) = (cmp(P::Ult, &inf, &mag), cmp(P::Eq, &mag, &inf), cmp(P::Eq, &mag, &cst(w, 0)));
                let q = and1(&nan, &not1(&cmp(P::Ult, &mag, &quiet)));
                let sub = and1(&cmp(P::Ult, &mag, &cst(w, 1 << mant)), &not1(&zero));
                let norm = and1(&cmp(P::Ult, &mag, &inf), &not1(&cmp(P::Ult, &mag, &cst(w, 1 << mant))));
                let neg = cmp(P::Eq, &extract(&e, w - 1, 1), &cst(1, 1));
                let pos = not1(&neg);
                let cl = [and1(&nan, &not1(&q)), q, and1(&isinf, &neg), and1(&norm, &neg), and1(&sub, &neg), and1(&zero, &neg), and1(&zero, &pos), and1(&sub, &pos), and1(&norm, &pos), and1(&isinf, &pos)];
                let mut r = ff();
                for (i, c) in cl.iter().enumerate() {
                    if k >> i & 1 == 1 {
                        r = or1(&r, c);
                    }
                }
                Some(v_of(r))
            }
            FK::FpSat(signed) => {
                let (fw, tw) = (width(&a[0]), self.m.bits(rt));
                if tw > 64 || matches!(a[0], V::A(_)) {
                    return Err(End::Unsup("floating point cast".into()));
                }
                let v = self.fp_pick(st, &a[0], true)?;
                let f = if fw == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v) };
                let r = if signed { (f as i64).clamp(-(1i64 << (tw - 1)), ((1u64 << (tw - 1)) - 1) as i64) as u64 } else { (f as u64).min(mask(tw) as u64) };
                Some(V::C(r & mask(tw) as u64, tw as u16))
            }
            FK::LoadRel => {
                let b = self.conc(st, &a[0])?;
                let o = self.conc(st, &a[1])?;
                let v = self.load_scalar(st, b.wrapping_add(o), 32)?;
                let V::C(x, _) = v else { return Err(End::Unsup("load.relative".into())) };
                Some(V::ptr(b.wrapping_add(x as u32 as i32 as i64 as u64)))
            }
            FK::Malloc => Some(V::ptr(self.heap_alloc(st, &a[0])?)),
            FK::Calloc => {
                let s = bin_v(B::Mul, &a[0], &a[1]);
                Some(V::ptr(self.heap_alloc(st, &s)?))
            }
            FK::AlignedAlloc => Some(V::ptr(self.heap_alloc(st, &a[1])?)),
            FK::Memalign => {
                let out = self.conc(st, &a[0])?;
                let p = self.heap_alloc(st, &a[2])?;
                self.store_scalar(st, out, &V::ptr(p))?;
                Some(V::C(0, 32))
            }
            FK::Realloc => {
                let p = self.conc(st, &a[0])?;
                if let V::S(_) = &a[1] {
                    self.conc(st, &a[1])?;
                }
                let n = self.heap_alloc(st, &a[1])?;
                if p != 0 {
                    let old = match self.obj(st, p) {
                        Some((o, 0)) => o.size,
                        _ => return self.fault(st, "realloc"),
                    };
                    let new = self.obj(st, n).unwrap().0.size;
                    self.copy(st, n, p, old.min(new))?;
                    self.heap_free(st, p)?;
                }
                Some(V::ptr(n))
            }
            FK::Free => {
                let p = self.conc(st, &a[0])?;
                self.heap_free(st, p)?;
                None
            }
            FK::Rand => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                self.fill(st, p, n)?;
                Some(V::C(n, 64))
            }
            FK::Syscall => {
                let n = self.conc(st, &a[0])?;
                if n == 318 {
                    let p = self.conc(st, &a[1])?;
                    let l = self.conc(st, &a[2])?;
                    self.fill(st, p, l)?;
                    Some(V::C(l, 64))
                } else if n == 202 {
                    Some(V::C(0, 64))
                } else {
                    return Err(End::Unsup(format!("syscall {n}")));
                }
            }
            FK::SymBytes => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                for i in 0..n {
                    let v = V::S(var(st.nvars));
                    st.nvars += 1;
                    self.store_scalar(st, p + i, &v)?;
                }
                None
            }
            FK::SymChoose => {
                let n = self.conc(st, &a[0])? as u32;
                let first = st.choices.is_empty();
                let vals: Vec<u32> = (0..n).filter(|v| !first || self.lim.shard.1 <= 1 || v % self.lim.shard.1 == self.lim.shard.0).collect();
                if vals.is_empty() {
                    return Err(End::Pruned);
                }
                // the result register is written by the caller for this state; others are
                // resumed by re-executing with a forced choice
                // (forced choices are kept in `pending`)
                if let Some(v) = st.forced_take() {
                    st.choices.push(v);
                    return Ok(Some(V::C(v as u64, 32)));
                }
                for v in vals.iter().skip(1).rev() {
                    let mut o = st.clone();
                    o.steps -= 1;
                    Rc::make_mut(o.frames.last_mut().unwrap()).pc = self.ins_pc;
                    o.env_rand = v + 1;
                    self.work.push(o);
                    self.forks += 1;
                }
                st.choices.push(vals[0]);
                Some(V::C(vals[0] as u64, 32))
            }
            FK::SymDone => return Err(End::Done),
            FK::SymInitFn => {
                // the n-th function of .init_array, or null
                let n = self.conc(st, &a[0])?;
                let g = (0..self.m.globals.len()).filter(|i| self.m.globals[*i].at_start).nth(n as usize);
                match g {
                    None => Some(V::C(0, 64)),
                    Some(g) => Some(self.load_scalar(st, ((g as u64 + 2) << SH) + OBJ_OFF, 64)?),
                }
            }
            FK::SymUtf8 => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                let b = self.read_bytes(st, p, n)?;
                let (ok, _, _, _) = utf8_dfa(&b);
                Some(zext_v(&v_of(ok), if let TyK::Int(w) = &self.m.types.borrow()[rt as usize] { *w } else { 1 }))
            }
            FK::Utf8 => {
                // core::str::converts::from_utf8(out: *mut Result<&str, Utf8Error>, ptr, len)
                let o = self.conc(st, &a[0])?;
                let p = self.conc(st, &a[1])?;
                let n = self.conc(st, &a[2])?;
                let b = self.read_bytes(st, p, n)?;
                let (ok, upto, has_len, elen) = utf8_dfa(&b);
                if self.branch(st, &ok)? {
                    self.store_scalar(st, o, &V::C(0, 64))?;
                    self.store_scalar(st, o + 8, &V::C(p, 64))?;
                    self.store_scalar(st, o + 16, &V::C(n, 64))?;
                } else {
                    self.store_scalar(st, o, &V::C(1, 64))?;
                    self.store_scalar(st, o + 8, &v_of(upto))?;
                    self.store_scalar(st, o + 16, &v_of(has_len))?;
                    self.store_scalar(st, o + 17, &v_of(elen))?;
                }
                None
            }
            FK::SymAssume => {
                let c = v_bool(&a[0]);
                match self.may(&st.pc, &c)? {
                    None => return Err(End::Pruned),
                    Some(m) => self.solver.add(&mut st.pc, &c, m),
                }
                None
            }
            FK::SymCheck => {
                // (cond, id ptr, id len)
                let p = self.conc(st, &a[1])?;
                let n = self.conc(st, &a[2])?;
                let id = self.cstr(st, p, n)?;
                let c = v_bool(&a[0]);
                let ent = self.checks.entry(id.clone()).or_insert((0, 0));
                ent.0 += 1;
                if as_c(&c).is_none() {
                    ent.1 += 1;
                }
                self.solver.stats.asserts_checked += 1;
                if as_c(&c) == Some(1) {
                    return Ok(None);
                }
                let nc = not1(&c);
                if let Some(m) = self.may(&st.pc, &nc)? {
                    self.violation(st, "check", &id, &m);
                    match self.may(&st.pc, &c)? {
                        None => return Err(End::Viol),
                        Some(m) => {
                            self.solver.add(&mut st.pc, &c, m);
                            if self.viols.len() >= self.lim.max_viol {
                                return Err(End::Viol);
                            }
                        }
                    }
                }
                None
            }
            FK::SymFail => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                let id = self.cstr(st, p, n)?;
                self.checks.entry(id.clone()).or_insert((0, 0)).0 += 1;
                let m = st.pc.model.clone();
                self.violation(st, "check", &id, &m);
                return Err(End::Viol);
            }
            FK::SymReach => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                let id = self.cstr(st, p, n)?;
                Rc::make_mut(&mut st.reach).insert(id);
                None
            }
            FK::SymObserve => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                let v = self.read_bytes(st, p, n)?;
                st.obs.extend(v);
                None
            }
            FK::SymAllocLimit => {
                st.alloc_limit = self.conc(st, &a[0])?;
                None
            }
            FK::SymConcretize => {
                let v = self.conc(st, &a[0])?;
                Some(V::C(v, 64))
            }
            FK::ModelEval => None,
            FK::Unsup => return Err(End::Unsup(format!("call to {}", self.m.funcs[f as usize].name))),
        })
    }
    fn fill(&mut self, st: &mut State, p: u64, n: u64) -> R<()> {
        for i in 0..n {
            self.store_scalar(st, p + i, &V::C((i * 37 + 11) & 0xff, 8))?;
        }
        Ok(())
    }
    pub fn max_steps(&self) -> u64 {
        self.max_path_steps
    }
}

impl State {
    fn forced_take(&mut self) -> Option<u32> {
        if self.env_rand > 0 {
            let v = self.env_rand - 1;
            self.env_rand = 0;
            Some(v)
        } else {
            None
        }
    }
}

/// UTF-8 (RFC 3629) as a byte automaton over symbolic bytes:
/// (valid, valid_up_to: 64, has error_len: 8, error_len: 8)
fn utf8_dfa(b: &[V]) -> (E, E, E, E) {
    const REJ: u128 = 8;
    let c8 = |v: u128| cst(8, v);
    let mut st = c8(0);
    let mut start = cst(64, 0); // first byte of the current character
    let mut elen = c8(0);
    for (i, v) in b.iter().enumerate() {
        let x = e_of(v);
        let rng = |lo: u128, hi: u128| and1(&cmp(P::Ule, &c8(lo), &x), &cmp(P::Ule, &x, &c8(hi)));
        let is = |s: u128| cmp(P::Eq, &st, &c8(s));
        let step = |lo: u128, hi: u128, to: u128| ite(&rng(lo, hi), &c8(to), &c8(REJ));
        // 0 start, 1 one more, 2 two more, 3 after E0, 4 after ED, 5 after F0, 6 three more, 7 after F4
        let mut lead = c8(REJ);
        for (lo, hi, to) in [(0, 0x7F, 0), (0xC2, 0xDF, 1), (0xE0, 0xE0, 3), (0xE1, 0xEC, 2), (0xED, 0xED, 4), (0xEE, 0xEF, 2), (0xF0, 0xF0, 5), (0xF1, 0xF3, 6), (0xF4, 0xF4, 7)] {
            lead = ite(&rng(lo, hi), &c8(to), &lead);
        }
        let mut nx = c8(REJ);
        for (s, t) in [
            (0, lead),
            (1, step(0x80, 0xBF, 0)),
            (2, step(0x80, 0xBF, 1)),
            (3, step(0xA0, 0xBF, 1)),
            (4, step(0x80, 0x9F, 1)),
            (5, step(0x90, 0xBF, 2)),
            (6, step(0x80, 0xBF, 2)),
            (7, step(0x80, 0x8F, 2)),
        ] {
            nx = ite(&is(s), &t, &nx);
        }
        let was_rej = cmp(P::Eq, &st, &c8(REJ));
        let now_rej = and1(&not1(&was_rej), &cmp(P::Eq, &nx, &c8(REJ)));
        let d = extract(&bin(B::Sub, &cst(64, i as u128), &start), 0, 8);
        let l = ite(&cmp(P::Eq, &d, &c8(0)), &c8(1), &d);
        elen = ite(&now_rej, &l, &elen);
        let done = cmp(P::Eq, &nx, &c8(0));
        start = ite(&done, &cst(64, i as u128 + 1), &start);
        st = nx;
    }
    let rej = cmp(P::Eq, &st, &c8(REJ));
    let ok = cmp(P::Eq, &st, &c8(0));
    (ok, start, ite(&rej, &c8(1), &c8(0)), elen)
}
fn v_bool(v: &V) -> E {
    match v {
        V::C(x, _) => {
            if *x != 0 {
                tt()
            } else {
                ff()
            }
        }
        V::S(e) => {
            if e.w == 1 {
                e.clone()
            } else {
                not1(&cmp(P::Eq, e, &cst(e.w, 0)))
            }
        }
        _ => panic!("bool"),
    }
}

pub fn rss_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok())).map(|p| p * 4096 / 1048576).unwrap_or(0)
}

/// Readable approximation of a mangled symbol (legacy or v0): its identifier components.
pub fn demangle(n: &str) -> String {
    if !(n.starts_with("_ZN") || n.starts_with("_R")) {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = if n.starts_with("_ZN") { 3 } else { 2 };
    while i < b.len() {
        // v0 disambiguators "s<base62>_" may precede digits; skip them
        if !n.starts_with("_ZN") && b[i] == b's' {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                // then a length
            }
        }
        if i < b.len() && b[i].is_ascii_digit() {
            let s = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let l: usize = n[s..i].parse().unwrap_or(0);
            let mut k = i;
            if k < b.len() && b[k] == b'_' && !n.starts_with("_ZN") {
                k += 1;
            }
            if l > 0 && k + l <= b.len() && n.is_char_boundary(k + l) {
                let id = &n[k..k + l];
                if id.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_' || c == b'$' || c == b'.') {
                    if !(id.len() == 17 && id.starts_with('h') && n.starts_with("_ZN")) {
                        out.push(id.to_string());
                    }
                    i = k + l;
                    continue;
                }
            }
        } else {
            i += 1;
        }
    }
    if out.is_empty() {
        n.to_string()
    } else {
        out.join("::")
    }
}
