//! Path-condition solver: per-byte domains + independent slicing + caching in
//! front of Z3 (libz3, QF_BV).
use crate::expr::*;
use std::collections::{HashMap, HashSet, VecDeque};
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::rc::Rc;
use std::time::Instant;

type A = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> A;
    fn Z3_set_param_value(c: A, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: A) -> A;
    fn Z3_set_error_handler(c: A, h: Option<extern "C" fn(A, c_int)>);
    fn Z3_inc_ref(c: A, a: A);
    fn Z3_mk_bv_sort(c: A, w: c_uint) -> A;
    fn Z3_mk_int_symbol(c: A, i: c_int) -> A;
    fn Z3_mk_const(c: A, s: A, t: A) -> A;
    fn Z3_mk_numeral(c: A, n: *const c_char, s: A) -> A;
    fn Z3_mk_unsigned_int64(c: A, v: u64, s: A) -> A;
    fn Z3_mk_bvadd(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvsub(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvmul(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvudiv(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvsdiv(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvurem(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvsrem(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvand(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvor(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvxor(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvshl(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvlshr(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvashr(c: A, a: A, b: A) -> A;
    fn Z3_mk_eq(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvult(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvule(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvslt(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvsle(c: A, a: A, b: A) -> A;
    fn Z3_mk_ite(c: A, i: A, a: A, b: A) -> A;
    fn Z3_mk_extract(c: A, hi: c_uint, lo: c_uint, a: A) -> A;
    fn Z3_mk_zero_ext(c: A, n: c_uint, a: A) -> A;
    fn Z3_mk_sign_ext(c: A, n: c_uint, a: A) -> A;
    fn Z3_mk_concat(c: A, a: A, b: A) -> A;
    fn Z3_mk_solver_for_logic(c: A, s: A) -> A;
    fn Z3_mk_string_symbol(c: A, s: *const c_char) -> A;
    fn Z3_mk_simple_solver(c: A) -> A;
    fn Z3_solver_inc_ref(c: A, s: A);
    fn Z3_solver_assert(c: A, s: A, a: A);
    fn Z3_solver_check(c: A, s: A) -> c_int;
    fn Z3_solver_reset(c: A, s: A);
    fn Z3_solver_get_model(c: A, s: A) -> A;
    fn Z3_solver_to_string(c: A, s: A) -> *const c_char;
    fn Z3_model_inc_ref(c: A, m: A);
    fn Z3_model_dec_ref(c: A, m: A);
    fn Z3_model_eval(c: A, m: A, t: A, completion: bool, out: *mut A) -> bool;
    fn Z3_get_numeral_uint64(c: A, v: A, out: *mut u64) -> bool;
    fn Z3_mk_params(c: A) -> A;
    fn Z3_params_inc_ref(c: A, p: A);
    fn Z3_params_set_uint(c: A, p: A, k: A, v: c_uint);
    fn Z3_solver_set_params(c: A, s: A, p: A);
}

extern "C" fn on_err(_c: A, e: c_int) {
    eprintln!("z3 error {e}");
    std::process::exit(3);
}

pub type Dom = [u64; 4];
fn dom_full() -> Dom {
    [u64::MAX; 4]
}
fn dom_and(a: &Dom, b: &Dom) -> Dom {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
fn dom_first(d: &Dom) -> Option<u8> {
    for i in 0..4 {
        if d[i] != 0 {
            return Some((i * 64) as u8 + d[i].trailing_zeros() as u8);
        }
    }
    None
}

/// how many variables and assignments the finite-domain decision takes
const JOINT: usize = 3;
const JOINT_CAP: u64 = 1024;

pub type Model = Rc<Vec<u8>>;

#[derive(Clone, Default)]
pub struct Pc {
    pub cons: Rc<Vec<E>>,
    pub model: Model,
    dom: Rc<HashMap<u32, Dom>>,
    multi: Rc<HashSet<u32>>,
}

impl Pc {
    pub fn mget(&self, v: u32) -> u8 {
        self.model.get(v as usize).copied().unwrap_or(0)
    }
    pub fn eval(&self, e: &E) -> u128 {
        eval(e, &|v| self.mget(v), new_gen())
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub z3_queries: u64,
    pub z3_sat: u64,
    pub z3_unsat: u64,
    pub z3_time: f64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub dom_decided: u64,
    /// sample of the decisions over byte domains that Z3 decided too
    pub dom_confirmed: u64,
    pub confirm_time: f64,
    pub asserts_checked: u64,
    pub max_query_s: f64,
}

pub struct Solver {
    ctx: A,
    fast: A,
    slow: A,
    memo: HashMap<u32, (A, bool)>, // ast, is_bool
    sorts: HashMap<u32, A>,
    cache: HashMap<Vec<u32>, Option<Vec<(u32, u8)>>>,
    recent: VecDeque<Model>,
    masks: HashMap<u32, Dom>,
    /// assignments of a few byte variables that satisfy a list of constraints
    joint: HashMap<Vec<u32>, Rc<Vec<[u8; JOINT]>>>,
    pub stats: Stats,
    pub dump_dir: Option<String>,
    pub dump_left: u32,
}

#[derive(Debug)]
pub struct Unknown;

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let fast = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, fast);
            let l = CString::new("QF_BV").unwrap();
            let slow = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, l.as_ptr()));
            Z3_solver_inc_ref(ctx, slow);
            let ks = CString::new("timeout").unwrap();
            for (s, t) in [(fast, 2000u32.min(timeout_ms)), (slow, timeout_ms)] {
                let p = Z3_mk_params(ctx);
                Z3_params_inc_ref(ctx, p);
                Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, ks.as_ptr()), t);
                Z3_solver_set_params(ctx, s, p);
            }
            Solver {
                ctx,
                fast,
                slow,
                memo: HashMap::new(),
                sorts: HashMap::new(),
                cache: HashMap::new(),
                recent: VecDeque::new(),
                masks: HashMap::new(),
                joint: HashMap::new(),
                stats: Stats::default(),
                dump_dir: None,
                dump_left: 0,
            }
        }
    }
    fn sort(&mut self, w: u32) -> A {
        let c = self.ctx;
        *self.sorts.entry(w).or_insert_with(|| unsafe {
            let s = Z3_mk_bv_sort(c, w);
            Z3_inc_ref(c, s);
            s
        })
    }
    fn bv(&mut self, e: &E) -> A {
        let (a, b) = self.tr(e);
        if b {
            // bool -> bv1
            unsafe {
                let s = self.sort(1);
                let one = Z3_mk_unsigned_int64(self.ctx, 1, s);
                Z3_inc_ref(self.ctx, one);
                let zero = Z3_mk_unsigned_int64(self.ctx, 0, s);
                Z3_inc_ref(self.ctx, zero);
                let r = Z3_mk_ite(self.ctx, a, one, zero);
                Z3_inc_ref(self.ctx, r);
                r
            }
        } else {
            a
        }
    }
    fn boolean(&mut self, e: &E) -> A {
        let (a, b) = self.tr(e);
        if b {
            a
        } else {
            unsafe {
                let s = self.sort(1);
                let one = Z3_mk_unsigned_int64(self.ctx, 1, s);
                Z3_inc_ref(self.ctx, one);
                let r = Z3_mk_eq(self.ctx, a, one);
                Z3_inc_ref(self.ctx, r);
                r
            }
        }
    }
    fn tr(&mut self, e: &E) -> (A, bool) {
        if let Some(r) = self.memo.get(&e.id) {
            return *r;
        }
        let c = self.ctx;
        let mut is_bool = false;
        let a = unsafe {
            match &e.k {
                K::Const(v) => {
                    let s = self.sort(e.w);
                    if e.w <= 64 {
                        Z3_mk_unsigned_int64(c, *v as u64, s)
                    } else {
                        let t = CString::new(v.to_string()).unwrap();
                        Z3_mk_numeral(c, t.as_ptr(), s)
                    }
                }
                K::Var(v) => {
                    let s = self.sort(8);
                    Z3_mk_const(c, Z3_mk_int_symbol(c, *v as c_int), s)
                }
                K::Bin(op, x, y) => {
                    let (x, y) = (self.bv(x), self.bv(y));
                    let f = match op {
                        B::Add => Z3_mk_bvadd,
                        B::Sub => Z3_mk_bvsub,
                        B::Mul => Z3_mk_bvmul,
                        B::UDiv => Z3_mk_bvudiv,
                        B::SDiv => Z3_mk_bvsdiv,
                        B::URem => Z3_mk_bvurem,
                        B::SRem => Z3_mk_bvsrem,
                        B::And => Z3_mk_bvand,
                        B::Or => Z3_mk_bvor,
                        B::Xor => Z3_mk_bvxor,
                        B::Shl => Z3_mk_bvshl,
                        B::LShr => Z3_mk_bvlshr,
                        B::AShr => Z3_mk_bvashr,
                    };
                    f(c, x, y)
                }
                K::Cmp(p, x, y) => {
                    is_bool = true;
                    let (x, y) = (self.bv(x), self.bv(y));
                    match p {
                        P::Eq => Z3_mk_eq(c, x, y),
                        P::Ult => Z3_mk_bvult(c, x, y),
                        P::Ule => Z3_mk_bvule(c, x, y),
                        P::Slt => Z3_mk_bvslt(c, x, y),
                        P::Sle => Z3_mk_bvsle(c, x, y),
                    }
                }
                K::Ite(i, x, y) => {
                    let (i, x, y) = (self.boolean(i), self.bv(x), self.bv(y));
                    Z3_mk_ite(c, i, x, y)
                }
                K::Extract(x, lo) => {
                    let x = self.bv(x);
                    Z3_mk_extract(c, lo + e.w - 1, *lo, x)
                }
                K::ZExt(x) => {
                    let n = e.w - x.w;
                    let x = self.bv(x);
                    Z3_mk_zero_ext(c, n, x)
                }
                K::SExt(x) => {
                    let n = e.w - x.w;
                    let x = self.bv(x);
                    Z3_mk_sign_ext(c, n, x)
                }
                K::Concat(x, y) => {
                    let (x, y) = (self.bv(x), self.bv(y));
                    Z3_mk_concat(c, x, y)
                }
            }
        };
        unsafe { Z3_inc_ref(c, a) };
        self.memo.insert(e.id, (a, is_bool));
        (a, is_bool)
    }

    fn unary_mask(&mut self, e: &E) -> Dom {
        if let Some(d) = self.masks.get(&e.id) {
            return *d;
        }
        let mut d = [0u64; 4];
        for b in 0..256usize {
            if eval(e, &|_| b as u8, new_gen()) == 1 {
                d[b / 64] |= 1 << (b % 64);
            }
        }
        self.masks.insert(e.id, d);
        d
    }

    /// Add a constraint known to be satisfiable together with pc; `m` is a model of the conjunction.
    pub fn add(&mut self, pc: &mut Pc, cond: &E, m: Model) {
        if as_c(cond).is_some() {
            return;
        }
        // split conjunctions
        if let K::Bin(B::And, a, b) = &cond.k {
            let (a, b) = (a.clone(), b.clone());
            self.add(pc, &a, m.clone());
            self.add(pc, &b, m);
            return;
        }
        // equality / small upper bound on a concatenation: constrain the parts separately
        if let K::Cmp(p, x, y) = &cond.k {
            if let (K::Concat(h, l), Some(c)) = (&x.k, as_c(y)) {
                let ch = c >> l.w;
                if *p == P::Eq {
                    let (h, l) = (cmp(P::Eq, h, &cst(h.w, ch)), cmp(P::Eq, l, &cst(l.w, c & mask(l.w))));
                    self.add(pc, &h, m.clone());
                    self.add(pc, &l, m);
                    return;
                }
                if matches!(p, P::Ult | P::Ule) && ch == 0 {
                    let (h, l) = (cmp(P::Eq, h, &cst(h.w, 0)), cmp(*p, l, &cst(l.w, c)));
                    self.add(pc, &h, m.clone());
                    self.add(pc, &l, m);
                    return;
                }
            }
        }
        pc.model = m;
        if cond.vars.len() == 1 {
            let v = cond.vars[0];
            let mk = self.unary_mask(cond);
            let d = Rc::make_mut(&mut pc.dom);
            let e = d.entry(v).or_insert_with(dom_full);
            let nd = dom_and(e, &mk);
            if nd == *e {
                return; // implied
            }
            *e = nd;
        } else {
            let s = Rc::make_mut(&mut pc.multi);
            for v in cond.vars.iter() {
                s.insert(*v);
            }
        }
        Rc::make_mut(&mut pc.cons).push(cond.clone());
    }

    fn slice(&self, pc: &Pc, cond: &E) -> Vec<E> {
        let mut vars: HashSet<u32> = cond.vars.iter().copied().collect();
        let mut used = vec![false; pc.cons.len()];
        loop {
            let mut changed = false;
            for (i, c) in pc.cons.iter().enumerate() {
                if !used[i] && c.vars.iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    for v in c.vars.iter() {
                        if vars.insert(*v) {
                            changed = true;
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        pc.cons.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, c)| c.clone()).collect()
    }

    /// every assignment of the few variables of these constraints that satisfies them
    fn assignments(&mut self, pc: &Pc, cons: &[E], vars: &[u32]) -> Rc<Vec<[u8; JOINT]>> {
        let key = |n: usize| {
            let mut k: Vec<u32> = vars.to_vec();
            k.push(u32::MAX);
            k.extend(cons[..n].iter().map(|c| c.id));
            k
        };
        let full = key(cons.len());
        if let Some(r) = self.joint.get(&full) {
            return r.clone();
        }
        let mut from = cons.len();
        let mut base: Option<Rc<Vec<[u8; JOINT]>>> = None;
        while from > 0 && cons.len() - from < 4 {
            from -= 1;
            if let Some(r) = self.joint.get(&key(from)) {
                base = Some(r.clone());
                break;
            }
        }
        let base = match base {
            Some(b) => b,
            None => {
                from = 0;
                let mut all = vec![[0u8; JOINT]];
                for (i, v) in vars.iter().enumerate() {
                    let d = self.dom_values(pc, *v);
                    let mut next = Vec::with_capacity(all.len() * d.len());
                    for a in &all {
                        for b in &d {
                            let mut n = *a;
                            n[i] = *b;
                            next.push(n);
                        }
                    }
                    all = next;
                }
                Rc::new(all)
            }
        };
        let get = |a: &[u8; JOINT], v: u32| vars.iter().position(|x| *x == v).map_or(0, |i| a[i]);
        let r: Vec<[u8; JOINT]> = base
            .iter()
            .filter(|a| {
                let g = new_gen();
                let f = |v: u32| get(a, v);
                cons[from..].iter().all(|c| eval(c, &f, g) == 1)
            })
            .copied()
            .collect();
        let r = Rc::new(r);
        if self.joint.len() > 100_000 {
            self.joint.clear();
        }
        self.joint.insert(full, r.clone());
        r
    }

    /// Is pc && cond satisfiable? Returns a model of it.
    pub fn may(&mut self, pc: &Pc, cond: &E) -> Result<Option<Model>, Unknown> {
        let d = self.stats.dom_decided;
        let r = self.decide(pc, cond)?;
        if self.stats.dom_decided > d && self.stats.dom_decided % 256 == 1 && self.stats.confirm_time < 4.0 {
            let t0 = Instant::now();
            // a sample of what was decided over byte domains goes to Z3, too
            let mut cons = self.slice(pc, cond);
            cons.push(cond.clone());
            let mut vars: Vec<u32> = cons.iter().flat_map(|c| c.vars.iter().copied()).collect();
            vars.sort_unstable();
            vars.dedup();
            if let Ok(z) = self.z3(&cons, &vars) {
                if z.is_some() != r.is_some() {
                    eprintln!("symx: Z3 disagrees with a decision over byte domains");
                    std::process::exit(3);
                }
                self.stats.dom_confirmed += 1;
            }
            self.stats.confirm_time += t0.elapsed().as_secs_f64();
        }
        Ok(r)
    }
    fn decide(&mut self, pc: &Pc, cond: &E) -> Result<Option<Model>, Unknown> {
        if let Some(c) = as_c(cond) {
            return Ok(if c == 1 { Some(pc.model.clone()) } else { None });
        }
        if pc.eval(cond) == 1 {
            self.stats.model_hits += 1;
            return Ok(Some(pc.model.clone()));
        }
        if self.dom_product(pc, cond, 1) == 1 {
            self.stats.dom_decided += 1;
            return Ok(None); // every variable is fixed and the only assignment falsifies it
        }
        if cond.vars.len() == 1 {
            let v = cond.vars[0];
            let mk = self.unary_mask(cond);
            let d = pc.dom.get(&v).copied().unwrap_or_else(dom_full);
            match dom_first(&dom_and(&d, &mk)) {
                None => {
                    self.stats.dom_decided += 1;
                    return Ok(None);
                }
                Some(b) => {
                    if !pc.multi.contains(&v) {
                        self.stats.dom_decided += 1;
                        let mut m = (*pc.model).clone();
                        if m.len() <= v as usize {
                            m.resize(v as usize + 1, 0);
                        }
                        m[v as usize] = b;
                        return Ok(Some(Rc::new(m)));
                    }
                }
            }
        }
        let mut cons = self.slice(pc, cond);
        let mut few: Vec<u32> = cond.vars.to_vec();
        for c in &cons {
            for v in c.vars.iter() {
                if few.len() <= JOINT && !few.contains(v) {
                    few.push(*v);
                }
            }
        }
        few.sort_unstable();
        let left: u64 = few.iter().map(|v| self.dom_values(pc, *v).len() as u64).product();
        if few.len() <= JOINT && left <= JOINT_CAP {
            // a few variables of a few values each: decided over all their assignments
            let all = self.assignments(pc, &cons, &few);
            self.stats.dom_decided += 1;
            for a in all.iter() {
                let f = |v: u32| few.iter().position(|x| *x == v).map_or(0, |i| a[i]);
                if eval(cond, &f, new_gen()) == 1 {
                    let mut m = (*pc.model).clone();
                    for (i, v) in few.iter().enumerate() {
                        if m.len() <= *v as usize {
                            m.resize(*v as usize + 1, 0);
                        }
                        m[*v as usize] = a[i];
                    }
                    return Ok(Some(Rc::new(m)));
                }
            }
            return Ok(None);
        }
        cons.push(cond.clone());
        let mut key: Vec<u32> = cons.iter().map(|e| e.id).collect();
        key.sort_unstable();
        key.dedup();
        let merge = |vals: &Vec<(u32, u8)>| {
            let mut m = (*pc.model).clone();
            for (v, b) in vals {
                if m.len() <= *v as usize {
                    m.resize(*v as usize + 1, 0);
                }
                m[*v as usize] = *b;
            }
            Rc::new(m)
        };
        if let Some(r) = self.cache.get(&key) {
            self.stats.cache_hits += 1;
            return Ok(r.as_ref().map(merge));
        }
        let mut vars: Vec<u32> = cons.iter().flat_map(|c| c.vars.iter().copied()).collect();
        vars.sort_unstable();
        vars.dedup();
        // recent models
        for i in 0..self.recent.len() {
            let m = self.recent[i].clone();
            let g = new_gen();
            let f = |v: u32| m.get(v as usize).copied().unwrap_or(0);
            if cons.iter().rev().all(|c| eval(c, &f, g) == 1) {
                self.stats.model_hits += 1;
                let vals: Vec<(u32, u8)> = vars.iter().map(|v| (*v, f(*v))).collect();
                let r = merge(&vals);
                self.cache.insert(key, Some(vals));
                return Ok(Some(r));
            }
        }
        let r = self.z3(&cons, &vars)?;
        let out = r.as_ref().map(merge);
        if let Some(m) = &out {
            self.recent.push_front(m.clone());
            if self.recent.len() > 24 {
                self.recent.pop_back();
            }
        }
        self.cache.insert(key, r);
        Ok(out)
    }

    fn z3(&mut self, cons: &[E], vars: &[u32]) -> Result<Option<Vec<(u32, u8)>>, Unknown> {
        let t0 = Instant::now();
        let asts: Vec<A> = cons.iter().map(|c| self.boolean(c)).collect();
        let mut res = 0;
        let mut used = self.fast;
        for s in [self.fast, self.slow] {
            unsafe {
                Z3_solver_reset(self.ctx, s);
                for a in &asts {
                    Z3_solver_assert(self.ctx, s, *a);
                }
                res = Z3_solver_check(self.ctx, s);
                used = s;
            }
            if res != 0 {
                break;
            }
        }
        self.stats.z3_queries += 1;
        let dt = t0.elapsed().as_secs_f64();
        self.stats.z3_time += dt;
        if dt > self.stats.max_query_s {
            self.stats.max_query_s = dt;
        }
        if self.dump_left > 0 && res != 0 {
            if let Some(d) = &self.dump_dir {
                self.dump_left -= 1;
                let s = unsafe { std::ffi::CStr::from_ptr(Z3_solver_to_string(self.ctx, used)) }.to_string_lossy().to_string();
                let f = format!("{}/q{}_{}.smt2", d, self.stats.z3_queries, if res == 1 { "sat" } else { "unsat" });
                let _ = std::fs::write(f, format!("(set-logic QF_BV)\n{}\n(check-sat)\n", s));
            }
        }
        match res {
            1 => {
                self.stats.z3_sat += 1;
                let mut vals = vec![];
                unsafe {
                    let m = Z3_solver_get_model(self.ctx, used);
                    Z3_model_inc_ref(self.ctx, m);
                    for v in vars {
                        let x = self.tr(&var(*v)).0;
                        let mut o: A = std::ptr::null_mut();
                        let mut n = 0u64;
                        if !Z3_model_eval(self.ctx, m, x, true, &mut o) || !Z3_get_numeral_uint64(self.ctx, o, &mut n) {
                            return Err(Unknown);
                        }
                        vals.push((*v, n as u8));
                    }
                    Z3_model_dec_ref(self.ctx, m);
                }
                // sanity: the model must satisfy the constraints in our own semantics
                let map: HashMap<u32, u8> = vals.iter().copied().collect();
                let g = new_gen();
                if !cons.iter().all(|c| eval(c, &|v| map.get(&v).copied().unwrap_or(0), g) == 1) {
                    eprintln!("symx: Z3 model does not satisfy the query (encoding error)");
                    std::process::exit(3);
                }
                Ok(Some(vals))
            }
            -1 => {
                self.stats.z3_unsat += 1;
                Ok(None)
            }
            _ => Err(Unknown),
        }
    }
}

impl Solver {
    /// values of a byte variable allowed by the unary constraints of pc
    /// number of assignments the byte domains leave for the variables of `e` (anything above `cap` is cap + 1)
    pub fn dom_product(&self, pc: &Pc, e: &E, cap: u64) -> u64 {
        let mut r = 1u64;
        for v in e.vars.iter() {
            let n = match pc.dom.get(v) {
                None => return cap + 1,
                Some(d) => d.iter().map(|x| x.count_ones() as u64).sum::<u64>(),
            };
            r *= n;
            if r > cap {
                return cap + 1;
            }
        }
        r
    }
    pub fn dom_values(&self, pc: &Pc, v: u32) -> Vec<u8> {
        match pc.dom.get(&v) {
            None => (0..=255).collect(),
            Some(d) => (0..=255u8).filter(|b| d[*b as usize / 64] >> (*b % 64) & 1 == 1).collect(),
        }
    }
}
