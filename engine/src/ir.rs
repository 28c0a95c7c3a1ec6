//! Parser for the textual LLVM IR rustc emits (whole-program, fat LTO).
use crate::expr::{cst, mask, E};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone)]
pub enum V {
    C(u64, u16),
    S(E),
    A(Rc<Vec<V>>),
}
impl V {
    pub fn c(w: u32, v: u128) -> V {
        if w <= 64 {
            V::C((v & mask(w)) as u64, w as u16)
        } else {
            V::S(cst(w, v))
        }
    }
    pub fn ptr(a: u64) -> V {
        V::C(a, 64)
    }
}

pub type Ty = u32;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum TyK {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Arr(u64, Ty),
    Struct(Vec<Ty>, bool),
    Vec(u32, Ty),
    Other(String),
}

#[derive(Clone)]
pub enum Op {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cast {
    ZExt,
    SExt,
    Trunc,
    PtrToInt,
    IntToPtr,
    BitCast,
    Fp(u8),
}
pub use crate::expr::B;

#[derive(Clone)]
pub enum Callee {
    F(u32),
    Ind(Op),
    Asm,
}

pub enum Ins {
    Bin(u32, B, Ty, Op, Op),
    FCmp(u32, u8, Ty, Op, Op),
    FNeg(u32, Ty, Op),
    FOp(u32, u8, Ty, Op, Op),
    ICmp(u32, Pred, Ty, Op, Op),
    Cast(u32, Cast, Ty, Ty, Op),
    Gep(u32, Op, i64, Vec<(Op, u64)>),
    Load(u32, Ty, Op),
    Store(Ty, Op, Op),
    Alloca(u32, u64, Op),
    Call(Option<u32>, Ty, Callee, Vec<(Ty, Op)>, Option<u32>),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Op, u32, Vec<(u64, u32)>),
    Ret(Option<Op>),
    Unreachable,
    Select(u32, Op, Op, Op),
    ExtractV(u32, Op, Vec<u32>),
    InsertV(u32, Op, Op, Vec<u32>),
    ExtractE(u32, Op, Op),
    InsertE(u32, Op, Op, Op),
    Shuffle(u32, Op, Op, Op),
    Rmw(u32, String, Ty, Op, Op),
    CmpXchg(u32, Ty, Op, Op, Op),
    Freeze(u32, Op),
    Nop,
    LandingPad(u32),
    Resume,
}

pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Op)>)>,
    pub ins: Vec<Ins>,
}
pub struct Body {
    pub nregs: usize,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
}
pub struct Func {
    pub name: String,
    pub range: Option<(usize, usize)>, // text of "define ... }"
    pub body: RefCell<Option<Rc<Body>>>,
}
pub struct Global {
    pub name: String,
    pub size: u64,
    pub constant: bool,
    pub init: Vec<u8>,
    /// in section .init_array: run before main
    pub at_start: bool,
    text: (usize, usize),
}
#[derive(Clone, Copy)]
pub enum Sym {
    F(u32),
    G(u32),
}

pub struct Module {
    pub text: Vec<u8>,
    pub types: RefCell<Vec<TyK>>,
    tymap: RefCell<HashMap<TyK, Ty>>,
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>,
    pub syms: HashMap<String, Sym>,
    named: HashMap<String, (usize, usize)>,
}

pub const SH: u32 = 36;
pub const LOW: u64 = (1 << SH) - 1;
pub const FN_BASE: u64 = 1 << SH;
pub fn fn_addr(i: u32) -> u64 {
    FN_BASE + (i as u64) * 16
}
pub fn glob_addr(i: u32) -> u64 {
    ((i as u64 + 2) << SH) + OBJ_OFF
}
pub const OBJ_OFF: u64 = 0x10000;

pub struct Cur<'a> {
    m: &'a Module,
    s: &'a [u8],
    i: usize,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-')
}

impl<'a> Cur<'a> {
    fn fail(&self, msg: &str) -> ! {
        let e = (self.i + 160).min(self.s.len());
        let b = self.i.saturating_sub(160);
        panic!("IR parse: {msg} near ...{}<<<HERE>>>{}", String::from_utf8_lossy(&self.s[b..self.i]), String::from_utf8_lossy(&self.s[self.i..e]));
    }
    fn ws(&mut self) {
        loop {
            while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() {
                self.i += 1;
            }
            if self.i < self.s.len() && self.s[self.i] == b';' {
                while self.i < self.s.len() && self.s[self.i] != b'\n' {
                    self.i += 1;
                }
            } else {
                return;
            }
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        self.s.get(self.i).copied().unwrap_or(0)
    }
    fn eatc(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: u8) {
        if !self.eatc(c) {
            self.fail(&format!("expected '{}'", c as char));
        }
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let b = self.i;
        while self.i < self.s.len() && is_id(self.s[self.i]) {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[b..self.i]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str {
        let i = {
            self.ws();
            self.i
        };
        let w = self.word();
        self.i = i;
        w
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.peek_word() == w {
            self.ws();
            self.i += w.len();
            true
        } else {
            false
        }
    }
    fn name(&mut self) -> String {
        // after % or @
        if self.s[self.i] == b'"' {
            let b = self.i + 1;
            let mut j = b;
            while self.s[j] != b'"' {
                j += 1;
            }
            self.i = j + 1;
            String::from_utf8_lossy(&self.s[b..j]).to_string()
        } else {
            let b = self.i;
            while self.i < self.s.len() && is_id(self.s[self.i]) {
                self.i += 1;
            }
            String::from_utf8_lossy(&self.s[b..self.i]).to_string()
        }
    }
    fn skip_balanced(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.s[self.i] {
                b'(' | b'{' | b'[' => d += 1,
                b')' | b'}' | b']' => d -= 1,
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
            if d == 0 {
                return;
            }
        }
    }
    fn num(&mut self) -> i128 {
        let w = self.word();
        w.parse::<i128>().unwrap_or_else(|_| w.parse::<u128>().map(|x| x as i128).unwrap_or_else(|_| self.fail("number")))
    }

    fn is_type_start(&mut self) -> bool {
        match self.peek() {
            b'[' | b'{' | b'<' | b'%' => true,
            b'i' => {
                let w = self.peek_word();
                w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit())
            }
            _ => matches!(self.peek_word(), "ptr" | "void" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "metadata" | "label" | "token" | "bfloat"),
        }
    }
    fn ty(&mut self) -> Ty {
        let m = self.m;
        match self.peek() {
            b'[' => {
                self.i += 1;
                let n = self.num() as u64;
                if !self.eatw("x") {
                    self.fail("x")
                }
                let t = self.ty();
                self.exp(b']');
                m.mkty(TyK::Arr(n, t))
            }
            b'{' => {
                self.i += 1;
                let v = self.tylist(b'}');
                m.mkty(TyK::Struct(v, false))
            }
            b'<' => {
                self.i += 1;
                if self.eatc(b'{') {
                    let v = self.tylist(b'}');
                    self.exp(b'>');
                    m.mkty(TyK::Struct(v, true))
                } else {
                    let n = self.num() as u32;
                    if !self.eatw("x") {
                        self.fail("x")
                    }
                    let t = self.ty();
                    self.exp(b'>');
                    m.mkty(TyK::Vec(n, t))
                }
            }
            b'%' => {
                self.i += 1;
                let n = self.name();
                let r = *m.named.get(&n).unwrap_or_else(|| self.fail("named type"));
                let mut c = Cur { m, s: &m.text[..r.1], i: r.0 };
                c.ty()
            }
            _ => {
                let w = self.word();
                match w {
                    "ptr" => {
                        let save = self.i;
                        if self.peek_word() == "addrspace" {
                            self.word();
                            self.ws();
                            self.skip_balanced();
                        } else {
                            self.i = save;
                        }
                        m.mkty(TyK::Ptr)
                    }
                    "void" => m.mkty(TyK::Void),
                    "float" => m.mkty(TyK::Float),
                    "double" => m.mkty(TyK::Double),
                    _ if w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()) => m.mkty(TyK::Int(w[1..].parse().unwrap())),
                    _ => m.mkty(TyK::Other(w.to_string())),
                }
            }
        }
    }
    fn tylist(&mut self, end: u8) -> Vec<Ty> {
        let mut v = vec![];
        if self.eatc(end) {
            return v;
        }
        loop {
            v.push(self.ty());
            if self.eatc(b',') {
                continue;
            }
            self.exp(end);
            return v;
        }
    }

    fn cstring(&mut self) -> Vec<u8> {
        // at c"
        self.i += 2;
        let mut v = vec![];
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                if self.s[self.i + 1] == b'\\' {
                    v.push(b'\\');
                    self.i += 2;
                } else {
                    let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                    v.push(u8::from_str_radix(h, 16).unwrap());
                    self.i += 3;
                }
            } else {
                v.push(self.s[self.i]);
                self.i += 1;
            }
        }
        self.i += 1;
        v
    }

    /// constant (non-register) value of type t
    fn konst(&mut self, t: Ty) -> V {
        let m = self.m;
        let k = m.tyk(t);
        match self.peek() {
            b'@' => {
                self.i += 1;
                let n = self.name();
                V::ptr(m.sym_addr(&n).unwrap_or_else(|| self.fail(&format!("unknown symbol {n}"))))
            }
            b'c' if self.s.get(self.i + 1) == Some(&b'"') => {
                let b = self.cstring();
                V::A(Rc::new(b.into_iter().map(|x| V::C(x as u64, 8)).collect()))
            }
            b'{' | b'[' => {
                self.i += 1;
                let v = self.elems();
                V::A(Rc::new(v))
            }
            b'<' => {
                self.i += 1;
                if self.eatc(b'{') {
                    let v = self.elems();
                    self.exp(b'>');
                    V::A(Rc::new(v))
                } else {
                    let v = self.elems();
                    V::A(Rc::new(v))
                }
            }
            _ => {
                let w = self.word();
                match w {
                    "null" | "zeroinitializer" | "undef" | "poison" | "none" => m.zero(t),
                    "true" => V::C(1, 1),
                    "false" => V::C(0, 1),
                    "splat" => {
                        self.exp(b'(');
                        let et = self.ty();
                        let e = self.konst(et);
                        self.exp(b')');
                        match k {
                            TyK::Vec(n, _) => V::A(Rc::new(vec![e; n as usize])),
                            TyK::Arr(n, _) => V::A(Rc::new(vec![e; n as usize])),
                            _ => self.fail("splat"),
                        }
                    }
                    "getelementptr" => {
                        while !matches!(self.peek(), b'(') {
                            self.word();
                        }
                        self.exp(b'(');
                        let st = self.ty();
                        self.exp(b',');
                        let pt = self.ty();
                        let base = self.konst(pt);
                        let V::C(mut a, _) = base else { self.fail("gep const") };
                        let mut idx = vec![];
                        while self.eatc(b',') {
                            while !self.is_type_start() {
                                let w = self.word();
                                if w == "inrange" {
                                    self.ws();
                                    self.skip_balanced();
                                }
                            }
                            let it = self.ty();
                            idx.push(self.konst(it));
                        }
                        self.exp(b')');
                        let mut cur = st;
                        for (n, i) in idx.iter().enumerate() {
                            let V::C(iv, w) = i else { self.fail("gep idx") };
                            let iv = crate::expr::sext(*iv as u128, *w as u32) as i64;
                            if n == 0 {
                                a = a.wrapping_add((iv.wrapping_mul(m.size(cur) as i64)) as u64);
                            } else {
                                let (o, nt) = m.gep_step(cur, iv);
                                a = a.wrapping_add(o as u64);
                                cur = nt;
                            }
                        }
                        V::ptr(a)
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "addrspacecast" => {
                        while self.peek() != b'(' {
                            self.word();
                        }
                        self.exp(b'(');
                        let ft = self.ty();
                        let v = self.konst(ft);
                        if !self.eatw("to") {
                            self.fail("to")
                        }
                        let tt = self.ty();
                        self.exp(b')');
                        match v {
                            V::C(x, _) => V::c(m.bits(tt), x as u128),
                            o => o,
                        }
                    }
                    "sub" | "add" | "xor" | "and" | "or" | "mul" | "shl" | "lshr" => {
                        while self.peek() != b'(' {
                            self.word();
                        }
                        self.exp(b'(');
                        let t1 = self.ty();
                        let a = self.konst(t1);
                        self.exp(b',');
                        let t2 = self.ty();
                        let b = self.konst(t2);
                        self.exp(b')');
                        let (V::C(a, wd), V::C(b, _)) = (a, b) else { self.fail("constexpr") };
                        let op = match w {
                            "sub" => B::Sub,
                            "add" => B::Add,
                            "xor" => B::Xor,
                            "and" => B::And,
                            "or" => B::Or,
                            "mul" => B::Mul,
                            "shl" => B::Shl,
                            _ => B::LShr,
                        };
                        V::c(wd as u32, crate::expr::binop_c(op, wd as u32, a as u128, b as u128))
                    }
                    _ => match k {
                        TyK::Int(n) => {
                            if let Ok(x) = w.parse::<i128>() {
                                V::c(n, x as u128)
                            } else if let Ok(x) = w.parse::<u128>() {
                                V::c(n, x)
                            } else {
                                self.fail("int const")
                            }
                        }
                        TyK::Float | TyK::Double => {
                            // 0x... hex of double, or decimal
                            let bits = if let Some(h) = w.strip_prefix("0x") {
                                f64::from_bits(u64::from_str_radix(h, 16).unwrap_or_else(|_| self.fail("fp")))
                            } else {
                                // decimal like 1.000000e+00 : '+' not in word
                                let mut s = w.to_string();
                                if self.s[self.i] == b'+' {
                                    self.i += 1;
                                    s.push_str(self.word());
                                }
                                s.parse().unwrap_or(0.0)
                            };
                            if k == TyK::Float {
                                V::C((bits as f32).to_bits() as u64, 32)
                            } else {
                                V::C(bits.to_bits(), 64)
                            }
                        }
                        _ => self.fail(&format!("const {w}")),
                    },
                }
            }
        }
    }
    fn elems(&mut self) -> Vec<V> {
        let mut v = vec![];
        if matches!(self.peek(), b']' | b'}' | b'>') {
            self.i += 1;
            return v;
        }
        loop {
            let t = self.ty();
            v.push(self.konst(t));
            if self.eatc(b',') {
                continue;
            }
            if matches!(self.peek(), b']' | b'}' | b'>') {
                self.i += 1;
                return v;
            }
            self.fail("aggregate");
        }
    }
}

impl Module {
    pub fn mkty(&self, k: TyK) -> Ty {
        if let Some(t) = self.tymap.borrow().get(&k) {
            return *t;
        }
        let mut v = self.types.borrow_mut();
        v.push(k.clone());
        let id = (v.len() - 1) as Ty;
        self.tymap.borrow_mut().insert(k, id);
        id
    }
    pub fn tyk(&self, t: Ty) -> TyK {
        self.types.borrow()[t as usize].clone()
    }
    pub fn bits(&self, t: Ty) -> u32 {
        match &self.types.borrow()[t as usize] {
            TyK::Int(n) => *n,
            TyK::Ptr => 64,
            TyK::Float => 32,
            TyK::Double => 64,
            k => panic!("bits of {k:?}"),
        }
    }
    pub fn align(&self, t: Ty) -> u64 {
        match self.tyk(t) {
            TyK::Int(n) => ((n as u64).div_ceil(8)).next_power_of_two().min(16),
            TyK::Ptr | TyK::Double => 8,
            TyK::Float => 4,
            TyK::Arr(_, e) => self.align(e),
            TyK::Struct(v, p) => {
                if p {
                    1
                } else {
                    v.iter().map(|t| self.align(*t)).max().unwrap_or(1)
                }
            }
            TyK::Vec(..) => self.size(t).next_power_of_two(),
            k => panic!("align {k:?}"),
        }
    }
    pub fn size(&self, t: Ty) -> u64 {
        match self.tyk(t) {
            TyK::Void => 0,
            TyK::Int(n) => {
                let s = (n as u64).div_ceil(8);
                let a = s.next_power_of_two().min(16);
                s.div_ceil(a) * a
            }
            TyK::Ptr | TyK::Double => 8,
            TyK::Float => 4,
            TyK::Arr(n, e) => n * self.size(e),
            TyK::Struct(v, _) => {
                let (_, s) = self.layout(t, &v);
                s
            }
            TyK::Vec(n, e) => {
                let b = n as u64 * self.bits(e) as u64;
                b.div_ceil(8)
            }
            k => panic!("size {k:?}"),
        }
    }
    pub fn layout(&self, t: Ty, v: &[Ty]) -> (Vec<u64>, u64) {
        let packed = matches!(self.tyk(t), TyK::Struct(_, true));
        let mut o = 0;
        let mut offs = vec![];
        for f in v {
            if !packed {
                let a = self.align(*f);
                o = (o + a - 1) / a * a;
            }
            offs.push(o);
            o += self.size(*f);
        }
        if !packed {
            let a = self.align(t);
            o = (o + a - 1) / a * a;
        }
        (offs, o)
    }
    pub fn gep_step(&self, cur: Ty, i: i64) -> (i64, Ty) {
        match self.tyk(cur) {
            TyK::Arr(_, e) | TyK::Vec(_, e) => (i * self.size(e) as i64, e),
            TyK::Struct(v, _) => {
                let (o, _) = self.layout(cur, &v);
                (o[i as usize] as i64, v[i as usize])
            }
            k => panic!("gep into {k:?}"),
        }
    }
    pub fn zero(&self, t: Ty) -> V {
        match self.tyk(t) {
            TyK::Arr(n, e) => V::A(Rc::new(vec![self.zero(e); n as usize])),
            TyK::Vec(n, e) => V::A(Rc::new(vec![self.zero(e); n as usize])),
            TyK::Struct(v, _) => V::A(Rc::new(v.iter().map(|t| self.zero(*t)).collect())),
            TyK::Other(_) | TyK::Void => V::C(0, 64),
            _ => V::c(self.bits(t), 0),
        }
    }
    pub fn sym_addr(&self, n: &str) -> Option<u64> {
        match self.syms.get(n)? {
            Sym::F(i) => Some(fn_addr(*i)),
            Sym::G(i) => Some(glob_addr(*i)),
        }
    }
    fn put(&self, t: Ty, v: &V, out: &mut [u8]) {
        match self.tyk(t) {
            TyK::Arr(_, e) | TyK::Vec(_, e) => {
                let s = self.size(e) as usize;
                if let V::A(a) = v {
                    for (i, x) in a.iter().enumerate() {
                        self.put(e, x, &mut out[i * s..]);
                    }
                }
            }
            TyK::Struct(f, _) => {
                let (o, _) = self.layout(t, &f);
                if let V::A(a) = v {
                    for (i, x) in a.iter().enumerate() {
                        self.put(f[i], x, &mut out[o[i] as usize..]);
                    }
                }
            }
            _ => {
                let n = self.size(t) as usize;
                let x = match v {
                    V::C(x, _) => *x as u128,
                    V::S(e) => crate::expr::as_c(e).unwrap(),
                    _ => panic!("put"),
                };
                out[..n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
        }
    }

    pub fn load(path: &str) -> Module {
        let text = std::fs::read(path).expect("read ll");
        let mut m = Module {
            text,
            types: RefCell::new(vec![]),
            tymap: RefCell::new(HashMap::new()),
            funcs: vec![],
            globals: vec![],
            syms: HashMap::new(),
            named: HashMap::new(),
        };
        // index
        let mut i = 0;
        let mut aliases: Vec<(String, usize, usize)> = vec![];
        let t = std::mem::take(&mut m.text);
        while i < t.len() {
            let e = t[i..].iter().position(|c| *c == b'\n').map(|p| i + p).unwrap_or(t.len());
            match t[i] {
                b'@' => {
                    let (name, j) = rdname(&t, i + 1);
                    // '@name = ... '
                    let line = &t[j..e];
                    let ls = String::from_utf8_lossy(&line[..line.len().min(200)]).to_string();
                    if ls.split('"').next().unwrap_or("").contains(" alias ") {
                        aliases.push((name, j, e));
                    } else {
                        let id = m.globals.len() as u32;
                        m.syms.insert(name.clone(), Sym::G(id));
                        let at_start = line.windows(22).any(|w| w == b"section \".init_array.0" || w == b"section \".init_array\",");
                        m.globals.push(Global { name, size: 0, constant: false, init: vec![], at_start, text: (j, e) });
                    }
                }
                b'd' if t[i..].starts_with(b"define ") || t[i..].starts_with(b"declare ") => {
                    let isdef = t[i..].starts_with(b"define ");
                    let p = t[i..e].iter().position(|c| *c == b'@').unwrap() + i;
                    let (name, _) = rdname(&t, p + 1);
                    let id = m.funcs.len() as u32;
                    m.syms.insert(name.clone(), Sym::F(id));
                    let mut range = None;
                    let mut ne = e;
                    if isdef {
                        let q = find(&t, e, b"\n}\n").expect("fn end");
                        range = Some((i, q + 2));
                        ne = q + 2;
                    }
                    m.funcs.push(Func { name, range, body: RefCell::new(None) });
                    i = ne + 1;
                    continue;
                }
                b'%' => {
                    let (name, j) = rdname(&t, i + 1);
                    if let Some(p) = find(&t[..e], j, b"type ") {
                        m.named.insert(name, (p + 5, e));
                    }
                }
                _ => {}
            }
            i = e + 1;
        }
        m.text = t;
        for (name, j, e) in aliases {
            let s = String::from_utf8_lossy(&m.text[j..e]).to_string();
            let p = s.rfind('@').unwrap();
            let (tn, _) = rdname(s.as_bytes(), p + 1);
            if let Some(x) = m.syms.get(&tn).copied() {
                m.syms.insert(name, x);
            }
        }
        // globals
        for g in 0..m.globals.len() {
            let (b, e) = m.globals[g].text;
            let (size, constant, init) = {
                let mut c = Cur { m: &m, s: &m.text[..e], i: b };
                c.exp(b'=');
                let mut constant = false;
                let mut external = false;
                loop {
                    let w = c.word();
                    match w {
                        "constant" => {
                            constant = true;
                            break;
                        }
                        "global" => break,
                        "external" | "extern_weak" => external = true,
                        "" => c.fail("global"),
                        _ => {
                            if c.peek() == b'(' {
                                c.skip_balanced();
                            }
                        }
                    }
                }
                let ty = c.ty();
                let size = if matches!(m.tyk(ty), TyK::Other(_)) { 0 } else { m.size(ty) };
                let mut init = vec![0u8; size as usize];
                if !external && size > 0 {
                    let v = c.konst(ty);
                    m.put(ty, &v, &mut init);
                }
                (size, constant, init)
            };
            let gl = &mut m.globals[g];
            gl.size = size;
            gl.constant = constant;
            gl.init = init;
        }
        m
    }

    pub fn body(&self, f: u32) -> Option<Rc<Body>> {
        let fun = &self.funcs[f as usize];
        if let Some(b) = &*fun.body.borrow() {
            return Some(b.clone());
        }
        let (b, e) = fun.range?;
        let body = Rc::new(parse_body(self, b, e));
        *fun.body.borrow_mut() = Some(body.clone());
        Some(body)
    }
}

fn find(t: &[u8], from: usize, pat: &[u8]) -> Option<usize> {
    t[from..].windows(pat.len()).position(|w| w == pat).map(|p| p + from)
}
fn rdname(t: &[u8], i: usize) -> (String, usize) {
    if t[i] == b'"' {
        let mut j = i + 1;
        while t[j] != b'"' {
            j += 1;
        }
        (String::from_utf8_lossy(&t[i + 1..j]).to_string(), j + 1)
    } else {
        let mut j = i;
        while j < t.len() && is_id(t[j]) {
            j += 1;
        }
        (String::from_utf8_lossy(&t[i..j]).to_string(), j)
    }
}

struct FP<'a> {
    c: Cur<'a>,
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}
impl<'a> FP<'a> {
    fn reg(&mut self, n: String) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(l)
    }
    fn lab(&mut self, n: String) -> u32 {
        let l = self.labels.len() as u32;
        *self.labels.entry(n).or_insert(l)
    }
    fn op(&mut self, t: Ty) -> Op {
        if self.c.peek() == b'%' {
            self.c.i += 1;
            let n = self.c.name();
            Op::R(self.reg(n))
        } else {
            Op::K(self.c.konst(t))
        }
    }
    fn tyop(&mut self) -> (Ty, Op) {
        let t = self.c.ty();
        let o = self.op(t);
        (t, o)
    }
    fn label(&mut self) -> u32 {
        if !self.c.eatw("label") {
            self.c.fail("label")
        }
        self.c.exp(b'%');
        let n = self.c.name();
        self.lab(n)
    }
    fn skip_attrs_to_type(&mut self) {
        while !self.c.is_type_start() {
            if self.c.peek() == b'"' {
                self.c.i += 1;
                while self.c.s[self.c.i] != b'"' {
                    self.c.i += 1;
                }
                self.c.i += 1;
                if self.c.eatc(b'=') {
                    continue;
                }
                continue;
            }
            let w = self.c.word();
            if w.is_empty() {
                self.c.fail("attr")
            }
            if self.c.peek() == b'(' {
                self.c.skip_balanced();
            } else if w == "align" || w == "cc" || w == "addrspace" {
                self.c.word();
            }
        }
    }
    /// skip attributes between param type and value
    fn skip_param_attrs(&mut self) {
        loop {
            match self.c.peek() {
                b'%' | b'@' | b'{' | b'[' | b'<' | b',' | b')' => return,
                b'-' => return,
                b'!' => return,
                b'"' => {
                    self.c.i += 1;
                    while self.c.s[self.c.i] != b'"' {
                        self.c.i += 1;
                    }
                    self.c.i += 1;
                    self.c.eatc(b'=');
                    continue;
                }
                c if c.is_ascii_digit() => return,
                b'c' if self.c.s[self.c.i + 1] == b'"' => return,
                _ => {}
            }
            let w = self.c.peek_word();
            if matches!(
                w,
                "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "splat" | "sub" | "add" | "xor" | "none" | "trunc" | "zext" | "bitcast" | "and" | "or" | "mul" | "shl" | "lshr"
            ) {
                return;
            }
            if w.is_empty() {
                self.c.fail("param attr")
            }
            self.c.word();
            if self.c.peek() == b'(' {
                self.c.skip_balanced();
            } else if w == "align" {
                self.c.word();
            }
        }
    }
    fn call_args(&mut self) -> Vec<(Ty, Op)> {
        self.c.exp(b'(');
        let mut v = vec![];
        if self.c.eatc(b')') {
            return v;
        }
        loop {
            let t = self.c.ty();
            if let TyK::Other(o) = self.c.m.tyk(t) {
                if o == "metadata" {
                    // skip to , or ) at depth 0
                    let mut d = 0;
                    loop {
                        match self.c.s[self.c.i] {
                            b'(' | b'{' => d += 1,
                            b')' | b'}' if d > 0 => d -= 1,
                            b')' | b',' if d == 0 => break,
                            _ => {}
                        }
                        self.c.i += 1;
                    }
                    v.push((t, Op::K(V::C(0, 64))));
                    if self.c.eatc(b',') {
                        continue;
                    }
                    self.c.exp(b')');
                    return v;
                }
            }
            self.skip_param_attrs();
            let o = self.op(t);
            v.push((t, o));
            if self.c.eatc(b',') {
                continue;
            }
            self.c.exp(b')');
            return v;
        }
    }
    fn flags(&mut self) {
        loop {
            let w = self.c.peek_word();
            if matches!(
                w,
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "inbounds" | "nusw" | "samesign" | "volatile" | "atomic" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "weak" | "inalloca"
            ) {
                self.c.word();
            } else if w == "inrange" {
                self.c.word();
                self.c.ws();
                self.c.skip_balanced();
            } else {
                return;
            }
        }
    }
    fn trailing(&mut self) {
        // ", align N", ", !md !n", "syncscope(..) ordering" etc until newline
        let s = self.c.s;
        while self.c.i < s.len() && s[self.c.i] != b'\n' {
            self.c.i += 1;
        }
    }
}

fn parse_body(m: &Module, b: usize, e: usize) -> Body {
    let mut f = FP { c: Cur { m, s: &m.text[..e], i: b }, regs: HashMap::new(), labels: HashMap::new() };
    f.c.word(); // define
    let _ret = {
        f.skip_attrs_to_type();
        f.c.ty()
    };
    f.c.exp(b'@');
    f.c.name();
    f.c.exp(b'(');
    let mut params = vec![];
    if !f.c.eatc(b')') {
        loop {
            if f.c.peek() == b'.' {
                f.c.i += 3;
            } else {
                let _t = f.c.ty();
                f.skip_param_attrs();
                if f.c.peek() == b'%' {
                    f.c.i += 1;
                    let n = f.c.name();
                    let r = f.reg(n);
                    params.push(r);
                } else {
                    // unnamed parameter: numbered
                    let n = params.len().to_string();
                    let r = f.reg(n);
                    params.push(r);
                }
            }
            if f.c.eatc(b',') {
                continue;
            }
            f.c.exp(b')');
            break;
        }
    }
    // skip to '{' at end of line
    while f.c.s[f.c.i] != b'\n' {
        f.c.i += 1;
    }
    let mut blocks: Vec<Block> = vec![];
    let mut order: Vec<u32> = vec![];
    let mut cur: Option<(u32, Block)> = None;
    let mut done: HashMap<u32, Block> = HashMap::new();
    loop {
        f.c.ws();
        if f.c.i >= e || f.c.s[f.c.i] == b'}' {
            break;
        }
        // label?
        let ls = f.c.i;
        let le = f.c.s[ls..].iter().position(|c| *c == b'\n').map(|p| p + ls).unwrap_or(e);
        let at_col0 = ls == 0 || f.c.s[ls - 1] == b'\n';
        if at_col0 {
            let (n, j) = rdname(f.c.s, ls);
            if f.c.s[j] != b':' {
                f.c.fail("label def")
            }
            if let Some((id, b)) = cur.take() {
                done.insert(id, b);
            }
            let id = f.lab(n);
            order.push(id);
            cur = Some((id, Block { phis: vec![], ins: vec![] }));
            f.c.i = le;
            continue;
        }
        if cur.is_none() {
            // unnamed entry: implicit label is next number; rustc names entry "start"
            let n = params.len().to_string();
            let id = f.lab(n);
            order.push(id);
            cur = Some((id, Block { phis: vec![], ins: vec![] }));
        }
        if f.c.s[f.c.i] == b'#' {
            // debug record
            f.c.i = le;
            continue;
        }
        let mut dst = None;
        if f.c.s[f.c.i] == b'%' {
            f.c.i += 1;
            let n = f.c.name();
            dst = Some(f.reg(n));
            f.c.exp(b'=');
        }
        let mut op = f.c.word();
        while matches!(op, "tail" | "musttail" | "notail") {
            op = f.c.word();
        }
        let d = dst.unwrap_or(0);
        let blk = |x: Ins, cur: &mut Option<(u32, Block)>| cur.as_mut().unwrap().1.ins.push(x);
        match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                f.flags();
                let t = f.c.ty();
                let a = f.op(t);
                f.c.exp(b',');
                let b2 = f.op(t);
                let o = match op {
                    "add" => B::Add,
                    "sub" => B::Sub,
                    "mul" => B::Mul,
                    "udiv" => B::UDiv,
                    "sdiv" => B::SDiv,
                    "urem" => B::URem,
                    "srem" => B::SRem,
                    "and" => B::And,
                    "or" => B::Or,
                    "xor" => B::Xor,
                    "shl" => B::Shl,
                    "lshr" => B::LShr,
                    _ => B::AShr,
                };
                blk(Ins::Bin(d, o, t, a, b2), &mut cur);
                f.trailing();
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                f.flags();
                let t = f.c.ty();
                let a = f.op(t);
                f.c.exp(b',');
                let b2 = f.op(t);
                blk(Ins::FOp(d, op.as_bytes()[1], t, a, b2), &mut cur);
                f.trailing();
            }
            "fneg" => {
                f.flags();
                let (t, a) = f.tyop();
                blk(Ins::FNeg(d, t, a), &mut cur);
                f.trailing();
            }
            "fcmp" => {
                f.flags();
                const PREDS: [&str; 16] = ["false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "uno", "ueq", "ugt", "uge", "ult", "ule", "une", "true"];
                let w = f.c.word();
                let k = PREDS.iter().position(|x| *x == w).unwrap_or_else(|| f.c.fail("pred")) as u8;
                let t = f.c.ty();
                let a = f.op(t);
                f.c.exp(b',');
                let b2 = f.op(t);
                blk(Ins::FCmp(d, k, t, a, b2), &mut cur);
                f.trailing();
            }
            "icmp" => {
                f.flags();
                let p = match f.c.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => f.c.fail("pred"),
                };
                let t = f.c.ty();
                let a = f.op(t);
                f.c.exp(b',');
                let b2 = f.op(t);
                blk(Ins::ICmp(d, p, t, a, b2), &mut cur);
                f.trailing();
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "addrspacecast" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" => {
                f.flags();
                let (ft, a) = f.tyop();
                if !f.c.eatw("to") {
                    f.c.fail("to")
                }
                let t = f.c.ty();
                let k = match op {
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "trunc" => Cast::Trunc,
                    "ptrtoint" | "ptrtoaddr" => Cast::PtrToInt,
                    "inttoptr" => Cast::IntToPtr,
                    "bitcast" | "addrspacecast" => Cast::BitCast,
                    "fptoui" => Cast::Fp(0),
                    "fptosi" => Cast::Fp(1),
                    "uitofp" => Cast::Fp(2),
                    "sitofp" => Cast::Fp(3),
                    _ => Cast::Fp(4),
                };
                blk(Ins::Cast(d, k, ft, t, a), &mut cur);
                f.trailing();
            }
            "getelementptr" => {
                f.flags();
                let st = f.c.ty();
                f.c.exp(b',');
                let (_, base) = f.tyop();
                let mut off: i64 = 0;
                let mut dynv = vec![];
                let mut curt = st;
                let mut first = true;
                loop {
                    // next ", ty idx" unless metadata
                    let save = f.c.i;
                    if f.c.i >= f.c.s.len() || f.c.s[f.c.i] == b'\n' || !f.c.eatc(b',') {
                        break;
                    }
                    if f.c.peek() == b'!' {
                        f.c.i = save;
                        break;
                    }
                    let (it, idx) = f.tyop();
                    let _ = it;
                    match &idx {
                        Op::K(V::C(v, w)) => {
                            let iv = crate::expr::sext(*v as u128, *w as u32) as i64;
                            if first {
                                off = off.wrapping_add(iv.wrapping_mul(m.size(curt) as i64));
                            } else {
                                let (o, nt) = m.gep_step(curt, iv);
                                off = off.wrapping_add(o);
                                curt = nt;
                            }
                        }
                        _ => {
                            if first {
                                dynv.push((idx, m.size(curt)));
                            } else {
                                match m.tyk(curt) {
                                    TyK::Arr(_, e2) | TyK::Vec(_, e2) => {
                                        dynv.push((idx, m.size(e2)));
                                        curt = e2;
                                    }
                                    _ => f.c.fail("dyn gep"),
                                }
                            }
                        }
                    }
                    first = false;
                }
                blk(Ins::Gep(d, base, off, dynv), &mut cur);
                f.trailing();
            }
            "load" => {
                f.flags();
                let t = f.c.ty();
                f.c.exp(b',');
                let (_, p) = f.tyop();
                blk(Ins::Load(d, t, p), &mut cur);
                f.trailing();
            }
            "store" => {
                f.flags();
                let (t, v) = f.tyop();
                f.c.exp(b',');
                let (_, p) = f.tyop();
                blk(Ins::Store(t, v, p), &mut cur);
                f.trailing();
            }
            "alloca" => {
                f.flags();
                let t = f.c.ty();
                let mut n = Op::K(V::C(1, 64));
                let save = f.c.i;
                if f.c.s[f.c.i] == b',' {
                    f.c.i += 1;
                    if f.c.is_type_start() {
                        n = f.tyop().1;
                    } else {
                        f.c.i = save;
                    }
                }
                blk(Ins::Alloca(d, m.size(t), n), &mut cur);
                f.trailing();
            }
            "call" | "invoke" => {
                f.flags();
                f.skip_attrs_to_type();
                let rt = f.c.ty();
                if f.c.peek() == b'(' {
                    f.c.skip_balanced();
                }
                let callee = match f.c.peek() {
                    b'@' => {
                        f.c.i += 1;
                        let n = f.c.name();
                        match m.syms.get(&n) {
                            Some(Sym::F(i)) => Callee::F(*i),
                            _ => f.c.fail("callee"),
                        }
                    }
                    b'%' => {
                        f.c.i += 1;
                        let n = f.c.name();
                        Callee::Ind(Op::R(f.reg(n)))
                    }
                    _ => {
                        if f.c.eatw("asm") {
                            while f.c.peek() != b'(' {
                                if f.c.peek() == b'"' {
                                    f.c.i += 1;
                                    while f.c.s[f.c.i] != b'"' {
                                        f.c.i += 1;
                                    }
                                    f.c.i += 1;
                                } else if f.c.peek() == b',' {
                                    f.c.i += 1;
                                } else {
                                    f.c.word();
                                }
                            }
                            Callee::Asm
                        } else {
                            let pt = m.mkty(TyK::Ptr);
                            Callee::Ind(Op::K(f.c.konst(pt)))
                        }
                    }
                };
                let args = f.call_args();
                let mut normal = None;
                if op == "invoke" {
                    while !f.c.eatw("to") {
                        // attrs / bundles
                        match f.c.peek() {
                            b'#' | b'[' | b']' | b',' => f.c.i += 1,
                            b'(' => f.c.skip_balanced(),
                            b'"' => {
                                f.c.i += 1;
                                while f.c.s[f.c.i] != b'"' {
                                    f.c.i += 1;
                                }
                                f.c.i += 1;
                            }
                            _ => {
                                if f.c.word().is_empty() {
                                    f.c.fail("invoke attrs")
                                }
                            }
                        }
                    }
                    normal = Some(f.label());
                    if !f.c.eatw("unwind") {
                        f.c.fail("unwind")
                    }
                    f.label();
                }
                blk(Ins::Call(dst, rt, callee, args, normal), &mut cur);
                f.trailing();
            }
            "br" => {
                if f.c.peek_word() == "label" {
                    let l = f.label();
                    blk(Ins::Br(l), &mut cur);
                } else {
                    let (_, c2) = f.tyop();
                    f.c.exp(b',');
                    let a = f.label();
                    f.c.exp(b',');
                    let b2 = f.label();
                    blk(Ins::CondBr(c2, a, b2), &mut cur);
                }
                f.trailing();
            }
            "switch" => {
                let (_, v) = f.tyop();
                f.c.exp(b',');
                let dflt = f.label();
                f.c.exp(b'[');
                let mut cases = vec![];
                while !f.c.eatc(b']') {
                    let t = f.c.ty();
                    let V::C(k, _) = f.c.konst(t) else { f.c.fail("switch const") };
                    f.c.exp(b',');
                    let l = f.label();
                    cases.push((k, l));
                }
                blk(Ins::Switch(v, dflt, cases), &mut cur);
                f.trailing();
            }
            "ret" => {
                let t = f.c.ty();
                let r = if matches!(m.tyk(t), TyK::Void) { None } else { Some(f.op(t)) };
                blk(Ins::Ret(r), &mut cur);
                f.trailing();
            }
            "unreachable" => {
                blk(Ins::Unreachable, &mut cur);
                f.trailing();
            }
            "phi" => {
                f.flags();
                let t = f.c.ty();
                let mut inc = vec![];
                loop {
                    f.c.exp(b'[');
                    let v = f.op(t);
                    f.c.exp(b',');
                    f.c.exp(b'%');
                    let n = f.c.name();
                    let l = f.lab(n);
                    f.c.exp(b']');
                    inc.push((l, v));
                    if f.c.s[f.c.i] == b',' && f.c.s[f.c.i + 1] == b' ' && f.c.s[f.c.i + 2] == b'[' {
                        f.c.i += 1;
                        continue;
                    }
                    break;
                }
                cur.as_mut().unwrap().1.phis.push((d, inc));
                f.trailing();
            }
            "select" => {
                f.flags();
                let (_, c2) = f.tyop();
                f.c.exp(b',');
                let (_, a) = f.tyop();
                f.c.exp(b',');
                let (_, b2) = f.tyop();
                blk(Ins::Select(d, c2, a, b2), &mut cur);
                f.trailing();
            }
            "extractvalue" => {
                let (_, a) = f.tyop();
                let mut ix = vec![];
                while f.c.s[f.c.i] == b',' {
                    f.c.i += 1;
                    if f.c.peek() == b'!' {
                        break;
                    }
                    ix.push(f.c.num() as u32);
                }
                blk(Ins::ExtractV(d, a, ix), &mut cur);
                f.trailing();
            }
            "insertvalue" => {
                let (_, a) = f.tyop();
                f.c.exp(b',');
                let (_, v) = f.tyop();
                let mut ix = vec![];
                while f.c.s[f.c.i] == b',' {
                    f.c.i += 1;
                    if f.c.peek() == b'!' {
                        break;
                    }
                    ix.push(f.c.num() as u32);
                }
                blk(Ins::InsertV(d, a, v, ix), &mut cur);
                f.trailing();
            }
            "extractelement" => {
                let (_, a) = f.tyop();
                f.c.exp(b',');
                let (_, i2) = f.tyop();
                blk(Ins::ExtractE(d, a, i2), &mut cur);
                f.trailing();
            }
            "insertelement" => {
                let (_, a) = f.tyop();
                f.c.exp(b',');
                let (_, v) = f.tyop();
                f.c.exp(b',');
                let (_, i2) = f.tyop();
                blk(Ins::InsertE(d, a, v, i2), &mut cur);
                f.trailing();
            }
            "shufflevector" => {
                let (_, a) = f.tyop();
                f.c.exp(b',');
                let (_, v) = f.tyop();
                f.c.exp(b',');
                let (_, i2) = f.tyop();
                blk(Ins::Shuffle(d, a, v, i2), &mut cur);
                f.trailing();
            }
            "atomicrmw" => {
                f.flags();
                let o = f.c.word().to_string();
                let (_, p) = f.tyop();
                f.c.exp(b',');
                let (t, v) = f.tyop();
                blk(Ins::Rmw(d, o, t, p, v), &mut cur);
                f.trailing();
            }
            "cmpxchg" => {
                f.flags();
                let (_, p) = f.tyop();
                f.c.exp(b',');
                let (t, a) = f.tyop();
                f.c.exp(b',');
                let (_, b2) = f.tyop();
                blk(Ins::CmpXchg(d, t, p, a, b2), &mut cur);
                f.trailing();
            }
            "fence" => {
                blk(Ins::Nop, &mut cur);
                f.trailing();
            }
            "freeze" => {
                let (_, a) = f.tyop();
                blk(Ins::Freeze(d, a), &mut cur);
                f.trailing();
            }
            "landingpad" => {
                blk(Ins::LandingPad(d), &mut cur);
                f.trailing();
                // clause lines
                loop {
                    let save = f.c.i;
                    let w = {
                        f.c.ws();
                        f.c.peek_word()
                    };
                    if matches!(w, "cleanup" | "catch" | "filter") {
                        f.trailing();
                    } else {
                        f.c.i = save;
                        break;
                    }
                }
            }
            "resume" => {
                blk(Ins::Resume, &mut cur);
                f.trailing();
            }
            _ => f.c.fail(&format!("opcode {op}")),
        }
    }
    if let Some((id, b)) = cur.take() {
        done.insert(id, b);
    }
    // entry must be block 0: remap
    let entry = order[0];
    let n = f.labels.len();
    for i in 0..n as u32 {
        blocks.push(done.remove(&i).unwrap_or(Block { phis: vec![], ins: vec![Ins::Unreachable] }));
    }
    if entry != 0 {
        // prepend a trampoline: swap block 0 and entry and remap labels
        let map = |x: &mut u32| {
            if *x == 0 {
                *x = entry
            } else if *x == entry {
                *x = 0
            }
        };
        blocks.swap(0, entry as usize);
        for b in blocks.iter_mut() {
            for (_, inc) in b.phis.iter_mut() {
                for (l, _) in inc.iter_mut() {
                    map(l);
                }
            }
            for i in b.ins.iter_mut() {
                match i {
                    Ins::Br(l) => map(l),
                    Ins::CondBr(_, a, b) => {
                        map(a);
                        map(b)
                    }
                    Ins::Switch(_, dl, cs) => {
                        map(dl);
                        for (_, l) in cs.iter_mut() {
                            map(l)
                        }
                    }
                    Ins::Call(_, _, _, _, Some(l)) => map(l),
                    _ => {}
                }
            }
        }
    }
    Body { nregs: f.regs.len(), params, blocks }
}
