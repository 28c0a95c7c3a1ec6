//! Hash-consed bit-vector expressions over symbolic input bytes.
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum P {
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}

#[derive(Clone)]
pub enum K {
    Const(u128),
    Var(u32),
    Bin(B, E, E),
    Cmp(P, E, E),
    Ite(E, E, E),
    Extract(E, u32), // low bit; width from node
    ZExt(E),
    SExt(E),
    Concat(E, E), // hi, lo
}

pub struct Node {
    pub id: u32,
    pub w: u32,
    pub k: K,
    pub vars: Rc<Vec<u32>>, // sorted
    pub lo: u128,
    pub hi: u128, // unsigned interval
    memo: Cell<(u32, u128)>,
}
pub type E = Rc<Node>;

#[derive(PartialEq, Eq, Hash, Clone)]
enum Key {
    Const(u32, u128),
    Var(u32),
    Bin(B, u32, u32),
    Cmp(P, u32, u32),
    Ite(u32, u32, u32),
    Extract(u32, u32, u32),
    ZExt(u32, u32),
    SExt(u32, u32),
    Concat(u32, u32),
}

struct Interner {
    map: HashMap<Key, E>,
    next: u32,
    gen: u32,
    empty: Rc<Vec<u32>>,
}

thread_local! {
    static I: RefCell<Interner> = RefCell::new(Interner{map:HashMap::new(),next:1,gen:1,empty:Rc::new(vec![])});
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

fn merge_vars(a: &Rc<Vec<u32>>, b: &Rc<Vec<u32>>) -> Rc<Vec<u32>> {
    if a.is_empty() || Rc::ptr_eq(a, b) {
        return b.clone();
    }
    if b.is_empty() {
        return a.clone();
    }
    if **a == **b {
        return a.clone();
    }
    let mut v = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if a[i] < b[j] {
            v.push(a[i]);
            i += 1
        } else if a[i] > b[j] {
            v.push(b[j]);
            j += 1
        } else {
            v.push(a[i]);
            i += 1;
            j += 1
        }
    }
    v.extend_from_slice(&a[i..]);
    v.extend_from_slice(&b[j..]);
    Rc::new(v)
}

fn intern(key: Key, w: u32, k: K) -> E {
    if let Some(e) = I.with(|i| i.borrow().map.get(&key).cloned()) {
        return e;
    }
    let vars = match &k {
        K::Const(_) => I.with(|i| i.borrow().empty.clone()),
        K::Var(v) => Rc::new(vec![*v]),
        K::Bin(_, a, b) | K::Cmp(_, a, b) | K::Concat(a, b) => merge_vars(&a.vars, &b.vars),
        K::Ite(c, a, b) => merge_vars(&c.vars, &merge_vars(&a.vars, &b.vars)),
        K::Extract(a, _) | K::ZExt(a) | K::SExt(a) => a.vars.clone(),
    };
    let (lo, hi) = interval(&k, w);
    I.with(|i| {
        let mut i = i.borrow_mut();
        let id = i.next;
        i.next += 1;
        let e = Rc::new(Node { id, w, k, vars, lo, hi, memo: Cell::new((0, 0)) });
        i.map.insert(key, e.clone());
        e
    })
}

fn interval(k: &K, w: u32) -> (u128, u128) {
    let m = mask(w);
    match k {
        K::Const(c) => (*c, *c),
        K::Var(_) => (0, m),
        K::Cmp(..) => (0, 1),
        K::Ite(_, a, b) => (a.lo.min(b.lo), a.hi.max(b.hi)),
        K::ZExt(a) => (a.lo, a.hi),
        K::SExt(a) => {
            if a.hi < (1u128 << (a.w - 1)) {
                (a.lo, a.hi)
            } else {
                (0, m)
            }
        }
        K::Extract(a, l) => {
            if *l == 0 && a.hi <= m {
                (a.lo, a.hi)
            } else if a.w - l == w {
                (a.lo >> l, a.hi >> l)
            } else if (a.hi >> l) <= m {
                (a.lo >> l, a.hi >> l)
            } else {
                (0, m)
            }
        }
        K::Concat(h, l) => ((h.lo << l.w) | l.lo, (h.hi << l.w) | l.hi),
        K::Bin(op, a, b) => match op {
            B::Add => match (a.hi.checked_add(b.hi), a.lo.checked_add(b.lo)) {
                (Some(h), Some(l)) if h <= m => (l, h),
                _ => (0, m),
            },
            B::Sub => {
                if a.lo >= b.hi {
                    (a.lo - b.hi, a.hi - b.lo)
                } else {
                    (0, m)
                }
            }
            B::Mul => match a.hi.checked_mul(b.hi) {
                Some(h) if h <= m => (a.lo * b.lo, h),
                _ => (0, m),
            },
            B::UDiv => {
                if b.lo > 0 {
                    (a.lo / b.hi, a.hi / b.lo)
                } else {
                    (0, m)
                }
            }
            B::URem => {
                if b.lo > 0 {
                    (0, (b.hi - 1).min(a.hi))
                } else {
                    (0, m)
                }
            }
            B::And => (0, a.hi.min(b.hi)),
            B::Or => {
                let h = a.hi | b.hi;
                let bits = 128 - h.leading_zeros();
                (a.lo.max(b.lo), mask(bits))
            }
            B::Xor => {
                let h = a.hi | b.hi;
                (0, mask(128 - h.leading_zeros()))
            }
            B::LShr => {
                if b.lo == b.hi && b.lo < 128 {
                    (a.lo >> b.lo, a.hi >> b.lo)
                } else {
                    (0, a.hi)
                }
            }
            B::Shl => {
                if b.lo == b.hi && b.lo < w as u128 && a.hi.leading_zeros() as u128 >= b.lo + (128 - w) as u128 {
                    (a.lo << b.lo, a.hi << b.lo)
                } else {
                    (0, m)
                }
            }
            _ => (0, m),
        },
    }
}

pub fn cst(w: u32, v: u128) -> E {
    let v = v & mask(w);
    intern(Key::Const(w, v), w, K::Const(v))
}
pub fn var(v: u32) -> E {
    intern(Key::Var(v), 8, K::Var(v))
}
pub fn as_c(e: &E) -> Option<u128> {
    if let K::Const(c) = e.k {
        Some(c)
    } else {
        None
    }
}
pub fn tt() -> E {
    cst(1, 1)
}
pub fn ff() -> E {
    cst(1, 0)
}

pub fn binop_c(op: B, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    (match op {
        B::Add => a.wrapping_add(b),
        B::Sub => a.wrapping_sub(b),
        B::Mul => a.wrapping_mul(b),
        B::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        B::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        B::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        B::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        B::And => a & b,
        B::Or => a | b,
        B::Xor => a ^ b,
        B::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        B::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        B::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            (sext(a, w) >> s) as u128
        }
    }) & m
}
pub fn cmp_c(p: P, w: u32, a: u128, b: u128) -> bool {
    match p {
        P::Eq => a == b,
        P::Ult => a < b,
        P::Ule => a <= b,
        P::Slt => sext(a, w) < sext(b, w),
        P::Sle => sext(a, w) <= sext(b, w),
    }
}

pub fn extract(e: &E, lo: u32, w: u32) -> E {
    debug_assert!(lo + w <= e.w);
    if lo == 0 && w == e.w {
        return e.clone();
    }
    match &e.k {
        K::Const(c) => return cst(w, c >> lo),
        K::Extract(a, l) => return extract(a, lo + l, w),
        K::Concat(h, l) => {
            if lo >= l.w {
                return extract(h, lo - l.w, w);
            }
            if lo + w <= l.w {
                return extract(l, lo, w);
            }
            return concat(&extract(h, 0, lo + w - l.w), &extract(l, lo, l.w - lo));
        }
        K::ZExt(a) => {
            if lo >= a.w {
                return cst(w, 0);
            }
            if lo + w <= a.w {
                return extract(a, lo, w);
            }
            return zext(&extract(a, lo, a.w - lo), w);
        }
        K::SExt(a) => {
            if lo + w <= a.w {
                return extract(a, lo, w);
            }
        }
        K::Ite(c, a, b) => {
            if as_c(a).is_some() || as_c(b).is_some() {
                return ite(c, &extract(a, lo, w), &extract(b, lo, w));
            }
        }
        K::Bin(op @ (B::And | B::Or | B::Xor), a, b) => {
            return bin(*op, &extract(a, lo, w), &extract(b, lo, w));
        }
        K::Bin(op @ (B::Add | B::Sub | B::Mul), a, b) if lo == 0 => {
            return bin(*op, &extract(a, 0, w), &extract(b, 0, w));
        }
        _ => {}
    }
    if lo == 0 && e.hi <= mask(w) && e.w > w {
        // value fits; keep plain extract
    }
    if (e.hi >> lo) == 0 {
        return cst(w, 0);
    }
    intern(Key::Extract(e.id, lo, w), w, K::Extract(e.clone(), lo))
}
pub fn zext(e: &E, w: u32) -> E {
    if w == e.w {
        return e.clone();
    }
    match &e.k {
        K::Const(c) => cst(w, *c),
        K::ZExt(a) => zext(a, w),
        K::Ite(c, a, b) if as_c(a).is_some() && as_c(b).is_some() => ite(c, &zext(a, w), &zext(b, w)),
        _ => intern(Key::ZExt(e.id, w), w, K::ZExt(e.clone())),
    }
}
pub fn sext_e(e: &E, w: u32) -> E {
    if w == e.w {
        return e.clone();
    }
    if let K::Const(c) = e.k {
        return cst(w, sext(c, e.w) as u128);
    }
    if e.hi < (1u128 << (e.w - 1)) {
        return zext(e, w);
    }
    if let K::Ite(c, a, b) = &e.k {
        if as_c(a).is_some() && as_c(b).is_some() {
            return ite(c, &sext_e(a, w), &sext_e(b, w));
        }
    }
    intern(Key::SExt(e.id, w), w, K::SExt(e.clone()))
}
pub fn concat(h: &E, l: &E) -> E {
    let w = h.w + l.w;
    match (&h.k, &l.k) {
        (K::Const(a), K::Const(b)) => return cst(w, (a << l.w) | b),
        (K::Const(0), _) => return zext(l, w),
        (K::Extract(a, la), K::Extract(b, lb)) if a.id == b.id && lb + l.w == *la => return extract(a, *lb, w),
        _ => {}
    }
    // (x ++ ext) ++ ext
    if let K::Concat(hh, hl) = &h.k {
        if let (K::Extract(a, la), K::Extract(b, lb)) = (&hl.k, &l.k) {
            if a.id == b.id && lb + l.w == *la {
                return concat(hh, &extract(a, *lb, hl.w + l.w));
            }
        }
        if let (K::Const(_), K::Const(_)) = (&hl.k, &l.k) {
            return concat(hh, &concat(hl, l));
        }
    }
    intern(Key::Concat(h.id, l.id), w, K::Concat(h.clone(), l.clone()))
}

pub fn not1(e: &E) -> E {
    debug_assert_eq!(e.w, 1);
    match &e.k {
        K::Const(c) => cst(1, c ^ 1),
        K::Bin(B::Xor, a, b) if as_c(b) == Some(1) => a.clone(),
        K::Cmp(P::Ult, a, b) => cmp(P::Ule, b, a),
        K::Cmp(P::Ule, a, b) => cmp(P::Ult, b, a),
        K::Cmp(P::Slt, a, b) => cmp(P::Sle, b, a),
        K::Cmp(P::Sle, a, b) => cmp(P::Slt, b, a),
        _ => intern(Key::Bin(B::Xor, e.id, cst(1, 1).id), 1, K::Bin(B::Xor, e.clone(), cst(1, 1))),
    }
}
pub fn and1(a: &E, b: &E) -> E {
    bin(B::And, a, b)
}
pub fn or1(a: &E, b: &E) -> E {
    bin(B::Or, a, b)
}

pub fn ite(c: &E, a: &E, b: &E) -> E {
    match as_c(c) {
        Some(1) => return a.clone(),
        Some(_) => return b.clone(),
        None => {}
    }
    if a.id == b.id {
        return a.clone();
    }
    if a.w == 1 {
        match (as_c(a), as_c(b)) {
            (Some(1), Some(0)) => return c.clone(),
            (Some(0), Some(1)) => return not1(c),
            (Some(1), None) => return or1(c, b),
            (Some(0), None) => return and1(&not1(c), b),
            (None, Some(0)) => return and1(c, a),
            (None, Some(1)) => return or1(&not1(c), a),
            _ => {}
        }
    }
    if let K::Bin(B::Xor, x, y) = &c.k {
        if as_c(y) == Some(1) {
            return ite(x, b, a);
        }
    }
    intern(Key::Ite(c.id, a.id, b.id), a.w, K::Ite(c.clone(), a.clone(), b.clone()))
}

pub fn bin(op: B, a: &E, b: &E) -> E {
    debug_assert_eq!(a.w, b.w, "{:?}", op);
    let w = a.w;
    if let (Some(x), Some(y)) = (as_c(a), as_c(b)) {
        return cst(w, binop_c(op, w, x, y));
    }
    let (mut a, mut b) = (a.clone(), b.clone());
    // commutative: constant right
    if matches!(op, B::Add | B::Mul | B::And | B::Or | B::Xor) && (as_c(&a).is_some() || (as_c(&b).is_none() && a.id > b.id)) {
        std::mem::swap(&mut a, &mut b);
    }
    let m = mask(w);
    if let Some(c) = as_c(&b) {
        match (op, c) {
            (B::Add | B::Sub | B::Or | B::Xor | B::Shl | B::LShr | B::AShr, 0) => return a,
            (B::Mul | B::And, 0) => return cst(w, 0),
            (B::Mul | B::UDiv, 1) => return a,
            (B::URem, 1) => return cst(w, 0),
            (B::And, c) if c == m => return a,
            (B::Or, c) if c == m => return cst(w, m),
            (B::Sub, c) => return bin(B::Add, &a, &cst(w, (c.wrapping_neg()) & m)),
            (B::Add, c) => {
                if let K::Bin(B::Add, x, y) = &a.k {
                    if let Some(d) = as_c(y) {
                        return bin(B::Add, x, &cst(w, c.wrapping_add(d)));
                    }
                }
            }
            (B::And, c) => {
                // low mask
                if c & (c + 1) == 0 {
                    let n = 128 - c.leading_zeros();
                    return zext(&extract(&a, 0, n), w);
                }
                // c = ones << k, contiguous to the top or inside
                let k = c.trailing_zeros();
                let hi = c >> k;
                if hi & (hi + 1) == 0 && k > 0 {
                    let n = 128 - hi.leading_zeros();
                    let mid = extract(&a, k, n);
                    let lowpart = concat(&mid, &cst(k, 0));
                    return zext(&lowpart, w);
                }
                if w == 1 {
                    return a;
                }
            }
            (B::Xor, 1) if w == 1 => return not1(&a),
            (B::Shl, c) => {
                if c >= w as u128 {
                    return cst(w, 0);
                }
                let c = c as u32;
                return concat(&extract(&a, 0, w - c), &cst(c, 0));
            }
            (B::LShr, c) => {
                if c >= w as u128 {
                    return cst(w, 0);
                }
                let c = c as u32;
                return zext(&extract(&a, c, w - c), w);
            }
            (B::AShr, c) => {
                let c = (c as u32).min(w - 1);
                return sext_e(&extract(&a, c, w - c), w);
            }
            (B::UDiv, c) if c.is_power_of_two() => return bin(B::LShr, &a, &cst(w, c.trailing_zeros() as u128)),
            (B::URem, c) if c.is_power_of_two() => return bin(B::And, &a, &cst(w, c - 1)),
            (B::Mul, c) if c.is_power_of_two() => return bin(B::Shl, &a, &cst(w, c.trailing_zeros() as u128)),
            (B::URem, c) if a.hi < c => return a,
            _ => {}
        }
        if let K::Ite(cc, x, y) = &a.k {
            if as_c(x).is_some() && as_c(y).is_some() {
                return ite(cc, &bin(op, x, &b), &bin(op, y, &b));
            }
        }
    }
    if a.id == b.id {
        match op {
            B::And | B::Or => return a,
            B::Xor | B::Sub => return cst(w, 0),
            _ => {}
        }
    }
    if w == 1 {
        // a & !a, a | !a
        let na = matches!(&b.k, K::Bin(B::Xor, x, _) if x.id==a.id) || matches!(&a.k, K::Bin(B::Xor, x, _) if x.id==b.id);
        if na {
            match op {
                B::And => return cst(1, 0),
                B::Or => return cst(1, 1),
                _ => {}
            }
        }
    }
    // or/xor/add of disjoint zext/concat pieces => concat
    if matches!(op, B::Or | B::Xor | B::Add) {
        if let Some(e) = disjoint(&a, &b).or_else(|| disjoint(&b, &a)) {
            return e;
        }
    }
    intern(Key::Bin(op, a.id, b.id), w, K::Bin(op, a, b))
}

/// number of known-zero low bits
fn low_zeros(e: &E) -> u32 {
    match &e.k {
        K::Const(c) => {
            if *c == 0 {
                e.w
            } else {
                c.trailing_zeros()
            }
        }
        K::Concat(h, l) => {
            let z = low_zeros(l);
            if z == l.w {
                l.w + low_zeros(h)
            } else {
                z
            }
        }
        K::ZExt(a) => {
            let z = low_zeros(a);
            if z == a.w {
                e.w
            } else {
                z
            }
        }
        _ => 0,
    }
}
/// h has z low zero bits and l < 2^z : concat(h>>z, l[z..0])
fn disjoint(h: &E, l: &E) -> Option<E> {
    if as_c(h).is_some() || as_c(l).is_some() {
        return None;
    }
    let z = low_zeros(h);
    if z == 0 || z >= h.w {
        return None;
    }
    if l.hi <= mask(z) {
        return Some(concat(&extract(h, z, h.w - z), &extract(l, 0, z)));
    }
    None
}

pub fn cmp(p: P, a: &E, b: &E) -> E {
    debug_assert_eq!(a.w, b.w);
    let w = a.w;
    if let (Some(x), Some(y)) = (as_c(a), as_c(b)) {
        return cst(1, cmp_c(p, w, x, y) as u128);
    }
    if a.id == b.id {
        return cst(1, matches!(p, P::Eq | P::Ule | P::Sle) as u128);
    }
    match p {
        P::Eq => {
            if a.hi < b.lo || b.hi < a.lo {
                return ff();
            }
        }
        P::Ult => {
            if a.hi < b.lo {
                return tt();
            }
            if a.lo >= b.hi {
                return ff();
            }
        }
        P::Ule => {
            if a.hi <= b.lo {
                return tt();
            }
            if a.lo > b.hi {
                return ff();
            }
        }
        P::Slt | P::Sle => {
            let h = 1u128 << (w - 1);
            if a.hi < h && b.hi < h {
                return cmp(if p == P::Slt { P::Ult } else { P::Ule }, a, b);
            }
        }
    }
    let (mut a, mut b) = (a.clone(), b.clone());
    if p == P::Eq {
        if as_c(&a).is_some() || (as_c(&b).is_none() && a.id > b.id) {
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(c) = as_c(&b) {
            if w == 1 {
                return if c == 1 { a } else { not1(&a) };
            }
            match &a.k {
                K::ZExt(x) => return cmp(P::Eq, x, &cst(x.w, c)), // c<=hi checked by interval
                K::SExt(x) => {
                    let t = c & mask(x.w);
                    return if (sext(t, x.w) as u128) & mask(w) == c { cmp(P::Eq, x, &cst(x.w, t)) } else { ff() };
                }
                K::Concat(h, l) => {
                    if w <= 64 || as_c(l).is_some() || as_c(h).is_some() {
                        if as_c(h).is_some() || as_c(l).is_some() {
                            return and1(&cmp(P::Eq, h, &cst(h.w, c >> l.w)), &cmp(P::Eq, l, &cst(l.w, c)));
                        }
                    }
                }
                K::Extract(x, lo) if lo + w == x.w && a.vars.len() > 1 => {
                    let up = if c == mask(w) { tt() } else { cmp(P::Ult, x, &cst(x.w, (c + 1) << lo)) };
                    return and1(&cmp(P::Ule, &cst(x.w, c << lo), x), &up);
                }
                K::Bin(B::Add, x, y) => {
                    if let Some(d) = as_c(y) {
                        return cmp(P::Eq, x, &cst(w, c.wrapping_sub(d)));
                    }
                }
                K::Bin(B::Xor, x, y) => {
                    if let Some(d) = as_c(y) {
                        return cmp(P::Eq, x, &cst(w, c ^ d));
                    }
                    if c == 0 {
                        return cmp(P::Eq, x, y);
                    }
                }
                K::Bin(B::Sub, x, y) => {
                    if c == 0 {
                        return cmp(P::Eq, x, y);
                    }
                }
                K::Bin(B::Or, x, y) if c == 0 => {
                    let z = cst(w, 0);
                    return and1(&cmp(P::Eq, x, &z), &cmp(P::Eq, y, &z));
                }
                K::Ite(cc, x, y) => {
                    if as_c(x).is_some() || as_c(y).is_some() {
                        return ite(cc, &cmp(P::Eq, x, &b), &cmp(P::Eq, y, &b));
                    }
                }
                _ => {}
            }
        } else if let (K::ZExt(x), K::ZExt(y)) = (&a.k, &b.k) {
            if x.w == y.w {
                return cmp(P::Eq, x, y);
            }
        } else if let (K::Concat(h1, l1), K::Concat(h2, l2)) = (&a.k, &b.k) {
            if l1.w == l2.w {
                return and1(&cmp(P::Eq, h1, h2), &cmp(P::Eq, l1, l2));
            }
        }
    } else {
        if matches!(p, P::Ult | P::Ule) {
            match (&a.k, &b.k) {
                (K::ZExt(x), K::Const(c)) if *c <= mask(x.w) => return cmp(p, x, &cst(x.w, *c)),
                (K::Const(c), K::ZExt(x)) if *c <= mask(x.w) => return cmp(p, &cst(x.w, *c), x),
                (K::ZExt(x), K::ZExt(y)) if x.w == y.w => return cmp(p, x, y),
                (_, K::Const(1)) if p == P::Ult => return cmp(P::Eq, &a, &cst(w, 0)),
                (_, K::Const(0)) if p == P::Ule => return cmp(P::Eq, &a, &cst(w, 0)),
                (K::Const(0), _) if p == P::Ult => return not1(&cmp(P::Eq, &b, &cst(w, 0))),
                _ => {}
            }
        }
        if matches!(p, P::Ult | P::Ule) {
            // move constant offsets and right shifts to the constant side
            if let Some(c) = as_c(&b) {
                match &a.k {
                    K::Bin(B::Add, x, y) if as_c(y).is_some() && x.hi <= mask(w) - as_c(y).unwrap() => {
                        let k = as_c(y).unwrap();
                        return if c < k { ff() } else { cmp(p, x, &cst(w, c - k)) };
                    }
                    K::Extract(x, lo) if lo + w == x.w && a.vars.len() > 1 => {
                        return if p == P::Ult {
                            cmp(P::Ult, x, &cst(x.w, c << lo))
                        } else if c == mask(w) {
                            tt()
                        } else {
                            cmp(P::Ult, x, &cst(x.w, (c + 1) << lo))
                        };
                    }
                    _ => {}
                }
            }
            if let Some(c) = as_c(&a) {
                match &b.k {
                    K::Bin(B::Add, x, y) if as_c(y).is_some() && x.hi <= mask(w) - as_c(y).unwrap() => {
                        let k = as_c(y).unwrap();
                        return if c < k { tt() } else { cmp(p, &cst(w, c - k), x) };
                    }
                    K::Extract(x, lo) if lo + w == x.w && b.vars.len() > 1 => {
                        return if p == P::Ule {
                            cmp(P::Ule, &cst(x.w, c << lo), x)
                        } else if c == mask(w) {
                            ff()
                        } else {
                            cmp(P::Ule, &cst(x.w, (c + 1) << lo), x)
                        };
                    }
                    _ => {}
                }
            }
        }
        if let (K::Ite(cc, x, y), Some(_)) = (&a.k, as_c(&b)) {
            if as_c(x).is_some() && as_c(y).is_some() {
                return ite(cc, &cmp(p, x, &b), &cmp(p, y, &b));
            }
        }
        if let (Some(_), K::Ite(cc, x, y)) = (as_c(&a), &b.k) {
            if as_c(x).is_some() && as_c(y).is_some() {
                return ite(cc, &cmp(p, &a, x), &cmp(p, &a, y));
            }
        }
    }
    intern(Key::Cmp(p, a.id, b.id), 1, K::Cmp(p, a, b))
}

pub fn new_gen() -> u32 {
    I.with(|i| {
        let mut i = i.borrow_mut();
        i.gen += 1;
        i.gen
    })
}

/// Evaluate under an assignment of bytes (missing = 0). `gen` from new_gen().
pub fn eval(e: &E, m: &dyn Fn(u32) -> u8, gen: u32) -> u128 {
    if let K::Const(c) = e.k {
        return c;
    }
    let (g, v) = e.memo.get();
    if g == gen {
        return v;
    }
    let r = match &e.k {
        K::Const(c) => *c,
        K::Var(v) => m(*v) as u128,
        K::Bin(op, a, b) => binop_c(*op, e.w, eval(a, m, gen), eval(b, m, gen)),
        K::Cmp(p, a, b) => cmp_c(*p, a.w, eval(a, m, gen), eval(b, m, gen)) as u128,
        K::Ite(c, a, b) => {
            if eval(c, m, gen) == 1 {
                eval(a, m, gen)
            } else {
                eval(b, m, gen)
            }
        }
        K::Extract(a, l) => (eval(a, m, gen) >> l) & mask(e.w),
        K::ZExt(a) => eval(a, m, gen),
        K::SExt(a) => (sext(eval(a, m, gen), a.w) as u128) & mask(e.w),
        K::Concat(h, l) => (eval(h, m, gen) << l.w) | eval(l, m, gen),
    };
    e.memo.set((gen, r));
    r
}
pub fn interner_size() -> usize {
    I.with(|i| i.borrow().map.len())
}
