//! Reads generated code: tokens, items, variants, fields, match arms.
pub type B = Vec<u8>;

fn is_word(c: u8) -> bool {
    (c >= b'a' && c <= b'z') || (c >= b'A' && c <= b'Z') || (c >= b'0' && c <= b'9') || c == b'_'
}
pub fn word(t: &[u8]) -> bool {
    !t.is_empty() && is_word(t[0])
}
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}
/// words (with r#), strings, `=>`, `::`, `->` and single characters
pub fn lex(s: &[u8]) -> Vec<&[u8]> {
    let mut v = vec![];
    let n = s.len();
    let mut i = 0;
    while i < n {
        let c = s[i];
        if c == b' ' || c == b'\n' {
            i += 1;
            continue;
        }
        let a = i;
        if c == b'"' {
            i += 1;
            while i < n && s[i] != b'"' {
                if s[i] == b'\\' {
                    i += 1;
                }
                i += 1;
            }
            i += 1;
        } else if c == b'r' && i + 1 < n && s[i + 1] == b'#' {
            i += 2;
            while i < n && is_word(s[i]) {
                i += 1;
            }
        } else if is_word(c) {
            while i < n && is_word(s[i]) {
                i += 1;
            }
        } else if i + 1 < n && ((c == b'=' && s[i + 1] == b'>') || (c == b':' && s[i + 1] == b':') || (c == b'-' && s[i + 1] == b'>')) {
            i += 2;
        } else {
            i += 1;
        }
        v.push(&s[a..i.min(n)]);
    }
    v
}
/// tokens without the spaces that carry nothing
pub fn join(t: &[&[u8]]) -> B {
    let mut o = vec![];
    for (i, x) in t.iter().enumerate() {
        if i > 0 && word(x) && word(t[i - 1]) {
            o.push(b' ');
        }
        o.extend_from_slice(x);
    }
    o
}
/// index behind the group that opens at i
pub fn close(t: &[&[u8]], i: usize) -> usize {
    let mut d = 0usize;
    let mut j = i;
    while j < t.len() {
        let c = t[j][0];
        if c == b'{' || c == b'(' || c == b'[' {
            d += 1;
        }
        if c == b'}' || c == b')' || c == b']' {
            d -= 1;
            if d == 0 {
                return j + 1;
            }
        }
        j += 1;
    }
    t.len()
}
/// pieces between commas outside of groups and of `<`..`>`
pub fn split<'a, 'b>(t: &'b [&'a [u8]]) -> Vec<&'b [&'a [u8]]> {
    let mut v = vec![];
    let mut a = 0;
    let mut i = 0;
    let mut angle = 0usize;
    while i < t.len() {
        let c = t[i][0];
        if c == b'{' || c == b'(' || c == b'[' {
            i = close(t, i);
            continue;
        }
        if c == b'<' {
            angle += 1;
        }
        if c == b'>' && angle > 0 {
            angle -= 1;
        }
        if c == b',' && angle == 0 {
            v.push(&t[a..i]);
            a = i + 1;
        }
        i += 1;
    }
    if a < t.len() {
        v.push(&t[a..]);
    }
    v
}
pub type Ts<'a> = Vec<&'a [u8]>;
pub struct Var<'a> {
    pub attr: B,
    pub name: B,
    pub payload: Vec<Ts<'a>>,
    pub disc: Option<L>,
}
pub struct Field<'a> {
    pub attr: B,
    pub name: B,
    pub ty: Ts<'a>,
}
pub enum Item<'a> {
    Const(B, B, Ts<'a>),
    Type(B, Ts<'a>),
    Enum(B, B, Vec<Var<'a>>),
    Struct(B, B, Vec<Field<'a>>),
    Impl(B, Ts<'a>),
}
/// a literal: sign, magnitude, suffix
#[derive(Clone)]
pub struct L {
    pub neg: bool,
    pub mag: u64,
    pub suf: B,
}
impl L {
    /// the low 32 bits
    pub fn word(&self) -> u32 {
        let m = self.mag as u32;
        if self.neg { m.wrapping_neg() } else { m }
    }
    pub fn int(&self) -> i64 {
        if self.neg { (self.mag as i64).wrapping_neg() } else { self.mag as i64 }
    }
}
/// leading attributes, joined, and the rest
fn attrs<'a, 'b>(t: &'b [&'a [u8]]) -> (B, &'b [&'a [u8]]) {
    let mut o = vec![];
    let mut i = 0;
    while i < t.len() && t[i][0] == b'#' {
        let e = close(t, i + 1);
        o.extend_from_slice(&join(&t[i..e]));
        i = e;
    }
    if i < t.len() && eq(t[i], b"pub") {
        i += 1;
    }
    (o, &t[i..])
}
fn pos(t: &[&[u8]], w: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < t.len() {
        if eq(t[i], w) {
            return Some(i);
        }
        i += 1;
    }
    None
}
/// `5i32`, `- 5i32`: value and suffix
pub fn literal(t: &[&[u8]]) -> Option<L> {
    let mut t = t;
    while t.len() >= 3 && eq(t[0], b"(") && eq(t[t.len() - 1], b")") {
        t = &t[1..t.len() - 1];
    }
    if !t.is_empty() && eq(t[0], b"&") {
        t = &t[1..];
    }
    let (neg, t) = if t.len() == 2 && eq(t[0], b"-") { (true, &t[1..]) } else { (false, t) };
    if t.len() != 1 {
        return None;
    }
    let s = t[0];
    let mut i = 0;
    let mut v = 0u64;
    while i < s.len() && s[i] >= b'0' && s[i] <= b'9' {
        v = v.checked_mul(10)?.checked_add((s[i] - b'0') as u64)?;
        i += 1;
    }
    if i == 0 {
        return None;
    }
    Some(L { neg, mag: v, suf: s[i..].to_vec() })
}
/// a type without paths and boxes, its array length replaced by `#`; whether there was a box
pub fn shape<'a>(t: &[&'a [u8]]) -> (B, Option<Ts<'a>>, bool) {
    let mut o: Ts = vec![];
    let mut len = None;
    let mut boxed = false;
    let mut open: Vec<bool> = vec![];
    let mut i = 0;
    while i < t.len() {
        let x = t[i];
        if eq(x, b"::") || (i + 1 < t.len() && eq(t[i + 1], b"::")) {
            i += 1;
            continue;
        }
        if eq(x, b"Box") && i + 1 < t.len() && eq(t[i + 1], b"<") {
            boxed = true;
            open.push(false);
            i += 2;
            continue;
        }
        if eq(x, b"<") {
            open.push(true);
        }
        if eq(x, b">") && open.pop() == Some(false) {
            i += 1;
            continue;
        }
        o.push(x);
        if eq(x, b";") {
            let a = i + 1;
            let mut d = 0usize;
            i = a;
            while i < t.len() && (d > 0 || !eq(t[i], b"]")) {
                if eq(t[i], b"[") || eq(t[i], b"(") {
                    d += 1;
                }
                if eq(t[i], b"]") || eq(t[i], b")") {
                    d -= 1;
                }
                i += 1;
            }
            len = Some(t[a..i].to_vec());
            o.push(b"#");
            continue;
        }
        i += 1;
    }
    (join(&o), len, boxed)
}
/// value of an expression: a literal, or a constant of these items, perhaps with a cast
pub fn value(t: &[&[u8]], it: &[Item]) -> Option<L> {
    if t.len() > 2 && eq(t[t.len() - 2], b"as") {
        return value(&t[..t.len() - 2], it);
    }
    if let Some(l) = literal(t) {
        return Some(l);
    }
    if t.len() != 1 {
        return None;
    }
    for i in it {
        if let Item::Const(n, _, v) = i {
            if eq(n, t[0]) {
                return value(v, it);
            }
        }
    }
    None
}
pub fn items<'a>(t: &[&'a [u8]]) -> Vec<Item<'a>> {
    let mut v = vec![];
    let mut i = 0;
    while i < t.len() {
        // one item: up to `;` or a brace group at depth 0 that does not belong to a value
        let (at, rest) = attrs(&t[i..]);
        let a = t.len() - rest.len();
        let kw = if a < t.len() { t[a] } else { break };
        let mut j = a;
        while j < t.len() && t[j][0] != b';' && t[j][0] != b'{' {
            if t[j][0] == b'(' || t[j][0] == b'[' {
                j = close(t, j);
            } else {
                j += 1;
            }
        }
        if j >= t.len() {
            break;
        }
        if t[j][0] == b';' || eq(kw, b"use") {
            while t[j][0] != b';' {
                j = if t[j][0] == b'{' { close(t, j) } else { j + 1 };
            }
            let body = &t[a..j];
            if eq(kw, b"const") {
                if let Some(e) = pos(body, b"=") {
                    v.push(Item::Const(body[1].to_vec(), join(&body[3..e]), body[e + 1..].to_vec()));
                }
            }
            if eq(kw, b"type") {
                if let Some(e) = pos(body, b"=") {
                    v.push(Item::Type(body[1].to_vec(), body[e + 1..].to_vec()));
                }
            }
            i = j + 1;
            continue;
        }
        let e = close(t, j);
        let body = &t[j + 1..e - 1];
        if eq(kw, b"enum") {
            let mut vs = vec![];
            for p in split(body) {
                let (at, p) = attrs(p);
                let mut payload = vec![];
                let mut disc = None;
                if p.len() > 1 && p[1][0] == b'(' {
                    let e = close(p, 1);
                    for q in split(&p[2..e - 1]) {
                        payload.push(q.to_vec());
                    }
                }
                if let Some(e) = pos(p, b"=") {
                    disc = literal(&p[e + 1..]);
                }
                if !p.is_empty() {
                    vs.push(Var { attr: at, name: p[0].to_vec(), payload, disc });
                }
            }
            v.push(Item::Enum(t[a + 1].to_vec(), at, vs));
        } else if eq(kw, b"struct") {
            let mut fs = vec![];
            for p in split(body) {
                let (at, p) = attrs(p);
                if p.len() > 2 {
                    fs.push(Field { attr: at, name: p[0].to_vec(), ty: p[2..].to_vec() });
                }
            }
            v.push(Item::Struct(t[a + 1].to_vec(), at, fs));
        } else if eq(kw, b"impl") {
            v.push(Item::Impl(join(&t[a + 1..j]), body.to_vec()));
        }
        i = e;
    }
    v
}
/// arms (pattern, expression) of the first `match` of the function with that name
pub type Arms<'a> = Vec<(Ts<'a>, Ts<'a>)>;
pub fn arms<'a>(body: &[&'a [u8]], f: &[u8]) -> Option<Arms<'a>> {
    let mut i = 0;
    loop {
        if i + 1 >= body.len() {
            return None;
        }
        if eq(body[i], b"fn") && eq(body[i + 1], f) {
            break;
        }
        i += 1;
    }
    while i < body.len() && !eq(body[i], b"match") {
        i += 1;
    }
    while i < body.len() && body[i][0] != b'{' {
        i += 1;
    }
    if i >= body.len() {
        return None;
    }
    let e = close(body, i);
    let mut v = vec![];
    for p in split(&body[i + 1..e - 1]) {
        let Some(k) = pos(p, b"=>") else { continue };
        v.push((p[..k].to_vec(), p[k + 1..].to_vec()));
    }
    Some(v)
}
/// the last identifier of a pattern or path: `E :: A`, `E :: A (_)`, `& E :: A`
pub fn last<'a>(t: &[&'a [u8]]) -> Option<&'a [u8]> {
    let mut r = None;
    for x in t {
        if x[0] == b'(' || x[0] == b'{' {
            break;
        }
        if word(x) {
            r = Some(*x);
        }
    }
    r
}
/// alternatives of a pattern
pub fn alts<'a, 'b>(t: &'b [&'a [u8]]) -> Vec<&'b [&'a [u8]]> {
    let mut v = vec![];
    let mut a = 0;
    let mut i = 0;
    while i <= t.len() {
        if i == t.len() || eq(t[i], b"|") {
            if i > a {
                v.push(&t[a..i]);
            }
            a = i + 1;
        }
        i += 1;
    }
    v
}
/// the identifier inside of `stringify ! ( X )`, as a string
pub fn named<'a>(t: &[&'a [u8]]) -> Option<&'a [u8]> {
    let i = pos(t, b"stringify")?;
    t.get(i + 3).copied()
}
pub fn has(t: &[&[u8]], w: &[u8]) -> bool {
    pos(t, w).is_some()
}
