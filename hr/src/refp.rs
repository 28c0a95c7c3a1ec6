//! Independent reference reading of an interface definition (RFC 4506 section 6, the RPC
//! language's program blocks and the char/short extension), written as a tokenizer and a
//! predictive parser.  It emits an event stream; `dump` renders what rpcgen's parser returned
//! in the same form, with constants by their numeric value.
use rpcgen::parser as p;

pub type Out = Vec<u8>;

pub fn put_str(o: &mut Out, t: u8, s: &[u8]) {
    o.push(t);
    o.push(s.len() as u8);
    o.extend_from_slice(s);
}
/// a number: sign and magnitude, or out of every supported range
#[derive(Clone, Copy, PartialEq)]
pub enum N {
    Pos(u64),
    Neg(u32),
    Out,
}
pub fn put_num(o: &mut Out, n: N) {
    match n {
        N::Pos(v) => {
            o.push(b'+');
            o.extend_from_slice(&v.to_be_bytes());
        }
        N::Neg(v) => {
            o.push(b'-');
            o.extend_from_slice(&v.to_be_bytes());
        }
        N::Out => o.push(b'!'),
    }
}

// ------------------------------------------------------------------ what rpcgen returned
fn d_const(c: &p::Constant, o: &mut Out) {
    if let Ok(v) = c.value::<u64>() {
        put_num(o, N::Pos(v));
        // the other widths agree wherever they apply
        match c.value::<u32>() {
            Ok(w) => o.push((w as u64 == v && v <= u32::MAX as u64) as u8),
            Err(_) => o.push((v > u32::MAX as u64) as u8),
        }
        match c.value::<i32>() {
            Ok(w) => o.push((w >= 0 && w as u64 == v) as u8),
            Err(_) => o.push((v > i32::MAX as u64) as u8),
        }
        match c.value::<usize>() {
            Ok(w) => o.push((w as u64 == v) as u8),
            Err(_) => o.push(0),
        }
    } else if let Ok(v) = c.value::<i32>() {
        put_num(o, if v < 0 { N::Neg(v.unsigned_abs()) } else { N::Out });
        o.push((c.value::<u32>().is_err() && c.value::<usize>().is_err()) as u8);
    } else {
        put_num(o, N::Out);
        o.push((c.value::<u32>().is_err() && c.value::<usize>().is_err()) as u8);
    }
}
pub fn r_const(n: N, o: &mut Out) {
    put_num(o, n);
    match n {
        N::Pos(_) => o.extend_from_slice(&[1, 1, 1]),
        _ => o.push(1),
    }
}
fn d_value(v: &p::Value, o: &mut Out) {
    match v {
        p::Value::Constant(c) => d_const(c, o),
        p::Value::Identifier(i) => put_str(o, b'i', i.as_bytes()),
    }
}
fn d_opt(v: &Option<p::Value>, o: &mut Out) {
    match v {
        Some(v) => d_value(v, o),
        None => o.push(b'n'),
    }
}
fn d_assigns(a: &[p::Assign], o: &mut Out) {
    for x in a {
        put_str(o, b'a', x.identifier.as_bytes());
        d_value(&x.value, o);
    }
    o.push(b'}');
}
fn d_decls(a: &[p::Declaration], o: &mut Out) {
    for x in a {
        d_decl(x, o);
    }
    o.push(b'}');
}
fn d_union(u: &p::UnionBody, o: &mut Out) {
    d_decl(&u.cond, o);
    for s in &u.specs {
        for v in &s.values {
            o.push(b'c');
            d_value(v, o);
        }
        d_decl(&s.declaration, o);
    }
    match &u.default {
        Some(d) => {
            o.push(b'd');
            d_decl(d, o)
        }
        None => o.push(b'-'),
    }
    o.push(b'}');
}
fn d_type(t: &p::TypeSpecifier, o: &mut Out) {
    use p::TypeSpecifier::*;
    match t {
        Int(s) => o.extend_from_slice(&[b't', 1, *s as u8]),
        Hyper(s) => o.extend_from_slice(&[b't', 2, *s as u8]),
        Char(s) => o.extend_from_slice(&[b't', 3, *s as u8]),
        Short(s) => o.extend_from_slice(&[b't', 4, *s as u8]),
        Float => o.extend_from_slice(&[b't', 5, 1]),
        Double => o.extend_from_slice(&[b't', 6, 1]),
        Quadruple => o.extend_from_slice(&[b't', 7, 1]),
        Bool => o.extend_from_slice(&[b't', 8, 1]),
        Void => o.extend_from_slice(&[b't', 9, 1]),
        Enum(e) => {
            o.push(b'E');
            d_assigns(&e.body, o)
        }
        Struct(s) => {
            o.push(b'S');
            d_decls(&s.body, o)
        }
        Union(u) => {
            o.push(b'U');
            d_union(&u.body, o)
        }
        Identifier(i) => put_str(o, b'T', i.as_bytes()),
    }
}
fn d_decl(d: &p::Declaration, o: &mut Out) {
    use p::Declaration::*;
    match d {
        Void => o.push(b'V'),
        OpaqueFixedArray(n, v) => {
            put_str(o, b'1', n.as_bytes());
            d_value(v, o)
        }
        OpaqueVariableArray(n, v) => {
            put_str(o, b'2', n.as_bytes());
            d_opt(v, o)
        }
        String(n, v) => {
            put_str(o, b'3', n.as_bytes());
            d_opt(v, o)
        }
        FixedArray(t, n, v) => {
            d_type(t, o);
            put_str(o, b'4', n.as_bytes());
            d_value(v, o)
        }
        VariableArray(t, n, v) => {
            d_type(t, o);
            put_str(o, b'5', n.as_bytes());
            d_opt(v, o)
        }
        OptionVariable(t, n) => {
            d_type(t, o);
            put_str(o, b'6', n.as_bytes())
        }
        Variable(t, n) => {
            d_type(t, o);
            put_str(o, b'7', n.as_bytes())
        }
    }
}
pub fn dump(ds: &[p::Definition]) -> Out {
    let mut o = vec![];
    for d in ds {
        match d {
            p::Definition::LineComment => o.push(b'%'),
            p::Definition::Constant(a) => {
                put_str(&mut o, b'K', a.identifier.as_bytes());
                d_value(&a.value, &mut o)
            }
            p::Definition::Type(p::TypeDef::Declaration(d)) => {
                o.push(b'D');
                d_decl(d, &mut o)
            }
            p::Definition::Type(p::TypeDef::Enum(n, b)) => {
                put_str(&mut o, b'e', n.as_bytes());
                d_assigns(b, &mut o)
            }
            p::Definition::Type(p::TypeDef::Struct(n, b)) => {
                put_str(&mut o, b's', n.as_bytes());
                d_decls(b, &mut o)
            }
            p::Definition::Type(p::TypeDef::Union(n, b)) => {
                put_str(&mut o, b'u', n.as_bytes());
                d_union(b, &mut o)
            }
            p::Definition::Program(g) => {
                put_str(&mut o, b'P', g.name.as_bytes());
                for v in &g.versions {
                    put_str(&mut o, b'v', v.name.as_bytes());
                    for c in &v.procedures {
                        put_str(&mut o, b'p', c.method.as_bytes());
                        d_type(&c.res_ty, &mut o);
                        d_type(&c.req_ty, &mut o);
                        d_value(&c.value, &mut o);
                    }
                    o.push(b'}');
                    d_value(&v.value, &mut o);
                }
                o.push(b'}');
                d_value(&g.value, &mut o)
            }
        }
    }
    o
}

// ------------------------------------------------------------------ the reference reading
#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    Id,
    Num,
    P(u8),
    End,
    Bad,
}
pub struct R<'a> {
    t: &'a [u8],
    p: usize,
    // current token
    k: K,
    a: usize,
    b: usize,
    pub o: Out,
}
type Res = Result<(), ()>;
const RESERVED: &[&[u8]] = &[
    b"bool", b"case", b"const", b"default", b"double", b"quadruple", b"enum", b"float", b"hyper", b"int", b"opaque", b"string", b"struct", b"switch", b"typedef", b"union", b"unsigned", b"void",
    b"program", b"version",
];
fn is_al(c: u8) -> bool {
    (c >= b'a' && c <= b'z') || (c >= b'A' && c <= b'Z') || c == b'_'
}
fn is_dg(c: u8) -> bool {
    c >= b'0' && c <= b'9'
}
fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}
pub fn number(s: &[u8]) -> Result<N, ()> {
    let (neg, d) = if !s.is_empty() && s[0] == b'-' { (true, &s[1..]) } else { (false, s) };
    if d.is_empty() {
        return Err(());
    }
    let (base, d) = if d[0] != b'0' {
        (10u64, d)
    } else if d.len() == 1 {
        (10, d)
    } else if d[1] == b'x' {
        (16, &d[2..])
    } else {
        (8, &d[1..])
    };
    if d.is_empty() || (neg && (base != 10 || d[0] == b'0')) {
        return Err(());
    }
    let mut v = Some(0u64);
    let mut i = 0;
    while i < d.len() {
        let c = d[i];
        let x = if is_dg(c) {
            (c - b'0') as u64
        } else if c >= b'a' && c <= b'f' {
            (c - b'a') as u64 + 10
        } else if c >= b'A' && c <= b'F' {
            (c - b'A') as u64 + 10
        } else {
            return Err(());
        };
        if x >= base {
            return Err(());
        }
        v = v.and_then(|v| v.checked_mul(base)).and_then(|v| v.checked_add(x));
        i += 1;
    }
    Ok(match v {
        None => N::Out,
        Some(v) if !neg => N::Pos(v),
        Some(v) if v <= 1 << 31 => N::Neg(v as u32),
        _ => N::Out,
    })
}
impl<'a> R<'a> {
    fn layout(&mut self) {
        loop {
            if self.p >= self.t.len() {
                return;
            }
            let c = self.t[self.p];
            if c == b' ' || c == b'\n' || c == b'\t' || c == b'\r' {
                self.p += 1;
            } else if c == b'/' && self.p + 1 < self.t.len() && self.t[self.p + 1] == b'*' {
                let mut q = self.p + 2;
                loop {
                    if q + 1 >= self.t.len() {
                        return; // unterminated: left in place, no token starts with '/'
                    }
                    if self.t[q] == b'*' && self.t[q + 1] == b'/' {
                        break;
                    }
                    q += 1;
                }
                self.p = q + 2;
            } else {
                return;
            }
        }
    }
    fn next(&mut self) {
        self.layout();
        self.a = self.p;
        self.k = self.lex();
        self.b = self.p;
    }
    fn lex(&mut self) -> K {
        let n = self.t.len();
        if self.p >= n {
            return K::End;
        }
        let c = self.t[self.p];
        if is_al(c) {
            while self.p < n && (is_al(self.t[self.p]) || is_dg(self.t[self.p])) {
                self.p += 1;
            }
            return K::Id;
        }
        if is_dg(c) || (c == b'-' && self.p + 1 < n && is_dg(self.t[self.p + 1])) {
            self.p += 1;
            while self.p < n && (is_al(self.t[self.p]) || is_dg(self.t[self.p])) {
                self.p += 1;
            }
            return K::Num;
        }
        match c {
            b'{' | b'}' | b'[' | b']' | b'<' | b'>' | b'(' | b')' | b'=' | b';' | b':' | b',' | b'*' => {
                self.p += 1;
                K::P(c)
            }
            _ => K::Bad,
        }
    }
    fn s(&self) -> &'a [u8] {
        &self.t[self.a..self.b]
    }
    fn word(&self, w: &[u8]) -> bool {
        self.k == K::Id && eq(self.s(), w)
    }
    fn want_word(&mut self, w: &[u8]) -> Res {
        if !self.word(w) {
            return Err(());
        }
        self.next();
        Ok(())
    }
    fn punct(&mut self, c: u8) -> Res {
        if self.k != K::P(c) {
            return Err(());
        }
        self.next();
        Ok(())
    }
    /// an identifier, not a keyword; not consumed
    fn ident(&self) -> Result<&'a [u8], ()> {
        if self.k != K::Id {
            return Err(());
        }
        for r in RESERVED {
            if eq(self.s(), r) {
                return Err(());
            }
        }
        Ok(self.s())
    }
    fn value(&mut self) -> Res {
        if self.k == K::Num {
            let n = number(self.s())?;
            r_const(n, &mut self.o);
        } else {
            let i = self.ident()?;
            put_str(&mut self.o, b'i', i);
        }
        self.next();
        Ok(())
    }
    fn opt_value(&mut self) -> Res {
        if self.k == K::P(b'>') {
            self.o.push(b'n');
            return Ok(());
        }
        self.value()
    }
    fn assign(&mut self, tag: u8) -> Res {
        let i = self.ident()?;
        put_str(&mut self.o, tag, i);
        self.next();
        self.punct(b'=')?;
        self.value()
    }
    fn enum_body(&mut self) -> Res {
        self.punct(b'{')?;
        loop {
            self.assign(b'a')?;
            if self.k != K::P(b',') {
                break;
            }
            self.next();
        }
        self.punct(b'}')?;
        self.o.push(b'}');
        Ok(())
    }
    fn struct_body(&mut self) -> Res {
        self.punct(b'{')?;
        loop {
            self.decl()?;
            self.punct(b';')?;
            if self.k == K::P(b'}') {
                break;
            }
        }
        self.punct(b'}')?;
        self.o.push(b'}');
        Ok(())
    }
    fn union_body(&mut self) -> Res {
        self.want_word(b"switch")?;
        self.punct(b'(')?;
        self.decl()?;
        self.punct(b')')?;
        self.punct(b'{')?;
        if !self.word(b"case") {
            return Err(());
        }
        while self.word(b"case") {
            while self.word(b"case") {
                self.next();
                self.o.push(b'c');
                self.value()?;
                self.punct(b':')?;
            }
            self.decl()?;
            self.punct(b';')?;
        }
        if self.word(b"default") {
            self.next();
            self.punct(b':')?;
            self.o.push(b'd');
            self.decl()?;
            self.punct(b';')?;
        } else {
            self.o.push(b'-');
        }
        self.punct(b'}')?;
        self.o.push(b'}');
        Ok(())
    }
    fn ty(&mut self) -> Res {
        if self.k != K::Id {
            return Err(());
        }
        let simple: &[(&[u8], u8)] = &[(b"int", 1), (b"hyper", 2), (b"char", 3), (b"short", 4), (b"float", 5), (b"double", 6), (b"quadruple", 7), (b"bool", 8)];
        for (w, n) in simple {
            if self.word(w) {
                self.o.extend_from_slice(&[b't', *n, 1]);
                self.next();
                return Ok(());
            }
        }
        if self.word(b"unsigned") {
            self.next();
            for (w, n) in &simple[..4] {
                if self.word(w) {
                    self.o.extend_from_slice(&[b't', *n, 0]);
                    self.next();
                    return Ok(());
                }
            }
            self.o.extend_from_slice(&[b't', 1, 0]);
            return Ok(());
        }
        if self.word(b"enum") {
            self.next();
            self.o.push(b'E');
            return self.enum_body();
        }
        if self.word(b"struct") {
            self.next();
            self.o.push(b'S');
            return self.struct_body();
        }
        if self.word(b"union") {
            self.next();
            self.o.push(b'U');
            return self.union_body();
        }
        let i = self.ident()?;
        put_str(&mut self.o, b'T', i);
        self.next();
        Ok(())
    }
    fn decl(&mut self) -> Res {
        if self.word(b"void") {
            self.next();
            self.o.push(b'V');
            return Ok(());
        }
        if self.word(b"opaque") || self.word(b"string") {
            let op = self.word(b"opaque");
            self.next();
            let i = self.ident()?;
            self.next();
            if op && self.k == K::P(b'[') {
                self.next();
                put_str(&mut self.o, b'1', i);
                self.value()?;
                return self.punct(b']');
            }
            self.punct(b'<')?;
            put_str(&mut self.o, if op { b'2' } else { b'3' }, i);
            self.opt_value()?;
            return self.punct(b'>');
        }
        self.ty()?;
        if self.k == K::P(b'*') {
            self.next();
            let i = self.ident()?;
            put_str(&mut self.o, b'6', i);
            self.next();
            return Ok(());
        }
        let i = self.ident()?;
        self.next();
        if self.k == K::P(b'[') {
            self.next();
            put_str(&mut self.o, b'4', i);
            self.value()?;
            return self.punct(b']');
        }
        if self.k == K::P(b'<') {
            self.next();
            put_str(&mut self.o, b'5', i);
            self.opt_value()?;
            return self.punct(b'>');
        }
        put_str(&mut self.o, b'7', i);
        Ok(())
    }
    fn ty_or_void(&mut self) -> Res {
        if self.word(b"void") {
            self.next();
            self.o.extend_from_slice(&[b't', 9, 1]);
            return Ok(());
        }
        self.ty()
    }
    fn program(&mut self) -> Res {
        let i = self.ident()?;
        put_str(&mut self.o, b'P', i);
        self.next();
        self.punct(b'{')?;
        loop {
            self.want_word(b"version")?;
            let i = self.ident()?;
            put_str(&mut self.o, b'v', i);
            self.next();
            self.punct(b'{')?;
            loop {
                // the dump has the name before the types
                let mut types = vec![];
                std::mem::swap(&mut types, &mut self.o);
                self.ty_or_void()?;
                std::mem::swap(&mut types, &mut self.o);
                let i = self.ident()?;
                put_str(&mut self.o, b'p', i);
                self.o.extend_from_slice(&types);
                self.next();
                self.punct(b'(')?;
                self.ty_or_void()?;
                self.punct(b')')?;
                self.punct(b'=')?;
                self.value()?;
                self.punct(b';')?;
                if self.k == K::P(b'}') {
                    break;
                }
            }
            self.next();
            self.punct(b'=')?;
            self.o.push(b'}');
            self.value()?;
            self.punct(b';')?;
            if self.k == K::P(b'}') {
                break;
            }
        }
        self.next();
        self.punct(b'=')?;
        self.o.push(b'}');
        self.value()?;
        self.punct(b';')
    }
    fn defs(&mut self) -> Res {
        loop {
            // a '%' line stands where a definition may start; self.a is the start of the token
            if self.k == K::Bad && self.t[self.a] == b'%' {
                let mut q = self.a;
                while q < self.t.len() && self.t[q] != b'\n' && self.t[q] != b'\r' {
                    q += 1;
                }
                if q < self.t.len() && self.t[q] == b'\r' {
                    q += 1;
                }
                if q >= self.t.len() || self.t[q] != b'\n' {
                    return Err(());
                }
                self.p = q + 1;
                self.o.push(b'%');
                self.next();
                continue;
            }
            if self.k == K::End {
                return Ok(());
            }
            if self.word(b"const") {
                self.next();
                self.assign(b'K')?;
            } else if self.word(b"typedef") {
                self.next();
                self.o.push(b'D');
                self.decl()?;
            } else if self.word(b"enum") {
                self.next();
                let i = self.ident()?;
                put_str(&mut self.o, b'e', i);
                self.next();
                self.enum_body()?;
            } else if self.word(b"struct") {
                self.next();
                let i = self.ident()?;
                put_str(&mut self.o, b's', i);
                self.next();
                self.struct_body()?;
            } else if self.word(b"union") {
                self.next();
                let i = self.ident()?;
                put_str(&mut self.o, b'u', i);
                self.next();
                self.union_body()?;
            } else if self.word(b"program") {
                self.next();
                self.program()?;
                continue;
            } else {
                return Err(());
            }
            self.punct(b';')?;
        }
    }
}
/// the event stream of a text, or None if it is not a sequence of definitions
pub fn read(t: &[u8]) -> Option<Out> {
    let mut r = R { t, p: 0, k: K::Bad, a: 0, b: 0, o: vec![] };
    r.next();
    match r.defs() {
        Ok(()) => Some(r.o),
        Err(()) => None,
    }
}
