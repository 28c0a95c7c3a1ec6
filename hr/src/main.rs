//! rpcgen harness: the parser against the reference reading, the generator against reference facts.
#![allow(dead_code, clippy::all)]
#[path = "../../rt/rt.rs"]
#[macro_use]
mod rt;
mod refp;
use refp::*;
use rpcgen::parser;

/// n symbolic ASCII bytes
fn ascii(n: usize) -> Vec<u8> {
    let v = rt::vec(n);
    for b in &v {
        rt::assume(*b < 128);
    }
    v
}
fn text(v: Vec<u8>) -> String {
    unsafe { String::from_utf8_unchecked(v) }
}
/// the parser accepts exactly the texts the reference reading accepts, with the same content
fn same(t: Vec<u8>) {
    let want = read(&t);
    let s = text(t);
    match (parser::parse(&s), want) {
        (Ok(d), Some(w)) => {
            let g = dump(&d);
            rt::observe(&g);
            rt::check(g.len() == w.len(), "parsed content has another shape");
            rt::check(g == w, "parsed content differs from the text");
            rt::reach("accepted");
        }
        (Err(_), None) => rt::reach("rejected"),
        (Ok(_), None) => rt::fail("text that is no definition list accepted"),
        (Err(_), Some(_)) => rt::fail("well-formed definitions rejected"),
    }
}
fn hole(pre: &str, n: usize, post: &str) {
    let mut t = pre.as_bytes().to_vec();
    t.extend_from_slice(&ascii(n));
    t.extend_from_slice(post.as_bytes());
    same(t)
}
/// one hole of up to n bytes in one of the contexts
fn holes(n: usize, ctx: &[(&str, &str)]) {
    let c = rt::upto(ctx.len());
    let k = rt::upto(n + 1);
    hole(ctx[c].0, k, ctx[c].1)
}
const ANY: &[(&str, &str)] = &[
    ("", ""),
    ("const A", "= 1;"),
    ("const A =", ";"),
    ("const A = 1", ""),
    ("const A = 1;", "const B = 2;"),
    ("struct a {", "};"),
    ("struct a { ", " b; };"),
    ("struct a { int", "b; };"),
    ("struct a { int b", "; };"),
    ("struct a { opaque b", "; };"),
    ("struct a { string ", ">; };"),
    ("struct a { int b[", "]; };"),
    ("struct a { int b<", ">; };"),
    ("struct a { int b; ", "};"),
    ("struct a { int b; }", ""),
    ("struct a { struct {int x;", "} b; };"),
    ("enum a {", "};"),
    ("enum a { B", "1 };"),
    ("enum a { B = ", "};"),
    ("enum a { B = 1", "C = 2 };"),
    ("enum", "{ B = 1 };"),
    ("union a switch", "int b) { case 1: void; };"),
    ("union a switch (", "b) { case 1: void; };"),
    ("union a switch (int b) {", "1: void; };"),
    ("union a switch (int b) { case ", " void; };"),
    ("union a switch (int b) { case 1:", "; };"),
    ("union a switch (int b) { case 1: void;", "};"),
    ("union a switch (int b) { case 1: void; default", "void; };"),
    ("union a switch (int b) { case 1: void; default:", "; };"),
    ("typedef ", ";"),
    ("typedef int a", ";"),
    ("typedef", "int a;"),
    ("program p {", "version v { void f(int) = 1; } = 1; } = 1;"),
    ("program p { version v {", "f(int) = 1; } = 1; } = 1;"),
    ("program p { version v { int f", "int) = 1; } = 1; } = 1;"),
    ("program p { version v { int f(", ") = 1; } = 1; } = 1;"),
    ("program p { version v { int f(int)", "1; } = 1; } = 1;"),
    ("program p { version v { int f(int) = 1; ", "= 1; } = 1;"),
    ("program p { version v { int f(int) = 1; } = 1; ", "= 1;"),
    ("%", "\nconst A = 1;"),
    ("%x", "const A = 1;"),
];
#[unsafe(no_mangle)]
pub fn p_any1() {
    holes(1, ANY)
}
#[unsafe(no_mangle)]
pub fn p_any2() {
    holes(2, ANY)
}
#[unsafe(no_mangle)]
pub fn p_any4() {
    holes(4, ANY)
}
#[unsafe(no_mangle)]
pub fn p_any3() {
    holes(3, ANY)
}

// ------------------------------------------------------------------ P01
/// n bytes of valid UTF-8 holding at least one character outside ASCII
fn unicode(n: usize) -> Vec<u8> {
    let v = rt::vec(n);
    rt::assume(rt::utf8(&v));
    let mut hi = false;
    for b in &v {
        hi |= *b >= 128;
    }
    rt::assume(hi);
    v
}
#[unsafe(no_mangle)]
pub fn p01_unicode() {
    let c = rt::upto(ANY.len());
    let n = 2 + rt::upto(3);
    let mut t = ANY[c].0.as_bytes().to_vec();
    t.extend_from_slice(&unicode(n));
    t.extend_from_slice(ANY[c].1.as_bytes());
    same(t)
}
/// nested anonymous types around a hole: the work per text stays within the step limit
fn nested(depth: usize, n: usize) {
    let kind = rt::upto(3);
    let (open, close) = [("struct {", "} a;"), ("union switch (int b) { case 1:", "} a;"), ("struct {", "} *a;")][kind];
    let mut t = b"struct x {".to_vec();
    for _ in 0..depth {
        t.extend_from_slice(open.as_bytes());
    }
    t.extend_from_slice(&ascii(n));
    for _ in 0..depth {
        t.extend_from_slice(if kind == 1 { b"}; } a;" } else { close.as_bytes() });
    }
    t.extend_from_slice(b"};");
    if kind == 1 {
        // the innermost arm ends with its own ';'
        let mut u = b"struct x {".to_vec();
        for _ in 0..depth {
            u.extend_from_slice(open.as_bytes());
        }
        u.extend_from_slice(b"int ");
        u.extend_from_slice(&ascii(n));
        for _ in 0..depth {
            u.extend_from_slice(b"; } a");
        }
        u.extend_from_slice(b";};");
        return same(u);
    }
    same(t)
}
#[unsafe(no_mangle)]
pub fn p01_nested() {
    nested(14, 1)
}
/// long runs of one token or character do not need more than linear work per character
#[unsafe(no_mangle)]
pub fn p01_runs() {
    let k = rt::upto(RUNS.len());
    let (pre, unit, post) = RUNS[k];
    let mut t = pre.as_bytes().to_vec();
    for _ in 0..60 {
        t.extend_from_slice(unit.as_bytes());
    }
    t.extend_from_slice(&ascii(1));
    t.extend_from_slice(post.as_bytes());
    same(t)
}
const RUNS: &[(&str, &str, &str)] = &[
    ("const a = 1;", " ", "const b = 2;"),
    ("const a = 1;", "/**/", "const b = 2;"),
    ("const a = 1;/*", "*", "/const b = 2;"),
    ("const a", "a", " = 2;"),
    ("const a = 0x0", "0", ";"),
    ("const a = 1", "2", ";"),
    ("struct s {", "int a;", "};"),
    ("struct s {", "a", " b;};"),
    ("enum e { a = 1", ", b = 2", "};"),
    ("union u switch (int a) { case 1: ", "case 2: ", "void; };"),
    ("union u switch (int a) {", "case 2: void;", "};"),
    ("", "const a = 1;", ""),
    ("", "%\n", ""),
    ("program p { version v {", "int f(int) = 1;", "} = 1; } = 2;"),
    ("program p {", "version v { int f(int) = 1; } = 1;", "} = 2;"),
    ("struct s {", "struct {", ""),
    ("typedef ", "union switch (", ""),
    ("", "{", ""),
    ("", "/*", ""),
    ("", "unsigned ", ""),
];

// ------------------------------------------------------------------ P02
/// where a number can stand
const NUMS: &[(&str, &str)] = &[
    ("const a = ", ";"),
    ("enum e { a = ", " };"),
    ("enum e { a = 1, b = ", ", c = 3};"),
    ("struct s { int a[", "]; };"),
    ("struct s { int a<", ">; };"),
    ("struct s { opaque a[", "]; };"),
    ("struct s { opaque a<", ">; };"),
    ("struct s { string a<", ">; };"),
    ("typedef int a[", "];"),
    ("union u switch (int a) { case ", ": void; };"),
    ("union u switch (int a) { case 1: case ", ": void; };"),
    ("program p { version v { int f(int) = ", "; } = 1; } = 2;"),
    ("program p { version v { int f(int) = 3; } = ", "; } = 2;"),
    ("program p { version v { int f(int) = 3; } = 1; } = ", ";"),
];
#[unsafe(no_mangle)]
pub fn p02_any() {
    holes(3, NUMS)
}
#[unsafe(no_mangle)]
pub fn p02_any4() {
    hole("const a = ", 4, ";")
}
/// Long numbers: boundary and other digit strings with a window of arbitrary digits at every
/// offset (sliding over either end, so that digits are also added), compared by value.
const LONG: &[&str] = &[
    "0xffffffff", "0x7fffffff", "0x80000000", "0x100000000", "0xfffffffffffffff", "0xFFFFFFFFFFFFFFFF", "0x0123456789abcdefAB", "0xdeadBEEF",
    "037777777777", "017777777777", "020000000000", "01777777777777777777777", "00000000000000000000000007", "0123456701234567",
    "4294967295", "4294967296", "2147483647", "2147483648", "18446744073709551615", "18446744073709551616", "10000000000000000000", "99999999999999999999", "123456789",
    "-2147483648", "-2147483649", "-2147483647", "-4294967295", "-10000000000", "-1",
];
fn long_number(c: usize, w: usize) {
    let base = LONG[rt::upto(LONG.len())].as_bytes();
    let skip = if base[0] == b'-' { 1 } else if base[0] == b'0' && base[1] == b'x' { 2 } else if base[0] == b'0' { 1 } else { 0 };
    let at = skip + rt::upto(base.len() - skip + 1);
    // replace w characters, or insert them
    let insert = rt::upto(2) == 1;
    let hole = ascii(w);
    let mut n = base[..at].to_vec();
    n.extend_from_slice(&hole);
    if insert {
        n.extend_from_slice(&base[at..]);
    } else if at + w < base.len() {
        n.extend_from_slice(&base[at + w..]);
    }
    let mut t = NUMS[c].0.as_bytes().to_vec();
    t.extend_from_slice(&n);
    t.extend_from_slice(NUMS[c].1.as_bytes());
    same(t)
}
#[unsafe(no_mangle)]
pub fn p02_long() {
    long_number(0, 1)
}
#[unsafe(no_mangle)]
pub fn p02_long2() {
    long_number(0, 2)
}
/// the same number means the same in every position
#[unsafe(no_mangle)]
pub fn p02_places() {
    long_number(1 + rt::upto(NUMS.len() - 1), 1)
}

// ------------------------------------------------------------------ P03
const WORDS: &[&str] = &[
    "bool", "case", "const", "default", "double", "quadruple", "enum", "float", "hyper", "int", "opaque", "string", "struct", "switch", "typedef", "union", "unsigned", "void", "program", "version",
    "char", "short", "unsigned int", "unsigned hyper", "unsigned char", "unsigned short",
];
/// where an identifier can stand
const NAMES: &[(&str, &str)] = &[
    ("const ", " = 1;"),
    ("const A = ", ";"),
    ("enum ", " { A = 1 };"),
    ("enum e { ", "= 1 };"),
    ("enum e { A = 1,", "= 2 };"),
    ("struct ", "{ int a; };"),
    ("struct s { ", " a; };"),
    ("struct s { ", " *a; };"),
    ("struct s { ", " a[2]; };"),
    ("struct s { ", " a<>; };"),
    ("struct s { int a; ", " b; };"),
    ("struct s { int ", "; };"),
    ("struct s { unsigned ", "; };"),
    ("struct s { unsigned ", " a; };"),
    ("struct s { opaque ", "[2]; };"),
    ("struct s { string ", "<>; };"),
    ("struct s { int *", "; };"),
    ("struct s { int a[", "]; };"),
    ("struct s { int a<", ">; };"),
    ("struct s { ", "; };"),
    ("struct s { ", " {int x;} a; };"),
    ("struct s { ", " {A = 1} a; };"),
    ("struct s { ", " switch (int a) {case 1: void;} a; };"),
    ("union ", " switch (int a) { case 1: void; };"),
    ("union u switch (", " a) { case 1: void; };"),
    ("union u switch (int ", ") { case 1: void; };"),
    ("union u ", " (int a) { case 1: void; };"),
    ("union u switch (int a) { ", " 1: void; };"),
    ("union u switch (int a) { case ", ": void; };"),
    ("union u switch (int a) { case 1: ", "; };"),
    ("union u switch (int a) { case 1: ", " b; };"),
    ("union u switch (int a) { case 1: void; ", ": void; };"),
    ("typedef ", ";"),
    ("typedef ", " a;"),
    ("typedef int ", ";"),
    ("", " A = 1;"),
    ("", " a { int b; };"),
    ("", " int a;"),
    ("", " a { version v { void f(int) = 1; } = 1; } = 1;"),
    ("program ", " { version v { int f(int) = 1; } = 1; } = 1;"),
    ("program p { ", " v { int f(int) = 1; } = 1; } = 1;"),
    ("program p { version ", " { int f(int) = 1; } = 1; } = 1;"),
    ("program p { version v { ", " f(int) = 1; } = 1; } = 1;"),
    ("program p { version v { int ", "(int) = 1; } = 1; } = 1;"),
    ("program p { version v { int f(", ") = 1; } = 1; } = 1;"),
];
fn name_at(c: usize, n: &[u8]) {
    let mut t = NAMES[c].0.as_bytes().to_vec();
    t.extend_from_slice(n);
    t.extend_from_slice(NAMES[c].1.as_bytes());
    same(t)
}
/// a keyword alone, in every letter case pattern that changes one letter
#[unsafe(no_mangle)]
pub fn p03_exact() {
    let w = WORDS[rt::upto(WORDS.len())].as_bytes();
    let mut v = w.to_vec();
    let i = rt::upto(v.len() + 1);
    if i < v.len() {
        v[i] = ascii(1)[0];
    }
    let c = rt::upto(NAMES.len());
    name_at(c, &v)
}
/// a keyword with one more character before or after it
#[unsafe(no_mangle)]
pub fn p03_affix() {
    let c = rt::upto(NAMES.len());
    let w = WORDS[rt::upto(WORDS.len())].as_bytes();
    let x = ascii(1);
    let v = if rt::upto(2) == 0 { [w, &x].concat() } else { [&x, w].concat() };
    name_at(c, &v)
}
/// a keyword with two more characters after it, around it or before it, or cut short
#[unsafe(no_mangle)]
pub fn p03_affix2() {
    let c = rt::upto(NAMES.len());
    let w = WORDS[rt::upto(WORDS.len())].as_bytes();
    let x = ascii(2);
    let v = match rt::upto(4) {
        0 => [w, &x].concat(),
        1 => [&x[..1], w, &x[1..]].concat(),
        2 => [&x, w].concat(),
        _ => [&w[..w.len() - 1], &x].concat(),
    };
    name_at(c, &v)
}
/// any word of up to n identifier characters at any place
fn words(n: usize) {
    let c = rt::upto(NAMES.len());
    let k = 1 + rt::upto(n);
    let v = ascii(k);
    for (i, b) in v.iter().enumerate() {
        let al = (*b | 32).wrapping_sub(b'a') < 26 || *b == b'_';
        let dg = b.wrapping_sub(b'0') < 10;
        rt::assume(al | (dg & (i > 0)));
    }
    name_at(c, &v)
}
#[unsafe(no_mangle)]
pub fn p03_words() {
    words(4)
}
#[unsafe(no_mangle)]
pub fn p03_words6() {
    words(6)
}

// ------------------------------------------------------------------ P04
/// definitions as token lists
const TOKENS: &[&[&str]] = &[
    &["const", "A", "=", "1", ";"],
    &["enum", "e", "{", "A", "=", "1", ",", "B", "=", "A", "}", ";"],
    &["struct", "s", "{", "int", "a", ";", "opaque", "b", "[", "4", "]", ";", "string", "c", "<", ">", ";", "}", ";"],
    &["struct", "s", "{", "unsigned", "int", "*", "a", ";", "t", "b", "<", "N", ">", ";", "void", ";", "}", ";"],
    &["struct", "s", "{", "struct", "{", "bool", "x", ";", "}", "a", ";", "enum", "{", "A", "=", "1", "}", "b", ";", "}", ";"],
    &["struct", "s", "{", "union", "switch", "(", "bool", "x", ")", "{", "case", "TRUE", ":", "void", ";", "}", "a", "[", "2", "]", ";", "}", ";"],
    &["union", "u", "switch", "(", "unsigned", "x", ")", "{", "case", "1", ":", "case", "2", ":", "float", "a", ";", "default", ":", "opaque", "b", "<", "3", ">", ";", "}", ";"],
    &["typedef", "unsigned", "hyper", "a", "<", ">", ";", "typedef", "string", "b", "<", "7", ">", ";"],
    &["program", "p", "{", "version", "v", "{", "void", "f", "(", "void", ")", "=", "1", ";", "t", "g", "(", "int", ")", "=", "2", ";", "}", "=", "3", ";", "}", "=", "4", ";"],
    &["program", "p", "{", "version", "v", "{", "int", "f", "(", "t", ")", "=", "1", ";", "}", "=", "1", ";", "version", "w", "{", "int", "f", "(", "t", ")", "=", "1", ";", "}", "=", "2", ";", "}", "=", "4", ";"],
];
fn wordy(c: u8) -> bool {
    (c | 32).wrapping_sub(b'a') < 26 || c == b'_' || c.wrapping_sub(b'0') < 10
}
/// one piece of layout: blanks, or a comment with n arbitrary characters in it
fn layout(kind: usize, n: usize) -> Vec<u8> {
    let mut v = vec![];
    match kind {
        0 => {
            // blanks
            for b in rt::vec(n) {
                rt::assume(b == b' ' || b == b'\t' || b == b'\n' || b == b'\r');
                v.push(b);
            }
        }
        _ => {
            let c = ascii(n);
            // the comment ends only at its own end
            let mut i = 1;
            while i < n {
                rt::assume(!(c[i - 1] == b'*' && c[i] == b'/'));
                i += 1;
            }
            if n > 0 {
                // "/*" followed by '/' is no end, but a final '*' would end one byte early: same end
                v.extend_from_slice(b"/*");
                v.extend_from_slice(&c);
                v.extend_from_slice(b"*/");
            } else {
                v.extend_from_slice(b"/**/");
            }
        }
    }
    v
}
fn spread(k: usize, at: usize, lay: &[u8], wide: bool) -> Vec<u8> {
    let toks = TOKENS[k];
    let mut t = vec![];
    for i in 0..=toks.len() {
        if i == at {
            t.extend_from_slice(lay);
        } else if i > 0 && i < toks.len() && wordy(*toks[i - 1].as_bytes().last().unwrap()) && wordy(toks[i].as_bytes()[0]) {
            t.push(b' ');
        } else if wide {
            t.push(b'\n');
        }
        if i < toks.len() {
            t.extend_from_slice(toks[i].as_bytes());
        }
    }
    t
}
fn relaid(n: usize) {
    let k = rt::upto(TOKENS.len());
    let at = rt::upto(TOKENS[k].len() + 1);
    let lay = match rt::upto(4) {
        0 => layout(0, 1 + rt::upto(n)),
        1 => layout(1, rt::upto(n + 1)),
        2 => [layout(0, 1), layout(1, 1)].concat(),
        _ => [layout(1, 1), layout(0, 1), layout(1, 0)].concat(),
    };
    let plain = text(spread(k, usize::MAX, b"", false));
    let t = text(spread(k, at, &lay, at % 2 == 1));
    let Ok(p) = parser::parse(&plain) else { return rt::fail("the plain text was refused") };
    let Ok(d) = parser::parse(&t) else { return rt::fail("layout between two tokens was refused") };
    rt::check(p == d, "layout changed the meaning");
    rt::reach("relaid");
}
#[unsafe(no_mangle)]
pub fn p04_gap() {
    relaid(2)
}
#[unsafe(no_mangle)]
pub fn p04_gap4() {
    relaid(4)
}
/// the same layout in every gap, and none wherever tokens can touch
#[unsafe(no_mangle)]
pub fn p04_all() {
    let k = rt::upto(TOKENS.len());
    let lay = match rt::upto(3) {
        0 => layout(0, 2),
        1 => layout(1, 2),
        _ => [layout(0, 1), layout(1, 1), layout(0, 1)].concat(),
    };
    let plain = text(spread(k, usize::MAX, b"", false));
    let toks = TOKENS[k];
    let mut t = lay.clone();
    for w in toks {
        t.extend_from_slice(w.as_bytes());
        t.extend_from_slice(&lay);
    }
    let Ok(p) = parser::parse(&plain) else { return rt::fail("the plain text was refused") };
    let Ok(d) = parser::parse(&text(t)) else { return rt::fail("layout between two tokens was refused") };
    rt::check(p == d, "layout changed the meaning");
    rt::reach("relaid");
}
/// a word must not be glued to its neighbour: dropping the blank between two words changes the reading
#[unsafe(no_mangle)]
pub fn p04_glue() {
    let k = rt::upto(TOKENS.len());
    let toks = TOKENS[k];
    let at = 1 + rt::upto(toks.len() - 1);
    same(spread(k, at, b"", false));
}

// ------------------------------------------------------------------ P05 and P06
/// a symbolic name of n characters; with n = 0 one lower-case letter
fn name(n: usize) -> Vec<u8> {
    if n == 0 {
        let v = rt::vec(1);
        rt::assume(v[0].wrapping_sub(b'a') < 26);
        return v;
    }
    let v = ascii(n);
    for (i, b) in v.iter().enumerate() {
        let al = (*b | 32).wrapping_sub(b'a') < 26 || *b == b'_';
        let dg = b.wrapping_sub(b'0') < 10;
        rt::assume(al | (dg & (i > 0)));
    }
    rt::assume(v != b"int");
    v
}
/// text and expected reading, built together
struct Gen {
    t: Vec<u8>,
    o: Out,
}
impl Gen {
    fn s(&mut self, x: &str) {
        self.t.extend_from_slice(x.as_bytes());
    }
    fn b(&mut self, x: &[u8]) {
        self.t.extend_from_slice(x);
    }
    /// a value: a number in 10..20, one in 10..100, or a name
    fn value(&mut self, kind: usize) {
        match kind {
            0 => {
                let d = rt::u8();
                rt::assume(d < 10);
                self.t.push(b'1');
                self.t.push(b'0' + d);
                r_const(N::Pos(10 + d as u64), &mut self.o);
            }
            1 => {
                let (d, e) = (rt::u8(), rt::u8());
                rt::assume((d > 0) & (d < 10) & (e < 10));
                self.t.push(b'0' + d);
                self.t.push(b'0' + e);
                r_const(N::Pos(d as u64 * 10 + e as u64), &mut self.o);
            }
            2 | 3 => {
                let n = name(0);
                self.b(&n);
                put_str(&mut self.o, b'i', &n);
            }
            _ => {
                // one digit, alone, negative, in hexadecimal or in octal
                let d = rt::u8();
                rt::assume(d < 8);
                self.s(["", "-", "0x", "0"][kind - 4]);
                self.t.push(b'0' + d);
                let n = if kind == 5 {
                    rt::assume(d > 0);
                    N::Neg(d as u32)
                } else {
                    N::Pos(d as u64)
                };
                r_const(n, &mut self.o);
            }
        }
    }
    /// a type; kinds 0..TYPES
    fn ty(&mut self, k: usize) {
        const SIMPLE: [(&str, u8, u8); 14] = [
            ("int", 1, 1),
            ("unsigned int", 1, 0),
            ("unsigned", 1, 0),
            ("hyper", 2, 1),
            ("unsigned hyper", 2, 0),
            ("char", 3, 1),
            ("unsigned char", 3, 0),
            ("short", 4, 1),
            ("unsigned short", 4, 0),
            ("float", 5, 1),
            ("double", 6, 1),
            ("quadruple", 7, 1),
            ("bool", 8, 1),
            ("unsigned\n\thyper", 2, 0),
        ];
        if k < 14 {
            self.s(SIMPLE[k].0);
            self.o.extend_from_slice(&[b't', SIMPLE[k].1, SIMPLE[k].2]);
        } else if k == 14 {
            let n = name(0);
            self.b(&n);
            put_str(&mut self.o, b'T', &n);
        } else if k == 15 {
            let n = name(0);
            self.s("enum {");
            self.b(&n);
            self.s(" = ");
            self.o.push(b'E');
            put_str(&mut self.o, b'a', &n);
            self.value(0);
            self.s("}");
            self.o.push(b'}');
        } else if k == 16 {
            let n = name(0);
            self.s("struct { int ");
            self.b(&n);
            self.s("; }");
            self.o.extend_from_slice(&[b'S', b't', 1, 1]);
            put_str(&mut self.o, b'7', &n);
            self.o.push(b'}');
        } else {
            let n = name(0);
            self.s("union switch (bool ");
            self.b(&n);
            self.s(") { case ");
            self.o.extend_from_slice(&[b'U', b't', 8, 1]);
            put_str(&mut self.o, b'7', &n);
            self.o.push(b'c');
            self.value(2);
            self.s(": void; }");
            self.o.extend_from_slice(b"V-}");
        }
    }
    /// a declaration of the given form (0..8) and type
    fn decl(&mut self, form: usize, ty: usize, n: usize, val: usize) {
        match form {
            0 => {
                self.s("void");
                self.o.push(b'V');
            }
            1 | 2 | 3 => {
                let i = name(n);
                self.s(if form == 3 { "string " } else { "opaque " });
                self.b(&i);
                let (tag, l, r) = [(b'1', "[", "]"), (b'2', "<", ">"), (b'3', "<", ">")][form - 1];
                put_str(&mut self.o, tag, &i);
                self.s(l);
                if form > 1 && val == 3 {
                    self.o.push(b'n');
                } else {
                    self.value(val);
                }
                self.s(r);
            }
            _ => {
                self.ty(ty);
                self.s(if form == 6 { " *" } else { " " });
                let i = name(n);
                self.b(&i);
                put_str(&mut self.o, b'0' + form as u8, &i);
                if form == 4 {
                    self.s("[");
                    self.value(val);
                    self.s("]");
                }
                if form == 5 {
                    self.s("<");
                    if val == 3 {
                        self.o.push(b'n');
                    } else {
                        self.value(val);
                    }
                    self.s(">");
                }
            }
        }
    }
    /// one of the declaration forms with the types and bounds that make sense for it
    fn any_decl(&mut self, n: usize) {
        let form = rt::upto(8);
        let ty = if form >= 4 { rt::upto(18) } else { 0 };
        // every bound with the first and a named type, a name or none with the others
        let all = ty == 0 || ty == 14;
        let val = match form {
            1 | 4 if all => [0, 1, 2, 4, 5, 6, 7][rt::upto(7)],
            2 | 3 | 5 if all => rt::upto(8),
            1 | 4 => 2,
            2 | 3 | 5 => 2 + rt::upto(2),
            _ => 0,
        };
        self.decl(form, ty, n, val)
    }
    fn done(self, what: &'static str) {
        let s = text(self.t);
        let Ok(d) = parser::parse(&s) else { return rt::fail("a well-formed definition was refused") };
        let g = dump(&d);
        rt::observe(&g);
        rt::check(g.len() == self.o.len() && g == self.o, what);
        rt::reach("parsed");
    }
}
fn declared(n: usize) {
    let mut g = Gen { t: vec![], o: vec![] };
    match rt::upto(7) {
        0 => {
            g.s("struct s {");
            put_str(&mut g.o, b's', b"s");
            g.any_decl(n);
            g.s(";};");
            g.o.push(b'}');
        }
        1 => {
            g.s("typedef ");
            g.o.push(b'D');
            g.any_decl(n);
            g.s(";");
        }
        2 => {
            g.s("union u switch (int a) { case 1: ");
            put_str(&mut g.o, b'u', b"u");
            g.o.extend_from_slice(&[b't', 1, 1]);
            put_str(&mut g.o, b'7', b"a");
            g.o.push(b'c');
            r_const(N::Pos(1), &mut g.o);
            g.any_decl(n);
            g.s("; };");
            g.o.extend_from_slice(b"-}");
        }
        3 => {
            g.s("union u switch (int a) { case 1: void; default: ");
            put_str(&mut g.o, b'u', b"u");
            g.o.extend_from_slice(&[b't', 1, 1]);
            put_str(&mut g.o, b'7', b"a");
            g.o.push(b'c');
            r_const(N::Pos(1), &mut g.o);
            g.o.extend_from_slice(b"Vd");
            g.any_decl(n);
            g.s("; };");
            g.o.push(b'}');
        }
        4 => {
            g.s("union u switch (");
            put_str(&mut g.o, b'u', b"u");
            g.any_decl(n);
            g.s(") { case 1: void; };");
            g.o.push(b'c');
            r_const(N::Pos(1), &mut g.o);
            g.o.extend_from_slice(b"V-}");
        }
        5 => {
            g.s("struct s { struct { hyper x; ");
            put_str(&mut g.o, b's', b"s");
            g.o.extend_from_slice(&[b'S', b't', 2, 1]);
            put_str(&mut g.o, b'7', b"x");
            g.any_decl(n);
            g.s("; } y; };");
            g.o.push(b'}');
            put_str(&mut g.o, b'7', b"y");
            g.o.push(b'}');
        }
        _ => {
            // procedure result and argument types
            let (a, b) = (rt::upto(19), rt::upto(19));
            g.s("program p { version v { ");
            put_str(&mut g.o, b'P', b"p");
            put_str(&mut g.o, b'v', b"v");
            let f = name(n);
            put_str(&mut g.o, b'p', &f);
            let one = |g: &mut Gen, k: usize| {
                if k == 18 {
                    g.s("void");
                    g.o.extend_from_slice(&[b't', 9, 1]);
                } else {
                    g.ty(k)
                }
            };
            one(&mut g, a);
            g.s(" ");
            g.b(&f);
            g.s("(");
            one(&mut g, b);
            g.s(") = ");
            g.value(0);
            g.s("; } = 1; } = 1;");
            g.o.push(b'}');
            r_const(N::Pos(1), &mut g.o);
            g.o.push(b'}');
            r_const(N::Pos(1), &mut g.o);
        }
    }
    g.done("a declaration is read as another one")
}
#[unsafe(no_mangle)]
pub fn p05_decl() {
    declared(0)
}
#[unsafe(no_mangle)]
pub fn p05_decl2() {
    declared(2)
}

fn lists(max: usize, n: usize) {
    let mut g = Gen { t: vec![], o: vec![] };
    match rt::upto(7) {
        0 => {
            // definitions of any kind, in order
            let k = rt::upto(max + 1);
            for _ in 0..k {
                match rt::upto(7) {
                    0 => {
                        let i = name(n);
                        g.s("const ");
                        g.b(&i);
                        g.s(" = ");
                        put_str(&mut g.o, b'K', &i);
                        g.value(0);
                        g.s(";");
                    }
                    1 => {
                        let i = name(n);
                        g.s("enum ");
                        g.b(&i);
                        g.s(" { A = 1 };\n");
                        put_str(&mut g.o, b'e', &i);
                        put_str(&mut g.o, b'a', b"A");
                        r_const(N::Pos(1), &mut g.o);
                        g.o.push(b'}');
                    }
                    2 => {
                        let i = name(n);
                        g.s("struct ");
                        g.b(&i);
                        g.s(" { int a; };\n\n");
                        put_str(&mut g.o, b's', &i);
                        g.o.extend_from_slice(&[b't', 1, 1]);
                        put_str(&mut g.o, b'7', b"a");
                        g.o.push(b'}');
                    }
                    3 => {
                        let i = name(n);
                        g.s("union ");
                        g.b(&i);
                        g.s(" switch (int a) { case 1: void; };");
                        put_str(&mut g.o, b'u', &i);
                        g.o.extend_from_slice(&[b't', 1, 1]);
                        put_str(&mut g.o, b'7', b"a");
                        g.o.push(b'c');
                        r_const(N::Pos(1), &mut g.o);
                        g.o.extend_from_slice(b"V-}");
                    }
                    4 => {
                        let i = name(n);
                        g.s("typedef int ");
                        g.b(&i);
                        g.s(";/* x */");
                        g.o.extend_from_slice(&[b'D', b't', 1, 1]);
                        put_str(&mut g.o, b'7', &i);
                    }
                    5 => {
                        let i = name(n);
                        g.s("program ");
                        g.b(&i);
                        g.s(" { version v { int f(int) = 1; } = 1; } = 1;");
                        put_str(&mut g.o, b'P', &i);
                        put_str(&mut g.o, b'v', b"v");
                        put_str(&mut g.o, b'p', b"f");
                        g.o.extend_from_slice(&[b't', 1, 1, b't', 1, 1]);
                        r_const(N::Pos(1), &mut g.o);
                        g.o.push(b'}');
                        r_const(N::Pos(1), &mut g.o);
                        g.o.push(b'}');
                        r_const(N::Pos(1), &mut g.o);
                    }
                    _ => {
                        g.s("%");
                        for b in ascii(1) {
                            rt::assume((b != b'\n') & (b != b'\r'));
                            g.t.push(b);
                        }
                        g.s("\n");
                        g.o.push(b'%');
                    }
                }
            }
        }
        1 => {
            g.s("enum e {");
            put_str(&mut g.o, b'e', b"e");
            let k = 1 + rt::upto(max);
            for i in 0..k {
                if i > 0 {
                    g.s(", ");
                }
                let m = name(n);
                g.b(&m);
                put_str(&mut g.o, b'a', &m);
                g.s("=");
                g.value(rt::upto(3));
            }
            g.s("};");
            g.o.push(b'}');
        }
        2 => {
            g.s("struct s {");
            put_str(&mut g.o, b's', b"s");
            let k = 1 + rt::upto(max);
            for _ in 0..k {
                match rt::upto(4) {
                    0 => g.decl(7, 0, n, 0),
                    1 => g.decl(4, 14, n, 0),
                    2 => g.decl(2, 0, n, 3),
                    _ => g.decl(0, 0, n, 0),
                }
                g.s(";");
            }
            g.s("};");
            g.o.push(b'}');
        }
        3 => {
            // cases with one or two labels each
            g.s("union u switch (int a) {");
            put_str(&mut g.o, b'u', b"u");
            g.o.extend_from_slice(&[b't', 1, 1]);
            put_str(&mut g.o, b'7', b"a");
            let k = 1 + rt::upto(max);
            for _ in 0..k {
                for _ in 0..1 + rt::upto(2) {
                    g.s("case ");
                    g.o.push(b'c');
                    g.value(0);
                    g.s(":");
                }
                match rt::upto(2) {
                    0 => g.decl(7, 0, n, 0),
                    _ => g.decl(0, 0, n, 0),
                }
                g.s(";");
            }
            if rt::upto(2) == 0 {
                g.o.push(b'-');
            } else {
                g.s("default:");
                g.o.push(b'd');
                g.decl(7, 8, n, 0);
                g.s(";");
            }
            g.s("};");
            g.o.push(b'}');
        }
        4 => {
            // many labels on one arm
            g.s("union u switch (unsigned a) {");
            put_str(&mut g.o, b'u', b"u");
            g.o.extend_from_slice(&[b't', 1, 0]);
            put_str(&mut g.o, b'7', b"a");
            for _ in 0..1 + rt::upto(max + 2) {
                g.s("case ");
                g.o.push(b'c');
                g.value(2);
                g.s(" : ");
            }
            g.s("void;};");
            g.o.extend_from_slice(b"V-}");
        }
        5 => {
            g.s("program p {");
            put_str(&mut g.o, b'P', b"p");
            for _ in 0..1 + rt::upto(2) {
                g.s("version ");
                let v = name(n);
                g.b(&v);
                put_str(&mut g.o, b'v', &v);
                g.s("{");
                for _ in 0..1 + rt::upto(max) {
                    let f = name(n);
                    g.s("int ");
                    g.b(&f);
                    g.s("(bool)=");
                    put_str(&mut g.o, b'p', &f);
                    g.o.extend_from_slice(&[b't', 1, 1, b't', 8, 1]);
                    g.value(0);
                    g.s(";");
                }
                g.s("}=");
                g.o.push(b'}');
                g.value(0);
                g.s(";");
            }
            g.s("}=");
            g.o.push(b'}');
            g.value(1);
            g.s(";");
        }
        _ => {
            // something after the last definition: the whole text counts
            let k = rt::upto(3);
            let mut t = vec![];
            for _ in 0..k {
                t.extend_from_slice(b"const a = 1;");
            }
            t.extend_from_slice(&ascii(2));
            return same(t);
        }
    }
    g.done("something of the text is missing or out of order")
}
#[unsafe(no_mangle)]
pub fn p06_lists() {
    lists(3, 0)
}
#[unsafe(no_mangle)]
pub fn p06_lists4() {
    lists(4, 0)
}
entries!(
    p_any1, p_any2, p_any3, p_any4, p01_unicode, p01_nested, p01_runs, p02_any, p02_any4, p02_long, p02_long2, p02_places, p03_exact, p03_affix, p03_affix2, p03_words, p03_words6, p04_gap, p04_gap4, p04_all, p04_glue, p05_decl,
    p05_decl2, p06_lists, p06_lists4
);
