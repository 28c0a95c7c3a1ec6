//! The command line program: what it writes and whether it succeeds, for its arguments and files.
#![allow(dead_code, clippy::all)]
#[path = "../../rt/rt.rs"]
#[macro_use]
mod rt;
mod cli {
    include!(concat!(env!("OUT_DIR"), "/cli.rs"));
}
mod os;
use os::Found;
use rpcgen::gen_code::{Config, gen_code};
use rpcgen::parser;

const OPTIONS: [&str; 4] = ["--use-std-trait", "--use-extra-trait", "--use-indexer", "--use-union"];
/// what the options mean: one bit per option of `OPTIONS`
fn config(set: usize) -> Config {
    let (standard, extra, indexer, union) = (set & 1 != 0, set & 2 != 0, set & 4 != 0, set & 8 != 0);
    Config {
        remove_typedef: true,
        enum_impl_std_trait: standard,
        enum_impl_indexer: !standard && indexer,
        union_impl_union: union,
        union_impl_indexer: !union && (extra || indexer),
    }
}
fn expected(text: &[u8], set: usize) -> Option<Vec<u8>> {
    if !rt::utf8(text) {
        return None;
    }
    let t = unsafe { String::from_utf8_unchecked(text.to_vec()) };
    let d = parser::parse(&t).ok()?;
    gen_code(d, &config(set)).ok().map(|s| s.into_bytes())
}
fn trim(mut b: &[u8]) -> &[u8] {
    while let [r @ .., b'\n' | b' '] = b {
        b = r;
    }
    b
}
fn same(a: &[u8], b: &[u8]) -> bool {
    let (a, b) = (trim(a), trim(b));
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
/// status and output are what they should be
fn judge(want: Option<Vec<u8>>, ok: bool, out: Vec<u8>) {
    match want {
        Some(w) => {
            rt::check(ok, "the program fails although the code can be generated");
            rt::check(same(&w, &out), "the output is not the code generated in the mode the options select");
            rt::reach("generated");
        }
        None => {
            rt::check(!ok, "success is reported although no code can be generated");
            rt::check(out.is_empty(), "there is output although no code can be generated");
            rt::reach("refused");
        }
    }
    rt::observe(&out);
}
fn words(w: &[&[u8]]) -> Vec<Vec<u8>> {
    let mut v = vec![b"rpcgen".to_vec()];
    v.extend(w.iter().map(|x| x.to_vec()));
    v
}
fn the_file(name: &'static [u8], text: Vec<u8>) -> impl Fn(&[u8]) -> Found + Send + 'static {
    move |p| if p == name { Found::File(text.clone()) } else { Found::Errno(2) }
}
fn fill(t: &str, h: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for b in t.bytes() {
        if b == b'$' {
            o.extend_from_slice(h);
        } else {
            o.push(b);
        }
    }
    o
}

const ALL: &str = "const C = $;\nenum e { A = 1, B = $ };\ntypedef e f;\nstruct s { int a; f b<2>; };\nunion u switch (f d) { case A: int x; case B: s y; };\n";
/// every set of options, with the path before, among or after them
#[unsafe(no_mangle)]
pub fn m01_options() {
    let set = rt::upto(16);
    let at = rt::upto(3);
    let d = rt::u8();
    rt::assume(d >= b'0' && d <= b'9');
    let text = fill(ALL, &[d]);
    let mut o: Vec<&[u8]> = vec![];
    for i in 0..4 {
        if set >> i & 1 != 0 {
            o.push(OPTIONS[i].as_bytes());
        }
    }
    if at == 2 {
        o.reverse();
    }
    let k = match at {
        0 => 0,
        1 => o.len(),
        _ => o.len() / 2,
    };
    o.insert(k, b"a.x");
    let want = expected(&text, set);
    os::run(&words(&o), 4096, the_file(b"a.x", text), move |ok, out| judge(want, ok, out));
}


const TEXTS: [&str; 8] = [
    "const C = 1$;\n",
    "struct s {\n    int a$;\n};\n",
    "$enum e { A = 1 };\n",
    "enum e { A = 1, B$ = 2 };\n",
    "typedef opaque o$;\nstruct s { o a; };\n",
    "union u switch (int a) { case 1$: int b; default: void; };\n",
    "struct s { string a<$>; }; // n\n",
    "program P { version V { void F(int) = 1; } = 1$; } = 2;\nconst A = 1;\n",
];
/// definition files with arbitrary bytes in them, read in pieces of any size
pub fn source(most: usize) {
    let t = TEXTS[rt::upto(TEXTS.len())];
    let n = rt::upto(most + 1);
    let h = rt::vec(n);
    let text = fill(t, &h);
    let (set, chunk) = [(0, 4096), (5, 7), (10, 16)][rt::upto(3)];
    let mut o: Vec<&[u8]> = vec![b"in/def.x"];
    for i in 0..4 {
        if set >> i & 1 != 0 {
            o.push(OPTIONS[i].as_bytes());
        }
    }
    let want = expected(&text, set);
    os::run(&words(&o), chunk, the_file(b"in/def.x", text), move |ok, out| judge(want, ok, out));
}
#[unsafe(no_mangle)]
pub fn m01_source() {
    source(1)
}
#[unsafe(no_mangle)]
pub fn m01_source2() {
    source(2)
}

/// the file named is the one that is read: every path of up to three letters has its own content
#[unsafe(no_mangle)]
pub fn m01_path() {
    let n = 1 + rt::upto(3);
    let p = rt::vec(n);
    for b in &p {
        rt::assume(b.is_ascii_lowercase());
    }
    let dir: &[u8] = [&b""[..], b"./", b"/d/", b"-x/"][rt::upto(3)];
    let mut path = dir.to_vec();
    path.extend_from_slice(&p);
    let content = |letters: &[u8]| {
        let mut t = b"const N".to_vec();
        t.extend_from_slice(letters);
        t.extend_from_slice(b" = 1;\n");
        t
    };
    let want = expected(&content(&p), 0);
    let skip = dir.len();
    let files = move |q: &[u8]| if q.len() >= skip && &q[..skip] == dir { Found::File(content(&q[skip..])) } else { Found::Errno(2) };
    os::run(&words(&[&path]), 4096, files, move |ok, out| judge(want, ok, out));
}

/// a file that cannot be opened or read, or is no text
#[unsafe(no_mangle)]
pub fn m01_io() {
    let kind = rt::upto(3);
    let e = [1, 2, 5, 13, 20, 21, 24][rt::upto(7)];
    let n = rt::upto(4);
    let h = rt::vec(n);
    let text = fill("const A = 1; /* $ */\n", &h);
    let want = if kind == 2 { expected(&text, 4) } else { None };
    let files = move |q: &[u8]| {
        if q != b"a.x" {
            return Found::Errno(2);
        }
        match kind {
            0 => Found::Errno(e),
            1 => Found::Unreadable(e),
            _ => Found::File(text.clone()),
        }
    };
    os::run(&words(&[b"--use-indexer", b"a.x"]), 4096, files, move |ok, out| judge(want, ok, out));
}

/// a word like an option, with any one character replaced, added or left out
#[unsafe(no_mangle)]
pub fn m01_words() {
    let mut w = OPTIONS[rt::upto(4)].as_bytes().to_vec();
    let i = rt::upto(w.len() + 1);
    let c = rt::u8();
    rt::assume(c >= 0x20 && c < 0x7F);
    match rt::upto(3) {
        0 if i < w.len() => w[i] = c,
        1 if i < w.len() => {
            w.remove(i);
        }
        _ => w.insert(i, c),
    }
    // help and version are no generation, and an option may come with an empty value
    rt::assume(!(w[0] == b'-' && (w[1] == b'h' || w[1] == b'V')));
    let mut set = 0;
    for k in 0..4 {
        if w == OPTIONS[k].as_bytes() {
            set = 1 << k;
        }
    }
    let text = fill(ALL, b"3");
    let want = if set != 0 { expected(&text, set) } else { None };
    os::run(&words(&[&w, b"a.x"]), 4096, the_file(b"a.x", text), move |ok, out| judge(want, ok, out));
}

/// no path, or two
#[unsafe(no_mangle)]
pub fn m01_usage() {
    let set = rt::upto(16);
    let two = rt::boolean();
    let c = rt::u8();
    rt::assume(c.is_ascii_lowercase());
    let second = [c];
    let mut o: Vec<&[u8]> = vec![];
    for i in 0..4 {
        if set >> i & 1 != 0 {
            o.push(OPTIONS[i].as_bytes());
        }
    }
    if two {
        o.push(b"a.x");
        o.push(&second);
    }
    let files = |_: &[u8]| Found::File(b"const A = 1;\n".to_vec());
    os::run(&words(&o), 4096, files, move |ok, out| judge(None, ok, out));
}

/// long files: many definitions that refer to each other, the last of them with any character
#[unsafe(no_mangle)]
pub fn m01_many() {
    let n = [5, 17, 33, 65, 129, 257][rt::upto(6)];
    let d = rt::u8();
    rt::assume(d < 128);
    let mut t = vec![];
    for i in 0..n {
        t.extend_from_slice(if i % 2 == 0 { format!("const C{i} = {i};\n") } else { format!("struct s{i} {{ int a[C{}]; }};\n", i - 1) }.as_bytes());
    }
    t.extend_from_slice(b"const L = C0;\nstruct l { opaque a[");
    t.push(d);
    t.extend_from_slice(b"]; };\n");
    let want = expected(&t, 0);
    os::run(&words(&[b"a.x"]), 1000, the_file(b"a.x", t), move |ok, out| judge(want, ok, out));
}

entries! { m01_options, m01_source, m01_source2, m01_path, m01_io, m01_words, m01_usage, m01_many }
