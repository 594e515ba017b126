//! A printf call prints, in the generated Rust, what it prints in C.
//! C functions full of printf calls go through the whole pipeline; what comes out is compiled, run, and
//! its output compared byte by byte with what C prints (computed here from the pieces of the format).
use std::collections::BTreeMap;
use vharness::*;

/// the values a function is called with
#[derive(Clone, Copy)]
struct In {
    a: i32,
    b: i32,
    c: u8,
    u: u32,
    s: &'static str,
}
const INPUTS: [In; 4] = [
    In { a: 0, b: 7, c: b'A', u: 0, s: "left" },
    In { a: -42, b: 3, c: b'{', u: 3_000_000_000, s: "" },
    In { a: 123456, b: -1, c: b' ', u: 255, s: "a {b} %d \"c\"" },
    In { a: i32::MIN + 1, b: 12, c: b'%', u: u32::MAX, s: "x\\y'z" },
];

/// an argument: C text and what it is worth
enum A {
    Int(String, Box<dyn Fn(In) -> i64>),
    Str(String, Box<dyn Fn(In) -> String>),
}

struct Call {
    fmt: String,
    args: Vec<A>,
    /// what is printed, per input
    want: Box<dyn Fn(In) -> Vec<u8>>,
}

#[derive(Clone)]
struct Conv {
    left: bool,
    zero: bool,
    width: Option<usize>,
    prec: Option<usize>,
    spec: char,
}
fn pad(s: String, c: &Conv) -> String {
    let n = s.chars().count();
    let w = c.width.unwrap_or(0);
    if n >= w {
        return s;
    }
    if c.left {
        return format!("{}{}", s, " ".repeat(w - n));
    }
    if c.zero {
        return match s.strip_prefix('-') {
            Some(r) => format!("-{}{}", "0".repeat(w - n), r),
            None => format!("{}{}", "0".repeat(w - n), s),
        };
    }
    format!("{}{}", " ".repeat(w - n), s)
}
/// what C prints for one conversion (the argument already converted to int or unsigned int)
fn conv_int(c: &Conv, v: i64) -> String {
    match c.spec {
        'd' | 'i' => pad((v as i32).to_string(), c),
        'u' => pad((v as u32).to_string(), c),
        'x' => pad(format!("{:x}", v as u32), c),
        'X' => pad(format!("{:X}", v as u32), c),
        'o' => pad(format!("{:o}", v as u32), c),
        'c' => pad(((v as u8) as char).to_string(), c),
        _ => unreachable!(),
    }
}
fn conv_str(c: &Conv, s: &str) -> String {
    let t: String = match c.prec {
        Some(p) => s.chars().take(p).collect(),
        None => s.to_string(),
    };
    pad(t, c)
}
fn conv_text(r: &mut Rng, c: &Conv) -> String {
    let mut f = String::new();
    let mut flags: Vec<char> = vec![];
    if c.left {
        flags.push('-');
        if r.chance(1, 8) {
            flags.push('-');
        }
    }
    if c.zero {
        flags.push('0');
    }
    if r.chance(1, 2) {
        flags.reverse();
    }
    f.push('%');
    f.extend(flags);
    if let Some(w) = c.width {
        f.push_str(&w.to_string());
    }
    if let Some(p) = c.prec {
        f.push_str(&format!(".{}", p));
    }
    f.push(c.spec);
    f
}

/// one character of a string literal: C text, value
fn chr(r: &mut Rng, fmt: bool) -> (String, u8) {
    const ESC: [(&str, u8); 17] = [
        ("\\n", 10), ("\\t", 9), ("\\\\", 92), ("\\\"", 34), ("\\'", 39), ("\\a", 7), ("\\b", 8), ("\\f", 12), ("\\v", 11),
        ("\\r", 13), ("\\?", b'?'), ("\\033", 27), ("\\1", 1), ("\\177", 127), ("\\x41", 65), ("\\x1b", 27), ("\\12", 10),
    ];
    if r.chance(1, 6) {
        let (t, v) = *r.pick(&ESC);
        // a digit after an octal or hexadecimal escape would belong to it; a brace written as an escape is
        // a literal brace for C and for the generated format string
        return (t.to_string(), v);
    }
    if r.chance(1, 5) {
        let v = *r.pick(&[b'{', b'}', b'{', b'}', b' ', b':', b'<', b'0', b'\'']);
        return ((v as char).to_string(), v);
    }
    loop {
        let v = 32 + r.below(95) as u8;
        if v == b'"' || v == b'\\' {
            continue;
        }
        if v == b'%' {
            if fmt {
                return ("%%".into(), v);
            }
            return ("%".into(), v);
        }
        if v == b'?' {
            continue; // no trigraphs
        }
        return ((v as char).to_string(), v);
    }
}
/// a piece of literal text that stands on its own
fn text(r: &mut Rng, fmt: bool, max: usize) -> (String, Vec<u8>) {
    let mut t = String::new();
    let mut v = vec![];
    let mut open = false; // an escape that a digit would extend
    for _ in 0..r.below(max + 1) {
        let (a, b) = chr(r, fmt);
        if open && a.len() == 1 && (b as char).is_ascii_hexdigit() {
            continue;
        }
        open = a.len() > 2 || a == "\\1";
        t.push_str(&a);
        v.push(b);
    }
    if open {
        t.push(';');
        v.push(b';');
    }
    (t, v)
}

fn int_arg(r: &mut Rng, spec: char) -> A {
    let f = |s: &str, g: Box<dyn Fn(In) -> i64>| A::Int(s.to_string(), g);
    if spec == 'u' {
        return match r.below(4) {
            0 => f("u", Box::new(|i| i.u as i64)),
            1 => f("7", Box::new(|_| 7)),
            2 => f("c", Box::new(|i| i.c as i64)),
            _ => f("a > b", Box::new(|i| (i.a > i.b) as i64)),
        };
    }
    if spec == 'c' {
        return match r.below(16) {
            11 | 12 => {
                let v = 5 + r.below(123) as i64; // 2, 3 and 4 separate the runs
                let t = match r.below(3) {
                    0 => format!("'\\{:o}'", v),
                    1 => format!("'\\{:03o}'", v),
                    _ => format!("'\\x{:02x}'", v),
                };
                f(&t, Box::new(move |_| v))
            }
            15 => f("'\\?'", Box::new(|_| 63)),
            13 => f("'\\1'", Box::new(|_| 1)),
            14 => f("'\"'", Box::new(|_| 34)),
            10 => f("'\\101'", Box::new(|_| 65)),
            8 => f("'\\033'", Box::new(|_| 27)),
            9 => f("c > 'm' ? c : '\\t'", Box::new(|i| if i.c > b'm' { i.c as i64 } else { 9 })),
            0 | 1 => f("c", Box::new(|i| i.c as i64)),
            2 => f("65", Box::new(|_| 65)),
            3 => f("'x'", Box::new(|_| 'x' as i64)),
            4 => f("'\\''", Box::new(|_| 39)),
            5 => f("a > b ? 'p' : 'q'", Box::new(|i| if i.a > i.b { 'p' as i64 } else { 'q' as i64 })),
            6 => f("'\\n'", Box::new(|_| 10)),
            _ => f("'\\\\'", Box::new(|_| 92)),
        };
    }
    match r.below(13) {
        0 | 1 => f("a", Box::new(|i| i.a as i64)),
        2 => f("b", Box::new(|i| i.b as i64)),
        3 => f("c", Box::new(|i| i.c as i64)),
        4 => f("a / 3 + b", Box::new(|i| (i.a / 3 + i.b) as i64)),
        5 => f("a < b", Box::new(|i| (i.a < i.b) as i64)),
        6 => f("a == b || b > 5", Box::new(|i| (i.a == i.b || i.b > 5) as i64)),
        7 => f("!a", Box::new(|i| (i.a == 0) as i64)),
        8 => f("-17", Box::new(|_| -17)),
        9 => f("a > b ? a : b", Box::new(|i| i.a.max(i.b) as i64)),
        10 => f("a & b", Box::new(|i| (i.a & i.b) as i64)),
        11 => f("1000000", Box::new(|_| 1000000)),
        _ => f("half(b)", Box::new(|i| (i.b / 2) as i64)),
    }
}
fn str_arg(r: &mut Rng) -> A {
    if r.chance(1, 4) {
        return match r.below(4) {
            0 => A::Str("t".into(), Box::new(|_| "w {0}".into())),
            1 => A::Str("k".into(), Box::new(|_| "\"q\"".into())),
            _ => A::Str("s".into(), Box::new(|i| i.s.into())),
        };
    }
    let (t, v) = text(r, false, 6);
    let v = String::from_utf8(v).unwrap_or_default();
    if r.chance(1, 4) {
        let (t2, v2) = text(r, false, 6);
        let v2 = String::from_utf8(v2).unwrap_or_default();
        return A::Str(format!("a > b ? \"{}\" : \"{}\"", t, t2), Box::new(move |i| if i.a > i.b { v.clone() } else { v2.clone() }));
    }
    A::Str(format!("\"{}\"", t), Box::new(move |_| v.clone()))
}

fn build(parts: Vec<(String, P)>) -> Call {
    let fmt: String = parts.iter().map(|p| p.0.clone()).collect();
    let mut args = vec![];
    let mut outs: Vec<Box<dyn Fn(In) -> Vec<u8>>> = vec![];
    for (_, p) in parts {
        match p {
            P::Lit(v) => outs.push(Box::new(move |_| v.clone())),
            P::Conv(c, a) => {
                let (a, g): (A, Box<dyn Fn(In) -> Vec<u8>>) = match a {
                    A::Int(t, f) => {
                        let f = std::rc::Rc::new(f);
                        let f2 = f.clone();
                        (A::Int(t, Box::new(move |i| f2(i))), Box::new(move |i| conv_int(&c, f(i)).into_bytes()))
                    }
                    A::Str(t, f) => {
                        let f = std::rc::Rc::new(f);
                        let f2 = f.clone();
                        (A::Str(t, Box::new(move |i| f2(i))), Box::new(move |i| conv_str(&c, &f(i)).into_bytes()))
                    }
                };
                args.push(a);
                outs.push(g);
            }
        }
    }
    Call { fmt, args, want: Box::new(move |i| outs.iter().flat_map(|o| o(i)).collect()) }
}
enum P {
    Lit(Vec<u8>),
    Conv(Conv, A),
}
fn conv(r: &mut Rng) -> Conv {
    let spec = *r.pick(&['d', 'd', 'i', 'u', 'x', 'X', 'o', 'c', 's', 's']);
    random_conv(r, spec)
}
fn random_conv(r: &mut Rng, spec: char) -> Conv {
    let w = *r.pick(&[1usize, 2, 3, 5, 8, 10, 12, 20]);
    let mut c = Conv { left: false, zero: false, width: None, prec: None, spec };
    if r.chance(1, 2) {
        return c;
    }
    match spec {
        's' => {
            if r.chance(1, 2) {
                c.left = true;
                c.width = Some(w);
            }
            if r.chance(1, 2) {
                c.prec = Some(r.below(8));
            }
        }
        'c' => {
            c.left = r.chance(1, 2);
            c.width = Some(w);
        }
        _ => {
            c.left = r.chance(1, 3);
            c.zero = r.chance(1, 3);
            c.width = Some(w);
        }
    }
    c
}
fn part(r: &mut Rng, c: Conv) -> (String, P) {
    let a = if c.spec == 's' { str_arg(r) } else { int_arg(r, c.spec) };
    (conv_text(r, &c), P::Conv(c, a))
}
fn call(r: &mut Rng) -> Call {
    let mut parts = vec![];
    let (t, v) = text(r, true, 6);
    parts.push((t, P::Lit(v)));
    for _ in 0..r.below(5) {
        let c = conv(r);
        parts.push(part(r, c));
        let (t, v) = text(r, true, 6);
        parts.push((t, P::Lit(v)));
    }
    build(parts)
}
/// every conversion with every flag and several widths; every character
fn directed(r: &mut Rng) -> Vec<Call> {
    let mut out = vec![];
    for spec in ['d', 'i', 'u', 'x', 'X', 'o', 'c', 's'] {
        for (left, zero) in [(false, false), (true, false), (false, true), (true, true)] {
            for width in [None, Some(1), Some(4), Some(9), Some(15)] {
                for prec in [None, Some(0), Some(2), Some(9)] {
                    let text = spec == 's' || spec == 'c';
                    if spec != 's' && prec.is_some() || text && zero || spec == 's' && width.is_some() && !left || (left || zero) && width.is_none() {
                        continue;
                    }
                    let c = Conv { left, zero, width, prec, spec };
                    for n in 0..3 {
                        let mut parts = vec![];
                        if n > 0 {
                            parts.push((if n == 1 { "%%".to_string() } else { "{".into() }, P::Lit(vec![if n == 1 { b'%' } else { b'{' }])));
                        }
                        parts.push(part(r, c.clone()));
                        let (t, v) = text2(r);
                        parts.push((t, P::Lit(v)));
                        // another conversion after it: the arguments keep their places
                        let k = conv(r);
                        parts.push(part(r, k));
                        out.push(build(parts));
                    }
                }
            }
        }
    }
    for v in 32u8..127 {
        if v == b'\\' || v == b'"' || v == b'?' {
            continue;
        }
        let t = if v == b'%' { "%%".to_string() } else { (v as char).to_string() };
        out.push(build(vec![(t.clone(), P::Lit(vec![v]))]));
        let c = conv(r);
        let p = part(r, c);
        out.push(build(vec![(t.clone(), P::Lit(vec![v])), p, (format!("{}{}", t, t), P::Lit(vec![v, v]))]));
    }
    out
}
fn text2(r: &mut Rng) -> (String, Vec<u8>) {
    let v = *r.pick(&[b'|', b'{', b'}', b' ', b':', b'd', b's', b'l', b'.', b'5', b'-']);
    ((v as char).to_string(), vec![v])
}

struct Item {
    src: String,
    rust: String,
    /// per input, per call
    want: Vec<Vec<Vec<u8>>>,
    calls: Vec<String>,
}

fn run_batch(dir: &std::path::Path, items: &[&Item], tag: usize) -> Option<(usize, String, String)> {
    let mut src = String::from("#![allow(warnings)]\n");
    let mut at = vec![];
    for (i, it) in items.iter().enumerate() {
        at.push(src.matches('\n').count() + 1);
        let half = if it.rust.contains("fn half(") { "" } else { "fn half(x: i32) -> i32 { x / 2 }" };
        let extra: String = ["mark"].iter().filter(|n| !it.rust.contains(&format!("fn {}(", n))).map(|n| format!("fn {}(x: i32) {{ print!(\"\\u{{2}}\"); }}", n)).collect();
        let rust = it.rust.replace("fn mark(mut x: i32) {", "fn mark(mut x: i32) { print!(\"\\u{2}\");").replace("fn mark(x: i32) {", "fn mark(x: i32) { print!(\"\\u{2}\");");
        src.push_str(&format!("pub mod m{} {{ #![allow(static_mut_refs)]\n{}\n{}\n{}\npub fn go(a: i32, b: i32, c: u8, u: u32, s: &str) {{ show(a, b, c, u, s) }}\n}}\n", i, half, extra, rust));
    }
    src.push_str("fn main() {\n std::panic::set_hook(Box::new(|_| {}));\n");
    for (i, _) in items.iter().enumerate() {
        for x in INPUTS {
            src.push_str(&format!(" if std::panic::catch_unwind(|| m{}::go({}, {}, {}, {}, {:?})).is_err() {{ print!(\"\\u{{4}}\"); }} print!(\"\\u{{3}}\");\n", i, x.a, x.b, x.c, x.u, x.s));
        }
    }
    src.push_str("}\n");
    let file = dir.join(format!("b{}.rs", tag));
    let exe = dir.join(format!("b{}", tag));
    std::fs::write(&file, &src).expect("scratch file");
    let out = std::process::Command::new("rustc").args(["--edition", "2021", "--cap-lints", "allow", "-C", "overflow-checks=on", "-C", "debuginfo=0", "--error-format", "short", "-o"]).arg(&exe).arg(&file).output().ok()?;
    if !out.status.success() {
        let e = String::from_utf8_lossy(&out.stderr).to_string();
        let l = e.lines().find(|l| l.contains(".rs:") && l.contains("error"))?;
        let rest = l.split(".rs:").nth(1)?;
        let line: usize = rest.split(':').next().and_then(|x| x.parse().ok()).unwrap_or(1);
        let i = at.iter().rposition(|a| *a <= line).unwrap_or(0);
        let code = src.lines().nth(line - 1).unwrap_or("").trim().to_string();
        let kind = rest.splitn(3, ':').nth(2).unwrap_or(rest).trim().to_string();
        return Some((i, format!("rustc rejects it: {}", kind), code));
    }
    let out = std::process::Command::new(&exe).output().ok()?.stdout;
    let mut runs = out.split(|b| *b == 3);
    for (i, it) in items.iter().enumerate() {
        for (k, w) in it.want.iter().enumerate() {
            let got = runs.next().unwrap_or(b"");
            if got.last() == Some(&4) {
                return Some((i, "panics".into(), format!("input {}", k)));
            }
            let got: Vec<&[u8]> = got.split(|b| *b == 2).collect();
            for (n, x) in w.iter().enumerate() {
                let g = got.get(n).copied().unwrap_or(b"nothing");
                if g != x.as_slice() {
                    let v = INPUTS[k];
                    return Some((
                        i,
                        "prints something else".into(),
                        format!("a={} b={} c={} u={} s={:?}: {} prints {:?} in C, {:?} in Rust", v.a, v.b, v.c, v.u, v.s, it.calls[n], String::from_utf8_lossy(x), String::from_utf8_lossy(g)),
                    ));
                }
            }
        }
    }
    None
}

fn item(run: &mut Run, calls: Vec<Call>, n: usize) -> Item {
    let mut src = String::from("#include <stdio.h>\nint half(int x) { return x / 2; }\nvoid mark(int x);\nvoid show(int a, int b, char c, unsigned int u, const char *s) {\n    char *t = \"w {0}\";\n    const char *k = \"\\\"q\\\"\";\n");
    let mut texts = vec![];
    let mut want: Vec<Vec<Vec<u8>>> = INPUTS.iter().map(|_| vec![]).collect();
    for (k, c) in calls.iter().enumerate() {
        let args: String = c.args.iter().map(|a| format!(", {}", match a { A::Int(t, _) | A::Str(t, _) => t })).collect();
        // a string may be written in two pieces
        let fmt = match c.fmt.find(' ') {
            Some(p) if (n + k) % 3 == 0 && !c.fmt[..p].ends_with('%') => format!("{} \" \"{}", &c.fmt[..p], &c.fmt[p + 1..]).replacen(" \" \"", "\" \" ", 1),
            _ => c.fmt.clone(),
        };
        let t = format!("printf(\"{}\"{});", fmt, args);
        // under a condition, in a loop that runs once, or on its own
        let line = match (n + k) % 7 {
            3 => format!("    if (a != 77777) {{ {} }}\n", t),
            5 => format!("    for (int i = 0; i < 1; i++) {{ {} }}\n", t),
            _ => format!("    {}\n", t),
        };
        src.push_str(&line);
        src.push_str("    mark(0);\n");
        texts.push(t);
        for (k, i) in INPUTS.iter().enumerate() {
            want[k].push((c.want)(*i));
        }
    }
    src.push_str("}\n");
    let s2 = src.clone();
    match run.call("transpile", &|| s2.clone(), || decy_core::transpile(&src)) {
        Ok(rust) => Item { src, rust, want, calls: texts },
        Err(e) => run.fail("a function that prints is refused", &src, &e.to_string()),
    }
}

fn main() {
    let mut run = Run::new();
    let exp = std::env::var("EXPERIMENT").is_ok();
    let mut bad: BTreeMap<String, (usize, String)> = BTreeMap::new();
    let dir = run.scratch("p11");
    let mut rng = Rng::new(run.args.seed);
    let mut rounds = 0;
    while run.time_left() || rounds < 2 {
        rounds += 1;
        let mut calls = if rounds == 1 { directed(&mut rng) } else { vec![] };
        while calls.len() < 1600 {
            calls.push(call(&mut rng));
        }
        let per = if exp { 1 } else { 10 };
        let mut items = vec![];
        let mut it = calls.into_iter();
        loop {
            let cs: Vec<Call> = it.by_ref().take(per).collect();
            if cs.is_empty() {
                break;
            }
            let k = items.len();
            items.push(item(&mut run, cs, k));
        }
        let chunks: Vec<Vec<&Item>> = items.chunks(if exp { 1 } else { 16 }).map(|c| c.iter().collect()).collect();
        let next = std::sync::atomic::AtomicUsize::new(0);
        let found = std::sync::Mutex::new(vec![]);
        std::thread::scope(|s| {
            for _ in 0..6 {
                s.spawn(|| loop {
                    let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if k >= chunks.len() {
                        break;
                    }
                    if let Some(r) = run_batch(&dir, &chunks[k], k) {
                        found.lock().unwrap().push((k, r));
                    }
                });
            }
        });
        let mut found = found.into_inner().unwrap();
        found.sort_by_key(|f| f.0);
        for (k, (i, what, detail)) in found {
            let it = chunks[k][i];
            let t = format!("{}\n{}", detail, it.rust);
            if exp {
                let key = what.split(": ").take(3).collect::<Vec<_>>().join(": ");
                let x = bad.entry(key).or_insert((0, String::new()));
                x.0 += 1;
                let t = format!("{}{}", it.src, t);
                if x.1.is_empty() || x.1.len() > t.len() {
                    x.1 = t;
                }
            } else {
                run.fail("printf does not print in Rust what it prints in C", &it.src, &format!("{}\n{}", what, t));
            }
        }
    }
    for (k, v) in &bad {
        println!("== {} {}\n{}", v.0, k, v.1);
    }
    run.done()
}
