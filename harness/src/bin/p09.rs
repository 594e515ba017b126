//! Statements and control flow keep their meaning in the generated Rust.
//! Every program goes through the code generator as HIR, and a part of them also through the whole
//! pipeline as C text.  The Rust that comes out is read with syn, checked and run.
use decy_hir::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use vharness::gen::*;
use vharness::prog::*;
use vharness::rust::*;
use vharness::*;

const KEYWORDS: [&str; 8] = ["in", "match", "loop", "fn", "type", "mod", "ref", "where"];

/// None: agrees (or the program has no defined run); Some: what differs
fn differs(f: &HirFunction, text: &str) -> Option<(String, String)> {
    let file = match syn::parse_file(text) {
        Ok(i) => i,
        Err(err) => return Some((format!("does not parse: {}", err), text.to_string())),
    };
    let item = match file.items.iter().find_map(|i| match i { syn::Item::Fn(x) if x.sig.ident == f.name() => Some(x.clone()), _ => None }) {
        Some(i) => i,
        None => return Some(("the function is missing".into(), text.to_string())),
    };
    for inp in [[0i64, 0, 0], [1, 2, 3], [-5, 20, 7], [4, 1, 1]] {
        if let Ok(o) = Interp::run(f, &inp) {
            let notes = Rc::new(RefCell::new(vec![]));
            let n2 = notes.clone();
            let mut r = Rust::new();
            r.host = Box::new(move |n, a| {
                let a: Vec<i64> = a.iter().map(|x| *x as i64).collect();
                let r = opaque(n, &a, n2.borrow().len());
                n2.borrow_mut().push(format!("{}({:?})", n, a));
                r as i128
            });
            let got = r.run_fn(&item, &[inp[0] as i128, inp[1] as i128, inp[2] as i128]);
            let want = if *f.return_type() == HirType::Void { V::Unit } else { V::Int(32, true, o.ret.unwrap_or(-99) as i128) };
            let wt: Vec<String> = o.trace.iter().filter(|t| !t.starts_with("final ")).cloned().collect();
            let gt = notes.borrow().clone();
            if got != Ok(want) || wt != gt {
                let k = match &got {
                    Ok(_) => "wrong value".to_string(),
                    Err(b) => format!("{:?}", b).chars().take(60).collect(),
                };
                return Some((k, format!("a={} b={} c={}: C {:?} {:?}, Rust {:?} {:?}\n{}", inp[0], inp[1], inp[2], want, wt, got, gt, text)));
            }
        }
    }
    None
}

fn program(rng: &mut Rng, calls: bool) -> HirFunction {
    let first = if rng.chance(1, 6) { vec!["in".into(), "match".into(), "c".into()] } else { vec!["a".into(), "b".into(), "c".into()] };
    let (void, main) = (rng.chance(1, 12), rng.chance(1, 12));
    let values: Vec<i32> = (0..3).map(|_| rng.below(12) as i32 - 4).collect();
    let void = void && !main;
    let mut pg = Prog { r: rng, scopes: vec![first, vec![]], n: 0, shadow: true, names: &KEYWORDS, calls: calls || void, void };
    if main {
        pg.main(&values)
    } else {
        pg.function()
    }
}

/// whole programs with global variables that locals shadow, and the status C gives them
const GLOBALS: &[(&str, i32)] = &[(include_str!("../c/globals1.c"), 85), (include_str!("../c/globals2.c"), 52), (include_str!("../c/globals3.c"), 171), (include_str!("../c/globals4.c"), 46)];
fn globals(run: &mut Run, dir: &std::path::Path) {
    for (i, (c, want)) in GLOBALS.iter().enumerate() {
        let text = match run.call("transpile", &|| c.to_string(), || decy_core::transpile(c)) {
            Ok(t) => t,
            Err(e) => run.fail("a program with globals is refused", c, &e.to_string()),
        };
        let (file, exe) = (dir.join(format!("g{}.rs", i)), dir.join(format!("g{}", i)));
        std::fs::write(&file, &text).expect("scratch file");
        let out = std::process::Command::new("rustc").args(["--edition", "2021", "--cap-lints", "allow", "-C", "debuginfo=0", "-o"]).arg(&exe).arg(&file).output();
        match out {
            Err(_) => continue,
            Ok(o) if !o.status.success() => run.fail("a program with globals does not compile in Rust", c, &format!("{}\n{}", text, String::from_utf8_lossy(&o.stderr))),
            _ => {}
        }
        let mut child = match std::process::Command::new(&exe).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn() {
            Ok(c) => c,
            Err(_) => continue,
        };
        let t = std::time::Instant::now();
        let got = loop {
            match child.try_wait() {
                Ok(Some(s)) => break s.code(),
                _ if t.elapsed().as_secs() > 20 => {
                    let _ = child.kill();
                    let _ = child.wait();
                    break None;
                }
                _ => std::thread::sleep(std::time::Duration::from_millis(5)),
            }
        };
        if got != Some(*want) {
            run.fail("a program with globals ends with another status in Rust than in C", c, &format!("C: {}, Rust: {:?}\n{}", want, got, text));
        }
    }
}
fn main() {
    let mut run = Run::new();
    let g = decy_codegen::CodeGenerator::new();
    let exp = std::env::var("EXPERIMENT").is_ok();
    let mut bad: BTreeMap<String, (usize, String)> = BTreeMap::new();
    let dir = run.scratch("p09");
    globals(&mut run, &dir);
    let file = dir.join("p.c");
    let mut rng = Rng::new(run.args.seed);
    let mut n: u64 = 0;
    let mut rc = Rustc::new(if run.args.secs > 30.0 { 20000 } else { 1500 });
    let shapes = shapes();
    let first = shapes.len() as u64;
    let thorough = run.args.secs > 30.0;
    while run.time_left() || n < first + 2000 {
        n += 1;
        let f = if n <= first { shapes[n as usize - 1].clone() } else { program(&mut rng, n % 8 == 0) };
        let show = || c_function(&f, n);
        let d;
        let as_c = if n > first { n % 8 == 0 } else { n % 16 == 4 || thorough && n % 2 == 0 };
        if !as_c {
            let text = run.call("generate_function", &show, || g.generate_function(&f));
            d = differs(&f, &text).map(|(k, t)| (format!("hir: {}", k), t));
            if d.is_none() {
                rc.add(&mut run, show(), &text, "fn note(x: i32) {} fn get(x: i32) -> i32 { x }");
            }
        } else {
            let src = format!("void note(int x);\nint get(int x);\n{}", c_function(&f, n));
            match run.call("transpile", &show, || match n / 8 % 4 {
                1 => {
                    std::fs::write(&file, &src).expect("scratch file");
                    decy_core::transpile_from_file_path(&file)
                }
                _ => decy_core::transpile(&src),
            }) {
                Ok(t) => {
                    d = differs(&f, &t).map(|(k, t)| (format!("pipeline {}: {}", n / 8 % 4, k), t));
                    if d.is_none() {
                        rc.add(&mut run, src.clone(), &t, &format!("{}{}", if t.contains("fn note(") { "" } else { "fn note(x: i32) {} " }, if t.contains("fn get(") { "" } else { "fn get(x: i32) -> i32 { x }" }));
                    }
                }
                Err(e) => d = Some((format!("pipeline: refused: {}", e), String::new())),
            }
        }
        if let Some((k, t)) = d {
            if exp {
                let x = bad.entry(k).or_insert((0, String::new()));
                x.0 += 1;
                let t = format!("{}{}", c_function(&f, n), t);
                if x.1.is_empty() || x.1.len() > t.len() {
                    x.1 = t;
                }
            } else {
                run.fail("a function does not do in Rust what it does in C", &c_function(&f, n), &format!("{}\n{}", k, t));
            }
        }
    }
    rc.flush(&mut run);
    for (k, v) in &bad {
        println!("== {} {}\n{}", v.0, k, v.1);
    }
    run.done()
}
