//! One definition each: random translation units with repeated declarations, run through the three
//! public pipelines; the generated Rust is parsed and its items counted.
use std::collections::BTreeMap;
use vharness::*;

struct Unit {
    text: String,
    funcs: BTreeMap<String, Option<i64>>,   // name -> constant returned by its definition
    globals: BTreeMap<String, Option<i64>>, // name -> initial value; None: extern only
    types: Vec<String>,
}

fn unit(r: &mut Rng) -> Unit {
    let mut items: Vec<String> = vec![];
    let mut funcs = BTreeMap::new();
    let mut globals = BTreeMap::new();
    let mut types = vec![];
    let mut next = 100i64;
    for f in ["alpha", "Alpha", "beta", "gamma", "BETA", "delta", "zeta"] {
        if r.chance(1, 3) {
            continue;
        }
        let void = r.chance(1, 5);
        let sig = |p: &str, q: &str| if void { format!("void {}(int {}, int {})", f, p, q) } else { format!("int {}(int {}, int {})", f, p, q) };
        let mut any = false;
        for _ in 0..r.below(3) {
            items.push(format!("{}{};", r.pick(&["", "extern "]), sig("a", "b")));
            any = true;
        }
        let mut def = None;
        if r.chance(2, 3) || !any {
            next += 1;
            def = Some(next);
            items.push(if void { format!("{} {{ int k = {}; }}", sig("x", "y"), next) } else { format!("{} {{ return {}; }}", sig("x", "y"), next) });
        }
        funcs.insert(f.to_string(), def);
    }
    for g in ["count", "total", "limit", "errors"] {
        if r.chance(1, 3) {
            continue;
        }
        let (mut ext, mut tent) = (r.below(3), r.below(3));
        let init = r.chance(1, 2);
        if ext == 0 && tent == 0 && !init {
            tent = 1;
        }
        let t = *r.pick(&["int", "unsigned int", "char"]);
        while ext > 0 {
            items.push(format!("extern {} {};", t, g));
            ext -= 1;
        }
        let v = if init {
            next += 1;
            items.push(format!("{}{} {} = {};", r.pick(&["", "", "extern "]), t, g, next % 100));
            Some(next % 100)
        } else if tent > 0 {
            Some(0)
        } else {
            None
        };
        while tent > 0 {
            items.push(format!("{} {};", t, g));
            tent -= 1;
        }
        globals.insert(g.to_string(), v);
    }
    for t in ["Meters", "Seconds"] {
        let n = r.below(3);
        for _ in 0..n {
            items.push(format!("typedef int {};", t));
        }
        if n > 0 {
            types.push(t.to_string());
        }
    }
    // any order
    for i in (1..items.len()).rev() {
        let j = r.below(i + 1);
        items.swap(i, j);
    }
    Unit { text: items.join("\n") + "\n", funcs, globals, types }
}

fn lits(b: &impl quote::ToTokens) -> Vec<i64> {
    let mut v = vec![];
    fn go(t: proc_macro2::TokenStream, v: &mut Vec<i64>) {
        for x in t {
            match x {
                proc_macro2::TokenTree::Group(g) => go(g.stream(), v),
                proc_macro2::TokenTree::Literal(l) => {
                    let s = l.to_string();
                    if let Some(c) = s.strip_prefix("b'").and_then(|s| s.strip_suffix('\'')) {
                        if c.len() == 1 {
                            v.push(c.as_bytes()[0] as i64);
                        }
                    } else {
                        let d: String = s.chars().take_while(|c| c.is_ascii_digit()).collect();
                        if let Ok(n) = d.parse() {
                            v.push(n)
                        }
                    }
                }
                _ => {}
            }
        }
    }
    go(b.to_token_stream(), &mut v);
    v
}

fn check(u: &Unit, out: &str, globals: bool, types: bool) -> Result<(), String> {
    let f = syn::parse_file(out).map_err(|e| format!("the generated text is not Rust: {}", e))?;
    let mut order: Vec<String> = vec![];
    let mut seen_g: BTreeMap<String, i64> = BTreeMap::new();
    let mut seen_t: BTreeMap<String, usize> = BTreeMap::new();
    for it in &f.items {
        match it {
            syn::Item::Fn(x) => {
                let n = x.sig.ident.to_string();
                match u.funcs.get(&n) {
                    None => return Err(format!("function {} is not in the C source", n)),
                    Some(def) => {
                        if order.contains(&n) {
                            return Err(format!("function {} is emitted twice", n));
                        }
                        let ls = lits(&x.block);
                        if let Some(k) = def {
                            if !ls.contains(k) {
                                return Err(format!("function {} lost its body (expected the constant {})", n, k));
                            }
                        }
                        order.push(n);
                    }
                }
            }
            syn::Item::Static(x) => {
                let n = x.ident.to_string();
                if n == "ERRNO" {
                    continue;
                }
                let l = lits(&x.expr);
                if l.len() != 1 {
                    return Err(format!("global {} has no plain initial value", n));
                }
                if seen_g.insert(n.clone(), l[0]).is_some() {
                    return Err(format!("global {} is emitted twice", n));
                }
            }
            syn::Item::Type(x) => {
                *seen_t.entry(x.ident.to_string()).or_default() += 1;
            }
            _ => {}
        }
    }
    for n in u.funcs.keys() {
        if !order.contains(n) {
            return Err(format!("function {} is missing", n));
        }
    }
    let mut s = order.clone();
    s.sort();
    if s != order {
        return Err(format!("functions are not in the fixed (name) order: {:?}", order));
    }
    if globals {
        for (n, v) in &u.globals {
            match (v, seen_g.get(n)) {
                (Some(a), Some(b)) if a == b => {}
                (None, None) => {}
                (v, g) => return Err(format!("global {}: expected {:?}, emitted {:?}", n, v, g)),
            }
        }
        if let Some(n) = seen_g.keys().find(|n| !u.globals.contains_key(*n)) {
            return Err(format!("global {} is not in the C source", n));
        }
    }
    if types {
        for t in &u.types {
            if seen_t.get(t) != Some(&1) {
                return Err(format!("typedef {} is emitted {} times", t, seen_t.get(t).unwrap_or(&0)));
            }
        }
    }
    Ok(())
}

fn main() {
    let mut run = Run::new();
    let dir = run.scratch("p06");
    let file = dir.join("unit.c");
    let mut r = Rng::new(run.args.seed);
    while run.time_left() {
        let u = unit(&mut r);
        std::fs::write(&file, &u.text).unwrap();
        for mode in 0..3 {
            let t2 = u.text.clone();
            let go = || match mode {
                0 => decy_core::transpile(&u.text),
                1 => decy_core::transpile_from_file_path(&file),
                _ => decy_core::transpile_with_box_transform(&u.text),
            };
            let name = ["transpile", "transpile_from_file_path", "transpile_with_box_transform"][mode];
            let out = match run.call(name, &move || t2.clone(), go) {
                Ok(o) => o,
                Err(e) => run.fail(&format!("{} refused a valid translation unit", name), &u.text, &format!("{:#}", e)),
            };
            if let Err(m) = check(&u, &out, mode < 2, mode < 2) {
                run.fail(&format!("{}: {}", name, m), &u.text, &out);
            }
            if r.chance(1, 4) {
                let again = go().unwrap_or_default();
                if again != out {
                    run.fail(&format!("{}: two runs on the same input differ", name), &u.text, &format!("{}\n-----\n{}", out, again));
                }
            }
        }
    }
    run.done()
}
