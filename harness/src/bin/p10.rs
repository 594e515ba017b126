//! Functions on arrays: random C programs whose functions take an array and its length, run by an
//! interpreter of C that stops at undefined behaviour, against the generated Rust compiled by rustc.
use std::collections::{BTreeMap, HashMap};
use vharness::*;

#[derive(Clone, Debug)]
enum E {
    N(i64),
    V(String),
    Ix(String, Box<E>),
    Dp(String, Box<E>), // *(p + e)
    B(&'static str, Box<E>, Box<E>),
    T(Box<E>, Box<E>, Box<E>),
    Call(String, Vec<E>),
}
#[derive(Clone, Debug)]
enum S {
    Decl(String, E),
    Arr(String, usize, Option<Vec<i64>>),
    Set(String, E),
    Put(String, E, E),
    Add(String, E, E),  // a[i] += e
    Step(String, E),    // a[i]++
    If(E, Vec<S>, Option<Vec<S>>),
    While(E, Vec<S>),
    For(String, bool, E, E, Vec<S>), // variable, declared here, from, condition (step 1)
    Switch(E, Vec<(i64, Vec<S>)>, Vec<S>),
    Do(E),
    Ret(Option<E>),
}
#[derive(Clone, Debug)]
struct P {
    name: String,
    arr: bool,
    cst: bool,
}
#[derive(Clone, Debug)]
struct F {
    name: String,
    void: bool,
    params: Vec<P>,
    body: Vec<S>,
}

fn b(op: &'static str, x: E, y: E) -> E {
    E::B(op, Box::new(x), Box::new(y))
}
fn v(s: &str) -> E {
    E::V(s.to_string())
}
fn ix(a: &str, e: E) -> E {
    E::Ix(a.to_string(), Box::new(e))
}

// ------------------------------------------------------------------ printing

fn pe(e: &E) -> String {
    match e {
        E::N(n) => n.to_string(),
        E::V(x) => x.clone(),
        E::Ix(a, i) => format!("{}[{}]", a, pe(i)),
        E::Dp(a, i) => format!("*({} + {})", a, pp(i)),
        E::B(o, x, y) => format!("{} {} {}", pp(x), o, pp(y)),
        E::T(c, x, y) => format!("{} ? {} : {}", pp(c), pp(x), pp(y)),
        E::Call(f, a) => format!("{}({})", f, a.iter().map(pe).collect::<Vec<_>>().join(", ")),
    }
}
fn pp(e: &E) -> String {
    match e {
        E::B(..) | E::T(..) => format!("({})", pe(e)),
        _ => pe(e),
    }
}
fn ps(b: &[S], n: usize, out: &mut String) {
    let pad = "    ".repeat(n);
    for s in b {
        match s {
            S::Decl(x, e) => out.push_str(&format!("{}int {} = {};\n", pad, x, pe(e))),
            S::Arr(x, k, None) => out.push_str(&format!("{}int {}[{}];\n", pad, x, k)),
            S::Arr(x, k, Some(v)) => out.push_str(&format!("{}int {}[{}] = {{{}}};\n", pad, x, k, v.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(", "))),
            S::Set(x, e) => out.push_str(&format!("{}{} = {};\n", pad, x, pe(e))),
            S::Put(a, i, e) => out.push_str(&format!("{}{}[{}] = {};\n", pad, a, pe(i), pe(e))),
            S::Add(a, i, e) => out.push_str(&format!("{}{}[{}] += {};\n", pad, a, pe(i), pe(e))),
            S::Step(a, i) => out.push_str(&format!("{}{}[{}]++;\n", pad, a, pe(i))),
            S::Do(e) => out.push_str(&format!("{}{};\n", pad, pe(e))),
            S::Ret(None) => out.push_str(&format!("{}return;\n", pad)),
            S::Ret(Some(e)) => out.push_str(&format!("{}return {};\n", pad, pe(e))),
            S::If(c, t, e) => {
                out.push_str(&format!("{}if ({}) {{\n", pad, pe(c)));
                ps(t, n + 1, out);
                if let Some(e) = e {
                    out.push_str(&format!("{}}} else {{\n", pad));
                    ps(e, n + 1, out);
                }
                out.push_str(&format!("{}}}\n", pad));
            }
            S::While(c, t) => {
                out.push_str(&format!("{}while ({}) {{\n", pad, pe(c)));
                ps(t, n + 1, out);
                out.push_str(&format!("{}}}\n", pad));
            }
            S::For(x, d, from, c, t) => {
                out.push_str(&format!("{}for ({}{} = {}; {}; {}++) {{\n", pad, if *d { "int " } else { "" }, x, pe(from), pe(c), x));
                ps(t, n + 1, out);
                out.push_str(&format!("{}}}\n", pad));
            }
            S::Switch(c, cs, d) => {
                out.push_str(&format!("{}switch ({}) {{\n", pad, pe(c)));
                for (k, t) in cs {
                    out.push_str(&format!("{}case {}: {{\n", pad, k));
                    ps(t, n + 1, out);
                    out.push_str(&format!("{}    break;\n{}}}\n", pad, pad));
                }
                out.push_str(&format!("{}default: {{\n", pad));
                ps(d, n + 1, out);
                out.push_str(&format!("{}    break;\n{}}}\n{}}}\n", pad, pad, pad));
            }
        }
    }
}
fn pf(f: &F) -> String {
    let mut o = format!(
        "{} {}({}) {{\n",
        if f.void { "void" } else { "int" },
        f.name,
        f.params.iter().map(|p| format!("{}int {}{}", if p.cst { "const " } else { "" }, if p.arr { "*" } else { "" }, p.name)).collect::<Vec<_>>().join(", ")
    );
    ps(&f.body, 1, &mut o);
    o.push_str("}\n");
    o
}

// ------------------------------------------------------------------ C

#[derive(Clone, Copy)]
enum Val {
    I(i32),
    A(usize, usize), // array and how many of its elements
}
struct M<'a> {
    fs: &'a [F],
    heap: Vec<Vec<Option<i32>>>,
    scopes: Vec<HashMap<String, Val>>,
    fuel: usize,
}
type R<T> = Result<T, ()>;
impl<'a> M<'a> {
    fn get(&self, x: &str) -> R<Val> {
        self.scopes.iter().rev().find_map(|s| s.get(x).copied()).ok_or(())
    }
    fn int(&mut self, e: &E) -> R<i32> {
        match self.ev(e)? {
            Val::I(i) => Ok(i),
            Val::A(..) => Err(()),
        }
    }
    fn cell(&mut self, a: &str, i: &E) -> R<(usize, usize)> {
        let k = self.int(i)?;
        match self.get(a)? {
            Val::A(h, n) if k >= 0 && (k as usize) < n => Ok((h, k as usize)),
            _ => Err(()),
        }
    }
    fn ev(&mut self, e: &E) -> R<Val> {
        if self.fuel == 0 {
            return Err(());
        }
        self.fuel -= 1;
        Ok(match e {
            E::N(n) => Val::I(*n as i32),
            E::V(x) => self.get(x)?,
            E::Ix(a, i) | E::Dp(a, i) => {
                let (h, k) = self.cell(a, i)?;
                Val::I(self.heap[h][k].ok_or(())?)
            }
            E::T(c, x, y) => {
                if self.int(c)? != 0 {
                    self.ev(x)?
                } else {
                    self.ev(y)?
                }
            }
            E::B(o, x, y) => {
                let p = self.int(x)?;
                if *o == "&&" && p == 0 {
                    return Ok(Val::I(0));
                }
                if *o == "||" && p != 0 {
                    return Ok(Val::I(1));
                }
                let q = self.int(y)?;
                Val::I(match *o {
                    "+" => p.checked_add(q).ok_or(())?,
                    "-" => p.checked_sub(q).ok_or(())?,
                    "*" => p.checked_mul(q).ok_or(())?,
                    "/" => p.checked_div(q).ok_or(())?,
                    "%" => p.checked_rem(q).ok_or(())?,
                    "<" => (p < q) as i32,
                    "<=" => (p <= q) as i32,
                    ">" => (p > q) as i32,
                    ">=" => (p >= q) as i32,
                    "==" => (p == q) as i32,
                    "!=" => (p != q) as i32,
                    "&&" | "||" => (q != 0) as i32,
                    _ => return Err(()),
                })
            }
            E::Call(f, a) => {
                let f = self.fs.iter().find(|g| g.name == *f).ok_or(())?;
                let mut env = HashMap::new();
                for (k, p) in f.params.iter().enumerate() {
                    let mut w = self.ev(&a[k])?;
                    if let Val::A(h, n) = w {
                        // an array and how much of it: within what the caller has of it
                        let m = self.int(&a[k + 1])?;
                        if m < 0 || m as usize > n {
                            return Err(());
                        }
                        w = Val::A(h, m as usize);
                    }
                    env.insert(p.name.clone(), w);
                }
                let old = std::mem::replace(&mut self.scopes, vec![env]);
                let r = self.block(&f.body);
                self.scopes = old;
                match r? {
                    Some(Some(x)) => Val::I(x),
                    _ if f.void => Val::I(0),
                    _ => return Err(()),
                }
            }
        })
    }
    fn block(&mut self, b: &[S]) -> R<Option<Option<i32>>> {
        self.scopes.push(HashMap::new());
        let mut r = Ok(None);
        for s in b {
            match self.st(s) {
                Ok(None) => {}
                o => {
                    r = o;
                    break;
                }
            }
        }
        self.scopes.pop();
        r
    }
    fn declare(&mut self, x: &str, w: Val) {
        self.scopes.last_mut().unwrap().insert(x.to_string(), w);
    }
    fn st(&mut self, s: &S) -> R<Option<Option<i32>>> {
        match s {
            S::Decl(x, e) => {
                let w = self.int(e)?;
                self.declare(x, Val::I(w));
            }
            S::Arr(x, n, init) => {
                let cells = match init {
                    None => vec![None; *n],
                    Some(v) => (0..*n).map(|i| Some(v.get(i).copied().unwrap_or(0) as i32)).collect(),
                };
                self.heap.push(cells);
                let h = self.heap.len() - 1;
                self.declare(x, Val::A(h, *n));
            }
            S::Set(x, e) => {
                let w = self.int(e)?;
                let sc = self.scopes.iter_mut().rev().find(|s| s.contains_key(x)).ok_or(())?;
                sc.insert(x.clone(), Val::I(w));
            }
            S::Put(a, i, e) => {
                let w = self.int(e)?;
                let (h, k) = self.cell(a, i)?;
                self.heap[h][k] = Some(w);
            }
            S::Add(a, i, e) => {
                let w = self.int(e)?;
                let (h, k) = self.cell(a, i)?;
                let old = self.heap[h][k].ok_or(())?;
                self.heap[h][k] = Some(old.checked_add(w).ok_or(())?);
            }
            S::Step(a, i) => {
                let (h, k) = self.cell(a, i)?;
                let old = self.heap[h][k].ok_or(())?;
                self.heap[h][k] = Some(old.checked_add(1).ok_or(())?);
            }
            S::Do(e) => {
                self.ev(e)?;
            }
            S::Ret(None) => return Ok(Some(None)),
            S::Ret(Some(e)) => {
                let w = self.int(e)?;
                return Ok(Some(Some(w)));
            }
            S::If(c, t, e) => {
                if self.int(c)? != 0 {
                    return self.block(t);
                } else if let Some(e) = e {
                    return self.block(e);
                }
            }
            S::While(c, t) => {
                while self.int(c)? != 0 {
                    if let Some(x) = self.block(t)? {
                        return Ok(Some(x));
                    }
                }
            }
            S::For(x, d, from, c, t) => {
                self.scopes.push(HashMap::new());
                let r = (|| {
                    let w = self.int(from)?;
                    if *d {
                        self.declare(x, Val::I(w));
                    } else {
                        let sc = self.scopes.iter_mut().rev().find(|s| s.contains_key(x)).ok_or(())?;
                        sc.insert(x.clone(), Val::I(w));
                    }
                    while self.int(c)? != 0 {
                        if let Some(x) = self.block(t)? {
                            return Ok(Some(x));
                        }
                        let one = b("+", v(x), E::N(1));
                        self.st(&S::Set(x.clone(), one))?;
                    }
                    Ok(None)
                })();
                self.scopes.pop();
                return r;
            }
            S::Switch(c, cs, d) => {
                let k = self.int(c)? as i64;
                let t = cs.iter().find(|(x, _)| *x == k).map(|(_, t)| t).unwrap_or(d);
                return self.block(t);
            }
        }
        Ok(None)
    }
}

// ------------------------------------------------------------------ programs

struct G<'a> {
    r: &'a mut Rng,
    depth: usize,
    ids: usize,
    fs: Vec<F>,
    near: Vec<String>, // names for variables that look like the names of parameters
}
/// what is in scope: arrays with their lengths, ints, index variables below a length
#[derive(Clone, Default)]
struct Sc {
    arrs: Vec<(String, E, bool)>, // name, length, may write
    ints: Vec<String>,
    idx: Vec<(String, String)>, // variable, array it is an index of
    fixed: Vec<String>,         // ints that must not be assigned
}
impl<'a> G<'a> {
    fn fresh(&mut self, p: &str) -> String {
        self.ids += 1;
        if !self.near.is_empty() && self.r.chance(1, 5) {
            let k = self.r.below(self.near.len());
            return self.near.remove(k);
        }
        format!("{}{}", p, self.ids)
    }
    fn index(&mut self, sc: &Sc, a: &str, len: &E) -> E {
        let iv: Vec<&String> = sc.idx.iter().filter(|(_, x)| x == a).map(|(i, _)| i).collect();
        let one = || E::N(1);
        match self.r.below(8) {
            0 => E::N(0),
            1 => b("-", len.clone(), one()),
            2 if !sc.ints.is_empty() => {
                let x = self.r.pick(&sc.ints).clone();
                b("%", b("*", v(&x), v(&x)), len.clone())
            }
            3 if !iv.is_empty() => b("-", b("-", len.clone(), one()), v(iv[self.r.below(iv.len())])),
            _ if !iv.is_empty() => v(iv[self.r.below(iv.len())]),
            _ => E::N(0),
        }
    }
    fn expr(&mut self, sc: &Sc, d: usize) -> E {
        match self.r.below(if d == 0 { 4 } else { 10 }) {
            0 => E::N(self.r.below(9) as i64),
            1 | 2 if !sc.arrs.is_empty() => {
                let (a, n, _) = self.r.pick(&sc.arrs).clone();
                let i = self.index(sc, &a, &n);
                if self.r.chance(1, 5) && !matches!(n, E::N(_)) {
                    E::Dp(a, Box::new(i))
                } else {
                    ix(&a, i)
                }
            }
            3 if !sc.arrs.is_empty() && self.r.chance(1, 2) => self.r.pick(&sc.arrs).clone().1,
            4 => {
                let c = self.cond(sc, d - 1);
                E::T(Box::new(c), Box::new(self.expr(sc, d - 1)), Box::new(self.expr(sc, d - 1)))
            }
            5 | 6 | 7 => {
                let o = *self.r.pick(&["+", "-", "*", "+"]);
                b(o, self.expr(sc, d - 1), self.expr(sc, d - 1))
            }
            8 => b("%", self.expr(sc, d - 1), E::N(1 + self.r.below(9) as i64)),
            9 => b("/", self.expr(sc, d - 1), E::N(1 + self.r.below(5) as i64)),
            _ if !sc.ints.is_empty() => v(self.r.pick(&sc.ints)),
            _ => E::N(3),
        }
    }
    fn cond(&mut self, sc: &Sc, d: usize) -> E {
        if d > 0 && self.r.chance(1, 5) {
            let o = *self.r.pick(&["&&", "||"]);
            return b(o, self.cond(sc, d - 1), self.cond(sc, d - 1));
        }
        let o = *self.r.pick(&["<", "<=", ">", ">=", "==", "!="]);
        b(o, self.expr(sc, d.min(1)), self.expr(sc, d.min(1)))
    }
    fn small(&mut self, sc: &Sc) -> E {
        b("%", self.expr(sc, 2), E::N(1009))
    }
    fn block(&mut self, sc: &Sc, n: usize) -> Vec<S> {
        let mut sc = sc.clone();
        let mut out = vec![];
        for _ in 0..n {
            self.stmt(&mut sc, &mut out);
        }
        out
    }
    fn nested(&mut self, sc: &Sc) -> Vec<S> {
        self.depth += 1;
        let n = 1 + self.r.below(if self.depth > 2 { 1 } else { 3 });
        let b = self.block(sc, n);
        self.depth -= 1;
        b
    }
    fn stmt(&mut self, sc: &mut Sc, out: &mut Vec<S>) {
        let deep = self.depth < 3;
        match self.r.below(13) {
            0 | 1 => {
                let x = self.fresh("t");
                let e = self.small(sc);
                out.push(S::Decl(x.clone(), e));
                sc.ints.push(x);
            }
            2 if deep && self.depth > 0 && !sc.arrs.is_empty() && self.r.chance(1, 2) => {
                // a name declared again: a length or another int
                let (_, n, _) = self.r.pick(&sc.arrs).clone();
                if let E::V(x) = n {
                    if !out.iter().any(|s| matches!(s, S::Decl(y, _) if *y == x)) {
                        let e = self.small(sc);
                        let e = if mentions(&e, &x) { E::N(2) } else { e };
                        out.push(S::Decl(x.clone(), e));
                        sc.arrs.retain(|a| !matches!(&a.1, E::V(y) if *y == x));
                        sc.ints.push(x);
                    }
                }
            }
            3 | 4 => {
                let c: Vec<String> = sc.ints.iter().filter(|x| !sc.fixed.contains(x)).cloned().collect();
                if !c.is_empty() {
                    let x = self.r.pick(&c).clone();
                    let e = self.small(sc);
                    out.push(S::Set(x, e));
                }
            }
            5 | 6 => {
                let w: Vec<(String, E, bool)> = sc.arrs.iter().filter(|a| a.2).cloned().collect();
                if !w.is_empty() {
                    let (a, n, _) = self.r.pick(&w).clone();
                    let i = self.index(sc, &a, &n);
                    let e = self.small(sc);
                    out.push(match self.r.below(6) {
                        0 => S::Add(a, i, e),
                        1 => S::Step(a, i),
                        _ => S::Put(a, i, e),
                    });
                }
            }
            7 if deep => {
                let c = self.cond(sc, 2);
                let t = self.nested(sc);
                let e = if self.r.chance(1, 2) { Some(self.nested(sc)) } else { None };
                out.push(S::If(c, t, e));
            }
            8 | 9 if deep && !sc.arrs.is_empty() => {
                let (a, n, _) = self.r.pick(&sc.arrs).clone();
                let x = self.fresh("i");
                let mut s2 = sc.clone();
                s2.ints.push(x.clone());
                s2.fixed.push(x.clone());
                if let E::V(l) = &n {
                    s2.fixed.push(l.clone());
                }
                s2.idx.push((x.clone(), a.clone()));
                let c = b("<", v(&x), n.clone());
                match self.r.below(3) {
                    0 => {
                        out.push(S::Decl(x.clone(), E::N(0)));
                        let mut t = self.nested(&s2);
                        t.push(S::Set(x.clone(), b("+", v(&x), E::N(1))));
                        out.push(S::While(c, t));
                        sc.ints.push(x.clone());
                    }
                    1 => {
                        out.push(S::Decl(x.clone(), E::N(0)));
                        let t = self.nested(&s2);
                        out.push(S::For(x.clone(), false, E::N(0), c, t));
                        sc.ints.push(x.clone());
                    }
                    _ => {
                        let t = self.nested(&s2);
                        out.push(S::For(x.clone(), true, E::N(0), c, t));
                    }
                }
            }
            10 if deep => {
                let c = b("%", self.expr(sc, 1), E::N(3));
                let k = 1 + self.r.below(2);
                let cs = (0..k).map(|i| (i as i64, self.nested(sc))).collect();
                let d = self.nested(sc);
                out.push(S::Switch(c, cs, d));
            }
            11 if self.depth > 0 && self.r.chance(1, 4) => {
                let e = self.small(sc);
                out.push(S::Ret(Some(e)));
            }
            12 => self.call(sc, out),
            _ => {}
        }
    }
    fn call(&mut self, sc: &mut Sc, out: &mut Vec<S>) {
        let Some((f, c)) = self.called(sc) else {
            return;
        };
        if f.void {
            out.push(S::Do(c));
            return;
        }
        match self.r.below(5) {
            0 if !sc.ints.is_empty() => {
                let y = v(self.r.pick(&sc.ints));
                let t = self.block(sc, 1);
                out.push(S::If(b(">", c, y), t, None));
            }
            1 => {
                let y = self.expr(sc, 1);
                let x = self.fresh("t");
                let e = if self.r.chance(1, 2) { b("+", y, c) } else { b("-", c, y) };
                out.push(S::Decl(x.clone(), b("%", e, E::N(1009))));
                sc.ints.push(x);
            }
            _ => {
                let x = self.fresh("t");
                out.push(S::Decl(x.clone(), c));
                sc.ints.push(x);
            }
        }
    }
    fn called(&mut self, sc: &Sc) -> Option<(F, E)> {
        if self.fs.is_empty() {
            return None;
        }
        let f = self.r.pick(&self.fs).clone();
        let mut args: Vec<E> = vec![];
        let mut k = 0;
        let mut taken: Vec<String> = vec![];
        while k < f.params.len() {
            if f.params[k].arr {
                let may: Vec<(String, E, bool)> = sc.arrs.iter().filter(|a| !taken.contains(&a.0) && (a.2 || f.params[k].cst)).cloned().collect();
                if may.is_empty() {
                    return None;
                }
                let (a, n, _) = self.r.pick(&may).clone();
                taken.push(a.clone());
                args.push(v(&a));
                let n = match self.r.below(4) {
                    0 => b("-", n, E::N(1)),
                    1 => E::N(2),
                    _ => n,
                };
                args.push(n);
                k += 2;
            } else {
                args.push(self.expr(sc, 1));
                k += 1;
            }
        }
        let c = E::Call(f.name.clone(), args);
        Some((f, c))
    }
    fn function(&mut self, k: usize) -> F {
        let p = |n: &str, arr: bool, cst: bool| P { name: n.to_string(), arr, cst };
        let c = self.r.chance(1, 3);
        let (params, arrs): (Vec<P>, Vec<(&str, &str)>) = match self.r.below(8) {
            5 => (vec![p("arr", true, c), p("n", false, false)], vec![("arr", "n")]),
            6 => (vec![p("items", true, c), p("num_items", false, false), p("k", false, false)], vec![("items", "num_items")]),
            7 => (vec![p("k", false, false), p("arr", true, c), p("len", false, false), p("m", false, false), p("data", true, false), p("size", false, false)], vec![("arr", "len"), ("data", "size")]),
            0 => (vec![p("arr", true, c), p("len", false, false)], vec![("arr", "len")]),
            1 => (vec![p("arr", true, c), p("len", false, false), p("k", false, false)], vec![("arr", "len")]),
            2 => (vec![p("k", false, false), p("data", true, c), p("size", false, false)], vec![("data", "size")]),
            3 => (vec![p("arr", true, c), p("arr_len", false, false), p("buf", true, false), p("count", false, false)], vec![("arr", "arr_len"), ("buf", "count")]),
            _ => (vec![p("buffer", true, c), p("buf_size", false, false), p("k", false, false), p("m", false, false)], vec![("buffer", "buf_size")]),
        };
        let mut sc = Sc::default();
        for (a, n) in &arrs {
            let w = !params.iter().any(|p| p.name == *a && p.cst);
            sc.arrs.push((a.to_string(), v(n), w));
        }
        let moves = self.r.chance(1, 8);
        for p in &params {
            if !p.arr && (p.name == "k" || p.name == "m" || moves) {
                sc.ints.push(p.name.clone());
            }
        }
        if !moves {
            for (_, n) in &arrs {
                sc.fixed.push(n.to_string());
            }
        }
        let void = self.r.chance(1, 4);
        self.depth = 0;
        self.ids = 0;
        self.near.clear();
        if self.r.chance(1, 3) {
            for (a, n) in &arrs {
                let cap = format!("{}{}", n[..1].to_uppercase(), &n[1..]);
                let more = [n.to_uppercase(), cap, format!("{}s", n), format!("{}_{}", a, n), format!("{}0", n), a.to_uppercase()];
                for x in more {
                    if !self.near.contains(&x) && !params.iter().any(|p| p.name == x) {
                        self.near.push(x);
                    }
                }
            }
        }
        let n = 2 + self.r.below(5);
        let mut body = self.block(&sc, n);
        self.near.clear();
        if !moves && self.r.chance(1, 4) {
            // the function calls itself on less of its first array
            let (_, l) = arrs[0];
            let args = params.iter().map(|p| if p.name == l { b("-", v(l), E::N(1)) } else if p.arr || arrs.iter().any(|x| x.1 == p.name) { v(&p.name) } else { b("%", v(&p.name), E::N(5)) }).collect();
            let c = E::Call(format!("f{}", k), args);
            let c = if void { S::Do(c) } else { S::Decl("again".into(), c) };
            let put = S::Add(arrs[0].0.into(), E::N(0), v(if void { l } else { "again" }));
            let t = if params.iter().any(|p| p.cst && p.name == arrs[0].0) { vec![c] } else { vec![c, put] };
            let at = self.r.below(body.len() + 1);
            body.insert(at, S::If(b(">", v(l), E::N(1)), t, None));
        }
        if void {
            strip(&mut body);
        } else {
            let (a, n) = arrs[0];
            body.push(S::Ret(Some(b("+", ix(a, E::N(0)), v(n)))));
        }
        F { name: format!("f{}", k), void, params, body }
    }
    fn drive(&mut self) -> F {
        self.depth = 0;
        self.ids = 0;
        let mut sc = Sc { ints: vec!["a".into(), "b".into()], ..Sc::default() };
        let mut body = vec![];
        let mut xs = vec![];
        for x in ["x", "y"] {
            let n = 2 + self.r.below(4);
            if self.r.chance(1, 2) {
                let w = (0..n).map(|_| self.r.below(20) as i64).collect();
                body.push(S::Arr(x.into(), n, Some(w)));
            } else {
                body.push(S::Arr(x.into(), n, None));
                let i = self.fresh("i");
                body.push(S::For(i.clone(), true, E::N(0), b("<", v(&i), E::N(n as i64)), vec![S::Put(x.into(), v(&i), b("+", v("a"), b("*", v(&i), E::N(3))))]));
            }
            sc.arrs.push((x.into(), E::N(n as i64), true));
            xs.push((x, n));
        }
        for _ in 0..2 + self.r.below(3) {
            self.call(&mut sc, &mut body);
        }
        let n = self.r.below(3);
        body.extend(self.block(&sc, n));
        let mut h = v("b");
        for t in sc.ints.iter().filter(|t| t.starts_with('t')) {
            h = b("%", b("+", b("*", h, E::N(31)), v(t)), E::N(100003));
        }
        for (x, n) in xs {
            for i in 0..n {
                h = b("%", b("+", b("*", h, E::N(31)), ix(x, E::N(i as i64))), E::N(100003));
            }
        }
        body.push(S::Ret(Some(h)));
        F { name: "drive".into(), void: false, params: vec![P { name: "a".into(), arr: false, cst: false }, P { name: "b".into(), arr: false, cst: false }], body }
    }
}
fn mentions(e: &E, x: &str) -> bool {
    match e {
        E::N(_) => false,
        E::V(y) => y == x,
        E::Ix(_, i) | E::Dp(_, i) => mentions(i, x),
        E::B(_, p, q) => mentions(p, x) || mentions(q, x),
        E::T(c, p, q) => mentions(c, x) || mentions(p, x) || mentions(q, x),
        E::Call(_, a) => a.iter().any(|e| mentions(e, x)),
    }
}
/// a void function returns nothing
fn strip(b: &mut [S]) {
    for s in b {
        match s {
            S::Ret(e) => *e = None,
            S::If(_, t, e) => {
                strip(t);
                if let Some(e) = e {
                    strip(e);
                }
            }
            S::While(_, t) | S::For(_, _, _, _, t) => strip(t),
            S::Switch(_, cs, d) => {
                for (_, t) in cs {
                    strip(t);
                }
                strip(d);
            }
            _ => {}
        }
    }
}

fn program(r: &mut Rng) -> Vec<F> {
    let mut g = G { r, depth: 0, ids: 0, fs: vec![], near: vec![] };
    for k in 0..1 + g.r.below(3) {
        let f = g.function(k);
        g.fs.push(f);
    }
    let d = g.drive();
    let mut fs = g.fs;
    fs.push(d);
    fs
}

const INPUTS: [(i32, i32); 4] = [(0, 0), (1, 2), (5, -3), (-7, 11)];

fn expected(fs: &[F]) -> Vec<((i32, i32), i32)> {
    let mut out = vec![];
    for (x, y) in INPUTS {
        let mut m = M { fs, heap: vec![], scopes: vec![HashMap::new()], fuel: 60000 };
        if let Ok(Val::I(w)) = m.ev(&E::Call("drive".into(), vec![E::N(x as i64), E::N(y as i64)])) {
            out.push(((x, y), w));
        }
    }
    out
}

struct Item {
    src: String,
    rust: String,
    want: Vec<((i32, i32), i32)>,
}

/// compile and run a batch; what failed, if anything
fn run_batch(dir: &std::path::Path, items: &[&Item], tag: usize) -> Option<(usize, String, String)> {
    let mut src = String::from("#![allow(warnings)]\n");
    let mut at = vec![];
    for (i, it) in items.iter().enumerate() {
        at.push(src.matches('\n').count() + 1);
        src.push_str(&format!("pub mod m{} {{ #![allow(static_mut_refs)]\n{}\npub fn go(a: i32, b: i32) -> i32 {{ drive(a, b) }}\n}}\n", i, it.rust));
    }
    src.push_str("fn main() {\n std::panic::set_hook(Box::new(|_| {}));\n");
    for (i, it) in items.iter().enumerate() {
        for ((x, y), _) in &it.want {
            src.push_str(&format!(" match std::panic::catch_unwind(|| m{}::go({}, {})) {{ Ok(r) => println!(\"{} {{}}\", r), Err(_) => println!(\"{} panic\") }}\n", i, x, y, i, i));
        }
    }
    src.push_str("}\n");
    let file = dir.join(format!("b{}.rs", tag));
    let exe = dir.join(format!("b{}", tag));
    std::fs::write(&file, &src).expect("scratch file");
    let out = std::process::Command::new("rustc").args(["--edition", "2021", "--cap-lints", "allow", "-C", "overflow-checks=on", "-C", "debuginfo=0", "--error-format", "short", "-o"]).arg(&exe).arg(&file).output().ok()?;
    if !out.status.success() {
        let e = String::from_utf8_lossy(&out.stderr).to_string();
        let l = e.lines().find(|l| l.contains(".rs:") && l.contains("error"))?;
        let rest = l.split(".rs:").nth(1)?;
        let line: usize = rest.split(':').next().and_then(|x| x.parse().ok()).unwrap_or(1);
        let i = at.iter().rposition(|a| *a <= line).unwrap_or(0);
        let code = src.lines().nth(line - 1).unwrap_or("").trim().to_string();
        let kind = rest.splitn(3, ':').nth(2).unwrap_or(rest).trim().to_string();
        return Some((i, format!("rustc rejects it: {}", kind), code));
    }
    let out = std::process::Command::new(&exe).output().ok()?;
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let mut lines = text.lines();
    for (i, it) in items.iter().enumerate() {
        for ((x, y), w) in &it.want {
            let l = lines.next().unwrap_or("nothing");
            if l != format!("{} {}", i, w) {
                let got = l.split(' ').nth(1).unwrap_or(l);
                return Some((i, if got == "panic" { "panics".into() } else { "wrong value".into() }, format!("a={} b={}: C {}, Rust {}", x, y, w, got)));
            }
        }
    }
    None
}

fn main() {
    let mut run = Run::new();
    let exp = std::env::var("EXPERIMENT").is_ok();
    let mut bad: BTreeMap<String, (usize, String)> = BTreeMap::new();
    let dir = run.scratch("p10");
    let mut rng = Rng::new(run.args.seed);
    let mut rounds = 0;
    while run.time_left() || rounds < 2 {
        rounds += 1;
        slices::cases(&mut run, &mut rng, if rounds == 1 { 60000 } else { 3000 });
        let mut items: Vec<Item> = vec![];
        while items.len() < 160 {
            let fs = program(&mut rng);
            let want = expected(&fs);
            if want.len() < 2 {
                run.skipped += 1;
                continue;
            }
            let src: String = fs.iter().map(pf).collect::<Vec<_>>().join("");
            let show = || src.clone();
            match run.call("transpile", &show, || decy_core::transpile(&src)) {
                Ok(rust) => items.push(Item { src: src.clone(), rust, want }),
                Err(e) => run.fail("a program on arrays is refused", &src, &e.to_string()),
            }
        }
        let per = if exp { 1 } else { 20 };
        let chunks: Vec<Vec<&Item>> = items.chunks(per).map(|c| c.iter().collect()).collect();
        let next = std::sync::atomic::AtomicUsize::new(0);
        let found = std::sync::Mutex::new(vec![]);
        std::thread::scope(|s| {
            for _ in 0..6 {
                s.spawn(|| loop {
                    let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if k >= chunks.len() {
                        break;
                    }
                    if let Some(r) = run_batch(&dir, &chunks[k], k) {
                        found.lock().unwrap().push((k, r));
                    }
                });
            }
        });
        let mut found = found.into_inner().unwrap();
        found.sort_by_key(|f| f.0);
        for (k, (i, what, detail)) in found {
            let it = chunks[k][i];
            let t = format!("{}\n{}", detail, it.rust);
            if exp {
                let key = what.split(": ").take(3).collect::<Vec<_>>().join(": ");
                let x = bad.entry(key).or_insert((0, String::new()));
                x.0 += 1;
                let t = format!("{}{}", it.src, t);
                if x.1.is_empty() || x.1.len() > t.len() {
                    x.1 = t;
                }
            } else {
                run.fail("a function on arrays does not do in Rust what it does in C", &it.src, &format!("{}\n{}", what, t));
            }
        }
    }
    for (k, v) in &bad {
        println!("== {} {}\n{}", v.0, k, v.1);
    }
    run.done()
}
