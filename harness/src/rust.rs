//! A reader of generated Rust: `syn` parses the text, a small typed interpreter runs it.
//! It covers the integer fragment (i32, u32, u8, i8, i64, bool) and reports what Rust would refuse.
use std::collections::HashMap;
use syn::{BinOp, Block, Expr, Lit, Pat, Stmt, UnOp};

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum V {
    Unit,
    Bool(bool),
    /// bits, signed, value; bits 0: an unsuffixed literal, of the type its context asks for
    Int(u32, bool, i128),
}
#[derive(Debug, Clone, PartialEq)]
pub enum Bad {
    /// Rust refuses the program (types, names, patterns)
    Refused(String),
    /// the run panics
    Panic(String),
    /// outside what this reader covers
    Unknown(String),
    Fuel,
}
enum Fl {
    Val(V),
    Ret(V),
    Break(Option<String>),
    Continue(Option<String>),
}
type R<T> = Result<T, Bad>;
pub type Host<'a> = dyn FnMut(&str, &[i128]) -> i128 + 'a;

pub struct Rust<'a> {
    pub scopes: Vec<HashMap<String, V>>,
    pub fuel: usize,
    pub host: Box<Host<'a>>,
    /// std::process::exit was called
    pub exited: bool,
}

fn refuse<T>(s: impl Into<String>) -> R<T> {
    Err(Bad::Refused(s.into()))
}
fn ty(s: &str) -> Option<(u32, bool)> {
    Some(match s {
        "i32" => (32, true),
        "u32" => (32, false),
        "u8" => (8, false),
        "i8" => (8, true),
        "i64" | "isize" => (64, true),
        "u64" | "usize" => (64, false),
        "i16" => (16, true),
        "u16" => (16, false),
        _ => return None,
    })
}
fn tyname(t: &syn::Type) -> String {
    quote::quote!(#t).to_string()
}
fn range(b: u32, s: bool) -> (i128, i128) {
    let b = if b == 0 { 32 } else { b };
    if s { (-(1i128 << (b - 1)), (1i128 << (b - 1)) - 1) } else { (0, (1i128 << b) - 1) }
}
fn wrap(b: u32, s: bool, v: i128) -> i128 {
    let m = v & ((1i128 << b) - 1);
    if s && m >= (1i128 << (b - 1)) { m - (1i128 << b) } else { m }
}
fn unify(a: V, b: V) -> R<(u32, bool, i128, i128)> {
    match (a, b) {
        (V::Int(0, _, x), V::Int(0, _, y)) => Ok((0, true, x, y)),
        (V::Int(0, _, x), V::Int(bb, s, y)) | (V::Int(bb, s, x), V::Int(0, _, y)) => {
            Ok((bb, s, x, y))
        }
        (V::Int(b1, s1, x), V::Int(b2, s2, y)) if b1 == b2 && s1 == s2 => Ok((b1, s1, x, y)),
        _ => refuse(format!("mismatched operand types {:?} and {:?}", a, b)),
    }
}

/// a value of a declared type
pub fn coerce(t: &str, v: V) -> R<V> {
    match (t, v) {
        ("bool", V::Bool(b)) => Ok(V::Bool(b)),
        ("()", V::Unit) => Ok(V::Unit),
        (t, V::Int(b, s, x)) => match ty(t) {
            Some((tb, ts)) => {
                if b == 0 {
                    let (lo, hi) = range(tb, ts);
                    if x < lo || x > hi {
                        return refuse(format!("literal {} out of range for {}", x, t));
                    }
                    Ok(V::Int(tb, ts, x))
                } else if (b, s) == (tb, ts) {
                    Ok(v)
                } else {
                    refuse(format!("expected {}, found {:?}", t, v))
                }
            }
            None => refuse(format!("expected {}, found {:?}", t, v)),
        },
        _ => refuse(format!("expected {}, found {:?}", t, v)),
    }
}

impl<'a> Rust<'a> {
    pub fn new() -> Rust<'a> {
        Rust { scopes: vec![HashMap::new()], fuel: 20000, host: Box::new(|_, _| 0), exited: false }
    }
    fn tick(&mut self) -> R<()> {
        if self.fuel == 0 {
            return Err(Bad::Fuel);
        }
        self.fuel -= 1;
        Ok(())
    }
    fn get(&mut self, n: &str) -> R<&mut V> {
        for s in self.scopes.iter_mut().rev() {
            if s.contains_key(n) {
                return Ok(s.get_mut(n).unwrap());
            }
        }
        refuse(format!("unknown name {}", n))
    }
    /// run a function item with the given arguments
    pub fn run_fn(&mut self, f: &syn::ItemFn, args: &[i128]) -> R<V> {
        for (i, p) in f.sig.inputs.iter().enumerate() {
            if let syn::FnArg::Typed(p) = p {
                let t = tyname(&p.ty);
                let v = coerce(&t, V::Int(0, true, *args.get(i).unwrap_or(&0)))?;
                if let Pat::Ident(id) = &*p.pat {
                    self.scopes[0].insert(id.ident.to_string(), v);
                }
            }
        }
        let rt = match &f.sig.output {
            syn::ReturnType::Default => "()".to_string(),
            syn::ReturnType::Type(_, t) => tyname(t),
        };
        match self.block(&f.block)? {
            Fl::Ret(v) if self.exited => Ok(v),
            Fl::Ret(v) => coerce(&rt, v),
            Fl::Val(v) => coerce(&rt, v),
            _ => refuse("break outside a loop"),
        }
    }
    /// the value of an expression text where a type is expected
    pub fn value(&mut self, e: &Expr, t: &str) -> R<V> {
        let v = self.expr(e)?;
        coerce(t, v)
    }
    fn block(&mut self, b: &Block) -> R<Fl> {
        self.scopes.push(HashMap::new());
        let r = self.stmts(&b.stmts);
        self.scopes.pop();
        r
    }
    fn stmts(&mut self, ss: &[Stmt]) -> R<Fl> {
        let mut last = V::Unit;
        for (i, s) in ss.iter().enumerate() {
            self.tick()?;
            last = V::Unit;
            match s {
                Stmt::Local(l) => {
                    let (name, t) = match &l.pat {
                        Pat::Ident(p) => (p.ident.to_string(), None),
                        Pat::Type(pt) => match &*pt.pat {
                            Pat::Ident(p) => (p.ident.to_string(), Some(tyname(&pt.ty))),
                            _ => return Err(Bad::Unknown("pattern".into())),
                        },
                        _ => return Err(Bad::Unknown("pattern".into())),
                    };
                    let v = match &l.init {
                        Some(i) => match self.flow(&i.expr)? {
                            Fl::Val(v) => v,
                            f => return Ok(f),
                        },
                        None => return Err(Bad::Unknown("let without value".into())),
                    };
                    let v = match &t {
                        Some(t) => coerce(t, v)?,
                        None => match v {
                            V::Int(0, s, x) => V::Int(32, s, x),
                            v => v,
                        },
                    };
                    self.scopes.last_mut().unwrap().insert(name, v);
                }
                Stmt::Expr(e, semi) => match self.flow(e)? {
                    Fl::Val(v) => {
                        if semi.is_none() {
                            if i + 1 == ss.len() {
                                last = v;
                            } else if v != V::Unit {
                                return refuse("expression statement with a value and no semicolon");
                            }
                        }
                    }
                    f => return Ok(f),
                },
                Stmt::Item(_) => return Err(Bad::Unknown("item".into())),
                Stmt::Macro(m) => return Err(Bad::Unknown(format!("macro {}", quote::quote!(#m)))),
            }
        }
        Ok(Fl::Val(last))
    }
    pub fn expr(&mut self, e: &Expr) -> R<V> {
        match self.flow(e)? {
            Fl::Val(v) => Ok(v),
            _ => Err(Bad::Unknown("control flow inside an expression".into())),
        }
    }
    fn cond(&mut self, e: &Expr) -> R<bool> {
        match self.expr(e)? {
            V::Bool(b) => Ok(b),
            v => refuse(format!("condition is {:?}, not bool", v)),
        }
    }
    fn assign(&mut self, target: &Expr, v: V) -> R<()> {
        let n = match target {
            Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
            Expr::Paren(p) => return self.assign(&p.expr, v),
            _ => None,
        };
        let n = match n {
            Some(n) => n,
            None => return Err(Bad::Unknown("assignment target".into())),
        };
        let old = *self.get(&n)?;
        let v = match old {
            V::Bool(_) => coerce("bool", v)?,
            V::Int(b, s, _) => match v {
                V::Int(0, _, x) => {
                    let (lo, hi) = range(b, s);
                    if x < lo || x > hi {
                        return refuse("literal out of range");
                    }
                    V::Int(b, s, x)
                }
                V::Int(b2, s2, _) if (b2, s2) == (b, s) => v,
                _ => return refuse(format!("assigning {:?} to {:?}", v, old)),
            },
            V::Unit => v,
        };
        *self.get(&n)? = v;
        Ok(())
    }
    fn lbl(l: &Option<syn::Lifetime>) -> Option<String> {
        l.as_ref().map(|l| l.ident.to_string())
    }
    fn looped(&mut self, body: &Block, label: Option<String>) -> R<Option<Fl>> {
        // Some: leave the loop with this flow; Val(Unit) for a normal break
        match self.block(body)? {
            Fl::Val(V::Unit) => Ok(None),
            Fl::Val(v) => refuse(format!("loop body has the value {:?}", v)),
            Fl::Break(l) if l.is_none() || l == label => Ok(Some(Fl::Val(V::Unit))),
            Fl::Continue(l) if l.is_none() || l == label => Ok(None),
            f => Ok(Some(f)),
        }
    }
    fn flow(&mut self, e: &Expr) -> R<Fl> {
        self.tick()?;
        macro_rules! val {
            ($e:expr) => {
                match self.flow($e)? {
                    Fl::Val(v) => v,
                    f => return Ok(f),
                }
            };
        }
        Ok(Fl::Val(match e {
            Expr::Paren(p) => val!(&p.expr),
            Expr::Group(p) => val!(&p.expr),
            Expr::Block(b) => {
                let label = b.label.as_ref().map(|l| l.name.ident.to_string());
                match self.block(&b.block)? {
                    Fl::Break(Some(l)) if Some(&l) == label.as_ref() => V::Unit,
                    Fl::Break(None) | Fl::Continue(None) if label.is_some() => return refuse("E0695: an unlabeled break or continue inside a labeled block"),
                    f => return Ok(f),
                }
            }
            Expr::Unsafe(b) => return self.block(&b.block),
            Expr::Lit(l) => match &l.lit {
                Lit::Int(i) => {
                    let x: i128 = i.base10_parse().map_err(|e| Bad::Refused(e.to_string()))?;
                    match i.suffix() {
                        "" => V::Int(0, true, x),
                        s => match ty(s) {
                            Some((b, sg)) => V::Int(b, sg, x),
                            None => return Err(Bad::Unknown(format!("suffix {}", s))),
                        },
                    }
                }
                Lit::Bool(b) => V::Bool(b.value),
                Lit::Byte(b) => V::Int(8, false, b.value() as i128),
                _ => return Err(Bad::Unknown("literal".into())),
            },
            Expr::Path(p) => match p.path.get_ident() {
                Some(i) => {
                    let n = i.to_string();
                    *self.get(&n)?
                }
                None => return Err(Bad::Unknown("path".into())),
            },
            Expr::Unary(u) => {
                if let (UnOp::Neg(_), Expr::Lit(l)) = (&u.op, &*u.expr) {
                    if let Lit::Int(i) = &l.lit {
                        let x: i128 = i.base10_parse().map_err(|e| Bad::Refused(e.to_string()))?;
                        return Ok(Fl::Val(match i.suffix() {
                            "" => V::Int(0, true, -x),
                            s => match ty(s) {
                                Some((b, true)) => V::Int(b, true, -x),
                                _ => return refuse("negated unsigned literal"),
                            },
                        }));
                    }
                }
                let v = val!(&u.expr);
                match (&u.op, v) {
                    (UnOp::Not(_), V::Bool(b)) => V::Bool(!b),
                    (UnOp::Not(_), V::Int(b, s, x)) => V::Int(b, s, if s { !x } else { wrap(b, s, !x) }),
                    (UnOp::Neg(_), V::Int(b, true, x)) => {
                        if -x > range(b, true).1 {
                            return Err(Bad::Panic("negation overflows".into()));
                        }
                        V::Int(b, true, -x)
                    }
                    _ => return refuse(format!("unary operator on {:?}", v)),
                }
            }
            Expr::Cast(c) => {
                let v = val!(&c.expr);
                let t = tyname(&c.ty);
                let (b, s) = match ty(&t) {
                    Some(x) => x,
                    None => {
                        if t == "bool" && matches!(v, V::Bool(_)) {
                            return Ok(Fl::Val(v));
                        }
                        return refuse(format!("cast of {:?} to {}", v, t));
                    }
                };
                match v {
                    V::Bool(x) => V::Int(b, s, x as i128),
                    V::Int(0, _, x) => V::Int(b, s, wrap(b, s, x)),
                    V::Int(_, _, x) => V::Int(b, s, wrap(b, s, x)),
                    V::Unit => return refuse("cast of ()"),
                }
            }
            Expr::Binary(bn) => {
                match bn.op {
                    BinOp::And(_) => {
                        return Ok(Fl::Val(V::Bool(self.cond(&bn.left)? && self.cond(&bn.right)?)));
                    }
                    BinOp::Or(_) => {
                        return Ok(Fl::Val(V::Bool(self.cond(&bn.left)? || self.cond(&bn.right)?)));
                    }
                    _ => {}
                }
                let compound = matches!(
                    bn.op,
                    BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) | BinOp::RemAssign(_)
                        | BinOp::BitAndAssign(_) | BinOp::BitOrAssign(_) | BinOp::BitXorAssign(_) | BinOp::ShlAssign(_) | BinOp::ShrAssign(_)
                );
                let l = val!(&bn.left);
                let r = val!(&bn.right);
                let v = Self::binop(&bn.op, l, r)?;
                if compound {
                    self.assign(&bn.left, v)?;
                    V::Unit
                } else {
                    v
                }
            }
            Expr::Assign(a) => {
                let v = val!(&a.right);
                self.assign(&a.left, v)?;
                V::Unit
            }
            Expr::If(i) => {
                if matches!(&*i.cond, Expr::Let(_)) {
                    return Err(Bad::Unknown("if let".into()));
                }
                let c = self.cond(&i.cond)?;
                if c {
                    match self.block(&i.then_branch)? {
                        Fl::Val(v) => {
                            if i.else_branch.is_none() && v != V::Unit {
                                return refuse("if without else has a value");
                            }
                            v
                        }
                        f => return Ok(f),
                    }
                } else if let Some((_, e)) = &i.else_branch {
                    val!(e)
                } else {
                    V::Unit
                }
            }
            Expr::While(w) => {
                let label = w.label.as_ref().map(|l| l.name.ident.to_string());
                while self.cond(&w.cond)? {
                    self.tick()?;
                    match self.looped(&w.body, label.clone())? {
                        None => {}
                        Some(Fl::Val(_)) => break,
                        Some(f) => return Ok(f),
                    }
                }
                V::Unit
            }
            Expr::Loop(w) => {
                let label = w.label.as_ref().map(|l| l.name.ident.to_string());
                loop {
                    self.tick()?;
                    match self.looped(&w.body, label.clone())? {
                        None => {}
                        Some(Fl::Val(_)) => break,
                        Some(f) => return Ok(f),
                    }
                }
                V::Unit
            }
            Expr::Match(m) => {
                let v = val!(&m.expr);
                for arm in &m.arms {
                    if self.matches(&arm.pat, v)? && arm.guard.is_none() {
                        return self.flow(&arm.body);
                    }
                }
                return refuse("no arm matches");
            }
            Expr::Break(b) => return Ok(Fl::Break(Self::lbl(&b.label))),
            Expr::Continue(c) => return Ok(Fl::Continue(Self::lbl(&c.label))),
            Expr::Return(r) => {
                let v = match &r.expr {
                    Some(e) => val!(e),
                    None => V::Unit,
                };
                return Ok(Fl::Ret(v));
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if segs == ["std", "process", "exit"] && c.args.len() == 1 {
                        let v = coerce("i32", val!(&c.args[0]))?;
                        self.exited = true;
                        return Ok(Fl::Ret(v));
                    }
                }
                let name = match &*c.func {
                    Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()).unwrap_or_default(),
                    _ => String::new(),
                };
                let mut args = vec![];
                for a in &c.args {
                    match coerce("i32", val!(a))? {
                        V::Int(_, _, x) => args.push(x),
                        _ => {}
                    }
                }
                let r = (self.host)(&name, &args);
                V::Int(32, true, r)
            }
            Expr::Tuple(t) if t.elems.is_empty() => V::Unit,
            other => return Err(Bad::Unknown(quote::quote!(#other).to_string())),
        }))
    }
    fn matches(&mut self, p: &Pat, v: V) -> R<bool> {
        Ok(match p {
            Pat::Wild(_) => true,
            Pat::Lit(l) => {
                let x = self.expr(&Expr::Lit(l.clone()))?;
                match (x, v) {
                    (V::Bool(a), V::Bool(b)) => a == b,
                    _ => {
                        let (_, _, a, b) = unify(x, v)?;
                        a == b
                    }
                }
            }
            Pat::Or(o) => {
                for c in &o.cases {
                    if self.matches(c, v)? {
                        return Ok(true);
                    }
                }
                false
            }
            _ => return Err(Bad::Unknown(format!("pattern {}", quote::quote!(#p)))),
        })
    }
    fn binop(op: &BinOp, l: V, r: V) -> R<V> {
        if let (V::Bool(a), V::Bool(b)) = (l, r) {
            return Ok(V::Bool(match op {
                BinOp::Eq(_) => a == b,
                BinOp::Ne(_) => a != b,
                BinOp::Lt(_) => !a & b,
                BinOp::Le(_) => a <= b,
                BinOp::Gt(_) => a & !b,
                BinOp::Ge(_) => a >= b,
                BinOp::BitAnd(_) => a & b,
                BinOp::BitOr(_) => a | b,
                BinOp::BitXor(_) => a ^ b,
                _ => return refuse("arithmetic on bool"),
            }));
        }
        if matches!(op, BinOp::Shl(_) | BinOp::Shr(_) | BinOp::ShlAssign(_) | BinOp::ShrAssign(_)) {
            if let (V::Int(b, s, x), V::Int(_, _, y)) = (l, r) {
                let bits = if b == 0 { 32 } else { b };
                if y < 0 || y >= bits as i128 {
                    return Err(Bad::Panic("shift overflows".into()));
                }
                let v = if matches!(op, BinOp::Shl(_) | BinOp::ShlAssign(_)) { wrap(bits, s, x << y) } else { x >> y };
                return Ok(V::Int(b, s, v));
            }
        }
        let (b, s, x, y) = unify(l, r)?;
        let (lo, hi) = range(b, s);
        let fit = |v: i128| if v < lo || v > hi { Err(Bad::Panic("arithmetic overflows".into())) } else { Ok(V::Int(b, s, v)) };
        Ok(match op {
            BinOp::Add(_) | BinOp::AddAssign(_) => fit(x + y)?,
            BinOp::Sub(_) | BinOp::SubAssign(_) => fit(x - y)?,
            BinOp::Mul(_) | BinOp::MulAssign(_) => fit(x * y)?,
            BinOp::Div(_) | BinOp::DivAssign(_) => {
                if y == 0 {
                    return Err(Bad::Panic("division by zero".into()));
                }
                fit(x / y)?
            }
            BinOp::Rem(_) | BinOp::RemAssign(_) => {
                if y == 0 {
                    return Err(Bad::Panic("division by zero".into()));
                }
                fit(x / y)?;
                fit(x % y)?
            }
            BinOp::BitAnd(_) | BinOp::BitAndAssign(_) => V::Int(b, s, x & y),
            BinOp::BitOr(_) | BinOp::BitOrAssign(_) => V::Int(b, s, x | y),
            BinOp::BitXor(_) | BinOp::BitXorAssign(_) => V::Int(b, s, x ^ y),
            BinOp::Eq(_) => V::Bool(x == y),
            BinOp::Ne(_) => V::Bool(x != y),
            BinOp::Lt(_) => V::Bool(x < y),
            BinOp::Le(_) => V::Bool(x <= y),
            BinOp::Gt(_) => V::Bool(x > y),
            BinOp::Ge(_) => V::Bool(x >= y),
            _ => return Err(Bad::Unknown("operator".into())),
        })
    }
}
impl Default for Rust<'_> {
    fn default() -> Self {
        Self::new()
    }
}
