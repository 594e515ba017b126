//! Programs of the scalar fragment: int variables, all scalar operators, every statement that
//! directs control.  `Prog` writes them as HIR; `c_function` prints them as C.
use crate::gen::*;
use crate::Rng;
use decy_hir::*;

pub struct Prog<'a> {
    pub r: &'a mut Rng,
    pub scopes: Vec<Vec<String>>,
    pub n: usize,
    /// C text has no statement after a case's statements but before its break that decy's parser keeps
    pub shadow: bool,
    pub names: &'static [&'static str],
    pub calls: bool,
    pub void: bool,
}
impl Prog<'_> {
    pub fn name(&mut self) -> String {
        let all: Vec<String> = self.scopes.iter().flatten().cloned().collect();
        self.r.pick(&all).clone()
    }
    pub fn expr(&mut self, d: usize) -> HirExpression {
        if d == 0 || self.r.chance(1, 4) {
            return if self.r.chance(1, 3) { int(self.r.below(9) as i32 - 3) } else { HirExpression::Variable(self.name()) };
        }
        match self.r.below(9) {
            0 => un(*self.r.pick(&[UnaryOperator::Minus, UnaryOperator::LogicalNot, UnaryOperator::BitwiseNot]), self.expr(d - 1)),
            1 => HirExpression::Ternary { condition: Box::new(self.expr(d - 1)), then_expr: Box::new(self.expr(d - 1)), else_expr: Box::new(self.expr(d - 1)) },
            _ => bin(OPS[self.r.below(18)], self.expr(d - 1), self.expr(d - 1)),
        }
    }
    /// some declarations get their value in an assignment of its own
    fn split(&mut self, v: Vec<HirStatement>) -> Vec<HirStatement> {
        let mut out = vec![];
        for s in v {
            match s {
                HirStatement::VariableDeclaration { name, var_type, initializer: Some(value) } if self.r.chance(1, 6) => {
                    out.push(HirStatement::VariableDeclaration { name: name.clone(), var_type, initializer: None });
                    out.push(HirStatement::Assignment { target: name, value });
                }
                s => out.push(s),
            }
        }
        out
    }
    pub fn block(&mut self, d: usize, lp: bool, sw: bool) -> Vec<HirStatement> {
        self.scopes.push(vec![]);
        let n = self.r.below(4);
        let v = (0..n).map(|_| self.stmt(d, lp, sw)).collect();
        self.scopes.pop();
        self.split(v)
    }
    fn fresh(&mut self) -> String {
        self.n += 1;
        if !self.names.is_empty() && self.r.chance(1, 5) {
            let k = self.r.below(self.names.len());
            return self.names[k].to_string();
        }
        format!("v{}", self.n)
    }
    fn assign(&mut self) -> HirStatement {
        let target = self.name();
        let mut value = self.expr(2);
        if self.calls && self.r.chance(1, 6) {
            let get = call("get", vec![self.expr(2)]);
            value = match self.r.below(3) {
                0 => get,
                1 => bin(OPS[self.r.below(18)], get, value),
                _ => bin(OPS[self.r.below(18)], value, get),
            };
        }
        HirStatement::Assignment { target, value }
    }
    pub fn stmt(&mut self, d: usize, lp: bool, sw: bool) -> HirStatement {
        match self.r.below(if d == 0 { 9 } else { 19 }) {
            0 | 1 => {
                let e = self.expr(2);
                let name = if self.shadow && self.r.chance(1, 3) { self.name() } else { self.fresh() };
                if self.scopes.last().unwrap().contains(&name) || (self.scopes.len() == 2 && self.scopes[0].contains(&name)) || mentions(&e, &name) {
                    return if self.scopes.iter().flatten().any(|n| *n == name) { HirStatement::Assignment { target: name, value: e } } else { self.assign() };
                }
                self.scopes.last_mut().unwrap().push(name.clone());
                HirStatement::VariableDeclaration { name, var_type: HirType::Int, initializer: Some(e) }
            }
            2..=5 => self.assign(),
            6 => {
                if self.r.chance(1, 4) {
                    HirStatement::Return(if self.void { None } else { Some(self.expr(2)) })
                } else if self.calls && self.r.chance(1, 2) {
                    HirStatement::Expression(call("note", vec![self.expr(2)]))
                } else {
                    self.assign()
                }
            }
            7 if lp || sw => HirStatement::Break,
            8 if lp => HirStatement::Continue,
            7 | 8 => self.assign(),
            9..=11 => HirStatement::If { condition: self.expr(2), then_block: self.block(d - 1, lp, sw), else_block: if self.r.chance(1, 2) { Some(self.block(d - 1, lp, sw)) } else { None } },
            12 => HirStatement::While { condition: self.expr(2), body: self.block(d - 1, true, false) },
            13 | 14 => {
                self.scopes.push(vec![]);
                let n = if self.shadow && self.r.chance(1, 3) { self.name() } else { self.fresh() };
                self.scopes.last_mut().unwrap().push(n.clone());
                let v = || HirExpression::Variable(n.clone());
                let kind = self.r.below(6);
                let mut second = None;
                if self.r.chance(1, 5) {
                    let (m, e) = (self.fresh(), self.expr(1));
                    if m != n && !mentions(&e, &m) {
                        self.scopes.last_mut().unwrap().push(m.clone());
                        second = Some((m, e));
                    }
                }
                let mut increment = vec![HirStatement::Assignment { target: n.clone(), value: bin(BinaryOperator::Add, v(), int(1)) }];
                if kind == 1 {
                    increment.push(self.assign());
                }
                if kind == 2 {
                    increment.insert(0, self.assign());
                }
                let condition = if kind == 3 { bin(BinaryOperator::Subtract, v(), int(3)) } else { bin(BinaryOperator::LessThan, v(), int(4)) };
                let mut body = self.block(d - 1, true, false);
                if kind == 4 {
                    body.extend(increment.drain(..));
                }
                self.scopes.pop();
                let mut init = vec![HirStatement::VariableDeclaration { name: n.clone(), var_type: HirType::Int, initializer: Some(int(0)) }];
                if let Some((m, e)) = second {
                    init.push(HirStatement::VariableDeclaration { name: m, var_type: HirType::Int, initializer: Some(e) });
                }
                HirStatement::For {
                    init,
                    condition: if kind == 5 && self.r.chance(1, 3) { None } else { Some(condition) },
                    increment,
                    body,
                }
            }
            15 => HirStatement::For { init: (0..self.r.below(3)).map(|_| self.assign()).collect(), condition: Some(self.expr(2)), increment: vec![self.assign()], body: self.block(d - 1, true, false) },
            // { ... }
            16 => HirStatement::If { condition: int(1), then_block: self.block(d - 1, lp, sw), else_block: None },
            // do ... while
            17 => {
                self.n += 1;
                let n = format!("pass{}", self.n);
                HirStatement::For {
                    init: vec![HirStatement::VariableDeclaration { name: n.clone(), var_type: HirType::Int, initializer: Some(int(1)) }],
                    condition: Some(bin(BinaryOperator::LogicalOr, var(&n), self.expr(2))),
                    increment: vec![HirStatement::Assignment { target: n, value: int(0) }],
                    body: self.block(d - 1, true, false),
                }
            }
            _ => {
                let k = self.r.below(4);
                let mut cases: Vec<SwitchCase> = vec![];
                for i in 0..k {
                    let mut body = if self.r.chance(1, 4) { vec![] } else { self.block(d - 1, lp, true) };
                    match cases.first() {
                        // falls through to the case after it
                        Some(c) if self.r.chance(1, 3) && !body.iter().any(|s| matches!(s, HirStatement::VariableDeclaration { .. } | HirStatement::Return(_) | HirStatement::Break | HirStatement::Continue)) => body.extend(c.body.clone()),
                        _ => body.push(HirStatement::Break),
                    }
                    let value = if self.r.chance(1, 5) { HirExpression::CharLiteral(b"a0Z~"[i] as i8) } else { int(i as i32 * 2 - 1) };
                    cases.insert(0, SwitchCase { value: Some(value), body });
                }
                HirStatement::Switch {
                    condition: self.expr(1),
                    cases,
                    default_case: if self.r.chance(1, 2) { Some(self.block(d - 1, lp, true)) } else { None },
                }
            }
        }
    }
    pub fn function(&mut self) -> HirFunction {
        let k = 1 + self.r.below(5);
        let body: Vec<HirStatement> = (0..k).map(|_| self.stmt(2, false, false)).collect();
        let mut body = self.split(body);
        if self.void {
            let e = self.expr(2);
            body.push(HirStatement::Expression(call("note", vec![e])));
        } else {
            body.push(HirStatement::Return(Some(self.expr(2))));
        }
        let ps = self.scopes[0].iter().map(|n| HirParameter::new(n.clone(), HirType::Int)).collect();
        HirFunction::new_with_body("fx".into(), if self.void { HirType::Void } else { HirType::Int }, ps, body)
    }
    /// the same without parameters: they are variables with a value
    pub fn main(&mut self, values: &[i32]) -> HirFunction {
        let f = self.function();
        let mut body: Vec<HirStatement> = vec![];
        for (i, p) in f.parameters().iter().enumerate() {
            body.push(HirStatement::VariableDeclaration { name: p.name().to_string(), var_type: HirType::Int, initializer: Some(int(values[i])) });
        }
        body.extend(f.body().iter().cloned());
        HirFunction::new_with_body("main".into(), HirType::Int, vec![], body)
    }
}

// ------------------------------------------------------------------ as C text

pub fn c_op(op: BinaryOperator) -> &'static str {
    use BinaryOperator::*;
    match op {
        Add => "+", Subtract => "-", Multiply => "*", Divide => "/", Modulo => "%", Equal => "==", NotEqual => "!=",
        LessThan => "<", GreaterThan => ">", LessEqual => "<=", GreaterEqual => ">=", LogicalAnd => "&&", LogicalOr => "||",
        LeftShift => "<<", RightShift => ">>", BitwiseAnd => "&", BitwiseOr => "|", BitwiseXor => "^", Assign => "=", Comma => ",",
    }
}
fn c_level(op: BinaryOperator) -> u8 {
    use BinaryOperator::*;
    match op {
        Multiply | Divide | Modulo => 13,
        Add | Subtract => 12,
        LeftShift | RightShift => 11,
        LessThan | GreaterThan | LessEqual | GreaterEqual => 10,
        Equal | NotEqual => 9,
        BitwiseAnd => 8,
        BitwiseXor => 7,
        BitwiseOr => 6,
        LogicalAnd => 5,
        LogicalOr => 4,
        Assign => 2,
        Comma => 1,
    }
}
/// C text of an expression, with no parentheses C does not need
pub fn c_expr(e: &HirExpression) -> String {
    c_at(e, 0)
}
/// an integer constant in one of C's notations
fn c_int(v: i32) -> String {
    match v % 11 {
        3 => format!("0x{:x}", v),
        5 => format!("0X{:X}", v),
        8 | 10 => format!("0{:o}", v),
        _ => v.to_string(),
    }
}
fn c_at(e: &HirExpression, min: u8) -> String {
    let (t, lvl) = match e {
        HirExpression::IntLiteral(v) if *v < 0 => (if *v == i32::MIN { "-2147483647 - 1".to_string() } else { format!("-{}", c_int(-*v)) }, if *v == i32::MIN { 12 } else { 14 }),
        HirExpression::IntLiteral(v) => (c_int(*v), 16),
        HirExpression::CharLiteral(c) => (format!("'{}'", *c as u8 as char), 16),
        HirExpression::Variable(n) => (n.clone(), 16),
        HirExpression::BinaryOp { op, left, right } => {
            let l = c_level(*op);
            (format!("{} {} {}", c_at(left, l), c_op(*op), c_at(right, l + 1)), l)
        }
        HirExpression::UnaryOp { op, operand } => {
            let o = c_at(operand, 14);
            let s = match op { UnaryOperator::Minus => "-", UnaryOperator::LogicalNot => "!", _ => "~" };
            (if s == "-" && o.starts_with('-') { format!("- {}", o) } else { format!("{}{}", s, o) }, 14)
        }
        HirExpression::Ternary { condition, then_expr, else_expr } => (format!("{} ? {} : {}", c_at(condition, 4), c_at(then_expr, 0), c_at(else_expr, 3)), 3),
        HirExpression::Cast { expr, .. } => (format!("(int){}", c_at(expr, 14)), 14),
        HirExpression::FunctionCall { function, arguments } => (format!("{}({})", function, arguments.iter().map(|a| c_at(a, 2)).collect::<Vec<_>>().join(", ")), 16),
        other => panic!("{:?}", other),
    };
    if lvl < min { format!("({})", t) } else { t }
}
pub struct CText<'a> {
    pub r: &'a mut Rng,
    out: String,
}
impl CText<'_> {
    fn simple(&mut self, s: &HirStatement) -> String {
        match s {
            HirStatement::VariableDeclaration { name, initializer, .. } => match initializer {
                Some(e) => format!("int {} = {}", name, c_at(e, 2)),
                None => format!("int {}", name),
            },
            HirStatement::Assignment { target, value } => {
                if let HirExpression::BinaryOp { op, left, right } = value {
                    if **left == HirExpression::Variable(target.clone()) && c_level(*op) != 10 && c_level(*op) != 9 && c_level(*op) > 5 && self.r.chance(1, 2) {
                        if **right == int(1) && matches!(op, BinaryOperator::Add | BinaryOperator::Subtract) {
                            let o = if *op == BinaryOperator::Add { "++" } else { "--" };
                            return if self.r.chance(1, 2) { format!("{}{}", o, target) } else { format!("{}{}", target, o) };
                        }
                        return format!("{} {}= {}", target, c_op(*op), c_at(right, 2));
                    }
                }
                format!("{} = {}", target, c_at(value, 2))
            }
            HirStatement::Expression(e) => c_expr(e),
            other => panic!("{:?}", other),
        }
    }
    /// a body in braces, or bare where C allows it
    fn body(&mut self, b: &[HirStatement], ind: usize, bare: bool) {
        if b.len() == 1 && bare && !matches!(b[0], HirStatement::VariableDeclaration { .. }) && self.r.chance(1, 2) {
            self.out.push('\n');
            self.stmts(b, ind + 1);
            return;
        }
        self.out.push_str(" {\n");
        self.stmts(b, ind + 1);
        self.out.push_str(&format!("{}}}\n", "    ".repeat(ind)));
    }
    fn stmts(&mut self, b: &[HirStatement], ind: usize) {
        let pad = "    ".repeat(ind);
        for s in b {
            self.out.push_str(&pad);
            self.stmt(s, ind);
        }
    }
    fn stmt(&mut self, s: &HirStatement, ind: usize) {
        let pad = "    ".repeat(ind);
        match s {
            HirStatement::Return(e) => self.out.push_str(&match e { Some(e) => format!("return {};\n", c_expr(e)), None => "return;\n".to_string() }),
            HirStatement::If { condition: HirExpression::IntLiteral(1), then_block, else_block: None } => {
                self.out.push_str("{\n");
                self.stmts(then_block, ind + 1);
                self.out.push_str(&format!("{}}}\n", pad));
            }
            HirStatement::If { condition, then_block, else_block } => {
                self.out.push_str(&format!("if ({})", c_expr(condition)));
                let plain = matches!(then_block.first(), Some(HirStatement::Assignment { .. } | HirStatement::Return(_) | HirStatement::Break | HirStatement::Continue | HirStatement::Expression(_)));
                self.body(then_block, ind, plain);
                if let Some(e) = else_block {
                    self.out.push_str(&format!("{}else", pad));
                    let chain = e.len() == 1 && matches!(&e[0], HirStatement::If { condition, .. } if *condition != int(1));
                    if chain && self.r.chance(2, 3) {
                        self.out.push(' ');
                        self.stmt(&e[0], ind);
                    } else {
                        let plain = !matches!(e.first(), Some(HirStatement::If { .. }));
                        self.body(e, ind, plain);
                    }
                }
            }
            HirStatement::While { condition, body } => {
                self.out.push_str(&format!("while ({})", c_expr(condition)));
                let plain = !matches!(body.first(), Some(HirStatement::If { .. }));
                self.body(body, ind, plain);
            }
            HirStatement::For { init, condition, increment, body } => {
                if let (Some(HirStatement::VariableDeclaration { name, .. }), Some(HirExpression::BinaryOp { right, .. })) = (init.first(), condition) {
                    if name.starts_with("pass") {
                        self.out.push_str("do");
                        self.body(body, ind, false);
                        self.out.push_str(&format!("{}while ({});\n", pad, c_expr(right)));
                        return;
                    }
                }
                let i: Vec<String> = init.iter().enumerate().map(|(k, s)| { let t = self.simple(s); if k > 0 { t.trim_start_matches("int ").to_string() } else { t } }).collect();
                let n: Vec<String> = increment.iter().map(|s| self.simple(s)).collect();
                self.out.push_str(&format!("for ({}; {}; {})", i.join(", "), condition.as_ref().map(c_expr).unwrap_or_default(), n.join(", ")));
                let plain = !matches!(body.first(), Some(HirStatement::If { .. }));
                self.body(body, ind, plain);
            }
            HirStatement::Switch { condition, cases, default_case } => {
                self.out.push_str(&format!("switch ({}) {{\n", c_expr(condition)));
                for (k, c) in cases.iter().enumerate() {
                    self.out.push_str(&format!("{}case {}:\n", pad, c.value.as_ref().map(c_expr).unwrap_or_default()));
                    let mut own = &c.body[..];
                    if let Some(next) = cases.get(k + 1) {
                        if own.ends_with(&next.body) {
                            own = &own[..own.len() - next.body.len()];
                        }
                    }
                    if own.iter().any(|s| matches!(s, HirStatement::VariableDeclaration { .. })) {
                        self.out.push_str(&format!("{}{{\n", pad));
                        self.stmts(own, ind + 1);
                        self.out.push_str(&format!("{}}}\n", pad));
                    } else {
                        self.stmts(own, ind + 1);
                    }
                }
                if let Some(d) = default_case {
                    self.out.push_str(&format!("{}default: {{\n", pad));
                    self.stmts(d, ind + 1);
                    self.out.push_str(&format!("{}}}\n", pad));
                }
                self.out.push_str(&format!("{}}}\n", pad));
            }
            HirStatement::Break => self.out.push_str("break;\n"),
            HirStatement::Continue => self.out.push_str("continue;\n"),
            s => {
                let t = self.simple(s);
                self.out.push_str(&format!("{};\n", t))
            }
        }
    }
}
pub fn c_function(f: &HirFunction, seed: u64) -> String {
    let ps: Vec<String> = f.parameters().iter().map(|p| format!("int {}", p.name())).collect();
    let mut r = Rng::new(seed);
    let mut c = CText { r: &mut r, out: format!("{} {}({}) {{\n", if *f.return_type() == HirType::Void { "void" } else { "int" }, f.name(), if ps.is_empty() { "void".to_string() } else { ps.join(", ") }) };
    c.stmts(f.body(), 1);
    c.out.push_str("}\n");
    c.out
}

// ------------------------------------------------------------------ every form in every other

/// Small functions: a statement of every form, with blocks of every kind (empty, falling through,
/// declaring a variable that hides another, ending in each jump), in loops, switches, branches and
/// blocks, one and two deep, followed by uses of the variables around it.
pub fn shapes() -> Vec<HirFunction> {
    use BinaryOperator::*;
    type B = Vec<HirStatement>;
    let set = |n: &str, e: HirExpression| HirStatement::Assignment { target: n.into(), value: e };
    let dcl = |n: &str, e: HirExpression| HirStatement::VariableDeclaration { name: n.into(), var_type: HirType::Int, initializer: Some(e) };
    let cmp = |op, n: &str, k: i32| bin(op, var(n), int(k));
    let iff = |c: HirExpression, t: B, e: Option<B>| HirStatement::If { condition: c, then_block: t, else_block: e };
    let up = |n: &str, k: i32| set(n, bin(Add, var(n), int(k)));
    let mix = || set("a", bin(Modulo, bin(Add, bin(Multiply, var("a"), int(3)), var("b")), int(1009)));
    // what a block may be; true: it jumps (needs a loop around it)
    let blocks: Vec<(B, bool)> = vec![
        (vec![], false),
        (vec![up("a", 1)], false),
        (vec![dcl("b", int(7)), set("a", bin(Add, var("a"), var("b")))], false),
        (vec![set("b", bin(Subtract, int(5), var("b"))), HirStatement::Break], true),
        (vec![up("a", 2), HirStatement::Continue], true),
        (vec![HirStatement::Return(Some(var("a")))], false),
        (vec![dcl("b", int(4)), up("b", 1), HirStatement::Continue], true),
        (vec![iff(cmp(GreaterThan, "a", 9), vec![HirStatement::Break], None), up("b", 1)], true),
        (vec![dcl("b", var("a")), iff(cmp(LessThan, "b", 3), vec![dcl("a", int(2)), up("b", 3), HirStatement::Continue], None), set("a", var("b"))], true),
        (vec![set("c", int(1)), HirStatement::Break, up("a", 100)], true),
    ];
    let mut stmts: Vec<(HirStatement, bool)> = vec![];
    let conds = [cmp(LessThan, "a", 4), bin(BitwiseAnd, var("a"), int(1))];
    for (i, (x, jx)) in blocks.iter().enumerate() {
        let c = conds[i % 2].clone();
        stmts.push((iff(c.clone(), x.clone(), None), *jx));
        stmts.push((iff(int(1), x.clone(), None), *jx));
        stmts.push((HirStatement::While { condition: cmp(LessThan, "c", 6), body: [vec![up("c", 1)], x.clone()].concat() }, false));
        for (init, inc) in [
            (vec![dcl("i", int(0))], vec![up("i", 1)]),
            (vec![dcl("b", int(0))], vec![up("b", 1), mix()]),
            (vec![set("b", int(0)), set("c", var("b"))], vec![up("c", 1), set("b", var("c"))]),
        ] {
            let n = match &init[0] { HirStatement::VariableDeclaration { name, .. } => name.clone(), _ => "c".to_string() };
            stmts.push((HirStatement::For { init, condition: Some(cmp(LessThan, &n, 4)), increment: inc, body: x.clone() }, false));
        }
        stmts.push((HirStatement::For { init: vec![], condition: None, increment: vec![up("c", 1)], body: [vec![iff(cmp(GreaterThan, "c", 5), vec![HirStatement::Break], None)], x.clone()].concat() }, false));
        stmts.push((HirStatement::For { init: vec![], condition: Some(int((i % 2) as i32)), increment: vec![], body: [vec![up("c", 1), iff(cmp(GreaterThan, "c", 5), vec![HirStatement::Break], None)], x.clone()].concat() }, false));
        for (y, jy) in &blocks {
            stmts.push((iff(c.clone(), x.clone(), Some(y.clone())), *jx || *jy));
            let end = |b: &B| if matches!(b.last(), Some(HirStatement::Break | HirStatement::Continue | HirStatement::Return(_))) { b.clone() } else { [b.clone(), vec![HirStatement::Break]].concat() };
            let sw = HirStatement::Switch {
                condition: bin(BitwiseAnd, var("a"), int(3)),
                cases: vec![SwitchCase { value: Some(int(1)), body: end(x) }, SwitchCase { value: Some(int(2)), body: end(y) }],
                default_case: if i % 2 == 0 { Some(vec![up("a", 5)]) } else { None },
            };
            let cont = |b: &B| format!("{:?}", b).contains("Continue");
            stmts.push((sw, cont(x) || cont(y)));
        }
    }
    // where a statement may stand; the flag: breaks and continues may stand there
    let places = 8;
    let place = |k: usize, s: B| -> B {
        let tail = vec![mix()];
        match k {
            0 => [s, tail].concat(),
            1 => vec![HirStatement::While { condition: cmp(LessThan, "c", 7), body: [vec![up("c", 1)], s, tail].concat() }, mix()],
            2 => vec![HirStatement::For { init: vec![dcl("k", int(0))], condition: Some(cmp(LessThan, "k", 3)), increment: vec![up("k", 1), up("b", 2)], body: [s, tail].concat() }, mix()],
            3 => vec![HirStatement::For { init: vec![dcl("c", int(0))], condition: Some(cmp(NotEqual, "c", 3)), increment: vec![up("c", 1)], body: [s, tail].concat() }, mix()],
            4 => vec![HirStatement::For { init: vec![], condition: None, increment: vec![], body: [vec![up("c", 1), iff(cmp(GreaterThan, "c", 7), vec![HirStatement::Break], None)], s, tail].concat() }, mix()],
            5 => vec![HirStatement::Switch { condition: bin(BitwiseAnd, var("c"), int(1)), cases: vec![SwitchCase { value: Some(int(1)), body: [s, tail.clone(), vec![HirStatement::Break]].concat() }], default_case: Some(tail) }, mix()],
            6 => vec![iff(cmp(GreaterEqual, "c", 0), [s, tail.clone()].concat(), Some(tail)), mix()],
            _ => vec![iff(int(1), [vec![dcl("c", int(3))], s, tail].concat(), None), mix()],
        }
    };
    let mut out = vec![];
    let mut add = |body: B| {
        let body = [body, vec![HirStatement::Return(Some(bin(Add, bin(Multiply, var("a"), int(31)), bin(Add, bin(Multiply, var("b"), int(7)), var("c")))))]].concat();
        let ps = ["a", "b", "c"].iter().map(|n| HirParameter::new(n.to_string(), HirType::Int)).collect();
        out.push(HirFunction::new_with_body("fx".into(), HirType::Int, ps, body));
    };
    for (s, jumps) in &stmts {
        for k in 0..places {
            if !*jumps || (1..=4).contains(&k) {
                add(place(k, vec![s.clone()]));
            }
        }
    }
    for (n, (s, jumps)) in stmts.iter().enumerate() {
        for k in 1..places {
            for l in 1..places {
                if (n + k + l) % 4 == 0 && (!*jumps || (1..=4).contains(&l) || (l > 5 && (1..=4).contains(&k))) {
                    add(place(k, place(l, vec![s.clone()])));
                }
            }
        }
    }
    out
}
