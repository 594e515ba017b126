//! Generators of HIR values and a reference interpreter for HIR.
use crate::Rng;
use decy_hir::*;
use std::collections::HashMap;

pub const OPS: [BinaryOperator; 20] = [
    BinaryOperator::Add, BinaryOperator::Subtract, BinaryOperator::Multiply, BinaryOperator::Divide, BinaryOperator::Modulo,
    BinaryOperator::Equal, BinaryOperator::NotEqual, BinaryOperator::LessThan, BinaryOperator::GreaterThan,
    BinaryOperator::LessEqual, BinaryOperator::GreaterEqual, BinaryOperator::LogicalAnd, BinaryOperator::LogicalOr,
    BinaryOperator::LeftShift, BinaryOperator::RightShift, BinaryOperator::BitwiseAnd, BinaryOperator::BitwiseOr,
    BinaryOperator::BitwiseXor, BinaryOperator::Assign, BinaryOperator::Comma,
];
pub const EDGE: [i32; 21] = [
    0, 1, -1, 2, -2, 3, 5, 7, -7, 10, 31, 32, 33, 255, 256, 65535, 65536, i32::MAX, i32::MAX - 1, i32::MIN, i32::MIN + 1,
];

pub fn int(v: i32) -> HirExpression {
    HirExpression::IntLiteral(v)
}
pub fn var(n: &str) -> HirExpression {
    HirExpression::Variable(n.into())
}
pub fn bin(op: BinaryOperator, l: HirExpression, r: HirExpression) -> HirExpression {
    HirExpression::BinaryOp { op, left: Box::new(l), right: Box::new(r) }
}
pub fn un(op: UnaryOperator, e: HirExpression) -> HirExpression {
    HirExpression::UnaryOp { op, operand: Box::new(e) }
}
pub fn call(f: &str, a: Vec<HirExpression>) -> HirExpression {
    HirExpression::FunctionCall { function: f.into(), arguments: a }
}

/// C's value of an int operation; None: undefined behaviour (or not an int operation)
pub fn c_int(l: i32, op: BinaryOperator, r: i32) -> Option<i32> {
    use BinaryOperator::*;
    let (a, b) = (l as i64, r as i64);
    let fit = |v: i64| i32::try_from(v).ok();
    match op {
        Add => fit(a + b),
        Subtract => fit(a - b),
        Multiply => fit(a * b),
        Divide => if b == 0 { None } else { fit(a / b) },
        Modulo => if b == 0 || fit(a / b).is_none() { None } else { fit(a % b) },
        Equal => Some((a == b) as i32),
        NotEqual => Some((a != b) as i32),
        LessThan => Some((a < b) as i32),
        GreaterThan => Some((a > b) as i32),
        LessEqual => Some((a <= b) as i32),
        GreaterEqual => Some((a >= b) as i32),
        LogicalAnd => Some((a != 0 && b != 0) as i32),
        LogicalOr => Some((a != 0 || b != 0) as i32),
        LeftShift => if (0..32).contains(&b) { Some(((a << b) & 0xffff_ffff) as u32 as i32) } else { None },
        RightShift => if (0..32).contains(&b) { Some((a >> b) as i32) } else { None },
        BitwiseAnd => Some((a & b) as i32),
        BitwiseOr => Some((a | b) as i32),
        BitwiseXor => Some((a ^ b) as i32),
        Assign | Comma => None,
    }
}

// ------------------------------------------------------------------ interpreter

#[derive(Debug, Clone, PartialEq)]
pub enum Stop {
    Undefined,  // the run is undefined in C: nothing is required
    OutOfFuel,
}
#[derive(Debug, Clone, PartialEq)]
pub enum Flow {
    Next,
    Return(Option<i64>),
    Break,
    Continue,
}
#[derive(Debug, Clone, PartialEq)]
pub struct Outcome {
    pub ret: Option<i64>,
    pub returned: bool,
    pub trace: Vec<String>,
}

pub struct Interp {
    scopes: Vec<HashMap<String, (HirType, Option<i64>)>>,
    pub trace: Vec<String>,
    fuel: usize,
}

/// conversion of a value to a declared type
pub fn convert(t: &HirType, v: i64) -> i64 {
    match t {
        HirType::Bool => (v != 0) as i64,
        HirType::Int => v as i32 as i64,
        HirType::UnsignedInt => v as u32 as i64,
        HirType::Char => v as u8 as i64,
        HirType::SignedChar => v as i8 as i64,
        _ => v,
    }
}

impl Interp {
    pub fn run(f: &HirFunction, inputs: &[i64]) -> Result<Outcome, Stop> {
        let mut it = Interp { scopes: vec![HashMap::new()], trace: vec![], fuel: 4000 };
        for (i, p) in f.parameters().iter().enumerate() {
            let v = convert(p.param_type(), *inputs.get(i).unwrap_or(&0));
            it.scopes[0].insert(p.name().to_string(), (p.param_type().clone(), Some(v)));
        }
        // a few globals, so that any name resolves somewhere
        for g in ["g0", "g1"] {
            it.scopes[0].entry(g.to_string()).or_insert((HirType::Int, Some(inputs.first().copied().unwrap_or(3))));
        }
        it.scopes.push(HashMap::new());
        let fl = it.block(f.body())?;
        let (ret, returned) = match fl {
            Flow::Return(v) => (v.map(|v| convert(f.return_type(), v)), true),
            _ => (None, false),
        };
        let mut trace = it.trace;
        for g in ["g0", "g1"] {
            trace.push(format!("final {}={:?}", g, it.scopes[0].get(g).and_then(|x| x.1)));
        }
        Ok(Outcome { ret, returned, trace })
    }
    fn tick(&mut self) -> Result<(), Stop> {
        if self.fuel == 0 {
            return Err(Stop::OutOfFuel);
        }
        self.fuel -= 1;
        Ok(())
    }
    fn look(&mut self, n: &str) -> Result<&mut (HirType, Option<i64>), Stop> {
        for s in self.scopes.iter_mut().rev() {
            if s.contains_key(n) {
                return Ok(s.get_mut(n).unwrap());
            }
        }
        Err(Stop::Undefined)
    }
    fn set(&mut self, n: &str, v: i64) -> Result<i64, Stop> {
        let slot = self.look(n)?;
        let v = convert(&slot.0.clone(), v);
        slot.1 = Some(v);
        Ok(v)
    }
    fn scoped(&mut self, b: &[HirStatement]) -> Result<Flow, Stop> {
        self.scopes.push(HashMap::new());
        let r = self.block(b);
        self.scopes.pop();
        r
    }
    fn block(&mut self, b: &[HirStatement]) -> Result<Flow, Stop> {
        for s in b {
            let f = self.stmt(s)?;
            if f != Flow::Next {
                return Ok(f);
            }
        }
        Ok(Flow::Next)
    }
    fn stmt(&mut self, s: &HirStatement) -> Result<Flow, Stop> {
        self.tick()?;
        match s {
            HirStatement::VariableDeclaration { name, var_type, initializer } => {
                // the initializer is evaluated before the new name hides an outer one only if it
                // does not mention the name: C's scope begins at the declarator
                if let Some(e) = initializer {
                    if mentions(e, name) {
                        return Err(Stop::Undefined);
                    }
                }
                let v = match initializer {
                    Some(e) => Some(convert(var_type, self.expr(e)?)),
                    None => None,
                };
                if self.scopes.last().unwrap().contains_key(name) {
                    return Err(Stop::Undefined); // redeclaration in one scope is not C
                }
                self.scopes.last_mut().unwrap().insert(name.clone(), (var_type.clone(), v));
                Ok(Flow::Next)
            }
            HirStatement::Return(e) => Ok(Flow::Return(match e {
                Some(e) => Some(self.expr(e)?),
                None => None,
            })),
            HirStatement::If { condition, then_block, else_block } => {
                if self.expr(condition)? != 0 {
                    self.scoped(then_block)
                } else if let Some(b) = else_block {
                    self.scoped(b)
                } else {
                    Ok(Flow::Next)
                }
            }
            HirStatement::While { condition, body } => {
                while self.expr(condition)? != 0 {
                    self.tick()?;
                    match self.scoped(body)? {
                        Flow::Break => break,
                        Flow::Return(v) => return Ok(Flow::Return(v)),
                        _ => {}
                    }
                }
                Ok(Flow::Next)
            }
            HirStatement::For { init, condition, increment, body } => {
                self.scopes.push(HashMap::new());
                let r = (|| {
                    let f = self.block(init)?;
                    if f != Flow::Next {
                        return Ok(f);
                    }
                    loop {
                        self.tick()?;
                        if let Some(c) = condition {
                            if self.expr(c)? == 0 {
                                break;
                            }
                        }
                        match self.scoped(body)? {
                            Flow::Break => break,
                            Flow::Return(v) => return Ok(Flow::Return(v)),
                            _ => {}
                        }
                        self.scoped(increment)?;
                    }
                    Ok(Flow::Next)
                })();
                self.scopes.pop();
                r
            }
            HirStatement::Switch { condition, cases, default_case } => {
                let v = self.expr(condition)?;
                for c in cases {
                    if let Some(x) = &c.value {
                        if self.expr(x)? == v {
                            return match self.scoped(&c.body)? {
                                Flow::Break => Ok(Flow::Next),
                                f => Ok(f),
                            };
                        }
                    }
                }
                if let Some(d) = default_case {
                    return match self.scoped(d)? {
                        Flow::Break => Ok(Flow::Next),
                        f => Ok(f),
                    };
                }
                Ok(Flow::Next)
            }
            HirStatement::Break => Ok(Flow::Break),
            HirStatement::Continue => Ok(Flow::Continue),
            HirStatement::Assignment { target, value } => {
                let v = self.expr(value)?;
                self.set(target, v)?;
                Ok(Flow::Next)
            }
            HirStatement::Expression(e) => {
                self.expr(e)?;
                Ok(Flow::Next)
            }
            HirStatement::DerefAssignment { target, value } => {
                let t = self.expr(target)?;
                let v = self.expr(value)?;
                self.trace.push(format!("*{}={}", t, v));
                Ok(Flow::Next)
            }
            HirStatement::ArrayIndexAssignment { array, index, value } => {
                let a = self.expr(array)?;
                let i = self.expr(index)?;
                let v = self.expr(value)?;
                self.trace.push(format!("{}[{}]={}", a, i, v));
                Ok(Flow::Next)
            }
            HirStatement::FieldAssignment { object, field, value } => {
                let a = self.expr(object)?;
                let v = self.expr(value)?;
                self.trace.push(format!("{}.{}={}", a, field, v));
                Ok(Flow::Next)
            }
            HirStatement::Free { pointer } => {
                let a = self.expr(pointer)?;
                self.trace.push(format!("free {}", a));
                Ok(Flow::Next)
            }
            HirStatement::InlineAsm { text, .. } => {
                self.trace.push(format!("asm {}", text));
                Ok(Flow::Next)
            }
        }
    }
    fn as_int(v: i64) -> Result<i32, Stop> {
        // values outside int are carried by wider types: int arithmetic on them is out of the model
        i32::try_from(v).map_err(|_| Stop::Undefined)
    }
    fn opaque(&mut self, tag: &str, args: &[i64]) -> i64 {
        opaque(tag, args, self.trace.len())
    }
    fn expr(&mut self, e: &HirExpression) -> Result<i64, Stop> {
        self.tick()?;
        Ok(match e {
            HirExpression::IntLiteral(v) => *v as i64,
            HirExpression::CharLiteral(c) => *c as i64,
            HirExpression::NullLiteral => 0,
            HirExpression::Variable(n) => self.look(n)?.1.ok_or(Stop::Undefined)?,
            HirExpression::BinaryOp { op, left, right } => match op {
                BinaryOperator::LogicalAnd => (self.expr(left)? != 0 && self.expr(right)? != 0) as i64,
                BinaryOperator::LogicalOr => (self.expr(left)? != 0 || self.expr(right)? != 0) as i64,
                BinaryOperator::Comma => {
                    self.expr(left)?;
                    self.expr(right)?
                }
                BinaryOperator::Assign => {
                    let v = self.expr(right)?;
                    match &**left {
                        HirExpression::Variable(n) => self.set(n, v)?,
                        _ => return Err(Stop::Undefined),
                    }
                }
                _ => {
                    let l = self.expr(left)?;
                    let r = self.expr(right)?;
                    c_int(Self::as_int(l)?, *op, Self::as_int(r)?).ok_or(Stop::Undefined)? as i64
                }
            },
            HirExpression::UnaryOp { op, operand } => match op {
                UnaryOperator::Minus => {
                    let v = Self::as_int(self.expr(operand)?)?;
                    v.checked_neg().ok_or(Stop::Undefined)? as i64
                }
                UnaryOperator::LogicalNot => (self.expr(operand)? == 0) as i64,
                UnaryOperator::BitwiseNot => !Self::as_int(self.expr(operand)?)? as i64,
                _ => return Err(Stop::Undefined),
            },
            HirExpression::PostIncrement { operand } | HirExpression::PreIncrement { operand }
            | HirExpression::PostDecrement { operand } | HirExpression::PreDecrement { operand } => {
                let n = match &**operand {
                    HirExpression::Variable(n) => n.clone(),
                    _ => return Err(Stop::Undefined),
                };
                let old = self.look(&n)?.1.ok_or(Stop::Undefined)?;
                let d = if matches!(e, HirExpression::PostIncrement { .. } | HirExpression::PreIncrement { .. }) { 1 } else { -1 };
                let new = self.set(&n, old + d)?;
                if matches!(e, HirExpression::PostIncrement { .. } | HirExpression::PostDecrement { .. }) { old } else { new }
            }
            HirExpression::FunctionCall { function, arguments } => {
                let mut a = vec![];
                for x in arguments {
                    a.push(self.expr(x)?);
                }
                let r = self.opaque(function, &a);
                self.trace.push(format!("{}({:?})", function, a));
                r
            }
            HirExpression::Ternary { condition, then_expr, else_expr } => {
                if self.expr(condition)? != 0 { self.expr(then_expr)? } else { self.expr(else_expr)? }
            }
            HirExpression::Cast { target_type, expr } => {
                let v = self.expr(expr)?;
                convert(target_type, v)
            }
            HirExpression::Malloc { size } => {
                let a = self.expr(size)?;
                self.trace.push(format!("malloc {}", a));
                0x1000 + self.trace.len() as i64
            }
            HirExpression::ArrayIndex { array, index } => {
                let a = self.expr(array)?;
                let i = self.expr(index)?;
                self.trace.push(format!("read {}[{}]", a, i));
                self.opaque("idx", &[a, i])
            }
            other => {
                // opaque but pure: identified by its text
                let t = format!("{:?}", other);
                self.trace.push(t.clone());
                self.opaque(&t, &[])
            }
        })
    }
}

pub fn mentions(e: &HirExpression, n: &str) -> bool {
    format!("{:?}", e).contains(&format!("Variable(\"{}\")", n))
}

// ------------------------------------------------------------------ program generator

pub struct ProgGen<'a> {
    pub r: &'a mut Rng,
    pub names: Vec<&'static str>,
}
pub const SCALARS: [HirType; 5] = [HirType::Int, HirType::UnsignedInt, HirType::Char, HirType::SignedChar, HirType::Bool];

impl<'a> ProgGen<'a> {
    pub fn name(&mut self) -> String {
        self.r.pick(&self.names.clone()).to_string()
    }
    pub fn ty(&mut self) -> HirType {
        if self.r.chance(2, 3) { HirType::Int } else { self.r.pick(&SCALARS).clone() }
    }
    pub fn lit(&mut self) -> HirExpression {
        match self.r.below(6) {
            0 | 1 => int(0),
            2 => int(1),
            3 => int(*self.r.pick(&EDGE)),
            4 => int(self.r.below(300) as i32 - 20),
            _ => int(2),
        }
    }
    pub fn expr(&mut self, d: usize) -> HirExpression {
        if d == 0 {
            return if self.r.chance(1, 2) { self.lit() } else { HirExpression::Variable(self.name()) };
        }
        match self.r.below(14) {
            0 | 1 => self.lit(),
            2 | 3 => HirExpression::Variable(self.name()),
            4..=7 => {
                let op = OPS[self.r.below(18)];
                let l = self.expr(d - 1);
                let r = self.expr(d - 1);
                bin(op, l, r)
            }
            8 => un(UnaryOperator::Minus, self.expr(d - 1)),
            9 => un(*self.r.pick(&[UnaryOperator::LogicalNot, UnaryOperator::BitwiseNot]), self.expr(d - 1)),
            10 => {
                let n = self.r.below(3);
                let a = (0..n).map(|_| self.expr(d - 1)).collect();
                call(["f", "h", "malloc", "io"][self.r.below(4)], a)
            }
            11 => match self.r.below(4) {
                0 => HirExpression::PostIncrement { operand: Box::new(HirExpression::Variable(self.name())) },
                1 => HirExpression::PreDecrement { operand: Box::new(HirExpression::Variable(self.name())) },
                2 => bin(BinaryOperator::Assign, HirExpression::Variable(self.name()), self.expr(d - 1)),
                _ => bin(BinaryOperator::Comma, self.expr(d - 1), self.expr(d - 1)),
            },
            12 => HirExpression::Ternary {
                condition: Box::new(self.expr(d - 1)),
                then_expr: Box::new(self.expr(d - 1)),
                else_expr: Box::new(self.expr(d - 1)),
            },
            _ => HirExpression::Cast { target_type: self.ty(), expr: Box::new(self.expr(d - 1)) },
        }
    }
    pub fn cond(&mut self) -> HirExpression {
        match self.r.below(5) {
            0 => int(0),
            1 => int(1),
            2 => bin(*self.r.pick(&OPS[..5]), self.lit(), self.lit()),
            _ => self.expr(2),
        }
    }
    pub fn block(&mut self, d: usize, max: usize) -> Vec<HirStatement> {
        let n = self.r.below(max + 1);
        let mut v = vec![];
        for _ in 0..n {
            if self.r.chance(1, 8) {
                // T x = e; return x;
                let name = self.name();
                v.push(HirStatement::VariableDeclaration { name: name.clone(), var_type: self.ty(), initializer: Some(self.expr(2)) });
                if self.r.chance(1, 5) {
                    v.push(self.stmt(d));
                }
                v.push(HirStatement::Return(Some(HirExpression::Variable(name))));
            } else {
                v.push(self.stmt(d));
            }
        }
        v
    }
    pub fn stmt(&mut self, d: usize) -> HirStatement {
        let leaf = d == 0;
        match self.r.below(if leaf { 9 } else { 15 }) {
            0 | 1 => HirStatement::VariableDeclaration {
                name: self.name(),
                var_type: self.ty(),
                initializer: if self.r.chance(7, 8) { Some(self.expr(2)) } else { None },
            },
            2 => HirStatement::Return(if self.r.chance(6, 7) { Some(self.expr(2)) } else { None }),
            3 | 4 | 5 => HirStatement::Assignment { target: self.name(), value: self.expr(3) },
            6 => HirStatement::Expression(call("io", vec![self.expr(2)])),
            7 => HirStatement::Expression(self.expr(2)),
            8 => match self.r.below(5) {
                0 => HirStatement::Break,
                1 => HirStatement::Continue,
                2 => HirStatement::DerefAssignment { target: var("g0"), value: self.expr(1) },
                3 => HirStatement::ArrayIndexAssignment { array: Box::new(var("g1")), index: Box::new(self.expr(1)), value: self.expr(1) },
                _ => HirStatement::Expression(call("tick", vec![])),
            },
            9 | 10 | 11 => HirStatement::If {
                condition: self.cond(),
                then_block: self.block(d - 1, 3),
                else_block: if self.r.chance(1, 2) { Some(self.block(d - 1, 3)) } else { None },
            },
            12 => HirStatement::While { condition: self.cond(), body: self.block(d - 1, 3) },
            13 => {
                let n = self.name();
                HirStatement::For {
                    init: if self.r.chance(2, 3) {
                        vec![HirStatement::VariableDeclaration { name: n.clone(), var_type: HirType::Int, initializer: Some(int(0)) }]
                    } else {
                        vec![]
                    },
                    condition: Some(bin(BinaryOperator::LessThan, HirExpression::Variable(n.clone()), self.lit())),
                    increment: vec![HirStatement::Assignment { target: n.clone(), value: bin(BinaryOperator::Add, HirExpression::Variable(n), int(1)) }],
                    body: self.block(d - 1, 3),
                }
            }
            _ => HirStatement::Switch {
                condition: self.expr(1),
                cases: vec![SwitchCase { value: Some(self.lit()), body: self.block(d - 1, 2) }],
                default_case: if self.r.chance(1, 2) { Some(self.block(d - 1, 2)) } else { None },
            },
        }
    }
}

/// what an unknown function returns: depends on its name, its arguments and the calls before it
pub fn opaque(tag: &str, args: &[i64], calls: usize) -> i64 {
    let mut h: u64 = 1469598103934665603;
    for b in tag.bytes() {
        h = (h ^ b as u64).wrapping_mul(1099511628211);
    }
    for a in args {
        h = (h ^ *a as u64).wrapping_mul(1099511628211);
    }
    (h ^ calls as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) as i64 >> 54
}
