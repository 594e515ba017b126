//! Functions whose array parameters become slices, on the HIR: random functions with every kind of
//! expression and statement, compared with a direct statement of what the transformation is.
use crate::{Rng, Run};
use decy_hir::*;
use decy_ownership::array_slice::ArrayParameterTransformer;
use decy_ownership::borrow_gen::BorrowGenerator;
use decy_ownership::dataflow::DataflowAnalyzer;
use decy_ownership::inference::{OwnershipInference, OwnershipKind};
use std::collections::HashMap;
use HirExpression as X;
use HirStatement as S;

/// e with g applied to everything directly inside it
fn map_e(e: &X, g: &dyn Fn(&X) -> X) -> X {
    let b = |x: &X| Box::new(g(x));
    let v = |x: &Vec<X>| x.iter().map(g).collect::<Vec<X>>();
    match e {
        X::IntLiteral(_) | X::FloatLiteral(_) | X::StringLiteral(_) | X::CharLiteral(_) | X::Variable(_) | X::Sizeof { .. } | X::NullLiteral => e.clone(),
        X::BinaryOp { op, left, right } => X::BinaryOp { op: *op, left: b(left), right: b(right) },
        X::Dereference(i) => X::Dereference(b(i)),
        X::AddressOf(i) => X::AddressOf(b(i)),
        X::IsNotNull(i) => X::IsNotNull(b(i)),
        X::UnaryOp { op, operand } => X::UnaryOp { op: *op, operand: b(operand) },
        X::PostIncrement { operand } => X::PostIncrement { operand: b(operand) },
        X::PreIncrement { operand } => X::PreIncrement { operand: b(operand) },
        X::PostDecrement { operand } => X::PostDecrement { operand: b(operand) },
        X::PreDecrement { operand } => X::PreDecrement { operand: b(operand) },
        X::FunctionCall { function, arguments } => X::FunctionCall { function: function.clone(), arguments: v(arguments) },
        X::FieldAccess { object, field } => X::FieldAccess { object: b(object), field: field.clone() },
        X::PointerFieldAccess { pointer, field } => X::PointerFieldAccess { pointer: b(pointer), field: field.clone() },
        X::ArrayIndex { array, index } => X::ArrayIndex { array: b(array), index: b(index) },
        X::SliceIndex { slice, index, element_type } => X::SliceIndex { slice: b(slice), index: b(index), element_type: element_type.clone() },
        X::Calloc { count, element_type } => X::Calloc { count: b(count), element_type: element_type.clone() },
        X::Malloc { size } => X::Malloc { size: b(size) },
        X::Realloc { pointer, new_size } => X::Realloc { pointer: b(pointer), new_size: b(new_size) },
        X::StringMethodCall { receiver, method, arguments } => X::StringMethodCall { receiver: b(receiver), method: method.clone(), arguments: v(arguments) },
        X::Cast { target_type, expr } => X::Cast { target_type: target_type.clone(), expr: b(expr) },
        X::CompoundLiteral { literal_type, initializers } => X::CompoundLiteral { literal_type: literal_type.clone(), initializers: v(initializers) },
        X::Ternary { condition, then_expr, else_expr } => X::Ternary { condition: b(condition), then_expr: b(then_expr), else_expr: b(else_expr) },
        X::CxxNew { allocated_type, arguments } => X::CxxNew { allocated_type: allocated_type.clone(), arguments: v(arguments) },
        X::CxxDelete { operand } => X::CxxDelete { operand: b(operand) },
    }
}
fn map_s(s: &S, g: &dyn Fn(&X) -> X) -> S {
    let bl = |v: &Vec<S>| v.iter().map(|s| map_s(s, g)).collect::<Vec<S>>();
    match s {
        S::VariableDeclaration { name, var_type, initializer } => S::VariableDeclaration { name: name.clone(), var_type: var_type.clone(), initializer: initializer.as_ref().map(g) },
        S::Return(e) => S::Return(e.as_ref().map(g)),
        S::If { condition, then_block, else_block } => S::If { condition: g(condition), then_block: bl(then_block), else_block: else_block.as_ref().map(bl) },
        S::While { condition, body } => S::While { condition: g(condition), body: bl(body) },
        S::For { init, condition, increment, body } => S::For { init: bl(init), condition: condition.as_ref().map(g), increment: bl(increment), body: bl(body) },
        S::Switch { condition, cases, default_case } => S::Switch { condition: g(condition), cases: cases.iter().map(|c| SwitchCase { value: c.value.clone(), body: bl(&c.body) }).collect(), default_case: default_case.as_ref().map(bl) },
        S::Assignment { target, value } => S::Assignment { target: target.clone(), value: g(value) },
        S::DerefAssignment { target, value } => S::DerefAssignment { target: g(target), value: g(value) },
        S::ArrayIndexAssignment { array, index, value } => S::ArrayIndexAssignment { array: Box::new(g(array)), index: Box::new(g(index)), value: g(value) },
        S::FieldAssignment { object, field, value } => S::FieldAssignment { object: g(object), field: field.clone(), value: g(value) },
        S::Free { pointer } => S::Free { pointer: g(pointer) },
        S::Expression(e) => S::Expression(g(e)),
        S::Break | S::Continue | S::InlineAsm { .. } => s.clone(),
    }
}
/// every expression in e, e included
fn each_e(e: &X, f: &mut dyn FnMut(&X)) {
    f(e);
    let cell = std::cell::RefCell::new(vec![]);
    map_e(e, &|x| {
        cell.borrow_mut().push(x.clone());
        x.clone()
    });
    for x in cell.into_inner() {
        each_e(&x, f);
    }
}
fn each_s(b: &[S], fs: &mut dyn FnMut(&S), fe: &mut dyn FnMut(&X)) {
    for s in b {
        fs(s);
        match s {
            S::If { then_block, else_block, .. } => {
                each_s(then_block, fs, fe);
                each_s(else_block.as_deref().unwrap_or(&[]), fs, fe);
            }
            S::While { body, .. } => each_s(body, fs, fe),
            S::For { init, increment, body, .. } => {
                each_s(init, fs, fe);
                each_s(increment, fs, fe);
                each_s(body, fs, fe);
            }
            S::Switch { cases, default_case, .. } => {
                for c in cases {
                    each_s(&c.body, fs, fe);
                }
                each_s(default_case.as_deref().unwrap_or(&[]), fs, fe);
            }
            _ => {}
        }
        // the expressions directly inside s
        let own = match s {
            S::If { condition, .. } | S::While { condition, .. } | S::Switch { condition, .. } => vec![condition.clone()],
            S::For { condition, .. } => condition.iter().cloned().collect(),
            s => {
                let cell = std::cell::RefCell::new(vec![]);
                map_s(s, &|x| {
                    cell.borrow_mut().push(x.clone());
                    x.clone()
                });
                cell.into_inner()
            }
        };
        for e in own {
            each_e(&e, fe);
        }
    }
}
fn is(e: &X, x: &str) -> bool {
    matches!(e, X::Variable(n) if n == x)
}
fn part(e: &X, x: &str) -> bool {
    matches!(e, X::ArrayIndex { array, .. } if is(array, x)) || matches!(e, X::Dereference(i) if is(i, x))
}
/// the operand an expression writes to (or takes the address of)
fn written(e: &X) -> Option<(&X, bool)> {
    match e {
        X::PostIncrement { operand } | X::PreIncrement { operand } | X::PostDecrement { operand } | X::PreDecrement { operand } => Some((operand, false)),
        X::AddressOf(x) => Some((x, true)),
        X::UnaryOp { op, operand } if !matches!(op, UnaryOperator::Minus | UnaryOperator::LogicalNot | UnaryOperator::BitwiseNot) => Some((operand, *op == UnaryOperator::AddressOf)),
        X::BinaryOp { op: BinaryOperator::Assign, left, .. } => Some((left, false)),
        _ => None,
    }
}
fn reassigned(b: &[S], x: &str) -> bool {
    let (mut p, mut q) = (false, false);
    each_s(
        b,
        &mut |s| p |= matches!(s, S::VariableDeclaration { name, .. } if name == x) || matches!(s, S::Assignment { target, .. } if target == x),
        &mut |e| q |= matches!(written(e), Some((t, _)) if is(t, x)),
    );
    p || q
}
fn mutable(ps: &[HirParameter], b: &[S], x: &str) -> bool {
    let cst = ps.iter().any(|p| p.name() == x && p.is_pointee_const());
    let (mut p, mut q, mut r) = (false, false, false);
    each_s(
        b,
        &mut |s| p |= matches!(s, S::ArrayIndexAssignment { array, .. } if is(array, x)) || matches!(s, S::DerefAssignment { target, .. } if is(target, x) || part(target, x)),
        &mut |e| {
            q |= matches!(written(e), Some((t, false)) if part(t, x));
            r |= matches!(e, X::FunctionCall { arguments, .. } if arguments.iter().any(|a| is(a, x)));
        },
    );
    p || q || (!cst && r)
}
/// an element is an element however it is written
fn norm(e: &X) -> X {
    let e = map_e(e, &norm);
    match e {
        X::SliceIndex { slice, index, .. } => X::ArrayIndex { array: slice, index },
        X::BinaryOp { op: BinaryOperator::Subtract, left, right } if *left == X::IntLiteral(0) => X::UnaryOp { op: UnaryOperator::Minus, operand: right },
        e => e,
    }
}
fn subst(e: &X, m: &HashMap<String, String>, ptr: &dyn Fn(&str) -> bool) -> X {
    if let X::Variable(x) = e {
        if let Some(a) = m.get(x) {
            return X::StringMethodCall { receiver: Box::new(X::Variable(a.clone())), method: "len".into(), arguments: vec![] };
        }
    }
    if let X::Dereference(i) = e {
        if let X::BinaryOp { op: op @ (BinaryOperator::Add | BinaryOperator::Subtract), left, right } = &**i {
            if let X::Variable(p) = &**left {
                if ptr(p) {
                    let r = Box::new(subst(right, m, ptr));
                    let index = if *op == BinaryOperator::Add { r } else { Box::new(X::UnaryOp { op: UnaryOperator::Minus, operand: r }) };
                    return X::ArrayIndex { array: left.clone(), index };
                }
            }
        }
    }
    map_e(e, &|x| subst(x, m, ptr))
}

pub struct HGen<'a> {
    pub r: &'a mut Rng,
    names: Vec<String>,
}
impl<'a> HGen<'a> {
    fn name(&mut self) -> String {
        self.r.pick(&self.names.clone()).clone()
    }
    fn b(&mut self, d: usize) -> Box<X> {
        Box::new(self.e(d))
    }
    fn es(&mut self, d: usize) -> Vec<X> {
        (0..self.r.below(3)).map(|_| self.e(d)).collect()
    }
    fn e(&mut self, d: usize) -> X {
        if d == 0 || self.r.chance(1, 4) {
            return match self.r.below(12) {
                0 => X::IntLiteral(self.r.below(9) as i32),
                1 => X::CharLiteral(65),
                2 => X::NullLiteral,
                3 => X::Sizeof { type_name: "int".into() },
                4 => X::StringLiteral("len".into()),
                5 => X::FloatLiteral("1.5".into()),
                _ => X::Variable(self.name()),
            };
        }
        let d = d - 1;
        match self.r.below(26) {
            0 | 1 | 2 => {
                let op = *self.r.pick(&[BinaryOperator::Add, BinaryOperator::Subtract, BinaryOperator::Multiply, BinaryOperator::LessThan, BinaryOperator::Equal, BinaryOperator::LogicalAnd]);
                X::BinaryOp { op, left: self.b(d), right: self.b(d) }
            }
            3 if self.r.chance(1, 3) => X::BinaryOp { op: BinaryOperator::Assign, left: self.b(d), right: self.b(d) },
            4 => X::Dereference(self.b(d)),
            5 | 6 => {
                let op = if self.r.chance(1, 2) { BinaryOperator::Add } else { BinaryOperator::Subtract };
                X::Dereference(Box::new(X::BinaryOp { op, left: Box::new(X::Variable(self.name())), right: self.b(d) }))
            }
            7 if self.r.chance(1, 3) => X::AddressOf(self.b(d)),
            8 => X::UnaryOp { op: *self.r.pick(&[UnaryOperator::Minus, UnaryOperator::LogicalNot, UnaryOperator::BitwiseNot]), operand: self.b(d) },
            9 if self.r.chance(1, 3) => {
                let op = *self.r.pick(&[UnaryOperator::PostIncrement, UnaryOperator::PreIncrement, UnaryOperator::PostDecrement, UnaryOperator::PreDecrement, UnaryOperator::AddressOf]);
                X::UnaryOp { op, operand: self.b(d) }
            }
            10 if self.r.chance(1, 3) => {
                let operand = self.b(d);
                match self.r.below(4) {
                    0 => X::PostIncrement { operand },
                    1 => X::PreIncrement { operand },
                    2 => X::PostDecrement { operand },
                    _ => X::PreDecrement { operand },
                }
            }
            11 => X::FunctionCall { function: self.r.pick(&["f", "len", "g"]).to_string(), arguments: self.es(d) },
            12 => X::FieldAccess { object: self.b(d), field: "len".into() },
            13 => X::PointerFieldAccess { pointer: self.b(d), field: "n".into() },
            14 | 15 => X::ArrayIndex { array: self.b(d.min(1)), index: self.b(d) },
            16 => X::SliceIndex { slice: self.b(d), index: self.b(d), element_type: HirType::Int },
            17 => X::IsNotNull(self.b(d)),
            18 => X::Calloc { count: self.b(d), element_type: Box::new(HirType::Int) },
            19 => X::Malloc { size: self.b(d) },
            20 => X::Realloc { pointer: self.b(d), new_size: self.b(d) },
            21 => X::StringMethodCall { receiver: self.b(d), method: "len".into(), arguments: self.es(d) },
            22 => X::Cast { target_type: HirType::Int, expr: self.b(d) },
            23 => X::CompoundLiteral { literal_type: HirType::Struct("P".into()), initializers: self.es(d) },
            24 => X::Ternary { condition: self.b(d), then_expr: self.b(d), else_expr: self.b(d) },
            25 if self.r.chance(1, 2) => X::CxxNew { allocated_type: HirType::Int, arguments: self.es(d) },
            25 => X::CxxDelete { operand: self.b(d) },
            _ => X::Variable(self.name()),
        }
    }
    fn oe(&mut self) -> Option<X> {
        if self.r.chance(3, 4) {
            Some(self.e(2))
        } else {
            None
        }
    }
    fn block(&mut self, d: usize) -> Vec<S> {
        (0..self.r.below(3)).map(|_| self.s(d)).collect()
    }
    fn ob(&mut self, d: usize) -> Option<Vec<S>> {
        if self.r.chance(1, 2) {
            Some(self.block(d))
        } else {
            None
        }
    }
    fn local(&mut self) -> String {
        if self.r.chance(1, 12) {
            self.name()
        } else {
            self.r.pick(&["t", "u"]).to_string()
        }
    }
    fn s(&mut self, d: usize) -> S {
        if d > 0 && self.r.chance(1, 3) {
            let d = d - 1;
            return match self.r.below(4) {
                0 => S::If { condition: self.e(2), then_block: self.block(d), else_block: self.ob(d) },
                1 => S::While { condition: self.e(2), body: self.block(d) },
                2 => S::For { init: self.block(0), condition: self.oe(), increment: self.block(0), body: self.block(d) },
                _ => {
                    let n = self.r.below(3);
                    let cases = (0..n).map(|i| SwitchCase { value: Some(X::IntLiteral(i as i32)), body: self.block(d) }).collect();
                    S::Switch { condition: self.e(2), cases, default_case: self.ob(d) }
                }
            };
        }
        match self.r.below(12) {
            0 => S::VariableDeclaration { name: self.local(), var_type: HirType::Int, initializer: self.oe() },
            1 => S::Return(self.oe()),
            2 | 3 => S::Assignment { target: self.local(), value: self.e(2) },
            4 if self.r.chance(1, 2) => S::DerefAssignment { target: self.e(1), value: self.e(2) },
            5 | 6 if self.r.chance(1, 2) => S::ArrayIndexAssignment { array: self.b(0), index: self.b(1), value: self.e(2) },
            7 => S::FieldAssignment { object: self.e(1), field: "n".into(), value: self.e(1) },
            8 => S::Free { pointer: self.e(1) },
            9 => self.r.pick(&[S::Break, S::Continue, S::InlineAsm { text: "nop".into(), translatable: false }]).clone(),
            _ => S::Expression(self.e(3)),
        }
    }
}

fn function(r: &mut Rng) -> HirFunction {
    let ptr = |r: &mut Rng| match r.below(8) {
        0 => HirType::Pointer(Box::new(HirType::Char)),
        1 => HirType::Pointer(Box::new(HirType::Struct("P".into()))),
        2 => HirType::Int,
        _ => HirType::Pointer(Box::new(HirType::Int)),
    };
    let mut ps: Vec<HirParameter> = vec![];
    let mut arrays = vec!["arr", "data", "buf", "items", "p", "q", "my_buf"];
    let mut lens = vec!["len", "n", "size", "count", "num", "k", "m", "Length"];
    for _ in 0..1 + r.below(3) {
        if r.chance(3, 4) {
            let a = arrays.remove(r.below(arrays.len()));
            let t = ptr(r);
            let mut p = HirParameter::new(a.into(), t.clone());
            if r.chance(1, 4) {
                p = p.clone();
                // a pointer to const, as the parser makes it
                let ast = decy_parser::parser::Parameter { name: a.into(), param_type: decy_parser::parser::Type::Pointer(Box::new(decy_parser::parser::Type::Int)), is_pointee_const: true };
                p = HirParameter::from_ast_parameter(&ast).with_type(t);
            }
            ps.push(p);
        }
        if r.chance(4, 5) {
            let l = lens.remove(r.below(lens.len()));
            ps.push(HirParameter::new(l.into(), if r.chance(1, 6) { HirType::UnsignedInt } else { HirType::Int }));
        }
    }
    let mut names: Vec<String> = ps.iter().map(|p| p.name().to_string()).collect();
    if r.chance(1, 3) {
        // names that look like those of parameters
        for n in names.clone() {
            let x = match r.below(5) {
                0 => n.to_uppercase(),
                1 => n.to_lowercase(),
                2 => format!("{}s", n),
                3 => format!("my_{}", n),
                _ => format!("{}{}", n[..1].to_uppercase(), &n[1..]),
            };
            if !names.contains(&x) {
                names.push(x);
            }
        }
    }
    names.extend(["t".to_string(), "x".to_string()]);
    let mut g = HGen { r, names };
    let mut body = vec![];
    for _ in 0..g.r.below(5) {
        body.push(g.s(2));
    }
    let mut f = HirFunction::new_with_body("f".into(), if g.r.chance(1, 2) { HirType::Void } else { HirType::Int }, ps, body);
    if g.r.chance(1, 10) {
        f.set_cuda_qualifier(Some(HirCudaQualifier::Device));
    }
    f
}

type Inf = HashMap<String, OwnershipInference>;
fn inferences(r: &mut Rng, f: &HirFunction) -> Inf {
    let mut m = Inf::new();
    for p in f.parameters() {
        if !matches!(p.param_type(), HirType::Pointer(_)) {
            continue;
        }
        let kind = match r.below(6) {
            0 => OwnershipKind::Owning,
            1 => OwnershipKind::ImmutableBorrow,
            2 => OwnershipKind::MutableBorrow,
            3 => OwnershipKind::Unknown,
            4 => OwnershipKind::ArrayPointer { base_array: p.name().into(), element_type: HirType::Int, base_index: None },
            _ => continue,
        };
        m.insert(p.name().into(), OwnershipInference { variable: p.name().into(), kind, confidence: 1.0, reason: String::new() });
    }
    m
}

/// None if r is f with arrays as slices; otherwise what is wrong.  g: the function the parameters are judged by
fn wrong(f: &HirFunction, r: &HirFunction, g: &HirFunction, inf: &Inf) -> Option<String> {
    if r.name() != f.name() || r.return_type() != f.return_type() || r.cuda_qualifier() != f.cuda_qualifier() {
        return Some("the name, the return type or the qualifier changes".into());
    }
    let mut m = HashMap::new();
    let mut j = 0;
    let ps = f.parameters();
    for (i, p) in ps.iter().enumerate() {
        match r.parameters().get(j) {
            Some(q) if q.name() == p.name() => {
                j += 1;
                if q.is_pointee_const() != p.is_pointee_const() {
                    return Some(format!("parameter {}: const", p.name()));
                }
                let (t, u) = (p.param_type(), q.param_type());
                let ok = t == u
                    || match (t, u) {
                        (HirType::Pointer(e), HirType::Reference { inner, mutable: w }) => match &**inner {
                            HirType::Vec(x) => x == e && (*w || !mutable(g.parameters(), g.body(), p.name())),
                            HirType::Array { element_type, size: None } => element_type == e && (*w || !mutable(g.parameters(), g.body(), p.name())),
                            x => x == &**e && matches!((inf.get(p.name()).map(|i| &i.kind), w), (Some(OwnershipKind::ImmutableBorrow), false) | (Some(OwnershipKind::MutableBorrow), true)),
                        },
                        (HirType::Pointer(e), HirType::Box(x)) => x == e && matches!(inf.get(p.name()).map(|i| &i.kind), Some(OwnershipKind::Owning)),
                        _ => false,
                    };
                if !ok {
                    return Some(format!("parameter {}: {:?} becomes {:?}", p.name(), t, u));
                }
            }
            _ => {
                // the length of the slice before it
                let slice = i > 0 && j > 0 && r.parameters()[j - 1].name() == ps[i - 1].name() && matches!(r.parameters()[j - 1].param_type(), HirType::Reference { inner, .. } if matches!(**inner, HirType::Vec(_) | HirType::Array { .. }));
                if !slice {
                    return Some(format!("parameter {} is lost, and no slice has its value", p.name()));
                }
                if !matches!(p.param_type(), HirType::Int) {
                    return Some(format!("parameter {} is lost, and is not an int", p.name()));
                }
                if reassigned(g.body(), p.name()) {
                    return Some(format!("parameter {} is lost, and the body gives it another value", p.name()));
                }
                if reassigned(g.body(), ps[i - 1].name()) {
                    return Some(format!("parameter {} is lost, and the body gives its array another value", p.name()));
                }
                m.insert(p.name().to_string(), ps[i - 1].name().to_string());
            }
        }
    }
    if j != r.parameters().len() {
        return Some("more parameters than before".into());
    }
    let ptr = |x: &str| matches!(inf.get(x).map(|i| &i.kind), Some(OwnershipKind::ArrayPointer { .. }));
    let want: Vec<S> = f.body().iter().map(|s| map_s(&map_s(s, &|e| subst(e, &m, &ptr)), &norm)).collect();
    let got: Vec<S> = r.body().iter().map(|s| map_s(s, &norm)).collect();
    if want != got {
        for k in 0..want.len().max(got.len()) {
            if want.get(k) != got.get(k) {
                return Some(format!("statement {} becomes {:?}, not {:?}", k, r.body().get(k), want.get(k)));
            }
        }
    }
    None
}

pub fn cases(run: &mut Run, rng: &mut Rng, n: usize) {
    for _ in 0..n {
        let f = function(rng);
        let inf = inferences(rng, &f);
        let show = || format!("{:?}", f);
        let borrowed = run.call("transform_function", &show, || BorrowGenerator::new().transform_function(&f, &inf));
        if let Some(w) = wrong(&f, &borrowed, &f, &inf) {
            run.fail("a function whose arrays become slices (borrow generation)", &show(), &format!("{}\n{:?}", w, borrowed));
        }
        let graph = run.call("analyze", &show, || DataflowAnalyzer::new().analyze(&f));
        let sliced = run.call("transform", &show, || ArrayParameterTransformer::new().transform(&f, &graph));
        if let Some(w) = wrong(&f, &sliced, &f, &Inf::new()) {
            run.fail("a function whose arrays become slices (array transformation)", &show(), &format!("{}\n{:?}", w, sliced));
        }
        // as the pipeline does it
        let both = run.call("transform", &show, || ArrayParameterTransformer::new().transform(&borrowed, &graph));
        if let Some(w) = wrong(&f, &both, &f, &inf) {
            run.fail("a function whose arrays become slices (both transformations)", &show(), &format!("{}\n{:?}", w, both));
        }
    }
}
