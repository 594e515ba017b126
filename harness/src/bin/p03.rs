//! Lowering: the HIR produced by the real code is compared with an independently written image.
use decy_hir as h;
use decy_hir::{HirExpression as HE, HirStatement as HS, HirType as HT};
use decy_parser::parser as a;
use decy_parser::parser::{Expression as E, Statement as S, Type as T};
use vharness::*;

fn rt(t: &T) -> HT {
    match t {
        T::Void => HT::Void,
        T::Bool => HT::Bool,
        T::Int => HT::Int,
        T::UnsignedInt => HT::UnsignedInt,
        T::Float => HT::Float,
        T::Double => HT::Double,
        T::Char => HT::Char,
        T::SignedChar => HT::SignedChar,
        T::Pointer(x) => HT::Pointer(Box::new(rt(x))),
        T::Struct(n) => HT::Struct(n.clone()),
        T::FunctionPointer { param_types, return_type } => HT::FunctionPointer { param_types: param_types.iter().map(rt).collect(), return_type: Box::new(rt(return_type)) },
        T::Array { element_type, size } => HT::Array { element_type: Box::new(rt(element_type)), size: size.map(|s| s as usize) },
        T::TypeAlias(n) => HT::TypeAlias(n.clone()),
    }
}
fn by_name<X: std::fmt::Debug, Y: std::fmt::Debug + Copy>(x: X, all: &[Y]) -> Y {
    *all.iter().find(|y| format!("{:?}", y) == format!("{:?}", x)).unwrap_or_else(|| panic!("the IR has no counterpart of {:?}", x))
}
const HUN: [h::UnaryOperator; 4] = [h::UnaryOperator::Minus, h::UnaryOperator::LogicalNot, h::UnaryOperator::BitwiseNot, h::UnaryOperator::AddressOf];
const AUN: [a::UnaryOperator; 4] = [a::UnaryOperator::Minus, a::UnaryOperator::LogicalNot, a::UnaryOperator::BitwiseNot, a::UnaryOperator::AddressOf];
fn abin() -> Vec<a::BinaryOperator> {
    use a::BinaryOperator::*;
    vec![Add, Subtract, Multiply, Divide, Modulo, Equal, NotEqual, LessThan, GreaterThan, LessEqual, GreaterEqual, LogicalAnd, LogicalOr, LeftShift, RightShift, BitwiseAnd, BitwiseOr, BitwiseXor, Assign, Comma]
}
fn rb(o: a::BinaryOperator) -> h::BinaryOperator {
    by_name(o, &gen::OPS)
}
fn bx(e: &E) -> Box<HE> {
    Box::new(re(e))
}
fn re(e: &E) -> HE {
    match e {
        E::IntLiteral(v) => HE::IntLiteral(*v),
        E::FloatLiteral(v) => HE::FloatLiteral(v.clone()),
        E::StringLiteral(v) => HE::StringLiteral(v.clone()),
        E::CharLiteral(v) => HE::CharLiteral(*v),
        E::Variable(v) => HE::Variable(v.clone()),
        E::BinaryOp { op, left, right } => HE::BinaryOp { op: rb(*op), left: bx(left), right: bx(right) },
        E::FunctionCall { function, arguments } => HE::FunctionCall { function: function.clone(), arguments: arguments.iter().map(re).collect() },
        E::Dereference(x) => HE::Dereference(bx(x)),
        E::UnaryOp { op, operand } => HE::UnaryOp { op: by_name(*op, &HUN), operand: bx(operand) },
        E::ArrayIndex { array, index } => HE::ArrayIndex { array: bx(array), index: bx(index) },
        E::FieldAccess { object, field } => HE::FieldAccess { object: bx(object), field: field.clone() },
        E::PointerFieldAccess { pointer, field } => HE::PointerFieldAccess { pointer: bx(pointer), field: field.clone() },
        E::PostIncrement { operand } => HE::PostIncrement { operand: bx(operand) },
        E::PreIncrement { operand } => HE::PreIncrement { operand: bx(operand) },
        E::PostDecrement { operand } => HE::PostDecrement { operand: bx(operand) },
        E::PreDecrement { operand } => HE::PreDecrement { operand: bx(operand) },
        E::Sizeof { type_name } => HE::Sizeof { type_name: type_name.clone() },
        E::Cast { target_type, expr } => HE::Cast { target_type: rt(target_type), expr: bx(expr) },
        E::CompoundLiteral { literal_type, initializers } => HE::CompoundLiteral { literal_type: rt(literal_type), initializers: initializers.iter().map(re).collect() },
        E::Ternary { condition, then_expr, else_expr } => HE::Ternary { condition: bx(condition), then_expr: bx(then_expr), else_expr: bx(else_expr) },
        E::CxxNew { type_name, arguments } => HE::CxxNew { allocated_type: HT::Struct(type_name.clone()), arguments: arguments.iter().map(re).collect() },
        E::CxxDelete { operand } => HE::CxxDelete { operand: bx(operand) },
        E::NullLiteral => HE::NullLiteral,
        E::BoolLiteral(b) => HE::IntLiteral(*b as i32),
    }
}
fn rblock(b: &[S]) -> Vec<HS> {
    b.iter().map(rs).collect()
}
fn step(t: &str, op: h::BinaryOperator) -> HS {
    HS::Assignment { target: t.into(), value: gen::bin(op, gen::var(t), gen::int(1)) }
}
fn rs(s: &S) -> HS {
    match s {
        S::VariableDeclaration { name, var_type, initializer } => HS::VariableDeclaration { name: name.clone(), var_type: rt(var_type), initializer: initializer.as_ref().map(re) },
        S::Return(e) => HS::Return(e.as_ref().map(re)),
        S::Assignment { target, value } => HS::Assignment { target: target.clone(), value: re(value) },
        S::If { condition, then_block, else_block } => HS::If { condition: re(condition), then_block: rblock(then_block), else_block: else_block.as_ref().map(|b| rblock(b)) },
        S::For { init, condition, increment, body } => HS::For { init: rblock(init), condition: condition.as_ref().map(re), increment: rblock(increment), body: rblock(body) },
        S::While { condition, body } => HS::While { condition: re(condition), body: rblock(body) },
        S::DerefAssignment { target, value } => HS::DerefAssignment { target: re(target), value: re(value) },
        S::ArrayIndexAssignment { array, index, value } => HS::ArrayIndexAssignment { array: bx(array), index: bx(index), value: re(value) },
        S::FieldAssignment { object, field, value } => HS::FieldAssignment { object: re(object), field: field.clone(), value: re(value) },
        S::Break => HS::Break,
        S::Continue => HS::Continue,
        S::Switch { condition, cases, default_case } => HS::Switch {
            condition: re(condition),
            cases: cases.iter().map(|c| h::SwitchCase { value: c.value.as_ref().map(re), body: rblock(&c.body) }).collect(),
            default_case: default_case.as_ref().map(|b| rblock(b)),
        },
        S::PostIncrement { target } | S::PreIncrement { target } => step(target, h::BinaryOperator::Add),
        S::PostDecrement { target } | S::PreDecrement { target } => step(target, h::BinaryOperator::Subtract),
        S::CompoundAssignment { target, op, value } => HS::Assignment { target: target.clone(), value: gen::bin(rb(*op), gen::var(target), re(value)) },
        S::DerefCompoundAssignment { target, op, value } => HS::DerefAssignment { target: re(target), value: gen::bin(rb(*op), re(target), re(value)) },
        S::FunctionCall { function, arguments } => HS::Expression(gen::call(function, arguments.iter().map(re).collect())),
    }
}

struct G<'a> {
    r: &'a mut Rng,
}
impl G<'_> {
    fn name(&mut self) -> String {
        self.r.pick(&["a", "b", "ptr", "len", "self", "x1", "", "Ünï", "main"]).to_string()
    }
    fn ty(&mut self, d: usize) -> T {
        match self.r.below(if d == 0 { 10 } else { 13 }) {
            0 => T::Void,
            1 => T::Bool,
            2 => T::Int,
            3 => T::UnsignedInt,
            4 => T::Float,
            5 => T::Double,
            6 => T::Char,
            7 => T::SignedChar,
            8 => T::Struct(self.name()),
            9 => T::TypeAlias(self.r.pick(&["size_t", "ssize_t", "uint8_t"]).to_string()),
            10 => T::Pointer(Box::new(self.ty(d - 1))),
            11 => T::FunctionPointer { param_types: (0..self.r.below(4)).map(|_| self.ty(d - 1)).collect(), return_type: Box::new(self.ty(d - 1)) },
            _ => T::Array { element_type: Box::new(self.ty(d - 1)), size: *self.r.pick(&[None, Some(0), Some(1), Some(10), Some(i64::MAX)]) },
        }
    }
    fn es(&mut self, d: usize) -> Vec<E> {
        (0..self.r.below(4)).map(|_| self.ex(d)).collect()
    }
    fn b(&mut self, d: usize) -> Box<E> {
        Box::new(self.ex(d))
    }
    fn ex(&mut self, d: usize) -> E {
        let k = if d == 0 { self.r.below(9) } else { self.r.below(26) };
        self.ex_k(k, d.saturating_sub(1))
    }
    fn ex_k(&mut self, k: usize, d: usize) -> E {
        match k {
            0 => E::IntLiteral(*self.r.pick(&gen::EDGE)),
            1 => E::FloatLiteral(self.r.pick(&["1.5", "0.0f", "1e9"]).to_string()),
            2 => E::StringLiteral(self.r.pick(&["", "hi %d\n", "{}"]).to_string()),
            3 => E::CharLiteral(*self.r.pick(&[0, 65, -1, i8::MIN, i8::MAX])),
            4 => E::Variable(self.name()),
            5 => E::NullLiteral,
            6 => E::BoolLiteral(true),
            7 => E::BoolLiteral(false),
            8 => E::Sizeof { type_name: self.name() },
            9 | 10 => E::BinaryOp { op: *self.r.pick(&abin()), left: self.b(d), right: self.b(d) },
            11 => E::FunctionCall { function: self.name(), arguments: self.es(d) },
            12 => E::Dereference(self.b(d)),
            13 => E::UnaryOp { op: *self.r.pick(&AUN), operand: self.b(d) },
            14 => E::ArrayIndex { array: self.b(d), index: self.b(d) },
            15 => E::FieldAccess { object: self.b(d), field: self.name() },
            16 => E::PointerFieldAccess { pointer: self.b(d), field: self.name() },
            17 => E::PostIncrement { operand: self.b(d) },
            18 => E::PreIncrement { operand: self.b(d) },
            19 => E::PostDecrement { operand: self.b(d) },
            20 => E::PreDecrement { operand: self.b(d) },
            21 => E::Cast { target_type: self.ty(2), expr: self.b(d) },
            22 => E::CompoundLiteral { literal_type: self.ty(2), initializers: self.es(d) },
            23 => E::Ternary { condition: self.b(d), then_expr: self.b(d), else_expr: self.b(d) },
            24 => E::CxxNew { type_name: self.name(), arguments: self.es(d) },
            _ => E::CxxDelete { operand: self.b(d) },
        }
    }
    fn oe(&mut self) -> Option<E> {
        if self.r.chance(1, 3) { None } else { Some(self.ex(2)) }
    }
    fn block(&mut self, d: usize) -> Vec<S> {
        (0..self.r.below(4)).map(|_| self.st(d)).collect()
    }
    fn st(&mut self, d: usize) -> S {
        let k = if d == 0 { self.r.below(15) } else { self.r.below(19) };
        self.st_k(k, d.saturating_sub(1))
    }
    fn st_k(&mut self, k: usize, d: usize) -> S {
        match k {
            0 => S::VariableDeclaration { name: self.name(), var_type: self.ty(2), initializer: self.oe() },
            1 => S::Return(self.oe()),
            2 => S::Assignment { target: self.name(), value: self.ex(2) },
            3 => S::DerefAssignment { target: self.ex(2), value: self.ex(2) },
            4 => S::ArrayIndexAssignment { array: self.b(2), index: self.b(2), value: self.ex(2) },
            5 => S::FieldAssignment { object: self.ex(2), field: self.name(), value: self.ex(2) },
            6 => S::Break,
            7 => S::Continue,
            8 => S::PostIncrement { target: self.name() },
            9 => S::PreIncrement { target: self.name() },
            10 => S::PostDecrement { target: self.name() },
            11 => S::PreDecrement { target: self.name() },
            12 => S::CompoundAssignment { target: self.name(), op: *self.r.pick(&abin()), value: self.ex(2) },
            13 => S::DerefCompoundAssignment { target: self.ex(2), op: *self.r.pick(&abin()), value: self.ex(2) },
            14 => S::FunctionCall { function: self.name(), arguments: self.es(2) },
            15 => S::If { condition: self.ex(2), then_block: self.block(d), else_block: if self.r.chance(1, 3) { None } else { Some(self.block(d)) } },
            16 => S::For { init: self.block(d), condition: self.oe(), increment: self.block(d), body: self.block(d) },
            17 => S::While { condition: self.ex(2), body: self.block(d) },
            _ => S::Switch {
                condition: self.ex(2),
                cases: (0..self.r.below(4)).map(|_| a::SwitchCase { value: self.oe(), body: self.block(d) }).collect(),
                default_case: if self.r.chance(1, 3) { None } else { Some(self.block(d)) },
            },
        }
    }
    fn param(&mut self) -> a::Parameter {
        a::Parameter { name: self.name(), param_type: self.ty(2), is_pointee_const: self.r.chance(1, 2) }
    }
    fn params(&mut self) -> Vec<a::Parameter> {
        (0..self.r.below(4)).map(|_| self.param()).collect()
    }
    fn func(&mut self) -> a::Function {
        use a::CudaQualifier::*;
        a::Function { name: self.name(), return_type: self.ty(2), parameters: self.params(), body: self.block(2), cuda_qualifier: *self.r.pick(&[None, Some(Global), Some(Device), Some(Host), Some(HostDevice)]) }
    }
    fn field(&mut self) -> a::StructField {
        a::StructField { name: self.name(), field_type: self.ty(2) }
    }
    fn class(&mut self) -> a::Class {
        use a::CxxOperatorKind::*;
        let ops = [Add, Sub, Mul, Div, Rem, Equal, NotEqual, Less, LessEqual, Greater, GreaterEqual, Index, Shl, Shr, AddAssign, SubAssign];
        a::Class {
            name: self.name(),
            fields: (0..self.r.below(4)).map(|_| self.field()).collect(),
            methods: (0..self.r.below(4))
                .map(|_| a::Method {
                    function: self.func(),
                    access: *self.r.pick(&[a::AccessSpecifier::Public, a::AccessSpecifier::Protected, a::AccessSpecifier::Private]),
                    is_const: self.r.chance(1, 2),
                    is_static: self.r.chance(1, 2),
                    is_virtual: self.r.chance(1, 2),
                    operator_kind: if self.r.chance(1, 3) { None } else { Some(*self.r.pick(&ops)) },
                })
                .collect(),
            constructor_params: self.params(),
            has_destructor: self.r.chance(1, 2),
            base_class: if self.r.chance(1, 2) { None } else { Some(self.name()) },
        }
    }
    fn ns(&mut self, d: usize) -> a::Namespace {
        a::Namespace {
            name: self.name(),
            functions: (0..self.r.below(3)).map(|_| self.func()).collect(),
            structs: (0..self.r.below(3)).map(|_| a::Struct { name: self.name(), fields: (0..self.r.below(4)).map(|_| self.field()).collect() }).collect(),
            classes: (0..self.r.below(3)).map(|_| self.class()).collect(),
            namespaces: if d == 0 { vec![] } else { (0..self.r.below(3)).map(|_| self.ns(d - 1)).collect() },
        }
    }
}

fn eq_param(a: &a::Parameter, p: &h::HirParameter) -> bool {
    p.name() == a.name && *p.param_type() == rt(&a.param_type) && p.is_pointee_const() == a.is_pointee_const
}
fn eq_params(a: &[a::Parameter], p: &[h::HirParameter]) -> bool {
    a.len() == p.len() && a.iter().zip(p).all(|(x, y)| eq_param(x, y))
}
fn eq_func(a: &a::Function, f: &h::HirFunction) -> bool {
    f.name() == a.name
        && *f.return_type() == rt(&a.return_type)
        && eq_params(&a.parameters, f.parameters())
        && f.has_body() != a.body.is_empty()
        && f.body() == rblock(&a.body)
        && format!("{:?}", f.cuda_qualifier()) == format!("{:?}", a.cuda_qualifier)
}
fn eq_fields(a: &[a::StructField], f: &[h::HirStructField]) -> bool {
    a.len() == f.len() && a.iter().zip(f).all(|(x, y)| x.name == y.name() && rt(&x.field_type) == *y.field_type())
}
fn eq_class(a: &a::Class, c: &h::HirClass) -> bool {
    c.name() == a.name
        && eq_fields(&a.fields, c.fields())
        && eq_params(&a.constructor_params, c.constructor_params())
        && c.has_destructor() == a.has_destructor
        && c.base_class() == a.base_class.as_deref()
        && c.methods().len() == a.methods.len()
        && a.methods.iter().zip(c.methods()).all(|(x, m)| {
            eq_func(&x.function, m.function())
                && m.is_const() == x.is_const
                && m.is_static() == x.is_static
                && m.is_virtual() == x.is_virtual
                && format!("{:?}", m.operator_kind()) == format!("{:?}", x.operator_kind)
        })
}
fn eq_ns(a: &a::Namespace, n: &h::HirNamespace) -> bool {
    n.name() == a.name
        && a.functions.len() == n.functions().len()
        && a.functions.iter().zip(n.functions()).all(|(x, y)| eq_func(x, y))
        && a.structs.len() == n.structs().len()
        && a.structs.iter().zip(n.structs()).all(|(x, y)| x.name == y.name() && eq_fields(&x.fields, y.fields()))
        && a.classes.len() == n.classes().len()
        && a.classes.iter().zip(n.classes()).all(|(x, y)| eq_class(x, y))
        && a.namespaces.len() == n.namespaces().len()
        && a.namespaces.iter().zip(n.namespaces()).all(|(x, y)| eq_ns(x, y))
}

fn main() {
    let mut run = Run::new();
    let mut r = Rng::new(run.args.seed);
    let mut g = G { r: &mut r };
    // every operator and node kind first
    let mut exprs = vec![];
    for o in abin() {
        exprs.push(E::BinaryOp { op: o, left: Box::new(E::Variable("l".into())), right: Box::new(E::IntLiteral(2)) });
    }
    for o in AUN {
        exprs.push(E::UnaryOp { op: o, operand: Box::new(E::Variable("l".into())) });
    }
    for k in 0..26 {
        for _ in 0..20 {
            exprs.push(g.ex_k(k, 2));
        }
    }
    let mut stmts = vec![];
    for o in abin() {
        stmts.push(S::CompoundAssignment { target: "t".into(), op: o, value: E::IntLiteral(3) });
        stmts.push(S::DerefCompoundAssignment { target: E::Dereference(Box::new(E::Variable("t".into()))), op: o, value: E::IntLiteral(3) });
    }
    for k in 0..19 {
        for _ in 0..40 {
            stmts.push(g.st_k(k, 2));
        }
    }
    loop {
        for e in std::mem::take(&mut exprs) {
            let got = run.call("lowering an expression", &|| format!("{:?}", e), || HE::from_ast_expression(&e));
            if got != re(&e) {
                run.fail("an expression is lowered to something else", &format!("{:?}", e), &format!("got {:?}\nexpected {:?}", got, re(&e)));
            }
        }
        for s in std::mem::take(&mut stmts) {
            let got = run.call("lowering a statement", &|| format!("{:?}", s), || HS::from_ast_statement(&s));
            if got != rs(&s) {
                run.fail("a statement is lowered to something else", &format!("{:?}", s), &format!("got {:?}\nexpected {:?}", got, rs(&s)));
            }
        }
        for _ in 0..60 {
            exprs.push(g.ex(4));
            stmts.push(g.st(3));
            let t = g.ty(4);
            let got = run.call("lowering a type", &|| format!("{:?}", t), || HT::from_ast_type(&t));
            if got != rt(&t) {
                run.fail("a type is lowered to something else", &format!("{:?}", t), &format!("got {:?}", got));
            }
            let f = g.func();
            let got = run.call("lowering a function", &|| format!("{:?}", f), || h::HirFunction::from_ast_function(&f));
            if !eq_func(&f, &got) {
                run.fail("a function is lowered to something else", &format!("{:?}", f), &format!("got {:?}", got));
            }
            let c = g.class();
            let got = run.call("lowering a class", &|| format!("{:?}", c), || h::HirClass::from_ast_class(&c));
            if !eq_class(&c, &got) {
                run.fail("a class is lowered to something else", &format!("{:?}", c), &format!("got {:?}", got));
            }
        }
        for _ in 0..10 {
            let n = g.ns(2);
            let got = run.call("lowering a namespace", &|| format!("{:?}", n), || h::HirNamespace::from_ast_namespace(&n));
            if !eq_ns(&n, &got) {
                run.fail("a namespace is lowered to something else", &format!("{:?}", n), &format!("got {:?}", got));
            }
        }
        if !run.time_left() {
            break;
        }
    }
    run.done()
}
