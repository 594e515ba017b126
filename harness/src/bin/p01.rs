//! Optimizer preserves behaviour: every generated function is run by the reference interpreter
//! before and after the real optimize_function.
use decy_hir::*;
use vharness::gen::*;
use vharness::*;

fn quals() -> [Option<HirCudaQualifier>; 5] {
    [None, Some(HirCudaQualifier::Global), Some(HirCudaQualifier::Device), Some(HirCudaQualifier::Host), Some(HirCudaQualifier::HostDevice)]
}

fn check(run: &mut Run, f: &HirFunction) {
    let show = || format!("{:?}", f);
    let g = run.call("optimize_function", &show, || decy_core::optimize::optimize_function(f));
    if g.name() != f.name() || g.return_type() != f.return_type() || g.parameters() != f.parameters() || g.cuda_qualifier() != f.cuda_qualifier() {
        run.fail("the optimizer changed the signature", &show(), &format!("{:?}", g));
    }
    for inp in [[0i64, 0, 0], [1, 2, 3], [-5, 200, 7]] {
        match Interp::run(f, &inp) {
            Ok(a) => {
                let b = Interp::run(&g, &inp);
                match b {
                    Ok(b) if a == b => {}
                    Err(Stop::OutOfFuel) => run.skipped += 1,
                    other => run.fail(
                        "the optimized function behaves differently",
                        &show(),
                        &format!("inputs {:?}\noptimized: {:?}\nbefore: {:?}\nafter: {:?}", inp, g.body(), a, other),
                    ),
                }
            }
            Err(_) => run.skipped += 1,
        }
    }
}

fn func(ret: HirType, params: Vec<HirParameter>, body: Vec<HirStatement>, q: Option<HirCudaQualifier>) -> HirFunction {
    let mut f = HirFunction::new_with_body("fn_under_test".into(), ret, params, body);
    f.set_cuda_qualifier(q);
    f
}

fn decl(n: &str, t: HirType, e: HirExpression) -> HirStatement {
    HirStatement::VariableDeclaration { name: n.into(), var_type: t, initializer: Some(e) }
}
fn io(a: Vec<HirExpression>) -> HirStatement {
    HirStatement::Expression(call("io", a))
}
fn set(n: &str, e: HirExpression) -> HirStatement {
    HirStatement::Assignment { target: n.into(), value: e }
}

/// every expression of a pool in every place of every statement form, under every nesting form
fn contexts(run: &mut Run) {
    use BinaryOperator as B;
    let cast = |t: HirType, e: HirExpression| HirExpression::Cast { target_type: t, expr: Box::new(e) };
    let mut pool: Vec<HirExpression> = vec![int(0), int(1), int(-1), int(7), var("p"), var("c"), HirExpression::CharLiteral(0), HirExpression::CharLiteral(65), HirExpression::NullLiteral];
    for op in OPS.iter().take(18) {
        for (a, b) in [(0, 0), (0, 1), (1, 0), (7, 2), (-7, 2), (-7, 4), (7, -2), (i32::MIN, 1), (i32::MAX, 31), (-16, 3), (12, 10)] {
            pool.push(bin(*op, int(a), int(b)));
        }
        for k in [0, 1, 2, -1] {
            pool.push(bin(*op, var("p"), int(k)));
            pool.push(bin(*op, int(k), call("f", vec![var("p")])));
            pool.push(bin(*op, call("f", vec![int(k)]), int(k)));
        }
        pool.push(bin(*op, call("f", vec![int(1)]), call("h", vec![int(2)])));
        pool.push(bin(*op, var("p"), var("p")));
        pool.push(bin(*op, bin(*op, int(9), int(2)), int(3)));
        pool.push(bin(*op, int(9), bin(B::Subtract, int(5), int(3))));
        pool.push(bin(*op, bin(B::Add, var("p"), int(1)), int(1)));
    }
    for t in SCALARS.iter() {
        for k in [0, 1, -1, 255, 256, 300, 65536, i32::MIN] {
            pool.push(cast(t.clone(), int(k)));
            pool.push(bin(B::Add, cast(t.clone(), int(k)), int(0)));
        }
        pool.push(cast(t.clone(), var("p")));
    }
    for o in [UnaryOperator::Minus, UnaryOperator::LogicalNot, UnaryOperator::BitwiseNot] {
        for e in [int(0), int(1), int(5), int(-1), int(i32::MIN), var("p"), call("f", vec![]), un(UnaryOperator::Minus, var("p")), un(UnaryOperator::LogicalNot, var("p"))] {
            pool.push(un(o, e));
        }
    }
    for c in [int(0), int(2), var("p"), call("f", vec![])] {
        pool.push(HirExpression::Ternary { condition: Box::new(c), then_expr: Box::new(call("f", vec![int(3)])), else_expr: Box::new(int(0)) });
    }
    pool.push(bin(B::Comma, call("f", vec![]), int(0)));
    pool.push(bin(B::Comma, int(0), call("f", vec![])));
    pool.push(bin(B::Assign, var("p"), int(0)));
    pool.push(bin(B::Assign, var("p"), bin(B::Add, int(1), int(1))));
    pool.push(HirExpression::PostIncrement { operand: Box::new(var("p")) });
    pool.push(HirExpression::PreDecrement { operand: Box::new(var("p")) });
    pool.push(call("malloc", vec![bin(B::Multiply, int(4), int(4))]));
    pool.push(HirExpression::Malloc { size: Box::new(int(8)) });
    let params = || vec![HirParameter::new("p".into(), HirType::Int), HirParameter::new("q".into(), HirType::Int), HirParameter::new("c".into(), HirType::Char)];
    let brk = || HirStatement::Break;
    for (k, e) in pool.iter().enumerate() {
        let e = || e.clone();
        let mut forms: Vec<Vec<HirStatement>> = vec![
            vec![HirStatement::If { condition: e(), then_block: vec![io(vec![int(1)])], else_block: Some(vec![io(vec![int(2)])]) }],
            vec![HirStatement::If { condition: e(), then_block: vec![set("p", int(1))], else_block: None }],
            vec![HirStatement::If { condition: e(), then_block: vec![], else_block: Some(vec![set("p", int(1))]) }],
            vec![HirStatement::While { condition: e(), body: vec![io(vec![int(1)]), brk()] }],
            vec![HirStatement::For { init: vec![set("p", int(5))], condition: Some(e()), increment: vec![io(vec![int(3)])], body: vec![io(vec![int(4)]), brk()] }],
            vec![HirStatement::For { init: vec![set("p", e())], condition: Some(int(0)), increment: vec![io(vec![int(3)])], body: vec![io(vec![int(4)])] }],
            vec![HirStatement::For { init: vec![decl("i", HirType::Int, int(0))], condition: Some(bin(B::LessThan, var("i"), int(2))), increment: vec![set("i", bin(B::Add, var("i"), int(1))), set("q", e())], body: vec![io(vec![e()])] }],
            vec![HirStatement::Switch { condition: e(), cases: vec![SwitchCase { value: Some(int(0)), body: vec![set("p", int(2)), brk()] }, SwitchCase { value: Some(int(1)), body: vec![set("p", int(3)), brk()] }], default_case: Some(vec![io(vec![int(9)])]) }],
            vec![HirStatement::Switch { condition: var("p"), cases: vec![SwitchCase { value: Some(e()), body: vec![set("p", e()), brk()] }], default_case: None }],
            vec![set("p", e()), io(vec![var("p")])],
            vec![set("c", e()), io(vec![var("c")])],
            vec![io(vec![e(), var("p"), e()])],
            vec![HirStatement::Expression(e())],
            vec![HirStatement::Return(Some(e()))],
            vec![HirStatement::DerefAssignment { target: e(), value: e() }],
            vec![HirStatement::ArrayIndexAssignment { array: Box::new(var("q")), index: Box::new(e()), value: e() }],
            vec![HirStatement::FieldAssignment { object: e(), field: "fld".into(), value: e() }],
            vec![HirStatement::Free { pointer: e() }],
        ];
        for t in SCALARS.iter() {
            forms.push(vec![decl("x", t.clone(), e()), HirStatement::Return(Some(var("x")))]);
            forms.push(vec![decl("x", t.clone(), e()), io(vec![var("x")]), HirStatement::Return(Some(var("x")))]);
            forms.push(vec![decl("p", t.clone(), call("f", vec![int(1)])), decl("x", t.clone(), bin(B::Add, var("p"), int(1))), HirStatement::Return(Some(var("x")))]);
        }
        let wraps = 9;
        for w in 0..wraps {
            if w > 0 && k % 3 != w % 3 && k > 40 {
                continue;
            }
            for fm in &forms {
                let b = fm.clone();
                let body = match w {
                    0 => b,
                    1 => vec![HirStatement::If { condition: int(1), then_block: b, else_block: None }],
                    2 => vec![HirStatement::If { condition: int(0), then_block: vec![io(vec![int(77)])], else_block: Some(b) }],
                    3 => vec![HirStatement::If { condition: var("q"), then_block: b, else_block: Some(vec![io(vec![int(5)])]) }],
                    4 => vec![HirStatement::While { condition: int(1), body: { let mut b = b; b.push(brk()); b } }],
                    5 => vec![HirStatement::For { init: vec![], condition: None, increment: vec![], body: { let mut b = b; b.push(brk()); b } }],
                    6 => vec![HirStatement::Switch { condition: int(4), cases: vec![SwitchCase { value: Some(int(4)), body: { let mut b = b; b.push(brk()); b } }], default_case: None }],
                    7 => vec![HirStatement::If { condition: bin(B::Subtract, int(3), int(2)), then_block: vec![HirStatement::If { condition: int(0), then_block: vec![], else_block: Some(b) }], else_block: Some(vec![io(vec![int(6)])]) }],
                    _ => vec![HirStatement::If { condition: var("q"), then_block: vec![], else_block: Some(vec![HirStatement::If { condition: int(2), then_block: b, else_block: None }]) }],
                };
                for tail in [vec![io(vec![var("p"), var("q"), var("c")]), HirStatement::Return(Some(bin(B::Add, var("p"), int(0))))], vec![]] {
                    let mut body = body.clone();
                    body.extend(tail);
                    let ret = [HirType::Int, HirType::Char, HirType::Bool][(k + w) % 3].clone();
                    check(run, &func(ret, params(), body, None));
                }
            }
        }
    }
}

fn main() {
    let mut run = Run::new();
    let params = || vec![HirParameter::new("p".into(), HirType::Int), HirParameter::new("q".into(), HirType::Int), HirParameter::new("c".into(), HirType::Char)];
    // exhaustive: all pairs/triples from a pool of statements that exercise each rewrite
    let mut pool: Vec<HirStatement> = vec![
        HirStatement::VariableDeclaration { name: "x".into(), var_type: HirType::Int, initializer: Some(call("f", vec![int(300)])) },
        HirStatement::VariableDeclaration { name: "x".into(), var_type: HirType::Char, initializer: Some(int(300)) },
        HirStatement::VariableDeclaration { name: "y".into(), var_type: HirType::Int, initializer: Some(bin(BinaryOperator::Add, var("p"), int(1))) },
        HirStatement::VariableDeclaration { name: "y".into(), var_type: HirType::Int, initializer: None },
        HirStatement::Return(Some(var("x"))),
        HirStatement::Return(Some(var("y"))),
        HirStatement::Return(Some(var("p"))),
        HirStatement::Return(None),
        HirStatement::Assignment { target: "p".into(), value: bin(BinaryOperator::Subtract, int(7), int(9)) },
        HirStatement::Assignment { target: "p".into(), value: un(UnaryOperator::Minus, int(4)) },
        HirStatement::Expression(call("io", vec![bin(BinaryOperator::LeftShift, int(1), int(31))])),
        HirStatement::Expression(call("io", vec![bin(BinaryOperator::RightShift, int(-8), int(1))])),
        HirStatement::Expression(call("io", vec![bin(BinaryOperator::Modulo, int(-7), int(3)), var("p")])),
        HirStatement::Break,
        HirStatement::Continue,
    ];
    let inner = pool.clone();
    for c in [int(0), int(1), int(-3), var("p"), call("f", vec![]), bin(BinaryOperator::Subtract, int(2), int(2))] {
        for (i, s) in inner.iter().enumerate() {
            pool.push(HirStatement::If { condition: c.clone(), then_block: vec![s.clone()], else_block: None });
            pool.push(HirStatement::If { condition: c.clone(), then_block: vec![inner[(i + 3) % inner.len()].clone()], else_block: Some(vec![s.clone()]) });
        }
        for b in [vec![], vec![HirStatement::Break], vec![HirStatement::Expression(call("io", vec![int(1)])), HirStatement::Break]] {
            pool.push(HirStatement::While { condition: c.clone(), body: b });
        }
    }
    for ret in [HirType::Int, HirType::Char] {
        for a in &pool {
            for b in &pool {
                check(&mut run, &func(ret.clone(), params(), vec![a.clone(), b.clone(), HirStatement::Return(Some(var("p")))], None));
            }
        }
    }
    for a in &inner {
        for b in &inner {
            for c in &inner {
                check(&mut run, &func(HirType::Int, params(), vec![a.clone(), b.clone(), c.clone()], None));
            }
        }
    }
    contexts(&mut run);
    for q in quals() {
        check(&mut run, &func(HirType::Float, params(), vec![], q));
    }
    run.notes.push(format!("exhaustive part: {} functions", run.cases));
    let mut r = Rng::new(run.args.seed);
    let names = vec!["p", "q", "c", "x", "y", "g0"];
    while run.time_left() {
        for _ in 0..200 {
            let ret = if r.chance(2, 3) { HirType::Int } else { r.pick(&SCALARS).clone() };
            let q = quals()[r.below(5)];
            let mut g = ProgGen { r: &mut r, names: names.clone() };
            let body = g.block(3, 6);
            let mut ps = params();
            ps.push(HirParameter::new("x".into(), HirType::Int));
            ps.push(HirParameter::new("y".into(), HirType::UnsignedInt));
            check(&mut run, &func(ret, ps, body, q));
        }
    }
    run.done()
}
