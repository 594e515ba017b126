//! Constant folding computes exactly C's int arithmetic and leaves undefined operations alone.
use decy_hir::*;
use vharness::gen::*;
use vharness::*;

/// the value C gives to a closed int expression; None when any sub-operation is undefined
fn eval(e: &HirExpression) -> Option<i32> {
    match e {
        HirExpression::IntLiteral(v) => Some(*v),
        HirExpression::BinaryOp { op, left, right } => c_int(eval(left)?, *op, eval(right)?),
        HirExpression::UnaryOp { op: UnaryOperator::Minus, operand } => eval(operand)?.checked_neg(),
        HirExpression::UnaryOp { op: UnaryOperator::BitwiseNot, operand } => Some(!eval(operand)?),
        HirExpression::UnaryOp { op: UnaryOperator::LogicalNot, operand } => Some((eval(operand)? == 0) as i32),
        _ => None,
    }
}
/// does `out` fold `e` correctly: same value where defined, and no undefined operation replaced by a number
fn agrees(e: &HirExpression, out: &HirExpression) -> bool {
    match (eval(e), out) {
        (Some(v), o) => eval(o) == Some(v),
        (None, HirExpression::IntLiteral(_)) => false,
        (None, o) => match (e, o) {
            (HirExpression::BinaryOp { op, left, right }, HirExpression::BinaryOp { op: op2, left: l2, right: r2 }) => op == op2 && agrees(left, l2) && agrees(right, r2),
            (HirExpression::UnaryOp { op, operand }, HirExpression::UnaryOp { op: op2, operand: o2 }) => op == op2 && agrees(operand, o2),
            (HirExpression::FunctionCall { function, arguments }, HirExpression::FunctionCall { function: f2, arguments: a2 }) => {
                function == f2 && arguments.len() == a2.len() && arguments.iter().zip(a2).all(|(x, y)| agrees(x, y))
            }
            (a, b) => a == b,
        },
    }
}
fn fold(run: &mut Run, e: &HirExpression) {
    let show = || format!("return {:?}", e);
    let f = HirFunction::new_with_body("t".into(), HirType::Int, vec![], vec![HirStatement::Return(Some(e.clone()))]);
    let g = run.call("constant folding", &show, || decy_core::optimize::optimize_function(&f));
    match g.body() {
        [HirStatement::Return(Some(o))] if agrees(e, o) => {}
        other => run.fail("constant folding disagrees with C", &show(), &format!("folded to {:?}; C value {:?}", other, eval(e))),
    }
}
fn rnd(r: &mut Rng, d: usize) -> HirExpression {
    if d == 0 || r.chance(1, 5) {
        return match r.below(4) {
            0 => int(*r.pick(&EDGE)),
            1 => int(r.below(70) as i32 - 4),
            2 => int(r.next() as i32),
            _ => if r.chance(1, 3) { var("v") } else { int(r.below(5) as i32) },
        };
    }
    match r.below(12) {
        0..=8 => bin(OPS[r.below(20)], rnd(r, d - 1), rnd(r, d - 1)),
        9 | 10 => un(*r.pick(&[UnaryOperator::Minus, UnaryOperator::Minus, UnaryOperator::BitwiseNot, UnaryOperator::LogicalNot]), rnd(r, d - 1)),
        _ => call("f", vec![rnd(r, d - 1), rnd(r, d - 1)]),
    }
}
fn main() {
    let mut run = Run::new();
    let mut vals: Vec<i32> = EDGE.to_vec();
    vals.extend(-9..40);
    vals.extend([46340, 46341, -46341, 65537, 0x55555555, 0x40000000, -0x40000000, 1 << 30, 123456789, -123456789]);
    for op in OPS {
        for a in &vals {
            for b in &vals {
                fold(&mut run, &bin(op, int(*a), int(*b)));
            }
        }
    }
    for a in &vals {
        fold(&mut run, &un(UnaryOperator::Minus, int(*a)));
        fold(&mut run, &un(UnaryOperator::BitwiseNot, int(*a)));
        fold(&mut run, &un(UnaryOperator::LogicalNot, int(*a)));
    }
    let mut r = Rng::new(run.args.seed);
    while run.time_left() {
        for _ in 0..500 {
            let e = rnd(&mut r, 3);
            fold(&mut run, &e);
        }
    }
    run.done()
}
