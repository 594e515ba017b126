//! Integer expressions: the generated Rust is read back with syn, type-checked and evaluated, and
//! compared with the value C gives the expression.
use decy_hir::*;
use vharness::gen::*;
use vharness::prog::c_function;
use vharness::rust::*;
use std::cell::RefCell;
use vharness::*;

const CTX: usize = 5;
const KW: [&str; 44] = [
    "as", "async", "await", "dyn", "false", "fn", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "trait", "true", "type", "unsafe", "use", "where",
    "abstract", "become", "box", "final", "macro", "override", "priv", "try", "typeof", "unsized", "virtual", "yield",
    "Match", "types", "r", "i32", "u8", "str", "string", "main", "y", "tmp",
];
fn func(e: &HirExpression, ctx: usize) -> HirFunction {
    let p = |n: &str| HirParameter::new(n.into(), HirType::Int);
    let e = e.clone();
    let decl = |n: &str, i: Option<HirExpression>| HirStatement::VariableDeclaration { name: n.into(), var_type: HirType::Int, initializer: i };
    let ret = |e: HirExpression| HirStatement::Return(Some(e));
    let body = match ctx {
        0 => vec![ret(e)],
        1 => vec![HirStatement::If { condition: e, then_block: vec![ret(int(1))], else_block: None }, ret(int(0))],
        2 => vec![decl("x", Some(e)), ret(var("x"))],
        3 => vec![decl("x", Some(int(7))), HirStatement::Assignment { target: "x".into(), value: e }, ret(var("x"))],
        _ => vec![HirStatement::While { condition: e, body: vec![ret(int(1))] }, ret(int(0))],
    };
    HirFunction::new_with_body("fx".into(), HirType::Int, vec![p("a"), p("b"), p("c"), p("match")], body)
}

fn check(run: &mut Run, g: &decy_codegen::CodeGenerator, e: &HirExpression, ctx: usize) {
    let f = func(e, ctx);
    let text = run.call("generate_function", &|| c_function(&f, 1), || g.generate_function(&f));
    judge(run, &f, &text)
}
/// the same from C text, through the whole pipeline
fn check_text(run: &mut Run, e: &HirExpression, ctx: usize) {
    let f = func(e, ctx);
    let src = c_function(&f, 1);
    match run.call("transpile", &|| src.clone(), || decy_core::transpile(&src)) {
        Ok(t) => judge(run, &f, &t),
        Err(e) => run.fail("the pipeline refuses a scalar function", &src, &format!("{:#}", e)),
    }
}
thread_local! { static RC: RefCell<Rustc> = RefCell::new(Rustc::new(0)); static NTH: RefCell<usize> = RefCell::new(0); }
fn judge(run: &mut Run, f: &HirFunction, text: &str) {
    let nth = NTH.with(|n| { *n.borrow_mut() += 1; *n.borrow() });
    if nth % 13 == 0 {
        RC.with(|r| r.borrow_mut().add(run, c_function(f, 1), text, ""));
    }
    let show = || c_function(f, 1);
    let file = match syn::parse_file(text) {
        Ok(i) => i,
        Err(err) => run.fail("the generated text is no Rust", &show(), &format!("{}\n{}", err, text)),
    };
    let item = match file.items.iter().find_map(|i| match i { syn::Item::Fn(x) if x.sig.ident == "fx" => Some(x.clone()), _ => None }) {
        Some(i) => i,
        None => run.fail("the function is missing from the generated text", &show(), text),
    };
    for inp in [[0i64, 0, 0, 0], [1, 2, 3, 5], [-5, 20, 7, -2], [4, 1, 1, 0], [i32::MAX as i64, -1, 31, 1]] {
        if let Ok(o) = Interp::run(f, &inp) {
            let got = Rust::new().run_fn(&item, &[inp[0] as i128, inp[1] as i128, inp[2] as i128, inp[3] as i128]);
            let want = V::Int(32, true, o.ret.unwrap() as i128);
            if got != Ok(want.clone()) {
                run.fail(
                    "an expression has another value in the generated Rust",
                    &format!("{} a={} b={} c={} match={}", show(), inp[0], inp[1], inp[2], inp[3]),
                    &format!("C: {:?}, Rust: {:?}\n{}", want, got, text),
                );
            }
        }
    }
}

fn tern(c: &HirExpression, t: &HirExpression, e: &HirExpression) -> HirExpression {
    HirExpression::Ternary { condition: Box::new(c.clone()), then_expr: Box::new(t.clone()), else_expr: Box::new(e.clone()) }
}
fn cast(e: &HirExpression) -> HirExpression {
    HirExpression::Cast { target_type: HirType::Int, expr: Box::new(e.clone()) }
}

fn main() {
    let mut run = Run::new();
    RC.with(|r| r.borrow_mut().limit = if run.args.secs > 30.0 { 20000 } else { 2000 });
    let g = decy_codegen::CodeGenerator::new();
    let ops: Vec<BinaryOperator> = OPS.iter().take(18).copied().collect();
    let uns = [UnaryOperator::Minus, UnaryOperator::LogicalNot, UnaryOperator::BitwiseNot];
    // every operator over every operator
    let leaves = vec![var("a"), var("b"), int(3), int(-2)];
    let mut d1: Vec<HirExpression> = leaves.clone();
    for o in &ops {
        d1.push(bin(*o, var("a"), var("b")));
    }
    for u in uns {
        d1.push(un(u, var("b")));
    }
    d1.push(tern(&var("a"), &var("b"), &int(3)));
    d1.push(cast(&var("a")));
    let mut d2 = vec![];
    for l in &d1 {
        for u in uns {
            d2.push(un(u, l.clone()));
        }
        d2.push(cast(l));
        d2.push(tern(l, &var("b"), &int(3)));
        d2.push(tern(&var("a"), l, &int(3)));
        d2.push(tern(&var("a"), &int(3), l));
        for r in &d1 {
            for o in &ops {
                d2.push(bin(*o, l.clone(), r.clone()));
            }
        }
    }
    for (i, e) in d2.iter().enumerate() {
        check(&mut run, &g, e, i % CTX);
    }
    // unary operators, casts and conditional expressions over those
    for (i, e) in d2.iter().enumerate() {
        let x = match i % 6 {
            0 => cast(e),
            1 => tern(e, &var("a"), &int(0)),
            2 => tern(&var("c"), e, &var("a")),
            k => un(uns[k - 3], e.clone()),
        };
        check(&mut run, &g, &x, (i / 6) % CTX);
    }
    // every Rust keyword that C allows as a name, and names close to them
    for k in KW {
        let ren = |f: HirFunction| -> HirFunction {
            let ps = f.parameters().iter().map(|p| HirParameter::new(if p.name() == "match" { k.to_string() } else { p.name().to_string() }, HirType::Int)).collect();
            HirFunction::new_with_body("fx".into(), HirType::Int, ps, f.body().to_vec())
        };
        let v = var(k);
        for (i, e) in [v.clone(), bin(BinaryOperator::Add, v.clone(), var("a")), un(UnaryOperator::LogicalNot, v.clone()), tern(&v, &v, &var("b")), cast(&v)].iter().enumerate() {
            let f = ren(func(e, i));
            let text = run.call("generate_function", &|| c_function(&f, 1), || g.generate_function(&f));
            judge(&mut run, &f, &text);
        }
        // declared, assigned and read
        let f = HirFunction::new_with_body("fx".into(), HirType::Int, ["a", "b", "c", "d"].iter().map(|n| HirParameter::new(n.to_string(), HirType::Int)).collect(), vec![
            HirStatement::VariableDeclaration { name: k.to_string(), var_type: HirType::Int, initializer: Some(int(4)) },
            HirStatement::Assignment { target: k.to_string(), value: bin(BinaryOperator::Subtract, v.clone(), int(1)) },
            HirStatement::Return(Some(v.clone())),
        ]);
        let text = run.call("generate_function", &|| c_function(&f, 1), || g.generate_function(&f));
        judge(&mut run, &f, &text);
    }
    // deeper, at random
    let mut rng = Rng::new(run.args.seed);
    let mut pool = d1.clone();
    pool.push(var("c"));
    pool.push(var("match"));
    pool.push(int(i32::MIN));
    pool.push(int(i32::MAX));
    let mut n = 0;
    while run.time_left() || n < 2000 {
        n += 1;
        let l = rng.pick(&pool).clone();
        let r = rng.pick(&pool).clone();
        let e = match rng.below(9) {
            0 | 1 => un(*rng.pick(&uns), l),
            2 => tern(&l, &r, rng.pick(&pool)),
            3 => cast(&l),
            _ => bin(*rng.pick(&ops), l, r),
        };
        if format!("{:?}", e).len() < 700 {
            let c = rng.below(CTX);
            check(&mut run, &g, &e, c);
            if n % 40 == 0 {
                check_text(&mut run, &e, c);
            }
            if pool.len() < 600 {
                pool.push(e);
            } else {
                let k = 30 + rng.below(570);
                pool[k] = e;
            }
        }
    }
    RC.with(|r| r.borrow_mut().flush(&mut run));
    run.done()
}
