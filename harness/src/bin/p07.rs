//! Lock discipline: random function bodies with nested lock regions; the reports are compared with a
//! direct reading of the definition (which mutexes are held at which statement).
use decy_analyzer::lock_analysis::LockAnalyzer;
use decy_hir::*;
use decy_verify::lock_verify::LockDisciplineChecker;
use std::collections::BTreeSet;
use vharness::*;

const VARS: [&str; 5] = ["dx", "dy", "dz", "dw", "dv"];
const MUTEX: [&str; 3] = ["ma", "mb", "mc"];

fn b(e: HirExpression) -> Box<HirExpression> {
    Box::new(e)
}
fn ex(r: &mut Rng, d: usize) -> HirExpression {
    use HirExpression as E;
    if d == 0 || r.chance(1, 3) {
        return match r.below(5) {
            0 => E::IntLiteral(r.below(9) as i32),
            1 => E::Sizeof { type_name: r.pick(&VARS).to_string() },
            2 => E::StringLiteral(r.pick(&VARS).to_string()),
            _ => E::Variable(r.pick(&VARS).to_string()),
        };
    }
    let many = |r: &mut Rng| (0..r.below(3)).map(|_| ex(r, d - 1)).collect::<Vec<_>>();
    match r.below(23) {
        0 | 1 => E::BinaryOp { op: *r.pick(&[BinaryOperator::Add, BinaryOperator::Assign, BinaryOperator::LogicalAnd]), left: b(ex(r, d - 1)), right: b(ex(r, d - 1)) },
        2 => E::Dereference(b(ex(r, d - 1))),
        3 => E::AddressOf(b(ex(r, d - 1))),
        4 => E::UnaryOp { op: UnaryOperator::Minus, operand: b(ex(r, d - 1)) },
        5 => E::PostIncrement { operand: b(ex(r, d - 1)) },
        6 => E::PreIncrement { operand: b(ex(r, d - 1)) },
        7 => E::PostDecrement { operand: b(ex(r, d - 1)) },
        8 => E::PreDecrement { operand: b(ex(r, d - 1)) },
        9 => E::FunctionCall { function: r.pick(&["dx", "g"]).to_string(), arguments: many(r) },
        10 => E::FieldAccess { object: b(ex(r, d - 1)), field: r.pick(&VARS).to_string() },
        11 => E::PointerFieldAccess { pointer: b(ex(r, d - 1)), field: r.pick(&VARS).to_string() },
        12 => E::ArrayIndex { array: b(ex(r, d - 1)), index: b(ex(r, d - 1)) },
        13 => E::SliceIndex { slice: b(ex(r, d - 1)), index: b(ex(r, d - 1)), element_type: HirType::Int },
        14 => E::IsNotNull(b(ex(r, d - 1))),
        15 => E::Calloc { count: b(ex(r, d - 1)), element_type: Box::new(HirType::Int) },
        16 => E::Malloc { size: b(ex(r, d - 1)) },
        17 => E::Realloc { pointer: b(ex(r, d - 1)), new_size: b(ex(r, d - 1)) },
        18 => E::StringMethodCall { receiver: b(ex(r, d - 1)), method: "len".into(), arguments: many(r) },
        19 => E::Cast { target_type: HirType::Int, expr: b(ex(r, d - 1)) },
        20 => E::CompoundLiteral { literal_type: HirType::Int, initializers: many(r) },
        21 => E::Ternary { condition: b(ex(r, d - 1)), then_expr: b(ex(r, d - 1)), else_expr: b(ex(r, d - 1)) },
        _ => {
            if r.chance(1, 2) {
                E::CxxNew { allocated_type: HirType::Int, arguments: many(r) }
            } else {
                E::CxxDelete { operand: b(ex(r, d - 1)) }
            }
        }
    }
}
fn op(lock: bool, m: &str) -> HirStatement {
    HirStatement::Expression(HirExpression::FunctionCall {
        function: if lock { "pthread_mutex_lock" } else { "pthread_mutex_unlock" }.into(),
        arguments: vec![HirExpression::AddressOf(b(HirExpression::Variable(m.into())))],
    })
}
fn block(r: &mut Rng, d: usize, max: usize) -> Vec<HirStatement> {
    (0..r.below(max + 1)).map(|_| stmt(r, d)).collect()
}
fn stmt(r: &mut Rng, d: usize) -> HirStatement {
    use HirStatement as S;
    if r.chance(2, 5) {
        return op(r.chance(1, 2), *r.pick(&MUTEX));
    }
    match r.below(if d == 0 { 9 } else { 14 }) {
        0 | 1 => S::Assignment { target: r.pick(&VARS).to_string(), value: ex(r, 2) },
        2 => S::VariableDeclaration { name: r.pick(&VARS).to_string(), var_type: HirType::Int, initializer: if r.chance(1, 3) { None } else { Some(ex(r, 2)) } },
        3 => S::Return(if r.chance(1, 3) { None } else { Some(ex(r, 1)) }),
        4 => S::DerefAssignment { target: ex(r, 1), value: ex(r, 1) },
        5 => S::ArrayIndexAssignment { array: b(ex(r, 1)), index: b(ex(r, 1)), value: ex(r, 1) },
        6 => S::FieldAssignment { object: ex(r, 1), field: r.pick(&VARS).to_string(), value: ex(r, 1) },
        7 => S::Free { pointer: ex(r, 1) },
        8 => S::Expression(ex(r, 2)),
        9 => S::If { condition: ex(r, 1), then_block: block(r, d - 1, 4), else_block: if r.chance(1, 2) { None } else { Some(block(r, d - 1, 4)) } },
        10 => S::While { condition: ex(r, 1), body: block(r, d - 1, 4) },
        11 => S::For {
            init: block(r, 0, 1),
            condition: if r.chance(1, 3) { None } else { Some(ex(r, 1)) },
            increment: block(r, 0, 1),
            body: block(r, d - 1, 4),
        },
        12 => S::Switch {
            condition: ex(r, 1),
            cases: (0..r.below(3)).map(|_| SwitchCase { value: if r.chance(1, 4) { None } else { Some(ex(r, 1)) }, body: block(r, d - 1, 3) }).collect(),
            default_case: if r.chance(1, 2) { None } else { Some(block(r, d - 1, 3)) },
        },
        _ => r.pick(&[S::Break, S::Continue]).clone(),
    }
}

type Names = BTreeSet<String>;
/// every Variable("x") in the printed form
fn vars_in(t: &str, into: &mut Names) {
    let key = "Variable(\"";
    let mut rest = t;
    while let Some(i) = rest.find(key) {
        rest = &rest[i + key.len()..];
        into.insert(rest[..rest.find('"').unwrap()].to_string());
    }
}
fn e_vars(e: &HirExpression, into: &mut Names) {
    vars_in(&format!("{:?}", e), into);
}
fn lock_of(s: &HirStatement) -> Option<(bool, String)> {
    for m in MUTEX {
        for l in [true, false] {
            if *s == op(l, m) {
                return Some((l, m.to_string()));
            }
        }
    }
    None
}
/// for each statement of a block: the mutexes held around it whose unlock follows in the same block
fn covered(body: &[HirStatement]) -> Vec<Names> {
    let mut c = vec![Names::new(); body.len()];
    for (e, s) in body.iter().enumerate() {
        if let Some((false, m)) = lock_of(s) {
            // the nearest operation on m before e
            if let Some(k) = (0..e).rev().find(|k| lock_of(&body[*k]).is_some_and(|(_, x)| x == m)) {
                if lock_of(&body[k]).unwrap().0 {
                    for x in c.iter_mut().take(e).skip(k + 1) {
                        x.insert(m.clone());
                    }
                }
            }
        }
    }
    c
}
/// variables of a statement; with `free`, only outside the regions its nested blocks lock themselves
fn s_vars(s: &HirStatement, free: bool, into: &mut Names) {
    use HirStatement as S;
    let blk = |v: &[HirStatement], into: &mut Names| {
        let c = covered(v);
        for (i, x) in v.iter().enumerate() {
            if !free || (c[i].is_empty() && lock_of(x).is_none()) {
                s_vars(x, free, into);
            }
        }
    };
    match s {
        S::If { condition, then_block, else_block } => {
            e_vars(condition, into);
            blk(then_block, into);
            if let Some(e) = else_block {
                blk(e, into);
            }
        }
        S::While { condition, body } => {
            e_vars(condition, into);
            blk(body, into);
        }
        S::For { init, condition, increment, body } => {
            blk(init, into);
            if let Some(c) = condition {
                e_vars(c, into);
            }
            blk(increment, into);
            blk(body, into);
        }
        S::Switch { condition, cases, default_case } => {
            e_vars(condition, into);
            for c in cases {
                if let Some(v) = &c.value {
                    e_vars(v, into);
                }
                blk(&c.body, into);
            }
            if let Some(d) = default_case {
                blk(d, into);
            }
        }
        S::Assignment { target, value } => {
            into.insert(target.clone());
            e_vars(value, into);
        }
        other => vars_in(&format!("{:?}", other), into),
    }
}
fn tokens(m: &str) -> Vec<String> {
    m.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_')).filter(|t| !t.is_empty()).map(|t| t.to_string()).collect()
}
fn order(f: &HirFunction) -> Vec<String> {
    f.body().iter().filter_map(lock_of).filter(|(l, _)| *l).map(|(_, m)| m).collect()
}
fn conflict(a: &[String], c: &[String]) -> bool {
    let pairs = |v: &[String]| {
        let mut s = BTreeSet::new();
        for i in 0..v.len() {
            for j in i + 1..v.len() {
                if v[i] != v[j] {
                    s.insert((v[i].clone(), v[j].clone()));
                }
            }
        }
        s
    };
    let (p, q) = (pairs(a), pairs(c));
    p.iter().any(|(x, y)| q.contains(&(y.clone(), x.clone())))
}

fn main() {
    let mut run = Run::new();
    let mut r = Rng::new(run.args.seed);
    let an = LockAnalyzer::new();
    let ck = LockDisciplineChecker::new(&an);
    let mut n = 0usize;
    while run.time_left() {
        n += 1;
        let body = block(&mut r, if n % 3 == 0 { 0 } else { 2 }, 3 + n % 9);
        let f = HirFunction::new_with_body("f".into(), HirType::Void, vec![], body.clone());
        let input = || format!("{:#?}", body);
        // regions
        let got = run.call("find_lock_regions", &input, || an.find_lock_regions(&f));
        let cov = covered(&body);
        let mut want = vec![];
        for (e, s) in body.iter().enumerate() {
            if let Some((false, m)) = lock_of(s) {
                if let Some(k) = (0..e).rev().find(|k| lock_of(&body[*k]).is_some_and(|(_, x)| x == m)) {
                    if lock_of(&body[k]).unwrap().0 {
                        want.push((m, k, e));
                    }
                }
            }
        }
        let mut gs: Vec<_> = got.iter().map(|g| (g.lock_name.clone(), g.start_index, g.end_index)).collect();
        gs.sort();
        let mut ws = want.clone();
        ws.sort();
        if gs != ws {
            run.fail("the locked regions are not the lock/unlock pairs of the body", &input(), &format!("expected {:?}, got {:?}", ws, gs));
        }
        // protected data
        let map = run.call("analyze_lock_data_mapping", &input, || an.analyze_lock_data_mapping(&f));
        let mut prot = Names::new();
        for m in MUTEX {
            let mut data = Names::new();
            for (i, s) in body.iter().enumerate() {
                if cov[i].contains(m) && lock_of(s).is_none() {
                    s_vars(s, false, &mut data);
                }
            }
            for v in VARS.iter().chain(MUTEX.iter()) {
                if map.is_protected_by(v, m) != data.contains(*v) {
                    run.fail("the data a lock protects is not what its regions use", &input(), &format!("{} under {}: expected {}", v, m, data.contains(*v)));
                }
            }
            let got: Names = map.get_protected_data(m).into_iter().collect();
            if got != data {
                run.fail("the data a lock protects is not what its regions use", &input(), &format!("{}: expected {:?}, got {:?}", m, data, got));
            }
            prot.extend(data);
        }
        // escaped accesses
        let msgs = run.call("check_unprotected_access", &input, || ck.check_unprotected_access(&f));
        let toks: Vec<Vec<String>> = msgs.iter().map(|m| tokens(m)).collect();
        let mut esc = BTreeSet::new();
        for (i, s) in body.iter().enumerate() {
            if cov[i].is_empty() && lock_of(s).is_none() {
                let mut vs = Names::new();
                s_vars(s, true, &mut vs);
                for v in vs.intersection(&prot) {
                    esc.insert((v.clone(), i.to_string()));
                }
            }
        }
        for (v, i) in &esc {
            if !toks.iter().any(|t| t.contains(v) && t.contains(i)) {
                run.fail("an access to protected data outside its lock is not reported", &input(), &format!("{} at statement {}; reports: {:?}", v, i, msgs));
            }
        }
        for (k, t) in toks.iter().enumerate() {
            if !esc.iter().any(|(v, i)| t.contains(v) && t.contains(i)) {
                run.fail("a reported access is not an unprotected access to protected data", &input(), &msgs[k]);
            }
        }
        // discipline
        let msgs = run.call("check_lock_discipline", &input, || an.check_lock_discipline(&f));
        let (mut held, mut bad) = (Names::new(), vec![]);
        for s in &body {
            match lock_of(s) {
                Some((true, m)) => {
                    held.insert(m);
                }
                Some((false, m)) => {
                    if !held.remove(&m) {
                        bad.push(m);
                    }
                }
                None => {}
            }
        }
        bad.extend(held);
        bad.sort();
        let mut gotm: Vec<String> = msgs.iter().filter_map(|m| tokens(m).into_iter().find(|t| MUTEX.contains(&t.as_str()))).collect();
        gotm.sort();
        if gotm != bad || msgs.len() != bad.len() {
            run.fail("unlocks without lock and locks without unlock are not reported one by one", &input(), &format!("expected {:?}, got {:?}", bad, msgs));
        }
        let rep = run.call("check_all", &input, || ck.check_all(&f));
        if (rep.unprotected_accesses == 0) != esc.is_empty() || rep.lock_violations != bad.len() || rep.is_clean() != (esc.is_empty() && bad.is_empty() && rep.deadlock_warnings == 0) {
            run.fail("the summary does not agree with the individual checks", &input(), &format!("{:?}; expected {} escapes, {} violations", rep, esc.len(), bad.len()));
        }
        // lock order
        let fs: Vec<HirFunction> = (0..1 + r.below(4))
            .map(|i| HirFunction::new_with_body(format!("f{}", i), HirType::Void, vec![], (0..r.below(6)).map(|_| op(r.chance(2, 3), *r.pick(&MUTEX))).collect()))
            .collect();
        let input = || format!("{:#?}", fs.iter().map(order).collect::<Vec<_>>());
        let msgs = run.call("check_deadlock_risk", &input, || ck.check_deadlock_risk(&fs));
        let mut want = 0;
        for i in 0..fs.len() {
            for j in i + 1..fs.len() {
                want += conflict(&order(&fs[i]), &order(&fs[j])) as usize;
            }
        }
        if msgs.len() != want {
            run.fail("conflicting lock orders are not reported once per pair of functions", &input(), &format!("expected {}, got {:?}", want, msgs));
        }
    }
    run.done()
}
