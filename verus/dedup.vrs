use vstd::prelude::*;
verus! {
//@include prelude.vinc
//@include maps.vinc
pub mod decy_parser { pub mod parser {
use super::super::*;
//@types crates/decy-parser/src/ast_types.rs: Type Expression UnaryOperator BinaryOperator Variable
//@fn crates/decy-parser/src/ast_types.rs: Variable::name
//@ret r
ensures r@ == self.name@
//@endfn
//@fn crates/decy-parser/src/ast_types.rs: Variable::initializer
//@ret r
ensures (r is Some) == (self.initializer is Some)
//@endfn
//@fn crates/decy-parser/src/ast_types.rs: Variable::is_extern
//@ret r
ensures r == self.is_extern
//@endfn
} }
pub mod decy_hir {
use super::*;
//@types crates/decy-hir/src/lib.rs: HirType UnaryOperator BinaryOperator HirCudaQualifier HirParameter HirExpression SwitchCase HirStatement HirFunction
//@fn crates/decy-hir/src/lib.rs: HirFunction::name
//@ret r
ensures r@ == self.name@
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirFunction::has_body
//@ret r
ensures r == (self.body is Some)
//@endfn
}
use decy_hir::HirFunction;
use decy_parser::parser::Variable;
// ---------------------------------------------------------------- specification (ghost)
pub mod ds { use super::*;
// which of the functions v[0..n] named nm is kept: the first definition, or else the first declaration
pub open spec fn first_def(v: Seq<HirFunction>, n: int, nm: Seq<char>) -> int decreases n { if n <= 0 { -1 } else if first_def(v, n - 1, nm) >= 0 { first_def(v, n - 1, nm) } else if v[n - 1].name@ == nm && v[n - 1].body is Some { n - 1 } else { -1 } }
pub open spec fn first_any(v: Seq<HirFunction>, n: int, nm: Seq<char>) -> int decreases n { if n <= 0 { -1 } else if first_any(v, n - 1, nm) >= 0 { first_any(v, n - 1, nm) } else if v[n - 1].name@ == nm { n - 1 } else { -1 } }
pub open spec fn kept(v: Seq<HirFunction>, n: int, nm: Seq<char>) -> int { if first_def(v, n, nm) >= 0 { first_def(v, n, nm) } else { first_any(v, n, nm) } }
pub proof fn lem_kept(v: Seq<HirFunction>, n: int, nm: Seq<char>)
  requires 0 <= n <= v.len()
  ensures
    -1 <= kept(v, n, nm) < n, kept(v, n, nm) >= 0 ==> v[kept(v, n, nm)].name@ == nm,
    kept(v, n, nm) >= 0 && v[kept(v, n, nm)].body is None ==> forall|i: int| 0 <= i < n && (#[trigger] v[i]).name@ == nm ==> v[i].body is None,
    kept(v, n, nm) == -1 ==> forall|i: int| 0 <= i < n ==> (#[trigger] v[i]).name@ != nm,
    first_def(v, n, nm) >= 0 ==> v[first_def(v, n, nm)].body is Some,
    first_def(v, n, nm) < n, first_any(v, n, nm) < n, first_def(v, n, nm) < 0 ==> forall|i: int| 0 <= i < n && (#[trigger] v[i]).name@ == nm ==> v[i].body is None,
  decreases n
{ if n > 0 { lem_kept(v, n - 1, nm); } }
// r has, for every name in v, exactly one function, and it is the kept one
pub open spec fn one_each(v: Seq<HirFunction>, r: Seq<HirFunction>) -> bool {
  &&& forall|i: int| 0 <= i < r.len() ==> { let k = kept(v, v.len() as int, (#[trigger] r[i]).name@); k >= 0 && r[i] == v[k] }
  &&& forall|i: int| 0 <= i < v.len() ==> exists|j: int| 0 <= j < r.len() && (#[trigger] r[j]).name@ == (#[trigger] v[i]).name@
  &&& forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && (#[trigger] r[i]).name@ == (#[trigger] r[j]).name@ ==> i == j
}
pub open spec fn mapped(m: HashMap<String, HirFunction>, v: Seq<HirFunction>, n: int) -> bool {
  forall|nm: Seq<char>| #[trigger] m@.contains_key(nm) == (kept(v, n, nm) >= 0) && (m@.contains_key(nm) ==> m@[nm] == v[kept(v, n, nm)])
}
pub open spec fn listed_vals(m: Map<Seq<char>, HirFunction>, r: Seq<HirFunction>) -> bool { vals_of(r, m) }
}
pub use ds::*;
pub mod oe { use super::*;
pub broadcast proof fn lem_one_each(v: Seq<HirFunction>, m: HashMap<String, HirFunction>, l: Seq<HirFunction>, r: Seq<HirFunction>)
  requires #[trigger] mapped(m, v, v.len() as int), #[trigger] vals_of(l, m@), #[trigger] perm(l, r)
  ensures one_each(v, r)
{
  let n = v.len() as int;
  let ks = choose|ks: Seq<Seq<char>>| ks.len() == l.len() && ks.no_duplicates() && (forall|k: Seq<char>| #[trigger] m@.contains_key(k) <==> ks.contains(k)) && forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] == m@[ks[i]];
  let p = choose|p: Seq<int>| perm_by(l, r, p);
  assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]).name@ == ks[i] && kept(v, n, ks[i]) >= 0 && l[i] == v[kept(v, n, ks[i])] by { assert(ks.contains(ks[i])); assert(m@.contains_key(ks[i])); lem_kept(v, n, ks[i]); }
  assert forall|i: int| 0 <= i < v.len() implies exists|j: int| 0 <= j < r.len() && (#[trigger] r[j]).name@ == (#[trigger] v[i]).name@ by {
    let nm = v[i].name@; lem_kept(v, n, nm); assert(kept(v, n, nm) >= 0); assert(m@.contains_key(nm)); assert(ks.contains(nm));
    let q = choose|q: int| 0 <= q < ks.len() && ks[q] == nm; assert(l[q].name@ == nm); assert(p.contains(q)); let j = choose|j: int| 0 <= j < p.len() && p[j] == q; assert(r[j] == l[q]); }
}
}
// globals: extern references are left out; of the others, one per name, with its initialiser if it has one anywhere
pub open spec fn defines(x: Variable) -> bool { !(x.is_extern && x.initializer is None) }
pub open spec fn among(v: Seq<Variable>, n: int, x: Variable) -> bool { defines(x) && exists|k: int| 0 <= k < n && #[trigger] v[k] == x }
pub open spec fn covers(r: Seq<&Variable>, x: Variable) -> bool { exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).name@ == x.name@ && (x.initializer is Some ==> r[i].initializer is Some) }
pub open spec fn globals_ok(v: Seq<Variable>, n: int, r: Seq<&Variable>) -> bool {
  &&& forall|i: int| 0 <= i < r.len() ==> among(v, n, *#[trigger] r[i])
  &&& forall|k: int| 0 <= k < n && defines(#[trigger] v[k]) ==> covers(r, v[k])
  &&& forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && (#[trigger] r[i]).name@ == (#[trigger] r[j]).name@ ==> i == j
}
pub open spec fn same_name_at(d: Seq<&Variable>, i: int, nm: Seq<char>) -> bool { 0 <= i < d.len() && d[i].name@ == nm }
pub proof fn lem_globals_step(v: Seq<Variable>, n: int, d0: Seq<&Variable>, d1: Seq<&Variable>)
  requires 0 < n <= v.len(), globals_ok(v, n - 1, d0), ({ let x = v[n - 1];
    if !defines(x) { d1 == d0 } else if exists|i: int| #[trigger] same_name_at(d0, i, x.name@) {
      exists|i: int| #[trigger] same_name_at(d0, i, x.name@) && d1 == (if d0[i].initializer is None && x.initializer is Some { d0.update(i, &x) } else { d0 })
    } else { d1 == d0.push(&x) } })
  ensures globals_ok(v, n, d1)
{
  let x = v[n - 1];
  assert forall|i: int| 0 <= i < d1.len() implies among(v, n, *#[trigger] d1[i]) by {
    if *d1[i] == x && defines(x) { assert(v[n - 1] == *d1[i]); } else { assert(i < d0.len() && d0[i] == d1[i]); assert(among(v, n - 1, *d0[i])); } }
  assert forall|k: int| 0 <= k < n && defines(#[trigger] v[k]) implies covers(d1, v[k]) by {
    if k == n - 1 {
      if exists|i: int| #[trigger] same_name_at(d0, i, x.name@) { let i = choose|i: int| #[trigger] same_name_at(d0, i, x.name@) && d1 == (if d0[i].initializer is None && x.initializer is Some { d0.update(i, &x) } else { d0 }); assert(d1[i].name@ == x.name@); } else { assert(d1[d0.len() as int].name@ == x.name@); }
    } else { assert(covers(d0, v[k])); let i = choose|i: int| 0 <= i < d0.len() && (#[trigger] d0[i]).name@ == v[k].name@ && (v[k].initializer is Some ==> d0[i].initializer is Some); assert(d1[i].name@ == v[k].name@); } }
  assert forall|i: int, j: int| 0 <= i < d1.len() && 0 <= j < d1.len() && (#[trigger] d1[i]).name@ == (#[trigger] d1[j]).name@ implies i == j by {
    assert(i < d0.len() ==> d0[i].name@ == d1[i].name@); assert(j < d0.len() ==> d0[j].name@ == d1[j].name@);
    if i >= d0.len() && j < d0.len() { assert(same_name_at(d0, j, x.name@)); } if j >= d0.len() && i < d0.len() { assert(same_name_at(d0, i, x.name@)); } }
}
// ---------------------------------------------------------------- functions under contract
pub mod code { use super::*;
  broadcast use {ax::gs, oe::lem_one_each};
//@fn crates/decy-core/src/lib.rs: deduplicate_functions +optional
//@ret r
ensures one_each(all_hir_functions@, r@)
//@loop for
$src@ == all_hir_functions@, mapped(func_map, all_hir_functions@, $i as int),
//@loopentry for
proof { lem_kept(all_hir_functions@, $i - 1, $e.name@); lem_kept(all_hir_functions@, $i as int, $e.name@); }
//@endfn
//@fn crates/decy-core/src/lib.rs: global_definitions +optional
//@ret r
ensures globals_ok(variables@, variables@.len() as int, r@)
//@loop for
$src@ == variables@, globals_ok(variables@, $i as int, definitions@),
//@loop position
$src@ == definitions@, ($out is Some ==> same_name_at(definitions@, $out->0 as int, __e0.name@)), $out is None ==> forall|j: int| #[trigger] same_name_at(definitions@, j, __e0.name@) ==> j >= $i,
//@loopentry for
let ghost d0 = definitions@;
//@loopend for
proof { lem_globals_step(variables@, $i as int, d0, definitions@); }
//@endfn
} }
fn main(){}
