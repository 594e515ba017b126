use vstd::prelude::*;
verus! {
//@include prelude.vinc
pub mod decy_hir {
use super::*;
//@types crates/decy-hir/src/lib.rs: HirType UnaryOperator BinaryOperator HirCudaQualifier HirParameter HirExpression SwitchCase HirStatement HirFunction
}
use decy_hir::*;
//@include optimizer_spec.vinc
//@fn crates/decy-core/src/optimize.rs: is_constant_truthy +optional
//@ret r
ensures r == (match *expr { HirExpression::IntLiteral(k) => Some(k != 0), _ => None::<bool> })
//@endfn
//@fn crates/decy-core/src/optimize.rs: fold_int_binary +optional
//@ret r
ensures r is Some ==> c_int_op(left, op, right) == Some(r->0 as int)
//@entry
proof { if right != 0 && !(left == i32::MIN && right == -1) { lem_div(left as int, right as int); lem_rem(left as int, right as int); } }
//@endfn
//@fn crates/decy-core/src/optimize.rs: fold_constants_expr +optional
//@ret r
ensures same_e(r, expr)
decreases expr
//@loop collect
$out@.len() == $i, forall|j: int| 0 <= j < $i ==> same_e(#[trigger] $out@[j], $src@[j]),
//@loopexit collect
proof { lem_norm_es($out, $src, $out@.len()); }
//@endfn
//@fn crates/decy-core/src/optimize.rs: fold_constants_stmt +optional
//@ret r
ensures same_s(r, stmt)
decreases stmt
//@entry
let ghost __stmt = stmt;
//@exit
proof { lem_congr(__r, __stmt); }
//@loop collect
$out@.len() == $i, forall|j: int| 0 <= j < $i ==> same_s(#[trigger] $out@[j], $src@[j]),
//@loopexit collect
proof { lem_same_b($out@, $src@); }
//@endfn
//@fn crates/decy-core/src/optimize.rs: is_allocation_expr +optional
decreases expr
//@endfn
//@fn crates/decy-core/src/optimize.rs: count_uses +external_body
//@endfn
//@fn crates/decy-core/src/optimize.rs: declares_variable +optional
//@ret r
ensures r == has_decl(stmts@)
//@loop any
$found == (exists|j: int| 0 <= j < $i && is_decl(#[trigger] $src@[j])),
//@endfn
//@fn crates/decy-core/src/optimize.rs: remove_dead_branches +optional
//@ret r
ensures same_b(r@, stmts@)
decreases stmts
//@entry
broadcast use sq::gseq;
proof { lem_acc_start(stmts@); }
//@loop for
acc_ok(result@, $src@, $i as int), $src@ == stmts@,
//@loopentry for
let ghost __done = result@;
//@loopend for
proof { lem_render(result@.subrange(__done.len() as int, result@.len() as int), $src@[$i - 1]); lem_step(__done, result@, $src@, $i - 1); }
//@loopexit for
proof { lem_acc_end(result@, $src@); }
//@loop collect
$out@.len() == $i, forall|j: int| 0 <= j < $i ==> same_s(#[trigger] $out@[j], $src@[j]),
//@loopexit collect
proof { lem_same_b($out@, $src@); }
//@endfn
//@fn crates/decy-core/src/optimize.rs: eliminate_temporaries_returning +optional
//@ret r
ensures meaning(*return_type, r@) == meaning(*return_type, stmts@)
//@entry
broadcast use sq::gseq;
proof { lem_racc_start(*return_type, stmts@); }
//@loop range
0 <= $i <= stmts@.len(), ($i == stmts@.len() ==> !skip_next),
racc_ok(*return_type, result@, stmts@, $i + (if skip_next { 1int } else { 0int })),
//@loopentry range
let ghost __done = result@; let ghost __skip = skip_next;
//@loopend range
proof { if !__skip { lem_relim(*return_type, __done, result@, stmts@, $i - 1, skip_next); } }
//@loopexit range
proof { lem_racc_end(*return_type, result@, stmts@); }
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirFunction::name
//@ret r
ensures r@ == self.name@
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirFunction::return_type
//@ret r
ensures *r == self.return_type
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirFunction::parameters
//@ret r
ensures r@ == self.parameters@
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirFunction::body
//@ret r
ensures r@ == f_body(*self)
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirFunction::cuda_qualifier
//@ret r
ensures r == self.cuda_qualifier
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirFunction::set_cuda_qualifier
ensures final(self).cuda_qualifier == qualifier, final(self).name == old(self).name, final(self).return_type == old(self).return_type, final(self).parameters == old(self).parameters, final(self).body == old(self).body
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirFunction::new_with_body
//@ret r
ensures r.name == name, r.return_type == return_type, r.parameters == parameters, r.body == Some(body), r.cuda_qualifier is None
//@endfn
//@fn crates/decy-core/src/optimize.rs: optimize_function
//@ret r
ensures
  r.name@ == func.name@, r.return_type == func.return_type, r.parameters@ == func.parameters@, r.cuda_qualifier == func.cuda_qualifier,
  meaning(func.return_type, f_body(r)) == meaning(func.return_type, f_body(*func)),
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@loop while
invariant meaning(func.return_type, body@) == meaning(func.return_type, f_body(*func)),
//@loop collect
$out@.len() == $i, forall|j: int| 0 <= j < $i ==> same_s(#[trigger] $out@[j], $src@[j]),
//@loopexit collect
proof { lem_same_b($out@, $src@); }
//@endfn
}
fn main(){}
