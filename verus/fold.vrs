use vstd::prelude::*;
verus! {
//@include prelude.vinc
pub mod decy_hir {
use super::*;
//@types crates/decy-hir/src/lib.rs: HirType UnaryOperator BinaryOperator HirCudaQualifier HirParameter HirExpression SwitchCase HirStatement HirFunction
}
use decy_hir::*;
//@include optimizer_spec.vinc
//@fn crates/decy-core/src/optimize.rs: is_constant_truthy +optional
//@ret r
ensures r == (match *expr { HirExpression::IntLiteral(k) => Some(k != 0), _ => None::<bool> })
//@endfn
//@fn crates/decy-core/src/optimize.rs: fold_int_binary +optional
//@ret r
ensures r is Some ==> c_int_op(left, op, right) == Some(r->0 as int)
//@entry
proof { if right != 0 && !(left == i32::MIN && right == -1) { lem_div(left as int, right as int); lem_rem(left as int, right as int); } }
//@endfn
//@fn crates/decy-core/src/optimize.rs: fold_constants_expr +optional
//@ret r
ensures same_e(r, expr)
decreases expr
//@loop collect
$out@.len() == $i, forall|j: int| 0 <= j < $i ==> same_e(#[trigger] $out@[j], $src@[j]),
//@loopexit collect
proof { lem_norm_es($out, $src, $out@.len()); }
//@endfn
}
fn main(){}
