use vstd::prelude::*;
verus! {
//@format grouped
//@include prelude.vinc
//@include maps.vinc
//@include fmt.vinc
pub mod decy_hir {
use super::*;
//@types crates/decy-hir/src/lib.rs: HirType UnaryOperator BinaryOperator HirCudaQualifier HirParameter HirExpression SwitchCase HirStatement HirFunction
}
use decy_hir::*;
//@types crates/decy-codegen/src/lib.rs: TypeContext
pub struct CodeGenerator { pub x: u8 }
//@include exprgen_spec.vinc
// ---------------------------------------------------------------- functions under contract
//@fn crates/decy-codegen/src/lib.rs: TypeContext::get_type +optional
//@ret r
ensures (r is Some) == self.variables@.contains_key(name@), r matches Some(t) ==> *t == self.variables@[name@]
//@endfn
//@fn crates/decy-codegen/src/lib.rs: TypeContext::get_renamed_local +optional
//@ret r
ensures (r is Some) == self.renamed_locals@.contains_key(name@), r matches Some(t) ==> *t == self.renamed_locals@[name@]
//@endfn
//@fn crates/decy-codegen/src/lib.rs: TypeContext::is_global +optional
//@ret r
ensures r == self.globals@.contains(name@)
//@endfn
//@fn crates/decy-codegen/src/lib.rs: TypeContext::is_pointer +optional
//@ret r
ensures r == (self.variables@.contains_key(name@) && self.variables@[name@] is Pointer)
//@endfn
//@fn crates/decy-codegen/src/lib.rs: TypeContext::is_option +optional
//@ret r
ensures r == (self.variables@.contains_key(name@) && self.variables@[name@] is Option)
//@endfn
//@fn crates/decy-codegen/src/lib.rs: TypeContext::is_vec +optional
//@ret r
ensures r == (self.variables@.contains_key(name@) && self.variables@[name@] is Vec)
//@endfn
//@fn crates/decy-codegen/src/lib.rs: TypeContext::get_field_type_from_type +external_body
//@endfn
//@fn crates/decy-codegen/src/lib.rs: TypeContext::infer_expression_type +optional
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@ret r
//@spec
ensures frag(*expr, *self) ==> intish(r)
//@endfn
//@fn crates/decy-codegen/src/lib.rs: escape_rust_keyword +optional
//@ret r
ensures r@ == esc(name@)
//@endfn
//@fn crates/decy-codegen/src/expr_gen/misc.rs: CodeGenerator::is_boolean_expression +optional
//@ret r
ensures r == boo(*expr)
//@endfn
//@fn crates/decy-codegen/src/expr_gen/misc.rs: CodeGenerator::needs_operand_parens +optional
//@ret r
ensures !r ==> !compound(*expr) && !(*expr is Cast)
//@endfn
//@fn crates/decy-codegen/src/expr_gen/misc.rs: CodeGenerator::ends_in_cast +optional
//@ret r
ensures *expr is Cast ==> r
//@endfn
//@fn crates/decy-codegen/src/expr_gen/misc.rs: CodeGenerator::binary_operator_to_string +optional
//@ret r
ensures c_op(*op) ==> rop(r@) == Some(*op)
//@entry
proof { ax_lits(); }
//@endfn
//@fn crates/decy-codegen/src/expr_gen/misc.rs: CodeGenerator::unary_operator_to_string +optional
//@ret r
requires *op is Minus || *op is LogicalNot || *op is BitwiseNot || *op is AddressOf
ensures *op is Minus ==> r@ == "-"@, *op is BitwiseNot || *op is LogicalNot ==> r@ == "!"@
//@endfn
//@fn crates/decy-codegen/src/expr_gen/literals.rs: CodeGenerator::gen_expr_int_literal +optional
//@ret r
ensures tt(target_type) ==> means(r@, HirExpression::IntLiteral(val), wi(target_type)), target_type is None ==> r@ == dec(val as int)
//@endfn
//@fn crates/decy-codegen/src/expr_gen/literals.rs: CodeGenerator::gen_expr_variable_pointer_target +external_body
//@endfn
//@fn crates/decy-codegen/src/expr_gen/literals.rs: CodeGenerator::gen_expr_variable_numeric_coercion +optional
//@ret r
ensures int_name(name@, *ctx) && target is Int ==> r is None
//@endfn
//@fn crates/decy-codegen/src/expr_gen/literals.rs: CodeGenerator::gen_expr_variable +optional
//@ret r
ensures tt(target_type) && int_name(name@, *ctx) ==> r@ == esc(name@)
//@endfn
//@fn crates/decy-codegen/src/expr_gen/literals.rs: CodeGenerator::gen_expr_unary_logical_not +optional
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@ret r
//@spec
ensures tt(target_type) && frag(*operand, *ctx) ==> means(r@, HirExpression::UnaryOp { op: UnaryOperator::LogicalNot, operand: Box::new(*operand) }, wi(target_type))
//@entry
proof { ax_lits(); }
//@endfn
//@fn crates/decy-codegen/src/expr_gen/calls.rs: CodeGenerator::gen_expr_unary_op +optional
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@ret r
//@spec
ensures frag(*operand, *ctx) && (*op is Minus || *op is BitwiseNot) ==> means(r@, HirExpression::UnaryOp { op: *op, operand: Box::new(*operand) }, false)
//@entry
proof { ax_lits(); }
//@endfn
//@fn crates/decy-codegen/src/expr_gen/misc.rs: CodeGenerator::gen_expr_ternary +optional
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@ret r
//@spec
ensures tt(target_type) && frag(*condition, *ctx) && frag(*then_expr, *ctx) && frag(*else_expr, *ctx) ==> means(r@, HirExpression::Ternary { condition: Box::new(*condition), then_expr: Box::new(*then_expr), else_expr: Box::new(*else_expr) }, wi(target_type))
//@entry
proof { ax_lits(); }
//@endfn
//@fn crates/decy-codegen/src/lib.rs: CodeGenerator::map_type
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@ret r
//@spec
ensures *hir_type is Int ==> r@ == "i32"@
//@loop collect
true,
//@endfn
//@fn crates/decy-codegen/src/func_gen.rs: CodeGenerator::is_any_malloc_or_calloc +optional
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@endfn
//@fn crates/decy-codegen/src/expr_gen/misc.rs: CodeGenerator::gen_expr_cast +optional
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@ret r
//@spec
ensures tt(target_type) && *cast_target is Int && frag(*expr, *ctx) ==> means(r@, HirExpression::Cast { target_type: *cast_target, expr: Box::new(*expr) }, wi(target_type))
//@endfn
//@fn crates/decy-codegen/src/expr_gen/binary_ops.rs: CodeGenerator::gen_expr_binary_assign +external_body
//@endfn
//@fn crates/decy-codegen/src/expr_gen/binary_ops.rs: CodeGenerator::gen_expr_binary_equality_special +optional
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@ret r
//@spec
requires *op is Equal || *op is NotEqual
ensures frag(*left, *ctx) && frag(*right, *ctx) ==> r is None
//@endfn
//@fn crates/decy-codegen/src/expr_gen/binary_ops.rs: CodeGenerator::gen_expr_binary_char_int_comparison +optional
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@ret r
//@spec
ensures frag(*left, *ctx) && frag(*right, *ctx) ==> r is None
//@endfn
//@fn crates/decy-codegen/src/expr_gen/binary_ops.rs: CodeGenerator::gen_expr_binary_char_arithmetic +optional
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@ret r
//@spec
ensures frag(*left, *ctx) && frag(*right, *ctx) ==> r is None
//@endfn
//@fn crates/decy-codegen/src/expr_gen/binary_ops.rs: CodeGenerator::gen_expr_binary_pointer_arithmetic +optional
//@ret r
requires *op is Add || *op is Subtract
ensures frag(*left, *ctx) && frag(*right, *ctx) ==> r is None
//@endfn
//@fn crates/decy-codegen/src/expr_gen/binary_ops.rs: CodeGenerator::gen_expr_binary_logical +optional
//@ret r
ensures tt(target_type) && opnd(left_str@, *left) && opnd(right_str@, *right) && rop(op_str@) == Some(*_op) && logic(*_op) ==> means(r@, bx(*_op, *left, *right), wi(target_type))
//@entry
proof { ax_lits(); }
//@endfn
//@fn crates/decy-codegen/src/expr_gen/binary_ops.rs: CodeGenerator::gen_expr_binary_arithmetic_coercion +optional
//@ret r
ensures tt(target_type) && frag(*left, *ctx) && frag(*right, *ctx) ==> r is None
//@endfn
//@fn crates/decy-codegen/src/expr_gen/binary_ops.rs: CodeGenerator::gen_expr_binary_chained_comparison +optional
//@ret r
ensures (r is Some) == (boo(*left) || boo(*right)), r matches Some(s) ==> forall|op: BinaryOperator| tt(target_type) && opnd(left_str@, *left) && opnd(right_str@, *right) && #[trigger] cmp(op) && rop(op_str@) == Some(op) && ((op is LessThan || op is LeftShift) ==> !cast_end(left_str@)) ==> means(s@, bx(op, *left, *right), wi(target_type))
//@entry
proof { ax_lits(); }
//@endfn
//@fn crates/decy-codegen/src/expr_gen/binary_ops.rs: CodeGenerator::gen_expr_binary_signed_unsigned_comparison +optional
//@ret r
ensures frag(*left, *ctx) && frag(*right, *ctx) ==> r is None
//@endfn
//@fn crates/decy-codegen/src/expr_gen/binary_ops.rs: CodeGenerator::gen_expr_binary_arithmetic_target_cast +optional
//@ret r
ensures tt(target_type) ==> r is None
//@endfn
//@fn crates/decy-codegen/src/expr_gen/binary_ops.rs: CodeGenerator::gen_expr_binary_bitwise_bool +optional
//@ret r
ensures (r is Some) == (boo(*left) || boo(*right)), r matches Some(s) ==> forall|op: BinaryOperator| frag(*left, *ctx) && frag(*right, *ctx) && opnd(left_str@, *left) && opnd(right_str@, *right) && #[trigger] bitop(op) && rop(op_str@) == Some(op) ==> means(s@, bx(op, *left, *right), false)
//@entry
proof { ax_lits(); }
//@endfn
//@fn crates/decy-codegen/src/expr_gen/binary_ops.rs: CodeGenerator::gen_expr_binary_op +optional
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@ret r
//@spec
ensures tt(target_type) && c_op(*op) && frag(*left, *ctx) && frag(*right, *ctx) ==> means(r@, bx(*op, *left, *right), wi(target_type))
//@endfn
//@fn crates/decy-codegen/src/expr_gen/mod.rs: CodeGenerator::generate_expression_with_context +optional
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@ret r
//@spec
ensures frag(*expr, *ctx) ==> means(r@, *expr, false), *expr matches HirExpression::IntLiteral(k) ==> r@ == dec(k as int)
//@endfn
//@fn crates/decy-codegen/src/expr_gen/mod.rs: CodeGenerator::generate_expression_with_target_type +optional
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@ret r
//@spec
ensures tt(target_type) && frag(*expr, *ctx) ==> means(r@, *expr, wi(target_type)), target_type is None ==> (*expr matches HirExpression::IntLiteral(k) ==> r@ == dec(k as int))
//@loop collect
true,
//@endfn
// ---------------------------------------------------------------- not in the fragment: text not read
//@fn crates/decy-codegen/src/expr_gen/literals.rs: CodeGenerator::gen_expr_float_literal +external_body
//@endfn
//@fn crates/decy-codegen/src/expr_gen/literals.rs: CodeGenerator::gen_expr_address_of +external_body
//@endfn
//@fn crates/decy-codegen/src/expr_gen/literals.rs: CodeGenerator::gen_expr_unary_address_of +external_body
//@endfn
//@fn crates/decy-codegen/src/expr_gen/literals.rs: CodeGenerator::gen_expr_string_literal +external_body
//@endfn
//@fn crates/decy-codegen/src/expr_gen/literals.rs: CodeGenerator::gen_expr_char_literal +external_body
//@endfn
//@fn crates/decy-codegen/src/expr_gen/calls.rs: CodeGenerator::gen_expr_dereference +external_body
//@endfn
//@fn crates/decy-codegen/src/expr_gen/calls.rs: CodeGenerator::gen_expr_function_call +external_body
//@endfn
//@fn crates/decy-codegen/src/expr_gen/misc.rs: CodeGenerator::gen_expr_pointer_field_access +external_body
//@endfn
//@fn crates/decy-codegen/src/expr_gen/misc.rs: CodeGenerator::gen_expr_array_index +external_body
//@endfn
//@fn crates/decy-codegen/src/expr_gen/misc.rs: CodeGenerator::gen_expr_sizeof +external_body
//@endfn
//@fn crates/decy-codegen/src/expr_gen/misc.rs: CodeGenerator::gen_expr_calloc +external_body
//@endfn
//@fn crates/decy-codegen/src/expr_gen/misc.rs: CodeGenerator::gen_expr_malloc +external_body
//@endfn
//@fn crates/decy-codegen/src/expr_gen/misc.rs: CodeGenerator::gen_expr_realloc +external_body
//@endfn
//@fn crates/decy-codegen/src/expr_gen/misc.rs: CodeGenerator::gen_expr_string_method_call +external_body
//@endfn
//@fn crates/decy-codegen/src/expr_gen/misc.rs: CodeGenerator::gen_expr_compound_literal +external_body
//@endfn
//@fn crates/decy-codegen/src/expr_gen/misc.rs: CodeGenerator::gen_expr_post_increment +external_body
//@endfn
//@fn crates/decy-codegen/src/expr_gen/misc.rs: CodeGenerator::gen_expr_pre_increment +external_body
//@endfn
//@fn crates/decy-codegen/src/expr_gen/misc.rs: CodeGenerator::gen_expr_post_decrement +external_body
//@endfn
//@fn crates/decy-codegen/src/expr_gen/misc.rs: CodeGenerator::gen_expr_pre_decrement +external_body
//@endfn
//@fn crates/decy-codegen/src/lib.rs: CodeGenerator::unsafe_block +external_body
//@endfn
}
fn main(){}
