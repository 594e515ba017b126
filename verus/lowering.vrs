use vstd::prelude::*;
verus! {
//@include prelude.vinc
pub mod decy_parser { pub mod parser {
use super::super::*;
//@types crates/decy-parser/src/ast_types.rs: SwitchCase Statement UnaryOperator BinaryOperator Expression StructField Struct AccessSpecifier CxxOperatorKind Method Class Namespace Type CudaQualifier Parameter Function
//@fn crates/decy-parser/src/ast_types.rs: StructField::name
//@ret r
ensures r@ == self.name@
//@endfn
//@fn crates/decy-parser/src/ast_types.rs: Struct::name
//@ret r
ensures r@ == self.name@
//@endfn
//@fn crates/decy-parser/src/ast_types.rs: Struct::fields
//@ret r
ensures r@ == self.fields@
//@endfn
} }
use decy_parser::parser as ast;
//@types crates/decy-hir/src/lib.rs: HirType HirStructField HirStruct HirCxxOperatorKind HirMethod HirClass HirNamespace UnaryOperator BinaryOperator HirCudaQualifier HirParameter HirExpression SwitchCase HirStatement HirFunction
//@include lowering_spec.vinc
//@fn crates/decy-hir/src/lib.rs: convert_unary_operator +optional
//@ret r
ensures cor_un(op, r)
//@endfn
//@fn crates/decy-hir/src/lib.rs: convert_binary_operator +optional
//@ret r
ensures cor_bin(op, r)
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirType::from_ast_type
//@ret r
ensures cor_t(*ast_type, r)
decreases ast_type
//@loop collect
$out@.len() == $i, forall|j: int| 0 <= j < $i ==> $src@[j].cor(#[trigger] $out@[j]),
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirExpression::from_ast_expression
//@ret r
ensures cor_e(*ast_expr, r)
decreases ast_expr
//@loop collect
$out@.len() == $i, forall|j: int| 0 <= j < $i ==> $src@[j].cor(#[trigger] $out@[j]),
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirStatement::from_ast_statement
//@ret r
ensures cor_s(*ast_stmt, r)
decreases ast_stmt
//@loop collect
$out@.len() == $i, forall|j: int| 0 <= j < $i ==> $src@[j].cor(#[trigger] $out@[j]),
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirParameter::from_ast_parameter
//@ret r
ensures cor_p(*ast_param, r)
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirFunction::from_ast_function
//@ret r
ensures cor_f(*ast_func, r)
//@loop collect
$out@.len() == $i, forall|j: int| 0 <= j < $i ==> $src@[j].cor(#[trigger] $out@[j]),
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirStructField::new
//@ret r
ensures r.name == name, r.field_type == field_type
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirStruct::new
//@ret r
ensures r.name == name, r.fields == fields
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirMethod::new
//@ret r
ensures r.function == function, r.is_const == is_const, r.is_static == is_static, r.is_virtual == is_virtual, r.operator_kind is None
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirClass::from_ast_class
//@ret r
ensures cor_c(*ast_class, r)
//@loop collect
$out@.len() == $i, forall|j: int| 0 <= j < $i ==> $src@[j].cor(#[trigger] $out@[j]),
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirNamespace::from_ast_namespace
//@ret r
ensures cor_n(*ast_ns, r)
decreases ast_ns
//@loop collect
$out@.len() == $i, forall|j: int| 0 <= j < $i ==> $src@[j].cor(#[trigger] $out@[j]),
//@endfn
// ---- what the later stages read back
//@fn crates/decy-hir/src/lib.rs: HirStructField::name
//@ret r
ensures r@ == self.name@
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirStructField::field_type
//@ret r
ensures *r == self.field_type
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirStruct::name
//@ret r
ensures r@ == self.name@
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirStruct::fields
//@ret r
ensures r@ == self.fields@
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirMethod::function
//@ret r
ensures *r == self.function
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirMethod::is_const
//@ret r
ensures r == self.is_const
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirMethod::is_static
//@ret r
ensures r == self.is_static
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirMethod::is_virtual
//@ret r
ensures r == self.is_virtual
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirMethod::operator_kind
//@ret r
ensures r == self.operator_kind
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirClass::name
//@ret r
ensures r@ == self.name@
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirClass::fields
//@ret r
ensures r@ == self.fields@
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirClass::methods
//@ret r
ensures r@ == self.methods@
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirClass::constructor_params
//@ret r
ensures r@ == self.constructor_params@
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirClass::has_destructor
//@ret r
ensures r == self.has_destructor
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirNamespace::name
//@ret r
ensures r@ == self.name@
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirNamespace::functions
//@ret r
ensures r@ == self.functions@
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirNamespace::structs
//@ret r
ensures r@ == self.structs@
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirNamespace::classes
//@ret r
ensures r@ == self.classes@
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirNamespace::namespaces
//@ret r
ensures r@ == self.namespaces@
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirParameter::name
//@ret r
ensures r@ == self.name@
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirParameter::param_type
//@ret r
ensures *r == self.param_type
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirParameter::is_pointee_const
//@ret r
ensures r == self.is_pointee_const
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirFunction::name
//@ret r
ensures r@ == self.name@
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirFunction::return_type
//@ret r
ensures *r == self.return_type
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirFunction::parameters
//@ret r
ensures r@ == self.parameters@
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirFunction::cuda_qualifier
//@ret r
ensures r == self.cuda_qualifier
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirClass::base_class
//@ret r
ensures (match (self.base_class, r) { (Some(x), Some(y)) => x@ == y@, (None, None) => true, _ => false })
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirFunction::body
//@ret r
ensures r@ == (match self.body { Some(b) => b@, None => Seq::empty() })
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirFunction::has_body
//@ret r
ensures r == (self.body is Some)
//@endfn
}
fn main(){}
