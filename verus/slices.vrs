use vstd::prelude::*;
verus! {
//@vec calls
//@include prelude.vinc
//@include maps.vinc
pub mod decy_hir {
use super::*;
//@types crates/decy-hir/src/lib.rs: HirType UnaryOperator BinaryOperator HirCudaQualifier HirParameter HirExpression SwitchCase HirStatement HirFunction
}
use decy_hir::*;
pub mod inference {
use super::*;
//@types crates/decy-ownership/src/inference.rs: OwnershipKind OwnershipInference
}
use inference::*;
pub mod dataflow {
use super::*;
//@types crates/decy-ownership/src/dataflow.rs: PointerNode NodeKind DataflowGraph DataflowAnalyzer
}
use dataflow::*;
pub fn v_vec1<T>(a: T) -> (r: Vec<T>) ensures r@ == seq![a] { let mut v = Vec::new(); v.push(a); assert(v@ =~= seq![a]); v }
pub fn v_vec2<T>(a: T, b: T) -> (r: Vec<T>) ensures r@ == seq![a, b] { let mut v = Vec::new(); v.push(a); v.push(b); assert(v@ =~= seq![a, b]); v }
pub fn v_vec3<T>(a: T, b: T, c: T) -> (r: Vec<T>) ensures r@ == seq![a, b, c] { let mut v = Vec::new(); v.push(a); v.push(b); v.push(c); assert(v@ =~= seq![a, b, c]); v }
pub trait VOptIter<T> { fn v_iter(&self) -> Vec<&T>; }
impl<T> VOptIter<T> for Option<T> { fn v_iter(&self) -> (r: Vec<&T>) ensures r@.len() == (if self is Some { 1int } else { 0int }), self matches Some(x) ==> *r@[0] == x { let mut v = Vec::new(); if let Some(x) = self { v.push(x); } v } }
pub open spec fn sm(o: Seq<&HirExpression>, s: Seq<HirExpression>, n: int) -> bool { o.len() == n && forall|j: int| 0 <= j < n ==> *(#[trigger] o[j]) == s[j] }
pub open spec fn sm1(o: Seq<&HirExpression>, f: Box<HirExpression>, s: Seq<HirExpression>, n: int) -> bool { o.len() == n + 1 && *o[0] == *f && forall|j: int| 1 <= j <= n ==> *(#[trigger] o[j]) == s[j - 1] }
pub open spec fn smr(o: Seq<&HirExpression>, s: Seq<&HirExpression>, n: int) -> bool { o.len() == n && forall|j: int| 0 <= j < n ==> *(#[trigger] o[j]) == *s[j] }
pub open spec fn smb(o: Seq<&[HirStatement]>, s: Seq<SwitchCase>, n: int) -> bool { o.len() == n && forall|j: int| 0 <= j < n ==> (#[trigger] o[j])@ == s[j].body@ }
// substring tests and the like only steer the heuristics: nothing is assumed about them
pub trait VStrHas { fn v_contains(&self, p: &str) -> bool; }
impl VStrHas for String { #[verifier::external_body] fn v_contains(&self, p: &str) -> (r: bool) { unimplemented!() } }
pub assume_specification [str::to_lowercase] (x: &str) -> (r: String);
impl<T> HashMap<String, Vec<T>> { #[verifier::external_body] pub fn v_entry_push(&mut self, k: String, x: T) ensures final(self)@ == old(self)@.insert(k@, final(self)@[k@]), final(self)@[k@]@ == (if old(self)@.contains_key(k@) { old(self)@[k@]@ } else { Seq::empty() }).push(x) { unimplemented!() } }
pub mod decy_ownership { pub mod lifetime_gen {
use super::super::*;
//@types crates/decy-ownership/src/lifetime_gen.rs: LifetimeParam AnnotatedSignature AnnotatedParameter AnnotatedType
} }
use decy_ownership::lifetime_gen::*;
pub struct BorrowGenerator { pub x: u8 }
pub struct ArrayParameterTransformer { pub x: u8 }
//@include slices_spec.vinc
// ---------------------------------------------------------------- functions under contract
//@fn crates/decy-ownership/src/dataflow.rs: DataflowGraph::is_variable +optional
//@ret r
ensures r == is_var(*expr, var@)
//@endfn
//@fn crates/decy-ownership/src/dataflow.rs: DataflowGraph::sub_expressions +optional
//@ret r
ensures r@.len() == sub_e(*expr).len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == sub_e(*expr)[i]
//@loop collect
sm($out@, $src@, $i as int),
//@loop for
sm1(expressions@, expr->StringMethodCall_receiver, $src@, $i as int),
//@endfn
//@fn crates/decy-ownership/src/dataflow.rs: DataflowGraph::statement_expressions +optional
//@ret r
ensures r@.len() == stmt_e(*stmt).len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == stmt_e(*stmt)[i]
//@loop collect
smr($out@, $src@, $i as int),
//@endfn
//@fn crates/decy-ownership/src/dataflow.rs: DataflowGraph::statement_blocks +optional
//@ret r
ensures r@.len() == blocks(*stmt).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == blocks(*stmt)[i]
//@loop for
smb(blocks@, $src@, $i as int),
//@endfn
//@fn crates/decy-ownership/src/dataflow.rs: DataflowGraph::expression_reassigns +optional
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@ret r
//@spec
ensures r == hit_e(Q::R, *expr, var@)
//@loop any
$found == pe(Q::R, $src@, $i as int, var@),
//@loopexit any
proof { if $found { let j = choose|j: int| 0 <= j < $i && hit_e(Q::R, *(#[trigger] $src@[j]), var@); assert(hit_e(Q::R, sub_e(*expr)[j], var@)); } else { assert forall|k: int| 0 <= k < sub_e(*expr).len() implies !hit_e(Q::R, #[trigger] sub_e(*expr)[k], var@) by { assert(*($src@[k]) == sub_e(*expr)[k]); } } }
//@endfn
//@fn crates/decy-ownership/src/dataflow.rs: DataflowGraph::statement_reassigns +optional
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@ret r
//@spec
ensures r == hit_s(Q::R, *stmt, var@)
//@entry
proof { lem_reas_s(Q::R, *stmt, var@); }
//@loop 0
$found == pe(Q::R, $src@, $i as int, var@),
//@loopexit 0
proof { if $found { let j = choose|j: int| 0 <= j < $i && hit_e(Q::R, *(#[trigger] $src@[j]), var@); assert(hit_e(Q::R, stmt_e(*stmt)[j], var@)); } else { assert forall|k: int| 0 <= k < stmt_e(*stmt).len() implies !hit_e(Q::R, #[trigger] stmt_e(*stmt)[k], var@) by { assert(*($src@[k]) == stmt_e(*stmt)[k]); } } }
//@loop 1
$found == pb(Q::R, $src@, $i as int, var@),
//@loopexit 1
proof { if $found { let j = choose|j: int| 0 <= j < $i && hit_b(Q::R, (#[trigger] $src@[j])@, var@); assert(hit_b(Q::R, blocks(*stmt)[j], var@)); } else { assert forall|k: int| 0 <= k < blocks(*stmt).len() implies !hit_b(Q::R, #[trigger] blocks(*stmt)[k], var@) by { assert(($src@[k])@ == blocks(*stmt)[k]); } } }
//@loop 2
$found == ps(Q::R, $src@, $i as int, var@),
//@endfn
//@fn crates/decy-ownership/src/dataflow.rs: DataflowGraph::is_reassigned +optional
//@ret r
ensures r == hit_b(Q::R, self.body@, var@)
//@loop any
$found == ps(Q::R, $src@, $i as int, var@),
//@endfn
//@fn crates/decy-ownership/src/borrow_gen.rs: BorrowGenerator::transform_expression_with_length_replacement +optional
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@ret r
//@spec
ensures im_e(Cx::B { m: length_params_to_remove@, inf: inferences@ }, *expr, r)
//@loop collect
ime($src@, $out@, $i as int, Cx::B { m: length_params_to_remove@, inf: inferences@ }),
//@endfn
//@fn crates/decy-ownership/src/borrow_gen.rs: BorrowGenerator::transform_expression_recursive_with_length +optional
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@ret r
//@spec
ensures !(expr matches HirExpression::Variable(x) && length_params_to_remove@.contains_key(x@)) ==> im_e(Cx::B { m: length_params_to_remove@, inf: inferences@ }, *expr, r)
//@loop collect
ime($src@, $out@, $i as int, Cx::B { m: length_params_to_remove@, inf: inferences@ }),
//@endfn
//@fn crates/decy-ownership/src/borrow_gen.rs: BorrowGenerator::transform_statement_with_length_replacement +optional
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@ret r
//@spec
ensures im_s(Cx::B { m: length_params_to_remove@, inf: inferences@ }, *stmt, r)
//@loop collect
imv($src@, $out@, $i as int, Cx::B { m: length_params_to_remove@, inf: inferences@ }),
//@endfn
//@fn crates/decy-ownership/src/array_slice.rs: ArrayParameterTransformer::transform_expression +optional
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@ret r
//@spec
ensures im_e(Cx::A { m: array_param_map@ }, *expr, r)
//@loop for
nolen($src@, $i as int, expr->Variable_0@),
//@loopexit for
proof { assert forall|k: Seq<char>| !#[trigger] lo(Cx::A { m: array_param_map@ }, expr->Variable_0@, k) by { if array_param_map@.contains_key(k) { let i = choose|i: int| 0 <= i < $src@.len() && (#[trigger] $src@[i]).0.vk() == k; } } }
//@loop collect
ime($src@, $out@, $i as int, Cx::A { m: array_param_map@ }),
//@endfn
//@fn crates/decy-ownership/src/array_slice.rs: ArrayParameterTransformer::transform_statement +optional
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@ret r
//@spec
ensures im_s(Cx::A { m: array_param_map@ }, *stmt, r)
//@loop collect
imv($src@, $out@, $i as int, Cx::A { m: array_param_map@ }),
//@endfn
//@fn crates/decy-ownership/src/dataflow.rs: DataflowGraph::is_element +optional
//@ret r
ensures r == is_el(*expr, var@)
//@endfn
//@fn crates/decy-ownership/src/dataflow.rs: DataflowGraph::expression_modifies_var +optional
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@ret r
//@spec
ensures r == hit_e(Q::M, *expr, var@)
//@loop any
$found == pe(Q::M, $src@, $i as int, var@),
//@loopexit any
proof { if $found { let j = choose|j: int| 0 <= j < $i && hit_e(Q::M, *(#[trigger] $src@[j]), var@); assert(hit_e(Q::M, sub_e(*expr)[j], var@)); } else { assert forall|k: int| 0 <= k < sub_e(*expr).len() implies !hit_e(Q::M, #[trigger] sub_e(*expr)[k], var@) by { assert(*($src@[k]) == sub_e(*expr)[k]); } } }
//@endfn
//@fn crates/decy-ownership/src/dataflow.rs: DataflowGraph::statement_modifies_var +optional
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@ret r
//@spec
ensures r == hit_s(Q::M, *stmt, var@)
//@entry
proof { lem_reas_s(Q::M, *stmt, var@); }
//@loop 0
$found == pe(Q::M, $src@, $i as int, var@),
//@loopexit 0
proof { if $found { let j = choose|j: int| 0 <= j < $i && hit_e(Q::M, *(#[trigger] $src@[j]), var@); assert(hit_e(Q::M, stmt_e(*stmt)[j], var@)); } else { assert forall|k: int| 0 <= k < stmt_e(*stmt).len() implies !hit_e(Q::M, #[trigger] stmt_e(*stmt)[k], var@) by { assert(*($src@[k]) == stmt_e(*stmt)[k]); } } }
//@loop 1
$found == pb(Q::M, $src@, $i as int, var@),
//@loopexit 1
proof { if $found { let j = choose|j: int| 0 <= j < $i && hit_b(Q::M, (#[trigger] $src@[j])@, var@); assert(hit_b(Q::M, blocks(*stmt)[j], var@)); } else { assert forall|k: int| 0 <= k < blocks(*stmt).len() implies !hit_b(Q::M, #[trigger] blocks(*stmt)[k], var@) by { assert(($src@[k])@ == blocks(*stmt)[k]); } } }
//@loop 2
$found == ps(Q::M, $src@, $i as int, var@),
//@endfn
//@fn crates/decy-ownership/src/dataflow.rs: DataflowGraph::expression_passes +optional
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@ret r
//@spec
ensures r == hit_e(Q::P, *expr, var@)
//@loop 0
$found == (exists|j: int| 0 <= j < $i && is_var(#[trigger] $src@[j], var@)),
//@loop 1
$found == pe(Q::P, $src@, $i as int, var@),
//@loopexit 1
proof { if $found { let j = choose|j: int| 0 <= j < $i && hit_e(Q::P, *(#[trigger] $src@[j]), var@); assert(hit_e(Q::P, sub_e(*expr)[j], var@)); } else { assert forall|k: int| 0 <= k < sub_e(*expr).len() implies !hit_e(Q::P, #[trigger] sub_e(*expr)[k], var@) by { assert(*($src@[k]) == sub_e(*expr)[k]); } } }
//@endfn
//@fn crates/decy-ownership/src/dataflow.rs: DataflowGraph::statement_passes +optional
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@ret r
//@spec
ensures r == hit_s(Q::P, *stmt, var@)
//@entry
proof { lem_reas_s(Q::P, *stmt, var@); }
//@loop 0
$found == pe(Q::P, $src@, $i as int, var@),
//@loopexit 0
proof { if $found { let j = choose|j: int| 0 <= j < $i && hit_e(Q::P, *(#[trigger] $src@[j]), var@); assert(hit_e(Q::P, stmt_e(*stmt)[j], var@)); } else { assert forall|k: int| 0 <= k < stmt_e(*stmt).len() implies !hit_e(Q::P, #[trigger] stmt_e(*stmt)[k], var@) by { assert(*($src@[k]) == stmt_e(*stmt)[k]); } } }
//@loop 1
$found == pb(Q::P, $src@, $i as int, var@),
//@loopexit 1
proof { if $found { let j = choose|j: int| 0 <= j < $i && hit_b(Q::P, (#[trigger] $src@[j])@, var@); assert(hit_b(Q::P, blocks(*stmt)[j], var@)); } else { assert forall|k: int| 0 <= k < blocks(*stmt).len() implies !hit_b(Q::P, #[trigger] blocks(*stmt)[k], var@) by { assert(($src@[k])@ == blocks(*stmt)[k]); } } }
//@loop 2
$found == ps(Q::P, $src@, $i as int, var@),
//@endfn
//@fn crates/decy-ownership/src/dataflow.rs: DataflowGraph::is_modified
//@ret r
ensures r == hit_b(Q::M, self.body@, var@)
//@loop for
!ps(Q::M, $src@, $i as int, var@),
//@endfn
//@fn crates/decy-ownership/src/dataflow.rs: DataflowGraph::is_mutable_array
//@ret r
ensures r == mut_arr(self.parameters@, self.body@, var@)
//@loop 0
$found == (exists|j: int| 0 <= j < $i && (#[trigger] $src@[j]).name@ == var@ && $src@[j].is_pointee_const),
//@loop 1
$found == ps(Q::P, $src@, $i as int, var@),
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirFunction::name
//@ret r
ensures r@ == self.name@
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirFunction::return_type
//@ret r
ensures *r == self.return_type
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirFunction::parameters
//@ret r
ensures r@ == self.parameters@
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirFunction::body
//@ret r
ensures r@ == f_body(*self)
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirFunction::cuda_qualifier
//@ret r
ensures r == self.cuda_qualifier
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirFunction::set_cuda_qualifier
ensures final(self).cuda_qualifier == qualifier, final(self).name == old(self).name, final(self).return_type == old(self).return_type, final(self).parameters == old(self).parameters, final(self).body == old(self).body
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirFunction::new_with_body
//@ret r
ensures r.name == name, r.return_type == return_type, r.parameters == parameters, r.body == Some(body), r.cuda_qualifier is None
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirParameter::name
//@ret r
ensures r@ == self.name@
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirParameter::param_type
//@ret r
ensures *r == self.param_type
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirParameter::is_pointee_const
//@ret r
ensures r == self.is_pointee_const
//@endfn
//@fn crates/decy-hir/src/lib.rs: HirParameter::with_type
//@ret r
ensures r.name@ == self.name@, r.param_type == new_type, r.is_pointee_const == self.is_pointee_const
//@endfn
//@fn crates/decy-ownership/src/dataflow.rs: DataflowGraph::body
//@ret r
ensures r@ == self.body@
//@endfn
//@fn crates/decy-ownership/src/dataflow.rs: DataflowGraph::has_array_indexing +external_body
//@endfn
//@fn crates/decy-ownership/src/dataflow.rs: DataflowGraph::has_pointer_arithmetic +external_body
//@endfn
//@fn crates/decy-ownership/src/dataflow.rs: DataflowAnalyzer::new
//@endfn
//@fn crates/decy-ownership/src/dataflow.rs: DataflowGraph::new
//@endfn
//@fn crates/decy-ownership/src/dataflow.rs: DataflowAnalyzer::analyze
//@ret r
ensures r.parameters@ == func.parameters@, r.body@ == f_body(*func)
//@loop 0
graph.parameters@ == func.parameters@, graph.body@ == f_body(*func),
//@loop 1
graph.parameters@ == func.parameters@, graph.body@ == f_body(*func),
//@endfn
//@fn crates/decy-ownership/src/dataflow.rs: DataflowAnalyzer::detect_use_after_free
ensures final(_graph).parameters == old(_graph).parameters, final(_graph).body == old(_graph).body
//@endfn
//@fn crates/decy-ownership/src/dataflow.rs: DataflowAnalyzer::track_expression_uses
ensures final(graph).parameters == old(graph).parameters, final(graph).body == old(graph).body
//@endfn
//@fn crates/decy-ownership/src/dataflow.rs: DataflowAnalyzer::track_expr_recursive
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@spec
ensures final(_graph).parameters == old(_graph).parameters, final(_graph).body == old(_graph).body
//@loop for
_graph.parameters == old(_graph).parameters, _graph.body == old(_graph).body,
//@endfn
//@fn crates/decy-ownership/src/dataflow.rs: DataflowAnalyzer::classify_initialization +external_body
//@endfn
//@fn crates/decy-ownership/src/dataflow.rs: DataflowAnalyzer::track_statement
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@spec
ensures final(graph).parameters == old(graph).parameters, final(graph).body == old(graph).body
//@loop for
graph.parameters == old(graph).parameters, graph.body == old(graph).body,
//@endfn
//@fn crates/decy-ownership/src/borrow_gen.rs: BorrowGenerator::is_parameter_mutated
//@ret r
ensures mut_arr(dataflow_graph.parameters@, dataflow_graph.body@, var_name@) ==> r
//@loop any
true,
//@endfn
//@fn crates/decy-ownership/src/borrow_gen.rs: BorrowGenerator::statement_mutates_variable +external_body +optional
//@endfn
//@fn crates/decy-ownership/src/borrow_gen.rs: BorrowGenerator::uses_pointer_arithmetic +external_body
//@endfn
//@fn crates/decy-ownership/src/dataflow.rs: DataflowGraph::is_array_parameter
//@ret r
ensures r == Some(true) ==> exists|i: int| 0 <= i < self.parameters@.len() && (#[trigger] self.parameters@[i]).name@ == var@ && self.parameters@[i].param_type is Pointer
//@loop position
$out is Some ==> 0 <= $out->0 < $i && $src@[$out->0 as int].name@ == var@,
//@endfn
//@fn crates/decy-ownership/src/dataflow.rs: DataflowGraph::get_array_parameters
//@ret r
requires distinct(self.parameters@)
ensures forall|k: int| 0 <= k < r@.len() ==> arr_par(self.parameters@, self.body@, #[trigger] r@[k]), once(r@)
//@loop for
forall|k: int| 0 <= k < result@.len() ==> arr_par(self.parameters@, self.body@, #[trigger] result@[k]), once(result@), seen(self.parameters@, $i as int, result@),
//@loopentry for
let ghost __done = result@;
//@loopend for
proof { if result@.len() > __done.len() { assert(ptr_par(self.parameters@, $i - 1, result@.last().0@)); } }
//@endfn
//@fn crates/decy-ownership/src/borrow_gen.rs: BorrowGenerator::transform_type
//@ret r
ensures r == new_type(*hir_type, variable_name@, inferences@)
//@endfn
//@fn crates/decy-ownership/src/borrow_gen.rs: BorrowGenerator::transform_to_slice_type
//@ret r
ensures slice_type(*hir_type, r, mut_arr(dataflow_graph.parameters@, dataflow_graph.body@, var_name@))
//@endfn
//@fn crates/decy-ownership/src/borrow_gen.rs: BorrowGenerator::transform_parameters_with_array_detection
//@ret r
requires distinct(func.parameters@), dataflow_graph.parameters@ == func.parameters@, dataflow_graph.body@ == f_body(*func)
ensures par(func.parameters@, f_body(*func), inferences@, func.parameters@.len() as int, r.0@, r.1@)
//@loop for
par(func.parameters@, f_body(*func), inferences@, $i + (if skip_next { 1int } else { 0int }), transformed_params@, length_params_to_remove@),
//@entry
broadcast use {lem_keep, lem_drop};
//@loop find
fnd($src@, $i as int, $out, param.name@),
//@endfn
//@fn crates/decy-ownership/src/borrow_gen.rs: BorrowGenerator::transform_function
//@ret r
requires distinct(func.parameters@)
ensures fun_rel(*func, r, inferences@)
//@loop collect
imv($src@, $out@, $i as int, Cx::B { m: length_params_to_remove@, inf: inferences@ }),
//@endfn
//@fn crates/decy-ownership/src/array_slice.rs: ArrayParameterTransformer::uses_pointer_arithmetic +external_body
//@endfn
//@fn crates/decy-ownership/src/array_slice.rs: ArrayParameterTransformer::transform
//@ret r
requires distinct(dataflow.parameters@), distinct(func.parameters@)
ensures r == *func || arr_rel(*func, r, *dataflow)
//@entry
broadcast use lem_keep_a;
//@loop 0
am_ok(array_param_map@, length_params_to_remove@, dataflow.parameters@, dataflow.body@), am_new(array_param_map@, $src@, $i as int),
//@loopentry 0
let ghost __m = array_param_map@; let ghost __ls = length_params_to_remove@;
//@loopend 0
proof { lem_am(__m, __ls, dataflow.parameters@, dataflow.body@, $src@, $i - 1); }
//@loop 1
par_a(*dataflow, $src@, array_param_map@, length_params_to_remove@, $i as int, $out@),
//@loop 2
imv($src@, $out@, $i as int, Cx::A { m: array_param_map@ }),
//@endfn
//@fn crates/decy-core/src/lib.rs: build_slice_func_arg_mappings
//@ret r
requires hir_functions@.len() == transformed_functions@.len()
ensures maps_ok(hir_functions@, transformed_functions@, hir_functions@.len() as int, r@)
//@entry
broadcast use lem_maps;
//@loop 0
maps_ok(hir_functions@, transformed_functions@, $i as int, $out@),
//@loop 1
($i >= 1 || $src@.len() == 0), mappings@ == removed(func.parameters@, transformed.parameters@, $i as int),
//@loop 2
$found == (exists|j: int| 0 <= j < $i && (#[trigger] $src@[j]).name@ == param.name@),
//@endfn
}
fn main(){}
