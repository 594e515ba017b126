use vstd::prelude::*;
verus! {
//@len traits
//@include prelude.vinc
//@include maps.vinc
//@include fmt.vinc
//@include strings.vinc
pub mod decy_hir {
use super::*;
//@types crates/decy-hir/src/lib.rs: HirType UnaryOperator BinaryOperator HirCudaQualifier HirParameter HirExpression SwitchCase HirStatement HirFunction
}
use decy_hir::*;
//@types crates/decy-codegen/src/lib.rs: TypeContext
pub struct CodeGenerator { pub x: u8 }
//@include printf_spec.vinc
// ---------------------------------------------------------------- functions under contract
//@fn crates/decy-codegen/src/expr_gen/misc.rs: CodeGenerator::convert_format_specifiers
//@attrs
#[verifier::rlimit(200)]
//@ret r
//@spec
ensures c_ok(input@, 0) ==> agrees(input@, r@)
//@entry
 hide(pf::rd); hide(pf::c_ok); hide(pf::items); hide(pf::agrees); hide(pf::tlen); hide(pf::tok);
 broadcast use pl::gconv;
let ghost mut g: int = 0;
let ghost mut cc: CConv = conv(input@, 0);
proof { lem_lits(); lem_good0(input@); }
//@loop collect
$out@ == $src@.subrange(0, $i as int)
//@looppre 1
proof { assert(chars@ =~= input@); }
//@loop 1
invariant i <= chars@.len(), chars@ == input@, good(chars@, i as int, result@),
decreases chars@.len() - i
//@loopentry 1
proof { g = i as int; lem_ends(chars@, g); }
//@loop 2
invariant g + 1 <= i <= chars@.len(), run(chars@, 0, g + 1) == run(chars@, 0, i as int), left_align == within(chars@, g + 1, i as int, '-'), zero_pad == within(chars@, g + 1, i as int, '0'),
decreases chars@.len() - i
//@loopexit 2
proof { assert(run(chars@, 0, i as int) == i); assert(f_end(chars@, g) == i); cc = conv(chars@, g); assert(cc.left == left_align); assert(cc.zero == zero_pad); }
//@loop 3
invariant f_end(chars@, g) <= i <= chars@.len(), w_end(chars@, g) == run(chars@, 1, i as int), width@ == chars@.subrange(f_end(chars@, g), i as int),
decreases chars@.len() - i
//@loopexit 3
proof { assert(w_end(chars@, g) == i); assert(cc.width == width@); assert(pl::digs(width@)); assert(width@.len() > 0 ==> width@[0] != '0'); }
//@loop 4
invariant w_end(chars@, g) + 1 <= i <= chars@.len(), p_end(chars@, g) == run(chars@, 1, i as int), precision@ == chars@.subrange(w_end(chars@, g) + 1, i as int),
decreases chars@.len() - i
//@loopexit 4
proof { assert(p_end(chars@, g) == i); assert(dot(chars@, g)); assert(cc.prec == Some(precision@)); assert(pl::digs(precision@)); }
//@looppre 5
proof { assert(p_end(chars@, g) == i); assert(cc.prec == (if dot(chars@, g) { Some(precision@) } else { None })); assert(!dot(chars@, g) ==> precision@.len() == 0); }
//@loop 5
invariant p_end(chars@, g) <= i <= chars@.len(), m_end(chars@, g) == run(chars@, 2, i as int),
decreases chars@.len() - i
//@loopexit 5
proof { assert(m_end(chars@, g) == i); assert(i < chars@.len() ==> cc.spec == chars@[i as int]); }
//@endfn
//@fn crates/decy-codegen/src/expr_gen/misc.rs: CodeGenerator::convert_c_format_to_rust
//@ret r
ensures quoted(c_fmt@) && c_ok(inner(c_fmt@), 0) ==> quoted(r@) && agrees(inner(c_fmt@), inner(r@))
//@entry
proof { ax_trim(c_fmt@); lem_quotes(trim(c_fmt@)); }
//@endfn
//@fn crates/decy-codegen/src/expr_gen/misc.rs: CodeGenerator::find_string_format_positions +optional
//@ret r
ensures quoted(fmt@) && c_ok(inner(fmt@), 0) ==> which(inner(fmt@), r@, 's')
//@endfn
//@fn crates/decy-codegen/src/expr_gen/misc.rs: CodeGenerator::find_format_positions
//@ret r
ensures quoted(fmt@) && c_ok(inner(fmt@), 0) ==> which(inner(fmt@), r@, wanted)
//@entry
 hide(pf::c_ok); hide(pf::specs); hide(pf::which); broadcast use pl::gpos;
let ghost mut g: int = 0;
proof { ax_trim(fmt@); lem_quotes(trim(fmt@)); }
//@loop collect
$out@ == $src@.subrange(0, $i as int)
//@looppre 1
proof { assert(chars@ =~= inner@); lem_pos0(chars@, wanted); }
//@loop 1
invariant i <= chars@.len(), arg_index <= i, pgood(chars@, i as int, arg_index as int, positions@, wanted),
decreases chars@.len() - i
//@loopentry 1
proof { g = i as int; }
//@loop 2
invariant g + 1 <= j <= chars@.len(), run(chars@, 3, g + 1) == run(chars@, 3, j as int),
decreases chars@.len() - j
//@loopexit 2
proof { assert(run(chars@, 3, g + 1) == j); }
//@loopexit 3
proof { assert(run(chars@, 2, run(chars@, 3, g + 1)) == j); }
//@loop 3
invariant g + 1 <= j <= chars@.len(), run(chars@, 2, run(chars@, 3, g + 1)) == run(chars@, 2, j as int),
decreases chars@.len() - j
//@endfn
//@fn crates/decy-codegen/src/expr_gen/mod.rs: CodeGenerator::generate_expression_with_context +external_body
//@ret r
ensures r@ == text(*expr, *ctx)
//@endfn
//@fn crates/decy-codegen/src/expr_gen/mod.rs: CodeGenerator::generate_expression_with_target_type +external_body
//@ret r
ensures target_type matches Some(t) ==> r@ == text_as(*expr, *ctx, *t), target_type is None ==> r@ == text(*expr, *ctx)
//@endfn
//@fn crates/decy-codegen/src/lib.rs: TypeContext::infer_expression_type +external_body
//@ret r
ensures r == ty(*expr, *self)
//@endfn
//@fn crates/decy-codegen/src/expr_gen/misc.rs: CodeGenerator::is_boolean_expression +optional
//@ret r
ensures r == boo(*expr)
//@endfn
//@fn crates/decy-codegen/src/expr_gen/misc.rs: CodeGenerator::wrap_with_cstr +external_body
//@endfn
//@fn crates/decy-codegen/src/expr_gen/misc.rs: CodeGenerator::wrap_raw_ptr_with_cstr +external_body
//@endfn
//@fn crates/decy-codegen/src/expr_gen/misc.rs: CodeGenerator::is_string_ternary +optional
//@ret r
ensures r == stern(*expr)
//@endfn
//@fn crates/decy-codegen/src/expr_gen/calls.rs: CodeGenerator::gen_call_printf
//@ret r
ensures call_ok(r@, arguments@, *ctx)
//@entry
 broadcast use pc::gcall;
let ghost s = inner(text(arguments@[0], *ctx));
//@loop collect
$src@ == arguments@.subrange(1, arguments@.len() as int), codes_to(s, arguments@, *ctx, $out@, $i as int)
//@loopentry collect
let ghost out0 = $out@;
proof { assert($src@[$i - 1] == arguments@[$i as int]); assert(*$e == arguments@[$i as int]); }
//@loopend collect
proof { lem_codes(s, arguments@, *ctx, out0, $out@, $i - 1); }
//@endfn
//@fn crates/decy-codegen/src/expr_gen/literals.rs: CodeGenerator::convert_string_escapes
//@ret r
ensures same_str(s@, r@)
//@entry
 broadcast use es::ges;
proof { lem_s0(s@); }
//@loop collect
$out@ == $src@.subrange(0, $i as int)
//@looppre 1
proof { assert(chars@ =~= s@); }
//@loop 1
invariant i <= chars@.len(), chars@ == s@, sgood(chars@, i as int, result@),
decreases chars@.len() - i
//@loopentry 1
proof { ax_vec_len(&chars); }
//@loop 2
invariant i + 1 <= end <= i + 4, end <= chars@.len(), value == o_val(chars@, i + 1, end as int), forall|x: int| i + 1 <= x < end ==> oct(#[trigger] chars@[x]), end - i <= 1 ==> value == 0, end - i <= 2 ==> value < 8, end - i <= 3 ==> value < 64, value < 512,
decreases chars@.len() - end
//@endfn
//@fn crates/decy-codegen/src/expr_gen/literals.rs: CodeGenerator::gen_expr_string_literal
//@ret r
ensures target_type is None ==> quoted(r@) && same_str(s@, inner(r@))
//@endfn
}
fn main() {}
