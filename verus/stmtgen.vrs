use vstd::prelude::*;
verus! {
//@include prelude.vinc
//@include maps.vinc
//@include fmt.vinc
pub mod decy_hir {
use super::*;
//@types crates/decy-hir/src/lib.rs: HirType UnaryOperator BinaryOperator HirCudaQualifier HirParameter HirExpression SwitchCase HirStatement HirFunction
}
use decy_hir::*;
//@types crates/decy-codegen/src/lib.rs: TypeContext
pub struct CodeGenerator { pub x: u8 }
//@include exprgen_spec.vinc
//@include sem.vinc
//@include sim.vinc
//@include stmtgen_spec.vinc
// ---------------------------------------------------------------- proved in exprgen.vrs
//@fn crates/decy-codegen/src/expr_gen/mod.rs: CodeGenerator::generate_expression_with_context +external_body
//@ret r
ensures frag(*expr, *ctx) ==> means(r@, *expr, false), *expr matches HirExpression::IntLiteral(k) ==> r@ == dec(k as int)
//@endfn
//@fn crates/decy-codegen/src/expr_gen/mod.rs: CodeGenerator::generate_expression_with_target_type +external_body
//@ret r
ensures tt(target_type) && frag(*expr, *ctx) ==> means(r@, *expr, wi(target_type))
//@endfn
//@fn crates/decy-codegen/src/lib.rs: TypeContext::infer_expression_type +external_body
//@ret r
ensures frag(*expr, *self) ==> intish(r)
//@endfn
//@fn crates/decy-codegen/src/lib.rs: escape_rust_keyword +external_body
//@ret r
ensures r@ == esc(name@)
//@endfn
//@fn crates/decy-codegen/src/expr_gen/misc.rs: CodeGenerator::is_boolean_expression +external_body
//@ret r
ensures r == boo(*expr)
//@endfn
//@fn crates/decy-codegen/src/lib.rs: CodeGenerator::map_type +external_body
//@ret r
ensures *hir_type is Int ==> r@ == "i32"@
//@endfn
// ---------------------------------------------------------------- functions under contract
//@fn crates/decy-codegen/src/lib.rs: TypeContext::get_type +optional
//@ret r
ensures (r is Some) == self.variables@.contains_key(name@), r matches Some(t) ==> *t == self.variables@[name@]
//@endfn
//@fn crates/decy-codegen/src/lib.rs: TypeContext::get_renamed_local +optional
//@ret r
ensures (r is Some) == self.renamed_locals@.contains_key(name@), r matches Some(t) ==> *t == self.renamed_locals@[name@]
//@endfn
//@fn crates/decy-codegen/src/lib.rs: TypeContext::is_global +optional
//@ret r
ensures r == self.globals@.contains(name@)
//@endfn
//@fn crates/decy-codegen/src/lib.rs: TypeContext::get_string_iter_index +optional
//@ret r
ensures (r is Some) == self.string_iter_params@.contains_key(name@)
//@endfn
//@fn crates/decy-codegen/src/lib.rs: TypeContext::add_variable +optional
ensures final(self).variables@ == old(self).variables@.insert(name@, var_type), *final(self) == (TypeContext { variables: final(self).variables, ..*old(self) })
//@endfn
//@fn crates/decy-codegen/src/lib.rs: TypeContext::add_renamed_local +optional
ensures *final(self) == (TypeContext { renamed_locals: final(self).renamed_locals, ..*old(self) })
//@endfn
//@fn crates/decy-codegen/src/lib.rs: TypeContext::scope +optional
//@ret r
ensures r.0@ == self.variables@, r.1@ == self.renamed_locals@
//@endfn
//@fn crates/decy-codegen/src/lib.rs: TypeContext::leave_scope +optional
ensures *final(self) == (TypeContext { variables: outer.0, renamed_locals: outer.1, ..*old(self) })
//@endfn
//@fn crates/decy-codegen/src/stmt_gen.rs: CodeGenerator::redeclares +optional
//@ret r
ensures !r ==> fresh(sc(*ctx), stmts@)
//@loop 0
$src@ == stmts@, !$found ==> forall|i: int, n: Nm| 0 <= i < $i && #[trigger] decl(stmts@[i], n) ==> !sc(*ctx).contains(n),
//@endfn
//@fn crates/decy-codegen/src/stmt_gen.rs: CodeGenerator::contains_break +optional
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@ret r
//@spec
ensures !r ==> nobq(stmts@)
//@loop 0
$src@ == stmts@, !$found ==> forall|i: int| 0 <= i < $i ==> nob(#[trigger] stmts@[i]),
//@loopend 0
proof { match stmts@[$i - 1] { HirStatement::If { then_block, else_block, .. } => { lem_nobv(then_block, then_block@.len()); match else_block { Some(b) => lem_nobv(b, b@.len()), None => {} } } _ => {} } }
//@endfn
//@fn crates/decy-codegen/src/stmt_gen.rs: CodeGenerator::contains_continue +optional
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@ret r
//@spec
ensures !r ==> nocq(stmts@)
//@loop 0
$src@ == stmts@, !$found ==> forall|i: int| 0 <= i < $i ==> noc(#[trigger] stmts@[i]),
//@loopend 0
proof { match stmts@[$i - 1] {
  HirStatement::If { then_block, else_block, .. } => { lem_nocv(then_block, then_block@.len()); match else_block { Some(b) => lem_nocv(b, b@.len()), None => {} } }
  HirStatement::Switch { cases, default_case, .. } => { lem_nocc(cases, cases@.len()); match default_case { Some(b) => lem_nocv(b, b@.len()), None => {} } }
  _ => {} } }
//@loop 1
$src@ == cases@, !$found ==> forall|i: int| 0 <= i < $i ==> nocb(#[trigger] cases@[i]),
//@endfn
//@fn crates/decy-codegen/src/stmt_gen.rs: CodeGenerator::until_break +optional
//@ret r
ensures r@ == cutq(body@)
//@loop 0
$src@ == body@, $out is None ==> fb(body@, 0) == fb(body@, $i as int), $out matches Some(k) ==> k < body@.len() && k == fb(body@, 0),
//@exit
proof { lem_fb(body@, 0); assert(body@.take(body@.len() as int) =~= body@); assert(forall|k: int| 0 <= k <= body@.len() ==> body@.take(k) =~= #[trigger] body@.subrange(0, k)); }
//@endfn
//@fn crates/decy-codegen/src/stmt_gen.rs: CodeGenerator::has_inner_break +optional
//@ret r
ensures !r ==> (forall|i: int| 0 <= i < cases@.len() ==> inner(#[trigger] cases@[i])) && (default_case matches Some(b) ==> nobq(cutq(b@)))
//@loop 0
$src@ == cases@, !$found ==> forall|i: int| 0 <= i < $i ==> inner(#[trigger] cases@[i]),
//@endfn
//@fn crates/decy-codegen/src/stmt_gen.rs: CodeGenerator::continues_from_labeled_switch +optional
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@loop any
true,
//@endfn
//@fn crates/decy-codegen/src/stmt_gen.rs: CodeGenerator::generate_malloc_expr_init +external_body
//@endfn
//@fn crates/decy-codegen/src/stmt_gen.rs: CodeGenerator::generate_malloc_funcall_init +external_body
//@endfn
//@fn crates/decy-codegen/src/expr_gen/misc.rs: CodeGenerator::default_value_for_type +optional
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@ret r
//@spec
ensures *hir_type is Int ==> r@ == "0i32"@
//@subst panic! => v_any()
//@endfn
//@fn crates/decy-codegen/src/func_gen.rs: CodeGenerator::is_any_malloc_or_calloc +optional
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@ret r
//@spec
ensures pure(*expr) ==> !r
//@endfn
//@fn crates/decy-codegen/src/expr_gen/misc.rs: CodeGenerator::is_malloc_array_pattern +external_body
//@endfn
//@fn crates/decy-codegen/src/expr_gen/misc.rs: CodeGenerator::get_string_deref_var +optional
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@ret r
//@spec
ensures pure(*expr) ==> r is None
//@endfn
//@fn crates/decy-codegen/src/stmt_gen.rs: CodeGenerator::generate_block +optional
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@ret r
//@spec
ensures cx(*old(ctx)) && mn(function_name, return_type) && spaces(indent@) && fq(stmts@, sc(*old(ctx)), gl(*old(ctx)), wi(return_type)) ==> good_block(r@, stmts@, *old(ctx), *final(ctx))
//@entry
let ghost __ok = cx(*ctx) && mn(function_name, return_type) && spaces(indent@) && fq(stmts@, sc(*ctx), gl(*ctx), wi(return_type));
let ghost __a = *ctx;
let ghost __s = sc(*ctx);
proof { ax_words(); st_nil(__s, jj(__a)); assert(hq(stmts@.take(0)) =~= Seq::<P>::empty()); }
//@loop for
$src@ == stmts@,
__ok ==> kept(__a, *ctx, nxq(stmts@, $i as int, __s)) && whole(code@) && ps(code@)->0.nl && st(hq(stmts@.take($i as int)), rd(code@), __s, nxq(stmts@, $i as int, __s), jj(__a)),
__ok ==> forall|n: Nm| #[trigger] __s.contains(n) && lets(rd(code@), esc(n)) ==> decls(stmts@, n),
//@loopentry for
let ghost __c = code@;
let ghost __n = *ctx;
//@loopend for
proof { broadcast use lem_skip; if __ok { assert(fq1(stmts@, $i - 1, __s, gl(__a), wi(return_type))); lem_block_step(stmts@, $i - 1, __s, jj(__a), rd(__c), rd(code@).skip(rd(__c).len() as int)); } }
//@exit
proof { if __ok { let n = stmts@.len() as int; lem_nxq(stmts@, n, n, __s); assert(stmts@.take(n) =~= stmts@); st_weak(hq(stmts@), rd(__r@), __s, nxq(stmts@, n, __s), __s, jj(__a)); } }
//@endfn
//@fn crates/decy-codegen/src/stmt_gen.rs: CodeGenerator::generate_return_statement +optional
//@ret r
ensures cx(*old(ctx)) && mn(function_name, return_type) && (match expr_opt { Some(e) => wi(return_type) && fe(*e, sc(*old(ctx)), gl(*old(ctx))), None => !wi(return_type) }) ==> good(r@, P::Ret(ohx(expr_opt)), *old(ctx), *final(ctx), sc(*old(ctx)), None)
//@entry
let ghost __a = *ctx;
let ghost __ok = cx(*ctx) && mn(function_name, return_type) && (match expr_opt { Some(e) => wi(return_type) && fe(*e, sc(*ctx), gl(*ctx)), None => !wi(return_type) });
proof { ax_words(); if __ok { match expr_opt { Some(e) => lem_use(*e, *ctx), None => {} } } }
//@exit
proof { if __ok { match rd(__r@)[0] { P::Ret(re) => st_ret(ohx(expr_opt), re, sc(__a), jj(__a)), _ => {} } } }
//@endfn
//@fn crates/decy-codegen/src/stmt_gen.rs: CodeGenerator::generate_if_statement +optional
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@ret r
//@spec
ensures cx(*old(ctx)) && mn(function_name, return_type) && fe(*condition, sc(*old(ctx)), gl(*old(ctx))) && fq(then_block@, sc(*old(ctx)), gl(*old(ctx)), wi(return_type)) && ofq(else_block, sc(*old(ctx)), gl(*old(ctx)), wi(return_type))
  ==> good(r@, P::If(hx(*condition), hq(then_block@), ohq(else_block)), *old(ctx), *final(ctx), sc(*old(ctx)), None)
//@entry
let ghost __a = *ctx;
let ghost __ok = cx(*ctx) && mn(function_name, return_type) && fe(*condition, sc(*ctx), gl(*ctx)) && fq(then_block@, sc(*ctx), gl(*ctx), wi(return_type)) && ofq(else_block, sc(*ctx), gl(*ctx), wi(return_type));
proof { ax_words(); lem_sp(); if __ok { lem_use(*condition, *ctx); } }
//@exit
proof { if __ok { st_nil(sc(__a), jj(__a)); match rd(__r@)[0] { P::If(re, x, y) => st_if(hx(*condition), re, hq(then_block@), x, ohq(else_block), y, sc(__a), sc(__a), sc(__a), jj(__a)), _ => {} } } }
//@endfn
//@fn crates/decy-codegen/src/stmt_gen.rs: CodeGenerator::generate_while_statement +optional
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@ret r
//@spec
ensures cx(*old(ctx)) && mn(function_name, return_type) && fe(*condition, sc(*old(ctx)), gl(*old(ctx))) && fq(body@, sc(*old(ctx)), gl(*old(ctx)), wi(return_type))
  ==> good(r@, P::Loop(None, hx(*condition), hq(body@)), *old(ctx), *final(ctx), sc(*old(ctx)), None)
//@entry
let ghost __a = *ctx;
let ghost __ok = cx(*ctx) && mn(function_name, return_type) && fe(*condition, sc(*ctx), gl(*ctx)) && fq(body@, sc(*ctx), gl(*ctx), wi(return_type));
proof { ax_words(); lem_sp(); lem_jumps(); if __ok { lem_use(*condition, *ctx); } }
//@exit
proof { if __ok { match rd(__r@)[0] { P::Loop(l, re, x) => {
  let ji = (Out::Brk(None::<Nm>), match l { Some(_) => c2(), None => Out::Cont(None) });
  assert forall|o: Out| #[trigger] louts(l, ji, o) by {}
  st_loop(l, hx(*condition), re, hq(body@), x, sc(__a), sc(__a), ji, jj(__a)); } _ => {} } } }
//@endfn
//@fn crates/decy-codegen/src/stmt_gen.rs: CodeGenerator::generate_declaration_statement +optional
//@ret r
ensures cx(*old(ctx)) && *var_type is Int && nm(name@, gl(*old(ctx))) && (initializer matches Some(e) ==> fe(*e, sc(*old(ctx)).remove(name@), gl(*old(ctx))))
  ==> good(r@, P::Let(esc(name@), ohx0(initializer)), *old(ctx), *final(ctx), sc(*old(ctx)).insert(name@), Some(name@))
//@entry
let ghost __a = *ctx;
let ghost __ok = cx(*ctx) && *var_type is Int && nm(name@, gl(*ctx)) && (initializer matches Some(e) ==> fe(*e, sc(*ctx).remove(name@), gl(*ctx)));
proof { ax_words(); if __ok { match initializer { Some(e) => { lem_decl(*e, name@, *ctx); } None => { assert forall|c: Env, r: Env| #[trigger] eqx1(kx(0), rv("0i32"@), sc(*ctx), c, r) by { let _ = val("0i32"@, r); } } } } }
//@exit
proof { if __ok { assert(cx(*ctx)); assert(whole(__r@)); assert(sc(*ctx) =~= sc(__a).insert(name@)); match rd(__r@)[0] { P::Let(n, re) => { st_let(name@, ohx0(initializer), re, sc(__a), jj(__a));
  assert forall|n: Nm| #[trigger] sc(__a).contains(n) && lets(rd(__r@), esc(n)) implies n == name@ by { lem_inj(n, name@); } } _ => {} } } }
//@loop all,collect
true,
//@endfn
//@fn crates/decy-codegen/src/stmt_gen.rs: CodeGenerator::generate_assignment_statement +optional
//@ret r
ensures cx(*old(ctx)) && nm(target@, gl(*old(ctx))) && sc(*old(ctx)).contains(target@) && fe(*value, sc(*old(ctx)), gl(*old(ctx)))
  ==> good(r@, P::Set(esc(target@), hx(*value)), *old(ctx), *final(ctx), sc(*old(ctx)), None)
//@entry
let ghost __a = *ctx;
let ghost __ok = cx(*ctx) && nm(target@, gl(*ctx)) && sc(*ctx).contains(target@) && fe(*value, sc(*ctx), gl(*ctx));
proof { ax_words(); if __ok { lem_use(*value, *ctx); } }
//@exit
proof { if __ok { match rd(__r@)[0] { P::Set(n, re) => st_set(target@, hx(*value), re, sc(__a), jj(__a)), _ => {} } } }
//@endfn
//@fn crates/decy-codegen/src/stmt_gen.rs: CodeGenerator::generate_for_condition +optional
//@ret r
ensures cx(*ctx) && fe(*condition, sc(*ctx), gl(*ctx)) ==> cond(r@) && eqt(hx(*condition), rv(r@), sc(*ctx))
//@entry
proof { if cx(*ctx) && fe(*condition, sc(*ctx), gl(*ctx)) { lem_use(*condition, *ctx); } }
//@endfn
//@fn crates/decy-codegen/src/stmt_gen.rs: CodeGenerator::generate_for_statement +optional
//@attrs
#[verifier::exec_allows_no_decreases_clause] #[verifier::rlimit(60)]
//@ret r
//@spec
ensures cx(*old(ctx)) && mn(function_name, return_type) && for_ok(init@, condition, increment@, body@, sc(*old(ctx)), gl(*old(ctx)), wi(return_type))
  ==> good(r@, for_p(init@, condition, increment@, body@), *old(ctx), *final(ctx), sc(*old(ctx)), None)
//@entry
let ghost __a = *ctx;
let ghost __s = sc(*ctx);
let ghost __si = nxq(init@, init@.len() as int, __s);
let ghost __ok = cx(*ctx) && mn(function_name, return_type) && for_ok(init@, condition, increment@, body@, __s, gl(*ctx), wi(return_type));
let ghost mut __up = Seq::<Fr>::empty(); let ghost mut __op = Op::Top; let ghost mut __qi = Seq::<P>::empty();
let ghost mut __up1 = Seq::<Fr>::empty(); let ghost mut __l = None::<Nm>; let ghost mut __re = kx(1); let ghost mut __b = Seq::<P>::empty(); let ghost mut __k = None::<Out>; let ghost mut __j = (Out::Norm, Out::Norm);
let ghost mut __lr = P::Jump(Out::Norm);
proof { ax_words(); lem_sp(); lem_jumps(); }
//@looppre 0
proof { __up = ps(code@)->0.up; __op = ps(code@)->0.top.op; st_nil(__s, jj(__a)); assert(hq(init@.take(0)) =~= Seq::<P>::empty());
  if __ok { assert(at(ps(code@)->0) && ps(code@)->0.top.done =~= Seq::empty());
    assert(__op is Top ==> __up.len() == 0 && forall|n: Nm| #[trigger] __s.contains(n) ==> !decls(init@, n));
    assert(!(__op is Top) ==> __op == Op::Block(Out::Norm) && __up == Seq::empty().push(k0().top)); } }
//@loop 0
$src@ == init@,
__ok ==> kept(__a, *ctx, nxq(init@, $i as int, __s)) && ps(code@) is Some && at(ps(code@)->0) && ps(code@)->0.up == __up && ps(code@)->0.top.op == __op && st(hq(init@.take($i as int)), ps(code@)->0.top.done, __s, nxq(init@, $i as int, __s), jj(__a)),
__ok ==> forall|n: Nm| #[trigger] __s.contains(n) && lets(ps(code@)->0.top.done, esc(n)) ==> decls(init@, n),
//@loopentry 0
let ghost __c = ps(code@)->0.top.done;
//@loopend 0
proof { broadcast use lem_skip; if __ok { assert(fq1(init@, $i - 1, __s, gl(__a), wi(return_type))); lem_block_step(init@, $i - 1, __s, jj(__a), __c, ps(code@)->0.top.done.skip(__c.len() as int)); } }
//@loopexit 0
proof { __qi = ps(code@)->0.top.done; if __ok { assert(init@.take(init@.len() as int) =~= init@); lem_nxq(init@, init@.len() as int, init@.len() as int, __s); if nocq(body@) { lem_nocq(body@, __si, gl(__a), wi(return_type)); } } }
//@looppre 1
proof { if __ok {
  let done = ps(code@)->0.top.done; let h = hq(body@); let noinc = increment@.len() == 0;
  __up1 = ps(code@)->0.up;
  assert(at(ps(code@)->0) && ps(code@)->0.top.op is While && __up1 == __up.push(Fr { op: __op, done: __qi }));
  __l = ps(code@)->0.top.op->While_0; __re = ps(code@)->0.top.op->While_1;
  assert(eqt(for_cond(condition), __re, __si));
  assert((any_turn(h, done, __si, __l, None, noinc) && (!noinc ==> forall|n: Nm| #[trigger] __si.contains(n) ==> !lets(done, esc(n)))) || (done.len() == 1 && done[0] is Block && any_turn(h, done[0]->Block_1, __si, __l, Some(done[0]->Block_0), noinc)));
  if any_turn(h, done, __si, __l, None, noinc) && (!noinc ==> forall|n: Nm| #[trigger] __si.contains(n) ==> !lets(done, esc(n))) { __k = None; __b = done; } else { __k = Some(done[0]->Block_0); __b = done[0]->Block_1; }
  __j = choose|j: (Out, Out)| turn_ok(h, __b, __si, __l, __k, j, noinc);
  assert(turn_ok(h, __b, __si, __l, __k, __j, noinc));
  assert(in_block(__b, __k) =~= done);
  st_nil(__si, jj(__a)); assert(hq(increment@.take(0)) =~= Seq::<P>::empty()); assert(in_block(__b, __k) + Seq::<P>::empty() =~= done);
  assert(done.skip(done.len() as int) =~= Seq::<P>::empty());
} }
//@loop 1
$src@ == increment@,
__ok ==> kept(__a, *ctx, __si) && ps(code@) is Some && at(ps(code@)->0) && ps(code@)->0.up == __up1 && ps(code@)->0.top.op == Op::While(__l, __re)
  && ps(code@)->0.top.done == in_block(__b, __k) + ps(code@)->0.top.done.skip(in_block(__b, __k).len() as int)
  && st(hq(increment@.take($i as int)), ps(code@)->0.top.done.skip(in_block(__b, __k).len() as int), __si, __si, jj(__a)) && ($i == 0 ==> ps(code@)->0.top.done.skip(in_block(__b, __k).len() as int).len() == 0),
//@loopentry 1
let ghost __c = ps(code@)->0.top.done;
//@loopend 1
proof { broadcast use lem_skip; if __ok {
  let n = in_block(__b, __k).len() as int; let d = ps(code@)->0.top.done;
  lem_nx_simple(increment@, $i - 1, __si); lem_nx_simple(increment@, $i as int, __si);
  assert(simple1(increment@[$i - 1], false)); assert(fq1(increment@, $i - 1, __si, gl(__a), wi(return_type)));
  lem_inc(increment@, $i - 1, __si, jj(__a), __c.skip(n), d.skip(__c.len() as int));
  assert(d.skip(n) =~= __c.skip(n) + d.skip(__c.len() as int)); assert(d =~= in_block(__b, __k) + d.skip(n)); } }
//@loopexit 1
proof { if __ok {
  assert(increment@.take(increment@.len() as int) =~= increment@);
  let bi = ps(code@)->0.top.done.skip(in_block(__b, __k).len() as int);
  lem_nev_simple(increment@, Out::Brk(None)); lem_nev_simple(increment@, Out::Cont(None));
  st_turn(for_cond(condition), __re, hq(body@), __b, __si, __l, __k, __j, hq(increment@), bi, jj(__a));
  __lr = P::Loop(__l, __re, in_block(__b, __k) + bi);
  let lc = P::Loop(None, for_cond(condition), turn(hq(body@), hq(increment@)));
  st_for(hq(init@), __qi, lc, __lr, __s, __si, jj(__a), !(__op is Top));
} }
//@exit
proof { if __ok { assert(__qi.push(__lr) =~= __qi + one(__lr)); assert(rd(__r@) =~= (if !(__op is Top) { one(P::Block(Out::Norm, __qi + one(__lr))) } else { __qi + one(__lr) })); } }
//@endfn
//@fn crates/decy-codegen/src/stmt_gen.rs: CodeGenerator::generate_switch_statement +optional
//@attrs
#[verifier::exec_allows_no_decreases_clause] #[verifier::rlimit(60)]
//@ret r
//@spec
ensures cx(*old(ctx)) && mn(function_name, return_type) && switch_ok(*condition, cases@, default_case, sc(*old(ctx)), gl(*old(ctx)), wi(return_type))
  ==> good(r@, switch_p(*condition, cases@, default_case), *old(ctx), *final(ctx), sc(*old(ctx)), None)
//@entry
let ghost __a = *ctx;
let ghost __s = sc(*ctx);
let ghost __ok = cx(*ctx) && mn(function_name, return_type) && switch_ok(*condition, cases@, default_case, __s, gl(*ctx), wi(return_type));
let ghost mut __up = Seq::<Fr>::empty(); let ghost mut __re = kx(1); let ghost mut __lab = false; let ghost mut __bs = Seq::<Seq<P>>::empty();
let ghost __fd = match default_case { Some(b) => b@, None => Seq::empty() };
proof { ax_words(); lem_sp(); lem_jumps(); if __ok { lem_use_any(*condition, *ctx); } }
//@looppre 0
proof { if __ok {
  __up = ps(code@)->0.up; __re = ps(code@)->0.top.op->Match_0; __lab = lv(ctx.break_label) is Some;
  assert(ps(code@) is Some && ps(code@)->0.top.op is Match);
  assert(eqx(hx(*condition), __re, __s));
  assert(__up == (if __lab { Seq::empty().push(k0().top).push(fr(Op::Block(sw()))) } else { Seq::empty().push(k0().top) }));
  assert(vals(cases@.take(0)) =~= Seq::empty());
} }
//@loop 0
$src@ == cases@,
__ok ==> kept(TypeContext { break_label: ctx.break_label, ..__a }, *ctx, __s) && lv(ctx.break_label) == (if __lab { Some("'switch"@) } else { None }),
__ok ==> ps(code@) is Some && ps(code@)->0.nl && ps(code@)->0.label is None && ps(code@)->0.up == __up && ps(code@)->0.top == fr(Op::Match(__re, vals(cases@.take($i as int)), ps(code@)->0.top.op->Match_2)),
__ok ==> ps(code@)->0.top.op->Match_2.len() == $i && forall|k: int| 0 <= k < $i ==> #[trigger] cut_arm(fullq(cases@), partq(cases@), ps(code@)->0.top.op->Match_2, __s, jj(__a), __lab, k),
//@loopentry 0
let ghost __c = ps(code@)->0.top.op->Match_2;
proof { if __ok { assert(case_ok(cases@[$i - 1], __s, gl(__a), wi(return_type))); lem_cutq(cases@[$i - 1].body@); lem_fb(cases@[$i - 1].body@, 0); lem_fq_take(cases@[$i - 1].body@, fb(cases@[$i - 1].body@, 0), __s, gl(__a), wi(return_type)); } }
//@loopend 0
proof { if __ok {
  let i = $i - 1; let b = ps(code@)->0.top.op->Match_2;
  assert(vals(cases@.take($i as int)) =~= vals(cases@.take(i)).push(case_val(cases@[i])));
  assert(b =~= __c.push(b[i]));
  assert(inner(cases@[i]) || __lab);
  if nobq(cutq(cases@[i].body@)) { lem_nobq(cutq(cases@[i].body@), __s, gl(__a), wi(return_type)); }
  assert forall|k: int| 0 <= k < $i implies #[trigger] cut_arm(fullq(cases@), partq(cases@), b, __s, jj(__a), __lab, k) by { if k < i { assert(cut_arm(fullq(cases@), partq(cases@), __c, __s, jj(__a), __lab, k)); } }
} }
//@loopexit 0
proof { if __ok { __bs = ps(code@)->0.top.op->Match_2; assert(cases@.take(cases@.len() as int) =~= cases@);
  lem_cutq(__fd); lem_fb(__fd, 0); lem_fq_take(__fd, fb(__fd, 0), __s, gl(__a), wi(return_type)); if nobq(cutq(__fd)) { lem_nobq(cutq(__fd), __s, gl(__a), wi(return_type)); }
  if __fd.len() == 0 { assert(hq(cutq(__fd)) =~= Seq::<P>::empty()); st_nil(__s, (if __lab { sw() } else { Out::Brk(None) }, jj(__a).1)); } } }
//@exit
proof { if __ok {
  let p = if __lab { rd(__r@)[0]->Block_1[0] } else { rd(__r@)[0] };
  let q = p->Sel_3;
  assert(p == P::Sel(__re, vals(cases@), __bs, q));
  assert(rd(__r@) =~= (if __lab { one(P::Block(sw(), one(p))) } else { one(p) }));
  assert(cut_arm(seq![__fd], seq![cutq(__fd)], seq![q], __s, jj(__a), __lab, 0));
  assert(ohq(default_case) =~= hq(__fd));
  st_switch(hx(*condition), __re, vals(cases@), fullq(cases@), partq(cases@), __bs, __fd, cutq(__fd), q, __s, jj(__a), __lab);
} }
//@endfn
//@fn crates/decy-codegen/src/stmt_gen.rs: CodeGenerator::generate_statement_with_context +optional
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@ret r
//@spec
ensures cx(*old(ctx)) && mn(function_name, return_type) && fs(*stmt, sc(*old(ctx)), gl(*old(ctx)), wi(return_type)) ==> good(r@, hs(*stmt), *old(ctx), *final(ctx), nx(*stmt, sc(*old(ctx))), dn(*stmt))
//@entry
let ghost __a = *ctx;
let ghost __ok = cx(*ctx) && mn(function_name, return_type) && fs(*stmt, sc(*ctx), gl(*ctx), wi(return_type));
proof { ax_words(); lem_jumps(); if __ok { lem_parts(*stmt, sc(*ctx), gl(*ctx), wi(return_type)); } }
//@exit
proof { if __ok { match *stmt { HirStatement::Break => st_jump(Out::Brk(None), sc(__a), jj(__a)), HirStatement::Continue => st_jump(Out::Cont(None), sc(__a), jj(__a)), _ => {} } } }
//@endfn
//@fn crates/decy-codegen/src/stmt_gen.rs: CodeGenerator::generate_deref_assignment_statement +external_body
//@endfn
//@fn crates/decy-codegen/src/stmt_gen.rs: CodeGenerator::generate_array_index_assignment_statement +external_body
//@endfn
//@fn crates/decy-codegen/src/stmt_gen.rs: CodeGenerator::generate_field_assignment_statement +external_body
//@endfn
} fn main() {}
