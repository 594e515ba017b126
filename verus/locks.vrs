use vstd::prelude::*;
verus! {
//@include prelude.vinc
//@include maps.vinc
//@include fmt.vinc
pub mod decy_hir {
use super::*;
//@types crates/decy-hir/src/lib.rs: HirType UnaryOperator BinaryOperator HirCudaQualifier HirParameter HirExpression SwitchCase HirStatement HirFunction
}
use decy_hir::*;
pub mod decy_analyzer { pub mod lock_analysis { pub use super::super::*; } }
//@types crates/decy-analyzer/src/lock_analysis.rs: LockRegion LockDataMapping LockAnalyzer
//@types crates/decy-verify/src/lock_verify.rs: LockDisciplineReport LockDisciplineChecker
pub open spec fn f_body(f: HirFunction) -> Seq<HirStatement> { match f.body { Some(b) => b@, None => Seq::empty() } }
pub open spec fn nm(v: Seq<String>, i: int) -> Seq<char> { v[i]@ }
//@include locks_spec.vinc
// ---------------------------------------------------------------- functions under contract
//@fn crates/decy-hir/src/lib.rs: HirFunction::body
//@ret r
ensures r@ == f_body(*self)
//@endfn
//@fn crates/decy-analyzer/src/lock_analysis.rs: LockAnalyzer::extract_lock_call +optional
//@ret r
ensures (r is Some) == (locks(*stmt) is Some), r matches Some(m) ==> locks(*stmt) == Some(m@)
//@endfn
//@fn crates/decy-analyzer/src/lock_analysis.rs: LockAnalyzer::extract_unlock_call +optional
//@ret r
ensures (r is Some) == (unlocks(*stmt) is Some), r matches Some(m) ==> unlocks(*stmt) == Some(m@)
//@endfn
//@fn crates/decy-analyzer/src/lock_analysis.rs: LockAnalyzer::is_lock_operation
//@ret r
ensures r == lock_op(*stmt)
//@endfn
//@fn crates/decy-analyzer/src/lock_analysis.rs: LockAnalyzer::find_lock_regions_in
//@ret r
ensures regions_upto(body@, r@, body@.len() as int)
//@loop for
$src@ == body@, tracks(body@, $i as int, active_locks@), regions_upto(body@, regions@, $i as int),
//@loopentry for
let ghost __a = active_locks@; let ghost __v = regions@;
//@loopend for
proof { lem_lock_xor($src@[$i - 1]); lem_step(body@, $i - 1, __a, active_locks@); if regions@.len() > __v.len() { assert(regions@.drop_last() =~= __v); } lem_regs(body@, $i - 1, __a, __v, regions@); }
//@endfn
//@fn crates/decy-analyzer/src/lock_analysis.rs: LockAnalyzer::find_lock_regions
//@ret r
ensures regions_upto(f_body(*func), r@, f_body(*func).len() as int)
//@endfn
//@fn crates/decy-analyzer/src/lock_analysis.rs: LockAnalyzer::check_lock_discipline
//@ret r
ensures r@.len() == bad_unlocks(f_body(*func), f_body(*func).len() as int) + left_held(f_body(*func)).len()
//@loop 0
$src@ == f_body(*func), body@ == f_body(*func), tracks(body@, $i as int, active_locks@), violations@.len() == bad_unlocks(body@, $i as int),
//@loopentry 0
let ghost __a = active_locks@;
//@loopend 0
proof { lem_lock_xor($src@[$i - 1]); lem_step(body@, $i - 1, __a, active_locks@); }
//@loopexit 0
proof { assert forall|m: Seq<char>| active_locks@.dom().contains(m) == left_held(f_body(*func)).contains(m) by { lem_held_set(f_body(*func), f_body(*func).len() as int, m); let _ = active_locks@.contains_key(m); } assert(active_locks@.dom() =~= left_held(f_body(*func))); }
//@loop 1
violations@.len() == bad_unlocks(f_body(*func), f_body(*func).len() as int) + $i, $src@.len() == left_held(f_body(*func)).len(),
//@endfn
//@fn crates/decy-analyzer/src/lock_analysis.rs: LockAnalyzer::collect_variables_from_expr +optional
ensures forall|x: Seq<char>| #[trigger] final(accessed)@.contains(x) == (old(accessed)@.contains(x) || uses_e(*expr, x))
decreases expr
//@looppre for
let ghost __b = accessed@;
//@loop for
forall|x: Seq<char>| #[trigger] accessed@.contains(x) == (__b.contains(x) || exists|j: int| 0 <= j < $i && uses_e(#[trigger] $src@[j], x)),
//@endfn
//@fn crates/decy-analyzer/src/lock_analysis.rs: LockAnalyzer::collect_accessed_variables +optional
ensures forall|x: Seq<char>| #[trigger] final(accessed)@.contains(x) == (old(accessed)@.contains(x) || uses_s(*stmt, x))
decreases stmt
//@looppre for
let ghost __b = accessed@; let ghost __s = $src@;
//@loop for
$src@ == __s, forall|x: Seq<char>| #[trigger] accessed@.contains(x) == (__b.contains(x) || exists|j: int| 0 <= j < $i && (#[trigger] $src@[j]).ux(x)),
//@endfn
//@fn crates/decy-analyzer/src/lock_analysis.rs: LockAnalyzer::find_accessed_variables_in_region +optional
//@ret r
requires region.start_index < usize::MAX
ensures forall|x: Seq<char>| #[trigger] r@.contains(x) == (exists|k: int| region.start_index < k < region.end_index && k < body@.len() && !lock_op(#[trigger] body@[k]) && uses_s(body@[k], x))
//@loop range
region.start_index < $i, ($i <= region.end_index || $i == region.start_index + 1), forall|x: Seq<char>| #[trigger] accessed@.contains(x) == (exists|k: int| region.start_index < k < $i && k < body@.len() && !lock_op(#[trigger] body@[k]) && uses_s(body@[k], x)),
//@endfn
//@fn crates/decy-analyzer/src/lock_analysis.rs: LockDataMapping::new
//@ret r
ensures r.lock_to_data@ == Map::<Seq<char>, HashSet<String>>::empty()
//@endfn
//@fn crates/decy-analyzer/src/lock_analysis.rs: LockDataMapping::is_protected_by
//@ret r
ensures r == in_map(*self, lock@, data@)
//@endfn
//@fn crates/decy-analyzer/src/lock_analysis.rs: LockDataMapping::get_protected_data
//@ret r
ensures forall|x: Seq<char>| #[trigger] in_map(*self, lock@, x) == (exists|i: int| 0 <= i < r@.len() && #[trigger] nm(r@, i) == x)
//@loop collect
$out@.len() == $i, forall|j: int| 0 <= j < $i ==> (#[trigger] nm($out@, j)) == $src@[j]@,
//@loopentry collect
let ghost __o = $out@;
//@loopend collect
proof { assert forall|j: int| 0 <= j < $i implies (#[trigger] nm($out@, j)) == $src@[j]@ by { if j < $i - 1 { let _ = nm(__o, j); assert($out@[j] == __o[j]); } } }
//@loopexit collect
proof { assert forall|x: Seq<char>| #[trigger] in_map(*self, lock@, x) implies (exists|i: int| 0 <= i < $out@.len() && #[trigger] nm($out@, i) == x) by { assert(vars@.contains(x)); let i = choose|i: int| 0 <= i < $src@.len() && (#[trigger] $src@[i])@ == x; assert(nm($out@, i) == x); } }
//@endfn
//@fn crates/decy-analyzer/src/lock_analysis.rs: LockDataMapping::get_locks
//@ret r
ensures forall|m: Seq<char>| #[trigger] self.lock_to_data@.contains_key(m) == (exists|i: int| 0 <= i < r@.len() && #[trigger] nm(r@, i) == m)
//@loop collect
$out@.len() == $i, forall|j: int| 0 <= j < $i ==> (#[trigger] nm($out@, j)) == $src@[j]@,
//@loopentry collect
let ghost __o = $out@;
//@loopend collect
proof { assert forall|j: int| 0 <= j < $i implies (#[trigger] nm($out@, j)) == $src@[j]@ by { if j < $i - 1 { let _ = nm(__o, j); assert($out@[j] == __o[j]); } } }
//@loopexit collect
proof { assert forall|m: Seq<char>| #[trigger] self.lock_to_data@.contains_key(m) implies (exists|i: int| 0 <= i < $out@.len() && #[trigger] nm($out@, i) == m) by { let i = choose|i: int| 0 <= i < $src@.len() && (#[trigger] $src@[i])@ == m; assert(nm($out@, i) == m); } }
//@endfn
//@fn crates/decy-analyzer/src/lock_analysis.rs: LockDataMapping::add_protected_data +optional
ensures forall|m: Seq<char>, x: Seq<char>| #[trigger] in_map(*final(self), m, x) == (in_map(*old(self), m, x) || (m == lock@ && x == data@))
//@endfn
//@fn crates/decy-analyzer/src/lock_analysis.rs: LockAnalyzer::analyze_lock_data_mapping
//@ret r
ensures forall|m: Seq<char>, x: Seq<char>| #[trigger] in_map(r, m, x) == protects(f_body(*func), m, x)
//@loop 0
body@ == f_body(*func), regions_upto(body@, $src@, body@.len() as int),
forall|m: Seq<char>, x: Seq<char>| #[trigger] in_map(mapping, m, x) == exists|j: int| 0 <= j < $i && (#[trigger] $src@[j]).lock_name@ == m && protects_in(body@, $src@[j].start_index as int, $src@[j].end_index as int, x),
//@loopexit 0
proof { assert forall|m: Seq<char>, x: Seq<char>| #[trigger] in_map(mapping, m, x) == protects(f_body(*func), m, x) by {
  if protects(body@, m, x) { let (s, e) = choose|s: int, e: int| #[trigger] region(body@, m, s, e) && protects_in(body@, s, e, x); assert(has_reg($src@, m, s, e)); }
} }
//@looppre 1
let ghost __m = mapping;
//@loop 1
$src@.len() >= 0, forall|m: Seq<char>, x: Seq<char>| #[trigger] in_map(mapping, m, x) == (in_map(__m, m, x) || (m == region.lock_name@ && exists|j: int| 0 <= j < $i && (#[trigger] $src@[j])@ == x)),
//@loopexit 1
proof { assert(is_reg(body@, region)); assert forall|x: Seq<char>| protects_in(body@, region.start_index as int, region.end_index as int, x) == exists|j: int| 0 <= j < $src@.len() && (#[trigger] $src@[j])@ == x by {
  let _ = protected_vars@.contains(x);
  if protects_in(body@, region.start_index as int, region.end_index as int, x) { let k = choose|k: int| region.start_index < k < region.end_index && !lock_op(#[trigger] body@[k]) && uses_s(body@[k], x); assert(protected_vars@.contains(x)); let j = choose|j: int| 0 <= j < $src@.len() && (#[trigger] $src@[j]).vk() == x; assert($src@[j]@ == x); }
} }
//@endfn
//@fn crates/decy-verify/src/lock_verify.rs: LockDisciplineChecker::is_inside_any_region +optional
//@ret r
ensures r == reg_has(regions@, idx as int)
//@loop any
$src@ == regions@, $found == exists|j: int| 0 <= j < $i && (#[trigger] regions@[j]).start_index < idx < regions@[j].end_index,
//@endfn
//@fn crates/decy-verify/src/lock_verify.rs: LockDisciplineChecker::collect_vars_from_expr +optional
ensures forall|x: Seq<char>| #[trigger] in_v(final(vars)@, x) == (in_v(old(vars)@, x) || uses_e(*expr, x))
decreases expr
//@entry
broadcast use lv::glv;
//@looppre for
let ghost __b = vars@;
//@loop for
forall|x: Seq<char>| #[trigger] in_v(vars@, x) == (in_v(__b, x) || exists|j: int| 0 <= j < $i && (#[trigger] $src@[j]).ux(x)),
//@endfn
//@fn crates/decy-verify/src/lock_verify.rs: LockDisciplineChecker::collect_accessed_vars +optional
//@ret r
ensures forall|x: Seq<char>| #[trigger] in_v(r@, x) == free_s(*stmt, x)
decreases stmt
//@entry
broadcast use lv::glv;
//@looppre for
let ghost __b = vars@;
//@loop for
forall|x: Seq<char>| #[trigger] in_v(vars@, x) == (in_v(__b, x) || exists|j: int| 0 <= j < $i && (#[trigger] $src@[j]).fx(x)),
//@endfn
//@fn crates/decy-verify/src/lock_verify.rs: LockDisciplineChecker::collect_unlocked_vars +optional
//@ret r
ensures forall|x: Seq<char>| #[trigger] in_v(r@, x) == free_b(block@, x)
decreases block@
//@entry
broadcast use lv::glv;
//@loop for
$src@ == block@, regions_upto(block@, lock_regions@, block@.len() as int), forall|x: Seq<char>| #[trigger] in_v(vars@, x) == exists|j: int| 0 <= j < $i && bare(block@, j) && free_s(#[trigger] block@[j], x),
//@loopend for
proof { lem_inside(block@, lock_regions@, $i - 1); }
//@endfn
//@fn crates/decy-verify/src/lock_verify.rs: LockDisciplineChecker::check_unprotected_access
//@ret r
ensures
  // every access to protected data outside a locked region is reported, with its variable and statement
  forall|k: int, x: Seq<char>| #[trigger] escape(f_body(*func), k, x) ==> reported(r@, x, k),
  // and every report is of such an access
  forall|i: int| 0 <= i < r@.len() ==> deserved(f_body(*func), f_body(*func).len() as int, #[trigger] nm(r@, i)),
  (r@.len() == 0) == (forall|k: int, x: Seq<char>| !#[trigger] escape(f_body(*func), k, x)),
//@attrs
#[verifier::rlimit(80)]
//@exit
proof { if __r@.len() > 0 { let t = nm(__r@, 0); assert(deserved(f_body(*func), f_body(*func).len() as int, t)); } assert forall|k: int, x: Seq<char>| #[trigger] escape(f_body(*func), k, x) implies __r@.len() > 0 by { assert(reported(__r@, x, k)); } }
//@entry
hide(free_s); hide(uses_s); hide(protected); hide(bare); hide(conflicts); hide(left_held); hide(regions_upto); proof { lem_esc_range(f_body(*func)); }
//@loop collect
forall|m: Seq<char>| #[trigger] mapping.lock_to_data@.contains_key(m) == in_v($src@, m), forall|m: Seq<char>, x: Seq<char>| #[trigger] in_map(mapping, m, x) == protects(f_body(*func), m, x),
forall|x: Seq<char>| #[trigger] $out@.contains(x) == exists|j: int| 0 <= j < $i && in_map(mapping, #[trigger] nm($src@, j), x),
//@loopexit collect
proof { assert forall|x: Seq<char>| #[trigger] $out@.contains(x) == protected(f_body(*func), x) by {
  reveal(protected);
  if protected(f_body(*func), x) { let m = choose|m: Seq<char>| #[trigger] protects(f_body(*func), m, x); assert(in_map(mapping, m, x)); assert(in_v($src@, m)); }
  if $out@.contains(x) { let j = choose|j: int| 0 <= j < $src@.len() && in_map(mapping, #[trigger] nm($src@, j), x); assert(protects(f_body(*func), nm($src@, j), x)); }
} }
//@loopend collect
proof { assert forall|x: Seq<char>| #[trigger] $out@.contains(x) == exists|j: int| 0 <= j < $i && in_map(mapping, #[trigger] nm($src@, j), x) by {
  if __p.contains(x) { let j = choose|j: int| 0 <= j < $i - 1 && in_map(mapping, #[trigger] nm($src@, j), x); assert(in_map(mapping, nm($src@, j), x)); }
  let _ = nm($src@, $i - 1); assert(in_v(__src1@, x) == in_map(mapping, nm($src@, $i - 1), x));
  if exists|j: int| 0 <= j < $i && in_map(mapping, #[trigger] nm($src@, j), x) { let j = choose|j: int| 0 <= j < $i && in_map(mapping, #[trigger] nm($src@, j), x); if j < $i - 1 { assert(__p.contains(x)); } }
} }
//@looppre flat
let ghost __p = __out0@; proof { assert forall|x: Seq<char>| in_v($src@, x) == in_map(mapping, nm(__src0@, __i0 - 1), x) by { let _ = in_map(mapping, nm(__src0@, __i0 - 1), x); } }
//@loop flat
forall|x: Seq<char>| #[trigger] __out0@.contains(x) == (__p.contains(x) || exists|j: int| 0 <= j < $i && #[trigger] nm($src@, j) == x),
//@loopentry flat
let ghost __q = __out0@;
//@loopend flat
proof { assert forall|x: Seq<char>| #[trigger] __out0@.contains(x) == (__p.contains(x) || exists|j: int| 0 <= j < $i && #[trigger] nm($src@, j) == x) by {
  assert(nm($src@, $i - 1) == $src@[$i - 1]@); let _ = __q.contains(x);
  if __q.contains(x) && !__p.contains(x) { let j = choose|j: int| 0 <= j < $i - 1 && #[trigger] nm($src@, j) == x; assert(nm($src@, j) == x); }
} }
//@loop 2
$src@ == f_body(*func), body@ == f_body(*func), regions_upto(body@, lock_regions@, body@.len() as int), forall|x: Seq<char>| #[trigger] protected_vars@.contains(x) == protected(body@, x),
forall|k: int, x: Seq<char>| #[trigger] escape(body@, k, x) && k < $i ==> reported(violations@, x, k),
forall|i: int| 0 <= i < violations@.len() ==> deserved(body@, $i as int, #[trigger] nm(violations@, i)),
//@loopentry 2
let ghost __v0 = violations@; proof { lem_inside(body@, lock_regions@, $i - 1); assert(bare(body@, $i - 1) == (!inside(body@, $i - 1) && !lock_op(body@[$i - 1]))) by { reveal(bare); } assert forall|x: Seq<char>| #[trigger] escape(body@, $i - 1, x) == (bare(body@, $i - 1) && free_s(body@[$i - 1], x) && protected(body@, x)) by { lem_escape(body@, $i - 1, x); } }
//@loopend 2
proof {
  assert forall|k: int, x: Seq<char>| #[trigger] escape(body@, k, x) && k < $i implies reported(violations@, x, k) by {
    if k < $i - 1 { assert(reported(__v0, x, k)); lem_grows(__v0, violations@, x, k); } }
  assert forall|i: int| 0 <= i < violations@.len() implies deserved(body@, $i as int, #[trigger] nm(violations@, i)) by {
    if i < __v0.len() { let t = nm(__v0, i); assert(violations@[i] == __v0[i]); assert(deserved(body@, $i - 1, t)); let (k, x) = choose|k: int, x: Seq<char>| 0 <= k < $i - 1 && #[trigger] escape(body@, k, x) && says(t, x, k); assert(escape(body@, k, x)); } }
}
//@loop 3
$src@ == accessed_vars@, body@ == f_body(*func), idx == __i2 - 1, bare(body@, idx as int), grows(__v0, violations@),
forall|x: Seq<char>| #[trigger] in_v(accessed_vars@, x) == free_s(body@[idx as int], x),
forall|j: int| 0 <= j < $i && protected(body@, #[trigger] nm($src@, j)) ==> reported(violations@, nm($src@, j), idx as int),
forall|i: int| __v0.len() <= i < violations@.len() ==> deserved(body@, __i2 as int, #[trigger] nm(violations@, i)),
//@loopexit 3
proof { assert forall|x: Seq<char>| #[trigger] escape(body@, idx as int, x) implies reported(violations@, x, idx as int) by { assert(in_v(accessed_vars@, x)); let j = choose|j: int| 0 <= j < $src@.len() && #[trigger] nm($src@, j) == x; assert(protected(body@, nm($src@, j))); } }
//@loopentry 3
let ghost __w = violations@;
//@loopend 3
proof {
  let j = $i - 1; let x = nm($src@, j);
  assert(in_v(accessed_vars@, x));
  if violations@.len() > __w.len() { let t = violations@.last()@; let n = violations@.len() - 1;
    assert(nm(violations@, n) == t); assert(says(t, x, idx as int)) by { let (p, q, r) = ("Unprotected access to '"@, "' at statement "@, " (outside locked region)"@); assert(t =~= p + x + q + dec(idx as int) + r); lem_says(t, p, x, q, idx as int, r); }
    assert(escape(body@, idx as int, x)); }
  assert(grows(__w, violations@));
  assert forall|q: int| 0 <= q < $i && protected(body@, #[trigger] nm($src@, q)) implies reported(violations@, nm($src@, q), idx as int) by { if q < j { lem_grows(__w, violations@, nm($src@, q), idx as int); } }
  assert forall|i: int| __v0.len() <= i < violations@.len() implies deserved(body@, __i2 as int, #[trigger] nm(violations@, i)) by { if i < __w.len() { assert(violations@[i] == __w[i]); let _ = nm(__w, i); } }
}
//@endfn
//@fn crates/decy-verify/src/lock_verify.rs: LockDisciplineChecker::extract_lock_ordering +optional
//@ret r
ensures snm(r@) == order(f_body(*func))
//@loop for
$src@ == f_body(*func), snm(ordering@) == order_upto(f_body(*func), $i as int),
//@loopend for
proof { assert(snm(ordering@) =~= order_upto(f_body(*func), $i as int)); }
//@endfn
//@fn crates/decy-verify/src/lock_verify.rs: LockDisciplineChecker::detect_ordering_conflict +optional
//@ret r
ensures (r is Some) == conflict(snm(ordering1@), snm(ordering2@))
//@loop 0
forall|a: int, b: int| 0 <= a < $i && a < b < ordering1@.len() ==> !#[trigger] rev(ordering1@, ordering2@, a, b),
//@loop 1
forall|a: int, b: int| 0 <= a < __i0 - 1 && a < b < ordering1@.len() ==> !#[trigger] rev(ordering1@, ordering2@, a, b), i < $i, forall|b: int| i < b < $i ==> !#[trigger] rev(ordering1@, ordering2@, i as int, b),
//@loopend 1
proof { if lock_a@ == lock_b@ { assert(!rev(ordering1@, ordering2@, i as int, j as int)); } }
//@loop rposition
$src@ == ordering2@, last_at(ordering2@, lock_a@, $out, $src@.len() - $i),
//@loop position
$src@ == ordering2@, first_at(ordering2@, lock_b@, $out, $i as int),
//@loopexit position
proof { if lock_a@ != lock_b@ { lem_rev(ordering1@, ordering2@, i as int, j as int, pos_a_in_2, $out); } }
//@entry
proof { lem_conf(ordering1@, ordering2@); }
//@endfn
//@fn crates/decy-verify/src/lock_verify.rs: LockDisciplineChecker::check_deadlock_risk
//@ret r
ensures r@.len() == conflicts(functions@)
//@loop 0
$src@ == functions@, svv(lock_orderings@) == nonempty(functions@, $i as int),
//@loopend 0
proof { assert(svv(lock_orderings@) =~= nonempty(functions@, $i as int)); }
//@loop 1
$i <= lock_orderings@.len(), warnings@.len() == rows(svv(lock_orderings@), $i as int),
//@loop 2
i + 1 <= $i <= lock_orderings@.len(), warnings@.len() == rows(svv(lock_orderings@), i as int) + row(svv(lock_orderings@), i as int, $i as int),
//@endfn
//@fn crates/decy-verify/src/lock_verify.rs: LockDisciplineReport::is_clean
//@ret r
ensures r == (self.unprotected_accesses == 0 && self.lock_violations == 0 && self.deadlock_warnings == 0)
//@endfn
//@fn crates/decy-verify/src/lock_verify.rs: LockDisciplineChecker::check_all
//@ret r
ensures (r.unprotected_accesses == 0) == (forall|k: int, x: Seq<char>| !#[trigger] escape(f_body(*func), k, x)),
  r.lock_violations == bad_unlocks(f_body(*func), f_body(*func).len() as int) + left_held(f_body(*func)).len(),
//@exit
proof { assert forall|k: int, x: Seq<char>| #[trigger] escape(f_body(*func), k, x) implies __r.unprotected_accesses > 0 by { } }
//@endfn
}
fn main(){}
