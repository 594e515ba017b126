use vstd::prelude::*;
verus! {
// C's integer and character constants as the parser reads them, and characters as the generator writes them.
//@len traits
//@include prelude.vinc
//@include maps.vinc
//@include fmt.vinc
//@include strings.vinc
// ---------------------------------------------------------------- assumed: std
pub mod ls { use super::*;
pub open spec fn dig(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn oct(c: char) -> bool { '0' <= c <= '7' }
pub open spec fn hexd(c: char) -> bool { dig(c) || 'a' <= c <= 'f' || 'A' <= c <= 'F' }
pub open spec fn val(c: char) -> int { if dig(c) { c as int - '0' as int } else if 'a' <= c <= 'f' { c as int - 'a' as int + 10 } else { c as int - 'A' as int + 10 } }
/// the number the first n characters of s write in base b
pub open spec fn num(s: Seq<char>, b: int, n: int) -> int decreases n { if n <= 0 { 0 } else { num(s, b, n - 1) * b + val(s[n - 1]) } }
pub open spec fn digits(s: Seq<char>, b: int) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> hexd(#[trigger] s[i]) && val(s[i]) < b }
/// the value of the one-letter escape \c
pub open spec fn simple(c: char) -> Option<int> {
  if c == 'n' { Some(10int) } else if c == 't' { Some(9int) } else if c == 'r' { Some(13int) } else if c == 'a' { Some(7int) } else if c == 'b' { Some(8int) }
  else if c == 'f' { Some(12int) } else if c == 'v' { Some(11int) } else if c == '\\' { Some(92int) } else if c == '\'' { Some(39int) } else if c == '"' { Some(34int) } else if c == '?' { Some(63int) } else { None } }
pub open spec fn is_oct(s: Seq<char>) -> bool { 2 <= s.len() <= 4 && s[0] == '\\' && forall|i: int| 1 <= i < s.len() ==> oct(#[trigger] s[i]) }
/// what C makes of the character constant 's' (ASCII values only)
pub open spec fn c_char(s: Seq<char>) -> Option<int> {
  if s.len() == 0 { None }
  else if s[0] != '\\' { if s.len() == 1 && s[0] as int <= 127 { Some(s[0] as int) } else { None } }
  else if s.len() == 2 && simple(s[1]) is Some { simple(s[1]) }
  else if 3 <= s.len() <= 4 && s[1] == 'x' && digits(s.skip(2), 16) && num(s.skip(2), 16, s.len() - 2) <= 127 { Some(num(s.skip(2), 16, s.len() - 2)) }
  else if is_oct(s) && num(s.skip(1), 8, s.len() - 1) <= 127 { Some(num(s.skip(1), 8, s.len() - 1)) }
  else { None } }
/// t is a Rust u8 literal of value v
pub open spec fn byte_lit(t: Seq<char>, v: int) -> bool {
  ||| t.len() == 4 && t[0] == 'b' && t[1] == '\'' && t[3] == '\'' && t[2] as int == v && 32 <= v < 127 && t[2] != '\'' && t[2] != '\\'
  ||| t.len() == 5 && t[0] == 'b' && t[1] == '\'' && t[2] == '\\' && t[4] == '\'' && (t[3] == '\'' || t[3] == '\\') && t[3] as int == v
  ||| t =~= dec(v) + seq!['u', '8']
  ||| v == 0 && t =~= seq!['0', 'u', '8'] }
pub proof fn lem_nonneg(s: Seq<char>, b: int, n: int) requires 0 <= n <= s.len(), b > 0, forall|i: int| 0 <= i < n ==> hexd(#[trigger] s[i]) ensures num(s, b, n) >= 0 decreases n
{ if n > 0 { lem_nonneg(s, b, n - 1); assert(num(s, b, n - 1) * b >= 0) by (nonlinear_arith) requires num(s, b, n - 1) >= 0, b > 0; } }
/// s without the characters a, b, c, d at its end
pub open spec fn cut(s: Seq<char>, a: char, b: char, c: char, d: char) -> Seq<char> decreases s.len() { if s.len() > 0 && (s.last() == a || s.last() == b || s.last() == c || s.last() == d) { cut(s.drop_last(), a, b, c, d) } else { s } }
pub broadcast proof fn lem_prefix2(s: Seq<char>, p: Seq<char>) requires p.len() == 2 ensures #[trigger] has_prefix(s, p) == (s.len() >= 2 && s[0] == p[0] && s[1] == p[1])
{ if s.len() >= 2 { let u = s.subrange(0, 2); assert(u[0] == s[0] && u[1] == s[1]); if s[0] == p[0] && s[1] == p[1] { assert(u =~= p); } } }
pub broadcast proof fn lem_prefix1(s: Seq<char>, p: Seq<char>) requires p.len() == 1 ensures #[trigger] has_prefix(s, p) == (s.len() >= 1 && s[0] == p[0])
{ if s.len() >= 1 { let u = s.subrange(0, 1); assert(u[0] == s[0]); if s[0] == p[0] { assert(u =~= p); } } }
pub proof fn lem_skip(s: Seq<char>) requires s.len() >= 2 ensures s.subrange(2, s.len() as int) == s.skip(2) { assert(s.subrange(2, s.len() as int) =~= s.skip(2)); }
pub broadcast proof fn lem_skip2(s: Seq<char>) requires s.len() >= 2 ensures #[trigger] s.subrange(2, s.len() as int) == s.skip(2) { lem_skip(s); }
pub broadcast group gls { lem_prefix1, lem_prefix2, lem_skip2 }
pub open spec fn fits(v: int) -> Option<int> { if v <= i32::MAX { Some(v) } else { None } }
/// what C makes of the integer constant t (int range only)
pub open spec fn c_int(t: Seq<char>) -> Option<int> {
  let d = cut(t, 'u', 'U', 'l', 'L');
  if d.len() >= 2 && d[0] == '0' && (d[1] == 'x' || d[1] == 'X') { if digits(d.skip(2), 16) { fits(num(d.skip(2), 16, d.len() - 2)) } else { None } }
  else if d.len() > 0 && d[0] == '0' { if digits(d, 8) { fits(num(d, 8, d.len() as int)) } else { None } }
  else if digits(d, 10) { fits(num(d, 10, d.len() as int)) } else { None } }
pub open spec fn quoted_by(t: Seq<char>, q: char) -> bool { t.len() >= 2 && t[0] == q && t[t.len() - 1] == q }
}
use ls::*;
pub assume_specification [char::is_ascii_digit] (c: &char) -> (r: bool) ensures r == dig(*c);
pub assume_specification [u8::is_ascii_graphic] (c: &u8) -> (r: bool) ensures r == (33 <= *c <= 126);
/// str::chars kept in a variable: what is left of it is its view
pub struct VCh { pub rest: Vec<char> }
impl VCh {
  pub open spec fn view(&self) -> Seq<char> { self.rest@ }
  #[verifier::external_body] pub fn next(&mut self) -> (r: Option<char>)
    ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1) { unimplemented!() }
  #[verifier::external_body] pub fn take(self, n: usize) -> (r: VCh) ensures r@ == (if n < self@.len() { self@.take(n as int) } else { self@ }) { unimplemented!() }
  #[verifier::external_body] pub fn collect<T>(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
pub trait VChIt { fn v_chars_it(&self) -> VCh; }
impl VChIt for str { #[verifier::external_body] fn v_chars_it(&self) -> (r: VCh) ensures r@ == self@ { unimplemented!() } }
pub trait VSuf { fn v_strip_suffix<P: VLit>(&self, p: P) -> Option<&str>; }
impl VSuf for str { #[verifier::external_body] fn v_strip_suffix<P: VLit>(&self, p: P) -> (r: Option<&str>) ensures (r is Some) == has_suffix(self@, p.lit()), r matches Some(t) ==> t@ == self@.subrange(0, self@.len() - p.lit().len()) { unimplemented!() } }
#[verifier::external_body] pub fn v_i8_radix(s: &String, b: u32) -> (r: Option<i8>) requires 2 <= b <= 36
  ensures b <= 16 && digits(s@, b as int) ==> (r is Some) == (num(s@, b as int, s@.len() as int) <= 127), b <= 16 && digits(s@, b as int) && r is Some ==> r->0 as int == num(s@, b as int, s@.len() as int) { unimplemented!() }
#[verifier::external_body] pub fn v_i32_radix(s: &str, b: u32) -> (r: Option<i32>) requires 2 <= b <= 36
  ensures b <= 16 && digits(s@, b as int) ==> (r is Some) == (num(s@, b as int, s@.len() as int) <= i32::MAX), b <= 16 && digits(s@, b as int) && r is Some ==> r->0 as int == num(s@, b as int, s@.len() as int) { unimplemented!() }
pub trait VTrimEnd { fn v_trim_end_matches(&self, p: [char; 4]) -> &str; }
impl VTrimEnd for str { #[verifier::external_body] fn v_trim_end_matches(&self, p: [char; 4]) -> (r: &str) ensures r@ == cut(self@, p@[0], p@[1], p@[2], p@[3]) { unimplemented!() } }
impl VDisp for u8 { open spec fn disp(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn v_disp(&self, f: &mut String) { unimplemented!() } }
// ---------------------------------------------------------------- functions under contract
//@fn crates/decy-parser/src/extract/expressions.rs: strip_quotes
//@ret r
ensures quoted_by(token@, quote) ==> r@ =~= token@.subrange(1, token@.len() - 1)
//@entry
proof { if quoted_by(token@, quote) { let t = token@; assert(t.subrange(0, 1) =~= seq![quote]); let u = t.subrange(1, t.len() as int); assert(u.subrange(u.len() - 1, u.len() as int) =~= seq![quote]); assert(has_prefix(t, seq![quote])); assert(has_suffix(u, seq![quote])); } }
//@endfn
//@fn crates/decy-parser/src/extract/expressions.rs: parse_char_literal
//@ret r
ensures c_char(s@) is Some ==> r as int == c_char(s@)->0
//@entry
proof { assert(s@.len() >= 2 ==> s@.skip(1).skip(1) =~= s@.skip(2)); assert(s@.len() >= 2 ==> s@.skip(1)[0] == s@[1]); }
//@loop 0
0 <= $i <= 2, is_oct(s@) ==> octal@ =~= s@.subrange(1, if s@.len() < 2 + $i { s@.len() as int } else { 2 + $i }) && chars@ =~= s@.skip(if s@.len() < 2 + $i { s@.len() as int } else { 2 + $i }),
//@loopentry 0
proof { if is_oct(s@) && 1 + ($i as int) < s@.len() { assert(chars@[0] == s@[1 + $i as int]); assert(oct(s@[1 + $i as int])); } }
//@loopexit 0
proof { assert(is_oct(s@) ==> octal@ =~= s@.skip(1)); assert(is_oct(s@) ==> digits(octal@, 8)) by { if is_oct(s@) { assert forall|i: int| 0 <= i < octal@.len() implies hexd(#[trigger] octal@[i]) && val(octal@[i]) < 8 by { assert(oct(s@[i + 1])); } } } }
//@endfn
//@fn crates/decy-parser/src/extract/expressions.rs: parse_int_literal
//@ret r
ensures c_int(token@) is Some ==> r as int == c_int(token@)->0
//@entry
 broadcast use ls::gls;
proof { reveal_strlit("0x"); reveal_strlit("0X"); }
//@endfn
pub struct CodeGenerator { pub x: u8 }
//@fn crates/decy-codegen/src/expr_gen/literals.rs: CodeGenerator::gen_expr_char_literal
//@ret r
ensures c >= 0 ==> byte_lit(r@, c as int)
//@entry
proof { reveal_strlit("0u8"); reveal_strlit("b'\\"); reveal_strlit("b'"); reveal_strlit("'"); reveal_strlit("u8"); }
//@endfn
}
fn main() {}
