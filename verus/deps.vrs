use vstd::prelude::*;
verus! {
//@include prelude.vinc
//@include maps.vinc
//@include strings.vinc
// ---------------------------------------------------------------- assumed: files, paths, petgraph
pub uninterp spec fn text_of(p: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn exists_of(p: Seq<char>) -> bool;
pub uninterp spec fn parent_of(p: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn join_of(d: Seq<char>, n: Seq<char>) -> Seq<char>;
pub mod std { pub mod fs { use super::super::*;
  #[verifier::external_body] pub fn read_to_string(p: &str) -> (r: Result<String, VErr>) ensures (r is Ok) == (text_of(p@) is Some), r matches Ok(c) ==> text_of(p@) == Some(c@) { unimplemented!() }
} }
pub trait VPathOps { fn parent(&self) -> Option<&str>; fn v_join(&self, n: &str) -> String; fn exists(&self) -> bool; }
impl VPathOps for str {
  #[verifier::external_body] fn parent(&self) -> (r: Option<&str>) ensures (r is Some) == (parent_of(self@) is Some), r matches Some(d) ==> parent_of(self@) == Some(d@) { unimplemented!() }
  #[verifier::external_body] fn v_join(&self, n: &str) -> (r: String) ensures r@ == join_of(self@, n@) { unimplemented!() }
  #[verifier::external_body] fn exists(&self) -> (r: bool) ensures r == exists_of(self@) { unimplemented!() }
}
pub trait VPathNew { fn new(s: &str) -> &str; }
impl VPathNew for str { fn new(s: &str) -> (r: &str) ensures r@ == s@ { s } }
#[derive(Clone, Copy)] pub struct NodeIndex { pub i: usize }
#[verifier::external_body] #[verifier::accept_recursive_types(N)] #[verifier::accept_recursive_types(E)]
pub struct DiGraph<N, E> { n: Vec<N>, e: Vec<E> }
impl<N, E> DiGraph<N, E> {
  pub uninterp spec fn nodes(&self) -> Seq<N>;
  pub uninterp spec fn edges(&self) -> Set<(int, int)>;
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r.nodes() == Seq::<N>::empty(), r.edges() == Set::<(int, int)>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn node_count(&self) -> (r: usize) ensures r == self.nodes().len() { unimplemented!() }
  #[verifier::external_body] pub fn add_node(&mut self, n: N) -> (r: NodeIndex) ensures r.i == old(self).nodes().len(), final(self).nodes() == old(self).nodes().push(n), final(self).edges() == old(self).edges() { unimplemented!() }
  #[verifier::external_body] pub fn add_edge(&mut self, a: NodeIndex, b: NodeIndex, w: E) requires a.i < old(self).nodes().len(), b.i < old(self).nodes().len() ensures final(self).nodes() == old(self).nodes(), final(self).edges() == old(self).edges().insert((a.i as int, b.i as int)) { unimplemented!() }
  #[verifier::external_body] pub fn update_edge(&mut self, a: NodeIndex, b: NodeIndex, w: E) requires a.i < old(self).nodes().len(), b.i < old(self).nodes().len() ensures final(self).nodes() == old(self).nodes(), final(self).edges() == old(self).edges().insert((a.i as int, b.i as int)) { unimplemented!() }
  #[verifier::external_body] pub fn contains_edge(&self, a: NodeIndex, b: NodeIndex) -> (r: bool) ensures r == self.edges().contains((a.i as int, b.i as int)) { unimplemented!() }
  #[verifier::external_body] pub fn find_edge(&self, a: NodeIndex, b: NodeIndex) -> (r: Option<usize>) ensures (r is Some) == self.edges().contains((a.i as int, b.i as int)) { unimplemented!() }
  #[verifier::external_body] pub fn node_weight(&self, a: NodeIndex) -> (r: Option<&N>) ensures (r is Some) == (a.i < self.nodes().len()), r matches Some(x) ==> *x == self.nodes()[a.i as int] { unimplemented!() }
}
// o lists 0..n once each, tails of edges before heads
pub open spec fn ordered(o: Seq<int>, n: int, e: Set<(int, int)>) -> bool {
  o.len() == n && o.no_duplicates() && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] o[i] < n) && (forall|x: int| 0 <= x < n ==> #[trigger] o.contains(x))
  && forall|i: int, j: int| 0 <= i < n && 0 <= j < n && e.contains((#[trigger] o[i], #[trigger] o[j])) ==> i < j
}
// a directed graph has a cycle iff its nodes cannot be so ordered
pub open spec fn cyclic(n: int, e: Set<(int, int)>) -> bool { !exists|o: Seq<int>| ordered(o, n, e) }
pub mod petgraph { pub mod algo { use super::super::*;
  #[verifier::external_body] pub fn is_cyclic_directed<N, E>(g: &DiGraph<N, E>) -> (r: bool) ensures r == cyclic(g.nodes().len() as int, g.edges()) { unimplemented!() }
  #[verifier::external_body] pub fn toposort<N, E>(g: &DiGraph<N, E>, s: Option<u8>) -> (r: Result<Vec<NodeIndex>, VErr>) ensures (r is Err) == cyclic(g.nodes().len() as int, g.edges()), r matches Ok(v) ==> ordered(ixs(v@), g.nodes().len() as int, g.edges()) { unimplemented!() }
} }
pub open spec fn ixs(v: Seq<NodeIndex>) -> Seq<int> { Seq::new(v.len(), |i: int| v[i].i as int) }
// Topo visits the nodes of an acyclic graph in such an order
pub struct Topo { pub order: Ghost<Seq<int>>, pub pos: Ghost<int> }
impl Topo {
  #[verifier::external_body] pub fn new<N, E>(g: &DiGraph<N, E>) -> (r: Self) ensures r.pos@ == 0, !cyclic(g.nodes().len() as int, g.edges()) ==> ordered(r.order@, g.nodes().len() as int, g.edges()) { unimplemented!() }
  #[verifier::external_body] pub fn next<N, E>(&mut self, g: &DiGraph<N, E>) -> (r: Option<NodeIndex>) ensures final(self).order == old(self).order, (r is Some) == (old(self).pos@ < old(self).order@.len()), r matches Some(x) ==> x.i == old(self).order@[old(self).pos@] && final(self).pos@ == old(self).pos@ + 1 { unimplemented!() }
}
pub trait VRev { fn v_reverse(&mut self); }
impl<T> VRev for Vec<T> { #[verifier::external_body] fn v_reverse(&mut self) ensures final(self)@ == old(self)@.reverse() { unimplemented!() } }
type Result<T, E = VErr> = core::result::Result<T, E>;
//@types crates/decy-core/src/lib.rs: DependencyGraph
// ---------------------------------------------------------------- specification (ghost)
pub open spec fn sp_files(g: DependencyGraph) -> Seq<Seq<char>> { sv(g.graph.nodes()) }
pub open spec fn wf(g: DependencyGraph) -> bool {
  &&& forall|p: Seq<char>| #[trigger] g.path_to_node@.contains_key(p) ==> g.path_to_node@[p].i < g.graph.nodes().len() && g.graph.nodes()[g.path_to_node@[p].i as int]@ == p
  &&& forall|i: int| 0 <= i < g.graph.nodes().len() ==> g.path_to_node@.contains_key(#[trigger] g.graph.nodes()[i]@) && g.path_to_node@[g.graph.nodes()[i]@].i == i
  &&& forall|a: int, b: int| #[trigger] g.graph.edges().contains((a, b)) ==> 0 <= a < g.graph.nodes().len() && 0 <= b < g.graph.nodes().len()
}
pub open spec fn listed(g: DependencyGraph, p: Seq<char>) -> bool { g.path_to_node@.contains_key(p) }
pub open spec fn dep(g: DependencyGraph, a: Seq<char>, b: Seq<char>) -> bool { listed(g, a) && listed(g, b) && g.graph.edges().contains((g.path_to_node@[a].i as int, g.path_to_node@[b].i as int)) }
// every listed file exactly once, and after everything it depends on
pub open spec fn build_order_ok(g: DependencyGraph, v: Seq<String>) -> bool {
  &&& forall|i: int| 0 <= i < v.len() ==> listed(g, (#[trigger] v[i])@)
  &&& forall|p: Seq<char>| #[trigger] listed(g, p) ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == p
  &&& forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && (#[trigger] v[i])@ == (#[trigger] v[j])@ ==> i == j
  &&& forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && dep(g, (#[trigger] v[i])@, (#[trigger] v[j])@) ==> j < i
}
// the circular-dependency error: the files cannot be put into such an order
pub open spec fn orderable(g: DependencyGraph) -> bool { exists|v: Seq<String>| build_order_ok(g, v) }
pub open spec fn visited(g: DependencyGraph, o: Seq<int>, v: Seq<String>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == g.graph.nodes()[o[i]]@ }
pub proof fn lem_order(g: DependencyGraph, o: Seq<int>, w: Seq<String>, v: Seq<String>)
  requires wf(g), ordered(o, g.graph.nodes().len() as int, g.graph.edges()), w.len() == o.len(), visited(g, o, w), v == w.reverse()
  ensures build_order_ok(g, v)
{
  let n = v.len() as int;
  assert forall|i: int| 0 <= i < n implies listed(g, (#[trigger] v[i])@) by { assert(v[i]@ == w[n - 1 - i]@); let x = o[n - 1 - i]; assert(g.path_to_node@.contains_key(g.graph.nodes()[x]@)); }
  assert forall|p: Seq<char>| #[trigger] listed(g, p) implies exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == p by {
    let x = g.path_to_node@[p].i as int; assert(o.contains(x)); let k = choose|k: int| 0 <= k < o.len() && o[k] == x; assert(w[k]@ == p); assert(v[n - 1 - k]@ == p); }
  assert forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && (#[trigger] v[i])@ == (#[trigger] v[j])@ implies i == j by {
    let (x, y) = (o[n - 1 - i], o[n - 1 - j]); assert(v[i]@ == w[n - 1 - i]@ && v[j]@ == w[n - 1 - j]@);
    assert(g.path_to_node@[g.graph.nodes()[x]@].i == x); assert(g.path_to_node@[g.graph.nodes()[y]@].i == y); }
  assert forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && dep(g, (#[trigger] v[i])@, (#[trigger] v[j])@) implies j < i by {
    let (x, y) = (o[n - 1 - i], o[n - 1 - j]); assert(v[i]@ == w[n - 1 - i]@ && v[j]@ == w[n - 1 - j]@);
    assert(g.path_to_node@[g.graph.nodes()[x]@].i == x); assert(g.path_to_node@[g.graph.nodes()[y]@].i == y);
    assert(g.graph.edges().contains((o[n - 1 - i], o[n - 1 - j]))); }
}
pub proof fn lem_orderable(g: DependencyGraph)
  requires wf(g) ensures orderable(g) == !cyclic(g.graph.nodes().len() as int, g.graph.edges())
{
  let n = g.graph.nodes().len() as int; let e = g.graph.edges();
  if orderable(g) {
    let v = choose|v: Seq<String>| build_order_ok(g, v);
    let o = Seq::new(v.len(), |i: int| g.path_to_node@[v[v.len() - 1 - i]@].i as int);
    let m = v.len() as int;
    assert forall|i: int, j: int| 0 <= i < m && 0 <= j < m && #[trigger] o[i] == #[trigger] o[j] implies i == j by { let (a, b) = (v[m - 1 - i], v[m - 1 - j]); assert(listed(g, a@) && listed(g, b@)); assert(a@ == b@); }
    assert(o.no_duplicates());
    assert forall|i: int| 0 <= i < m implies 0 <= #[trigger] o[i] < n by { assert(listed(g, v[m - 1 - i]@)); }
    assert forall|x: int| 0 <= x < n implies #[trigger] o.contains(x) by { let p = g.graph.nodes()[x]@; assert(listed(g, p)); let k = choose|k: int| 0 <= k < m && (#[trigger] v[k])@ == p; assert(o[m - 1 - k] == x); }
    assert(m == n) by { lem_len(o, n); }
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && e.contains((#[trigger] o[i], #[trigger] o[j])) implies i < j by { let (a, b) = (v[m - 1 - i], v[m - 1 - j]); assert(listed(g, a@) && listed(g, b@)); assert(dep(g, a@, b@)); }
    assert(ordered(o, n, e));
  }
  if !cyclic(n, e) {
    let o = choose|o: Seq<int>| ordered(o, n, e);
    let w = Seq::new(n as nat, |i: int| g.graph.nodes()[o[i]]);
    lem_order(g, o, w, w.reverse());
    assert(build_order_ok(g, w.reverse()));
  }
}
// a duplicate-free list of exactly 0..n has n elements
pub proof fn lem_len(o: Seq<int>, n: int)
  requires n >= 0, o.no_duplicates(), forall|i: int| 0 <= i < o.len() ==> 0 <= #[trigger] o[i] < n, forall|x: int| 0 <= x < n ==> #[trigger] o.contains(x)
  ensures o.len() == n
{
  vstd::set_lib::lemma_int_range(0, n);
  o.unique_seq_to_set();
  assert(o.to_set() =~= vstd::set_lib::set_int_range(0, n));
}
// --- what an include directive names
pub open spec fn opens(c: char) -> bool { c == '"' || c == '<' }
pub open spec fn include_name(line: Seq<char>) -> Option<Seq<char>> {
  let t = trim(line);
  if !has_prefix(t, "#include"@) { None } else {
    let k = idx(t, |c: char| opens(c), 0);
    if k >= t.len() { None } else {
      let close = if t[k] == '"' { '"' } else { '>' };
      let e = idx(t, |c: char| c == close, k + 1);
      if e >= t.len() { None } else { Some(t.subrange(k + 1, e)) }
    }
  }
}
pub open spec fn opens_guard(line: Seq<char>) -> bool { has_prefix(trim(line), "#ifndef"@) || has_prefix(trim(line), "#if !defined"@) }
pub open spec fn guarded(ls: Seq<Seq<char>>) -> bool {
  (exists|j: int| 0 <= j < ls.len() && opens_guard(#[trigger] ls[j])) && (exists|j: int| 0 <= j < ls.len() && has_prefix(trim(#[trigger] ls[j]), "#define"@)) && (exists|j: int| 0 <= j < ls.len() && has_prefix(trim(#[trigger] ls[j]), "#endif"@))
}
// the dependencies of a translation: the existing files its #include "..." lines name
pub open spec fn quoted(line: Seq<char>) -> bool { let t = trim(line); t[idx(t, |c: char| opens(c), 0)] == '"' }
pub open spec fn declared(d: Seq<char>, ls: Seq<Seq<char>>, n: int) -> Seq<Seq<char>> decreases n {
  if n <= 0 { Seq::empty() } else { match include_name(ls[n - 1]) { Some(x) => if quoted(ls[n - 1]) && exists_of(join_of(d, x)) { declared(d, ls, n - 1).push(join_of(d, x)) } else { declared(d, ls, n - 1) }, None => declared(d, ls, n - 1) } }
}
pub open spec fn include_names(ls: Seq<Seq<char>>, n: int) -> Seq<Seq<char>> decreases n {
  if n <= 0 { Seq::empty() } else { match include_name(ls[n - 1]) { Some(x) => include_names(ls, n - 1).push(x), None => include_names(ls, n - 1) } }
}
pub open spec fn includes_of(p: Seq<char>) -> Seq<Seq<char>> { let l = lines(text_of(p)->0); include_names(l, l.len() as int) }
pub open spec fn dir_of(p: Seq<char>) -> Seq<char> { match parent_of(p) { Some(d) => d, None => "."@ } }
// file p includes file q (by a path relative to its own directory)
pub open spec fn sp_includes(p: Seq<char>, q: Seq<char>) -> bool { exists|i: int| 0 <= i < includes_of(p).len() && join_of(dir_of(p), #[trigger] includes_of(p)[i]) == q }
pub open spec fn included_by(p: Seq<char>, n: int, q: Seq<char>) -> bool { exists|k: int| 0 <= k < n && join_of(dir_of(p), #[trigger] includes_of(p)[k]) == q }
pub open spec fn among(v: Seq<String>, n: int, p: Seq<char>) -> bool { exists|i: int| 0 <= i < n && (#[trigger] v[i])@ == p }
// ---------------------------------------------------------------- functions under contract
//@fn crates/decy-core/src/lib.rs: DependencyGraph::new
//@ret r
ensures wf(r), sp_files(r) == Seq::<Seq<char>>::empty(), forall|a: Seq<char>| !#[trigger] listed(r, a), forall|a: Seq<char>, b: Seq<char>| !#[trigger] dep(r, a, b)
//@endfn
//@fn crates/decy-core/src/lib.rs: DependencyGraph::is_empty
//@ret r
ensures r == (self.graph.nodes().len() == 0)
//@endfn
//@fn crates/decy-core/src/lib.rs: DependencyGraph::file_count
//@ret r
ensures r == self.graph.nodes().len()
//@endfn
//@fn crates/decy-core/src/lib.rs: DependencyGraph::contains_file
//@ret r
ensures r == listed(*self, path@)
//@endfn
//@fn crates/decy-core/src/lib.rs: DependencyGraph::add_file
requires wf(*old(self))
ensures wf(*final(self)), forall|p: Seq<char>| #[trigger] listed(*final(self), p) == (listed(*old(self), p) || p == path@), forall|a: Seq<char>, b: Seq<char>| #[trigger] dep(*final(self), a, b) == dep(*old(self), a, b)
//@endfn
//@fn crates/decy-core/src/lib.rs: DependencyGraph::add_dependency
requires wf(*old(self)), listed(*old(self), from@), listed(*old(self), to@)
ensures wf(*final(self)), forall|p: Seq<char>| #[trigger] listed(*final(self), p) == listed(*old(self), p), forall|a: Seq<char>, b: Seq<char>| #[trigger] dep(*final(self), a, b) == (dep(*old(self), a, b) || (a == from@ && b == to@))
//@endfn
//@fn crates/decy-core/src/lib.rs: DependencyGraph::has_dependency
//@ret r
requires wf(*self)
ensures r == dep(*self, from@, to@)
//@endfn
//@fn crates/decy-core/src/lib.rs: DependencyGraph::topological_sort
//@ret r
requires wf(*self)
ensures (r is Ok) == orderable(*self), r matches Ok(v) ==> build_order_ok(*self, v@)
//@attrs
#[verifier::allow_complex_invariants]
//@entry
proof { lem_orderable(*self); }
//@loop while
invariant wf(*self), ordered(topo.order@, self.graph.nodes().len() as int, self.graph.edges()), 0 <= topo.pos@ <= topo.order@.len(), build_order@.len() == topo.pos@, visited(*self, topo.order@, build_order@),
ensures topo.pos@ >= topo.order@.len()
decreases topo.order@.len() - topo.pos@
//@loopexit while
proof { lem_order(*self, topo.order@, build_order@, build_order@.reverse()); }
//@endfn
//@fn crates/decy-core/src/lib.rs: DependencyGraph::parse_include_directives
//@ret r
ensures sv(r@) == include_names(lines(code@), lines(code@).len() as int)
//@loop for
rv($src@) == lines(code@), sv(includes@) == include_names(lines(code@), $i as int),
//@loopend for
proof { assert(rv($src@)[$i - 1] == line@); assert(sv(includes@) =~= include_names(lines(code@), $i as int)); }
//@endfn
//@fn crates/decy-core/src/lib.rs: DependencyGraph::from_files
//@ret r
ensures r matches Ok(g) ==> wf(g) && (forall|p: Seq<char>| #[trigger] listed(g, p) == among(files@, files@.len() as int, p))
   && forall|a: Seq<char>, b: Seq<char>| #[trigger] dep(g, a, b) == (listed(g, a) && listed(g, b) && sp_includes(a, b)),
  (r is Ok) == (forall|i: int| 0 <= i < files@.len() ==> text_of((#[trigger] files@[i])@) is Some)
//@loop 0
wf(graph), $src@ == files@, forall|p: Seq<char>| #[trigger] listed(graph, p) == among(files@, $i as int, p), forall|a: Seq<char>, b: Seq<char>| !#[trigger] dep(graph, a, b),
//@loop 1
wf(graph), $src@ == files@, forall|p: Seq<char>| #[trigger] listed(graph, p) == among(files@, files@.len() as int, p),
forall|i: int| 0 <= i < $i ==> text_of((#[trigger] files@[i])@) is Some,
forall|a: Seq<char>, b: Seq<char>| #[trigger] dep(graph, a, b) == (listed(graph, b) && among(files@, $i as int, a) && sp_includes(a, b)),
//@loop 2
wf(graph), forall|p: Seq<char>| #[trigger] listed(graph, p) == among(files@, files@.len() as int, p),
sv($src@) == includes_of(file@),
forall|a: Seq<char>, b: Seq<char>| #[trigger] dep(graph, a, b) == (listed(graph, b) && ((among(files@, __i1 - 1, a) && sp_includes(a, b)) || (a == file@ && included_by(file@, $i as int, b)))),
//@loopend 2
proof { assert(sv($src@)[$i - 1] == include@); assert forall|b: Seq<char>| #[trigger] included_by(file@, $i as int, b) == (included_by(file@, $i - 1, b) || join_of(dir_of(file@), include@) == b) by { assert(includes_of(file@)[$i - 1] == include@); } }
//@endfn
//@fn crates/decy-core/src/lib.rs: extract_dependencies +optional
//@ret r
ensures (r is Ok) == (parent_of(source_path@) is Some), r matches Ok(v) ==> sv(v@) == declared(dir_of(source_path@), lines(c_code@), lines(c_code@).len() as int)
//@loop for
rv($src@) == lines(c_code@), source_dir@ == dir_of(source_path@), sv(dependencies@) == declared(dir_of(source_path@), lines(c_code@), $i as int),
//@loopend for
proof { assert(rv($src@)[$i - 1] == line@); assert(sv(dependencies@) =~= declared(dir_of(source_path@), lines(c_code@), $i as int)); }
//@endfn
//@fn crates/decy-core/src/lib.rs: DependencyGraph::has_header_guard
//@ret r
ensures (r is Ok) == (text_of(path@) is Some), r matches Ok(b) ==> b == guarded(lines(text_of(path@)->0))
//@loop 0
rv($src@) == lines(content@), $found == exists|j: int| 0 <= j < $i && opens_guard(#[trigger] lines(content@)[j]),
//@loopend 0
proof { assert(rv($src@)[$i - 1] == $e@); }
//@loop 1
rv($src@) == lines(content@), $found == exists|j: int| 0 <= j < $i && has_prefix(trim(#[trigger] lines(content@)[j]), "#define"@),
//@loopend 1
proof { assert(rv($src@)[$i - 1] == $e@); }
//@loop 2
rv($src@) == lines(content@), $found == exists|j: int| 0 <= j < $i && has_prefix(trim(#[trigger] lines(content@)[j]), "#endif"@),
//@loopend 2
proof { assert(rv($src@)[$i - 1] == $e@); }
//@endfn
}
fn main(){}
