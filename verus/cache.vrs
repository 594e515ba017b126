use vstd::prelude::*;
verus! {
//@include prelude.vinc
//@include maps.vinc
// ---------------------------------------------------------------- assumed: file system and SHA-256
// disk(p): contents of the readable file p at the time of the call (stable during one call)
pub type Disk = spec_fn(Seq<char>) -> Option<Seq<u8>>;
pub uninterp spec fn disk_now() -> Disk;
pub open spec fn disk(p: Seq<char>) -> Option<Seq<u8>> { disk_now()(p) }
pub uninterp spec fn sha256(c: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn hex(b: Seq<u8>) -> Seq<char>;
pub open spec fn digest(c: Seq<u8>) -> Seq<char> { hex(sha256(c)) }
pub open spec fn at(d: Disk, p: Seq<char>) -> Option<Seq<char>> { match d(p) { Some(c) => Some(digest(c)), None => None } }
pub open spec fn now(p: Seq<char>) -> Option<Seq<char>> { at(disk_now(), p) }
pub mod std { pub mod fs { use super::super::*;
  #[verifier::external_body] pub fn read(p: &str) -> (r: Result<Vec<u8>, VErr>) ensures (r is Ok) == (disk(p@) is Some), r matches Ok(c) ==> disk(p@) == Some(c@) { unimplemented!() }
} }
pub mod sha2 { use super::*;
  pub trait Digest {}
  pub struct Sha256 { pub d: Vec<u8> }
  pub struct Out { pub d: Ghost<Seq<u8>> }
  impl Sha256 {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.d@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn update(&mut self, c: &[u8]) ensures final(self).d@ == old(self).d@ + c@ { unimplemented!() }
    #[verifier::external_body] pub fn finalize(self) -> (r: Out) ensures r.d@ == sha256(self.d@) { unimplemented!() }
    #[verifier::external_body] pub fn digest(c: &[u8]) -> (r: Out) ensures r.d@ == sha256(c@) { unimplemented!() }
  }
  impl Out { #[verifier::external_body] pub fn v_hex(&self, f: &mut String) ensures final(f)@ == old(f)@ + hex(self.d@) { unimplemented!() } }
}
type Result<T, E = VErr> = core::result::Result<T, E>;
//@types crates/decy-core/src/lib.rs: TranspiledFile CacheStatistics CacheEntry TranspilationCache
// ---------------------------------------------------------------- specification (ghost)
// an entry answers for the disk as it is now: the file and every dependency recorded with it are
// readable and hash to what they hashed to when the entry was made
pub open spec fn current(d: Disk, e: CacheEntry, p: Seq<char>) -> bool {
  at(d, p) == Some(e.hash@) && forall|q: Seq<char>| #[trigger] e.dependency_hashes@.contains_key(q) ==> at(d, q) == Some(e.dependency_hashes@[q]@)
}
// the entry made for translation t of file p on disk d: it records the hash of the file and of each of
// t's dependencies
pub open spec fn entry_for(d: Disk, e: CacheEntry, p: Seq<char>, t: TranspiledFile) -> bool {
  at(d, p) == Some(e.hash@) && e.transpiled == t && recorded(d, e.dependency_hashes, t.dependencies@, t.dependencies@.len() as int)
}
pub open spec fn recorded(d: Disk, m: HashMap<String, String>, v: Seq<String>, n: int) -> bool {
  (forall|i: int| 0 <= i < n ==> m@.contains_key(#[trigger] v[i]@)) && forall|q: Seq<char>| #[trigger] m@.contains_key(q) ==> at(d, q) == Some(m@[q]@) && exists|i: int| 0 <= i < n && #[trigger] v[i]@ == q
}
pub open spec fn all_readable(d: Disk, t: TranspiledFile, p: Seq<char>) -> bool {
  at(d, p) is Some && forall|i: int| 0 <= i < t.dependencies@.len() ==> at(d, #[trigger] t.dependencies@[i]@) is Some
}
// every entry was made by an insert: `made` says on which disk and for which translation
pub open spec fn history(c: TranspilationCache, made: Map<Seq<char>, (Disk, TranspiledFile)>) -> bool {
  forall|p: Seq<char>| #[trigger] c.entries@.contains_key(p) ==> made.contains_key(p) && entry_for(made[p].0, c.entries@[p], p, made[p].1)
}
// what the three contracts below say about a whole history of calls
pub proof fn never_stale(c: TranspilationCache, made: Map<Seq<char>, (Disk, TranspiledFile)>, d: Disk, p: Seq<char>)
  requires history(c, made), c.entries@.contains_key(p), current(d, c.entries@[p], p)
  ensures ({ let (d0, t) = made[p];
    // what a lookup returns is the translation that was stored, and the file and all its dependencies
    // have the digests they had when it was stored
    c.entries@[p].transpiled == t && at(d, p) is Some && at(d, p) == at(d0, p)
    && forall|i: int| 0 <= i < t.dependencies@.len() ==> at(d, #[trigger] t.dependencies@[i]@) is Some && at(d, t.dependencies@[i]@) == at(d0, t.dependencies@[i]@) })
{ }
// and a translation whose file and dependencies did not change is found
pub proof fn never_lost(c: TranspilationCache, made: Map<Seq<char>, (Disk, TranspiledFile)>, d: Disk, p: Seq<char>)
  requires history(c, made), c.entries@.contains_key(p), at(d, p) == at(made[p].0, p),
    forall|i: int| 0 <= i < made[p].1.dependencies@.len() ==> at(d, #[trigger] made[p].1.dependencies@[i]@) == at(made[p].0, made[p].1.dependencies@[i]@)
  ensures current(d, c.entries@[p], p)
{ }
// ---------------------------------------------------------------- functions under contract
//@fn crates/decy-core/src/lib.rs: TranspilationCache::compute_hash
//@ret r
ensures (r is Ok) == (disk(path@) is Some), r matches Ok(h) ==> now(path@) == Some(h@)
//@endfn
//@fn crates/decy-core/src/lib.rs: TranspilationCache::insert
ensures
  final(self).hits == old(self).hits, final(self).misses == old(self).misses,
  // other files' entries are untouched
  forall|k: Seq<char>| k != path@ ==> (#[trigger] final(self).entries@.contains_key(k) == old(self).entries@.contains_key(k)) && (old(self).entries@.contains_key(k) ==> final(self).entries@[k] == old(self).entries@[k]),
  // what is stored for this file is either an entry for exactly this translation, or nothing new
  all_readable(disk_now(), *transpiled, path@) ==> final(self).entries@.contains_key(path@) && entry_for(disk_now(), final(self).entries@[path@], path@, *transpiled),
  !all_readable(disk_now(), *transpiled, path@) ==> (final(self).entries@.contains_key(path@) ==> old(self).entries@.contains_key(path@) && final(self).entries@[path@] == old(self).entries@[path@]),
//@loop for
now(path@) == Some(hash@), $src@ == transpiled.dependencies@, *self == *old(self),
recorded(disk_now(), dependency_hashes, transpiled.dependencies@, $i as int),
//@endfn
//@fn crates/decy-core/src/lib.rs: TranspilationCache::get
//@ret r
requires old(self).hits < usize::MAX, old(self).misses < usize::MAX
ensures
  // never stale; and nothing is refused that is current
  (r is Some) == (old(self).entries@.contains_key(path@) && current(disk_now(), old(self).entries@[path@], path@)),
  r matches Some(t) ==> *t == old(self).entries@[path@].transpiled,
  final(self).entries == old(self).entries,
  final(self).hits == old(self).hits + (if r is Some { 1int } else { 0int }), final(self).misses == old(self).misses + (if r is None { 1int } else { 0int }),
//@loop for
*self == *old(self), entries_of($src@, entry.dependency_hashes@), forall|j: int| 0 <= j < $i ==> now((#[trigger] $src@[j]).0@) == Some($src@[j].1@),
//@endfn
//@fn crates/decy-core/src/lib.rs: TranspilationCache::new
//@ret r
ensures r.entries@ == Map::<Seq<char>, CacheEntry>::empty(), r.hits == 0, r.misses == 0
//@endfn
//@fn crates/decy-core/src/lib.rs: TranspilationCache::with_directory
//@ret r
ensures r.entries@ == Map::<Seq<char>, CacheEntry>::empty(), r.hits == 0, r.misses == 0
//@endfn
//@fn crates/decy-core/src/lib.rs: TranspilationCache::clear
ensures final(self).entries@ == Map::<Seq<char>, CacheEntry>::empty(), final(self).hits == 0, final(self).misses == 0
//@endfn
//@fn crates/decy-core/src/lib.rs: TranspilationCache::statistics
//@ret r
ensures r.hits == self.hits, r.misses == self.misses, r.total_files == self.entries@.dom().len()
//@endfn
}
fn main(){}
