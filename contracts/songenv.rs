// ---------------------------------------------------------------------------
// Trusted stand-ins for what media/index.rs takes from std and blake3.
// ---------------------------------------------------------------------------
mod env { use super::*;
/// what a path is (the whole path), and the UTF-8 file name it ends in, if any
#[verifier::external_body] pub struct Path { x: u8 }
#[verifier::external_body] pub struct PathBuf { x: u8 }
#[verifier::external_body] pub struct OsStr { x: u8 }
pub uninterp spec fn utf8(s: OsStr) -> Option<Seq<char>>;
pub uninterp spec fn base(p: int) -> Option<OsStr>;
impl View for Path { type V = int; uninterp spec fn view(&self) -> int; }
impl View for PathBuf { type V = int; uninterp spec fn view(&self) -> int; }
/// the file name as text, None when there is none or it is not UTF-8
pub open spec fn name_of(p: int) -> Option<Seq<char>> { match base(p) { Some(s) => utf8(s), None => None } }
impl OsStr {
  #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>)
    ensures (match r { Some(s) => utf8(*self) == Some(s@), None => utf8(*self) is None }) { unimplemented!() }
}
impl Path {
  #[verifier::external_body] pub fn file_name(&self) -> (r: Option<&OsStr>)
    ensures (match r { Some(s) => base(self@) == Some(*s), None => base(self@) is None }) { unimplemented!() }
  #[verifier::external_body] pub fn to_path_buf(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
}
impl Clone for PathBuf { #[verifier::external_body] fn clone(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() } }
/// a file opened for reading; its view is what is still to be read
#[verifier::external_body] pub struct File { x: u8 }
impl View for File { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
#[verifier::external_body] pub struct IoError { x: u8 }
pub mod io { pub type Result<T> = core::result::Result<T, super::IoError>; }
/// path p was opened and held bytes c (assumed: one open reads one consistent, finite content)
pub uninterp spec fn held(p: int, c: Seq<u8>) -> bool;
impl File {
  #[verifier::external_body] pub fn open(p: &Path) -> (r: io::Result<File>) ensures r is Ok ==> held(p@, r->Ok_0@) { unimplemented!() }
  /// Read::read: n bytes move from the file into the buffer; 0 only at the end (the buffer is not empty)
  #[verifier::external_body] pub fn read<const N: usize>(&mut self, buf: &mut [u8; N]) -> (r: io::Result<usize>)
    requires N > 0
    ensures r is Ok ==> r->Ok_0 <= N && r->Ok_0 <= old(self)@.len() && (r->Ok_0 == 0 ==> old(self)@.len() == 0)
      && final(self)@ == old(self)@.subrange(r->Ok_0 as int, old(self)@.len() as int)
      && final(buf)@.subrange(0, r->Ok_0 as int) == old(self)@.subrange(0, r->Ok_0 as int) { unimplemented!() }
}
/// &buf[..n]
#[verifier::external_body] pub fn kx_upto<const N: usize>(b: &[u8; N], n: usize) -> (r: &[u8]) requires n <= N ensures r@ == b@.subrange(0, n as int) { &b[..n] }
pub mod blake3 { use super::*;
  /// BLAKE3 of a byte string
  pub uninterp spec fn digest(c: Seq<u8>) -> Seq<u8>;
  #[verifier::external_body] pub struct Hasher { x: u8 }
  impl View for Hasher { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
  #[verifier::external_body] pub struct Hash { x: u8 }
  impl View for Hash { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
  impl Hasher {
    #[verifier::external_body] pub fn new() -> (r: Hasher) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn update(&mut self, b: &[u8]) ensures final(self)@ == old(self)@ + b@ { unimplemented!() }
    #[verifier::external_body] pub fn finalize(&self) -> (r: Hash) ensures r@ == digest(self@) { unimplemented!() }
  }
  impl Hash { #[verifier::external_body] pub fn as_bytes(&self) -> (r: &[u8; 32]) ensures r@ == self@ { unimplemented!() } }
}
/// std HashMap with lawful keys: a map from key views to values
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct HashMap<K: View, V> { x: core::marker::PhantomData<(K, V)> }
impl<K: View, V> View for HashMap<K, V> { type V = Map<K::V, V>; uninterp spec fn view(&self) -> Map<K::V, V>; }
impl<K: View, V> HashMap<K, V> {
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K::V, V>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn get<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
    ensures (match r { Some(v) => self@.dom().contains(k@) && self@[k@] == *v, None => !self@.dom().contains(k@) }) { unimplemented!() }
  #[verifier::external_body] pub fn contains_key<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.dom().contains(k@) { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
}
impl<K: View, V> Default for HashMap<K, V> { #[verifier::external_body] fn default() -> (r: Self) ensures r@ == Map::<K::V, V>::empty() { unimplemented!() } }
}
use env::*;
