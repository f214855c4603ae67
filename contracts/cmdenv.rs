// ---------------------------------------------------------------------------
// Trusted stand-ins for the text and process types xtask uses.
// ---------------------------------------------------------------------------
mod env { use super::*;
pub type Txt = Seq<char>;
/// substring test
pub open spec fn has(s: Txt, w: Txt) -> bool { exists|i: int| 0 <= i && i + w.len() <= s.len() && #[trigger] s.subrange(i, i + w.len()) == w }
#[verifier::external_body] pub fn kx_has<S: View<V = Txt>>(s: S, w: &str) -> (r: bool) ensures r == has(s@, w@) { unimplemented!() }
#[verifier::external_body] pub fn kx_eq<S: View<V = Txt>>(s: S, w: &str) -> (r: bool) ensures r == (s@ == w@) { unimplemented!() }
#[verifier::external_body] pub fn kx_str(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body] pub fn kx_sref(s: &String) -> (r: &str) ensures r@ == s@ { s }
/// the whitespace-separated words of a text, none of them empty
pub uninterp spec fn words(s: Txt) -> Seq<Txt>;
pub open spec fn strs(v: Seq<&str>) -> Seq<Txt> { v.map_values(|s: &str| s@) }
pub open spec fn strings(v: Seq<String>) -> Seq<Txt> { v.map_values(|s: String| s@) }
#[verifier::external_body] pub fn kx_words<'a>(s: &'a str) -> (r: Vec<&'a str>)
  ensures strs(r@) == words(s@), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@.len() > 0 { s.split_whitespace().collect() }
/// the texts with a separator between them
pub open spec fn joined(v: Seq<Txt>, sep: Txt) -> Txt
  decreases v.len()
{ if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { joined(v.drop_last(), sep) + sep + v.last() } }
#[verifier::external_body] pub fn kx_join(v: &Vec<String>, sep: &str) -> (r: String) ensures r@ == joined(strings(v@), sep@) { v.join(sep) }
pub struct Cmd { pub program: Txt, pub args: Seq<Txt>, pub env: Map<Txt, Txt> }
#[verifier::external_body] pub struct Command { x: u8 }
impl View for Command { type V = Cmd; uninterp spec fn view(&self) -> Cmd; }
impl Command {
  #[verifier::external_body] pub fn new(p: &str) -> (r: Command) ensures r@ == (Cmd { program: p@, args: Seq::empty(), env: Map::empty() }) { unimplemented!() }
  #[verifier::external_body] pub fn arg<S: View<V = Txt>>(&mut self, a: S) ensures final(self)@ == (Cmd { args: old(self)@.args.push(a@), ..old(self)@ }) { unimplemented!() }
  #[verifier::external_body] pub fn args<const N: usize>(&mut self, a: [&str; N]) ensures final(self)@ == (Cmd { args: old(self)@.args + strs(a@), ..old(self)@ }) { unimplemented!() }
  #[verifier::external_body] pub fn env<S: View<V = Txt>, T: View<V = Txt>>(&mut self, k: S, v: T) ensures final(self)@ == (Cmd { env: old(self)@.env.insert(k@, v@), ..old(self)@ }) { unimplemented!() }
}
}
use env::*;
