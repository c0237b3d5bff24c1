// =====================================================================================================
// Trusted stubs: str::split / splitn / trim (std), hyper's comma lists, std::fmt::Debug
// =====================================================================================================
pub trait VxStrOps {
    spec fn chars_of(&self) -> Seq<char>;
    fn vx_split(&self, c: char) -> (r: VxIter<&str>)
        ensures r@.len() == split_at(self.chars_of(), c).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == split_at(self.chars_of(), c)[i];
    fn vx_splitn(&self, n: usize, c: char) -> (r: VxIter<&str>)
        ensures
            r@.len() <= n,
            n == 1 ==> r@.len() == 1 && r@[0]@ == self.chars_of(),
            n == 2 ==> r@.len() == cut(self.chars_of(), c).len() && forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == cut(self.chars_of(), c)[i];
    fn vx_trim(&self) -> (r: &str) ensures r@ == trimmed(self.chars_of());
}
impl VxStrOps for str {
    open spec fn chars_of(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_split(&self, c: char) -> (r: VxIter<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_splitn(&self, n: usize, c: char) -> (r: VxIter<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_trim_fn(s: &str) -> (r: &str) ensures r@ == trimmed(s@) { s.trim() }
#[verifier::external_body]
pub fn vx_str_is(s: &str, l: &str) -> (r: bool) ensures r == (s@ == l@) { s == l }
/// std::fmt::Debug
pub trait VxDebug {
    spec fn debugged(&self) -> Seq<char>;
    fn fmt(&self, f: &mut Formatter) -> (r: FmtResult)
        ensures r is Ok ==> final(f)@ == old(f)@ + self.debugged();
}
/// hyper: all header lines decode, the non-empty trimmed pieces of all of them in order
pub open spec fn lines_utf8(l: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < l.len() ==> valid_utf8(#[trigger] l[i]) }
pub open spec fn line_items(l: Seq<Seq<u8>>) -> Seq<Seq<char>> decreases l.len() { if l.len() == 0 { Seq::empty() } else { line_items(l.drop_last()) + items_of(decode_utf8(l.last())) } }
pub mod vxip {
use vstd::prelude::*;
use super::VxFromStr;
/// v holds a value for every item that has one, in order
pub open spec fn items_parsed<T: VxFromStr>(it: Seq<Seq<char>>, v: Seq<T>) -> bool decreases it.len() {
    if it.len() == 0 { v.len() == 0 }
    else if T::s_ok(it.last()) { v.len() > 0 && T::s_val(it.last(), v.last()) && items_parsed(it.drop_last(), v.drop_last()) }
    else { items_parsed(it.drop_last(), v) }
}
/// when every text has a value, every item has one
pub broadcast proof fn lemma_items_total<T: VxFromStr>(it: Seq<Seq<char>>, v: Seq<T>)
    requires #[trigger] items_parsed::<T>(it, v), forall|s: Seq<char>| #[trigger] T::s_ok(s)
    ensures v.len() == it.len(), forall|i: int| #![trigger it[i]] #![trigger v[i]] 0 <= i < v.len() ==> T::s_val(it[i], v[i])
    decreases it.len()
{
    if it.len() > 0 {
        assert(T::s_ok(it.last()));
        lemma_items_total::<T>(it.drop_last(), v.drop_last());
        assert forall|i: int| #![trigger it[i]] #![trigger v[i]] 0 <= i < v.len() implies T::s_val(it[i], v[i]) by {
            if i < v.len() - 1 { assert(it.drop_last()[i] == it[i]); assert(v.drop_last()[i] == v[i]); }
        }
    }
}
}
pub use vxip::*;
pub open spec fn shown_all<T: VxDisplay>(v: Seq<T>) -> Seq<Seq<char>> { v.map_values(|t: T| t.shown()) }
#[verifier::external_body]
pub fn from_comma_delimited<T: VxFromStr>(raw: &[Vec<u8>]) -> (r: HyperResult<Vec<T>>)
    ensures
        r is Ok <==> lines_utf8(lines(raw@)),
        r matches Ok(v) ==> items_parsed::<T>(line_items(lines(raw@)), v@),
{ unimplemented!() }
#[verifier::external_body]
pub fn fmt_comma_delimited<T: VxDisplay>(f: &mut Formatter, parts: &[T]) -> (r: FmtResult)
    ensures r is Ok ==> final(f)@ == old(f)@ + list_text(shown_all(parts@))
{ unimplemented!() }
