@mid
// str::split at a character
pub open spec fn split_at(s: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases s.len(),
{
    if s.contains(c) { let i = s.index_of_first(c)->Some_0; if 0 <= i < s.len() { seq![s.take(i)] + split_at(s.skip(i + 1), c) } else { seq![s] } } else { seq![s] }
}
#[verifier::external_body]
pub fn vp_split<'a>(s: &'a str, c: char) -> (r: Vec<&'a str>)
    ensures r@.len() == split_at(s@, c).len(), r@.len() >= 1, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == split_at(s@, c)[i],
{ unimplemented!() }
