@unit script
@include common.vs
@prelude
pub uninterp spec fn into_text<T>(x: T) -> Seq<char>;
#[verifier::external_body]
pub fn vp_into_string<T>(x: T) -> (r: String) ensures r@ == into_text(x) { unimplemented!() }
@rewrite string.into() =>> vp_into_string(string)
@file crates/utility/src/language.rs
@item LanguageTag
@file crates/utility/src/script.rs
@item Direction PartialEq Structural
@item ScriptDirection PartialEq Structural
@mid
pub open spec fn vertical(d: Direction) -> bool { d == Direction::TopToBottom || d == Direction::BottomToTop }
// the pair that the name of the script direction states
pub open spec fn pair(s: ScriptDirection) -> (Direction, Direction) {
    match s {
        ScriptDirection::TopToBottomLeftToRight => (Direction::TopToBottom, Direction::LeftToRight),
        ScriptDirection::TopToBottomRightToLeft => (Direction::TopToBottom, Direction::RightToLeft),
        ScriptDirection::BottomToTopLeftToRight => (Direction::BottomToTop, Direction::LeftToRight),
        ScriptDirection::BottomToTopRightToLeft => (Direction::BottomToTop, Direction::RightToLeft),
        ScriptDirection::LeftToRightTopToBottom => (Direction::LeftToRight, Direction::TopToBottom),
        ScriptDirection::LeftToRightBottomToTop => (Direction::LeftToRight, Direction::BottomToTop),
        ScriptDirection::RightToLeftTopToBottom => (Direction::RightToLeft, Direction::TopToBottom),
        ScriptDirection::RightToLeftBottomToTop => (Direction::RightToLeft, Direction::BottomToTop),
    }
}
@fn ScriptDirection::directions
    ensures r == pair(*self), // [S01]
@fn ScriptDirection::line
    ensures r == pair(*self).0, // [S01]
@fn ScriptDirection::grapheme
    ensures r == pair(*self).1, // [S01]
@file crates/utility/src/tagged_string.rs
@item TaggedString
@fn TaggedString::new
    ensures r.string@ == into_text(string), r.tag == *tag, // [S01]
@fn TaggedString::as_str
    ensures r@ == self.string@, // [S01]
@fn TaggedString::as_string
    ensures *r == self.string, // [S01]
@fn TaggedString::tag
    ensures *r == self.tag, // [S01]
@tail
pub proof fn theorem_s01_pair_determines_direction(a: ScriptDirection, b: ScriptDirection)
    ensures pair(a) == pair(b) ==> a == b, vertical(pair(a).0) != vertical(pair(a).1),
{}
pub fn theorem_s01_tagged_string<T: Into<String>>(s: T, tag: &RefCount<LanguageTag>)
{
    let x = TaggedString::new(s, tag);
    let a = x.as_str();
    let b = x.as_string();
    let t = x.tag();
    assert(a@ == into_text(s) && b@ == into_text(s) && *t == *tag);
}
