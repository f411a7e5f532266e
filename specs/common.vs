@broadcast vstd::string::group_string_axioms vp_axioms
@header
use std::rc::Rc as RefCount;
use vstd::std_specs::iter::IteratorSpec;
use vstd::string::*;
@axioms

// ---- trusted: std string conversions -------------------------------------------------------
#[verifier::external_body]
pub broadcast proof fn vp_axiom_char_to_string(c: char, s: String)
    ensures #[trigger] vstd::string::to_string_from_display_ensures::<char>(&c, s) ==> s@ == seq![c],
{}
#[verifier::external_body]
pub broadcast proof fn vp_axiom_string_to_string(c: String, s: String)
    ensures #[trigger] vstd::string::to_string_from_display_ensures::<String>(&c, s) ==> s@ == c@,
{}
// UTF-8 length of a character, and byte offset of the i-th character of a text.
pub open spec fn utf8_len(c: char) -> nat {
    if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 }
}
#[verifier::opaque]
pub open spec fn byte_off(s: Seq<char>, i: int) -> nat
    decreases i,
{
    if i <= 0 { 0 } else { byte_off(s, i - 1) + utf8_len(s[i - 1]) }
}
#[verifier::external_body]
pub broadcast proof fn vp_axiom_str_bytes(s: &str)
    ensures (#[trigger] s.spec_bytes()).len() == byte_off(s@, s@.len() as int),
{}
// A text in memory is at most isize::MAX bytes (every character takes at least one).
#[verifier::external_body]
pub broadcast proof fn vp_axiom_str_bound(s: &str)
    ensures byte_off((#[trigger] s@), s@.len() as int) <= isize::MAX,
{}
#[verifier::external_body]
pub broadcast proof fn vp_axiom_string_bound(s: String)
    ensures byte_off((#[trigger] s@), s@.len() as int) <= isize::MAX,
{}
pub broadcast group vp_axioms {
    vp_axiom_char_to_string, vp_axiom_string_to_string,
}
pub broadcast group vp_byte_axioms {
    vp_axiom_str_bytes, vp_axiom_str_bound, vp_axiom_string_bound,
}

// comparison of a text with a string literal (produced by the extractor for `match` on literals)
#[verifier::external_body]
pub fn vp_str_eq(a: &str, b: &str) -> (r: bool)
    ensures r == (a@ == b@),
{ unimplemented!() }

pub proof fn lemma_byte_off_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j,
    ensures byte_off(s, 0) == 0, byte_off(s, i) + (j - i) <= byte_off(s, j), byte_off(s, j) <= byte_off(s, i) + 4 * (j - i),
    decreases j - i,
{
    reveal(byte_off);
    if i < j { lemma_byte_off_mono(s, i, j - 1); }
}
