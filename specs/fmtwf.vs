@mid
// a rank for names and sets of selectors, for termination only
pub struct Ranks { pub name: spec_fn(VpK) -> nat, pub sel: spec_fn(int) -> nat }
// ---- the invariant that the semantic analysis establishes (unit pattern) -------------------------
pub open spec fn part_ok(part: PatternPart, selectors: Seq<HashMap<String, String>>, numbers: nat) -> bool {
    match part {
        PatternPart::NumberSign(k) => k < numbers,
        PatternPart::PatternComplex { placeholder, complex, selectors: s } => s < selectors.len(),
        PatternPart::Command { strings } => strings@.len() >= 1 && forall|i: int| 0 <= i < strings@.len() ==> (#[trigger] strings@[i]) is String,
        _ => true,
    }
}
// selectors only lead to named strings of a lower rank
#[verifier::opaque]
pub open spec fn ranked(patterns: Map<VpK, Vec<PatternPart>>, selectors: Seq<HashMap<String, String>>, rank: Ranks) -> bool {
    &&& forall|n: VpK, i: int| patterns.contains_key(n) && 0 <= i < patterns[n]@.len() && (#[trigger] patterns[n]@[i]) is PatternComplex
        ==> (rank.sel)(patterns[n]@[i]->selectors as int) <= (rank.name)(n)
    &&& forall|s: int, k: VpK| 0 <= s < selectors.len() && (#[trigger] selectors[s]@.contains_key(k))
        ==> patterns.contains_key(VpK::S(selectors[s]@[k]@)) && (rank.name)(VpK::S(selectors[s]@[k]@)) < (rank.sel)(s)
}
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
#[verifier::opaque]
pub open spec fn wf_of(patterns: Map<VpK, Vec<PatternPart>>, selectors: Seq<HashMap<String, String>>, numbers: nat) -> bool {
    &&& exists|rank: Ranks| ranked(patterns, selectors, rank)
    &&& forall|n: VpK, i: int| patterns.contains_key(n) && 0 <= i < patterns[n]@.len() ==> part_ok(#[trigger] patterns[n]@[i], selectors, numbers)
}
