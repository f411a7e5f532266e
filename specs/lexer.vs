@unit lexer
@features icu_compiled_data
@include common.vs
@broadcast vp_byte_axioms
@prelude
pub assume_specification<T: PartialEq>[ <[T]>::contains ](s: &[T], x: &T) -> (r: bool)
    ensures r == s@.contains(*x);

// ---- trusted: ICU data (abstract sets of characters, abstract grapheme counter) --------------
#[verifier::external_body]
pub struct CodePointSetData { _p: u8 }
#[verifier::external_body]
pub struct CodePointSetDataBorrowed { _p: u8 }
#[verifier::external_body]
pub struct GraphemeClusterSegmenter { _p: u8 }
#[verifier::external_body]
pub struct GraphemeBreaks { _p: u8 }
// number of grapheme clusters of a text (ICU's segmenter; one data set per process)
pub uninterp spec fn graphemes(s: Seq<char>) -> nat;
impl CodePointSetData {
    pub uninterp spec fn set(&self) -> Set<char>;
    #[verifier::external_body]
    pub fn as_borrowed(&self) -> (r: CodePointSetDataBorrowed) ensures r.set() == self.set() { unimplemented!() }
}
// the characters with Unicode's properties Pattern_White_Space and Pattern_Syntax (ICU's compiled data)
pub uninterp spec fn pattern_white_space_set() -> Set<char>;
pub uninterp spec fn pattern_syntax_set() -> Set<char>;
#[verifier::external_body]
pub fn pattern_white_space() -> (r: CodePointSetDataBorrowed) ensures r.set() == pattern_white_space_set() { unimplemented!() }
#[verifier::external_body]
pub fn pattern_syntax() -> (r: CodePointSetDataBorrowed) ensures r.set() == pattern_syntax_set() { unimplemented!() }
impl CodePointSetDataBorrowed {
    pub uninterp spec fn set(&self) -> Set<char>;
    #[verifier::external_body]
    pub fn static_to_owned(self) -> (r: CodePointSetData) ensures r.set() == self.set() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, c: char) -> (r: bool) ensures r == self.set().contains(c) { unimplemented!() }
}
impl GraphemeClusterSegmenter {
    #[verifier::external_body]
    pub fn new() -> (r: GraphemeClusterSegmenter) { unimplemented!() }
    #[verifier::external_body]
    pub fn segment_str(&self, s: &str) -> (r: GraphemeBreaks) ensures r.of() == s@ { unimplemented!() }
}
impl GraphemeBreaks {
    pub uninterp spec fn of(&self) -> Seq<char>;
    // the segmenter yields every boundary including both ends
    #[verifier::external_body]
    pub fn count(self) -> (r: usize)
        ensures self.of().len() > 0 ==> r == graphemes(self.of()) + 1 && 1 <= graphemes(self.of()) <= self.of().len()
    { unimplemented!() }
}
// ---- trusted: std owning iterator over a vector ----------------------------------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct IntoIter<T> { _p: Vec<T> }
impl<T> IntoIter<T> {
    pub uninterp spec fn all(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            final(self).all() == old(self).all(),
            old(self).pos() < old(self).all().len() ==> r == Some(old(self).all()[old(self).pos() as int]) && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).all().len() ==> r is None && final(self).pos() == old(self).pos(),
    { unimplemented!() }
}
pub open spec fn chars_of(a: Seq<(usize, char)>) -> Seq<char> { Seq::new(a.len(), |i: int| a[i].1) }
// text.char_indices().collect().into_iter()
#[verifier::external_body]
pub fn vp_char_indices_iter(s: &str) -> (r: IntoIter<(usize, char)>)
    ensures r.pos() == 0, chars_of(r.all()) == s@, r.all().len() == s@.len(),
        forall|i: int| 0 <= i < s@.len() ==> #[trigger] r.all()[i] == (byte_off(s@, i) as usize, s@[i]),
{ unimplemented!() }

@rewrite $x.char_indices().collect::<Vec<_>>().into_iter() =>> vp_char_indices_iter($x)

@file crates/lexer/src/icu.rs
@item DataProvider Clone
@item IcuDataProvider
@file crates/lexer/src/error.rs
@file crates/lexer/src/lexer.rs
@item TokenType PartialEq Eq Clone Copy Structural
@item Token
@item LexerIterator
@mid
pub enum LexerError { NoGrammar, EmptyString }
pub enum IcuError { WhiteSpace, Syntax }
impl IcuDataProvider {
    pub closed spec fn ws(&self) -> Set<char> { self.white_space.set() }
    pub closed spec fn syn(&self) -> Set<char> { self.syntax.set() }
}

// ---- specification ---------------------------------------------------------------------------
pub open spec fn classify(ws: Set<char>, syn: Set<char>, grammar: Seq<char>, c: char) -> TokenType {
    if ws.contains(c) { TokenType::WhiteSpace }
    else if syn.contains(c) { if grammar.contains(c) { TokenType::Grammar } else { TokenType::Syntax } }
    else { TokenType::Identifier }
}
impl LexerIterator {
    pub open spec fn class(&self, c: char) -> TokenType {
        classify(self.icu_data_provider.ws(), self.icu_data_provider.syn(), self.grammar@, c)
    }
    // the text being tokenised
    pub open spec fn text(&self) -> Seq<char> { chars_of(self.iterator.all()) }
    // first character not yet returned in a token
    pub open spec fn at(&self) -> int { self.token_start_character as int }
    pub open spec fn inv(&self) -> bool {
        let t = self.text();
        let n = t.len() as int;
        let p = self.iterator.pos() as int;
        let ts = self.token_start_character as int;
        &&& n > 0
        &&& byte_off(t, n) <= isize::MAX
        &&& forall|i: int| 0 <= i < n ==> #[trigger] self.iterator.all()[i] == (byte_off(t, i) as usize, t[i])
        &&& self.length_bytes == byte_off(t, n)
        &&& self.token_start_grapheme <= ts
        &&& self.end_reached ==> ts == n && p == n
        &&& !self.end_reached ==> {
            &&& 0 <= ts < p <= n
            &&& self.start_character == p - 1
            &&& self.start_byte == byte_off(t, p - 1)
            &&& self.token_start_byte == byte_off(t, ts)
            &&& self.token_string@ =~= t.subrange(ts, p)
            &&& forall|i: int| ts <= i < p ==> self.class(#[trigger] t[i]) == self.token_type
            &&& self.token_type == TokenType::Grammar ==> p == ts + 1
        }
    }
}
// what a token produced at position `from` of text `t` must be
pub open spec fn token_ok(it: &LexerIterator, tok: Token) -> bool {
    let t = it.text();
    let from = it.at();
    let to = from + tok.length_characters;
    &&& tok.start_character == from
    &&& from < to <= t.len()
    &&& tok.string@ =~= t.subrange(from, to)
    &&& tok.start_byte == byte_off(t, from)
    &&& tok.end_byte == byte_off(t, to)
    &&& tok.length_bytes == tok.end_byte - tok.start_byte
    &&& tok.start_grapheme == it.token_start_grapheme
    &&& tok.length_graphemes == graphemes(tok.string@)
}
pub open spec fn class_ok(it: &LexerIterator, tok: Token) -> bool {
    let t = it.text();
    let from = it.at();
    let to = from + tok.length_characters;
    &&& forall|i: int| from <= i < to ==> it.class(#[trigger] t[i]) == tok.token_type
    &&& tok.token_type == TokenType::Grammar ==> tok.length_characters == 1
    &&& (to == t.len() || tok.token_type == TokenType::Grammar || it.class(t[to]) != tok.token_type)
}
pub open spec fn same_input(a: &LexerIterator, b: &LexerIterator) -> bool {
    a.iterator.all() == b.iterator.all() && a.grammar@ == b.grammar@ && a.icu_data_provider == b.icu_data_provider && a.length_bytes == b.length_bytes
}

@fn LexerIterator::try_new
    ensures
        grammar@.len() == 0 ==> r == Err::<LexerIterator, LexerError>(LexerError::NoGrammar), // [L01]
        grammar@.len() > 0 && string@.len() == 0 ==> r == Err::<LexerIterator, LexerError>(LexerError::EmptyString), // [L01]
        grammar@.len() > 0 && string@.len() > 0 ==> r is Ok && r->Ok_0.inv() && r->Ok_0.text() =~= string@ && r->Ok_0.at() == 0
            && !r->Ok_0.end_reached && r->Ok_0.token_start_grapheme == 0, // [L01]
        r is Ok ==> r->Ok_0.grammar@ == grammar@ && r->Ok_0.icu_data_provider == *icu_data_provider, // [L02]
@entry
    proof {
        lemma_byte_off_mono(string@, 0, 0);
        assert forall|i: int| 0 <= i < string@.len() implies #[trigger] byte_off(string@, i) <= isize::MAX by { lemma_byte_off_mono(string@, i, string@.len() as int); }
    }

@fn LexerIterator::token_type
    ensures r == self.class(*character),

@fn LexerIterator::token
    requires
        old(self).token_string@.len() > 0,
        old(self).start_byte >= old(self).token_start_byte,
        old(self).start_character >= old(self).token_start_character,
        old(self).token_start_grapheme + old(self).token_string@.len() <= usize::MAX,
    ensures
        r.string@ == old(self).token_string@,
        r.token_type == old(self).token_type,
        r.start_byte == old(self).token_start_byte,
        r.start_character == old(self).token_start_character,
        r.start_grapheme == old(self).token_start_grapheme,
        r.length_bytes == old(self).start_byte - old(self).token_start_byte,
        r.length_characters == old(self).start_character - old(self).token_start_character,
        r.length_graphemes == graphemes(old(self).token_string@),
        1 <= r.length_graphemes <= old(self).token_string@.len(),
        r.end_byte == old(self).start_byte,
        final(self).token_type == new_token_type,
        final(self).token_start_byte == old(self).start_byte,
        final(self).token_start_character == old(self).start_character,
        final(self).token_start_grapheme == old(self).token_start_grapheme + r.length_graphemes,
        final(self).token_string@ == seq![character],
        final(self).start_byte == old(self).start_byte,
        final(self).start_character == old(self).start_character,
        final(self).end_reached == old(self).end_reached,
        final(self).iterator == old(self).iterator,
        same_input(final(self), old(self)),

@fn LexerIterator::next
    requires old(self).inv(),
    ensures
        final(self).inv(),
        same_input(final(self), old(self)),
        old(self).end_reached ==> r is None && final(self).end_reached, // [L01]
        !old(self).end_reached ==> r is Some && token_ok(old(self), r->Some_0)
            && final(self).at() == old(self).at() + r->Some_0.length_characters
            && final(self).token_start_grapheme == old(self).token_start_grapheme + r->Some_0.length_graphemes
            && (final(self).end_reached <==> final(self).at() == old(self).text().len()), // [L01]
        !old(self).end_reached ==> class_ok(old(self), r->Some_0), // [L02]
@entry
    proof {
        let t = self.text();
        let ts = self.token_start_character as int;
        assert forall|i: int| 0 <= i <= t.len() implies i <= #[trigger] byte_off(t, i) <= isize::MAX by {
            lemma_byte_off_mono(t, 0, i); lemma_byte_off_mono(t, i, t.len() as int);
        }
        assert forall|i: int| ts <= i <= t.len() implies byte_off(t, ts) <= #[trigger] byte_off(t, i) by { lemma_byte_off_mono(t, ts, i); }
    }
@loop 0
    invariant
        self.inv(), !self.end_reached, !old(self).end_reached,
        same_input(self, old(self)),
        self.text() == old(self).text(),
        self.token_start_character == old(self).token_start_character,
        self.token_start_grapheme == old(self).token_start_grapheme,
        forall|i: int| 0 <= i <= self.text().len() ==> i <= #[trigger] byte_off(self.text(), i) <= isize::MAX,
        forall|i: int| self.at() <= i <= self.text().len() ==> byte_off(self.text(), self.at()) <= #[trigger] byte_off(self.text(), i),
    ensures self.iterator.pos() == self.iterator.all().len(),
    decreases self.iterator.all().len() - self.iterator.pos(),
@file crates/lexer/src/icu.rs
@fn IcuDataProvider::try_new
@spec
    ensures r is Ok, r->Ok_0.ws() == pattern_white_space_set(), r->Ok_0.syn() == pattern_syntax_set(), // [L02]
@fn IcuDataProvider::grapheme_segmenter
@fn IcuDataProvider::syntax
@spec
    ensures r.set() == self.syn(), // [L02]
@fn IcuDataProvider::white_space
@spec
    ensures r.set() == self.ws(), // [L02]
