use crate::{fixtures, rng::Rng, Check, Prop};
use i18n_lexer::{LexerIterator, LexerError, TokenType};
use icu_segmenter::GraphemeClusterSegmenter;
use serde_json::{json, Value};

const CHARS: &[char] = &['a', 'b', '1', '_', ' ', '\n', '\u{200e}', '\t', '\r', '\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{2029}', '\u{200f}', '\u{a0}', '{', '}', '`', '#', '$', '+', '-', '\\', 'é', 'ß', '中', '\u{301}', '😀', '\u{200d}', '👨', '»', '«', '∀', '\'', '"', '.', ',', '\u{2030}', '\u{3030}', '\u{ad}', '\u{feff}', '\0', '\u{e000}', '\u{10ffff}'];
const GRAMMARS: &[&str] = &["{}`#", "$", "a{", "«»{}", "#{}`#", "∀", " ", "é"];

/// any Unicode scalar value, all UTF-8 lengths equally often
pub fn any_char(r: &mut Rng) -> char {
    loop {
        let n = match r.below(4) { 0 => r.below(0x80), 1 => 0x80 + r.below(0x780), 2 => 0x800 + r.below(0xF800), _ => 0x10000 + r.below(0x100000) };
        if let Some(c) = char::from_u32(n as u32) { return c; }
    }
}
fn text(r: &mut Rng, n: usize, pool: &[char]) -> String {
    let any = r.chance(1, 4);
    (0..n).map(|_| if any && r.chance(1, 8) { any_char(r) } else { *r.pick(pool) }).collect()
}
// enumerates all short texts over a small alphabet, then random ones
fn gen(r: &mut Rng, i: u64) -> Value {
    let small = ['a', ' ', '{', '$', '中', '\u{301}'];
    let mut total = 0u64;
    for len in 0..6u32 {
        let c = 6u64.pow(len);
        if i < total + c {
            let mut k = i - total;
            let mut s = String::new();
            for _ in 0..len { s.push(small[(k % 6) as usize]); k /= 6; }
            return json!({"text": s, "grammar": if len % 2 == 0 { "{}`#" } else { "{" }});
        }
        total += c;
    }
    let max = if r.chance(1, 8000) { 140_000 } else if r.chance(1, 300) { 6000 } else if r.chance(1, 20) { 300 } else { 24 };
    let n = 1 + r.below(max);
    let g = if r.chance(1, 50) { String::new() } else if r.chance(3, 4) { r.pick(GRAMMARS).to_string() } else { let k = 1 + r.below(4); text(r, k, CHARS) };
    let t = if r.chance(1, 100) { String::new() } else {
        match r.below(4) {
            // runs of one class with its members mixed
            0 => { let mut s = String::new(); while s.chars().count() < n { let k = class(*r.pick(CHARS), &g); let m: Vec<char> = CHARS.iter().cloned().filter(|c| class(*c, &g) == k).collect(); let l = if r.chance(1, 40) && n > 1000 { 1 + r.below(n) } else if r.chance(1, 40) { 1 + r.below(400) } else { 1 + r.below(5) }; s.push_str(&text(r, l, &m)); } s }
            _ => text(r, n, CHARS),
        }
    };
    json!({"text": t, "grammar": g})
}
fn class(c: char, grammar: &str) -> TokenType {
    if icu_properties::sets::pattern_white_space().contains(c) { TokenType::WhiteSpace }
    else if icu_properties::sets::pattern_syntax().contains(c) {
        if grammar.chars().any(|g| g == c) { TokenType::Grammar } else { TokenType::Syntax }
    } else { TokenType::Identifier }
}
pub fn tok_class(c: char) -> TokenType { class(c, "{}`#") }
fn check_l01(v: &Value) -> Check {
    let (t, g) = (v["text"].as_str().unwrap(), v["grammar"].as_str().unwrap());
    let icu = fixtures::icu();
    let mut it = match LexerIterator::try_new(t, g, &icu) {
        Err(LexerError::NoGrammar) => return if g.is_empty() { Ok(false) } else { Err("NoGrammar for a grammar".into()) },
        Err(LexerError::EmptyString) => return if !g.is_empty() && t.is_empty() { Ok(false) } else { Err("EmptyString for a text".into()) },
        #[allow(unreachable_patterns)]
        Err(e) => return Err(format!("rejected: {e}")),
        Ok(x) => x,
    };
    if g.is_empty() || t.is_empty() { return Err("empty grammar or text accepted".into()); }
    let seg = GraphemeClusterSegmenter::new();
    let (mut b, mut c, mut gr, mut s) = (0usize, 0usize, 0usize, String::new());
    let mut n = 0;
    while let Some(k) = it.next() {
        let st: &str = k.string.as_str();
        if st.is_empty() { return Err("empty token".into()); }
        let lb = st.len();
        let lc = st.chars().count();
        let lg = seg.segment_str(st).count() - 1;
        let got = (k.start_byte, k.end_byte, k.start_character, k.start_grapheme, k.length_bytes, k.length_characters, k.length_graphemes);
        let want = (b, b + lb, c, gr, lb, lc, lg);
        if got != want { return Err(format!("token {n} {st:?}: positions (start byte, end byte, start char, start grapheme, bytes, chars, graphemes) {got:?}, expected {want:?}")); }
        s.push_str(st);
        b += lb; c += lc; gr += lg; n += 1;
        if n > t.len() + 1 { return Err("more tokens than characters".into()); }
    }
    if s != t { return Err(format!("tokens concatenate to {s:?}")); }
    for _ in 0..2 { if it.next().is_some() { return Err("token after the end".into()); } }
    Ok(n > 1)
}
fn check_l02(v: &Value) -> Check {
    let (t, g) = (v["text"].as_str().unwrap(), v["grammar"].as_str().unwrap());
    if g.is_empty() || t.is_empty() { return Ok(false); }
    let icu = fixtures::icu();
    let it = LexerIterator::try_new(t, g, &icu).map_err(|e| format!("rejected: {e}"))?;
    let mut prev: Option<TokenType> = None;
    let mut n = 0;
    for k in it {
        if n > t.len() { return Err("more tokens than characters".into()); }
        for c in k.string.chars() {
            if class(c, g) != k.token_type { return Err(format!("{c:?} in token {:?} of type {:?}", k.string, k.token_type)); }
        }
        if k.token_type == TokenType::Grammar && k.string.chars().count() != 1 { return Err(format!("grammar token {:?}", k.string)); }
        if prev == Some(k.token_type) && k.token_type != TokenType::Grammar { return Err(format!("token {:?} not maximal", k.string)); }
        prev = Some(k.token_type);
        n += 1;
    }
    Ok(n > 1)
}
pub fn props() -> Vec<Prop> {
    let rule = "all texts of up to 5 characters over {identifier, space, grammar, syntax, 3-byte, combining}, then random texts of 1-6000 (rarely 140000) characters over 45 characters of all classes and UTF-8 lengths and any other character, with random grammars; non-trivial: more than one token";
    vec![Prop { id: "L01", rule, gen, check: check_l01 }, Prop { id: "L02", rule, gen, check: check_l02 }]
}
