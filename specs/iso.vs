@unit iso
@features icu_compiled_data
@include common.vs
@include map.vs
@include types.vs
@include fmt_types.vs
@include fmt_errors.vs
@include split.vs
@broadcast vp_byte_axioms
@desugar-for
@mid
// ---- numbers in texts ---------------------------------------------------------------------------
pub open spec fn digit(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn numeric(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> digit(#[trigger] s[i]) }
#[verifier::opaque]
pub open spec fn value(s: Seq<char>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { value(s.drop_last()) * 10 + (s.last() as u32 - '0' as u32) as nat }
}
// trusted: FromStr of the integer types: an optional sign (minus only for signed types) and digits, in range
pub open spec fn signed(s: Seq<char>) -> Option<int> {
    if s.len() > 0 && s[0] == '-' { if numeric(s.skip(1)) { Some(-value(s.skip(1))) } else { None } } else { unsigned(s) }
}
#[verifier::opaque]
pub open spec fn unsigned(s: Seq<char>) -> Option<int> {
    let t = if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s };
    if numeric(t) { Some(value(t) as int) } else { None }
}
#[verifier::external_body]
pub fn vp_i32(s: &str) -> (r: Result<i32, ParseIntError>)
    ensures r is Ok <==> signed(s@) is Some && i32::MIN <= signed(s@)->Some_0 <= i32::MAX, r is Ok ==> r->Ok_0 == signed(s@)->Some_0,
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_u8(s: &str) -> (r: Result<u8, ParseIntError>)
    ensures r is Ok <==> unsigned(s@) is Some && unsigned(s@)->Some_0 <= 255, r is Ok ==> r->Ok_0 == unsigned(s@)->Some_0,
{ unimplemented!() }
// ---- trusted: str operations, by bytes ------------------------------------------------------------
// number of leading c
#[verifier::opaque]
pub open spec fn leading(s: Seq<char>, c: char) -> nat
    decreases s.len(),
{
    if s.len() > 0 && s[0] == c { 1 + leading(s.skip(1), c) } else { 0 }
}
#[verifier::opaque]
pub open spec fn trailing(s: Seq<char>, c: char) -> nat
    decreases s.len(),
{
    if s.len() > 0 && s.last() == c { 1 + trailing(s.drop_last(), c) } else { 0 }
}
#[verifier::external_body]
pub fn vp_trim_start<'a>(s: &'a str, c: char) -> (r: &'a str)
    ensures leading(s@, c) <= s@.len(), r@ == s@.skip(leading(s@, c) as int),
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_trim_end<'a>(s: &'a str, c: char) -> (r: &'a str)
    ensures trailing(s@, c) <= s@.len(), r@ == s@.take(s@.len() - trailing(s@, c)),
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_starts(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { unimplemented!() }
proof fn lemma_leading(c: char)
    ensures forall|x: Seq<char>| {
        &&& x.len() == 0 || x[0] != c ==> #[trigger] leading(x, c) == 0
        &&& x.len() == 1 && x[0] == c ==> leading(x, c) == 1
        &&& x.len() > 1 && x[0] == c && x[1] != c ==> leading(x, c) == 1
    },
{ reveal_with_fuel(leading, 3); }
// position of the first c
#[verifier::opaque]
pub open spec fn first(s: Seq<char>, c: char) -> int
    decreases s.len(),
{
    if s.len() == 0 || s[0] == c { 0 } else { 1 + first(s.skip(1), c) }
}
#[verifier::external_body]
pub fn vp_find(s: &str, c: char) -> (r: Option<usize>)
    ensures
        0 <= first(s@, c) <= s@.len(), first(s@, c) < s@.len() ==> s@[first(s@, c)] == c, forall|i: int| 0 <= i < first(s@, c) ==> s@[i] != c,
        r is Some <==> first(s@, c) < s@.len(), r is Some ==> r->Some_0 == byte_off(s@, first(s@, c)),
{ unimplemented!() }
// i is the number of the character that starts at byte b
pub open spec fn at_byte(s: Seq<char>, b: int, i: int) -> bool { 0 <= i <= s.len() && byte_off(s, i) == b }
#[verifier::external_body]
pub fn vp_get0<'a>(s: &'a str, a: usize, b: usize) -> (r: Option<&'a str>)
    ensures
        r is Some ==> exists|i: int, j: int| at_byte(s@, a as int, i) && at_byte(s@, b as int, j) && i <= j && #[trigger] s@.subrange(i, j) == r->Some_0@,
        r is None ==> forall|i: int, j: int| !(#[trigger] at_byte(s@, a as int, i) && #[trigger] at_byte(s@, b as int, j) && i <= j),
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_from0<'a>(s: &'a str, a: usize) -> (r: &'a str)
    requires exists|i: int| at_byte(s@, a as int, i),
    ensures exists|i: int| at_byte(s@, a as int, i) && #[trigger] s@.skip(i) == r@,
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_to0<'a>(s: &'a str, b: usize) -> (r: &'a str)
    requires exists|i: int| at_byte(s@, b as int, i),
    ensures exists|i: int| at_byte(s@, b as int, i) && #[trigger] s@.take(i) == r@,
{ unimplemented!() }
#[verifier::opaque]
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 0x80 }
proof fn lemma_ascii_off(s: Seq<char>, n: int)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> (#[trigger] s[i] as u32) < 0x80,
    ensures byte_off(s, n) == n,
    decreases n,
{
    reveal(byte_off);
    if n > 0 { lemma_ascii_off(s, n - 1); }
}
proof fn lemma_at_byte(s: Seq<char>, b: int)
    ensures forall|i: int, j: int| #[trigger] at_byte(s, b, i) && #[trigger] at_byte(s, b, j) ==> i == j,
{
    assert forall|i: int, j: int| #[trigger] at_byte(s, b, i) && #[trigger] at_byte(s, b, j) implies i == j by {
        if i < j { lemma_byte_off_mono(s, i, j); }
        if j < i { lemma_byte_off_mono(s, j, i); }
    }
}
// characters of an ASCII text are bytes
proof fn lemma_bytes(b: Seq<char>)
    requires ascii(b),
    ensures
        forall|k: int, i: int| #[trigger] at_byte(b, k, i) <==> 0 <= i <= b.len() && i == k,
{
    reveal(ascii);
    assert forall|k: int, i: int| #[trigger] at_byte(b, k, i) <==> 0 <= i <= b.len() && i == k by {
        if 0 <= i <= b.len() { lemma_ascii_off(b, i); }
    }
}
// the same, with what follows for ASCII texts
pub fn vp_get<'a>(s: &'a str, a: usize, b: usize) -> (r: Option<&'a str>)
    ensures
        r is Some ==> exists|i: int| at_byte(s@, b as int, i),
        ascii(s@) ==> (r is Some <==> a <= b <= s@.len()),
        ascii(s@) && r is Some ==> r->Some_0@ == s@.subrange(a as int, b as int),
{
    proof { if ascii(s@) { lemma_bytes(s@); assert(a <= b <= s@.len() ==> at_byte(s@, a as int, a as int) && at_byte(s@, b as int, b as int)); } }
    vp_get0(s, a, b)
}
pub fn vp_from<'a>(s: &'a str, a: usize) -> (r: &'a str)
    requires exists|i: int| at_byte(s@, a as int, i),
    ensures ascii(s@) ==> r@ == s@.skip(a as int),
{
    proof { if ascii(s@) { lemma_bytes(s@); } }
    vp_from0(s, a)
}
pub fn vp_to<'a>(s: &'a str, b: usize) -> (r: &'a str)
    requires exists|i: int| at_byte(s@, b as int, i),
    ensures forall|i: int| at_byte(s@, b as int, i) ==> r@ == #[trigger] s@.take(i),
{
    proof { lemma_at_byte(s@, b as int); }
    vp_to0(s, b)
}
@rewrite i32::from_str($x) =>> vp_i32($x)
@rewrite u8::from_str($x) =>> vp_u8($x)
@rewrite $x.trim_start_matches($c) =>> vp_trim_start($x, $c)
@rewrite $x.trim_end_matches($c) =>> vp_trim_end($x, $c)
@rewrite $x.starts_with($c) =>> vp_starts($x, $c)
@rewrite $x.find($c) =>> vp_find($x, $c)
@rewrite $x.get(..$b) =>> vp_get($x, 0, $b)
@rewrite $x.get($a..$b) =>> vp_get($x, $a, $b)
@rewrite & $x[..$b] =>> vp_to($x, $b)
@rewrite & $x[$a..] =>> vp_from($x, $a)
@rewrite $x.split($c).collect() =>> vp_split($x, $c)
@rewrite Date::try_new_iso_date($y, $m, $d) =>> IsoDate::try_new_iso_date($y, $m, $d)
@mid
// ---- trusted: ICU dates and times as their fields ---------------------------------------------------
pub open spec fn leap(y: int) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
pub open spec fn days(y: int, m: int) -> int {
    if m == 2 { if leap(y) { 29 } else { 28 } } else if m == 4 || m == 6 || m == 9 || m == 11 { 30 } else { 31 }
}
pub open spec fn valid_date(y: int, m: int, d: int) -> bool { 1 <= m <= 12 && 1 <= d <= days(y, m) }
pub uninterp spec fn ymd(d: IsoDate) -> (int, int, int);
impl IsoDate {
    // ICU checks the upper limits only
    #[verifier::external_body]
    pub fn try_new_iso_date(y: i32, m: u8, d: u8) -> (r: Result<IsoDate, CalendarError>)
        requires m >= 1,
        ensures r is Ok <==> m <= 12 && d <= days(y as int, m as int), r is Ok ==> ymd(r->Ok_0) == (y as int, m as int, d as int),
    { unimplemented!() }
}
pub uninterp spec fn hmsn(t: Time) -> (int, int, int, int);
pub struct IsoHour { pub v: u8 }
pub struct IsoMinute { pub v: u8 }
pub struct IsoSecond { pub v: u8 }
pub struct NanoSecond { pub v: u32 }
impl IsoHour {
    pub fn zero() -> (r: IsoHour) ensures r.v == 0 { IsoHour { v: 0 } }
    #[verifier::external_body]
    pub fn from_str(s: &str) -> (r: Result<IsoHour, CalendarError>) ensures r is Ok <==> unsigned(s@) is Some && unsigned(s@)->Some_0 <= 24, r is Ok ==> r->Ok_0.v == unsigned(s@)->Some_0 { unimplemented!() }
}
impl IsoMinute {
    pub fn zero() -> (r: IsoMinute) ensures r.v == 0 { IsoMinute { v: 0 } }
    #[verifier::external_body]
    pub fn from_str(s: &str) -> (r: Result<IsoMinute, CalendarError>) ensures r is Ok <==> unsigned(s@) is Some && unsigned(s@)->Some_0 <= 60, r is Ok ==> r->Ok_0.v == unsigned(s@)->Some_0 { unimplemented!() }
}
impl IsoSecond {
    pub fn zero() -> (r: IsoSecond) ensures r.v == 0 { IsoSecond { v: 0 } }
    #[verifier::external_body]
    pub fn from_str(s: &str) -> (r: Result<IsoSecond, CalendarError>) ensures r is Ok <==> unsigned(s@) is Some && unsigned(s@)->Some_0 <= 61, r is Ok ==> r->Ok_0.v == unsigned(s@)->Some_0 { unimplemented!() }
}
impl NanoSecond {
    pub fn zero() -> (r: NanoSecond) ensures r.v == 0 { NanoSecond { v: 0 } }
    #[verifier::external_body]
    pub fn from_str(s: &str) -> (r: Result<NanoSecond, CalendarError>) ensures r is Ok <==> unsigned(s@) is Some && unsigned(s@)->Some_0 <= 999_999_999, r is Ok ==> r->Ok_0.v == unsigned(s@)->Some_0 { unimplemented!() }
}
impl Time {
    #[verifier::external_body]
    pub fn new(h: IsoHour, m: IsoMinute, s: IsoSecond, n: NanoSecond) -> (r: Time) ensures hmsn(r) == (h.v as int, m.v as int, s.v as int, n.v as int) { unimplemented!() }
}
// ---- D01: the documented forms ------------------------------------------------------------------
pub struct DF { pub year: Seq<char>, pub month: Option<Seq<char>>, pub day: Option<Seq<char>> }
// the fields of a text of a documented form (the year with its minus sign)
pub open spec fn date_form(s: Seq<char>) -> Option<DF> {
    let plus = s.len() > 0 && s[0] == '+';
    let b = if plus { s.skip(1) } else { s };
    let p = split_at(b, '-');
    if b.len() == 0 || b[0] == '+' || (plus && b[0] == '-') { None } // not documented
    else if p.len() == 1 && plus { Some(DF { year: p[0], month: None, day: None }) }
    else if p.len() == 1 && b.len() == 4 && ascii(b) { Some(DF { year: b, month: None, day: None }) }
    else if p.len() == 1 && b.len() == 8 && ascii(b) { Some(DF { year: b.take(4), month: Some(b.subrange(4, 6)), day: Some(b.subrange(6, 8)) }) }
    else if p.len() == 1 { None }
    else if p[0].len() == 0 {
        if p.len() == 2 { Some(DF { year: seq!['-'] + p[1], month: None, day: None }) }
        else if p.len() == 3 { Some(DF { year: seq!['-'] + p[1], month: Some(p[2]), day: None }) }
        else if p.len() == 4 { Some(DF { year: seq!['-'] + p[1], month: Some(p[2]), day: Some(p[3]) }) }
        else { None }
    }
    else if p.len() == 2 { Some(DF { year: p[0], month: Some(p[1]), day: None }) }
    else if p.len() == 3 { Some(DF { year: p[0], month: Some(p[1]), day: Some(p[2]) }) }
    else { None }
}
pub open spec fn date_field(f: Option<Seq<char>>) -> Option<int> {
    match f { None => Some(1), Some(s) => unsigned(s) }
}
pub open spec fn date_of(f: DF) -> Option<(int, int, int)> {
    match (signed(f.year), date_field(f.month), date_field(f.day)) {
        (Some(y), Some(m), Some(d)) => if i32::MIN <= y <= i32::MAX && valid_date(y, m, d) { Some((y, m, d)) } else { None },
        _ => None,
    }
}
proof fn lemma_split(s: Seq<char>, c: char)
    ensures split_at(s, c).len() >= 1, !s.contains(c) ==> split_at(s, c) == seq![s], s.contains(c) ==> split_at(s, c).len() >= 2,
        s.len() > 0 && s[0] == c ==> split_at(s, c)[0].len() == 0, s.len() > 0 && s[0] != c ==> split_at(s, c)[0].len() > 0,
    decreases s.len(),
{
    if s.contains(c) {
        let i = s.index_of_first(c)->Some_0;
        s.index_of_first_ensures(c);
        lemma_split(s.skip(i + 1), c);
    }
}
@file crates/localiser/src/formatter.rs
@fn decompose_iso_date
@props D01
@spec
    ensures
        date_form(string@) is Some ==> match date_of(date_form(string@)->Some_0) { // [D01]
            Some(d) => r is Ok && ymd(r->Ok_0) == d, // [D01]
            None => r is Err, // [D01]
        }, // [D01]
        r is Ok ==> valid_date(ymd(r->Ok_0).0, ymd(r->Ok_0).1, ymd(r->Ok_0).2), // [D01]
@entry
    proof {
        let s = string@;
        let b = if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s };
        lemma_leading('+');
        assert(s.skip(0) =~= s);
        lemma_split(b, '-');
        assert(b.len() == 0 || b[0] == '+' || s.skip(leading(s, '+') as int) == b);
        assert(b.len() == 4 ==> b.subrange(0, 4) =~= b);
        assert(b.len() == 8 ==> b.subrange(0, 4) =~= b.take(4));
        let p = split_at(b, '-');
        assert(p.len() > 1 ==> (seq!['-'] + p[1])[0] == '-');
    }
@mid
// ---- D02: the documented forms ------------------------------------------------------------------
#[verifier::opaque]
pub open spec fn zone_start(t: Seq<char>) -> int
    decreases t.len(),
{
    if t.len() == 0 || t[0] == '+' || t[0] == '-' || t[0] == 'Z' { 0 } else { 1 + zone_start(t.skip(1)) }
}
// the text without the leading T and the trailing zone
#[verifier::opaque]
pub open spec fn time_body(s: Seq<char>) -> Option<Seq<char>> {
    let t = if s.len() > 0 && s[0] == 'T' { s.skip(1) } else { s };
    let z = t.skip(zone_start(t));
    if t.len() > 0 && t[0] == 'T' { None }
    else if z.len() == 0 || z == seq!['Z'] || z[0] == '+' || z[0] == '-' { Some(t.take(zone_start(t))) }
    else { None }
}
pub struct TF { pub hour: Seq<char>, pub minute: Option<Seq<char>>, pub second: Option<Seq<char>>, pub nano: Option<Seq<char>> }
// what follows the seconds: nothing, or a full stop and nanoseconds
pub open spec fn nano_ok(x: Seq<char>) -> bool { x.len() == 0 || (x[0] == '.' && x.len() > 1 && x[1] != '.') }
pub open spec fn nano_of(x: Seq<char>) -> Option<Seq<char>> { if x.len() == 0 { None } else { Some(x.skip(1)) } }
#[verifier::opaque]
pub open spec fn time_form(s: Seq<char>) -> Option<TF> {
    match time_body(s) {
        None => None,
        Some(b) =>
            if !ascii(b) { None }
            else if b.len() == 2 { Some(TF { hour: b, minute: None, second: None, nano: None }) }
            else if b.len() == 4 && b[2] != ':' { Some(TF { hour: b.take(2), minute: Some(b.subrange(2, 4)), second: None, nano: None }) }
            else if b.len() == 5 && b[2] == ':' && b[3] != ':' { Some(TF { hour: b.take(2), minute: Some(b.subrange(3, 5)), second: None, nano: None }) }
            else if b.len() >= 6 && b[2] != ':' && b[4] != ':' && nano_ok(b.skip(6)) { Some(TF { hour: b.take(2), minute: Some(b.subrange(2, 4)), second: Some(b.subrange(4, 6)), nano: nano_of(b.skip(6)) }) }
            else if b.len() >= 8 && b[2] == ':' && b[3] != ':' && b[5] == ':' && b[6] != ':' && nano_ok(b.skip(8)) { Some(TF { hour: b.take(2), minute: Some(b.subrange(3, 5)), second: Some(b.subrange(6, 8)), nano: nano_of(b.skip(8)) }) }
            else { None },
    }
}
pub open spec fn time_field(f: Option<Seq<char>>) -> Option<int> {
    match f { None => Some(0), Some(s) => unsigned(s) }
}
pub open spec fn field_in(f: Option<int>, max: int) -> bool { f is Some && f->Some_0 <= max }
// the fields of a valid time
pub open spec fn time_ok(f: TF) -> bool {
    field_in(unsigned(f.hour), 24) && field_in(time_field(f.minute), 59) && field_in(time_field(f.second), 60) && field_in(time_field(f.nano), 999_999_999)
}
pub open spec fn time_of(f: TF) -> (int, int, int, int) {
    (unsigned(f.hour)->Some_0, time_field(f.minute)->Some_0, time_field(f.second)->Some_0, time_field(f.nano)->Some_0)
}
// a field that is not a number or out of range (60 minutes and 61 seconds, which ICU takes, are left open)
pub open spec fn time_bad(f: TF) -> bool {
    !field_in(unsigned(f.hour), 24) || !field_in(time_field(f.minute), 60) || !field_in(time_field(f.second), 61) || !field_in(time_field(f.nano), 999_999_999)
}
proof fn lemma_first(s: Seq<char>, c: char)
    ensures 0 <= first(s, c) <= s.len(), first(s, c) < s.len() ==> s[first(s, c)] == c, forall|i: int| 0 <= i < first(s, c) ==> s[i] != c,
    decreases s.len(),
{
    reveal(first);
    if s.len() > 0 && s[0] != c {
        lemma_first(s.skip(1), c);
        assert forall|i: int| 0 <= i < first(s, c) implies s[i] != c by { if i > 0 { assert(s.skip(1)[i - 1] == s[i]); } }
    }
}
proof fn lemma_zone(t: Seq<char>)
    ensures 0 <= zone_start(t) <= t.len(), zone_start(t) < t.len() ==> t[zone_start(t)] == '+' || t[zone_start(t)] == '-' || t[zone_start(t)] == 'Z',
        forall|i: int| 0 <= i < zone_start(t) ==> t[i] != '+' && t[i] != '-' && t[i] != 'Z',
    decreases t.len(),
{
    reveal(zone_start);
    if !(t.len() == 0 || t[0] == '+' || t[0] == '-' || t[0] == 'Z') {
        lemma_zone(t.skip(1));
        assert forall|i: int| 0 <= i < zone_start(t) implies t[i] != '+' && t[i] != '-' && t[i] != 'Z' by { if i > 0 { assert(t.skip(1)[i - 1] == t[i]); } }
    }
}
proof fn lemma_trailing(t: Seq<char>, c: char)
    ensures trailing(t, c) <= t.len(),
    decreases t.len(),
{ reveal(trailing); if t.len() > 0 && t.last() == c { lemma_trailing(t.drop_last(), c); } }
// cutting at the first plus, the first minus and the trailing Z is cutting at the zone
proof fn lemma_cut(t: Seq<char>)
    ensures ({
        let u = t.take(first(t, '+'));
        let v = u.take(first(u, '-'));
        let z = t.skip(zone_start(t));
        &&& 0 <= first(t, '+') <= t.len() && 0 <= first(u, '-') <= u.len()
        &&& at_byte(t, byte_off(t, first(t, '+')) as int, first(t, '+'))
        &&& at_byte(u, byte_off(u, first(u, '-')) as int, first(u, '-'))
        &&& t.take(t.len() as int) == t && u.take(u.len() as int) == u
        &&& z.len() == 0 || z == seq!['Z'] || z[0] == '+' || z[0] == '-' ==> v.take(v.len() - trailing(v, 'Z')) == t.take(zone_start(t))
    }),
{
    let u = t.take(first(t, '+'));
    let v = u.take(first(u, '-'));
    let e = zone_start(t);
    let z = t.skip(e);
    lemma_first(t, '+');
    lemma_first(u, '-');
    lemma_zone(t);
    lemma_trailing(v, 'Z');
    assert(t.take(t.len() as int) =~= t && u.take(u.len() as int) =~= u);
    if z.len() == 0 || z == seq!['Z'] || z[0] == '+' || z[0] == '-' {
        reveal_with_fuel(trailing, 3);
        if z.len() == 0 {
            assert(v =~= t);
            assert(t.len() > 0 ==> t.last() == t[t.len() - 1]);
            assert(v.take(v.len() - trailing(v, 'Z')) =~= t.take(e));
        } else if z == seq!['Z'] {
            assert(t.len() == e + 1 && t[e] == 'Z') by { assert(z[0] == t[e]); }
            assert(first(t, '+') == t.len());
            assert(first(u, '-') == u.len());
            assert(v =~= t);
            assert(v.drop_last() =~= t.take(e));
            assert(e > 0 ==> t.take(e).last() == t[e - 1]);
            assert(v.take(v.len() - trailing(v, 'Z')) =~= t.take(e));
        } else {
            assert(z[0] == t[e]);
            assert(v =~= t.take(e)) by {
                if t[e] == '+' {
                    assert(first(t, '+') == e);
                    assert(first(u, '-') == u.len());
                } else {
                    assert(first(t, '+') > e || first(t, '+') == t.len());
                    assert(u[e] == '-');
                    assert(first(u, '-') == e);
                }
            }
            assert(e > 0 ==> v.last() == t[e - 1]);
            assert(v.take(v.len() - trailing(v, 'Z')) =~= t.take(e));
        }
    }
}
// the rest after a number of leading c
pub open spec fn strip(s: Seq<char>, c: char) -> Seq<char> { s.skip(leading(s, c) as int) }
// what is left of the text after T and without the zone
pub open spec fn strip_zone(t: Seq<char>) -> Seq<char> {
    let u = t.take(first(t, '+'));
    let v = u.take(first(u, '-'));
    v.take(v.len() - trailing(v, 'Z'))
}
// the fields, found one after the other
proof fn lemma_fields(s: Seq<char>)
    ensures ({
        let t = strip(s, 'T');
        let u = t.take(first(t, '+'));
        let b = strip_zone(t);
        let r1 = strip(b.skip(2), ':');
        let r2 = strip(r1.skip(2), ':');
        let r3 = strip(r2.skip(2), '.');
        &&& t.take(t.len() as int) == t && u.take(u.len() as int) == u
        &&& at_byte(t, byte_off(t, first(t, '+')) as int, first(t, '+'))
        &&& at_byte(u, byte_off(u, first(u, '-')) as int, first(u, '-'))
        &&& time_form(s) is Some ==> {
            let f = time_form(s)->Some_0;
            &&& ascii(b) && b.len() >= 2 && b.subrange(0, 2) == f.hour && ascii(r1)
            &&& f.minute is None ==> r1.len() < 2 && f.second is None && f.nano is None
            &&& f.minute is Some ==> r1.len() >= 2 && r1.subrange(0, 2) == f.minute->Some_0 && ascii(r2)
            &&& f.second is None ==> f.nano is None && (f.minute is Some ==> r2.len() < 2)
            &&& f.second is Some ==> f.minute is Some && r2.len() >= 2 && r2.subrange(0, 2) == f.second->Some_0
            &&& f.nano is None ==> (f.second is Some ==> r3.len() == 0)
            &&& f.nano is Some ==> f.second is Some && r3.len() > 0 && r3 == f.nano->Some_0
        }
    }),
{
    let t = strip(s, 'T');
    lemma_leading('T'); lemma_leading(':'); lemma_leading('.');
    assert(s.skip(0) =~= s);
    lemma_cut(t);
    reveal(time_form); reveal(time_body);
    if time_form(s) is Some {
        let b = time_body(s)->Some_0;
        assert(b == strip_zone(t));
        assert(b.skip(0) =~= b);
        reveal(ascii);
        assert(b.subrange(0, 2) =~= b.take(2));
        assert(b.len() == 2 ==> b.take(2) =~= b);
        let x1 = b.skip(2);
        let r1 = strip(x1, ':');
        assert(x1.skip(0) =~= x1);
        assert(b.len() >= 3 ==> x1[0] == b[2]);
        assert(b.len() >= 4 ==> x1[1] == b[3]);
        let k1 = if b.len() >= 3 && b[2] == ':' { 3int } else { 2 };
        assert(r1 =~= b.skip(k1));
        if b.len() >= 4 {
            assert(r1.subrange(0, 2) =~= b.subrange(k1, k1 + 2));
            let x2 = r1.skip(2);
            let r2 = strip(x2, ':');
            assert(x2.skip(0) =~= x2);
            assert(x2 =~= b.skip(k1 + 2));
            let k2 = if k1 == 3 && b.len() >= 8 { 6int } else { k1 + 2 };
            assert(r2 =~= b.skip(k2));
            if b.len() >= 6 {
                assert(r2.subrange(0, 2) =~= b.subrange(k2, k2 + 2));
                let x3 = r2.skip(2);
                assert(x3 =~= b.skip(k2 + 2));
                assert(x3.skip(0) =~= x3);
                assert(x3.len() > 0 ==> x3[0] == b[k2 + 2]);
            }
        }
    }
}
@fn decompose_iso_time
@props D02
@spec
    ensures
        time_form(string@) is Some && time_ok(time_form(string@)->Some_0) ==> r is Ok && hmsn(r->Ok_0) == time_of(time_form(string@)->Some_0), // [D02]
        time_form(string@) is Some && time_bad(time_form(string@)->Some_0) ==> r is Err, // [D02]
@entry
    proof { lemma_fields(string@); }
@tail
// ---- the documented texts have these forms ----------------------------------------------------------
proof fn lemma_split_cat(a: Seq<char>, c: char, rest: Seq<char>)
    requires !a.contains(c),
    ensures split_at(a, c) == seq![a], split_at(a + seq![c] + rest, c) == seq![a] + split_at(rest, c),
{
    let s = a + seq![c] + rest;
    assert(s[a.len() as int] == c);
    s.index_of_first_ensures(c);
    let i = s.index_of_first(c)->Some_0;
    assert(i == a.len()) by { if i < a.len() { assert(a[i] == c); } }
    assert(s.take(i) =~= a);
    assert(s.skip(i + 1) =~= rest);
}
proof fn lemma_numeric(s: Seq<char>)
    requires numeric(s),
    ensures !s.contains('-'), !s.contains('+'), ascii(s), s[0] != '+', s[0] != '-', s[0] != 'T', unsigned(s) == Some(value(s) as int), signed(s) == Some(value(s) as int),
        signed(seq!['-'] + s) == Some(-value(s)),
{
    reveal(ascii); reveal(unsigned);
    assert(digit(s[0]));
    assert((seq!['-'] + s).skip(1) =~= s);
    assert forall|i: int| 0 <= i < s.len() implies s[i] != '-' && s[i] != '+' by { assert(digit(s[i])); }
}
// D01: years with or without sign, followed by a month, and a day
proof fn theorem_d01_forms(y: Seq<char>, m: Seq<char>, d: Seq<char>)
    requires numeric(y), numeric(m), numeric(d),
    ensures ({
        let h = seq!['-'];
        let p = seq!['+'];
        let (a, b, c) = (DF { year: y, month: None, day: None }, DF { year: y, month: Some(m), day: None }, DF { year: y, month: Some(m), day: Some(d) });
        &&& date_form(y + h + m) == Some(b) && date_form(y + h + (m + h + d)) == Some(c)
        &&& date_form(p + y) == Some(a) && date_form(p + (y + h + m)) == Some(b) && date_form(p + (y + h + (m + h + d))) == Some(c)
        &&& y.len() == 4 ==> date_form(y) == Some(a)
        &&& y.len() == 4 && m.len() == 2 && d.len() == 2 ==> date_form(y + m + d) == Some(c)
        &&& date_form(h + y) == Some(DF { year: h + y, ..a }) && date_form(h + (y + h + m)) == Some(DF { year: h + y, ..b }) && date_form(h + (y + h + (m + h + d))) == Some(DF { year: h + y, ..c })
        // and these are the fields' numbers
        &&& date_of(c) == (if value(y) <= i32::MAX && valid_date(value(y) as int, value(m) as int, value(d) as int) { Some((value(y) as int, value(m) as int, value(d) as int)) } else { None })
        &&& date_of(DF { year: h + y, ..c }) == (if value(y) <= i32::MAX + 1 && valid_date(-value(y), value(m) as int, value(d) as int) { Some((-value(y), value(m) as int, value(d) as int)) } else { None })
    }),
{
    let h = seq!['-'];
    let p = seq!['+'];
    lemma_numeric(y); lemma_numeric(m); lemma_numeric(d);
    lemma_split_cat(y, '-', m); lemma_split_cat(y, '-', m + h + d); lemma_split_cat(m, '-', d); lemma_split_cat(d, '-', d);
    let e = Seq::<char>::empty();
    for_minus(y); for_minus(y + h + m); for_minus(y + h + (m + h + d));
    for_plus(y); for_plus(y + h + m); for_plus(y + h + (m + h + d));
    assert((y + h + m)[0] == y[0]);
    assert((y + h + (m + h + d))[0] == y[0]);
    if y.len() == 4 && m.len() == 2 && d.len() == 2 {
        let s = y + m + d;
        assert(!s.contains('-')) by { assert forall|i: int| 0 <= i < s.len() implies s[i] != '-' by { assert(digit(y[0])); if i < 4 { assert(s[i] == y[i]); assert(y.contains(y[i])); } else if i < 6 { assert(s[i] == m[i - 4]); assert(m.contains(m[i - 4])); } else { assert(s[i] == d[i - 6]); assert(d.contains(d[i - 6])); } } }
        assert(ascii(s)) by { reveal(ascii); }
        assert(split_at(s, '-') == seq![s]);
        assert(s[0] == y[0]);
        assert(s.take(4) =~= y);
        assert(s.subrange(4, 6) =~= m);
        assert(s.subrange(6, 8) =~= d);
    }
}
proof fn for_minus(s: Seq<char>)
    ensures split_at(seq!['-'] + s, '-') == seq![Seq::<char>::empty()] + split_at(s, '-'), (seq!['-'] + s)[0] == '-',
{
    lemma_split_cat(Seq::empty(), '-', s);
    assert(Seq::<char>::empty() + seq!['-'] + s =~= seq!['-'] + s);
}
proof fn for_plus(s: Seq<char>)
    ensures (seq!['+'] + s).skip(1) == s, (seq!['+'] + s)[0] == '+',
{ assert((seq!['+'] + s).skip(1) =~= s); }
// D02: hours, minutes, seconds and nanoseconds, with or without T and zone
pub open spec fn zone(z: Seq<char>) -> bool { z.len() == 0 || z == seq!['Z'] || z[0] == '+' || z[0] == '-' }
proof fn lemma_body(pre: Seq<char>, b: Seq<char>, z: Seq<char>)
    requires pre.len() == 0 || pre == seq!['T'], zone(z), b.len() > 0, b[0] != 'T', forall|i: int| 0 <= i < b.len() ==> digit(b[i]) || b[i] == ':' || b[i] == '.',
    ensures time_body(pre + b + z) == Some(b), ascii(b),
{
    reveal(time_body); reveal(ascii);
    let s = pre + b + z;
    let t = if s.len() > 0 && s[0] == 'T' { s.skip(1) } else { s };
    assert(s[0] == if pre.len() == 0 { b[0] } else { 'T' });
    assert(t =~= b + z);
    lemma_zone(t);
    let e = zone_start(t);
    if e < b.len() { assert(t[e] == b[e]); assert(false); }
    if e > b.len() { assert(t[b.len() as int] == z[0]); assert(false); }
    assert(t.take(e) =~= b);
    assert(t.skip(e) =~= z);
    assert(t[0] == b[0]);
}
proof fn theorem_d02_forms(pre: Seq<char>, h: Seq<char>, m: Seq<char>, s: Seq<char>, n: Seq<char>, z: Seq<char>)
    requires pre.len() == 0 || pre == seq!['T'], zone(z), numeric(h), numeric(m), numeric(s), numeric(n), h.len() == 2, m.len() == 2, s.len() == 2,
    ensures ({
        let c = seq![':'];
        let p = seq!['.'];
        let f = TF { hour: h, minute: None, second: None, nano: None };
        let fm = TF { minute: Some(m), ..f };
        let fs = TF { second: Some(s), ..fm };
        let fn_ = TF { nano: Some(n), ..fs };
        &&& time_form(pre + h + z) == Some(f)
        &&& time_form(pre + (h + m) + z) == Some(fm) && time_form(pre + (h + c + m) + z) == Some(fm)
        &&& time_form(pre + (h + m + s) + z) == Some(fs) && time_form(pre + (h + c + m + c + s) + z) == Some(fs)
        &&& time_form(pre + (h + m + s + p + n) + z) == Some(fn_) && time_form(pre + (h + c + m + c + s + p + n) + z) == Some(fn_)
        &&& time_ok(fn_) <==> value(h) <= 24 && value(m) <= 59 && value(s) <= 60 && value(n) <= 999_999_999
        &&& time_of(fn_) == (value(h) as int, value(m) as int, value(s) as int, value(n) as int)
    }),
{
    let c = seq![':'];
    let p = seq!['.'];
    lemma_numeric(h); lemma_numeric(m); lemma_numeric(s); lemma_numeric(n);
    reveal(time_form);
    assert(digit(h[0]) && digit(h[1]) && digit(m[0]) && digit(m[1]) && digit(s[0]) && digit(s[1]) && digit(n[0]));
    lemma_body(pre, h, z);
    let b = h + m; lemma_body(pre, b, z); assert(b.take(2) =~= h && b.subrange(2, 4) =~= m);
    let b = h + c + m; lemma_body(pre, b, z); assert(b.take(2) =~= h && b.subrange(3, 5) =~= m);
    let b = h + m + s; lemma_body(pre, b, z); assert(b.take(2) =~= h && b.subrange(2, 4) =~= m && b.subrange(4, 6) =~= s);
    let b = h + c + m + c + s; lemma_body(pre, b, z); assert(b.take(2) =~= h && b.subrange(3, 5) =~= m && b.subrange(6, 8) =~= s);
    let b = h + m + s + p + n;
    assert forall|i: int| 0 <= i < b.len() implies digit(b[i]) || b[i] == ':' || b[i] == '.' by { if i >= 7 { assert(b[i] == n[i - 7]); } }
    lemma_body(pre, b, z); assert(b.take(2) =~= h && b.subrange(2, 4) =~= m && b.subrange(4, 6) =~= s && b.skip(6).skip(1) =~= n);
    let b = h + c + m + c + s + p + n;
    assert forall|i: int| 0 <= i < b.len() implies digit(b[i]) || b[i] == ':' || b[i] == '.' by { if i >= 9 { assert(b[i] == n[i - 9]); } }
    lemma_body(pre, b, z); assert(b.take(2) =~= h && b.subrange(3, 5) =~= m && b.subrange(6, 8) =~= s && b.skip(8).skip(1) =~= n);
}
