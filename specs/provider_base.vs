@mid
// ---- trusted: what SQLite answers to these texts -------------------------------------------------
pub open spec fn lower(c: char) -> char { if 'A' <= c <= 'Z' { (c as u32 + 32) as char } else { c } }
pub open spec fn lowers(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| lower(c)) }
// the same tag (LIKE ignores the case of ASCII letters)
pub open spec fn same(r: Seq<char>, t: Seq<char>) -> bool { lowers(r) == lowers(t) }
// r is t followed by further subtags
pub open spec fn extends(r: Seq<char>, t: Seq<char>) -> bool { r.len() > t.len() && lowers(r.take(t.len() as int)) == lowers(t) && r[t.len() as int] == '-' }
pub open spec fn hit(r: PatRow, i: Seq<char>, c: Seq<char>, t: Seq<char>, exact: bool) -> bool {
    r.identifier == i && r.component == c && if exact { r.tag == t } else { same(r.tag, t) || extends(r.tag, t) }
}
pub open spec fn hits(conn: Connection, i: Seq<char>, c: Seq<char>, t: Seq<char>, exact: bool) -> Seq<PatRow> {
    conn.patterns().filter(|r: PatRow| hit(r, i, c, t, exact))
}
// a tag has no wildcard of LIKE
pub open spec fn plain(t: Seq<char>) -> bool { !t.contains('%') && !t.contains('_') }
pub open spec fn cells_of(r: PatRow) -> Cells { seq![Cell::Text(r.text), Cell::Text(r.tag)] }
pub open spec fn params3(a: Seq<char>, b: Seq<char>, c: Seq<char>) -> Seq<Seq<char>> { seq![a, b, c] }
// the rows of a look-up for one tag, in the order of SQLite
pub uninterp spec fn rows_for(conn: Connection, i: Seq<char>, c: Seq<char>, t: Seq<char>, one: bool, exact: bool) -> Seq<PatRow>;
#[verifier::external_body]
pub proof fn axiom_sql_pattern(conn: Connection, one: bool, exact: bool)
    ensures forall|p: Seq<Seq<char>>| p.len() == 3 && plain(p[1]) ==> #[trigger] sql(conn, q_pattern(one, exact), p) == rows_for(conn, p[0], p[2], p[1], one, exact).map_values(|r: PatRow| cells_of(r)),
{}
#[verifier::external_body]
pub proof fn axiom_rows(conn: Connection, i: Seq<char>, c: Seq<char>, t: Seq<char>, one: bool, exact: bool)
    requires plain(t),
    ensures
        !one ==> rows_for(conn, i, c, t, one, exact).to_multiset() == hits(conn, i, c, t, exact).to_multiset(),
        one ==> rows_for(conn, i, c, t, one, exact).len() == (if hits(conn, i, c, t, exact).len() > 0 { 1nat } else { 0nat }),
        one && hits(conn, i, c, t, exact).len() > 0 ==> {
            let r = rows_for(conn, i, c, t, one, exact)[0];
            hits(conn, i, c, t, exact).contains(r) && forall|o: PatRow| #[trigger] hits(conn, i, c, t, exact).contains(o) ==> r.tag.len() <= o.tag.len()
        },
{}
// P01: the tag and its sub-tags, else the same of its parent, and so on
pub open spec fn answer(conn: Connection, i: Seq<char>, c: Seq<char>, t: Seq<char>, one: bool, exact: bool) -> Seq<PatRow>
    decreases t.len(),
{
    if t.len() == 0 { Seq::empty() }
    else if rows_for(conn, i, c, t, one, exact).len() > 0 { rows_for(conn, i, c, t, one, exact) }
    else if exact || parent_of(t).len() >= t.len() { Seq::empty() }
    else { answer(conn, i, c, parent_of(t), one, exact) }
}
pub type Found = (String, RefCount<LanguageTag>);
pub open spec fn is_row(f: Found, r: PatRow) -> bool { f.0@ == r.text && tag_of(r.tag) == Ok::<RefCount<LanguageTag>, RegistryError>(f.1) }
pub open spec fn are_rows(v: Seq<Found>, r: Seq<PatRow>) -> bool { v.len() == r.len() && forall|n: int| 0 <= n < v.len() ==> is_row(#[trigger] v[n], r[n]) }
impl LocalisationProviderSqlite3 {
    // P03: the all-in-one file first, the file of the component only if the former gave nothing
    pub open spec fn lookup(&self, i: Seq<char>, c: Seq<char>, t: Seq<char>, one: bool, exact: bool) -> Seq<PatRow> {
        if self.in_aio(c) && answer(self.aio_file(), i, c, t, one, exact).len() > 0 { answer(self.aio_file(), i, c, t, one, exact) }
        else if self.in_own(c) { answer(self.own_file(c), i, c, t, one, exact) }
        else { Seq::empty() }
    }
    pub open spec fn good(&self, c: Seq<char>) -> bool {
        (self.in_aio(c) ==> good(self.aio_file())) && (self.in_own(c) ==> good(self.own_file(c)))
    }
}
pub open spec fn is_found(f: Option<Found>, r: Seq<PatRow>) -> bool { if r.len() == 0 { f is None } else { f is Some && is_row(f->Some_0, r[0]) } }
// every row of a look-up is a row of the file for this component, identifier and language; there is one if the file has one
pub proof fn lemma_row(conn: Connection, i: Seq<char>, c: Seq<char>, t: Seq<char>, one: bool, exact: bool)
    requires plain(t),
    ensures
        forall|n: int| 0 <= n < rows_for(conn, i, c, t, one, exact).len() ==> {
            let r = #[trigger] rows_for(conn, i, c, t, one, exact)[n];
            conn.patterns().contains(r) && hit(r, i, c, t, exact) && hits(conn, i, c, t, exact).contains(r)
        },
        rows_for(conn, i, c, t, one, exact).len() == 0 <==> hits(conn, i, c, t, exact).len() == 0,
        forall|r: PatRow| #[trigger] hits(conn, i, c, t, exact).contains(r) <==> conn.patterns().contains(r) && hit(r, i, c, t, exact),
        !one ==> rows_for(conn, i, c, t, one, exact).len() == hits(conn, i, c, t, exact).len(),
{
    axiom_rows(conn, i, c, t, one, exact);
    let rows = rows_for(conn, i, c, t, one, exact);
    let h = hits(conn, i, c, t, exact);
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let f = |r: PatRow| hit(r, i, c, t, exact);
    assert forall|r: PatRow| #[trigger] h.contains(r) implies conn.patterns().contains(r) && hit(r, i, c, t, exact) by {
        let n = choose|n: int| 0 <= n < h.len() && h[n] == r;
        conn.patterns().lemma_filter_contains_rev(f, h[n]);
        conn.patterns().lemma_filter_pred(f, n);
    }
    assert forall|r: PatRow| conn.patterns().contains(r) && hit(r, i, c, t, exact) implies #[trigger] h.contains(r) by {
        let n = choose|n: int| 0 <= n < conn.patterns().len() && conn.patterns()[n] == r;
        conn.patterns().lemma_filter_contains(f, n);
    }
    assert forall|n: int| 0 <= n < rows.len() implies h.contains(#[trigger] rows[n]) by {
        if !one { assert(rows.contains(rows[n])); assert(rows.to_multiset().count(rows[n]) > 0); }
    }
    assert(!one ==> rows.to_multiset().len() == rows.len());
    assert(h.to_multiset().len() == h.len());
}
// what SQLite and the parents of tags give, for every tag
pub open spec fn facts(conn: Connection, i: Seq<char>, c: Seq<char>, one: bool, exact: bool) -> bool {
    &&& forall|p: Seq<Seq<char>>| p.len() == 3 && plain(p[1]) ==> #[trigger] sql(conn, q_pattern(one, exact), p) == rows_for(conn, p[0], p[2], p[1], one, exact).map_values(|r: PatRow| cells_of(r))
    &&& forall|t: Seq<char>, n: int| plain(t) && 0 <= n < rows_for(conn, i, c, t, one, exact).len() ==> conn.patterns().contains(#[trigger] rows_for(conn, i, c, t, one, exact)[n])
    &&& forall|t: Seq<char>| plain(t) && t.len() > 0 ==> plain(#[trigger] parent_of(t)) && parent_of(t).len() < t.len()
    &&& forall|t: Seq<char>| !t.contains('-') ==> (#[trigger] parent_of(t)) == Seq::<char>::empty()
    &&& plain(Seq::empty())
    &&& forall|t: Seq<char>| t.len() == 0 ==> (#[trigger] answer(conn, i, c, t, one, exact)) == Seq::<PatRow>::empty()
}
pub proof fn lemma_facts(conn: Connection, i: Seq<char>, c: Seq<char>, one: bool, exact: bool)
    ensures facts(conn, i, c, one, exact),
{
    axiom_sql_pattern(conn, one, exact); lemma_parents();
    assert forall|t: Seq<char>, n: int| plain(t) && 0 <= n < rows_for(conn, i, c, t, one, exact).len() implies conn.patterns().contains(#[trigger] rows_for(conn, i, c, t, one, exact)[n]) by {
        lemma_row(conn, i, c, t, one, exact);
    }
}
pub proof fn lemma_one(conn: Connection, i: Seq<char>, c: Seq<char>, t: Seq<char>, exact: bool)
    requires plain(t),
    ensures answer(conn, i, c, t, true, exact).len() <= 1,
    decreases t.len(),
{
    if t.len() > 0 { axiom_rows(conn, i, c, t, true, exact); lemma_parents(); lemma_one(conn, i, c, parent_of(t), exact); }
}
pub proof fn lemma_parents()
    ensures forall|t: Seq<char>| plain(t) && t.len() > 0 ==> plain(#[trigger] parent_of(t)) && parent_of(t).len() < t.len(),
        forall|t: Seq<char>| !t.contains('-') ==> (#[trigger] parent_of(t)) == Seq::<char>::empty(),
{
    assert forall|t: Seq<char>| plain(t) && t.len() > 0 implies plain(#[trigger] parent_of(t)) && parent_of(t).len() < t.len() by { lemma_parent(t, t.len() as int); }
    assert forall|t: Seq<char>| !t.contains('-') implies (#[trigger] parent_of(t)) == Seq::<char>::empty() by {
        assert forall|k: int| 0 <= k < t.len() implies t[k] != '-' by { assert(t.contains(t[k])); }
        lemma_no_parent(t, t.len() as int);
        assert(parent_of(t) =~= Seq::<char>::empty());
    }
}
pub proof fn lemma_parent(t: Seq<char>, n: int)
    requires 0 <= n <= t.len(), plain(t),
    ensures parent(t, n).len() <= n, n > 0 ==> parent(t, n).len() < n, plain(parent(t, n)), parent(t, n).len() <= t.len() && parent(t, n) == t.take(parent(t, n).len() as int),
    decreases n,
{
    if n <= 0 { assert(parent(t, n) =~= t.take(0)); }
    else if t[n - 1] == '-' {
        let p = t.take(n - 1);
        if p.contains('%') { let k = choose|k: int| 0 <= k < p.len() && p[k] == '%'; assert(t[k] == '%'); }
        if p.contains('_') { let k = choose|k: int| 0 <= k < p.len() && p[k] == '_'; assert(t[k] == '_'); }
    } else { lemma_parent(t, n - 1); }
}
pub proof fn lemma_no_parent(t: Seq<char>, n: int)
    requires 0 <= n <= t.len(), forall|k: int| 0 <= k < n ==> t[k] != '-',
    ensures parent(t, n).len() == 0,
    decreases n,
{
    if n > 0 { lemma_no_parent(t, n - 1); }
}
@file crates/provider/sqlite3/src/provider.rs
@fn query_pattern
    requires schema_version@ == "1.0"@,
    ensures r@ == q_pattern(only_one, exact), // [?]
@fn LocalisationProviderSqlite3::find_strings
@spec
    requires self.wf(), plain((**language_tag).tag@),
    ensures
        !self.has(component@, all_in_one) ==> r is Err && r->Err_0 is ComponentNotFound, // [P03]
        r is Ok ==> are_rows(r->Ok_0@, answer(self.file(component@, all_in_one), identifier@, component@, (**language_tag).tag@, only_one, exact)), // [P01] [P02]
        self.has(component@, all_in_one) && good(self.file(component@, all_in_one)) ==> r is Ok, // [P01] [P02] [P03]
@entry
    let mut vp_now: Ghost<int> = vp_clock();
    let ghost conn: Connection = self.file(component@, all_in_one);
    proof {
        reveal_strlit("Pattern"); reveal_strlit("Exact"); reveal_strlit("Aio"); reveal_strlit("One");
        lemma_facts(conn, identifier@, component@, only_one, exact);
    }
@loop 0
    invariant_except_break
        strings@.len() == 0,
        answer(conn, identifier@, component@, (**language_tag).tag@, only_one, exact) == answer(conn, identifier@, component@, tag@, only_one, exact),
    invariant
        plain(tag@), facts(conn, identifier@, component@, only_one, exact),
        statement.of() == conn, statement.text() == q_pattern(only_one, exact), conn == self.file(component@, all_in_one), self.has(component@, all_in_one),
    ensures
        are_rows(strings@, answer(conn, identifier@, component@, (**language_tag).tag@, only_one, exact)),
    decreases tag@.len(),
@loop 1
    invariant
        plain(tag@), facts(conn, identifier@, component@, only_one, exact),
        conn == self.file(component@, all_in_one), self.has(component@, all_in_one),
        rows.of() == conn, rows.at() <= rows.all().len(),
        rows.all() == rows_for(conn, identifier@, component@, tag@, only_one, exact).map_values(|r: PatRow| cells_of(r)),
        are_rows(strings@, rows_for(conn, identifier@, component@, tag@, only_one, exact).take(rows.at() as int)),
    ensures rows.at() == rows.all().len(),
    decreases rows.all().len() - rows.at(),
@fn LocalisationProviderSqlite3::string
@spec
    requires self.wf(), plain((**language_tag).tag@),
    ensures
        !self.known(component@) ==> r is Err && r->Err_0 is ComponentNotFound && r->Err_0->ComponentNotFound_0@ == component@, // [P03]
        r is Ok ==> is_found(r->Ok_0, self.lookup(identifier@, component@, (**language_tag).tag@, true, false)), // [P01] [P03]
        self.known(component@) && self.good(component@) ==> r is Ok, // [P01] [P03]
@entry
    proof { lemma_one(self.aio_file(), identifier@, component@, (**language_tag).tag@, false); lemma_one(self.own_file(component@), identifier@, component@, (**language_tag).tag@, false); }
@fn LocalisationProviderSqlite3::string_exact_match
@spec
    requires self.wf(), plain((**language_tag).tag@),
    ensures
        !self.known(component@) ==> r is Err && r->Err_0 is ComponentNotFound && r->Err_0->ComponentNotFound_0@ == component@, // [P03]
        r is Ok ==> is_found(r->Ok_0, self.lookup(identifier@, component@, (**language_tag).tag@, true, true)), // [P02] [P03]
        self.known(component@) && self.good(component@) ==> r is Ok, // [P02] [P03]
@entry
    proof { lemma_one(self.aio_file(), identifier@, component@, (**language_tag).tag@, true); lemma_one(self.own_file(component@), identifier@, component@, (**language_tag).tag@, true); }
@fn LocalisationProviderSqlite3::strings
@spec
    requires self.wf(), plain((**language_tag).tag@),
    ensures
        !self.known(component@) ==> r is Err && r->Err_0 is ComponentNotFound && r->Err_0->ComponentNotFound_0@ == component@, // [P03]
        r is Ok ==> are_rows(r->Ok_0@, self.lookup(identifier@, component@, (**language_tag).tag@, false, false)), // [P01] [P03]
        self.known(component@) && self.good(component@) ==> r is Ok, // [P01] [P03]
@tail
// ---- P01, P02: what the look-ups give, stated over the rows of the files --------------------------
pub open spec fn anc(t: Seq<char>, n: nat) -> Seq<char>
    decreases n,
{ if n == 0 { t } else { parent_of(anc(t, (n - 1) as nat)) } }
proof fn lemma_anc(t: Seq<char>, n: nat)
    ensures anc(t, n + 1) == anc(parent_of(t), n),
    decreases n,
{
    reveal_with_fuel(anc, 2);
    if n > 0 { lemma_anc(t, (n - 1) as nat); }
}
pub open spec fn none_for(conn: Connection, i: Seq<char>, c: Seq<char>, t: Seq<char>) -> bool {
    forall|r: PatRow| #[trigger] conn.patterns().contains(r) ==> !hit(r, i, c, t, false)
}
pub open spec fn first_for(conn: Connection, i: Seq<char>, c: Seq<char>, t: Seq<char>, n: nat) -> bool {
    anc(t, n).len() > 0 && !none_for(conn, i, c, anc(t, n)) && forall|m: nat| m < n ==> none_for(conn, i, c, #[trigger] anc(t, m))
}
// the plural look-up gives all strings of the first tag in the chain that has any, the singular one of them:
// one of the tag itself if there is one
pub proof fn theorem_p01(conn: Connection, i: Seq<char>, c: Seq<char>, t: Seq<char>)
    requires plain(t), t.len() > 0,
    ensures
        answer(conn, i, c, t, true, false).len() == 0 <==> answer(conn, i, c, t, false, false).len() == 0,
        answer(conn, i, c, t, true, false).len() == 0 ==> forall|n: nat| (#[trigger] anc(t, n)).len() > 0 ==> none_for(conn, i, c, anc(t, n)),
        answer(conn, i, c, t, true, false).len() > 0 ==> exists|n: nat| #[trigger] first_for(conn, i, c, t, n) && ({
            let r = answer(conn, i, c, t, true, false)[0];
            &&& answer(conn, i, c, t, false, false).to_multiset() == hits(conn, i, c, anc(t, n), false).to_multiset()
            &&& answer(conn, i, c, t, true, false).len() == 1 && conn.patterns().contains(r) && hit(r, i, c, anc(t, n), false)
            &&& (exists|o: PatRow| #[trigger] conn.patterns().contains(o) && o.identifier == i && o.component == c && same(o.tag, anc(t, n))) ==> same(r.tag, anc(t, n))
        }),
    decreases t.len(),
{
    lemma_row(conn, i, c, t, true, false); lemma_row(conn, i, c, t, false, false);
    axiom_rows(conn, i, c, t, true, false); axiom_rows(conn, i, c, t, false, false);
    lemma_parents();
    let h = hits(conn, i, c, t, false);
    reveal_with_fuel(anc, 2); reveal_with_fuel(answer, 2);
    assert(anc(t, 0) == t);
    if h.len() > 0 {
        assert(h.contains(h[0]));
        let r = rows_for(conn, i, c, t, true, false)[0];
        assert(answer(conn, i, c, t, true, false)[0] == r);
        assert(first_for(conn, i, c, t, 0));
        if exists|o: PatRow| #[trigger] conn.patterns().contains(o) && o.identifier == i && o.component == c && same(o.tag, t) {
            let o = choose|o: PatRow| #[trigger] conn.patterns().contains(o) && o.identifier == i && o.component == c && same(o.tag, t);
            assert(hit(o, i, c, t, false)); assert(h.contains(o));
            assert(lowers(o.tag).len() == o.tag.len() && lowers(t).len() == t.len());
            assert(r.tag.len() <= t.len());
            assert(same(r.tag, t));
        }
    } else {
        assert(none_for(conn, i, c, t)) by {
            assert forall|r: PatRow| #[trigger] conn.patterns().contains(r) implies !hit(r, i, c, t, false) by {
                if hit(r, i, c, t, false) { assert(h.contains(r)); }
            }
        }
        let p = parent_of(t);
        if p.len() == 0 {
            assert forall|n: nat| (#[trigger] anc(t, n)).len() > 0 implies none_for(conn, i, c, anc(t, n)) by { lemma_anc_empty(t, n); }
        } else {
            theorem_p01(conn, i, c, p);
            assert forall|n: nat| n > 0 implies #[trigger] anc(t, n) == anc(p, (n - 1) as nat) by { lemma_anc(t, (n - 1) as nat); }
            if answer(conn, i, c, t, true, false).len() == 0 {
                assert forall|n: nat| (#[trigger] anc(t, n)).len() > 0 implies none_for(conn, i, c, anc(t, n)) by {
                    if n > 0 { assert(anc(t, n) == anc(p, (n - 1) as nat)); }
                }
            } else {
                let n = choose|n: nat| #[trigger] first_for(conn, i, c, p, n) && ({
                    let r = answer(conn, i, c, p, true, false)[0];
                    &&& answer(conn, i, c, p, false, false).to_multiset() == hits(conn, i, c, anc(p, n), false).to_multiset()
                    &&& answer(conn, i, c, p, true, false).len() == 1 && conn.patterns().contains(r) && hit(r, i, c, anc(p, n), false)
                    &&& (exists|o: PatRow| #[trigger] conn.patterns().contains(o) && o.identifier == i && o.component == c && same(o.tag, anc(p, n))) ==> same(r.tag, anc(p, n))
                });
                assert(anc(t, n + 1) == anc(p, n));
                assert forall|m: nat| m < n + 1 implies none_for(conn, i, c, #[trigger] anc(t, m)) by {
                    if m > 0 { assert(anc(t, m) == anc(p, (m - 1) as nat)); }
                }
                assert(first_for(conn, i, c, t, n + 1));
            }
        }
    }
}
proof fn lemma_anc_empty(t: Seq<char>, n: nat)
    requires parent_of(t).len() == 0,
    ensures n > 0 ==> anc(t, n).len() == 0, n == 0 ==> anc(t, n) == t,
    decreases n,
{
    reveal_with_fuel(anc, 2);
    if n > 1 { lemma_anc_empty(t, (n - 1) as nat); }
}
// the exact look-up: a string of exactly this tag, whenever the file has one
pub proof fn theorem_p02(conn: Connection, i: Seq<char>, c: Seq<char>, t: Seq<char>)
    requires plain(t), t.len() > 0,
    ensures
        answer(conn, i, c, t, true, true).len() <= 1,
        answer(conn, i, c, t, true, true).len() == 1 <==> exists|r: PatRow| #[trigger] conn.patterns().contains(r) && r.identifier == i && r.component == c && r.tag == t,
        answer(conn, i, c, t, true, true).len() == 1 ==> ({
            let r = answer(conn, i, c, t, true, true)[0];
            conn.patterns().contains(r) && r.identifier == i && r.component == c && r.tag == t
        }),
{
    lemma_row(conn, i, c, t, true, true); axiom_rows(conn, i, c, t, true, true);
    if exists|r: PatRow| #[trigger] conn.patterns().contains(r) && r.identifier == i && r.component == c && r.tag == t {
        let r = choose|r: PatRow| #[trigger] conn.patterns().contains(r) && r.identifier == i && r.component == c && r.tag == t;
        assert(hit(r, i, c, t, true)); assert(hits(conn, i, c, t, true).contains(r));
    }
}
