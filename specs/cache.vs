@module batch_tokenize
@prelude
// ---- C15: two sets with the same tokens and the same sequences count alike ------------------
pub open spec fn alike(a: &TokenSet, b: &TokenSet) -> bool {
    &&& a.tokens@.len() == b.tokens@.len() && a.sequences@.len() == b.sequences@.len()
    &&& forall|t: int| 0 <= t < a.tokens@.len() ==> #[trigger] a.tokens@[t].v() == b.tokens@[t].v()
    &&& forall|q: int| 0 <= q < a.sequences@.len() ==> #[trigger] a.sequences@[q].string@ == b.sequences@[q].string@ && a.sequences@[q].tokens@ == b.sequences@[q].tokens@
}
pub proof fn alike_piece(a: &TokenSet, b: &TokenSet, p: Piece)
    requires alike(a, b)
    ensures piece_ok(a, p) == piece_ok(b, p),
        piece_ok(a, p) ==> piece_str(a, p) == piece_str(b, p) && piece_cost(a, p) == piece_cost(b, p) && forall|t: int| piece_tok(a, p, t) == piece_tok(b, p, t),
{
    match p {
        Piece::Tok(t) => { if 0 <= t < a.tokens@.len() { assert(a.tokens@[t].v() == b.tokens@[t].v()); } }
        Piece::Sq(q) => { if 0 <= q < a.sequences@.len() { assert(a.sequences@[q].string@ == b.sequences@[q].string@); } }
    }
}
pub proof fn alike_cell(a: &TokenSet, b: &TokenSet, bytes: Seq<u8>, tab: Seq<Cell>, j: int)
    requires alike(a, b), cell_ok(a, bytes, tab, j)
    ensures cell_ok(b, bytes, tab, j)
{
    let p = tab[j].piece;
    alike_piece(a, b, p);
    assert(ends(a, bytes, p, j));
    assert(ends(b, bytes, p, j));
    assert forall|q: Piece| #[trigger] ends(b, bytes, q, j) implies tab[j].cost <= reach(b, tab, q, j)
            && (piece_str(b, q).len() > piece_str(b, p).len() ==> tab[j].cost < reach(b, tab, q, j)) by {
        alike_piece(a, b, q);
        assert(ends(a, bytes, q, j));
    }
}
pub proof fn alike_tab(a: &TokenSet, b: &TokenSet, bytes: Seq<u8>, tab: Seq<Cell>, n: int)
    requires alike(a, b), tab_ok(a, bytes, tab, n)
    ensures tab_ok(b, bytes, tab, n)
{
    assert forall|j: int| 1 <= j <= n implies #[trigger] cell_ok(b, bytes, tab, j) by { alike_cell(a, b, bytes, tab, j); }
}
pub proof fn alike_sym(a: &TokenSet, b: &TokenSet)
    requires alike(a, b)
    ensures alike(b, a)
{
    assert forall|t: int| 0 <= t < b.tokens@.len() implies #[trigger] b.tokens@[t].v() == a.tokens@[t].v() by { assert(a.tokens@[t].v() == b.tokens@[t].v()); }
    assert forall|q: int| 0 <= q < b.sequences@.len() implies #[trigger] b.sequences@[q].string@ == a.sequences@[q].string@ && b.sequences@[q].tokens@ == a.sequences@[q].tokens@ by { assert(a.sequences@[q].string@ == b.sequences@[q].string@); }
}
pub proof fn alike_read(a: &TokenSet, b: &TokenSet, bytes: Seq<u8>, tab: Seq<Cell>, n: int, pos: int)
    requires alike(a, b), tab_ok(a, bytes, tab, n), 0 <= pos <= n
    ensures read_tab(a, tab, pos) == read_tab(b, tab, pos)
    decreases pos
{
    if pos > 0 {
        let p = tab[pos].piece;
        assert(cell_ok(a, bytes, tab, pos));
        assert(ends(a, bytes, p, pos));
        alike_piece(a, b, p);
        let l = piece_str(a, p).len();
        if l != 0 && l <= pos { alike_read(a, b, bytes, tab, n, pos - l); }
    }
}
pub proof fn alike_canon(a: &TokenSet, b: &TokenSet, bytes: Seq<u8>)
    requires alike(a, b), covering(a), covering(b)
    ensures canon(a, bytes) == canon(b, bytes)
{
    let n = bytes.len() as int;
    tab_exists(a, bytes, n);
    let ta = canon_tab(a, bytes);
    assert(tab_ok(a, bytes, ta, n));
    alike_tab(a, b, bytes, ta, n);
    let tb = canon_tab(b, bytes);
    assert(tab_ok(b, bytes, tb, n));
    assert forall|j: int| 0 <= j <= n implies ta[j] == tb[j] by { tab_unique(b, bytes, ta, tb, n, j); }
    assert(ta =~= tb);
    alike_read(a, b, bytes, ta, n, n);
}
pub proof fn alike_sum(c: Seq<Piece>, f: spec_fn(Piece) -> nat, g: spec_fn(Piece) -> nat)
    requires forall|i: int| 0 <= i < c.len() ==> f(#[trigger] c[i]) == g(c[i])
    ensures sum(c, f) == sum(c, g)
    decreases c.len()
{
    if c.len() > 0 {
        let d = c.drop_first();
        assert forall|i: int| 0 <= i < d.len() implies f(#[trigger] d[i]) == g(d[i]) by { assert(d[i] == c[i + 1]); }
        alike_sum(d, f, g);
        assert(f(c[0]) == g(c[0]));
    }
}
pub proof fn alike_gain(a: &TokenSet, b: &TokenSet, c: Ctr, bytes: Seq<u8>)
    requires alike(a, b), covering(a), covering(b)
    ensures gain(a, c, bytes) == gain(b, c, bytes)
{
    alike_canon(a, b, bytes);
    let v = canon(a, bytes);
    canon_covers(a, bytes);
    match c {
        Ctr::Total => {
            let (f, g) = (costs(a), costs(b));
            assert forall|i: int| 0 <= i < v.len() implies f(#[trigger] v[i]) == g(v[i]) by { alike_piece(a, b, v[i]); }
            alike_sum(v, f, g);
        }
        Ctr::Tok(t) => {
            let (f, g) = (toks_of(a, t), toks_of(b, t));
            assert forall|i: int| 0 <= i < v.len() implies f(#[trigger] v[i]) == g(v[i]) by { alike_piece(a, b, v[i]); }
            alike_sum(v, f, g);
        }
        _ => {}
    }
}
pub proof fn alike_gains(a: &TokenSet, b: &TokenSet, c: Ctr, p: Seq<Seq<u8>>)
    requires alike(a, b), covering(a), covering(b)
    ensures gains(a, c, p) == gains(b, c, p)
    decreases p.len()
{
    if p.len() > 0 {
        alike_gains(a, b, c, p.drop_last());
        alike_gain(a, b, c, p.last());
    }
}

// ---- C15: the sorted set --------------------------------------------------------------------
/// The sets one can ask for: no string twice, fallback sequences of two or more tokens.
pub open spec fn askable(ts: &TokenSet, p: Seq<Seq<u8>>) -> bool {
    countable(ts, p) && keyable(ts.sv())
}
pub proof fn perm_piece(a: &TokenSet, b: &TokenSet, p: Seq<int>, q: Seq<int>, x: Piece) -> (y: Piece)
    requires a.wf(), b.wf(), permuted(a.toks(), b.toks(), p), permuted(a.spelled(), b.spelled(), q), piece_ok(b, x)
    ensures piece_ok(a, y), piece_str(a, y) == piece_str(b, x),
        match x { Piece::Tok(t) => y == Piece::Tok(p[t]), Piece::Sq(s) => y == Piece::Sq(q[s]) },
{
    match x {
        Piece::Tok(t) => {
            assert(b.toks()[t] == a.toks()[p[t]]);
            assert(b.tokens@[t].v() == a.tokens@[p[t]].v());
            Piece::Tok(p[t])
        }
        Piece::Sq(s) => {
            assert(b.spelled()[s] == a.spelled()[q[s]]);
            Piece::Sq(q[s])
        }
    }
}
pub proof fn sorted_covering(a: &TokenSet, b: &TokenSet)
    requires covering(a), sorted_of(a, b)
    ensures covering(b)
{
    let p = choose|p: Seq<int>| #[trigger] permuted(a.toks(), b.toks(), p);
    let q = choose|q: Seq<int>| #[trigger] permuted(a.spelled(), b.spelled(), q);
    assert forall|x: Piece| #[trigger] piece_ok(b, x) implies piece_str(b, x).len() > 0 by {
        let y = perm_piece(a, b, p, q, x);
        assert(piece_ok(a, y));
    }
    assert forall|x: Piece, y: Piece| #![trigger piece_ok(b, x), piece_ok(b, y)]
            piece_ok(b, x) && piece_ok(b, y) && piece_str(b, x) == piece_str(b, y) implies x == y by {
        let u = perm_piece(a, b, p, q, x);
        let v = perm_piece(a, b, p, q, y);
        assert(piece_ok(a, u) && piece_ok(a, v));
        assert(u == v);
    }
    assert forall|c: u8| #[trigger] byte_encoded(b, c) by {
        assert(byte_encoded(a, c));
        let y = choose|y: Piece| #[trigger] piece_ok(a, y) && piece_str(a, y) == seq![c];
        match y {
            Piece::Tok(t) => {
                assert(p.contains(t));
                let i = choose|i: int| 0 <= i < p.len() && p[i] == t;
                assert(b.toks()[i] == a.toks()[p[i]]);
                assert(b.tokens@[i].v() == a.tokens@[t].v());
                assert(piece_ok(b, Piece::Tok(i)) && piece_str(b, Piece::Tok(i)) == seq![c]);
            }
            Piece::Sq(s) => {
                assert(q.contains(s));
                let i = choose|i: int| 0 <= i < q.len() && q[i] == s;
                assert(b.spelled()[i] == a.spelled()[q[i]]);
                assert(piece_ok(b, Piece::Sq(i)) && piece_str(b, Piece::Sq(i)) == seq![c]);
            }
        }
    }
}
pub proof fn scanned_same(a: &TokenSet, b: &TokenSet, p: Seq<Seq<u8>>)
    ensures gains(a, Ctr::Scanned, p) == gains(b, Ctr::Scanned, p)
    decreases p.len()
{
    if p.len() > 0 { scanned_same(a, b, p.drop_last()); }
}
pub proof fn sorted_askable(a: &TokenSet, b: &TokenSet, p: Seq<Seq<u8>>)
    requires askable(a, p), sorted_of(a, b)
    ensures askable(b, p)
{
    sorted_covering(a, b);
    sort_keyable(a, b);
    let k = choose|k: nat| #[trigger] fits_u64(a, p, k);
    scanned_same(a, b, p);
    let q = choose|q: Seq<int>| #[trigger] permuted(a.spelled(), b.spelled(), q);
    assert forall|i: int| 0 <= i < b.sequences@.len() implies (#[trigger] b.sequences@[i]).tokens@.len() <= k by {
        assert(b.spelled()[i] == a.spelled()[q[i]]);
        assert(b.spelled()[i].toks.len() == b.sequences@[i].tokens@.len());
        assert(a.spelled()[q[i]].toks.len() == a.sequences@[q[i]].tokens@.len());
        assert(a.sequences@[q[i]].tokens@.len() <= k);
    }
    assert(fits_u64(b, p, k));
    assert(a.toks().len() == b.toks().len() && a.spelled().len() == b.spelled().len());
}
// two strictly sorted orders of the same things are the same
pub open spec fn flips<T>(cmp: spec_fn(T, T) -> core::cmp::Ordering) -> bool {
    forall|a: T, b: T| #[trigger] cmp(a, b) == core::cmp::Ordering::Less ==> cmp(b, a) != core::cmp::Ordering::Less
}
pub open spec fn ascending<T>(cmp: spec_fn(T, T) -> core::cmp::Ordering, x: Seq<T>) -> bool {
    forall|i: int, j: int| 0 <= i < j < x.len() ==> cmp(#[trigger] x[i], #[trigger] x[j]) == core::cmp::Ordering::Less
}
pub proof fn ascending_same<T>(cmp: spec_fn(T, T) -> core::cmp::Ordering, o: Seq<T>, x: Seq<T>, y: Seq<T>, i: int)
    requires flips(cmp), ascending(cmp, x), ascending(cmp, y), reordered(o, x), reordered(o, y), 0 <= i < o.len()
    ensures x.len() == o.len(), y.len() == o.len(), x[i] == y[i]
    decreases i
{
    let p = choose|p: Seq<int>| #[trigger] permuted(o, x, p);
    let q = choose|q: Seq<int>| #[trigger] permuted(o, y, q);
    assert forall|j: int| 0 <= j < i implies x[j] == y[j] by { ascending_same(cmp, o, x, y, j); }
    assert(q.contains(p[i]));
    let j = choose|j: int| 0 <= j < q.len() && q[j] == p[i];
    assert(y[j] == x[i]);
    assert(p.contains(q[i]));
    let k = choose|k: int| 0 <= k < p.len() && p[k] == q[i];
    assert(x[k] == y[i]);
    if j < i { assert(x[j] == y[j]); assert(cmp(x[j], x[i]) == core::cmp::Ordering::Less); assert(cmp(x[i], x[j]) != core::cmp::Ordering::Less); }
    if k < i { assert(x[k] == y[k]); assert(cmp(y[k], y[i]) == core::cmp::Ordering::Less); assert(cmp(y[i], y[k]) != core::cmp::Ordering::Less); }
    if j > i {
        assert(cmp(y[i], y[j]) == core::cmp::Ordering::Less);
        if k > i { assert(cmp(x[i], x[k]) == core::cmp::Ordering::Less); }
    }
}
pub open spec fn tok_order() -> spec_fn(TokV, TokV) -> core::cmp::Ordering { |a: TokV, b: TokV| tok_cmp(a, b) }
pub open spec fn spell_order() -> spec_fn(SpellV, SpellV) -> core::cmp::Ordering { |a: SpellV, b: SpellV| seq_cmp(a.string, b.string) }
pub proof fn orders_flip()
    ensures flips(tok_order()), flips(spell_order())
{
    assert forall|a: TokV, b: TokV| #[trigger] tok_order()(a, b) == core::cmp::Ordering::Less implies tok_order()(b, a) != core::cmp::Ordering::Less by { tok_cmp_flip(a, b); }
    assert forall|a: SpellV, b: SpellV| #[trigger] spell_order()(a, b) == core::cmp::Ordering::Less implies spell_order()(b, a) != core::cmp::Ordering::Less by { seq_cmp_flip(a.string, b.string); }
}
pub proof fn toks_differ(ts: &TokenSet, i: int, j: int)
    requires covering(ts), keyable(ts.sv()), 0 <= i < ts.tokens@.len(), 0 <= j < ts.tokens@.len(), ts.toks()[i] == ts.toks()[j]
    ensures i == j
{
    let s = ts.sv();
    assert(ts.toks()[i] == ts.tokens@[i].v() && ts.toks()[j] == ts.tokens@[j].v());
    if ts.tokens@[i] is Str {
        assert(piece_ok(ts, Piece::Tok(i)) && piece_ok(ts, Piece::Tok(j)));
        assert(piece_str(ts, Piece::Tok(i)) == piece_str(ts, Piece::Tok(j)));
    } else {
        if i >= s.n_ext { assert(s.toks[i] is Str); }
        if j >= s.n_ext { assert(s.toks[j] is Str); }
        assert(s.toks[i] == TokV::Ext(i as u8) && s.toks[j] == TokV::Ext(j as u8));
    }
}
pub proof fn sorted_ascending(ts: &TokenSet)
    requires covering(ts), keyable(ts.sv()), sorted_toks(ts.toks()), sorted_by_string(ts.sequences@)
    ensures ascending(tok_order(), ts.toks()), ascending(spell_order(), ts.spelled())
{
    assert forall|i: int, j: int| 0 <= i < j < ts.toks().len() implies tok_order()(#[trigger] ts.toks()[i], #[trigger] ts.toks()[j]) == core::cmp::Ordering::Less by {
        if ts.toks()[i] == ts.toks()[j] { toks_differ(ts, i, j); }
        match (ts.toks()[i], ts.toks()[j]) { (TokV::Str(x), TokV::Str(y)) => { seq_cmp_eq(x, y); } _ => {} }
    }
    assert forall|i: int, j: int| 0 <= i < j < ts.spelled().len() implies spell_order()(#[trigger] ts.spelled()[i], #[trigger] ts.spelled()[j]) == core::cmp::Ordering::Less by {
        let (x, y) = (ts.sequences@[i].string@, ts.sequences@[j].string@);
        assert(piece_ok(ts, Piece::Sq(i)) && piece_ok(ts, Piece::Sq(j)));
        if x == y { assert(piece_str(ts, Piece::Sq(i)) == piece_str(ts, Piece::Sq(j))); }
        seq_cmp_eq(x, y);
        assert(seq_cmp(x, y) != core::cmp::Ordering::Greater);
        assert(ts.spelled()[i].string == x && ts.spelled()[j].string == y);
    }
}
/// There is one sorted order.
pub proof fn c15_one_order(ts: &TokenSet, a: &TokenSet, b: &TokenSet, p: Seq<Seq<u8>>)
    requires askable(ts, p), sorted_of(ts, a), sorted_of(ts, b)
    ensures a.sv() == b.sv(), alike(a, b)
{
    sorted_askable(ts, a, p);
    sorted_askable(ts, b, p);
    sorted_ascending(a);
    sorted_ascending(b);
    orders_flip();
    assert(a.toks().len() == ts.toks().len() && b.toks().len() == ts.toks().len());
    assert forall|i: int| 0 <= i < ts.toks().len() implies a.toks()[i] == b.toks()[i] by { ascending_same(tok_order(), ts.toks(), a.toks(), b.toks(), i); }
    assert(a.toks() =~= b.toks());
    assert(a.spelled().len() == ts.spelled().len() && b.spelled().len() == ts.spelled().len());
    assert forall|i: int| 0 <= i < ts.spelled().len() implies a.spelled()[i] == b.spelled()[i] by { ascending_same(spell_order(), ts.spelled(), a.spelled(), b.spelled(), i); }
    assert(a.spelled() =~= b.spelled());
    same_view_alike(a, b);
}
/// What the saved form says determines the set, numbering of the tokens in the sequences and all.
pub proof fn same_view_alike(a: &TokenSet, b: &TokenSet)
    requires a.sv() == b.sv(), covering(a), b.wf(), keyable(a.sv())
    ensures alike(a, b)
{
    assert(a.toks() == b.toks() && a.spelled() == b.spelled());
    assert(a.toks().len() == a.tokens@.len() && b.toks().len() == b.tokens@.len());
    assert(a.spelled().len() == a.sequences@.len() && b.spelled().len() == b.sequences@.len());
    assert forall|t: int| 0 <= t < a.tokens@.len() implies #[trigger] a.tokens@[t].v() == b.tokens@[t].v() by { assert(a.toks()[t] == b.toks()[t]); }
    assert forall|q: int| 0 <= q < a.sequences@.len() implies #[trigger] a.sequences@[q].string@ == b.sequences@[q].string@ && a.sequences@[q].tokens@ == b.sequences@[q].tokens@ by {
        let (x, y) = (a.sequences@[q], b.sequences@[q]);
        assert(a.spelled()[q] == b.spelled()[q]);
        assert(spell(a.toks(), x) == spell(b.toks(), y));
        assert(x.idx_below(a.tokens@.len() as int) && y.idx_below(b.tokens@.len() as int));
        assert(x.tokens@.len() == spell(a.toks(), x).toks.len() && y.tokens@.len() == spell(b.toks(), y).toks.len());
        assert forall|j: int| 0 <= j < x.tokens@.len() implies x.tokens@[j] == y.tokens@[j] by {
            assert(spell(a.toks(), x).toks[j] == a.toks()[x.tokens@[j] as int]);
            assert(spell(b.toks(), y).toks[j] == b.toks()[y.tokens@[j] as int]);
            toks_differ(a, x.tokens@[j] as int, y.tokens@[j] as int);
        }
        assert(x.tokens@ =~= y.tokens@);
    }
}

// ---- C15: answers -------------------------------------------------------------------------------
/// exactly the statistics of the samples p, pair counts aside
pub open spec fn tallied_np(p: Seq<Seq<u8>>, initial: Option<u64>, r: &TokenStats) -> bool {
    let ts = &r.token_set;
    &&& r.initial_size == initial
    &&& r.token_counts@.len() == ts.tokens@.len() && r.seq_counts@.len() == ts.sequences@.len()
    &&& forall|c: Ctr| has_ctr(ts, c) && !(c is Pair) ==> #[trigger] ctr(r, c) == gains(ts, c, p)
}
/// an answer to the request for the statistics of ts
pub open spec fn answers(ts: &TokenSet, p: Seq<Seq<u8>>, initial: Option<u64>, r: &TokenStats) -> bool {
    sorted_of(ts, &r.token_set) && tallied_np(p, initial, r)
}
/// C15: computed now or remembered, with pair counts or without, it is the same answer.
pub proof fn c15_same_answer(ts: &TokenSet, p: Seq<Seq<u8>>, initial: Option<u64>, a: &TokenStats, b: &TokenStats)
    requires askable(ts, p), answers(ts, p, initial, a), answers(ts, p, initial, b)
    ensures a.token_set.sv() == b.token_set.sv(), alike(&a.token_set, &b.token_set), a.initial_size == b.initial_size,
        a.total_tokens == b.total_tokens, a.scanned_bytes == b.scanned_bytes,
        a.token_counts@ == b.token_counts@, a.seq_counts@ == b.seq_counts@,
{
    let (x, y) = (&a.token_set, &b.token_set);
    c15_one_order(ts, x, y, p);
    sorted_covering(ts, x);
    sorted_covering(ts, y);
    assert forall|c: Ctr| has_ctr(x, c) && !(c is Pair) implies #[trigger] ctr(a, c) == ctr(b, c) by {
        alike_gains(x, y, c, p);
        assert(has_ctr(y, c));
    }
    assert(ctr(a, Ctr::Total) == ctr(b, Ctr::Total));
    assert(ctr(a, Ctr::Scanned) == ctr(b, Ctr::Scanned));
    assert forall|t: int| 0 <= t < x.tokens@.len() implies a.token_counts@[t] == b.token_counts@[t] by { assert(ctr(a, Ctr::Tok(t)) == ctr(b, Ctr::Tok(t))); }
    assert forall|q: int| 0 <= q < x.sequences@.len() implies a.seq_counts@[q] == b.seq_counts@[q] by { assert(ctr(a, Ctr::Sq(q)) == ctr(b, Ctr::Sq(q))); }
    assert(a.token_counts@ =~= b.token_counts@ && a.seq_counts@ =~= b.seq_counts@);
}
/// C15: sets that differ - in tokens, sequences, kind, processing or paragraph flag - never share a key.
pub proof fn c15_keys(k: JV, a: &TokenSet, b: &TokenSet)
    requires saves(k, a.sv()), saves(k, b.sv()), keyable(a.sv()), keyable(b.sv())
    ensures a.sv() == b.sv()
{
    saves_inj(k, a.sv(), b.sv());
}
/// a remembered answer
pub open spec fn entry_ok(k: JV, p: Seq<Seq<u8>>, initial: Option<u64>, r: &TokenStats) -> bool {
    r.token_set.wf() && keyable(r.token_set.sv()) && sorted_toks(r.token_set.toks()) && sorted_by_string(r.token_set.sequences@)
        && saves(k, r.token_set.sv()) && tallied_np(p, initial, r)
}
pub open spec fn cache_ok(m: Map<Seq<char>, TokenStats>, p: Seq<Seq<u8>>, initial: Option<u64>) -> bool {
    forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> entry_ok(json_of(k), p, initial, &m[k])
}
/// what is remembered for the set asked for answers the request
pub proof fn entry_answers(ts: &TokenSet, n: &TokenSet, k: JV, p: Seq<Seq<u8>>, initial: Option<u64>, r: &TokenStats)
    requires askable(ts, p), sorted_of(ts, n), saves(k, n.sv()), entry_ok(k, p, initial, r)
    ensures answers(ts, p, initial, r)
{
    sorted_askable(ts, n, p);
    c15_keys(k, n, &r.token_set);
    assert(n.toks() == r.token_set.toks() && n.spelled() == r.token_set.spelled());
}
pub proof fn entry_new(n: &TokenSet, k: JV, p: Seq<Seq<u8>>, initial: Option<u64>, r: &TokenStats, e: &TokenStats)
    requires n.wf(), keyable(n.sv()), sorted_toks(n.toks()), sorted_by_string(n.sequences@), saves(k, n.sv()), tallied(n, p, initial, r),
        e.token_set == *n, e.initial_size == r.initial_size, e.total_tokens == r.total_tokens, e.scanned_bytes == r.scanned_bytes,
        e.token_counts@ == r.token_counts@, e.seq_counts@ == r.seq_counts@,
    ensures entry_ok(k, p, initial, e)
{
    assert forall|c: Ctr| has_ctr(n, c) && !(c is Pair) implies #[trigger] ctr(e, c) == gains(n, c, p) by {
        assert(ctr(r, c) == gains(n, c, p));
        assert(ctr(e, c) == ctr(r, c));
    }
}
pub proof fn tallied_answers(ts: &TokenSet, n: &TokenSet, p: Seq<Seq<u8>>, initial: Option<u64>, r: &TokenStats, e: &TokenStats)
    requires sorted_of(ts, n), tallied(n, p, initial, r),
        e.token_set == *n, e.initial_size == r.initial_size, e.total_tokens == r.total_tokens, e.scanned_bytes == r.scanned_bytes,
        e.token_counts@ == r.token_counts@, e.seq_counts@ == r.seq_counts@,
    ensures answers(ts, p, initial, e)
{
    assert forall|c: Ctr| has_ctr(n, c) && !(c is Pair) implies #[trigger] ctr(e, c) == gains(n, c, p) by {
        assert(ctr(r, c) == gains(n, c, p));
        assert(ctr(e, c) == ctr(r, c));
    }
}
impl<'a, S: Sampler<'a>> TokenizerCache<'a, S> {
    pub open spec fn ok(&self) -> bool { self.sampler.valid() && cache_ok(self.cache.m(), self.sampler.parts(), self.initial_size) }
    pub open spec fn same_source(&self, o: &Self) -> bool { self.sampler == o.sampler && self.initial_size == o.initial_size }
}

@fn TokenizerCache::new -> r
@props C15 C14
@spec
requires sampler.valid()
ensures r.ok(), r.sampler == sampler, r.initial_size == initial_size

@fn TokenizerCache::get_key -> r
@props C15 C14
@spec
requires token_set.wf()
ensures saves(json_of(r@), token_set.sv())

@fn TokenizerCache::get_stats_with_pairs -> r
@props C15 C14
@spec
requires old(self).ok(), askable(token_set, old(self).sampler.parts())
ensures final(self).ok(), final(self).same_source(old(self)), answers(token_set, old(self).sampler.parts(), old(self).initial_size, &r),
    tallied(&r.token_set, old(self).sampler.parts(), old(self).initial_size, &r)
@start
let ghost __ts = *token_set;
let ghost __p = self.sampler.parts();
proof {
    assert forall|n: TokenSet| #[trigger] sorted_of(&__ts, &n) implies askable(&n, __p) by { sorted_askable(&__ts, &n, __p); }
}
@end
proof {
    let n = __ret.token_set;
    assert(sorted_of(&__ts, &n));
    assert forall|k: Seq<char>, e: TokenStats| saves(json_of(k), n.sv()) && e.token_set == n && e.initial_size == __ret.initial_size && e.total_tokens == __ret.total_tokens && e.scanned_bytes == __ret.scanned_bytes
        && e.token_counts@ == __ret.token_counts@ && e.seq_counts@ == __ret.seq_counts@ implies #[trigger] entry_ok(json_of(k), __p, self.initial_size, &e) by {
        entry_new(&n, json_of(k), __p, self.initial_size, &__ret, &e);
    }
}

@fn TokenizerCache::get_stats -> r
@props C15 C14
@spec
requires old(self).ok(), askable(token_set, old(self).sampler.parts())
ensures final(self).ok(), final(self).same_source(old(self)), answers(token_set, old(self).sampler.parts(), old(self).initial_size, &r)
@start
let ghost __ts = *token_set;
let ghost __p = self.sampler.parts();
let ghost __in = self.initial_size;
proof {
    assert forall|n: TokenSet| #[trigger] sorted_of(&__ts, &n) implies askable(&n, __p) by { sorted_askable(&__ts, &n, __p); }
    assert forall|n: TokenSet, k: JV, r: TokenStats| sorted_of(&__ts, &n) && #[trigger] saves(k, n.sv()) && #[trigger] entry_ok(k, __p, __in, &r) implies answers(&__ts, __p, __in, &r) by {
        entry_answers(&__ts, &n, k, __p, __in, &r);
    }
    assert forall|n: TokenSet, k: JV, r: TokenStats, e: TokenStats| sorted_of(&__ts, &n) && #[trigger] saves(k, n.sv()) && #[trigger] tallied(&n, __p, __in, &r) && e.token_set == n && e.initial_size == r.initial_size && e.total_tokens == r.total_tokens && e.scanned_bytes == r.scanned_bytes
        && e.token_counts@ == r.token_counts@ && e.seq_counts@ == r.seq_counts@ implies #[trigger] entry_ok(k, __p, __in, &e) by {
        entry_new(&n, k, __p, __in, &r, &e);
    }
    assert forall|n: TokenSet, r: TokenStats, e: TokenStats| sorted_of(&__ts, &n) && #[trigger] tallied(&n, __p, __in, &r) && e.token_set == n && e.initial_size == r.initial_size && e.total_tokens == r.total_tokens && e.scanned_bytes == r.scanned_bytes
        && e.token_counts@ == r.token_counts@ && e.seq_counts@ == r.seq_counts@ implies #[trigger] answers(&__ts, __p, __in, &e) by {
        tallied_answers(&__ts, &n, __p, __in, &r, &e);
    }
}
