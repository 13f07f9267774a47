@module tokenizer2
@prelude
// ---- the cover taken is a cheapest one, as a fact about covers alone -------------------
pub proof fn sum_add(a: Seq<Piece>, b: Seq<Piece>, f: spec_fn(Piece) -> nat)
    ensures sum(a + b, f) == sum(a, f) + sum(b, f)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); } else {
        assert((a + b).drop_first() =~= a.drop_first() + b);
        sum_add(a.drop_first(), b, f);
    }
}
pub proof fn cat_add(ts: &TokenSet, a: Seq<Piece>, b: Seq<Piece>)
    ensures cat(ts, a + b) == cat(ts, a) + cat(ts, b)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); assert(cat(ts, a + b) =~= cat(ts, a) + cat(ts, b)); } else {
        assert((a + b).drop_first() =~= a.drop_first() + b);
        cat_add(ts, a.drop_first(), b);
        assert(cat(ts, a + b) =~= cat(ts, a) + cat(ts, b));
    }
}
pub proof fn read_cost(ts: &TokenSet, bytes: Seq<u8>, tab: Seq<Cell>, n: int, pos: int)
    requires covering(ts), tab_ok(ts, bytes, tab, n), 0 <= pos <= n
    ensures sum(read_tab(ts, tab, pos), costs(ts)) == tab[pos].cost
    decreases pos
{
    if pos > 0 {
        assert(cell_ok(ts, bytes, tab, pos));
        let p = tab[pos].piece;
        assert(ends(ts, bytes, p, pos));
        let i = pos - piece_str(ts, p).len();
        read_cost(ts, bytes, tab, n, i);
        sum_push(read_tab(ts, tab, i), p, costs(ts));
    }
}
pub proof fn tab_least(ts: &TokenSet, bytes: Seq<u8>, tab: Seq<Cell>, n: int, pos: int, d: Seq<Piece>)
    requires covering(ts), tab_ok(ts, bytes, tab, n), 0 <= pos <= n, covers(ts, d, bytes.take(pos))
    ensures tab[pos].cost <= sum(d, costs(ts))
    decreases pos
{
    if pos > 0 {
        if d.len() == 0 { assert(bytes.take(pos).len() == pos); }
        let e = d.drop_last();
        let p = d.last();
        assert(d =~= e.push(p));
        cat_push(ts, e, p);
        sum_push(e, p, costs(ts));
        assert(piece_ok(ts, p));
        let s = piece_str(ts, p);
        let i = pos - s.len();
        let b = bytes.take(pos);
        assert(cat(ts, e) + s == b);
        assert(b.skip(i) =~= s);
        assert(ends(ts, bytes, p, pos));
        assert(cell_ok(ts, bytes, tab, pos));
        assert(bytes.take(i) =~= cat(ts, e)) by { assert((cat(ts, e) + s).take(i) =~= cat(ts, e)); assert(b.take(i) =~= bytes.take(i)); }
        assert forall|k: int| 0 <= k < e.len() implies piece_ok(ts, #[trigger] e[k]) by { assert(e[k] == d[k]); }
        tab_least(ts, bytes, tab, n, i, e);
    }
}
pub proof fn canon_cheapest(ts: &TokenSet, bytes: Seq<u8>)
    requires covering(ts)
    ensures cheapest(ts, canon(ts, bytes), bytes)
{
    let n = bytes.len() as int;
    let t = tab_exists(ts, bytes, n);
    let tab = canon_tab(ts, bytes);
    assert(tab_ok(ts, bytes, tab, n));
    read_cost(ts, bytes, tab, n, n);
    assert forall|d: Seq<Piece>| #[trigger] covers(ts, d, bytes) implies sum(canon(ts, bytes), costs(ts)) <= sum(d, costs(ts)) by {
        assert(bytes.take(n) =~= bytes);
        tab_least(ts, bytes, tab, n, n, d);
    }
}
/// tokens a, b stand next to each other at k
pub open spec fn adjacent(c: Seq<Piece>, a: int, b: int, k: int) -> bool {
    0 <= k && k + 1 < c.len() && c[k] == Piece::Tok(a) && c[k + 1] == Piece::Tok(b)
}
pub proof fn pair_adjacent(c: Seq<Piece>, a: int, b: int) -> (k: int)
    requires n_pair(c, a, b) > 0
    ensures adjacent(c, a, b, k)
    decreases c.len()
{
    if c[0] == Piece::Tok(a) && c[1] == Piece::Tok(b) { 0 } else {
        let k = pair_adjacent(c.drop_first(), a, b);
        k + 1
    }
}
/// No token spells what two adjacent tokens of a cheapest cover spell.
pub proof fn merged_is_new(ts: &TokenSet, c: Seq<Piece>, bytes: Seq<u8>, a: int, b: int, k: int, t: int)
    requires covers(ts, c, bytes), cheapest(ts, c, bytes), adjacent(c, a, b, k), piece_ok(ts, Piece::Tok(t))
    ensures piece_str(ts, Piece::Tok(t)) != piece_str(ts, Piece::Tok(a)) + piece_str(ts, Piece::Tok(b))
{
    let (p, q, m) = (Piece::Tok(a), Piece::Tok(b), Piece::Tok(t));
    if piece_str(ts, m) == piece_str(ts, p) + piece_str(ts, q) {
        let (h, r) = (c.take(k), c.skip(k + 2));
        assert(c =~= h.push(p).push(q) + r);
        let d = h.push(m) + r;
        cat_push(ts, h, p); cat_push(ts, h.push(p), q); cat_push(ts, h, m);
        cat_add(ts, h.push(p).push(q), r); cat_add(ts, h.push(m), r);
        assert(cat(ts, d) =~= cat(ts, c));
        sum_push(h, p, costs(ts)); sum_push(h.push(p), q, costs(ts)); sum_push(h, m, costs(ts));
        sum_add(h.push(p).push(q), r, costs(ts)); sum_add(h.push(m), r, costs(ts));
        assert forall|i: int| 0 <= i < d.len() implies piece_ok(ts, #[trigger] d[i]) by {
            if i < k { assert(d[i] == c[i]); } else if i > k { assert(d[i] == c[i + 1]); }
        }
        assert(covers(ts, d, bytes));
    }
}

@module optimize
@prelude
use crate::vx::*;

use super::processing::Processing;
use super::tokenset::*;
use super::stats2::*;
use super::tokenizer2::*;
use super::batch_tokenize::*;

// ---- C13: merging two tokens ------------------------------------------------------------
/// after two line feeds in a row come only line feeds
pub open spec fn within(s: Seq<u8>) -> bool {
    forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i && i + 1 < j < s.len() && s[i] == 10 && s[i + 1] == 10 ==> s[j] == 10
}
/// no other byte directly after two line feeds, among the first n places
pub open spec fn steady(s: Seq<u8>, n: int) -> bool {
    forall|i: int| #![trigger s[i]] 0 <= i < n && i + 2 < s.len() && s[i] == 10 && s[i + 1] == 10 ==> s[i + 2] == 10
}
pub proof fn steady_run(s: Seq<u8>, n: int, i: int, j: int)
    requires steady(s, n), s.len() <= n + 2, 0 <= i, i + 1 < j < s.len(), s[i] == 10, s[i + 1] == 10
    ensures s[j] == 10
    decreases j
{
    if j > i + 2 {
        steady_run(s, n, i, j - 1);
        if j > i + 3 { steady_run(s, n, i, j - 2); }
        assert(s[j - 2] == 10);
    }
}
pub proof fn steady_within(s: Seq<u8>, n: int)
    requires s.len() <= n + 2
    ensures steady(s, n) == within(s)
{
    if steady(s, n) {
        assert forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i && i + 1 < j < s.len() && s[i] == 10 && s[i + 1] == 10 implies s[j] == 10 by { steady_run(s, n, i, j); }
    }
    if within(s) {
        assert forall|i: int| #![trigger s[i]] 0 <= i < n && i + 2 < s.len() && s[i] == 10 && s[i + 1] == 10 implies s[i + 2] == 10 by { }
    }
}
pub proof fn newline_byte()
    ensures vstd::utf8::encode_utf8("\n"@) == seq![10u8]
{
    reveal_strlit("\n");
    vstd::utf8::is_ascii_chars_encode_utf8("\n"@);
    assert(vstd::utf8::encode_utf8("\n"@) =~= seq![10u8]);
}
/// the string of the pair with index x
pub open spec fn pair_str(ts: &TokenSet, x: int) -> Seq<u8> {
    piece_str(ts, Piece::Tok(x / (ts.tokens@.len() as int))) + piece_str(ts, Piece::Tok(x % (ts.tokens@.len() as int)))
}
/// The statistics are those of some samples, with pair counts.
pub open spec fn paired_of(st: &TokenStats, p: Seq<Seq<u8>>) -> bool {
    &&& covering(&st.token_set) && tallied(&st.token_set, p, st.initial_size, st)
    &&& gains(&st.token_set, Ctr::Scanned, p) <= i64::MAX
}
pub open spec fn paired(st: &TokenStats) -> bool { exists|p: Seq<Seq<u8>>| #[trigger] paired_of(st, p) }
/// The two tokens of pair x occur next to each other in the samples.
pub open spec fn met(st: &TokenStats, x: int) -> bool {
    0 <= x < st.pair_counts@.len() && st.pair_counts@[x] > 0
}
/// Pair x may be merged.
pub open spec fn permitted(st: &TokenStats, x: int) -> bool { met(st, x) && within(pair_str(&st.token_set, x)) }
pub open spec fn best_pair(st: &TokenStats, x: int) -> bool {
    permitted(st, x) && forall|y: int| #[trigger] permitted(st, y) ==> st.pair_counts@[y] <= st.pair_counts@[x]
}
/// `r` is `ts` and one token more
pub open spec fn grown(ts: &TokenSet, t: Seq<u8>, r: &TokenSet) -> bool {
    &&& r.same_header(ts)
    &&& r.tokens@.len() == ts.tokens@.len() + 1 && r.tokens@.drop_last() == ts.tokens@ && r.tokens@.last().v() == TokV::Str(t)
    &&& r.sequences@ == ts.sequences@.filter(keeps(t))
}
/// What a pair that occurs is: two strings, found side by side in one of the samples, and their concatenation is no token yet.
pub open spec fn genuine(st: &TokenStats, x: int) -> bool {
    let ts = &st.token_set;
    let n = ts.tokens@.len() as int;
    &&& n > 0 && piece_ok(ts, Piece::Tok(x / n)) && piece_ok(ts, Piece::Tok(x % n))
    &&& pair_str(ts, x).len() >= 2 && !ts.toks().contains(TokV::Str(pair_str(ts, x)))
    &&& st.pair_counts@[x] <= i64::MAX
}
pub proof fn gains_some(ts: &TokenSet, c: Ctr, p: Seq<Seq<u8>>) -> (i: int)
    requires gains(ts, c, p) > 0
    ensures 0 <= i < p.len(), gain(ts, c, p[i]) > 0
    decreases p.len()
{
    if gain(ts, c, p.last()) > 0 { p.len() - 1 } else { gains_some(ts, c, p.drop_last()) }
}
pub proof fn pair_gain_le(ts: &TokenSet, x: int, p: Seq<Seq<u8>>)
    requires covering(ts)
    ensures gains(ts, Ctr::Pair(x), p) <= gains(ts, Ctr::Scanned, p)
    decreases p.len()
{
    if p.len() > 0 {
        pair_gain_le(ts, x, p.drop_last());
        let b = p.last();
        canon_covers(ts, b);
        cat_len(ts, canon(ts, b));
        n_pair_le(canon(ts, b), x / (ts.tokens@.len() as int), x % (ts.tokens@.len() as int));
    }
}
pub proof fn met_genuine(st: &TokenStats, p: Seq<Seq<u8>>, x: int)
    requires paired_of(st, p), met(st, x)
    ensures genuine(st, x)
{
    let ts = &st.token_set;
    let n = ts.tokens@.len() as int;
    assert(ctr(st, Ctr::Pair(x)) == gains(ts, Ctr::Pair(x), p));
    pair_gain_le(ts, x, p);
    let i = gains_some(ts, Ctr::Pair(x), p);
    let c = canon(ts, p[i]);
    canon_covers(ts, p[i]);
    canon_cheapest(ts, p[i]);
    if n == 0 { assert(n * n == 0); }
    let k = pair_adjacent(c, x / n, x % n);
    assert(piece_ok(ts, c[k]) && piece_ok(ts, c[k + 1]));
    if ts.toks().contains(TokV::Str(pair_str(ts, x))) {
        let t = choose|t: int| 0 <= t < ts.toks().len() && ts.toks()[t] == TokV::Str(pair_str(ts, x));
        assert(ts.toks()[t] == ts.tokens@[t].v());
        assert(piece_ok(ts, Piece::Tok(t)));
        merged_is_new(ts, c, p[i], x / n, x % n, k, t);
    }
}
pub proof fn all_genuine(st: &TokenStats)
    requires paired(st)
    ensures forall|x: int| #[trigger] met(st, x) ==> genuine(st, x)
{
    let p = choose|p: Seq<Seq<u8>>| #[trigger] paired_of(st, p);
    assert forall|x: int| #[trigger] met(st, x) implies genuine(st, x) by { met_genuine(st, p, x); }
}
/// C13: a permitted pair was seen: somewhere in the samples its tokens stand side by side.
pub proof fn c13_side_by_side(st: &TokenStats, p: Seq<Seq<u8>>, x: int) -> (r: (int, int))
    requires paired_of(st, p), met(st, x)
    ensures 0 <= r.0 < p.len(), adjacent(canon(&st.token_set, p[r.0]), x / (st.token_set.tokens@.len() as int), x % (st.token_set.tokens@.len() as int), r.1)
{
    let ts = &st.token_set;
    assert(ctr(st, Ctr::Pair(x)) == gains(ts, Ctr::Pair(x), p));
    let i = gains_some(ts, Ctr::Pair(x), p);
    let k = pair_adjacent(canon(ts, p[i]), x / (ts.tokens@.len() as int), x % (ts.tokens@.len() as int));
    (i, k)
}
/// the pairs that occur, among the first n
pub open spec fn listed(l: Seq<usize>, st: &TokenStats, n: int) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> met(st, #[trigger] l[i] as int) && l[i] < n
    &&& forall|x: int| 0 <= x < n && #[trigger] met(st, x) ==> l.contains(x as usize)
}
pub proof fn listed_step(l: Seq<usize>, st: &TokenStats, n: int, m: Seq<usize>)
    requires listed(l, st, n), 0 <= n < st.pair_counts@.len() <= usize::MAX, m == if met(st, n) { l.push(n as usize) } else { l }
    ensures listed(m, st, n + 1)
{
    assert forall|x: int| 0 <= x < n + 1 && #[trigger] met(st, x) implies m.contains(x as usize) by {
        if x < n {
            assert(l.contains(x as usize));
            let i = choose|i: int| 0 <= i < l.len() && l[i] == x as usize;
            assert(m[i] == x as usize);
        } else {
            assert(m[m.len() - 1] == x as usize);
        }
    }
    assert forall|i: int| 0 <= i < m.len() implies met(st, #[trigger] m[i] as int) && m[i] < n + 1 by { if i < l.len() { assert(m[i] == l[i]); } }
}
/// the pairs that occur, the most frequent first
pub open spec fn by_count(l: Seq<usize>, st: &TokenStats) -> bool {
    &&& listed(l, st, st.pair_counts@.len() as int)
    &&& forall|i: int, j: int| #![trigger l[i], l[j]] 0 <= i < j < l.len() ==> st.pair_counts@[l[i] as int] >= st.pair_counts@[l[j] as int]
}
pub proof fn sorted_pairs(o: Seq<usize>, l: Seq<usize>, ks: Seq<i64>, p: Seq<int>, st: &TokenStats)
    requires listed(o, st, st.pair_counts@.len() as int), sort_result(o, l, ks, p),
        forall|i: int| #![trigger ks[i]] 0 <= i < o.len() ==> ks[i] == -(st.pair_counts@[o[i] as int] as int),
    ensures by_count(l, st)
{
    assert forall|i: int| 0 <= i < l.len() implies met(st, #[trigger] l[i] as int) && l[i] < st.pair_counts@.len() by { assert(l[i] == o[p[i]]); }
    assert forall|x: int| 0 <= x < st.pair_counts@.len() && #[trigger] met(st, x) implies l.contains(x as usize) by {
        assert(o.contains(x as usize));
        let i = choose|i: int| 0 <= i < o.len() && o[i] == x as usize;
        assert(p.contains(i));
        let j = choose|j: int| 0 <= j < p.len() && p[j] == i;
        assert(l[j] == x as usize);
    }
    assert forall|i: int, j: int| #![trigger l[i], l[j]] 0 <= i < j < l.len() implies st.pair_counts@[l[i] as int] >= st.pair_counts@[l[j] as int] by {
        assert(l[i] == o[p[i]] && l[j] == o[p[j]]);
        assert(ks[p[i]].vcmp(&ks[p[j]]) != core::cmp::Ordering::Greater);
    }
}
/// the first n pairs of the list must not be merged
pub open spec fn barred(l: Seq<usize>, st: &TokenStats, n: int) -> bool {
    forall|i: int| 0 <= i < n && i < l.len() ==> !within(pair_str(&st.token_set, (#[trigger] l[i]) as int))
}
pub proof fn first_is_best(l: Seq<usize>, st: &TokenStats, k: int)
    requires by_count(l, st), 0 <= k < l.len(), barred(l, st, k), within(pair_str(&st.token_set, l[k] as int))
    ensures best_pair(st, l[k] as int)
{
    assert(met(st, l[k] as int));
    assert(st.pair_counts@.len() == st.pair_counts.len());
    assert forall|y: int| #[trigger] permitted(st, y) implies st.pair_counts@[y] <= st.pair_counts@[l[k] as int] by {
        assert(met(st, y));
        assert(l.contains(y as usize));
        let i = choose|i: int| 0 <= i < l.len() && l[i] == y as usize;
        if i < k { assert(!within(pair_str(&st.token_set, l[i] as int))); }
    }
}
pub proof fn all_barred(l: Seq<usize>, st: &TokenStats)
    requires by_count(l, st), barred(l, st, l.len() as int)
    ensures forall|x: int| !#[trigger] permitted(st, x)
{
    assert(st.pair_counts@.len() == st.pair_counts.len());
    assert forall|x: int| !#[trigger] permitted(st, x) by {
        if permitted(st, x) {
            assert(met(st, x));
            assert(l.contains(x as usize));
            let i = choose|i: int| 0 <= i < l.len() && l[i] == x as usize;
            assert(!within(pair_str(&st.token_set, l[i] as int)));
        }
    }
}

@fn is_valid_token -> r
@props C13 C14
@spec
requires s@.len() >= 2
ensures r == within(s@)
@start
proof { newline_byte(); steady_within(s@, s@.len() - 2); }
@loop 0
    n == 10, steady(s@, __d0),

@fn add_token_bpe -> r
@props C13 C14
@spec
requires paired(stats)
ensures match r {
    None => forall|x: int| !#[trigger] permitted(stats, x),
    Some((ts, n)) => exists|x: int| #[trigger] best_pair(stats, x) && genuine(stats, x) && grown(&stats.token_set, pair_str(&stats.token_set, x), &ts)
        && n == stats.pair_counts@[x],
}
@start
proof {
    all_genuine(stats);
    if stats.pair_counts@.len() > 0 { assert(stats.pair_counts@.len() == stats.token_set.tokens@.len() * stats.token_set.tokens@.len()); }
    assert(forall|o: Seq<usize>, l: Seq<usize>, ks: Seq<i64>, p: Seq<int>| #![trigger sort_result(o, l, ks, p)] listed(o, stats, stats.pair_counts@.len() as int) && sort_result(o, l, ks, p)
        && (forall|i: int| #![trigger ks[i]] 0 <= i < o.len() ==> ks[i] == -(stats.pair_counts@[o[i] as int] as int)) ==> by_count(l, stats)) by {
        assert forall|o: Seq<usize>, l: Seq<usize>, ks: Seq<i64>, p: Seq<int>| #![trigger sort_result(o, l, ks, p)] listed(o, stats, stats.pair_counts@.len() as int) && sort_result(o, l, ks, p)
            && (forall|i: int| #![trigger ks[i]] 0 <= i < o.len() ==> ks[i] == -(stats.pair_counts@[o[i] as int] as int)) implies by_count(l, stats) by { sorted_pairs(o, l, ks, p, stats); }
    }
}
@loop 0
    listed(__acc0@, stats, __d0),
@loop 0 start
let ghost __l = __acc0@;
@loop 0 end
proof { listed_step(__l, stats, __d0, __acc0@); }
@closure 0
|i: &usize| -> (r: i64) requires *i < stats.pair_counts@.len(), stats.pair_counts@[*i as int] <= i64::MAX ensures r == -(stats.pair_counts@[*i as int] as int)
@type new_token Vec<u8>
@loop 1
invariant_except_break
    by_count(pairs@, stats), __s1@ == pairs@, barred(pairs@, stats, __d1), new_token@.len() == 0,
ensures
    by_count(pairs@, stats),
    (new_token@.len() == 0 && barred(pairs@, stats, pairs@.len() as int))
        || (exists|x: int| #[trigger] best_pair(stats, x) && new_token@ == pair_str(&stats.token_set, x) && token_count == stats.pair_counts@[x]),
@loop 1 start
proof {
    assert(met(stats, pairs@[__d1] as int));
    assert(genuine(stats, pairs@[__d1] as int));
    if within(pair_str(&stats.token_set, pairs@[__d1] as int)) { first_is_best(pairs@, stats, __d1); }
}
@loop 2
    __acc2@ == __s2@.take(__d2),
@loop 2 after
assert(__s2@.take(__s2@.len() as int) =~= __s2@);
@loop 1 after
proof { if barred(pairs@, stats, pairs@.len() as int) { all_barred(pairs@, stats); } }

