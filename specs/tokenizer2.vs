@module stats2
@prelude
use crate::vx::*;
use super::tokenset::*;

impl TokenStats {
    /// The counters have the shape the token set asks for.
    pub open spec fn shaped(&self, ts: &TokenSet) -> bool {
        &&& self.token_set.tokens@ == ts.tokens@
        &&& self.token_set.sequences@ == ts.sequences@
        &&& self.token_counts@.len() == ts.tokens@.len()
        &&& self.seq_counts@.len() == ts.sequences@.len()
        &&& self.pair_counts@.len() == ts.tokens@.len() * ts.tokens@.len()
    }
    /// Every counter can take n more.
    pub open spec fn room(&self, n: int) -> bool {
        &&& self.total_tokens + n <= u64::MAX
        &&& self.scanned_bytes + n <= u64::MAX
        &&& forall|i: int| 0 <= i < self.token_counts@.len() ==> #[trigger] self.token_counts@[i] + n <= u64::MAX
        &&& forall|i: int| 0 <= i < self.seq_counts@.len() ==> #[trigger] self.seq_counts@[i] + n <= u64::MAX
        &&& forall|i: int| 0 <= i < self.pair_counts@.len() ==> #[trigger] self.pair_counts@[i] + n <= u64::MAX
    }
    pub open spec fn zero(&self) -> bool {
        &&& self.total_tokens == 0 && self.scanned_bytes == 0
        &&& forall|i: int| 0 <= i < self.token_counts@.len() ==> #[trigger] self.token_counts@[i] == 0
        &&& forall|i: int| 0 <= i < self.seq_counts@.len() ==> #[trigger] self.seq_counts@[i] == 0
        &&& forall|i: int| 0 <= i < self.pair_counts@.len() ==> #[trigger] self.pair_counts@[i] == 0
    }
}

// ---- merging ---------------------------------------------------------------------
pub open spec fn addable(a: Seq<u64>, b: Seq<u64>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] + b[i] <= u64::MAX
}
/// r holds a + b below n, and a from there on
pub open spec fn summed(a: Seq<u64>, b: Seq<u64>, r: Seq<u64>, n: int) -> bool {
    &&& a.len() == b.len() && r.len() == a.len()
    &&& forall|i: int| 0 <= i < a.len() ==> #[trigger] r[i] == if i < n { a[i] + b[i] } else { a[i] as int }
}
impl TokenStats {
    pub open spec fn mergeable(&self, o: &TokenStats) -> bool {
        &&& self.total_tokens + o.total_tokens <= u64::MAX
        &&& self.scanned_bytes + o.scanned_bytes <= u64::MAX
        &&& addable(self.token_counts@, o.token_counts@)
        &&& addable(self.seq_counts@, o.seq_counts@)
        &&& addable(self.pair_counts@, o.pair_counts@)
    }
    pub open spec fn same_but_counts(&self, o: &TokenStats) -> bool {
        self.token_set == o.token_set && self.initial_size == o.initial_size
    }
}
/// r is a with every counter of b added
pub open spec fn merged(a: &TokenStats, b: &TokenStats, r: &TokenStats) -> bool {
    &&& r.same_but_counts(a)
    &&& r.total_tokens == a.total_tokens + b.total_tokens
    &&& r.scanned_bytes == a.scanned_bytes + b.scanned_bytes
    &&& summed(a.token_counts@, b.token_counts@, r.token_counts@, a.token_counts@.len() as int)
    &&& summed(a.seq_counts@, b.seq_counts@, r.seq_counts@, a.seq_counts@.len() as int)
    &&& summed(a.pair_counts@, b.pair_counts@, r.pair_counts@, a.pair_counts@.len() as int)
}

// ---- covers of a byte string by tokens and fallback sequences ------------------
pub enum Piece { Tok(int), Sq(int) }

pub open spec fn piece_ok(ts: &TokenSet, p: Piece) -> bool {
    match p {
        Piece::Tok(t) => 0 <= t < ts.tokens@.len() && ts.tokens@[t] is Str,
        Piece::Sq(q) => 0 <= q < ts.sequences@.len(),
    }
}
pub open spec fn piece_str(ts: &TokenSet, p: Piece) -> Seq<u8> {
    match p {
        Piece::Tok(t) => match ts.tokens@[t] { Token::Str(s) => s@, _ => Seq::empty() },
        Piece::Sq(q) => ts.sequences@[q].string@,
    }
}
/// tokens written for the piece
pub open spec fn piece_cost(ts: &TokenSet, p: Piece) -> nat {
    match p { Piece::Tok(_) => 1, Piece::Sq(q) => ts.sequences@[q].tokens@.len() }
}
pub open spec fn occ(s: Seq<usize>, t: int) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { occ(s.drop_last(), t) + if s.last() == t { 1nat } else { 0 } }
}
/// how often the piece writes token t
pub open spec fn piece_tok(ts: &TokenSet, p: Piece, t: int) -> nat {
    match p { Piece::Tok(k) => if k == t { 1 } else { 0 }, Piece::Sq(q) => occ(ts.sequences@[q].tokens@, t) }
}
pub open spec fn cat(ts: &TokenSet, c: Seq<Piece>) -> Seq<u8> decreases c.len() {
    if c.len() == 0 { Seq::empty() } else { piece_str(ts, c[0]) + cat(ts, c.drop_first()) }
}
pub open spec fn sum(c: Seq<Piece>, f: spec_fn(Piece) -> nat) -> nat decreases c.len() {
    if c.len() == 0 { 0 } else { f(c[0]) + sum(c.drop_first(), f) }
}
pub open spec fn costs(ts: &TokenSet) -> spec_fn(Piece) -> nat { |p: Piece| piece_cost(ts, p) }
pub open spec fn toks_of(ts: &TokenSet, t: int) -> spec_fn(Piece) -> nat { |p: Piece| piece_tok(ts, p, t) }
pub open spec fn is_p(p0: Piece) -> spec_fn(Piece) -> nat { |p: Piece| if p == p0 { 1 } else { 0 } }
pub open spec fn seqs_of(q: int) -> spec_fn(Piece) -> nat { is_p(Piece::Sq(q)) }
/// directly adjacent tokens a, b
pub open spec fn n_pair(c: Seq<Piece>, a: int, b: int) -> nat decreases c.len() {
    if c.len() < 2 { 0 } else {
        (if c[0] == Piece::Tok(a) && c[1] == Piece::Tok(b) { 1nat } else { 0 }) + n_pair(c.drop_first(), a, b)
    }
}
pub open spec fn covers(ts: &TokenSet, c: Seq<Piece>, bytes: Seq<u8>) -> bool {
    &&& forall|i: int| 0 <= i < c.len() ==> piece_ok(ts, #[trigger] c[i])
    &&& cat(ts, c) == bytes
}
/// `b` is `a` with exactly the counts of the cover added.
pub open spec fn counted(ts: &TokenSet, c: Seq<Piece>, n: nat, a: &TokenStats, b: &TokenStats) -> bool {
    &&& b.token_set == a.token_set && b.initial_size == a.initial_size
    &&& b.shaped(ts)
    &&& b.total_tokens == a.total_tokens + sum(c, costs(ts))
    &&& b.scanned_bytes == a.scanned_bytes + n
    &&& forall|t: int| 0 <= t < ts.tokens@.len() ==> #[trigger] b.token_counts@[t] == a.token_counts@[t] + sum(c, toks_of(ts, t))
    &&& forall|q: int| 0 <= q < ts.sequences@.len() ==> #[trigger] b.seq_counts@[q] == a.seq_counts@[q] + sum(c, seqs_of(q))
    &&& forall|x: int| 0 <= x < b.pair_counts@.len() ==> #[trigger] b.pair_counts@[x] == a.pair_counts@[x]
            + n_pair(c, x / (ts.tokens@.len() as int), x % (ts.tokens@.len() as int))
}
/// no cover of the same bytes writes fewer tokens
pub open spec fn cheapest(ts: &TokenSet, c: Seq<Piece>, bytes: Seq<u8>) -> bool {
    forall|d: Seq<Piece>| #[trigger] covers(ts, d, bytes) ==> sum(c, costs(ts)) <= sum(d, costs(ts))
}
/// What tokenizing `bytes` does to the statistics.
pub open spec fn tokenized(ts: &TokenSet, bytes: Seq<u8>, a: &TokenStats, b: &TokenStats) -> bool {
    exists|c: Seq<Piece>| #[trigger] covers(ts, c, bytes) && cheapest(ts, c, bytes) && counted(ts, c, bytes.len(), a, b)
}
/// C04: the token total is the sum of the per-token increments.
pub open spec fn upto(ts: &TokenSet, c: Seq<Piece>, n: nat) -> nat decreases n {
    if n == 0 { 0 } else { upto(ts, c, (n - 1) as nat) + sum(c, toks_of(ts, n - 1)) }
}
pub open spec fn piece_upto(ts: &TokenSet, p: Piece, n: nat) -> nat decreases n {
    if n == 0 { 0 } else { piece_upto(ts, p, (n - 1) as nat) + piece_tok(ts, p, n - 1) }
}
pub open spec fn occ_upto(s: Seq<usize>, n: nat) -> nat decreases n {
    if n == 0 { 0 } else { occ_upto(s, (n - 1) as nat) + occ(s, n - 1) }
}
pub proof fn occ_upto_push(s: Seq<usize>, k: usize, n: nat)
    ensures occ_upto(s.push(k), n) == occ_upto(s, n) + if k < n { 1nat } else { 0 }
    decreases n
{
    assert(s.push(k).drop_last() =~= s);
    if n > 0 { occ_upto_push(s, k, (n - 1) as nat); }
}
pub proof fn occ_upto_all(s: Seq<usize>, n: nat)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < n
    ensures occ_upto(s, n) == s.len()
    decreases s.len()
{
    if s.len() == 0 {
        occ_upto_nil(s, n);
    } else {
        let r = s.drop_last();
        assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] < n by { assert(r[i] == s[i]); }
        occ_upto_all(r, n);
        occ_upto_push(r, s.last(), n);
        assert(r.push(s.last()) =~= s);
    }
}
pub proof fn occ_upto_nil(s: Seq<usize>, n: nat)
    requires s.len() == 0
    ensures occ_upto(s, n) == 0
    decreases n
{
    if n > 0 { occ_upto_nil(s, (n - 1) as nat); }
}
pub proof fn piece_upto_all(ts: &TokenSet, p: Piece)
    requires piece_ok(ts, p), ts.wf()
    ensures piece_upto(ts, p, ts.tokens@.len()) == piece_cost(ts, p)
{
    match p {
        Piece::Tok(t) => { piece_upto_tok(ts, t, ts.tokens@.len()); }
        Piece::Sq(q) => {
            assert(ts.sequences@[q].idx_below(ts.tokens@.len() as int));
            piece_upto_seq(ts, q, ts.tokens@.len());
            occ_upto_all(ts.sequences@[q].tokens@, ts.tokens@.len());
        }
    }
}
pub proof fn piece_upto_tok(ts: &TokenSet, t: int, n: nat)
    requires 0 <= t
    ensures piece_upto(ts, Piece::Tok(t), n) == if t < n { 1nat } else { 0 }
    decreases n
{
    if n > 0 { piece_upto_tok(ts, t, (n - 1) as nat); }
}
pub proof fn piece_upto_seq(ts: &TokenSet, q: int, n: nat)
    ensures piece_upto(ts, Piece::Sq(q), n) == occ_upto(ts.sequences@[q].tokens@, n)
    decreases n
{
    if n > 0 { piece_upto_seq(ts, q, (n - 1) as nat); }
}
pub proof fn upto_cons(ts: &TokenSet, c: Seq<Piece>, n: nat)
    requires c.len() > 0
    ensures upto(ts, c, n) == piece_upto(ts, c[0], n) + upto(ts, c.drop_first(), n)
    decreases n
{
    if n > 0 { upto_cons(ts, c, (n - 1) as nat); }
}
pub proof fn upto_nil(ts: &TokenSet, c: Seq<Piece>, n: nat)
    requires c.len() == 0
    ensures upto(ts, c, n) == 0
    decreases n
{
    if n > 0 { upto_nil(ts, c, (n - 1) as nat); }
}
pub proof fn c04_total_is_sum_of_tokens(ts: &TokenSet, c: Seq<Piece>)
    requires ts.wf(), forall|i: int| 0 <= i < c.len() ==> piece_ok(ts, #[trigger] c[i])
    ensures upto(ts, c, ts.tokens@.len()) == sum(c, costs(ts))
    decreases c.len()
{
    if c.len() == 0 {
        upto_nil(ts, c, ts.tokens@.len());
    } else {
        let d = c.drop_first();
        assert forall|i: int| 0 <= i < d.len() implies piece_ok(ts, #[trigger] d[i]) by { assert(d[i] == c[i + 1]); }
        c04_total_is_sum_of_tokens(ts, d);
        upto_cons(ts, c, ts.tokens@.len());
        piece_upto_all(ts, c[0]);
    }
}
pub proof fn sum_cons(c: Seq<Piece>, p: Piece, f: spec_fn(Piece) -> nat)
    ensures sum(seq![p] + c, f) == f(p) + sum(c, f)
{
    assert((seq![p] + c).drop_first() =~= c);
}
pub proof fn sum_push(c: Seq<Piece>, p: Piece, f: spec_fn(Piece) -> nat)
    ensures sum(c.push(p), f) == sum(c, f) + f(p)
    decreases c.len()
{
    if c.len() == 0 {
        assert(c.push(p).drop_first() =~= c);
    } else {
        assert(c.push(p).drop_first() =~= c.drop_first().push(p));
        sum_push(c.drop_first(), p, f);
    }
}
pub proof fn cat_push(ts: &TokenSet, c: Seq<Piece>, p: Piece)
    ensures cat(ts, c.push(p)) == cat(ts, c) + piece_str(ts, p)
    decreases c.len()
{
    if c.len() == 0 {
        assert(c.push(p).drop_first() =~= c);
        assert(cat(ts, c.push(p)) =~= cat(ts, c) + piece_str(ts, p));
    } else {
        assert(c.push(p).drop_first() =~= c.drop_first().push(p));
        cat_push(ts, c.drop_first(), p);
        assert(cat(ts, c.push(p)) =~= cat(ts, c) + piece_str(ts, p));
    }
}

@fn TokenStats::new -> r
@props C03 C04 C05 C15 C13
@spec
requires token_set.tokens@.len() * token_set.tokens@.len() <= usize::MAX
ensures r.token_set == token_set, r.shaped(&token_set), r.zero(), r.initial_size == initial_size

@fn TokenStats::ntokens -> r
@props C04 C13
@spec
ensures r == self.token_set.tokens@.len()

@fn TokenStats::clone_without_pairs -> r
@props C15 C14
@spec
ensures r.token_set == self.token_set, r.total_tokens == self.total_tokens, r.initial_size == self.initial_size,
    r.scanned_bytes == self.scanned_bytes, r.token_counts@ == self.token_counts@, r.seq_counts@ == self.seq_counts@

@fn TokenStats::merge
@props C05 C15 C13 C14 C18
@spec
requires old(self).mergeable(other)
ensures merged(old(self), other, final(self))
@loop 0
    self.same_but_counts(old(self)), self.total_tokens == old(self).total_tokens + other.total_tokens,
    self.scanned_bytes == old(self).scanned_bytes + other.scanned_bytes,
    summed(old(self).token_counts@, other.token_counts@, self.token_counts@, __d0),
    self.seq_counts@ == old(self).seq_counts@, self.pair_counts@ == old(self).pair_counts@,
    __h0 == self.token_counts@.len(),
@loop 1
    self.same_but_counts(old(self)), self.total_tokens == old(self).total_tokens + other.total_tokens,
    self.scanned_bytes == old(self).scanned_bytes + other.scanned_bytes,
    summed(old(self).token_counts@, other.token_counts@, self.token_counts@, old(self).token_counts@.len() as int),
    summed(old(self).seq_counts@, other.seq_counts@, self.seq_counts@, __d1),
    self.pair_counts@ == old(self).pair_counts@,
    __h1 == self.seq_counts@.len(),
@loop 2
    self.same_but_counts(old(self)), self.total_tokens == old(self).total_tokens + other.total_tokens,
    self.scanned_bytes == old(self).scanned_bytes + other.scanned_bytes,
    summed(old(self).token_counts@, other.token_counts@, self.token_counts@, old(self).token_counts@.len() as int),
    summed(old(self).seq_counts@, other.seq_counts@, self.seq_counts@, old(self).seq_counts@.len() as int),
    summed(old(self).pair_counts@, other.pair_counts@, self.pair_counts@, __d2),
    __h2 == self.pair_counts@.len(),

@module tokenizer2
@prelude
use crate::vx::*;
use super::tokenset::*;
use super::stats2::*;

/// Distinct non-empty strings, every byte value is a piece.
pub open spec fn covering(ts: &TokenSet) -> bool {
    &&& ts.wf()
    &&& forall|p: Piece| #[trigger] piece_ok(ts, p) ==> piece_str(ts, p).len() > 0
    &&& forall|p: Piece, q: Piece| #![trigger piece_ok(ts, p), piece_ok(ts, q)]
            piece_ok(ts, p) && piece_ok(ts, q) && piece_str(ts, p) == piece_str(ts, q) ==> p == q
    &&& forall|b: u8| #[trigger] byte_encoded(ts, b)
}
pub open spec fn byte_encoded(ts: &TokenSet, b: u8) -> bool {
    exists|p: Piece| #[trigger] piece_ok(ts, p) && piece_str(ts, p) == seq![b]
}
/// No piece writes more than c tokens.
pub open spec fn cost_bound(ts: &TokenSet, c: nat) -> bool {
    c >= 1 && forall|q: int| 0 <= q < ts.sequences@.len() ==> (#[trigger] ts.sequences@[q]).tokens@.len() <= c
}

// ---- longest suffixes -------------------------------------------------------
/// the longest suffix of s in d, or nothing
pub open spec fn lss(d: Set<Seq<u8>>, s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 || d.contains(s) { s } else { lss(d, s.skip(1)) }
}
pub open spec fn is_suffix(t: Seq<u8>, s: Seq<u8>) -> bool {
    t.len() <= s.len() && s.skip(s.len() - t.len()) == t
}
pub proof fn suffix_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires is_suffix(a, b), is_suffix(b, c)
    ensures is_suffix(a, c)
{
    assert(c.skip(c.len() - a.len()) =~= b.skip(b.len() - a.len()));
}
/// of two suffixes of s the shorter is a suffix of the longer
pub proof fn suffix_nested(a: Seq<u8>, b: Seq<u8>, s: Seq<u8>)
    requires is_suffix(a, s), is_suffix(b, s), a.len() <= b.len()
    ensures is_suffix(a, b)
{
    assert(b.skip(b.len() - a.len()) =~= s.skip(s.len() - a.len()));
}
pub proof fn lss_is(d: Set<Seq<u8>>, s: Seq<u8>)
    ensures is_suffix(lss(d, s), s), lss(d, s).len() == 0 || d.contains(lss(d, s))
    decreases s.len()
{
    if s.len() == 0 || d.contains(s) {
        assert(s.skip(0) =~= s);
    } else {
        lss_is(d, s.skip(1));
        assert(is_suffix(s.skip(1), s));
        suffix_trans(lss(d, s.skip(1)), s.skip(1), s);
    }
}
pub proof fn lss_longest(d: Set<Seq<u8>>, s: Seq<u8>, t: Seq<u8>)
    requires d.contains(t), is_suffix(t, s)
    ensures t.len() <= lss(d, s).len()
    decreases s.len()
{
    if s.len() == 0 || d.contains(s) {
    } else {
        if t.len() == s.len() { assert(s.skip(0) =~= s); }
        assert(s.skip(1).skip(s.skip(1).len() - t.len()) =~= s.skip(s.len() - t.len()));
        lss_longest(d, s.skip(1), t);
    }
}
pub open spec fn prefix_closed(d: Set<Seq<u8>>) -> bool {
    forall|s: Seq<u8>| #[trigger] d.contains(s) && s.len() > 0 ==> d.contains(s.drop_last())
}
/// The automaton step: the state of s determines the state of s followed by b.
pub proof fn lss_step(d: Set<Seq<u8>>, s: Seq<u8>, b: u8)
    requires prefix_closed(d)
    ensures lss(d, lss(d, s).push(b)) == lss(d, s.push(b))
    decreases s.len()
{
    if s.len() == 0 || d.contains(s) {
    } else {
        assert(s.push(b).drop_last() =~= s);
        assert(!d.contains(s.push(b)));
        assert(s.push(b).skip(1) =~= s.skip(1).push(b));
        lss_step(d, s.skip(1), b);
    }
}
/// pieces that end a text are found in its state
pub proof fn lss_sub(d: Set<Seq<u8>>, e: Set<Seq<u8>>, s: Seq<u8>)
    requires forall|t: Seq<u8>| #[trigger] d.contains(t) ==> e.contains(t)
    ensures lss(d, lss(e, s)) == lss(d, s)
    decreases s.len()
{
    if s.len() == 0 || e.contains(s) { } else { lss_sub(d, e, s.skip(1)); }
}

// ---- the tables ----------------------------------------------------------------
pub open spec fn piece_of(c: SpanContent) -> Piece {
    match c { SpanContent::None => Piece::Tok(-1), SpanContent::Token(t) => Piece::Tok(t as int), SpanContent::Sequence(q) => Piece::Sq(q as int) }
}
pub open spec fn span_ok(ts: &TokenSet, s: Span) -> bool {
    &&& !(s.content is None)
    &&& piece_ok(ts, piece_of(s.content))
    &&& s.string@ == piece_str(ts, piece_of(s.content))
    &&& s.cost == piece_cost(ts, piece_of(s.content))
}
/// m finds the span of a string
pub open spec fn map_ok(spans: Seq<Span>, m: Map<Seq<u8>, usize>) -> bool {
    &&& spans.len() >= 1
    &&& spans[0].string@ == Seq::<u8>::empty()
    &&& forall|i: int| 0 <= i < spans.len() ==> m.dom().contains((#[trigger] spans[i]).string@) && m[spans[i].string@] == i
    &&& forall|s: Seq<u8>| #[trigger] m.dom().contains(s) ==> m[s] < spans.len() && spans[m[s] as int].string@ == s
}
pub open spec fn suffix_ok(spans: Seq<Span>, m: Map<Seq<u8>, usize>, i: int) -> bool {
    spans[i].suffix_span == m[lss(m.dom(), spans[i].string@.skip(1))]
}
pub open spec fn has_bytes(m: Map<Seq<u8>, usize>) -> bool {
    forall|b: u8| m.dom().contains(#[trigger] seq![b])
}
pub open spec fn spans_ok(ts: &TokenSet, spans: Seq<Span>, m: Map<Seq<u8>, usize>) -> bool {
    &&& map_ok(spans, m)
    &&& forall|i: int| 1 <= i < spans.len() ==> span_ok(ts, #[trigger] spans[i])
    &&& forall|i: int| 1 <= i < spans.len() ==> #[trigger] suffix_ok(spans, m, i)
    &&& forall|p: Piece| #[trigger] piece_ok(ts, p) ==> spanned(ts, spans, m, p)
    &&& has_bytes(m)
}
/// sm finds the state of a string
pub open spec fn smap_ok(m: Map<Seq<u8>, usize>, states: Seq<SuffixState>, sm: Map<Seq<u8>, usize>) -> bool {
    &&& states.len() >= 1
    &&& states[0].suffix@ == Seq::<u8>::empty()
    &&& sm.dom().contains(Seq::empty()) && sm[Seq::empty()] == 0
    &&& forall|s: Seq<u8>| #[trigger] sm.dom().contains(s) ==> sm[s] < states.len() && states[sm[s] as int].suffix@ == s
    &&& prefix_closed(sm.dom())
    &&& forall|k: int| 0 <= k < states.len() ==> (#[trigger] states[k]).span_idx == m[lss(m.dom(), states[k].suffix@)]
}
pub open spec fn next_ok(sm: Map<Seq<u8>, usize>, s: SuffixState, b: int) -> bool {
    s.next@[b] == sm[lss(sm.dom(), s.suffix@.push(b as u8))]
}
pub open spec fn states_ok(m: Map<Seq<u8>, usize>, states: Seq<SuffixState>, sm: Map<Seq<u8>, usize>) -> bool {
    &&& smap_ok(m, states, sm)
    &&& forall|s: Seq<u8>| #[trigger] m.dom().contains(s) ==> sm.dom().contains(s)
    &&& forall|k: int, b: int| 0 <= k < states.len() && 0 <= b < 256 ==> #[trigger] next_ok(sm, states[k], b)
}
impl FragmentTokenizer {
    pub open spec fn ok_with(&self, m: Map<Seq<u8>, usize>, sm: Map<Seq<u8>, usize>) -> bool {
        spans_ok(&self.token_set, self.spans@, m) && states_ok(m, self.suffix_states@, sm)
    }
    pub open spec fn ok(&self) -> bool {
        covering(&self.token_set) && exists|m: Map<Seq<u8>, usize>, sm: Map<Seq<u8>, usize>| #[trigger] self.ok_with(m, sm)
    }
}

/// the first nt tokens and ns sequences have their spans
pub open spec fn built(ts: &TokenSet, spans: Seq<Span>, m: Map<Seq<u8>, usize>, nt: int, ns: int) -> bool {
    &&& map_ok(spans, m)
    &&& forall|i: int| 0 <= i < spans.len() ==> (#[trigger] spans[i]).suffix_span == 0
    &&& forall|i: int| 1 <= i < spans.len() ==> span_ok(ts, #[trigger] spans[i]) && match spans[i].content {
            SpanContent::Token(t) => t < nt, SpanContent::Sequence(q) => q < ns, _ => false }
    &&& forall|p: Piece| #[trigger] piece_ok(ts, p) && (match p { Piece::Tok(t) => t < nt, Piece::Sq(q) => q < ns }) ==> spanned(ts, spans, m, p)
}
pub open spec fn spanned(ts: &TokenSet, spans: Seq<Span>, m: Map<Seq<u8>, usize>, p: Piece) -> bool {
    m.dom().contains(piece_str(ts, p)) && piece_of(spans[m[piece_str(ts, p)] as int].content) == p
}
pub proof fn built_fresh(ts: &TokenSet, spans: Seq<Span>, m: Map<Seq<u8>, usize>, p: Piece, nt: int, ns: int)
    requires built(ts, spans, m, nt, ns), covering(ts), piece_ok(ts, p), match p { Piece::Tok(t) => t == nt, Piece::Sq(q) => q == ns }
    ensures !m.dom().contains(piece_str(ts, p))
{
    let s = piece_str(ts, p);
    if m.dom().contains(s) {
        let i = m[s] as int;
        if i > 0 {
            assert(span_ok(ts, spans[i]));
            assert(piece_ok(ts, piece_of(spans[i].content)));
        }
    }
}
pub proof fn built_push(ts: &TokenSet, spans: Seq<Span>, m: Map<Seq<u8>, usize>, s: Span, nt: int, ns: int)
    requires built(ts, spans, m, nt, ns), covering(ts), span_ok(ts, s), s.suffix_span == 0, spans.len() <= usize::MAX,
        match s.content { SpanContent::Token(t) => t == nt, SpanContent::Sequence(q) => q == ns, _ => false }
    ensures built(ts, spans.push(s), m.insert(s.string@, spans.len() as usize),
        if s.content is Token { nt + 1 } else { nt }, if s.content is Token { ns } else { ns + 1 })
{
    built_fresh(ts, spans, m, piece_of(s.content), nt, ns);
    let sp = spans.push(s);
    let mm = m.insert(s.string@, spans.len() as usize);
    assert forall|i: int| 0 <= i < sp.len() implies mm.dom().contains((#[trigger] sp[i]).string@) && mm[sp[i].string@] == i by {
        if i < spans.len() { assert(m.dom().contains(spans[i].string@)); }
    }
    assert forall|p: Piece| #[trigger] piece_ok(ts, p) && (match p { Piece::Tok(t) => t < if s.content is Token { nt + 1 } else { nt }, Piece::Sq(q) => q < if s.content is Token { ns } else { ns + 1 } }) implies spanned(ts, sp, mm, p) by {
        if p != piece_of(s.content) { assert(spanned(ts, spans, m, p)); }
    }
}
pub proof fn built_skip(ts: &TokenSet, spans: Seq<Span>, m: Map<Seq<u8>, usize>, nt: int, ns: int)
    requires built(ts, spans, m, nt, ns), !piece_ok(ts, Piece::Tok(nt))
    ensures built(ts, spans, m, nt + 1, ns)
{
}
/// the same spans with the suffix links of those below n filled in
pub open spec fn linked(sp: Seq<Span>, spans: Seq<Span>, m: Map<Seq<u8>, usize>, n: int) -> bool {
    &&& spans.len() == sp.len()
    &&& forall|i: int| 0 <= i < sp.len() ==> (#[trigger] spans[i]).string@ == sp[i].string@ && spans[i].content == sp[i].content && spans[i].cost == sp[i].cost
    &&& forall|i: int| n <= i < sp.len() ==> #[trigger] spans[i] == sp[i]
    &&& forall|i: int| 1 <= i < n ==> #[trigger] suffix_ok(spans, m, i)
}
pub proof fn linked_step(sp: Seq<Span>, a: Seq<Span>, m: Map<Seq<u8>, usize>, n: int, b: Seq<Span>)
    requires linked(sp, a, m, n), 1 <= n < sp.len(), b == a.update(n, b[n]), suffix_ok(b, m, n),
        b[n].string@ == a[n].string@ && b[n].content == a[n].content && b[n].cost == a[n].cost
    ensures linked(sp, b, m, n + 1)
{
    assert forall|i: int| 1 <= i < n + 1 implies #[trigger] suffix_ok(b, m, i) by {
        if i < n { assert(suffix_ok(a, m, i)); }
    }
}
pub proof fn linked_done(ts: &TokenSet, sp: Seq<Span>, spans: Seq<Span>, m: Map<Seq<u8>, usize>)
    requires covering(ts), built(ts, sp, m, ts.tokens@.len() as int, ts.sequences@.len() as int), linked(sp, spans, m, sp.len() as int)
    ensures spans_ok(ts, spans, m)
{
    assert(map_ok(spans, m));
    assert forall|i: int| 1 <= i < spans.len() implies span_ok(ts, #[trigger] spans[i]) by { assert(span_ok(ts, sp[i])); }
    assert forall|p: Piece| #[trigger] piece_ok(ts, p) implies spanned(ts, spans, m, p) by { assert(spanned(ts, sp, m, p)); }
    assert forall|b: u8| m.dom().contains(#[trigger] seq![b]) by {
        assert(byte_encoded(ts, b));
        let p = choose|p: Piece| #[trigger] piece_ok(ts, p) && piece_str(ts, p) == seq![b];
        assert(spanned(ts, sp, m, p));
    }
}

pub proof fn lss_empty(d: Set<Seq<u8>>)
    ensures lss(d, Seq::empty()) == Seq::<u8>::empty()
{
}
pub proof fn map_empty(spans: Seq<Span>, m: Map<Seq<u8>, usize>)
    requires map_ok(spans, m)
    ensures m.dom().contains(Seq::empty()), m[Seq::empty()] == 0
{
    assert(m.dom().contains(spans[0].string@));
}
pub proof fn byte_suffix(d: Set<Seq<u8>>, s: Seq<u8>)
    requires s.len() > 0, d.contains(seq![s.last()])
    ensures lss(d, s).len() > 0, d.contains(lss(d, s))
{
    lss_is(d, s);
    assert(s.skip(s.len() - 1) =~= seq![s.last()]);
    lss_longest(d, s, seq![s.last()]);
}
pub proof fn byte_found(spans: Seq<Span>, m: Map<Seq<u8>, usize>, s: Seq<u8>)
    requires map_ok(spans, m), has_bytes(m), s.len() > 0
    ensures m[lss(m.dom(), s)] > 0, m.dom().contains(lss(m.dom(), s))
{
    byte_suffix(m.dom(), s);
}
/// the string of the piece for byte b is a state, too
pub proof fn state_found(m: Map<Seq<u8>, usize>, states: Seq<SuffixState>, sm: Map<Seq<u8>, usize>, s: Seq<u8>)
    requires smap_ok(m, states, sm), s.len() > 0, sm.dom().contains(seq![s.last()])
    ensures sm[lss(sm.dom(), s)] > 0, sm.dom().contains(lss(sm.dom(), s))
{
    byte_suffix(sm.dom(), s);
}
pub proof fn smap_push(m: Map<Seq<u8>, usize>, states: Seq<SuffixState>, sm: Map<Seq<u8>, usize>, s: SuffixState)
    requires smap_ok(m, states, sm), s.suffix@.len() > 0, sm.dom().contains(s.suffix@.drop_last()),
        s.span_idx == m[lss(m.dom(), s.suffix@)], states.len() <= usize::MAX
    ensures smap_ok(m, states.push(s), sm.insert(s.suffix@, states.len() as usize))
{
}
/// the same states with the transitions of those below n filled in
pub open spec fn stepped(a: Seq<SuffixState>, b: Seq<SuffixState>, sm: Map<Seq<u8>, usize>, n: int) -> bool {
    &&& a.len() == b.len()
    &&& forall|k: int| 0 <= k < a.len() ==> (#[trigger] b[k]).suffix@ == a[k].suffix@ && b[k].span_idx == a[k].span_idx
    &&& forall|k: int| 0 <= k < n ==> all_next(sm, #[trigger] b[k])
}
pub open spec fn all_next(sm: Map<Seq<u8>, usize>, s: SuffixState) -> bool {
    forall|b: int| 0 <= b < 256 ==> #[trigger] next_ok(sm, s, b)
}
pub proof fn stepped_one(o: Seq<SuffixState>, a: Seq<SuffixState>, sm: Map<Seq<u8>, usize>, n: int, b: Seq<SuffixState>)
    requires stepped(o, a, sm, n), 0 <= n < o.len(), b == a.update(n, b[n]), all_next(sm, b[n]),
        b[n].suffix@ == a[n].suffix@, b[n].span_idx == a[n].span_idx
    ensures stepped(o, b, sm, n + 1)
{
}
pub proof fn stepped_all(m: Map<Seq<u8>, usize>, a: Seq<SuffixState>, b: Seq<SuffixState>, sm: Map<Seq<u8>, usize>)
    requires smap_ok(m, a, sm), stepped(a, b, sm, a.len() as int), forall|s: Seq<u8>| #[trigger] m.dom().contains(s) ==> sm.dom().contains(s)
    ensures states_ok(m, b, sm)
{
    assert(smap_ok(m, b, sm)) by {
        assert forall|k: int| 0 <= k < b.len() implies (#[trigger] b[k]).span_idx == m[lss(m.dom(), b[k].suffix@)] by {
            assert(a[k].suffix@ == b[k].suffix@);
        }
    }
    assert forall|k: int, c: int| 0 <= k < b.len() && 0 <= c < 256 implies #[trigger] next_ok(sm, b[k], c) by { assert(all_next(sm, b[k])); }
}

// ---- the shortest-cover table --------------------------------------------------
/// span k ends the first j bytes
pub open spec fn fits(spans: Seq<Span>, bytes: Seq<u8>, k: int, j: int) -> bool {
    1 <= k < spans.len() && is_suffix(spans[k].string@, bytes.take(j))
}
pub open spec fn cost_by(spans: Seq<Span>, cs: Seq<CostState>, k: int, j: int) -> int {
    cs[j - spans[k].string@.len()].cost + spans[k].cost
}
/// `b` is the best of the spans longer than n that end the first j bytes
pub open spec fn best_of(spans: Seq<Span>, bytes: Seq<u8>, cs: Seq<CostState>, j: int, n: int, b: Option<CostState>) -> bool {
    match b {
        Option::None => forall|k: int| #[trigger] fits(spans, bytes, k, j) ==> spans[k].string@.len() <= n,
        Option::Some(x) => fits(spans, bytes, x.span as int, j) && x.cost == cost_by(spans, cs, x.span as int, j)
            && forall|k: int| #[trigger] fits(spans, bytes, k, j) && spans[k].string@.len() > n ==> x.cost <= cost_by(spans, cs, k, j),
    }
}
pub open spec fn dp_at(spans: Seq<Span>, bytes: Seq<u8>, cs: Seq<CostState>, j: int) -> bool {
    best_of(spans, bytes, cs, j, 0, Option::Some(cs[j]))
}
pub open spec fn dp_ok(spans: Seq<Span>, bytes: Seq<u8>, cs: Seq<CostState>) -> bool {
    &&& 1 <= cs.len() <= bytes.len() + 1
    &&& cs[0].cost == 0
    &&& forall|j: int| 1 <= j < cs.len() ==> #[trigger] dp_at(spans, bytes, cs, j)
}
pub open spec fn dp_bound(cs: Seq<CostState>, c: nat) -> bool {
    forall|j: int| 0 <= j < cs.len() ==> (#[trigger] cs[j]).cost <= j * c
}
pub proof fn span_nonempty(ts: &TokenSet, spans: Seq<Span>, m: Map<Seq<u8>, usize>, k: int)
    requires covering(ts), spans_ok(ts, spans, m), 1 <= k < spans.len()
    ensures span_ok(ts, spans[k]), piece_ok(ts, piece_of(spans[k].content)), spans[k].string@.len() > 0
{
}
pub proof fn span_cost(ts: &TokenSet, s: Span, c: nat)
    requires span_ok(ts, s), cost_bound(ts, c)
    ensures s.cost <= c
{
    match s.content { SpanContent::Sequence(q) => { let _ = ts.sequences@[q as int]; } _ => {} }
}
pub proof fn dp_push(ts: &TokenSet, spans: Seq<Span>, m: Map<Seq<u8>, usize>, bytes: Seq<u8>, cs: Seq<CostState>, x: CostState, c: nat)
    requires covering(ts), spans_ok(ts, spans, m), dp_ok(spans, bytes, cs), dp_bound(cs, c), cost_bound(ts, c), cs.len() <= bytes.len(),
        best_of(spans, bytes, cs, cs.len() as int, 0, Option::Some(x))
    ensures dp_ok(spans, bytes, cs.push(x)), dp_bound(cs.push(x), c)
{
    let j = cs.len() as int;
    let ns = cs.push(x);
    assert forall|i: int| 1 <= i < ns.len() implies #[trigger] dp_at(spans, bytes, ns, i) by {
        assert forall|k: int| #[trigger] fits(spans, bytes, k, i) implies cost_by(spans, ns, k, i) == cost_by(spans, cs, k, i) by {
            span_nonempty(ts, spans, m, k);
        }
        if i < j { assert(dp_at(spans, bytes, cs, i)); assert(ns[i] == cs[i]); }
    }
    let k = x.span as int;
    span_nonempty(ts, spans, m, k);
    span_cost(ts, spans[k], c);
    let l = spans[k].string@.len() as int;
    assert(cs[j - l].cost <= (j - l) * c);
    assert((j - l) * c + c <= j * c) by (nonlinear_arith) requires 1 <= l <= j, c >= 0;
}
pub proof fn best_start(ts: &TokenSet, spans: Seq<Span>, m: Map<Seq<u8>, usize>, bytes: Seq<u8>, cs: Seq<CostState>, j: int)
    requires spans_ok(ts, spans, m), 1 <= j <= bytes.len()
    ensures best_of(spans, bytes, cs, j, lss(m.dom(), bytes.take(j)).len() as int, Option::None),
        m.dom().contains(lss(m.dom(), bytes.take(j))), is_suffix(lss(m.dom(), bytes.take(j)), bytes.take(j)),
{
    let t = bytes.take(j);
    assert forall|k: int| #[trigger] fits(spans, bytes, k, j) implies spans[k].string@.len() <= lss(m.dom(), t).len() by {
        assert(m.dom().contains(spans[k].string@));
        lss_longest(m.dom(), t, spans[k].string@);
    }
    lss_is(m.dom(), t);
    map_empty(spans, m);
    assert(t.len() == 0 || m.dom().contains(seq![t.last()]));
    if t.len() > 0 { byte_suffix(m.dom(), t); }
}
/// Taking span k into account and going on to the longest span that is its suffix.
pub proof fn best_step(ts: &TokenSet, spans: Seq<Span>, m: Map<Seq<u8>, usize>, bytes: Seq<u8>, cs: Seq<CostState>, j: int, k: int, b: Option<CostState>, x: Option<CostState>)
    requires covering(ts), spans_ok(ts, spans, m), fits(spans, bytes, k, j), 1 <= j <= bytes.len(),
        best_of(spans, bytes, cs, j, spans[k].string@.len() as int, b),
        x.is_some(),
        // whichever of two equally cheap spans is kept
        (x->Some_0.span == k && x->Some_0.cost == cost_by(spans, cs, k, j) && (b.is_some() ==> b->Some_0.cost >= cost_by(spans, cs, k, j)))
            || (x == b && b->Some_0.cost <= cost_by(spans, cs, k, j)),
    ensures spans[k].suffix_span < spans.len(),
        is_suffix(spans[spans[k].suffix_span as int].string@, bytes.take(j)),
        spans[spans[k].suffix_span as int].string@.len() < spans[k].string@.len(),
        best_of(spans, bytes, cs, j, spans[spans[k].suffix_span as int].string@.len() as int, x),
{
    let t = bytes.take(j);
    let s = spans[k].string@;
    span_nonempty(ts, spans, m, k);
    assert(suffix_ok(spans, m, k));
    let r = lss(m.dom(), s.skip(1));
    lss_is(m.dom(), s.skip(1));
    map_empty(spans, m);
    if s.len() == 1 { assert(s.skip(1) =~= Seq::<u8>::empty()); }
    if r.len() == 0 { assert(r =~= Seq::<u8>::empty()); }
    assert(m.dom().contains(r));
    assert(is_suffix(s.skip(1), s)) by { assert(s.skip(s.len() - s.skip(1).len()) =~= s.skip(1)); }
    suffix_trans(r, s.skip(1), s);
    suffix_trans(r, s, t);
    assert(spans[spans[k].suffix_span as int].string@ == r);
    assert forall|i: int| #[trigger] fits(spans, bytes, i, j) && spans[i].string@.len() > r.len() implies x->Some_0.cost <= cost_by(spans, cs, i, j) by {
        let u = spans[i].string@;
        assert(m.dom().contains(u));
        if u.len() == s.len() {
            assert(u == s);
            assert(m[u] == i && m[s] == k);
        } else if u.len() < s.len() {
            suffix_nested(u, s, t);
            assert(is_suffix(u, s.skip(1))) by { assert(s.skip(1).skip(s.skip(1).len() - u.len()) =~= s.skip(s.len() - u.len())); }
            lss_longest(m.dom(), s.skip(1), u);
        }
    }
}
pub proof fn best_found(ts: &TokenSet, spans: Seq<Span>, m: Map<Seq<u8>, usize>, bytes: Seq<u8>, cs: Seq<CostState>, j: int, b: Option<CostState>)
    requires covering(ts), spans_ok(ts, spans, m), 1 <= j <= bytes.len(), best_of(spans, bytes, cs, j, 0, b)
    ensures b.is_some()
{
    let t = bytes.take(j);
    let s = seq![t.last()];
    assert(m.dom().contains(s));
    let k = m[s] as int;
    assert(t.skip(t.len() - 1) =~= s);
    assert(spans[k].string@ == s);
    assert(fits(spans, bytes, k, j));
}
/// C03: no cover of the first j bytes is cheaper than the table says.
pub proof fn dp_minimal(ts: &TokenSet, spans: Seq<Span>, m: Map<Seq<u8>, usize>, bytes: Seq<u8>, cs: Seq<CostState>, j: int, d: Seq<Piece>)
    requires covering(ts), spans_ok(ts, spans, m), dp_ok(spans, bytes, cs), 0 <= j < cs.len(), covers(ts, d, bytes.take(j))
    ensures cs[j].cost <= sum(d, costs(ts))
    decreases d.len()
{
    if d.len() == 0 {
        assert(j == 0);
    } else {
        let p = d.last();
        let r = d.drop_last();
        let s = piece_str(ts, p);
        assert(d =~= r.push(p));
        cat_push(ts, r, p);
        sum_push(r, p, costs(ts));
        assert(piece_ok(ts, p));
        assert(spanned(ts, spans, m, p));
        let k = m[s] as int;
        assert(k != 0);
        assert(span_ok(ts, spans[k]));
        let i = j - s.len();
        assert(bytes.take(j).len() == cat(ts, r).len() + s.len());
        assert(bytes.take(j).skip(i) =~= s);
        assert(fits(spans, bytes, k, j));
        assert(cat(ts, r) =~= bytes.take(i)) by {
            assert(bytes.take(j).take(i) =~= cat(ts, r));
        }
        assert forall|x: int| 0 <= x < r.len() implies piece_ok(ts, #[trigger] r[x]) by { assert(r[x] == d[x]); }
        dp_minimal(ts, spans, m, bytes, cs, i, r);
        assert(dp_at(spans, bytes, cs, j));
        assert(cs[j].cost <= cost_by(spans, cs, k, j));
    }
}

pub proof fn state_step(f: &FragmentTokenizer, m: Map<Seq<u8>, usize>, sm: Map<Seq<u8>, usize>, bytes: Seq<u8>, i: int)
    requires f.ok_with(m, sm), 0 <= i < bytes.len(), sm.dom().contains(lss(sm.dom(), bytes.take(i)))
    ensures
        sm[lss(sm.dom(), bytes.take(i))] < f.suffix_states@.len(),
        sm.dom().contains(lss(sm.dom(), bytes.take(i + 1))),
        f.suffix_states@[sm[lss(sm.dom(), bytes.take(i))] as int].next@[bytes[i] as int] == sm[lss(sm.dom(), bytes.take(i + 1))],
        sm[lss(sm.dom(), bytes.take(i + 1))] < f.suffix_states@.len(),
        f.suffix_states@[sm[lss(sm.dom(), bytes.take(i + 1))] as int].span_idx == m[lss(m.dom(), bytes.take(i + 1))],
{
    let s = lss(sm.dom(), bytes.take(i));
    let k = sm[s] as int;
    assert(bytes.take(i + 1) =~= bytes.take(i).push(bytes[i]));
    lss_step(sm.dom(), bytes.take(i), bytes[i]);
    assert(next_ok(sm, f.suffix_states@[k], bytes[i] as int));
    assert(m.dom().contains(seq![bytes[i]]));
    assert(bytes.take(i + 1).last() == bytes[i]);
    byte_suffix(sm.dom(), bytes.take(i + 1));
    lss_sub(m.dom(), sm.dom(), bytes.take(i + 1));
}
pub proof fn via_bound(ts: &TokenSet, spans: Seq<Span>, cs: Seq<CostState>, k: int, j: int, c: nat, n: int)
    requires dp_bound(cs, c), cost_bound(ts, c), 1 <= k < spans.len(), span_ok(ts, spans[k]), 1 <= spans[k].string@.len() <= j, j == cs.len(), j <= n
    ensures cost_by(spans, cs, k, j) <= n * c
{
    let l = spans[k].string@.len() as int;
    span_cost(ts, spans[k], c);
    assert(cs[j - l].cost <= (j - l) * c);
    assert((j - l) * c + c <= n * c) by (nonlinear_arith) requires 1 <= l <= j, j <= n, c >= 0;
}
/// the counters can take what n bytes may add
pub open spec fn room_for(ts: &TokenSet, stats: &TokenStats, n: nat) -> bool {
    exists|c: nat| cost_bound(ts, c) && #[trigger] stats.room((n * c) as int)
}

// ---- counting the cover ---------------------------------------------------------
pub proof fn sum_le(c: Seq<Piece>, f: spec_fn(Piece) -> nat, b: nat)
    requires forall|i: int| 0 <= i < c.len() ==> f(#[trigger] c[i]) <= b
    ensures sum(c, f) <= c.len() * b
    decreases c.len()
{
    if c.len() > 0 {
        let d = c.drop_first();
        assert forall|i: int| 0 <= i < d.len() implies f(#[trigger] d[i]) <= b by { assert(d[i] == c[i + 1]); }
        sum_le(d, f, b);
        assert(d.len() * b + b == c.len() * b) by (nonlinear_arith) requires d.len() + 1 == c.len();
    }
}
pub proof fn n_pair_le(c: Seq<Piece>, a: int, b: int)
    ensures n_pair(c, a, b) <= c.len(), c.len() > 0 ==> n_pair(c, a, b) < c.len()
    decreases c.len()
{
    if c.len() >= 2 { n_pair_le(c.drop_first(), a, b); }
}
pub proof fn cat_len(ts: &TokenSet, c: Seq<Piece>)
    requires covering(ts), forall|i: int| 0 <= i < c.len() ==> piece_ok(ts, #[trigger] c[i])
    ensures c.len() <= cat(ts, c).len()
    decreases c.len()
{
    if c.len() > 0 {
        let d = c.drop_first();
        assert forall|i: int| 0 <= i < d.len() implies piece_ok(ts, #[trigger] d[i]) by { assert(d[i] == c[i + 1]); }
        cat_len(ts, d);
        assert(piece_ok(ts, c[0]));
    }
}
pub open spec fn sp_piece(spans: Seq<Span>, i: int) -> Piece { piece_of(spans[i].content) }
/// the uses of f by the spans below k
pub open spec fn wsum(spans: Seq<Span>, c: Seq<Piece>, f: spec_fn(Piece) -> nat, k: int) -> nat decreases k {
    if k <= 1 { 0 } else { wsum(spans, c, f, k - 1) + sum(c, is_p(sp_piece(spans, k - 1))) * f(sp_piece(spans, k - 1)) }
}
pub open spec fn wone(spans: Seq<Span>, p: Piece, f: spec_fn(Piece) -> nat, k: int) -> nat decreases k {
    if k <= 1 { 0 } else { wone(spans, p, f, k - 1) + if sp_piece(spans, k - 1) == p { f(p) } else { 0 } }
}
pub proof fn wsum_cons(spans: Seq<Span>, c: Seq<Piece>, f: spec_fn(Piece) -> nat, k: int)
    requires c.len() > 0
    ensures wsum(spans, c, f, k) == wone(spans, c[0], f, k) + wsum(spans, c.drop_first(), f, k)
    decreases k
{
    if k > 1 {
        wsum_cons(spans, c, f, k - 1);
        let p = sp_piece(spans, k - 1);
        let a = sum(c.drop_first(), is_p(p));
        let y = f(p);
        assert((1 + a) * y == y + a * y) by (nonlinear_arith);
        assert(0 * y == 0);
    }
}
pub proof fn wsum_nil(spans: Seq<Span>, c: Seq<Piece>, f: spec_fn(Piece) -> nat, k: int)
    requires c.len() == 0
    ensures wsum(spans, c, f, k) == 0
    decreases k
{
    if k > 1 { wsum_nil(spans, c, f, k - 1); assert(0 * f(sp_piece(spans, k - 1)) == 0) by (nonlinear_arith); }
}
pub proof fn wone_at(ts: &TokenSet, spans: Seq<Span>, m: Map<Seq<u8>, usize>, p: Piece, f: spec_fn(Piece) -> nat, k: int)
    requires covering(ts), spans_ok(ts, spans, m), piece_ok(ts, p), 0 <= k <= spans.len()
    ensures wone(spans, p, f, k) == if m[piece_str(ts, p)] < k { f(p) } else { 0 }
    decreases k
{
    assert(spanned(ts, spans, m, p));
    let s = piece_str(ts, p);
    assert(m[s] != 0);
    if k > 1 {
        wone_at(ts, spans, m, p, f, k - 1);
        span_nonempty(ts, spans, m, k - 1);
        if sp_piece(spans, k - 1) == p {
            assert(m[spans[k - 1].string@] == k - 1);
        }
    }
}
/// summing over the spans is summing over the cover
pub proof fn wsum_all(ts: &TokenSet, spans: Seq<Span>, m: Map<Seq<u8>, usize>, c: Seq<Piece>, f: spec_fn(Piece) -> nat)
    requires covering(ts), spans_ok(ts, spans, m), forall|i: int| 0 <= i < c.len() ==> piece_ok(ts, #[trigger] c[i])
    ensures wsum(spans, c, f, spans.len() as int) == sum(c, f)
    decreases c.len()
{
    if c.len() == 0 {
        wsum_nil(spans, c, f, spans.len() as int);
    } else {
        let d = c.drop_first();
        assert forall|i: int| 0 <= i < d.len() implies piece_ok(ts, #[trigger] d[i]) by { assert(d[i] == c[i + 1]); }
        wsum_all(ts, spans, m, d, f);
        wsum_cons(spans, c, f, spans.len() as int);
        assert(piece_ok(ts, c[0]));
        wone_at(ts, spans, m, c[0], f, spans.len() as int);
        assert(spanned(ts, spans, m, c[0]));
    }
}
pub proof fn wsum_mono(spans: Seq<Span>, c: Seq<Piece>, f: spec_fn(Piece) -> nat, k: int, l: int)
    requires k <= l
    ensures wsum(spans, c, f, k) <= wsum(spans, c, f, l)
    decreases l
{
    if k < l && l > 1 { wsum_mono(spans, c, f, k, l - 1); }
}
pub proof fn occ_take(s: Seq<usize>, t: int, i: int)
    requires 0 <= i < s.len()
    ensures occ(s.take(i + 1), t) == occ(s.take(i), t) + if s[i] == t { 1nat } else { 0 }
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
}
pub proof fn occ_mono(s: Seq<usize>, t: int, i: int)
    requires 0 <= i <= s.len()
    ensures occ(s.take(i), t) <= occ(s, t)
    decreases s.len() - i
{
    if i < s.len() { occ_take(s, t, i); occ_mono(s, t, i + 1); } else { assert(s.take(i) =~= s); }
}
pub proof fn occ_le(s: Seq<usize>, t: int)
    ensures occ(s, t) <= s.len()
    decreases s.len()
{
    if s.len() > 0 { occ_le(s.drop_last(), t); }
}
pub proof fn toks_le(ts: &TokenSet, c: Seq<Piece>, t: int, b: nat)
    requires covering(ts), cost_bound(ts, b), forall|i: int| 0 <= i < c.len() ==> piece_ok(ts, #[trigger] c[i])
    ensures sum(c, toks_of(ts, t)) <= c.len() * b
{
    let f = toks_of(ts, t);
    assert forall|i: int| 0 <= i < c.len() implies f(#[trigger] c[i]) <= b by {
        match c[i] { Piece::Sq(q) => { occ_le(ts.sequences@[q].tokens@, t); } _ => {} }
    }
    sum_le(c, f, b);
}
pub proof fn is_p_le(c: Seq<Piece>, p: Piece)
    ensures sum(c, is_p(p)) <= c.len()
{
    let f = is_p(p);
    assert forall|i: int| 0 <= i < c.len() implies f(#[trigger] c[i]) <= 1 by {}
    sum_le(c, f, 1);
}
/// what walking back over the table has read so far
pub open spec fn walked(ts: &TokenSet, spans: Seq<Span>, bytes: Seq<u8>, cs: Seq<CostState>, pos: int, c: Seq<Piece>) -> bool {
    &&& 0 <= pos <= bytes.len()
    &&& covers(ts, c, bytes.skip(pos))
    &&& c.len() + pos <= bytes.len()
    &&& cs[pos].cost + sum(c, costs(ts)) == cs[bytes.len() as int].cost
}
pub proof fn walk_step(ts: &TokenSet, spans: Seq<Span>, m: Map<Seq<u8>, usize>, bytes: Seq<u8>, cs: Seq<CostState>, pos: int, c: Seq<Piece>)
    requires covering(ts), spans_ok(ts, spans, m), dp_ok(spans, bytes, cs), cs.len() == bytes.len() + 1, walked(ts, spans, bytes, cs, pos, c), pos > 0
    ensures 1 <= cs[pos].span < spans.len(), span_ok(ts, spans[cs[pos].span as int]),
        1 <= spans[cs[pos].span as int].string@.len() <= pos,
        walked(ts, spans, bytes, cs, pos - spans[cs[pos].span as int].string@.len(), seq![sp_piece(spans, cs[pos].span as int)] + c),
{
    assert(dp_at(spans, bytes, cs, pos));
    let k = cs[pos].span as int;
    assert(fits(spans, bytes, k, pos));
    span_nonempty(ts, spans, m, k);
    let s = spans[k].string@;
    let l = s.len() as int;
    let p = sp_piece(spans, k);
    let d = seq![p] + c;
    assert(d.drop_first() =~= c);
    assert(bytes.skip(pos - l) =~= s + bytes.skip(pos)) by {
        assert(bytes.take(pos).skip(pos - l) =~= s);
        assert forall|i: int| 0 <= i < l implies bytes[pos - l + i] == s[i] by { assert(bytes.take(pos).skip(pos - l)[i] == s[i]); }
    }
    assert(cat(ts, d) =~= s + cat(ts, c));
    sum_cons(c, p, costs(ts));
    assert forall|i: int| 0 <= i < d.len() implies piece_ok(ts, #[trigger] d[i]) by { if i > 0 { assert(d[i] == c[i - 1]); } }
}
/// the pair counters hold the pairs of c
pub open spec fn pairs_counted(n: int, a: Seq<u64>, b: Seq<u64>, c: Seq<Piece>) -> bool {
    &&& a.len() == b.len()
    &&& forall|x: int| 0 <= x < a.len() ==> #[trigger] b[x] == a[x] + n_pair(c, x / n, x % n)
}
pub open spec fn first_tok(c: Seq<Piece>) -> Option<int> {
    if c.len() == 0 { None } else { match c[0] { Piece::Tok(t) => Some(t), Piece::Sq(_) => None } }
}
pub proof fn span_unique(ts: &TokenSet, spans: Seq<Span>, m: Map<Seq<u8>, usize>, k: int, l: int)
    requires covering(ts), spans_ok(ts, spans, m), 1 <= k < spans.len(), 1 <= l < spans.len(), sp_piece(spans, k) == sp_piece(spans, l)
    ensures k == l
{
    assert(span_ok(ts, spans[k]) && span_ok(ts, spans[l]));
    assert(m[spans[k].string@] == k && m[spans[l].string@] == l);
}
/// the counters of a finished walk are those of the cover
pub proof fn all_counted(ts: &TokenSet, spans: Seq<Span>, m: Map<Seq<u8>, usize>, bytes: Seq<u8>, cs: Seq<CostState>, c: Seq<Piece>, a: &TokenStats, b: &TokenStats)
    requires covering(ts), spans_ok(ts, spans, m), dp_ok(spans, bytes, cs), cs.len() == bytes.len() + 1,
        walked(ts, spans, bytes, cs, 0, c), a.shaped(ts),
        pairs_counted(ts.tokens@.len() as int, a.pair_counts@, b.pair_counts@, c),
        spent(ts, spans, c, a, b.token_counts@, b.seq_counts@, spans.len() as int),
        b.token_set == a.token_set, b.initial_size == a.initial_size,
        b.total_tokens == a.total_tokens + cs[bytes.len() as int].cost, b.scanned_bytes == a.scanned_bytes + bytes.len(),
    ensures tokenized(ts, bytes, a, b), counted(ts, c, bytes.len(), a, b)
{
    assert(bytes.skip(0) =~= bytes);
    assert(bytes.take(bytes.len() as int) =~= bytes);
    assert forall|t: int| 0 <= t < ts.tokens@.len() implies #[trigger] b.token_counts@[t] == a.token_counts@[t] + sum(c, toks_of(ts, t)) by {
        wsum_all(ts, spans, m, c, toks_of(ts, t));
    }
    assert forall|q: int| 0 <= q < ts.sequences@.len() implies #[trigger] b.seq_counts@[q] == a.seq_counts@[q] + sum(c, seqs_of(q)) by {
        wsum_all(ts, spans, m, c, seqs_of(q));
    }
    assert(counted(ts, c, bytes.len(), a, b));
    assert(cheapest(ts, c, bytes)) by {
        assert forall|d: Seq<Piece>| #[trigger] covers(ts, d, bytes) implies sum(c, costs(ts)) <= sum(d, costs(ts)) by {
            dp_minimal(ts, spans, m, bytes, cs, bytes.len() as int, d);
        }
    }
}
/// the counters can take the uses of span k
pub proof fn room_left(ts: &TokenSet, spans: Seq<Span>, c: Seq<Piece>, a: &TokenStats, tc: Seq<u64>, sc: Seq<u64>, k: int, cnt: u64)
    requires spent(ts, spans, c, a, tc, sc, k), k >= 1, cnt == sum(c, is_p(sp_piece(spans, k))), a.shaped(ts),
        forall|t: int| 0 <= t < ts.tokens@.len() ==> #[trigger] a.token_counts@[t] + wsum(spans, c, toks_of(ts, t), k + 1) <= u64::MAX,
        forall|q: int| 0 <= q < ts.sequences@.len() ==> #[trigger] a.seq_counts@[q] + wsum(spans, c, seqs_of(q), k + 1) <= u64::MAX,
    ensures
        forall|t: int| 0 <= t < tc.len() ==> #[trigger] tc[t] + cnt * piece_tok(ts, sp_piece(spans, k), t) <= u64::MAX,
        forall|t: int| 0 <= t < tc.len() && sp_piece(spans, k) == Piece::Tok(t) ==> #[trigger] tc[t] + cnt <= u64::MAX,
        forall|q: int| 0 <= q < sc.len() && sp_piece(spans, k) == Piece::Sq(q) ==> #[trigger] sc[q] + cnt <= u64::MAX,
{
    let p = sp_piece(spans, k);
    assert forall|t: int| 0 <= t < tc.len() implies #[trigger] tc[t] + cnt * piece_tok(ts, sp_piece(spans, k), t) <= u64::MAX by {
        assert(toks_of(ts, t)(p) == piece_tok(ts, p, t));
        assert(a.token_counts@[t] + wsum(spans, c, toks_of(ts, t), k + 1) <= u64::MAX);
    }
    assert forall|t: int| 0 <= t < tc.len() && sp_piece(spans, k) == Piece::Tok(t) implies #[trigger] tc[t] + cnt <= u64::MAX by {
        assert(tc[t] + cnt * piece_tok(ts, sp_piece(spans, k), t) <= u64::MAX);
        assert(cnt * 1 == cnt);
    }
    assert forall|q: int| 0 <= q < sc.len() && sp_piece(spans, k) == Piece::Sq(q) implies #[trigger] sc[q] + cnt <= u64::MAX by {
        assert(a.seq_counts@[q] + wsum(spans, c, seqs_of(q), k + 1) <= u64::MAX);
        assert(cnt * seqs_of(q)(p) == cnt);
    }
}
pub open spec fn added(ts: &TokenSet, p: Piece, tc0: Seq<u64>, tc: Seq<u64>, sc0: Seq<u64>, sc: Seq<u64>, cnt: u64) -> bool {
    match p {
        Piece::Tok(t) => sc == sc0 && 0 <= t < tc0.len() && tc0[t] + cnt <= u64::MAX && tc == tc0.update(t, (tc0[t] + cnt) as u64),
        Piece::Sq(q) => occ_added(ts.sequences@[q].tokens@, tc0, tc, cnt) && 0 <= q < sc0.len() && sc0[q] + cnt <= u64::MAX
            && sc == sc0.update(q, (sc0[q] + cnt) as u64),
    }
}
pub proof fn added_zero(ts: &TokenSet, p: Piece, tc0: Seq<u64>, sc0: Seq<u64>)
    requires match p { Piece::Tok(t) => 0 <= t < tc0.len(), Piece::Sq(q) => 0 <= q < sc0.len() }
    ensures added(ts, p, tc0, tc0, sc0, sc0, 0)
{
    match p {
        Piece::Tok(t) => { assert(tc0.update(t, tc0[t]) =~= tc0); }
        Piece::Sq(q) => { assert(sc0.update(q, sc0[q]) =~= sc0); }
    }
}
pub proof fn added_now(ts: &TokenSet, p: Piece, tc0: Seq<u64>, tc: Seq<u64>, sc0: Seq<u64>, sc: Seq<u64>, cnt: u64)
    requires added(ts, p, tc0, tc, sc0, sc, cnt)
    ensures tok_added(ts, p, tc0, tc, cnt), seq_added(p, sc0, sc, cnt)
{
    assert(cnt * 0 == 0 && cnt * 1 == cnt);
    assert forall|t: int| 0 <= t < tc.len() implies #[trigger] tc[t] == tc0[t] + cnt * piece_tok(ts, p, t) by {
        match p { Piece::Tok(k) => { assert(piece_tok(ts, p, t) == if k == t { 1nat } else { 0 }); } Piece::Sq(q) => {} }
    }
    assert forall|q: int| 0 <= q < sc.len() implies #[trigger] sc[q] == sc0[q] + cnt * is_p(Piece::Sq(q))(p) by {
        assert(is_p(Piece::Sq(q))(p) == if p == Piece::Sq(q) { 1nat } else { 0 });
    }
}
pub open spec fn occ_added(s: Seq<usize>, tc0: Seq<u64>, tc: Seq<u64>, cnt: u64) -> bool {
    tc.len() == tc0.len() && forall|t: int| 0 <= t < tc.len() ==> #[trigger] tc[t] == tc0[t] + cnt * occ(s, t)
}
pub proof fn occ_none(s: Seq<usize>, tc0: Seq<u64>, cnt: u64)
    ensures occ_added(s.take(0), tc0, tc0, cnt)
{
    assert forall|t: int| 0 <= t < tc0.len() implies #[trigger] tc0[t] == tc0[t] + cnt * occ(s.take(0), t) by {
        assert(occ(s.take(0), t) == 0);
        assert(cnt * 0 == 0);
    }
}
pub proof fn occ_room(s: Seq<usize>, i: int, tc0: Seq<u64>, tc: Seq<u64>, cnt: u64)
    requires occ_added(s.take(i), tc0, tc, cnt), 0 <= i < s.len(), s[i] < tc.len(), tc0[s[i] as int] + cnt * occ(s, s[i] as int) <= u64::MAX
    ensures tc[s[i] as int] + cnt <= u64::MAX
{
    let t = s[i] as int;
    occ_take(s, t, i);
    occ_mono(s, t, i + 1);
    let a = occ(s.take(i), t) as int;
    let b = occ(s, t) as int;
    assert(tc[t] == tc0[t] + cnt * a);
    assert(cnt * a + cnt <= cnt * b) by (nonlinear_arith) requires a + 1 <= b, cnt >= 0;
}
pub proof fn occ_step(s: Seq<usize>, i: int, tc0: Seq<u64>, tc: Seq<u64>, cnt: u64, tc2: Seq<u64>)
    requires occ_added(s.take(i), tc0, tc, cnt), 0 <= i < s.len(), s[i] < tc.len(), tc[s[i] as int] + cnt <= u64::MAX,
        tc2 == tc.update(s[i] as int, (tc[s[i] as int] + cnt) as u64)
    ensures occ_added(s.take(i + 1), tc0, tc2, cnt)
{
    assert forall|t: int| 0 <= t < tc2.len() implies #[trigger] tc2[t] == tc0[t] + cnt * occ(s.take(i + 1), t) by {
        occ_take(s, t, i);
        let a = occ(s.take(i), t) as int;
        assert(tc[t] == tc0[t] + cnt * a);
        assert(cnt * (a + 1) == cnt * a + cnt) by (nonlinear_arith);
    }
}
pub open spec fn next_is(t: Option<usize>, c: Seq<Piece>) -> bool {
    match t { Option::Some(x) => first_tok(c) == Option::Some(x as int), Option::None => first_tok(c) is None }
}
pub proof fn n_pair_cons(c: Seq<Piece>, p: Piece, a: int, b: int)
    ensures n_pair(seq![p] + c, a, b) == n_pair(c, a, b) + if p == Piece::Tok(a) && first_tok(c) == Some(b) { 1nat } else { 0 }
{
    assert((seq![p] + c).drop_first() =~= c);
}
pub proof fn pair_step(n: int, a: Seq<u64>, b: Seq<u64>, c: Seq<Piece>, p: Piece, b2: Seq<u64>)
    requires pairs_counted(n, a, b, c), n >= 0, a.len() == n * n,
        match p { Piece::Tok(t) => 0 <= t < n && match first_tok(c) {
                Some(u) => 0 <= u < n && 0 <= t * n + u < b.len() && b2 == b.update(t * n + u, (b[t * n + u] + 1) as u64) && b[t * n + u] < u64::MAX,
                None => b2 == b },
            Piece::Sq(_) => b2 == b },
    ensures pairs_counted(n, a, b2, seq![p] + c)
{
    assert forall|x: int| 0 <= x < a.len() implies #[trigger] b2[x] == a[x] + n_pair(seq![p] + c, x / n, x % n) by {
        if n == 0 { assert(n * n == 0); }
        n_pair_cons(c, p, x / n, x % n);
        match p { Piece::Tok(t) => { match first_tok(c) {
            Some(u) => { pair_index(n, t, u); pair_of_index(n, x); }
            None => {} } } _ => {} }
    }
}
pub proof fn pair_index(n: int, t: int, u: int)
    requires 0 <= t < n, 0 <= u < n
    ensures 0 <= t * n + u < n * n, (t * n + u) / n == t, (t * n + u) % n == u
{
    assert(0 <= t * n + u < n * n) by (nonlinear_arith) requires 0 <= t < n, 0 <= u < n;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(t * n + u, n, t, u);
}
pub proof fn pair_of_index(n: int, x: int)
    requires n > 0
    ensures x == (x / n) * n + x % n
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, n);
    assert(n * (x / n) == (x / n) * n) by (nonlinear_arith);
}
/// the token and sequence counters hold the uses by the spans below k
pub open spec fn spent(ts: &TokenSet, spans: Seq<Span>, c: Seq<Piece>, a: &TokenStats, tc: Seq<u64>, sc: Seq<u64>, k: int) -> bool {
    &&& tc.len() == a.token_counts@.len() && sc.len() == a.seq_counts@.len()
    &&& forall|t: int| 0 <= t < tc.len() ==> #[trigger] tc[t] == a.token_counts@[t] + wsum(spans, c, toks_of(ts, t), k)
    &&& forall|q: int| 0 <= q < sc.len() ==> #[trigger] sc[q] == a.seq_counts@[q] + wsum(spans, c, seqs_of(q), k)
}
/// what a counter may hold while span k is being added
pub proof fn spent_room(ts: &TokenSet, spans: Seq<Span>, m: Map<Seq<u8>, usize>, c: Seq<Piece>, a: &TokenStats, k: int, b: nat, n: nat)
    requires covering(ts), spans_ok(ts, spans, m), 1 <= k < spans.len(), cost_bound(ts, b), c.len() <= n, a.room((n * b) as int), a.shaped(ts),
        forall|i: int| 0 <= i < c.len() ==> piece_ok(ts, #[trigger] c[i])
    ensures
        forall|t: int| 0 <= t < ts.tokens@.len() ==> #[trigger] a.token_counts@[t] + wsum(spans, c, toks_of(ts, t), k + 1) <= u64::MAX,
        forall|q: int| 0 <= q < ts.sequences@.len() ==> #[trigger] a.seq_counts@[q] + wsum(spans, c, seqs_of(q), k + 1) <= u64::MAX,
{
    let l = spans.len() as int;
    assert(c.len() * b <= n * b) by (nonlinear_arith) requires c.len() <= n;
    assert(n <= n * b) by (nonlinear_arith) requires b >= 1;
    assert forall|t: int| 0 <= t < ts.tokens@.len() implies #[trigger] a.token_counts@[t] + wsum(spans, c, toks_of(ts, t), k + 1) <= u64::MAX by {
        wsum_mono(spans, c, toks_of(ts, t), k + 1, l);
        wsum_all(ts, spans, m, c, toks_of(ts, t));
        toks_le(ts, c, t, b);
    }
    assert forall|q: int| 0 <= q < ts.sequences@.len() implies #[trigger] a.seq_counts@[q] + wsum(spans, c, seqs_of(q), k + 1) <= u64::MAX by {
        wsum_mono(spans, c, seqs_of(q), k + 1, l);
        wsum_all(ts, spans, m, c, seqs_of(q));
        is_p_le(c, Piece::Sq(q));
    }
}
/// the tokens of span k added once more
pub open spec fn tok_added(ts: &TokenSet, p: Piece, tc0: Seq<u64>, tc: Seq<u64>, cnt: u64) -> bool {
    tc.len() == tc0.len() && forall|t: int| 0 <= t < tc.len() ==> #[trigger] tc[t] == tc0[t] + cnt * piece_tok(ts, p, t)
}
pub open spec fn seq_added(p: Piece, sc0: Seq<u64>, sc: Seq<u64>, cnt: u64) -> bool {
    sc.len() == sc0.len() && forall|q: int| 0 <= q < sc.len() ==> #[trigger] sc[q] == sc0[q] + cnt * is_p(Piece::Sq(q))(p)
}
pub proof fn spent_step(ts: &TokenSet, spans: Seq<Span>, c: Seq<Piece>, a: &TokenStats, tc0: Seq<u64>, sc0: Seq<u64>, k: int, tc: Seq<u64>, sc: Seq<u64>, cnt: u64)
    requires spent(ts, spans, c, a, tc0, sc0, k), k >= 1, cnt == sum(c, is_p(sp_piece(spans, k))),
        tok_added(ts, sp_piece(spans, k), tc0, tc, cnt), seq_added(sp_piece(spans, k), sc0, sc, cnt)
    ensures spent(ts, spans, c, a, tc, sc, k + 1)
{
    let p = sp_piece(spans, k);
    assert forall|t: int| 0 <= t < tc.len() implies #[trigger] tc[t] == a.token_counts@[t] + wsum(spans, c, toks_of(ts, t), k + 1) by {
        assert(toks_of(ts, t)(p) == piece_tok(ts, p, t));
    }
    assert forall|q: int| 0 <= q < sc.len() implies #[trigger] sc[q] == a.seq_counts@[q] + wsum(spans, c, seqs_of(q), k + 1) by {
    }
}

// ---- the cover that is taken: of the cheapest pieces the longest -----------------
pub open spec fn ends(ts: &TokenSet, bytes: Seq<u8>, p: Piece, j: int) -> bool {
    piece_ok(ts, p) && is_suffix(piece_str(ts, p), bytes.take(j))
}
pub struct Cell { pub cost: nat, pub piece: Piece }
pub open spec fn reach(ts: &TokenSet, tab: Seq<Cell>, p: Piece, j: int) -> nat {
    tab[j - piece_str(ts, p).len()].cost + piece_cost(ts, p)
}
pub open spec fn cell_ok(ts: &TokenSet, bytes: Seq<u8>, tab: Seq<Cell>, j: int) -> bool {
    let p = tab[j].piece;
    &&& ends(ts, bytes, p, j)
    &&& tab[j].cost == reach(ts, tab, p, j)
    &&& forall|q: Piece| #[trigger] ends(ts, bytes, q, j) ==> tab[j].cost <= reach(ts, tab, q, j)
            && (piece_str(ts, q).len() > piece_str(ts, p).len() ==> tab[j].cost < reach(ts, tab, q, j))
}
/// the first n cells of the table of `bytes`
pub open spec fn tab_ok(ts: &TokenSet, bytes: Seq<u8>, tab: Seq<Cell>, n: int) -> bool {
    &&& tab.len() == n + 1 && n <= bytes.len()
    &&& tab[0].cost == 0 && tab[0].piece == Piece::Tok(-1)
    &&& forall|j: int| 1 <= j <= n ==> #[trigger] cell_ok(ts, bytes, tab, j)
}
pub open spec fn read_tab(ts: &TokenSet, tab: Seq<Cell>, pos: int) -> Seq<Piece> decreases pos {
    if pos <= 0 { Seq::empty() } else {
        let p = tab[pos].piece;
        let l = piece_str(ts, p).len();
        if l == 0 || l > pos { Seq::empty() } else { read_tab(ts, tab, pos - l).push(p) }
    }
}
pub open spec fn canon_tab(ts: &TokenSet, bytes: Seq<u8>) -> Seq<Cell> {
    choose|tab: Seq<Cell>| #[trigger] tab_ok(ts, bytes, tab, bytes.len() as int)
}
/// The cover of `bytes`: a function of the token set and the bytes alone.
pub open spec fn canon(ts: &TokenSet, bytes: Seq<u8>) -> Seq<Piece> {
    read_tab(ts, canon_tab(ts, bytes), bytes.len() as int)
}
pub proof fn tab_unique(ts: &TokenSet, bytes: Seq<u8>, a: Seq<Cell>, b: Seq<Cell>, n: int, j: int)
    requires covering(ts), tab_ok(ts, bytes, a, n), tab_ok(ts, bytes, b, n), 0 <= j <= n
    ensures a[j] == b[j]
    decreases j
{
    if j > 0 {
        assert forall|i: int| 0 <= i < j implies a[i] == b[i] by { tab_unique(ts, bytes, a, b, n, i); }
        assert(cell_ok(ts, bytes, a, j) && cell_ok(ts, bytes, b, j));
        let p = a[j].piece;
        let q = b[j].piece;
        assert(ends(ts, bytes, p, j) && ends(ts, bytes, q, j));
        assert(reach(ts, a, p, j) == reach(ts, b, p, j));
        assert(reach(ts, a, q, j) == reach(ts, b, q, j));
        assert(piece_str(ts, p).len() == piece_str(ts, q).len());
        assert(piece_str(ts, p) == piece_str(ts, q));
    }
}
pub proof fn min_nat(f: spec_fn(nat) -> bool, k: nat) -> (r: nat)
    requires f(k)
    ensures f(r), forall|i: nat| i < r ==> !#[trigger] f(i)
    decreases k
{
    if exists|i: nat| i < k && #[trigger] f(i) {
        let i = choose|i: nat| i < k && #[trigger] f(i);
        min_nat(f, i)
    } else {
        k
    }
}
pub open spec fn rank(ts: &TokenSet, tab: Seq<Cell>, p: Piece, j: int) -> nat {
    (reach(ts, tab, p, j) * (j + 1) + (j - piece_str(ts, p).len())) as nat
}
pub open spec fn ranked(ts: &TokenSet, bytes: Seq<u8>, tab: Seq<Cell>, j: int, k: nat) -> bool {
    exists|p: Piece| #[trigger] ends(ts, bytes, p, j) && rank(ts, tab, p, j) == k
}
pub proof fn rank_order(a: nat, la: int, b: nat, lb: int, j: int)
    requires 0 <= la <= j, 0 <= lb <= j, a * (j + 1) + (j - la) <= b * (j + 1) + (j - lb)
    ensures a <= b, lb > la ==> a < b
{
    if a > b {
        assert(a * (j + 1) >= (b + 1) * (j + 1)) by (nonlinear_arith) requires a >= b + 1, j >= 0;
        assert((b + 1) * (j + 1) == b * (j + 1) + (j + 1)) by (nonlinear_arith);
    }
}
pub proof fn cell_exists(ts: &TokenSet, bytes: Seq<u8>, tab: Seq<Cell>, j: int) -> (c: Cell)
    requires covering(ts), tab.len() == j, 1 <= j <= bytes.len()
    ensures cell_ok(ts, bytes, tab.push(c), j)
{
    let t = bytes.take(j);
    let b = t.last();
    assert(byte_encoded(ts, b));
    let p0 = choose|p: Piece| #[trigger] piece_ok(ts, p) && piece_str(ts, p) == seq![b];
    assert(t.skip(t.len() - 1) =~= seq![b]);
    assert(ends(ts, bytes, p0, j));
    let f = |k: nat| ranked(ts, bytes, tab, j, k);
    assert(f(rank(ts, tab, p0, j)));
    let r = min_nat(f, rank(ts, tab, p0, j));
    assert(ranked(ts, bytes, tab, j, r));
    let p = choose|p: Piece| #[trigger] ends(ts, bytes, p, j) && rank(ts, tab, p, j) == r;
    let c = Cell { cost: reach(ts, tab, p, j), piece: p };
    let nt = tab.push(c);
    assert forall|q: Piece| #[trigger] ends(ts, bytes, q, j) implies nt[j].cost <= reach(ts, nt, q, j)
            && (piece_str(ts, q).len() > piece_str(ts, p).len() ==> nt[j].cost < reach(ts, nt, q, j)) by {
        assert(piece_str(ts, q).len() > 0);
        assert(reach(ts, nt, q, j) == reach(ts, tab, q, j));
        if rank(ts, tab, q, j) < r { assert(f(rank(ts, tab, q, j))); }
        let (a, la) = (reach(ts, tab, p, j), piece_str(ts, p).len() as int);
        let (b, lb) = (reach(ts, tab, q, j), piece_str(ts, q).len() as int);
        assert(a * (j + 1) >= 0 && b * (j + 1) >= 0) by (nonlinear_arith) requires a >= 0, b >= 0, j >= 0;
        rank_order(a, la, b, lb, j);
    }
    assert(piece_str(ts, p).len() > 0);
    c
}
pub proof fn tab_exists(ts: &TokenSet, bytes: Seq<u8>, n: int) -> (tab: Seq<Cell>)
    requires covering(ts), 0 <= n <= bytes.len()
    ensures tab_ok(ts, bytes, tab, n)
    decreases n
{
    if n == 0 {
        seq![Cell { cost: 0, piece: Piece::Tok(-1) }]
    } else {
        let t = tab_exists(ts, bytes, n - 1);
        let c = cell_exists(ts, bytes, t, n);
        let r = t.push(c);
        assert forall|j: int| 1 <= j <= n implies #[trigger] cell_ok(ts, bytes, r, j) by {
            if j < n {
                assert(cell_ok(ts, bytes, t, j));
                assert forall|q: Piece| #[trigger] ends(ts, bytes, q, j) implies reach(ts, r, q, j) == reach(ts, t, q, j) by {
                    assert(piece_str(ts, q).len() > 0);
                }
                assert(ends(ts, bytes, t[j].piece, j));
            }
        }
        r
    }
}
pub proof fn read_covers(ts: &TokenSet, bytes: Seq<u8>, tab: Seq<Cell>, n: int, pos: int)
    requires covering(ts), tab_ok(ts, bytes, tab, n), 0 <= pos <= n
    ensures covers(ts, read_tab(ts, tab, pos), bytes.take(pos))
    decreases pos
{
    if pos == 0 {
        assert(bytes.take(0) =~= Seq::<u8>::empty());
    } else {
        assert(cell_ok(ts, bytes, tab, pos));
        let p = tab[pos].piece;
        let s = piece_str(ts, p);
        assert(ends(ts, bytes, p, pos));
        assert(s.len() > 0);
        let i = pos - s.len();
        read_covers(ts, bytes, tab, n, i);
        let r = read_tab(ts, tab, i);
        cat_push(ts, r, p);
        assert(bytes.take(pos) =~= bytes.take(i) + s) by {
            let t = bytes.take(pos);
            assert(t =~= t.take(i) + t.skip(i));
            assert(t.take(i) =~= bytes.take(i));
        }
    }
}
pub proof fn canon_covers(ts: &TokenSet, bytes: Seq<u8>)
    requires covering(ts)
    ensures covers(ts, canon(ts, bytes), bytes)
{
    let n = bytes.len() as int;
    let t = tab_exists(ts, bytes, n);
    assert(tab_ok(ts, bytes, canon_tab(ts, bytes), n));
    read_covers(ts, bytes, canon_tab(ts, bytes), n, n);
    assert(bytes.take(n) =~= bytes);
}
/// among the spans considered the one kept is the longest of the cheapest
pub open spec fn tie(spans: Seq<Span>, bytes: Seq<u8>, cs: Seq<CostState>, j: int, b: Option<CostState>) -> bool {
    match b {
        Option::None => true,
        Option::Some(x) => forall|k: int| #[trigger] fits(spans, bytes, k, j) && spans[k].string@.len() > spans[x.span as int].string@.len()
            ==> x.cost < cost_by(spans, cs, k, j),
    }
}
pub open spec fn tie_at(spans: Seq<Span>, bytes: Seq<u8>, cs: Seq<CostState>, j: int) -> bool {
    tie(spans, bytes, cs, j, Option::Some(cs[j]))
}
pub open spec fn dp_tie(spans: Seq<Span>, bytes: Seq<u8>, cs: Seq<CostState>) -> bool {
    forall|j: int| 1 <= j < cs.len() ==> #[trigger] tie_at(spans, bytes, cs, j)
}
pub proof fn tie_step(spans: Seq<Span>, bytes: Seq<u8>, cs: Seq<CostState>, j: int, k: int, b: Option<CostState>, x: Option<CostState>)
    requires best_of(spans, bytes, cs, j, spans[k].string@.len() as int, b), tie(spans, bytes, cs, j, b), x.is_some(),
        (b.is_none() || b->Some_0.cost > cost_by(spans, cs, k, j)) ==> x->Some_0.span == k && x->Some_0.cost == cost_by(spans, cs, k, j),
        (b.is_some() && b->Some_0.cost <= cost_by(spans, cs, k, j)) ==> x == b,
    ensures tie(spans, bytes, cs, j, x)
{
}
pub proof fn tie_push(ts: &TokenSet, spans: Seq<Span>, m: Map<Seq<u8>, usize>, bytes: Seq<u8>, cs: Seq<CostState>, x: CostState)
    requires covering(ts), spans_ok(ts, spans, m), dp_tie(spans, bytes, cs), 1 <= cs.len() <= bytes.len(), tie(spans, bytes, cs, cs.len() as int, Option::Some(x))
    ensures dp_tie(spans, bytes, cs.push(x))
{
    let ns = cs.push(x);
    assert forall|i: int| 1 <= i < ns.len() implies #[trigger] tie_at(spans, bytes, ns, i) by {
        assert forall|k: int| #[trigger] fits(spans, bytes, k, i) implies cost_by(spans, ns, k, i) == cost_by(spans, cs, k, i) by {
            span_nonempty(ts, spans, m, k);
        }
        if i < cs.len() { assert(tie_at(spans, bytes, cs, i)); }
    }
}
pub open spec fn cells(spans: Seq<Span>, cs: Seq<CostState>) -> Seq<Cell> {
    Seq::new(cs.len(), |j: int| Cell { cost: cs[j].cost as nat, piece: if j == 0 { Piece::Tok(-1) } else { sp_piece(spans, cs[j].span as int) } })
}
pub proof fn cells_ok(ts: &TokenSet, spans: Seq<Span>, m: Map<Seq<u8>, usize>, bytes: Seq<u8>, cs: Seq<CostState>)
    requires covering(ts), spans_ok(ts, spans, m), dp_ok(spans, bytes, cs), dp_tie(spans, bytes, cs), cs.len() == bytes.len() + 1
    ensures tab_ok(ts, bytes, cells(spans, cs), bytes.len() as int),
        read_tab(ts, cells(spans, cs), bytes.len() as int) == canon(ts, bytes)
{
    let tab = cells(spans, cs);
    let n = bytes.len() as int;
    assert forall|j: int| 1 <= j <= n implies #[trigger] cell_ok(ts, bytes, tab, j) by {
        assert(dp_at(spans, bytes, cs, j) && tie_at(spans, bytes, cs, j));
        let k = cs[j].span as int;
        assert(fits(spans, bytes, k, j));
        span_nonempty(ts, spans, m, k);
        assert forall|q: Piece| #[trigger] ends(ts, bytes, q, j) implies tab[j].cost <= reach(ts, tab, q, j)
                && (piece_str(ts, q).len() > piece_str(ts, tab[j].piece).len() ==> tab[j].cost < reach(ts, tab, q, j)) by {
            assert(piece_str(ts, q).len() > 0);
            assert(spanned(ts, spans, m, q));
            let i = m[piece_str(ts, q)] as int;
            assert(i != 0);
            assert(fits(spans, bytes, i, j));
            assert(span_ok(ts, spans[i]));
        }
    }
    let c = canon_tab(ts, bytes);
    assert(tab_ok(ts, bytes, tab, n));
    assert(tab_ok(ts, bytes, c, n));
    assert(tab =~= c) by {
        assert forall|j: int| 0 <= j <= n implies tab[j] == c[j] by { tab_unique(ts, bytes, tab, c, n, j); }
    }
}
pub proof fn read_step(ts: &TokenSet, spans: Seq<Span>, m: Map<Seq<u8>, usize>, cs: Seq<CostState>, pos: int, c: Seq<Piece>)
    requires 0 < pos < cs.len(), 1 <= cs[pos].span < spans.len(), covering(ts), spans_ok(ts, spans, m),
        1 <= spans[cs[pos].span as int].string@.len() <= pos
    ensures read_tab(ts, cells(spans, cs), pos - spans[cs[pos].span as int].string@.len()) + (seq![sp_piece(spans, cs[pos].span as int)] + c)
        == read_tab(ts, cells(spans, cs), pos) + c
{
    let k = cs[pos].span as int;
    span_nonempty(ts, spans, m, k);
    assert(cells(spans, cs)[pos].piece == sp_piece(spans, k));
    assert(read_tab(ts, cells(spans, cs), pos - spans[k].string@.len()) + (seq![sp_piece(spans, k)] + c)
        =~= read_tab(ts, cells(spans, cs), pos) + c);
}
pub proof fn canon_read(ts: &TokenSet, spans: Seq<Span>, m: Map<Seq<u8>, usize>, bytes: Seq<u8>, cs: Seq<CostState>, c: Seq<Piece>)
    requires covering(ts), spans_ok(ts, spans, m), dp_ok(spans, bytes, cs), dp_tie(spans, bytes, cs), cs.len() == bytes.len() + 1,
        read_tab(ts, cells(spans, cs), 0) + c == read_tab(ts, cells(spans, cs), bytes.len() as int)
    ensures c == canon(ts, bytes)
{
    cells_ok(ts, spans, m, bytes, cs);
    assert(read_tab(ts, cells(spans, cs), 0) + c =~= c);
}

@fn FragmentTokenizer::create_spans -> r
@props C03 C04 C05 C15
@spec
requires covering(token_set), token_set.tokens@.len() + token_set.sequences@.len() < usize::MAX
ensures spans_ok(token_set, r.0@, r.1.m())
@start
let ghost mut __sp: Seq<Span> = Seq::empty();
@loop 0 before
assert(span_by_str.m().dom().contains(Seq::<u8>::empty()));
assert(built(token_set, spans@, span_by_str.m(), 0, 0));
@loop 0
    spans@.len() <= __d0 + 1,
    built(token_set, spans@, span_by_str.m(), __d0, 0),
@loop 0 start
let ghost __m = span_by_str.m();
proof { __sp = spans@; }
proof {
    assert(piece_ok(token_set, Piece::Tok(__d0)) == (token_set.tokens@[__d0] is Str));
    if piece_ok(token_set, Piece::Tok(__d0)) { built_fresh(token_set, __sp, __m, Piece::Tok(__d0), __d0, 0); }
}
@loop 0 end
proof {
    if piece_ok(token_set, Piece::Tok(__d0)) {
        built_push(token_set, __sp, __m, spans@.last(), __d0, 0);
    } else {
        built_skip(token_set, __sp, __m, __d0, 0);
    }
}
@loop 1
    spans@.len() <= token_set.tokens@.len() + __d1 + 1,
    built(token_set, spans@, span_by_str.m(), token_set.tokens@.len() as int, __d1),
@loop 1 start
let ghost __m = span_by_str.m();
proof { __sp = spans@; }
proof {
    assert(piece_ok(token_set, Piece::Sq(__d1)));
    built_fresh(token_set, __sp, __m, Piece::Sq(__d1), token_set.tokens@.len() as int, __d1);
}
@loop 1 end
proof {
    built_push(token_set, __sp, __m, spans@.last(), token_set.tokens@.len() as int, __d1);
}
@loop 2 before
let ghost __m = span_by_str.m();
proof { __sp = spans@; }
@loop 2
    span_by_str.m() == __m, 
    linked(__sp, spans@, __m, __d2),
@loop 2 start
let ghost __a = spans@;
assert(span_ok(token_set, __sp[__d2]));
assert(piece_ok(token_set, piece_of(__sp[__d2].content)));
@loop 3
invariant_except_break
    lss(__m.dom(), __st.skip(1)) == lss(__m.dom(), __st.skip(__d3)),
    *span == __s0,
invariant
    __s0.suffix_span == 0, span_by_str.m() == __m, __h3 == __st.len(), __st == __s0.string@,
ensures
    span.string@ == __st, span.content == __s0.content, span.cost == __s0.cost, span.suffix_span == __m[lss(__m.dom(), __st.skip(1))]
@loop 3 before
let ghost __s0 = *span;
let ghost __st = span.string@;
assert(__sp[0].string@ == Seq::<u8>::empty());
assert(__m[Seq::<u8>::empty()] == 0);
assert(__st.skip(__st.len() as int) =~= Seq::<u8>::empty());
@loop 3 start
proof {
    assert(__st.skip(__d3).skip(1) =~= __st.skip(__d3 + 1));
}
@loop 2 end
proof {
    assert(spans@[__d2].string@ == __sp[__d2].string@);
    assert(spans@[__d2].suffix_span == __m[lss(__m.dom(), __sp[__d2].string@.skip(1))]);
    assert(suffix_ok(spans@, __m, __d2));
    linked_step(__sp, __a, __m, __d2, spans@);
}
@end
proof { linked_done(token_set, __sp, __ret.0@, __ret.1.m()); }

@fn SuffixState::new -> r
@props C03 C04 C05 C15
@spec
ensures r.suffix@ == suffix@, r.span_idx == span_idx

@fn FragmentTokenizer::create_suffix_states -> r
@props C03 C04 C05 C15
@attr #[verifier::rlimit(100)]
@spec
requires map_ok(spans@, span_by_str.m()), has_bytes(span_by_str.m())
ensures exists|sm: Map<Seq<u8>, usize>| #[trigger] states_ok(span_by_str.m(), r@, sm)
@start
let ghost __m = span_by_str.m();
let ghost mut __sts: Seq<SuffixState> = Seq::empty();
proof { lss_empty(__m.dom()); map_empty(spans@, __m); }
@loop 0
    span_by_str.m() == __m,
    smap_ok(__m, suffix_states@, state_by_str.m()),
    forall|i: int| 0 <= i < __d0 ==> state_by_str.m().dom().contains((#[trigger] spans@[i]).string@),
@loop 0 before
assert(smap_ok(__m, suffix_states@, state_by_str.m()));
@loop 1
    span_by_str.m() == __m, *span == spans@[__d0], 
    smap_ok(__m, suffix_states@, state_by_str.m()),
    forall|i: int| 0 <= i < __d0 ==> state_by_str.m().dom().contains((#[trigger] spans@[i]).string@),
    state_by_str.m().dom().contains(span.string@.take(__d1 - 1)),
@loop 1 before
assert(span.string@.take(0) =~= Seq::<u8>::empty());
assert(span.string@.take(span.string@.len() as int) =~= span.string@);
@loop 1 start
let ghost __str = span.string@.take(__d1);
let ghost __sm0 = state_by_str.m();
let ghost __ss0 = suffix_states@;
assert(__str.drop_last() =~= span.string@.take(__d1 - 1));
assert(__str.skip(__str.len() as int) =~= Seq::<u8>::empty());
@loop 2
invariant_except_break
    suffix_span == 0, lss(__m.dom(), __str) == lss(__m.dom(), __str.skip(__d2)),
invariant
    span_by_str.m() == __m, __h2 == __str.len(), span_prefix@ == __str, 
ensures
    suffix_span == __m[lss(__m.dom(), __str)]
@loop 2 before
assert(__str.skip(0) =~= __str);
@loop 2 start
proof { assert(__str.skip(__d2).skip(1) =~= __str.skip(__d2 + 1)); }
@before "assert!(suffix_span > 0)"
proof { byte_found(spans@, __m, __str); }
@loop 1 end
proof { if suffix_states@.len() != __ss0.len() { smap_push(__m, __ss0, __sm0, suffix_states@.last()); } }
@loop 3 before
proof { __sts = suffix_states@; }
@loop 3
    stepped(__sts, suffix_states@, state_by_str.m(), __d3),
    smap_ok(__m, __sts, state_by_str.m()),
@loop 3 start
let ghost __a = suffix_states@;
@loop 4 before
let ghost __s = suffix@;
let ghost __sd = *state;
@loop 4
    suffix@ == __s, state.suffix@ == __s, state.span_idx == __sd.span_idx,
    smap_ok(__m, __sts, state_by_str.m()),
    forall|b: int| 0 <= b < __d4 ==> #[trigger] next_ok(state_by_str.m(), *state, b),
@loop 4 start
let ghost __sb = __s.push(__d4 as u8);
let ghost __sd1 = *state;
assert(__sb.skip(__sb.len() as int) =~= Seq::<u8>::empty());
@loop 5
invariant_except_break
    suffix_id == 0, lss(state_by_str.m().dom(), __sb) == lss(state_by_str.m().dom(), __sb.skip(__d5)),
invariant
    __h5 == __sb.len(), suffix@ == __sb,
ensures
    suffix_id == state_by_str.m()[lss(state_by_str.m().dom(), __sb)]
@loop 5 before
assert(__sb.skip(0) =~= __sb);
@loop 5 start
proof { assert(__sb.skip(__d5).skip(1) =~= __sb.skip(__d5 + 1)); }
@before "assert!(suffix_id > 0)"
proof { state_found(__m, __sts, state_by_str.m(), __sb); }
@loop 4 end
proof {
    assert(suffix@ =~= __s);
    assert forall|b: int| 0 <= b < __d4 + 1 implies #[trigger] next_ok(state_by_str.m(), *state, b) by {
        if b < __d4 { assert(next_ok(state_by_str.m(), __sd1, b)); }
    }
}
@loop 3 end
proof { stepped_one(__sts, __a, state_by_str.m(), __d3, suffix_states@); }
@end
proof { stepped_all(__m, __sts, __ret@, state_by_str.m()); }

@fn FragmentTokenizer::new -> r
@props C03 C04 C05 C15
@spec
requires covering(&token_set), token_set.tokens@.len() + token_set.sequences@.len() < usize::MAX
ensures r.ok(), r.token_set == token_set
@after "let suffix_states = Self::create_suffix_states(&spans, &span_by_str)"
let ghost __m = span_by_str.m();
let ghost __sm = choose|sm: Map<Seq<u8>, usize>| #[trigger] states_ok(__m, suffix_states@, sm);
assert(states_ok(__m, suffix_states@, __sm));
@end
assert(__ret.ok_with(__m, __sm));

@fn FragmentTokenizer::process_slice
@props C03 C04 C05 C15
@attr #[verifier::rlimit(60)]
@spec
requires self.ok(), old(stats).shaped(&self.token_set), room_for(&self.token_set, old(stats), bytes@.len())
ensures tokenized(&self.token_set, bytes@, old(stats), final(stats)),
%C05,C15,C14,C18     counted(&self.token_set, canon(&self.token_set, bytes@), bytes@.len(), old(stats), final(stats)),
@start
let ghost (__m, __sm) = choose|m: Map<Seq<u8>, usize>, sm: Map<Seq<u8>, usize>| #[trigger] self.ok_with(m, sm);
let ghost __c = choose|c: nat| cost_bound(&self.token_set, c) && #[trigger] old(stats).room((bytes@.len() * c) as int);
let ghost __n = bytes@.len() as int;
@loop 0 before
assert(bytes@.take(0) =~= Seq::<u8>::empty());
proof { lss_empty(__sm.dom()); }
@loop 0
    self.ok_with(__m, __sm), covering(&self.token_set),
    dp_ok(self.spans@, bytes@, cost_state@), cost_state@.len() == __d0 + 1,
    dp_bound(cost_state@, __c), 
%C05,C15,C14,C18     dp_tie(self.spans@, bytes@, cost_state@),
    __sm.dom().contains(lss(__sm.dom(), bytes@.take(__d0))),
    *state == self.suffix_states@[__sm[lss(__sm.dom(), bytes@.take(__d0))] as int],
@loop 0 start
let ghost __j = __d0 + 1;
let ghost __t = bytes@.take(__d0);
proof { state_step(self, __m, __sm, bytes@, __d0); }
@before "while span_idx != 0"
proof { best_start(&self.token_set, self.spans@, __m, bytes@, cost_state@, __j); }
@loop 1
    span_idx < self.spans@.len(),
    is_suffix(self.spans@[span_idx as int].string@, bytes@.take(__j)),
    best_of(self.spans@, bytes@, cost_state@, __j, self.spans@[span_idx as int].string@.len() as int, best_cost_state),
%C05,C15,C14,C18     tie(self.spans@, bytes@, cost_state@, __j, best_cost_state),
decreases self.spans@[span_idx as int].string@.len()
@loop 1 start
let ghost __k = span_idx as int;
let ghost __b = best_cost_state;
proof {
    assert(fits(self.spans@, bytes@, __k, __j));
    span_nonempty(&self.token_set, self.spans@, __m, __k);
    via_bound(&self.token_set, self.spans@, cost_state@, __k, __j, __c, __n);
}
@loop 1 end
%C05,C15,C14,C18 proof { tie_step(self.spans@, bytes@, cost_state@, __j, __k, __b, best_cost_state); }
proof { best_step(&self.token_set, self.spans@, __m, bytes@, cost_state@, __j, __k, __b, best_cost_state); }
@before "cost_state.push(best_cost_state.unwrap())"
proof {
    best_found(&self.token_set, self.spans@, __m, bytes@, cost_state@, __j, best_cost_state);
    dp_push(&self.token_set, self.spans@, __m, bytes@, cost_state@, best_cost_state->Some_0, __c);
%C05,C15,C14,C18     tie_push(&self.token_set, self.spans@, __m, bytes@, cost_state@, best_cost_state->Some_0);
}
@before "self.update_stats(cost_state, bytes, stats)"
assert(bytes@.take(__n) =~= bytes@);

@fn FragmentTokenizer::update_stats
@props C03 C04 C05 C15 C13
@attr #[verifier::rlimit(60)]
@spec
requires self.ok(), old(stats).shaped(&self.token_set), room_for(&self.token_set, old(stats), bytes@.len()),
    dp_ok(self.spans@, bytes@, cost_state@), cost_state@.len() == bytes@.len() + 1,
    exists|c: nat| cost_bound(&self.token_set, c) && #[trigger] dp_bound(cost_state@, c) && old(stats).room((bytes@.len() * c) as int),
%C05,C15,C14,C18     dp_tie(self.spans@, bytes@, cost_state@),
ensures tokenized(&self.token_set, bytes@, old(stats), final(stats)),
%C05,C15,C14,C18     counted(&self.token_set, canon(&self.token_set, bytes@), bytes@.len(), old(stats), final(stats)),
@start
let ghost (__m, __sm) = choose|m: Map<Seq<u8>, usize>, sm: Map<Seq<u8>, usize>| #[trigger] self.ok_with(m, sm);
let ghost __c = choose|c: nat| cost_bound(&self.token_set, c) && #[trigger] dp_bound(cost_state@, c) && old(stats).room((bytes@.len() * c) as int);
let ghost __n = bytes@.len();
let ghost __ts = &self.token_set;
let ghost __sp = self.spans@;
let ghost __cs = cost_state@;
let ghost mut __cv: Seq<Piece> = Seq::empty();
let ghost mut __nt = 0int;
assert(bytes@.skip(__n as int) =~= Seq::<u8>::empty());
assert(__n <= __n * __c) by (nonlinear_arith) requires __c >= 1;
assert(__cs[__n as int].cost <= __n * __c);
assert(cost_state@.last() == __cs[__n as int]);
%C05,C15,C14,C18 assert(read_tab(__ts, cells(__sp, __cs), __n as int) + __cv =~= read_tab(__ts, cells(__sp, __cs), __n as int));
proof { __nt = __ts.tokens@.len() as int; }
@type span_counts Vec<u64>
@loop 0
    self.ok_with(__m, __sm),
    walked(__ts, __sp, bytes@, __cs, pos as int, __cv),
%C05,C15,C14,C18     read_tab(__ts, cells(__sp, __cs), pos as int) + __cv == read_tab(__ts, cells(__sp, __cs), __n as int),
    span_counts@.len() == __sp.len(),
    forall|k: int| 1 <= k < __sp.len() ==> #[trigger] span_counts@[k] == sum(__cv, is_p(sp_piece(__sp, k))),
    next_is(next_token, __cv),
    pairs_counted(__nt, old(stats).pair_counts@, stats.pair_counts@, __cv),
    stats.token_set == old(stats).token_set, stats.initial_size == old(stats).initial_size,
    stats.total_tokens == old(stats).total_tokens + __cs[__n as int].cost,
    stats.scanned_bytes == old(stats).scanned_bytes + __n,
    stats.token_counts@ == old(stats).token_counts@, stats.seq_counts@ == old(stats).seq_counts@,
decreases pos
@loop 0 start
let ghost __pos = pos;
let ghost __p = sp_piece(__sp, __cs[pos as int].span as int);
let ghost __pc0 = stats.pair_counts@;
let ghost __sc0 = span_counts@;
let ghost __ft = first_tok(__cv);
proof {
    walk_step(__ts, __sp, __m, bytes@, __cs, pos as int, __cv);
%C05,C15,C14,C18     read_step(__ts, __sp, __m, __cs, pos as int, __cv);
    is_p_le(__cv, __p);
    span_nonempty(__ts, __sp, __m, __cs[pos as int].span as int);
    assert(stats.pair_counts.len() == __nt * __nt);
    if __ft is Some {
        assert(piece_ok(__ts, __cv[0]));
        match __p { Piece::Tok(t) => { pair_index(__nt, t, __ft->Some_0); n_pair_le(__cv, t, __ft->Some_0); } _ => {} }
    }
}
@loop 0 end
proof {
    assert forall|k: int| 1 <= k < __sp.len() implies #[trigger] span_counts@[k] == sum(seq![__p] + __cv, is_p(sp_piece(__sp, k))) by {
        sum_cons(__cv, __p, is_p(sp_piece(__sp, k)));
        if sp_piece(__sp, k) == __p { span_unique(__ts, __sp, __m, k, __cs[__pos as int].span as int); }
    }
    pair_step(__nt, old(stats).pair_counts@, __pc0, __cv, __p, stats.pair_counts@);
    __cv = seq![__p] + __cv;
}

@before "for span_idx in 1..self.spans.len()"
proof {
    assert(__cv.len() <= __n);
    assert forall|t: int| 0 <= t < stats.token_counts@.len() implies wsum(__sp, __cv, toks_of(__ts, t), 1) == 0 by {}
    assert(spent(__ts, __sp, __cv, old(stats), stats.token_counts@, stats.seq_counts@, 1));
}
@loop 1
    stats.token_set == old(stats).token_set, stats.initial_size == old(stats).initial_size,
    stats.total_tokens == old(stats).total_tokens + __cs[__n as int].cost,
    stats.scanned_bytes == old(stats).scanned_bytes + __n,
    pairs_counted(__nt, old(stats).pair_counts@, stats.pair_counts@, __cv),
    spent(__ts, __sp, __cv, old(stats), stats.token_counts@, stats.seq_counts@, __d1),
@loop 1 start
let ghost __p = sp_piece(__sp, __d1);
let ghost __tc0 = stats.token_counts@;
let ghost __sc0 = stats.seq_counts@;
let ghost __cnt = span_counts@[__d1];
proof {
    span_nonempty(__ts, __sp, __m, __d1);
    spent_room(__ts, __sp, __m, __cv, old(stats), __d1, __c, __n);
    room_left(__ts, __sp, __cv, old(stats), __tc0, __sc0, __d1, __cnt);
    if __cnt == 0 { added_zero(__ts, __p, __tc0, __sc0); }
}
@loop 2
    stats.token_set == old(stats).token_set, stats.initial_size == old(stats).initial_size,
    stats.total_tokens == old(stats).total_tokens + __cs[__n as int].cost,
    stats.scanned_bytes == old(stats).scanned_bytes + __n,
    stats.pair_counts@ == __pc1, stats.seq_counts@ == __sc1, __s2@ == __toks,
    occ_added(__toks.take(__d2), __tc0, stats.token_counts@, count),
@loop 2 before
let ghost __toks = seq.tokens@;
let ghost __pc1 = stats.pair_counts@;
let ghost __sc1 = stats.seq_counts@;
assert(__toks.take(0) =~= Seq::<usize>::empty());
assert(__toks.take(__toks.len() as int) =~= __toks);
proof { occ_none(__toks, __tc0, __cnt); }
@loop 2 start
let ghost __tc1 = stats.token_counts@;
proof { occ_room(__toks, __d2, __tc0, __tc1, __cnt); }
@loop 2 end
proof { occ_step(__toks, __d2, __tc0, __tc1, __cnt, stats.token_counts@); }
@loop 1 end
proof {
    added_now(__ts, __p, __tc0, stats.token_counts@, __sc0, stats.seq_counts@, __cnt);
    spent_step(__ts, __sp, __cv, old(stats), __tc0, __sc0, __d1, stats.token_counts@, stats.seq_counts@, __cnt);
}
@end
%C05,C15,C14,C18 proof { canon_read(__ts, __sp, __m, bytes@, __cs, __cv); }
proof { all_counted(__ts, __sp, __m, bytes@, __cs, __cv, old(stats), &*stats); }
