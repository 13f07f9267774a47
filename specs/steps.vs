@module optimize_bytes
@prelude
// ---- C14: the sets that the optimizer works with --------------------------------------------------
/// extension and one-byte tokens
pub open spec fn n_basic(ts: &TokenSet) -> int { ts.tokens@.len() - n_long(ts.toks()) }
/// with more basic tokens than this there is nothing to gain
pub open spec fn limit(t: TokenType) -> int {
    match t { TokenType::Bits1 => 258, TokenType::Bits2 => 260, TokenType::Bits4 => 272, TokenType::Bytes => 256, TokenType::BytesHuff => 258 }
}
/// every fallback sequence writes one byte, with extension and one-byte tokens
pub open spec fn brief(s: SpellV) -> bool {
    s.string.len() == 1 && s.toks.len() <= 256 && forall|j: int| 0 <= j < s.toks.len() ==> !is_long(#[trigger] s.toks[j])
}
pub open spec fn all_brief(s: Seq<SpellV>) -> bool { forall|q: int| 0 <= q < s.len() ==> brief(#[trigger] s[q]) }
pub open spec fn kinded(ts: &TokenSet) -> bool {
    &&& covering(ts) && savable(ts.sv()) && all_brief(ts.spelled())
    &&& min_ext(ts.token_type) <= n_basic(ts) <= limit(ts.token_type)
    &&& ts.token_type == TokenType::Bytes ==> ts.sequences@.len() == 0
}
/// sets of the same kind for the same text
pub open spec fn akin(a: &TokenSet, b: &TokenSet) -> bool { a.token_type == b.token_type && a.processing == b.processing }
pub open spec fn ready(st: &TokenStats) -> bool {
    &&& kinded(&st.token_set)
    &&& st.token_counts@.len() == st.token_set.tokens@.len() && st.seq_counts@.len() == st.token_set.sequences@.len()
    &&& forall|i: int| 0 <= i < st.token_counts@.len() ==> #[trigger] st.token_counts@[i] < BIG()
    &&& forall|i: int| 0 <= i < st.seq_counts@.len() ==> #[trigger] st.seq_counts@[i] < BIG()
}
/// the same long tokens, and as many basic ones as asked for
pub open spec fn rebased(o: &TokenSet, budget: int, r: &TokenSet) -> bool {
    &&& kinded(r) && akin(o, r) && n_long(r.toks()) == n_long(o.toks())
    &&& n_basic(r) == if budget < limit(o.token_type) { budget } else { limit(o.token_type) }
}
pub trait BytesOptimizer: Sized {
    spec fn handles(t: TokenType) -> bool;
    fn optimize_bytes(stats: &TokenStats, n: usize) -> (r: TokenSet)
        requires ready(stats), Self::handles(stats.token_set.token_type), n >= min_ext(stats.token_set.token_type)
        ensures rebased(&stats.token_set, n as int, &r);
}
impl BytesOptimizer for SimpleBytesOptimizer {
    open spec fn handles(t: TokenType) -> bool { bits_kind(t) }
    fn optimize_bytes(stats: &TokenStats, n: usize) -> TokenSet {
        proof { brief_seqs(&stats.token_set); }
        let r = SimpleBytesOptimizer::optimize_bytes(stats, n);
        proof {
            let c = choose|c: Seq<u8>| #[trigger] reselected(stats, n as int, &r, c);
            reselected_kinded(stats, n as int, &r, c);
        }
        r
    }
}
impl BytesOptimizer for NoopBytesOptimizer {
    open spec fn handles(t: TokenType) -> bool { t == TokenType::Bytes }
    fn optimize_bytes(stats: &TokenStats, n: usize) -> TokenSet {
        NoopBytesOptimizer::optimize_bytes(stats, n)
    }
}
impl BytesOptimizer for HuffOptimizer {
    open spec fn handles(t: TokenType) -> bool { t == TokenType::BytesHuff }
%!C14,C17,C18     #[verifier::external_body]
    fn optimize_bytes(stats: &TokenStats, n: usize) -> TokenSet {
        proof { brief_seqs(&stats.token_set); }
        let r = HuffOptimizer::optimize_bytes(stats, n);
        proof {
            let v = choose|v: Seq<Code>| #[trigger] huffed(&stats.token_set, n as int, &r, v);
            huffed_kinded(&stats.token_set, n as int, &r, v);
        }
        r
    }
}
pub proof fn brief_seqs(ts: &TokenSet)
    requires all_brief(ts.spelled())
    ensures forall|q: int| 0 <= q < ts.sequences@.len() ==> (#[trigger] ts.sequences@[q]).string@.len() == 1 && ts.sequences@[q].tokens@.len() <= 256
{
    assert(ts.spelled().len() == ts.sequences@.len());
    assert forall|q: int| 0 <= q < ts.sequences@.len() implies (#[trigger] ts.sequences@[q]).string@.len() == 1 && ts.sequences@[q].tokens@.len() <= 256 by {
        let s = ts.spelled()[q];
        assert(brief(s));
        assert(s == spell(ts.toks(), ts.sequences@[q]));
        assert(s.toks.len() == ts.sequences@[q].tokens@.len());
    }
}
/// a set that tokenizes everything, of the right form, can be saved
pub proof fn covering_savable(ts: &TokenSet)
    requires covering(ts), keyable(ts.sv()), kind_ext(ts.token_type, ts.n_ext_tokens)
    ensures savable(ts.sv())
{
    let s = ts.sv();
    assert(s.toks.len() == ts.tokens@.len() && s.seqs.len() == ts.sequences@.len());
    assert forall|i: int, j: int| 0 <= i < s.seqs.len() && 0 <= j < s.seqs[i].toks.len() implies s.toks.contains(#[trigger] s.seqs[i].toks[j]) by {
        assert(ts.sequences@[i].idx_below(ts.tokens@.len() as int));
        let k = ts.sequences@[i].tokens@[j] as int;
        assert(s.toks[k] == s.seqs[i].toks[j]);
    }
    assert forall|b: u8| s.toks.contains(TokV::Str(#[trigger] one_byte(b))) || exists|i: int| 0 <= i < s.seqs.len() && (#[trigger] s.seqs[i]).string == one_byte(b) by {
        assert(byte_encoded(ts, b));
        let p = choose|p: Piece| #[trigger] piece_ok(ts, p) && piece_str(ts, p) == seq![b];
        assert(one_byte(b) =~= seq![b]);
        match p {
            Piece::Tok(t) => { assert(s.toks[t] == ts.tokens@[t].v()); assert(s.toks[t] == TokV::Str(one_byte(b))); }
            Piece::Sq(q) => { assert(s.seqs[q].string == one_byte(b)); }
        }
    }
}
/// a spelled sequence is brief if its tokens are
pub proof fn brief_at(ts: &TokenSet, q: int)
    requires 0 <= q < ts.sequences@.len(), ts.sequences@[q].string@.len() == 1, ts.sequences@[q].tokens@.len() <= 256,
        forall|j: int| 0 <= j < ts.sequences@[q].tokens@.len() ==> !is_long(ts.toks()[#[trigger] ts.sequences@[q].tokens@[j] as int])
    ensures brief(ts.spelled()[q])
{
    let s = ts.spelled()[q];
    assert forall|j: int| 0 <= j < s.toks.len() implies !is_long(#[trigger] s.toks[j]) by { assert(s.toks[j] == ts.toks()[ts.sequences@[q].tokens@[j] as int]); }
}
pub proof fn reselected_kinded(st: &TokenStats, budget: int, r: &TokenSet, chosen: Seq<u8>)
    requires ready(st), bits_kind(st.token_set.token_type), budget >= min_ext(st.token_set.token_type), reselected(st, budget, r, chosen)
    ensures rebased(&st.token_set, budget, r)
{
    let o = &st.token_set;
    brief_seqs(o);
    c12_result(st, budget, r, chosen);
    let (b, n) = (base_of(o.token_type), digits_of(o.token_type));
    assert forall|q: int| 0 <= q < r.spelled().len() implies brief(#[trigger] r.spelled()[q]) by {
        let s = r.sequences@[q];
        assert(s.string@.len() == 1 && is_digits(s.tokens@, s.string@[0] as int, b as int, n));
        assert forall|j: int| 0 <= j < s.tokens@.len() implies !is_long(r.toks()[#[trigger] s.tokens@[j] as int]) by {
            digits_bound(s.string@[0] as int, b as int, n, j);
            assembled_at(o, r, b, chosen, s.tokens@[j] as int);
        }
        brief_at(r, q);
    }
    covering_savable(r);
}
pub proof fn huffed_kinded(o: &TokenSet, budget: int, r: &TokenSet, v: Seq<Code>)
    requires kinded(o), o.token_type == TokenType::BytesHuff || o.token_type == TokenType::Bytes, budget >= 3, huffed(o, budget, r, v), r.n_ext_tokens <= 10, r.tokens@.len() <= 258 + n_long(o.toks())
    ensures kinded(r), r.token_type == TokenType::BytesHuff, r.processing == o.processing, n_long(r.toks()) == n_long(o.toks()),
        n_basic(r) == if budget < 258 { budget } else { 258 }
{
    c11_result(o, budget, r, v);
    let n = r.n_ext_tokens as int;
    let t = tops(v);
    let a = v.filter(short_code());
    let tail = o.toks().filter(long_tok());
    let c = choose|c: Seq<(u8, u64)>| #[trigger] byte_table(c) && codes(chars(c), v, n, n + t.len(), n, 256);
    assert(t.map_values(byte_tok()) =~= a.map_values(code_tok()));
    assert(assembled(o, r, n as nat, t));
    assert forall|q: int| 0 <= q < r.spelled().len() implies brief(#[trigger] r.spelled()[q]) by {
        let i = laid_from(r, n as nat, v, tail, q);
        assert(code_ok(chars(c), v[i], n, n + t.len(), n, 256));
        let s = r.sequences@[q];
        assert forall|j: int| 0 <= j < s.tokens@.len() implies !is_long(r.toks()[#[trigger] s.tokens@[j] as int]) by {
            assert(s.tokens@[j] == v[i].1[j]);
            if j == 0 { assembled_at(o, r, n as nat, t, s.tokens@[0] as int); } else { assembled_at(o, r, n as nat, t, s.tokens@[j] as int); }
        }
        brief_at(r, q);
    }
    covering_savable(r);
}

// ---- C14: why two extension tokens are enough when every byte can have a token ------------------------
pub open spec fn wt(c: Seq<(u8, u64)>, x: u8) -> int { c[x as int].1 as int }
/// weight of the first k bytes that are in s
pub open spec fn weigh_in(c: Seq<(u8, u64)>, s: Seq<u8>, k: int) -> int decreases k {
    if k <= 0 { 0 } else { weigh_in(c, s, k - 1) + if s.contains((k - 1) as u8) { wt(c, (k - 1) as u8) } else { 0 } }
}
pub open spec fn weigh(c: Seq<(u8, u64)>, v: Seq<Code>) -> int decreases v.len() {
    if v.len() == 0 { 0 } else { weigh(c, v.drop_last()) + wt(c, v.last().0) }
}
pub open spec fn code_bytes(v: Seq<Code>) -> Seq<u8> { v.map_values(|x: Code| x.0) }
pub proof fn weigh_in_push(c: Seq<(u8, u64)>, s: Seq<u8>, x: u8, k: int)
    requires !s.contains(x), 0 <= k <= 256
    ensures weigh_in(c, s.push(x), k) == weigh_in(c, s, k) + if x < k { wt(c, x) } else { 0 }
    decreases k
{
    if k > 0 {
        weigh_in_push(c, s, x, k - 1);
        let y = (k - 1) as u8;
        let t = s.push(x);
        if s.contains(y) {
            let i = choose|i: int| 0 <= i < s.len() && s[i] == y;
            assert(t[i] == y);
        }
        if t.contains(y) && y != x {
            let i = choose|i: int| 0 <= i < t.len() && t[i] == y;
            assert(s[i] == y);
        }
        assert(t[s.len() as int] == x);
    }
}
pub proof fn weigh_is_in(c: Seq<(u8, u64)>, v: Seq<Code>)
    requires code_bytes(v).no_duplicates()
    ensures weigh(c, v) == weigh_in(c, code_bytes(v), 256)
    decreases v.len()
{
    let s = code_bytes(v);
    if v.len() > 0 {
        let d = v.drop_last();
        let e = code_bytes(d);
        assert(e =~= s.drop_last());
        assert(s =~= e.push(v.last().0));
        assert(!e.contains(v.last().0)) by {
            if e.contains(v.last().0) {
                let i = choose|i: int| 0 <= i < e.len() && e[i] == v.last().0;
                assert(s[i] == s[s.len() - 1]);
            }
        }
        assert(e.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && i != j implies e[i] != e[j] by { assert(s[i] != s[j]); } }
        weigh_is_in(c, d);
        weigh_in_push(c, e, v.last().0, 256);
    } else {
        weigh_in_none(c, s, 256);
    }
}
pub proof fn weigh_in_none(c: Seq<(u8, u64)>, s: Seq<u8>, k: int)
    requires s.len() == 0
    ensures weigh_in(c, s, k) == 0
    decreases k
{
    if k > 0 { weigh_in_none(c, s, k - 1); }
}
/// what all bytes weigh
pub open spec fn whole(c: Seq<(u8, u64)>, k: int) -> int decreases k { if k <= 0 { 0 } else { whole(c, k - 1) + wt(c, (k - 1) as u8) } }
pub proof fn weigh_all(c: Seq<(u8, u64)>, s: Seq<u8>, k: int)
    requires forall|x: u8| #[trigger] s.contains(x), 0 <= k <= 256
    ensures weigh_in(c, s, k) == whole(c, k)
    decreases k
{
    if k > 0 { weigh_all(c, s, k - 1); assert(s.contains((k - 1) as u8)); }
}
pub proof fn weigh_codes(c: Seq<(u8, u64)>, v: Seq<Code>, s: Seq<u8>, lo: int, hi: int, n: int, m: int)
    requires codes(s, v, lo, hi, n, m), forall|x: u8| #[trigger] s.contains(x)
    ensures weigh(c, v.filter(short_code())) + weigh(c, v.filter(long_code())) == whole(c, 256)
{
    let w = code_bytes(v);
    assert forall|i: int, j: int| 0 <= i < w.len() && 0 <= j < w.len() && i != j implies w[i] != w[j] by {
        if i < j { assert(v[i].0 != v[j].0); } else { assert(v[j].0 != v[i].0); }
    }
    assert forall|x: u8| #[trigger] w.contains(x) by {
        assert(s.contains(x));
        assert(coded(v, x));
        let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == x;
        assert(w[i] == x);
    }
    weigh_is_in(c, v);
    weigh_all(c, w, 256);
    weigh_parts(c, v);
}
pub proof fn weigh_parts(c: Seq<(u8, u64)>, v: Seq<Code>)
    ensures weigh(c, v.filter(short_code())) + weigh(c, v.filter(long_code())) == weigh(c, v)
    decreases v.len()
{
    reveal(Seq::filter);
    if v.len() > 0 {
        let d = v.drop_last();
        weigh_parts(c, d);
        let (a, b) = (d.filter(short_code()), d.filter(long_code()));
        assert(a.push(v.last()).drop_last() =~= a);
        assert(b.push(v.last()).drop_last() =~= b);
    }
}
/// weight of the byte tokens
pub open spec fn tok_wt(c: Seq<(u8, u64)>, t: TokV) -> int { match t { TokV::Str(s) => wt(c, s[0]), _ => 0 } }
pub open spec fn toks_wt(c: Seq<(u8, u64)>, s: Seq<TokV>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { toks_wt(c, s.drop_last()) + tok_wt(c, s.last()) }
}
pub proof fn toks_wt_exts(c: Seq<(u8, u64)>, s: Seq<TokV>)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Ext
    ensures toks_wt(c, s) == 0
    decreases s.len()
{
    if s.len() > 0 { toks_wt_exts(c, s.drop_last()); assert(s.last() == s[s.len() - 1]); }
}
pub proof fn toks_wt_codes(c: Seq<(u8, u64)>, e: Seq<TokV>, a: Seq<Code>)
    requires forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]) is Ext
    ensures toks_wt(c, e + a.map_values(code_tok())) == weigh(c, a)
    decreases a.len()
{
    let s = e + a.map_values(code_tok());
    if a.len() > 0 {
        toks_wt_codes(c, e, a.drop_last());
        assert(s.drop_last() =~= e + a.drop_last().map_values(code_tok()));
        assert(s.last() == TokV::Str(one_byte(a.last().0)));
        assert(one_byte(a.last().0)[0] == a.last().0);
    } else {
        assert(s =~= e);
        toks_wt_exts(c, e);
    }
}
pub proof fn toks_wt_step(c: Seq<(u8, u64)>, s: Seq<TokV>, i: int)
    requires 0 <= i < s.len()
    ensures toks_wt(c, s.take(i + 1)) == toks_wt(c, s.take(i)) + tok_wt(c, s[i])
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
}
pub proof fn weigh_step(c: Seq<(u8, u64)>, v: Seq<Code>, i: int)
    requires 0 <= i < v.len()
    ensures weigh(c, v.take(i + 1)) == weigh(c, v.take(i)) + wt(c, v[i].0)
{
    assert(v.take(i + 1).drop_last() =~= v.take(i));
}
/// A base set needs at least the whole weight, and exactly that if it has no sequences.
pub proof fn base_weight(c: Seq<(u8, u64)>, ts: &TokenSet, n: int, b: int, p: Processing, v: Seq<Code>)
    requires byte_table(c), base_set(c, ts, n, b, p, v), n >= 0
    ensures toks_wt(c, ts.toks()) + weigh(c, v.filter(long_code())) == whole(c, 256), v.filter(long_code()).len() == ts.sequences@.len(),
        b >= 256 ==> ts.sequences@.len() == 0,
{
    byte_table_freqs(c);
    weigh_codes(c, v, chars(c), n, n + b, n, 256);
    tops_len(v, chars(c), n, n + b, n, 256);
    let a = v.filter(short_code());
    assert(ts.toks() =~= ext_toks(n as nat) + a.map_values(code_tok()));
    toks_wt_codes(c, ext_toks(n as nat), a);
    assert(ts.toks().len() == ts.tokens@.len());
}
/// the best set so far, once every byte can have a token
pub open spec fn slim(best: Option<TokenSet>, total: Option<u64>, c: Seq<(u8, u64)>) -> bool {
    match (best, total) { (Some(ts), Some(t)) => ts.n_ext_tokens == 2 && t == whole(c, 256), _ => false }
}

@fn NoopBytesOptimizer::optimize_bytes -> r
@props C14
@spec
ensures r == token_stats.token_set

@module optimize
@rw *__m.entry(__k).or_insert(0) += 1 => crate::vx::bump(__m, __k)
@rw std::io::stdout().flush().unwrap() => ()
@rw Instant::now() - __a > Duration::from_secs(__n) => crate::vx::elapsed(&__a, __n)
@rw Instant::now() => crate::vx::now()
@rw __d.into() => crate::vx::boxed_path(__d)
@prelude
use super::optimize_bytes::*;
use super::input::sample::*;

// ---- C14: the data it is optimized for ---------------------------------------------------------------
pub open spec fn bytes_in(p: Seq<Seq<u8>>) -> nat decreases p.len() { if p.len() == 0 { 0 } else { bytes_in(p.drop_last()) + p.last().len() } }
/// Samples and budget that the counters can hold: less than half a terabyte, less than 2^32 tokens.
pub open spec fn fits(p: Seq<Seq<u8>>, n: int) -> bool {
    &&& 0 <= n && n * n <= usize::MAX && n + 257 < usize::MAX
    &&& bytes_in(p) < 0x80_0000_0000
    &&& forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).len() > 0
}
pub proof fn scanned_is(ts: &TokenSet, p: Seq<Seq<u8>>)
    ensures gains(ts, Ctr::Scanned, p) == bytes_in(p)
    decreases p.len()
{
    if p.len() > 0 { scanned_is(ts, p.drop_last()); }
}
pub proof fn brief_cost(ts: &TokenSet)
    requires all_brief(ts.spelled())
    ensures cost_bound(ts, 256)
{
    brief_seqs(ts);
}
pub proof fn few_seqs(ts: &TokenSet)
    requires covering(ts), all_brief(ts.spelled())
    ensures ts.sequences@.len() <= 256
{
    brief_seqs(ts);
    let a = ts.sequences@.map_values(|s: Sequence| s.string@[0]);
    assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j implies a[i] != a[j] by {
        if a[i] == a[j] {
            let (x, y) = (ts.sequences@[i].string@, ts.sequences@[j].string@);
            assert(x =~= y);
            assert(piece_ok(ts, Piece::Sq(i)) && piece_ok(ts, Piece::Sq(j)));
            assert(piece_str(ts, Piece::Sq(i)) == piece_str(ts, Piece::Sq(j)));
        }
    }
    bytes_few(a);
}
pub proof fn kinded_askable(ts: &TokenSet, p: Seq<Seq<u8>>, n: int)
    requires kinded(ts), ts.tokens@.len() <= n, fits(p, n)
    ensures askable(ts, p)
{
    let l = ts.tokens@.len() as int;
    assert(l * l <= n * n) by (nonlinear_arith) requires 0 <= l <= n;
    few_seqs(ts);
    brief_cost(ts);
    scanned_is(ts, p);
    assert(fits_u64(ts, p, 256));
}
// ---- C14: sorting ---------------------------------------------------------------------------------------
pub proof fn n_long_remove(s: Seq<TokV>, k: int)
    requires 0 <= k < s.len()
    ensures n_long(s) == n_long(s.remove(k)) + if is_long(s[k]) { 1int } else { 0 }
    decreases s.len()
{
    if k == s.len() - 1 {
        assert(s.remove(k) =~= s.drop_last());
    } else {
        n_long_remove(s.drop_last(), k);
        assert(s.remove(k).drop_last() =~= s.drop_last().remove(k));
    }
}
pub proof fn n_long_permuted(a: Seq<TokV>, b: Seq<TokV>, p: Seq<int>)
    requires permuted(a, b, p)
    ensures n_long(a) == n_long(b)
    decreases a.len()
{
    if a.len() > 0 {
        let l = a.len() - 1;
        let k = p[l];
        let (c, d) = (a.remove(k), b.drop_last());
        let q = Seq::new(l as nat, |i: int| if p[i] > k { p[i] - 1 } else { p[i] });
        assert forall|i: int| 0 <= i < l implies 0 <= #[trigger] q[i] < l && d[i] == c[q[i]] by {
            assert(0 <= p[i] < a.len() && p[i] != p[l]);
            assert(b[i] == a[p[i]]);
        }
        assert forall|i: int, j: int| 0 <= i < j < l implies #[trigger] q[i] != #[trigger] q[j] by { assert(p[i] != p[j] && p[i] != p[l] && p[j] != p[l]); }
        assert forall|x: int| 0 <= x < l implies #[trigger] q.contains(x) by {
            let y = if x >= k { x + 1 } else { x };
            assert(p.contains(y));
            let i = choose|i: int| 0 <= i < p.len() && p[i] == y;
            assert(i != l);
            assert(q[i] == x);
        }
        n_long_permuted(c, d, q);
        n_long_remove(a, k);
        assert(b[l] == a[p[l]]);
    }
}
pub proof fn sorted_kinded(a: &TokenSet, b: &TokenSet)
    requires kinded(a), sorted_of(a, b)
    ensures kinded(b), akin(a, b), b.tokens@.len() == a.tokens@.len(), n_long(b.toks()) == n_long(a.toks())
{
    sorted_covering(a, b);
    c10_sort(a, b);
    let p = choose|p: Seq<int>| #[trigger] permuted(a.toks(), b.toks(), p);
    let q = choose|q: Seq<int>| #[trigger] permuted(a.spelled(), b.spelled(), q);
    n_long_permuted(a.toks(), b.toks(), p);
    assert(a.toks().len() == a.tokens@.len() && b.toks().len() == b.tokens@.len());
    assert forall|i: int| 0 <= i < b.spelled().len() implies brief(#[trigger] b.spelled()[i]) by { assert(b.spelled()[i] == a.spelled()[q[i]]); }
    assert(b.sequences@.len() == b.spelled().len() && a.sequences@.len() == a.spelled().len());
}
/// every piece of b is a piece of a
pub open spec fn mirrored(a: &TokenSet, b: &TokenSet, x: Piece, y: Piece) -> bool { piece_ok(a, y) && piece_str(a, y) == piece_str(b, x) && piece_cost(a, y) == piece_cost(b, x) }
pub open spec fn mirrors(a: &TokenSet, b: &TokenSet) -> bool { forall|x: Piece| #[trigger] piece_ok(b, x) ==> exists|y: Piece| #[trigger] mirrored(a, b, x, y) }
pub proof fn mirror_cover(a: &TokenSet, b: &TokenSet, c: Seq<Piece>, s: Seq<u8>) -> (d: Seq<Piece>)
    requires mirrors(a, b), covers(b, c, s)
    ensures covers(a, d, s), sum(d, costs(a)) == sum(c, costs(b))
    decreases c.len()
{
    if c.len() == 0 { c } else {
        let r = c.drop_first();
        assert forall|i: int| 0 <= i < r.len() implies piece_ok(b, #[trigger] r[i]) by { assert(r[i] == c[i + 1]); }
        let e = mirror_cover(a, b, r, cat(b, r));
        assert(piece_ok(b, c[0]));
        let y = choose|y: Piece| #[trigger] mirrored(a, b, c[0], y);
        let d = seq![y] + e;
        assert(d.drop_first() =~= e);
        assert forall|i: int| 0 <= i < d.len() implies piece_ok(a, #[trigger] d[i]) by { if i > 0 { assert(d[i] == e[i - 1]); } }
        assert(cat(a, d) == cat(b, c));
        d
    }
}
pub proof fn mirror_total(a: &TokenSet, b: &TokenSet, p: Seq<Seq<u8>>)
    requires covering(a), covering(b), mirrors(a, b)
    ensures gains(a, Ctr::Total, p) <= gains(b, Ctr::Total, p)
    decreases p.len()
{
    if p.len() > 0 {
        mirror_total(a, b, p.drop_last());
        let s = p.last();
        canon_covers(b, s);
        canon_cheapest(a, s);
        let d = mirror_cover(a, b, canon(b, s), s);
    }
}
pub proof fn sorted_mirrors(a: &TokenSet, b: &TokenSet)
    requires covering(a), sorted_of(a, b)
    ensures mirrors(a, b), mirrors(b, a)
{
    let p = choose|p: Seq<int>| #[trigger] permuted(a.toks(), b.toks(), p);
    let q = choose|q: Seq<int>| #[trigger] permuted(a.spelled(), b.spelled(), q);
    assert(a.toks().len() == a.tokens@.len() && b.toks().len() == b.tokens@.len() && a.spelled().len() == a.sequences@.len() && b.spelled().len() == b.sequences@.len());
    assert forall|x: Piece| #[trigger] piece_ok(b, x) implies exists|y: Piece| #[trigger] mirrored(a, b, x, y) by {
        let y = perm_piece(a, b, p, q, x);
        match x { Piece::Sq(s) => {
            assert(b.spelled()[s] == a.spelled()[q[s]]);
            assert(b.spelled()[s].toks.len() == b.sequences@[s].tokens@.len() && a.spelled()[q[s]].toks.len() == a.sequences@[q[s]].tokens@.len());
        } _ => {} }
        assert(mirrored(a, b, x, y));
    }
    assert forall|x: Piece| #[trigger] piece_ok(a, x) implies exists|y: Piece| #[trigger] mirrored(b, a, x, y) by {
        match x {
            Piece::Tok(t) => {
                assert(p.contains(t));
                let i = choose|i: int| 0 <= i < p.len() && p[i] == t;
                assert(b.toks()[i] == a.toks()[p[i]]);
                assert(b.tokens@[i].v() == a.tokens@[t].v());
                assert(mirrored(b, a, x, Piece::Tok(i)));
            }
            Piece::Sq(s) => {
                assert(q.contains(s));
                let i = choose|i: int| 0 <= i < q.len() && q[i] == s;
                assert(b.spelled()[i] == a.spelled()[q[i]]);
                assert(b.spelled()[i].toks.len() == b.sequences@[i].tokens@.len() && a.spelled()[s].toks.len() == a.sequences@[s].tokens@.len());
                assert(mirrored(b, a, x, Piece::Sq(i)));
            }
        }
    }
}
pub proof fn sorted_total(a: &TokenSet, b: &TokenSet, p: Seq<Seq<u8>>)
    requires covering(a), sorted_of(a, b)
    ensures gains(a, Ctr::Total, p) == gains(b, Ctr::Total, p)
{
    sorted_covering(a, b);
    sorted_mirrors(a, b);
    mirror_total(a, b, p);
    mirror_total(b, a, p);
}
// ---- C14: what is known about an answer ------------------------------------------------------------------
pub open spec fn known(ts: &TokenSet, p: Seq<Seq<u8>>, st: &TokenStats) -> bool {
    &&& ready(st) && akin(ts, &st.token_set)
    &&& st.token_set.tokens@.len() == ts.tokens@.len() && n_long(st.token_set.toks()) == n_long(ts.toks())
    &&& gains(&st.token_set, Ctr::Total, p) == gains(ts, Ctr::Total, p) && st.total_tokens == gains(ts, Ctr::Total, p)
}
pub proof fn answer_known(ts: &TokenSet, p: Seq<Seq<u8>>, n: int, initial: Option<u64>, st: &TokenStats)
    requires kinded(ts), ts.tokens@.len() <= n, fits(p, n), answers(ts, p, initial, st)
    ensures known(ts, p, st)
{
    let s = &st.token_set;
    sorted_kinded(ts, s);
    sorted_total(ts, s, p);
    brief_cost(s);
    scanned_is(s, p);
    assert forall|i: int| 0 <= i < st.token_counts@.len() implies #[trigger] st.token_counts@[i] < BIG() by {
        assert(ctr(st, Ctr::Tok(i)) == gains(s, Ctr::Tok(i), p));
        gains_bound(s, Ctr::Tok(i), p, 256);
    }
    assert forall|i: int| 0 <= i < st.seq_counts@.len() implies #[trigger] st.seq_counts@[i] < BIG() by {
        assert(ctr(st, Ctr::Sq(i)) == gains(s, Ctr::Sq(i), p));
        gains_bound(s, Ctr::Sq(i), p, 256);
    }
    assert(ctr(st, Ctr::Total) == gains(s, Ctr::Total, p));
}
pub proof fn answer_paired(ts: &TokenSet, p: Seq<Seq<u8>>, n: int, initial: Option<u64>, st: &TokenStats)
    requires kinded(ts), ts.tokens@.len() <= n, fits(p, n), answers(ts, p, initial, st), tallied(&st.token_set, p, initial, st)
    ensures known(ts, p, st), paired(st)
{
    answer_known(ts, p, n, initial, st);
    scanned_is(&st.token_set, p);
    assert(st.initial_size == initial);
    assert(paired_of(st, p));
}
// ---- C14: adding and removing a long token ------------------------------------------------------------
pub proof fn grown_kinded(ts: &TokenSet, t: Seq<u8>, r: &TokenSet)
    requires kinded(ts), t.len() >= 2, !ts.toks().contains(TokV::Str(t)), grown(ts, t, r)
    ensures kinded(r), akin(ts, r), n_long(r.toks()) == n_long(ts.toks()) + 1, r.tokens@.len() == ts.tokens@.len() + 1
{
    brief_seqs(ts);
    c10_add_token(ts, r, t);
    let l = ts.tokens@.len() as int;
    assert forall|q: int| 0 <= q < ts.sequences@.len() implies keeps(t)(#[trigger] ts.sequences@[q]) by { assert(ts.sequences@[q].string@.len() == 1); }
    filter_all(ts.sequences@, keeps(t));
    assert(r.sequences@ == ts.sequences@);
    assert forall|i: int| 0 <= i < l implies #[trigger] r.tokens@[i] == ts.tokens@[i] by { assert(r.tokens@.drop_last()[i] == r.tokens@[i]); }
    assert(r.toks() =~= ts.toks().push(TokV::Str(t)));
    assert(r.toks().drop_last() =~= ts.toks());
    assert(r.tokens@[l].v() == TokV::Str(t));
    assert forall|q: int| 0 <= q < r.spelled().len() implies brief(#[trigger] r.spelled()[q]) by {
        assert(brief(ts.spelled()[q]));
        assert(ts.sequences@[q].idx_below(l));
        assert(r.spelled()[q].toks =~= ts.spelled()[q].toks);
    }
    // covering
    assert forall|x: Piece| #[trigger] piece_ok(r, x) implies piece_str(r, x).len() > 0 && (x != Piece::Tok(l) ==> piece_ok(ts, x) && piece_str(r, x) == piece_str(ts, x)) && (x == Piece::Tok(l) ==> piece_str(r, x) == t) by {
        match x { Piece::Tok(k) => { if k < l { assert(r.tokens@[k] == ts.tokens@[k]); } assert(piece_ok(ts, x) || k == l); } Piece::Sq(k) => { assert(piece_ok(ts, x)); } }
    }
    assert forall|x: Piece, y: Piece| #![trigger piece_ok(r, x), piece_ok(r, y)] piece_ok(r, x) && piece_ok(r, y) && piece_str(r, x) == piece_str(r, y) implies x == y by {
        assert forall|z: Piece| #[trigger] piece_ok(ts, z) implies piece_str(ts, z) != t by {
            match z {
                Piece::Tok(k) => { assert(ts.toks()[k] == ts.tokens@[k].v()); if piece_str(ts, z) == t { assert(ts.toks()[k] == TokV::Str(t)); } }
                Piece::Sq(k) => { assert(ts.sequences@[k].string@.len() == 1); }
            }
        }
        if x != Piece::Tok(l) && y != Piece::Tok(l) { assert(piece_ok(ts, x) && piece_ok(ts, y)); }
    }
    assert forall|b: u8| #[trigger] byte_encoded(r, b) by {
        assert(byte_encoded(ts, b));
        let x = choose|x: Piece| #[trigger] piece_ok(ts, x) && piece_str(ts, x) == seq![b];
        match x { Piece::Tok(k) => { assert(r.tokens@[k] == ts.tokens@[k]); } _ => {} }
        assert(piece_ok(r, x) && piece_str(r, x) == seq![b]);
    }
}
/// no sequence uses a long token
pub proof fn unused_long(ts: &TokenSet, at: usize)
    requires ts.wf(), all_brief(ts.spelled()), 0 <= at < ts.tokens@.len(), is_long(ts.toks()[at as int])
    ensures forall|i: int| 0 <= i < ts.sequences@.len() ==> !(#[trigger] ts.sequences@[i]).tokens@.contains(at)
{
    assert forall|i: int| 0 <= i < ts.sequences@.len() implies !(#[trigger] ts.sequences@[i]).tokens@.contains(at) by {
        let s = ts.sequences@[i];
        let v = ts.spelled()[i];
        assert(brief(v));
        assert(s.idx_below(ts.tokens@.len() as int));
        if s.tokens@.contains(at) {
            let j = choose|j: int| 0 <= j < s.tokens@.len() && s.tokens@[j] == at;
            assert(v.toks[j] == ts.toks()[s.tokens@[j] as int]);
        }
    }
}
pub proof fn removed_kinded(ts: &TokenSet, r: &TokenSet, at: int)
    requires kinded(ts), r.wf(), r.same_header(ts), 0 <= at < ts.tokens@.len(), is_long(ts.toks()[at]), r.tokens@ == swap_removed(ts.tokens@, at), r.spelled() == ts.spelled()
    ensures kinded(r), akin(ts, r), n_long(r.toks()) == n_long(ts.toks()) - 1, r.tokens@.len() == ts.tokens@.len() - 1
{
    c10_remove_token(ts, r, at);
    let l = ts.tokens@.len() - 1;
    assert(r.toks() =~= swap_removed(ts.toks(), at));
    assert(ts.spelled().len() == ts.sequences@.len() && r.spelled().len() == r.sequences@.len());
    // long tokens
    if at == l { assert(r.toks() =~= ts.toks().drop_last()); } else {
        n_long_remove(ts.toks(), at);
        n_long_remove(r.toks(), at);
        n_long_remove(ts.toks().remove(at), l - 1);
        assert(ts.toks().remove(at).remove(l - 1) =~= r.toks().remove(at));
        assert(ts.toks().remove(at)[l - 1] == ts.toks()[l]);
    }
    // covering
    assert forall|x: Piece| #[trigger] piece_ok(r, x) implies piece_ok(ts, moved(x, at, l)) && piece_str(r, x) == piece_str(ts, moved(x, at, l)) by {
        match x {
            Piece::Tok(k) => { assert(r.tokens@[k] == ts.tokens@[if k == at { l } else { k }]); }
            Piece::Sq(k) => { assert(r.spelled()[k] == ts.spelled()[k]); assert(r.spelled()[k].string == r.sequences@[k].string@ && ts.spelled()[k].string == ts.sequences@[k].string@); }
        }
    }
    assert forall|x: Piece| #[trigger] piece_ok(r, x) implies piece_str(r, x).len() > 0 by { assert(piece_ok(ts, moved(x, at, l))); }
    assert forall|x: Piece, y: Piece| #![trigger piece_ok(r, x), piece_ok(r, y)] piece_ok(r, x) && piece_ok(r, y) && piece_str(r, x) == piece_str(r, y) implies x == y by {
        assert(piece_ok(ts, moved(x, at, l)) && piece_ok(ts, moved(y, at, l)));
        assert(moved(x, at, l) == moved(y, at, l));
    }
    assert forall|b: u8| #[trigger] byte_encoded(r, b) by {
        assert(byte_encoded(ts, b));
        let x = choose|x: Piece| #[trigger] piece_ok(ts, x) && piece_str(ts, x) == seq![b];
        assert(piece_str(ts, x).len() == 1);
        let y = match x { Piece::Tok(k) => Piece::Tok(if k == l { at } else { k }), _ => x };
        match x {
            Piece::Tok(k) => {
                assert(ts.toks()[k] == ts.tokens@[k].v());
                assert(k != at);
                assert(r.tokens@[if k == l { at } else { k }] == ts.tokens@[k]);
            }
            Piece::Sq(k) => { assert(r.spelled()[k] == ts.spelled()[k]); assert(r.spelled()[k].string == r.sequences@[k].string@ && ts.spelled()[k].string == ts.sequences@[k].string@); }
        }
        assert(piece_ok(r, y) && piece_str(r, y) == seq![b]);
    }
}
pub open spec fn moved(x: Piece, at: int, l: int) -> Piece { match x { Piece::Tok(k) => Piece::Tok(if k == at { l } else { k }), _ => x } }
// ---- C14: the start ------------------------------------------------------------------------------------
pub proof fn bits_kinded(ts: &TokenSet, b: nat, n: nat)
    requires builtin_bits(ts, b, n), 1 < b <= 16, 1 < n <= 8, ipow(b as int, n) == 256, kind_ext(ts.token_type, b as usize), min_ext(ts.token_type) == b
    ensures kinded(ts), ts.tokens@.len() == b, n_long(ts.toks()) == 0
{
    c10_builtin_bits(ts, b, n);
    c08_wf(ts, b, n);
    n_long_exts(ts.toks());
    assert(ts.toks().len() == ts.tokens@.len());
    assert forall|q: int| 0 <= q < ts.spelled().len() implies brief(#[trigger] ts.spelled()[q]) by {
        let s = ts.sequences@[q];
        assert(s.string@ == seq![q as u8]);
        assert(is_digits(s.tokens@, q, b as int, n));
        assert(s.idx_below(ts.tokens@.len() as int));
        assert forall|j: int| 0 <= j < s.tokens@.len() implies !is_long(ts.toks()[#[trigger] s.tokens@[j] as int]) by { }
        brief_at(ts, q);
    }
    assert forall|x: Piece| #[trigger] piece_ok(ts, x) implies x is Sq && piece_str(ts, x) == seq![x->Sq_0 as u8] by {
        match x { Piece::Tok(t) => { assert(ts.toks()[t] == ts.tokens@[t].v()); } Piece::Sq(q) => {} }
    }
    assert forall|x: Piece, y: Piece| #![trigger piece_ok(ts, x), piece_ok(ts, y)] piece_ok(ts, x) && piece_ok(ts, y) && piece_str(ts, x) == piece_str(ts, y) implies x == y by {
        assert(seq![x->Sq_0 as u8][0] == seq![y->Sq_0 as u8][0]);
    }
    assert forall|c: u8| #[trigger] byte_encoded(ts, c) by {
        assert(ts.sequences@[c as int].string@ == seq![c as int as u8]);
        assert(piece_ok(ts, Piece::Sq(c as int)) && piece_str(ts, Piece::Sq(c as int)) == seq![c]);
    }
}
pub proof fn n_long_exts(s: Seq<TokV>)
    requires forall|i: int| 0 <= i < s.len() ==> !is_long(#[trigger] s[i])
    ensures n_long(s) == 0
    decreases s.len()
{
    if s.len() > 0 { n_long_exts(s.drop_last()); assert(s.last() == s[s.len() - 1]); }
}
pub proof fn bytes_kinded(ts: &TokenSet)
    requires ts.n_ext_tokens == 0, ts.token_type == TokenType::Bytes, ts.sequences@.len() == 0,
        ts.toks() == Seq::new(256, |c: int| TokV::Str(seq![c as u8])),
    ensures kinded(ts), ts.tokens@.len() == 256, n_long(ts.toks()) == 0
{
    c10_builtin_bytes(ts);
    n_long_exts(ts.toks());
    assert(ts.toks().len() == ts.tokens@.len());
    assert forall|x: Piece| #[trigger] piece_ok(ts, x) implies x is Tok && piece_str(ts, x) == seq![x->Tok_0 as u8] by {
        match x { Piece::Tok(t) => { assert(ts.toks()[t] == ts.tokens@[t].v()); } Piece::Sq(q) => {} }
    }
    assert forall|x: Piece, y: Piece| #![trigger piece_ok(ts, x), piece_ok(ts, y)] piece_ok(ts, x) && piece_ok(ts, y) && piece_str(ts, x) == piece_str(ts, y) implies x == y by {
        assert(seq![x->Tok_0 as u8][0] == seq![y->Tok_0 as u8][0]);
    }
    assert forall|c: u8| #[trigger] byte_encoded(ts, c) by {
        assert(ts.toks()[c as int] == ts.tokens@[c as int].v());
        assert(piece_ok(ts, Piece::Tok(c as int)) && piece_str(ts, Piece::Tok(c as int)) == seq![c]);
    }
}

// ---- C14: a step ----------------------------------------------------------------------------------------
/// Some tokens more, or as many tokens and a smaller total.
pub open spec fn improved(a: &TokenSet, n: int, p: Seq<Seq<u8>>, r: &TokenSet) -> bool {
    &&& kinded(r) && akin(a, r) && a.tokens@.len() <= r.tokens@.len() <= n
    &&& r.tokens@.len() == a.tokens@.len() ==> gains(r, Ctr::Total, p) < gains(a, Ctr::Total, p)
}
pub open spec fn one_more(a: &TokenSet, r: &TokenSet) -> bool { kinded(r) && akin(a, r) && r.tokens@.len() == a.tokens@.len() + 1 }
pub open spec fn removed(ts: &TokenSet, at: int, r: &TokenSet) -> bool {
    &&& 0 <= at < ts.tokens@.len() && is_long(ts.toks()[at])
    &&& r.wf() && r.same_header(ts) && r.tokens@ == swap_removed(ts.tokens@, at) && r.spelled() == ts.spelled()
}
pub open spec fn long_in(ts: &TokenSet, s: Seq<u8>) -> bool { s.len() > 1 && ts.toks().contains(TokV::Str(s)) }
pub open spec fn all_long(ts: &TokenSet, v: Seq<Vec<u8>>) -> bool { forall|i: int| 0 <= i < v.len() ==> long_in(ts, #[trigger] v[i]@) }
pub open spec fn within_reach(ts: &TokenSet, n: int) -> bool { kinded(ts) && ts.tokens@.len() <= n }
pub proof fn c14_facts(p: Seq<Seq<u8>>, n: int, initial: Option<u64>)
    requires fits(p, n)
    ensures
        forall|ts: TokenSet| within_reach(&ts, n) ==> #[trigger] askable(&ts, p),
        forall|ts: TokenSet, st: TokenStats| #[trigger] answers(&ts, p, initial, &st) && within_reach(&ts, n) ==> known(&ts, p, &st),
        forall|ts: TokenSet, st: TokenStats| #[trigger] answers(&ts, p, initial, &st) && within_reach(&ts, n) && tallied(&st.token_set, p, initial, &st) ==> paired(&st),
        forall|st: TokenStats, x: int, r: TokenSet| #[trigger] grown(&st.token_set, pair_str(&st.token_set, x), &r) && kinded(&st.token_set) && genuine(&st, x) ==> one_more(&st.token_set, &r),
        forall|ts: TokenSet, at: int, r: TokenSet| #![trigger r.same_header(&ts), swap_removed(ts.tokens@, at)] removed(&ts, at, &r) && kinded(&ts) ==> kinded(&r) && akin(&ts, &r) && r.tokens@.len() == ts.tokens@.len() - 1,
        forall|ts: TokenSet, at: usize, i: int| kinded(&ts) && at < ts.tokens@.len() && is_long(ts.toks()[at as int]) && 0 <= i < ts.sequences@.len() ==> !#[trigger] ts.sequences@[i].tokens@.contains(at),
        forall|ts: TokenSet, a: Seq<Vec<u8>>, b: Seq<Vec<u8>>, ks: Seq<usize>, q: Seq<int>| #[trigger] crate::vx::sort_result(a, b, ks, q) && #[trigger] all_long(&ts, a) ==> all_long(&ts, b),
        forall|a: TokenSet, b: TokenSet| #[trigger] sorted_of(&a, &b) && kinded(&a) ==> kinded(&b) && akin(&a, &b) && b.tokens@.len() == a.tokens@.len(),
        forall|m: int| 0 <= m <= n ==> #[trigger] fits(p, m),
{
    assert forall|a: TokenSet, b: TokenSet| #[trigger] sorted_of(&a, &b) && kinded(&a) implies kinded(&b) && akin(&a, &b) && b.tokens@.len() == a.tokens@.len() by { sorted_kinded(&a, &b); }
    assert forall|ts: TokenSet| within_reach(&ts, n) implies #[trigger] askable(&ts, p) by { kinded_askable(&ts, p, n); }
    assert forall|ts: TokenSet, st: TokenStats| #[trigger] answers(&ts, p, initial, &st) && within_reach(&ts, n) implies known(&ts, p, &st) by { answer_known(&ts, p, n, initial, &st); }
    assert forall|ts: TokenSet, st: TokenStats| #[trigger] answers(&ts, p, initial, &st) && within_reach(&ts, n) && tallied(&st.token_set, p, initial, &st) implies paired(&st) by { answer_paired(&ts, p, n, initial, &st); }
    assert forall|st: TokenStats, x: int, r: TokenSet| #[trigger] grown(&st.token_set, pair_str(&st.token_set, x), &r) && kinded(&st.token_set) && genuine(&st, x) implies one_more(&st.token_set, &r) by {
        grown_kinded(&st.token_set, pair_str(&st.token_set, x), &r);
    }
    assert forall|ts: TokenSet, at: usize, i: int| kinded(&ts) && at < ts.tokens@.len() && is_long(ts.toks()[at as int]) && 0 <= i < ts.sequences@.len() implies !#[trigger] ts.sequences@[i].tokens@.contains(at) by { unused_long(&ts, at); }
    assert forall|ts: TokenSet, a: Seq<Vec<u8>>, b: Seq<Vec<u8>>, ks: Seq<usize>, q: Seq<int>| #[trigger] crate::vx::sort_result(a, b, ks, q) && #[trigger] all_long(&ts, a) implies all_long(&ts, b) by {
        assert forall|i: int| 0 <= i < b.len() implies long_in(&ts, #[trigger] b[i]@) by { assert(b[i] == a[q[i]]); }
    }
    assert forall|ts: TokenSet, at: int, r: TokenSet| #![trigger r.same_header(&ts), swap_removed(ts.tokens@, at)] removed(&ts, at, &r) && kinded(&ts) implies kinded(&r) && akin(&ts, &r) && r.tokens@.len() == ts.tokens@.len() - 1 by { removed_kinded(&ts, &r, at); }
    assert forall|m: int| 0 <= m <= n implies #[trigger] fits(p, m) by { assert(m * m <= n * n) by (nonlinear_arith) requires 0 <= m <= n; }
}
// ---- C14: what bytes cost ---------------------------------------------------------------------------------
/// the token or sequence that is just byte b, among the first d tokens and e sequences
pub open spec fn seen_byte(ts: &TokenSet, d: int, e: int, b: u8) -> bool {
    exists|x: Piece| #[trigger] piece_ok(ts, x) && piece_str(ts, x) == seq![b] && match x { Piece::Tok(t) => t < d, Piece::Sq(q) => q < e }
}
pub open spec fn byte_costs(a: Seq<Option<u64>>, ts: &TokenSet, d: int, e: int) -> bool {
    &&& a.len() == 256
    &&& forall|b: u8| (#[trigger] a[b as int]) is Some == seen_byte(ts, d, e, b)
    &&& forall|b: u8| (#[trigger] a[b as int]) is Some ==> a[b as int]->Some_0 <= 256
}
/// the x-th piece is not one byte: nothing changes
pub proof fn costs_skip(a: Seq<Option<u64>>, ts: &TokenSet, d: int, e: int, x: Piece)
    requires byte_costs(a, ts, d, e), match x { Piece::Tok(t) => t == d && e == 0, Piece::Sq(q) => q == e && d == ts.tokens@.len() },
        piece_ok(ts, x) ==> piece_str(ts, x).len() != 1,
    ensures byte_costs(a, ts, if x is Tok { d + 1 } else { d }, if x is Sq { e + 1 } else { e })
{
    let (d1, e1) = (if x is Tok { d + 1 } else { d }, if x is Sq { e + 1 } else { e });
    assert forall|b: u8| (#[trigger] a[b as int]) is Some == seen_byte(ts, d1, e1, b) by {
        if seen_byte(ts, d1, e1, b) {
            let y = choose|y: Piece| #[trigger] piece_ok(ts, y) && piece_str(ts, y) == seq![b] && match y { Piece::Tok(t) => t < d1, Piece::Sq(q) => q < e1 };
            assert(y != x) by { if y == x { assert(piece_str(ts, y).len() == 1); } }
            assert(seen_byte(ts, d, e, b));
        }
        if seen_byte(ts, d, e, b) {
            let y = choose|y: Piece| #[trigger] piece_ok(ts, y) && piece_str(ts, y) == seq![b] && match y { Piece::Tok(t) => t < d, Piece::Sq(q) => q < e };
            assert(seen_byte(ts, d1, e1, b));
        }
    }
}
/// the x-th piece is byte b: it was not seen before
pub proof fn costs_unseen(a: Seq<Option<u64>>, ts: &TokenSet, d: int, e: int, x: Piece)
    requires covering(ts), byte_costs(a, ts, d, e), match x { Piece::Tok(t) => t == d && e == 0, Piece::Sq(q) => q == e && d == ts.tokens@.len() },
        piece_ok(ts, x), piece_str(ts, x).len() == 1,
    ensures a[piece_str(ts, x)[0] as int] is None
{
    let b = piece_str(ts, x)[0];
    assert(piece_str(ts, x) =~= seq![b]);
    if seen_byte(ts, d, e, b) {
        let y = choose|y: Piece| #[trigger] piece_ok(ts, y) && piece_str(ts, y) == seq![b] && match y { Piece::Tok(t) => t < d, Piece::Sq(q) => q < e };
        assert(x == y);
    }
}
pub proof fn costs_step(a: Seq<Option<u64>>, ts: &TokenSet, d: int, e: int, x: Piece, c: u64)
    requires covering(ts), byte_costs(a, ts, d, e), match x { Piece::Tok(t) => t == d && e == 0, Piece::Sq(q) => q == e && d == ts.tokens@.len() },
        piece_ok(ts, x), piece_str(ts, x).len() == 1, c <= 256,
    ensures byte_costs(a.update(piece_str(ts, x)[0] as int, Some(c)), ts, if x is Tok { d + 1 } else { d }, if x is Sq { e + 1 } else { e })
{
    let (d1, e1) = (if x is Tok { d + 1 } else { d }, if x is Sq { e + 1 } else { e });
    let c0 = piece_str(ts, x)[0];
    assert(piece_str(ts, x) =~= seq![c0]);
    let n = a.update(c0 as int, Some(c));
    assert forall|b: u8| (#[trigger] n[b as int]) is Some == seen_byte(ts, d1, e1, b) by {
        assert(a[b as int] is Some == seen_byte(ts, d, e, b));
        if b == c0 { assert(seen_byte(ts, d1, e1, b)); } else {
            if seen_byte(ts, d1, e1, b) {
                let y = choose|y: Piece| #[trigger] piece_ok(ts, y) && piece_str(ts, y) == seq![b] && match y { Piece::Tok(t) => t < d1, Piece::Sq(q) => q < e1 };
                assert(y != x) by { if y == x { assert(seq![b][0] == seq![c0][0]); } }
                assert(seen_byte(ts, d, e, b));
            }
            if seen_byte(ts, d, e, b) {
                let y = choose|y: Piece| #[trigger] piece_ok(ts, y) && piece_str(ts, y) == seq![b] && match y { Piece::Tok(t) => t < d, Piece::Sq(q) => q < e };
                assert(seen_byte(ts, d1, e1, b));
            }
        }
    }
    assert forall|b: u8| (#[trigger] n[b as int]) is Some implies n[b as int]->Some_0 <= 256 by { assert(a[b as int] is Some == seen_byte(ts, d, e, b)); }
}
pub proof fn costs_none(a: Seq<Option<u64>>, ts: &TokenSet)
    requires a.len() == 256, forall|i: int| 0 <= i < 256 ==> (#[trigger] a[i]) is None
    ensures byte_costs(a, ts, 0, 0)
{
    assert forall|b: u8| (#[trigger] a[b as int]) is Some == seen_byte(ts, 0, 0, b) by {
        if seen_byte(ts, 0, 0, b) {
            let y = choose|y: Piece| #[trigger] piece_ok(ts, y) && piece_str(ts, y) == seq![b] && match y { Piece::Tok(t) => t < 0, Piece::Sq(q) => q < 0 };
        }
    }
}
pub proof fn costs_all(a: Seq<Option<u64>>, ts: &TokenSet)
    requires covering(ts), byte_costs(a, ts, ts.tokens@.len() as int, ts.sequences@.len() as int)
    ensures forall|b: u8| (#[trigger] a[b as int]) is Some && a[b as int]->Some_0 <= 256
{
    assert forall|b: u8| (#[trigger] a[b as int]) is Some && a[b as int]->Some_0 <= 256 by {
        assert(byte_encoded(ts, b));
        let x = choose|x: Piece| #[trigger] piece_ok(ts, x) && piece_str(ts, x) == seq![b];
        assert(seen_byte(ts, ts.tokens@.len() as int, ts.sequences@.len() as int, b));
    }
}
/// the bytes added up so far: each once
pub open spec fn added(s: Seq<u8>, ts: &TokenSet, d: int, e: int, total: int) -> bool {
    &&& s.no_duplicates() && s.len() <= 256 && total <= i64::MAX && 0 <= total <= s.len() * (256 * (BIG() - 1))
    &&& forall|b: u8| #[trigger] s.contains(b) ==> seen_byte(ts, d, e, b)
}
pub proof fn added_skip(s: Seq<u8>, ts: &TokenSet, d: int, e: int, total: int, d1: int, e1: int)
    requires added(s, ts, d, e, total), d <= d1, e <= e1
    ensures added(s, ts, d1, e1, total)
{
    assert forall|b: u8| #[trigger] s.contains(b) implies seen_byte(ts, d1, e1, b) by {
        let y = choose|y: Piece| #[trigger] piece_ok(ts, y) && piece_str(ts, y) == seq![b] && match y { Piece::Tok(t) => t < d, Piece::Sq(q) => q < e };
        assert(piece_ok(ts, y));
    }
}
pub proof fn added_step(s: Seq<u8>, ts: &TokenSet, d: int, e: int, total: int, x: Piece, c: int, n: int)
    requires covering(ts), added(s, ts, d, e, total), match x { Piece::Tok(t) => t == d && e == 0, Piece::Sq(q) => q == e && d == ts.tokens@.len() },
        piece_ok(ts, x), piece_str(ts, x).len() == 1, 0 <= c <= 256, 0 <= n < BIG(),
    ensures added(s.push(piece_str(ts, x)[0]), ts, if x is Tok { d + 1 } else { d }, if x is Sq { e + 1 } else { e }, total + c * n),
        0 <= c * n, total + c * n <= i64::MAX
{
    let (d1, e1) = (if x is Tok { d + 1 } else { d }, if x is Sq { e + 1 } else { e });
    let b = piece_str(ts, x)[0];
    let t = s.push(b);
    assert(piece_str(ts, x) =~= seq![b]);
    assert(!s.contains(b)) by {
        if s.contains(b) {
            let y = choose|y: Piece| #[trigger] piece_ok(ts, y) && piece_str(ts, y) == seq![b] && match y { Piece::Tok(t) => t < d, Piece::Sq(q) => q < e };
            assert(x == y);
        }
    }
    assert(t.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by {
            if i < s.len() && j < s.len() { assert(s[i] != s[j]); }
            else if i < s.len() { assert(s.contains(s[i])); } else { assert(s.contains(s[j])); }
        }
    }
    bytes_few(t);
    added_skip(s, ts, d, e, total, d1, e1);
    assert forall|z: u8| #[trigger] t.contains(z) implies seen_byte(ts, d1, e1, z) by {
        let i = choose|i: int| 0 <= i < t.len() && t[i] == z;
        if i < s.len() { assert(s.contains(z)); } else { assert(piece_ok(ts, x)); }
    }
    assert(0 <= c * n <= 256 * (BIG() - 1)) by (nonlinear_arith) requires 0 <= c <= 256, 0 <= n <= BIG() - 1;
    let k = s.len() as int;
    assert((k + 1) * (256 * (BIG() - 1)) == k * (256 * (BIG() - 1)) + 256 * (BIG() - 1)) by (nonlinear_arith);
    assert(k + 1 <= 256);
    assert((k + 1) * (256 * (BIG() - 1)) <= 256 * (256 * (BIG() - 1))) by (nonlinear_arith) requires k + 1 <= 256;
}

// ---- C14: the whole run --------------------------------------------------------------------------------
/// What is reported are the statistics of the set delivered, which is within the budget and encodes every byte.
pub open spec fn delivered(n: int, p: Seq<Seq<u8>>, initial: Option<u64>, r: &TokenStats) -> bool {
    kinded(&r.token_set) && r.token_set.tokens@.len() <= n && tallied_np(p, initial, r)
}
/// the mode a run is for: that of the set it starts with
pub open spec fn starting_processing(p: Processing, pre: Option<TokenSet>) -> Processing {
    match pre { Some(ts) => ts.processing, None => p }
}
/// the budgets and starting sets that the kind allows
pub open spec fn startable(n: int, processing: Processing, t: TokenType, pre: Option<TokenSet>) -> bool {
    match pre {
        Some(ts) => kinded(&ts) && ts.token_type == t && ts.tokens@.len() <= n,
        None => n >= min_ext(t),
    }
}
pub proof fn start_facts()
    ensures
        forall|ts: TokenSet| #[trigger] builtin_bits(&ts, 2, 8) && ts.token_type == TokenType::Bits1 ==> kinded(&ts) && ts.tokens@.len() == 2,
        forall|ts: TokenSet| #[trigger] builtin_bits(&ts, 4, 4) && ts.token_type == TokenType::Bits2 ==> kinded(&ts) && ts.tokens@.len() == 4,
        forall|ts: TokenSet| #[trigger] builtin_bits(&ts, 16, 2) && ts.token_type == TokenType::Bits4 ==> kinded(&ts) && ts.tokens@.len() == 16,
        forall|ts: TokenSet| ts.n_ext_tokens == 0 && ts.token_type == TokenType::Bytes && ts.sequences@.len() == 0 && #[trigger] ts.toks() == Seq::new(256, |c: int| TokV::Str(seq![c as u8])) ==> kinded(&ts) && ts.tokens@.len() == 256 && n_long(ts.toks()) == 0,
        forall|o: TokenSet, b: int, r: TokenSet, v: Seq<Code>| #[trigger] huffed(&o, b, &r, v) && kinded(&o) && (o.token_type == TokenType::BytesHuff || o.token_type == TokenType::Bytes) && b >= 3 && r.n_ext_tokens <= 10 && r.tokens@.len() <= 258 + n_long(o.toks()) ==> kinded(&r) && r.token_type == TokenType::BytesHuff && r.processing == o.processing ,
{
    assert forall|o: TokenSet, b: int, r: TokenSet, v: Seq<Code>| #[trigger] huffed(&o, b, &r, v) && kinded(&o) && (o.token_type == TokenType::BytesHuff || o.token_type == TokenType::Bytes) && b >= 3 && r.n_ext_tokens <= 10 && r.tokens@.len() <= 258 + n_long(o.toks()) implies kinded(&r) && r.token_type == TokenType::BytesHuff && r.processing == o.processing  by { huffed_kinded(&o, b, &r, v); }
    assert(ipow(2, 8) == 256) by (compute);
    assert(ipow(4, 4) == 256) by (compute);
    assert(ipow(16, 2) == 256) by (compute);
    assert forall|ts: TokenSet| #[trigger] builtin_bits(&ts, 2, 8) && ts.token_type == TokenType::Bits1 implies kinded(&ts) && ts.tokens@.len() == 2 by { bits_kinded(&ts, 2, 8); }
    assert forall|ts: TokenSet| #[trigger] builtin_bits(&ts, 4, 4) && ts.token_type == TokenType::Bits2 implies kinded(&ts) && ts.tokens@.len() == 4 by { bits_kinded(&ts, 4, 4); }
    assert forall|ts: TokenSet| #[trigger] builtin_bits(&ts, 16, 2) && ts.token_type == TokenType::Bits4 implies kinded(&ts) && ts.tokens@.len() == 16 by { bits_kinded(&ts, 16, 2); }
    assert forall|ts: TokenSet| ts.n_ext_tokens == 0 && ts.token_type == TokenType::Bytes && ts.sequences@.len() == 0 && #[trigger] ts.toks() == Seq::new(256, |c: int| TokV::Str(seq![c as u8])) implies kinded(&ts) && ts.tokens@.len() == 256 && n_long(ts.toks()) == 0 by { bytes_kinded(&ts); }
}

@fn count_tokens_in_bytes -> r
@props C14
@spec
requires covering(tokenset), all_brief(tokenset.spelled()), ready(stats)
ensures r <= i64::MAX
@start
let ghost mut __seen: Seq<u8> = Seq::empty();
let ghost __o = &stats.token_set;
proof { brief_seqs(tokenset); brief_seqs(__o); }
@loop 0 before
proof { costs_none(byte_cost@, tokenset); }
@loop 0
    byte_costs(byte_cost@, tokenset, __d0, 0),
@loop 0 start
let ghost __b = byte_cost@;
proof {
    if piece_ok(tokenset, Piece::Tok(__d0)) && piece_str(tokenset, Piece::Tok(__d0)).len() == 1 {
        costs_unseen(__b, tokenset, __d0, 0, Piece::Tok(__d0));
        costs_step(__b, tokenset, __d0, 0, Piece::Tok(__d0), 1);
    } else { costs_skip(__b, tokenset, __d0, 0, Piece::Tok(__d0)); }
}
@loop 1
    byte_costs(byte_cost@, tokenset, tokenset.tokens@.len() as int, __d1),
@loop 1 start
let ghost __b = byte_cost@;
proof {
    assert(piece_ok(tokenset, Piece::Sq(__d1)));
    costs_unseen(__b, tokenset, tokenset.tokens@.len() as int, __d1, Piece::Sq(__d1));
    costs_step(__b, tokenset, tokenset.tokens@.len() as int, __d1, Piece::Sq(__d1), tokenset.sequences@[__d1].tokens@.len() as u64);
}
@type total u64
@loop 2 before
proof { costs_all(byte_cost@, tokenset); }
@loop 2
    added(__seen, __o, __d2, 0, total as int),
@loop 2 start
proof {
    added_skip(__seen, __o, __d2, 0, total as int, __d2 + 1, 0);
    if piece_ok(__o, Piece::Tok(__d2)) && piece_str(__o, Piece::Tok(__d2)).len() == 1 {
        let b = piece_str(__o, Piece::Tok(__d2))[0];
        added_step(__seen, __o, __d2, 0, total as int, Piece::Tok(__d2), byte_cost@[b as int]->Some_0 as int, stats.token_counts@[__d2] as int);
        __seen = __seen.push(b);
    }
}
@loop 3
    added(__seen, __o, __o.tokens@.len() as int, __d3, total as int),
@loop 3 start
proof {
    assert(piece_ok(__o, Piece::Sq(__d3)));
    let b = piece_str(__o, Piece::Sq(__d3))[0];
    added_step(__seen, __o, __o.tokens@.len() as int, __d3, total as int, Piece::Sq(__d3), byte_cost@[b as int]->Some_0 as int, stats.seq_counts@[__d3] as int);
    __seen = __seen.push(b);
}

@fn add_byte -> r
@props C14
@spec
requires ready(stats), BO::handles(stats.token_set.token_type), stats.token_set.tokens@.len() < usize::MAX
ensures match r { None => true, Some((ts, _)) => one_more(&stats.token_set, &ts) }
@start
proof { brief_seqs(&stats.token_set); }

@fn add_token -> r
@props C14
@spec
requires old(tokenizer_cache).ok(), kinded(tokenset), BO::handles(tokenset.token_type), fits(old(tokenizer_cache).sampler.parts(), tokenset.tokens@.len() as int)
ensures final(tokenizer_cache).ok(), final(tokenizer_cache).same_source(old(tokenizer_cache)),
    match r { None => true, Some(ts) => one_more(tokenset, &ts) }
@start
proof {
    c14_facts(tokenizer_cache.sampler.parts(), tokenset.tokens@.len() as int, tokenizer_cache.initial_size);
    assert(within_reach(tokenset, tokenset.tokens@.len() as int));
}

@fn remove_add_token -> r
@props C14
@rw __m.get(__s).unwrap_or(&0) => crate::vx::count_of(__m, __s)
@spec
requires old(tokenizer_cache).ok(), kinded(token_set), BO::handles(token_set.token_type), token_set.tokens@.len() <= ntokens,
    fits(old(tokenizer_cache).sampler.parts(), ntokens as int)
ensures final(tokenizer_cache).ok(), final(tokenizer_cache).same_source(old(tokenizer_cache)),
    match r { None => true, Some(st) => improved(token_set, ntokens as int, old(tokenizer_cache).sampler.parts(), &st.token_set) }
@start
let ghost __p = tokenizer_cache.sampler.parts();
proof {
    c14_facts(__p, ntokens as int, tokenizer_cache.initial_size);
    assert(within_reach(token_set, ntokens as int));
}

@loop 0
    all_long(token_set, to_remove@),
@loop 0 start
proof { assert(token_set.toks()[__d0] == token_set.tokens@[__d0].v()); }
@loop 1
    all_long(token_set, __q1),
    tokenizer_cache.ok(), tokenizer_cache.sampler.parts() == __p, tokenizer_cache.same_source(old(tokenizer_cache)),
@loop 1 start
proof { assert(long_in(token_set, __q1[__d1]@)); }

@fn optimization_step -> r
@props C14
@spec
requires old(tokenizer_cache).ok(), kinded(token_set), BO::handles(token_set.token_type), token_set.tokens@.len() <= ntokens,
    fits(old(tokenizer_cache).sampler.parts(), ntokens as int)
ensures final(tokenizer_cache).ok(), final(tokenizer_cache).same_source(old(tokenizer_cache)),
    match r { None => true, Some(ts) => improved(token_set, ntokens as int, old(tokenizer_cache).sampler.parts(), &ts) }
@start
let ghost __p = tokenizer_cache.sampler.parts();
proof {
    c14_facts(__p, ntokens as int, tokenizer_cache.initial_size);
    assert(within_reach(token_set, ntokens as int));
}

@fn save_tokens
@props C14 C18
@spec
requires token_set.wf()

@fn optimize_tokenset_impl -> r
@props C14 C17 C18
@spec
requires old(tokenizer_cache).ok(), kinded(&token_set), BO::handles(token_set.token_type), token_set.tokens@.len() <= ntokens,
    fits(old(tokenizer_cache).sampler.parts(), ntokens as int)
ensures final(tokenizer_cache).ok(), final(tokenizer_cache).same_source(old(tokenizer_cache)),
    akin(&token_set, &r.token_set), delivered(ntokens as int, old(tokenizer_cache).sampler.parts(), old(tokenizer_cache).initial_size, &r)
@start
let ghost __p = tokenizer_cache.sampler.parts();
let ghost __in = tokenizer_cache.initial_size;
let ghost __ts = token_set;
proof {
    c14_facts(__p, ntokens as int, __in);
    assert(within_reach(&token_set, ntokens as int));
}
@loop 0
    tokenizer_cache.ok(), tokenizer_cache.sampler.parts() == __p, tokenizer_cache.initial_size == __in, tokenizer_cache.same_source(old(tokenizer_cache)),
    kinded(&token_set), akin(&__ts, &token_set), token_set.tokens@.len() <= ntokens,
decreases ntokens - token_set.tokens@.len(), gains(&token_set, Ctr::Total, __p)

@fn optimize_tokenset -> r
@props C14 C17 C18
@spec
requires sampler.valid(), startable(ntokens as int, processing, token_type, pretrained_token_set), fits(sampler.parts(), ntokens as int)
ensures r.token_set.token_type == token_type, r.token_set.processing == starting_processing(processing, pretrained_token_set),
    delivered(ntokens as int, sampler.parts(), initial_size, &r)
@start
proof {
    c14_facts(sampler.parts(), ntokens as int, initial_size);
    start_facts();
    if ntokens < 256 { c14_facts(sampler.parts(), 256, initial_size); }
}

@fn Optimizer::new -> r
@props C14 C17 C18
@spec
ensures r.ntokens == ntokens, r.processing == processing, r.token_type == token_type, r.unprocessed_data_size == unprocessed_data_size
@fn Optimizer::optimize -> r
@props C14 C17 C18
@spec
requires sampler.valid(), startable(self.ntokens as int, self.processing, self.token_type, pretrained_token_set), fits(sampler.parts(), self.ntokens as int)
ensures r.token_set.token_type == self.token_type, r.token_set.processing == starting_processing(self.processing, pretrained_token_set),
    delivered(self.ntokens as int, sampler.parts(), self.unprocessed_data_size, &r)
@fn Optimizer::get_stats -> r
@props C14 C17 C18
@spec
requires sampler.valid(), countable(tokenset, sampler.parts())
ensures tallied(tokenset, sampler.parts(), self.unprocessed_data_size, &r)
