@module input::sample
@prelude
// ---- the sampler interface: what every sampler promises (C06, C07) ---------------
/// `rest`: the samples still to come; finitely many, and the same every time.
pub trait SampleIter<'a>: Sized {
    spec fn valid(&self) -> bool;
    spec fn rest(&self) -> Seq<Seq<u8>>;
    fn next(&mut self) -> (r: Option<Sample<'a>>)
        requires old(self).valid()
        ensures final(self).valid(), match r {
            Some(s) => old(self).rest().len() > 0 && s.bytes() == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(),
            None => old(self).rest().len() == 0 && final(self).rest().len() == 0,
        };
}
pub trait Sampler<'a>: Sized {
    type Iter: SampleIter<'a>;
    spec fn valid(&self) -> bool;
    spec fn parts(&self) -> Seq<Seq<u8>>;
    fn iter(&'a self) -> (r: Self::Iter)
        requires self.valid()
        ensures r.valid(), r.rest() == self.parts();
    fn total_size(&'a self) -> u64
        requires self.valid();
}
@module batch_tokenize
@prelude
use crate::vx::*;
use super::input::sample::*;
use super::stats2::*;
use super::tokenizer2::*;
use super::tokenset::*;

// ---- what a list of samples adds to each counter -----------------------------------
pub enum Ctr { Total, Scanned, Tok(int), Sq(int), Pair(int) }
pub open spec fn has_ctr(ts: &TokenSet, c: Ctr) -> bool {
    match c {
        Ctr::Total => true,
        Ctr::Scanned => true,
        Ctr::Tok(t) => 0 <= t < ts.tokens@.len(),
        Ctr::Sq(q) => 0 <= q < ts.sequences@.len(),
        Ctr::Pair(x) => 0 <= x < ts.tokens@.len() * ts.tokens@.len(),
    }
}
pub open spec fn ctr(s: &TokenStats, c: Ctr) -> int {
    match c {
        Ctr::Total => s.total_tokens as int,
        Ctr::Scanned => s.scanned_bytes as int,
        Ctr::Tok(t) => s.token_counts@[t] as int,
        Ctr::Sq(q) => s.seq_counts@[q] as int,
        Ctr::Pair(x) => s.pair_counts@[x] as int,
    }
}
/// what the sample b adds
pub open spec fn gain(ts: &TokenSet, c: Ctr, b: Seq<u8>) -> nat {
    let v = canon(ts, b);
    match c {
        Ctr::Total => sum(v, costs(ts)),
        Ctr::Scanned => b.len(),
        Ctr::Tok(t) => sum(v, toks_of(ts, t)),
        Ctr::Sq(q) => sum(v, seqs_of(q)),
        Ctr::Pair(x) => n_pair(v, x / (ts.tokens@.len() as int), x % (ts.tokens@.len() as int)),
    }
}
pub open spec fn gains(ts: &TokenSet, c: Ctr, p: Seq<Seq<u8>>) -> nat decreases p.len() {
    if p.len() == 0 { 0 } else { gains(ts, c, p.drop_last()) + gain(ts, c, p.last()) }
}
/// `r` is exactly the statistics of the samples p.
pub open spec fn tallied(ts: &TokenSet, p: Seq<Seq<u8>>, initial: Option<u64>, r: &TokenStats) -> bool {
    &&& r.token_set == *ts && r.initial_size == initial && r.shaped(ts)
    &&& forall|c: Ctr| has_ctr(ts, c) ==> #[trigger] ctr(r, c) == gains(ts, c, p)
}
/// The counters cannot overflow on the samples p.
pub open spec fn fits_u64(ts: &TokenSet, p: Seq<Seq<u8>>, k: nat) -> bool {
    cost_bound(ts, k) && gains(ts, Ctr::Scanned, p) * k <= u64::MAX
}
pub open spec fn small(ts: &TokenSet) -> bool {
    ts.tokens@.len() * ts.tokens@.len() <= usize::MAX && ts.tokens@.len() + ts.sequences@.len() < usize::MAX
}
pub open spec fn countable(ts: &TokenSet, p: Seq<Seq<u8>>) -> bool {
    &&& covering(ts) && small(ts)
    &&& exists|k: nat| #[trigger] fits_u64(ts, p, k)
    &&& forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).len() > 0
}
/// C05: statistics of the same samples are the same statistics.
pub open spec fn same_stats(a: &TokenStats, b: &TokenStats) -> bool {
    &&& a.token_set == b.token_set && a.initial_size == b.initial_size
    &&& a.total_tokens == b.total_tokens && a.scanned_bytes == b.scanned_bytes
    &&& a.token_counts@ == b.token_counts@ && a.seq_counts@ == b.seq_counts@ && a.pair_counts@ == b.pair_counts@
}
pub proof fn c05_one_answer(ts: &TokenSet, p: Seq<Seq<u8>>, initial: Option<u64>, a: &TokenStats, b: &TokenStats)
    requires tallied(ts, p, initial, a), tallied(ts, p, initial, b)
    ensures same_stats(a, b)
{
    assert(ctr(a, Ctr::Total) == ctr(b, Ctr::Total));
    assert(ctr(a, Ctr::Scanned) == ctr(b, Ctr::Scanned));
    assert forall|t: int| 0 <= t < ts.tokens@.len() implies a.token_counts@[t] == b.token_counts@[t] by { assert(ctr(a, Ctr::Tok(t)) == ctr(b, Ctr::Tok(t))); }
    assert forall|q: int| 0 <= q < ts.sequences@.len() implies a.seq_counts@[q] == b.seq_counts@[q] by { assert(ctr(a, Ctr::Sq(q)) == ctr(b, Ctr::Sq(q))); }
    assert forall|x: int| 0 <= x < ts.tokens@.len() * ts.tokens@.len() implies a.pair_counts@[x] == b.pair_counts@[x] by { assert(ctr(a, Ctr::Pair(x)) == ctr(b, Ctr::Pair(x))); }
    assert(a.token_counts@ =~= b.token_counts@ && a.seq_counts@ =~= b.seq_counts@ && a.pair_counts@ =~= b.pair_counts@);
}
pub proof fn gain_bound(ts: &TokenSet, c: Ctr, b: Seq<u8>, k: nat)
    requires covering(ts), cost_bound(ts, k), has_ctr(ts, c)
    ensures gain(ts, c, b) <= b.len() * k
{
    let v = canon(ts, b);
    canon_covers(ts, b);
    cat_len(ts, v);
    assert(v.len() * k <= b.len() * k) by (nonlinear_arith) requires v.len() <= b.len();
    assert(b.len() <= b.len() * k) by (nonlinear_arith) requires k >= 1;
    match c {
        Ctr::Total => {
            let f = costs(ts);
            assert forall|i: int| 0 <= i < v.len() implies f(#[trigger] v[i]) <= k by {
                match v[i] { Piece::Sq(q) => { assert(ts.sequences@[q].tokens@.len() <= k); } _ => {} }
            }
            sum_le(v, f, k);
        }
        Ctr::Scanned => {}
        Ctr::Tok(t) => { toks_le(ts, v, t, k); }
        Ctr::Sq(q) => { is_p_le(v, Piece::Sq(q)); }
        Ctr::Pair(x) => { n_pair_le(v, x / (ts.tokens@.len() as int), x % (ts.tokens@.len() as int)); }
    }
}
pub proof fn gains_bound(ts: &TokenSet, c: Ctr, p: Seq<Seq<u8>>, k: nat)
    requires covering(ts), cost_bound(ts, k), has_ctr(ts, c)
    ensures gains(ts, c, p) <= gains(ts, Ctr::Scanned, p) * k
    decreases p.len()
{
    if p.len() > 0 {
        gains_bound(ts, c, p.drop_last(), k);
        gain_bound(ts, c, p.last(), k);
        let (a, b) = (gains(ts, Ctr::Scanned, p.drop_last()), p.last().len());
        assert((a + b) * k == a * k + b * k) by (nonlinear_arith);
    } else {
        assert(0 * k == 0);
    }
}
pub proof fn gains_take(ts: &TokenSet, c: Ctr, p: Seq<Seq<u8>>, i: int)
    requires 0 <= i < p.len()
    ensures gains(ts, c, p.take(i + 1)) == gains(ts, c, p.take(i)) + gain(ts, c, p[i])
{
    assert(p.take(i + 1).drop_last() =~= p.take(i));
}
pub proof fn gains_mono(ts: &TokenSet, c: Ctr, p: Seq<Seq<u8>>, i: int)
    requires 0 <= i <= p.len()
    ensures gains(ts, c, p.take(i)) <= gains(ts, c, p)
    decreases p.len() - i
{
    if i < p.len() { gains_take(ts, c, p, i); gains_mono(ts, c, p, i + 1); } else { assert(p.take(i) =~= p); }
}
pub proof fn tallied_none(ts: &TokenSet, p: Seq<Seq<u8>>, initial: Option<u64>, r: &TokenStats)
    requires r.token_set == *ts, r.shaped(ts), r.zero(), r.initial_size == initial
    ensures tallied(ts, p.take(0), initial, r)
{
    assert forall|c: Ctr| has_ctr(ts, c) implies #[trigger] ctr(r, c) == gains(ts, c, p.take(0)) by {
        match c { Ctr::Pair(x) => { assert(r.pair_counts@[x] == 0); } Ctr::Tok(t) => { assert(r.token_counts@[t] == 0); } Ctr::Sq(q) => { assert(r.seq_counts@[q] == 0); } _ => {} }
    }
}
/// there is room for the next sample
pub proof fn tally_room(ts: &TokenSet, p: Seq<Seq<u8>>, initial: Option<u64>, r: &TokenStats, i: int, k: nat)
    requires covering(ts), fits_u64(ts, p, k), tallied(ts, p.take(i), initial, r), 0 <= i < p.len()
    ensures room_for(ts, r, p[i].len())
{
    let n = p[i].len();
    gains_take(ts, Ctr::Scanned, p, i);
    gains_mono(ts, Ctr::Scanned, p, i + 1);
    let (a, b) = (gains(ts, Ctr::Scanned, p.take(i)), gains(ts, Ctr::Scanned, p));
    assert(a * k + n * k <= b * k) by (nonlinear_arith) requires a + n <= b;
    assert forall|c: Ctr| has_ctr(ts, c) implies #[trigger] ctr(r, c) + n * k <= u64::MAX by {
        gains_bound(ts, c, p.take(i), k);
    }
    roomy(ts, r, (n * k) as int);
}
pub proof fn roomy(ts: &TokenSet, r: &TokenStats, n: int)
    requires r.shaped(ts), forall|c: Ctr| has_ctr(ts, c) ==> #[trigger] ctr(r, c) + n <= u64::MAX
    ensures r.room(n)
{
    assert(ctr(r, Ctr::Total) + n <= u64::MAX);
    assert(ctr(r, Ctr::Scanned) + n <= u64::MAX);
    assert forall|t: int| 0 <= t < ts.tokens@.len() implies #[trigger] r.token_counts@[t] + n <= u64::MAX by { assert(ctr(r, Ctr::Tok(t)) + n <= u64::MAX); }
    assert forall|q: int| 0 <= q < ts.sequences@.len() implies #[trigger] r.seq_counts@[q] + n <= u64::MAX by { assert(ctr(r, Ctr::Sq(q)) + n <= u64::MAX); }
    assert forall|x: int| 0 <= x < ts.tokens@.len() * ts.tokens@.len() implies #[trigger] r.pair_counts@[x] + n <= u64::MAX by { assert(ctr(r, Ctr::Pair(x)) + n <= u64::MAX); }
}
pub proof fn tally_step(ts: &TokenSet, p: Seq<Seq<u8>>, initial: Option<u64>, a: &TokenStats, b: &TokenStats, i: int)
    requires tallied(ts, p.take(i), initial, a), counted(ts, canon(ts, p[i]), p[i].len(), a, b), 0 <= i < p.len()
    ensures tallied(ts, p.take(i + 1), initial, b)
{
    assert forall|c: Ctr| has_ctr(ts, c) implies #[trigger] ctr(b, c) == gains(ts, c, p.take(i + 1)) by {
        gains_take(ts, c, p, i);
        assert(ctr(a, c) == gains(ts, c, p.take(i)));
    }
}
// ---- the samples an iterator still has to give ---------------------------------------
pub open spec fn upto<'a, I: SampleIter<'a>>(m: Option<Sample<'a>>, it: &I, p: Seq<Seq<u8>>, i: int) -> bool {
    it.valid() && match m { Some(s) => 0 <= i < p.len() && s.bytes() == p[i] && it.rest() == p.skip(i + 1), None => i == p.len() }
}
/// the rest after the first of the rest
pub proof fn skip_skip(p: Seq<Seq<u8>>, i: int)
    requires 0 <= i < p.len()
    ensures p.skip(i).drop_first() == p.skip(i + 1), p.skip(i)[0] == p[i]
{
    assert(p.skip(i).drop_first() =~= p.skip(i + 1));
}

// ---- merging ---------------------------------------------------------------------------
pub proof fn merged_ctr(ts: &TokenSet, a: &TokenStats, b: &TokenStats, r: &TokenStats, c: Ctr)
    requires merged(a, b, r), a.shaped(ts), b.shaped(ts), has_ctr(ts, c)
    ensures ctr(r, c) == ctr(a, c) + ctr(b, c)
{
    match c { Ctr::Pair(x) => { assert(a.pair_counts@.len() == ts.tokens@.len() * ts.tokens@.len()); } _ => {} }
}
pub proof fn ctr_mergeable(ts: &TokenSet, a: &TokenStats, b: &TokenStats)
    requires a.shaped(ts), b.shaped(ts), forall|c: Ctr| has_ctr(ts, c) ==> #[trigger] ctr(a, c) + ctr(b, c) <= u64::MAX
    ensures a.mergeable(b)
{
    assert(ctr(a, Ctr::Total) + ctr(b, Ctr::Total) <= u64::MAX);
    assert(ctr(a, Ctr::Scanned) + ctr(b, Ctr::Scanned) <= u64::MAX);
    assert forall|t: int| 0 <= t < ts.tokens@.len() implies #[trigger] a.token_counts@[t] + b.token_counts@[t] <= u64::MAX by { assert(ctr(a, Ctr::Tok(t)) + ctr(b, Ctr::Tok(t)) <= u64::MAX); }
    assert forall|q: int| 0 <= q < ts.sequences@.len() implies #[trigger] a.seq_counts@[q] + b.seq_counts@[q] <= u64::MAX by { assert(ctr(a, Ctr::Sq(q)) + ctr(b, Ctr::Sq(q)) <= u64::MAX); }
    assert forall|x: int| 0 <= x < ts.tokens@.len() * ts.tokens@.len() implies #[trigger] a.pair_counts@[x] + b.pair_counts@[x] <= u64::MAX by { assert(ctr(a, Ctr::Pair(x)) + ctr(b, Ctr::Pair(x)) <= u64::MAX); }
}

// ---- the channels (ASSUMED: std::sync::mpsc, std::thread::scope) -----------------------
/// Every item of `total` went to exactly one share, in order.
pub open spec fn dealt(total: Seq<Seq<u8>>, shares: Seq<Seq<Seq<u8>>>) -> bool decreases total.len() {
    if total.len() == 0 {
        forall|w: int| 0 <= w < shares.len() ==> (#[trigger] shares[w]).len() == 0
    } else {
        exists|w: int| #![trigger shares[w]] 0 <= w < shares.len() && shares[w].len() > 0 && shares[w].last() == total.last()
            && dealt(total.drop_last(), shares.update(w, shares[w].drop_last()))
    }
}
pub ghost struct PoolV {
    /// the jobs that will be sent before the queue is closed
    pub total: Seq<Seq<u8>>,
    /// prophecy: the jobs each worker is going to receive, by order of spawning
    pub shares: Seq<Seq<Seq<u8>>>,
    pub spawned: int,
    pub sent: int,
    pub closed: bool,
    /// results sent and not yet received
    pub pending: Seq<TokenStats>,
}
#[verifier::external_body]
pub struct Pool { x: () }
#[verifier::external_body]
pub struct JobsTx { x: () }
#[verifier::external_body]
pub struct JobsRx { x: () }
#[verifier::external_body]
pub struct ResultsTx { x: () }
#[verifier::external_body]
pub struct ResultsRx { x: () }
pub struct Joined { pub x: () }
#[derive(Debug)]
pub struct ChanError { pub x: () }
impl Joined {
    /// joining gives an error only if the worker panicked, and it is verified not to
    #[verifier::external_body]
    pub fn join(self) -> (r: Result<(), ChanError>) ensures r.is_ok() { unimplemented!() }
}
impl JobsRx {
    pub uninterp spec fn rest(&self) -> Seq<Seq<u8>>;
    pub uninterp spec fn ended(&self) -> bool;
    #[verifier::external_body]
    pub fn clone(&self) -> JobsRx { unimplemented!() }
    /// lock the shared receiver, wait for a job; an error once the queue is closed and empty
    #[verifier::external_body]
    pub fn recv_job<'a>(&mut self) -> (r: Result<Sample<'a>, ChanError>)
        ensures match r {
            Ok(s) => old(self).rest().len() > 0 && s.bytes() == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(),
            Err(_) => old(self).rest().len() == 0 && final(self).rest() == old(self).rest() && final(self).ended(),
        }
    { unimplemented!() }
}
impl ResultsTx {
    pub uninterp spec fn log(&self) -> Seq<TokenStats>;
    #[verifier::external_body]
    pub fn clone(&self) -> ResultsTx { unimplemented!() }
    #[verifier::external_body]
    pub fn send_result(&mut self, s: TokenStats) -> (r: Result<(), ChanError>)
        ensures final(self).log() == old(self).log().push(s), r.is_ok()
    { unimplemented!() }
}
impl Pool {
    pub uninterp spec fn v(&self) -> PoolV;
    #[verifier::external_body]
    pub fn new(total: Ghost<Seq<Seq<u8>>>) -> (r: Pool)
        ensures r.v() == (PoolV { total: total@, shares: r.v().shares, spawned: 0, sent: 0, closed: false, pending: Seq::empty() }),
            dealt(total@, r.v().shares)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn jobs(&self) -> (JobsTx, JobsRx) { unimplemented!() }
    #[verifier::external_body]
    pub fn results(&self) -> (ResultsTx, ResultsRx) { unimplemented!() }
    #[verifier::external_body]
    pub fn take_jobs(&mut self, rx: JobsRx) -> (r: JobsRx)
        requires !old(self).v().closed
        ensures final(self).v() == (PoolV { spawned: old(self).v().spawned + 1, ..old(self).v() }),
            old(self).v().spawned < old(self).v().shares.len(),
            r.rest() == old(self).v().shares[old(self).v().spawned]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take_results(&self, tx: ResultsTx) -> (r: ResultsTx)
        ensures r.log() == Seq::<TokenStats>::empty()
    { unimplemented!() }
    /// The worker has run to its end: it went on until the queue was closed and empty.
    #[verifier::external_body]
    pub fn finish(&mut self, rx: JobsRx, tx: ResultsTx) -> (r: Joined)
        requires rx.ended()
        ensures final(self).v() == (PoolV { pending: old(self).v().pending + tx.log(), ..old(self).v() })
    { unimplemented!() }
    /// Somebody has to be there to receive.
    #[verifier::external_body]
    pub fn send<'a>(&mut self, tx: &JobsTx, s: Sample<'a>) -> (r: Result<(), ChanError>)
        requires !old(self).v().closed, old(self).v().spawned >= 1,
            old(self).v().sent < old(self).v().total.len(), s.bytes() == old(self).v().total[old(self).v().sent]
        ensures final(self).v() == (PoolV { sent: old(self).v().sent + 1, ..old(self).v() }), r.is_ok()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn close(&mut self, tx: JobsTx)
        requires !old(self).v().closed, old(self).v().sent == old(self).v().total.len()
        ensures final(self).v() == (PoolV { closed: true, ..old(self).v() }), old(self).v().spawned == old(self).v().shares.len()
    { unimplemented!() }
    /// Waits for a result: the queue must be closed, or the workers never end, and there must be one to come.
    #[verifier::external_body]
    pub fn recv(&mut self, rx: &ResultsRx) -> (r: Result<TokenStats, ChanError>)
        requires old(self).v().closed, old(self).v().pending.len() > 0
        ensures r.is_ok(), exists|i: int| took(old(self).v(), final(self).v(), i, r->Ok_0)
    { unimplemented!() }
}
pub open spec fn took(a: PoolV, b: PoolV, i: int, r: TokenStats) -> bool {
    0 <= i < a.pending.len() && r == a.pending[i] && b == (PoolV { pending: a.pending.remove(i), ..a })
}
/// what all shares add
pub open spec fn all_gains(ts: &TokenSet, c: Ctr, shares: Seq<Seq<Seq<u8>>>) -> nat decreases shares.len() {
    if shares.len() == 0 { 0 } else { all_gains(ts, c, shares.drop_last()) + gains(ts, c, shares.last()) }
}
pub proof fn all_gains_update(ts: &TokenSet, c: Ctr, shares: Seq<Seq<Seq<u8>>>, w: int, x: Seq<Seq<u8>>)
    requires 0 <= w < shares.len()
    ensures all_gains(ts, c, shares.update(w, x)) + gains(ts, c, shares[w]) == all_gains(ts, c, shares) + gains(ts, c, x)
    decreases shares.len()
{
    let u = shares.update(w, x);
    if w == shares.len() - 1 {
        assert(u.drop_last() =~= shares.drop_last());
    } else {
        assert(u.drop_last() =~= shares.drop_last().update(w, x));
        all_gains_update(ts, c, shares.drop_last(), w, x);
    }
}
pub proof fn all_gains_zero(ts: &TokenSet, c: Ctr, shares: Seq<Seq<Seq<u8>>>)
    requires forall|w: int| 0 <= w < shares.len() ==> (#[trigger] shares[w]).len() == 0
    ensures all_gains(ts, c, shares) == 0
    decreases shares.len()
{
    if shares.len() > 0 {
        assert forall|w: int| 0 <= w < shares.len() - 1 implies (#[trigger] shares.drop_last()[w]).len() == 0 by { assert(shares[w].len() == 0); }
        all_gains_zero(ts, c, shares.drop_last());
        assert(shares.last().len() == 0);
    }
}
pub proof fn all_gains_ge(ts: &TokenSet, c: Ctr, shares: Seq<Seq<Seq<u8>>>, w: int)
    requires 0 <= w < shares.len()
    ensures gains(ts, c, shares[w]) <= all_gains(ts, c, shares)
    decreases shares.len()
{
    if w < shares.len() - 1 { all_gains_ge(ts, c, shares.drop_last(), w); }
}
/// C05: whoever gets which sample, together they add what the samples add.
pub proof fn dealt_gains(ts: &TokenSet, c: Ctr, total: Seq<Seq<u8>>, shares: Seq<Seq<Seq<u8>>>)
    requires dealt(total, shares)
    ensures all_gains(ts, c, shares) == gains(ts, c, total)
    decreases total.len()
{
    if total.len() == 0 {
        all_gains_zero(ts, c, shares);
    } else {
        let w = choose|w: int| #![trigger shares[w]] 0 <= w < shares.len() && shares[w].len() > 0 && shares[w].last() == total.last()
            && dealt(total.drop_last(), shares.update(w, shares[w].drop_last()));
        dealt_gains(ts, c, total.drop_last(), shares.update(w, shares[w].drop_last()));
        all_gains_update(ts, c, shares, w, shares[w].drop_last());
    }
}
pub proof fn dealt_nonempty(total: Seq<Seq<u8>>, shares: Seq<Seq<Seq<u8>>>, v: int, i: int)
    requires dealt(total, shares), forall|i: int| 0 <= i < total.len() ==> (#[trigger] total[i]).len() > 0, 0 <= v < shares.len(), 0 <= i < shares[v].len()
    ensures shares[v][i].len() > 0
    decreases total.len()
{
    if total.len() > 0 {
        let w = choose|w: int| #![trigger shares[w]] 0 <= w < shares.len() && shares[w].len() > 0 && shares[w].last() == total.last()
            && dealt(total.drop_last(), shares.update(w, shares[w].drop_last()));
        let s = shares.update(w, shares[w].drop_last());
        if v == w && i == shares[w].len() - 1 {
            assert(total.last().len() > 0);
        } else {
            let t = total.drop_last();
            assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).len() > 0 by { assert(total[i].len() > 0); }
            assert(s[v][i] == shares[v][i]);
            dealt_nonempty(t, s, v, i);
        }
    }
}
pub proof fn share_countable(ts: &TokenSet, total: Seq<Seq<u8>>, shares: Seq<Seq<Seq<u8>>>, w: int)
    requires dealt(total, shares), countable(ts, total), 0 <= w < shares.len()
    ensures countable(ts, shares[w])
{
    let k = choose|k: nat| #[trigger] fits_u64(ts, total, k);
    dealt_gains(ts, Ctr::Scanned, total, shares);
    all_gains_ge(ts, Ctr::Scanned, shares, w);
    let (a, b) = (gains(ts, Ctr::Scanned, shares[w]), gains(ts, Ctr::Scanned, total));
    assert(a * k <= b * k) by (nonlinear_arith) requires a <= b;
    assert(fits_u64(ts, shares[w], k));
    assert forall|i: int| 0 <= i < shares[w].len() implies (#[trigger] shares[w][i]).len() > 0 by { dealt_nonempty(total, shares, w, i); }
}
/// the results of all workers, one each
pub open spec fn results_of(ts: &TokenSet, v: PoolV, n: int) -> bool {
    &&& v.spawned == n && v.pending.len() == n && n <= v.shares.len()
    &&& forall|w: int| 0 <= w < n ==> tallied(ts, v.shares[w], None, &#[trigger] v.pending[w])
}
pub open spec fn sum_ctr(s: Seq<TokenStats>, c: Ctr) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { sum_ctr(s.drop_last(), c) + ctr(&s.last(), c) }
}
pub proof fn sum_ctr_remove(s: Seq<TokenStats>, c: Ctr, i: int)
    requires 0 <= i < s.len()
    ensures sum_ctr(s, c) == sum_ctr(s.remove(i), c) + ctr(&s[i], c)
    decreases s.len()
{
    if i < s.len() - 1 {
        assert(s.remove(i).drop_last() =~= s.drop_last().remove(i));
        sum_ctr_remove(s.drop_last(), c, i);
    } else {
        assert(s.remove(i) =~= s.drop_last());
    }
}
pub proof fn sum_ctr_pos(s: Seq<TokenStats>, c: Ctr, ts: &TokenSet)
    requires has_ctr(ts, c), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).shaped(ts)
    ensures sum_ctr(s, c) >= 0
    decreases s.len()
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.len() - 1 implies (#[trigger] s.drop_last()[i]).shaped(ts) by { assert(s[i].shaped(ts)); }
        sum_ctr_pos(s.drop_last(), c, ts);
        assert(s.last().shaped(ts));
    }
}
pub proof fn sum_ctr_results(ts: &TokenSet, c: Ctr, shares: Seq<Seq<Seq<u8>>>, s: Seq<TokenStats>)
    requires shares.len() == s.len(), has_ctr(ts, c), forall|w: int| 0 <= w < s.len() ==> tallied(ts, shares[w], None, &#[trigger] s[w])
    ensures sum_ctr(s, c) == all_gains(ts, c, shares)
    decreases s.len()
{
    if s.len() > 0 {
        let (a, b) = (shares.drop_last(), s.drop_last());
        assert forall|w: int| 0 <= w < b.len() implies tallied(ts, a[w], None, &#[trigger] b[w]) by { assert(tallied(ts, shares[w], None, &s[w])); }
        sum_ctr_results(ts, c, a, b);
        assert(tallied(ts, shares.last(), None, &s[s.len() - 1]));
        assert(ctr(&s.last(), c) == gains(ts, c, shares.last()));
    }
}
/// what has been merged and what is still to come make up the whole
pub open spec fn merging(ts: &TokenSet, p: Seq<Seq<u8>>, initial: Option<u64>, stats: &TokenStats, s: Seq<TokenStats>) -> bool {
    &&& stats.token_set == *ts && stats.initial_size == initial && stats.shaped(ts)
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).shaped(ts)
    &&& forall|c: Ctr| has_ctr(ts, c) ==> #[trigger] ctr(stats, c) + sum_ctr(s, c) == gains(ts, c, p)
}
pub proof fn merge_start(ts: &TokenSet, p: Seq<Seq<u8>>, initial: Option<u64>, stats: &TokenStats, v: PoolV)
    requires dealt(p, v.shares), results_of(ts, v, v.shares.len() as int), tallied(ts, p.take(0), initial, stats)
    ensures merging(ts, p, initial, stats, v.pending)
{
    assert forall|c: Ctr| has_ctr(ts, c) implies #[trigger] ctr(stats, c) + sum_ctr(v.pending, c) == gains(ts, c, p) by {
        dealt_gains(ts, c, p, v.shares);
        sum_ctr_results(ts, c, v.shares, v.pending);
        assert(gains(ts, c, p.take(0)) == 0);
    }
    assert forall|i: int| 0 <= i < v.pending.len() implies (#[trigger] v.pending[i]).shaped(ts) by { assert(tallied(ts, v.shares[i], None, &v.pending[i])); }
}
pub proof fn merge_room(ts: &TokenSet, p: Seq<Seq<u8>>, initial: Option<u64>, stats: &TokenStats, s: Seq<TokenStats>, i: int)
    requires merging(ts, p, initial, stats, s), countable(ts, p), 0 <= i < s.len()
    ensures stats.mergeable(&s[i])
{
    let k = choose|k: nat| #[trigger] fits_u64(ts, p, k);
    assert forall|c: Ctr| has_ctr(ts, c) implies #[trigger] ctr(stats, c) + ctr(&s[i], c) <= u64::MAX by {
        sum_ctr_remove(s, c, i);
        sum_ctr_pos(s.remove(i), c, ts);
        gains_bound(ts, c, p, k);
    }
    ctr_mergeable(ts, stats, &s[i]);
}
pub proof fn merge_step(ts: &TokenSet, p: Seq<Seq<u8>>, initial: Option<u64>, a: &TokenStats, s: Seq<TokenStats>, i: int, b: &TokenStats)
    requires merging(ts, p, initial, a, s), 0 <= i < s.len(), merged(a, &s[i], b)
    ensures merging(ts, p, initial, b, s.remove(i))
{
    assert forall|c: Ctr| has_ctr(ts, c) implies #[trigger] ctr(b, c) + sum_ctr(s.remove(i), c) == gains(ts, c, p) by {
        sum_ctr_remove(s, c, i);
        merged_ctr(ts, a, &s[i], b, c);
        assert(ctr(a, c) + sum_ctr(s, c) == gains(ts, c, p));
    }
}
pub proof fn merge_done(ts: &TokenSet, p: Seq<Seq<u8>>, initial: Option<u64>, stats: &TokenStats, s: Seq<TokenStats>)
    requires merging(ts, p, initial, stats, s), s.len() == 0
    ensures tallied(ts, p, initial, stats)
{
    assert forall|c: Ctr| has_ctr(ts, c) implies #[trigger] ctr(stats, c) == gains(ts, c, p) by { assert(ctr(stats, c) + sum_ctr(s, c) == gains(ts, c, p)); }
}

@fn tokenize_file_sync -> r
@props C05 C15 C14 C18
@customiter sampler
@spec
requires countable(token_set, sampler.parts()), sampler.valid()
ensures tallied(token_set, sampler.parts(), initial_size, &r)
@start
let ghost __p = sampler.parts();
let ghost mut __i: int = 0;
let ghost __k = choose|k: nat| #[trigger] fits_u64(token_set, __p, k);
proof {
    assert forall|i: int| 0 <= i < __p.len() implies (#[trigger] __p.skip(i)).drop_first() == __p.skip(i + 1) && __p.skip(i)[0] == __p[i] by { skip_skip(__p, i); }
    assert(__p.skip(0) =~= __p);
}
@loop 0 before
proof { tallied_none(token_set, __p, initial_size, &stats); }
@loop 0
    upto(__m0, &__it0, __p, __i),
    tallied(token_set, __p.take(__i), initial_size, &stats),
    tokenizer.ok(), tokenizer.token_set == *token_set,
decreases __p.len() - __i
@loop 0 start
let ghost __a = stats;
proof { tally_room(token_set, __p, initial_size, &stats, __i, __k); }
@loop 0 end
proof {
    tally_step(token_set, __p, initial_size, &__a, &stats, __i);
    __i = __i + 1;
}
@loop 0 after
assert(__p.take(__i) =~= __p);

@fn worker
@props C05 C15 C14 C18
@sig pub fn worker(tokenizer: &FragmentTokenizer, jobs_rx: &mut JobsRx, results_tx: &mut ResultsTx)
@rw __r.lock().unwrap().recv() => __r.recv_job()
@rw results_tx.send(__s) => results_tx.send_result(__s)
@spec
requires tokenizer.ok(), countable(&tokenizer.token_set, old(jobs_rx).rest())
ensures final(jobs_rx).ended(),
    final(results_tx).log().len() == old(results_tx).log().len() + 1,
    final(results_tx).log() == old(results_tx).log().push(final(results_tx).log().last()),
    tallied(&tokenizer.token_set, old(jobs_rx).rest(), None, &final(results_tx).log().last()),
@start
let ghost __p = jobs_rx.rest();
let ghost __ts = &tokenizer.token_set;
let ghost mut __i: int = 0;
let ghost __k = choose|k: nat| #[trigger] fits_u64(__ts, __p, k);
proof {
    assert forall|i: int| 0 <= i < __p.len() implies (#[trigger] __p.skip(i)).drop_first() == __p.skip(i + 1) && __p.skip(i)[0] == __p[i] && __p.skip(i).len() == __p.len() - i by { skip_skip(__p, i); }
    assert(__p.skip(0) =~= __p);
    assert(__p.skip(__p.len() as int).len() == 0);
    assert(__p.take(__p.len() as int) =~= __p);
    assert forall|r: TokenStats| #![trigger r.shaped(__ts), r.zero()] r.token_set == *__ts && r.shaped(__ts) && r.zero() && r.initial_size is None implies tallied(__ts, __p.take(0), None, &r) by { tallied_none(__ts, __p, None, &r); }
}
@loop 0
invariant_except_break
    !jobs_rx.ended() || true,
invariant
    0 <= __i <= __p.len(), jobs_rx.rest() == __p.skip(__i),
    tallied(__ts, __p.take(__i), None, &stats),
ensures
    __i == __p.len(), jobs_rx.ended(),
decreases __p.len() - __i
@loop 0 start
let ghost __a = stats;
proof {
    if __i < __p.len() { tally_room(__ts, __p, None, &stats, __i, __k); }
}
@loop 0 end
proof {
    tally_step(__ts, __p, None, &__a, &stats, __i);
    __i = __i + 1;
}

@fn tokenize_file -> r
@props C05 C15 C14 C18
@customiter sampler
@rw std::thread::available_parallelism().unwrap().get() => crate::vx::nthreads()
@rw mpsc::sync_channel::<Sample>(__n) => __pool.jobs()
@rw mpsc::channel::<TokenStats>() => __pool.results()
@rw Arc::new(Mutex::new(__a)) => __a
@rw std::thread::scope(|s| __body) => __body
@rw s.spawn(|| worker(__a, __b, __c)) => { let mut __rx = __pool.take_jobs(__b); let mut __tx = __pool.take_results(__c); worker(__a, &mut __rx, &mut __tx); __pool.finish(__rx, __tx) }
@rw jobs_tx.send(__s) => __pool.send(&jobs_tx, __s)
@rw drop(jobs_tx) => __pool.close(jobs_tx)
@rw results_rx.recv() => __pool.recv(&results_rx)
@spec
requires countable(token_set, sampler.parts()), sampler.valid()
ensures tallied(token_set, sampler.parts(), initial_size, &r)
@start
let mut __pool = Pool::new(Ghost(sampler.parts()));
let ghost __p = sampler.parts();
let ghost __sh = __pool.v().shares;
let ghost mut __i: int = 0;
proof {
    assert forall|i: int| 0 <= i < __p.len() implies (#[trigger] __p.skip(i)).drop_first() == __p.skip(i + 1) && __p.skip(i)[0] == __p[i] by { skip_skip(__p, i); }
    assert(__p.skip(0) =~= __p);
    assert forall|w: int| 0 <= w < __sh.len() implies countable(token_set, #[trigger] __sh[w]) by { share_countable(token_set, __p, __sh, w); }
}
@type join_handles Vec<Joined>
@loop 0 before
proof { tallied_none(token_set, __p, initial_size, &stats); }
@loop 0
    __pool.v().shares == __sh, __pool.v().total == __p, __pool.v().sent == 0, !__pool.v().closed,
    results_of(token_set, __pool.v(), __d0),
    tokenizer.ok(), tokenizer.token_set == *token_set,
@loop 1
    upto(__m1, &__it1, __p, __i),
    __pool.v().shares == __sh, __pool.v().total == __p, __pool.v().sent == __i, !__pool.v().closed,
    results_of(token_set, __pool.v(), nthreads as int),
decreases __p.len() - __i
@loop 1 end
proof { __i = __i + 1; }
@loop 2 before
proof { merge_start(token_set, __p, initial_size, &stats, __pool.v()); }
@loop 2
    __pool.v().closed, __pool.v().pending.len() == nthreads - __d2,
    merging(token_set, __p, initial_size, &stats, __pool.v().pending),
@loop 2 start
let ghost __v0 = __pool.v();
let ghost __a = stats;
proof {
    assert forall|i: int| 0 <= i < __v0.pending.len() implies stats.mergeable(&#[trigger] __v0.pending[i]) by { merge_room(token_set, __p, initial_size, &stats, __v0.pending, i); }
}
@loop 2 end
proof {
    let i = choose|i: int| took(__v0, __pool.v(), i, result);
    merge_step(token_set, __p, initial_size, &__a, __v0.pending, i, &stats);
}
@loop 2 after
proof { merge_done(token_set, __p, initial_size, &stats, __pool.v().pending); }
@loop 3
    true,
decreases join_handles@.len()
