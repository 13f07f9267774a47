@module
@rw __a.cmp(__b) => __a.vx_cmp(__b)
@rw __a.sort_by_key(__f) => crate::vx::sort_by_key(&mut __a, __f)
@rw __a.sort_unstable_by_key(__f) => crate::vx::sort_unstable_by_key(&mut __a, __f)
@rw __a.tokens.sort() => crate::vx::sort(&mut __a.tokens)
@rw __a.sequences.sort() => crate::vx::sort(&mut __a.sequences)
@module processing
@prelude
@module tokenset
@prelude
use crate::vx::*;
use core::cmp::Ordering;
use super::processing::Processing;

/// The meaning of a token, independent of its index.
pub enum TokV { Str(Seq<u8>), Ext(u8) }

impl Token {
    pub open spec fn v(&self) -> TokV {
        match *self { Token::Str(s) => TokV::Str(s@), Token::Ext(x) => TokV::Ext(x) }
    }
}
pub open spec fn tok_cmp(a: TokV, b: TokV) -> Ordering {
    match (a, b) {
        (TokV::Ext(x), TokV::Ext(y)) => int_cmp(x as int, y as int),
        (TokV::Ext(_), TokV::Str(_)) => Ordering::Less,
        (TokV::Str(_), TokV::Ext(_)) => Ordering::Greater,
        (TokV::Str(x), TokV::Str(y)) => seq_cmp(x, y),
    }
}
pub proof fn tok_cmp_flip(a: TokV, b: TokV)
    ensures (tok_cmp(a, b) == Ordering::Less) == (tok_cmp(b, a) == Ordering::Greater),
        (tok_cmp(a, b) == Ordering::Greater) == (tok_cmp(b, a) == Ordering::Less),
{
    match (a, b) { (TokV::Str(x), TokV::Str(y)) => { seq_cmp_flip(x, y); } _ => {} }
}
impl VOrd for Token {
    open spec fn vcmp(&self, o: &Token) -> Ordering { tok_cmp(self.v(), o.v()) }
    fn vx_cmp(&self, o: &Token) -> (r: Ordering) { self.cmp(o) }
}
impl VOrd for Sequence {
    open spec fn vcmp(&self, o: &Sequence) -> Ordering { seq_cmp(self.string@, o.string@) }
    fn vx_cmp(&self, o: &Sequence) -> (r: Ordering) { self.cmp(o) }
}
impl VEq<Token> for Token {
    open spec fn veq(&self, o: &Token) -> bool { self.v() == o.v() }
    #[verifier::external_body]
    fn vx_eq(&self, o: &Token) -> (r: bool) { unimplemented!() }
}

/// A fallback sequence as the tokens it spells.
pub struct SpellV { pub string: Seq<u8>, pub toks: Seq<TokV> }

impl Sequence {
    pub open spec fn idx_below(&self, n: int) -> bool {
        forall|j: int| 0 <= j < self.tokens@.len() ==> #[trigger] self.tokens@[j] < n
    }
}
pub open spec fn spell(toks: Seq<TokV>, s: Sequence) -> SpellV {
    SpellV { string: s.string@, toks: s.tokens@.map_values(|k: usize| toks[k as int]) }
}
pub open spec fn toks_v(tokens: Seq<Token>) -> Seq<TokV> { tokens.map_values(|t: Token| t.v()) }
pub open spec fn spelled_v(toks: Seq<TokV>, seqs: Seq<Sequence>) -> Seq<SpellV> {
    seqs.map_values(|s: Sequence| spell(toks, s))
}

impl TokenSet {
    pub open spec fn toks(&self) -> Seq<TokV> { toks_v(self.tokens@) }
    pub open spec fn spelled(&self) -> Seq<SpellV> { spelled_v(self.toks(), self.sequences@) }
    /// Every sequence refers to existing tokens.
    pub open spec fn wf(&self) -> bool {
        forall|i: int| 0 <= i < self.sequences@.len() ==> (#[trigger] self.sequences@[i]).idx_below(self.tokens@.len() as int)
    }
    pub open spec fn same_header(&self, o: &TokenSet) -> bool {
        &&& self.n_ext_tokens == o.n_ext_tokens
        &&& self.token_type == o.token_type
        &&& self.processing == o.processing
        &&& self.split_paragraphs == o.split_paragraphs
    }
}

// ---- C08: digits ---------------------------------------------------------------
/// n base-b digits of c, most significant first
pub open spec fn dig(c: int, b: int, n: nat) -> Seq<int>
    decreases n
{
    if n == 0 { Seq::empty() } else { dig(c / b, b, (n - 1) as nat).push(c % b) }
}
pub open spec fn is_digits(t: Seq<usize>, c: int, b: int, n: nat) -> bool {
    t.len() == n && forall|j: int| 0 <= j < n ==> #[trigger] t[j] as int == dig(c, b, n)[j]
}
pub proof fn digits_len(c: int, b: int, n: nat)
    ensures dig(c, b, n).len() == n
    decreases n
{
    if n > 0 { digits_len(c / b, b, (n - 1) as nat); }
}
pub open spec fn ipow(b: int, n: nat) -> int decreases n { if n == 0 { 1 } else { b * ipow(b, (n - 1) as nat) } }
pub proof fn digits_inj(c: int, d: int, b: int, n: nat)
    requires b > 1, 0 <= c < ipow(b, n), 0 <= d < ipow(b, n), dig(c, b, n) == dig(d, b, n)
    ensures c == d
    decreases n
{
    if n > 0 {
        let m = (n - 1) as nat;
        digits_len(c / b, b, m);
        digits_len(d / b, b, m);
        let x = dig(c / b, b, m);
        let y = dig(d / b, b, m);
        assert(x.push(c % b)[m as int] == y.push(d % b)[m as int]);
        assert(x =~= y) by {
            assert forall|i: int| 0 <= i < m implies x[i] == y[i] by {
                assert(x.push(c % b)[i] == x[i]);
                assert(y.push(d % b)[i] == y[i]);
            }
        }
        assert(0 <= c / b < ipow(b, m)) by (nonlinear_arith) requires b > 1, 0 <= c < b * ipow(b, m);
        assert(0 <= d / b < ipow(b, m)) by (nonlinear_arith) requires b > 1, 0 <= d < b * ipow(b, m);
        digits_inj(c / b, d / b, b, m);
        assert(c == b * (c / b) + c % b) by (nonlinear_arith) requires b > 1;
        assert(d == b * (d / b) + d % b) by (nonlinear_arith) requires b > 1;
    }
}
/// bits collected least significant first, `rem` still to be taken apart
pub open spec fn digits_part(c: int, b: int, n: nat, bits: Seq<usize>, rem: int) -> bool {
    &&& bits.len() <= n
    &&& dig(c, b, n) == dig(rem, b, (n - bits.len()) as nat) + bits.map_values(|x: usize| x as int).reverse()
}
pub proof fn digits_step(c: int, b: int, n: nat, bits: Seq<usize>, rem: int, d: usize)
    requires digits_part(c, b, n, bits, rem), bits.len() < n, d as int == rem % b
    ensures digits_part(c, b, n, bits.push(d), rem / b)
{
    let f = |x: usize| x as int;
    let m = (n - bits.len() - 1) as nat;
    digits_len(rem / b, b, m);
    assert(dig(rem, b, m + 1) == dig(rem / b, b, m).push(rem % b));
    assert(dig(rem / b, b, m).push(rem % b) + bits.map_values(f).reverse()
        =~= dig(rem / b, b, m) + bits.push(d).map_values(f).reverse());
}
pub proof fn digits_done(c: int, b: int, n: nat, bits: Seq<usize>, rem: int)
    requires digits_part(c, b, n, bits, rem), bits.len() == n
    ensures is_digits(bits.reverse(), c, b, n)
{
    let f = |x: usize| x as int;
    assert(dig(rem, b, 0) =~= Seq::<int>::empty());
    assert(dig(c, b, n) =~= bits.map_values(f).reverse());
}
pub open spec fn ext_toks(n: nat) -> Seq<TokV> { Seq::new(n, |i: int| TokV::Ext(i as u8)) }
/// A base-b set: extension tokens 0..b, one n-digit sequence for each byte.
pub open spec fn builtin_bits(ts: &TokenSet, b: nat, n: nat) -> bool {
    &&& ts.n_ext_tokens == b
    &&& ts.toks() == ext_toks(b)
    &&& ts.sequences@.len() == 256
    &&& forall|c: int| 0 <= c < 256 ==> (#[trigger] ts.sequences@[c]).string@ == seq![c as u8]
    &&& forall|c: int| 0 <= c < 256 ==> is_digits((#[trigger] ts.sequences@[c]).tokens@, c, b as int, n)
}
/// C08: distinct bytes have distinct encodings, and every digit is an existing token.
pub proof fn c08_encodings_distinct(ts: &TokenSet, b: nat, n: nat, c: int, d: int)
    requires builtin_bits(ts, b, n), b > 1, ipow(b as int, n) == 256, 0 <= c < 256, 0 <= d < 256, c != d
    ensures ts.sequences@[c].tokens@ != ts.sequences@[d].tokens@, ts.sequences@[c].string@ != ts.sequences@[d].string@
{
    if ts.sequences@[c].tokens@ == ts.sequences@[d].tokens@ {
        digits_len(c, b as int, n);
        digits_len(d, b as int, n);
        assert(dig(c, b as int, n) =~= dig(d, b as int, n)) by {
            assert forall|j: int| 0 <= j < n implies dig(c, b as int, n)[j] == dig(d, b as int, n)[j] by {
                assert(ts.sequences@[c].tokens@[j] as int == dig(c, b as int, n)[j]);
                assert(ts.sequences@[d].tokens@[j] as int == dig(d, b as int, n)[j]);
            }
        }
        digits_inj(c, d, b as int, n);
    }
    assert(ts.sequences@[c].string@[0] == c as u8);
    assert(ts.sequences@[d].string@[0] == d as u8);
}
pub proof fn digits_bound(c: int, b: int, n: nat, j: int)
    requires 0 <= c, b > 1, 0 <= j < n
    ensures 0 <= dig(c, b, n)[j] < b
    decreases n
{
    let m = (n - 1) as nat;
    digits_len(c / b, b, m);
    assert(0 <= c % b < b) by (nonlinear_arith) requires b > 1;
    assert(c / b >= 0) by (nonlinear_arith) requires b > 1, c >= 0;
    if j < m { digits_bound(c / b, b, m, j); }
}
pub proof fn c08_wf(ts: &TokenSet, b: nat, n: nat)
    requires builtin_bits(ts, b, n), b > 1
    ensures ts.wf()
{
    assert forall|c: int| 0 <= c < ts.sequences@.len() implies (#[trigger] ts.sequences@[c]).idx_below(ts.tokens@.len() as int) by {
        assert(ts.toks().len() == b);
        assert forall|j: int| 0 <= j < ts.sequences@[c].tokens@.len() implies #[trigger] ts.sequences@[c].tokens@[j] < b by {
            digits_bound(c, b as int, n, j);
        }
    }
}

// ---- sorting ---------------------------------------------------------------------
pub proof fn tok_cmp_trans(a: TokV, b: TokV, c: TokV)
    requires tok_cmp(a, b) != Ordering::Greater, tok_cmp(b, c) != Ordering::Greater
    ensures tok_cmp(a, c) != Ordering::Greater
{
    match (a, b, c) { (TokV::Str(x), TokV::Str(y), TokV::Str(z)) => { seq_cmp_trans(x, y, z); } _ => {} }
}
pub open spec fn lists_sorted(v: Seq<TokV>, p: Seq<int>) -> bool {
    forall|i: int, j: int| 0 <= i < j < v.len() ==> tok_cmp(v[#[trigger] p[i]], v[#[trigger] p[j]]) != Ordering::Greater
}
/// Two sorted orders of the same tokens have equal tokens at each position.
pub proof fn sorted_not_less(v: Seq<TokV>, p: Seq<int>, q: Seq<int>, i: int)
    requires is_perm(p, v.len() as int), is_perm(q, v.len() as int), 0 <= i < v.len(), lists_sorted(v, p), lists_sorted(v, q)
    ensures tok_cmp(v[p[i]], v[q[i]]) != Ordering::Less
{
    if tok_cmp(v[p[i]], v[q[i]]) == Ordering::Less {
        tok_cmp_flip(v[p[i]], v[q[i]]);
        let (a, b) = (p.take(i + 1), q.take(i));
        assert(a.no_duplicates()) by { assert forall|x: int, y: int| 0 <= x < a.len() && 0 <= y < a.len() && x != y implies a[x] != a[y] by { assert(p[x] != p[y]); } }
        assert(b.no_duplicates()) by { assert forall|x: int, y: int| 0 <= x < b.len() && 0 <= y < b.len() && x != y implies b[x] != b[y] by { assert(q[x] != q[y]); } }
        a.unique_seq_to_set();
        b.unique_seq_to_set();
        assert forall|x: int| #[trigger] a.to_set().contains(x) implies b.to_set().contains(x) by {
            let k = choose|k: int| 0 <= k < a.len() && a[k] == x;
            assert(p[k] == x && q.contains(p[k]));
            let j = choose|j: int| 0 <= j < q.len() && q[j] == x;
            if j < i { assert(b[j] == x); }
            else {
                tok_cmp_flip(v[p[i]], v[p[i]]);
                tok_cmp_flip(v[q[i]], v[q[i]]);
                assert(tok_cmp(v[p[k]], v[p[i]]) != Ordering::Greater);
                assert(tok_cmp(v[q[i]], v[q[j]]) != Ordering::Greater);
                tok_cmp_trans(v[q[i]], v[x], v[p[i]]);
            }
        }
        vstd::set_lib::lemma_len_subset(a.to_set(), b.to_set());
    }
}
pub proof fn sorted_same(v: Seq<TokV>, p: Seq<int>, q: Seq<int>, i: int)
    requires is_perm(p, v.len() as int), is_perm(q, v.len() as int), 0 <= i < v.len(), lists_sorted(v, p), lists_sorted(v, q)
    ensures v[p[i]] == v[q[i]]
{
    sorted_not_less(v, p, q, i);
    sorted_not_less(v, q, p, i);
    tok_cmp_flip(v[p[i]], v[q[i]]);
    match (v[p[i]], v[q[i]]) { (TokV::Str(x), TokV::Str(y)) => { seq_cmp_eq(x, y); } _ => {} }
}
pub open spec fn sorted_by_string(s: Seq<Sequence>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> seq_cmp((#[trigger] s[i]).string@, (#[trigger] s[j]).string@) != Ordering::Greater
}
pub open spec fn sorted_toks(s: Seq<TokV>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> tok_cmp(#[trigger] s[i], #[trigger] s[j]) != Ordering::Greater
}
/// the order of `new_s` is a reordering of `old_s`
pub open spec fn reordered<T>(old_s: Seq<T>, new_s: Seq<T>) -> bool {
    exists|p: Seq<int>| #[trigger] permuted(old_s, new_s, p)
}
/// `b` is `a` in sorted order
pub open spec fn sorted_of(a: &TokenSet, b: &TokenSet) -> bool {
    &&& b.same_header(a) && b.wf()
    &&& reordered(a.toks(), b.toks()) && sorted_toks(b.toks())
    &&& reordered(a.spelled(), b.spelled()) && sorted_by_string(b.sequences@)
}
pub open spec fn min_ext(t: TokenType) -> usize {
    match t {
        TokenType::Bits1 => 2,
        TokenType::Bits2 => 4,
        TokenType::Bits4 => 16,
        TokenType::Bytes => 256,
        TokenType::BytesHuff => 3,
    }
}
pub open spec fn is_long(t: TokV) -> bool { match t { TokV::Str(s) => s.len() > 1, _ => false } }
pub open spec fn n_long(s: Seq<TokV>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { n_long(s.drop_last()) + if is_long(s.last()) { 1int } else { 0 } }
}
pub proof fn n_long_step(s: Seq<TokV>, i: int)
    requires 0 <= i < s.len()
    ensures n_long(s.take(i + 1)) == n_long(s.take(i)) + if is_long(s[i]) { 1int } else { 0 }
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
}
pub proof fn filter_step<T>(s: Seq<T>, i: int, f: spec_fn(T) -> bool)
    requires 0 <= i < s.len()
    ensures s.take(i + 1).filter(f) == if f(s[i]) { s.take(i).filter(f).push(s[i]) } else { s.take(i).filter(f) }
{
    reveal(Seq::filter);
    assert(s.take(i + 1).drop_last() =~= s.take(i));
}
pub open spec fn swap_removed<T>(s: Seq<T>, i: int) -> Seq<T> {
    if i == s.len() - 1 { s.drop_last() } else { s.drop_last().update(i, s.last()) }
}
/// `idxs` lists the old positions in sorted order, `ni` is its inverse.
pub open spec fn inverse_of(ni: Seq<usize>, idxs: Seq<usize>, n: int) -> bool {
    &&& ni.len() == n && idxs.len() == n
    &&& forall|k: int| 0 <= k < n ==> 0 <= #[trigger] ni[k] < n && idxs[ni[k] as int] == k
}
pub proof fn sort_same_order(old_t: Seq<Token>, new_t: Seq<Token>, idxs0: Seq<usize>, idxs: Seq<usize>, ks: Seq<&Token>, p: Seq<int>, q: Seq<int>)
    requires
        idxs0.len() == old_t.len(), forall|i: int| 0 <= i < idxs0.len() ==> #[trigger] idxs0[i] == i,
        sort_result(idxs0, idxs, ks, p),
        forall|i: int| 0 <= i < old_t.len() ==> *(#[trigger] ks[i]) == old_t[i],
        sort_result(old_t, new_t, old_t, q),
    ensures forall|i: int| 0 <= i < old_t.len() ==> (#[trigger] new_t[i]).v() == old_t[idxs[i] as int].v() && idxs[i] < old_t.len()
{
    let n = old_t.len() as int;
    let v = toks_v(old_t);
    assert forall|i: int, j: int| 0 <= i < j < n implies tok_cmp(v[#[trigger] p[i]], v[#[trigger] p[j]]) != Ordering::Greater by {
        assert(ks[p[i]].vcmp(&ks[p[j]]) == tok_cmp(old_t[p[i]].v(), old_t[p[j]].v()));
    }
    assert forall|i: int, j: int| 0 <= i < j < n implies tok_cmp(v[#[trigger] q[i]], v[#[trigger] q[j]]) != Ordering::Greater by {
        assert(old_t[q[i]].vcmp(&old_t[q[j]]) == tok_cmp(old_t[q[i]].v(), old_t[q[j]].v()));
    }
    assert forall|i: int| 0 <= i < n implies (#[trigger] new_t[i]).v() == old_t[idxs[i] as int].v() && idxs[i] < n by {
        sorted_same(v, p, q, i);
        assert(idxs[i] == idxs0[p[i]]);
        assert(new_t[i] == old_t[q[i]]);
    }
}
pub open spec fn renumbering(ot: Seq<Token>, nt: Seq<Token>, idxs: Seq<usize>, ni: Seq<usize>) -> bool {
    &&& nt.len() == ot.len() && idxs.len() == ot.len() && ni.len() == ot.len()
    &&& forall|i: int| 0 <= i < ot.len() ==> (#[trigger] nt[i]).v() == ot[idxs[i] as int].v() && idxs[i] < ot.len()
    &&& forall|k: int| 0 <= k < ot.len() ==> 0 <= #[trigger] ni[k] < ot.len() && idxs[ni[k] as int] == k
}
pub proof fn sort_finish(ot: Seq<Token>, nt: Seq<Token>, idxs: Seq<usize>, ni: Seq<usize>, q: Seq<int>, o: Seq<Sequence>, mid: Seq<Sequence>, fin: Seq<Sequence>, r: Seq<int>)
    requires
        sort_result(ot, nt, ot, q), sort_result(mid, fin, mid, r), mid.len() == o.len(),
        renumbering(ot, nt, idxs, ni),
        forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]).idx_below(ot.len() as int),
        forall|i: int| 0 <= i < o.len() ==> (#[trigger] mid[i]).string@ == o[i].string@,
        forall|i: int| 0 <= i < o.len() ==> (#[trigger] mid[i]).tokens@ == renumbered(o[i].tokens@, ni),
    ensures
        reordered(toks_v(ot), toks_v(nt)), sorted_toks(toks_v(nt)),
        forall|i: int| 0 <= i < o.len() ==> (#[trigger] fin[i]).idx_below(nt.len() as int),
        reordered(spelled_v(toks_v(ot), o), spelled_v(toks_v(nt), fin)), sorted_by_string(fin),
{
    let n = ot.len() as int;
    let (a, b) = (toks_v(ot), toks_v(nt));
    assert forall|i: int| 0 <= i < n implies #[trigger] b[i] == a[q[i]] by {}
    assert(permuted(a, b, q));
    assert forall|i: int, j: int| 0 <= i < j < n implies tok_cmp(#[trigger] b[i], #[trigger] b[j]) != Ordering::Greater by {
        assert(ot[q[i]].vcmp(&ot[q[j]]) != Ordering::Greater);
    }
    assert forall|i: int| 0 <= i < o.len() implies (#[trigger] mid[i]).idx_below(n) && spell(b, mid[i]) == spell(a, o[i]) by {
        sort_spell(ot, nt, idxs, ni, o[i], mid[i]);
    }
    assert forall|i: int| 0 <= i < o.len() implies (#[trigger] fin[i]).idx_below(n) && spell(b, fin[i]) == spell(a, o[r[i]]) by {
        assert(fin[i] == mid[r[i]]);
    }
    assert(permuted(spelled_v(a, o), spelled_v(b, fin), r));
    assert forall|i: int, j: int| 0 <= i < j < o.len() implies seq_cmp((#[trigger] fin[i]).string@, (#[trigger] fin[j]).string@) != Ordering::Greater by {
        assert(mid[r[i]].vcmp(&mid[r[j]]) != Ordering::Greater);
    }
}
pub proof fn sort_spell(ot: Seq<Token>, nt: Seq<Token>, idxs: Seq<usize>, ni: Seq<usize>, o: Sequence, s: Sequence)
    requires
        nt.len() == ot.len(),
        renumbering(ot, nt, idxs, ni),
        o.idx_below(ot.len() as int), s.string@ == o.string@, s.tokens@ == renumbered(o.tokens@, ni),
    ensures s.idx_below(nt.len() as int), spell(toks_v(nt), s) == spell(toks_v(ot), o)
{
    assert forall|j: int| 0 <= j < s.tokens@.len() implies #[trigger] s.tokens@[j] < nt.len()
        && toks_v(nt)[s.tokens@[j] as int] == toks_v(ot)[o.tokens@[j] as int] by {
        assert(o.tokens@[j] < ot.len());
        let k = o.tokens@[j] as int;
        assert(s.tokens@[j] == ni[k]);
        assert(nt[ni[k] as int].v() == ot[idxs[ni[k] as int] as int].v());
    }
    assert(spell(toks_v(nt), s).toks =~= spell(toks_v(ot), o).toks);
}
pub open spec fn renumbered(s: Seq<usize>, ni: Seq<usize>) -> Seq<usize> {
    s.map_values(|k: usize| ni[k as int])
}
pub open spec fn remap(s: Seq<usize>, last: usize, idx: usize) -> Seq<usize> {
    s.map_values(|k: usize| if k == last { idx } else { k })
}
pub open spec fn keeps(string: Seq<u8>) -> spec_fn(Sequence) -> bool { |s: Sequence| s.string@ != string }

@fn Token::cmp -> r
@props C09 C10
@spec
ensures r == tok_cmp(self.v(), other.v())

@fn Sequence::cmp -> r
@props C09 C10
@spec
ensures r == seq_cmp(self.string@, other.string@)

@fn TokenSet::new -> r
@props C08 C10 C11 C12 C14
@spec
requires n_ext_tokens < 256
ensures
    r.n_ext_tokens == n_ext_tokens, r.token_type == token_type, r.processing == processing,
    r.split_paragraphs == split_paragraphs, r.toks() == ext_toks(n_ext_tokens as nat), r.sequences@.len() == 0,
@type __acc0 Vec<Token>
@loop 0
    n_ext_tokens < 256,
    __acc0@.len() == __d0,
    forall|j: int| 0 <= j < __d0 ==> (#[trigger] __acc0@[j]).v() == TokV::Ext(j as u8),
@end
assert(__ret.toks() =~= ext_toks(n_ext_tokens as nat));

@fn TokenSet::add_sequence
@props C08 C11 C10 C14 C12
@spec
ensures
    final(self).same_header(old(self)), final(self).tokens@ == old(self).tokens@,
    final(self).sequences@.len() == old(self).sequences@.len() + 1,
    final(self).sequences@.drop_last() == old(self).sequences@,
    final(self).sequences@.last().string@ == string@, final(self).sequences@.last().tokens@ == tokens@,
@end
assert(self.sequences@.drop_last() =~= old(self).sequences@);

@fn TokenSet::new_bits1 -> r
@props C08 C10 C12 C18
@spec
ensures builtin_bits(&r, 2, 8), r.token_type == TokenType::Bits1, r.processing == processing, r.split_paragraphs == split_paragraphs, r.wf()
@loop 0
    token_set.n_ext_tokens == 2, token_set.token_type == TokenType::Bits1, token_set.processing == processing,
    token_set.split_paragraphs == split_paragraphs, token_set.toks() == ext_toks(2),
    token_set.sequences@.len() == __d0,
    forall|c: int| 0 <= c < __d0 ==> (#[trigger] token_set.sequences@[c]).string@ == seq![c as u8],
    forall|c: int| 0 <= c < __d0 ==> is_digits((#[trigger] token_set.sequences@[c]).tokens@, c, 2, 8),
@loop 0 start
let ghost __old = token_set;
@loop 0 end
proof {
    assert forall|x: int| 0 <= x < c implies token_set.sequences@[x] == __old.sequences@[x] by {
        assert(token_set.sequences@.drop_last()[x] == token_set.sequences@[x]);
    }
    assert(token_set.sequences@[c as int].string@ =~= seq![c as u8]);
}
@type bits Vec<usize>
@loop 1
    c < 256, bits@.len() == __d1, digits_part(c as int, 2, 8, bits@, rem as int),
@loop 1 before
proof {
    assert(Seq::<usize>::empty().map_values(|x: usize| x as int).reverse() =~= Seq::<int>::empty());
    assert(dig(c as int, 2, 8) + Seq::<int>::empty() =~= dig(c as int, 2, 8));
}
@loop 1 start
let ghost __r = rem;
let ghost __b = bits@;
@loop 1 end
proof {
    assert((__r & 1) == __r % 2) by (bit_vector);
    assert((__r >> 1) == __r / 2) by (bit_vector);
    digits_step(c as int, 2, 8, __b, __r as int, (__r % 2) as usize);
}
@loop 1 after
proof { digits_done(c as int, 2, 8, bits@, rem as int); }
@end
proof { c08_wf(&__ret, 2, 8); }

@fn TokenSet::new_bits2 -> r
@props C08 C10 C12 C18
@spec
ensures builtin_bits(&r, 4, 4), r.token_type == TokenType::Bits2, r.processing == processing, r.split_paragraphs == split_paragraphs, r.wf()
@loop 0
    token_set.n_ext_tokens == 4, token_set.token_type == TokenType::Bits2, token_set.processing == processing,
    token_set.split_paragraphs == split_paragraphs, token_set.toks() == ext_toks(4),
    token_set.sequences@.len() == __d0,
    forall|c: int| 0 <= c < __d0 ==> (#[trigger] token_set.sequences@[c]).string@ == seq![c as u8],
    forall|c: int| 0 <= c < __d0 ==> is_digits((#[trigger] token_set.sequences@[c]).tokens@, c, 4, 4),
@loop 0 start
let ghost __old = token_set;
@loop 0 end
proof {
    assert forall|x: int| 0 <= x < c implies token_set.sequences@[x] == __old.sequences@[x] by {
        assert(token_set.sequences@.drop_last()[x] == token_set.sequences@[x]);
    }
    assert(token_set.sequences@[c as int].string@ =~= seq![c as u8]);
}
@type digits Vec<usize>
@loop 1
    c < 256, digits@.len() == __d1, digits_part(c as int, 4, 4, digits@, rem as int),
@loop 1 before
proof {
    assert(Seq::<usize>::empty().map_values(|x: usize| x as int).reverse() =~= Seq::<int>::empty());
    assert(dig(c as int, 4, 4) + Seq::<int>::empty() =~= dig(c as int, 4, 4));
}
@loop 1 start
let ghost __r = rem;
let ghost __b = digits@;
@loop 1 end
proof {
    assert((__r & 3) == __r % 4) by (bit_vector);
    assert((__r >> 2) == __r / 4) by (bit_vector);
    digits_step(c as int, 4, 4, __b, __r as int, (__r % 4) as usize);
}
@loop 1 after
proof { digits_done(c as int, 4, 4, digits@, rem as int); }
@end
proof { c08_wf(&__ret, 4, 4); }

@fn TokenSet::new_bits4 -> r
@props C08 C10 C12 C18
@spec
ensures builtin_bits(&r, 16, 2), r.token_type == TokenType::Bits4, r.processing == processing, r.split_paragraphs == split_paragraphs, r.wf()
@loop 0
    token_set.n_ext_tokens == 16, token_set.token_type == TokenType::Bits4, token_set.processing == processing,
    token_set.split_paragraphs == split_paragraphs, token_set.toks() == ext_toks(16),
    token_set.sequences@.len() == __d0,
    forall|c: int| 0 <= c < __d0 ==> (#[trigger] token_set.sequences@[c]).string@ == seq![c as u8],
    forall|c: int| 0 <= c < __d0 ==> is_digits((#[trigger] token_set.sequences@[c]).tokens@, c, 16, 2),
@loop 0 start
let ghost __old = token_set;
@loop 0 end
proof {
    assert forall|x: int| 0 <= x < c implies token_set.sequences@[x] == __old.sequences@[x] by {
        assert(token_set.sequences@.drop_last()[x] == token_set.sequences@[x]);
    }
    assert(token_set.sequences@[c as int].string@ =~= seq![c as u8]);
    assert((c & 15) == c % 16) by (bit_vector);
    assert((c >> 4) == c / 16) by (bit_vector);
    reveal_with_fuel(dig, 3);
    assert(dig(c as int, 16, 2) =~= seq![(c as int / 16) % 16, c as int % 16]) by {
        assert(dig(c as int / 16, 16, 1) =~= seq![(c as int / 16) % 16]) by { assert(dig(c as int / 256, 16, 0) =~= Seq::<int>::empty()); }
    }
}
@end
proof { c08_wf(&__ret, 16, 2); }

@fn TokenSet::ntokens -> r
@props C08 C10
@spec
ensures r == self.tokens@.len()

@fn TokenSet::min_bytes_ext_tokens -> r
@props C12 C14
@spec
ensures r == min_ext(self.token_type)

@fn TokenSet::n_long_tokens -> r
@props C12 C11 C14
@spec
ensures r == n_long(self.toks())
@loop 0
    __acc0 == n_long(self.toks().take(__d0)), __acc0 <= __d0,
@loop 0 end
proof { n_long_step(self.toks(), __d0); }
@loop 0 after
proof { assert(self.toks().take(self.toks().len() as int) =~= self.toks()); }

@fn TokenSet::find_token -> r
@props C13 C14
@spec
ensures
    match r {
        Some(i) => i < self.tokens@.len() && self.toks()[i as int] == TokV::Str(s@),
        None => !self.toks().contains(TokV::Str(s@)),
    }
@loop 0
invariant_except_break
    __acc0.is_none(), forall|i: int| 0 <= i < __d0 ==> #[trigger] self.toks()[i] != TokV::Str(s@),
ensures
    match __acc0 {
        Some(i) => i < self.tokens@.len() && self.toks()[i as int] == TokV::Str(s@),
        None => forall|i: int| 0 <= i < self.tokens@.len() ==> #[trigger] self.toks()[i] != TokV::Str(s@),
    }

@fn TokenSet::add_token -> r
@props C09 C08 C10 C11 C12 C13 C14
@spec
requires token@.len() > 0
ensures
    final(self).same_header(old(self)), r == old(self).tokens@.len(),
    final(self).tokens@.len() == old(self).tokens@.len() + 1,
    final(self).tokens@.drop_last() == old(self).tokens@,
    final(self).tokens@.last().v() == TokV::Str(token@),
    final(self).sequences@ == old(self).sequences@.filter(keeps(token@)),
@loop 0
    self.sequences@ == __q0.take(__d0).filter(keeps(token@)),
@loop 0 end
proof { filter_step(__q0, __d0 - 1, keeps(token@)); }
@loop 0 before
proof { reveal(Seq::filter); }
@loop 0 after
proof { assert(__q0.take(__q0.len() as int) =~= __q0); }
@end
assert(self.tokens@.drop_last() =~= old(self).tokens@);

@fn TokenSet::remove_token
@props C09 C14 C10
@spec
requires token_idx < old(self).tokens@.len(), old(self).wf(),
    forall|i: int| 0 <= i < old(self).sequences@.len() ==> !(#[trigger] old(self).sequences@[i]).tokens@.contains(token_idx),
ensures
    final(self).same_header(old(self)), final(self).wf(),
    final(self).tokens@ == swap_removed(old(self).tokens@, token_idx as int),
    final(self).spelled() == old(self).spelled(),
@loop 1 before
let ghost __o = self.sequences@;
let ghost __t = self.tokens@;
@loop 1
    self.same_header(old(self)), self.tokens@ == __t, __o == old(self).sequences@, self.sequences@.len() == __o.len(),
    forall|i: int| 0 <= i < __d1 ==> (#[trigger] self.sequences@[i]).string@ == __o[i].string@,
    forall|i: int| 0 <= i < __d1 ==> (#[trigger] self.sequences@[i]).tokens@ == remap(__o[i].tokens@, last_idx, token_idx),
    forall|i: int| __d1 <= i < __o.len() ==> #[trigger] self.sequences@[i] == __o[i],
@loop 2 before
let ghost __sq = seq.tokens@;
let ghost __st = seq.string@;
@loop 2
    seq.string@ == __st, seq.tokens@.len() == __sq.len(),
    forall|j: int| 0 <= j < __d2 ==> #[trigger] seq.tokens@[j] == if __sq[j] == last_idx { token_idx } else { __sq[j] },
    forall|j: int| __d2 <= j < __sq.len() ==> #[trigger] seq.tokens@[j] == __sq[j],
@loop 2 after
assert(seq.tokens@ =~= remap(__sq, last_idx, token_idx));
@end
proof {
    let last = old(self).tokens@.len() - 1;
    assert(self.tokens@ =~= swap_removed(old(self).tokens@, token_idx as int));
    assert forall|i: int| 0 <= i < self.sequences@.len() implies (#[trigger] self.sequences@[i]).idx_below(self.tokens@.len() as int)
        && spell(self.toks(), self.sequences@[i]) == spell(old(self).toks(), old(self).sequences@[i]) by {
        let o = old(self).sequences@[i];
        assert(o.idx_below(last + 1));
        assert(!o.tokens@.contains(token_idx));
        let s = self.sequences@[i];
        assert forall|j: int| 0 <= j < s.tokens@.len() implies #[trigger] s.tokens@[j] < last
            && self.toks()[s.tokens@[j] as int] == old(self).toks()[o.tokens@[j] as int] by {
            assert(o.tokens@[j] < last + 1);
            assert(o.tokens@.contains(o.tokens@[j]));
        }
        assert(spell(self.toks(), s).toks =~= spell(old(self).toks(), o).toks);
    }
    assert(self.spelled() =~= old(self).spelled());
}

@fn TokenSet::new_bytes -> r
@props C08 C10 C18
@spec
ensures r.n_ext_tokens == 0, r.token_type == TokenType::Bytes, r.processing == processing, r.split_paragraphs == true,
    r.sequences@.len() == 0, r.toks() == Seq::new(256, |c: int| TokV::Str(seq![c as u8])),
@loop 0
    token_set.n_ext_tokens == 0, token_set.token_type == TokenType::Bytes, token_set.processing == processing,
    token_set.split_paragraphs == true, token_set.sequences@.len() == 0,
    token_set.toks() =~= Seq::new(__d0 as nat, |c: int| TokV::Str(seq![c as u8])),
@loop 0 start
let ghost __old = token_set;
@loop 0 end
proof {
    reveal(Seq::filter);
    assert(token_set.tokens@.drop_last() == __old.tokens@);
    assert forall|x: int| 0 <= x < c implies token_set.toks()[x] == __old.toks()[x] by {
        assert(token_set.tokens@.drop_last()[x] == token_set.tokens@[x]);
    }
    assert(token_set.toks()[c as int] == TokV::Str(seq![c as u8])) by {
        let t = token_set.tokens@.last();
        assert(t.v()->Str_0 =~= seq![c as u8]);
    }
}

@fn TokenSet::sort
@props C09 C15 C10 C14 C12 C11
@attr #[verifier::loop_isolation(true)]
@spec
requires old(self).wf()
ensures
    final(self).same_header(old(self)), final(self).wf(),
    reordered(old(self).toks(), final(self).toks()), sorted_toks(final(self).toks()),
    reordered(old(self).spelled(), final(self).spelled()), sorted_by_string(final(self).sequences@),
    sorted_of(old(self), final(self)),
@start
let ghost __n = self.tokens@.len() as int;
let ghost __ot = self.tokens@;
let ghost __o = self.sequences@;
let ghost mut __ks: Seq<&Token> = Seq::empty();
let ghost mut __p: Seq<int> = Seq::empty();
let ghost mut __mid: Seq<Sequence> = Seq::empty();
let ghost mut __i0: Seq<usize> = Seq::empty();
@loop 0
    __h0 == __n, __acc0@.len() == __d0, forall|i: int| 0 <= i < __d0 ==> #[trigger] __acc0@[i] == i,
@loop 0 after
proof { __i0 = __acc0@; }
@closure 0
|id: &usize| -> (r: &Token) requires *id < self.tokens@.len() ensures *r == self.tokens@[*id as int]
@loop 1 before
proof {
    let (ks, p): (Seq<&Token>, Seq<int>) = choose|ks: Seq<&Token>, p: Seq<int>| #[trigger] sort_result(__i0, token_idxs@, ks, p)
        && forall|i: int| #![trigger ks[i]] 0 <= i < __i0.len() ==> *ks[i] == __ot[i];
    __ks = ks; __p = p;
    assert(exists|ks: Seq<&Token>, p: Seq<int>| #[trigger] sort_result(__i0, token_idxs@, ks, p)
        && forall|i: int| #![trigger ks[i]] 0 <= i < __i0.len() ==> *ks[i] == __ot[i]);
    assert forall|i: int| 0 <= i < __n implies #[trigger] token_idxs@[i] == __p[i] && 0 <= token_idxs@[i] < __n by {
        assert(token_idxs@[i] == __i0[__p[i]]);
    }
}
@loop 1
    __s1@ == token_idxs@, token_idxs@.len() == __n, is_perm(__p, __n), new_indices@.len() == __n,
    forall|i: int| 0 <= i < __n ==> #[trigger] token_idxs@[i] == __p[i] && 0 <= token_idxs@[i] < __n,
    forall|i: int| 0 <= i < __d1 ==> new_indices@[#[trigger] token_idxs@[i] as int] == i,
@loop 1 start
proof {
    assert forall|i: int| 0 <= i < __d1 implies token_idxs@[i] != token_idxs@[__d1] by {
        assert(__p[i] != __p[__d1]);
    }
}
@loop 1 after
proof {
    assert forall|k: int| 0 <= k < __n implies 0 <= #[trigger] new_indices@[k] < __n && token_idxs@[new_indices@[k] as int] == k by {
        assert(__p.contains(k));
        let i = choose|i: int| 0 <= i < __p.len() && __p[i] == k;
        assert(token_idxs@[i] == k);
    }
}
@loop 2
    new_indices@.len() == __n, forall|k: int| 0 <= k < __n ==> 0 <= #[trigger] new_indices@[k] < __n,
    forall|i: int| 0 <= i < __o.len() ==> (#[trigger] __o[i]).idx_below(__n),
    self.same_header(old(self)), self.tokens@ == __ot, self.sequences@.len() == __o.len(),
    forall|i: int| 0 <= i < __d2 ==> (#[trigger] self.sequences@[i]).string@ == __o[i].string@,
    forall|i: int| 0 <= i < __d2 ==> (#[trigger] self.sequences@[i]).tokens@ == renumbered(__o[i].tokens@, new_indices@),
    forall|i: int| __d2 <= i < __o.len() ==> #[trigger] self.sequences@[i] == __o[i],
@loop 3 before
let ghost __sq = seq.tokens@;
let ghost __st = seq.string@;
assert(__o[__d2].idx_below(__n));
@loop 3
    __h3 == __sq.len(), new_indices@.len() == __n,
    forall|j: int| 0 <= j < __sq.len() ==> #[trigger] __sq[j] < __n,
    seq.string@ == __st, seq.tokens@.len() == __sq.len(),
    forall|j: int| 0 <= j < __d3 ==> #[trigger] seq.tokens@[j] == new_indices@[__sq[j] as int],
    forall|j: int| __d3 <= j < __sq.len() ==> #[trigger] seq.tokens@[j] == __sq[j],
@loop 3 start
assert(seq.tokens@[__d3] == __sq[__d3]);
@loop 3 after
assert(seq.tokens@ =~= renumbered(__sq, new_indices@));
@loop 2 after
proof { __mid = self.sequences@; }
@end
proof {
    let q = choose|q: Seq<int>| #[trigger] sort_result(__ot, self.tokens@, __ot, q);
    let r = choose|r: Seq<int>| #[trigger] sort_result(__mid, self.sequences@, __mid, r);
    sort_same_order(__ot, self.tokens@, __i0, token_idxs@, __ks, __p, q);
    sort_finish(__ot, self.tokens@, token_idxs@, new_indices@, q, __o, __mid, self.sequences@, r);
}
