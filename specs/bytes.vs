@module optimize_bytes
@rw __s.binary_search(__k) => find_in(crate::vx::AsSl::vx_sl(&(__s)), __k)
@rw __c[__a..__b].to_vec() => crate::vx::to_vec(&__c[__a..__b])
@rw mem::replace(__a, __b) => crate::vx::mem_replace(__a, __b)
@prelude
use crate::vx::*;
use super::stats2::*;
use super::tokenset::*;
use super::tokenizer2::*;
use super::processing::Processing;
use core::cmp::Ordering as Cmp3;

// ---- C12: byte tokens of the fixed-digit kinds -----------------------------------------------
/// byte b was written c times on its own: as a token or as a fallback sequence
pub open spec fn tok_count(st: &TokenStats, b: u8, c: int, t: int) -> bool {
    0 <= t < st.token_set.tokens@.len() && st.token_set.toks()[t] == TokV::Str(one_byte(b)) && st.token_counts@[t] == c
}
pub open spec fn seq_count(st: &TokenStats, b: u8, c: int, q: int) -> bool {
    0 <= q < st.token_set.sequences@.len() && st.token_set.sequences@[q].string@ == one_byte(b) && st.seq_counts@[q] == c
}
pub open spec fn byte_count(st: &TokenStats, b: u8, c: int) -> bool {
    (exists|t: int| tok_count(st, b, c, t)) || (exists|q: int| seq_count(st, b, c, q))
}
pub open spec fn byte_tok() -> spec_fn(u8) -> TokV { |b: u8| TokV::Str(one_byte(b)) }
pub open spec fn long_tok() -> spec_fn(TokV) -> bool { |t: TokV| is_long(t) }
pub open spec fn base_of(t: TokenType) -> nat { match t { TokenType::Bits1 => 2, TokenType::Bits2 => 4, TokenType::Bits4 => 16, _ => 0 } }
pub open spec fn digits_of(t: TokenType) -> nat { match t { TokenType::Bits1 => 8, TokenType::Bits2 => 4, TokenType::Bits4 => 2, _ => 0 } }
/// one digit sequence for each byte that is not chosen, in order
pub open spec fn left(s: Seq<Sequence>, chosen: Seq<u8>, b: nat, n: nat) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).string@.len() == 1 && is_digits(s[i].tokens@, s[i].string@[0] as int, b as int, n) && !chosen.contains(s[i].string@[0])
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).string@[0] < (#[trigger] s[j]).string@[0]
    &&& forall|x: u8| !#[trigger] chosen.contains(x) ==> seq_for(s, x)
}
pub open spec fn seq_for(s: Seq<Sequence>, x: u8) -> bool {
    exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).string@ == one_byte(x)
}
/// no byte outside `chosen` is more frequent than one inside
pub open spec fn topmost(st: &TokenStats, chosen: Seq<u8>) -> bool {
    forall|x: u8, y: u8, cx: int, cy: int| chosen.contains(x) && !chosen.contains(y) && #[trigger] byte_count(st, x, cx) && #[trigger] byte_count(st, y, cy) ==> cy <= cx
}
pub open spec fn n_chosen(budget: int, ext: int) -> int { if budget - ext < 256 { budget - ext } else { 256 } }
/// C12
pub open spec fn reselected(st: &TokenStats, budget: int, r: &TokenSet, chosen: Seq<u8>) -> bool {
    let o = &st.token_set;
    &&& r.same_header(o)
    &&& chosen.len() == n_chosen(budget, o.n_ext_tokens as int) && chosen.no_duplicates() && topmost(st, chosen)
    &&& r.toks() == ext_toks(o.n_ext_tokens as nat) + chosen.map_values(byte_tok()) + o.toks().filter(long_tok())
    &&& left(r.sequences@, chosen, base_of(o.token_type), digits_of(o.token_type))
}
pub open spec fn bits_kind(t: TokenType) -> bool { t == TokenType::Bits1 || t == TokenType::Bits2 || t == TokenType::Bits4 }
pub open spec fn counts_fit(st: &TokenStats) -> bool {
    &&& forall|i: int| 0 <= i < st.token_counts@.len() ==> #[trigger] st.token_counts@[i] <= i64::MAX
    &&& forall|i: int| 0 <= i < st.seq_counts@.len() ==> #[trigger] st.seq_counts@[i] <= i64::MAX
}
pub open spec fn reselectable(st: &TokenStats) -> bool {
    let ts = &st.token_set;
    &&& covering(ts) && keyable(ts.sv())
    &&& bits_kind(ts.token_type) && ts.n_ext_tokens == base_of(ts.token_type)
    &&& st.token_counts@.len() == ts.tokens@.len() && st.seq_counts@.len() == ts.sequences@.len()
    &&& counts_fit(st)
}
/// the table holds the counts of the first d tokens and e sequences
pub open spec fn table(a: Seq<i64>, st: &TokenStats, d: int, e: int) -> bool {
    &&& a.len() == 256
    &&& forall|i: int| 0 <= i < 256 ==> #[trigger] a[i] >= 0
    &&& forall|b: u8, c: int, t: int| #[trigger] tok_count(st, b, c, t) && t < d ==> a[b as int] == c
    &&& forall|b: u8, c: int, q: int| #[trigger] seq_count(st, b, c, q) && q < e ==> a[b as int] == c
}
pub proof fn one_byte_inj(a: u8, b: u8)
    requires one_byte(a) == one_byte(b)
    ensures a == b
{
    assert(one_byte(a)[0] == a && one_byte(b)[0] == b);
}
pub proof fn one_byte_of(s: Seq<u8>)
    requires s.len() == 1
    ensures s == one_byte(s[0])
{
    assert(s =~= one_byte(s[0]));
}
pub proof fn table_tok(a: Seq<i64>, st: &TokenStats, d: int, r: Seq<i64>)
    requires reselectable(st), table(a, st, d, 0), 0 <= d < st.token_set.tokens@.len(), r.len() == 256,
        ({
            let t = st.token_set.tokens@[d].v();
            if t is Str && t->Str_0.len() == 1 { r == a.update(t->Str_0[0] as int, st.token_counts@[d] as i64) } else { r == a }
        }),
    ensures table(r, st, d + 1, 0)
{
    let ts = &st.token_set;
    assert(st.token_counts@[d] <= i64::MAX);
    let v = ts.tokens@[d].v();
    assert(ts.toks()[d] == v);
    if v is Str && v->Str_0.len() == 1 { one_byte_of(v->Str_0); }
    assert forall|b: u8, c: int, t: int| #[trigger] tok_count(st, b, c, t) && t < d + 1 implies r[b as int] == c by {
        assert(ts.toks()[t] == ts.tokens@[t].v());
        if t < d {
            assert(tok_count(st, b, c, t));
            if v == TokV::Str(one_byte(b)) {
                assert(piece_ok(ts, Piece::Tok(t)) && piece_ok(ts, Piece::Tok(d)));
                assert(piece_str(ts, Piece::Tok(t)) == piece_str(ts, Piece::Tok(d)));
            }
            if v is Str && v->Str_0.len() == 1 && v->Str_0[0] == b { assert(false); }
        } else {
            assert(v == TokV::Str(one_byte(b)));
            assert(one_byte(b)[0] == b);
        }
    }
}
pub proof fn table_seq(a: Seq<i64>, st: &TokenStats, e: int, r: Seq<i64>)
    requires reselectable(st), table(a, st, st.token_set.tokens@.len() as int, e), 0 <= e < st.token_set.sequences@.len(), r.len() == 256,
        ({
            let s = st.token_set.sequences@[e].string@;
            if s.len() == 1 { r == a.update(s[0] as int, st.seq_counts@[e] as i64) } else { r == a }
        }),
    ensures table(r, st, st.token_set.tokens@.len() as int, e + 1)
{
    let ts = &st.token_set;
    assert(st.seq_counts@[e] <= i64::MAX);
    let s = ts.sequences@[e].string@;
    assert(piece_ok(ts, Piece::Sq(e)));
    if s.len() == 1 { one_byte_of(s); }
    assert forall|b: u8, c: int, t: int| #[trigger] tok_count(st, b, c, t) implies r[b as int] == c by {
        assert(ts.toks()[t] == ts.tokens@[t].v());
        if s == one_byte(b) {
            assert(piece_ok(ts, Piece::Tok(t)));
            assert(piece_str(ts, Piece::Tok(t)) == piece_str(ts, Piece::Sq(e)));
        }
    }
    assert forall|b: u8, c: int, q: int| #[trigger] seq_count(st, b, c, q) && q < e + 1 implies r[b as int] == c by {
        if q < e {
            assert(seq_count(st, b, c, q));
            if s == one_byte(b) {
                assert(piece_ok(ts, Piece::Sq(q)));
                assert(piece_str(ts, Piece::Sq(q)) == piece_str(ts, Piece::Sq(e)));
            }
        } else {
            assert(one_byte(b)[0] == b);
        }
    }
}
/// all 256 byte values, the most frequent first
pub open spec fn ranked(bytes: Seq<u8>, st: &TokenStats) -> bool {
    &&& bytes.len() == 256 && bytes.no_duplicates()
    &&& forall|i: int, j: int, ci: int, cj: int| 0 <= i < j < 256 && #[trigger] byte_count(st, bytes[i], ci) && #[trigger] byte_count(st, bytes[j], cj) ==> cj <= ci
}
pub open spec fn all_bytes(s: Seq<u8>) -> bool {
    s.len() == 256 && forall|i: int| 0 <= i < 256 ==> #[trigger] s[i] == i
}
pub proof fn rank(st: &TokenStats, a: Seq<i64>, o: Seq<u8>, bytes: Seq<u8>, ks: Seq<i64>, p: Seq<int>)
    requires reselectable(st), table(a, st, st.token_set.tokens@.len() as int, st.token_set.sequences@.len() as int),
        all_bytes(o), sort_result(o, bytes, ks, p),
        forall|i: int| #![trigger ks[i]] 0 <= i < 256 ==> ks[i] == -a[o[i] as int],
    ensures ranked(bytes, st)
{
    assert forall|i: int, j: int| 0 <= i < bytes.len() && 0 <= j < bytes.len() && i != j implies bytes[i] != bytes[j] by {
        assert(bytes[i] == o[p[i]] && bytes[j] == o[p[j]]);
        if i < j { assert(p[i] != p[j]); } else { assert(p[j] != p[i]); }
    }
    assert forall|i: int, j: int, ci: int, cj: int| 0 <= i < j < 256 && #[trigger] byte_count(st, bytes[i], ci) && #[trigger] byte_count(st, bytes[j], cj) implies cj <= ci by {
        assert(a[bytes[i] as int] == ci);
        assert(a[bytes[j] as int] == cj);
        assert(bytes[i] == o[p[i]] && bytes[j] == o[p[j]]);
        assert(ks[p[i]].vcmp(&ks[p[j]]) != Cmp3::Greater);
        assert(ks[p[i]] == -a[o[p[i]] as int] && ks[p[j]] == -a[o[p[j]] as int]);
    }
}
pub proof fn ranked_top(st: &TokenStats, bytes: Seq<u8>, n: int)
    requires ranked(bytes, st), 0 <= n <= 256
    ensures topmost(st, bytes.take(n)), bytes.take(n).no_duplicates()
{
    let c = bytes.take(n);
    assert forall|x: u8, y: u8, cx: int, cy: int| c.contains(x) && !c.contains(y) && #[trigger] byte_count(st, x, cx) && #[trigger] byte_count(st, y, cy) implies cy <= cx by {
        let i = choose|i: int| 0 <= i < c.len() && c[i] == x;
        all_there(bytes, y);
        let j = choose|j: int| 0 <= j < bytes.len() && bytes[j] == y;
        if j < n { assert(c[j] == y); }
        assert(bytes[i] == x);
        assert(byte_count(st, bytes[i], cx) && byte_count(st, bytes[j], cy));
    }
}
/// 256 different bytes are all the bytes
pub proof fn all_there(s: Seq<u8>, y: u8)
    requires s.len() == 256, s.no_duplicates()
    ensures s.contains(y)
{
    let v = s.map_values(|b: u8| b as int);
    assert(v.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && i != j implies v[i] != v[j] by { assert(s[i] != s[j]); }
    }
    if !s.contains(y) {
        v.unique_seq_to_set();
        let u = v.to_set();
        assert(u.len() == 256);
        let w = u.insert(y as int);
        assert(!u.contains(y as int)) by {
            if v.contains(y as int) {
                let i = choose|i: int| 0 <= i < v.len() && v[i] == y as int;
                assert(s[i] == y);
            }
        }
        assert(w.len() == 257);
        let all = vstd::set_lib::set_int_range(0, 256);
        vstd::set_lib::lemma_int_range(0, 256);
        assert forall|x: int| w.contains(x) implies all.contains(x) by {
            if x != y as int {
                assert(v.contains(x));
                let i = choose|i: int| 0 <= i < v.len() && v[i] == x;
                assert(v[i] == s[i] as int);
            }
        }
        vstd::set_lib::lemma_len_subset(w, all);
    }
}
pub proof fn filter_pair<T>(s: Seq<T>, f: spec_fn(T) -> bool, i: int, j: int) -> (r: (int, int))
    requires 0 <= i < j < s.filter(f).len()
    ensures 0 <= r.0 < r.1 < s.len(), s[r.0] == s.filter(f)[i], s[r.1] == s.filter(f)[j]
    decreases s.len()
{
    reveal(Seq::filter);
    let d = s.drop_last();
    if j < d.filter(f).len() {
        filter_pair(d, f, i, j)
    } else {
        filter_in(d, f, i);
        let k = choose|k: int| 0 <= k < d.len() && d[k] == d.filter(f)[i];
        (k, s.len() - 1)
    }
}
pub proof fn left_start(ts: &TokenSet, b: nat, n: nat)
    requires builtin_bits(ts, b, n)
    ensures left(ts.sequences@, Seq::<u8>::empty(), b, n)
{
    let s = ts.sequences@;
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).string@.len() == 1 && s[i].string@[0] == i as u8 && is_digits(s[i].tokens@, s[i].string@[0] as int, b as int, n) by {
        assert(s[i].string@ == seq![i as u8]);
    }
    assert forall|x: u8| !#[trigger] Seq::<u8>::empty().contains(x) implies seq_for(s, x) by {
        assert(s[x as int].string@ == seq![x as int as u8]);
        assert(s[x as int].string@ == one_byte(x));
    }
}
pub proof fn left_step(s: Seq<Sequence>, chosen: Seq<u8>, x: u8, b: nat, n: nat)
    requires left(s, chosen, b, n)
    ensures left(s.filter(keeps(one_byte(x))), chosen.push(x), b, n)
{
    let f = keeps(one_byte(x));
    let r = s.filter(f);
    let c = chosen.push(x);
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).string@.len() == 1 && is_digits(r[i].tokens@, r[i].string@[0] as int, b as int, n) && !c.contains(r[i].string@[0]) by {
        filter_in(s, f, i);
        let k = choose|k: int| 0 <= k < s.len() && s[k] == r[i];
        assert(s[k].string@.len() == 1);
        one_byte_of(s[k].string@);
        let y = r[i].string@[0];
        if c.contains(y) {
            let m = choose|m: int| 0 <= m < c.len() && c[m] == y;
            if m < chosen.len() { assert(chosen[m] == y); }
        }
    }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).string@[0] < (#[trigger] r[j]).string@[0] by {
        let (k, l) = filter_pair(s, f, i, j);
        assert(s[k].string@[0] < s[l].string@[0]);
    }
    assert forall|y: u8| !#[trigger] c.contains(y) implies seq_for(r, y) by {
        if chosen.contains(y) {
            let m = choose|m: int| 0 <= m < chosen.len() && chosen[m] == y;
            assert(c[m] == y);
        }
        assert(c[chosen.len() as int] == x);
        assert(seq_for(s, y));
        let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).string@ == one_byte(y);
        if one_byte(x) == one_byte(y) { one_byte_inj(x, y); }
        filter_has(s, f, k);
        let i = choose|i: int| 0 <= i < r.len() && r[i] == s[k];
        assert(r[i].string@ == one_byte(y));
    }
}
/// a token of several bytes replaces no sequence
pub proof fn left_long(s: Seq<Sequence>, chosen: Seq<u8>, t: Seq<u8>, b: nat, n: nat)
    requires left(s, chosen, b, n), t.len() > 1
    ensures s.filter(keeps(t)) == s
{
    assert forall|i: int| 0 <= i < s.len() implies keeps(t)(#[trigger] s[i]) by { assert(s[i].string@.len() == 1); }
    filter_all(s, keeps(t));
}

pub proof fn n_long_filter(s: Seq<TokV>)
    ensures n_long(s) == s.filter(long_tok()).len(), n_long(s.filter(long_tok())) == n_long(s)
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        n_long_filter(s.drop_last());
        let f = s.drop_last().filter(long_tok());
        if is_long(s.last()) { assert(f.push(s.last()).drop_last() =~= f); }
    }
}
pub proof fn n_long_none(s: Seq<TokV>)
    requires forall|i: int| 0 <= i < s.len() ==> !is_long(#[trigger] s[i])
    ensures n_long(s) == 0
    decreases s.len()
{
    if s.len() > 0 { n_long_none(s.drop_last()); }
}
pub proof fn n_long_add(a: Seq<TokV>, b: Seq<TokV>)
    ensures n_long(a + b) == n_long(a) + n_long(b)
    decreases b.len()
{
    if b.len() > 0 {
        assert((a + b).drop_last() =~= a + b.drop_last());
        n_long_add(a, b.drop_last());
    } else {
        assert(a + b =~= a);
    }
}
/// the tokens of a set of extension tokens, chosen bytes and the long tokens of another set
pub open spec fn assembled(o: &TokenSet, r: &TokenSet, ext: nat, chosen: Seq<u8>) -> bool {
    r.toks() == ext_toks(ext) + chosen.map_values(byte_tok()) + o.toks().filter(long_tok())
}
/// where token i of the new set comes from
pub proof fn assembled_at(o: &TokenSet, r: &TokenSet, ext: nat, chosen: Seq<u8>, i: int)
    requires assembled(o, r, ext, chosen), 0 <= i < r.tokens@.len()
    ensures
        r.tokens@.len() == ext + chosen.len() + o.toks().filter(long_tok()).len(),
        r.toks()[i] == r.tokens@[i].v(),
        i < ext ==> r.toks()[i] == TokV::Ext(i as u8),
        ext <= i < ext + chosen.len() ==> r.toks()[i] == TokV::Str(one_byte(chosen[i - ext])),
        i >= ext + chosen.len() ==> r.toks()[i] == o.toks().filter(long_tok())[i - ext - chosen.len()] && is_long(r.toks()[i]),
{
    assert(r.toks().len() == r.tokens@.len());
    let l = o.toks().filter(long_tok());
    if i >= ext + chosen.len() { filter_in(o.toks(), long_tok(), i - ext - chosen.len()); }
}
pub proof fn assembled_distinct(o: &TokenSet, r: &TokenSet, ext: nat, chosen: Seq<u8>, i: int, j: int)
    requires assembled(o, r, ext, chosen), covering(o), chosen.no_duplicates(), 0 <= i < j < r.tokens@.len(), r.toks()[i] is Str
    ensures r.toks()[i] != r.toks()[j]
{
    assembled_at(o, r, ext, chosen, i);
    assembled_at(o, r, ext, chosen, j);
    if r.toks()[i] == r.toks()[j] {
        let n = ext + chosen.len();
        if i < n && j < n {
            one_byte_inj(chosen[i - ext], chosen[j - ext]);
        } else if i >= n {
            let (k, l) = filter_pair(o.toks(), long_tok(), i - n, j - n);
            assert(o.toks()[k] == o.tokens@[k].v() && o.toks()[l] == o.tokens@[l].v());
            assert(piece_ok(o, Piece::Tok(k)) && piece_ok(o, Piece::Tok(l)));
            assert(piece_str(o, Piece::Tok(k)) == piece_str(o, Piece::Tok(l)));
        } else {
            assert(one_byte(chosen[i - ext]).len() == 1);
        }
    }
}
/// Every byte by its own token or by a sequence for it alone: a set that tokenizes everything.
pub proof fn assembled_covering(o: &TokenSet, r: &TokenSet, ext: nat, chosen: Seq<u8>)
    requires assembled(o, r, ext, chosen), covering(o), chosen.no_duplicates(), r.wf(), ext <= 256, r.n_ext_tokens == ext,
        forall|i: int| 0 <= i < r.sequences@.len() ==> (#[trigger] r.sequences@[i]).string@.len() == 1 && !chosen.contains(r.sequences@[i].string@[0]) && r.sequences@[i].tokens@.len() > 1,
        forall|i: int, j: int| 0 <= i < j < r.sequences@.len() ==> (#[trigger] r.sequences@[i]).string@[0] != (#[trigger] r.sequences@[j]).string@[0],
        forall|x: u8| !#[trigger] chosen.contains(x) ==> seq_for(r.sequences@, x),
    ensures covering(r), keyable(r.sv()), r.tokens@.len() == ext + chosen.len() + n_long(o.toks()), n_long(r.toks()) == n_long(o.toks())
{
    let n = ext + chosen.len();
    assert(r.toks().len() == r.tokens@.len());
    assert forall|p: Piece| #[trigger] piece_ok(r, p) implies piece_str(r, p).len() > 0 by {
        match p {
            Piece::Tok(t) => { assembled_at(o, r, ext, chosen, t); }
            Piece::Sq(q) => { assert(r.sequences@[q].string@.len() == 1); }
        }
    }
    assert forall|p: Piece, q: Piece| #![trigger piece_ok(r, p), piece_ok(r, q)]
            piece_ok(r, p) && piece_ok(r, q) && piece_str(r, p) == piece_str(r, q) implies p == q by {
        match (p, q) {
            (Piece::Tok(a), Piece::Tok(b)) => {
                assembled_at(o, r, ext, chosen, a);
                assembled_at(o, r, ext, chosen, b);
                if a < b { assembled_distinct(o, r, ext, chosen, a, b); }
                if b < a { assembled_distinct(o, r, ext, chosen, b, a); }
            }
            (Piece::Sq(a), Piece::Sq(b)) => {
                if a < b { assert(r.sequences@[a].string@[0] != r.sequences@[b].string@[0]); }
                if b < a { assert(r.sequences@[b].string@[0] != r.sequences@[a].string@[0]); }
            }
            (Piece::Tok(a), Piece::Sq(b)) => { tok_not_seq(o, r, ext, chosen, a, b); }
            (Piece::Sq(a), Piece::Tok(b)) => { tok_not_seq(o, r, ext, chosen, b, a); }
        }
    }
    assert forall|x: u8| #[trigger] byte_encoded(r, x) by {
        assert(one_byte(x) =~= seq![x]);
        if chosen.contains(x) {
            let k = choose|k: int| 0 <= k < chosen.len() && chosen[k] == x;
            assert(r.toks()[ext + k] == TokV::Str(one_byte(x)));
            assert(r.toks()[ext + k] == r.tokens@[ext + k].v());
            assert(piece_ok(r, Piece::Tok(ext + k)) && piece_str(r, Piece::Tok(ext + k)) == seq![x]);
        } else {
            assert(seq_for(r.sequences@, x));
            let k = choose|k: int| 0 <= k < r.sequences@.len() && (#[trigger] r.sequences@[k]).string@ == one_byte(x);
            assert(piece_ok(r, Piece::Sq(k)) && piece_str(r, Piece::Sq(k)) == seq![x]);
        }
    }
    let s = r.sv();
    assert forall|i: int| 0 <= i < ext implies #[trigger] s.toks[i] == TokV::Ext(i as u8) by { assembled_at(o, r, ext, chosen, i); }
    assert forall|i: int| ext <= i < s.toks.len() implies (#[trigger] s.toks[i]) is Str && s.toks[i]->Str_0.len() > 0 by { assembled_at(o, r, ext, chosen, i); }
    assert forall|i: int| 0 <= i < s.seqs.len() implies (#[trigger] s.seqs[i]).toks.len() > 1 by { assert(r.sequences@[i].tokens@.len() > 1); }
    n_long_filter(o.toks());
    let (x, y) = (ext_toks(ext) + chosen.map_values(byte_tok()), o.toks().filter(long_tok()));
    assert(s.toks == x + y);
    n_long_add(x, y);
    assert forall|i: int| 0 <= i < x.len() implies !is_long(#[trigger] x[i]) by {}
    n_long_none(x);
}
pub proof fn tok_not_seq(o: &TokenSet, r: &TokenSet, ext: nat, chosen: Seq<u8>, t: int, q: int)
    requires assembled(o, r, ext, chosen), piece_ok(r, Piece::Tok(t)), 0 <= q < r.sequences@.len(),
        r.sequences@[q].string@.len() == 1, !chosen.contains(r.sequences@[q].string@[0])
    ensures piece_str(r, Piece::Tok(t)) != piece_str(r, Piece::Sq(q))
{
    assembled_at(o, r, ext, chosen, t);
    if ext <= t < ext + chosen.len() {
        let x = chosen[t - ext];
        assert(chosen.contains(x));
        assert(one_byte(x)[0] == x);
    }
}
/// C12: exactly the budgeted tokens, one encoding for each byte, all long tokens.
pub proof fn c12_result(st: &TokenStats, budget: int, r: &TokenSet, chosen: Seq<u8>)
    requires reselectable(st), budget >= st.token_set.n_ext_tokens, reselected(st, budget, r, chosen)
    ensures
        covering(r), keyable(r.sv()), cost_bound(r, digits_of(r.token_type)),
        r.tokens@.len() == st.token_set.n_ext_tokens + n_chosen(budget, st.token_set.n_ext_tokens as int) + n_long(st.token_set.toks()),
        n_long(r.toks()) == n_long(st.token_set.toks()),
        r.sequences@.len() == 256 - chosen.len(),
{
    let o = &st.token_set;
    let (b, n) = (base_of(o.token_type), digits_of(o.token_type));
    let s = r.sequences@;
    assert(r.toks().len() == r.tokens@.len());
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).idx_below(r.tokens@.len() as int) && s[i].tokens@.len() == n by {
        assert(is_digits(s[i].tokens@, s[i].string@[0] as int, b as int, n));
        assert forall|j: int| 0 <= j < s[i].tokens@.len() implies #[trigger] s[i].tokens@[j] < b by {
            digits_bound(s[i].string@[0] as int, b as int, n, j);
        }
    }
    assembled_covering(o, r, b, chosen);
    left_len(s, chosen, b, n);
}
pub proof fn left_len(s: Seq<Sequence>, chosen: Seq<u8>, b: nat, n: nat)
    requires left(s, chosen, b, n), chosen.no_duplicates()
    ensures s.len() + chosen.len() == 256
{
    let f = s.map_values(|q: Sequence| q.string@[0]);
    let a = f + chosen;
    assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j implies a[i] != a[j] by {
        let m = s.len() as int;
        if i < m && j < m {
            if i < j { assert(s[i].string@[0] < s[j].string@[0]); } else { assert(s[j].string@[0] < s[i].string@[0]); }
        } else if i < m {
            assert(!chosen.contains(s[i].string@[0]));
        } else if j < m {
            assert(!chosen.contains(s[j].string@[0]));
        }
    }
    assert forall|x: u8| #[trigger] a.contains(x) by {
        if chosen.contains(x) {
            let k = choose|k: int| 0 <= k < chosen.len() && chosen[k] == x;
            assert(a[s.len() + k] == x);
        } else {
            assert(seq_for(s, x));
            let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).string@ == one_byte(x);
            assert(one_byte(x)[0] == x);
            assert(a[k] == x);
        }
    }
    bytes_len(a);
}
/// a list of all bytes, none twice, has 256
pub proof fn bytes_len(a: Seq<u8>)
    requires a.no_duplicates(), forall|x: u8| #[trigger] a.contains(x)
    ensures a.len() == 256
{
    let v = a.map_values(|b: u8| b as int);
    assert(v.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && i != j implies v[i] != v[j] by { assert(a[i] != a[j]); }
    }
    v.unique_seq_to_set();
    let all = vstd::set_lib::set_int_range(0, 256);
    vstd::set_lib::lemma_int_range(0, 256);
    assert(v.to_set() =~= all) by {
        assert forall|x: int| all.contains(x) implies v.contains(x) by {
            assert(a.contains(x as u8));
            let k = choose|k: int| 0 <= k < a.len() && a[k] == x as u8;
            assert(v[k] == x);
        }
        assert forall|x: int| v.contains(x) implies all.contains(x) by {
            let k = choose|k: int| 0 <= k < v.len() && v[k] == x;
            assert(v[k] == a[k] as int);
        }
    }
}


// ---- C11: frequency-based byte encoding ------------------------------------------------------
/// counts are taken up to this (2^47), so that no 64-bit sum of 256 of them times 256 tokens overflows
pub open spec fn BIG() -> int { 0x8000_0000_0000 }
pub open spec fn chars(c: Seq<(u8, u64)>) -> Seq<u8> { c.map_values(|x: (u8, u64)| x.0) }
pub open spec fn ascending(s: Seq<u8>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i] < s[j] }
/// a table of byte frequencies: ascending bytes with positive counts
pub open spec fn freqs(c: Seq<(u8, u64)>) -> bool {
    &&& ascending(chars(c))
    &&& forall|i: int| 0 <= i < c.len() ==> 1 <= (#[trigger] c[i]).1 <= BIG()
}
pub proof fn ascending_at(s: Seq<u8>, i: int)
    requires ascending(s), 0 <= i < s.len()
    ensures s[i] >= i
    decreases i
{
    if i > 0 { ascending_at(s, i - 1); assert(s[i - 1] < s[i]); }
}
pub proof fn ascending_len(s: Seq<u8>)
    requires ascending(s)
    ensures s.len() <= 256
{
    if s.len() > 256 { ascending_at(s, 256); }
}
/// where a byte of the table is found
pub fn find_in(s: &[(u8, u64)], k: &(u8, u64)) -> (r: Result<usize, usize>)
    requires freqs(s@)
    ensures forall|p: int| 0 <= p < s@.len() && (#[trigger] s@[p]).0 == k.0 && k.1 < s@[p].1 ==> r == Err::<usize, usize>(p as usize)
{
    let ghost c = s@;
    proof {
        assert forall|i: int, j: int| #![trigger c[i], c[j]] 0 <= i < j < c.len() implies c[i].0 < c[j].0 by { assert(chars(c)[i] < chars(c)[j]); }
    }
    let r = crate::vx::binary_search(s, k);
    proof {
        assert forall|p: int| 0 <= p < c.len() && (#[trigger] c[p]).0 == k.0 && k.1 < c[p].1 implies r == Err::<usize, usize>(p as usize) by {
            match r {
                Ok(i) => { assert(c[i as int].vcmp(k) == Cmp3::Equal); }
                Err(i) => {
                    if p < i { assert(c[p].vcmp(k) == Cmp3::Less); }
                    if i < p { assert(c[i as int].vcmp(k) == Cmp3::Greater); }
                }
            }
        }
    }
    r
}
/// the bytes below a node, from left to right
pub open spec fn leaves(n: HuffmanNode) -> Seq<u8>
    decreases n
{
    match n.content {
        HuffmanNodeContent::Leaf(c) => seq![c],
        HuffmanNodeContent::Internal(a, b) => leaves(*a) + leaves(*b),
    }
}
pub proof fn leaves_some(n: HuffmanNode)
    ensures leaves(n).len() > 0
    decreases n
{
    match n.content {
        HuffmanNodeContent::Leaf(c) => {}
        HuffmanNodeContent::Internal(a, b) => { leaves_some(*a); }
    }
}
pub proof fn leaves_parts(n: &HuffmanNode)
    requires ascending(leaves(*n))
    ensures
        match n.content {
            HuffmanNodeContent::Leaf(c) => leaves(*n)[0] == c && leaves(*n).contains(c),
            HuffmanNodeContent::Internal(a, b) => ascending(leaves(*a)) && ascending(leaves(*b)) && leaves(*a)[0] < leaves(*b)[0] && leaves(*n)[0] == leaves(*a)[0]
                && (forall|x: u8| #[trigger] leaves(*a).contains(x) ==> leaves(*n).contains(x))
                && (forall|x: u8| #[trigger] leaves(*b).contains(x) ==> leaves(*n).contains(x)),
        }
{
    match n.content {
        HuffmanNodeContent::Leaf(c) => { assert(leaves(*n)[0] == c); }
        HuffmanNodeContent::Internal(a, b) => {
            let (l, x, y) = (leaves(*n), leaves(*a), leaves(*b));
            leaves_some(*a);
            leaves_some(*b);
            assert forall|i: int| 0 <= i < x.len() implies #[trigger] x[i] == l[i] by {}
            assert forall|i: int| 0 <= i < y.len() implies #[trigger] y[i] == l[x.len() + i] by {}
            assert forall|z: u8| #[trigger] x.contains(z) implies l.contains(z) by {
                let k = choose|k: int| 0 <= k < x.len() && x[k] == z;
                assert(l[k] == z);
            }
            assert forall|z: u8| #[trigger] y.contains(z) implies l.contains(z) by {
                let k = choose|k: int| 0 <= k < y.len() && y[k] == z;
                assert(l[x.len() + k] == z);
            }
        }
    }
}
/// n + 1 positions from 0 to len, cutting it into n non-empty intervals
pub open spec fn cuts(at: Seq<int>, n: int, len: int) -> bool {
    &&& at.len() == n + 1 && at[0] == 0 && at[n] == len
    &&& forall|i: int, j: int| #![trigger at[i], at[j]] 0 <= i < j <= n ==> at[i] < at[j]
}
/// the nodes cover the table, interval by interval
pub open spec fn grouped(c: Seq<(u8, u64)>, nodes: Seq<HuffmanNode>, at: Seq<int>) -> bool {
    &&& cuts(at, nodes.len() as int, c.len() as int)
    &&& forall|i: int| 0 <= i < nodes.len() ==> #[trigger] node_of(c, nodes[i], at[i], at[i + 1])
}
pub open spec fn node_of(c: Seq<(u8, u64)>, n: HuffmanNode, a: int, b: int) -> bool {
    leaves(n) == chars(c).subrange(a, b) && n.count <= (b - a) * BIG()
}
pub proof fn grouped_start(c: Seq<(u8, u64)>, nodes: Seq<HuffmanNode>)
    requires nodes.len() == c.len(), freqs(c),
        forall|i: int| 0 <= i < c.len() ==> (#[trigger] nodes[i]).content == HuffmanNodeContent::Leaf(c[i].0) && nodes[i].count == c[i].1
    ensures grouped(c, nodes, Seq::new(c.len() + 1, |i: int| i))
{
    let at = Seq::new(c.len() + 1, |i: int| i);
    assert forall|i: int| 0 <= i < nodes.len() implies #[trigger] node_of(c, nodes[i], at[i], at[i + 1]) by {
        assert(c[i].1 <= BIG());
        assert(leaves(nodes[i]) =~= chars(c).subrange(i, i + 1));
    }
}
pub proof fn grouped_merge(c: Seq<(u8, u64)>, old_n: Seq<HuffmanNode>, at: Seq<int>, k: int, new_n: Seq<HuffmanNode>)
    requires grouped(c, old_n, at), 0 <= k < old_n.len() - 1,
        new_n.len() == old_n.len() - 1,
        forall|i: int| 0 <= i < k ==> #[trigger] new_n[i] == old_n[i],
        forall|i: int| k < i < new_n.len() ==> #[trigger] new_n[i] == old_n[i + 1],
        new_n[k].count == old_n[k].count + old_n[k + 1].count,
        new_n[k].content is Internal, *(new_n[k].content->Internal_0) == old_n[k], *(new_n[k].content->Internal_1) == old_n[k + 1],
    ensures grouped(c, new_n, at.remove(k + 1))
{
    let b = at.remove(k + 1);
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] == at[if i <= k { i } else { i + 1 }] by {}
    assert forall|i: int| 0 <= i < new_n.len() implies #[trigger] node_of(c, new_n[i], b[i], b[i + 1]) by {
        if i < k {
            assert(node_of(c, old_n[i], at[i], at[i + 1]));
        } else if i > k {
            assert(node_of(c, old_n[i + 1], at[i + 1], at[i + 1 + 1]));
        } else {
            assert(node_of(c, old_n[k], at[k], at[k + 1]));
            assert(node_of(c, old_n[k + 1], at[k + 1], at[k + 1 + 1]));
            assert(at[k] < at[k + 1] && at[k + 1] < at[k + 2] && at[0] <= at[k] && at[k + 2] <= at[old_n.len() as int]) by {
                assert(k > 0 ==> at[0] < at[k]);
                assert(k + 2 < old_n.len() ==> at[k + 2] < at[old_n.len() as int]);
            }
            assert(leaves(new_n[k]) =~= chars(c).subrange(at[k], at[k + 2]));
        }
    }
}
/// counts of neighbouring nodes add up within 64 bits
pub proof fn grouped_sum(c: Seq<(u8, u64)>, nodes: Seq<HuffmanNode>, at: Seq<int>, i: int)
    requires grouped(c, nodes, at), freqs(c), 0 <= i < nodes.len() - 1
    ensures nodes[i].count + nodes[i + 1].count <= u64::MAX
{
    assert(node_of(c, nodes[i], at[i], at[i + 1]));
    assert(node_of(c, nodes[i + 1], at[i + 1], at[i + 1 + 1]));
    ascending_len(chars(c));
    assert(i > 0 ==> at[0] < at[i]);
    assert(i + 2 < nodes.len() ==> at[i + 2] < at[nodes.len() as int]);
    assert(0 <= at[i] && at[i + 2] <= 256);
}
/// the splits are the intervals between the cuts
pub open spec fn split_at(c: Seq<(u8, u64)>, s: CharsSplit, a: int, b: int) -> bool {
    c[a].0 == s.lo && exists|k: int| #[trigger] top_at(c, s, a, b, k)
}
pub open spec fn top_at(c: Seq<(u8, u64)>, s: CharsSplit, a: int, b: int, k: int) -> bool {
    0 <= k < b - a && c[a + k].0 == s.top
}
pub open spec fn splits_of(c: Seq<(u8, u64)>, s: Seq<CharsSplit>, at: Seq<int>) -> bool {
    &&& cuts(at, s.len() as int, c.len() as int)
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] split_at(c, s[i], at[i], at[i + 1])
}
pub proof fn node_ascending(c: Seq<(u8, u64)>, nodes: Seq<HuffmanNode>, at: Seq<int>, i: int)
    requires grouped(c, nodes, at), freqs(c), 0 <= i < nodes.len()
    ensures ascending(leaves(nodes[i]))
{
    assert(node_of(c, nodes[i], at[i], at[i + 1]));
    let (l, s) = (leaves(nodes[i]), chars(c));
    assert(i > 0 ==> at[0] < at[i]);
    assert(i + 1 < nodes.len() ==> at[i + 1] < at[nodes.len() as int]);
    assert(at[i] < at[i + 1]);
    assert forall|j: int, k: int| #![trigger l[j], l[k]] 0 <= j < k < l.len() implies l[j] < l[k] by { assert(s[at[i] + j] < s[at[i] + k]); }
}
pub proof fn node_split(c: Seq<(u8, u64)>, nodes: Seq<HuffmanNode>, at: Seq<int>, i: int, s: CharsSplit)
    requires grouped(c, nodes, at), freqs(c), 0 <= i < nodes.len(), s.lo == leaves(nodes[i])[0], leaves(nodes[i]).contains(s.top)
    ensures split_at(c, s, at[i], at[i + 1])
{
    assert(node_of(c, nodes[i], at[i], at[i + 1]));
    assert(i > 0 ==> at[0] < at[i]);
    assert(i + 1 < nodes.len() ==> at[i + 1] < at[nodes.len() as int]);
    assert(at[i] < at[i + 1]);
    let l = leaves(nodes[i]);
    let k = choose|k: int| 0 <= k < l.len() && l[k] == s.top;
    assert(chars(c)[at[i]] == l[0] && chars(c)[at[i] + k] == l[k]);
    assert(top_at(c, s, at[i], at[i + 1], k));
}

/// a byte and the tokens that write it
pub type Code = (u8, Seq<usize>);
pub open spec fn cv(e: Seq<(u8, Vec<usize>)>) -> Seq<Code> { e.map_values(|x: (u8, Vec<usize>)| (x.0, x.1@)) }
pub open spec fn prefixed(d: usize, w: Seq<Code>) -> Seq<Code> { w.map_values(|x: Code| (x.0, seq![d] + x.1)) }
/// at most m tokens, the first one in lo..hi, the others below n
pub open spec fn code_ok(s: Seq<u8>, c: Code, lo: int, hi: int, n: int, m: int) -> bool {
    s.contains(c.0) && 0 < c.1.len() <= m && lo <= c.1[0] < hi && forall|k: int| 1 <= k < c.1.len() ==> #[trigger] c.1[k] < n
}
pub open spec fn coded(v: Seq<Code>, x: u8) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == x }
/// each byte of s once, all codes different
pub open spec fn codes(s: Seq<u8>, v: Seq<Code>, lo: int, hi: int, n: int, m: int) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> code_ok(s, #[trigger] v[i], lo, hi, n, m)
    &&& forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> v[i].0 != v[j].0 && v[i].1 != v[j].1
    &&& forall|x: u8| #[trigger] s.contains(x) ==> coded(v, x)
}
pub proof fn codes_cat(s1: Seq<u8>, v1: Seq<Code>, s2: Seq<u8>, v2: Seq<Code>, lo: int, mid: int, hi: int, n: int, m: int)
    requires codes(s1, v1, lo, mid, n, m), codes(s2, v2, mid, hi, n, m), lo <= mid <= hi,
        forall|x: u8| #[trigger] s1.contains(x) ==> !s2.contains(x),
    ensures codes(s1 + s2, v1 + v2, lo, hi, n, m)
{
    let (s, v) = (s1 + s2, v1 + v2);
    assert forall|i: int| 0 <= i < v.len() implies code_ok(s, #[trigger] v[i], lo, hi, n, m) by {
        if i < v1.len() {
            assert(code_ok(s1, v1[i], lo, mid, n, m));
            in_cat(s1, s2, v[i].0);
        } else {
            assert(code_ok(s2, v2[i - v1.len()], mid, hi, n, m));
            in_cat(s1, s2, v[i].0);
        }
    }
    assert forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() implies v[i].0 != v[j].0 && v[i].1 != v[j].1 by {
        if j < v1.len() {
            assert(v1[i].0 != v1[j].0);
        } else if i >= v1.len() {
            assert(v2[i - v1.len()].0 != v2[j - v1.len()].0);
        } else {
            assert(code_ok(s1, v1[i], lo, mid, n, m));
            assert(code_ok(s2, v2[j - v1.len()], mid, hi, n, m));
        }
    }
    assert forall|x: u8| #[trigger] s.contains(x) implies coded(v, x) by {
        in_cat(s1, s2, x);
        if s1.contains(x) {
            assert(coded(v1, x));
            let i = choose|i: int| 0 <= i < v1.len() && (#[trigger] v1[i]).0 == x;
            assert(v[i].0 == x);
        } else {
            assert(coded(v2, x));
            let i = choose|i: int| 0 <= i < v2.len() && (#[trigger] v2[i]).0 == x;
            assert(v[v1.len() + i].0 == x);
        }
    }
}
pub proof fn in_cat(a: Seq<u8>, b: Seq<u8>, x: u8)
    ensures (a + b).contains(x) == (a.contains(x) || b.contains(x))
{
    if a.contains(x) {
        let k = choose|k: int| 0 <= k < a.len() && a[k] == x;
        assert((a + b)[k] == x);
    }
    if b.contains(x) {
        let k = choose|k: int| 0 <= k < b.len() && b[k] == x;
        assert((a + b)[a.len() + k] == x);
    }
}
/// the codes of one interval: the top byte by token d alone, the others by d and their own code
pub open spec fn group(top: u8, d: usize, w: Seq<Code>) -> Seq<Code> { seq![(top, seq![d])] + prefixed(d, w) }
pub proof fn codes_group(s: Seq<u8>, k: int, w: Seq<Code>, d: usize, n: int, m: int)
    requires 0 <= k < s.len(), ascending(s), codes(s.remove(k), w, 0, n, n, m - 1), m >= 1
    ensures codes(s, group(s[k], d, w), d as int, d + 1, n, m)
{
    let top = s[k];
    let r = s.remove(k);
    let v = group(top, d, w);
    let p = prefixed(d, w);
    assert(v[0] == (top, seq![d]));
    assert forall|i: int| 1 <= i < v.len() implies #[trigger] v[i] == (w[i - 1].0, seq![d] + w[i - 1].1) by { assert(v[i] == p[i - 1]); }
    assert forall|x: u8| #[trigger] r.contains(x) implies s.contains(x) && x != top by {
        let i = choose|i: int| 0 <= i < r.len() && r[i] == x;
        if i < k { assert(s[i] == x); assert(s[i] < s[k]); } else { assert(s[i + 1] == x); assert(s[k] < s[i + 1]); }
    }
    assert forall|i: int| 0 <= i < v.len() implies code_ok(s, #[trigger] v[i], d as int, d + 1, n, m) by {
        if i > 0 {
            let c = w[i - 1];
            assert(code_ok(r, c, 0, n, n, m - 1));
            assert(s.contains(c.0));
            assert forall|j: int| 1 <= j < v[i].1.len() implies #[trigger] v[i].1[j] < n by { assert(v[i].1[j] == c.1[j - 1]); }
        } else {
            assert(s[k] == top);
        }
    }
    assert forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() implies v[i].0 != v[j].0 && v[i].1 != v[j].1 by {
        let b = w[j - 1];
        assert(code_ok(r, b, 0, n, n, m - 1));
        if i == 0 {
            assert(v[j].1.len() > 1);
        } else {
            let a = w[i - 1];
            assert(a.0 != b.0 && a.1 != b.1);
            if v[i].1 == v[j].1 {
                assert(a.1 =~= v[i].1.drop_first());
                assert(b.1 =~= v[j].1.drop_first());
            }
        }
    }
    assert forall|x: u8| #[trigger] s.contains(x) implies coded(v, x) by {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == x;
        if i == k {
            assert(v[0].0 == x);
        } else {
            if i < k { assert(r[i] == x); } else { assert(r[i - 1] == x); }
            assert(r.contains(x));
            assert(coded(w, x));
            let j = choose|j: int| 0 <= j < w.len() && (#[trigger] w[j]).0 == x;
            assert(v[j + 1].0 == x);
        }
    }
}
pub proof fn codes_more(s: Seq<u8>, v: Seq<Code>, lo: int, hi: int, n: int, m: int, hi2: int, m2: int)
    requires codes(s, v, lo, hi, n, m), hi <= hi2, m <= m2
    ensures codes(s, v, lo, hi2, n, m2)
{
    assert forall|i: int| 0 <= i < v.len() implies code_ok(s, #[trigger] v[i], lo, hi2, n, m2) by { assert(code_ok(s, v[i], lo, hi, n, m)); }
}
/// the table without the top byte of interval a..b
pub open spec fn others(c: Seq<(u8, u64)>, a: int, b: int, k: int) -> Seq<(u8, u64)> { c.subrange(a, b).remove(k) }
pub proof fn others_freqs(c: Seq<(u8, u64)>, a: int, b: int, k: int)
    requires freqs(c), 0 <= a <= a + k < b <= c.len()
    ensures freqs(others(c, a, b, k)), freqs(c.subrange(a, b)), chars(others(c, a, b, k)) == chars(c).subrange(a, b).remove(k), ascending(chars(c).subrange(a, b)),
        others(c, a, b, k).len() == b - a - 1,
{
    let s = c.subrange(a, b);
    let r = others(c, a, b, k);
    let t = chars(c);
    assert(chars(s) =~= t.subrange(a, b));
    assert(chars(r) =~= t.subrange(a, b).remove(k));
    assert forall|i: int, j: int| #![trigger chars(s)[i], chars(s)[j]] 0 <= i < j < s.len() implies chars(s)[i] < chars(s)[j] by { assert(t[a + i] < t[a + j]); }
    assert forall|i: int, j: int| #![trigger chars(r)[i], chars(r)[j]] 0 <= i < j < r.len() implies chars(r)[i] < chars(r)[j] by {
        assert(t[a + if i < k { i } else { i + 1 }] < t[a + if j < k { j } else { j + 1 }]);
    }
    assert forall|i: int| 0 <= i < s.len() implies 1 <= (#[trigger] s[i]).1 <= BIG() by { assert(s[i] == c[a + i]); }
    assert forall|i: int| 0 <= i < r.len() implies 1 <= (#[trigger] r[i]).1 <= BIG() by { assert(r[i] == c[a + if i < k { i } else { i + 1 }]); }
}
pub open spec fn some_below(o: Option<usize>, n: int) -> bool { match o { Some(x) => x < n, None => true } }
/// one more interval is coded
pub proof fn codes_step(c: Seq<(u8, u64)>, sp: Seq<CharsSplit>, at: Seq<int>, i: int, k: int, v: Seq<Code>, w: Seq<Code>, lo: int, d: usize, n: int, m: int)
    requires freqs(c), splits_of(c, sp, at), 0 <= i < sp.len(), top_at(c, sp[i], at[i], at[i + 1], k), m >= c.len(), lo <= d,
        codes(chars(c).take(at[i]), v, lo, d as int, n, m),
        codes(chars(others(c, at[i], at[i + 1], k)), w, 0, n, n, others(c, at[i], at[i + 1], k).len() as int),
    ensures codes(chars(c).take(at[i + 1]), v + group(sp[i].top, d, w), lo, d + 1, n, m)
{
    let (a, b) = (at[i], at[i + 1]);
    cut_order(at, sp.len() as int, c.len() as int, i);
    others_freqs(c, a, b, k);
    let t = chars(c);
    let s = t.subrange(a, b);
    codes_more(s.remove(k), w, 0, n, n, b - a - 1, n, m - 1);
    codes_group(s, k, w, d, n, m);
    assert(s[k] == sp[i].top);
    assert forall|x: u8| #[trigger] t.take(a).contains(x) implies !s.contains(x) by {
        let p = choose|p: int| 0 <= p < a && t.take(a)[p] == x;
        if s.contains(x) {
            let q = choose|q: int| 0 <= q < s.len() && s[q] == x;
            assert(t[p] < t[a + q]);
        }
    }
    codes_cat(t.take(a), v, s, group(sp[i].top, d, w), lo, d as int, d + 1, n, m);
    assert(t.take(a) + s =~= t.take(b));
}
pub proof fn cut_order(at: Seq<int>, n: int, len: int, i: int)
    requires cuts(at, n, len), 0 <= i < n
    ensures 0 <= at[i] < at[i + 1] <= len
{
    assert(i > 0 ==> at[0] < at[i]);
    assert(i + 1 < n ==> at[i + 1] < at[n]);
    assert(at[i] < at[i + 1]);
}
pub proof fn codes_none(n: int, m: int, lo: int, hi: int)
    ensures codes(Seq::empty(), Seq::empty(), lo, hi, n, m)
{}
/// every byte by its number
pub proof fn codes_short(c: Seq<(u8, u64)>, v: Seq<Code>, n: int)
    requires freqs(c), v.len() == c.len(), c.len() <= n,
        forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0 == c[i].0 && v[i].1.len() == 1 && v[i].1[0] == i,
    ensures codes(chars(c), v, 0, n, n, c.len() as int)
{
    let s = chars(c);
    assert forall|i: int| 0 <= i < v.len() implies code_ok(s, #[trigger] v[i], 0, n, n, c.len() as int) by { assert(s[i] == v[i].0); }
    assert forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() implies v[i].0 != v[j].0 && v[i].1 != v[j].1 by { assert(s[i] < s[j]); }
    assert forall|x: u8| #[trigger] s.contains(x) implies coded(v, x) by {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == x;
        assert(v[i].0 == x);
    }
}

pub open spec fn short_code() -> spec_fn(Code) -> bool { |c: Code| c.1.len() == 1 }
pub open spec fn long_code() -> spec_fn(Code) -> bool { |c: Code| c.1.len() != 1 }
pub open spec fn code_tok() -> spec_fn(Code) -> TokV { |c: Code| TokV::Str(one_byte(c.0)) }
/// the bytes with tokens of their own
pub open spec fn tops(v: Seq<Code>) -> Seq<u8> { v.filter(short_code()).map_values(|c: Code| c.0) }
pub open spec fn seq_code(s: Sequence, c: Code) -> bool { s.string@ == one_byte(c.0) && s.tokens@ == c.1 }
/// The set writes exactly the codes v: those of one token by a token for the byte, the others by sequences.
pub open spec fn laid_out(ts: &TokenSet, n: nat, v: Seq<Code>, tail: Seq<TokV>) -> bool {
    let (a, b) = (v.filter(short_code()), v.filter(long_code()));
    &&& ts.toks() == ext_toks(n) + a.map_values(code_tok()) + tail
    &&& forall|j: int| 0 <= j < a.len() ==> (#[trigger] a[j]).1[0] == n + j
    &&& ts.sequences@.len() == b.len()
    &&& forall|j: int| 0 <= j < b.len() ==> seq_code(ts.sequences@[j], #[trigger] b[j])
}
pub proof fn filter_push<T>(v: Seq<T>, x: T, f: spec_fn(T) -> bool)
    ensures v.push(x).filter(f) == if f(x) { v.filter(f).push(x) } else { v.filter(f) }
{
    reveal(Seq::filter);
    assert(v.push(x).drop_last() =~= v);
}
pub proof fn laid_top(t0: &TokenSet, t1: &TokenSet, n: nat, v: Seq<Code>, top: u8, d: usize)
    requires laid_out(t0, n, v, Seq::empty()), d == t0.tokens@.len(), t1.sequences@ == t0.sequences@, t1.toks() == t0.toks().push(TokV::Str(one_byte(top)))
    ensures laid_out(t1, n, v.push((top, seq![d])), Seq::empty())
{
    let x: Code = (top, seq![d]);
    filter_push(v, x, short_code());
    filter_push(v, x, long_code());
    let a = v.filter(short_code());
    assert(t0.toks().len() == d);
    assert(d == n + a.len());
    assert(a.push(x).map_values(code_tok()) =~= a.map_values(code_tok()).push(TokV::Str(one_byte(top))));
    assert(t1.toks() =~= ext_toks(n) + a.push(x).map_values(code_tok()) + Seq::<TokV>::empty());
}
pub proof fn laid_seq(t0: &TokenSet, t1: &TokenSet, n: nat, v: Seq<Code>, c: Code)
    requires laid_out(t0, n, v, Seq::empty()), t1.toks() == t0.toks(), t1.sequences@.len() == t0.sequences@.len() + 1,
        t1.sequences@.drop_last() == t0.sequences@, seq_code(t1.sequences@.last(), c), c.1.len() > 1,
    ensures laid_out(t1, n, v.push(c), Seq::empty())
{
    filter_push(v, c, short_code());
    filter_push(v, c, long_code());
    let b = v.push(c).filter(long_code());
    assert forall|j: int| 0 <= j < b.len() implies seq_code(t1.sequences@[j], #[trigger] b[j]) by {
        if j < b.len() - 1 { assert(t1.sequences@.drop_last()[j] == t0.sequences@[j]); assert(v.filter(long_code())[j] == b[j]); }
    }
}
/// a sequence of a laid-out set is for a byte of v
pub proof fn laid_from(ts: &TokenSet, n: nat, v: Seq<Code>, tail: Seq<TokV>, q: int) -> (r: int)
    requires laid_out(ts, n, v, tail), 0 <= q < ts.sequences@.len()
    ensures 0 <= r < v.len(), seq_code(ts.sequences@[q], v[r]), v[r].1.len() != 1, v[r] == v.filter(long_code())[q]
{
    let b = v.filter(long_code());
    filter_in(v, long_code(), q);
    assert(seq_code(ts.sequences@[q], b[q]));
    choose|k: int| 0 <= k < v.len() && v[k] == b[q] && long_code()(v[k])
}
pub proof fn no_seq_for(ts: &TokenSet, n: nat, v: Seq<Code>, tail: Seq<TokV>, x: u8)
    requires laid_out(ts, n, v, tail), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0 != x
    ensures ts.sequences@.filter(keeps(one_byte(x))) == ts.sequences@
{
    assert forall|q: int| 0 <= q < ts.sequences@.len() implies keeps(one_byte(x))(#[trigger] ts.sequences@[q]) by {
        let i = laid_from(ts, n, v, tail, q);
        if one_byte(v[i].0) == one_byte(x) { one_byte_inj(v[i].0, x); }
    }
    filter_all(ts.sequences@, keeps(one_byte(x)));
}
pub proof fn no_seq_long(ts: &TokenSet, n: nat, v: Seq<Code>, tail: Seq<TokV>, t: Seq<u8>)
    requires laid_out(ts, n, v, tail), t.len() > 1
    ensures ts.sequences@.filter(keeps(t)) == ts.sequences@
{
    assert forall|q: int| 0 <= q < ts.sequences@.len() implies keeps(t)(#[trigger] ts.sequences@[q]) by {
        let i = laid_from(ts, n, v, tail, q);
    }
    filter_all(ts.sequences@, keeps(t));
}
/// the top byte of interval i is not among the bytes before
pub proof fn top_new(c: Seq<(u8, u64)>, sp: Seq<CharsSplit>, at: Seq<int>, i: int, k: int, v: Seq<Code>, lo: int, hi: int, n: int, m: int)
    requires freqs(c), splits_of(c, sp, at), 0 <= i < sp.len(), top_at(c, sp[i], at[i], at[i + 1], k), codes(chars(c).take(at[i]), v, lo, hi, n, m)
    ensures forall|j: int| 0 <= j < v.len() ==> (#[trigger] v[j]).0 != sp[i].top
{
    cut_order(at, sp.len() as int, c.len() as int, i);
    let t = chars(c);
    assert forall|j: int| 0 <= j < v.len() implies (#[trigger] v[j]).0 != sp[i].top by {
        assert(code_ok(t.take(at[i]), v[j], lo, hi, n, m));
        let p = choose|p: int| 0 <= p < at[i] && t.take(at[i])[p] == v[j].0;
        assert(t[p] < t[at[i] + k]);
    }
}
/// the set without the long tokens
pub open spec fn base_set(c: Seq<(u8, u64)>, ts: &TokenSet, n: int, b: int, p: Processing, v: Seq<Code>) -> bool {
    &&& ts.n_ext_tokens == n && ts.token_type == TokenType::BytesHuff && ts.processing == p && ts.split_paragraphs
    &&& laid_out(ts, n as nat, v, Seq::empty()) && codes(chars(c), v, n, n + b, n, c.len() as int)
    &&& ts.tokens@.len() == n + b
}
pub proof fn base_bounds(c: Seq<(u8, u64)>, ts: &TokenSet, n: int, b: int, p: Processing, v: Seq<Code>)
    requires base_set(c, ts, n, b, p, v), n >= 0, freqs(c)
    ensures
        forall|i: int| 0 <= i < ts.tokens@.len() ==> match #[trigger] ts.tokens@[i].v() { TokV::Str(s) => s.len() == 1, _ => true },
        forall|q: int| 0 <= q < ts.sequences@.len() ==> (#[trigger] ts.sequences@[q]).string@.len() == 1 && ts.sequences@[q].tokens@.len() <= 256,
        v.len() <= 256, ts.sequences@.len() <= 256,
{
    let a = v.filter(short_code());
    assert(ts.toks().len() == ts.tokens@.len());
    assert forall|i: int| 0 <= i < ts.tokens@.len() implies match #[trigger] ts.tokens@[i].v() { TokV::Str(s) => s.len() == 1, _ => true } by {
        assert(ts.toks()[i] == ts.tokens@[i].v());
        if i >= n { assert(ts.toks()[i] == code_tok()(a[i - n])); }
    }
    ascending_len(chars(c));
    assert forall|q: int| 0 <= q < ts.sequences@.len() implies (#[trigger] ts.sequences@[q]).string@.len() == 1 && ts.sequences@[q].tokens@.len() <= 256 by {
        let i = laid_from(ts, n as nat, v, Seq::empty(), q);
        assert(code_ok(chars(c), v[i], n, n + b, n, c.len() as int));
    }
    let w = v.map_values(|x: Code| x.0);
    assert(w.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < w.len() && 0 <= j < w.len() && i != j implies w[i] != w[j] by {
            if i < j { assert(v[i].0 != v[j].0); } else { assert(v[j].0 != v[i].0); }
        }
    }
    bytes_few(w);
    filter_few(v, long_code());
}
/// different bytes are at most 256
pub proof fn bytes_few(a: Seq<u8>)
    requires a.no_duplicates()
    ensures a.len() <= 256
{
    let v = a.map_values(|b: u8| b as int);
    assert(v.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && i != j implies v[i] != v[j] by { assert(a[i] != a[j]); }
    }
    v.unique_seq_to_set();
    let all = vstd::set_lib::set_int_range(0, 256);
    vstd::set_lib::lemma_int_range(0, 256);
    assert forall|x: int| v.to_set().contains(x) implies all.contains(x) by {
        let k = choose|k: int| 0 <= k < v.len() && v[k] == x;
        assert(v[k] == a[k] as int);
    }
    vstd::set_lib::lemma_len_subset(v.to_set(), all);
}
pub proof fn filter_few<T>(s: Seq<T>, f: spec_fn(T) -> bool)
    ensures s.filter(f).len() <= s.len()
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 { filter_few(s.drop_last(), f); }
}
/// a table with an entry for every byte
pub open spec fn byte_table(c: Seq<(u8, u64)>) -> bool {
    c.len() == 256 && forall|i: int| 0 <= i < 256 ==> (#[trigger] c[i]).0 == i && 1 <= c[i].1 <= BIG()
}
pub proof fn byte_table_freqs(c: Seq<(u8, u64)>)
    requires byte_table(c)
    ensures freqs(c), forall|x: u8| #[trigger] chars(c).contains(x)
{
    assert forall|i: int, j: int| #![trigger chars(c)[i], chars(c)[j]] 0 <= i < j < 256 implies chars(c)[i] < chars(c)[j] by { assert(c[i].0 == i && c[j].0 == j); }
    assert forall|x: u8| #[trigger] chars(c).contains(x) by { assert(c[x as int].0 == x); assert(chars(c)[x as int] == x); }
}
pub open spec fn encodable(st: &TokenStats) -> bool {
    let ts = &st.token_set;
    &&& covering(ts)
    &&& forall|q: int| 0 <= q < ts.sequences@.len() ==> (#[trigger] ts.sequences@[q]).string@.len() == 1
    &&& st.token_counts@.len() == ts.tokens@.len() && st.seq_counts@.len() == ts.sequences@.len()
    &&& forall|i: int| 0 <= i < st.token_counts@.len() ==> #[trigger] st.token_counts@[i] < BIG()
    &&& forall|i: int| 0 <= i < st.seq_counts@.len() ==> #[trigger] st.seq_counts@[i] < BIG()
}
pub open spec fn all_codes(v: Seq<Code>, n: int, b: int) -> bool {
    exists|c: Seq<(u8, u64)>| #[trigger] byte_table(c) && codes(chars(c), v, n, n + b, n, 256)
}
/// C11
pub open spec fn huffed(o: &TokenSet, budget: int, r: &TokenSet, v: Seq<Code>) -> bool {
    let n = r.n_ext_tokens as int;
    &&& r.token_type == TokenType::BytesHuff && r.processing == o.processing && r.split_paragraphs
    &&& 2 <= n && n + tops(v).len() <= budget
    &&& n + tops(v).len() == budget || r.sequences@.len() == 0
    &&& laid_out(r, n as nat, v, o.toks().filter(long_tok()))
    &&& all_codes(v, n, tops(v).len() as int)
}
pub open spec fn best_ok(best: Option<TokenSet>, c: Seq<(u8, u64)>, budget: int, p: Processing) -> bool {
    match best { Some(ts) => base_ok(&ts, c, budget, p), None => true }
}
pub open spec fn base_ok(ts: &TokenSet, c: Seq<(u8, u64)>, budget: int, p: Processing) -> bool {
    &&& 2 <= ts.n_ext_tokens <= 10 && ts.n_ext_tokens < budget
    &&& exists|v: Seq<Code>| #[trigger] base_set(c, ts, ts.n_ext_tokens as int, n_tops(budget - ts.n_ext_tokens), p, v)
}
pub open spec fn n_tops(parts: int) -> int { if 256 <= parts { 256 } else { parts } }
pub proof fn tops_len(v: Seq<Code>, s: Seq<u8>, lo: int, hi: int, n: int, m: int)
    requires codes(s, v, lo, hi, n, m), forall|x: u8| #[trigger] s.contains(x)
    ensures v.len() == 256, v.filter(short_code()).len() + v.filter(long_code()).len() == 256
{
    let w = v.map_values(|x: Code| x.0);
    assert forall|i: int, j: int| 0 <= i < w.len() && 0 <= j < w.len() && i != j implies w[i] != w[j] by {
        if i < j { assert(v[i].0 != v[j].0); } else { assert(v[j].0 != v[i].0); }
    }
    assert forall|x: u8| #[trigger] w.contains(x) by {
        assert(s.contains(x));
        assert(coded(v, x));
        let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == x;
        assert(w[i] == x);
    }
    bytes_len(w);
    filter_parts(v);
}
pub proof fn filter_parts(v: Seq<Code>)
    ensures v.filter(short_code()).len() + v.filter(long_code()).len() == v.len()
    decreases v.len()
{
    reveal(Seq::filter);
    if v.len() > 0 { filter_parts(v.drop_last()); }
}
/// C11: one encoding for each byte, within the budget, and a set that tokenizes everything.
pub proof fn c11_result(o: &TokenSet, budget: int, r: &TokenSet, v: Seq<Code>)
    requires covering(o), huffed(o, budget, r, v), r.n_ext_tokens <= 10
    ensures
        covering(r), keyable(r.sv()), cost_bound(r, 256), r.tokens@.len() == r.n_ext_tokens + tops(v).len() + n_long(o.toks()),
        r.tokens@.len() <= budget + n_long(o.toks()), n_long(r.toks()) == n_long(o.toks()),
        tops(v).len() + r.sequences@.len() == 256,
{
    let n = r.n_ext_tokens as int;
    let a = v.filter(short_code());
    let t = tops(v);
    let tail = o.toks().filter(long_tok());
    let c = choose|c: Seq<(u8, u64)>| #[trigger] byte_table(c) && codes(chars(c), v, n, n + t.len(), n, 256);
    byte_table_freqs(c);
    tops_len(v, chars(c), n, n + t.len() as int, n, 256);
    assert(t.map_values(byte_tok()) =~= a.map_values(code_tok()));
    assert(assembled(o, r, n as nat, t));
    assert(r.toks().len() == r.tokens@.len());
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by {
        if i < j { let (k, l) = filter_pair(v, short_code(), i, j); assert(v[k].0 != v[l].0); }
        else { let (k, l) = filter_pair(v, short_code(), j, i); assert(v[k].0 != v[l].0); }
    }
    assert forall|q: int| 0 <= q < r.sequences@.len() implies (#[trigger] r.sequences@[q]).string@.len() == 1 && !t.contains(r.sequences@[q].string@[0])
        && 1 < r.sequences@[q].tokens@.len() <= 256 && r.sequences@[q].idx_below(r.tokens@.len() as int) by {
        let i = laid_from(r, n as nat, v, tail, q);
        assert(code_ok(chars(c), v[i], n, n + t.len(), n, 256));
        let x = r.sequences@[q].string@[0];
        if t.contains(x) {
            let k = choose|k: int| 0 <= k < t.len() && t[k] == x;
            filter_in(v, short_code(), k);
            let l = choose|l: int| 0 <= l < v.len() && v[l] == a[k] && short_code()(v[l]);
            if l < i { assert(v[l].0 != v[i].0); }
            if i < l { assert(v[i].0 != v[l].0); }
        }
        assert forall|j: int| 0 <= j < r.sequences@[q].tokens@.len() implies #[trigger] r.sequences@[q].tokens@[j] < r.tokens@.len() by {
            assert(r.sequences@[q].tokens@[j] == v[i].1[j]);
        }
    }
    assert forall|i: int, j: int| 0 <= i < j < r.sequences@.len() implies (#[trigger] r.sequences@[i]).string@[0] != (#[trigger] r.sequences@[j]).string@[0] by {
        let b = v.filter(long_code());
        let (k, l) = filter_pair(v, long_code(), i, j);
        assert(v[k].0 != v[l].0);
        assert(seq_code(r.sequences@[i], b[i]) && seq_code(r.sequences@[j], b[j]));
    }
    assert forall|x: u8| !#[trigger] t.contains(x) implies seq_for(r.sequences@, x) by {
        assert(chars(c).contains(x));
        assert(coded(v, x));
        let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == x;
        if v[i].1.len() == 1 {
            filter_has(v, short_code(), i);
            let k = choose|k: int| 0 <= k < a.len() && a[k] == v[i];
            assert(t[k] == x);
        }
        filter_has(v, long_code(), i);
        let b = v.filter(long_code());
        let k = choose|k: int| 0 <= k < b.len() && b[k] == v[i];
        assert(seq_code(r.sequences@[k], b[k]));
    }
    assembled_covering(o, r, n as nat, t);
}
@fn SimpleBytesOptimizer::optimize_bytes -> r
@props C12 C14
@attr #[verifier::rlimit(60)]
@spec
requires n_byte_ext_tokens >= stats.token_set.n_ext_tokens, reselectable(stats)
ensures exists|chosen: Seq<u8>| #[trigger] reselected(stats, n_byte_ext_tokens as int, &r, chosen),
    covering(&r), keyable(r.sv()), cost_bound(&r, digits_of(r.token_type)), n_long(r.toks()) == n_long(stats.token_set.toks()),
    r.tokens@.len() == stats.token_set.n_ext_tokens + n_chosen(n_byte_ext_tokens as int, stats.token_set.n_ext_tokens as int) + n_long(stats.token_set.toks()),
    r.sequences@.len() == 256 - n_chosen(n_byte_ext_tokens as int, stats.token_set.n_ext_tokens as int),
@start
let ghost __st = stats;
let ghost __ts = &stats.token_set;
let ghost __b = base_of(stats.token_set.token_type);
let ghost __n = digits_of(stats.token_set.token_type);
let ghost mut __all: Seq<u8> = Seq::empty();
proof { reveal(Seq::filter); }
@type single_byte_tokens Vec<Vec<u8>>
@loop 0
    table(byte_counts@, __st, __d0, 0),
@loop 0 start
let ghost __a = byte_counts@;
proof { assert(__st.token_counts@[__d0] <= i64::MAX); }
@loop 0 end
proof { table_tok(__a, __st, __d0, byte_counts@); }
@loop 1
    table(byte_counts@, __st, __ts.tokens@.len() as int, __d1),
@loop 1 start
let ghost __a = byte_counts@;
proof { assert(__st.seq_counts@[__d1] <= i64::MAX); }
@loop 1 end
proof { table_seq(__a, __st, __d1, byte_counts@); }
@loop 2
    __acc2@.len() == __d2, forall|i: int| 0 <= i < __d2 ==> #[trigger] __acc2@[i] == i,
@loop 2 after
proof { __all = __acc2@; }
@closure 0
|i: &u8| -> (r: i64) requires byte_counts@.len() == 256, byte_counts@[*i as int] >= 0 ensures r == -byte_counts@[*i as int]
@before "let selected_bytes"
proof {
    let (ks, p): (Seq<i64>, Seq<int>) = choose|ks: Seq<i64>, p: Seq<int>| #[trigger] sort_result(__all, bytes@, ks, p) && stable(ks, p)
        && forall|i: int| #![trigger ks[i]] 0 <= i < __all.len() ==> ks[i] == -byte_counts@[__all[i] as int];
    rank(__st, byte_counts@, __all, bytes@, ks, p);
    ranked_top(__st, bytes@, n_byte_tokens as int);
}
@loop 3 before
proof {
    left_start(&new_token_set, __b, __n);
    assert(selected_bytes@ =~= bytes@.take(n_byte_tokens as int));
    assert(selected_bytes@.take(0) =~= Seq::<u8>::empty());
    assert(new_token_set.toks() =~= ext_toks(__b) + selected_bytes@.take(0).map_values(byte_tok()));
}
@loop 3
    new_token_set.same_header(__ts),
    new_token_set.toks() == ext_toks(__b) + selected_bytes@.take(__d3).map_values(byte_tok()),
    left(new_token_set.sequences@, selected_bytes@.take(__d3), __b, __n),
@loop 3 start
let ghost __s = new_token_set;
@loop 3 end
proof {
    let c = selected_bytes@.take(__d3);
    let x = selected_bytes@[__d3];
    left_step(__s.sequences@, c, x, __b, __n);
    assert(selected_bytes@.take(__d3 + 1) =~= c.push(x));
    assert(new_token_set.tokens@.last().v()->Str_0 =~= one_byte(x));
    assert(new_token_set.tokens@.last().v() == TokV::Str(one_byte(x)));
    assert(new_token_set.toks() =~= __s.toks().push(TokV::Str(one_byte(x))));
    assert(new_token_set.toks() =~= ext_toks(__b) + c.push(x).map_values(byte_tok()));
}
@loop 4 before
proof {
    assert(selected_bytes@.take(selected_bytes@.len() as int) =~= selected_bytes@);
    assert(__ts.toks().take(0).filter(long_tok()) =~= Seq::<TokV>::empty());
    assert(new_token_set.toks() =~= ext_toks(__b) + selected_bytes@.map_values(byte_tok()) + __ts.toks().take(0).filter(long_tok()));
}
@loop 4
    new_token_set.same_header(__ts),
    new_token_set.toks() == ext_toks(__b) + selected_bytes@.map_values(byte_tok()) + __ts.toks().take(__d4).filter(long_tok()),
    left(new_token_set.sequences@, selected_bytes@, __b, __n),
@loop 4 start
let ghost __s = new_token_set;
@loop 4 end
proof {
    let t = __ts.toks()[__d4];
    assert(t == __ts.tokens@[__d4].v());
    filter_step(__ts.toks(), __d4, long_tok());
    if is_long(t) {
        left_long(__s.sequences@, selected_bytes@, t->Str_0, __b, __n);
        assert(new_token_set.toks() =~= __s.toks().push(t));
        assert(new_token_set.toks() =~= ext_toks(__b) + selected_bytes@.map_values(byte_tok()) + __ts.toks().take(__d4 + 1).filter(long_tok()));
    }
}
@end
proof {
    assert(__ts.toks().take(__ts.toks().len() as int) =~= __ts.toks());
    assert(reselected(__st, n_byte_ext_tokens as int, &__ret, selected_bytes@));
    c12_result(__st, n_byte_ext_tokens as int, &__ret, selected_bytes@);
}

@fn node_to_split -> r
@props C11 C14
@spec
requires ascending(leaves(*node))
ensures r.lo == leaves(*node)[0], leaves(*node).contains(r.top)
decreases node
@start
proof { leaves_parts(node); }

@fn optimize_splits -> r
@props C11 C14
@spec
requires freqs(counts@), parts >= 1
ensures exists|at: Seq<int>| #[trigger] splits_of(counts@, r@, at), r@.len() == if counts@.len() <= parts { counts@.len() as int } else { parts as int }
@start
let ghost mut __at: Seq<int> = Seq::empty();
@type nodes Vec<HuffmanNode>
@loop 0
    nodes@.len() == __d0,
    forall|i: int| 0 <= i < __d0 ==> (#[trigger] nodes@[i]).content == HuffmanNodeContent::Leaf(counts@[i].0) && nodes@[i].count == counts@[i].1,
@loop 1 before
proof { __at = Seq::new(counts@.len() + 1, |i: int| i); grouped_start(counts@, nodes@); }
@loop 1
    grouped(counts@, nodes@, __at), nodes@.len() <= counts@.len(), counts@.len() <= parts ==> nodes@.len() == counts@.len(),
        counts@.len() > parts ==> nodes@.len() >= parts,
    decreases nodes@.len()
@loop 1 start
let ghost __n0 = nodes@;
proof {
    assert forall|i: int| 0 <= i < nodes@.len() - 1 implies (#[trigger] nodes@[i]).count + nodes@[i + 1].count <= u64::MAX by { grouped_sum(counts@, nodes@, __at, i); }
}
@loop 1 end
proof {
    grouped_merge(counts@, __n0, __at, best_idx as int, nodes@);
    __at = __at.remove(best_idx + 1);
}
@loop 2
    nodes@ == __n0, min_pair_count is Some == best_idx is Some, __d2 > 0 ==> best_idx is Some, some_below(best_idx, __d2),
@type splits Vec<CharsSplit>
@loop 3
    splits@.len() == __d3,
    forall|i: int| 0 <= i < __d3 ==> #[trigger] split_at(counts@, splits@[i], __at[i], __at[i + 1]),
@loop 3 start
proof { node_ascending(counts@, nodes@, __at, __d3); }
@loop 3 end
proof { node_split(counts@, nodes@, __at, __d3, splits@[__d3]); }
@end
assert(splits_of(counts@, __ret@, __at));

@fn optimize_ext_encoding -> r
@props C11 C14
@attr #[verifier::rlimit(60)]
@spec
requires freqs(counts@), n_ext_tokens >= 1
ensures codes(chars(counts@), cv(r@), 0, n_ext_tokens as int, n_ext_tokens as int, counts@.len() as int)
decreases counts@.len()
@start
let ghost __n = n_ext_tokens as int;
let ghost __c = counts@;
let ghost mut __at: Seq<int> = Seq::empty();
@type __acc0 Vec<(u8, Vec<usize>)>
@loop 0
    __acc0@.len() == __d0,
    forall|i: int| 0 <= i < __d0 ==> (#[trigger] __acc0@[i]).0 == __c[i].0 && __acc0@[i].1@.len() == 1 && __acc0@[i].1@[0] == i,
@loop 0 after
proof { codes_short(__c, cv(__acc0@), __n); }
@type encodings Vec<(u8, Vec<usize>)>
@loop 1 before
proof {
    __at = choose|at: Seq<int>| #[trigger] splits_of(__c, splits@, at);
    codes_none(__n, __c.len() as int, 0, 0);
    assert(chars(__c).take(0) =~= Seq::<u8>::empty());
    assert(cv(encodings@) =~= Seq::<Code>::empty());
}
@loop 1
    splits_of(__c, splits@, __at),
    codes(chars(__c).take(__at[__d1]), cv(encodings@), 0, __d1, __n, __c.len() as int),
@loop 1 start
let ghost __v = cv(encodings@);
let ghost mut __w: Seq<Code> = Seq::empty();
let ghost (__a, __b) = (__at[__d1], __at[__d1 + 1]);
assert(split_at(__c, splits@[__d1], __a, __b));
let ghost __t = choose|k: int| #[trigger] top_at(__c, splits@[__d1], __a, __b, k);
proof {
    cut_order(__at, splits@.len() as int, __c.len() as int, __d1);
    others_freqs(__c, __a, __b, __t);
    assert(__c[__a].0 == splits@[__d1].lo);
    if __d1 + 1 < splits@.len() { assert(split_at(__c, splits@[__d1 + 1], __at[__d1 + 1], __at[__d1 + 1 + 1])); assert(__c[__b].0 == splits@[__d1 + 1].lo); }
    assert(__c.subrange(__a, __b)[__t] == __c[__a + __t]);
    if __b == __a + 1 {
        codes_none(__n, 0, 0, __n);
        assert(chars(others(__c, __a, __b, __t)) =~= Seq::<u8>::empty());
    }
}
@loop 2 before
proof {
    __w = cv(__q2);
    assert(prefixed(i, cv(__q2).take(0)) =~= Seq::<Code>::empty());
    assert(encodings@.last().1@ =~= seq![i]);
    assert(__w.take(0) =~= Seq::<Code>::empty());
    assert(cv(encodings@) =~= __v + group(split.top, i, __w.take(0)));
}
@loop 2
    cv(encodings@) == __v + group(split.top, i, __w.take(__it2.pos() as int)), __w == cv(__q2),
@loop 2 start
let ghost __e0 = cv(encodings@);
@loop 2 end
proof {
    let k = __it2.pos() - 1;
    assert(cv(__q2)[k] == (__q2[k].0, __q2[k].1@));
    assert(__w.take(k + 1) =~= __w.take(k).push(__w[k]));
    assert(prefixed(i, __w.take(k + 1)) =~= prefixed(i, __w.take(k)).push((__w[k].0, seq![i] + __w[k].1)));
    assert(encodings@.last().1@ =~= seq![i] + __w[k].1);
    assert(cv(encodings@) =~= __e0.push((__w[k].0, seq![i] + __w[k].1)));
    assert(cv(encodings@) =~= __v + group(split.top, i, __w.take(k + 1)));
}
@loop 2 after
assert(__w.take(__w.len() as int) =~= __w);
@loop 1 end
proof {
    if __b == __a + 1 { assert(encodings@.last().1@ =~= seq![i]); }
    assert(cv(encodings@) =~= __v + group(split.top, i, __w));
    codes_step(__c, splits@, __at, __d1, __t, __v, __w, 0, i, __n, __c.len() as int);
}
@end
proof {
    assert(chars(__c).take(__c.len() as int) =~= chars(__c));
    codes_more(chars(__c), cv(__ret@), 0, splits@.len() as int, __n, __c.len() as int, __n, __c.len() as int);
}

@fn optimize_bytes_tokenset -> r
@props C11 C14
@attr #[verifier::rlimit(60)]
@spec
requires byte_table(counts@), n_char_tokens >= 1, 1 <= n_ext_tokens < 200
ensures exists|v: Seq<Code>| #[trigger] base_set(counts@, &r, n_ext_tokens as int, n_tops(n_char_tokens as int), processing, v)
@start
let ghost __n = n_ext_tokens as int;
let ghost __c = counts@;
let ghost mut __at: Seq<int> = Seq::empty();
let ghost mut __v: Seq<Code> = Seq::empty();
proof { reveal(Seq::filter); byte_table_freqs(__c); }
@loop 0 before
proof {
    __at = choose|at: Seq<int>| #[trigger] splits_of(__c, top_splits@, at);
    codes_none(__n, 256, __n, __n);
    assert(chars(__c).take(0) =~= Seq::<u8>::empty());
    assert(token_set.toks() =~= ext_toks(__n as nat) + __v.filter(short_code()).map_values(code_tok()) + Seq::<TokV>::empty());
}
@loop 0
    splits_of(__c, top_splits@, __at), token_set.n_ext_tokens == __n, token_set.token_type == TokenType::BytesHuff, token_set.processing == processing, token_set.split_paragraphs,
    token_set.tokens@.len() == __n + __d0,
    laid_out(&token_set, __n as nat, __v, Seq::empty()),
    codes(chars(__c).take(__at[__d0]), __v, __n, __n + __d0, __n, 256),
@loop 0 start
let ghost __t0 = token_set;
let ghost mut __w: Seq<Code> = Seq::empty();
let ghost (__a, __b) = (__at[__d0], __at[__d0 + 1]);
assert(split_at(__c, top_splits@[__d0], __a, __b));
let ghost __t = choose|k: int| #[trigger] top_at(__c, top_splits@[__d0], __a, __b, k);
proof {
    cut_order(__at, top_splits@.len() as int, 256, __d0);
    others_freqs(__c, __a, __b, __t);
    assert(__c[__a].0 == top_splits@[__d0].lo);
    if __d0 + 1 < top_splits@.len() { assert(split_at(__c, top_splits@[__d0 + 1], __at[__d0 + 1], __at[__d0 + 1 + 1])); assert(__c[__b].0 == top_splits@[__d0 + 1].lo); }
    assert(__c.subrange(__a, __b)[__t] == __c[__a + __t]);
    if __b == __a + 1 {
        codes_none(__n, 0, 0, __n);
        assert(chars(others(__c, __a, __b, __t)) =~= Seq::<u8>::empty());
    }
    top_new(__c, top_splits@, __at, __d0, __t, __v, __n, __n + __d0, __n, 256);
    no_seq_for(&token_set, __n as nat, __v, Seq::empty(), top_splits@[__d0].top);
}
@loop 1 before
proof {
    assert(token_set.tokens@.last().v()->Str_0 =~= one_byte(split.top));
    assert(token_set.toks() =~= __t0.toks().push(TokV::Str(one_byte(split.top))));
    laid_top(&__t0, &token_set, __n as nat, __v, split.top, top_token_id);
    __w = cv(__q1);
    assert(prefixed(top_token_id, __w.take(0)) =~= Seq::<Code>::empty());
    assert(__v.push((split.top, seq![top_token_id])) =~= __v + group(split.top, top_token_id, __w.take(0)));
}
@loop 1
    token_set.same_header(&__t0), token_set.tokens@.len() == __n + __d0 + 1, __w == cv(__q1),
    laid_out(&token_set, __n as nat, __v + group(split.top, top_token_id, __w.take(__it1.pos() as int)), Seq::empty()),
@loop 1 start
let ghost __t1 = token_set;
let ghost __k1 = __it1.pos() as int;
proof { assert(code_ok(chars(others(__c, __a, __b, __t)), __w[__k1], 0, __n, __n, __b - __a - 1)); }
@loop 1 end
proof {
    let k = __k1;
    assert(cv(__q1)[k] == (__q1[k].0, __q1[k].1@));
    let x = (__w[k].0, seq![top_token_id] + __w[k].1);
    let g = __v + group(split.top, top_token_id, __w.take(k));
    assert(token_set.sequences@.last().tokens@ =~= x.1);
    assert(token_set.sequences@.last().string@ =~= one_byte(x.0));
    laid_seq(&__t1, &token_set, __n as nat, g, x);
    assert(__w.take(k + 1) =~= __w.take(k).push(__w[k]));
    assert(prefixed(top_token_id, __w.take(k + 1)) =~= prefixed(top_token_id, __w.take(k)).push(x));
    assert(g.push(x) =~= __v + group(split.top, top_token_id, __w.take(k + 1)));
}
@loop 1 after
assert(__w.take(__w.len() as int) =~= __w);
@loop 0 end
proof {
    if __b == __a + 1 {
        assert(token_set.tokens@.last().v()->Str_0 =~= one_byte(split.top));
        assert(token_set.toks() =~= __t0.toks().push(TokV::Str(one_byte(split.top))));
        laid_top(&__t0, &token_set, __n as nat, __v, split.top, top_token_id);
        assert(prefixed(top_token_id, __w) =~= Seq::<Code>::empty());
        assert(__v.push((split.top, seq![top_token_id])) =~= __v + group(split.top, top_token_id, __w));
    }
    codes_step(__c, top_splits@, __at, __d0, __t, __v, __w, __n, top_token_id, __n, 256);
    __v = __v + group(split.top, top_token_id, __w);
}
@end
proof {
    assert(chars(__c).take(256) =~= chars(__c));
    assert(base_set(__c, &__ret, __n, n_tops(n_char_tokens as int), processing, __v));
}

@fn HuffOptimizer::optimize_bytes -> r
@props C11 C14
@attr #[verifier::rlimit(100)]
@spec
requires n_byte_ext_tokens >= 3, encodable(token_stats)
ensures exists|v: Seq<Code>| #[trigger] huffed(&token_stats.token_set, n_byte_ext_tokens as int, &r, v),
    covering(&r), keyable(r.sv()), cost_bound(&r, 256), n_long(r.toks()) == n_long(token_stats.token_set.toks()),
    r.tokens@.len() <= n_byte_ext_tokens + n_long(token_stats.token_set.toks()), r.n_ext_tokens <= 10,
%C14,C17,C18     r.tokens@.len() <= 258 + n_long(token_stats.token_set.toks()),
@start
let ghost __st = token_stats;
let ghost __ts = &token_stats.token_set;
let ghost __budget = n_byte_ext_tokens as int;
let ghost mut __v: Seq<Code> = Seq::empty();
proof { reveal(Seq::filter); }
@loop 0
    __acc0@.len() == __d0, forall|i: int| 0 <= i < __d0 ==> (#[trigger] __acc0@[i]).0 == i && __acc0@[i].1 == 1,
@loop 1
    byte_table(counts@),
@loop 1 start
assert(__st.token_counts@[__d1] < BIG());
@loop 2
    byte_table(counts@),
@loop 2 start
assert(__st.seq_counts@[__d2] < BIG());
assert(__ts.sequences@[__d2].string@.len() == 1);
@loop 3 before
proof { byte_table_freqs(counts@); }
@loop 3
    best_token_set is Some == best_total_tokens is Some, __d3 > 2 ==> best_token_set is Some,
    best_ok(best_token_set, counts@, __budget, token_stats.token_set.processing),
%C14,C17,C18     __budget >= 258 && __d3 > 2 ==> slim(best_token_set, best_total_tokens, counts@),
%C14,C17,C18     __d3 <= 2 ==> best_total_tokens is None,
@loop 3 start
let ghost mut __u: Seq<Code> = Seq::empty();
let ghost mut __tv: Seq<TokV> = Seq::empty();
@loop 4 before
proof {
    __tv = token_set.toks();
%C14,C17,C18     __u = choose|v: Seq<Code>| #[trigger] base_set(counts@, &token_set, n_ext_tokens as int, n_tops(n_byte_tokens as int), token_stats.token_set.processing, v);
%C14,C17,C18     base_weight(counts@, &token_set, n_ext_tokens as int, n_tops(n_byte_tokens as int), token_stats.token_set.processing, __u);
%C14,C17,C18     assert(__tv.take(0) =~= Seq::<TokV>::empty());
    let v = choose|v: Seq<Code>| #[trigger] base_set(counts@, &token_set, n_ext_tokens as int, n_tops(n_byte_tokens as int), token_stats.token_set.processing, v);
    base_bounds(counts@, &token_set, n_ext_tokens as int, n_tops(n_byte_tokens as int), token_stats.token_set.processing, v);
    assert(base_ok(&token_set, counts@, __budget, token_stats.token_set.processing));
}
@loop 4
    total <= __d4 * BIG(),
%C14,C17,C18     total == toks_wt(counts@, __tv.take(__d4)),
@loop 4 end
%C14,C17,C18 proof { toks_wt_step(counts@, __tv, __d4); assert(__tv[__d4] == token_set.tokens@[__d4].v()); }
@loop 4 after
%C14,C17,C18 proof {
%C14,C17,C18     assert(__tv.take(__tv.len() as int) =~= __tv);
%C14,C17,C18     assert(__u.filter(long_code()).take(0) =~= Seq::<Code>::empty());
%C14,C17,C18 }
@loop 4 start
assert(match token_set.tokens@[__d4].v() { TokV::Str(s) => s.len() == 1, _ => true });
@loop 5
    total <= (token_set.tokens@.len() + __d5 * 256) * BIG(),
%C14,C17,C18     total >= toks_wt(counts@, __tv) + weigh(counts@, __u.filter(long_code()).take(__d5)),
%C14,C17,C18     __d5 == 0 ==> total == toks_wt(counts@, __tv),
@loop 5 after
%C14,C17,C18 proof {
%C14,C17,C18     assert(__u.filter(long_code()).take(token_set.sequences@.len() as int) =~= __u.filter(long_code()));
%C14,C17,C18     assert(total >= whole(counts@, 256));
%C14,C17,C18     assert(token_set.sequences@.len() == 0 ==> total == whole(counts@, 256));
%C14,C17,C18     assert(__budget >= 258 && n_ext_tokens == 2 ==> token_set.sequences@.len() == 0);
%C14,C17,C18 }
@loop 5 start
%C14,C17,C18 proof {
%C14,C17,C18     weigh_step(counts@, __u.filter(long_code()), __d5);
%C14,C17,C18     let b = __u.filter(long_code())[__d5];
%C14,C17,C18     assert(seq_code(token_set.sequences@[__d5], b));
%C14,C17,C18     assert(one_byte(b.0)[0] == b.0);
%C14,C17,C18     laid_from(&token_set, n_ext_tokens as nat, __u, Seq::empty(), __d5);
%C14,C17,C18     let (x, y) = (wt(counts@, b.0), token_set.sequences@[__d5].tokens@.len() as int);
%C14,C17,C18     assert(x * y >= x) by (nonlinear_arith) requires x >= 1, y >= 1;
%C14,C17,C18 }
assert(token_set.sequences@[__d5].string@.len() == 1);
proof {
    let x = counts@[token_set.sequences@[__d5].string@[0] as int].1 as int;
    let y = token_set.sequences@[__d5].tokens@.len() as int;
    assert(0 <= x * y <= BIG() * 256) by (nonlinear_arith) requires 1 <= x <= BIG(), 0 <= y <= 256;
}
@loop 6 before
let ghost __best = best_token_set;
let ghost __n = best_token_set.n_ext_tokens as int;
proof {
    __v = choose|v: Seq<Code>| #[trigger] base_set(counts@, &best_token_set, __n, n_tops(__budget - __n), token_stats.token_set.processing, v);
    assert(__ts.toks().take(0).filter(long_tok()) =~= Seq::<TokV>::empty());
}
@loop 6
    best_token_set.same_header(&__best),
    laid_out(&best_token_set, __n as nat, __v, __ts.toks().take(__d6).filter(long_tok())),
@loop 6 start
let ghost __s = best_token_set;
@loop 6 end
proof {
    let t = __ts.toks()[__d6];
    assert(t == __ts.tokens@[__d6].v());
    filter_step(__ts.toks(), __d6, long_tok());
    if is_long(t) {
        no_seq_long(&__s, __n as nat, __v, __ts.toks().take(__d6).filter(long_tok()), t->Str_0);
        assert(best_token_set.toks() =~= __s.toks().push(t));
        let a = ext_toks(__n as nat) + __v.filter(short_code()).map_values(code_tok());
        assert(best_token_set.toks() =~= a + __ts.toks().take(__d6 + 1).filter(long_tok()));
    }
}
@loop 6 after
proof {
    assert(__ts.toks().take(__ts.toks().len() as int) =~= __ts.toks());
    tops_len(__v, chars(counts@), __n, __n + n_tops(__budget - __n), __n, 256);
    assert(__best.toks().len() == __best.tokens@.len());
    assert(tops(__v).len() == n_tops(__budget - __n));
    assert(byte_table(counts@) && codes(chars(counts@), __v, __n, __n + tops(__v).len(), __n, 256));
    assert(huffed(__ts, __budget, &best_token_set, __v));
    c11_result(__ts, __budget, &best_token_set, __v);
}
