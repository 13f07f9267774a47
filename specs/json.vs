@module tokenset
@rw __a.into() => crate::vx::ToJ::vx_j(&(__a))
@prelude
use vstd::utf8::*;

// ---- C10: what is saved -------------------------------------------------------------
/// A token set, its sequences as the tokens they spell.
pub struct SetV {
    pub n_ext: usize,
    pub token_type: TokenType,
    pub processing: Processing,
    pub split: bool,
    pub toks: Seq<TokV>,
    pub seqs: Seq<SpellV>,
}
impl TokenSet {
    pub open spec fn sv(&self) -> SetV {
        SetV {
            n_ext: self.n_ext_tokens, token_type: self.token_type, processing: self.processing,
            split: self.split_paragraphs, toks: self.toks(), seqs: self.spelled(),
        }
    }
}
pub open spec fn byte_json() -> spec_fn(u8) -> JV { |x: u8| JV::Num(x as int) }
pub open spec fn bytes_json(b: Seq<u8>) -> JV {
    if valid_utf8(b) { JV::Str(decode_utf8(b)) } else { JV::Arr(b.map_values(byte_json())) }
}
pub open spec fn tok_json(t: TokV) -> JV {
    match t { TokV::Ext(n) => JV::Num(n as int), TokV::Str(s) => bytes_json(s) }
}
pub open spec fn tok_fn() -> spec_fn(TokV) -> JV { |t: TokV| tok_json(t) }
/// `v` is the saved form of the sequence `s`
pub open spec fn saves_seq(v: JV, s: SpellV) -> bool {
    &&& jget(v, "string"@) == bytes_json(s.string)
    &&& jget(v, "tokens"@) == JV::Arr(s.toks.map_values(tok_fn()))
}
pub open spec fn saves_seqs(v: Seq<JV>, s: Seq<SpellV>) -> bool {
    v.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> saves_seq(#[trigger] v[i], s[i])
}
pub open spec fn saves_acc(v: Seq<Value>, s: Seq<SpellV>) -> bool {
    v.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> saves_seq((#[trigger] v[i]).jv(), s[i])
}
pub open spec fn long_seq() -> spec_fn(SpellV) -> bool { |s: SpellV| s.toks.len() > 1 }
/// `v` is a saved form of the token set `s`
pub open spec fn saves(v: JV, s: SetV) -> bool {
    let ss = s.seqs.filter(long_seq());
    &&& v is Obj
    &&& jget(v, "type"@) == s.token_type.j()
    &&& jget(v, "processing"@) == s.processing.j()
    &&& jhas(v, "split_paragraphs"@) && jget(v, "split_paragraphs"@) == JV::Bool(s.split)
    &&& jget(v, "tokens"@) == JV::Arr(s.toks.map_values(tok_fn()))
    &&& jhas(v, "sequences"@) == (ss.len() > 0)
    &&& ss.len() > 0 ==> jget(v, "sequences"@) is Arr && saves_seqs(jget(v, "sequences"@)->Arr_0, ss)
}
pub open spec fn kind_ext(t: TokenType, n: usize) -> bool {
    match t {
        TokenType::Bits1 => n == 2,
        TokenType::Bits2 => n == 4,
        TokenType::Bits4 => n == 16,
        TokenType::Bytes => n == 0,
        TokenType::BytesHuff => n < 256,
    }
}
pub open spec fn ext_first(toks: Seq<TokV>, n: int) -> bool {
    &&& 0 <= n <= toks.len()
    &&& forall|i: int| 0 <= i < n ==> #[trigger] toks[i] == TokV::Ext(i as u8)
    &&& forall|i: int| n <= i < toks.len() ==> (#[trigger] toks[i]) is Str && toks[i]->Str_0.len() > 0
}
pub open spec fn spells_existing(s: SetV) -> bool {
    forall|i: int, j: int| 0 <= i < s.seqs.len() && 0 <= j < s.seqs[i].toks.len() ==> s.toks.contains(#[trigger] s.seqs[i].toks[j])
}
pub open spec fn one_byte(b: u8) -> Seq<u8> { seq![b] }
/// every byte has a token or a fallback sequence
pub open spec fn every_byte(s: SetV) -> bool {
    forall|b: u8| s.toks.contains(TokV::Str(#[trigger] one_byte(b))) || exists|i: int| 0 <= i < s.seqs.len() && (#[trigger] s.seqs[i]).string == one_byte(b)
}
/// What is enough for the saved form to determine the set.
pub open spec fn keyable(s: SetV) -> bool {
    &&& s.n_ext <= 256 && ext_first(s.toks, s.n_ext as int)
    &&& forall|i: int| 0 <= i < s.seqs.len() ==> (#[trigger] s.seqs[i]).toks.len() > 1
}
/// The token sets that the program makes.
pub open spec fn savable(s: SetV) -> bool {
    keyable(s) && kind_ext(s.token_type, s.n_ext) && spells_existing(s) && every_byte(s)
}
pub proof fn names()
    ensures
        "type"@ != "processing"@, "type"@ != "tokens"@, "type"@ != "split_paragraphs"@, "type"@ != "sequences"@, "type"@ != "stats"@, "type"@ != "fallback_bits"@,
        "processing"@ != "tokens"@, "processing"@ != "split_paragraphs"@, "processing"@ != "sequences"@, "processing"@ != "stats"@,
        "tokens"@ != "split_paragraphs"@, "tokens"@ != "sequences"@, "tokens"@ != "stats"@, "tokens"@ != "string"@,
        "split_paragraphs"@ != "sequences"@, "split_paragraphs"@ != "stats"@, "sequences"@ != "stats"@,
{
    reveal_strlit("type"); reveal_strlit("processing"); reveal_strlit("tokens"); reveal_strlit("split_paragraphs");
    reveal_strlit("sequences"); reveal_strlit("stats"); reveal_strlit("fallback_bits"); reveal_strlit("string");
    assert("type"@.len() == 4); assert("processing"@.len() == 10); assert("tokens"@.len() == 6); assert("split_paragraphs"@.len() == 16); assert("sequences"@.len() == 9); assert("stats"@.len() == 5); assert("fallback_bits"@.len() == 13); assert("string"@.len() == 6);
    assert("tokens"@[0] == 't'); assert("string"@[0] == 's');
    assert("sequences"@[0] == 's'); assert("processing"@[0] == 'p');
}
pub proof fn kinds()
    ensures
        "raw"@ != "capswords"@,
        forall|t: TokenType| #[trigger] t.j() != JV::Str("fallback_bits"@) && t.j() != JV::Str("all_tokens"@),
        "bits1"@ != "bits2"@, "bits1"@ != "bits4"@, "bits1"@ != "bytes"@, "bits1"@ != "byteshuff"@,
        "bits2"@ != "bits4"@, "bits2"@ != "bytes"@, "bits2"@ != "byteshuff"@,
        "bits4"@ != "bytes"@, "bits4"@ != "byteshuff"@, "bytes"@ != "byteshuff"@,
        "fallback_bits"@ != "all_tokens"@,
{
    reveal_strlit("raw"); reveal_strlit("capswords"); reveal_strlit("fallback_bits"); reveal_strlit("all_tokens");
    reveal_strlit("bits1"); reveal_strlit("bits2"); reveal_strlit("bits4"); reveal_strlit("bytes"); reveal_strlit("byteshuff");
    assert("raw"@.len() == 3); assert("capswords"@.len() == 9); assert("fallback_bits"@.len() == 13); assert("all_tokens"@.len() == 10); assert("bits1"@.len() == 5); assert("bits2"@.len() == 5); assert("bits4"@.len() == 5); assert("bytes"@.len() == 5); assert("byteshuff"@.len() == 9);
    assert("bits1"@[4] == '1'); assert("bits2"@[4] == '2'); assert("bits4"@[4] == '4'); assert("bytes"@[4] == 's');
}
pub proof fn bytes_json_inj(a: Seq<u8>, b: Seq<u8>)
    requires bytes_json(a) == bytes_json(b)
    ensures a == b
{
    if valid_utf8(a) && valid_utf8(b) {
        decode_utf8_encode_utf8(a);
        decode_utf8_encode_utf8(b);
    } else if !valid_utf8(a) && !valid_utf8(b) {
        let (x, y) = (a.map_values(byte_json()), b.map_values(byte_json()));
        assert(x.len() == a.len() && y.len() == b.len());
        assert(a =~= b) by {
            assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(x[i] == JV::Num(a[i] as int)); assert(y[i] == JV::Num(b[i] as int)); }
        }
    }
}
pub proof fn tok_json_inj(a: TokV, b: TokV)
    requires tok_json(a) == tok_json(b)
    ensures a == b
{
    match (a, b) { (TokV::Str(x), TokV::Str(y)) => { bytes_json_inj(x, y); } _ => {} }
}
pub proof fn toks_json_inj(a: Seq<TokV>, b: Seq<TokV>)
    requires a.map_values(tok_fn()) == b.map_values(tok_fn())
    ensures a == b
{
    let (x, y) = (a.map_values(tok_fn()), b.map_values(tok_fn()));
    assert(x.len() == a.len() && y.len() == b.len());
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        assert(x[i] == tok_json(a[i]));
        assert(y[i] == tok_json(b[i]));
        tok_json_inj(a[i], b[i]);
    }
    assert(a =~= b);
}
pub proof fn filter_all<T>(s: Seq<T>, f: spec_fn(T) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i])
    ensures s.filter(f) == s
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        filter_all(s.drop_last(), f);
        assert(s.drop_last().push(s.last()) =~= s);
    }
}
/// The saved form determines the set.
pub proof fn saves_inj(v: JV, s: SetV, t: SetV)
    requires saves(v, s), saves(v, t), keyable(s), keyable(t)
    ensures s == t
{
    kinds();
    toks_json_inj(s.toks, t.toks);
    assert(s.token_type == t.token_type);
    assert(s.processing == t.processing);
    if s.n_ext < t.n_ext { assert(s.toks[s.n_ext as int] is Str); assert(t.toks[s.n_ext as int] is Ext); }
    if t.n_ext < s.n_ext { assert(t.toks[t.n_ext as int] is Str); assert(s.toks[t.n_ext as int] is Ext); }
    filter_all(s.seqs, long_seq());
    filter_all(t.seqs, long_seq());
    assert(s.seqs =~= t.seqs) by {
        assert forall|i: int| 0 <= i < s.seqs.len() implies s.seqs[i] == t.seqs[i] by {
            let w = jget(v, "sequences"@)->Arr_0[i];
            assert(saves_seq(w, s.seqs[i]));
            assert(saves_seq(w, t.seqs[i]));
            bytes_json_inj(s.seqs[i].string, t.seqs[i].string);
            toks_json_inj(s.seqs[i].toks, t.seqs[i].toks);
        }
    }
}
pub proof fn encode_json(s: Seq<u8>)
    ensures valid_utf8(s) ==> bytes_json(s) == JV::Str(decode_utf8(s)) && encode_utf8(decode_utf8(s)) == s,
        !valid_utf8(s) ==> bytes_json(s) == JV::Arr(s.map_values(byte_json()))
{
    if valid_utf8(s) { decode_utf8_encode_utf8(s); }
}
/// only sequences for single bytes, none of them a token among the first n
pub open spec fn single_left(q: Seq<Sequence>, toks: Seq<TokV>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).string@.len() == 1
    &&& forall|i: int, k: int| 0 <= i < q.len() && 0 <= k < n ==> TokV::Str((#[trigger] q[i]).string@) != #[trigger] toks[k]
}
pub proof fn filter_in<T>(s: Seq<T>, f: spec_fn(T) -> bool, i: int)
    requires 0 <= i < s.filter(f).len()
    ensures f(s.filter(f)[i]), s.contains(s.filter(f)[i])
    decreases s.len()
{
    reveal(Seq::filter);
    let d = s.drop_last();
    if i < d.filter(f).len() {
        filter_in(d, f, i);
        let k = choose|k: int| 0 <= k < d.len() && d[k] == d.filter(f)[i];
        assert(s[k] == d[k]);
    } else {
        assert(s[s.len() - 1] == s.last());
    }
}
pub proof fn bits_single(ts: &TokenSet, b: nat, n: nat, toks: Seq<TokV>)
    requires builtin_bits(ts, b, n)
    ensures single_left(ts.sequences@, toks, 0)
{
    assert forall|i: int| 0 <= i < ts.sequences@.len() implies (#[trigger] ts.sequences@[i]).string@.len() == 1 by {
        assert(ts.sequences@[i].string@ == one_byte(i as u8));
    }
}
pub proof fn filter_left(q: Seq<Sequence>, toks: Seq<TokV>, n: int, s: Seq<u8>)
    requires single_left(q, toks, n), 0 <= n < toks.len(), toks[n] == TokV::Str(s)
    ensures single_left(q.filter(keeps(s)), toks, n + 1)
{
    let r = q.filter(keeps(s));
    assert forall|i: int| 0 <= i < r.len() implies r[i].string@ != s && q.contains(#[trigger] r[i]) by {
        filter_in(q, keeps(s), i);
    }
    assert forall|i: int, k: int| 0 <= i < r.len() && 0 <= k < n + 1 implies TokV::Str((#[trigger] r[i]).string@) != #[trigger] toks[k] by {
        assert(q.contains(r[i]));
        let a = choose|a: int| 0 <= a < q.len() && q[a] == r[i];
        if k < n { assert(TokV::Str(q[a].string@) != toks[k]); }
    }
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).string@.len() == 1 by {
        assert(q.contains(r[i]));
        let a = choose|a: int| 0 <= a < q.len() && q[a] == r[i];
        assert(q[a].string@.len() == 1);
    }
}
pub proof fn all_gone(q: Seq<Sequence>, s: SetV)
    requires single_left(q, s.toks, s.toks.len() as int), every_byte(s), s.seqs.len() == 0
    ensures q.len() == 0
{
    if q.len() > 0 {
        let b = q[0].string@[0];
        assert(q[0].string@ =~= one_byte(b));
        assert(s.toks.contains(TokV::Str(one_byte(b))));
        let k = choose|k: int| 0 <= k < s.toks.len() && s.toks[k] == TokV::Str(one_byte(b));
        assert(TokV::Str(q[0].string@) != s.toks[k]);
    }
}

// ---- C10: the sets that the program makes can be saved ----------------------------------
pub proof fn c10_builtin_bits(ts: &TokenSet, b: nat, n: nat)
    requires builtin_bits(ts, b, n), 1 < b < 256, n > 1, kind_ext(ts.token_type, b as usize)
    ensures savable(ts.sv())
{
    let s = ts.sv();
    c08_wf(ts, b, n);
    assert forall|i: int, j: int| 0 <= i < s.seqs.len() && 0 <= j < s.seqs[i].toks.len() implies s.toks.contains(#[trigger] s.seqs[i].toks[j]) by {
        assert(ts.sequences@[i].idx_below(ts.tokens@.len() as int));
        let k = ts.sequences@[i].tokens@[j] as int;
        assert(s.toks[k] == s.seqs[i].toks[j]);
    }
    assert forall|i: int| 0 <= i < s.seqs.len() implies (#[trigger] s.seqs[i]).toks.len() > 1 by {
        assert(is_digits(ts.sequences@[i].tokens@, i, b as int, n));
    }
    assert forall|x: u8| s.toks.contains(TokV::Str(#[trigger] one_byte(x))) || exists|i: int| 0 <= i < s.seqs.len() && (#[trigger] s.seqs[i]).string == one_byte(x) by {
        assert(ts.sequences@[x as int].string@ == seq![x as int as u8]);
        assert(s.seqs[x as int].string == one_byte(x));
    }
}
pub proof fn c10_builtin_bytes(ts: &TokenSet)
    requires ts.n_ext_tokens == 0, ts.token_type == TokenType::Bytes, ts.sequences@.len() == 0,
        ts.toks() == Seq::new(256, |c: int| TokV::Str(seq![c as u8])),
    ensures savable(ts.sv())
{
    let s = ts.sv();
    assert forall|x: u8| s.toks.contains(TokV::Str(#[trigger] one_byte(x))) by {
        assert(s.toks[x as int] == TokV::Str(one_byte(x)));
    }
}
/// the new set still spells every byte
pub proof fn c10_add_token(o: &TokenSet, n: &TokenSet, token: Seq<u8>)
    requires savable(o.sv()), o.wf(), n.same_header(o), token.len() > 0,
        n.tokens@.len() == o.tokens@.len() + 1, n.tokens@.drop_last() == o.tokens@,
        n.tokens@.last().v() == TokV::Str(token), n.sequences@ == o.sequences@.filter(keeps(token)),
    ensures savable(n.sv()), n.wf()
{
    let (a, b) = (o.sv(), n.sv());
    let l = o.tokens@.len() as int;
    assert forall|i: int| 0 <= i < l implies b.toks[i] == a.toks[i] by { assert(n.tokens@.drop_last()[i] == n.tokens@[i]); }
    assert(b.toks =~= a.toks.push(TokV::Str(token)));
    assert forall|i: int| 0 <= i < n.sequences@.len() implies exists|k: int| 0 <= k < o.sequences@.len() && (#[trigger] n.sequences@[i]) == #[trigger] o.sequences@[k] by {
        filter_in(o.sequences@, keeps(token), i);
    }
    assert forall|i: int| 0 <= i < n.sequences@.len() implies (#[trigger] n.sequences@[i]).idx_below(l + 1) by {
        let k = choose|k: int| 0 <= k < o.sequences@.len() && (#[trigger] n.sequences@[i]) == #[trigger] o.sequences@[k];
        assert(o.sequences@[k].idx_below(l));
    }
    assert forall|i: int| 0 <= i < b.seqs.len() implies (#[trigger] b.seqs[i]).toks.len() > 1 by {
        let k = choose|k: int| 0 <= k < o.sequences@.len() && (#[trigger] n.sequences@[i]) == #[trigger] o.sequences@[k];
        assert(a.seqs[k].toks.len() > 1);
    }
    assert forall|i: int, j: int| 0 <= i < b.seqs.len() && 0 <= j < b.seqs[i].toks.len() implies b.toks.contains(#[trigger] b.seqs[i].toks[j]) by {
        assert(n.sequences@[i].idx_below(l + 1));
        let k = n.sequences@[i].tokens@[j] as int;
        assert(b.toks[k] == b.seqs[i].toks[j]);
    }
    assert forall|i: int| a.n_ext <= i < b.toks.len() implies (#[trigger] b.toks[i]) is Str && b.toks[i]->Str_0.len() > 0 by {
        if i < l { assert(a.toks[i] is Str && a.toks[i]->Str_0.len() > 0); }
    }
    assert forall|i: int| 0 <= i < b.n_ext implies #[trigger] b.toks[i] == TokV::Ext(i as u8) by { assert(a.toks[i] == TokV::Ext(i as u8)); }
    assert forall|x: u8| b.toks.contains(TokV::Str(#[trigger] one_byte(x))) || exists|i: int| 0 <= i < b.seqs.len() && (#[trigger] b.seqs[i]).string == one_byte(x) by {
        let t = TokV::Str(one_byte(x));
        if a.toks.contains(t) {
            let k = choose|k: int| 0 <= k < a.toks.len() && a.toks[k] == t;
            assert(b.toks[k] == t);
        } else if token == one_byte(x) {
            assert(b.toks[l] == t);
        } else {
            let k = choose|k: int| 0 <= k < a.seqs.len() && (#[trigger] a.seqs[k]).string == one_byte(x);
            filter_has(o.sequences@, keeps(token), k);
            let i = choose|i: int| 0 <= i < n.sequences@.len() && n.sequences@[i] == o.sequences@[k];
            assert(b.seqs[i].string == one_byte(x));
        }
    }
}
pub proof fn filter_has<T>(s: Seq<T>, f: spec_fn(T) -> bool, k: int)
    requires 0 <= k < s.len(), f(s[k])
    ensures s.filter(f).contains(s[k])
    decreases s.len()
{
    reveal(Seq::filter);
    let d = s.drop_last();
    if k < d.len() {
        filter_has(d, f, k);
        let i = choose|i: int| 0 <= i < d.filter(f).len() && d.filter(f)[i] == d[k];
        assert(s.filter(f)[i] == s[k]);
    } else {
        assert(s.filter(f).last() == s[k]);
    }
}
pub proof fn sorted_ext_first(a: Seq<TokV>, b: Seq<TokV>, p: Seq<int>, n: int, i: int)
    requires ext_first(a, n), n <= 256, permuted(a, b, p), sorted_toks(b), 0 <= i < n
    ensures p[i] == i
    decreases i
{
    assert forall|k: int| 0 <= k < i implies p[k] == k by { sorted_ext_first(a, b, p, n, k); }
    assert(p.contains(i));
    let j = choose|j: int| 0 <= j < p.len() && p[j] == i;
    if j < i { assert(p[j] == j); }
    if j > i {
        assert(a[i] == TokV::Ext(i as u8));
        assert(b[j] == a[i]);
        assert(tok_cmp(b[i], b[j]) != Ordering::Greater);
        let x = p[i];
        assert(b[i] == a[x]);
        if x >= n { assert(a[x] is Str); }
        assert(a[x] == TokV::Ext(x as u8));
        if x < i { assert(p[x] == x); assert(p[x] != p[i]); }
    }
}
/// sorting keeps the extension tokens first
pub proof fn sort_keyable(o: &TokenSet, n: &TokenSet)
    requires keyable(o.sv()), n.same_header(o),
        reordered(o.toks(), n.toks()), sorted_toks(n.toks()), reordered(o.spelled(), n.spelled()),
    ensures keyable(n.sv())
{
    let (a, b) = (o.sv(), n.sv());
    let p = choose|p: Seq<int>| #[trigger] permuted(a.toks, b.toks, p);
    let q = choose|q: Seq<int>| #[trigger] permuted(a.seqs, b.seqs, q);
    let m = a.n_ext as int;
    assert forall|i: int| 0 <= i < m implies #[trigger] b.toks[i] == TokV::Ext(i as u8) by {
        sorted_ext_first(a.toks, b.toks, p, m, i);
        assert(a.toks[i] == TokV::Ext(i as u8));
    }
    assert forall|i: int| m <= i < b.toks.len() implies (#[trigger] b.toks[i]) is Str && b.toks[i]->Str_0.len() > 0 by {
        assert(b.toks[i] == a.toks[p[i]]);
        if p[i] < m {
            sorted_ext_first(a.toks, b.toks, p, m, p[i]);
            assert(p[p[i]] != p[i]);
        }
        assert(a.toks[p[i]] is Str);
    }
    assert forall|i: int| 0 <= i < b.seqs.len() implies (#[trigger] b.seqs[i]).toks.len() > 1 by { assert(b.seqs[i] == a.seqs[q[i]]); }
}
/// sorting keeps the set savable
pub proof fn c10_sort(o: &TokenSet, n: &TokenSet)
    requires savable(o.sv()), o.wf(), n.wf(), n.same_header(o),
        reordered(o.toks(), n.toks()), sorted_toks(n.toks()), reordered(o.spelled(), n.spelled()),
    ensures savable(n.sv())
{
    sort_keyable(o, n);
    let (a, b) = (o.sv(), n.sv());
    let p = choose|p: Seq<int>| #[trigger] permuted(a.toks, b.toks, p);
    let q = choose|q: Seq<int>| #[trigger] permuted(a.seqs, b.seqs, q);
    assert forall|i: int, j: int| 0 <= i < b.seqs.len() && 0 <= j < b.seqs[i].toks.len() implies b.toks.contains(#[trigger] b.seqs[i].toks[j]) by {
        assert(n.sequences@[i].idx_below(n.tokens@.len() as int));
        let k = n.sequences@[i].tokens@[j] as int;
        assert(b.toks[k] == b.seqs[i].toks[j]);
    }
    assert forall|x: u8| b.toks.contains(TokV::Str(#[trigger] one_byte(x))) || exists|i: int| 0 <= i < b.seqs.len() && (#[trigger] b.seqs[i]).string == one_byte(x) by {
        let t = TokV::Str(one_byte(x));
        if a.toks.contains(t) {
            let k = choose|k: int| 0 <= k < a.toks.len() && a.toks[k] == t;
            assert(p.contains(k));
            let i = choose|i: int| 0 <= i < p.len() && p[i] == k;
            assert(b.toks[i] == t);
        } else {
            let k = choose|k: int| 0 <= k < a.seqs.len() && (#[trigger] a.seqs[k]).string == one_byte(x);
            assert(q.contains(k));
            let i = choose|i: int| 0 <= i < q.len() && q[i] == k;
            assert(b.seqs[i] == a.seqs[k]);
        }
    }
}
/// removing a token of two or more bytes keeps the set savable
pub proof fn c10_remove_token(o: &TokenSet, n: &TokenSet, at: int)
    requires savable(o.sv()), n.wf(), n.same_header(o), 0 <= at < o.tokens@.len(), is_long(o.toks()[at]),
        n.tokens@ == swap_removed(o.tokens@, at), n.spelled() == o.spelled(),
    ensures savable(n.sv())
{
    let (a, b) = (o.sv(), n.sv());
    let l = a.toks.len() as int;
    assert(b.toks =~= swap_removed(a.toks, at));
    assert(a.toks[l - 1] is Str) by { if l - 1 < a.n_ext { assert(a.toks[at] is Ext); } }
    assert(at >= a.n_ext) by { if at < a.n_ext { assert(a.toks[at] is Ext); } }
    assert forall|i: int| 0 <= i < a.n_ext implies #[trigger] b.toks[i] == TokV::Ext(i as u8) by { assert(a.toks[i] == TokV::Ext(i as u8)); }
    assert forall|i: int| a.n_ext <= i < b.toks.len() implies (#[trigger] b.toks[i]) is Str && b.toks[i]->Str_0.len() > 0 by {
        let k = if i == at { l - 1 } else { i };
        assert(a.toks[k] is Str && a.toks[k]->Str_0.len() > 0);
    }
    assert forall|i: int, j: int| 0 <= i < b.seqs.len() && 0 <= j < b.seqs[i].toks.len() implies b.toks.contains(#[trigger] b.seqs[i].toks[j]) by {
        assert(n.sequences@[i].idx_below(n.tokens@.len() as int));
        let k = n.sequences@[i].tokens@[j] as int;
        assert(b.toks[k] == b.seqs[i].toks[j]);
    }
    assert forall|x: u8| b.toks.contains(TokV::Str(#[trigger] one_byte(x))) || exists|i: int| 0 <= i < b.seqs.len() && (#[trigger] b.seqs[i]).string == one_byte(x) by {
        let t = TokV::Str(one_byte(x));
        if a.toks.contains(t) {
            let k = choose|k: int| 0 <= k < a.toks.len() && a.toks[k] == t;
            assert(k != at);
            if k == l - 1 { assert(b.toks[at] == t); } else { assert(b.toks[k] == t); }
        } else {
            let k = choose|k: int| 0 <= k < a.seqs.len() && (#[trigger] a.seqs[k]).string == one_byte(x);
            assert(b.seqs[k].string == one_byte(x));
        }
    }
    assert forall|i: int| 0 <= i < b.seqs.len() implies (#[trigger] b.seqs[i]).toks.len() > 1 by { assert(a.seqs[i].toks.len() > 1); }
    assert(ext_first(b.toks, b.n_ext as int));
    assert(spells_existing(b));
    assert(every_byte(b));
}

@fn bytes_to_json -> r
@props C10 C15 C18
@spec
ensures r.jv() == bytes_json(bytes@)
@end
assert(!valid_utf8(bytes@) ==> __ret.jv()->Arr_0 =~= bytes@.map_values(byte_json()));

@fn Token::to_json -> r
@props C10 C15 C18
@spec
ensures r.jv() == tok_json(self.v())

@fn Sequence::to_json -> r
@props C10 C15 C18
@spec
requires self.idx_below(token_set.tokens@.len() as int)
ensures saves_seq(r.jv(), spell(token_set.toks(), *self))
@start
proof { names(); }
@loop 0
    __acc0@.len() == __d0,
    forall|i: int| 0 <= i < __d0 ==> (#[trigger] __acc0@[i]).jv() == tok_json(token_set.toks()[self.tokens@[i] as int]),
@end
proof {
    let s = spell(token_set.toks(), *self);
    assert(jget(__ret.jv(), "tokens"@)->Arr_0 =~= s.toks.map_values(tok_fn()));
}

@fn TokenSet::to_json -> r
@props C10 C15 C18
@spec
requires self.wf()
ensures saves(r.jv(), self.sv())
@start
proof { names(); reveal(Seq::filter); }
@type __acc0 Vec<Value>
@type __acc1 Vec<Value>
@loop 0
    __acc0@.len() == __d0, forall|i: int| 0 <= i < __d0 ==> (#[trigger] __acc0@[i]).jv() == tok_json(self.toks()[i]),
@loop 1
    saves_acc(__acc1@, self.spelled().take(__d1).filter(long_seq())),
@loop 1 end
proof {
    filter_step(self.spelled(), __d1, long_seq());
}
@loop 1 after
proof { assert(self.spelled().take(self.spelled().len() as int) =~= self.spelled()); }
@end
proof {
    assert(jget(__ret.jv(), "tokens"@)->Arr_0 =~= self.toks().map_values(tok_fn()));
}

@fn parse_token -> r
@props C10 C18
@spec
requires exists|t: TokV| value.jv() == #[trigger] tok_json(t)
ensures value.jv() == tok_json(r.v()), forall|t: TokV| value.jv() == #[trigger] tok_json(t) ==> r.v() == t
@start
broadcast use crate::vx::jv_array;
let ghost __t = choose|t: TokV| value.jv() == #[trigger] tok_json(t);
proof {
    assert forall|t: TokV| value.jv() == #[trigger] tok_json(t) implies __t == t by { tok_json_inj(t, __t); }
    if __t is Str {
        encode_json(__t->Str_0);
    }
}
@type __acc0 Vec<u8>
@loop 0
    __t is Str, !valid_utf8(__t->Str_0), __acc0@.len() == __d0, __s0@.len() == __t->Str_0.len(),
    forall|i: int| 0 <= i < __s0@.len() ==> (#[trigger] __s0@[i]).jv() == JV::Num(__t->Str_0[i] as int),
    forall|i: int| 0 <= i < __d0 ==> #[trigger] __acc0@[i] == __t->Str_0[i],
@loop 0 before
assert(is_arr(v@, value.jv()->Arr_0));
@loop 0 after
assert(__acc0@ =~= __t->Str_0);

@fn TokenSet::from_json -> r
@props C10 C18
@attr #[verifier::rlimit(60)]
@spec
requires exists|s: SetV| savable(s) && #[trigger] saves(value.jv(), s)
ensures
    r.wf(), savable(r.sv()), saves(value.jv(), r.sv()),
    forall|s: SetV| savable(s) && #[trigger] saves(value.jv(), s) ==> r.sv() == s,
@start
let ghost __s = choose|s: SetV| savable(s) && #[trigger] saves(value.jv(), s);
let ghost __n = __s.n_ext as int;
let ghost __tv = __s.toks.map_values(tok_fn());
proof {
    names(); kinds();
    filter_all(__s.seqs, long_seq());
    assert forall|s: SetV| savable(s) && #[trigger] saves(value.jv(), s) implies s == __s by { saves_inj(value.jv(), s, __s); }
    assert forall|i: int| 0 <= i < __tv.len() implies #[trigger] __tv[i] == tok_json(__s.toks[i]) && ((__tv[i] is Num) == (i < __n)) && !(__tv[i] is Float) by {
        assert(__s.toks[i] is Ext == (i < __n));
    }
}
@loop 0
    __acc0 == if __d0 < __n { __d0 } else { __n }, is_arr(__s0@, __tv),
@loop 1 before
proof {
    match token_type {
        TokenType::Bits1 => { bits_single(&token_set, 2, 8, __s.toks); }
        TokenType::Bits2 => { bits_single(&token_set, 4, 4, __s.toks); }
        TokenType::Bits4 => { bits_single(&token_set, 16, 2, __s.toks); }
        _ => {}
    }
    assert(token_set.toks() =~= __s.toks.take(__n));
}
@loop 1
    is_arr(__s1@, __tv), token_set.n_ext_tokens == __n, token_set.token_type == __s.token_type,
    token_set.processing == __s.processing, token_set.split_paragraphs == __s.split,
    token_set.toks() == __s.toks.take(if __d1 < __n { __n } else { __d1 }),
    single_left(token_set.sequences@, __s.toks, __d1),
    __s.token_type == TokenType::Bytes || __s.token_type == TokenType::BytesHuff ==> token_set.sequences@.len() == 0,
@loop 1 start
let ghost __q = token_set.sequences@;
let ghost __t = token_set.toks();
@loop 1 end
proof {
    assert(__tv[__d1] == tok_json(__s.toks[__d1]));
    if __d1 >= __n {
        filter_left(__q, __s.toks, __d1, __s.toks[__d1]->Str_0);
        assert(token_set.toks() =~= __t.push(__s.toks[__d1]));
        assert(token_set.toks() =~= __s.toks.take(__d1 + 1));
    } else {
        assert(token_set.toks() == __t);
        assert(__s.toks[__d1] is Ext);
        assert(token_set.sequences@ == __q);
        assert(single_left(__q, __s.toks, __d1 + 1));
    }
}
@loop 1 after
proof { assert(__s.toks.take(__s.toks.len() as int) =~= __s.toks); }
@loop 2 before
proof {
    let j = jget(value.jv(), "sequences"@)->Arr_0;
    assert(is_arr(__s2@, j));
    assert forall|i: int| 0 <= i < __s2@.len() implies saves_seq((#[trigger] __s2@[i]).jv(), __s.seqs[i]) by {
        assert(saves_seq(j[i], __s.seqs[i]));
    }
}
@loop 2
    token_set.n_ext_tokens == __n, token_set.token_type == __s.token_type,
    token_set.processing == __s.processing, token_set.split_paragraphs == __s.split,
    token_set.toks() == __s.toks, token_set.wf(), token_set.spelled() == __s.seqs.take(__d2),
    __s2@.len() == __s.seqs.len(), forall|i: int| 0 <= i < __s2@.len() ==> saves_seq((#[trigger] __s2@[i]).jv(), __s.seqs[i]),
@loop 2 start
let ghost __w = __s.seqs[__d2];
let ghost __o = token_set;
proof {
    assert(saves_seq(__s2@[__d2].jv(), __w));
    assert(jget(__s2@[__d2].jv(), "string"@) == tok_json(TokV::Str(__w.string)));
}
@type tokens Vec<usize>
@loop 3 before
proof {
    let j = __w.toks.map_values(tok_fn());
    assert(is_arr(__s3@, j));
    assert forall|i: int| 0 <= i < __s3@.len() implies (#[trigger] __s3@[i]).jv() == tok_json(__w.toks[i]) by {
        assert(j[i] == tok_json(__w.toks[i]));
    }
}
@loop 3
    __s3@.len() == __w.toks.len(), forall|i: int| 0 <= i < __s3@.len() ==> (#[trigger] __s3@[i]).jv() == tok_json(__w.toks[i]),
    tokens@.len() == __d3, token_set == __o, string@ == __w.string,
    forall|i: int| 0 <= i < __d3 ==> (#[trigger] tokens@[i]) < token_set.tokens@.len() && token_set.toks()[tokens@[i] as int] == __w.toks[i],
@loop 3 start
proof {
    assert(__s.toks.contains(__w.toks[__d3]));
}
@loop 4
invariant_except_break
    __acc4.is_none(), forall|i: int| 0 <= i < __d4 ==> #[trigger] token_set.toks()[i] != token.v(),
ensures
    match __acc4 {
        Some(i) => i < token_set.tokens@.len() && token_set.toks()[i as int] == token.v(),
        None => forall|i: int| 0 <= i < token_set.tokens@.len() ==> #[trigger] token_set.toks()[i] != token.v(),
    }
@loop 2 end
proof {
    let q = token_set.sequences@.last();
    assert(token_set.sequences@.drop_last() == __o.sequences@);
    assert(spell(__s.toks, q).toks =~= __w.toks);
    assert(token_set.spelled() =~= __o.spelled().push(__w));
    assert(token_set.spelled() =~= __s.seqs.take(__d2 + 1));
    assert forall|i: int| 0 <= i < token_set.sequences@.len() implies (#[trigger] token_set.sequences@[i]).idx_below(token_set.tokens@.len() as int) by {
        if i < __d2 { assert(token_set.sequences@[i] == __o.sequences@[i]); }
    }
}
@end
proof {
    if __s.seqs.len() == 0 {
        all_gone(__ret.sequences@, __s);
    } else {
        assert(__s.seqs.take(__s.seqs.len() as int) =~= __s.seqs);
    }
    assert(__ret.spelled() =~= __s.seqs);
    assert(__ret.sv() == __s);
}

@module stats2
@rw __a.into() => crate::vx::ToJ::vx_j(&(__a))

@prelude
/// the saved statistics
pub open spec fn reports(v: JV, t: &TokenStats) -> bool {
    let s = jget(v, "stats"@);
    &&& jget(s, "ntokens"@) == JV::Num(t.token_set.tokens@.len() as int)
    &&& jget(s, "total_tokens"@) == JV::Num(t.total_tokens as int)
    &&& jget(s, "scanned_bytes"@) == JV::Num(t.scanned_bytes as int)
    &&& t.initial_size is Some ==> jget(s, "initial_size"@) == JV::Num(t.initial_size->Some_0 as int)
}
pub proof fn stat_names()
    ensures "ntokens"@ != "total_tokens"@, "ntokens"@ != "scanned_bytes"@, "ntokens"@ != "initial_size"@, "ntokens"@ != "bytes_per_token"@,
        "total_tokens"@ != "scanned_bytes"@, "total_tokens"@ != "initial_size"@, "total_tokens"@ != "bytes_per_token"@,
        "scanned_bytes"@ != "initial_size"@, "scanned_bytes"@ != "bytes_per_token"@, "initial_size"@ != "bytes_per_token"@,
{
    reveal_strlit("ntokens"); reveal_strlit("total_tokens"); reveal_strlit("scanned_bytes"); reveal_strlit("initial_size"); reveal_strlit("bytes_per_token");
    assert("ntokens"@.len() == 7); assert("total_tokens"@.len() == 12); assert("scanned_bytes"@.len() == 13); assert("initial_size"@.len() == 12); assert("bytes_per_token"@.len() == 15);
    assert("total_tokens"@[0] == 't'); assert("initial_size"@[0] == 'i');
}

@fn TokenStats::to_json -> r
@props C10 C18
@spec
requires self.token_set.wf(), self.token_counts@.len() == self.token_set.tokens@.len(), self.seq_counts@.len() == self.token_set.sequences@.len()
ensures super::tokenset::saves(r.jv(), self.token_set.sv()), reports(r.jv(), self)
@start
broadcast use crate::vx::floats;
proof { super::tokenset::names(); stat_names(); }
