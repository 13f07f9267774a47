@module processing
@rw String::with_capacity(__n) => String::new()
@rw __w.chars() => crate::vx::CharSrc::char_iter(&__w)
@rw __w.to_lowercase() => crate::vx::Cased::lowered(&__w)
@rw __w.to_uppercase() => crate::vx::Cased::uppered(&__w)
@prelude
use crate::vx::*;
use vstd::utf8::*;
// ---- C01: the documented decoding ---------------------------------------------------------------------
/// The decoder after some characters: what it has written, which capitalization applies to the next
/// character (1: to it alone, 2: to the rest of the word), and whether an end-of-word marker came last.
pub struct Dec { pub out: Seq<char>, pub mark: int, pub eow: bool }
pub open spec fn spaced(d: Dec, c: char) -> Seq<char> {
    if d.eow && (alphabetic(c) || c == '\x14' || c == '\x15') { d.out.push(' ') } else { d.out }
}
pub open spec fn dec_step(d: Dec, c: char) -> Dec {
    let o = spaced(d, c);
    if c == '\x14' { Dec { out: o, mark: 1, eow: false } }
    else if c == '\x15' { Dec { out: o, mark: 2, eow: false } }
    else if c == '\x16' { Dec { out: o, mark: 0, eow: true } }
    else { Dec { out: if d.mark > 0 { o + upper_of(c) } else { o.push(c) }, mark: if d.mark == 1 { 0 } else { d.mark }, eow: false } }
}
pub open spec fn dec_from(d: Dec, s: Seq<char>) -> Dec decreases s.len() { if s.len() == 0 { d } else { dec_step(dec_from(d, s.drop_last()), s.last()) } }
pub open spec fn decoded(s: Seq<char>) -> Dec { dec_from(Dec { out: Seq::empty(), mark: 0, eow: false }, s) }
pub open spec fn unmarked(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> !marker(#[trigger] s[i]) }
pub open spec fn letters(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> alphabetic(#[trigger] s[i]) }
pub proof fn dec_add(d: Dec, a: Seq<char>, b: Seq<char>)
    ensures dec_from(d, a + b) == dec_from(dec_from(d, a), b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        dec_add(d, a, b.drop_last());
    }
}
pub proof fn dec_push(d: Dec, a: Seq<char>, c: char)
    ensures dec_from(d, a.push(c)) == dec_step(dec_from(d, a), c)
{
    assert(a.push(c).drop_last() =~= a);
}
/// a word as it is
pub proof fn dec_plain(d: Dec, w: Seq<char>)
    requires letters(w), w.len() > 0, d.mark == 0
    ensures dec_from(d, w) == (Dec { out: spaced(d, w[0]) + w, mark: 0, eow: false })
    decreases w.len()
{
    char_facts();
    let r = w.drop_last();
    if r.len() > 0 {
        dec_plain(d, r);
        assert(spaced(d, w[0]) + w =~= (spaced(d, w[0]) + r).push(w.last()));
    } else {
        assert(dec_from(d, r) == d);
        assert(spaced(d, w[0]) + w =~= spaced(d, w[0]).push(w[0]));
    }
}
/// the same after a character that is no end-of-word marker
pub proof fn dec_rest(d: Dec, w: Seq<char>)
    requires letters(w), d.mark == 0, !d.eow
    ensures dec_from(d, w) == (Dec { out: d.out + w, mark: 0, eow: false })
{
    if w.len() > 0 { dec_plain(d, w); } else { assert(d.out + w =~= d.out); }
}
/// t is w in lower case: what upper-casing undoes
pub open spec fn quiet(w: Seq<char>, t: Seq<char>) -> bool {
    t.len() == w.len() && forall|i: int| 0 <= i < w.len() ==> upper_of(#[trigger] t[i]) == seq![w[i]]
}
pub proof fn dec_loud(d: Dec, w: Seq<char>, t: Seq<char>)
    requires letters(w), quiet(w, t), d.mark == 2, !d.eow
    ensures dec_from(d, t) == (Dec { out: d.out + w, mark: 2, eow: false })
    decreases w.len()
{
    char_facts();
    if w.len() == 0 { assert(d.out + w =~= d.out); } else {
        let (a, b) = (w.drop_last(), t.drop_last());
        assert forall|i: int| 0 <= i < a.len() implies upper_of(#[trigger] b[i]) == seq![a[i]] by { assert(t[i] == b[i]); }
        dec_loud(d, a, b);
        let c = t.last();
        assert(upper_of(c) == seq![w.last()]);
        assert(!marker(c)) by { if marker(c) { assert(seq![c][0] == seq![w.last()][0]); } }
        assert(d.out + a + upper_of(c) =~= d.out + w);
    }
}
/// What has been written when processing has come as far as text t.
pub open spec fn midway(t: Seq<char>, st: State, w: Seq<char>, d: Dec) -> bool {
    &&& d.mark == 0
    &&& match st {
        State::NonWord => d.out == t && !d.eow,
        State::SpaceAfterWord => d.out.push(' ') == t && d.eow,
        State::Word => (if d.eow { d.out.push(' ') } else { d.out }) + w == t,
    }
}
pub proof fn dec_facts()
    ensures
        decoded(Seq::empty()) == (Dec { out: Seq::empty(), mark: 0, eow: false }),
        forall|s: Seq<char>, c: char| #[trigger] decoded(s.push(c)) == dec_step(decoded(s), c),
        forall|c: char| #[trigger] alphabetic(c) ==> !marker(c) && c != ' ',
        forall|a: Seq<char>, w: Seq<char>, c: char| #[trigger] (a + w.push(c)) == (a + w).push(c),
        forall|a: Seq<char>| #[trigger] (a + Seq::<char>::empty()) == a,
        forall|a: Seq<char>, t: Seq<char>| t.len() == 1 ==> #[trigger] (a + t) == a.push(t[0]),
        forall|a: Seq<char>, t: Seq<char>| t.len() == 2 ==> #[trigger] (a + t) == a.push(t[0]).push(t[1]),
{
    char_facts();
    let z = Dec { out: Seq::empty(), mark: 0, eow: false };
    assert forall|s: Seq<char>, c: char| #[trigger] decoded(s.push(c)) == dec_step(decoded(s), c) by { dec_push(z, s, c); }
    assert forall|a: Seq<char>, w: Seq<char>, c: char| #[trigger] (a + w.push(c)) == (a + w).push(c) by { assert(a + w.push(c) =~= (a + w).push(c)); }
    assert forall|a: Seq<char>| #[trigger] (a + Seq::<char>::empty()) == a by { assert(a + Seq::<char>::empty() =~= a); }
    assert forall|a: Seq<char>, t: Seq<char>| t.len() == 1 implies #[trigger] (a + t) == a.push(t[0]) by { assert(a + t =~= a.push(t[0])); }
    assert forall|a: Seq<char>, t: Seq<char>| t.len() == 2 implies #[trigger] (a + t) == a.push(t[0]).push(t[1]) by { assert(a + t =~= a.push(t[0]).push(t[1])); }
}
pub open spec fn capped(w: Seq<char>, c: char) -> Seq<char> { (seq!['\x14', c] + w.drop_first()).push('\x16') }
pub open spec fn loud(t: Seq<char>) -> Seq<char> { (seq!['\x15'] + t).push('\x16') }
/// A word, behind its capitalization marker when lower-cased reversibly, and its end mark.
pub open spec fn shaped(w: Seq<char>, e: Seq<char>) -> bool {
    ||| e == w.push('\x16')
    ||| exists|c: char| upper_of(c) == seq![w[0]] && e == #[trigger] capped(w, c)
    ||| exists|t: Seq<char>| quiet(w, t) && e == #[trigger] loud(t)
}
/// o has become n: the word w written, ready to be decoded
pub open spec fn written(o: Seq<char>, w: Seq<char>, n: Seq<char>) -> bool {
    decoded(o).mark == 0 ==> decoded(n) == (Dec { out: (if decoded(o).eow { decoded(o).out.push(' ') } else { decoded(o).out }) + w, mark: 0, eow: true })
}
pub proof fn word_written(o: Seq<char>, w: Seq<char>, e: Seq<char>)
    requires w.len() > 0, letters(w), shaped(w, e)
    ensures written(o, w, o + e)
{
    char_facts();
    let z = Dec { out: Seq::empty(), mark: 0, eow: false };
    let d = decoded(o);
    dec_add(z, o, e);
    if d.mark == 0 {
        let p = if d.eow { d.out.push(' ') } else { d.out };
        if e == w.push('\x16') {
            dec_push(d, w, '\x16');
            dec_plain(d, w);
        } else if exists|c: char| upper_of(c) == seq![w[0]] && e == #[trigger] capped(w, c) {
            let c = choose|c: char| upper_of(c) == seq![w[0]] && e == #[trigger] capped(w, c);
            let r = w.drop_first();
            assert(!marker(c)) by { if marker(c) { assert(seq![c][0] == seq![w[0]][0]); } }
            dec_push(d, seq!['\x14', c] + r, '\x16');
            dec_add(d, seq!['\x14', c], r);
            dec_push(d, seq!['\x14'], c);
            dec_push(d, Seq::empty(), '\x14');
            assert(Seq::empty().push('\x14') =~= seq!['\x14']);
            assert(seq!['\x14'].push(c) =~= seq!['\x14', c]);
            let f = dec_from(d, seq!['\x14', c]);
            assert(f == (Dec { out: p + seq![w[0]], mark: 0, eow: false }));
            dec_rest(f, r);
            assert(p + seq![w[0]] + r =~= p + w);
        } else {
            let t = choose|t: Seq<char>| quiet(w, t) && e == #[trigger] loud(t);
            dec_push(d, seq!['\x15'] + t, '\x16');
            dec_add(d, seq!['\x15'], t);
            dec_push(d, Seq::empty(), '\x15');
            assert(Seq::empty().push('\x15') =~= seq!['\x15']);
            let f = dec_from(d, seq!['\x15']);
            assert(f == (Dec { out: p, mark: 2, eow: false }));
            dec_loud(f, w, t);
        }
    }
}

// ---- C02: reading lines and writing them ---------------------------------------------------------------
/// what `process` gives: a function of its argument (assumed where C02 is decided; C01 says what it is)
pub uninterp spec fn process_of(t: Seq<char>) -> Seq<char>;
/// where the first line ends
pub open spec fn line_end(b: Seq<u8>) -> int decreases b.len() { if b.len() == 0 || b[0] == 10 { 0 } else { 1 + line_end(b.drop_first()) } }
/// what follows the first line
pub open spec fn below(b: Seq<u8>) -> Seq<u8> { if line_end(b) < b.len() { b.skip(line_end(b) + 1) } else { Seq::empty() } }
pub proof fn line_end_in(b: Seq<u8>)
    ensures 0 <= line_end(b) <= b.len(), b.len() > 0 ==> below(b).len() < b.len()
    decreases b.len()
{
    if b.len() > 0 && b[0] != 10 { line_end_in(b.drop_first()); }
}
/// The processed form of every line, each followed by a line feed.
pub open spec fn processed_form(b: Seq<u8>) -> Seq<u8>
    decreases b.len() via form_decreases
{
    if b.len() == 0 { Seq::empty() } else { encode_utf8(process_of(decode_utf8(b.take(line_end(b))))).push(10) + processed_form(below(b)) }
}
#[via_fn]
proof fn form_decreases(b: Seq<u8>) { line_end_in(b); }
/// Unix line ends
pub open spec fn unix(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() - 1 ==> !(#[trigger] b[i] == 13 && b[i + 1] == 10) }
pub proof fn form_step(b: Seq<u8>)
    ensures 0 <= line_end(b) <= b.len(), unix(b) ==> unix(below(b)) && !(0 < line_end(b) < b.len() && b[line_end(b) - 1] == 13),
        b.len() > 0 ==> below(b).len() < b.len(),
        forall|t: Seq<char>| decode_utf8(#[trigger] encode_utf8(t)) == t,
{
    assert forall|t: Seq<char>| decode_utf8(#[trigger] encode_utf8(t)) == t by { encode_utf8_decode_utf8(t); }
    line_end_in(b);
    line_end_nl(b);
    if unix(b) && line_end(b) < b.len() {
        let n = line_end(b) + 1;
        let c = below(b);
        assert forall|i: int| 0 <= i < c.len() - 1 implies !(#[trigger] c[i] == 13 && c[i + 1] == 10) by { assert(c[i] == b[i + n] && c[i + 1] == b[i + n + 1]); }
    }
}
/// the first line in its processed form
pub open spec fn first_form(b: Seq<u8>) -> Seq<u8> { encode_utf8(process_of(decode_utf8(b.take(line_end(b))))) }
pub proof fn form_done(h: Seq<u8>, b: Seq<u8>)
    ensures b.len() > 0 ==> h + processed_form(b) == h + first_form(b) + seq![10u8] + processed_form(below(b)), b.len() == 0 ==> h + processed_form(b) == h
{
    if b.len() > 0 { assert(h + processed_form(b) =~= h + first_form(b) + seq![10u8] + processed_form(below(b))); }
    else { assert(h + processed_form(b) =~= h); }
}
pub proof fn line_end_nl(b: Seq<u8>)
    ensures line_end(b) < b.len() ==> b[line_end(b)] == 10
    decreases b.len()
{
    line_end_in(b);
    if b.len() > 0 && b[0] != 10 { let r = b.drop_first(); line_end_in(r); line_end_nl(r); if line_end(b) < b.len() { assert(b[line_end(b)] == r[line_end(r)]); } }
}
pub proof fn newline_bytes()
    ensures encode_utf8("\n"@) == seq![10u8], encode_utf8(seq!['\n']) == seq![10u8],
        forall|a: Seq<char>, b: Seq<char>| #[trigger] encode_utf8(a + b) == encode_utf8(a) + encode_utf8(b),
        forall|a: Seq<char>| #[trigger] encode_utf8(a.push('\n')) == encode_utf8(a).push(10),
{
    reveal_strlit("\n");
    is_ascii_chars_encode_utf8("\n"@);
    assert(encode_utf8("\n"@) =~= seq![10u8]);
    assert("\n"@ =~= seq!['\n']);
    assert forall|a: Seq<char>, b: Seq<char>| #[trigger] encode_utf8(a + b) == encode_utf8(a) + encode_utf8(b) by { encode_utf8_concat(a, b); }
    assert forall|a: Seq<char>| #[trigger] encode_utf8(a.push('\n')) == encode_utf8(a).push(10) by {
        encode_utf8_concat(a, seq!['\n']);
        assert(a.push('\n') =~= a + seq!['\n']);
    }
}
pub mod io {
    use vstd::prelude::*;
    verus! {
    #[verifier::external_body]
    pub struct Error { x: u8 }
    pub type Result<T> = core::result::Result<T, Error>;
    }
}
/// a stream to read: what it holds
pub trait Read { spec fn content(&self) -> Seq<u8>; }
/// a destination: the bytes it has accepted
pub trait Write { spec fn received(&self) -> Seq<u8>; spec fn target(&self) -> Seq<char>; }
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct BufReader<'a, R> { r: &'a mut R }
impl<'a, R: Read> BufReader<'a, R> {
    pub uninterp spec fn content(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new(r: &'a mut R) -> (b: Self) ensures b.content() == old(r).content() { unimplemented!() }
    #[verifier::external_body]
    pub fn lines(self) -> (l: Lines) ensures l.rest() == self.content() { unimplemented!() }
}
/// `BufRead::lines`: between `prev` and `rest` lies the line that came last
#[verifier::external_body]
pub struct Lines { x: u8 }
pub open spec fn outcome(p: Seq<u8>, m: Option<io::Result<String>>, r: Seq<u8>) -> bool {
    match m {
        None => p.len() == 0,
        Some(Ok(l)) => p.len() > 0 && r == below(p) && (0 < line_end(p) < p.len() && p[line_end(p) - 1] == 13 || encode_utf8(l@) == p.take(line_end(p))),
        Some(Err(_)) => r.len() <= p.len(),
    }
}
impl Lines {
    pub uninterp spec fn prev(&self) -> Seq<u8>;
    pub uninterp spec fn rest(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (m: Option<io::Result<String>>) ensures final(self).prev() == old(self).rest(), outcome(old(self).rest(), m, final(self).rest()), final(self).rest().len() <= old(self).rest().len()
    { unimplemented!() }
}
/// `BufWriter`: bytes are handed to it; after a flush the destination has them
#[verifier::reject_recursive_types(W)]
pub struct BufWriter<'a, W> { pub w: &'a mut W, pub buf: Ghost<Seq<u8>> }
impl<'a, W: Write> BufWriter<'a, W> {
    pub open spec fn now(&self) -> W { *self.w }
    #[verifier::prophetic]
    pub open spec fn fin(&self) -> W { *final(self.w) }
    pub open spec fn handed(&self) -> Seq<u8> { self.now().received() + self.buf@ }
    pub fn new(w: &'a mut W) -> (r: Self)
        ensures r.now() == *old(w), r.buf@ == Seq::<u8>::empty(), r.fin() == *final(w), r.handed() == old(w).received()
    {
        let ghost g = w.received();
        let r = BufWriter { w, buf: Ghost(Seq::empty()) };
        assert(r.handed() =~= g);
        r
    }
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &[u8]) -> (r: io::Result<()>)
        ensures final(self).fin() == old(self).fin(), final(self).now().target() == old(self).now().target(), r is Ok ==> final(self).handed() == old(self).handed() + b@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write(&mut self, b: &[u8]) -> (r: io::Result<usize>)
        ensures final(self).fin() == old(self).fin(), final(self).now().target() == old(self).now().target(), match r { Ok(n) => n <= b@.len() && (b@.len() < 8192 ==> n == b@.len()) && final(self).handed() == old(self).handed() + b@.take(n as int), Err(_) => true }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: io::Result<()>)
        ensures final(self).fin() == old(self).fin(), final(self).now().target() == old(self).now().target(), r is Ok ==> final(self).now().received() == old(self).handed() && final(self).buf@ == Seq::<u8>::empty()
    { unimplemented!() }
}

@fn get_char_type -> r
@props C01
@spec
ensures r is Letter == alphabetic(ch), r is Space ==> ch == ' '
@start
proof { char_facts(); }

@fn has_reversible_lowercase -> r
@props C01
@spec
ensures r ==> lower_of(ch).len() == 1 && upper_of(lower_of(ch)[0]) == seq![ch]

@fn add_word
@props C01
@spec
requires word@.len() > 0, letters(word@)
ensures written(old(out)@, word@, final(out)@)
@start
let ghost __o = out@;
let ghost __w = word@;
@loop 1
    __acc1 ==> forall|i: int| 0 <= i < __d1 ==> lower_of(#[trigger] rest@[i]).len() == 1 && upper_of(lower_of(rest@[i])[0]) == seq![rest@[i]],
@end
proof {
    char_facts();
    let e = out@.subrange(__o.len() as int, out@.len() as int);
    assert(out@ =~= __o + e);
    if e[0] == '\x14' {
        assert(e =~= capped(__w, e[1]));
    } else if e[0] == '\x15' {
        let t = e.subrange(1, e.len() - 1);
        assert(e =~= loud(t));
        assert forall|i: int| 0 <= i < __w.len() implies (#[trigger] lower_of(__w[i])).len() == 1 && upper_of(lower_of(__w[i])[0]) == seq![__w[i]] by {
            if i > 0 { assert(__w[i] == __w.drop_first()[i - 1]); }
        }
        assert(quiet(__w, t));
    } else {
        assert(e =~= __w.push('\x16'));
    }
    assert(shaped(__w, e));
    word_written(__o, __w, e);
}

@fn process -> r
@props C01
@spec
ensures unmarked(text@) ==> decoded(r@).out == text@,
%C02,C18    r@ == process_of(text@),
@start
proof { dec_facts(); }
@loop 0 before
proof { assert(text@.take(0) =~= Seq::<char>::empty()); }
@loop 0
    unmarked(text@) ==> midway(text@.take(__d0), state, word@, decoded(out@)), letters(word@), state is Word == (word@.len() > 0),
@loop 0 end
proof { assert(text@.take(__d0 + 1) =~= text@.take(__d0).push(text@[__d0])); }
@end
proof { assert(text@.take(text@.len() as int) =~= text@); }

@fn process_file -> r
@props C02 C18
@spec
ensures r is Ok && unix(old(input).content()) ==> final(output).received() == old(output).received() + processed_form(old(input).content()),
    final(output).target() == old(output).target(),
@start
let ghost __c = input.content();
let ghost __o = output.received();
proof { newline_bytes(); form_step(__c); }
@loop 0 before
let ghost __w = writer;
@loop 0
    unix(__c) ==> unix(__it0.prev()) && writer.handed() + processed_form(__it0.prev()) == __o + processed_form(__c),
    outcome(__it0.prev(), __m0, __it0.rest()), writer.fin() == __w.fin(), writer.now().target() == __w.now().target(),
decreases __it0.prev().len() + if __m0.is_some() { 1int } else { 0 }
@loop 0 start
let ghost __h = writer.handed();
proof { form_step(__it0.prev()); }
@loop 0 end
proof {
    form_done(__h, __it0.prev());
    if unix(__c) { assert(writer.handed() =~= __h + first_form(__it0.prev()) + seq![10u8]); }
}
@loop 0 after
proof { form_done(writer.handed(), Seq::empty()); }
