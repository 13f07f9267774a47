@module input::util
@prelude
use crate::vx::*;
use vstd::utf8::*;

/// bytes of the character that starts with b
pub open spec fn clen(b: u8) -> int { if b < 128 { 1 } else if b < 224 { 2 } else if b < 240 { 3 } else { 4 } }
pub open spec fn is_start(b: u8) -> bool { b < 128 || b >= 192 }
/// a cut at i splits no character of v
pub open spec fn boundary(v: Seq<u8>, i: int) -> bool { 0 <= i <= v.len() && (i == v.len() || is_start(v[i])) }
pub proof fn utf8_first(v: Seq<u8>)
    requires valid_utf8(v), v.len() > 0
    ensures is_start(v[0]), clen(v[0]) <= v.len(), forall|i: int| 1 <= i < clen(v[0]) ==> !is_start(#[trigger] v[i]),
        valid_utf8(v.skip(clen(v[0]))), length_of_first_scalar(v) == clen(v[0])
{
    assert(valid_first_scalar(v));
    assert(pop_first_scalar(v) =~= v.skip(clen(v[0])));
}
/// A cut at a character start leaves valid UTF-8 on both sides.
pub proof fn utf8_cut(v: Seq<u8>, i: int)
    requires valid_utf8(v), boundary(v, i)
    ensures valid_utf8(v.take(i)), valid_utf8(v.skip(i))
    decreases v.len()
{
    if i == 0 {
        assert(v.skip(0) =~= v);
        assert(v.take(0) =~= Seq::<u8>::empty());
    } else {
        utf8_first(v);
        let l = clen(v[0]);
        let w = v.skip(l);
        assert(i >= l);
        if i < v.len() { assert(w[i - l] == v[i]); }
        utf8_cut(w, i - l);
        assert(w.skip(i - l) =~= v.skip(i));
        assert(w.take(i - l) =~= v.take(i).skip(l));
        assert(valid_first_scalar(v.take(i)));
        assert(pop_first_scalar(v.take(i)) =~= v.take(i).skip(l));
    }
}
/// The character at a start is whole, and a start or the end follows.
pub proof fn utf8_char_at(v: Seq<u8>, i: int)
    requires valid_utf8(v), 0 <= i < v.len(), is_start(v[i])
    ensures i + clen(v[i]) <= v.len(), boundary(v, i + clen(v[i])),
        forall|k: int| i < k < i + clen(v[i]) ==> !is_start(#[trigger] v[k]),
{
    utf8_cut(v, i);
    let w = v.skip(i);
    utf8_first(w);
    let l = clen(v[i]);
    assert(w[0] == v[i]);
    assert forall|k: int| i < k < i + l implies !is_start(#[trigger] v[k]) by { assert(w[k - i] == v[k]); }
    if i + l < v.len() {
        utf8_first(w.skip(l));
        assert(w.skip(l)[0] == v[i + l]);
    }
}
pub proof fn utf8_range(v: Seq<u8>, i: int, j: int)
    requires valid_utf8(v), boundary(v, i), boundary(v, j), i <= j
    ensures valid_utf8(v.subrange(i, j))
{
    utf8_cut(v, j);
    let w = v.take(j);
    if i < j { assert(w[i] == v[i]); }
    utf8_cut(w, i);
    assert(w.skip(i) =~= v.subrange(i, j));
}
/// What find_char_end(data) == r promises when data begins the valid text v.
pub open spec fn char_end(v: Seq<u8>, n: int, r: int) -> bool {
    &&& 0 <= r <= n && (n > 0 ==> r > 0)
    &&& (n >= 4 || boundary(v, n)) ==> boundary(v, r)
    &&& boundary(v, n) ==> r == n
}
pub proof fn char_end_found(v: Seq<u8>, n: int, start: int, r: int)
    requires valid_utf8(v), 0 < n <= v.len(), 0 <= start < n, is_start(v[start]),
        forall|k: int| start < k < n ==> !is_start(#[trigger] v[k]),
        r == if start > 0 && n - start < clen(v[start]) { start } else { n },
    ensures char_end(v, n, r)
{
    utf8_char_at(v, start);
    let e = start + clen(v[start]);
    if n > e { assert(is_start(v[e])); }
    if n < e && n < v.len() { assert(!is_start(v[n])); }
}
/// the kinds of bytes, told by their bits
pub proof fn byte_bits()
    ensures
        forall|b: u8| #![trigger b & 0x80] ((b & 0x80) == 0) == (b < 128) && ((b & 0x80) == 0x80) == (b >= 128),
        forall|b: u8| #![trigger b & 0xC0] ((b & 0xC0) == 0x80) == (128 <= b < 192) && ((b & 0xC0) == 0xC0) == (192 <= b),
        forall|b: u8| #![trigger b & 0xE0] ((b & 0xE0) == 0xC0) == (192 <= b < 224),
        forall|b: u8| #![trigger b & 0xF0] ((b & 0xF0) == 0xE0) == (224 <= b < 240),
        forall|b: u8| #![trigger b & 0xF8] ((b & 0xF8) == 0xF0) == (240 <= b < 248),
        forall|b: u8| #![trigger b >> 7i32] (b >> 7i32 == 0) == (b < 128),
        forall|b: u8| #![trigger b >> 6i32] (b >> 6i32 == 2) == (128 <= b < 192) && (b >> 6i32 == 3) == (192 <= b),
        forall|b: u8| #![trigger b >> 5i32] (b >> 5i32 == 6) == (192 <= b < 224),
        forall|b: u8| #![trigger b >> 4i32] (b >> 4i32 == 14) == (224 <= b < 240),
        forall|b: u8| #![trigger b as i8] ((b as i8) >= -64) == (b < 128 || b >= 192) && ((b as i8) >= 0) == (b < 128),
{
    assert(forall|b: u8| #![trigger b & 0x80] ((b & 0x80) == 0) == (b < 128) && ((b & 0x80) == 0x80) == (b >= 128)) by (bit_vector);
    assert(forall|b: u8| #![trigger b & 0xC0] ((b & 0xC0) == 0x80) == (128 <= b < 192) && ((b & 0xC0) == 0xC0) == (192 <= b)) by (bit_vector);
    assert(forall|b: u8| #![trigger b & 0xE0] ((b & 0xE0) == 0xC0) == (192 <= b < 224)) by (bit_vector);
    assert(forall|b: u8| #![trigger b & 0xF0] ((b & 0xF0) == 0xE0) == (224 <= b < 240)) by (bit_vector);
    assert(forall|b: u8| #![trigger b & 0xF8] ((b & 0xF8) == 0xF0) == (240 <= b < 248)) by (bit_vector);
    assert(forall|b: u8| #![trigger b >> 7i32] (b >> 7i32 == 0) == (b < 128)) by (bit_vector);
    assert(forall|b: u8| #![trigger b >> 6i32] (b >> 6i32 == 2) == (128 <= b < 192) && (b >> 6i32 == 3) == (192 <= b)) by (bit_vector);
    assert(forall|b: u8| #![trigger b >> 5i32] (b >> 5i32 == 6) == (192 <= b < 224)) by (bit_vector);
    assert(forall|b: u8| #![trigger b >> 4i32] (b >> 4i32 == 14) == (224 <= b < 240)) by (bit_vector);
    assert(forall|b: u8| #![trigger b as i8] ((b as i8) >= -64) == (b < 128 || b >= 192) && ((b as i8) >= 0) == (b < 128)) by (bit_vector);
}
/// s is the last character start of d
pub open spec fn last_start(d: Seq<u8>, s: int) -> bool {
    0 <= s < d.len() && is_start(d[s]) && forall|k: int| s < k < d.len() ==> !is_start(#[trigger] d[k])
}
pub open spec fn cut(d: Seq<u8>, r: int) -> bool {
    &&& forall|s: int| #[trigger] last_start(d, s) ==> r == if s > 0 && d.len() - s < clen(d[s]) { s } else { d.len() as int }
    &&& (forall|k: int| 0 <= k < d.len() ==> !is_start(#[trigger] d[k])) ==> r == d.len()
}
pub proof fn last_start_exists(d: Seq<u8>, n: int) -> (s: int)
    requires 0 < n <= d.len(), is_start(d[0])
    ensures last_start(d.take(n), s)
    decreases n
{
    if n == 1 || is_start(d[n - 1]) { n - 1 }
    else {
        let s = last_start_exists(d, n - 1);
        assert(d.take(n - 1)[s] == d.take(n)[s]);
        assert forall|k: int| s < k < n implies !is_start(#[trigger] d.take(n)[k]) by {
            if k < n - 1 { assert(!is_start(d.take(n - 1)[k])); }
        }
        s
    }
}
/// The cut of a prefix of valid text.
pub proof fn cut_valid(v: Seq<u8>, n: int, r: int)
    requires valid_utf8(v), 0 <= n <= v.len(), cut(v.take(n), r)
    ensures char_end(v, n, r)
{
    let d = v.take(n);
    if n > 0 {
        utf8_first(v);
        let s = last_start_exists(v, n);
        assert(last_start(d, s));
        assert forall|k: int| s < k < n implies !is_start(#[trigger] v[k]) by { assert(!is_start(d[k])); }
        char_end_found(v, n, s, r);
    }
}
/// e follows a line feed
pub open spec fn after_newline(d: Seq<u8>, e: int) -> bool { 0 < e <= d.len() && d[e - 1] == 10 }
/// d[p..q] is a non-empty piece of whole characters
pub open spec fn piece(d: Seq<u8>, p: int, q: int) -> bool {
    0 <= p < q <= d.len() && boundary(d, q) && valid_utf8(d.subrange(p, q))
}
pub proof fn cut_piece(d: Seq<u8>, p: int, e: int, r: int)
    requires valid_utf8(d), boundary(d, p), p < e <= d.len(), cut(d.subrange(p, e), r),
        e - p >= 4 || after_newline(d, e) || e == d.len(),
    ensures piece(d, p, p + r), r <= e - p, e == d.len() ==> p + r == e
{
    utf8_cut(d, p);
    let v = d.skip(p);
    let n = e - p;
    assert(v.take(n) =~= d.subrange(p, e));
    cut_valid(v, n, r);
    if after_newline(d, e) { utf8_char_at(d, e - 1); }
    if n < v.len() { assert(v[n] == d[e]); }
    if r < v.len() { assert(v[r] == d[p + r]); }
    utf8_range(d, p, p + r);
}

@fn is_char_start -> r
@props C06 C07 C17 C18
@spec
ensures r == is_start(b)
@start
proof { byte_bits(); }

@fn find_char_end -> r
@props C06 C07 C17 C18
@spec
ensures cut(data@, r as int)
@start
proof { byte_bits(); slice_u8_len(data); }
@loop 0
    start <= data@.len(), forall|k: int| start <= k < data@.len() ==> !is_start(#[trigger] data@[k]),
decreases start

@fn find_paragraph_end -> r
@props C06 C07 C17 C18
@spec
requires end <= data@.len()
ensures r <= end, r == end || (r >= 2 && data@[r - 1] == 10 && data@[r - 2] == 10)
%C17,C18     , r == para_end(data@, end as int)
@start
proof { slice_u8_len(data); }
@loop 0
    pos <= end,
%C17,C18     para_scan(data@, pos as int) == para_scan(data@, end as int),
decreases pos

@module input::sample
@prelude
use crate::vx::*;
use vstd::utf8::*;

impl<'a> Sample<'a> {
    pub open spec fn text(&self) -> Seq<char> {
        match *self { Sample::Data(s) => s@, Sample::Ref(s) => s@ }
    }
    pub open spec fn bytes(&self) -> Seq<u8> { encode_utf8(self.text()) }
}

@fn Sample::from_vec -> r
@props C06 C07 C17 C18
@spec
requires valid_utf8(data@)
ensures r.bytes() == data@

@fn Sample::from_bytes -> r
@props C06 C07 C17 C18
@spec
requires valid_utf8(data@)
ensures r.bytes() == data@

@fn Sample::as_bytes -> r
@props C06 C07 C05 C17 C18
@spec
ensures r@ == self.bytes()

@fn Sample::as_str -> r
@props C06 C07 C17 C18
@spec
ensures r@ == self.text()

@module input::memory_sampler
@prelude
use crate::vx::*;
use vstd::utf8::*;
use super::sample::*;
use super::util::*;

impl MemorySampler {
    pub open spec fn ok(&self) -> bool { valid_utf8(self.data@) && self.chunk_size >= 4 }
}
impl<'a> MemoryIterator<'a> {
    pub open spec fn ok(&self) -> bool {
        &&& self.sampler.ok()
        &&& boundary(self.sampler.data@, self.position as int)
        &&& self.position == 0 || self.position == self.sampler.data@.len() || self.sampler.chunk_size < self.sampler.data@.len()
    }
}
/// C06: whoever takes samples until there are no more (so the iteration ends) gets non-empty
/// pieces that make up the data.
pub fn c06_drain(s: &MemorySampler) -> (p: Ghost<Seq<Seq<u8>>>)
    requires s.ok()
    ensures joined(p@) == s.data@, forall|i: int| 0 <= i < p@.len() ==> (#[trigger] p@[i]).len() > 0
{
    let mut it = s.iter();
    let ghost mut p: Seq<Seq<u8>> = Seq::empty();
    assert(s.data@.take(0) =~= joined(p));
    loop
        invariant_except_break
            it.ok(), it.sampler == s, joined(p) == s.data@.take(it.position as int),
            forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).len() > 0,
        ensures joined(p) == s.data@, forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).len() > 0,
        decreases s.data@.len() - it.position
    {
        let ghost a = it.position as int;
        match it.next() {
            None => {
                proof { assert(s.data@.take(a) =~= s.data@); }
                break;
            }
            Some(x) => {
                proof {
                    let b = it.position as int;
                    assert(p.push(x.bytes()).drop_last() =~= p);
                    assert(s.data@.take(b) =~= s.data@.take(a) + s.data@.subrange(a, b));
                    p = p.push(x.bytes());
                }
            }
        }
    }
    Ghost(p)
}

// ---- C16: whole paragraphs in file order ----
broadcast use crate::vx::floats;
/// a paragraph starts at i: two line feeds before it, none at it
pub open spec fn brk(c: Seq<u8>, i: int) -> bool { 2 <= i < c.len() && c[i - 1] == 10 && c[i - 2] == 10 && c[i] != 10 }
/// c[s.0..s.1] is one whole paragraph
pub open spec fn paragraph_at(c: Seq<u8>, s: (int, int)) -> bool {
    &&& 0 <= s.0 < s.1 <= c.len()
    &&& s.0 == 0 || brk(c, s.0)
    &&& s.1 == c.len() || brk(c, s.1)
    &&& forall|i: int| s.0 < i < s.1 ==> !#[trigger] brk(c, i)
}
/// whole paragraphs before e, in order, none twice
pub open spec fn picked(c: Seq<u8>, sel: Seq<(int, int)>, e: int) -> bool {
    &&& forall|k: int| 0 <= k < sel.len() ==> paragraph_at(c, #[trigger] sel[k]) && sel[k].1 <= e
    &&& forall|k: int, l: int| 0 <= k < l < sel.len() ==> (#[trigger] sel[k]).1 <= (#[trigger] sel[l]).0
}
pub open spec fn text_of(c: Seq<u8>, sel: Seq<(int, int)>) -> Seq<u8>
    decreases sel.len()
{
    if sel.len() == 0 { Seq::empty() } else { text_of(c, sel.drop_last()) + c.subrange(sel.last().0, sel.last().1) }
}
pub proof fn pick(c: Seq<u8>, sel: Seq<(int, int)>, e: int, s: (int, int))
    requires picked(c, sel, e), e <= s.0, paragraph_at(c, s)
    ensures picked(c, sel.push(s), s.1), text_of(c, sel.push(s)) == text_of(c, sel) + c.subrange(s.0, s.1)
{
    assert(sel.push(s).drop_last() =~= sel);
}
/// [j, p) is the paragraph read so far
pub open spec fn open_par(c: Seq<u8>, j: int, p: int) -> bool {
    &&& 0 <= j <= p <= c.len()
    &&& p > 0 ==> j < p
    &&& j == 0 || brk(c, j)
    &&& forall|i: int| j < i < p ==> !#[trigger] brk(c, i)
    &&& 0 < p < c.len() ==> c[p - 1] == 10
}
/// The line [p, q) follows the open paragraph [j, p).
pub proof fn next_line(c: Seq<u8>, j: int, p: int, q: int)
    requires open_par(c, j, p), p < q <= c.len(), forall|i: int| p <= i < q - 1 ==> #[trigger] c[i] != 10, q < c.len() ==> c[q - 1] == 10
    ensures
        brk(c, p) <==> c[p] != 10 && p - j >= 2 && c[p - 1] == 10 && c[p - 2] == 10,
        brk(c, p) ==> paragraph_at(c, (j, p)) && open_par(c, p, q),
        !brk(c, p) ==> open_par(c, j, q),
{
    assert forall|i: int| p < i < q implies !#[trigger] brk(c, i) by { assert(c[i - 1] != 10); }
}
pub proof fn ends_nn(a: Seq<u8>, b: Seq<u8>)
    requires b.len() == 2, b[0] == 10, b[1] == 10
    ensures (a.len() >= 2 && a.skip(a.len() - 2) == b) == (a.len() >= 2 && a[a.len() - 1] == 10 && a[a.len() - 2] == 10)
{
    if a.len() >= 2 {
        let t = a.skip(a.len() - 2);
        if t[0] == 10 && t[1] == 10 { assert(t =~= b); }
    }
}

@fn MemorySampler::from_file -> r
@props C06 C18
@spec
ensures r.data@ == fs_content(filename@), r.chunk_size == chunk_size

@fn MemorySampler::from_str -> r
@props C06
@spec
ensures r.data@ == encode_utf8(data@), r.chunk_size == chunk_size

@fn MemorySampler::sample_from_file -> r
@props C16 C17 C18
@rw __a.ends_with(__b) => crate::vx::ends_with(crate::vx::AsSl::vx_sl(&__a), crate::vx::AsSl::vx_sl(&__b))
@type data Vec<u8>
@type paragraph Vec<u8>
@type buffer Vec<u8>
@spec
ensures r.chunk_size == chunk_size,
    exists|sel: Seq<(int, int)>| #[trigger] picked(fs_content(filename@), sel, fs_content(filename@).len() as int)
        && r.data@ == text_of(fs_content(filename@), sel),
    fs_content(filename@).len() > 0 ==> r.data@.len() > 0,
@start
let ghost c = fs_content(filename@);
let ghost mut p: int = 0;
let ghost mut j: int = 0;
let ghost mut sel: Seq<(int, int)> = Seq::empty();
proof {
    assert forall|a: Seq<u8>, b: Seq<u8>| b.len() == 2 && b[0] == 10 && b[1] == 10 implies
        (a.len() >= 2 && #[trigger] a.skip(a.len() - b.len()) == b) == (a.len() >= 2 && a[a.len() - 1] == 10 && a[a.len() - 2] == 10) by { ends_nn(a, b); }
}
@loop 0
    c == fs_content(filename@), c.len() <= i64::MAX,
    buffer@.len() == 0, reader.left() == c.skip(p), paragraph@ == c.subrange(j, p),
    open_par(c, j, p), picked(c, sel, j), data@ == text_of(c, sel), read_bytes == j, j > 0 ==> data@.len() > 0,
decreases c.len() - p
@loop 0 start
let ghost q = p + buffer@.len();
proof {
    assert(buffer@ =~= c.subrange(p, q));
    assert forall|i: int| p <= i < q - 1 implies #[trigger] c[i] != 10 by { assert(c.skip(p)[i - p] == c[i]); }
    if q < c.len() { assert(c.skip(p)[q - p - 1] == c[q - 1]); }
    next_line(c, j, p, q);
    if brk(c, p) { pick(c, sel, j, (j, p)); }
    assert(c.skip(q) =~= c.skip(p).skip(q - p));
    assert(c.subrange(j, p) + c.subrange(p, q) =~= c.subrange(j, q));
}
@after "data.extend_from_slice(&paragraph);"
proof { sel = sel.push((j, p)); }
@after "paragraph.clear();"
proof { j = p; }
@loop 0 end
proof { p = q; }
@loop 0 after
proof {
    if c.len() > 0 { pick(c, sel, j, (j, c.len() as int)); }
}
@after "data.extend_from_slice(&paragraph);" 1
proof { if c.len() > 0 { sel = sel.push((j, c.len() as int)); } }
@end
proof { assert(picked(c, sel, c.len() as int) && data@ == text_of(c, sel)); }

@fn MemorySampler::iter -> r
@props C06 C17 C18
@spec
ensures r.sampler == self, r.position == 0, self.ok() ==> r.ok()
@start
proof { if valid_utf8(self.data@) && self.data@.len() > 0 { utf8_first(self.data@); } }

@fn MemorySampler::total_size -> r
@props C06 C17 C18
@spec
ensures r == self.data@.len()

@fn MemoryIterator::next -> r
@props C06 C17 C18
@spec
requires old(self).ok()
ensures final(self).ok(), final(self).sampler == old(self).sampler,
%C17,C18     r.is_some() ==> final(self).position == mem_end(old(self).sampler.data@, old(self).sampler.chunk_size as int, old(self).position as int),
    r.is_none() ==> old(self).position == old(self).sampler.data@.len() && final(self).position == old(self).position,
    r.is_some() ==> old(self).position < final(self).position
        && r.unwrap().bytes() == old(self).sampler.data@.subrange(old(self).position as int, final(self).position as int),
@start
let ghost d = self.sampler.data@;
let ghost p = self.position as int;
proof {
    vec_u8_len(&self.sampler.data);
%C17,C18     cut_once();
    assert forall|e: int, r: int| #[trigger] cut(d.subrange(p, e), r) && p < e <= d.len() && (e - p >= 4 || after_newline(d, e) || e == d.len())
        implies piece(d, p, p + r) && r <= e - p && (e == d.len() ==> p + r == e) by { cut_piece(d, p, e, r); }
}

@module input::file_sampler
@prelude
use crate::vx::*;
use vstd::utf8::*;
use super::sample::*;
use super::util::*;

impl<'a> FileIterator<'a> {
    pub open spec fn ok(&self) -> bool {
        &&& self.samples_left.is_none()
        &&& self.sample_size >= 4
        &&& self.file.wf() && valid_utf8(self.file.content())
        &&& boundary(self.file.content(), self.file.pos())
    }
}
impl FileSampler {
    /// an unbounded sampler of a file that holds UTF-8 text
    pub open spec fn ok(&self) -> bool {
        &&& self.max_samples.is_none() && self.sample_size >= 4
        &&& valid_utf8(fs_content(self.filename@))
        &&& self.file_size == fs_content(self.filename@).len()
    }
}
/// C07: whoever takes samples until there are no more (so the iteration ends) gets non-empty
/// pieces that make up the file.
pub fn c07_drain(s: &FileSampler) -> (p: Ghost<Seq<Seq<u8>>>)
    requires s.ok()
    ensures joined(p@) == fs_content(s.filename@), forall|i: int| 0 <= i < p@.len() ==> (#[trigger] p@[i]).len() > 0
{
    let mut it = s.iter();
    let ghost mut p: Seq<Seq<u8>> = Seq::empty();
    let ghost d = fs_content(s.filename@);
    assert(d.take(0) =~= joined(p));
    loop
        invariant_except_break
            it.ok(), it.file.content() == d, joined(p) == d.take(it.file.pos()),
            forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).len() > 0,
        ensures joined(p) == d, forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).len() > 0,
        decreases d.len() - it.file.pos()
    {
        let ghost a = it.file.pos();
        match it.next() {
            None => {
                proof { assert(d.take(a) =~= d); }
                break;
            }
            Some(x) => {
                proof {
                    let b = it.file.pos();
                    assert(p.push(x.bytes()).drop_last() =~= p);
                    assert(d.take(b) =~= d.take(a) + d.subrange(a, b));
                    p = p.push(x.bytes());
                }
            }
        }
    }
    Ghost(p)
}

@fn FileSampler::new -> r
@props C07 C17 C18
@spec
ensures r.filename@ == filename@, r.sample_size == sample_size, r.max_samples == max_samples,
    r.file_size == fs_content(filename@).len()

@fn FileSampler::iter -> r
@props C07 C17 C18
@spec
ensures self.ok() ==> r.ok() && r.sample_size == self.sample_size && r.file.content() == fs_content(self.filename@) && r.file.pos() == 0
@start
proof { if valid_utf8(fs_content(self.filename@)) && fs_content(self.filename@).len() > 0 { utf8_first(fs_content(self.filename@)); } }

@fn FileSampler::total_size -> r
@props C07 C17 C18
@spec
requires self.max_samples.is_none()
ensures r == self.file_size, self.ok() ==> r == fs_content(self.filename@).len()

@fn FileIterator::next -> r
@props C07 C17 C18
@spec
requires old(self).ok()
ensures final(self).ok(), final(self).file.content() == old(self).file.content(),
%C17,C18     final(self).sample_size == old(self).sample_size,
%C17,C18     r.is_some() ==> final(self).file.pos() == file_end(old(self).file.content(), old(self).sample_size as int, old(self).file.pos()),
    r.is_none() ==> old(self).file.pos() == old(self).file.content().len() && final(self).file.pos() == old(self).file.pos(),
    r.is_some() ==> old(self).file.pos() < final(self).file.pos()
        && r.unwrap().bytes() == old(self).file.content().subrange(old(self).file.pos(), final(self).file.pos()),
@start
let ghost d = self.file.content();
let ghost p = self.file.pos();
proof {
    assert forall|e: int, r: int| #[trigger] cut(d.subrange(p, e), r) && p < e <= d.len() && (e - p >= 4 || after_newline(d, e) || e == d.len())
        implies piece(d, p, p + r) && r <= e - p && (e == d.len() ==> p + r == e) by { cut_piece(d, p, e, r); }
    if p < d.len() { utf8_range(d, p, d.len() as int); }
    // the bytes read are a piece of the file, and so are their prefixes
    assert forall|n: int| 0 <= n <= d.len() - p implies Seq::<u8>::empty() + #[trigger] d.skip(p).take(n) == d.subrange(p, p + n) by {
        assert(Seq::<u8>::empty() + d.skip(p).take(n) =~= d.subrange(p, p + n));
    }
%C17,C18     cut_once();
    assert forall|e: int, m: int| p <= e <= d.len() && 0 <= m <= e - p implies #[trigger] d.subrange(p, e).subrange(0, m) == d.subrange(p, p + m) by {
        assert(d.subrange(p, e).subrange(0, m) =~= d.subrange(p, p + m));
    }
}
