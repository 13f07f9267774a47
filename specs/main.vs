%C17,C18 @module input::util
%C17,C18 @prelude
%C17,C18 // ---- C17: the samples are the same every time --------------------------------------------
%C17,C18 pub open spec fn para_scan(d: Seq<u8>, pos: int) -> int
%C17,C18     decreases pos
%C17,C18 {
%C17,C18     if pos >= 2 && (d[pos - 1] != 10 || d[pos - 2] != 10) { para_scan(d, pos - 1) } else { pos }
%C17,C18 }
%C17,C18 /// where the last paragraph in d[..end] ends
%C17,C18 pub open spec fn para_end(d: Seq<u8>, end: int) -> int {
%C17,C18     let p = para_scan(d, end);
%C17,C18     if p < 2 { end } else { p }
%C17,C18 }
%C17,C18 pub proof fn para_end_found(d: Seq<u8>, p: int, end: int)
%C17,C18     requires 0 <= p <= end <= d.len()
%C17,C18     ensures 0 <= para_scan(d, p) <= p, para_scan(d, p) < 2 || after_newline(d, para_scan(d, p))
%C17,C18     decreases p
%C17,C18 {
%C17,C18     if p >= 2 && (d[p - 1] != 10 || d[p - 2] != 10) { para_end_found(d, p - 1, end); }
%C17,C18 }
%C17,C18 pub open spec fn cut_at(d: Seq<u8>) -> int { choose|r: int| cut(d, r) }
%C17,C18 pub proof fn last_of(d: Seq<u8>, n: int) -> (s: int)
%C17,C18     requires 0 <= n <= d.len(), exists|k: int| 0 <= k < n && is_start(#[trigger] d[k])
%C17,C18     ensures last_start(d.take(n), s)
%C17,C18     decreases n
%C17,C18 {
%C17,C18     let k = choose|k: int| 0 <= k < n && is_start(#[trigger] d[k]);
%C17,C18     if is_start(d[n - 1]) { n - 1 } else {
%C17,C18         let s = last_of(d, n - 1);
%C17,C18         assert(d.take(n - 1)[s] == d.take(n)[s]);
%C17,C18         assert forall|k: int| s < k < n implies !is_start(#[trigger] d.take(n)[k]) by {
%C17,C18             if k < n - 1 { assert(!is_start(d.take(n - 1)[k])); }
%C17,C18         }
%C17,C18         s
%C17,C18     }
%C17,C18 }
%C17,C18 /// there is one place to cut
%C17,C18 pub proof fn cut_once()
%C17,C18     ensures forall|d: Seq<u8>, r: int| #[trigger] cut(d, r) ==> r == cut_at(d)
%C17,C18 {
%C17,C18     assert forall|d: Seq<u8>, r: int| #[trigger] cut(d, r) implies r == cut_at(d) by {
%C17,C18         let q = cut_at(d);
%C17,C18         assert(cut(d, q));
%C17,C18         if exists|k: int| 0 <= k < d.len() && is_start(#[trigger] d[k]) {
%C17,C18             let s = last_of(d, d.len() as int);
%C17,C18             assert(d.take(d.len() as int) =~= d);
%C17,C18             assert(last_start(d, s));
%C17,C18         }
%C17,C18     }
%C17,C18 }
%C17,C18 pub proof fn cut_exists(d: Seq<u8>)
%C17,C18     ensures cut(d, cut_at(d))
%C17,C18 {
%C17,C18     let l = d.len() as int;
%C17,C18     if exists|k: int| 0 <= k < d.len() && is_start(#[trigger] d[k]) {
%C17,C18         let s = last_of(d, l);
%C17,C18         assert(d.take(l) =~= d);
%C17,C18         let r = if s > 0 && l - s < clen(d[s]) { s } else { l };
%C17,C18         assert forall|t: int| #[trigger] last_start(d, t) implies t == s by {
%C17,C18             if t < s { assert(!is_start(d[s])); }
%C17,C18             if s < t { assert(!is_start(d[t])); }
%C17,C18         }
%C17,C18         assert(cut(d, r));
%C17,C18     } else {
%C17,C18         assert forall|t: int| !#[trigger] last_start(d, t) by { }
%C17,C18         assert(cut(d, l));
%C17,C18     }
%C17,C18 }

%C17,C18 @module input::memory_sampler
%C17,C18 @prelude
%C17,C18 /// the end of the sample that starts at p
%C17,C18 pub open spec fn mem_end(d: Seq<u8>, chunk: int, p: int) -> int {
%C17,C18     let e0 = if p + chunk < d.len() { p + chunk } else { d.len() as int };
%C17,C18     let q = para_end(d, e0);
%C17,C18     let e1 = if e0 < d.len() && q > p { q } else { e0 };
%C17,C18     p + cut_at(d.subrange(p, e1))
%C17,C18 }
%C17,C18 pub open spec fn mem_parts(d: Seq<u8>, chunk: int, p: int) -> Seq<Seq<u8>>
%C17,C18     decreases d.len() - p
%C17,C18 {
%C17,C18     let q = mem_end(d, chunk, p);
%C17,C18     if p < 0 || p >= d.len() || q <= p || q > d.len() { Seq::empty() } else { seq![d.subrange(p, q)] + mem_parts(d, chunk, q) }
%C17,C18 }
%C17,C18 pub proof fn mem_end_piece(d: Seq<u8>, chunk: int, p: int)
%C17,C18     requires valid_utf8(d), boundary(d, p), p < d.len(), chunk >= 4
%C17,C18     ensures piece(d, p, mem_end(d, chunk, p))
%C17,C18 {
%C17,C18     let e0 = if p + chunk < d.len() { p + chunk } else { d.len() as int };
%C17,C18     para_end_found(d, e0, e0);
%C17,C18     let q = para_end(d, e0);
%C17,C18     let e1 = if e0 < d.len() && q > p { q } else { e0 };
%C17,C18     cut_exists(d.subrange(p, e1));
%C17,C18     cut_piece(d, p, e1, cut_at(d.subrange(p, e1)));
%C17,C18 }
%C17,C18 impl<'a> SampleIter<'a> for MemoryIterator<'a> {
%C17,C18     open spec fn valid(&self) -> bool { self.ok() }
%C17,C18     open spec fn rest(&self) -> Seq<Seq<u8>> { mem_parts(self.sampler.data@, self.sampler.chunk_size as int, self.position as int) }
%C17,C18     fn next(&mut self) -> (r: Option<Sample<'a>>) {
%C17,C18         let ghost d = self.sampler.data@;
%C17,C18         let ghost c = self.sampler.chunk_size as int;
%C17,C18         let ghost p = self.position as int;
%C17,C18         proof { if p < d.len() { mem_end_piece(d, c, p); } }
%C17,C18         let r = MemoryIterator::next(self);
%C17,C18         proof {
%C17,C18             if p < d.len() {
%C17,C18                 assert(mem_parts(d, c, p).drop_first() =~= mem_parts(d, c, mem_end(d, c, p)));
%C17,C18             }
%C17,C18         }
%C17,C18         r
%C17,C18     }
%C17,C18 }
%C17,C18 impl<'a> Sampler<'a> for MemorySampler {
%C17,C18     type Iter = MemoryIterator<'a>;
%C17,C18     open spec fn valid(&self) -> bool { self.ok() }
%C17,C18     open spec fn parts(&self) -> Seq<Seq<u8>> { mem_parts(self.data@, self.chunk_size as int, 0) }
%C17,C18     fn iter(&'a self) -> (r: MemoryIterator<'a>) { MemorySampler::iter(self) }
%C17,C18     fn total_size(&'a self) -> u64 { MemorySampler::total_size(self) }
%C17,C18 }

%C17,C18 @module input::file_sampler
%C17,C18 @prelude
%C17,C18 /// the end of the sample that starts at p
%C17,C18 pub open spec fn file_end(d: Seq<u8>, n: int, p: int) -> int {
%C17,C18     if d.len() - p < n { d.len() as int } else {
%C17,C18         let b = d.subrange(p, p + n);
%C17,C18         p + cut_at(b.take(para_end(b, n)))
%C17,C18     }
%C17,C18 }
%C17,C18 pub open spec fn file_parts(d: Seq<u8>, n: int, p: int) -> Seq<Seq<u8>>
%C17,C18     decreases d.len() - p
%C17,C18 {
%C17,C18     let q = file_end(d, n, p);
%C17,C18     if p < 0 || p >= d.len() || q <= p || q > d.len() { Seq::empty() } else { seq![d.subrange(p, q)] + file_parts(d, n, q) }
%C17,C18 }
%C17,C18 pub proof fn file_end_piece(d: Seq<u8>, n: int, p: int)
%C17,C18     requires valid_utf8(d), boundary(d, p), p < d.len(), n >= 4
%C17,C18     ensures piece(d, p, file_end(d, n, p))
%C17,C18 {
%C17,C18     if d.len() - p < n {
%C17,C18         utf8_range(d, p, d.len() as int);
%C17,C18     } else {
%C17,C18         let b = d.subrange(p, p + n);
%C17,C18         para_end_found(b, n, n);
%C17,C18         let e = para_end(b, n);
%C17,C18         assert(b.take(e) =~= d.subrange(p, p + e));
%C17,C18         cut_exists(b.take(e));
%C17,C18         if e < n { assert(after_newline(b, e)); assert(b[e - 1] == d[p + e - 1]); }
%C17,C18         cut_piece(d, p, p + e, cut_at(b.take(e)));
%C17,C18     }
%C17,C18 }
%C17,C18 impl<'a> SampleIter<'a> for FileIterator<'a> {
%C17,C18     open spec fn valid(&self) -> bool { self.ok() }
%C17,C18     open spec fn rest(&self) -> Seq<Seq<u8>> { file_parts(self.file.content(), self.sample_size as int, self.file.pos()) }
%C17,C18     fn next(&mut self) -> (r: Option<Sample<'a>>) {
%C17,C18         let ghost d = self.file.content();
%C17,C18         let ghost c = self.sample_size as int;
%C17,C18         let ghost p = self.file.pos();
%C17,C18         proof { if p < d.len() { file_end_piece(d, c, p); } }
%C17,C18         let r = FileIterator::next(self);
%C17,C18         proof {
%C17,C18             if p < d.len() {
%C17,C18                 assert(file_parts(d, c, p).drop_first() =~= file_parts(d, c, file_end(d, c, p)));
%C17,C18             }
%C17,C18         }
%C17,C18         r
%C17,C18     }
%C17,C18 }
%C17,C18 impl<'a> Sampler<'a> for FileSampler {
%C17,C18     type Iter = FileIterator<'a>;
%C17,C18     open spec fn valid(&self) -> bool { self.ok() }
%C17,C18     open spec fn parts(&self) -> Seq<Seq<u8>> { file_parts(fs_content(self.filename@), self.sample_size as int, 0) }
%C17,C18     fn iter(&'a self) -> (r: FileIterator<'a>) { FileSampler::iter(self) }
%C17,C18     fn total_size(&'a self) -> u64 { FileSampler::total_size(self) }
%C17,C18 }

%C17,C18 @module main
%C17,C18 @prelude
%C17,C18 use super::processing::Processing;
%C17,C18 use crate::vx::*;
%C17,C18 use vstd::utf8::*;
%C17,C18 use super::batch_tokenize::*;
%C17,C18 use super::input::sample::*;
%C17,C18 use super::input::util::*;
%C17,C18 use super::input::file_sampler::*;
%C17,C18 use super::input::memory_sampler::*;
%C17,C18 use super::optimize;
%C17,C18 use super::optimize::*;
%C17,C18 use super::optimize_bytes::*;
%C17,C18 use super::stats2::*;
%C17,C18 use super::tokenset::*;
%C17,C18 broadcast use crate::vx::floats;

%C17,C18 pub proof fn mem_parts_size(d: Seq<u8>, c: int, p: int)
%C17,C18     requires valid_utf8(d), boundary(d, p), c >= 4
%C17,C18     ensures bytes_in(mem_parts(d, c, p)) == d.len() - p,
%C17,C18         forall|i: int| 0 <= i < mem_parts(d, c, p).len() ==> (#[trigger] mem_parts(d, c, p)[i]).len() > 0
%C17,C18     decreases d.len() - p
%C17,C18 {
%C17,C18     if p < d.len() {
%C17,C18         mem_end_piece(d, c, p);
%C17,C18         let q = mem_end(d, c, p);
%C17,C18         mem_parts_size(d, c, q);
%C17,C18         bytes_in_first(d.subrange(p, q), mem_parts(d, c, q));
%C17,C18     }
%C17,C18 }
%C17,C18 pub proof fn file_parts_size(d: Seq<u8>, c: int, p: int)
%C17,C18     requires valid_utf8(d), boundary(d, p), c >= 4
%C17,C18     ensures bytes_in(file_parts(d, c, p)) == d.len() - p,
%C17,C18         forall|i: int| 0 <= i < file_parts(d, c, p).len() ==> (#[trigger] file_parts(d, c, p)[i]).len() > 0
%C17,C18     decreases d.len() - p
%C17,C18 {
%C17,C18     if p < d.len() {
%C17,C18         file_end_piece(d, c, p);
%C17,C18         let q = file_end(d, c, p);
%C17,C18         file_parts_size(d, c, q);
%C17,C18         bytes_in_first(d.subrange(p, q), file_parts(d, c, q));
%C17,C18     }
%C17,C18 }
%C17,C18 pub proof fn bytes_in_first(a: Seq<u8>, p: Seq<Seq<u8>>)
%C17,C18     ensures bytes_in(seq![a] + p) == a.len() + bytes_in(p)
%C17,C18     decreases p.len()
%C17,C18 {
%C17,C18     if p.len() == 0 {
%C17,C18         assert(seq![a] + p =~= seq![a]);
%C17,C18         assert(seq![a].drop_last() =~= Seq::empty());
%C17,C18         assert(seq![a].last() == a);
%C17,C18         assert(bytes_in(seq![a].drop_last()) == 0);
%C17,C18     } else {
%C17,C18         bytes_in_first(a, p.drop_last());
%C17,C18         assert((seq![a] + p).drop_last() =~= seq![a] + p.drop_last());
%C17,C18     }
%C17,C18 }
%C17,C18 /// whole paragraphs of a text are a text, not longer
%C17,C18 pub proof fn picked_text(c: Seq<u8>, sel: Seq<(int, int)>, e: int)
%C17,C18     requires valid_utf8(c), picked(c, sel, e), 0 <= e <= c.len()
%C17,C18     ensures valid_utf8(text_of(c, sel)), text_of(c, sel).len() <= e
%C17,C18     decreases sel.len()
%C17,C18 {
%C17,C18     if sel.len() > 0 {
%C17,C18         let n = sel.len() - 1;
%C17,C18         let (a, b) = sel[n];
%C17,C18         let h = sel.drop_last();
%C17,C18         assert(paragraph_at(c, sel[n]));
%C17,C18         assert forall|k: int| 0 <= k < h.len() implies paragraph_at(c, #[trigger] h[k]) && h[k].1 <= a by { assert(h[k] == sel[k]); assert(sel[k].1 <= sel[n].0); }
%C17,C18         assert forall|k: int, l: int| 0 <= k < l < h.len() implies (#[trigger] h[k]).1 <= (#[trigger] h[l]).0 by { assert(h[k] == sel[k] && h[l] == sel[l]); }
%C17,C18         picked_text(c, h, a);
%C17,C18         brk_boundary(c, a);
%C17,C18         brk_boundary(c, b);
%C17,C18         utf8_range(c, a, b);
%C17,C18         valid_utf8_concat(text_of(c, h), c.subrange(a, b));
%C17,C18     }
%C17,C18 }
%C17,C18 pub proof fn brk_boundary(c: Seq<u8>, i: int)
%C17,C18     requires valid_utf8(c), i == 0 || i == c.len() || brk(c, i)
%C17,C18     ensures boundary(c, i)
%C17,C18 {
%C17,C18     if i == 0 { if c.len() > 0 { utf8_first(c); } }
%C17,C18     else if i < c.len() { utf8_char_at(c, i - 1); }
%C17,C18 }
%C17,C18 /// what the file and the budget have to be
%C17,C18 pub open spec fn trainable(c: Seq<u8>, n: int) -> bool {
%C17,C18     valid_utf8(c) && c.len() < 0x80_0000_0000 && 0 <= n && n * n <= usize::MAX && n + 257 < usize::MAX
%C17,C18 }
%C17,C18 pub open spec fn full_parts(c: Seq<u8>) -> Seq<Seq<u8>> { file_parts(c, 0x100_0000, 0) }
%C17,C18 pub proof fn c17_facts(c: Seq<u8>, n: int)
%C17,C18     requires trainable(c, n)
%C17,C18     ensures
%C17,C18         fits(full_parts(c), n),
%C17,C18         forall|sel: Seq<(int, int)>| #[trigger] picked(c, sel, c.len() as int) ==> valid_utf8(text_of(c, sel)) && text_of(c, sel).len() <= c.len(),
%C17,C18         forall|d: Seq<u8>, k: int| valid_utf8(d) && d.len() <= c.len() && k >= 4 ==> fits(#[trigger] mem_parts(d, k, 0), n),
%C17,C18         forall|ts: TokenSet, p: Seq<Seq<u8>>| kinded(&ts) && ts.tokens@.len() <= n && fits(p, n) ==> #[trigger] countable(&ts, p),
%C17,C18 {
%C17,C18     if c.len() > 0 { utf8_first(c); }
%C17,C18     file_parts_size(c, 0x100_0000, 0);
%C17,C18     assert forall|sel: Seq<(int, int)>| #[trigger] picked(c, sel, c.len() as int) implies valid_utf8(text_of(c, sel)) && text_of(c, sel).len() <= c.len() by { picked_text(c, sel, c.len() as int); }
%C17,C18     assert forall|d: Seq<u8>, k: int| valid_utf8(d) && d.len() <= c.len() && k >= 4 implies fits(#[trigger] mem_parts(d, k, 0), n) by {
%C17,C18         if d.len() > 0 { utf8_first(d); }
%C17,C18         mem_parts_size(d, k, 0);
%C17,C18     }
%C17,C18     assert forall|ts: TokenSet, p: Seq<Seq<u8>>| kinded(&ts) && ts.tokens@.len() <= n && fits(p, n) implies #[trigger] countable(&ts, p) by { kinded_askable(&ts, p, n); }
%C17,C18 }
%C17,C18 /// what the loop hands on to the next round
%C17,C18 pub proof fn c17_next(n: int, p: Seq<Seq<u8>>, q: Seq<Seq<u8>>, initial: Option<u64>, a: &TokenStats, b: &TokenStats)
%C17,C18     requires delivered(n, p, initial, a), tallied(&a.token_set, q, initial, b)
%C17,C18     ensures delivered(n, q, initial, b)
%C17,C18 {
%C17,C18 }

%C17,C18 @fn optimize_with_increasing_data -> r
%C17,C18 @props C17 C18
%C17,C18 @rw __x.abs() => crate::vx::f64_abs(__x)
%C17,C18 @spec
%C17,C18 requires trainable(fs_content(filename@), optimizer.ntokens as int),
%C17,C18     startable(optimizer.ntokens as int, optimizer.processing, optimizer.token_type, input_token_set)
%C17,C18 ensures r.token_set.token_type == optimizer.token_type, r.token_set.processing == starting_processing(optimizer.processing, input_token_set),
%C17,C18     delivered(optimizer.ntokens as int, full_parts(fs_content(filename@)), optimizer.unprocessed_data_size, &r)
%C17,C18 @start
%C17,C18 let ghost c = fs_content(filename@);
%C17,C18 let ghost n = optimizer.ntokens as int;
%C17,C18 proof {
%C17,C18     c17_facts(c, n);
%C17,C18     assert(1usize << 24 == 0x100_0000) by (bit_vector);
%C17,C18     assert(1usize << 20 == 0x10_0000) by (bit_vector);
%C17,C18     assert forall|p: Seq<Seq<u8>>, q: Seq<Seq<u8>>, a: TokenStats, b: TokenStats| #[trigger] delivered(n, p, optimizer.unprocessed_data_size, &a) && #[trigger] tallied(&a.token_set, q, optimizer.unprocessed_data_size, &b)
%C17,C18         implies delivered(n, q, optimizer.unprocessed_data_size, &b) by { c17_next(n, p, q, optimizer.unprocessed_data_size, &a, &b); }
%C17,C18 }
%C17,C18 @loop 0
%C17,C18     size >= 1, full_size == c.len(), startable(n, optimizer.processing, optimizer.token_type, tokenset),
%C17,C18     starting_processing(optimizer.processing, tokenset) == starting_processing(optimizer.processing, input_token_set),
%C17,C18 decreases (if size < 0x400_0000_0000 { 0x400_0000_0000 - size } else { 0 }),
%C17,C18 @module stats2
%C17,C18 @prelude
%C17,C18 broadcast use crate::vx::floats;
%C17,C18 @fn TokenStats::bytes_per_token -> r
%C17,C18 @props C17 C18
%C17,C18 @spec

%C14,C18 @module tokenset
%C14,C18 @prelude
%C14,C18 impl Shown for Processing {
%C14,C18     open spec fn shown(&self) -> Seq<char> { match self { Processing::Raw => "raw"@, Processing::CapsWords => "capswords"@ } }
%C14,C18     fn vx_show(&self) -> (r: String) { self.fmt() }
%C14,C18 }
%C14,C18 impl Shown for TokenType {
%C14,C18     open spec fn shown(&self) -> Seq<char> {
%C14,C18         match self { TokenType::Bits1 => "bits1"@, TokenType::Bits2 => "bits2"@, TokenType::Bits4 => "bits4"@, TokenType::Bytes => "bytes"@, TokenType::BytesHuff => "byteshuff"@ }
%C14,C18     }
%C14,C18     fn vx_show(&self) -> (r: String) { self.fmt() }
%C14,C18 }
%C14,C18 /// what a token set is called
%C14,C18 pub open spec fn name_of(ts: &TokenSet) -> Seq<char> {
%C14,C18     "tokens"@ + (ts.tokens@.len() as usize).shown() + "_"@ + ts.processing.shown() + "_"@ + ts.token_type.shown()
%C14,C18 }
%C14,C18 @fn TokenType::fmt -> r
%C14,C18 @props C18
%C14,C18 @sig pub fn fmt(&self) -> (r: String)
%C14,C18 @rw f.write_str(__s) => crate::vx::str_lit(__s)
%C14,C18 @spec
%C14,C18 ensures r@ == self.shown()

%C14,C18 @fn TokenSet::name -> r
%C14,C18 @props C18 C14
%C14,C18 @spec
%C14,C18 ensures r@ == name_of(self)

%C18 @module main
%C18 @rw process_file(__a, __b).unwrap() => stop_on_error(process_file(__a, __b))
%C18 @rw process_file(__a, __b).expect(__m) => stop_on_error(process_file(__a, __b))
%C18 @rw Args::parse() => args_parse()
%C18 @rw __a.as_deref() => as_deref(&__a)
%C18 @rw File::create(__a) => crate::vx::file_create(__a)
%C18 @rw BufReader::new(__f) => crate::vx::buf_reader(__f)
%C18 @rw serde_json::from_reader(__r) => crate::vx::json_from_reader(__r)
%C18 @rw serde_json::from_str(__r) => crate::vx::json_from_str(__r)
%C18 @rw serde_json::to_writer(__w, __v) => crate::vx::json_to_writer(__w, __v)
%C18 @rw std::fs::read_to_string(__p) => crate::vx::fs_read_to_string(__p)
%C18 @rw fs::read_to_string(__p) => crate::vx::fs_read_to_string(__p)
%C18 @rw Write::write_all(__w, __b) => crate::vx::OutFile::write_all(__w, __b)
%C18 @rw std::io::Write::write_all(__w, __b) => crate::vx::OutFile::write_all(__w, __b)
%C18 @prelude
%C18 // ---- C18: the commands -----------------------------------------------------------------------
%C18 use super::batch_tokenize;
%C18 use super::processing::*;
%C18 impl Read for File { open spec fn content(&self) -> Seq<u8> { self.left() } }
%C18 impl Write for OutFile { open spec fn received(&self) -> Seq<u8> { self.accepted() } open spec fn target(&self) -> Seq<char> { self.pl() } }
%C18 impl Write for NamedTempFile { open spec fn received(&self) -> Seq<u8> { self.accepted() } open spec fn target(&self) -> Seq<char> { self.pl() } }
%C18 /// the program stops when the files cannot be read or written
%C18 #[verifier::external_body]
%C18 pub fn stop_on_error(r: io::Result<()>) ensures r is Ok { unimplemented!() }
%C18 /// the text that the mode calls for
%C18 pub open spec fn text_for(raw: Seq<char>, processed: Option<Seq<char>>, p: Processing) -> Seq<u8> {
%C18     match p {
%C18         Processing::Raw => fs_content(raw),
%C18         Processing::CapsWords => match processed { Some(f) => fs_content(f), None => processed_form(fs_content(raw)) },
%C18     }
%C18 }
%C18 /// The file that is tokenized as it is holds UTF-8; in the one that is processed first, lines end the Unix way.
%C18 pub open spec fn processable(raw: Seq<char>, processed: Option<Seq<char>>, p: Processing) -> bool {
%C18     match p {
%C18         Processing::Raw => valid_utf8(fs_content(raw)),
%C18         Processing::CapsWords => match processed { Some(f) => valid_utf8(fs_content(f)), None => unix(fs_content(raw)) },
%C18     }
%C18 }
%C18 pub proof fn form_valid(b: Seq<u8>)
%C18     ensures valid_utf8(processed_form(b))
%C18     decreases b.len()
%C18 {
%C18     if b.len() > 0 {
%C18         newline_bytes();
%C18         form_step(b);
%C18         form_valid(below(b));
%C18         let f = process_of(decode_utf8(b.take(line_end(b))));
%C18         assert(encode_utf8(f.push('\n')) == encode_utf8(f).push(10));
%C18         encode_utf8_valid_utf8(f.push('\n'));
%C18         valid_utf8_concat(encode_utf8(f.push('\n')), processed_form(below(b)));
%C18     }
%C18 }
%C18 pub proof fn text_valid(raw: Seq<char>, processed: Option<Seq<char>>, p: Processing)
%C18     ensures processable(raw, processed, p) ==> valid_utf8(text_for(raw, processed, p))
%C18 { form_valid(fs_content(raw)); }
%C18 pub open spec fn holds_set(f: Seq<char>, s: SetV) -> bool {
%C18     exists|t: Seq<char>| #[trigger] encode_utf8(t) == fs_content(f) && is_json(t) && saves(json_of(t), s)
%C18 }
%C18 /// the statistics are in the file of the directory that is named after the set
%C18 pub open spec fn saved(dir: Seq<char>, st: &TokenStats) -> bool {
%C18     exists|t: Seq<char>| #[trigger] wrote(path_join(dir, name_of(&st.token_set) + ".json"@), encode_utf8(t)) && is_json(t) && saves(json_of(t), st.token_set.sv()) && reports(json_of(t), st)
%C18 }
%C18 pub proof fn saved_facts(dir: Seq<char>)
%C18     ensures forall|t: Seq<char>, st: &TokenStats| wrote(path_join(dir, name_of(&st.token_set) + ".json"@), encode_utf8(t)) && is_json(t) && saves(json_of(t), st.token_set.sv()) && #[trigger] reports(json_of(t), st) ==> saved(dir, st)
%C18 { }
%C18 pub proof fn joined_first(a: Seq<u8>, p: Seq<Seq<u8>>)
%C18     ensures joined(seq![a] + p) == a + joined(p)
%C18     decreases p.len()
%C18 {
%C18     if p.len() == 0 {
%C18         assert(seq![a] + p =~= seq![a]);
%C18         assert(seq![a].drop_last() =~= Seq::empty());
%C18         assert(joined(seq![a].drop_last()) =~= Seq::empty());
%C18         assert(joined(seq![a]) =~= a + joined(p));
%C18     } else {
%C18         joined_first(a, p.drop_last());
%C18         assert((seq![a] + p).drop_last() =~= seq![a] + p.drop_last());
%C18         assert(joined(seq![a] + p) =~= a + joined(p));
%C18     }
%C18 }
%C18 /// the samples are all of the text
%C18 pub proof fn mem_all(d: Seq<u8>, c: int, p: int)
%C18     requires valid_utf8(d), boundary(d, p), c >= 4
%C18     ensures joined(mem_parts(d, c, p)) == d.skip(p)
%C18     decreases d.len() - p
%C18 {
%C18     if p < d.len() {
%C18         mem_end_piece(d, c, p);
%C18         let q = mem_end(d, c, p);
%C18         mem_all(d, c, q);
%C18         joined_first(d.subrange(p, q), mem_parts(d, c, q));
%C18         assert(d.subrange(p, q) + d.skip(q) =~= d.skip(p));
%C18     } else { assert(d.skip(p) =~= Seq::empty()); }
%C18 }
%C18 pub proof fn file_all(d: Seq<u8>, c: int, p: int)
%C18     requires valid_utf8(d), boundary(d, p), c >= 4
%C18     ensures joined(file_parts(d, c, p)) == d.skip(p)
%C18     decreases d.len() - p
%C18 {
%C18     if p < d.len() {
%C18         file_end_piece(d, c, p);
%C18         let q = file_end(d, c, p);
%C18         file_all(d, c, q);
%C18         joined_first(d.subrange(p, q), file_parts(d, c, q));
%C18         assert(d.subrange(p, q) + d.skip(q) =~= d.skip(p));
%C18     } else { assert(d.skip(p) =~= Seq::empty()); }
%C18 }
%C18 /// the samples that the program takes of a text make up the text
%C18 pub proof fn c18_parts(d: Seq<u8>)
%C18     requires valid_utf8(d)
%C18     ensures joined(full_parts(d)) == d, joined(mem_parts(d, 0x10_0000, 0)) == d
%C18 {
%C18     if d.len() > 0 { utf8_first(d); }
%C18     mem_all(d, 0x10_0000, 0);
%C18     file_all(d, 0x100_0000, 0);
%C18     assert(d.skip(0) =~= d);
%C18 }
%C18 /// the result of a run on a text
%C18 pub open spec fn trained(n: int, text: Seq<u8>, initial: Option<u64>, st: &TokenStats) -> bool {
%C18     exists|p: Seq<Seq<u8>>| joined(p) == text && #[trigger] delivered(n, p, initial, st)
%C18 }
%C18 pub open spec fn counted(ts: &TokenSet, text: Seq<u8>, initial: Option<u64>, st: &TokenStats) -> bool {
%C18     exists|p: Seq<Seq<u8>>| joined(p) == text && #[trigger] tallied(ts, p, initial, st)
%C18 }

%C18 pub proof fn whole()
%C18     ensures forall|a: Seq<u8>, b: Seq<u8>| a.len() == 0 ==> #[trigger] (a + b) == b, forall|a: Seq<u8>| #[trigger] a.skip(0) == a
%C18 {
%C18     assert forall|a: Seq<u8>, b: Seq<u8>| a.len() == 0 implies #[trigger] (a + b) == b by { assert(a + b =~= b); }
%C18     assert forall|a: Seq<u8>| #[trigger] a.skip(0) == a by { assert(a.skip(0) =~= a); }
%C18 }


%C18 // ---- C18: the command line --------------------------------------------------------------------
%C18 /// the command line the user gave
%C18 pub uninterp spec fn asked() -> Args;
%C18 #[verifier::external_body]
%C18 pub fn args_parse() -> (r: Args) ensures r == asked() { unimplemented!() }
%C18 /// prints; no property speaks of it
%C18 #[verifier::external_body]
%C18 pub fn count_chars(filename: &str) { unimplemented!() }
%C18 /// a text that may be absent
%C18 pub trait MayText: Sized { spec fn ot(self) -> Option<Seq<char>>; }
%C18 impl<'a> MayText for Option<&'a str> { open spec fn ot(self) -> Option<Seq<char>> { match self { Some(x) => Some(x@), None => None } } }
%C18 impl MayText for Option<String> { open spec fn ot(self) -> Option<Seq<char>> { match self { Some(x) => Some(x@), None => None } } }
%C18 pub trait MayDeref { spec fn otd(&self) -> Option<Seq<char>>; fn opt_str(&self) -> (r: Option<&str>) ensures r.ot() == self.otd(); }
%C18 impl MayDeref for Option<String> { open spec fn otd(&self) -> Option<Seq<char>> { (*self).ot() }
%C18     #[verifier::external_body] fn opt_str(&self) -> (r: Option<&str>) { unimplemented!() } }
%C18 impl<X: MayDeref> MayDeref for &X { open spec fn otd(&self) -> Option<Seq<char>> { (**self).otd() }
%C18     #[verifier::external_body] fn opt_str(&self) -> (r: Option<&str>) { unimplemented!() } }
%C18 pub fn as_deref<X: MayDeref>(s: &X) -> (r: Option<&str>) ensures r.ot() == s.otd() { s.opt_str() }
%C18 /// a token set was read, counted over the text it calls for, and saved with what was counted
%C18 pub open spec fn converted(raw: Seq<char>, processed: Option<Seq<char>>, tokens: Seq<char>, dir: Seq<char>) -> bool {
%C18     exists|ts: TokenSet, st: TokenStats| holds_set(tokens, ts.sv()) && #[trigger] saved(dir, &st)
%C18         && #[trigger] counted(&ts, text_for(raw, processed, ts.processing), Some(fs_content(raw).len() as u64), &st)
%C18 }
%C18 pub open spec fn convertible(raw: Seq<char>, processed: Option<Seq<char>>, tokens: Seq<char>) -> bool {
%C18     &&& exists|s: SetV| savable(s) && #[trigger] holds_set(tokens, s)
%C18     &&& forall|ts: TokenSet| #[trigger] holds_set(tokens, ts.sv()) && ts.wf() ==> processable(raw, processed, ts.processing)
%C18         && countable(&ts, full_parts(text_for(raw, processed, ts.processing)))
%C18 }
%C18 /// a token set of the kind and mode asked for was trained on the text the mode calls for, and saved
%C18 pub open spec fn optimized(n: usize, raw: Seq<char>, processed: Option<Seq<char>>, dir: Seq<char>, processing: Processing, token_type: TokenType, start: Option<Seq<char>>) -> bool {
%C18     exists|st: TokenStats| #[trigger] saved(dir, &st) && st.token_set.token_type == token_type && (start is None ==> st.token_set.processing == processing)
%C18         && trained(n as int, text_for(raw, processed, processing), Some(fs_content(raw).len() as u64), &st)
%C18 }
%C18 pub open spec fn optimizable(n: usize, raw: Seq<char>, processed: Option<Seq<char>>, processing: Processing, token_type: TokenType, start: Option<Seq<char>>) -> bool {
%C18     &&& processable(raw, processed, processing) && text_for(raw, processed, processing).len() < 0x80_0000_0000
%C18     &&& n * n <= usize::MAX && n + 257 < usize::MAX
%C18     &&& start is None ==> startable(n as int, processing, token_type, None)
%C18     &&& start is Some ==> (exists|s: SetV| savable(s) && #[trigger] holds_set(start->Some_0, s))
%C18         && forall|ts: TokenSet| #[trigger] holds_set(start->Some_0, ts.sv()) && ts.wf() ==> startable(n as int, processing, token_type, Some(ts))
%C18 }

%C18 @fn maybe_process_file -> r
%C18 @props C18
%C18 @spec
%C18 requires processable(filename_raw@, filename_processed.ot(), processing)
%C18 ensures fs_content(r.0@) == text_for(filename_raw@, filename_processed.ot(), processing)
%C18 @start
%C18 proof { whole(); }
%C18 @end
%C18 proof { if __ret.1 is Some { __ret.1->Some_0.holds(); } }

%C18 @fn process
%C18 @props C18
%C18 @spec
%C18 requires unix(fs_content(filename@))
%C18 ensures wrote(output@, processed_form(fs_content(filename@)))
%C18 @start
%C18 broadcast use outfile_holds;
%C18 proof { whole(); }

%C18 @fn read_token_set -> r
%C18 @props C18
%C18 @spec
%C18 requires exists|s: SetV| savable(s) && #[trigger] holds_set(filename@, s)
%C18 ensures forall|s: SetV| savable(s) && #[trigger] holds_set(filename@, s) ==> r.sv() == s, holds_set(filename@, r.sv()), savable(r.sv()), r.wf()
%C18 @start
%C18 let ghost __s = choose|s: SetV| savable(s) && #[trigger] holds_set(filename@, s);
%C18 let ghost __t = choose|t: Seq<char>| #[trigger] encode_utf8(t) == fs_content(filename@) && is_json(t) && saves(json_of(t), __s);
%C18 proof {
%C18     whole();
%C18     assert forall|t: Seq<char>, u: Seq<char>| #[trigger] encode_utf8(t) == #[trigger] encode_utf8(u) implies t == u by { encode_utf8_decode_utf8(t); encode_utf8_decode_utf8(u); }
%C18     assert(encode_utf8(__t) == fs_content(filename@));
%C18     encode_utf8_valid_utf8(__t);
%C18 }

%C18 @fn load_save_tokens
%C18 @props C18
%C18 @spec
%C18 requires convertible(filename_raw@, filename_processed.ot(), input_tokens_path@)
%C18 ensures converted(filename_raw@, filename_processed.ot(), input_tokens_path@, tokens_dir@)
%C18 @start
%C18 broadcast use outfile_holds;
%C18 proof {
%C18     assert(1usize << 24 == 0x100_0000) by (bit_vector);
%C18     assert forall|d: Seq<u8>| valid_utf8(d) implies joined(#[trigger] full_parts(d)) == d by { c18_parts(d); }
%C18     assert forall|p: Processing| #[trigger] processable(filename_raw@, filename_processed.ot(), p) implies valid_utf8(text_for(filename_raw@, filename_processed.ot(), p)) by { text_valid(filename_raw@, filename_processed.ot(), p); }
%C18     assert forall|ts: &TokenSet, p: Seq<Seq<u8>>, i: Option<u64>, st: &TokenStats| #[trigger] tallied(ts, p, i, st) && p == full_parts(text_for(filename_raw@, filename_processed.ot(), ts.processing)) && processable(filename_raw@, filename_processed.ot(), ts.processing)
%C18         && i == Some(fs_content(filename_raw@).len() as u64) implies counted(ts, text_for(filename_raw@, filename_processed.ot(), ts.processing), Some(fs_content(filename_raw@).len() as u64), st) by {
%C18         text_valid(filename_raw@, filename_processed.ot(), ts.processing);
%C18         c18_parts(text_for(filename_raw@, filename_processed.ot(), ts.processing));
%C18     }
%C18     saved_facts(tokens_dir@);
%C18 }

%C18 @fn save_tokens
%C18 @props C18
%C18 @spec
%C18 requires stats.token_set.wf(), stats.token_counts@.len() == stats.token_set.tokens@.len(), stats.seq_counts@.len() == stats.token_set.sequences@.len()
%C18 ensures saved(tokens_dir.pl(), stats)
%C18 @start
%C18 broadcast use outfile_holds;

%C18 @fn optimize
%C18 @props C18
%C18 @spec
%C18 requires optimizable(ntokens, filename_raw@, filename_processed.ot(), processing, token_type, input_tokens.ot())
%C18 ensures optimized(ntokens, filename_raw@, filename_processed.ot(), tokens_dir@, processing, token_type, input_tokens.ot())
%C18 @start
%C18 let ghost __c = text_for(filename_raw@, filename_processed.ot(), processing);
%C18 proof {
%C18     text_valid(filename_raw@, filename_processed.ot(), processing);
%C18     c17_facts(__c, ntokens as int);
%C18     c18_parts(__c);
%C18     assert(1usize << 24 == 0x100_0000) by (bit_vector);
%C18     assert(1usize << 20 == 0x10_0000) by (bit_vector);
%C18 }

%C18 @fn main
%C18 @props C18
%C18 @spec
%C18 requires match asked().command {
%C18     Command::Process { data, output } => unix(fs_content(data@)),
%C18     Command::ConvertTokens { data, processed_data, input_tokens, tokens_dir } =>
%C18         convertible(data@, processed_data.ot(), input_tokens@),
%C18     Command::Optimize { data, processed_data, tokens_dir, processing, token_type, ntokens, input_tokens, min_data_size } =>
%C18         optimizable(ntokens, data@, processed_data.ot(), processing, token_type, input_tokens.ot()),
%C18     _ => true,
%C18 }
%C18 ensures match asked().command {
%C18     Command::Process { data, output } => wrote(output@, processed_form(fs_content(data@))),
%C18     Command::ConvertTokens { data, processed_data, input_tokens, tokens_dir } =>
%C18         converted(data@, processed_data.ot(), input_tokens@, tokens_dir@),
%C18     Command::Optimize { data, processed_data, tokens_dir, processing, token_type, ntokens, input_tokens, min_data_size } =>
%C18         optimized(ntokens, data@, processed_data.ot(), tokens_dir@, processing, token_type, input_tokens.ot()),
%C18     _ => true,
%C18 }

%C14,C18 @module processing
%C14,C18 @fn Processing::fmt -> r
%C14,C18 @props C18
%C14,C18 @sig pub fn fmt(&self) -> (r: String)
%C14,C18 @rw f.write_str(__s) => crate::vx::str_lit(__s)
%C14,C18 @spec
%C14,C18 ensures r@ == self.shown()
