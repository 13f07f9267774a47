// ---------------------------------------------------------------------------
// vx: shims and assumed contracts on the standard library and dependencies.
// Everything marked external_body / axiom / assume_specification is TRUSTED.
// ---------------------------------------------------------------------------
use vstd::prelude::*;
verus! {
pub mod vx {
use vstd::prelude::*;
use core::cmp::Ordering;

// the platform the program is built for
global size_of usize == 8;

// ---- panics ---------------------------------------------------------------
#[verifier::external_body]
pub fn vx_panic() -> !
    requires false
{ unimplemented!() }

// ---- std functions used as they are ----------------------------------------
pub assume_specification<T>[<[T]>::reverse](s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();
pub assume_specification<T: PartialEq>[<[T]>::contains](s: &[T], x: &T) -> (r: bool)
    ensures r == s@.contains(*x);
pub assume_specification<T: Clone>[<[T]>::to_vec](s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned(s@[i], #[trigger] r@[i]), r@ =~= s@ ==> r@ == s@;
pub assume_specification[<core::time::Duration>::from_secs](s: u64) -> core::time::Duration;

/// std::thread::available_parallelism().unwrap().get(): a NonZero
#[verifier::external_body]
pub fn nthreads() -> (r: usize) ensures r >= 1 { unimplemented!() }

pub trait VNum: Sized + Copy {
    spec fn n(self) -> int;
    fn vx_le(self, o: Self) -> (r: bool) ensures r == (self.n() <= o.n());
}
impl VNum for usize { open spec fn n(self) -> int { self as int } fn vx_le(self, o: usize) -> (r: bool) { self <= o } }
impl VNum for u64 { open spec fn n(self) -> int { self as int } fn vx_le(self, o: u64) -> (r: bool) { self <= o } }
impl VNum for u32 { open spec fn n(self) -> int { self as int } fn vx_le(self, o: u32) -> (r: bool) { self <= o } }
impl VNum for i64 { open spec fn n(self) -> int { self as int } fn vx_le(self, o: i64) -> (r: bool) { self <= o } }
impl VNum for u8 { open spec fn n(self) -> int { self as int } fn vx_le(self, o: u8) -> (r: bool) { self <= o } }
pub fn vmin<T: VNum>(a: T, b: T) -> (r: T) ensures r == if a.n() <= b.n() { a } else { b } { if a.vx_le(b) { a } else { b } }
pub fn vmax<T: VNum>(a: T, b: T) -> (r: T) ensures r == if a.n() <= b.n() { b } else { a } { if a.vx_le(b) { b } else { a } }
#[verifier::external_body]
pub fn min_usize(a: usize, b: usize) -> (r: usize)
    ensures r == if a <= b { a } else { b }
{ unimplemented!() }

// ---- slices of anything that derefs to a slice ------------------------------
pub trait AsSl<T> {
    spec fn sl(&self) -> Seq<T>;
    fn vx_sl(&self) -> (r: &[T]) ensures r@ == self.sl();
}
impl<T> AsSl<T> for Vec<T> {
    open spec fn sl(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_sl(&self) -> (r: &[T]) { unimplemented!() }
}
impl<T> AsSl<T> for [T] {
    open spec fn sl(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_sl(&self) -> (r: &[T]) { unimplemented!() }
}
impl<T, const N: usize> AsSl<T> for [T; N] {
    open spec fn sl(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_sl(&self) -> (r: &[T]) { unimplemented!() }
}
impl<T, A: AsSl<T> + ?Sized> AsSl<T> for &A {
    open spec fn sl(&self) -> Seq<T> { (**self).sl() }
    #[verifier::external_body]
    fn vx_sl(&self) -> (r: &[T]) { unimplemented!() }
}

pub trait AsChars {
    spec fn chars_v(&self) -> Seq<char>;
    fn vx_chars(&self) -> (r: Vec<char>) ensures r@ == self.chars_v();
}
impl AsChars for str {
    open spec fn chars_v(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_chars(&self) -> (r: Vec<char>) { unimplemented!() }
}
impl AsChars for String {
    open spec fn chars_v(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_chars(&self) -> (r: Vec<char>) { unimplemented!() }
}
impl<A: AsChars + ?Sized> AsChars for &A {
    open spec fn chars_v(&self) -> Seq<char> { (**self).chars_v() }
    #[verifier::external_body]
    fn vx_chars(&self) -> (r: Vec<char>) { unimplemented!() }
}

#[verifier::external_body]
pub fn concat<T>(a: &[T], b: &[T]) -> (r: Vec<T>)
    ensures r@ == a@ + b@
{ unimplemented!() }

#[verifier::external_body]
pub fn to_vec<T: Copy>(a: &[T]) -> (r: Vec<T>)
    ensures r@ == a@
{ unimplemented!() }

/// `Vec::retain` gives its elements up one by one.
#[verifier::external_body]
pub fn take_vec<T>(v: &mut Vec<T>) -> (r: Vec<T>)
    ensures r@ == old(v)@, final(v)@ == Seq::<T>::empty()
{ unimplemented!() }

// ---- consuming iteration ------------------------------------------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct OwnedIter<T> { t: core::marker::PhantomData<T> }
impl<T> View for OwnedIter<T> {
    type V = Seq<T>;
    uninterp spec fn view(&self) -> Seq<T>;
}
impl<T> OwnedIter<T> {
    pub uninterp spec fn pos(&self) -> int;
    pub open spec fn wf(&self) -> bool { 0 <= self.pos() <= self@.len() }
    #[verifier::external_body]
    pub fn has_next(&self) -> (r: bool)
        ensures r == (self.pos() < self@.len())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take_next(&mut self) -> (r: T)
        requires old(self).pos() < old(self)@.len()
        ensures final(self)@ == old(self)@, final(self).pos() == old(self).pos() + 1,
            r == old(self)@[old(self).pos()]
    { unimplemented!() }
}
#[verifier::external_body]
pub fn owned_iter<T>(v: Vec<T>) -> (r: OwnedIter<T>)
    ensures r@ == v@, r.pos() == 0
{ unimplemented!() }

// ---- equality -------------------------------------------------------------------
pub trait VEq<Rhs: ?Sized> {
    spec fn veq(&self, o: &Rhs) -> bool;
    fn vx_eq(&self, o: &Rhs) -> (r: bool) ensures r == self.veq(o);
}
impl VEq<[u8]> for [u8] {
    open spec fn veq(&self, o: &[u8]) -> bool { self@ == o@ }
    #[verifier::external_body]
    fn vx_eq(&self, o: &[u8]) -> (r: bool) { unimplemented!() }
}
impl VEq<Vec<u8>> for Vec<u8> {
    open spec fn veq(&self, o: &Vec<u8>) -> bool { self@ == o@ }
    #[verifier::external_body]
    fn vx_eq(&self, o: &Vec<u8>) -> (r: bool) { unimplemented!() }
}
impl VEq<[u8]> for Vec<u8> {
    open spec fn veq(&self, o: &[u8]) -> bool { self@ == o@ }
    #[verifier::external_body]
    fn vx_eq(&self, o: &[u8]) -> (r: bool) { unimplemented!() }
}
impl VEq<&[u8]> for Vec<u8> {
    open spec fn veq(&self, o: &&[u8]) -> bool { self@ == o@ }
    #[verifier::external_body]
    fn vx_eq(&self, o: &&[u8]) -> (r: bool) { unimplemented!() }
}
impl<A: VEq<B> + ?Sized, B: ?Sized> VEq<&B> for &A {
    open spec fn veq(&self, o: &&B) -> bool { (**self).veq(*o) }
    fn vx_eq(&self, o: &&B) -> (r: bool) { (**self).vx_eq(*o) }
}
impl VEq<usize> for usize {
    open spec fn veq(&self, o: &usize) -> bool { *self == *o }
    fn vx_eq(&self, o: &usize) -> (r: bool) { *self == *o }
}
impl VEq<u64> for u64 {
    open spec fn veq(&self, o: &u64) -> bool { *self == *o }
    fn vx_eq(&self, o: &u64) -> (r: bool) { *self == *o }
}
impl VEq<i64> for i64 {
    open spec fn veq(&self, o: &i64) -> bool { *self == *o }
    fn vx_eq(&self, o: &i64) -> (r: bool) { *self == *o }
}
impl VEq<u8> for u8 {
    open spec fn veq(&self, o: &u8) -> bool { *self == *o }
    fn vx_eq(&self, o: &u8) -> (r: bool) { *self == *o }
}
impl VEq<bool> for bool {
    open spec fn veq(&self, o: &bool) -> bool { *self == *o }
    fn vx_eq(&self, o: &bool) -> (r: bool) { *self == *o }
}
impl VEq<char> for char {
    open spec fn veq(&self, o: &char) -> bool { *self == *o }
    fn vx_eq(&self, o: &char) -> (r: bool) { *self == *o }
}
impl<T: VEq<T>> VEq<Option<T>> for Option<T> {
    open spec fn veq(&self, o: &Option<T>) -> bool {
        match (*self, *o) {
            (None, None) => true,
            (Some(a), Some(b)) => a.veq(&b),
            _ => false,
        }
    }
    fn vx_eq(&self, o: &Option<T>) -> (r: bool) {
        match (self, o) {
            (None, None) => true,
            (Some(a), Some(b)) => a.vx_eq(b),
            _ => false,
        }
    }
}

// ---- ordering ---------------------------------------------------------------------
pub open spec fn int_cmp(a: int, b: int) -> Ordering {
    if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
}
pub open spec fn seq_cmp(a: Seq<u8>, b: Seq<u8>) -> Ordering
    decreases a.len()
{
    if a.len() == 0 {
        if b.len() == 0 { Ordering::Equal } else { Ordering::Less }
    } else if b.len() == 0 {
        Ordering::Greater
    } else if a[0] < b[0] {
        Ordering::Less
    } else if a[0] > b[0] {
        Ordering::Greater
    } else {
        seq_cmp(a.drop_first(), b.drop_first())
    }
}
pub proof fn seq_cmp_eq(a: Seq<u8>, b: Seq<u8>)
    ensures (seq_cmp(a, b) == Ordering::Equal) == (a == b)
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && a[0] == b[0] {
        seq_cmp_eq(a.drop_first(), b.drop_first());
        if a.drop_first() == b.drop_first() {
            assert(a =~= seq![a[0]] + a.drop_first());
            assert(b =~= seq![b[0]] + b.drop_first());
        }
    } else if a.len() == 0 && b.len() == 0 {
        assert(a =~= b);
    }
}
pub proof fn seq_cmp_flip(a: Seq<u8>, b: Seq<u8>)
    ensures (seq_cmp(a, b) == Ordering::Less) == (seq_cmp(b, a) == Ordering::Greater),
        (seq_cmp(a, b) == Ordering::Greater) == (seq_cmp(b, a) == Ordering::Less),
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && a[0] == b[0] {
        seq_cmp_flip(a.drop_first(), b.drop_first());
    }
}
pub proof fn seq_cmp_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires seq_cmp(a, b) != Ordering::Greater, seq_cmp(b, c) != Ordering::Greater,
    ensures seq_cmp(a, c) != Ordering::Greater,
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] {
        seq_cmp_trans(a.drop_first(), b.drop_first(), c.drop_first());
    }
}

pub trait VOrd {
    spec fn vcmp(&self, o: &Self) -> Ordering;
    fn vx_cmp(&self, o: &Self) -> (r: Ordering) ensures r == self.vcmp(o);
}
impl VOrd for u8 {
    open spec fn vcmp(&self, o: &u8) -> Ordering { int_cmp(*self as int, *o as int) }
    #[verifier::external_body]
    fn vx_cmp(&self, o: &u8) -> (r: Ordering) { unimplemented!() }
}
impl VOrd for usize {
    open spec fn vcmp(&self, o: &usize) -> Ordering { int_cmp(*self as int, *o as int) }
    #[verifier::external_body]
    fn vx_cmp(&self, o: &usize) -> (r: Ordering) { unimplemented!() }
}
impl VOrd for u64 {
    open spec fn vcmp(&self, o: &u64) -> Ordering { int_cmp(*self as int, *o as int) }
    #[verifier::external_body]
    fn vx_cmp(&self, o: &u64) -> (r: Ordering) { unimplemented!() }
}
impl VOrd for i64 {
    open spec fn vcmp(&self, o: &i64) -> Ordering { int_cmp(*self as int, *o as int) }
    #[verifier::external_body]
    fn vx_cmp(&self, o: &i64) -> (r: Ordering) { unimplemented!() }
}
impl VOrd for Vec<u8> {
    open spec fn vcmp(&self, o: &Vec<u8>) -> Ordering { seq_cmp(self@, o@) }
    #[verifier::external_body]
    fn vx_cmp(&self, o: &Vec<u8>) -> (r: Ordering) { unimplemented!() }
}
impl<A: VOrd> VOrd for &A {
    open spec fn vcmp(&self, o: &&A) -> Ordering { (**self).vcmp(*o) }
    #[verifier::external_body]
    fn vx_cmp(&self, o: &&A) -> (r: Ordering) { unimplemented!() }
}

// ---- sorting ------------------------------------------------------------------------
/// p is a permutation of 0..n
pub open spec fn is_perm(p: Seq<int>, n: int) -> bool {
    &&& p.len() == n
    &&& forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n
    &&& forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] p[i] != #[trigger] p[j]
    &&& forall|k: int| 0 <= k < n ==> #[trigger] p.contains(k)
}
pub open spec fn permuted<T>(old_s: Seq<T>, new_s: Seq<T>, p: Seq<int>) -> bool {
    &&& is_perm(p, old_s.len() as int)
    &&& new_s.len() == old_s.len()
    &&& forall|i: int| 0 <= i < old_s.len() ==> #[trigger] new_s[i] == old_s[p[i]]
}
pub open spec fn keys_sorted<K: VOrd>(ks: Seq<K>, p: Seq<int>) -> bool {
    forall|i: int, j: int| 0 <= i < j < p.len() ==> ks[#[trigger] p[i]].vcmp(&ks[#[trigger] p[j]]) != Ordering::Greater
}
/// equal keys keep their order
pub open spec fn stable<K: VOrd>(ks: Seq<K>, p: Seq<int>) -> bool {
    forall|i: int, j: int| 0 <= i < j < p.len() && ks[#[trigger] p[i]].vcmp(&ks[#[trigger] p[j]]) == Ordering::Equal ==> p[i] < p[j]
}
pub open spec fn sort_result<T, K: VOrd>(old_s: Seq<T>, new_s: Seq<T>, ks: Seq<K>, p: Seq<int>) -> bool {
    ks.len() == old_s.len() && permuted(old_s, new_s, p) && keys_sorted(ks, p)
}
#[verifier::external_body]
pub fn sort<T: VOrd>(v: &mut Vec<T>)
    ensures exists|p: Seq<int>| #[trigger] sort_result(old(v)@, final(v)@, old(v)@, p) && stable(old(v)@, p)
{ unimplemented!() }
#[verifier::external_body]
pub fn sort_by_key<T, K: VOrd, F: Fn(&T) -> K>(v: &mut Vec<T>, f: F)
    requires forall|i: int| #![trigger old(v)@[i]] 0 <= i < old(v)@.len() ==> call_requires(f, (&old(v)@[i],))
    ensures exists|ks: Seq<K>, p: Seq<int>| #[trigger] sort_result(old(v)@, final(v)@, ks, p) && stable(ks, p)
        && forall|i: int| #![trigger ks[i]] 0 <= i < old(v)@.len() ==> call_ensures(f, (&old(v)@[i],), ks[i])
{ unimplemented!() }
#[verifier::external_body]
pub fn sort_unstable_by_key<T, K: VOrd, F: Fn(&T) -> K>(v: &mut Vec<T>, f: F)
    requires forall|i: int| #![trigger old(v)@[i]] 0 <= i < old(v)@.len() ==> call_requires(f, (&old(v)@[i],))
    ensures exists|ks: Seq<K>, p: Seq<int>| #[trigger] sort_result(old(v)@, final(v)@, ks, p)
        && forall|i: int| #![trigger ks[i]] 0 <= i < old(v)@.len() ==> call_ensures(f, (&old(v)@[i],), ks[i])
{ unimplemented!() }

impl<A: VOrd, B: VOrd> VOrd for (A, B) {
    open spec fn vcmp(&self, o: &(A, B)) -> Ordering { if self.0.vcmp(&o.0) == Ordering::Equal { self.1.vcmp(&o.1) } else { self.0.vcmp(&o.0) } }
    #[verifier::external_body]
    fn vx_cmp(&self, o: &(A, B)) -> (r: Ordering) { unimplemented!() }
}
/// what a binary search on an ascending slice finds
#[verifier::external_body]
pub fn binary_search<T: VOrd>(s: &[T], x: &T) -> (r: Result<usize, usize>)
    requires forall|i: int, j: int| #![trigger s@[i], s@[j]] 0 <= i < j < s@.len() ==> s@[i].vcmp(&s@[j]) != Ordering::Greater
    ensures match r {
        Ok(k) => k < s@.len() && s@[k as int].vcmp(x) == Ordering::Equal,
        Err(k) => k <= s@.len()
            && (forall|i: int| 0 <= i < k ==> (#[trigger] s@[i]).vcmp(x) == Ordering::Less)
            && (forall|i: int| k <= i < s@.len() ==> (#[trigger] s@[i]).vcmp(x) == Ordering::Greater),
    }
{ unimplemented!() }
#[verifier::external_body]
pub fn mem_replace<T>(d: &mut T, s: T) -> (r: T) ensures r == *old(d), *final(d) == s { unimplemented!() }

// ---- HashMap keyed by byte strings ----------------------------------------------------
pub trait VKey {
    type W;
    spec fn kv(&self) -> Self::W;
}
impl VKey for Vec<u8> { type W = Seq<u8>; open spec fn kv(&self) -> Seq<u8> { self@ } }
impl VKey for [u8] { type W = Seq<u8>; open spec fn kv(&self) -> Seq<u8> { self@ } }
impl VKey for String { type W = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }
impl VKey for str { type W = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { k: core::marker::PhantomData<(K, V)> }
impl<K: VKey, V> HashMap<K, V> {
    pub uninterp spec fn m(&self) -> Map<K::W, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.m() == Map::<K::W, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self).m() == old(self).m().insert(k.kv(), v),
            r.is_some() == old(self).m().dom().contains(k.kv()),
            r.is_some() ==> r.unwrap() == old(self).m()[k.kv()],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: VKey<W = K::W> + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures r.is_some() == self.m().dom().contains(k.kv()),
            r.is_some() ==> *r.unwrap() == self.m()[k.kv()],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: VKey<W = K::W> + ?Sized>(&self, k: &Q) -> (r: bool)
        ensures r == self.m().dom().contains(k.kv()),
    { unimplemented!() }
}

/// `*m.entry(k).or_insert(0) += 1`. ASSUMED: such a count never reaches 2^64.
#[verifier::external_body]
pub fn bump<K: VKey>(m: &mut HashMap<K, usize>, k: K) { unimplemented!() }
/// `m.get(k).unwrap_or(&0)`: nothing is said about the number
#[verifier::external_body]
pub fn count_of<K: VKey>(m: &HashMap<K, usize>, k: &K) -> usize { unimplemented!() }
/// the clock: nothing is known about it
#[verifier::external_body]
pub struct Instant { x: u8 }
#[verifier::external_body]
pub fn now() -> Instant { unimplemented!() }
#[verifier::external_body]
pub fn elapsed(i: &Instant, secs: u64) -> bool { unimplemented!() }

/// What a text says as JSON. ASSUMED: serializing a value gives a text that says that value.
pub uninterp spec fn json_of(s: Seq<char>) -> JV;
pub uninterp spec fn is_json(s: Seq<char>) -> bool;
#[derive(Debug)]
pub struct JsonError { pub x: () }
#[verifier::external_body]
pub fn json_to_string(v: &Value) -> (r: Result<String, JsonError>)
    ensures r.is_ok(), is_json(r.unwrap()@), json_of(r.unwrap()@) == v.jv()
{ unimplemented!() }
#[verifier::external_body]
pub fn shrink_to_fit<T>(v: &mut Vec<T>) ensures final(v)@ == old(v)@ { unimplemented!() }

// ---- text ------------------------------------------------------------------------------
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);
pub assume_specification[<String>::from_utf8](v: Vec<u8>) -> (r: Result<String, std::string::FromUtf8Error>)
    ensures r.is_ok() == vstd::utf8::valid_utf8(v@),
        r.is_ok() ==> vstd::utf8::encode_utf8(r.unwrap()@) == v@;
pub assume_specification[<String>::as_bytes](s: &String) -> (r: &[u8])
    ensures r@ == vstd::utf8::encode_utf8(s@);
/// `Cow<str>`
pub enum Cow<'a> { Owned(String), Borrowed(&'a str) }
#[verifier::external_body]
pub fn from_utf8_lossy<'a>(v: &'a [u8]) -> (r: Cow<'a>)
    ensures vstd::utf8::valid_utf8(v@) ==> match r {
        Cow::Owned(s) => vstd::utf8::encode_utf8(s@) == v@,
        Cow::Borrowed(s) => vstd::utf8::encode_utf8(s@) == v@,
    }
{ unimplemented!() }

// ---- files: byte strings with a position. No I/O error (the program stops at one). --------
/// a regular file opened for reading that nobody changes meanwhile
#[verifier::external_body]
pub struct File { x: u8 }
impl File {
    #[verifier::external_body]
    pub fn open<P: PathLike + ?Sized>(name: &P) -> (r: Result<File, JsonError>)
        ensures r.is_ok(), r.unwrap().wf(), r.unwrap().content() == fs_content(name.pl()), r.unwrap().pos() == 0
    { unimplemented!() }
    pub uninterp spec fn content(&self) -> Seq<u8>;
    pub uninterp spec fn pos(&self) -> int;
    pub open spec fn wf(&self) -> bool { 0 <= self.pos() && self.content().len() <= i64::MAX }
    pub open spec fn left(&self) -> Seq<u8> {
        if self.pos() < self.content().len() { self.content().skip(self.pos()) } else { Seq::empty() }
    }
    /// `read`: any number of bytes up to what is left and fits, none only at the end
    #[verifier::external_body]
    pub fn read(&mut self, b: &mut Vec<u8>) -> (r: Result<usize, ()>)
        requires old(self).wf()
        ensures r.is_ok(), final(self).wf(), final(self).content() == old(self).content(),
            r.unwrap() <= old(b)@.len(), r.unwrap() <= old(self).left().len(),
            final(self).pos() == old(self).pos() + r.unwrap(), final(b)@.len() == old(b)@.len(),
            final(b)@ == old(self).left().take(r.unwrap() as int) + old(b)@.skip(r.unwrap() as int),
            r.unwrap() == 0 ==> old(b)@.len() == 0 || old(self).left().len() == 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn seek(&mut self, to: SeekFrom) -> (r: Result<u64, ()>)
        requires old(self).wf()
        ensures final(self).wf(), final(self).content() == old(self).content(),
            r.is_ok() == (to.target(old(self)) >= 0),
            r.is_ok() ==> final(self).pos() == to.target(old(self)),
            r.is_err() ==> final(self).pos() == old(self).pos(),
    { unimplemented!() }
}
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
impl SeekFrom {
    pub open spec fn target(self, f: &File) -> int {
        match self {
            SeekFrom::Start(n) => n as int,
            SeekFrom::End(d) => f.content().len() + d,
            SeekFrom::Current(d) => f.pos() + d,
        }
    }
}
/// `&x[..]`
pub trait Whole { type S: ?Sized; spec fn same_whole(&self, r: &Self::S) -> bool; fn whole_ref(&self) -> (r: &Self::S) ensures self.same_whole(r); }
impl Whole for String { type S = str; open spec fn same_whole(&self, r: &str) -> bool { r@ == self@ }
    #[verifier::external_body] fn whole_ref(&self) -> (r: &str) { unimplemented!() } }
impl Whole for str { type S = str; open spec fn same_whole(&self, r: &str) -> bool { r@ == self@ }
    #[verifier::external_body] fn whole_ref(&self) -> (r: &str) { unimplemented!() } }
impl<T> Whole for Vec<T> { type S = [T]; open spec fn same_whole(&self, r: &[T]) -> bool { r@ == self@ }
    #[verifier::external_body] fn whole_ref(&self) -> (r: &[T]) { unimplemented!() } }
impl<T> Whole for [T] { type S = [T]; open spec fn same_whole(&self, r: &[T]) -> bool { r@ == self@ }
    #[verifier::external_body] fn whole_ref(&self) -> (r: &[T]) { unimplemented!() } }
impl<T, const N: usize> Whole for [T; N] { type S = [T]; open spec fn same_whole(&self, r: &[T]) -> bool { r@ == self@ }
    #[verifier::external_body] fn whole_ref(&self) -> (r: &[T]) { unimplemented!() } }
impl<X: Whole + ?Sized> Whole for &X { type S = X::S; open spec fn same_whole(&self, r: &X::S) -> bool { (**self).same_whole(r) }
    #[verifier::external_body] fn whole_ref(&self) -> (r: &X::S) { unimplemented!() } }
pub fn whole_of<X: Whole + ?Sized>(x: &X) -> (r: &X::S) ensures x.same_whole(r) { x.whole_ref() }
/// `file.take(n).read_to_end(buf)`: repeats short and interrupted reads until n bytes or the end
#[verifier::external_body]
pub fn take_read_to_end(f: &mut File, n: u64, b: &mut Vec<u8>) -> (r: Result<usize, ()>)
    requires old(f).wf()
    ensures r.is_ok(), final(f).wf(), final(f).content() == old(f).content(),
        r.unwrap() == if n < old(f).left().len() { n as int } else { old(f).left().len() as int },
        final(f).pos() == old(f).pos() + r.unwrap(),
        final(b)@ == old(b)@ + old(f).left().take(r.unwrap() as int),
{ unimplemented!() }
#[verifier::external_body]
pub fn file_read_to_end(f: &mut File, b: &mut Vec<u8>) -> (r: Result<usize, ()>)
    requires old(f).wf()
    ensures r.is_ok(), final(f).wf(), final(f).content() == old(f).content(),
        r.unwrap() == old(f).left().len(),
        final(f).pos() == old(f).pos() + r.unwrap(),
        final(b)@ == old(b)@ + old(f).left(),
{ unimplemented!() }
/// `BufReader` over such a file
#[verifier::external_body]
pub struct BufReader { x: u8 }
impl BufReader {
    /// what is still to come
    pub uninterp spec fn left(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new(f: File) -> (r: BufReader)
        requires f.wf()
        ensures r.left() == f.left()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_until(&mut self, d: u8, b: &mut Vec<u8>) -> (r: Result<usize, ()>)
        ensures r.is_ok(), r.unwrap() <= old(self).left().len(),
            r.unwrap() == 0 <==> old(self).left().len() == 0,
            final(self).left() == old(self).left().skip(r.unwrap() as int),
            final(b)@ == old(b)@ + old(self).left().take(r.unwrap() as int),
            forall|i: int| 0 <= i < r.unwrap() - 1 ==> #[trigger] old(self).left()[i] != d,
            0 < r.unwrap() < old(self).left().len() ==> old(self).left()[r.unwrap() - 1] == d,
    { unimplemented!() }
}
#[verifier::external_body]
pub fn ends_with(a: &[u8], b: &[u8]) -> (r: bool)
    ensures r == (a@.len() >= b@.len() && a@.skip(a@.len() - b@.len()) == b@)
{ unimplemented!() }
// ---- floating point: any result, never a panic ------------------------------------------------
#[verifier::external_body]
pub fn to_f64<T: VNum>(a: T) -> f64 { unimplemented!() }
#[verifier::external_body]
pub fn f64_abs(a: f64) -> f64 { a.abs() }
pub broadcast axiom fn f64_add(a: f64, b: f64) ensures #[trigger] vstd::std_specs::ops::AddSpec::add_req(a, b);
pub broadcast axiom fn f64_sub(a: f64, b: f64) ensures #[trigger] vstd::std_specs::ops::SubSpec::sub_req(a, b);
pub broadcast axiom fn f64_mul(a: f64, b: f64) ensures #[trigger] vstd::std_specs::ops::MulSpec::mul_req(a, b);
pub broadcast axiom fn f64_div(a: f64, b: f64) ensures #[trigger] vstd::std_specs::ops::DivSpec::div_req(a, b);
pub broadcast group floats { f64_add, f64_sub, f64_mul, f64_div }

/// what the files of the file system hold (nobody changes them meanwhile)
pub uninterp spec fn fs_content(name: Seq<char>) -> Seq<u8>;
#[verifier::external_body]
pub fn fs_read(name: &str) -> (r: Result<Vec<u8>, ()>)
    ensures r.is_ok(), r.unwrap()@ == fs_content(name@)
{ unimplemented!() }
#[verifier::external_body]
pub struct Metadata { x: u8 }
impl Metadata {
    pub uninterp spec fn spec_len(&self) -> int;
    #[verifier::external_body]
    pub fn len(&self) -> (r: u64) ensures r == self.spec_len() { unimplemented!() }
}
#[verifier::external_body]
pub fn fs_metadata<P: PathLike + ?Sized>(name: &P) -> (r: Result<Metadata, JsonError>)
    ensures r.is_ok(), r.unwrap().spec_len() == fs_content(name.pl()).len()
{ unimplemented!() }
/// no allocation is larger than isize::MAX bytes
#[verifier::external_body]
pub proof fn vec_u8_len(v: &Vec<u8>)
    ensures v@.len() <= isize::MAX
{ }
#[verifier::external_body]
pub proof fn slice_u8_len(v: &[u8])
    ensures v@.len() <= isize::MAX
{ }
/// `rand::thread_rng()` and the only method used of it
#[verifier::external_body]
pub struct ThreadRng { x: u8 }
#[verifier::external_body]
pub fn thread_rng() -> ThreadRng { unimplemented!() }
#[verifier::external_body]
pub fn gen_range_u64(r: &mut ThreadRng, lo: u64, hi: u64) -> (n: u64)
    requires lo < hi
    ensures lo <= n < hi
{ unimplemented!() }

// ---- JSON values (serde_json). Writing a value and reading it back gives the same value. ------
/// What a JSON value holds.
pub enum JV { Null, Bool(bool), Num(int), Float, Str(Seq<char>), Arr(Seq<JV>), Obj(Map<Seq<char>, JV>) }
pub enum Value { Null, Bool(bool), Number(Number), String(String), Array(Vec<Value>), Object(JMap) }
#[verifier::external_body]
pub struct Number { x: u8 }
impl Number {
    /// an integer or a float
    pub uninterp spec fn jn(&self) -> Option<int>;
    #[verifier::external_body]
    pub fn as_u64(&self) -> (r: Option<u64>)
        ensures r == (match self.jn() { Some(n) => if 0 <= n <= u64::MAX { Some(n as u64) } else { None }, None => None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_i64(&self) -> (r: Option<i64>)
        ensures r == (match self.jn() { Some(n) => if i64::MIN <= n <= i64::MAX { Some(n as i64) } else { None }, None => None })
    { unimplemented!() }
}
/// `serde_json::Map`
#[verifier::external_body]
pub struct JMap { x: u8 }
impl JMap {
    pub uninterp spec fn m(&self) -> Map<Seq<char>, JV>;
    #[verifier::external_body]
    pub fn new() -> (r: JMap) ensures r.m() == Map::<Seq<char>, JV>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert_lit(&mut self, k: &str, v: Value)
        ensures final(self).m() == old(self).m().insert(k@, v.jv())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == self.m().dom().contains(k@) { unimplemented!() }
}
pub open spec fn jhas(v: JV, k: Seq<char>) -> bool {
    match v { JV::Obj(m) => m.dom().contains(k), _ => false }
}
pub open spec fn jget(v: JV, k: Seq<char>) -> JV {
    match v { JV::Obj(m) => if m.dom().contains(k) { m[k] } else { JV::Null }, _ => JV::Null }
}
impl Value {
    /// serde_json's `Display` of a value
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures is_json(r@), json_of(r@) == self.jv() { unimplemented!() }
    pub open spec fn jv(&self) -> JV
        decreases self
    {
        match *self {
            Value::Null => JV::Null,
            Value::Bool(b) => JV::Bool(b),
            Value::Number(n) => match n.jn() { Some(x) => JV::Num(x), None => JV::Float },
            Value::String(s) => JV::Str(s@),
            Value::Array(v) => JV::Arr(Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { v@[i].jv() } else { JV::Null })),
            Value::Object(m) => JV::Obj(m.m()),
        }
    }
    /// `value["k"]`
    #[verifier::external_body]
    pub fn at(&self, k: &str) -> (r: &Value) ensures r.jv() == jget(self.jv(), k@) { unimplemented!() }
    /// `value["k"] = v` of an object
    #[verifier::external_body]
    pub fn put(&mut self, k: &str, v: Value)
        requires old(self).jv() is Obj
        ensures final(self).jv() == JV::Obj(old(self).jv()->Obj_0.insert(k@, v.jv()))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&Value>)
        ensures r.is_some() == jhas(self.jv(), k@), r.is_some() ==> r.unwrap().jv() == jget(self.jv(), k@)
    { unimplemented!() }
    pub fn as_array(&self) -> (r: Option<&Vec<Value>>)
        ensures r == (match *self { Value::Array(v) => Some(&v), _ => None }), r.is_some() == (self.jv() is Arr),
            r.is_some() ==> is_arr(r.unwrap()@, self.jv()->Arr_0),
    {
        broadcast use jv_array;
        match self { Value::Array(v) => Some(v), _ => None } }
    pub fn as_object(&self) -> (r: Option<&JMap>)
        ensures r == (match *self { Value::Object(v) => Some(&v), _ => None })
    { match self { Value::Object(v) => Some(v), _ => None } }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: Option<&str>)
        ensures (match *self { Value::String(s) => r.is_some() && r.unwrap()@ == s@, _ => r.is_none() })
    { unimplemented!() }
    pub fn as_i64(&self) -> (r: Option<i64>)
        ensures r == (match self.jv() { JV::Num(n) => if i64::MIN <= n <= i64::MAX { Some(n as i64) } else { None }, _ => None })
    { match self { Value::Number(n) => n.as_i64(), _ => None } }
    pub fn as_u64(&self) -> (r: Option<u64>)
        ensures r == (match self.jv() { JV::Num(n) => if 0 <= n <= u64::MAX { Some(n as u64) } else { None }, _ => None })
    { match self { Value::Number(n) => n.as_u64(), _ => None } }
    pub fn is_number(&self) -> (r: bool) ensures r == (self.jv() is Num || self.jv() is Float)
    { match self { Value::Number(_) => true, _ => false } }
    pub fn is_array(&self) -> (r: bool) ensures r == (self.jv() is Arr)
    { match self { Value::Array(_) => true, _ => false } }
    pub fn is_string(&self) -> (r: bool) ensures r == (self.jv() is Str)
    { match self { Value::String(_) => true, _ => false } }
}
pub broadcast proof fn jv_array(v: Vec<Value>)
    ensures is_arr(v@, (#[trigger] Value::Array(v).jv())->Arr_0), Value::Array(v).jv() is Arr
{
    reveal_with_fuel(Value::jv, 3);
    let j = Value::Array(v).jv()->Arr_0;
    assert(j.len() == v@.len());
    assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] v@[i]).jv() == j[i] by {
    }
}
/// the elements of a JSON array
pub open spec fn is_arr(v: Seq<Value>, j: Seq<JV>) -> bool {
    v.len() == j.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).jv() == j[i]
}
/// What the value of a serializable type is.
pub trait ToJ {
    spec fn j(&self) -> JV;
    fn vx_j(&self) -> (r: Value) ensures r.jv() == self.j();
}
impl ToJ for bool { open spec fn j(&self) -> JV { JV::Bool(*self) } fn vx_j(&self) -> (r: Value) { Value::Bool(*self) } }
impl ToJ for u8 { open spec fn j(&self) -> JV { JV::Num(*self as int) } #[verifier::external_body] fn vx_j(&self) -> (r: Value) { unimplemented!() } }
impl ToJ for u32 { open spec fn j(&self) -> JV { JV::Num(*self as int) } #[verifier::external_body] fn vx_j(&self) -> (r: Value) { unimplemented!() } }
impl ToJ for u64 { open spec fn j(&self) -> JV { JV::Num(*self as int) } #[verifier::external_body] fn vx_j(&self) -> (r: Value) { unimplemented!() } }
impl ToJ for usize { open spec fn j(&self) -> JV { JV::Num(*self as int) } #[verifier::external_body] fn vx_j(&self) -> (r: Value) { unimplemented!() } }
impl ToJ for i32 { open spec fn j(&self) -> JV { JV::Num(*self as int) } #[verifier::external_body] fn vx_j(&self) -> (r: Value) { unimplemented!() } }
impl ToJ for i64 { open spec fn j(&self) -> JV { JV::Num(*self as int) } #[verifier::external_body] fn vx_j(&self) -> (r: Value) { unimplemented!() } }
impl ToJ for f64 { uninterp spec fn j(&self) -> JV; #[verifier::external_body] fn vx_j(&self) -> (r: Value) { unimplemented!() } }
impl ToJ for str { open spec fn j(&self) -> JV { JV::Str(self@) } #[verifier::external_body] fn vx_j(&self) -> (r: Value) { unimplemented!() } }
impl ToJ for String { open spec fn j(&self) -> JV { JV::Str(self@) } #[verifier::external_body] fn vx_j(&self) -> (r: Value) { unimplemented!() } }
impl ToJ for Value { open spec fn j(&self) -> JV { self.jv() } #[verifier::external_body] fn vx_j(&self) -> (r: Value) { unimplemented!() } }
impl<T: ToJ> ToJ for [T] {
    open spec fn j(&self) -> JV { JV::Arr(Seq::new(self@.len(), |i: int| self@[i].j())) }
    #[verifier::external_body] fn vx_j(&self) -> (r: Value) { unimplemented!() }
}
impl<T: ToJ> ToJ for Vec<T> {
    open spec fn j(&self) -> JV { JV::Arr(Seq::new(self@.len(), |i: int| self@[i].j())) }
    #[verifier::external_body] fn vx_j(&self) -> (r: Value) { unimplemented!() }
}
impl<T: ToJ + ?Sized> ToJ for &T {
    open spec fn j(&self) -> JV { (**self).j() }
    #[verifier::external_body] fn vx_j(&self) -> (r: Value) { unimplemented!() }
}
#[verifier::external_body]
pub fn str_is(s: &str, l: &str) -> (r: bool) ensures r == (s@ == l@) { unimplemented!() }
#[verifier::external_body]
pub fn opt_str_is(s: &Option<&str>, l: &str) -> (r: bool)
    ensures r == (match *s { Some(x) => x@ == l@, None => false })
{ unimplemented!() }
#[verifier::external_body]
pub fn str_from_utf8(v: &[u8]) -> (r: Result<&str, ()>)
    ensures r.is_ok() == vstd::utf8::valid_utf8(v@),
        r.is_ok() ==> r.unwrap()@ == vstd::utf8::decode_utf8(v@)
{ unimplemented!() }

// ---- paths: text --------------------------------------------------------------------------
#[verifier::external_body]
pub struct Path { x: () }
pub type PathBuf = Path;
pub uninterp spec fn path_join(dir: Seq<char>, name: Seq<char>) -> Seq<char>;
/// what names a file
pub trait PathLike { spec fn pl(&self) -> Seq<char>; }
impl PathLike for str { open spec fn pl(&self) -> Seq<char> { self@ } }
impl PathLike for String { open spec fn pl(&self) -> Seq<char> { self@ } }
impl PathLike for Path { uninterp spec fn pl(&self) -> Seq<char>; }
impl<T: PathLike + ?Sized> PathLike for &T { open spec fn pl(&self) -> Seq<char> { (**self).pl() } }
impl Path {
    #[verifier::external_body]
    pub fn new<P: PathLike + ?Sized>(p: &P) -> (r: &Path) ensures r.pl() == p.pl() { unimplemented!() }
    #[verifier::external_body]
    pub fn join<P: PathLike>(&self, p: P) -> (r: PathBuf) ensures r.pl() == path_join(self.pl(), p.pl()) { unimplemented!() }
    #[verifier::external_body]
    pub fn from<P: PathLike>(p: P) -> (r: PathBuf) ensures r.pl() == p.pl() { unimplemented!() }
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: PathBuf) ensures r.pl() == self.pl() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_path(&self) -> (r: &Path) ensures r.pl() == self.pl() { unimplemented!() }
    /// ASSUMED: names of files are UTF-8
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&str>) ensures r.is_some(), r.unwrap()@ == self.pl() { unimplemented!() }
}
/// bytes to write
pub trait Content { spec fn bytes(&self) -> Seq<u8>; }
impl Content for str { open spec fn bytes(&self) -> Seq<u8> { vstd::utf8::encode_utf8(self@) } }
impl Content for String { open spec fn bytes(&self) -> Seq<u8> { vstd::utf8::encode_utf8(self@) } }
impl Content for [u8] { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl<T: Content + ?Sized> Content for &T { open spec fn bytes(&self) -> Seq<u8> { (**self).bytes() } }
/// this program has given the file `name` exactly this content
pub uninterp spec fn wrote(name: Seq<char>, c: Seq<u8>) -> bool;
#[verifier::external_body]
pub fn fs_write<P: PathLike, C: Content>(p: P, c: C) -> (r: Result<(), JsonError>)
    ensures r.is_ok(), wrote(p.pl(), c.bytes())
{ unimplemented!() }
/// a file created for writing: what it has accepted so far
#[verifier::external_body]
pub struct OutFile { x: u8 }
impl OutFile {
    pub uninterp spec fn pl(&self) -> Seq<char>;
    pub uninterp spec fn accepted(&self) -> Seq<u8>;
    /// ASSUMED: the program stops when the file cannot be written
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &[u8]) -> (r: Result<(), JsonError>) ensures r.is_ok(), final(self).pl() == old(self).pl(), final(self).accepted() == old(self).accepted() + b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: Result<(), JsonError>) ensures r.is_ok(), *final(self) == *old(self) { unimplemented!() }
}
#[verifier::external_body]
pub fn file_create<P: PathLike + ?Sized>(p: &P) -> (r: Result<OutFile, JsonError>)
    ensures r.is_ok(), r.unwrap().pl() == p.pl(), r.unwrap().accepted().len() == 0
{ unimplemented!() }
/// ASSUMED: what a file has accepted is what it holds
pub broadcast axiom fn outfile_holds(f: &OutFile) ensures wrote(f.pl(), #[trigger] f.accepted());
/// `tempfile::NamedTempFile`
#[verifier::external_body]
pub struct NamedTempFile { x: u8 }
impl NamedTempFile {
    pub uninterp spec fn pl(&self) -> Seq<char>;
    pub uninterp spec fn accepted(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new() -> (r: Result<NamedTempFile, JsonError>) ensures r.is_ok(), r.unwrap().accepted().len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn path(&self) -> (r: &Path) ensures r.pl() == self.pl() { unimplemented!() }
    /// ASSUMED: what a file has accepted is what it holds. Used where the file is complete.
    #[verifier::external_body]
    pub proof fn holds(&self) ensures fs_content(self.pl()) == self.accepted() { }
}
/// a buffered reader over a whole file
#[verifier::external_body]
pub struct FileReader { x: u8 }
impl FileReader {
    pub uninterp spec fn content(&self) -> Seq<u8>;
}
#[verifier::external_body]
pub fn buf_reader(f: File) -> (r: FileReader) ensures r.content() == f.left() { unimplemented!() }
#[verifier::external_body]
pub fn json_from_reader(r: FileReader) -> (v: Result<Value, JsonError>)
    ensures forall|t: Seq<char>| #[trigger] vstd::utf8::encode_utf8(t) == r.content() && is_json(t) ==> v.is_ok() && v.unwrap().jv() == json_of(t)
{ unimplemented!() }
#[verifier::external_body]
pub fn json_from_str(t: &str) -> (v: Result<Value, JsonError>)
    ensures is_json(t@) ==> v.is_ok() && v.unwrap().jv() == json_of(t@)
{ unimplemented!() }
#[verifier::external_body]
pub fn json_to_writer(w: OutFile, v: &Value) -> (r: Result<(), JsonError>)
    ensures r.is_ok(), w.accepted().len() == 0 ==> exists|t: Seq<char>| is_json(t) && json_of(t) == v.jv() && #[trigger] wrote(w.pl(), vstd::utf8::encode_utf8(t))
{ unimplemented!() }
#[verifier::external_body]
pub fn fs_read_to_string<P: PathLike>(p: P) -> (r: Result<String, JsonError>)
    ensures r.is_ok() == vstd::utf8::valid_utf8(fs_content(p.pl())), r.is_ok() ==> vstd::utf8::encode_utf8(r.unwrap()@) == fs_content(p.pl())
{ unimplemented!() }

/// the samples put together
pub open spec fn joined(p: Seq<Seq<u8>>) -> Seq<u8>
    decreases p.len()
{
    if p.len() == 0 { Seq::empty() } else { joined(p.drop_last()) + p.last() }
}

// ---- text put together --------------------------------------------------------------------
pub trait Shown {
    spec fn shown(&self) -> Seq<char>;
    fn vx_show(&self) -> (r: String) ensures r@ == self.shown();
}
/// a number in decimal
pub open spec fn decimal(n: nat) -> Seq<char>
    decreases n
{
    (if n < 10 { Seq::empty() } else { decimal(n / 10) }).push((48 + n % 10) as char)
}
impl Shown for usize { open spec fn shown(&self) -> Seq<char> { decimal(*self as nat) } #[verifier::external_body] fn vx_show(&self) -> (r: String) { unimplemented!() } }
impl Shown for u64 { open spec fn shown(&self) -> Seq<char> { decimal(*self as nat) } #[verifier::external_body] fn vx_show(&self) -> (r: String) { unimplemented!() } }
impl Shown for str { open spec fn shown(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_show(&self) -> (r: String) { unimplemented!() } }
impl Shown for String { open spec fn shown(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_show(&self) -> (r: String) { unimplemented!() } }
impl<T: Shown + ?Sized> Shown for &T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } #[verifier::external_body] fn vx_show(&self) -> (r: String) { unimplemented!() } }
#[verifier::external_body]
pub fn str_lit(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn str_cat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }

#[verifier::external_body]
pub fn boxed_path(p: &Path) -> (r: Box<Path>)
    ensures *r == *p
{ unimplemented!() }



// ---- characters -------------------------------------------------------------------------------------
// The Unicode tables are uninterpreted; `char_facts` says the little that is assumed of them, and the
// C01 oracle compares it with std for every character on every run.
pub uninterp spec fn alphabetic(c: char) -> bool;
pub uninterp spec fn uppercase(c: char) -> bool;
pub uninterp spec fn lowercase(c: char) -> bool;
pub uninterp spec fn lower_of(c: char) -> Seq<char>;
pub uninterp spec fn upper_of(c: char) -> Seq<char>;
pub open spec fn marker(c: char) -> bool { c == '\x14' || c == '\x15' || c == '\x16' }
#[verifier::external_body]
pub proof fn char_facts()
    ensures
        forall|c: char| #[trigger] alphabetic(c) ==> !marker(c) && c != ' ',
        forall|c: char| marker(c) ==> #[trigger] upper_of(c) == seq![c],
        upper_of('\u{3c2}') == seq!['\u{3a3}'],
{}
pub assume_specification[u8::is_ascii](b: &u8) -> (r: bool) ensures r == (*b < 128);
pub assume_specification[char::is_alphabetic](c: char) -> (r: bool) ensures r == alphabetic(c);
pub assume_specification[char::is_uppercase](c: char) -> (r: bool) ensures r == uppercase(c);
pub assume_specification[char::is_lowercase](c: char) -> (r: bool) ensures r == lowercase(c);
pub assume_specification[String::with_capacity](n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();
/// `str::to_lowercase`: character by character, but for the sigma at the end of a word
pub open spec fn lowered_str(s: Seq<char>, t: Seq<char>) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> (#[trigger] lower_of(s[i])).len() == 1) ==> t.len() == s.len()
        && forall|i: int| 0 <= i < s.len() ==> #[trigger] t[i] == lower_of(s[i])[0] || s[i] == '\u{3a3}' && t[i] == '\u{3c2}'
}
#[verifier::external_body]
pub struct CharIter { x: u8 }
impl View for CharIter { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl CharIter {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures match r { Some(c) => old(self)@.len() > 0 && c == old(self)@[0] && final(self)@ == old(self)@.drop_first(), None => old(self)@.len() == 0 && final(self)@ == old(self)@ }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
}
pub trait CharSrc {
    spec fn src(&self) -> Seq<char>;
    fn char_iter(&self) -> (r: CharIter) ensures r@ == self.src();
}
impl CharSrc for str {
    open spec fn src(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn char_iter(&self) -> (r: CharIter) { unimplemented!() }
}
impl CharSrc for String {
    open spec fn src(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn char_iter(&self) -> (r: CharIter) { unimplemented!() }
}
impl<A: CharSrc + ?Sized> CharSrc for &A {
    open spec fn src(&self) -> Seq<char> { (**self).src() }
    #[verifier::external_body]
    fn char_iter(&self) -> (r: CharIter) { unimplemented!() }
}
pub trait Cased {
    type Out;
    spec fn is_lowered(&self, r: &Self::Out) -> bool;
    spec fn is_uppered(&self, r: &Self::Out) -> bool;
    fn lowered(&self) -> (r: Self::Out) ensures self.is_lowered(&r);
    fn uppered(&self) -> (r: Self::Out) ensures self.is_uppered(&r);
}
impl Cased for char {
    type Out = CharIter;
    open spec fn is_lowered(&self, r: &CharIter) -> bool { r@ == lower_of(*self) }
    open spec fn is_uppered(&self, r: &CharIter) -> bool { r@ == upper_of(*self) }
    #[verifier::external_body]
    fn lowered(&self) -> (r: CharIter) { unimplemented!() }
    #[verifier::external_body]
    fn uppered(&self) -> (r: CharIter) { unimplemented!() }
}
impl Cased for str {
    type Out = String;
    open spec fn is_lowered(&self, r: &String) -> bool { lowered_str(self@, r@) }
    open spec fn is_uppered(&self, r: &String) -> bool { true }
    #[verifier::external_body]
    fn lowered(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn uppered(&self) -> (r: String) { unimplemented!() }
}
impl Cased for String {
    type Out = String;
    open spec fn is_lowered(&self, r: &String) -> bool { lowered_str(self@, r@) }
    open spec fn is_uppered(&self, r: &String) -> bool { true }
    #[verifier::external_body]
    fn lowered(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn uppered(&self) -> (r: String) { unimplemented!() }
}
impl<A: Cased + ?Sized> Cased for &A {
    type Out = A::Out;
    open spec fn is_lowered(&self, r: &A::Out) -> bool { (**self).is_lowered(r) }
    open spec fn is_uppered(&self, r: &A::Out) -> bool { (**self).is_uppered(r) }
    #[verifier::external_body]
    fn lowered(&self) -> (r: A::Out) { unimplemented!() }
    #[verifier::external_body]
    fn uppered(&self) -> (r: A::Out) { unimplemented!() }
}

} // verus!
} // mod vx
