pub mod base {
// Assumed contracts on std and on the crates snips-nlu-lib depends on.  Everything with
// external_body, and every axiom, in this file is trusted (listed in the evidence).
use vstd::prelude::*;
use std::collections::{HashMap, HashSet};
use std::ops::{Range, RangeFrom, RangeTo};
use core::cmp::Ordering;
verus! {
// ------------------------------------------------------------------ errors
#[verifier::external_body]
pub struct VxError { x: u8 }
pub type Result<T> = core::result::Result<T, VxError>;
/// the cause at the root of an error
pub uninterp spec fn root(e: VxError) -> VxError;
#[verifier::external_body]
pub fn vx_err() -> (r: VxError) { unimplemented!() }

/// an arbitrary boolean (vacuity probes)
#[verifier::external_body]
pub fn vx_probe() -> bool { unimplemented!() }

// ------------------------------------------------------------------ values are determined by their views
pub uninterp spec fn mk_string(s: Seq<char>) -> String;
pub broadcast axiom fn ax_string_ext(s: String)
    ensures mk_string(#[trigger] s@) == s;
pub uninterp spec fn mk_vec<T>(s: Seq<T>) -> Vec<T>;
pub broadcast axiom fn ax_vec_ext<T>(s: Vec<T>)
    ensures mk_vec(#[trigger] s@) == s;
pub broadcast axiom fn ax_string_mk(s: Seq<char>)
    ensures (#[trigger] mk_string(s))@ == s;
pub uninterp spec fn mk_str<'a>(s: Seq<char>) -> &'a str;
pub broadcast axiom fn ax_str_ext<'a>(s: &'a str)
    ensures mk_str(#[trigger] s@) == s;
// Rust guarantees that no allocation exceeds isize::MAX bytes
pub broadcast axiom fn ax_vec_len<T>(s: Vec<T>)
    ensures (#[trigger] s@).len() <= usize::MAX;
pub broadcast axiom fn ax_slice_len<T>(s: &[T])
    ensures (#[trigger] s@).len() <= usize::MAX;
pub broadcast axiom fn ax_str_len(s: &str)
    ensures (#[trigger] s@).len() <= isize::MAX;
pub broadcast axiom fn ax_string_len(s: String)
    ensures (#[trigger] s@).len() <= isize::MAX;
pub broadcast axiom fn ax_hashmap_len<K, V>(m: HashMap<K, V>)
    ensures #[trigger] vstd::std_specs::hash::spec_hash_map_len(&m) <= isize::MAX;

/// `Clone` of the std types and the derived `Clone`s used here return an equal value
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl<T: Clone> VxClone for T { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }

// ------------------------------------------------------------------ sequence lemmas
pub proof fn lemma_seq_skip_step<T>(s: Seq<T>, k: int)
    ensures 0 <= k < s.len() ==> s.skip(k).len() > 0 && s.skip(k)[0] == s[k] && s.skip(k).skip(1) =~= s.skip(k + 1),
            k >= 0 && k <= s.len() ==> (s.skip(k).len() == 0 <==> k == s.len()),
{ }

// ------------------------------------------------------------------ equality
pub trait VxEq<R: ?Sized> {
    spec fn eqs(&self, o: &R) -> bool;
    fn vx_eq_(&self, o: &R) -> (r: bool) ensures r == self.eqs(o);
}
pub fn vx_eq<A: VxEq<B> + ?Sized, B: ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == a.eqs(b) { a.vx_eq_(b) }
macro_rules! vx_eq_plain { ($($t:ty),*) => { $( verus! {
impl VxEq<$t> for $t { open spec fn eqs(&self, o: &$t) -> bool { *self == *o } #[verifier::external_body] fn vx_eq_(&self, o: &$t) -> (r: bool) { unimplemented!() } }
} )* } }
vx_eq_plain!(usize, u8, u16, u32, u64, i32, i64, isize, i16, char, bool, Range<usize>);
macro_rules! vx_eq_view { ($($t:ty, $u:ty);*) => { $( verus! {
impl<'a, 'b> VxEq<$u> for $t { open spec fn eqs(&self, o: &$u) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq_(&self, o: &$u) -> (r: bool) { unimplemented!() } }
} )* } }
vx_eq_view!(String, String; String, str; String, &'a str; str, str; str, String; &'a str, String; &'a str, str; &'a String, str; &'a String, String;String, &'a String);
impl<'a, 'b, A: VxEq<B> + ?Sized, B: ?Sized> VxEq<&'b B> for &'a A {
    open spec fn eqs(&self, o: &&'b B) -> bool { (**self).eqs(*o) }
    #[verifier::external_body] fn vx_eq_(&self, o: &&'b B) -> (r: bool) { unimplemented!() }
}
impl<T: VxEq<T>> VxEq<Option<T>> for Option<T> {
    open spec fn eqs(&self, o: &Option<T>) -> bool { match (*self, *o) { (Some(a), Some(b)) => a.eqs(&b), (None, None) => true, _ => false } }
    #[verifier::external_body] fn vx_eq_(&self, o: &Option<T>) -> (r: bool) { unimplemented!() }
}
impl<A: VxEq<A>, B: VxEq<B>> VxEq<(A, B)> for (A, B) {
    open spec fn eqs(&self, o: &(A, B)) -> bool { self.0.eqs(&o.0) && self.1.eqs(&o.1) }
    #[verifier::external_body] fn vx_eq_(&self, o: &(A, B)) -> (r: bool) { unimplemented!() }
}

// ------------------------------------------------------------------ strings
/// the characters of the byte range a..b (UTF-8) of s
pub uninterp spec fn byte_slice(s: Seq<char>, a: int, b: int) -> Seq<char>;
pub uninterp spec fn byte_len(s: Seq<char>) -> nat;
/// `str::len`
pub trait VxByteLen { fn vx_len(&self) -> (r: usize); }
impl VxByteLen for String { #[verifier::external_body] fn vx_len(&self) -> (r: usize) ensures r == byte_len(self@) { unimplemented!() } }
impl VxByteLen for str { #[verifier::external_body] fn vx_len(&self) -> (r: usize) ensures r == byte_len(self@) { unimplemented!() } }
pub uninterp spec fn char_boundary(s: Seq<char>, a: int) -> bool;
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn upper(s: Seq<char>) -> Seq<char>;
pub trait VxSlice<Ix> {
    type Out: ?Sized;
    spec fn slice_req(&self, i: Ix) -> bool;
    spec fn slice_ens(&self, i: Ix, r: &Self::Out) -> bool;
    fn vx_slice(&self, i: Ix) -> (r: &Self::Out) requires self.slice_req(i) ensures self.slice_ens(i, r);
}
impl VxSlice<Range<usize>> for str {
    type Out = str;
    open spec fn slice_req(&self, i: Range<usize>) -> bool { i.start <= i.end && char_boundary(self@, i.start as int) && char_boundary(self@, i.end as int) }
    open spec fn slice_ens(&self, i: Range<usize>, r: &str) -> bool { r@ == byte_slice(self@, i.start as int, i.end as int) }
    #[verifier::external_body] fn vx_slice(&self, i: Range<usize>) -> (r: &str) { unimplemented!() }
}
impl<T> VxSlice<Range<usize>> for Vec<T> {
    type Out = [T];
    open spec fn slice_req(&self, i: Range<usize>) -> bool { i.start <= i.end <= self@.len() }
    open spec fn slice_ens(&self, i: Range<usize>, r: &[T]) -> bool { r@ == self@.subrange(i.start as int, i.end as int) }
    #[verifier::external_body] fn vx_slice(&self, i: Range<usize>) -> (r: &[T]) { unimplemented!() }
}
impl<T> VxSlice<Range<usize>> for [T] {
    type Out = [T];
    open spec fn slice_req(&self, i: Range<usize>) -> bool { i.start <= i.end <= self@.len() }
    open spec fn slice_ens(&self, i: Range<usize>, r: &[T]) -> bool { r@ == self@.subrange(i.start as int, i.end as int) }
    #[verifier::external_body] fn vx_slice(&self, i: Range<usize>) -> (r: &[T]) { unimplemented!() }
}
impl<T> VxSlice<RangeFrom<usize>> for [T] {
    type Out = [T];
    open spec fn slice_req(&self, i: RangeFrom<usize>) -> bool { i.start <= self@.len() }
    open spec fn slice_ens(&self, i: RangeFrom<usize>, r: &[T]) -> bool { r@ == self@.skip(i.start as int) }
    #[verifier::external_body] fn vx_slice(&self, i: RangeFrom<usize>) -> (r: &[T]) { unimplemented!() }
}
impl<T> VxSlice<core::ops::RangeFull> for Vec<T> {
    type Out = [T];
    open spec fn slice_req(&self, i: core::ops::RangeFull) -> bool { true }
    open spec fn slice_ens(&self, i: core::ops::RangeFull, r: &[T]) -> bool { r@ == self@ }
    #[verifier::external_body] fn vx_slice(&self, i: core::ops::RangeFull) -> (r: &[T]) { unimplemented!() }
}
impl<T> VxSlice<RangeFrom<usize>> for Vec<T> {
    type Out = [T];
    open spec fn slice_req(&self, i: RangeFrom<usize>) -> bool { i.start <= self@.len() }
    open spec fn slice_ens(&self, i: RangeFrom<usize>, r: &[T]) -> bool { r@ == self@.skip(i.start as int) }
    #[verifier::external_body] fn vx_slice(&self, i: RangeFrom<usize>) -> (r: &[T]) { unimplemented!() }
}
pub open spec fn is_prefix(p: Seq<char>, s: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
pub trait VxStr {
    spec fn sv(&self) -> Seq<char>;
    fn vx_starts_with(&self, p: &str) -> (r: bool) ensures r == is_prefix(p@, self.sv());
    fn vx_to_string(&self) -> (r: String) ensures r@ == self.sv();
    fn vx_to_owned(&self) -> (r: String) ensures r@ == self.sv();
    fn vx_to_lowercase(&self) -> (r: String) ensures r@ == lower(self.sv());
    fn vx_to_uppercase(&self) -> (r: String) ensures r@ == upper(self.sv());
    fn vx_as_str(&self) -> (r: &str) ensures r@ == self.sv();
    fn vx_chars(&self) -> (r: It<char>) ensures r@ == self.sv();
}
macro_rules! vx_str_impl { ($($t:ty),*) => { $( verus! {
impl<'a> VxStr for $t {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_starts_with(&self, p: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_owned(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_as_str(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_chars(&self) -> (r: It<char>) { unimplemented!() }
}
} )* } }
vx_str_impl!(str, String);
pub trait VxEndsWith<P> { spec fn ends(&self, p: P) -> bool; fn vx_ends_with(&self, p: P) -> (r: bool) ensures r == self.ends(p); }
impl VxEndsWith<char> for str { open spec fn ends(&self, p: char) -> bool { self@.len() > 0 && self@.last() == p } #[verifier::external_body] fn vx_ends_with(&self, p: char) -> (r: bool) { unimplemented!() } }
impl<'a> VxEndsWith<&'a str> for str { open spec fn ends(&self, p: &'a str) -> bool { p@.len() <= self@.len() && self@.skip(self@.len() - p@.len()) == p@ } #[verifier::external_body] fn vx_ends_with(&self, p: &'a str) -> (r: bool) { unimplemented!() } }
pub uninterp spec fn split_seq(s: Seq<char>, c: char) -> Seq<Seq<char>>;
pub trait VxSplit<P> { fn vx_split<'a>(&'a self, p: P) -> It<&'a str>; }
impl VxSplit<char> for str { #[verifier::external_body] fn vx_split<'a>(&'a self, p: char) -> (r: It<&'a str>) ensures str_views(r@) == split_seq(self@, p), r@.len() > 0 { unimplemented!() } }
/// `&**s` on a `&String`
#[verifier::external_body]
pub fn vx_deref_str<'a>(s: &'a String) -> (r: &'a str) ensures r@ == s@ { unimplemented!() }
pub trait VxDisp { spec fn disp(&self) -> Seq<char>; }
impl VxDisp for str { open spec fn disp(&self) -> Seq<char> { self@ } }
impl<'a> VxDisp for &'a str { open spec fn disp(&self) -> Seq<char> { self@ } }
impl VxDisp for String { open spec fn disp(&self) -> Seq<char> { self@ } }
impl<'a> VxDisp for &'a String { open spec fn disp(&self) -> Seq<char> { self@ } }
pub uninterp spec fn dec(i: int) -> Seq<char>;
impl VxDisp for usize { open spec fn disp(&self) -> Seq<char> { dec(*self as int) } }
impl VxDisp for u16 { open spec fn disp(&self) -> Seq<char> { dec(*self as int) } }
impl<'a> VxDisp for &'a u16 { open spec fn disp(&self) -> Seq<char> { dec(**self as int) } }
impl VxDisp for i32 { open spec fn disp(&self) -> Seq<char> { dec(*self as int) } }
/// `to_string` of an integer
pub trait VxNumStr { spec fn num(&self) -> int; fn vx_to_string(&self) -> (r: String) ensures r@ == dec(self.num()); }
impl VxNumStr for u16 { open spec fn num(&self) -> int { *self as int } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
#[verifier::external_body]
pub fn vx_push_disp<T: VxDisp + ?Sized>(s: &mut String, x: &T) ensures final(s)@ == old(s)@ + x.disp() { unimplemented!() }
/// `{:?}` of an integer
pub trait VxDebug { spec fn dbg(&self) -> Seq<char>; }
impl VxDebug for usize { open spec fn dbg(&self) -> Seq<char> { dec(*self as int) } }
impl<'a> VxDebug for &'a usize { open spec fn dbg(&self) -> Seq<char> { dec(**self as int) } }
#[verifier::external_body]
pub fn vx_push_debug<T: VxDebug + ?Sized>(s: &mut String, x: &T) ensures final(s)@ == old(s)@ + x.dbg() { unimplemented!() }
/// `{:+}`
pub open spec fn signed(i: int) -> Seq<char> { if i >= 0 { seq!['+'] + dec(i) } else { dec(i) } }
#[verifier::external_body]
pub fn vx_push_signed(s: &mut String, x: &i32) ensures final(s)@ == old(s)@ + signed(*x as int) { unimplemented!() }

/// `vec![x; n]`
#[verifier::external_body]
pub fn vx_vec_rep<T: Clone>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x { unimplemented!() }

// ------------------------------------------------------------------ iterators (finite, evaluated eagerly)
#[verifier::reject_recursive_types(T)]
pub struct It<T> { pub v: Vec<T> }
pub open spec fn enumerated<T>(s: Seq<T>) -> Seq<(usize, T)> { Seq::new(s.len(), |i: int| (i as usize, s[i])) }
pub open spec fn reversed<T>(s: Seq<T>) -> Seq<T> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
pub broadcast proof fn lemma_refs<'a, T>(s: Seq<T>, i: int)
    requires 0 <= i < s.len()
    ensures #![trigger refs::<'a, T>(s), s[i]] *(refs::<'a, T>(s)[i]) == s[i]
{ }
pub open spec fn unrefs<'a, T>(s: Seq<&'a T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
/// the subsequence of s at the positions where keep holds
pub open spec fn sel<T>(s: Seq<T>, keep: spec_fn(int) -> bool) -> Seq<T>
    decreases s.len()
{ if s.len() == 0 { s } else if keep(s.len() - 1) { sel(s.drop_last(), keep).push(s.last()) } else { sel(s.drop_last(), keep) } }
pub open spec fn filtered_by<T, F: Fn(&T) -> bool>(s: Seq<T>, f: F, keep: spec_fn(int) -> bool, r: Seq<T>) -> bool {
    &&& r == sel(s, keep)
    &&& forall|i: int| #![trigger s[i]] #![trigger keep(i)] 0 <= i < s.len() ==> call_ensures(f, (&s[i],), keep(i))
}
/// what `sel` means: an order preserving selection of exactly the kept positions
pub proof fn lemma_sel_ext<T>(s: Seq<T>, a: spec_fn(int) -> bool, b: spec_fn(int) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> a(i) == #[trigger] b(i)
    ensures sel(s, a) == sel(s, b)
    decreases s.len()
{ if s.len() > 0 { lemma_sel_ext(s.drop_last(), a, b); } }
/// the kept positions
pub open spec fn kept_ix(n: int, keep: spec_fn(int) -> bool) -> Seq<int>
    decreases n
{ if n <= 0 { Seq::empty() } else if keep(n - 1) { kept_ix(n - 1, keep).push(n - 1) } else { kept_ix(n - 1, keep) } }
pub open spec fn ix_has(ix: Seq<int>, i: int) -> bool { exists|k: int| 0 <= k < ix.len() && #[trigger] ix[k] == i }
/// `sel` keeps exactly the kept positions, in order
pub proof fn lemma_sel_ix<T>(s: Seq<T>, keep: spec_fn(int) -> bool)
    ensures ({ let ix = kept_ix(s.len() as int, keep);
        &&& sel(s, keep).len() == ix.len()
        &&& forall|k: int| #![trigger ix[k]] #![trigger sel(s, keep)[k]] 0 <= k < ix.len() ==> 0 <= ix[k] < s.len() && keep(ix[k]) && sel(s, keep)[k] == s[ix[k]]
        &&& forall|j: int, k: int| 0 <= j < k < ix.len() ==> #[trigger] ix[j] < #[trigger] ix[k]
        &&& forall|i: int| 0 <= i < s.len() && #[trigger] keep(i) ==> ix_has(ix, i) })
    decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last(); let n = s.len() as int;
        lemma_sel_ix(p, keep);
        let (ix0, ix) = (kept_ix(n - 1, keep), kept_ix(n, keep));
        assert forall|i: int| 0 <= i < n && #[trigger] keep(i) implies ix_has(ix, i) by {
            if i < n - 1 { assert(ix_has(ix0, i)); let k = choose|k: int| 0 <= k < ix0.len() && #[trigger] ix0[k] == i; assert(ix[k] == i); } else { assert(ix[ix.len() - 1] == i); }
        }
    }
}
/// membership in a selection
pub proof fn lemma_sel_has<T>(s: Seq<T>, keep: spec_fn(int) -> bool)
    ensures forall|i: int| 0 <= i < s.len() && #[trigger] keep(i) ==> sel(s, keep).contains(s[i]),
        forall|k: int| 0 <= k < sel(s, keep).len() ==> kept_elem(s, keep, #[trigger] sel(s, keep)[k]),
{
    lemma_sel_ix(s, keep);
    let ix = kept_ix(s.len() as int, keep);
    assert forall|i: int| 0 <= i < s.len() && #[trigger] keep(i) implies sel(s, keep).contains(s[i]) by { assert(ix_has(ix, i)); let k = choose|k: int| 0 <= k < ix.len() && #[trigger] ix[k] == i; assert(sel(s, keep)[k] == s[i]); }
    assert forall|k: int| 0 <= k < sel(s, keep).len() implies kept_elem(s, keep, #[trigger] sel(s, keep)[k]) by { assert(keep(ix[k])); assert(s[ix[k]] == sel(s, keep)[k]); }
}
pub open spec fn kept_elem<T>(s: Seq<T>, keep: spec_fn(int) -> bool, x: T) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] keep(i) && s[i] == x }
/// the elements of s satisfying p, in order
pub open spec fn pick<T>(s: Seq<T>, p: spec_fn(T) -> bool) -> Seq<T>
    decreases s.len()
{ if s.len() == 0 { s } else if p(s.last()) { pick(s.drop_last(), p).push(s.last()) } else { pick(s.drop_last(), p) } }
pub proof fn lemma_sel_pick<T>(s: Seq<T>, keep: spec_fn(int) -> bool, p: spec_fn(T) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] keep(i) == p(s[i])
    ensures sel(s, keep) == pick(s, p)
    decreases s.len()
{ if s.len() > 0 { lemma_sel_pick(s.drop_last(), keep, p); } }
pub proof fn lemma_pick_ext<T>(s: Seq<T>, p: spec_fn(T) -> bool, q: spec_fn(T) -> bool)
    requires forall|x: T| #[trigger] p(x) == q(x)
    ensures pick(s, p) == pick(s, q)
    decreases s.len()
{ if s.len() > 0 { lemma_pick_ext(s.drop_last(), p, q); } }
pub proof fn lemma_pick_pick<T>(s: Seq<T>, p: spec_fn(T) -> bool, q: spec_fn(T) -> bool)
    ensures pick(pick(s, p), q) == pick(s, |x: T| p(x) && q(x))
    decreases s.len()
{
    if s.len() > 0 {
        lemma_pick_pick(s.drop_last(), p, q);
        let a = pick(s.drop_last(), p);
        assert(a.push(s.last()).drop_last() =~= a);
    }
}
/// the outcomes of f on the elements of s
pub open spec fn outs_of<T, U, F: Fn(T) -> Option<U>>(s: Seq<T>, f: F, o: Seq<Option<U>>) -> bool {
    o.len() == s.len() && forall|i: int| #![trigger s[i]] #![trigger o[i]] 0 <= i < s.len() ==> call_ensures(f, (s[i],), o[i])
}
/// the values among the outcomes, in order
pub open spec fn somes<U>(o: Seq<Option<U>>) -> Seq<U>
    decreases o.len()
{ if o.len() == 0 { Seq::empty() } else { match o.last() { Some(x) => somes(o.drop_last()).push(x), None => somes(o.drop_last()) } } }
pub proof fn lemma_somes_push<U>(o: Seq<Option<U>>, x: Option<U>)
    ensures somes(o.push(x)) == (match x { Some(u) => somes(o).push(u), None => somes(o) })
{ assert(o.push(x).drop_last() =~= o); }
pub proof fn lemma_somes_contains<U>(o: Seq<Option<U>>, i: int)
    requires 0 <= i < o.len(), o[i] is Some
    ensures somes(o).contains(o[i].unwrap())
    decreases o.len()
{
    let p = o.drop_last();
    if i == o.len() - 1 { assert(somes(o)[somes(p).len() as int] == o[i].unwrap()); }
    else { lemma_somes_contains(p, i); assert(p[i] == o[i]); let j = choose|j: int| 0 <= j < somes(p).len() && somes(p)[j] == o[i].unwrap(); assert(somes(o)[j] == o[i].unwrap()); }
}
/// the first occurrence of every element, in order
pub open spec fn uniq<T>(s: Seq<T>) -> Seq<T>
    decreases s.len()
{ if s.len() == 0 { s } else { let p = uniq(s.drop_last()); if p.contains(s.last()) { p } else { p.push(s.last()) } } }
pub proof fn lemma_uniq<T>(s: Seq<T>)
    ensures uniq(s).no_duplicates(), forall|x: T| #[trigger] uniq(s).contains(x) <==> s.contains(x)
    decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last();
        lemma_uniq(p);
        let u = uniq(p);
        assert forall|x: T| #[trigger] uniq(s).contains(x) <==> s.contains(x) by {
            if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i < p.len() { assert(p[i] == x); assert(u.contains(x)); let j = choose|j: int| 0 <= j < u.len() && u[j] == x; assert(uniq(s)[j] == x); } else if u.contains(x) { } else { assert(u.push(x)[u.len() as int] == x); } }
            if uniq(s).contains(x) { let j = choose|j: int| 0 <= j < uniq(s).len() && uniq(s)[j] == x; if j < u.len() { assert(u[j] == x); assert(u.contains(x)); assert(p.contains(x)); let i = choose|i: int| 0 <= i < p.len() && p[i] == x; assert(s[i] == x); } else { assert(s[s.len() - 1] == x); } }
        }
    }
}
/// types whose `Eq` is equality of values
pub trait VxPlainEq { }
impl VxPlainEq for String { }
impl<T: VxPlainEq> VxPlainEq for &T { }
impl<A: VxPlainEq, B: VxPlainEq> VxPlainEq for (A, B) { }
impl<T: VxPlainEq> VxPlainEq for Vec<T> { }
pub open spec fn zipped<T, U>(a: Seq<T>, b: Seq<U>) -> Seq<(T, U)> { Seq::new(if a.len() <= b.len() { a.len() } else { b.len() }, |i: int| (a[i], b[i])) }
/// the results of f on the elements of s
pub open spec fn results_of<T, U, F: Fn(T) -> U>(s: Seq<T>, f: F, o: Seq<U>) -> bool {
    o.len() == s.len() && forall|i: int| #![trigger s[i]] #![trigger o[i]] 0 <= i < s.len() ==> call_ensures(f, (s[i],), o[i])
}
pub open spec fn flat_elems<U, J: VxIntoIter<U>>(o: Seq<J>) -> Seq<U>
    decreases o.len()
{ if o.len() == 0 { Seq::empty() } else { flat_elems(o.drop_last()) + o.last().into_elems() } }
/// positions below n in increasing order
pub open spec fn rising(x: Seq<int>, n: int) -> bool { (forall|i: int| 0 <= i < x.len() ==> 0 <= #[trigger] x[i] < n) && forall|i: int, j: int| 0 <= i < j < x.len() ==> #[trigger] x[i] < #[trigger] x[j] }
pub open spec fn at_ix<T>(s: Seq<T>, x: Seq<int>) -> Seq<T> { Seq::new(x.len(), |i: int| s[x[i]]) }
/// every selection of k elements of s, each exactly once, in the order of s
pub open spec fn combos<T>(s: Seq<T>, k: int, x: Seq<Seq<int>>, c: Seq<Vec<T>>) -> bool {
    &&& c.len() == x.len() && x.no_duplicates()
    &&& forall|j: int| #![trigger x[j]] #![trigger c[j]] 0 <= j < x.len() ==> rising(x[j], s.len() as int) && x[j].len() == k && c[j]@ == at_ix(s, x[j])
    &&& forall|y: Seq<int>| #[trigger] rising(y, s.len() as int) && y.len() == k ==> x.contains(y)
}
/// no element is strictly greater than a later one
pub open spec fn ordered_by<T, F: FnMut(&T, &T) -> Ordering>(r: Seq<T>, f: F) -> bool {
    forall|i: int, j: int| 0 <= i < j < r.len() ==> cmp_le(f, #[trigger] r[i], #[trigger] r[j])
}
pub open spec fn cmp_le<T, F: FnMut(&T, &T) -> Ordering>(f: F, a: T, b: T) -> bool { exists|o: Ordering| o != Ordering::Greater && #[trigger] call_ensures(f, (&a, &b), o) }
impl<T> It<T> {
    pub open spec fn view(&self) -> Seq<T> { self.v@ }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
                old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: It<(usize, T)>) ensures r@ == enumerated(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: It<T>) ensures r@ == reversed(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures r@.len() == self@.len(), forall|i: int| #![trigger self@[i]] #![trigger r@[i]] 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), r@[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn any<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures r ==> exists|i: int| 0 <= i < self@.len() && call_ensures(f, (#[trigger] self@[i],), true),
            !r ==> forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (#[trigger] self@[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn all<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures !r ==> exists|i: int| 0 <= i < self@.len() && call_ensures(f, (#[trigger] self@[i],), false),
            r ==> forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (#[trigger] self@[i],), true),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    /// the kept elements in order; `keeps` is a predicate the closure decides exactly
    #[verifier::external_body]
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&(#[trigger] self@[i]),)),
        ensures exists|keep: spec_fn(int) -> bool| filtered_by(self@, f, keep, r@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures exists|o: Seq<Option<U>>| #[trigger] outs_of(self@, f, o) && r@ == somes(o),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&(#[trigger] self@[i]),)),
        ensures match r {
            Some(x) => exists|i: int| 0 <= i < self@.len() && x == #[trigger] self@[i] && call_ensures(f, (&self@[i],), true) && forall|j: int| 0 <= j < i ==> call_ensures(f, (&(#[trigger] self@[j]),), false),
            None => forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (&(#[trigger] self@[i]),), false),
        },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn find_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: Option<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures match r {
            Some(x) => exists|i: int| 0 <= i < self@.len() && call_ensures(f, (#[trigger] self@[i],), Some(x)) && forall|j: int| 0 <= j < i ==> call_ensures(f, (#[trigger] self@[j],), None::<U>),
            None => forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (#[trigger] self@[i],), None::<U>),
        },
    { unimplemented!() }
    /// the last of the greatest elements
    #[verifier::external_body]
    pub fn max_by<F: Fn(&T, &T) -> Ordering>(self, f: F) -> (r: Option<T>)
        requires forall|i: int, j: int| 0 <= i < self@.len() && 0 <= j < self@.len() ==> call_requires(f, (&(#[trigger] self@[i]), &(#[trigger] self@[j]))),
        ensures (r is None) == (self@.len() == 0), r is Some ==> exists|i: int| 0 <= i < self@.len() && #[trigger] self@[i] == r->Some_0 && forall|j: int| 0 <= j < self@.len() ==> cmp_le(f, #[trigger] self@[j], self@[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: It<T>) ensures r@ == self@.take(if n <= self@.len() { n as int } else { self@.len() as int }) { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: It<T>) ensures r@ == self@.skip(if n <= self@.len() { n as int } else { self@.len() as int }) { unimplemented!() }
    /// `Itertools::sorted_by`
    #[verifier::external_body]
    pub fn sorted_by<F: FnMut(&T, &T) -> Ordering>(self, f: F) -> (r: It<T>)
        requires forall|i: int, j: int| 0 <= i < self@.len() && 0 <= j < self@.len() ==> call_requires(f, (&(#[trigger] self@[i]), &(#[trigger] self@[j]))),
        ensures is_perm(self@, r@), r@.len() == self@.len(), ordered_by(r@, f),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn zip<U, J: VxIntoIter<U>>(self, o: J) -> (r: It<(T, U)>) ensures r@ == zipped(self@, o.into_elems()) { unimplemented!() }
    #[verifier::external_body]
    pub fn chain<J: VxIntoIter<T>>(self, o: J) -> (r: It<T>) ensures r@ == self@ + o.into_elems() { unimplemented!() }
    #[verifier::external_body]
    pub fn flat_map<U, J: VxIntoIter<U>, F: Fn(T) -> J>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures exists|o: Seq<J>| #[trigger] results_of(self@, f, o) && r@ == flat_elems(o),
    { unimplemented!() }
    /// `Itertools::unique`, for types whose equality is that of values
    #[verifier::external_body]
    pub fn unique(self) -> (r: It<T>) where T: VxPlainEq ensures r@ == uniq(self@) { unimplemented!() }
    /// `Itertools::combinations`
    #[verifier::external_body]
    pub fn vx_combinations(self, k: usize) -> (r: It<Vec<T>>) ensures exists|x: Seq<Seq<int>>| #[trigger] combos(self@, k as int, x, r@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_collect_vec(self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn collect<C: FromIt<T>>(self) -> (r: C) ensures C::from_it(self@, r) { unimplemented!() }
}
/// `flatten`
pub trait VxFlatten<U>: Sized { spec fn flat(self) -> Seq<U>; fn vx_flatten(self) -> (r: It<U>) ensures r@ == self.flat(); }
impl<U> VxFlatten<U> for It<Option<U>> { open spec fn flat(self) -> Seq<U> { somes(self@) } #[verifier::external_body] fn vx_flatten(self) -> (r: It<U>) { unimplemented!() } }
pub open spec fn flat_vecs<'a, U>(s: Seq<&'a Vec<U>>) -> Seq<&'a U>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { flat_vecs(s.drop_last()) + refs(s.last()@) } }
impl<'a, U> VxFlatten<&'a U> for It<&'a Vec<U>> { open spec fn flat(self) -> Seq<&'a U> { flat_vecs(self@) } #[verifier::external_body] fn vx_flatten(self) -> (r: It<&'a U>) { unimplemented!() } }
impl<'a, T: Clone> It<&'a T> {
    #[verifier::external_body]
    pub fn vx_cloned(self) -> (r: It<T>) ensures r@ == unrefs(self@) { unimplemented!() }
}
impl<'a, T: Copy> It<&'a T> {
    #[verifier::external_body]
    pub fn vx_copied(self) -> (r: It<T>) ensures r@ == unrefs(self@) { unimplemented!() }
}
pub trait VxInto<T>: Sized { spec fn into_is(self, r: T) -> bool; fn vx_into(self) -> (r: T) ensures self.into_is(r); }
/// `as_ref`
pub trait VxAsRef<'a, R>: Sized { spec fn as_ref_is(self, r: R) -> bool; fn vx_as_ref(self) -> (r: R) ensures self.as_ref_is(r); }
impl<'a> VxAsRef<'a, &'a str> for &'a str { open spec fn as_ref_is(self, r: &'a str) -> bool { r@ == self@ } #[verifier::external_body] fn vx_as_ref(self) -> (r: &'a str) { unimplemented!() } }
impl<'a, T> VxAsRef<'a, Option<&'a T>> for &'a Option<T> {
    open spec fn as_ref_is(self, r: Option<&'a T>) -> bool { match (*self, r) { (Some(x), Some(y)) => x == *y, (None, None) => true, _ => false } }
    #[verifier::external_body] fn vx_as_ref(self) -> (r: Option<&'a T>) { unimplemented!() }
}
impl<'a, T> VxAsRef<'a, &'a [T]> for &'a Vec<T> {
    open spec fn as_ref_is(self, r: &'a [T]) -> bool { r@ == self@ }
    #[verifier::external_body] fn vx_as_ref(self) -> (r: &'a [T]) { unimplemented!() }
}
/// what `collect` / `FromIterator` builds
pub trait FromIt<T>: Sized { spec fn from_it(s: Seq<T>, r: Self) -> bool; }
impl<'a> FromIt<&'a str> for String { open spec fn from_it(s: Seq<&'a str>, r: String) -> bool { r@ == join_seq(str_views(s), Seq::empty()) } }
impl FromIt<char> for String { open spec fn from_it(s: Seq<char>, r: String) -> bool { r@ == s } }
#[verifier::external_body]
pub fn vx_string_from_iter(v: Vec<char>) -> (r: String) ensures r@ == v@ { unimplemented!() }
impl<T> FromIt<T> for Vec<T> { open spec fn from_it(s: Seq<T>, r: Vec<T>) -> bool { r@ == s } }
impl<T> FromIt<T> for HashSet<T> { open spec fn from_it(s: Seq<T>, r: HashSet<T>) -> bool { r@ == s.to_set() } }
impl<T, E> FromIt<core::result::Result<T, E>> for core::result::Result<Vec<T>, E> {
    open spec fn from_it(s: Seq<core::result::Result<T, E>>, r: core::result::Result<Vec<T>, E>) -> bool {
        match r {
            Ok(v) => v@.len() == s.len() && forall|i: int| #![trigger s[i]] #![trigger v@[i]] 0 <= i < s.len() ==> s[i] == core::result::Result::<T, E>::Ok(v@[i]),
            Err(_) => exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Err,
        }
    }
}
/// `FromIterator::from_iter`
#[verifier::external_body]
pub fn vx_from_iter<T, C: FromIt<T>, I: VxIntoIter<T>>(i: I) -> (r: C) ensures C::from_it(i.into_elems(), r) { unimplemented!() }
pub trait VxIter<T> { spec fn elems(self) -> Seq<T>; fn vx_iter(self) -> (r: It<T>) where Self: Sized ensures r@ == self.elems(); }
impl<'a, T> VxIter<&'a T> for &'a Vec<T> {
    open spec fn elems(self) -> Seq<&'a T> { refs(self@) }
    #[verifier::external_body] fn vx_iter(self) -> It<&'a T> { unimplemented!() }
}
impl<'a, T> VxIter<&'a T> for &'a [T] {
    open spec fn elems(self) -> Seq<&'a T> { refs(self@) }
    #[verifier::external_body] fn vx_iter(self) -> It<&'a T> { unimplemented!() }
}
pub trait VxIntoIter<T> { spec fn into_elems(self) -> Seq<T>; fn vx_into_iter(self) -> (r: It<T>) where Self: Sized ensures r@ == self.into_elems(); }
impl<T> VxIntoIter<T> for Vec<T> {
    open spec fn into_elems(self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_into_iter(self) -> It<T> { unimplemented!() }
}
impl<'a, T> VxIntoIter<&'a T> for &'a Vec<T> {
    open spec fn into_elems(self) -> Seq<&'a T> { refs(self@) }
    #[verifier::external_body] fn vx_into_iter(self) -> It<&'a T> { unimplemented!() }
}
impl<'a, T> VxIntoIter<&'a T> for &'a [T] {
    open spec fn into_elems(self) -> Seq<&'a T> { refs(self@) }
    #[verifier::external_body] fn vx_into_iter(self) -> It<&'a T> { unimplemented!() }
}
impl<T> VxIntoIter<T> for It<T> {
    open spec fn into_elems(self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_into_iter(self) -> It<T> { unimplemented!() }
}
pub open spec fn range_seq(a: usize, b: usize) -> Seq<usize> { Seq::new(if b >= a { (b - a) as nat } else { 0 }, |i: int| (a + i) as usize) }
impl VxIter<usize> for Range<usize> {
    open spec fn elems(self) -> Seq<usize> { range_seq(self.start, self.end) }
    #[verifier::external_body] fn vx_iter(self) -> It<usize> { unimplemented!() }
}
pub trait VxRange { fn vx_count(self) -> (r: usize) where Self: Sized ensures r == self.cnt(); spec fn cnt(self) -> int; }
impl VxRange for Range<usize> {
    open spec fn cnt(self) -> int { if self.end >= self.start { self.end - self.start } else { 0 } }
    #[verifier::external_body] fn vx_count(self) -> usize { unimplemented!() }
}
impl VxIntoIter<usize> for Range<usize> {
    open spec fn into_elems(self) -> Seq<usize> { range_seq(self.start, self.end) }
    #[verifier::external_body] fn vx_into_iter(self) -> It<usize> { unimplemented!() }
}
pub open spec fn range_seq32(a: i32, b: i32) -> Seq<i32> { Seq::new(if b >= a { (b - a) as nat } else { 0 }, |i: int| (a + i) as i32) }
impl VxIntoIter<i32> for Range<i32> {
    open spec fn into_elems(self) -> Seq<i32> { range_seq32(self.start, self.end) }
    #[verifier::external_body] fn vx_into_iter(self) -> It<i32> { unimplemented!() }
}
/// `for` evaluates `IntoIterator::into_iter`
pub fn vx_for<T, I: VxIntoIter<T>>(i: I) -> (r: It<T>) ensures r@ == i.into_elems() { i.vx_into_iter() }

// ------------------------------------------------------------------ sorting
/// the order of a key type (`Ord::le`)
pub uninterp spec fn ord_le<K>(a: K, b: K) -> bool;
pub broadcast axiom fn ax_ord_i32(a: i32, b: i32) ensures #[trigger] ord_le::<i32>(a, b) == (a <= b);
pub broadcast axiom fn ax_ord_usize(a: usize, b: usize) ensures #[trigger] ord_le::<usize>(a, b) == (a <= b);
pub broadcast axiom fn ax_ord_isize(a: isize, b: isize) ensures #[trigger] ord_le::<isize>(a, b) == (a <= b);
pub open spec fn sorted_keys<K>(k: Seq<K>) -> bool { forall|i: int, j: int| 0 <= i <= j < k.len() ==> ord_le(#[trigger] k[i], #[trigger] k[j]) }
pub open spec fn keys_of<T, K, F: FnMut(&T) -> K>(s: Seq<T>, f: F, k: Seq<K>) -> bool {
    k.len() == s.len() && forall|i: int| #![trigger k[i]] #![trigger s[i]] 0 <= i < s.len() ==> call_ensures(f, (&s[i],), k[i])
}
/// r[i] == s[p[i]], with inverse q
#[verifier::opaque]
pub open spec fn perm_by<T>(s: Seq<T>, r: Seq<T>, p: Seq<int>, q: Seq<int>) -> bool {
    &&& p.len() == s.len() && q.len() == s.len() && r.len() == s.len()
    &&& forall|i: int| #![trigger p[i]] #![trigger r[i]] 0 <= i < s.len() ==> 0 <= p[i] < s.len() && r[i] == s[p[i]] && q[p[i]] == i
    &&& forall|i: int| #![trigger q[i]] #![trigger s[i]] 0 <= i < s.len() ==> 0 <= q[i] < s.len() && s[i] == r[q[i]] && p[q[i]] == i
}
pub proof fn lemma_perm_at<T>(s: Seq<T>, r: Seq<T>, p: Seq<int>, q: Seq<int>, i: int)
    requires perm_by(s, r, p, q), 0 <= i < s.len() || 0 <= i < r.len()
    ensures s.len() == r.len(), 0 <= p[i] < s.len(), r[i] == s[p[i]], q[p[i]] == i, 0 <= q[i] < s.len(), s[i] == r[q[i]], p[q[i]] == i
{ reveal(perm_by); }
pub open spec fn is_perm<T>(s: Seq<T>, r: Seq<T>) -> bool { s.to_multiset() == r.to_multiset() && exists|p: Seq<int>, q: Seq<int>| perm_by(s, r, p, q) }
/// `sort_by_key`: a permutation, in increasing order of the keys the closure gives
pub open spec fn sorted_of<T, K, F: FnMut(&T) -> K>(s: Seq<T>, f: F, r: Seq<T>) -> bool {
    is_perm(s, r) && s.len() == r.len() && exists|k: Seq<K>| #[trigger] keys_of(r, f, k) && sorted_keys(k)
}
pub trait VxSort<T> {
    spec fn sq(&self) -> Seq<T>;
    fn vx_sort_by_key<K: Ord, F: FnMut(&T) -> K>(&mut self, f: F)
        requires forall|i: int| 0 <= i < old(self).sq().len() ==> call_requires(f, (&(#[trigger] old(self).sq()[i]),)),
        ensures sorted_of(old(self).sq(), f, final(self).sq());
}
impl<T> VxSort<T> for Vec<T> {
    open spec fn sq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_sort_by_key<K: Ord, F: FnMut(&T) -> K>(&mut self, f: F) { unimplemented!() }
}

// ------------------------------------------------------------------ Option / Result adapters
pub trait VxOption<T>: Sized {
    spec fn opt(self) -> Option<T>;
    fn vx_ok_or_else<E, F: FnOnce() -> E>(self, f: F) -> (r: core::result::Result<T, E>)
        requires self.opt() is None ==> call_requires(f, ()),
        ensures match self.opt() { Some(x) => r == core::result::Result::<T, E>::Ok(x), None => r is Err };
    fn vx_ok_or<E>(self, e: E) -> (r: core::result::Result<T, E>) ensures r == (match self.opt() { Some(x) => core::result::Result::<T, E>::Ok(x), None => core::result::Result::<T, E>::Err(e) });
    fn vx_or_else<F: FnOnce() -> Option<T>>(self, f: F) -> (r: Option<T>)
        requires self.opt() is None ==> call_requires(f, ()),
        ensures match self.opt() { Some(x) => r == Some(x), None => call_ensures(f, (), r) };
    fn vx_unwrap_or(self, d: T) -> (r: T) ensures r == (match self.opt() { Some(x) => x, None => d });
    fn vx_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U)
        requires self.opt() is Some ==> call_requires(f, (self.opt()->Some_0,)),
        ensures match self.opt() { Some(x) => call_ensures(f, (x,), r), None => r == d };
}
impl<T> VxOption<T> for Option<T> {
    open spec fn opt(self) -> Option<T> { self }
    #[verifier::external_body] fn vx_ok_or_else<E, F: FnOnce() -> E>(self, f: F) -> (r: core::result::Result<T, E>) { unimplemented!() }
    #[verifier::external_body] fn vx_ok_or<E>(self, e: E) -> (r: core::result::Result<T, E>) { unimplemented!() }
    #[verifier::external_body] fn vx_or_else<F: FnOnce() -> Option<T>>(self, f: F) -> (r: Option<T>) { unimplemented!() }
    #[verifier::external_body] fn vx_unwrap_or(self, d: T) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn vx_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U) { unimplemented!() }
}

pub assume_specification<T, P: FnOnce(&T) -> bool> [core::option::Option::<T>::filter] (o: Option<T>, f: P) -> (r: Option<T>)
    requires o is Some ==> call_requires(f, (&o->Some_0,))
    ensures o is None ==> r is None, o is Some ==> call_ensures(f, (&o->Some_0,), r is Some) && (r is Some ==> r == o);
/// `Some` as a function value
pub fn vx_id<T>(x: T) -> (r: T) ensures r == x { x }
pub fn vx_some<T>(x: T) -> (r: Option<T>) ensures r == Some(x) { Some(x) }
pub trait VxOptRef<T>: Sized { spec fn oref(self) -> Option<T>; fn vx_cloned(self) -> (r: Option<T>) ensures r == self.oref(); fn vx_copied(self) -> (r: Option<T>) ensures r == self.oref(); }
impl<'a, T: Clone> VxOptRef<T> for Option<&'a T> { open spec fn oref(self) -> Option<T> { match self { Some(x) => Some(*x), None => None } }
    #[verifier::external_body] fn vx_cloned(self) -> (r: Option<T>) { unimplemented!() }
    #[verifier::external_body] fn vx_copied(self) -> (r: Option<T>) { unimplemented!() } }
pub trait VxResult<T, E>: Sized { spec fn res(self) -> core::result::Result<T, E>;
    fn vx_and_then<U, F: FnOnce(T) -> core::result::Result<U, E>>(self, f: F) -> (r: core::result::Result<U, E>)
        requires self.res() is Ok ==> call_requires(f, (self.res()->Ok_0,)),
        ensures match self.res() { Ok(x) => call_ensures(f, (x,), r), Err(e) => r == core::result::Result::<U, E>::Err(e) };
}
impl<T, E> VxResult<T, E> for core::result::Result<T, E> { open spec fn res(self) -> core::result::Result<T, E> { self }
    #[verifier::external_body] fn vx_and_then<U, F: FnOnce(T) -> core::result::Result<U, E>>(self, f: F) -> (r: core::result::Result<U, E>) { unimplemented!() } }
/// `failure::ResultExt::with_context`: the message is dropped, the root cause stays
pub trait VxContext<T>: Sized { spec fn okv(self) -> Option<T>; spec fn causes(self, e: VxError) -> bool; fn vx_context(self) -> (r: Result<T>) ensures (match r { Ok(x) => Some(x), Err(_) => None }) == self.okv(), r is Err ==> self.causes(r->Err_0); }
impl<T> VxContext<T> for Result<T> { open spec fn okv(self) -> Option<T> { match self { Ok(x) => Some(x), Err(_) => None } } open spec fn causes(self, e: VxError) -> bool { match self { Ok(_) => true, Err(x) => root(x) == root(e) } }
    #[verifier::external_body] fn vx_context(self) -> (r: Result<T>) { unimplemented!() } }

// ------------------------------------------------------------------ maps and vectors
pub trait VxGet<Q: ?Sized> { type Val; spec fn getv(&self, k: &Q) -> Option<Self::Val>; fn vx_get(&self, k: &Q) -> (r: Option<&Self::Val>) ensures (match r { Some(x) => Some(*x), None => None }) == self.getv(k); }
/// `map[key]`
pub trait VxIndex<Q: ?Sized>: VxGet<Q> { fn vx_index(&self, k: &Q) -> (r: &Self::Val) requires self.getv(k) is Some ensures *r == self.getv(k)->Some_0; }
impl<Q: ?Sized, T: VxGet<Q>> VxIndex<Q> for T { #[verifier::external_body] fn vx_index(&self, k: &Q) -> (r: &Self::Val) { unimplemented!() } }
pub open spec fn map_get<K, V>(m: Map<K, V>, k: K) -> Option<V> { if m.contains_key(k) { Some(m[k]) } else { None } }
impl<V> VxGet<str> for HashMap<String, V> {
    type Val = V;
    open spec fn getv(&self, k: &str) -> Option<V> { map_get(self@, mk_string(k@)) }
    #[verifier::external_body] fn vx_get(&self, k: &str) -> (r: Option<&V>) { unimplemented!() }
}
impl<K, V> VxGet<K> for HashMap<K, V> {
    type Val = V;
    open spec fn getv(&self, k: &K) -> Option<V> { map_get(self@, *k) }
    #[verifier::external_body] fn vx_get(&self, k: &K) -> (r: Option<&V>) { unimplemented!() }
}
pub trait VxMap<K, V> { spec fn mp(&self) -> Map<K, V>;
    fn vx_insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self).mp() == old(self).mp().insert(k, v); }
impl<K, V> VxMap<K, V> for HashMap<K, V> { open spec fn mp(&self) -> Map<K, V> { self@ }
    #[verifier::external_body] fn vx_insert(&mut self, k: K, v: V) -> (r: Option<V>) { unimplemented!() } }
/// `entry(k).and_modify(f)`, then `or_insert_with(g)`
#[verifier::external_body]
pub fn vx_and_modify<K, V, F: FnOnce(&mut V)>(m: &mut HashMap<K, V>, k: &K, f: F)
    requires old(m)@.contains_key(*k) ==> forall|v: &mut V| *v == old(m)@[*k] ==> call_requires(f, (v,)),
    ensures old(m)@.contains_key(*k) ==> exists|v: &mut V| #[trigger] call_ensures(f, (v,), ()) && *v == old(m)@[*k] && final(m)@ == old(m)@.insert(*k, *final(v)),
        !old(m)@.contains_key(*k) ==> final(m)@ == old(m)@,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_or_insert_with<K, V, G: FnOnce() -> V>(m: &mut HashMap<K, V>, k: K, g: G)
    requires !old(m)@.contains_key(k) ==> call_requires(g, ()),
    ensures old(m)@.contains_key(k) ==> final(m)@ == old(m)@,
        !old(m)@.contains_key(k) ==> exists|v: V| #[trigger] call_ensures(g, (), v) && final(m)@ == old(m)@.insert(k, v),
{ unimplemented!() }
/// `entry(k).or_insert_with(g)`
#[verifier::external_body]
pub fn vx_entry_or_insert_with<K, V, G: FnOnce() -> V>(m: &mut HashMap<K, V>, k: K, g: G) -> (r: &mut V)
    requires !old(m)@.contains_key(k) ==> call_requires(g, ()),
    ensures old(m)@.contains_key(k) ==> *r == old(m)@[k], !old(m)@.contains_key(k) ==> call_ensures(g, (), *r),
        final(m)@ == old(m)@.insert(k, *final(r)),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_hashmap_cap<K, V>(n: usize) -> (r: HashMap<K, V>) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
pub trait VxEmpty { spec fn is_mt(&self) -> bool; fn vx_is_empty(&self) -> (r: bool) ensures r == self.is_mt(); }
impl<K, V> VxEmpty for HashMap<K, V> { open spec fn is_mt(&self) -> bool { self@.dom() == Set::<K>::empty() } #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { unimplemented!() } }
impl VxEmpty for str { open spec fn is_mt(&self) -> bool { self@.len() == 0 } #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { unimplemented!() } }
impl VxEmpty for String { open spec fn is_mt(&self) -> bool { self@.len() == 0 } #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { unimplemented!() } }
/// the entries of a map in some order
pub open spec fn lists_map<K, V>(s: Seq<(K, V)>, m: Map<K, V>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
}
/// the entries of a map by reference, in some order
pub open spec fn lists_map_refs<K, V>(s: Seq<(&K, &V)>, m: Map<K, V>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> *(#[trigger] s[i]).0 != *(#[trigger] s[j]).0
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key(*(#[trigger] s[i]).0) && m[*s[i].0] == *s[i].1
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k
}
pub trait VxMapIter<K, V> { spec fn mpi(&self) -> Map<K, V>; fn vx_iter<'a>(&'a self) -> (r: It<(&'a K, &'a V)>) ensures lists_map_refs(r@, self.mpi()); }
impl<K, V> VxMapIter<K, V> for HashMap<K, V> { open spec fn mpi(&self) -> Map<K, V> { self@ } #[verifier::external_body] fn vx_iter<'a>(&'a self) -> (r: It<(&'a K, &'a V)>) { unimplemented!() } }
/// the entries of a map in the order of its iterator
pub uninterp spec fn map_order<K, V>(m: HashMap<K, V>) -> Seq<(K, V)>;
pub broadcast axiom fn ax_map_order<K, V>(m: HashMap<K, V>) ensures lists_map(#[trigger] map_order::<K, V>(m), m@);
impl<K, V> VxIntoIter<(K, V)> for HashMap<K, V> { open spec fn into_elems(self) -> Seq<(K, V)> { map_order(self) } #[verifier::external_body] fn vx_into_iter(self) -> (r: It<(K, V)>) { unimplemented!() } }
pub trait VxLast<T> { spec fn lst(&self) -> Seq<T>;
    fn vx_last(&self) -> (r: Option<&T>) ensures self.lst().len() == 0 ==> r is None, self.lst().len() > 0 ==> r is Some && *r.unwrap() == self.lst().last();
    fn vx_first(&self) -> (r: Option<&T>) ensures self.lst().len() == 0 ==> r is None, self.lst().len() > 0 ==> r is Some && *r.unwrap() == self.lst()[0];
}
impl<T> VxLast<T> for [T] { open spec fn lst(&self) -> Seq<T> { self@ }
  #[verifier::external_body] fn vx_last(&self) -> (r: Option<&T>) { unimplemented!() }
  #[verifier::external_body] fn vx_first(&self) -> (r: Option<&T>) { unimplemented!() } }
impl<T> VxLast<T> for Vec<T> { open spec fn lst(&self) -> Seq<T> { self@ }
  #[verifier::external_body] fn vx_last(&self) -> (r: Option<&T>) { unimplemented!() }
  #[verifier::external_body] fn vx_first(&self) -> (r: Option<&T>) { unimplemented!() } }
pub trait VxExtend<T, I>: Sized { spec fn ext_is(self, i: I, r: Self) -> bool; fn vx_extend(&mut self, i: I) ensures old(self).ext_is(i, *final(self)); }
impl<T> VxExtend<T, It<T>> for Vec<T> { open spec fn ext_is(self, i: It<T>, r: Vec<T>) -> bool { r@ == self@ + i@ } #[verifier::external_body] fn vx_extend(&mut self, i: It<T>) { unimplemented!() } }
impl<T> VxExtend<T, Vec<T>> for Vec<T> { open spec fn ext_is(self, i: Vec<T>, r: Vec<T>) -> bool { r@ == self@ + i@ } #[verifier::external_body] fn vx_extend(&mut self, i: Vec<T>) { unimplemented!() } }
/// `Itertools::join` / `[_]::join` of strings
pub open spec fn join_seq(s: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else if s.len() == 1 { s[0] } else { join_seq(s.drop_last(), sep) + sep + s.last() } }
pub open spec fn views(s: Seq<String>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
pub proof fn lemma_views_are(g: Seq<Seq<char>>)
    ensures forall|v: Seq<String>| v.len() == g.len() && (forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == g[i]) ==> #[trigger] views(v) == g
{
    assert forall|v: Seq<String>| v.len() == g.len() && (forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == g[i]) implies #[trigger] views(v) == g by { assert(views(v) =~= g); }
}
pub proof fn lemma_join_push(s: Seq<Seq<char>>, x: Seq<char>)
    ensures join_seq(s.push(x), Seq::empty()) == join_seq(s, Seq::empty()) + x
{ assert(s.push(x).drop_last() =~= s); assert(join_seq(s.push(x), Seq::empty()) =~= join_seq(s, Seq::empty()) + x); }
pub open spec fn str_views(s: Seq<&str>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
pub trait VxJoin { spec fn pieces(&self) -> Seq<Seq<char>>; fn vx_join(self, sep: &str) -> (r: String) where Self: Sized ensures r@ == join_seq(self.pieces(), sep@); }
impl VxJoin for It<String> { open spec fn pieces(&self) -> Seq<Seq<char>> { views(self@) } #[verifier::external_body] fn vx_join(self, sep: &str) -> (r: String) { unimplemented!() } }
impl<'a> VxJoin for It<&'a str> { open spec fn pieces(&self) -> Seq<Seq<char>> { str_views(self@) } #[verifier::external_body] fn vx_join(self, sep: &str) -> (r: String) { unimplemented!() } }
impl<'a> VxJoin for &Vec<String> { open spec fn pieces(&self) -> Seq<Seq<char>> { views(self@) } #[verifier::external_body] fn vx_join(self, sep: &str) -> (r: String) { unimplemented!() } }
pub trait VxToVec<T> { spec fn tv(&self) -> Seq<T>; fn vx_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.tv(); }
impl<T: Clone> VxToVec<T> for [T] { open spec fn tv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<T>) { unimplemented!() } }
/// the keys / elements of a map or set, in some order
pub open spec fn lists<T>(s: Seq<T>, m: Set<T>) -> bool { s.no_duplicates() && s.to_set() == m }
pub trait VxKeys<K> { spec fn kset(&self) -> Set<K>; fn vx_keys<'a>(&'a self) -> (r: It<&'a K>) ensures lists(unrefs(r@), self.kset()); }
impl<K, V> VxKeys<K> for HashMap<K, V> { open spec fn kset(&self) -> Set<K> { self@.dom() } #[verifier::external_body] fn vx_keys<'a>(&'a self) -> (r: It<&'a K>) { unimplemented!() } }
pub trait VxSetIter<K> { spec fn sset(&self) -> Set<K>; fn vx_iter<'a>(&'a self) -> (r: It<&'a K>) ensures lists(unrefs(r@), self.sset()); }
impl<K> VxSetIter<K> for HashSet<K> { open spec fn sset(&self) -> Set<K> { self@ } #[verifier::external_body] fn vx_iter<'a>(&'a self) -> (r: It<&'a K>) { unimplemented!() } }
pub open spec fn in_set(s: Set<&str>, n: Seq<char>) -> bool { exists|x: &str| #[trigger] s.contains(x) && x@ == n }
impl<'a, 'b> VxContains<&'b str> for HashSet<&'a str> { open spec fn has(&self, q: &&'b str) -> bool { in_set(self@, q@) }
  #[verifier::external_body] fn vx_contains(&self, q: &&'b str) -> (r: bool) { unimplemented!() } }
impl VxContains<i32> for HashSet<i32> { open spec fn has(&self, q: &i32) -> bool { self@.contains(*q) }
  #[verifier::external_body] fn vx_contains(&self, q: &i32) -> (r: bool) { unimplemented!() } }
pub trait VxContains<Q: ?Sized> { spec fn has(&self, q: &Q) -> bool; fn vx_contains(&self, q: &Q) -> (r: bool) ensures r == self.has(q); }
pub open spec fn has_str(s: Seq<&str>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == n }
pub open spec fn has_string(s: Seq<String>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == n }
impl VxContains<String> for HashSet<String> { open spec fn has(&self, q: &String) -> bool { self@.contains(*q) }
    #[verifier::external_body] fn vx_contains(&self, q: &String) -> (r: bool) { unimplemented!() } }
impl VxContains<str> for HashSet<String> { open spec fn has(&self, q: &str) -> bool { self@.contains(mk_string(q@)) }
  #[verifier::external_body] fn vx_contains(&self, q: &str) -> (r: bool) { unimplemented!() } }
impl VxContains<String> for Vec<String> { open spec fn has(&self, q: &String) -> bool { has_string(self@, q@) }
  #[verifier::external_body] fn vx_contains(&self, q: &String) -> (r: bool) { unimplemented!() } }
impl<'a> VxContains<str> for HashSet<&'a str> { open spec fn has(&self, q: &str) -> bool { in_set(self@, q@) }
  #[verifier::external_body] fn vx_contains(&self, q: &str) -> (r: bool) { unimplemented!() } }
impl<'a, 'b> VxContains<&'b str> for [&'a str] { open spec fn has(&self, q: &&'b str) -> bool { has_str(self@, q@) }
  #[verifier::external_body] fn vx_contains(&self, q: &&'b str) -> (r: bool) { unimplemented!() } }
impl<'a, 'b> VxContains<&'b str> for Vec<&'a str> { open spec fn has(&self, q: &&'b str) -> bool { has_str(self@, q@) }
  #[verifier::external_body] fn vx_contains(&self, q: &&'b str) -> (r: bool) { unimplemented!() } }
impl<'a, 'b, 'c> VxContains<&'c &'b str> for Vec<&'a str> { open spec fn has(&self, q: &&'c &'b str) -> bool { has_str(self@, q@) }
  #[verifier::external_body] fn vx_contains(&self, q: &&'c &'b str) -> (r: bool) { unimplemented!() } }

/// the map built from key-value pairs: the last value of a key stays
pub open spec fn pairs_map<K, V>(s: Seq<(K, V)>) -> Map<K, V>
    decreases s.len()
{ if s.len() == 0 { Map::empty() } else { pairs_map(s.drop_last()).insert(s.last().0, s.last().1) } }
impl<K, V> FromIt<(K, V)> for HashMap<K, V> { open spec fn from_it(s: Seq<(K, V)>, r: HashMap<K, V>) -> bool { r@ == pairs_map(s) } }
pub open spec fn all_ok<T, E>(s: Seq<core::result::Result<T, E>>, v: Seq<T>) -> bool { v.len() == s.len() && forall|i: int| #![trigger s[i]] #![trigger v[i]] 0 <= i < s.len() ==> s[i] == core::result::Result::<T, E>::Ok(v[i]) }
impl<K, V, E> FromIt<core::result::Result<(K, V), E>> for core::result::Result<HashMap<K, V>, E> {
    open spec fn from_it(s: Seq<core::result::Result<(K, V), E>>, r: core::result::Result<HashMap<K, V>, E>) -> bool {
        match r { Ok(m) => exists|v: Seq<(K, V)>| #[trigger] all_ok(s, v) && m@ == pairs_map(v), Err(_) => exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Err }
    }
}
/// distinct keys: the map holds every pair
pub proof fn lemma_pairs_map<K, V>(s: Seq<(K, V)>)
    requires forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    ensures forall|i: int| 0 <= i < s.len() ==> pairs_map(s).contains_key((#[trigger] s[i]).0) && pairs_map(s)[s[i].0] == s[i].1, forall|k: K| #[trigger] pairs_map(s).contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
    decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < p.len() implies (#[trigger] p[i]).0 != (#[trigger] p[j]).0 by { assert(p[i] == s[i] && p[j] == s[j]); }
        lemma_pairs_map(p);
        assert forall|i: int| 0 <= i < s.len() implies pairs_map(s).contains_key((#[trigger] s[i]).0) && pairs_map(s)[s[i].0] == s[i].1 by { if i < p.len() { assert(p[i] == s[i]); assert(s[i].0 != s[s.len() - 1].0); } }
        assert forall|k: K| #[trigger] pairs_map(s).contains_key(k) implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k by {
            if k == s.last().0 { assert(s[s.len() - 1].0 == k); } else { assert(pairs_map(p).contains_key(k)); let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0 == k; assert(s[i].0 == k); }
        }
    }
}
impl<T> VxIntoIter<T> for Option<T> {
    open spec fn into_elems(self) -> Seq<T> { match self { Some(x) => seq![x], None => Seq::empty() } }
    #[verifier::external_body] fn vx_into_iter(self) -> It<T> { unimplemented!() }
}
pub trait VxDifference<K> { spec fn dset(&self) -> Set<K>; fn vx_difference<'a>(&'a self, o: &HashSet<K>) -> (r: It<&'a K>) ensures lists(unrefs(r@), self.dset().difference(o@)); }
impl<K> VxDifference<K> for HashSet<K> { open spec fn dset(&self) -> Set<K> { self@ } #[verifier::external_body] fn vx_difference<'a>(&'a self, o: &HashSet<K>) -> (r: It<&'a K>) { unimplemented!() } }
pub trait VxHasKey<Q: ?Sized> { spec fn has_key(&self, q: &Q) -> bool; fn vx_contains_key(&self, q: &Q) -> (r: bool) ensures r == self.has_key(q); }
impl<V> VxHasKey<str> for HashMap<String, V> { open spec fn has_key(&self, q: &str) -> bool { self@.contains_key(mk_string(q@)) } #[verifier::external_body] fn vx_contains_key(&self, q: &str) -> (r: bool) { unimplemented!() } }
impl VxInto<VxError> for VxError { open spec fn into_is(self, r: VxError) -> bool { true } #[verifier::external_body] fn vx_into(self) -> (r: VxError) { unimplemented!() } }

// ------------------------------------------------------------------ comparison of strings
/// `str::lt`: lexicographic on code points (the order of the bytes in UTF-8)
pub open spec fn before(a: Seq<char>, b: Seq<char>) -> bool
    decreases a.len()
{ b.len() > 0 && (a.len() == 0 || (a[0] as u32) < (b[0] as u32) || (a[0] == b[0] && before(a.skip(1), b.skip(1)))) }
pub trait VxLt<R: ?Sized> { spec fn lts(&self, o: &R) -> bool; fn vx_lt_(&self, o: &R) -> (r: bool) ensures r == self.lts(o); }
pub fn vx_lt<A: VxLt<B> + ?Sized, B: ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == a.lts(b) { a.vx_lt_(b) }
impl VxLt<String> for String { open spec fn lts(&self, o: &String) -> bool { before(self@, o@) } #[verifier::external_body] fn vx_lt_(&self, o: &String) -> (r: bool) { unimplemented!() } }
impl VxLt<str> for str { open spec fn lts(&self, o: &str) -> bool { before(self@, o@) } #[verifier::external_body] fn vx_lt_(&self, o: &str) -> (r: bool) { unimplemented!() } }
impl VxLt<usize> for usize { open spec fn lts(&self, o: &usize) -> bool { *self < *o } fn vx_lt_(&self, o: &usize) -> (r: bool) { *self < *o } }
impl<'a, 'b, A: VxLt<B> + ?Sized, B: ?Sized> VxLt<&'b B> for &'a A {
    open spec fn lts(&self, o: &&'b B) -> bool { (**self).lts(*o) }
    #[verifier::external_body] fn vx_lt_(&self, o: &&'b B) -> (r: bool) { unimplemented!() }
}
/// the order in which a set is iterated over
pub uninterp spec fn set_order<T>(s: HashSet<T>) -> Seq<T>;
pub broadcast axiom fn ax_set_order<T: VxPlainEq>(s: HashSet<T>) ensures lists(#[trigger] set_order::<T>(s), s@);
pub broadcast proof fn lemma_set_order<T: VxPlainEq>(s: HashSet<T>, x: T) ensures #[trigger] set_order(s).contains(x) == s@.contains(x) { ax_set_order(s); assert(set_order(s).to_set().contains(x) == set_order(s).contains(x)); }
pub broadcast axiom fn ax_hashmap_size<K: VxPlainEq, V>(m: HashMap<K, V>)
    ensures #[trigger] vstd::std_specs::hash::spec_hash_map_len(&m) == m@.len();
impl VxPlainEq for usize { }
impl<T: VxPlainEq> VxIntoIter<T> for HashSet<T> { open spec fn into_elems(self) -> Seq<T> { set_order(self) } #[verifier::external_body] fn vx_into_iter(self) -> It<T> { unimplemented!() } }
impl<'a, T, const N: usize> VxIter<&'a T> for &'a [T; N] {
    open spec fn elems(self) -> Seq<&'a T> { refs(self@) }
    #[verifier::external_body] fn vx_iter(self) -> It<&'a T> { unimplemented!() }
}
pub trait VxSetInsert<K> { spec fn sset_(&self) -> Set<K>; fn vx_insert(&mut self, k: K) -> (r: bool) ensures final(self).sset_() == old(self).sset_().insert(k); }
impl<K> VxSetInsert<K> for HashSet<K> { open spec fn sset_(&self) -> Set<K> { self@ } #[verifier::external_body] fn vx_insert(&mut self, k: K) -> (r: bool) { unimplemented!() } }
/// the values of a map, in some order
pub open spec fn lists_values<K, V>(s: Seq<&V>, m: Map<K, V>) -> bool {
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]) == m[k]
    &&& forall|i: int| 0 <= i < s.len() ==> exists|k: K| #[trigger] m.contains_key(k) && m[k] == *(#[trigger] s[i])
}
pub trait VxValues<K, V> { spec fn mpv(&self) -> Map<K, V>; fn vx_values<'a>(&'a self) -> (r: It<&'a V>) ensures lists_values(r@, self.mpv()); }
impl<K, V> VxValues<K, V> for HashMap<K, V> { open spec fn mpv(&self) -> Map<K, V> { self@ } #[verifier::external_body] fn vx_values<'a>(&'a self) -> (r: It<&'a V>) { unimplemented!() } }
impl<'a> It<&'a usize> {
    #[verifier::external_body]
    pub fn vx_max(self) -> (r: Option<&'a usize>) ensures (r is None) == (self@.len() == 0), r is Some ==> self@.contains(r->Some_0) && forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] self@[i]) <= *r->Some_0 { unimplemented!() }
}
pub open spec fn fold_steps<T, A, F: Fn(A, T) -> A>(s: Seq<T>, init: A, f: F, a: Seq<A>) -> bool {
    a.len() == s.len() + 1 && a[0] == init && forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> call_ensures(f, (a[i], s[i]), a[i + 1])
}
impl<T> It<T> {
    #[verifier::external_body]
    pub fn fold<A, F: Fn(A, T) -> A>(self, init: A, f: F) -> (r: A)
        requires forall|a: A, i: int| 0 <= i < self@.len() ==> #[trigger] call_requires(f, (a, self@[i])),
        ensures exists|a: Seq<A>| #[trigger] fold_steps(self@, init, f, a) && r == a.last()
    { unimplemented!() }
    /// `Itertools::sorted`
    #[verifier::external_body]
    pub fn vx_sorted(self) -> (r: It<T>) where T: Ord ensures is_perm(self@, r@), r@.len() == self@.len() { unimplemented!() }
}

pub broadcast group base_axioms { ax_string_ext, ax_str_ext, ax_vec_ext, ax_string_mk, ax_vec_len, ax_slice_len, ax_str_len, ax_string_len, ax_hashmap_len, ax_ord_i32, ax_ord_usize, ax_ord_isize, lemma_refs, ax_set_order, ax_map_order, ax_hashmap_size, lemma_set_order }
} // verus!
} // mod base
