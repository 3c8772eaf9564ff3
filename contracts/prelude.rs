use vstd::prelude::*;
verus! {

/// Trusted stubs for the parts of `std` the crate uses and for the shapes Verus cannot express.
/// Every `external_body` item in this module is an assumption (see DESIGN.md).
pub mod vf {
use vstd::prelude::*;
use crate::token::Token;
use crate::parse::SourcePos;
use crate::parse::iter::{TokenOrPos, RewindableTokenIterator};

pub mod void {
    #[verifier::external_body]
    pub struct Void { v: u8 }
}
pub mod iter {
    pub use super::{Fuse, Peekable, Empty, Once, once, empty, FromIterator};
}

// ------------------------------------------------------------------ assertions and panics
#[verifier::external_body]
pub fn vf_unreachable() -> !
    requires false,
{ panic!() }

pub fn vf_assert(b: bool)
    requires b,
{ }

pub fn vf_assert_eq<T>(a: &T, b: &T)
    requires *a == *b,
{ }

pub fn vf_assert_ne<T>(a: &T, b: &T)
    requires *a != *b,
{ }

/// `a &= b` on booleans
pub fn vf_and(a: bool, b: bool) -> (r: bool)
    ensures r == (a && b),
{ a && b }

#[verifier::external_body]
pub fn vf_vec<T, const N: usize>(a: [T; N]) -> (r: Vec<T>)
    ensures r@ == a@,
{ unimplemented!() }

// ------------------------------------------------------------------ conversions done by `?`
pub trait VxFrom<E>: Sized {
    spec fn from_spec(e: E) -> Self;
    fn conv(e: E) -> (r: Self)
        ensures r == Self::from_spec(e);
}
impl<T> VxFrom<T> for T {
    open spec fn from_spec(e: T) -> T { e }
    fn conv(e: T) -> (r: T) { e }
}
pub fn vx_from<E, T: VxFrom<E>>(e: E) -> (r: T)
    ensures r == T::from_spec(e),
{ T::conv(e) }

// ------------------------------------------------------------------ strings
pub uninterp spec fn mk_string(s: Seq<char>) -> String;
pub broadcast axiom fn axiom_mk_string(s: Seq<char>)
    ensures #[trigger] mk_string(s)@ == s;
pub broadcast axiom fn axiom_string_ext(s: String)
    ensures mk_string(#[trigger] s@) == s;

/// A `&str` is its characters; comparing one with a `String` compares the characters.
pub uninterp spec fn mk_str<'a>(s: Seq<char>) -> &'a str;
pub broadcast axiom fn axiom_str_ext<'a>(s: &'a str)
    ensures mk_str(#[trigger] s@) == s;
pub broadcast axiom fn axiom_str_string_eq<'a>()
    ensures #[trigger] <&'a str as vstd::std_specs::cmp::PartialEqSpec<String>>::obeys_eq_spec();
pub broadcast axiom fn axiom_str_string_eq2<'a>(a: &'a str, b: String)
    ensures #[trigger] <&'a str as vstd::std_specs::cmp::PartialEqSpec<String>>::eq_spec(&a, &b) == (a@ == b@);
pub broadcast axiom fn axiom_string_str_eq<'a>()
    ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<&'a str>>::obeys_eq_spec();
pub broadcast axiom fn axiom_string_str_eq2<'a>(a: String, b: &'a str)
    ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<&'a str>>::eq_spec(&a, &b) == (a@ == b@);

pub broadcast group group_vf {
    axiom_str_ext,
    axiom_str_string_eq,
    axiom_str_string_eq2,
    axiom_string_str_eq,
    axiom_string_str_eq2,
    axiom_mk_string,
    axiom_string_ext,
    axiom_vec_ext,
    axiom_is_whitespace,
    axiom_is_alphabetic,
    axiom_is_numeric,
}
/// A vector is its elements.
pub uninterp spec fn mk_vec<T>(s: Seq<T>) -> Vec<T>;
pub broadcast axiom fn axiom_vec_ext<T>(v: Vec<T>)
    ensures mk_vec(#[trigger] v@) == v;
/// Vectors of non zero sized elements hold at most `isize::MAX` elements.
pub axiom fn axiom_vec_len<T>(v: Vec<T>)
    ensures v@.len() < isize::MAX;
/// There is a vector of any elements, provided that there is room for them (`mk_vec` of more is taken to be the empty one).
pub axiom fn axiom_mk_vec<T>(s: Seq<T>)
    ensures mk_vec(s)@ == if s.len() < isize::MAX { s } else { Seq::empty() };

/// Number of bytes of the UTF-8 encoding of `c` / `s`.
pub open spec fn clen(c: char) -> nat {
    let n = c as u32;
    if n < 0x80 { 1 } else if n < 0x800 { 2 } else if n < 0x10000 { 3 } else { 4 }
}
pub open spec fn blen(s: Seq<char>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { clen(s[0]) + blen(s.drop_first()) }
}
pub proof fn lemma_blen_add(a: Seq<char>, b: Seq<char>)
    ensures blen(a + b) == blen(a) + blen(b),
    decreases a.len(),
{
    if a.len() == 0 {
        assert(a + b =~= b);
    } else {
        assert((a + b).drop_first() =~= a.drop_first() + b);
        lemma_blen_add(a.drop_first(), b);
    }
}
pub proof fn lemma_blen_pos(a: Seq<char>)
    ensures a.len() <= blen(a), (blen(a) == 0 <==> a.len() == 0),
    decreases a.len(),
{
    if a.len() > 0 { lemma_blen_pos(a.drop_first()); }
}
pub open spec fn count_nl(s: Seq<char>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { (if s[0] == '\n' { 1nat } else { 0nat }) + count_nl(s.drop_first()) }
}

pub trait VxLen {
    spec fn len_spec(&self) -> nat;
    fn vx_len(&self) -> (r: usize)
        ensures r as nat == self.len_spec();
}
impl VxLen for str {
    open spec fn len_spec(&self) -> nat { blen(self@) }
    #[verifier::external_body]
    fn vx_len(&self) -> (r: usize) { self.len() }
}
impl VxLen for String {
    open spec fn len_spec(&self) -> nat { blen(self@) }
    #[verifier::external_body]
    fn vx_len(&self) -> (r: usize) { self.len() }
}
impl<T> VxLen for Vec<T> {
    open spec fn len_spec(&self) -> nat { self@.len() }
    #[verifier::external_body]
    fn vx_len(&self) -> (r: usize) { self.len() }
}
impl<T> VxLen for [T] {
    open spec fn len_spec(&self) -> nat { self@.len() }
    #[verifier::external_body]
    fn vx_len(&self) -> (r: usize) { self.len() }
}

// ------------------------------------------------------------------ characters
pub trait VxChar: Sized {
    spec fn chs(self) -> char;
    fn ch(self) -> (r: char) ensures r == self.chs();
}
impl VxChar for char {
    open spec fn chs(self) -> char { self }
    fn ch(self) -> (r: char) { self }
}
impl<'a> VxChar for &'a char {
    open spec fn chs(self) -> char { *self }
    fn ch(self) -> (r: char) { *self }
}
pub uninterp spec fn is_whitespace(c: char) -> bool;
pub uninterp spec fn is_alphabetic(c: char) -> bool;
pub uninterp spec fn is_numeric(c: char) -> bool;
pub open spec fn is_digit10(c: char) -> bool { '0' <= c && c <= '9' }
/// ASCII members of the two Unicode classes (facts about `std`).
pub broadcast axiom fn axiom_is_whitespace(c: char)
    ensures (c as u32) < 128 ==> #[trigger] is_whitespace(c) ==
        (c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\u{b}' || c == '\u{c}');
pub broadcast axiom fn axiom_is_alphabetic(c: char)
    ensures (c as u32) < 128 ==> #[trigger] is_alphabetic(c) ==
        (('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z')),
        is_alphabetic(c) ==> !is_whitespace(c);
pub broadcast axiom fn axiom_is_numeric(c: char)
    ensures (c as u32) < 128 ==> #[trigger] is_numeric(c) == is_digit10(c);
pub open spec fn is_upper_ascii(c: char) -> bool { 'A' <= c && c <= 'Z' }
pub open spec fn is_lower_ascii(c: char) -> bool { 'a' <= c && c <= 'z' }

#[verifier::external_body]
pub fn char_is_whitespace(c: char) -> (r: bool)
    ensures r == is_whitespace(c),
{ c.is_whitespace() }
#[verifier::external_body]
pub fn char_is_alphabetic(c: char) -> (r: bool)
    ensures r == is_alphabetic(c),
{ c.is_alphabetic() }
#[verifier::external_body]
pub fn char_is_digit(c: char, radix: u32) -> (r: bool)
    ensures radix == 10 ==> r == is_digit10(c),
{ c.is_digit(radix) }

#[verifier::external_body]
pub fn char_is_numeric(c: char) -> (r: bool)
    ensures r == is_numeric(c),
{ c.is_numeric() }
pub fn char_is_alphanumeric(c: char) -> (r: bool)
    ensures r == (is_alphabetic(c) || is_numeric(c)),
{ char_is_alphabetic(c) || char_is_numeric(c) }
pub fn char_is_ascii_digit(c: char) -> (r: bool)
    ensures r == is_digit10(c),
{ '0' <= c && c <= '9' }
pub fn char_is_ascii(c: char) -> (r: bool)
    ensures r == ((c as u32) < 128),
{ (c as u32) < 128 }
pub fn char_is_ascii_uppercase(c: char) -> (r: bool)
    ensures r == is_upper_ascii(c),
{ 'A' <= c && c <= 'Z' }
pub fn char_is_ascii_lowercase(c: char) -> (r: bool)
    ensures r == is_lower_ascii(c),
{ 'a' <= c && c <= 'z' }
pub fn char_is_ascii_alphabetic(c: char) -> (r: bool)
    ensures r == (is_upper_ascii(c) || is_lower_ascii(c)),
{ ('A' <= c && c <= 'Z') || ('a' <= c && c <= 'z') }
pub fn char_is_ascii_alphanumeric(c: char) -> (r: bool)
    ensures r == (is_upper_ascii(c) || is_lower_ascii(c) || is_digit10(c)),
{ ('A' <= c && c <= 'Z') || ('a' <= c && c <= 'z') || ('0' <= c && c <= '9') }
pub fn char_is_ascii_whitespace(c: char) -> (r: bool)
    ensures r == (c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\u{c}'),
{ c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\u{c}' }
pub fn char_is_ascii_hexdigit(c: char) -> (r: bool)
    ensures r == (is_digit10(c) || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F')),
{ ('0' <= c && c <= '9') || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F') }
pub fn char_is_ascii_control(c: char) -> (r: bool)
    ensures r == ((c as u32) < 32 || (c as u32) == 127),
{ (c as u32) < 32 || (c as u32) == 127 }
pub fn char_is_control(c: char) -> (r: bool)
    ensures r == ((c as u32) < 32 || (127 <= (c as u32) && (c as u32) < 160)),
{ (c as u32) < 32 || (127 <= (c as u32) && (c as u32) < 160) }
pub fn char_is_ascii_punctuation(c: char) -> (r: bool)
    ensures r == ((33 <= (c as u32) && (c as u32) < 127) && !(is_upper_ascii(c) || is_lower_ascii(c) || is_digit10(c))),
{ 33 <= (c as u32) && (c as u32) < 127 && !char_is_ascii_alphanumeric(c) }
pub fn char_is_ascii_graphic(c: char) -> (r: bool)
    ensures r == (33 <= (c as u32) && (c as u32) < 127),
{ 33 <= (c as u32) && (c as u32) < 127 }
pub fn char_to_digit(c: char, radix: u32) -> (r: Option<u32>)
    requires radix == 10,
    ensures r == (if is_digit10(c) { Some(((c as u32) - 48) as u32) } else { None::<u32> }),
{ if '0' <= c && c <= '9' { Some(c as u32 - 48) } else { None } }
pub fn char_len_utf8(c: char) -> (r: usize)
    ensures r == clen(c),
{ let n = c as u32; if n < 0x80 { 1 } else if n < 0x800 { 2 } else if n < 0x10000 { 3 } else { 4 } }

#[verifier::external_body]
pub struct VxChars<'a> { i: std::str::Chars<'a> }
impl<'a> VxChars<'a> {
    pub uninterp spec fn rest(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures step(old(self).rest(), final(self).rest(), r),
    { self.i.next() }
}
pub trait VxStr {
    spec fn sv(&self) -> Seq<char>;
}
impl VxStr for str { open spec fn sv(&self) -> Seq<char> { self@ } }
impl VxStr for String { open spec fn sv(&self) -> Seq<char> { self@ } }
impl<'b, T: VxStr + ?Sized> VxStr for &'b T { open spec fn sv(&self) -> Seq<char> { (**self).sv() } }
#[verifier::external_body]
pub fn vx_char_count<S: VxStr + ?Sized>(s: &S) -> (r: usize)
    ensures r == s.sv().len(),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_chars<'a, S: VxStr + ?Sized>(s: &'a S) -> (r: VxChars<'a>)
    ensures r.rest() == s.sv(),
{ unimplemented!() }

// ------------------------------------------------------------------ iterators
/// One step of an iterator whose remaining items go from `a` to `b`.
pub open spec fn step<T>(a: Seq<T>, b: Seq<T>, r: Option<T>) -> bool {
    if a.len() == 0 { r is None && b.len() == 0 } else { r == Some(a[0]) && b == a.drop_first() }
}
/// A size hint is sound for `n` remaining items.
pub open spec fn hint_ok(h: (usize, Option<usize>), n: nat) -> bool {
    h.0 <= n && (h.1 matches Some(hi) ==> n <= hi)
}

/// Stands for `std::iter::Iterator` on the caller supplied character/token source: an arbitrary
/// finite sequence (`raw_rest`: everything up to the first `None`).
pub trait RawIterator: Sized {
    type Item;
    spec fn raw_rest(&self) -> Seq<Self::Item>;
    /// Keeps returning `None` once it did.
    spec fn raw_fused(&self) -> bool;
    fn next(&mut self) -> (r: Option<Self::Item>)
        ensures
            (*old(self)).raw_rest().len() == 0 ==> r is None,
            (*old(self)).raw_rest().len() > 0 ==> r == Some((*old(self)).raw_rest()[0]) && (*final(self)).raw_rest() == (*old(self)).raw_rest().drop_first(),
            (*old(self)).raw_fused() ==> (*final(self)).raw_fused() && step((*old(self)).raw_rest(), (*final(self)).raw_rest(), r);
}
pub trait VxFuse: RawIterator {
    fn fuse(self) -> (r: Fuse<Self>)
        ensures r.rest() == self.raw_rest();
}
impl<I: RawIterator> VxFuse for I {
    #[verifier::external_body]
    fn fuse(self) -> (r: Fuse<Self>) { unimplemented!() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
pub struct Fuse<I> { i: I }
impl<I: RawIterator> Fuse<I> {
    pub uninterp spec fn rest(&self) -> Seq<I::Item>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<I::Item>)
        ensures step(old(self).rest(), final(self).rest(), r),
    { unimplemented!() }
    /// Assumption of C25: the source's own hint is sound.
    #[verifier::external_body]
    pub fn size_hint(&self) -> (r: (usize, Option<usize>))
        ensures hint_ok(r, self.rest().len()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn peekable(self) -> (r: Peekable<Fuse<I>>)
        ensures r.rest() == self.rest(),
    { unimplemented!() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
pub struct Peekable<I> { i: I }
impl<I: RawIterator> Peekable<Fuse<I>> {
    pub uninterp spec fn rest(&self) -> Seq<I::Item>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<I::Item>)
        ensures step(old(self).rest(), final(self).rest(), r),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<&I::Item>)
        ensures final(self).rest() == old(self).rest(),
            r matches Some(x) ==> old(self).rest().len() > 0 && *x == old(self).rest()[0],
            r is None ==> old(self).rest().len() == 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn size_hint(&self) -> (r: (usize, Option<usize>))
        ensures hint_ok(r, self.rest().len()),
    { unimplemented!() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Once<T> { t: Option<T> }
impl<T> RawIterator for Once<T> {
    type Item = T;
    uninterp spec fn raw_rest(&self) -> Seq<T>;
    open spec fn raw_fused(&self) -> bool { true }
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<T>) { unimplemented!() }
}
#[verifier::external_body]
pub fn once<T>(t: T) -> (r: Once<T>)
    ensures r.raw_rest() == seq![t],
{ unimplemented!() }

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Empty<T> { t: Option<T> }
impl<T> RawIterator for Empty<T> {
    type Item = T;
    uninterp spec fn raw_rest(&self) -> Seq<T>;
    open spec fn raw_fused(&self) -> bool { true }
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<T>) { unimplemented!() }
}
#[verifier::external_body]
pub fn empty<T>() -> (r: Empty<T>)
    ensures r.raw_rest() == Seq::<T>::empty(),
{ unimplemented!() }

/// `vec.into_iter()`
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VecIter<T> { t: Vec<T> }
impl<T> VecIter<T> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures step(old(self).rest(), final(self).rest(), r),
    { unimplemented!() }
}
impl<T> VecIter<T> {
    /// `chain` with a vector: an iterator over the concatenation.
    #[verifier::external_body]
    pub fn chain(self, o: Vec<T>) -> (r: VecIter<T>)
        ensures r.rest() == self.rest() + o@,
    { unimplemented!() }
}
impl<T> VxIntoIter for VecIter<T> {
    type It = VecIter<T>;
    open spec fn into_post(self, r: VecIter<T>) -> bool { r == self }
    fn vx_into_iter(self) -> (r: VecIter<T>) { self }
}
impl<T> RawIterator for VecIter<T> {
    type Item = T;
    open spec fn raw_rest(&self) -> Seq<T> { self.rest() }
    open spec fn raw_fused(&self) -> bool { true }
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<T>) { unimplemented!() }
}
/// `slice.iter()`
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct SliceIter<'a, T> { t: &'a [T] }
impl<'a, T> SliceIter<'a, T> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a T>)
        ensures
            old(self).rest().len() == 0 ==> r is None && final(self).rest().len() == 0,
            old(self).rest().len() > 0 ==> r is Some && *r->0 == old(self).rest()[0]
                && final(self).rest() == old(self).rest().drop_first(),
    { unimplemented!() }
}
pub trait VxIntoIter: Sized {
    type It;
    spec fn into_post(self, r: Self::It) -> bool;
    fn vx_into_iter(self) -> (r: Self::It)
        ensures self.into_post(r);
}
impl<T> VxIntoIter for Vec<T> {
    type It = VecIter<T>;
    open spec fn into_post(self, r: VecIter<T>) -> bool { r.rest() == self@ }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VecIter<T>) { unimplemented!() }
}
impl<'a, T> VxIntoIter for &'a Vec<T> {
    type It = SliceIter<'a, T>;
    open spec fn into_post(self, r: SliceIter<'a, T>) -> bool { r.rest() == self@ }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: SliceIter<'a, T>) { unimplemented!() }
}
impl<'a, T> VxIntoIter for &'a [T] {
    type It = SliceIter<'a, T>;
    open spec fn into_post(self, r: SliceIter<'a, T>) -> bool { r.rest() == self@ }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: SliceIter<'a, T>) { unimplemented!() }
}
pub trait VxIter<T> {
    spec fn iter_view(&self) -> Seq<T>;
    fn vx_iter<'a>(&'a self) -> (r: SliceIter<'a, T>)
        ensures r.rest() == self.iter_view();
}
impl<T> VxIter<T> for Vec<T> {
    open spec fn iter_view(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_iter<'a>(&'a self) -> (r: SliceIter<'a, T>) { unimplemented!() }
}
impl<T> VxIter<T> for [T] {
    open spec fn iter_view(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_iter<'a>(&'a self) -> (r: SliceIter<'a, T>) { unimplemented!() }
}

// ------------------------------------------------------------------ vectors
pub trait VxVec<T> {
    spec fn vv(&self) -> Seq<T>;
    fn vx_reserve(&mut self, n: usize)
        ensures final(self).vv() == old(self).vv();
    fn vx_shrink_to_fit(&mut self)
        ensures final(self).vv() == old(self).vv();
    fn vx_reverse(&mut self)
        ensures final(self).vv() == old(self).vv().reverse();
    fn vx_extend(&mut self, o: Vec<T>)
        ensures final(self).vv() == old(self).vv() + o@;
    fn vx_ext1(&mut self, o: T)
        ensures final(self).vv() == old(self).vv().push(o);
    fn vx_append(&mut self, o: &mut Vec<T>)
        ensures final(self).vv() == old(self).vv() + old(o)@, final(o)@.len() == 0;
}
impl<T> VxVec<T> for Vec<T> {
    open spec fn vv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_reserve(&mut self, n: usize) { }
    #[verifier::external_body]
    fn vx_shrink_to_fit(&mut self) { }
    #[verifier::external_body]
    fn vx_reverse(&mut self) { self.reverse() }
    #[verifier::external_body]
    fn vx_extend(&mut self, o: Vec<T>) { self.extend(o) }
    #[verifier::external_body]
    fn vx_ext1(&mut self, o: T) { self.push(o) }
    #[verifier::external_body]
    fn vx_append(&mut self, o: &mut Vec<T>) { self.append(o) }
}
pub trait VxPush: Sized {
    spec fn ps(&self) -> Seq<char>;
    fn vx_push_str<S: VxStr + ?Sized>(&mut self, o: &S)
        ensures final(self).ps() == old(self).ps() + o.sv();
}
impl VxPush for String {
    open spec fn ps(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_push_str<S: VxStr + ?Sized>(&mut self, o: &S) { unimplemented!() }
}
#[verifier::external_body]
pub fn vec_with_capacity<T>(n: usize) -> (r: Vec<T>)
    ensures r@.len() == 0,
{ unimplemented!() }
#[verifier::external_body]
pub fn string_with_capacity(n: usize) -> (r: String)
    ensures r@.len() == 0,
{ unimplemented!() }
#[verifier::external_body]
pub fn mem_swap<T>(a: &mut T, b: &mut T)
    ensures *final(a) == *old(b), *final(b) == *old(a),
{ unimplemented!() }
#[verifier::external_body]
pub fn mem_replace<T>(a: &mut T, b: T) -> (r: T)
    ensures *final(a) == b, r == *old(a),
{ unimplemented!() }

/// Types whose `Default` is known here.
pub trait VxDefault: Sized {
    spec fn is_default(&self) -> bool;
}
impl<T> VxDefault for Vec<T> { open spec fn is_default(&self) -> bool { self@.len() == 0 && *self == mk_vec(Seq::<T>::empty()) } }
impl VxDefault for String { open spec fn is_default(&self) -> bool { self@.len() == 0 } }
impl<T> VxDefault for Option<T> { open spec fn is_default(&self) -> bool { *self is None } }
impl VxDefault for bool { open spec fn is_default(&self) -> bool { !*self } }
impl VxDefault for usize { open spec fn is_default(&self) -> bool { *self == 0 } }
#[verifier::external_body]
pub fn mem_take<T: VxDefault>(a: &mut T) -> (r: T)
    ensures r == *old(a), final(a).is_default(),
{ unimplemented!() }
pub assume_specification<T>[ <[T]>::swap ](s: &mut [T], i: usize, j: usize)
    requires i < old(s)@.len(), j < old(s)@.len(),
    ensures final(s)@ == old(s)@.update(i as int, old(s)@[j as int]).update(j as int, old(s)@[i as int]);
pub assume_specification<T>[ Option::<T>::replace ](o: &mut Option<T>, x: T) -> (r: Option<T>)
    ensures r == *old(o), *final(o) == Some(x);
pub assume_specification<T, U>[ Option::<T>::and::<U> ](o: Option<T>, x: Option<U>) -> (r: Option<U>)
    ensures r == (if o is Some { x } else { None::<U> });
pub assume_specification<T>[ Option::<T>::xor ](o: Option<T>, x: Option<T>) -> (r: Option<T>)
    ensures r == (if o is Some && x is None { o } else if o is None && x is Some { x } else { None::<T> });
pub assume_specification<T, U>[ Option::<T>::zip::<U> ](o: Option<T>, x: Option<U>) -> (r: Option<(T, U)>)
    ensures r == (if o is Some && x is Some { Some((o->0, x->0)) } else { None::<(T, U)> });
/// `contains` of texts and vectors.
pub trait VxContains<P> {
    spec fn has(&self, p: P) -> bool;
    fn vx_contains(&self, p: P) -> (r: bool) ensures r == self.has(p);
}
pub open spec fn has_infix(s: Seq<char>, p: Seq<char>) -> bool {
    exists|i: int| 0 <= i && i + p.len() <= s.len() && #[trigger] s.subrange(i, i + p.len()) == p
}
impl VxContains<char> for str {
    open spec fn has(&self, p: char) -> bool { self@.contains(p) }
    #[verifier::external_body]
    fn vx_contains(&self, p: char) -> (r: bool) { unimplemented!() }
}
impl VxContains<char> for String {
    open spec fn has(&self, p: char) -> bool { self@.contains(p) }
    #[verifier::external_body]
    fn vx_contains(&self, p: char) -> (r: bool) { unimplemented!() }
}
impl<'b> VxContains<&'b str> for str {
    open spec fn has(&self, p: &'b str) -> bool { has_infix(self@, p@) }
    #[verifier::external_body]
    fn vx_contains(&self, p: &'b str) -> (r: bool) { unimplemented!() }
}
impl<'b> VxContains<&'b str> for String {
    open spec fn has(&self, p: &'b str) -> bool { has_infix(self@, p@) }
    #[verifier::external_body]
    fn vx_contains(&self, p: &'b str) -> (r: bool) { unimplemented!() }
}
/// (equality of the crate's own types is structural)
impl<'b, T> VxContains<&'b T> for Vec<T> {
    open spec fn has(&self, p: &'b T) -> bool { self@.contains(*p) }
    #[verifier::external_body]
    fn vx_contains(&self, p: &'b T) -> (r: bool) { unimplemented!() }
}
impl<'b, T> VxContains<&'b T> for [T] {
    open spec fn has(&self, p: &'b T) -> bool { self@.contains(*p) }
    #[verifier::external_body]
    fn vx_contains(&self, p: &'b T) -> (r: bool) { unimplemented!() }
}
impl<'b, T, const N: usize> VxContains<&'b T> for [T; N] {
    open spec fn has(&self, p: &'b T) -> bool { self@.contains(*p) }
    #[verifier::external_body]
    fn vx_contains(&self, p: &'b T) -> (r: bool) { unimplemented!() }
}
pub trait FromIterator {}
#[verifier::external_body]
pub fn string_from_iter(v: Vec<&str>) -> (r: String)
    ensures r@ == concat_str(v@.map_values(|x: &str| x@)),
{ unimplemented!() }
#[verifier::external_body]
pub fn string_from(s: &str) -> (r: String)
    ensures r@ == s@,
{ unimplemented!() }
pub open spec fn concat_str(v: Seq<Seq<char>>) -> Seq<char>
    decreases v.len(),
{
    if v.len() == 0 { Seq::empty() } else { concat_str(v.drop_last()) + v.last() }
}

// ------------------------------------------------------------------ text
/// `to_string`: the text of a value. That a token's `Display` writes its text is assumed here.
pub trait VxText {
    spec fn text(&self) -> Seq<char>;
    fn vx_to_string(&self) -> (r: String)
        ensures r@ == self.text();
    fn vx_to_owned(&self) -> (r: String)
        ensures r@ == self.text();
}
impl VxText for str {
    open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn vx_to_owned(&self) -> (r: String) { unimplemented!() }
}
impl VxText for String {
    open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn vx_to_owned(&self) -> (r: String) { unimplemented!() }
}
impl VxText for Token {
    open spec fn text(&self) -> Seq<char> { crate::token::tstr(*self) }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn vx_to_owned(&self) -> (r: String) { unimplemented!() }
}
pub trait VxStrBuf {
    fn vx_shrink_to_fit(&mut self);
    fn vx_ext1(&mut self, o: &str);
}
impl VxStrBuf for String {
    #[verifier::external_body]
    fn vx_shrink_to_fit(&mut self)
        ensures final(self)@ == old(self)@,
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_ext1(&mut self, o: &str)
        ensures final(self)@ == old(self)@ + o@,
    { unimplemented!() }
}
/// A pattern for `starts_with`, `trim_start_matches`, ...
pub trait VxPat: Sized {
    spec fn pat(self) -> Seq<char>;
}
impl VxPat for char { open spec fn pat(self) -> Seq<char> { seq![self] } }
impl<'a> VxPat for &'a str { open spec fn pat(self) -> Seq<char> { self@ } }
pub open spec fn has_prefix(s: Seq<char>, p: Seq<char>) -> bool {
    s.len() >= p.len() && s.subrange(0, p.len() as int) == p
}
/// Number of times the character `c` is found at the front.
pub open spec fn leading(s: Seq<char>, c: char) -> nat
    decreases s.len(),
{
    if s.len() > 0 && s[0] == c { 1 + leading(s.drop_first(), c) } else { 0 }
}
pub open spec fn has_suffix(s: Seq<char>, p: Seq<char>) -> bool {
    s.len() >= p.len() && s.subrange(s.len() - p.len(), s.len() as int) == p
}
/// Number of times the character `c` is found at the end.
pub open spec fn trailing(s: Seq<char>, c: char) -> nat
    decreases s.len(),
{
    if s.len() > 0 && s.last() == c { 1 + trailing(s.drop_last(), c) } else { 0 }
}
pub open spec fn lower_ascii(c: char) -> char {
    if is_upper_ascii(c) { ((c as u8) + 32u8) as u8 as char } else { c }
}
pub trait VxStrOps {
    spec fn ops_view(&self) -> Seq<char>;
    fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool)
        ensures r == has_suffix(self.ops_view(), p.pat());
    fn vx_strip_prefix<P: VxPat>(&self, p: P) -> (r: Option<&str>)
        ensures
            r is Some == has_prefix(self.ops_view(), p.pat()),
            r is Some ==> r->0@ == self.ops_view().skip(p.pat().len() as int);
    fn vx_trim_end_matches(&self, c: char) -> (r: &str)
        ensures r@ == self.ops_view().take(self.ops_view().len() - trailing(self.ops_view(), c));
    fn vx_eq_ignore_ascii_case<S: VxStr + ?Sized>(&self, o: &S) -> (r: bool)
        ensures r == (self.ops_view().map_values(|c: char| lower_ascii(c)) == o.sv().map_values(|c: char| lower_ascii(c)));
    fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool)
        ensures r == has_prefix(self.ops_view(), p.pat());
    fn vx_trim_start_matches(&self, c: char) -> (r: &str)
        ensures r@ == self.ops_view().skip(leading(self.ops_view(), c) as int);
}
impl VxStrOps for str {
    open spec fn ops_view(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_strip_prefix<P: VxPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_trim_end_matches(&self, c: char) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn vx_eq_ignore_ascii_case<S: VxStr + ?Sized>(&self, o: &S) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_trim_start_matches(&self, c: char) -> (r: &str) { unimplemented!() }
}
impl VxStrOps for String {
    open spec fn ops_view(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_strip_prefix<P: VxPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_trim_end_matches(&self, c: char) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn vx_eq_ignore_ascii_case<S: VxStr + ?Sized>(&self, o: &S) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_trim_start_matches(&self, c: char) -> (r: &str) { unimplemented!() }
}
/// What is left of a text after its first `n` bytes, if they end at the boundary of a character.
pub open spec fn byte_cut(s: Seq<char>, n: int) -> Option<Seq<char>>
    decreases s.len(),
{
    if n == 0 { Some(s) } else if n < 0 || s.len() == 0 { None } else { byte_cut(s.drop_first(), n - clen(s[0])) }
}
/// `&s[n..]`: `n` must be at the boundary of a character.
#[verifier::external_body]
pub fn vx_str_from<'a, S: VxStr + ?Sized>(s: &'a S, n: usize) -> (r: &'a str)
    requires byte_cut(s.sv(), n as int) is Some,
    ensures r@ == byte_cut(s.sv(), n as int)->0,
{ unimplemented!() }

// ------------------------------------------------------------------ numbers
pub open spec fn digit_val(c: char) -> int {
    if '0' <= c && c <= '9' { c as int - '0' as int }
    else if 'a' <= c && c <= 'z' { c as int - 'a' as int + 10 }
    else if 'A' <= c && c <= 'Z' { c as int - 'A' as int + 10 }
    else { 1000 }
}
/// The number spelled by the digits `s`.
pub open spec fn digits_val(s: Seq<char>, radix: int) -> Option<int>
    decreases s.len(),
{
    if s.len() == 0 { Some(0) } else {
        match digits_val(s.drop_last(), radix) {
            Some(v) => if digit_val(s.last()) < radix { Some(v * radix + digit_val(s.last())) } else { None },
            None => None,
        }
    }
}
/// What `from_str_radix` returns for an integer type with the given bounds.
pub open spec fn int_text(s: Seq<char>, radix: int, min: int, max: int) -> Option<int> {
    let neg = s.len() > 0 && s[0] == '-' && min < 0;
    let d = if neg || (s.len() > 0 && s[0] == '+') { s.drop_first() } else { s };
    if d.len() == 0 { None } else {
        match digits_val(d, radix) {
            Some(v) => {
                let w = if neg { -v } else { v };
                if min <= w && w <= max { Some(w) } else { None }
            }
            None => None,
        }
    }
}
#[verifier::external_body]
pub struct VxNumErr { v: u8 }
#[verifier::external_body]
pub fn isize_from_str_radix(s: &str, radix: u32) -> (r: Result<isize, VxNumErr>)
    requires 2 <= radix <= 36,
    ensures match int_text(s@, radix as int, isize::MIN as int, isize::MAX as int) { Some(v) => r is Ok && r->Ok_0 as int == v, None => r is Err },
{ unimplemented!() }
#[verifier::external_body]
pub fn u16_from_str_radix(s: &str, radix: u32) -> (r: Result<u16, VxNumErr>)
    requires 2 <= radix <= 36,
    ensures match int_text(s@, radix as int, 0, u16::MAX as int) { Some(v) => r is Ok && r->Ok_0 as int == v, None => r is Err },
{ unimplemented!() }
#[verifier::external_body]
pub fn u32_from_str_radix(s: &str, radix: u32) -> (r: Result<u32, VxNumErr>)
    requires 2 <= radix <= 36,
    ensures match int_text(s@, radix as int, 0, u32::MAX as int) { Some(v) => r is Ok && r->Ok_0 as int == v, None => r is Err },
{ unimplemented!() }
pub fn u32_from_str(s: &str) -> (r: Result<u32, VxNumErr>)
    ensures match int_text(s@, 10, 0, u32::MAX as int) { Some(v) => r is Ok && r->Ok_0 as int == v, None => r is Err },
{ u32_from_str_radix(s, 10) }
pub fn u16_from_str(s: &str) -> (r: Result<u16, VxNumErr>)
    ensures match int_text(s@, 10, 0, u16::MAX as int) { Some(v) => r is Ok && r->Ok_0 as int == v, None => r is Err },
{ u16_from_str_radix(s, 10) }
pub fn isize_from_str(s: &str) -> (r: Result<isize, VxNumErr>)
    ensures match int_text(s@, 10, isize::MIN as int, isize::MAX as int) { Some(v) => r is Ok && r->Ok_0 as int == v, None => r is Err },
{ isize_from_str_radix(s, 10) }

// ------------------------------------------------------------------ Display
/// `fmt::Formatter`: the text written so far. A `Display` implementation reached by `{}` only appends to it.
#[verifier::external_body]
pub struct Fmt { v: u8 }
pub struct FmtErr;
impl Fmt {
    pub uninterp spec fn text(&self) -> Seq<char>;
    /// What is underneath takes everything.
    pub uninterp spec fn accepts(&self) -> bool;
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: Result<(), FmtErr>)
        ensures wrote(*old(self), *final(self), r, s@),
    { unimplemented!() }
}
/// `s` has been written (or, if what is underneath does not take everything, there may have been an error).
pub open spec fn wrote(a: Fmt, b: Fmt, r: Result<(), FmtErr>, s: Seq<char>) -> bool {
    &&& r is Ok ==> b.text() == a.text() + s
    &&& a.accepts() ==> r is Ok && b.accepts()
}
pub trait Disp {
    spec fn disp(&self) -> Seq<char>;
}
pub fn vf_lit(f: &mut Fmt, s: &str) -> (r: Result<(), FmtErr>)
    ensures wrote(*old(f), *final(f), r, s@),
{ f.write_str(s) }
#[verifier::external_body]
pub fn vf_disp<T: Disp + ?Sized>(f: &mut Fmt, x: &T) -> (r: Result<(), FmtErr>)
    ensures wrote(*old(f), *final(f), r, x.disp()),
{ unimplemented!() }
/// The decimal numeral of `n`.
pub open spec fn dec(n: nat) -> Seq<char>
    decreases n,
{
    if n < 10 { seq![digit_char(n as int)] } else { dec(n / 10).push(digit_char((n % 10) as int)) }
}
pub open spec fn digit_char(n: int) -> char {
    if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' }
    else if n == 5 { '5' } else if n == 6 { '6' } else if n == 7 { '7' } else if n == 8 { '8' } else { '9' }
}
impl Disp for str { open spec fn disp(&self) -> Seq<char> { self@ } }
impl Disp for String { open spec fn disp(&self) -> Seq<char> { self@ } }
impl Disp for u32 { open spec fn disp(&self) -> Seq<char> { dec(*self as nat) } }
impl Disp for u16 { open spec fn disp(&self) -> Seq<char> { dec(*self as nat) } }
impl Disp for usize { open spec fn disp(&self) -> Seq<char> { dec(*self as nat) } }
impl Disp for char { open spec fn disp(&self) -> Seq<char> { seq![*self] } }
impl<T: Disp + ?Sized> Disp for &T { open spec fn disp(&self) -> Seq<char> { (**self).disp() } }
/// A decimal numeral reads as its number.
pub proof fn lemma_numeral(n: nat)
    ensures
        dec(n).len() > 0,
        forall|i: int| 0 <= i < dec(n).len() ==> '0' <= #[trigger] dec(n)[i] <= '9',
        digits_val(dec(n), 10) == Some(n as int),
    decreases n,
{
    let s = dec(n);
    if n < 10 {
        assert(s.drop_last() =~= Seq::empty());
        assert(digits_val(s.drop_last(), 10) == Some(0int));
    } else {
        lemma_numeral(n / 10);
        assert(s.drop_last() =~= dec(n / 10));
    }
}
/// `part` is somewhere in `text`.
pub open spec fn shows(text: Seq<char>, part: Seq<char>) -> bool {
    exists|i: int| 0 <= i <= text.len() - part.len() && #[trigger] text.subrange(i, i + part.len()) == part
}
pub broadcast proof fn lemma_shows(t: Seq<char>, x: Seq<char>, s: Seq<char>)
    ensures
        shows(t, s) ==> #[trigger] shows(t + x, s),
        x == s ==> shows(t + x, s),
{
    if shows(t, s) {
        let i = choose|i: int| 0 <= i <= t.len() - s.len() && #[trigger] t.subrange(i, i + s.len()) == s;
        assert((t + x).subrange(i, i + s.len()) =~= t.subrange(i, i + s.len()));
    }
    if x == s { assert((t + x).subrange(t.len() as int, t.len() as int + s.len()) =~= s); }
}
pub broadcast proof fn lemma_skip_add(t: Seq<char>, x: Seq<char>, n: int)
    requires 0 <= n <= t.len(),
    ensures #[trigger] (t + x).skip(n) == t.skip(n) + x,
{
    assert((t + x).skip(n) =~= t.skip(n) + x);
}
pub trait VxUsize: Sized {
    fn vx_checked_add(self, o: usize) -> (r: Option<usize>);
    fn vx_saturating_add(self, o: usize) -> (r: usize);
    fn vx_saturating_sub(self, o: usize) -> (r: usize);
}
impl VxUsize for usize {
    fn vx_checked_add(self, o: usize) -> (r: Option<usize>)
        ensures r == (if self + o <= usize::MAX { Some((self + o) as usize) } else { None }),
    { if o <= usize::MAX - self { Some(self + o) } else { None } }
    fn vx_saturating_add(self, o: usize) -> (r: usize)
        ensures r as int == (if self + o <= usize::MAX { self + o } else { usize::MAX as int }),
    { if o <= usize::MAX - self { self + o } else { usize::MAX } }
    fn vx_saturating_sub(self, o: usize) -> (r: usize)
        ensures r as int == (if self >= o { self - o } else { 0 }),
    { if o <= self { self - o } else { 0 } }
}

// ------------------------------------------------------------------ token streams
/// The state of a builder, whatever it is.
#[verifier::external_body]
pub struct BState { _x: () }
pub open spec fn err_of<T, E>(r: Result<T, E>) -> Option<E> {
    match r { Ok(_) => None, Err(e) => Some(e) }
}
/// The state of a parser: the tokens ahead and the builder.
pub struct PS {
    pub s: St,
    pub b: BState,
}
/// Abstract state of a token stream: what it will still yield, interleaved with the position
/// corrections it will apply, and its current position.
pub struct St {
    pub items: Seq<TokenOrPos>,
    pub pos: SourcePos,
}
impl St {
    /// The position is up to date: no correction is pending in front of the next token.
    pub open spec fn wf(self) -> bool {
        self.items.len() > 0 ==> self.items[0] is Tok
    }
}
/// Applies the position corrections at the front.
pub open spec fn norm(items: Seq<TokenOrPos>, pos: SourcePos) -> St
    decreases items.len(),
{
    if items.len() == 0 { St { items, pos } } else {
        match items[0] {
            TokenOrPos::Pos(p) => norm(items.drop_first(), p),
            TokenOrPos::Tok(_) => St { items, pos },
        }
    }
}
pub open spec fn head(s: St) -> Option<Token> {
    if s.items.len() == 0 { None } else {
        match s.items[0] {
            TokenOrPos::Tok(t) => Some(t),
            TokenOrPos::Pos(_) => None,
        }
    }
}
/// The state after taking one token.
pub open spec fn after(s: St) -> St {
    match head(s) {
        Some(t) => norm(s.items.drop_first(), adv(s.pos, t)),
        None => s,
    }
}
/// The tokens a stream will yield.
pub open spec fn toks(items: Seq<TokenOrPos>) -> Seq<Token>
    decreases items.len(),
{
    if items.len() == 0 { Seq::empty() } else {
        match items[0] {
            TokenOrPos::Tok(t) => seq![t] + toks(items.drop_first()),
            TokenOrPos::Pos(_) => toks(items.drop_first()),
        }
    }
}
pub proof fn lemma_toks_add(a: Seq<TokenOrPos>, b: Seq<TokenOrPos>)
    ensures toks(a + b) == toks(a) + toks(b),
    decreases a.len(),
{
    if a.len() == 0 {
        assert(a + b =~= b);
        assert(toks(a) + toks(b) =~= toks(b));
    } else {
        assert((a + b).drop_first() =~= a.drop_first() + b);
        lemma_toks_add(a.drop_first(), b);
        match a[0] {
            TokenOrPos::Tok(t) => {
                assert(seq![t] + (toks(a.drop_first()) + toks(b)) =~= (seq![t] + toks(a.drop_first())) + toks(b));
            }
            TokenOrPos::Pos(_) => {}
        }
    }
}
pub proof fn lemma_toks_norm(a: Seq<TokenOrPos>, p: SourcePos)
    ensures toks(norm(a, p).items) == toks(a), norm(a, p).wf(),
        ntoks(norm(a, p).items) == ntoks(a),
    decreases a.len(),
{
    if a.len() > 0 {
        match a[0] {
            TokenOrPos::Pos(q) => lemma_toks_norm(a.drop_first(), q),
            TokenOrPos::Tok(_) => {}
        }
    }
}
pub proof fn lemma_ntoks(a: Seq<TokenOrPos>)
    ensures ntoks(a) == toks(a).len(),
    decreases a.len(),
{
    if a.len() > 0 { lemma_ntoks(a.drop_first()); }
}
pub proof fn lemma_toks_first(a: Seq<TokenOrPos>)
    ensures
        a.len() > 0 ==> (a[0] matches TokenOrPos::Tok(t) ==> toks(a) == seq![t] + toks(a.drop_first())),
        a.len() > 0 ==> (a[0] is Pos ==> toks(a) == toks(a.drop_first())),
        a.len() == 0 ==> toks(a).len() == 0,
{ }
pub proof fn lemma_toks_push(a: Seq<TokenOrPos>, b: Seq<TokenOrPos>)
    requires b.len() == a.len() + 1, b.drop_last() =~= a,
    ensures
        b.last() matches TokenOrPos::Tok(t) ==> toks(b) == toks(a).push(t),
        b.last() is Pos ==> toks(b) == toks(a),
{
    let l = seq![b.last()];
    assert(b =~= a + l);
    lemma_toks_add(a, l);
    assert(l.drop_first() =~= Seq::empty());
    assert(toks(l.drop_first()) =~= Seq::empty());
    match b.last() {
        TokenOrPos::Tok(t) => {
            assert(toks(l) =~= seq![t]);
            assert(toks(a) + seq![t] =~= toks(a).push(t));
        }
        TokenOrPos::Pos(_) => { assert(toks(a) + toks(l) =~= toks(a)); }
    }
}
pub broadcast proof fn lemma_after(s: St)
    requires s.wf(),
    ensures
        (#[trigger] after(s)).wf(),
        head(s) is None <==> s.items.len() == 0,
        head(s) matches Some(t) ==> toks(s.items) == seq![t] + toks(after(s).items)
            && ntoks(s.items) == ntoks(after(s).items) + 1,
        head(s) is None ==> after(s) == s && ntoks(s.items) == 0 && toks(s.items).len() == 0,
{
    if s.items.len() > 0 {
        match s.items[0] {
            TokenOrPos::Tok(t) => lemma_toks_norm(s.items.drop_first(), adv(s.pos, t)),
            TokenOrPos::Pos(_) => {}
        }
    }
}
/// The tokens a stream will yield, each with the position at which it is found.
pub open spec fn ptoks(items: Seq<TokenOrPos>, pos: SourcePos) -> Seq<(Token, SourcePos)>
    decreases items.len(),
{
    if items.len() == 0 { Seq::empty() } else {
        match items[0] {
            TokenOrPos::Tok(t) => seq![(t, pos)] + ptoks(items.drop_first(), adv(pos, t)),
            TokenOrPos::Pos(p) => ptoks(items.drop_first(), p),
        }
    }
}
/// The position after the whole stream was consumed.
pub open spec fn endpos(items: Seq<TokenOrPos>, pos: SourcePos) -> SourcePos
    decreases items.len(),
{
    if items.len() == 0 { pos } else {
        match items[0] {
            TokenOrPos::Tok(t) => endpos(items.drop_first(), adv(pos, t)),
            TokenOrPos::Pos(p) => endpos(items.drop_first(), p),
        }
    }
}
pub proof fn lemma_ptoks_add(a: Seq<TokenOrPos>, b: Seq<TokenOrPos>, p: SourcePos)
    ensures
        ptoks(a + b, p) == ptoks(a, p) + ptoks(b, endpos(a, p)),
        endpos(a + b, p) == endpos(b, endpos(a, p)),
    decreases a.len(),
{
    if a.len() == 0 {
        assert(a + b =~= b);
        assert(ptoks(a, p) + ptoks(b, p) =~= ptoks(b, p));
    } else {
        assert((a + b).drop_first() =~= a.drop_first() + b);
        match a[0] {
            TokenOrPos::Tok(t) => {
                lemma_ptoks_add(a.drop_first(), b, adv(p, t));
                assert(ptoks(a + b, p) =~= ptoks(a, p) + ptoks(b, endpos(a, p)));
            }
            TokenOrPos::Pos(q) => { lemma_ptoks_add(a.drop_first(), b, q); }
        }
    }
}
pub broadcast proof fn lemma_ptoks_push2(a: Seq<TokenOrPos>, q: SourcePos, t: Token, p: SourcePos)
    ensures
        #[trigger] ptoks(a.push(TokenOrPos::Pos(q)).push(TokenOrPos::Tok(t)), p) == ptoks(a, p).push((t, q)),
        endpos(a.push(TokenOrPos::Pos(q)).push(TokenOrPos::Tok(t)), p) == adv(q, t),
{
    let l = seq![TokenOrPos::Pos(q), TokenOrPos::Tok(t)];
    assert(a.push(TokenOrPos::Pos(q)).push(TokenOrPos::Tok(t)) =~= a + l);
    lemma_ptoks_add(a, l, p);
    let l1 = l.drop_first();
    assert(l1 =~= seq![TokenOrPos::Tok(t)]);
    assert(l1.drop_first() =~= Seq::empty());
    assert(ptoks(l1.drop_first(), adv(q, t)) =~= Seq::empty());
    assert(ptoks(l1, q) =~= seq![(t, q)] + ptoks(l1.drop_first(), adv(q, t)));
    assert(ptoks(l, endpos(a, p)) =~= seq![(t, q)]);
    assert(endpos(l1, q) == endpos(l1.drop_first(), adv(q, t)));
}
/// What is yielded, and where, does not depend on pending corrections being applied.
pub proof fn lemma_ptoks_norm(a: Seq<TokenOrPos>, p: SourcePos)
    ensures
        ptoks(norm(a, p).items, norm(a, p).pos) == ptoks(a, p),
        endpos(norm(a, p).items, norm(a, p).pos) == endpos(a, p),
    decreases a.len(),
{
    if a.len() > 0 {
        match a[0] {
            TokenOrPos::Pos(q) => lemma_ptoks_norm(a.drop_first(), q),
            TokenOrPos::Tok(_) => {}
        }
    }
}
/// Number of tokens in front of the end of the stream.
pub open spec fn ntoks(items: Seq<TokenOrPos>) -> nat
    decreases items.len(),
{
    if items.len() == 0 { 0 } else {
        ntoks(items.drop_first()) + (if items[0] is Tok { 1nat } else { 0nat })
    }
}
/// The position after `t` when `t` starts at `p`.
pub open spec fn adv(p: SourcePos, t: Token) -> SourcePos {
    let n = blen(crate::token::tstr(t));
    let k = crate::token::newlines_in(t);
    SourcePos {
        byte: (p.byte + n) as usize,
        line: (p.line + k) as usize,
        col: if k == 0 { (p.col + n) as usize } else { 1 },
    }
}
pub open spec fn tok_items(s: Seq<Token>) -> Seq<TokenOrPos> {
    s.map_values(|t: Token| TokenOrPos::Tok(t))
}

/// Stands for `std::iter::Iterator` as implemented by the crate's own token streams.
pub trait TokenStream: Sized {
    spec fn st(&self) -> St;
    /// For a borrowed stream: the state in which the borrow ends.
    #[verifier::prophetic]
    spec fn fin(&self) -> St;
    fn next(&mut self) -> (r: Option<Token>)
        requires (*old(self)).st().wf(),
        ensures
            r == head((*old(self)).st()),
            (*final(self)).st() == after((*old(self)).st()),
            (*final(self)).st().wf(),
            (*final(self)).fin() == (*old(self)).fin();
}
impl<'a, T: TokenStream> TokenStream for &'a mut T {
    open spec fn st(&self) -> St { (**self).st() }
    #[verifier::prophetic]
    open spec fn fin(&self) -> St { (*final(*self)).st() }
    fn next(&mut self) -> (r: Option<Token>) { (**self).next() }
}

/// Stands for `&'a mut dyn RewindableTokenIterator`.
#[verifier::external_body]
pub struct Dyn<'a> { p: &'a mut u8 }
impl<'a> Dyn<'a> {
    pub uninterp spec fn items(&self) -> Seq<TokenOrPos>;
    pub uninterp spec fn dpos(&self) -> SourcePos;
    pub uninterp spec fn nbuf(&self) -> nat;
    #[verifier::prophetic]
    pub uninterp spec fn fin_items(&self) -> Seq<TokenOrPos>;
    #[verifier::prophetic]
    pub uninterp spec fn fin_pos(&self) -> SourcePos;
    #[verifier::prophetic]
    pub uninterp spec fn fin_nbuf(&self) -> nat;
    #[verifier::external_body]
    pub fn mk<T: RewindableTokenIterator>(x: &'a mut T) -> (r: Dyn<'a>)
        ensures r.items() == (*old(x)).ritems(), r.dpos() == (*old(x)).rpos(),
            r.fin_items() == (*final(x)).ritems(), r.fin_pos() == (*final(x)).rpos(),
            r.fin_nbuf() == (*final(x)).rnbuf(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next_token_or_pos(&mut self) -> (r: Option<TokenOrPos>)
        ensures
            step(old(self).items(), final(self).items(), r),
            final(self).dpos() == old(self).dpos(),
            final(self).fin_items() == old(self).fin_items(),
            final(self).fin_pos() == old(self).fin_pos(),
            final(self).fin_nbuf() == old(self).fin_nbuf(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rewind(&mut self, tokens: Vec<TokenOrPos>)
        ensures
            (St { items: final(self).items(), pos: final(self).dpos() })
                == norm(tokens@ + old(self).items(), old(self).dpos()),
            tokens@.len() > 0 && tokens@[0] is Tok ==> final(self).nbuf() > 0,
            final(self).fin_items() == old(self).fin_items(),
            final(self).fin_pos() == old(self).fin_pos(),
            final(self).fin_nbuf() == old(self).fin_nbuf(),
    { unimplemented!() }
    /// The borrow ends here: the borrowed stream is left in the current state.
    #[verifier::external_body]
    pub fn resolve(self)
        ensures self.items() == self.fin_items(), self.dpos() == self.fin_pos(), self.nbuf() == self.fin_nbuf(),
    { unimplemented!() }
}
} // mod vf

/// The token level part of the grammar: what the contracts of the parser are written with.
pub mod gr {
use vstd::prelude::*;
use crate::vf::*;
use crate::token::{Token, tstr};
use crate::parse::iter::lemma_head_dec;
broadcast use {crate::vf::group_vf, crate::vf::lemma_after};
/// The text of a sequence of tokens.
pub open spec fn cat(t: Seq<Token>) -> Seq<char>
    decreases t.len(),
{
    if t.len() == 0 { Seq::empty() } else { cat(t.drop_last()) + tstr(t.last()) }
}
pub open spec fn cat_from(t: Seq<Token>) -> Seq<char>
    decreases t.len(),
{
    if t.len() == 0 { Seq::empty() } else { tstr(t[0]) + cat_from(t.drop_first()) }
}
pub proof fn lemma_cat_add(a: Seq<Token>, b: Seq<Token>)
    ensures cat(a + b) == cat(a) + cat(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(cat(a) + cat(b) =~= cat(a));
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_cat_add(a, b.drop_last());
        assert(cat(a) + (cat(b.drop_last()) + tstr(b.last())) =~= (cat(a) + cat(b.drop_last())) + tstr(b.last()));
    }
}
pub broadcast proof fn lemma_push<T>(s: Seq<T>, x: T)
    ensures
        #[trigger] s.push(x).drop_last() == s,
        s.push(x).last() == x,
{
    assert(s.push(x).drop_last() =~= s);
}
/// `r` is what is left of `t`.
pub open spec fn suffix<T>(r: Seq<T>, t: Seq<T>) -> bool {
    r.len() <= t.len() && r == t.skip(t.len() - r.len())
}
pub broadcast proof fn lemma_suffix<T>(r: Seq<T>, t: Seq<T>)
    ensures
        #[trigger] suffix(r, t) && r.len() > 0 ==> r[0] == t[t.len() - r.len()],
        suffix(r, t) && r.len() == t.len() ==> r == t,
{
    if suffix(r, t) && r.len() == t.len() { assert(r =~= t); }
}
pub broadcast proof fn lemma_suffix_step<T>(r: Seq<T>, t: Seq<T>)
    requires #[trigger] suffix(r, t), r.len() > 0,
    ensures suffix(#[trigger] r.drop_first(), t),
{
    assert(r.drop_first() =~= t.skip(t.len() - (r.len() - 1)));
}
pub broadcast proof fn lemma_suffix_refl<T>(t: Seq<T>)
    ensures #[trigger] suffix(t, t),
{
    assert(t.skip(0) =~= t);
}
/// After all spaces, tabs, ... and escaped newlines.
pub open spec fn skip(s: St) -> St
    decreases ntoks(s.items) via skip_dec
{
    match head(s) {
        Some(Token::Whitespace(_)) => skip(after(s)),
        Some(Token::Backslash) => if head(after(s)) == Some(Token::Newline) { skip(after(after(s))) } else { s },
        _ => s,
    }
}
#[via_fn]
proof fn skip_dec(s: St) { lemma_head_dec(s); lemma_head_dec(after(s)); }
pub broadcast proof fn lemma_skip(s: St)
    ensures
        s.wf() ==> (#[trigger] skip(s)).wf(),
        ntoks(skip(s).items) <= ntoks(s.items),
        !(head(skip(s)) matches Some(Token::Whitespace(_))),
    decreases ntoks(s.items),
{
    lemma_head_dec(s);
    lemma_head_dec(after(s));
    match head(s) {
        Some(Token::Whitespace(_)) => { lemma_skip(after(s)); }
        Some(Token::Backslash) => if head(after(s)) == Some(Token::Newline) { lemma_skip(after(after(s))) },
        _ => {}
    }
}
pub broadcast proof fn lemma_skip2(s: St)
    ensures #[trigger] skip(skip(s)) == skip(s),
    decreases ntoks(s.items),
{
    lemma_head_dec(s);
    lemma_head_dec(after(s));
    match head(s) {
        Some(Token::Whitespace(_)) => { lemma_skip2(after(s)); }
        Some(Token::Backslash) => if head(after(s)) == Some(Token::Newline) { lemma_skip2(after(after(s))) },
        _ => {}
    }
}
pub broadcast proof fn lemma_wf(s: St)
    ensures s.wf() ==> (#[trigger] after(s)).wf(),
{
    if s.wf() { lemma_after(s); }
}
pub broadcast proof fn lemma_dec(s: St)
    ensures
        head(s) is Some ==> ntoks((#[trigger] after(s)).items) + 1 == ntoks(s.items),
        head(s) is None ==> after(s) == s,
{
    lemma_head_dec(s);
}
/// Look-ahead: the tokens a well formed stream yields.
pub proof fn lemma_peek(s: St)
    requires s.wf(),
    ensures
        toks(s.items).len() == ntoks(s.items),
        head(s) == (if toks(s.items).len() > 0 { Some(toks(s.items)[0]) } else { None }),
        head(after(s)) == (if toks(s.items).len() > 1 { Some(toks(s.items)[1]) } else { None }),
        head(after(after(s))) == (if toks(s.items).len() > 2 { Some(toks(s.items)[2]) } else { None }),
        norm(s.items, s.pos) == s,
{
    lemma_ntoks(s.items);
    lemma_after(s);
    lemma_after(after(s));
    lemma_after(after(after(s)));
}

use crate::ast::builder::Newline;
/// The tokens of the comment in front: everything up to the end of the line.
pub open spec fn comment_toks(s: St) -> Seq<Token>
    decreases ntoks(s.items) via comment_toks_dec
{
    match head(s) {
        None => Seq::empty(),
        Some(Token::Newline) => Seq::empty(),
        Some(t) => seq![t] + comment_toks(after(s)),
    }
}
#[via_fn]
proof fn comment_toks_dec(s: St) { lemma_head_dec(s); }
/// After the comment in front, and the newline that ends it.
pub open spec fn comment_end(s: St) -> St
    decreases ntoks(s.items) via comment_end_dec
{
    match head(s) {
        None => s,
        Some(Token::Newline) => after(s),
        Some(t) => comment_end(after(s)),
    }
}
#[via_fn]
proof fn comment_end_dec(s: St) { lemma_head_dec(s); }
pub proof fn lemma_comment_end(s: St)
    ensures
        s.wf() ==> comment_end(s).wf(),
        ntoks(comment_end(s).items) <= ntoks(s.items),
        head(s) is Some ==> ntoks(comment_end(s).items) < ntoks(s.items),
    decreases ntoks(s.items),
{
    lemma_head_dec(s);
    if head(s) is Some { lemma_comment_end(after(s)); }
}
/// One newline or comment (if there is one) after leading whitespace.
pub open spec fn newline_of(s: St) -> (Option<Newline>, St) {
    let w = skip(s);
    match head(w) {
        Some(Token::Pound) => (Some(Newline(Some(mk_string(cat(comment_toks(w)))))), comment_end(w)),
        Some(Token::Newline) => (Some(Newline(None)), after(w)),
        _ => (None, w),
    }
}
pub broadcast proof fn lemma_newline_of(s: St)
    ensures
        s.wf() ==> (#[trigger] newline_of(s)).1.wf(),
        ntoks(newline_of(s).1.items) <= ntoks(s.items),
        newline_of(s).0 is Some ==> ntoks(newline_of(s).1.items) < ntoks(s.items),
{
    lemma_skip(s);
    lemma_head_dec(skip(s));
    lemma_comment_end(skip(s));
}
/// All newlines and comments.
pub open spec fn lines_of(s: St) -> (Seq<Newline>, St)
    decreases ntoks(s.items) via lines_of_dec
{
    match newline_of(s) {
        (Some(n), s1) => (seq![n] + lines_of(s1).0, lines_of(s1).1),
        (None, s1) => (Seq::empty(), s1),
    }
}
#[via_fn]
proof fn lines_of_dec(s: St) { lemma_newline_of(s); }
pub broadcast proof fn lemma_lines_of(s: St)
    ensures
        s.wf() ==> (#[trigger] lines_of(s)).1.wf(),
        ntoks(lines_of(s).1.items) <= ntoks(s.items),
    decreases ntoks(s.items),
{
    lemma_newline_of(s);
    if newline_of(s).0 is Some { lemma_lines_of(newline_of(s).1); }
}
/// The next token ends a word (or there is none).
pub open spec fn at_delim(s: St) -> bool {
    match head(s) { Some(t) => crate::token::is_delim(t), None => true }
}
/// One of `tokens` is in front, on its own.
pub open spec fn lone_tok(s: St, tokens: Seq<Token>) -> bool {
    head(s) matches Some(t) && tokens.contains(t) && at_delim(after(s))
}
/// What looking for a reserved token finds, and where that leaves the stream.
pub open spec fn has_ws(tokens: Seq<Token>) -> bool {
    exists|i: int| 0 <= i < tokens.len() && (#[trigger] tokens[i]) is Whitespace
}
pub open spec fn res_tok(s: St, tokens: Seq<Token>) -> (Option<Token>, St) {
    if tokens.len() == 0 { (None, s) }
    else if has_ws(tokens) && lone_tok(s, tokens) { (head(s), s) }
    else if lone_tok(skip(s), tokens) { (head(skip(s)), skip(s)) }
    else { (None, skip(s)) }
}
/// The result of searching `tokens` for `t`.
pub open spec fn found_tok(acc: Option<&Token>, tokens: Seq<Token>, t: Token) -> bool {
    match acc { Some(x) => *x == t && tokens.contains(t), None => !tokens.contains(t) }
}
pub open spec fn found_word(acc: Option<&&str>, words: Seq<&str>, t: Seq<char>) -> bool {
    match acc { Some(x) => (*x)@ == t && has_word(words, t), None => !has_word(words, t) }
}
/// The text of an unquoted literal token.
pub open spec fn word_text(t: Option<Token>) -> Option<Seq<char>> {
    match t {
        Some(Token::Name(n)) => Some(n@),
        Some(Token::Literal(n)) => Some(n@),
        _ => None,
    }
}
pub open spec fn has_word(words: Seq<&str>, t: Seq<char>) -> bool {
    exists|i: int| 0 <= i < words.len() && (#[trigger] words[i])@ == t
}
/// One of `words` is in front, on its own.
pub open spec fn lone_word(s: St, words: Seq<&str>) -> bool {
    word_text(head(s)) matches Some(t) && has_word(words, t) && at_delim(after(s))
}
pub proof fn lemma_has_word(words: Seq<&str>, t: Seq<char>)
    ensures
        words.len() == 1 ==> (has_word(words, t) <==> words[0]@ == t),
        words.len() == 2 ==> (has_word(words, t) <==> words[0]@ == t || words[1]@ == t),
        words.len() == 3 ==> (has_word(words, t) <==> words[0]@ == t || words[1]@ == t || words[2]@ == t),
        words.len() == 5 ==> (has_word(words, t) <==> words[0]@ == t || words[1]@ == t || words[2]@ == t || words[3]@ == t || words[4]@ == t),
{
    if words.len() > 0 && words[0]@ == t { assert(has_word(words, t)); }
    if words.len() > 1 && words[1]@ == t { assert(has_word(words, t)); }
    if words.len() > 2 && words[2]@ == t { assert(has_word(words, t)); }
    if words.len() > 3 && words[3]@ == t { assert(has_word(words, t)); }
    if words.len() > 4 && words[4]@ == t { assert(has_word(words, t)); }
}
pub open spec fn res_word(s: St, words: Seq<&str>) -> (Option<Seq<char>>, St) {
    if words.len() == 0 { (None, s) }
    else if lone_word(skip(s), words) { (word_text(head(skip(s))), skip(s)) }
    else { (None, skip(s)) }
}
} // mod gr
} // verus!
