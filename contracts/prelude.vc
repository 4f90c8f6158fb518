@module prelude
@uses
use vstd::seq::Seq as VSeq;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::PartialEqSpec;
use std::io;
use std::iter::{Enumerate, Peekable, TakeWhile};
use std::collections::HashMap;
@top
/// ---------- iterators ----------
#[verifier::reject_recursive_types(I)]
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExEnumerate<I>(Enumerate<I>);

#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(P)]
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExTakeWhile<I, P>(TakeWhile<I, P>);

#[verifier::reject_recursive_types(I)]
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPeekable<I: Iterator>(Peekable<I>);

/// the items an iterator will still yield
#[verifier::prophetic]
pub open spec fn rem<I: Iterator>(it: I) -> VSeq<I::Item> {
    it.remaining()
}

/// the iterator is finite and obeys the iterator laws
#[verifier::prophetic]
pub open spec fn good<I: Iterator>(it: I) -> bool {
    it.obeys_prophetic_iter_laws() && it.decrease().is_some()
}

/// how much longer the iterator can run
pub open spec fn fuel<I: Iterator>(it: I) -> nat {
    it.decrease().unwrap()
}

/// the iterator yields references to exactly the items of `s`, in order
#[verifier::prophetic]
pub open spec fn yields<'a, T: 'a, I: Iterator<Item = &'a T>>(it: I, s: VSeq<T>) -> bool {
    good(it) && rem(it) =~= s.as_ref()
}

pub trait VxIter: Iterator + Sized {
    fn vx_enumerate(self) -> (r: Enumerate<Self>)
        ensures
            good(self) ==> good(r) && rem(r).len() == rem(self).len() && forall|i: int|
                0 <= i < rem(r).len() ==> #[trigger] rem(r)[i] == (i as usize, rem(self)[i]),
    ;
    fn vx_peekable(self) -> (r: Peekable<Self>)
        ensures
            good(self) ==> good(r) && rem(r) == rem(self),
    ;
    fn vx_take_while<P: FnMut(&Self::Item) -> bool>(self, p: P) -> (r: TakeWhile<Self, P>)
        requires
            forall|i: int| 0 <= i < rem(self).len() ==> call_requires(p, (&#[trigger] rem(self)[i],)),
        ensures
            good(self) ==> good(r) && rem(r).len() <= rem(self).len() && (forall|i: int|
                #![trigger rem(r)[i]]
                #![trigger rem(self)[i]]
                0 <= i < rem(r).len() ==> rem(self)[i] == rem(r)[i] && call_ensures(
                    p,
                    (&rem(self)[i],),
                    true,
                )) && (rem(r).len() < rem(self).len() ==> call_ensures(
                p,
                (&rem(self)[rem(r).len() as int],),
                false,
            )),
    ;
    fn vx_count(self) -> (r: usize)
        ensures
            good(self) ==> r == rem(self).len(),
    ;
}

impl<I: Iterator> VxIter for I {
    #[verifier::external_body]
    fn vx_enumerate(self) -> (r: Enumerate<Self>) {
        self.enumerate()
    }

    #[verifier::external_body]
    fn vx_peekable(self) -> (r: Peekable<Self>) {
        self.peekable()
    }

    #[verifier::external_body]
    fn vx_take_while<P: FnMut(&Self::Item) -> bool>(self, p: P) -> (r: TakeWhile<Self, P>) {
        self.take_while(p)
    }

    #[verifier::external_body]
    fn vx_count(self) -> (r: usize) {
        self.count()
    }
}

pub assume_specification<I: Iterator>[ Peekable::<I>::peek ](p: &mut Peekable<I>) -> (r: Option<&I::Item>)
    ensures
        good(*final(p)) == good(*old(p)),
        rem(*final(p)) == rem(*old(p)),
        good(*old(p)) ==> fuel(*final(p)) == fuel(*old(p)),
        r.is_some() == (rem(*old(p)).len() > 0),
        r.is_some() ==> *r.unwrap() == rem(*old(p))[0],
;

/// ---------- items ----------
/// what the generic code may assume of an item type: `==` decides equality of values and a clone
/// is equal to its original
pub open spec fn item_ok<T: PartialEq + Clone>() -> bool {
    &&& <T as PartialEqSpec<T>>::obeys_eq_spec()
    &&& forall|a: T, b: T| #[trigger] a.eq_spec(&b) <==> a == b
    &&& forall|a: T, b: T| #[trigger] cloned(a, b) ==> a == b
}

/// strings are compared by content, and the value of a `String` is its content
pub broadcast axiom fn ax_string_eq(a: String, b: String)
    ensures
        <String as PartialEqSpec<String>>::obeys_eq_spec(),
        #[trigger] a.eq_spec(&b) <==> a == b,
;

/// the value of a `String` is its content
pub axiom fn ax_string_value(a: String, b: String)
    requires
        a@ == b@,
    ensures
        a == b,
;

pub axiom fn ax_string_key()
    ensures
        vstd::std_specs::hash::obeys_key_model::<String>(),
;

pub proof fn lemma_item_ok_string()
    ensures
        item_ok::<String>(),
{
    broadcast use ax_string_eq;

    assert forall|a: String, b: String| #[trigger] cloned(a, b) implies a == b by {}
    let s = arbitrary::<String>();
    assert(s.eq_spec(&s) <==> s == s);
}

pub proof fn lemma_item_ok_u8()
    ensures
        item_ok::<u8>(),
{
}

/// Rust allocates at most isize::MAX bytes for one object; a String takes 24
pub axiom fn ax_len_strings(s: Box<[String]>)
    ensures
        s@.len() <= isize::MAX / 24,
;

pub axiom fn ax_len_bytes(s: Box<[u8]>)
    ensures
        s@.len() <= isize::MAX,
;

/// the UTF-8 encoding of a string
pub open spec fn sbytes(s: String) -> VSeq<u8> {
    vstd::utf8::encode_utf8(s@)
}

pub assume_specification[ String::as_bytes ](s: &String) -> (r: &[u8])
    ensures
        r@ == sbytes(*s),
;

pub proof fn lemma_sbytes_inj(a: String, b: String)
    requires
        sbytes(a) == sbytes(b),
    ensures
        a == b,
{
    vstd::utf8::encode_utf8_decode_utf8(a@);
    vstd::utf8::encode_utf8_decode_utf8(b@);
    ax_string_value(a, b);
}

/// the bytes of lines written one after the other
pub open spec fn cat(s: VSeq<String>) -> VSeq<u8>
    decreases s.len(),
{
    if s.len() == 0 {
        VSeq::empty()
    } else {
        cat(s.drop_last()) + sbytes(s.last())
    }
}

pub proof fn lemma_cat_push(s: VSeq<String>, x: String)
    ensures
        cat(s.push(x)) == cat(s) + sbytes(x),
{
    assert(s.push(x).drop_last() == s);
}

pub proof fn lemma_cat_add(a: VSeq<String>, b: VSeq<String>)
    ensures
        cat(a + b) == cat(a) + cat(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b == a);
        assert(cat(a) + cat(b) == cat(a));
    } else {
        assert((a + b).drop_last() == a + b.drop_last());
        lemma_cat_add(a, b.drop_last());
        assert(cat(a) + cat(b.drop_last()) + sbytes(b.last()) == cat(a) + cat(b));
    }
}

pub broadcast proof fn lemma_cat_take(s: VSeq<String>, n: int)
    requires
        0 <= n <= s.len(),
    ensures
        n == 0 ==> #[trigger] cat(s.take(n)) == VSeq::<u8>::empty(),
        n == s.len() ==> cat(s.take(n)) == cat(s),
{
    if n == s.len() {
        assert(s.take(n) == s);
    }
}

pub broadcast proof fn lemma_cat_step(s: VSeq<String>, n: int)
    requires
        0 <= n < s.len(),
    ensures
        #![trigger cat(s.take(n)), sbytes(s[n])]
        cat(s.take(n + 1)) == cat(s.take(n)) + sbytes(s[n]),
{
    assert(s.take(n + 1) == s.take(n).push(s[n]));
    lemma_cat_push(s.take(n), s[n]);
}

pub broadcast proof fn lemma_add_empty(a: VSeq<u8>)
    ensures
        #[trigger] (a + VSeq::<u8>::empty()) == a,
{
    assert(a + VSeq::<u8>::empty() =~= a);
}

pub broadcast proof fn lemma_add_assoc(a: VSeq<u8>, b: VSeq<u8>, c: VSeq<u8>)
    ensures
        #[trigger] ((a + b) + c) == a + (b + c),
{
    assert((a + b) + c =~= a + (b + c));
}

pub broadcast group group_cat {
    lemma_add_empty,
    lemma_add_assoc,
    lemma_cat_take,
    lemma_cat_step,
}

/// ---------- library functions of std without a vstd specification ----------
pub assume_specification<T: Clone>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>)
    ensures
        r@.len() == s@.len(),
        forall|i: int| 0 <= i < s@.len() ==> cloned(#[trigger] s@[i], r@[i]),
;

pub assume_specification<'a, T: Copy>[ Option::<&T>::copied ](o: Option<&'a T>) -> (r: Option<T>)
    ensures
        r.is_some() == o.is_some(),
        o.is_some() ==> r.unwrap() == *o.unwrap(),
;

pub assume_specification[ isize::is_negative ](x: isize) -> (r: bool)
    ensures
        r == (x < 0),
;

/// `HashMap::get_mut` with a key of the map's own key type
pub trait VxMap<K, V> {
    spec fn vx_map(&self) -> Map<K, V>;

    fn vx_get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures
            match r {
                Some(v) => {
                    &&& (*old(self)).vx_map().contains_key(*k)
                    &&& *v == (*old(self)).vx_map()[*k]
                    &&& (*final(self)).vx_map() == (*old(self)).vx_map().insert(*k, *final(v))
                },
                None => {
                    &&& !(*old(self)).vx_map().contains_key(*k)
                    &&& (*final(self)).vx_map() == (*old(self)).vx_map()
                },
            },
    ;
}

impl<V> VxMap<String, V> for HashMap<String, V> {
    open spec fn vx_map(&self) -> Map<String, V> {
        self@
    }

    #[verifier::external_body]
    fn vx_get_mut(&mut self, k: &String) -> (r: Option<&mut V>) {
        self.get_mut(k)
    }
}

pub broadcast axiom fn ax_to_string(s: String, r: String)
    requires
        #[trigger] vstd::string::to_string_from_display_ensures::<String>(&s, r),
    ensures
        r == s,
;

#[verifier::external_body]
pub fn vx_empty_vecs() -> (r: [Vec<usize>; 256])
    ensures
        forall|i: int| 0 <= i < 256 ==> (#[trigger] r@[i])@.len() == 0,
{
    const EMPTY: Vec<usize> = Vec::new();
    [EMPTY; 256]
}

pub assume_specification<T, A: std::alloc::Allocator>[ Vec::<T, A>::into_boxed_slice ](v: Vec<T, A>) -> (r: Box<[T], A>)
    ensures
        r@ == v@,
;

/// ---------- io ----------
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(io::Error);

/// A writer accumulates the bytes written to it; `write_all` writes everything or fails.
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(WriteSpec via WriteSpecImpl)]
pub trait ExWrite {
    type ExternalTraitSpecificationFor: io::Write;

    spec fn written(&self) -> VSeq<u8>;

    /// the part of it that has reached where it goes
    spec fn delivered(&self) -> VSeq<u8>;

    /// where the bytes go
    spec fn sink(&self) -> int;

    fn write_all(&mut self, buf: &[u8]) -> (r: io::Result<()>)
        ensures
            final(self).sink() == old(self).sink(),
            r.is_ok() ==> final(self).written() == old(self).written() + buf@,
    ;

    fn flush(&mut self) -> (r: io::Result<()>)
        ensures
            final(self).sink() == old(self).sink(),
            final(self).written() == old(self).written(),
            r.is_ok() ==> final(self).delivered() == final(self).written(),
            r.is_err() ==> sink_faulty(old(self).sink()),
    ;
}

/// writing to it fails
pub uninterp spec fn sink_faulty(sink: int) -> bool;

/// What is left to read, and whether reading it will run into a fault of the device.
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(ReadSpec via ReadSpecImpl)]
pub trait ExRead {
    type ExternalTraitSpecificationFor: io::Read;

    spec fn rest(&self) -> VSeq<u8>;

    spec fn faulty(&self) -> bool;

    fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: io::Result<usize>)
        ensures
            r.is_ok() ==> (*final(buf))@ == (*old(buf))@ + (*old(self)).rest(),
            r.is_err() ==> (*old(self)).faulty(),
    ;
}

#[verifier::external_trait_specification]
#[verifier::external_trait_extension(BufReadSpec via BufReadSpecImpl)]
pub trait ExBufRead: io::Read {
    type ExternalTraitSpecificationFor: io::BufRead;

    fn read_line(&mut self, buf: &mut String) -> (r: io::Result<usize>)
        ensures
            (*final(self)).faulty() == (*old(self)).faulty(),
            match r {
                Ok(n) => {
                    &&& n <= (*old(self)).rest().len()
                    &&& n == line_length((*old(self)).rest())
                    &&& sbytes(*final(buf)) == sbytes(*old(buf)) + (*old(self)).rest().take(n as int)
                    &&& (*final(self)).rest() == (*old(self)).rest().skip(n as int)
                },
                Err(_) => (*old(self)).faulty() || !utf8((*old(self)).rest()),
            },
    ;
}

#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct ExBufReader<R: ?Sized>(io::BufReader<R>);

pub assume_specification<R: io::Read>[ io::BufReader::<R>::new ](read: R) -> (r: io::BufReader<R>)
    ensures
        r.rest() == read.rest(),
        r.faulty() == read.faulty(),
;

/// ---------- text ----------
/// decimal digits of a number
pub open spec fn decimal(n: nat) -> VSeq<char>
    decreases n,
{
    if n < 10 {
        VSeq::empty().push((('0' as u8) + n) as char)
    } else {
        decimal(n / 10).push((('0' as u8) + n % 10) as char)
    }
}

/// what `{}` makes of a value
pub trait VxShow {
    spec fn shown(&self) -> VSeq<char>;
}

impl VxShow for usize {
    open spec fn shown(&self) -> VSeq<char> {
        decimal(*self as nat)
    }
}

impl VxShow for char {
    open spec fn shown(&self) -> VSeq<char> {
        VSeq::empty().push(*self)
    }
}

impl VxShow for str {
    open spec fn shown(&self) -> VSeq<char> {
        self@
    }
}

impl VxShow for String {
    open spec fn shown(&self) -> VSeq<char> {
        self@
    }
}

impl<T: VxShow + ?Sized> VxShow for &T {
    open spec fn shown(&self) -> VSeq<char> {
        (**self).shown()
    }
}

#[verifier::external_body]
pub fn vx_show<T: VxShow>(s: &mut String, x: &T)
    ensures
        (*final(s))@ == (*old(s))@ + x.shown(),
{
    unimplemented!()
}

#[verifier::external_body]
pub fn vx_lit(s: &mut String, x: &str)
    ensures
        (*final(s))@ == (*old(s))@ + x@,
{
    s.push_str(x)
}

/// the text written so far
pub uninterp spec fn fmt_text(f: std::fmt::Formatter<'_>) -> VSeq<char>;

pub assume_specification<'a>[ std::fmt::Formatter::<'a>::write_str ](f: &mut std::fmt::Formatter<'a>, s: &str) -> (r: std::fmt::Result)
    ensures
        r.is_ok() ==> fmt_text(*final(f)) == fmt_text(*old(f)) + s@,
;

/// what is looked for at an end of a string
pub trait VxPat: Sized {
    spec fn pat(&self) -> VSeq<char>;
}

impl VxPat for char {
    open spec fn pat(&self) -> VSeq<char> {
        VSeq::empty().push(*self)
    }
}

impl<'a> VxPat for &'a str {
    open spec fn pat(&self) -> VSeq<char> {
        self@
    }
}

pub open spec fn starts(s: VSeq<char>, p: VSeq<char>) -> bool {
    p.len() <= s.len() && s.take(p.len() as int) == p
}

pub open spec fn ends(s: VSeq<char>, p: VSeq<char>) -> bool {
    p.len() <= s.len() && s.skip(s.len() - p.len()) == p
}

/// strings one after the other
pub open spec fn joined(s: VSeq<&str>) -> VSeq<char>
    decreases s.len(),
{
    if s.len() == 0 {
        VSeq::empty()
    } else {
        joined(s.drop_last()) + s.last()@
    }
}

/// the pieces of a text cut after each `c`
pub open spec fn cut_after(s: VSeq<&str>, c: char, text: VSeq<char>) -> bool {
    &&& joined(s) == text
    &&& forall|i: int| 0 <= i < s.len() ==> piece_of(#[trigger] s[i]@, c, i == s.len() - 1)
}

pub open spec fn piece_of(s: VSeq<char>, c: char, last: bool) -> bool {
    &&& s.len() > 0
    &&& forall|j: int| 0 <= j < s.len() - 1 ==> s[j] != c
    &&& (!last ==> s.last() == c)
}

pub trait VxStr {
    spec fn vx_chars(&self) -> VSeq<char>;

    fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool)
        ensures
            r == starts(self.vx_chars(), p.pat()),
    ;
    fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool)
        ensures
            r == ends(self.vx_chars(), p.pat()),
    ;
    fn vx_strip_prefix<P: VxPat>(&self, p: P) -> (r: Option<&str>)
        ensures
            r.is_some() == starts(self.vx_chars(), p.pat()),
            r.is_some() ==> r.unwrap()@ == self.vx_chars().skip(p.pat().len() as int),
    ;
    fn vx_strip_suffix<P: VxPat>(&self, p: P) -> (r: Option<&str>)
        ensures
            r.is_some() == ends(self.vx_chars(), p.pat()),
            r.is_some() ==> r.unwrap()@ == self.vx_chars().take(self.vx_chars().len() - p.pat().len()),
    ;
    fn vx_split_inclusive(&self, c: char) -> (r: std::vec::IntoIter<&str>)
        ensures
            good(r),
            cut_after(rem(r), c, self.vx_chars()),
    ;
}

impl VxStr for str {
    open spec fn vx_chars(&self) -> VSeq<char> {
        self@
    }

    #[verifier::external_body]
    fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn vx_strip_prefix<P: VxPat>(&self, p: P) -> (r: Option<&str>) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn vx_strip_suffix<P: VxPat>(&self, p: P) -> (r: Option<&str>) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn vx_split_inclusive(&self, c: char) -> (r: std::vec::IntoIter<&str>) {
        unimplemented!()
    }
}

impl VxStr for String {
    open spec fn vx_chars(&self) -> VSeq<char> {
        self@
    }

    #[verifier::external_body]
    fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn vx_strip_prefix<P: VxPat>(&self, p: P) -> (r: Option<&str>) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn vx_strip_suffix<P: VxPat>(&self, p: P) -> (r: Option<&str>) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn vx_split_inclusive(&self, c: char) -> (r: std::vec::IntoIter<&str>) {
        unimplemented!()
    }
}

pub open spec fn views(s: VSeq<String>) -> VSeq<VSeq<char>> {
    s.map_values(|x: String| x@)
}

pub open spec fn marked(l: VSeq<char>, m: char) -> bool {
    l.len() > 0 && l[0] == m
}

pub broadcast proof fn lemma_views_push(s: VSeq<String>, x: String)
    ensures
        #[trigger] views(s.push(x)) == views(s).push(x@),
{
    assert(views(s.push(x)) =~= views(s).push(x@));
}

pub broadcast proof fn lemma_views_pop(s: VSeq<String>)
    requires
        s.len() > 0,
    ensures
        #[trigger] views(s.drop_last()) == views(s).drop_last(),
        views(s).last() == s.last()@,
{
    assert(views(s.drop_last()) =~= views(s).drop_last());
}

pub broadcast proof fn lemma_starts_char(s: VSeq<char>, c: char)
    ensures
        #[trigger] starts(s, VSeq::empty().push(c)) == marked(s, c),
{
    let p = VSeq::empty().push(c);
    if marked(s, c) {
        assert(s.take(1) =~= p);
    }
    if starts(s, p) {
        assert(s.take(1)[0] == p[0]);
    }
}

pub broadcast proof fn lemma_ends_char(s: VSeq<char>, c: char)
    ensures
        #[trigger] ends(s, VSeq::empty().push(c)) == (s.len() > 0 && s.last() == c),
        s.len() > 0 ==> s.take(s.len() - 1) == s.drop_last(),
{
    let p = VSeq::empty().push(c);
    if s.len() > 0 {
        assert(s.take(s.len() - 1) =~= s.drop_last());
        if s.last() == c {
            assert(s.skip(s.len() - 1) =~= p);
        }
    }
    if ends(s, p) {
        assert(s.skip(s.len() - 1)[0] == p[0]);
    }
}

pub broadcast group group_lines {
    lemma_views_push,
    lemma_views_pop,
    lemma_starts_char,
    lemma_ends_char,
}

pub open spec fn flat(s: VSeq<VSeq<char>>) -> VSeq<char>
    decreases s.len(),
{
    if s.len() == 0 {
        VSeq::empty()
    } else {
        flat(s.drop_last()) + s.last()
    }
}

pub broadcast proof fn lemma_flat_push(s: VSeq<VSeq<char>>, x: VSeq<char>)
    ensures
        #[trigger] flat(s.push(x)) == flat(s) + x,
{
    assert(s.push(x).drop_last() =~= s);
}

/// ---------- files ----------
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPath(std::path::Path);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPathBuf(std::path::PathBuf);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFile(std::fs::File);

/// the file a path names
pub uninterp spec fn name_of(p: &std::path::Path) -> VSeq<u8>;

pub uninterp spec fn name_of_buf(p: std::path::PathBuf) -> VSeq<u8>;

/// the file a path-like argument names
pub uninterp spec fn name_of_arg<P>(p: P) -> VSeq<u8>;

pub broadcast axiom fn ax_path_arg(p: &std::path::Path)
    ensures
        #[trigger] name_of_arg::<&std::path::Path>(p) == name_of(p),
;

pub broadcast axiom fn ax_path_buf_arg(p: &std::path::PathBuf)
    ensures
        #[trigger] name_of_arg::<&std::path::PathBuf>(p) == name_of_buf(*p),
;

/// the file system as a command finds it: it does not change while the command reads it
pub uninterp spec fn fs_exists(name: VSeq<u8>) -> bool;

pub uninterp spec fn fs_content(name: VSeq<u8>) -> VSeq<u8>;

/// opening or reading the file runs into a fault (permission, directory, device)
pub uninterp spec fn fs_faulty(name: VSeq<u8>) -> bool;

#[verifier::allow(undeclared_external_trait)]
pub assume_specification<P: AsRef<std::path::Path>>[ std::fs::File::open::<P> ](p: P) -> (r: io::Result<std::fs::File>)
    ensures
        match r {
            Ok(f) => fs_exists(name_of_arg(p)) && f.rest() == fs_content(name_of_arg(p)) && f.faulty() == fs_faulty(name_of_arg(p)),
            Err(_) => !fs_exists(name_of_arg(p)) || fs_faulty(name_of_arg(p)),
        },
;

pub assume_specification[ std::path::Path::exists ](p: &std::path::Path) -> (r: bool)
    ensures
        r == fs_exists(name_of(p)),
;

pub assume_specification[ std::path::Path::to_path_buf ](p: &std::path::Path) -> (r: std::path::PathBuf)
    ensures
        name_of_buf(r) == name_of(p),
;

pub assume_specification[ <std::path::PathBuf as std::ops::Deref>::deref ](p: &std::path::PathBuf) -> (r: &std::path::Path)
    ensures
        name_of(r) == name_of_buf(*p),
;

#[verifier::external_type_specification]
pub struct ExErrorKind(io::ErrorKind);

/// `io::Error::new` (its bound on E is beyond the verifier); nothing is assumed of the error
#[verifier::external_body]
pub fn vx_io_error<E>(kind: io::ErrorKind, e: E) -> (r: io::Error) {
    unimplemented!()
}

/// number of bytes up to and including the first newline, or all of them
pub open spec fn line_length(s: VSeq<u8>) -> int
    decreases s.len(),
{
    if s.len() == 0 {
        0
    } else if s[0] == 10u8 {
        1
    } else {
        1 + line_length(s.skip(1))
    }
}

/// the bytes are valid UTF-8
pub open spec fn utf8(s: VSeq<u8>) -> bool {
    vstd::utf8::valid_utf8(s)
}

pub proof fn lemma_utf8_concat(a: VSeq<u8>, b: VSeq<u8>)
    requires
        utf8(a),
        utf8(b),
    ensures
        utf8(a + b),
{
    vstd::utf8::valid_utf8_concat(a, b);
}

/// what follows a valid prefix of valid text is valid
pub proof fn lemma_utf8_rest(a: VSeq<u8>, b: VSeq<u8>)
    requires
        utf8(a + b),
        utf8(a),
    ensures
        utf8(b),
    decreases a.len(),
{
    if a.len() == 0 {
        assert(a + b == b);
    } else {
        let n = vstd::utf8::length_of_first_scalar(a);
        assert(vstd::utf8::valid_first_scalar(a));
        let p = vstd::utf8::pop_first_scalar(a);
        assert((a + b)[0] == a[0]);
        assert(vstd::utf8::length_of_first_scalar(a + b) == n);
        assert(vstd::utf8::pop_first_scalar(a + b) =~= p + b);
        lemma_utf8_rest(p, b);
    }
}

pub broadcast proof fn lemma_utf8_string(s: String)
    ensures
        utf8(#[trigger] sbytes(s)),
{
    vstd::utf8::encode_utf8_valid_utf8(s@);
}
@bottom
