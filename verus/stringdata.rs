//@props P08
//@title string values and the string builder, for texts of every length, representation and range
//@assume a `str` is its bytes (`as_bytes`, `from_utf8_unchecked`), which are well-formed UTF-8 (the precondition); `from_utf8` succeeds on well-formed UTF-8 exactly
//@assume `str::find`, `str::trim*` and `CharIndices` of the standard library: the first character with the property, what is left without the white space (wherever that may be), one character after the other
//@assume a predicate given to take_while answers for a character what an uninterpreted predicate says
use vstd::prelude::*;

verus! {

//@uses bytedata.rs
//@include utf8.rs
//@include text.rs
pub open spec fn at(h: Seq<u8>, n: Seq<u8>, p: int) -> bool { find::at(h, n, p) }

// ---- what lies outside: `str` ----

impl Bytes {
    fn as_bytes(&self) -> (r: &Bytes)
        ensures r == self
    { self }
    /// `str::find`
    #[verifier::external_body]
    fn v_find_byte(&self, b: u8) -> (r: Option<usize>)
        requires valid(self@), b < 0x80
        ensures match r {
            Some(p) => p < self@.len() && self@[p as int] == b && forall|j: int| 0 <= j < p ==> self@[j] != b,
            None => forall|j: int| 0 <= j < self@.len() ==> self@[j] != b,
        }
    { unimplemented!() }
    #[verifier::external_body]
    fn v_find<F>(&self, f: &F, want: bool) -> (r: Option<usize>)
        requires valid(self@)
        ensures match r {
            Some(p) => p < self@.len() && p == run(self@, *f, !want),
            None => self@.len() == run(self@, *f, !want),
        }
    { unimplemented!() }
    #[verifier::external_body]
    fn trim(&self) -> (r: Trimmed<'_>)
        requires valid(self@)
        ensures r.s == self, r.lo == trimmed(self@).0, r.hi == trimmed(self@).1, cuts(self@, r.lo as int, r.hi as int)
    { unimplemented!() }
    #[verifier::external_body]
    fn trim_start(&self) -> (r: Trimmed<'_>)
        requires valid(self@)
        ensures r.s == self, r.lo == spaces(self@), r.hi == self@.len(), cuts(self@, r.lo as int, r.hi as int)
    { unimplemented!() }
    #[verifier::external_body]
    fn trim_end(&self) -> (r: Trimmed<'_>)
        requires valid(self@)
        ensures r.s == self, r.lo == 0, r.hi == spaced(self@), cuts(self@, r.lo as int, r.hi as int)
    { unimplemented!() }
    fn char_indices(&self) -> (r: CharIndices<'_>)
        requires valid(self@)
        ensures r.s == self, r.at == 0
    { CharIndices { s: self, at: 0 } }
}
/// Where the white space at the start ends, and where the white space at the end begins.
pub uninterp spec fn spaces(s: Seq<u8>) -> int;
pub uninterp spec fn spaced(s: Seq<u8>) -> int;
/// A text of white space only is trimmed to nothing, at its start or at its end.
pub uninterp spec fn trimmed(s: Seq<u8>) -> (int, int);
pub open spec fn cuts(s: Seq<u8>, i: int, j: int) -> bool { 0 <= i <= j <= s.len() && bnd(s, i) && bnd(s, j) }
/// Part of a text, with its place.
pub struct Trimmed<'x> { pub s: &'x Bytes, pub lo: usize, pub hi: usize }
impl<'x> Trimmed<'x> {
    fn len(&self) -> (r: usize)
        requires self.lo <= self.hi
        ensures r == self.hi - self.lo
    { self.hi - self.lo }
    /// The difference of the addresses of the part and of the whole.
    fn v_place(&self, whole: &Bytes) -> (r: usize)
        requires whole@ == self.s@
        ensures r == self.lo
    { self.lo }
}
pub struct CharIndices<'x> { pub s: &'x Bytes, pub at: usize }
impl<'x> CharIndices<'x> {
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<(usize, char)>)
        requires old(self).at <= old(self).s@.len(), valid(old(self).s@), bnd(old(self).s@, old(self).at as int)
        ensures
            final(self).s == old(self).s,
            r is None <==> old(self).at == old(self).s@.len(), r is None ==> final(self).at == old(self).at,
            r matches Some((i, c)) ==> i == old(self).at && c as int == value(old(self).s@.skip(i as int)) && final(self).at == i + width(old(self).s@.skip(i as int))
                && width(old(self).s@.skip(i as int)) > 0 && final(self).at <= old(self).s@.len() && bnd(old(self).s@, final(self).at as int),
    { unimplemented!() }
}
/// Bytes as the text they are.
fn v_text<'x>(b: &'x Bytes) -> (r: &'x Bytes)
    requires valid(b@)
    ensures r == b
{ b }
pub struct Utf8Error;
#[verifier::external_body]
fn v_from_utf8<'x>(b: &'x Bytes) -> (r: Result<&'x Bytes, Utf8Error>)
    ensures r is Ok == valid(b@), r matches Ok(x) ==> x == b
{ unimplemented!() }

/// Answers of a predicate that depend on the character only.
pub uninterp spec fn holds_for<F>(f: F, c: int) -> bool;
/// The number of bytes of the leading characters for which f answers `yes`.
pub open spec fn run<F>(s: Seq<u8>, f: F, yes: bool) -> int
    decreases s.len()
{ if width(s) > 0 && holds_for(f, value(s)) == yes { width(s) + run(s.skip(width(s)), f, yes) } else { 0 } }
proof fn run_bnd<F>(s: Seq<u8>, f: F, yes: bool)
    requires valid(s)
    ensures bnd(s, run(s, f, yes))
    decreases s.len()
{
    valid_first(s);
    if width(s) > 0 && holds_for(f, value(s)) == yes {
        let w = width(s);
        run_bnd(s.skip(w), f, yes);
        let r = run(s.skip(w), f, yes);
        if w + r < s.len() { assert(s.skip(w)[r] == s[w + r]); }
    }
}
/// Behind a one-byte character a text may be cut.
proof fn behind(s: Seq<u8>, p: int)
    requires valid(s), 0 <= p < s.len(), s[p] < 0x80
    ensures bnd(s, p), bnd(s, p + 1)
{
    let n = seq![s[p]];
    assert(n.skip(1) =~= Seq::<u8>::empty());
    assert(width(n) == 1);
    assert(valid(n.skip(1)));
    assert(valid(n));
    assert(s.subrange(p, p + 1) =~= n);
    needle_bnd(s, n, p);
}
/// The pieces of a text are texts.
proof fn pieces_valid(s: Seq<u8>, n: Seq<u8>)
    requires valid(s), valid(n)
    ensures forall|i: int| 0 <= i < pieces(s, n).len() ==> valid(#[trigger] pieces(s, n)[i])
    decreases s.len()
{
    if s.len() > 0 && !absent(s, n) {
        there(s, n, choose|p: int| find::at(s, n, p));
        let p = where_first(s, n);
        needle_bnd(s, n, p);
        valid_cut(s, p);
        valid_cut(s, p + n.len());
        pieces_valid(s.skip(p + n.len()), n);
        let w = pieces(s.skip(p + n.len()), n);
        assert forall|i: int| 0 <= i < pieces(s, n).len() implies valid(#[trigger] pieces(s, n)[i]) by {
            if i > 0 { assert(pieces(s, n)[i] == w[i - 1]); }
        }
    }
}
/// How the byte of a boundary looks.
proof fn marks_bnd()
    ensures forall|b: u8| #![trigger b & 0b1100_0000] (b & 0b1100_0000 == 0b1000_0000) <==> cont(b)
{ bits(); }

// ---- string values ----

//@item stringdata.rs struct StringData
impl<'a> View for StringData<'a> { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.data@ } }

pub open spec fn cut_ok<R: RangeBounds<usize>>(s: Seq<u8>, r: R) -> bool { in_range(r, s.len() as int) && cuts(s, first(r), past(r, s.len() as int)) }
/// The pieces of a text, as texts.
pub struct Texts<'a, 'b>(pub It<'a, 'b>);
impl<'a, 'b> It<'a, 'b> {
    /// `map` to the text each piece is.
    fn v_texts(self) -> (r: Texts<'a, 'b>)
        requires self.0.wf(), forall|i: int| 0 <= i < self.left().len() ==> valid(#[trigger] self.left()[i])
        ensures r.0 == self
    { Texts(self) }
}

impl<'a> StringData<'a> {
    pub open spec fn wf(&self) -> bool { self.data.wf() && valid(self@) }

//@fn stringdata.rs StringData::empty
//@ret r
//@spec
    ensures r.wf(), r@ =~= Seq::<u8>::empty(), r.data.own()
//@end

//@fn stringdata.rs StringData::from_static
//@ret r
//@sig &'static str => &'static Bytes
//@spec
    requires valid(dat@), dat.lasting()
    ensures r.wf(), r@ =~= dat@, r.data.own()
//@end

//@fn stringdata.rs StringData::from_borrowed
//@ret r
//@sig &'a str => &'a Bytes
//@spec
    requires valid(dat@)
    ensures r.wf(), r@ =~= dat@
//@end

//@fn stringdata.rs StringData::try_from_shared
//@ret r
//@opt core::str::from_utf8 ( dat . as_slice ( ) ) => v_from_utf8(Bytes::v_of(dat.as_slice()))
//@spec
    requires dat.wf()
    ensures r is Ok == valid(dat@), r matches Ok(x) ==> x.wf() && x@ =~= dat@, r matches Err(e) ==> e == dat
//@end

//@fn stringdata.rs StringData::try_from_bytedata
//@ret r
//@opt core::str::from_utf8 ( dat . as_slice ( ) ) => v_from_utf8(dat.as_slice())
//@spec
    requires dat.wf()
    ensures r is Ok == valid(dat@), r matches Ok(x) ==> x.wf() && x@ =~= dat@ && x.data == dat, r matches Err(e) ==> e == dat
//@end

//@fn stringdata.rs StringData::from_bytedata_unchecked
//@ret r
//@spec
    requires dat.wf(), valid(dat@)
    ensures r.wf(), r.data == dat
//@end

//@fn stringdata.rs StringData::into_bytedata
//@ret r
//@opt core::mem::transmute ( self ) => self.data
//@spec
    requires self.wf()
    ensures r == self.data
//@end

//@fn stringdata.rs StringData::as_bytedata
//@ret r
//@spec
    ensures *r == self.data
//@end

//@fn stringdata.rs StringData::as_bytes
//@ret r
//@sig & [ u8 ] => &Bytes
//@spec
    requires self.wf()
    ensures r@ == self@
//@end

//@fn stringdata.rs StringData::as_borrowed
//@ret r
//@sig &'a str => &'a Bytes
//@opt core::str::from_utf8_unchecked ( $(x) ) => v_text($(x))
//@spec
    requires self.wf()
    ensures r is Some == (self.data is Slice), r matches Some(b) ==> b@ =~= self@
//@end

//@fn stringdata.rs StringData::as_str
//@ret r
//@sig & str => &Bytes
//@opt core::str::from_utf8_unchecked ( $(x) ) => v_text($(x))
//@spec
    requires self.wf()
    ensures r@ == self@
//@end

//@fn stringdata.rs StringData::len
//@ret r
//@spec
    requires self.wf()
    ensures r == self@.len()
//@end

//@fn stringdata.rs StringData::is_empty
//@ret r
//@spec
    requires self.wf()
    ensures r == (self@.len() == 0)
//@end

//@fn stringdata.rs StringData::eq_const
//@ret r
//@sub const_eq ( $(a) , $(b) ) => find::const_eq($(a).v_raw(), $(b).v_raw())
//@spec
    requires self.wf(), other.wf()
    ensures r == (self@ =~= other@)
//@end

//@fn stringdata.rs StringData::eq_slice
//@ret r
//@sub const_eq ( $(a) , $(b) ) => find::const_eq($(a).v_raw(), $(b))
//@spec
    requires self.wf()
    ensures r == (self@ =~= other@)
//@end

//@fn stringdata.rs StringData::eq_str
//@ret r
//@sig & str => &Bytes
//@sub const_eq ( $(a) , $(b) ) => find::const_eq($(a).v_raw(), $(b).v_raw())
//@spec
    requires self.wf()
    ensures r == (self@ =~= other@)
//@end

//@fn stringdata.rs StringData::starts_with
//@ret r
//@sig & str => &Bytes
//@sub const_starts_with ( $(a) , $(b) ) => find::const_starts_with($(a).v_raw(), $(b).v_raw())
//@spec
    requires self.wf()
    ensures r == at(self@, needle@, 0)
//@end

//@fn stringdata.rs StringData::ends_with
//@ret r
//@sig & str => &Bytes
//@sub const_ends_with ( $(a) , $(b) ) => find::const_ends_with($(a).v_raw(), $(b).v_raw())
//@spec
    requires self.wf()
    ensures r == at(self@, needle@, self@.len() - needle@.len())
//@end

//@fn stringdata.rs StringData::trim
//@ret r
//@sub $x . as_ptr ( ) as usize - self . as_str ( ) . as_ptr ( ) as usize => $x.v_place(self.as_str())
//@spec
    requires self.wf()
    ensures r.wf(), r@ =~= self@.subrange(trimmed(self@).0, trimmed(self@).1)
//@end

//@fn stringdata.rs StringData::trim_start
//@ret r
//@sub $x . as_ptr ( ) as usize - self . as_str ( ) . as_ptr ( ) as usize => $x.v_place(self.as_str())
//@spec
    requires self.wf()
    ensures r.wf(), r@ =~= self@.skip(spaces(self@))
//@end

//@fn stringdata.rs StringData::trim_end
//@ret r
//@opt $x . as_ptr ( ) as usize - self . as_str ( ) . as_ptr ( ) as usize => $x.v_place(self.as_str())
//@spec
    requires self.wf()
    ensures r.wf(), r@ =~= self@.take(spaced(self@))
//@end

//@fn stringdata.rs StringData::check_sliced
//@ret r
//@sig + SliceIndex < str , Output = str >> => >
//@refuse !cut_ok(self@, range)
//@sub unwrap_or_else ( || panic ! ( $(m) ) ) => v_or(Ghost(yes(!cut_ok(self@, range))))
//@opt by [ $(i) ] => by.v_byte($(i))
//@spec
    requires self.wf()
    ensures cut_ok(self@, range), r.start == first(range), r.end == past(range, self@.len() as int)
//@at start
    proof { marks_bnd(); valid_first(self@); }
//@end

//@fn stringdata.rs StringData::sliced
//@ret r
//@sig + SliceIndex < str , Output = str >> => >
//@spec
    requires self.wf()
    ensures
        cut_ok(self@, range), r.wf(), r@ =~= self@.subrange(first(range), past(range, self@.len() as int)), self.data.own() ==> r.data.own()
//@refuse !cut_ok(self@, range)
//@at start
    let ghost whole = range;
    proof { assert(cut_ok(self@, whole) ==> valid(self@.subrange(first(whole), past(whole, self@.len() as int)))) by { if cut_ok(self@, whole) { valid_between(self@, first(whole), past(whole, self@.len() as int)); } } }
//@end

//@fn stringdata.rs StringData::into_sliced
//@ret r
//@sig + SliceIndex < str , Output = str >> => >
//@refuse !cut_ok(whole, range)
//@spec
    requires self.wf()
    ensures
        cut_ok(self@, range), r.wf(), r@ =~= self@.subrange(first(range), past(range, self@.len() as int)), self.data.own() ==> r.data.own()
//@at start
    let ghost whole = self@;
    proof { assert(cut_ok(self@, range) ==> valid(self@.subrange(first(range), past(range, self@.len() as int)))) by { if cut_ok(self@, range) { valid_between(self@, first(range), past(range, self@.len() as int)); } } }
//@end

//@fn stringdata.rs StringData::make_sliced
//@sig + SliceIndex < str , Output = str >> => >
//@refuse !cut_ok(old(self)@, range)
//@spec
    requires old(self).wf()
    ensures
        cut_ok(old(self)@, range), final(self).wf(), final(self)@ =~= old(self)@.subrange(first(range), past(range, old(self)@.len() as int)),
        old(self).data.own() ==> final(self).data.own()
//@at start
    proof { assert(cut_ok(self@, range) ==> valid(self@.subrange(first(range), past(range, self@.len() as int)))) by { if cut_ok(self@, range) { valid_between(self@, first(range), past(range, self@.len() as int)); } } }
//@end

//@fn stringdata.rs StringData::take_while
//@ret r
//@sig F : FnMut ( char ) -> bool => F
//@sig mut fun => fun
//@opt . find ( | ch | ! fun ( ch ) ) => .v_find(&fun, false)
//@opt . find ( | ch | fun ( ch ) ) => .v_find(&fun, true)
//@opt core::mem::replace ( self , $(x) ) => v_replace(self, $(x))
//@spec
    requires old(self).wf()
    ensures
        r.wf(), final(self).wf(), r@ =~= old(self)@.take(run(old(self)@, fun, true)), final(self)@ =~= old(self)@.skip(run(old(self)@, fun, true)),
        old(self).data.own() ==> r.data.own() && final(self).data.own()
//@at start
    proof { run_bnd(self@, fun, true); valid_first(self@); }
//@end

//@fn stringdata.rs StringData::take_line
//@ret r
//@opt . find ( '\n' ) => .v_find_byte(10)
//@opt core::mem::replace ( self , $(x) ) => v_replace(self, $(x))
//@spec
    requires old(self).wf()
    ensures
        r.wf(), final(self).wf(), r@ + final(self)@ =~= old(self)@, old(self).data.own() ==> r.data.own() && final(self).data.own(),
        forall|j: int| 0 <= j < r@.len() - 1 ==> r@[j] != 10,
        r@.len() == 0 || r@.last() != 10 ==> final(self)@.len() == 0,
        old(self)@.len() > 0 ==> r@.len() > 0
//@at start
    proof { valid_first(self@); assert forall|p: int| 0 <= p < self@.len() && #[trigger] self@[p] == 10 implies bnd(self@, p + 1) by { behind(self@, p); } }
//@end

//@fn stringdata.rs StringData::split_at
//@ret r
//@refuse !bnd(whole, position as int)
//@spec
    requires self.wf()
    ensures
        bnd(self@, position as int), r.0.wf(), r.1.wf(), r.0@ =~= self@.take(position as int), r.1@ =~= self@.skip(position as int),
        self.data.own() ==> r.0.data.own() && r.1.data.own()
//@at start
    let ghost whole = self@;
    proof { valid_first(self@); }
//@end

//@fn stringdata.rs StringData::split_once_on
//@ret r
//@sig & str => &Bytes
//@sub const_split_once_bytes ( $(a) , $(b) ) => find::const_split_once_bytes($(a).v_raw(), $(b).v_raw())
//@spec
    requires self.wf(), valid(needle@)
    ensures
        r is Ok <==> exists|p: int| find::at(self@, needle@, p),
        r matches Ok((a, b)) ==> a.wf() && b.wf() && a@ + b@ =~= self@ && find::at(self@, needle@, a@.len() as int)
            && forall|j: int| 0 <= j < a@.len() ==> !find::at(self@, needle@, j),
        r matches Err(e) ==> e == self
//@at start
    proof { valid_first(self@); assert forall|p: int| #[trigger] find::at(self@, needle@, p) && needle@.len() > 0 implies bnd(self@, p) by { needle_bnd(self@, needle@, p); } }
    proof { assert forall|p: int| needle@.len() == 0 && 0 <= p <= self@.len() implies #[trigger] find::at(self@, needle@, p) by { assert(self@.subrange(p, p) =~= needle@); } }
//@end

//@fn stringdata.rs StringData::split_on
//@ret r
//@sig &'b str => &'b Bytes
//@sig impl Iterator<Item = Self> + Send + 'b => Texts<'a, 'b>
//@sig where 'a : 'b => where 'a: 'b
//@opt . split_on ( $(n) ) => .split_on($(n).v_raw())
//@opt . map ( | x | unsafe { Self::from_bytedata_unchecked ( x ) } ) => .v_texts()
//@spec
    requires self.wf(), valid(needle@)
    ensures r.0.0.wf(), r.0.left() == pieces(self@, needle@), forall|i: int| 0 <= i < r.0.left().len() ==> valid(#[trigger] r.0.left()[i])
//@at start
    proof { pieces_valid(self@, needle@); }
//@end

//@fn stringdata.rs StringData::into_shared
//@ret r
//@spec
    requires self.wf()
    ensures r.wf(), r@ =~= self@, r.data.own()
//@end

//@fn stringdata.rs StringData::into_shared_range
//@ret r
//@sig + SliceIndex < str , Output = str >> => >
//@refuse !cut_ok(whole, range)
//@spec
    requires self.wf()
    ensures cut_ok(self@, range), r.wf(), r@ =~= self@.subrange(first(range), past(range, self@.len() as int)), r.data.own()
//@at start
    let ghost whole = self@;
    proof { assert(cut_ok(self@, range) ==> valid(self@.subrange(first(range), past(range, self@.len() as int)))) by { if cut_ok(self@, range) { valid_between(self@, first(range), past(range, self@.len() as int)); } } }
//@end

//@fn stringdata.rs <StringData as Iterator>::next
//@ret r
//@sig Self::Item => char
//@spec
    requires old(self).wf()
    ensures
        final(self).wf(), r is Some == (old(self)@.len() > 0), r is None ==> final(self)@ =~= old(self)@,
        r matches Some(c) ==> c as int == value(old(self)@) && final(self)@ =~= old(self)@.skip(width(old(self)@))
//@at start
    proof { valid_first(self@); assert(self@.skip(0) =~= self@); }
//@end
}

// ---- the string builder ----

/// `char::encode_utf8`
#[verifier::external_body]
fn v_encode(c: char) -> (r: &'static Bytes)
    ensures width(r@) == r@.len(), r@.len() > 0, value(r@) == c as int
{ unimplemented!() }

//@item shared_str_builder.rs struct SharedStrBuilder
impl View for SharedStrBuilder { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.inner@ } }
impl SharedStrBuilder {
    pub open spec fn wf(&self) -> bool { self.inner.wf() && valid(self@) }

//@fn shared_str_builder.rs SharedStrBuilder::new
//@ret r
//@spec
    ensures r.wf(), r@ =~= Seq::<u8>::empty(), r.inner.align == 4
//@end

//@fn shared_str_builder.rs SharedStrBuilder::with_capacity
//@ret r
//@spec
    ensures r.wf(), r@ =~= Seq::<u8>::empty(), r.inner.align == 4, r.inner.room() >= capacity
//@at start
    proof { assert(valid(Seq::<u8>::empty())); }
//@end

//@fn shared_str_builder.rs SharedStrBuilder::push
//@sub let mut buf : [ u8 ; 4 ] = $(x) ; =>
//@sub ch . encode_utf8 ( & mut buf ) => v_encode(ch)
//@sub extend_from_slice ( $(x) ) => extend_from_slice($(x).v_raw_of())
//@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).inner.align == old(self).inner.align, final(self)@.take(old(self)@.len() as int) =~= old(self)@,
        final(self)@.len() > old(self)@.len(),
        width(final(self)@.skip(old(self)@.len() as int)) == final(self)@.len() - old(self)@.len(),
        value(final(self)@.skip(old(self)@.len() as int)) == ch as int,
//@at start
    let ghost was = self@;
//@at end
    proof { let b = self@.skip(was.len() as int); assert(b.skip(b.len() as int) =~= Seq::<u8>::empty()); assert(valid(b.skip(width(b)))); assert(valid(b)); valid_join(was, b); assert(was + b =~= self@); }
//@end

//@fn shared_str_builder.rs SharedStrBuilder::push_str
//@sig & str => &Bytes
//@sub extend_from_slice ( $(x) ) => extend_from_slice($(x).v_raw_of())
//@spec
    requires old(self).wf(), valid(str_data@)
    ensures final(self).wf(), final(self)@ =~= old(self)@ + str_data@, final(self).inner.align == old(self).inner.align, old(self).inner.off + str_data@.len() <= MAX
//@at start
    proof { valid_join(self@, str_data@); }
//@end

//@fn shared_str_builder.rs SharedStrBuilder::reserve
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self)@ =~= old(self)@
//@end

//@fn shared_str_builder.rs SharedStrBuilder::clear
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self)@ =~= Seq::<u8>::empty()
//@end

//@fn shared_str_builder.rs SharedStrBuilder::truncate
//@refuse len < old(self)@.len() && !bnd(old(self)@, len as int)
//@spec
    requires old(self).wf()
    ensures
        len < old(self)@.len() ==> bnd(old(self)@, len as int),
        final(self).wf(), final(self)@ =~= (if len < old(self)@.len() { old(self)@.take(len as int) } else { old(self)@ })
//@at start
    proof { marks_bnd(); if len < self@.len() && bnd(self@, len as int) { valid_cut(self@, len as int); } }
//@end

//@fn shared_str_builder.rs SharedStrBuilder::is_empty
//@ret r
//@spec
    requires self.wf()
    ensures r == (self@.len() == 0)
//@end

//@fn shared_str_builder.rs SharedStrBuilder::len
//@ret r
//@spec
    requires self.wf()
    ensures r == self@.len()
//@end

//@fn shared_str_builder.rs SharedStrBuilder::capacity
//@ret r
//@spec
    requires self.wf()
    ensures r >= self@.len()
//@end

//@fn shared_str_builder.rs SharedStrBuilder::as_bytes
//@ret r
//@spec
    requires self.wf()
    ensures r@ =~= self@
//@end

//@fn shared_str_builder.rs SharedStrBuilder::as_str
//@ret r
//@sig & str => &Bytes
//@opt core::str::from_utf8_unchecked ( $(x) ) => v_text(Bytes::v_of($(x)))
//@spec
    requires self.wf()
    ensures r@ =~= self@
//@end

//@fn shared_str_builder.rs SharedStrBuilder::build
//@ret r
//@spec
    requires self.wf()
    ensures r.wf(), r@ =~= self@
//@end

//@fn shared_str_builder.rs SharedStrBuilder::build_str
//@ret r
//@sub self . inner . into ( ) => ByteData::from_builder(self.inner)
//@opt super::StringData => StringData
//@spec
    requires self.wf()
    ensures r.wf(), r@ =~= self@, r.data.own()
//@end

//@fn shared_str_builder.rs SharedStrBuilder::into_shared_bytes_builder
//@ret r
//@sub core::mem::transmute::<Self , SharedBytesBuilder> ( self ) => self.inner
//@spec
    requires self.wf()
    ensures r == self.inner
//@end

//@fn shared_str_builder.rs <SharedStrBuilder as From<&str>>::from as from_text
//@ret r
//@sig &'a str => &Bytes
//@spec
    requires valid(value@)
    ensures r.wf(), r@ =~= value@
//@end

//@fn shared_str_builder.rs <SharedStrBuilder as TryFrom<SharedBytesBuilder>>::try_from as try_from_builder
//@ret r
//@sig Self::Error => Utf8Error
//@opt core::str::from_utf8 ( value . as_slice ( ) ) => v_from_utf8(Bytes::v_of(value.as_slice()))
//@spec
    requires value.wf()
    ensures r is Ok == valid(value@), r matches Ok(x) ==> x.wf() && x.inner == value
//@end

//@fn shared_str_builder.rs <SharedStrBuilder as From<StringData>>::from as from_value
//@ret r
//@sub SharedBytes::from ( $(x) ) => SharedBytes::from_value($(x))
//@spec
    requires value.wf()
    ensures r.wf(), r@ =~= value@
//@end
}

// ---- owned text ----

pub open spec fn concat_text(v: Seq<&Bytes>) -> Seq<u8>
    decreases v.len()
{ if v.len() == 0 { seq![] } else { concat_text(v.drop_last()) + v.last()@ } }
proof fn concat_step(v: Seq<&Bytes>, i: int)
    requires 0 <= i < v.len()
    ensures concat_text(v.take(i + 1)) == concat_text(v.take(i)) + v[i]@
{ assert(v.take(i + 1).drop_last() =~= v.take(i)); }
proof fn concat_mono(v: Seq<&Bytes>, i: int)
    requires 0 <= i <= v.len()
    ensures concat_text(v.take(i)).len() <= concat_text(v).len()
    decreases v.len() - i
{
    if i < v.len() { concat_step(v, i); concat_mono(v, i + 1); } else { assert(v.take(i) =~= v); }
}
proof fn concat_valid(v: Seq<&Bytes>)
    requires forall|i: int| 0 <= i < v.len() ==> valid(#[trigger] v[i]@)
    ensures valid(concat_text(v))
    decreases v.len()
{
    if v.len() > 0 {
        assert forall|i: int| 0 <= i < v.drop_last().len() implies valid(#[trigger] v.drop_last()[i]@) by { assert(v.drop_last()[i] == v[i]); }
        concat_valid(v.drop_last());
        valid_join(concat_text(v.drop_last()), v.last()@);
    }
}
/// The texts one after the other (`for x in dat`).
pub struct EachText<'x, 'y> { pub s: &'x [&'y Bytes], pub i: usize }
impl<'x, 'y> EachText<'x, 'y> {
    pub open spec fn view(&self) -> int { self.i as int }
    fn next(&mut self) -> (r: Option<&'y Bytes>)
        requires old(self).i <= old(self).s@.len()
        ensures
            final(self).s == old(self).s,
            old(self).i < old(self).s@.len() ==> final(self).i == old(self).i + 1 && r == Some(old(self).s@[old(self).i as int]),
            old(self).i == old(self).s@.len() ==> final(self).i == old(self).i && r is None,
    { if self.i < self.s.len() { let x = self.s[self.i]; self.i = self.i + 1; Some(x) } else { None } }
}
fn v_each_text<'x, 'y>(s: &'x [&'y Bytes]) -> (r: EachText<'x, 'y>)
    ensures r.s == s, r.i == 0
{ EachText { s, i: 0 } }
/// The sum of the lengths: of texts that fit into memory.
#[verifier::external_body]
fn v_total_text(s: &[&Bytes]) -> (r: usize)
    ensures r == concat_text(s@).len()
{ unimplemented!() }

impl<'a> StringData<'a> {
//@fn stringdata.rs StringData::from_concat/from_concat_inner
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ret r
//@sig from_concat_inner<'a> => from_concat_inner<'x>
//@sig &'a str => &'x Bytes
//@sig StringData<'a> => StringData<'x>
//@sub dat . iter ( ) . map ( | x | x . len ( ) ) . sum ( ) => v_total_text(dat)
//@opt crate::ByteChunk => ByteChunk
//@opt crate::SharedStrBuilder => SharedStrBuilder
//@opt crate::ByteData => ByteData
//@sub for x in dat => for x in v_each_text(dat)
//@sub buf [ $(a) ] . copy_from_slice ( $(x) ) => ({ let w = $(a); v_put(&mut buf, w.start, w.end, $(x).v_raw_of()) })
//@sub from_chunk_slice ( & buf [ .. at ] ) => from_chunk_slice(v_front(&buf, at))
//@refuse concat_text(dat@).len() + 12 > MAX
//@spec
    requires forall|i: int| 0 <= i < dat@.len() ==> valid(#[trigger] dat@[i]@)
    ensures r.wf(), r@ =~= concat_text(dat@), r.data.own()
//@at start
    proof { concat_valid(dat@); }
//@iter 0 it
//@loop 0 for
    invariant
        it.s == dat, it.i <= dat@.len(), at == concat_text(dat@.take(it.i as int)).len(), at <= 14, buf@.take(at as int) =~= concat_text(dat@.take(it.i as int)),
        concat_text(dat@).len() <= 14
    ensures it.i == dat@.len()
    decreases dat@.len() - it.i
//@at loop 0 start
    proof { concat_step(dat@, it_0); concat_mono(dat@, it_0 + 1); }
//@at loop 0 after
    assert(dat@.take(dat@.len() as int) =~= dat@);
//@iter 1 it
//@loop 1 for
    invariant it.s == dat, it.i <= dat@.len(), buf.wf(), buf@ =~= concat_text(dat@.take(it.i as int)), buf.inner.align == 4
    ensures it.i == dat@.len()
    decreases dat@.len() - it.i
//@at loop 1 start
    proof { concat_step(dat@, it_0); concat_mono(dat@, it_0 + 1); }
//@at loop 1 after
    assert(dat@.take(dat@.len() as int) =~= dat@);
//@end

//@fn stringdata.rs StringData::from_concat
//@ret r
//@drop from_concat_inner
//@sig &'a str => &'a Bytes
//@sub from_concat_inner ( dat ) => Self::from_concat_inner(dat)
//@refuse concat_text(dat@).len() + 12 > MAX
//@spec
    requires forall|i: int| 0 <= i < dat@.len() ==> valid(#[trigger] dat@[i]@)
    ensures r.wf(), r@ =~= concat_text(dat@)
//@at start
    proof { if dat@.len() == 1 { concat_step(dat@, 0); assert(dat@.take(1) =~= dat@); assert(dat@.take(0).len() == 0); assert(concat_text(dat@.take(0)) =~= Seq::<u8>::empty()); } }
//@end

//@fn stringdata.rs StringData::from_owned
//@ret r
//@sub dat . into ( ) => ByteData::from_string(dat)
//@spec
    requires valid(dat@)
    ensures r.wf(), r@ =~= dat@, r.data.own()
//@end

//@fn stringdata.rs StringData::from_cow
//@ret r
//@sig Cow<'a , str> => CowStr<'a>
//@opt Cow::Borrowed => CowStr::Borrowed
//@opt Cow::Owned => CowStr::Owned
//@spec
    requires valid(dat@)
    ensures r.wf(), r@ =~= dat@
//@end

//@fn stringdata.rs StringData::from_cow_static
//@ret r
//@sig Cow<'static , str> => CowStr<'static>
//@opt Cow::Borrowed => CowStr::Borrowed
//@opt Cow::Owned => CowStr::Owned
//@spec
    requires valid(dat@), dat matches CowStr::Borrowed(b) ==> b.lasting()
    ensures r.wf(), r@ =~= dat@, r.data.own()
//@end

//@fn stringdata.rs <StringData as From<Cow<str>>>::from as from_any_cow
//@ret r
//@sig alloc::borrow::Cow<'a , str> => CowStr<'a>
//@opt alloc::borrow::Cow::Borrowed => CowStr::Borrowed
//@opt alloc::borrow::Cow::Owned => CowStr::Owned
//@spec
    requires valid(data@)
    ensures r.wf(), r@ =~= data@
//@end

//@fn stringdata.rs <StringData as TryFrom<SharedBytes>>::try_from as try_from_shared_bytes
//@ret r
//@sig Self::Error => SharedBytes
//@spec
    requires dat.wf()
    ensures r is Ok == valid(dat@), r matches Ok(x) ==> x.wf() && x@ =~= dat@, r matches Err(e) ==> e == dat
//@end

//@fn stringdata.rs <StringData as TryFrom<ByteData>>::try_from as try_from_value
//@ret r
//@sig Self::Error => ByteData<'a>
//@spec
    requires dat.wf()
    ensures r is Ok == valid(dat@), r matches Ok(x) ==> x.wf() && x.data == dat, r matches Err(e) ==> e == dat
//@end

//@fn stringdata.rs StringData::statically_borrowed
//@ret r
//@spec
    requires self.wf(), self.data.own()
    ensures r.wf(), r@ =~= self@, r.data.own()
//@end
}
pub enum CowStr<'a> { Borrowed(&'a Bytes), Owned(String) }
impl<'a> CowStr<'a> {
    pub open spec fn view(&self) -> Seq<u8> { match self { CowStr::Borrowed(b) => b@, CowStr::Owned(v) => v@ } }
}

} // verus!
fn main() {}
