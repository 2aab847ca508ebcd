//@props P18
//@title the input operations of the parser library on byte values and string values, of every representation
//@assume what the parser library answers for a slice or a `str` (comparison without case of texts, tokens, positions by characters) is whatever it answers; comparisons of slices and `find_substring` are what they say
use vstd::prelude::*;

verus! {

//@uses bytedata.rs
//@uses stringdata.rs
//@include nom.rs

// ---- what lies outside: nom on slices and on `str` ----

impl Bytes {
    #[verifier::external_body]
    fn v_compare(&self, b: &Bytes) -> (r: CompareResult) ensures r == compared(false, self@, b@) { unimplemented!() }
    #[verifier::external_body]
    fn v_compare_no_case(&self, b: &Bytes) -> (r: CompareResult) ensures r == compared(true, self@, b@) { unimplemented!() }
    #[verifier::external_body]
    fn v_compare_text(&self, b: &Bytes) -> (r: CompareResult)
        requires valid(self@), valid(b@)
        ensures r == compared(false, self@, b@) { unimplemented!() }
    #[verifier::external_body]
    fn v_compare_no_case_text(&self, b: &Bytes) -> (r: CompareResult)
        requires valid(self@), valid(b@)
        ensures r == text_no_case(self@, b@) { unimplemented!() }
    #[verifier::external_body]
    fn v_find_substring(&self, n: &Bytes) -> (r: Option<usize>) ensures found_at(self@, n@, r) { unimplemented!() }
    #[verifier::external_body]
    fn v_find_byte_token(&self, t: u8) -> (r: bool) ensures r == has_byte(self@, t) { unimplemented!() }
    #[verifier::external_body]
    fn v_find_char_token(&self, t: char) -> (r: bool) ensures r == has_char(self@, t) { unimplemented!() }
    #[verifier::external_body]
    fn v_find_char_token_text(&self, t: char) -> (r: bool)
        requires valid(self@)
        ensures r == has_char_text(self@, t) { unimplemented!() }
    #[verifier::external_body]
    fn v_position<F>(&self, f: &F) -> (r: Option<usize>) ensures first_of(self@, *f, r) { unimplemented!() }
    #[verifier::external_body]
    fn v_position_text<F>(&self, f: &F) -> (r: Option<usize>)
        requires valid(self@)
        ensures r == first_text(self@, *f) { unimplemented!() }
    #[verifier::external_body]
    fn v_slice_index(&self, count: usize) -> (r: Result<usize, Needed>) ensures index_answer(self@.len() as int, count, r) { unimplemented!() }
    #[verifier::external_body]
    fn v_slice_index_text(&self, count: usize) -> (r: Result<usize, Needed>)
        requires valid(self@)
        ensures r == index_text(self@, count) { unimplemented!() }
}
pub uninterp spec fn text_no_case(a: Seq<u8>, b: Seq<u8>) -> CompareResult;
pub uninterp spec fn has_char(a: Seq<u8>, c: char) -> bool;
pub uninterp spec fn has_char_text(a: Seq<u8>, c: char) -> bool;
pub uninterp spec fn index_text(a: Seq<u8>, count: usize) -> Result<usize, Needed>;
pub open spec fn has_byte(s: Seq<u8>, b: u8) -> bool { exists|j: int| 0 <= j < s.len() && #[trigger] s[j] == b }
pub open spec fn found_at(s: Seq<u8>, n: Seq<u8>, r: Option<usize>) -> bool {
    match r {
        Some(p) => find::at(s, n, p as int) && forall|j: int| 0 <= j < p ==> !find::at(s, n, j),
        None => forall|j: int| !find::at(s, n, j),
    }
}
/// The first byte the predicate holds of.
pub open spec fn first_of<F>(s: Seq<u8>, f: F, r: Option<usize>) -> bool {
    match r {
        Some(i) => i < s.len() && holds_of(f, s[i as int]) && forall|j: int| 0 <= j < i ==> !holds_of(f, #[trigger] s[j]),
        None => forall|j: int| 0 <= j < s.len() ==> !holds_of(f, #[trigger] s[j]),
    }
}
/// The first character the predicate holds of.
pub open spec fn first_text<F>(s: Seq<u8>, f: F) -> Option<usize> {
    if run(s, f, false) < s.len() { Some(run(s, f, false) as usize) } else { None }
}
#[verifier::external_body]
fn v_says<F>(f: &F, c: char) -> (r: bool) ensures r == holds_for(*f, c as int) { unimplemented!() }
/// `iter().enumerate()` of a slice.
pub struct Numbered<'x> { pub s: &'x Bytes, pub at: usize }
impl<'x> View for Numbered<'x> { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.s@.skip(self.at as int) } }
impl<'x> Numbered<'x> {
    fn next(&mut self) -> (r: Option<(usize, &'x u8)>)
        requires old(self).at <= old(self).s@.len()
        ensures final(self).s == old(self).s, match r {
            None => old(self).at == old(self).s@.len() && final(self).at == old(self).at,
            Some((i, b)) => old(self).at < old(self).s@.len() && i == old(self).at && final(self).at == i + 1 && *b == old(self).s@[i as int],
        }
    { if self.at < self.s.len() { self.at = self.at + 1; Some((self.at - 1, self.s.v_at(self.at - 1))) } else { None } }
}
fn v_numbered<'x>(s: &'x Bytes) -> (r: Numbered<'x>) ensures r.s == s, r.at == 0 { Numbered { s, at: 0 } }
impl<'a> View for ByteData<'a> { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { ByteData::view(self) } }
impl<'x> View for CharIndices<'x> { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.s@.skip(self.at as int) } }

impl<'a> ByteData<'a> {
//@fn nom_7/bytedata.rs <ByteData as AsBytes>::as_bytes as nom_as_bytes
//@ret r
//@sig [ u8 ] => Bytes
//@spec
    requires self.wf()
    ensures r@ =~= self@
//@end
//@fn nom_7/bytedata.rs <ByteData as Compare<crate::ByteData<'b>>>::compare as compare_data
//@ret r
//@sig 'b => '_
//@sig nom::CompareResult => CompareResult
//@opt nom::Compare::compare ( & self . as_slice ( ) , $(x) ) => self.as_slice().v_compare($(x))
//@opt nom::Compare::<& 'b [ u8 ]>::compare ( & self . as_slice ( ) , $(x) ) => self.as_slice().v_compare($(x))
//@opt nom::Compare::<& 'b str>::compare ( & self . as_slice ( ) , $(x) ) => self.as_slice().v_compare($(x))
//@spec
    requires self.wf(), t.wf()
    ensures r == compared(false, self@, t@)
//@end
//@fn nom_7/bytedata.rs <ByteData as Compare<crate::ByteData<'b>>>::compare_no_case as compare_no_case_data
//@ret r
//@sig 'b => '_
//@sig nom::CompareResult => CompareResult
//@opt nom::Compare::compare_no_case ( & self . as_slice ( ) , $(x) ) => self.as_slice().v_compare_no_case($(x))
//@opt nom::Compare::<& 'b [ u8 ]>::compare_no_case ( & self . as_slice ( ) , $(x) ) => self.as_slice().v_compare_no_case($(x))
//@opt nom::Compare::<& 'b str>::compare_no_case ( & self . as_slice ( ) , $(x) ) => self.as_slice().v_compare_no_case($(x))
//@spec
    requires self.wf(), t.wf()
    ensures r == compared(true, self@, t@)
//@end
//@fn nom_7/bytedata.rs <ByteData as Compare<&'c crate::ByteData<'b>>>::compare as compare_data_ref
//@ret r
//@sig 'b => '_
//@sig 'c => '_
//@sig nom::CompareResult => CompareResult
//@opt nom::Compare::compare ( & self . as_slice ( ) , $(x) ) => self.as_slice().v_compare($(x))
//@opt nom::Compare::<& 'b [ u8 ]>::compare ( & self . as_slice ( ) , $(x) ) => self.as_slice().v_compare($(x))
//@opt nom::Compare::<& 'b str>::compare ( & self . as_slice ( ) , $(x) ) => self.as_slice().v_compare($(x))
//@spec
    requires self.wf(), t.wf()
    ensures r == compared(false, self@, t@)
//@end
//@fn nom_7/bytedata.rs <ByteData as Compare<&'c crate::ByteData<'b>>>::compare_no_case as compare_no_case_data_ref
//@ret r
//@sig 'b => '_
//@sig 'c => '_
//@sig nom::CompareResult => CompareResult
//@opt nom::Compare::compare_no_case ( & self . as_slice ( ) , $(x) ) => self.as_slice().v_compare_no_case($(x))
//@opt nom::Compare::<& 'b [ u8 ]>::compare_no_case ( & self . as_slice ( ) , $(x) ) => self.as_slice().v_compare_no_case($(x))
//@opt nom::Compare::<& 'b str>::compare_no_case ( & self . as_slice ( ) , $(x) ) => self.as_slice().v_compare_no_case($(x))
//@spec
    requires self.wf(), t.wf()
    ensures r == compared(true, self@, t@)
//@end
//@fn nom_7/bytedata.rs <ByteData as Compare<&'b [u8]>>::compare as compare_slice
//@ret r
//@sig 'b => '_
//@sig nom::CompareResult => CompareResult
//@sig [ u8 ] => Bytes
//@opt nom::Compare::compare ( & self . as_slice ( ) , $(x) ) => self.as_slice().v_compare($(x))
//@opt nom::Compare::<& 'b [ u8 ]>::compare ( & self . as_slice ( ) , $(x) ) => self.as_slice().v_compare($(x))
//@opt nom::Compare::<& 'b str>::compare ( & self . as_slice ( ) , $(x) ) => self.as_slice().v_compare($(x))
//@spec
    requires self.wf()
    ensures r == compared(false, self@, t@)
//@end
//@fn nom_7/bytedata.rs <ByteData as Compare<&'b [u8]>>::compare_no_case as compare_no_case_slice
//@ret r
//@sig 'b => '_
//@sig nom::CompareResult => CompareResult
//@sig [ u8 ] => Bytes
//@opt nom::Compare::compare_no_case ( & self . as_slice ( ) , $(x) ) => self.as_slice().v_compare_no_case($(x))
//@opt nom::Compare::<& 'b [ u8 ]>::compare_no_case ( & self . as_slice ( ) , $(x) ) => self.as_slice().v_compare_no_case($(x))
//@opt nom::Compare::<& 'b str>::compare_no_case ( & self . as_slice ( ) , $(x) ) => self.as_slice().v_compare_no_case($(x))
//@spec
    requires self.wf()
    ensures r == compared(true, self@, t@)
//@end
//@fn nom_7/bytedata.rs <ByteData as Compare<&'b str>>::compare as compare_str
//@ret r
//@sig 'b => '_
//@sig nom::CompareResult => CompareResult
//@sig str => Bytes
//@opt nom::Compare::compare ( & self . as_slice ( ) , $(x) ) => self.as_slice().v_compare($(x))
//@opt nom::Compare::<& 'b [ u8 ]>::compare ( & self . as_slice ( ) , $(x) ) => self.as_slice().v_compare($(x))
//@opt nom::Compare::<& 'b str>::compare ( & self . as_slice ( ) , $(x) ) => self.as_slice().v_compare($(x))
//@spec
    requires self.wf()
    ensures r == compared(false, self@, t@)
//@end
//@fn nom_7/bytedata.rs <ByteData as Compare<&'b str>>::compare_no_case as compare_no_case_str
//@ret r
//@sig 'b => '_
//@sig nom::CompareResult => CompareResult
//@sig str => Bytes
//@opt nom::Compare::compare_no_case ( & self . as_slice ( ) , $(x) ) => self.as_slice().v_compare_no_case($(x))
//@opt nom::Compare::<& 'b [ u8 ]>::compare_no_case ( & self . as_slice ( ) , $(x) ) => self.as_slice().v_compare_no_case($(x))
//@opt nom::Compare::<& 'b str>::compare_no_case ( & self . as_slice ( ) , $(x) ) => self.as_slice().v_compare_no_case($(x))
//@spec
    requires self.wf()
    ensures r == compared(true, self@, t@)
//@end
//@fn nom_7/bytedata.rs <ByteData as FindSubstring<crate::ByteData<'b>>>::find_substring as find_substring_data
//@ret r
//@sig 'b => '_
//@sub nom::FindSubstring::find_substring ( & self . as_slice ( ) , $(x) ) => self.as_slice().v_find_substring($(x))
//@spec
    requires self.wf(), substr.wf()
    ensures found_at(self@, substr@, r)
//@end
//@fn nom_7/bytedata.rs <ByteData as FindSubstring<&'c crate::ByteData<'b>>>::find_substring as find_substring_data_ref
//@ret r
//@sig 'b => '_
//@sig 'c => '_
//@sub nom::FindSubstring::find_substring ( & self . as_slice ( ) , $(x) ) => self.as_slice().v_find_substring($(x))
//@spec
    requires self.wf(), substr.wf()
    ensures found_at(self@, substr@, r)
//@end
//@fn nom_7/bytedata.rs <ByteData as FindSubstring<&'b [u8]>>::find_substring as find_substring_slice
//@ret r
//@sig 'b => '_
//@sig [ u8 ] => Bytes
//@sub nom::FindSubstring::find_substring ( & self . as_slice ( ) , $(x) ) => self.as_slice().v_find_substring($(x))
//@spec
    requires self.wf()
    ensures found_at(self@, substr@, r)
//@end
//@fn nom_7/bytedata.rs <ByteData as FindSubstring<&'b str>>::find_substring as find_substring_str
//@ret r
//@sig 'b => '_
//@sig str => Bytes
//@sub nom::FindSubstring::find_substring ( & self . as_slice ( ) , $(x) ) => self.as_slice().v_find_substring($(x))
//@spec
    requires self.wf()
    ensures found_at(self@, substr@, r)
//@end
//@fn nom_7/bytedata.rs <ByteData as FindToken<u8>>::find_token as find_token_u8
//@ret r
//@sub nom::FindToken::find_token ( & self . as_slice ( ) , $(x) ) => self.as_slice().v_find_byte_token($(x))
//@spec
    requires self.wf()
    ensures r == has_byte(self@, token)
//@end
//@fn nom_7/bytedata.rs <ByteData as FindToken<&'b u8>>::find_token as find_token_u8_ref
//@ret r
//@sig 'b => '_
//@sub nom::FindToken::find_token ( & self . as_slice ( ) , token ) => self.as_slice().v_find_byte_token(*token)
//@spec
    requires self.wf()
    ensures r == has_byte(self@, *token)
//@end
//@fn nom_7/bytedata.rs <ByteData as FindToken<char>>::find_token as find_token_char
//@ret r
//@sub nom::FindToken::find_token ( & self . as_slice ( ) , $(x) ) => self.as_slice().v_find_char_token($(x))
//@spec
    requires self.wf()
    ensures r == has_char(self@, token)
//@end
//@fn nom_7/bytedata.rs <ByteData as FindToken<&'b char>>::find_token as find_token_char_ref
//@ret r
//@sig 'b => '_
//@sub nom::FindToken::find_token ( & self . as_slice ( ) , $(x) ) => self.as_slice().v_find_char_token($(x))
//@spec
    requires self.wf()
    ensures r == has_char(self@, *token)
//@end
//@fn nom_7/bytedata.rs <ByteData as InputIter>::iter_indices
//@ret r
//@sig Self::Iter => Enumerate<ByteData<'a>>
//@sub Iterator::enumerate => v_enumerate
//@spec
    requires self.wf()
    ensures r.iter.wf(), r.iter@ =~= self@, r.count == 0
//@end
//@fn nom_7/bytedata.rs <ByteData as InputIter>::iter_elements
//@ret r
//@sig Self::IterElem => ByteData<'a>
//@spec
    requires self.wf()
    ensures r.wf(), r@ =~= self@
//@end
//@fn nom_7/bytedata.rs <ByteData as InputIter>::position
//@ret r
//@sig where P : Fn ( Self::Item ) -> bool , =>
//@sub nom::InputIter::position ( & self . as_slice ( ) , $(p) ) => self.as_slice().v_position(&$(p))
//@spec
    requires self.wf()
    ensures first_of(self@, predicate, r)
//@end
//@fn nom_7/bytedata.rs <ByteData as InputIter>::slice_index
//@ret r
//@sig nom::Needed => Needed
//@sub nom::InputIter::slice_index ( & self . as_slice ( ) , $(p) ) => self.as_slice().v_slice_index($(p))
//@spec
    requires self.wf()
    ensures index_answer(self@.len() as int, count, r)
//@end
//@fn nom_7/bytedata.rs <ByteData as InputLength>::input_len
//@ret r
//@spec
    requires self.wf()
    ensures r == self@.len()
//@end
//@fn nom_7/bytedata.rs <ByteData as InputTake>::take as nom_take
//@ret r
//@sig Self => ByteData<'a>
//@spec
    requires self.wf()
    ensures count <= self@.len(), r.wf(), r@ =~= self@.take(count as int)
//@end
//@fn nom_7/bytedata.rs <ByteData as InputTake>::take_split as take_split
//@ret r
//@sig ( Self , Self ) => (ByteData<'a>, ByteData<'a>)
//@spec
    requires self.wf()
    ensures count <= self@.len(), r.0.wf(), r.1.wf(), r.0@ =~= self@.skip(count as int), r.1@ =~= self@.take(count as int)
//@end
//@fn nom_7/bytedata.rs <ByteData as InputTakeAtPosition>::split_at_position
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ret r
//@sig < P , E : nom::error::ParseError < Self >> => <P, E: ParseError<ByteData<'a>>>
//@sig where P : Fn ( Self::Item ) -> bool , =>
//@sig nom::IResult<Self , Self , E> => IResult<ByteData<'a>, ByteData<'a>, E>
//@sub predicate ( $(x) ) => holds(&predicate, $(x))
//@opt $x . iter ( ) . enumerate ( ) => v_numbered($x)
//@opt self . as_slice ( ) . iter ( ) . enumerate ( ) => v_numbered(self.as_slice())
//@opt nom::Err::Incomplete => NomErr::Incomplete
//@opt nom::Err::Error => NomErr::Error
//@opt nom::Err::Failure => NomErr::Failure
//@opt nom::Needed::new => Needed::new
//@spec
    requires self.wf()
    ensures forall|f: Option<usize>| #[trigger] first_of(self@, predicate, f) ==> split_answer(self@, f, false, None::<ErrorKind>, r)
//@iter 0 it
//@loop 0 for
    invariant it.s@ == self@, it.at <= self@.len(), forall|j: int| 0 <= j < it.at ==> !holds_of(predicate, #[trigger] self@[j])
    ensures it.at == self@.len()
    decreases self@.len() - it.at
//@end
//@fn nom_7/bytedata.rs <ByteData as InputTakeAtPosition>::split_at_position1
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ret r
//@sig < P , E : nom::error::ParseError < Self >> => <P, E: ParseError<ByteData<'a>>>
//@sig where P : Fn ( Self::Item ) -> bool , =>
//@sig nom::IResult<Self , Self , E> => IResult<ByteData<'a>, ByteData<'a>, E>
//@sig nom::error::ErrorKind => ErrorKind
//@sub predicate ( $(x) ) => holds(&predicate, $(x))
//@opt $x . iter ( ) . enumerate ( ) => v_numbered($x)
//@opt self . as_slice ( ) . iter ( ) . enumerate ( ) => v_numbered(self.as_slice())
//@opt nom::Err::Incomplete => NomErr::Incomplete
//@opt nom::Err::Error => NomErr::Error
//@opt nom::Err::Failure => NomErr::Failure
//@opt nom::Needed::new => Needed::new
//@spec
    requires self.wf()
    ensures forall|f: Option<usize>| #[trigger] first_of(self@, predicate, f) ==> split_answer(self@, f, false, Some(e), r)
//@iter 0 it
//@loop 0 for
    invariant it.s@ == self@, it.at <= self@.len(), forall|j: int| 0 <= j < it.at ==> !holds_of(predicate, #[trigger] self@[j])
    ensures it.at == self@.len()
    decreases self@.len() - it.at
//@end
//@fn nom_7/bytedata.rs <ByteData as InputTakeAtPosition>::split_at_position_complete
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ret r
//@sig < P , E : nom::error::ParseError < Self >> => <P, E: ParseError<ByteData<'a>>>
//@sig where P : Fn ( Self::Item ) -> bool , =>
//@sig nom::IResult<Self , Self , E> => IResult<ByteData<'a>, ByteData<'a>, E>
//@sub predicate ( $(x) ) => holds(&predicate, $(x))
//@opt $x . iter ( ) . enumerate ( ) => v_numbered($x)
//@opt self . as_slice ( ) . iter ( ) . enumerate ( ) => v_numbered(self.as_slice())
//@opt nom::Err::Incomplete => NomErr::Incomplete
//@opt nom::Err::Error => NomErr::Error
//@opt nom::Err::Failure => NomErr::Failure
//@opt nom::Needed::new => Needed::new
//@spec
    requires self.wf()
    ensures forall|f: Option<usize>| #[trigger] first_of(self@, predicate, f) ==> split_answer(self@, f, true, None::<ErrorKind>, r)
//@iter 0 it
//@loop 0 for
    invariant it.s@ == self@, it.at <= self@.len(), forall|j: int| 0 <= j < it.at ==> !holds_of(predicate, #[trigger] self@[j])
    ensures it.at == self@.len()
    decreases self@.len() - it.at
//@end
//@fn nom_7/bytedata.rs <ByteData as InputTakeAtPosition>::split_at_position1_complete
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ret r
//@sig < P , E : nom::error::ParseError < Self >> => <P, E: ParseError<ByteData<'a>>>
//@sig where P : Fn ( Self::Item ) -> bool , =>
//@sig nom::IResult<Self , Self , E> => IResult<ByteData<'a>, ByteData<'a>, E>
//@sig nom::error::ErrorKind => ErrorKind
//@sub predicate ( $(x) ) => holds(&predicate, $(x))
//@opt $x . iter ( ) . enumerate ( ) => v_numbered($x)
//@opt self . as_slice ( ) . iter ( ) . enumerate ( ) => v_numbered(self.as_slice())
//@opt nom::Err::Incomplete => NomErr::Incomplete
//@opt nom::Err::Error => NomErr::Error
//@opt nom::Err::Failure => NomErr::Failure
//@opt nom::Needed::new => Needed::new
//@spec
    requires self.wf()
    ensures forall|f: Option<usize>| #[trigger] first_of(self@, predicate, f) ==> split_answer(self@, f, true, Some(e), r)
//@iter 0 it
//@loop 0 for
    invariant it.s@ == self@, it.at <= self@.len(), forall|j: int| 0 <= j < it.at ==> !holds_of(predicate, #[trigger] self@[j])
    ensures it.at == self@.len()
    decreases self@.len() - it.at
//@end
//@fn nom_7/bytedata.rs <ByteData as Slice<core::ops::Range<usize>>>::slice as nom_slice_range
//@ret r
//@sig Self => ByteData<'a>
//@spec
    requires self.wf()
    ensures in_range(range, self@.len() as int), r.wf(), r@ =~= self@.subrange(first(range), past(range, self@.len() as int))
//@end
//@fn nom_7/bytedata.rs <ByteData as Slice<core::ops::RangeTo<usize>>>::slice as nom_slice_to
//@ret r
//@sig Self => ByteData<'a>
//@spec
    requires self.wf()
    ensures in_range(range, self@.len() as int), r.wf(), r@ =~= self@.subrange(first(range), past(range, self@.len() as int))
//@end
//@fn nom_7/bytedata.rs <ByteData as Slice<core::ops::RangeFrom<usize>>>::slice as nom_slice_from
//@ret r
//@sig Self => ByteData<'a>
//@spec
    requires self.wf()
    ensures in_range(range, self@.len() as int), r.wf(), r@ =~= self@.subrange(first(range), past(range, self@.len() as int))
//@end
//@fn nom_7/bytedata.rs <ByteData as Slice<core::ops::RangeFull>>::slice as nom_slice_full
//@ret r
//@sig Self => ByteData<'a>
//@spec
    requires self.wf()
    ensures in_range(range, self@.len() as int), r.wf(), r@ =~= self@.subrange(first(range), past(range, self@.len() as int))
//@end
}
impl<'a> StringData<'a> {
    /// Derived: the copy of the value in it.
    fn v_clone(&self) -> (r: StringData<'a>)
        requires self.wf()
        ensures r.wf(), r@ =~= self@
    { StringData { data: self.data.clone() } }
//@fn nom_7/stringdata.rs <StringData as AsBytes>::as_bytes as nom_as_bytes
//@ret r
//@sig [ u8 ] => Bytes
//@spec
    requires self.wf()
    ensures r@ =~= self@
//@end
//@fn nom_7/stringdata.rs <StringData as Compare<crate::ByteData<'b>>>::compare as compare_data
//@ret r
//@sig 'b => '_
//@sig nom::CompareResult => CompareResult
//@opt nom::Compare::compare ( & self . as_bytes ( ) , $(x) ) => self.as_bytes().v_compare($(x))
//@opt nom::Compare::<& 'b [ u8 ]>::compare ( & self . as_bytes ( ) , $(x) ) => self.as_bytes().v_compare($(x))
//@opt nom::Compare::<& 'b str>::compare ( & self . as_bytes ( ) , $(x) ) => self.as_bytes().v_compare($(x))
//@spec
    requires self.wf(), t.wf()
    ensures r == compared(false, self@, t@)
//@end
//@fn nom_7/stringdata.rs <StringData as Compare<crate::ByteData<'b>>>::compare_no_case as compare_no_case_data
//@ret r
//@sig 'b => '_
//@sig nom::CompareResult => CompareResult
//@opt nom::Compare::compare_no_case ( & self . as_bytes ( ) , $(x) ) => self.as_bytes().v_compare_no_case($(x))
//@opt nom::Compare::<& 'b [ u8 ]>::compare_no_case ( & self . as_bytes ( ) , $(x) ) => self.as_bytes().v_compare_no_case($(x))
//@opt nom::Compare::<& 'b str>::compare_no_case ( & self . as_bytes ( ) , $(x) ) => self.as_bytes().v_compare_no_case($(x))
//@spec
    requires self.wf(), t.wf()
    ensures r == compared(true, self@, t@)
//@end
//@fn nom_7/stringdata.rs <StringData as Compare<&'c crate::ByteData<'b>>>::compare as compare_data_ref
//@ret r
//@sig 'b => '_
//@sig 'c => '_
//@sig nom::CompareResult => CompareResult
//@opt nom::Compare::compare ( & self . as_bytes ( ) , $(x) ) => self.as_bytes().v_compare($(x))
//@opt nom::Compare::<& 'b [ u8 ]>::compare ( & self . as_bytes ( ) , $(x) ) => self.as_bytes().v_compare($(x))
//@opt nom::Compare::<& 'b str>::compare ( & self . as_bytes ( ) , $(x) ) => self.as_bytes().v_compare($(x))
//@spec
    requires self.wf(), t.wf()
    ensures r == compared(false, self@, t@)
//@end
//@fn nom_7/stringdata.rs <StringData as Compare<&'c crate::ByteData<'b>>>::compare_no_case as compare_no_case_data_ref
//@ret r
//@sig 'b => '_
//@sig 'c => '_
//@sig nom::CompareResult => CompareResult
//@opt nom::Compare::compare_no_case ( & self . as_bytes ( ) , $(x) ) => self.as_bytes().v_compare_no_case($(x))
//@opt nom::Compare::<& 'b [ u8 ]>::compare_no_case ( & self . as_bytes ( ) , $(x) ) => self.as_bytes().v_compare_no_case($(x))
//@opt nom::Compare::<& 'b str>::compare_no_case ( & self . as_bytes ( ) , $(x) ) => self.as_bytes().v_compare_no_case($(x))
//@spec
    requires self.wf(), t.wf()
    ensures r == compared(true, self@, t@)
//@end
//@fn nom_7/stringdata.rs <StringData as Compare<&'b [u8]>>::compare as compare_slice
//@ret r
//@sig 'b => '_
//@sig nom::CompareResult => CompareResult
//@sig [ u8 ] => Bytes
//@opt nom::Compare::compare ( & self . as_bytes ( ) , $(x) ) => self.as_bytes().v_compare($(x))
//@opt nom::Compare::<& 'b [ u8 ]>::compare ( & self . as_bytes ( ) , $(x) ) => self.as_bytes().v_compare($(x))
//@opt nom::Compare::<& 'b str>::compare ( & self . as_bytes ( ) , $(x) ) => self.as_bytes().v_compare($(x))
//@spec
    requires self.wf()
    ensures r == compared(false, self@, t@)
//@end
//@fn nom_7/stringdata.rs <StringData as Compare<&'b [u8]>>::compare_no_case as compare_no_case_slice
//@ret r
//@sig 'b => '_
//@sig nom::CompareResult => CompareResult
//@sig [ u8 ] => Bytes
//@opt nom::Compare::compare_no_case ( & self . as_bytes ( ) , $(x) ) => self.as_bytes().v_compare_no_case($(x))
//@opt nom::Compare::<& 'b [ u8 ]>::compare_no_case ( & self . as_bytes ( ) , $(x) ) => self.as_bytes().v_compare_no_case($(x))
//@opt nom::Compare::<& 'b str>::compare_no_case ( & self . as_bytes ( ) , $(x) ) => self.as_bytes().v_compare_no_case($(x))
//@spec
    requires self.wf()
    ensures r == compared(true, self@, t@)
//@end
//@fn nom_7/stringdata.rs <StringData as Compare<&'b str>>::compare as compare_str
//@ret r
//@sig 'b => '_
//@sig nom::CompareResult => CompareResult
//@sig str => Bytes
//@opt nom::Compare::compare ( & self . as_str ( ) , $(x) ) => self.as_str().v_compare_text($(x))
//@opt nom::Compare::<& 'b [ u8 ]>::compare ( & self . as_str ( ) , $(x) ) => self.as_str().v_compare_text($(x))
//@opt nom::Compare::<& 'b str>::compare ( & self . as_str ( ) , $(x) ) => self.as_str().v_compare_text($(x))
//@spec
    requires self.wf(), valid(t@)
    ensures r == compared(false, self@, t@)
//@end
//@fn nom_7/stringdata.rs <StringData as Compare<&'b str>>::compare_no_case as compare_no_case_str
//@ret r
//@sig 'b => '_
//@sig nom::CompareResult => CompareResult
//@sig str => Bytes
//@opt nom::Compare::compare_no_case ( & self . as_str ( ) , $(x) ) => self.as_str().v_compare_no_case_text($(x))
//@opt nom::Compare::<& 'b [ u8 ]>::compare_no_case ( & self . as_str ( ) , $(x) ) => self.as_str().v_compare_no_case_text($(x))
//@opt nom::Compare::<& 'b str>::compare_no_case ( & self . as_str ( ) , $(x) ) => self.as_str().v_compare_no_case_text($(x))
//@spec
    requires self.wf(), valid(t@)
    ensures r == text_no_case(self@, t@)
//@end
//@fn nom_7/stringdata.rs <StringData as Compare<crate::StringData<'b>>>::compare as compare_text
//@ret r
//@sig 'b => '_
//@sig nom::CompareResult => CompareResult
//@opt nom::Compare::compare ( & self . as_str ( ) , $(x) ) => self.as_str().v_compare_text($(x))
//@opt nom::Compare::<& 'b [ u8 ]>::compare ( & self . as_str ( ) , $(x) ) => self.as_str().v_compare_text($(x))
//@opt nom::Compare::<& 'b str>::compare ( & self . as_str ( ) , $(x) ) => self.as_str().v_compare_text($(x))
//@spec
    requires self.wf(), t.wf()
    ensures r == compared(false, self@, t@)
//@end
//@fn nom_7/stringdata.rs <StringData as Compare<crate::StringData<'b>>>::compare_no_case as compare_no_case_text
//@ret r
//@sig 'b => '_
//@sig nom::CompareResult => CompareResult
//@opt nom::Compare::compare_no_case ( & self . as_str ( ) , $(x) ) => self.as_str().v_compare_no_case_text($(x))
//@opt nom::Compare::<& 'b [ u8 ]>::compare_no_case ( & self . as_str ( ) , $(x) ) => self.as_str().v_compare_no_case_text($(x))
//@opt nom::Compare::<& 'b str>::compare_no_case ( & self . as_str ( ) , $(x) ) => self.as_str().v_compare_no_case_text($(x))
//@spec
    requires self.wf(), t.wf()
    ensures r == text_no_case(self@, t@)
//@end
//@fn nom_7/stringdata.rs <StringData as Compare<&'c crate::StringData<'b>>>::compare as compare_text_ref
//@ret r
//@sig 'b => '_
//@sig 'c => '_
//@sig nom::CompareResult => CompareResult
//@opt nom::Compare::compare ( & self . as_str ( ) , $(x) ) => self.as_str().v_compare_text($(x))
//@opt nom::Compare::<& 'b [ u8 ]>::compare ( & self . as_str ( ) , $(x) ) => self.as_str().v_compare_text($(x))
//@opt nom::Compare::<& 'b str>::compare ( & self . as_str ( ) , $(x) ) => self.as_str().v_compare_text($(x))
//@spec
    requires self.wf(), t.wf()
    ensures r == compared(false, self@, t@)
//@end
//@fn nom_7/stringdata.rs <StringData as Compare<&'c crate::StringData<'b>>>::compare_no_case as compare_no_case_text_ref
//@ret r
//@sig 'b => '_
//@sig 'c => '_
//@sig nom::CompareResult => CompareResult
//@opt nom::Compare::compare_no_case ( & self . as_str ( ) , $(x) ) => self.as_str().v_compare_no_case_text($(x))
//@opt nom::Compare::<& 'b [ u8 ]>::compare_no_case ( & self . as_str ( ) , $(x) ) => self.as_str().v_compare_no_case_text($(x))
//@opt nom::Compare::<& 'b str>::compare_no_case ( & self . as_str ( ) , $(x) ) => self.as_str().v_compare_no_case_text($(x))
//@spec
    requires self.wf(), t.wf()
    ensures r == text_no_case(self@, t@)
//@end
//@fn nom_7/stringdata.rs <StringData as FindSubstring<crate::ByteData<'b>>>::find_substring as find_substring_data
//@ret r
//@sig 'b => '_
//@sub nom::FindSubstring::find_substring ( & self . as_bytes ( ) , $(x) ) => self.as_bytes().v_find_substring($(x))
//@spec
    requires self.wf(), substr.wf()
    ensures found_at(self@, substr@, r)
//@end
//@fn nom_7/stringdata.rs <StringData as FindSubstring<&'c crate::ByteData<'b>>>::find_substring as find_substring_data_ref
//@ret r
//@sig 'b => '_
//@sig 'c => '_
//@sub nom::FindSubstring::find_substring ( & self . as_bytes ( ) , $(x) ) => self.as_bytes().v_find_substring($(x))
//@spec
    requires self.wf(), substr.wf()
    ensures found_at(self@, substr@, r)
//@end
//@fn nom_7/stringdata.rs <StringData as FindSubstring<&'b [u8]>>::find_substring as find_substring_slice
//@ret r
//@sig 'b => '_
//@sig [ u8 ] => Bytes
//@sub nom::FindSubstring::find_substring ( & self . as_bytes ( ) , $(x) ) => self.as_bytes().v_find_substring($(x))
//@spec
    requires self.wf()
    ensures found_at(self@, substr@, r)
//@end
//@fn nom_7/stringdata.rs <StringData as FindSubstring<&'b str>>::find_substring as find_substring_str
//@ret r
//@sig 'b => '_
//@sig str => Bytes
//@sub nom::FindSubstring::find_substring ( & self . as_str ( ) , $(x) ) => self.as_str().v_find_substring($(x))
//@spec
    requires self.wf()
    ensures found_at(self@, substr@, r)
//@end
//@fn nom_7/stringdata.rs <StringData as FindSubstring<crate::StringData<'b>>>::find_substring as find_substring_text
//@ret r
//@sig 'b => '_
//@sub nom::FindSubstring::find_substring ( & self . as_str ( ) , $(x) ) => self.as_str().v_find_substring($(x))
//@spec
    requires self.wf(), substr.wf()
    ensures found_at(self@, substr@, r)
//@end
//@fn nom_7/stringdata.rs <StringData as FindSubstring<&'c crate::StringData<'b>>>::find_substring as find_substring_text_ref
//@ret r
//@sig 'b => '_
//@sig 'c => '_
//@sub nom::FindSubstring::find_substring ( & self . as_str ( ) , $(x) ) => self.as_str().v_find_substring($(x))
//@spec
    requires self.wf(), substr.wf()
    ensures found_at(self@, substr@, r)
//@end
//@fn nom_7/stringdata.rs <StringData as FindToken<u8>>::find_token as find_token_u8
//@ret r
//@sub nom::FindToken::find_token ( & self . as_bytes ( ) , $(x) ) => self.as_bytes().v_find_byte_token($(x))
//@spec
    requires self.wf()
    ensures r == has_byte(self@, token)
//@end
//@fn nom_7/stringdata.rs <StringData as FindToken<&'b u8>>::find_token as find_token_u8_ref
//@ret r
//@sig 'b => '_
//@sub nom::FindToken::find_token ( & self . as_bytes ( ) , token ) => self.as_bytes().v_find_byte_token(*token)
//@spec
    requires self.wf()
    ensures r == has_byte(self@, *token)
//@end
//@fn nom_7/stringdata.rs <StringData as FindToken<char>>::find_token as find_token_char
//@ret r
//@sub nom::FindToken::find_token ( & self . as_str ( ) , $(x) ) => self.as_str().v_find_char_token_text($(x))
//@spec
    requires self.wf()
    ensures r == has_char_text(self@, token)
//@end
//@fn nom_7/stringdata.rs <StringData as FindToken<&'b char>>::find_token as find_token_char_ref
//@ret r
//@sig 'b => '_
//@sub nom::FindToken::find_token ( & self . as_str ( ) , $(x) ) => self.as_str().v_find_char_token_text($(x))
//@spec
    requires self.wf()
    ensures r == has_char_text(self@, *token)
//@end
//@fn nom_7/stringdata.rs <StringData as InputIter>::iter_indices
//@ret r
//@sig Self::Iter => CharOffsets<StringData<'a>>
//@opt self . clone ( ) => self.v_clone()
//@spec
    requires self.wf()
    ensures r.wf(), r.chars@ =~= self@, r.offset == 0
//@end
//@fn nom_7/stringdata.rs <StringData as InputIter>::iter_elements
//@ret r
//@sig Self::IterElem => StringData<'a>
//@opt self . clone ( ) => self.v_clone()
//@spec
    requires self.wf()
    ensures r.wf(), r@ =~= self@
//@end
//@fn nom_7/stringdata.rs <StringData as InputIter>::position
//@ret r
//@sig where P : Fn ( Self::Item ) -> bool , =>
//@sub nom::InputIter::position ( & self . as_str ( ) , $(p) ) => self.as_str().v_position_text(&$(p))
//@spec
    requires self.wf()
    ensures r == first_text(self@, predicate)
//@end
//@fn nom_7/stringdata.rs <StringData as InputIter>::slice_index
//@ret r
//@sig nom::Needed => Needed
//@sub nom::InputIter::slice_index ( & self . as_str ( ) , $(p) ) => self.as_str().v_slice_index_text($(p))
//@spec
    requires self.wf()
    ensures r == index_text(self@, count)
//@end
//@fn nom_7/stringdata.rs <StringData as InputLength>::input_len
//@ret r
//@sub nom::InputLength::input_len ( & self . as_str ( ) ) => self.as_str().len()
//@spec
    requires self.wf()
    ensures r == self@.len()
//@end
//@fn nom_7/stringdata.rs <StringData as InputTake>::take as nom_take
//@ret r
//@sig Self => StringData<'a>
//@spec
    requires self.wf()
    ensures bnd(self@, count as int), r.wf(), r@ =~= self@.take(count as int)
//@end
//@fn nom_7/stringdata.rs <StringData as InputTake>::take_split as take_split
//@ret r
//@sig ( Self , Self ) => (StringData<'a>, StringData<'a>)
//@spec
    requires self.wf()
    ensures bnd(self@, count as int), r.0.wf(), r.1.wf(), r.0@ =~= self@.skip(count as int), r.1@ =~= self@.take(count as int)
//@end
//@fn nom_7/stringdata.rs <StringData as InputTakeAtPosition>::split_at_position
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ret r
//@sig < P , E : nom::error::ParseError < Self >> => <P, E: ParseError<StringData<'a>>>
//@sig where P : Fn ( Self::Item ) -> bool , =>
//@sig nom::IResult<Self , Self , E> => IResult<StringData<'a>, StringData<'a>, E>
//@sub predicate ( $(x) ) => v_says(&predicate, $(x))
//@opt nom::Err::Incomplete => NomErr::Incomplete
//@opt nom::Err::Error => NomErr::Error
//@opt nom::Err::Failure => NomErr::Failure
//@opt nom::Needed::new => Needed::new
//@opt self . clone ( ) => self.v_clone()
//@spec
    requires self.wf()
    ensures split_answer(self@, first_text(self@, predicate), false, None::<ErrorKind>, r)
//@iter 0 it
//@at start
    proof { run_bnd(self@, predicate, false); valid_first(self@); assert(self@.skip(0) =~= self@); }
//@loop 0 for
    invariant it.s@ == self@, it.at <= self@.len(), bnd(self@, it.at as int), it.at + run(self@.skip(it.at as int), predicate, false) == run(self@, predicate, false)
    ensures it.at == self@.len()
    decreases self@.len() - it.at
//@at loop 0 start
    proof { let o = self@.len() - it_0.len(); assert(it_0 =~= self@.skip(o)); valid_cut(self@, o); assert(self@.skip(o).skip(width(self@.skip(o))) =~= self@.skip(o + width(self@.skip(o)))); }
//@end
//@fn nom_7/stringdata.rs <StringData as InputTakeAtPosition>::split_at_position1
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ret r
//@sig < P , E : nom::error::ParseError < Self >> => <P, E: ParseError<StringData<'a>>>
//@sig where P : Fn ( Self::Item ) -> bool , =>
//@sig nom::IResult<Self , Self , E> => IResult<StringData<'a>, StringData<'a>, E>
//@sig nom::error::ErrorKind => ErrorKind
//@sub predicate ( $(x) ) => v_says(&predicate, $(x))
//@opt nom::Err::Incomplete => NomErr::Incomplete
//@opt nom::Err::Error => NomErr::Error
//@opt nom::Err::Failure => NomErr::Failure
//@opt nom::Needed::new => Needed::new
//@opt self . clone ( ) => self.v_clone()
//@spec
    requires self.wf()
    ensures split_answer(self@, first_text(self@, predicate), false, Some(e), r)
//@iter 0 it
//@at start
    proof { run_bnd(self@, predicate, false); valid_first(self@); assert(self@.skip(0) =~= self@); }
//@loop 0 for
    invariant it.s@ == self@, it.at <= self@.len(), bnd(self@, it.at as int), it.at + run(self@.skip(it.at as int), predicate, false) == run(self@, predicate, false)
    ensures it.at == self@.len()
    decreases self@.len() - it.at
//@at loop 0 start
    proof { let o = self@.len() - it_0.len(); assert(it_0 =~= self@.skip(o)); valid_cut(self@, o); assert(self@.skip(o).skip(width(self@.skip(o))) =~= self@.skip(o + width(self@.skip(o)))); }
//@end
//@fn nom_7/stringdata.rs <StringData as InputTakeAtPosition>::split_at_position_complete
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ret r
//@sig < P , E : nom::error::ParseError < Self >> => <P, E: ParseError<StringData<'a>>>
//@sig where P : Fn ( Self::Item ) -> bool , =>
//@sig nom::IResult<Self , Self , E> => IResult<StringData<'a>, StringData<'a>, E>
//@sub predicate ( $(x) ) => v_says(&predicate, $(x))
//@opt nom::Err::Incomplete => NomErr::Incomplete
//@opt nom::Err::Error => NomErr::Error
//@opt nom::Err::Failure => NomErr::Failure
//@opt nom::Needed::new => Needed::new
//@opt self . clone ( ) => self.v_clone()
//@spec
    requires self.wf()
    ensures split_answer(self@, first_text(self@, predicate), true, None::<ErrorKind>, r)
//@iter 0 it
//@at start
    proof { run_bnd(self@, predicate, false); valid_first(self@); assert(self@.skip(0) =~= self@); }
//@loop 0 for
    invariant it.s@ == self@, it.at <= self@.len(), bnd(self@, it.at as int), it.at + run(self@.skip(it.at as int), predicate, false) == run(self@, predicate, false)
    ensures it.at == self@.len()
    decreases self@.len() - it.at
//@at loop 0 start
    proof { let o = self@.len() - it_0.len(); assert(it_0 =~= self@.skip(o)); valid_cut(self@, o); assert(self@.skip(o).skip(width(self@.skip(o))) =~= self@.skip(o + width(self@.skip(o)))); }
//@end
//@fn nom_7/stringdata.rs <StringData as InputTakeAtPosition>::split_at_position1_complete
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ret r
//@sig < P , E : nom::error::ParseError < Self >> => <P, E: ParseError<StringData<'a>>>
//@sig where P : Fn ( Self::Item ) -> bool , =>
//@sig nom::IResult<Self , Self , E> => IResult<StringData<'a>, StringData<'a>, E>
//@sig nom::error::ErrorKind => ErrorKind
//@sub predicate ( $(x) ) => v_says(&predicate, $(x))
//@opt nom::Err::Incomplete => NomErr::Incomplete
//@opt nom::Err::Error => NomErr::Error
//@opt nom::Err::Failure => NomErr::Failure
//@opt nom::Needed::new => Needed::new
//@opt self . clone ( ) => self.v_clone()
//@spec
    requires self.wf()
    ensures split_answer(self@, first_text(self@, predicate), true, Some(e), r)
//@iter 0 it
//@at start
    proof { run_bnd(self@, predicate, false); valid_first(self@); assert(self@.skip(0) =~= self@); }
//@loop 0 for
    invariant it.s@ == self@, it.at <= self@.len(), bnd(self@, it.at as int), it.at + run(self@.skip(it.at as int), predicate, false) == run(self@, predicate, false)
    ensures it.at == self@.len()
    decreases self@.len() - it.at
//@at loop 0 start
    proof { let o = self@.len() - it_0.len(); assert(it_0 =~= self@.skip(o)); valid_cut(self@, o); assert(self@.skip(o).skip(width(self@.skip(o))) =~= self@.skip(o + width(self@.skip(o)))); }
//@end
//@fn nom_7/stringdata.rs <StringData as Slice<core::ops::Range<usize>>>::slice as nom_slice_range
//@ret r
//@sig Self => StringData<'a>
//@spec
    requires self.wf()
    ensures cut_ok(self@, range), r.wf(), r@ =~= self@.subrange(first(range), past(range, self@.len() as int))
//@end
//@fn nom_7/stringdata.rs <StringData as Slice<core::ops::RangeTo<usize>>>::slice as nom_slice_to
//@ret r
//@sig Self => StringData<'a>
//@spec
    requires self.wf()
    ensures cut_ok(self@, range), r.wf(), r@ =~= self@.subrange(first(range), past(range, self@.len() as int))
//@end
//@fn nom_7/stringdata.rs <StringData as Slice<core::ops::RangeFrom<usize>>>::slice as nom_slice_from
//@ret r
//@sig Self => StringData<'a>
//@spec
    requires self.wf()
    ensures cut_ok(self@, range), r.wf(), r@ =~= self@.subrange(first(range), past(range, self@.len() as int))
//@end
//@fn nom_7/stringdata.rs <StringData as Slice<core::ops::RangeFull>>::slice as nom_slice_full
//@ret r
//@sig Self => StringData<'a>
//@spec
    requires self.wf()
    ensures cut_ok(self@, range), r.wf(), r@ =~= self@.subrange(first(range), past(range, self@.len() as int))
//@end
}
//@item nom_7/mod.rs struct CharOffsets
impl<'a> CharOffsets<StringData<'a>> {
    pub open spec fn wf(&self) -> bool { self.chars.wf() && self.offset + self.chars@.len() <= usize::MAX }
//@fn nom_7/mod.rs CharOffsets::new
//@ret r
//@sig I => StringData<'a>
//@spec
    requires chars.wf(), chars@.len() <= usize::MAX
    ensures r.wf(), r.chars == chars, r.offset == 0
//@end
//@fn nom_7/mod.rs <CharOffsets as Iterator>::next
//@ret r
//@sig Self::Item => (usize, char)
//@opt $c . len_utf8 ( ) => v_len_utf8($c)
//@spec
    requires old(self).wf()
    ensures final(self).wf(), match r {
        None => old(self).chars@.len() == 0,
        Some((p, c)) => old(self).chars@.len() > 0 && p == old(self).offset && final(self).offset == p + width(old(self).chars@) && c as u32 == value(old(self).chars@) && final(self).chars@ =~= old(self).chars@.skip(width(old(self).chars@)),
    }
//@at start
    proof { valid_first(self.chars@); bits(); if self.chars@.len() > 0 { put3(lead_bits(self.chars@[0]), self.chars@); } reveal_with_fuel(put, 5); }
//@end
}
#[verifier::external_body]
fn v_len_utf8(c: char) -> (r: usize)
    ensures r == (if (c as u32) < 0x80 { 1int } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 })
{ unimplemented!() }

} // verus!
fn main() {}
