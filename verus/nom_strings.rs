//@props P18
//@title the input operations of the parser library on a string queue, for texts of every division into chunks
//@assume `char::len_utf8`/`encode_utf8` are the length and the bytes of a character; two characters compared without case are alike when their lower cases are (whatever those are)
use vstd::prelude::*;

verus! {

//@uses strings.rs
//@uses nom_queue.rs

/// Whether a pair of characters read side by side differ in their lower cases.
pub uninterp spec fn unlike(a: Seq<u8>, b: Seq<u8>) -> bool;
#[verifier::external_body]
fn v_unlike<'a, 'b>(i: CharIter<'a, 'b>, t: &StrRef) -> (r: Option<usize>)
    requires i.wf()
    ensures r is Some == unlike(i@, t@)
{ unimplemented!() }
pub uninterp spec fn byte_len(t: Seq<u8>) -> nat;
impl StrRef {
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
impl<'a> ByteData<'a> {
    /// `&ByteData` as the bytes it is.
    #[verifier::external_body]
    fn v_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
impl<'a> StringData<'a> {
    #[verifier::external_body]
    fn as_str(&self) -> (r: &StrRef) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
fn v_len_utf8(c: char) -> (r: usize)
    ensures r == (if (c as u32) < 0x80 { 1int } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 })
{ unimplemented!() }
/// The first character the predicate holds of is where `r` says.
pub open spec fn first_char_is<F>(s: Seq<u8>, p: F, r: Option<usize>) -> bool { first_char(s, pick(p), r) }
fn v_find_first<'a, 'b, F>(i: CharIndecies<'a, 'b>, f: &F) -> (r: Option<usize>)
    requires i.wf(), i.offset == 0
    ensures first_char_is(i@, *f, r)
{ v_find_char_of(i, f) }
/// There is one answer only, and the text may be cut there.
proof fn one_first<F>(s: Seq<u8>, p: F)
    requires valid(s)
    ensures forall|a: Option<usize>, b: Option<usize>| #[trigger] first_char_is(s, p, a) && #[trigger] first_char_is(s, p, b) ==> a == b
{
    assert forall|a: Option<usize>, b: Option<usize>| #[trigger] first_char_is(s, p, a) && #[trigger] first_char_is(s, p, b) implies a == b by {
        if a is Some && b is Some {
            let i = a->0; let j = b->0;
            let c = choose|c: char| #[trigger] is_char(c, s, i as int);
            let d = choose|d: char| #[trigger] is_char(d, s, j as int);
            assert(is_char(c, s, i as int)); assert(is_char(d, s, j as int));
            assert(pick(p)(c)); assert(pick(p)(d));
        } else if a is Some {
            let c = choose|c: char| #[trigger] is_char(c, s, a->0 as int);
            assert(is_char(c, s, a->0 as int));
        } else if b is Some {
            let c = choose|c: char| #[trigger] is_char(c, s, b->0 as int);
            assert(is_char(c, s, b->0 as int));
        }
    }
}
proof fn cut_first<F>(s: Seq<u8>, p: F, r: Option<usize>)
    requires valid(s), first_char_is(s, p, r)
    ensures r matches Some(i) ==> i < s.len() && bnd(s, i as int) && bnd(s, 0) && bnd(s, s.len() as int)
{
    if let Some(i) = r { valid_first(s.skip(i as int)); assert(s.skip(i as int)[0] == s[i as int]); valid_first(s); }
}
/// A position of a text by characters.
pub open spec fn slice_answer(s: Seq<u8>, count: usize, r: Result<usize, Needed>) -> bool {
    match r {
        Ok(i) => i <= s.len() && valid(s.take(i as int)) && valid(s.skip(i as int)) && chars_of(s.take(i as int)) == count,
        Err(n) => n is Unknown && chars_of(s) < count,
    }
}
/// One more character.
proof fn one_more(s: Seq<u8>, o: int)
    requires 0 <= o < s.len(), valid(s.take(o)), valid(s.skip(o))
    ensures chars_of(s.take(o + width(s.skip(o)))) == chars_of(s.take(o)) + 1, valid(s.take(o + width(s.skip(o)))), o + width(s.skip(o)) <= s.len()
    decreases o
{
    let w = width(s.skip(o));
    prefix_step(s, o);
    if o == 0 {
        assert(s.skip(0) =~= s);
        width_prefix(s, w);
        assert(s.take(w).skip(w) =~= Seq::<u8>::empty());
        assert(width(s.take(w)) == w);
        assert(chars_of(s.take(w).skip(w)) == 0);
        assert(s.take(0).len() == 0);
    } else {
        let a = s.take(o);
        let v = width(a);
        assert(valid(a.skip(v)));
        width_prefix(s.take(o + w), o);
        assert(s.take(o + w).take(o) =~= a);
        let t = s.skip(v);
        assert(a.skip(v) =~= t.take(o - v));
        assert(t.skip(o - v) =~= s.skip(o));
        assert(s.take(o + w).skip(v) =~= t.take(o - v + w));
        one_more(t, o - v);
        first_width(a, s.take(o + w));
    }
}
/// The first character of a text is that of every text it begins.
proof fn first_width(a: Seq<u8>, b: Seq<u8>)
    requires valid(a), a.len() > 0, a.len() <= b.len(), b.take(a.len() as int) =~= a
    ensures width(b) == width(a), value(b) == value(a)
{
    assert(forall|i: int| 0 <= i < a.len() ==> a[i] == b[i]) by { assert(forall|i: int| 0 <= i < a.len() ==> a[i] == b.take(a.len() as int)[i]); }
    reveal_with_fuel(put, 5);
}

impl<'a> StringQueue<'a> {
    fn v_clone(&self) -> (r: StringQueue<'a>)
        requires self.wf()
        ensures r.wf(), r@ =~= self@
    { self.slice(..) }
//@fn nom_7/stringqueue.rs <StringQueue as Compare<crate::ByteData<'b>>>::compare as compare_data
//@ret r
//@sig 'b => '_
//@sig nom::CompareResult => CompareResult
//@sub nom::Compare::compare ( self . as_bytequeue ( ) , $(x) ) => self.as_bytequeue().compare($(x))
//@spec
    requires self.wf()
    ensures r == compared(false, self@, t@)
//@end
//@fn nom_7/stringqueue.rs <StringQueue as Compare<crate::ByteData<'b>>>::compare_no_case as compare_no_case_data
//@ret r
//@sig 'b => '_
//@sig nom::CompareResult => CompareResult
//@sub nom::Compare::compare_no_case ( self . as_bytequeue ( ) , $(x) ) => self.as_bytequeue().compare_no_case($(x))
//@spec
    requires self.wf()
    ensures r == compared(true, self@, t@)
//@end
//@fn nom_7/stringqueue.rs <StringQueue as Compare<&'c crate::ByteData<'b>>>::compare as compare_data_ref
//@ret r
//@sig 'b => '_
//@sig 'c => '_
//@sig nom::CompareResult => CompareResult
//@sub nom::Compare::compare ( self . as_bytequeue ( ) , $(x) ) => self.as_bytequeue().compare($(x))
//@spec
    requires self.wf()
    ensures r == compared(false, self@, t@)
//@end
//@fn nom_7/stringqueue.rs <StringQueue as Compare<&'c crate::ByteData<'b>>>::compare_no_case as compare_no_case_data_ref
//@ret r
//@sig 'b => '_
//@sig 'c => '_
//@sig nom::CompareResult => CompareResult
//@sub nom::Compare::compare_no_case ( self . as_bytequeue ( ) , $(x) ) => self.as_bytequeue().compare_no_case($(x))
//@spec
    requires self.wf()
    ensures r == compared(true, self@, t@)
//@end
//@fn nom_7/stringqueue.rs <StringQueue as Compare<&'b [u8]>>::compare as compare_slice
//@ret r
//@sig 'b => '_
//@sig nom::CompareResult => CompareResult
//@sub nom::Compare::compare ( self . as_bytequeue ( ) , $(x) ) => self.as_bytequeue().compare($(x))
//@spec
    requires self.wf()
    ensures r == compared(false, self@, t@)
//@end
//@fn nom_7/stringqueue.rs <StringQueue as Compare<&'b [u8]>>::compare_no_case as compare_no_case_slice
//@ret r
//@sig 'b => '_
//@sig nom::CompareResult => CompareResult
//@sub nom::Compare::compare_no_case ( self . as_bytequeue ( ) , $(x) ) => self.as_bytequeue().compare_no_case($(x))
//@spec
    requires self.wf()
    ensures r == compared(true, self@, t@)
//@end
//@fn nom_7/stringqueue.rs <StringQueue as Compare<&'b str>>::compare as compare_str
//@ret r
//@sig 'b => '_
//@sig nom::CompareResult => CompareResult
//@sig str => StrRef
//@sub nom::Compare::compare ( self , $(x) ) => self.compare_slice($(x))
//@spec
    requires self.wf()
    ensures r == compared(false, self@, t@)
//@end
//@fn nom_7/stringqueue.rs <StringQueue as Compare<&'b str>>::compare_no_case as compare_no_case_str
//@ret r
//@sig 'b => '_
//@sig nom::CompareResult => CompareResult
//@sig str => StrRef
//@sub self . chars ( ) . zip ( t . chars ( ) ) . position ( | ( a , b ) | a . to_lowercase ( ) . ne ( b . to_lowercase ( ) ) ) => v_unlike(self.chars(), t)
//@opt nom::CompareResult::Ok => CompareResult::Ok
//@opt nom::CompareResult::Error => CompareResult::Error
//@opt nom::CompareResult::Incomplete => CompareResult::Incomplete
//@spec
    requires self.wf()
    ensures r == (if unlike(self@, t@) { CompareResult::Error } else if self@.len() >= t@.len() { CompareResult::Ok } else { CompareResult::Incomplete })
//@end
//@fn nom_7/stringqueue.rs <StringQueue as Compare<crate::StringData<'b>>>::compare as compare_text
//@ret r
//@sig 'b => '_
//@sig nom::CompareResult => CompareResult
//@sub nom::Compare::compare ( self , $(x) ) => self.compare_str($(x))
//@spec
    requires self.wf()
    ensures r == compared(false, self@, t@)
//@end
//@fn nom_7/stringqueue.rs <StringQueue as Compare<crate::StringData<'b>>>::compare_no_case as compare_no_case_text
//@ret r
//@sig 'b => '_
//@sig nom::CompareResult => CompareResult
//@sub nom::Compare::compare_no_case ( self , $(x) ) => self.compare_no_case_str($(x))
//@spec
    requires self.wf()
    ensures r == (if unlike(self@, t@) { CompareResult::Error } else if self@.len() >= t@.len() { CompareResult::Ok } else { CompareResult::Incomplete })
//@end
//@fn nom_7/stringqueue.rs <StringQueue as Compare<&'c crate::StringData<'b>>>::compare as compare_text_ref
//@ret r
//@sig 'b => '_
//@sig 'c => '_
//@sig nom::CompareResult => CompareResult
//@sub nom::Compare::compare ( self , $(x) ) => self.compare_str($(x))
//@spec
    requires self.wf()
    ensures r == compared(false, self@, t@)
//@end
//@fn nom_7/stringqueue.rs <StringQueue as Compare<&'c crate::StringData<'b>>>::compare_no_case as compare_no_case_text_ref
//@ret r
//@sig 'b => '_
//@sig 'c => '_
//@sig nom::CompareResult => CompareResult
//@sub nom::Compare::compare_no_case ( self , $(x) ) => self.compare_no_case_str($(x))
//@spec
    requires self.wf()
    ensures r == (if unlike(self@, t@) { CompareResult::Error } else if self@.len() >= t@.len() { CompareResult::Ok } else { CompareResult::Incomplete })
//@end
//@fn nom_7/stringqueue.rs <StringQueue as FindSubstring<crate::ByteData<'b>>>::find_substring as find_substring_data
//@ret r
//@sig 'b => '_
//@spec
    requires self.wf()
    ensures match r {
        Some(p) => at(self@, substr@, p as int) && none(self@, substr@, 0, p as int),
        None => never(self@, substr@, 0),
    }
//@end
//@fn nom_7/stringqueue.rs <StringQueue as FindSubstring<&'c crate::ByteData<'b>>>::find_substring as find_substring_data_ref
//@ret r
//@sig 'b => '_
//@sig 'c => '_
//@spec
    requires self.wf()
    ensures match r {
        Some(p) => at(self@, substr@, p as int) && none(self@, substr@, 0, p as int),
        None => never(self@, substr@, 0),
    }
//@end
//@fn nom_7/stringqueue.rs <StringQueue as FindSubstring<&'b [u8]>>::find_substring as find_substring_slice
//@ret r
//@sig 'b => '_
//@spec
    requires self.wf()
    ensures match r {
        Some(p) => at(self@, substr@, p as int) && none(self@, substr@, 0, p as int),
        None => never(self@, substr@, 0),
    }
//@end
//@fn nom_7/stringqueue.rs <StringQueue as FindSubstring<&'b str>>::find_substring as find_substring_str
//@ret r
//@sig 'b => '_
//@sig str => StrRef
//@spec
    requires self.wf()
    ensures match r {
        Some(p) => at(self@, substr@, p as int) && none(self@, substr@, 0, p as int),
        None => never(self@, substr@, 0),
    }
//@end
//@fn nom_7/stringqueue.rs <StringQueue as FindToken<u8>>::find_token as find_token_u8
//@ret r
//@sub self . bytes ( ) . any ( | $b | $(e) ) => v_any(self.bytes(), Ghost(|$b: u8| $(e)))
//@spec
    requires self.wf()
    ensures r == has_byte(self@, token)
//@end
//@fn nom_7/stringqueue.rs <StringQueue as FindToken<&'b u8>>::find_token as find_token_u8_ref
//@ret r
//@sig 'b => '_
//@sub self . bytes ( ) . any ( | $b | $(e) ) => v_any(self.bytes(), Ghost(|$b: u8| $(e)))
//@spec
    requires self.wf()
    ensures r == has_byte(self@, *token)
//@end
//@fn nom_7/stringqueue.rs <StringQueue as FindToken<char>>::find_token as find_token_char
//@ret r
//@sub let mut utf8 = [ 0 ; 4 ] ; =>
//@sub let utf8 = token . encode_utf8 ( & mut utf8 ) ; => let utf8 = v_coded(token);
//@sub utf8 . as_bytes ( ) => utf8
//@spec
    requires self.wf()
    ensures r == has_slice(self@, coded(token))
//@end
//@fn nom_7/stringqueue.rs <StringQueue as FindToken<&'b char>>::find_token as find_token_char_ref
//@ret r
//@sig 'b => '_
//@sub nom::FindToken::find_token ( self , $(x) ) => self.find_token_char($(x))
//@spec
    requires self.wf()
    ensures r == has_slice(self@, coded(*token))
//@end
//@fn nom_7/stringqueue.rs <StringQueue as InputIter>::iter_indices
//@ret r
//@sig Self::Iter => CharOffsets<OwnedCharIter<'a>>
//@opt self . clone ( ) => self.v_clone()
//@opt super::CharOffsets => CharOffsets
//@spec
    requires self.wf(), self@.len() <= usize::MAX
    ensures r.wf(), r.chars@ =~= self@, r.offset == 0
//@end
//@fn nom_7/stringqueue.rs <StringQueue as InputIter>::iter_elements
//@ret r
//@sig Self::IterElem => OwnedCharIter<'a>
//@opt self . clone ( ) => self.v_clone()
//@spec
    requires self.wf()
    ensures r.wf(), r@ =~= self@
//@end
//@fn nom_7/stringqueue.rs <StringQueue as InputIter>::position
//@ret r
//@sig where P : Fn ( Self::Item ) -> bool , =>
//@sub self . chars_indecies ( ) . find ( | & ( _ , $c ) | predicate ( $c ) ) . map ( | ( $p , _ ) | $p ) => v_find_first(self.chars_indecies(), &predicate)
//@spec
    requires self.wf()
    ensures first_char_is(self@, predicate, r)
//@end
//@fn nom_7/stringqueue.rs <StringQueue as InputIter>::slice_index
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ret r
//@sig nom::Needed => Needed
//@opt nom::Needed::new => Needed::new
//@opt nom::Needed::Unknown => Needed::Unknown
//@spec
    requires self.wf()
    ensures slice_answer(self@, count, r)
//@iter 0 it
//@at start
    hide(ByteIter::wf); hide(ByteIter::all); hide(flat); hide(full); hide(texts);
    proof { self.is_text(); assert(self@.take(0).len() == 0); assert(self@.skip(0) =~= self@); assert(valid(self@.take(0))); }
    let ghost s = self@;
//@loop 0 for
    invariant it.wf(), it.offset + it@.len() == s.len(), it@ =~= s.skip(it.offset as int), valid(s.take(it.offset as int)), valid(s), chars_of(s.take(it.offset as int)) == cnt, cnt <= it.offset, cnt <= count, s == self@
    ensures it.offset == s.len(), cnt <= count
    decreases it@.len()
//@at loop 0 start
    proof { let o = s.len() - it_0.len(); assert(it_0 =~= s.skip(o)); one_more(s, o); prefix_step(s, o); }
//@at tail
    proof { assert(s.take(s.len() as int) =~= s); assert(s.skip(s.len() as int) =~= Seq::<u8>::empty()); }
//@end
//@fn nom_7/stringqueue.rs <StringQueue as InputLength>::input_len
//@ret r
//@spec
    requires self.wf()
    ensures r == self@.len()
//@end
//@fn nom_7/stringqueue.rs <StringQueue as InputTake>::take as nom_take
//@ret r
//@sig Self => StringQueue<'a>
//@spec
    requires self.wf()
    ensures count <= self@.len(), r.wf(), r@ =~= self@.take(count as int), count > 0 ==> bnd(self@, count as int)
//@end
//@fn nom_7/stringqueue.rs <StringQueue as InputTake>::take_split as take_split
//@ret r
//@sig ( Self , Self ) => (StringQueue<'a>, StringQueue<'a>)
//@spec
    requires self.wf()
    ensures count <= self@.len(), r.0.wf(), r.1.wf(), r.0@ =~= self@.skip(count as int), r.1@ =~= self@.take(count as int), bnd(self@, count as int)
//@at start
    proof { self.is_text(); }
//@end
//@fn nom_7/stringqueue.rs <StringQueue as InputTakeAtPosition>::split_at_position
//@ret r
//@sig < P , E : nom::error::ParseError < Self >> => <P, E: ParseError<StringQueue<'a>>>
//@sig where P : Fn ( Self::Item ) -> bool , =>
//@sig nom::IResult<Self , Self , E> => IResult<StringQueue<'a>, StringQueue<'a>, E>
//@sub self . chars_indecies ( ) . find ( | & ( _ , $c ) | predicate ( $c ) ) . map ( | ( $p , _ ) | $p ) => v_find_first(self.chars_indecies(), &predicate)
//@opt nom::Err::Incomplete => NomErr::Incomplete
//@opt nom::Err::Error => NomErr::Error
//@opt nom::Err::Failure => NomErr::Failure
//@opt nom::Needed::new => Needed::new
//@opt self . clone ( ) => self.v_clone()
//@spec
    requires self.wf()
    ensures forall|f: Option<usize>| #[trigger] first_char_is(self@, predicate, f) ==> split_answer(self@, f, false, None::<ErrorKind>, r)
//@at start
    hide(first_char);
    proof { self.is_text(); one_first(self@, predicate); assert forall|f: Option<usize>| #[trigger] first_char_is(self@, predicate, f) implies (f matches Some(i) ==> i < self@.len() && bnd(self@, i as int)) by { cut_first(self@, predicate, f); } }
//@end
//@fn nom_7/stringqueue.rs <StringQueue as InputTakeAtPosition>::split_at_position1
//@ret r
//@sig < P , E : nom::error::ParseError < Self >> => <P, E: ParseError<StringQueue<'a>>>
//@sig where P : Fn ( Self::Item ) -> bool , =>
//@sig nom::IResult<Self , Self , E> => IResult<StringQueue<'a>, StringQueue<'a>, E>
//@sig nom::error::ErrorKind => ErrorKind
//@sub self . chars_indecies ( ) . find ( | & ( _ , $c ) | predicate ( $c ) ) . map ( | ( $p , _ ) | $p ) => v_find_first(self.chars_indecies(), &predicate)
//@opt nom::Err::Incomplete => NomErr::Incomplete
//@opt nom::Err::Error => NomErr::Error
//@opt nom::Err::Failure => NomErr::Failure
//@opt nom::Needed::new => Needed::new
//@opt self . clone ( ) => self.v_clone()
//@spec
    requires self.wf()
    ensures forall|f: Option<usize>| #[trigger] first_char_is(self@, predicate, f) ==> split_answer(self@, f, false, Some(e), r)
//@at start
    hide(first_char);
    proof { self.is_text(); one_first(self@, predicate); assert forall|f: Option<usize>| #[trigger] first_char_is(self@, predicate, f) implies (f matches Some(i) ==> i < self@.len() && bnd(self@, i as int)) by { cut_first(self@, predicate, f); } }
//@end
//@fn nom_7/stringqueue.rs <StringQueue as InputTakeAtPosition>::split_at_position_complete
//@ret r
//@sig < P , E : nom::error::ParseError < Self >> => <P, E: ParseError<StringQueue<'a>>>
//@sig where P : Fn ( Self::Item ) -> bool , =>
//@sig nom::IResult<Self , Self , E> => IResult<StringQueue<'a>, StringQueue<'a>, E>
//@sub self . chars_indecies ( ) . find ( | & ( _ , $c ) | predicate ( $c ) ) . map ( | ( $p , _ ) | $p ) => v_find_first(self.chars_indecies(), &predicate)
//@opt nom::Err::Incomplete => NomErr::Incomplete
//@opt nom::Err::Error => NomErr::Error
//@opt nom::Err::Failure => NomErr::Failure
//@opt nom::Needed::new => Needed::new
//@opt self . clone ( ) => self.v_clone()
//@spec
    requires self.wf()
    ensures forall|f: Option<usize>| #[trigger] first_char_is(self@, predicate, f) ==> split_answer(self@, f, true, None::<ErrorKind>, r)
//@at start
    hide(first_char);
    proof { self.is_text(); one_first(self@, predicate); assert forall|f: Option<usize>| #[trigger] first_char_is(self@, predicate, f) implies (f matches Some(i) ==> i < self@.len() && bnd(self@, i as int)) by { cut_first(self@, predicate, f); } }
//@end
//@fn nom_7/stringqueue.rs <StringQueue as InputTakeAtPosition>::split_at_position1_complete
//@ret r
//@sig < P , E : nom::error::ParseError < Self >> => <P, E: ParseError<StringQueue<'a>>>
//@sig where P : Fn ( Self::Item ) -> bool , =>
//@sig nom::IResult<Self , Self , E> => IResult<StringQueue<'a>, StringQueue<'a>, E>
//@sig nom::error::ErrorKind => ErrorKind
//@sub self . chars_indecies ( ) . find ( | & ( _ , $c ) | predicate ( $c ) ) . map ( | ( $p , _ ) | $p ) => v_find_first(self.chars_indecies(), &predicate)
//@opt nom::Err::Incomplete => NomErr::Incomplete
//@opt nom::Err::Error => NomErr::Error
//@opt nom::Err::Failure => NomErr::Failure
//@opt nom::Needed::new => Needed::new
//@opt self . clone ( ) => self.v_clone()
//@spec
    requires self.wf()
    ensures forall|f: Option<usize>| #[trigger] first_char_is(self@, predicate, f) ==> split_answer(self@, f, true, Some(e), r)
//@at start
    hide(first_char);
    proof { self.is_text(); one_first(self@, predicate); assert forall|f: Option<usize>| #[trigger] first_char_is(self@, predicate, f) implies (f matches Some(i) ==> i < self@.len() && bnd(self@, i as int)) by { cut_first(self@, predicate, f); } }
//@end
//@fn nom_7/stringqueue.rs <StringQueue as Slice<core::ops::Range<usize>>>::slice as nom_slice_range
//@ret r
//@sig Self => StringQueue<'a>
//@spec
    requires self.wf()
    ensures in_range(range, self@.len() as int), r.wf(), r@ =~= self@.subrange(first(range), past(range, self@.len() as int)), r@.len() > 0 ==> bnd(self@, first(range)) && bnd(self@, past(range, self@.len() as int))
//@end
//@fn nom_7/stringqueue.rs <StringQueue as Slice<core::ops::RangeTo<usize>>>::slice as nom_slice_to
//@ret r
//@sig Self => StringQueue<'a>
//@spec
    requires self.wf()
    ensures in_range(range, self@.len() as int), r.wf(), r@ =~= self@.subrange(first(range), past(range, self@.len() as int)), r@.len() > 0 ==> bnd(self@, first(range)) && bnd(self@, past(range, self@.len() as int))
//@end
//@fn nom_7/stringqueue.rs <StringQueue as Slice<core::ops::RangeFrom<usize>>>::slice as nom_slice_from
//@ret r
//@sig Self => StringQueue<'a>
//@spec
    requires self.wf()
    ensures in_range(range, self@.len() as int), r.wf(), r@ =~= self@.subrange(first(range), past(range, self@.len() as int)), r@.len() > 0 ==> bnd(self@, first(range)) && bnd(self@, past(range, self@.len() as int))
//@end
//@fn nom_7/stringqueue.rs <StringQueue as Slice<core::ops::RangeFull>>::slice as nom_slice_full
//@ret r
//@sig Self => StringQueue<'a>
//@spec
    requires self.wf()
    ensures in_range(range, self@.len() as int), r.wf(), r@ =~= self@.subrange(first(range), past(range, self@.len() as int)), r@.len() > 0 ==> bnd(self@, first(range)) && bnd(self@, past(range, self@.len() as int))
//@end
}
//@item nom_7/mod.rs struct CharOffsets
impl<'a> CharOffsets<OwnedCharIter<'a>> {
    pub open spec fn wf(&self) -> bool { self.chars.wf() && self.offset + self.chars@.len() <= usize::MAX }
//@fn nom_7/mod.rs CharOffsets::new
//@ret r
//@sig I => OwnedCharIter<'a>
//@spec
    requires chars.wf(), chars@.len() <= usize::MAX
    ensures r.wf(), r.chars == chars, r.offset == 0
//@end
//@fn nom_7/mod.rs <CharOffsets as Iterator>::next
//@ret r
//@sig Self::Item => (usize, char)
//@opt $c . len_utf8 ( ) => v_len_utf8($c)
//@spec
    requires old(self).wf()
    ensures final(self).wf(), match r {
        None => old(self).chars@.len() == 0,
        Some((p, c)) => old(self).chars@.len() > 0 && p == old(self).offset && final(self).offset == p + width(old(self).chars@) && c as u32 == value(old(self).chars@) && final(self).chars@ =~= old(self).chars@.skip(width(old(self).chars@)),
    }
//@at start
    proof { unfold(self.chars@); bits(); put3(lead_bits(self.chars@[0]), self.chars@); reveal_with_fuel(put, 5); }
//@end
}

impl<'a> ByteQueue<'a> {
//@fn nom_7/bytequeue.rs <ByteQueue as Compare<&'b str>>::compare as q_compare_str
//@ret r
//@sig 'b => '_
//@sig nom::CompareResult => CompareResult
//@sig str => StrRef
//@sub nom::Compare::$m ( self , $(x) ) => self.$m($(x))
//@spec
    requires self.wf()
    ensures r == compared(false, self@, t@)
//@end
//@fn nom_7/bytequeue.rs <ByteQueue as Compare<&'b str>>::compare_no_case as q_compare_no_case_str
//@ret r
//@sig 'b => '_
//@sig nom::CompareResult => CompareResult
//@sig str => StrRef
//@sub nom::Compare::$m ( self , $(x) ) => self.$m($(x))
//@spec
    requires self.wf()
    ensures r == compared(true, self@, t@)
//@end
//@fn nom_7/bytequeue.rs <ByteQueue as Compare<crate::StringData<'b>>>::compare as q_compare_text
//@ret r
//@sig 'b => '_
//@sig nom::CompareResult => CompareResult
//@opt nom::Compare::compare ( self , $(x) ) => self.q_compare_str($(x))
//@opt nom::Compare::compare_no_case ( self , $(x) ) => self.q_compare_no_case_str($(x))
//@spec
    requires self.wf()
    ensures r == compared(false, self@, t@)
//@end
//@fn nom_7/bytequeue.rs <ByteQueue as Compare<crate::StringData<'b>>>::compare_no_case as q_compare_no_case_text
//@ret r
//@sig 'b => '_
//@sig nom::CompareResult => CompareResult
//@opt nom::Compare::compare ( self , $(x) ) => self.q_compare_str($(x))
//@opt nom::Compare::compare_no_case ( self , $(x) ) => self.q_compare_no_case_str($(x))
//@spec
    requires self.wf()
    ensures r == compared(true, self@, t@)
//@end
//@fn nom_7/bytequeue.rs <ByteQueue as Compare<&'c crate::StringData<'b>>>::compare as q_compare_text_ref
//@ret r
//@sig 'b => '_
//@sig 'c => '_
//@sig nom::CompareResult => CompareResult
//@opt nom::Compare::compare ( self , $(x) ) => self.q_compare_str($(x))
//@opt nom::Compare::compare_no_case ( self , $(x) ) => self.q_compare_no_case_str($(x))
//@spec
    requires self.wf()
    ensures r == compared(false, self@, t@)
//@end
//@fn nom_7/bytequeue.rs <ByteQueue as Compare<&'c crate::StringData<'b>>>::compare_no_case as q_compare_no_case_text_ref
//@ret r
//@sig 'b => '_
//@sig 'c => '_
//@sig nom::CompareResult => CompareResult
//@opt nom::Compare::compare ( self , $(x) ) => self.q_compare_str($(x))
//@opt nom::Compare::compare_no_case ( self , $(x) ) => self.q_compare_no_case_str($(x))
//@spec
    requires self.wf()
    ensures r == compared(true, self@, t@)
//@end
//@fn nom_7/bytequeue.rs <ByteQueue as FindSubstring<&'b str>>::find_substring as q_find_substring_str
//@ret r
//@sig 'b => '_
//@sig str => StrRef
//@spec
    requires self.wf()
    ensures match r {
        Some(p) => at(self@, substr@, p as int) && none(self@, substr@, 0, p as int),
        None => never(self@, substr@, 0),
    }
//@end
}

} // verus!
fn main() {}
