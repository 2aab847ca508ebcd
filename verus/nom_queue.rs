//@props P18
//@title the input operations of the parser library on a byte queue, for every division into chunks
//@assume nom's comparison of slices decides by the first differing byte (without case: of the ASCII lower case), then by the lengths; `char::encode_utf8` gives the bytes of a character
use vstd::prelude::*;

verus! {

//@uses queue.rs
//@uses queue_iter.rs

//@include nom.rs

/// The first byte the predicate holds of is where `r` says.
pub open spec fn first_is<F>(s: Seq<u8>, p: F, r: Option<usize>) -> bool { first_where(s, |b: u8| holds(p, b), r) }
/// The bytes of a character.
pub uninterp spec fn coded(c: char) -> Seq<u8>;
#[verifier::external_body]
fn v_coded<'s>(c: char) -> (r: &'s [u8]) ensures r@ == coded(c) { unimplemented!() }
/// `any` of an iterator over bytes.
#[verifier::external_body]
fn v_any<'a, 'b>(i: ByteIter<'a, 'b>, p: Ghost<spec_fn(u8) -> bool>) -> (r: bool)
    requires i.wf()
    ensures r == (exists|j: int| 0 <= j < i@.len() && (p@)(#[trigger] i@[j]))
{ unimplemented!() }
/// A token is somewhere in the bytes.
pub open spec fn has_byte(s: Seq<u8>, b: u8) -> bool { exists|j: int| 0 <= j < s.len() && #[trigger] s[j] == b }
pub open spec fn has_slice(s: Seq<u8>, n: Seq<u8>) -> bool { exists|p: int| #[trigger] at(s, n, p) }

impl<'a> ByteQueue<'a> {
    fn v_clone(&self) -> (r: ByteQueue<'a>)
        requires self.wf()
        ensures r.wf(), r@ =~= self@
    { self.slice(..) }
//@fn nom_7/bytequeue.rs <ByteQueue as Compare<&'b [u8]>>::compare as compare
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ret r
//@sig 'b => '_
//@sig nom::CompareResult => CompareResult
//@sub nom::Compare::compare ( & $x . as_slice ( ) , $(t) ) => v_compare($x.as_slice(), $(t))
//@sub rest . split_at ( $(x) ) => v_split(rest, $(x))
//@iter 0 it
//@opt nom::CompareResult::Ok => CompareResult::Ok
//@opt nom::CompareResult::Error => CompareResult::Error
//@opt nom::CompareResult::Incomplete => CompareResult::Incomplete
//@spec
    requires self.wf()
    ensures r == compared(false, self@, t@)
//@loop 0 for
    invariant compared(false, flat(it@), rest@) == compared(false, self@, t@)
    ensures it@.len() == 0
    decreases it@.len()
//@at loop 0 start
    proof { assert(flat(it_0) =~= s@ + flat(it@)) by { assert(it_0.len() > 0); } compare_parts(false, s@, flat(it@), rest@, if s@.len() <= rest@.len() { s@.len() as int } else { rest@.len() as int }); compared_means(false, s@, rest@.take(if s@.len() <= rest@.len() { s@.len() as int } else { rest@.len() as int })); }
//@end
//@fn nom_7/bytequeue.rs <ByteQueue as Compare<&'b [u8]>>::compare_no_case as compare_no_case
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ret r
//@sig 'b => '_
//@sig nom::CompareResult => CompareResult
//@sub nom::Compare::compare_no_case ( & $x . as_slice ( ) , $(t) ) => v_compare_no_case($x.as_slice(), $(t))
//@sub rest . split_at ( $(x) ) => v_split(rest, $(x))
//@iter 0 it
//@opt nom::CompareResult::Ok => CompareResult::Ok
//@opt nom::CompareResult::Error => CompareResult::Error
//@opt nom::CompareResult::Incomplete => CompareResult::Incomplete
//@spec
    requires self.wf()
    ensures r == compared(true, self@, t@)
//@loop 0 for
    invariant compared(true, flat(it@), rest@) == compared(true, self@, t@)
    ensures it@.len() == 0
    decreases it@.len()
//@at loop 0 start
    proof { assert(flat(it_0) =~= s@ + flat(it@)) by { assert(it_0.len() > 0); } compare_parts(true, s@, flat(it@), rest@, if s@.len() <= rest@.len() { s@.len() as int } else { rest@.len() as int }); compared_means(true, s@, rest@.take(if s@.len() <= rest@.len() { s@.len() as int } else { rest@.len() as int })); }
//@end
//@fn nom_7/bytequeue.rs <ByteQueue as Compare<crate::ByteData<'b>>>::compare as compare_data
//@ret r
//@sig 'b => '_
//@sig nom::CompareResult => CompareResult
//@sub nom::Compare::compare ( self , $(x) ) => self.compare($(x))
//@spec
    requires self.wf()
    ensures r == compared(false, self@, t@)
//@end
//@fn nom_7/bytequeue.rs <ByteQueue as Compare<crate::ByteData<'b>>>::compare_no_case as compare_no_case_data
//@ret r
//@sig 'b => '_
//@sig nom::CompareResult => CompareResult
//@sub nom::Compare::compare_no_case ( self , $(x) ) => self.compare_no_case($(x))
//@spec
    requires self.wf()
    ensures r == compared(true, self@, t@)
//@end
//@fn nom_7/bytequeue.rs <ByteQueue as Compare<&'c crate::ByteData<'b>>>::compare as compare_data_ref
//@ret r
//@sig 'b => '_
//@sig 'c => '_
//@sig nom::CompareResult => CompareResult
//@sub nom::Compare::compare ( self , $(x) ) => self.compare($(x))
//@spec
    requires self.wf()
    ensures r == compared(false, self@, t@)
//@end
//@fn nom_7/bytequeue.rs <ByteQueue as Compare<&'c crate::ByteData<'b>>>::compare_no_case as compare_no_case_data_ref
//@ret r
//@sig 'b => '_
//@sig 'c => '_
//@sig nom::CompareResult => CompareResult
//@sub nom::Compare::compare_no_case ( self , $(x) ) => self.compare_no_case($(x))
//@spec
    requires self.wf()
    ensures r == compared(true, self@, t@)
//@end
//@fn nom_7/bytequeue.rs <ByteQueue as FindSubstring<crate::ByteData<'b>>>::find_substring as find_substring_data
//@ret r
//@sig 'b => '_
//@spec
    requires self.wf()
    ensures match r {
        Some(p) => at(self@, substr@, p as int) && none(self@, substr@, 0, p as int),
        None => never(self@, substr@, 0),
    }
//@end
//@fn nom_7/bytequeue.rs <ByteQueue as FindSubstring<&'c crate::ByteData<'b>>>::find_substring as find_substring_data_ref
//@ret r
//@sig 'b => '_
//@sig 'c => '_
//@spec
    requires self.wf()
    ensures match r {
        Some(p) => at(self@, substr@, p as int) && none(self@, substr@, 0, p as int),
        None => never(self@, substr@, 0),
    }
//@end
//@fn nom_7/bytequeue.rs <ByteQueue as FindSubstring<&'b [u8]>>::find_substring as find_substring_slice
//@ret r
//@sig 'b => '_
//@spec
    requires self.wf()
    ensures match r {
        Some(p) => at(self@, substr@, p as int) && none(self@, substr@, 0, p as int),
        None => never(self@, substr@, 0),
    }
//@end
//@fn nom_7/bytequeue.rs <ByteQueue as FindToken<u8>>::find_token as find_token_u8
//@ret r
//@sub self . bytes ( ) . any ( | $b | $(e) ) => v_any(self.bytes(), Ghost(|$b: u8| $(e)))
//@spec
    requires self.wf()
    ensures r == has_byte(self@, token)
//@end
//@fn nom_7/bytequeue.rs <ByteQueue as FindToken<&'b u8>>::find_token as find_token_u8_ref
//@ret r
//@sig 'b => '_
//@sub self . bytes ( ) . any ( | $b | $(e) ) => v_any(self.bytes(), Ghost(|$b: u8| $(e)))
//@spec
    requires self.wf()
    ensures r == has_byte(self@, *token)
//@end
//@fn nom_7/bytequeue.rs <ByteQueue as FindToken<char>>::find_token as find_token_char
//@ret r
//@sub let mut utf8 = [ 0 ; 4 ] ; =>
//@sub let utf8 = token . encode_utf8 ( & mut utf8 ) ; => let utf8 = v_coded(token);
//@sub utf8 . as_bytes ( ) => utf8
//@spec
    requires self.wf()
    ensures r == has_slice(self@, coded(token))
//@end
//@fn nom_7/bytequeue.rs <ByteQueue as FindToken<&'b char>>::find_token as find_token_char_ref
//@ret r
//@sig 'b => '_
//@sub nom::FindToken::find_token ( self , $(x) ) => self.find_token_char($(x))
//@spec
    requires self.wf()
    ensures r == has_slice(self@, coded(*token))
//@end
//@fn nom_7/bytequeue.rs <ByteQueue as InputIter>::iter_indices
//@ret r
//@sig Self::Iter => Enumerate<OwnedByteIter<'a>>
//@sub Iterator::enumerate => v_enumerate
//@sub self . clone ( ) => self.v_clone()
//@spec
    requires self.wf()
    ensures r.iter.wf(), r.iter@ =~= self@, r.count == 0
//@end
//@fn nom_7/bytequeue.rs <ByteQueue as InputIter>::iter_elements
//@ret r
//@sig Self::IterElem => OwnedByteIter<'a>
//@sub self . clone ( ) => self.v_clone()
//@spec
    requires self.wf()
    ensures r.wf(), r@ =~= self@
//@end
//@fn nom_7/bytequeue.rs <ByteQueue as InputIter>::position as position
//@ret r
//@sig where P : Fn ( Self::Item ) -> bool , =>
//@spec
    requires self.wf()
    ensures first_where(self@, |b: u8| holds(predicate, b), r)
//@end
//@fn nom_7/bytequeue.rs <ByteQueue as InputIter>::slice_index
//@ret r
//@sig nom::Needed => Needed
//@opt nom::Needed::new => Needed::new
//@spec
    requires self.wf()
    ensures index_answer(self@.len() as int, count, r)
//@end
//@fn nom_7/bytequeue.rs <ByteQueue as InputLength>::input_len
//@ret r
//@spec
    requires self.wf()
    ensures r == self@.len()
//@end
//@fn nom_7/bytequeue.rs <ByteQueue as InputTake>::take as nom_take
//@ret r
//@sig Self => ByteQueue<'a>
//@spec
    requires self.wf()
    ensures count <= self@.len(), r.wf(), r@ =~= self@.take(count as int)
//@end
//@fn nom_7/bytequeue.rs <ByteQueue as InputTake>::take_split as take_split
//@ret r
//@sig ( Self , Self ) => (ByteQueue<'a>, ByteQueue<'a>)
//@spec
    requires self.wf()
    ensures count <= self@.len(), r.0.wf(), r.1.wf(), r.0@ =~= self@.skip(count as int), r.1@ =~= self@.take(count as int)
//@end
//@fn nom_7/bytequeue.rs <ByteQueue as InputTakeAtPosition>::split_at_position
//@ret r
//@sig < P , E : nom::error::ParseError < Self >> => <P, E: ParseError<ByteQueue<'a>>>
//@sig where P : Fn ( Self::Item ) -> bool , =>
//@sig nom::IResult<Self , Self , E> => IResult<ByteQueue<'a>, ByteQueue<'a>, E>
//@opt nom::Err::Incomplete => NomErr::Incomplete
//@opt nom::Err::Error => NomErr::Error
//@opt nom::Err::Failure => NomErr::Failure
//@opt nom::Needed::new => Needed::new
//@opt self . clone ( ) => self.v_clone()
//@spec
    requires self.wf()
    ensures forall|f: Option<usize>| #[trigger] first_is(self@, predicate, f) ==> split_answer(self@, f, false, None::<ErrorKind>, r)
//@end
//@fn nom_7/bytequeue.rs <ByteQueue as InputTakeAtPosition>::split_at_position1
//@ret r
//@sig < P , E : nom::error::ParseError < Self >> => <P, E: ParseError<ByteQueue<'a>>>
//@sig where P : Fn ( Self::Item ) -> bool , =>
//@sig nom::IResult<Self , Self , E> => IResult<ByteQueue<'a>, ByteQueue<'a>, E>
//@sig nom::error::ErrorKind => ErrorKind
//@opt nom::Err::Incomplete => NomErr::Incomplete
//@opt nom::Err::Error => NomErr::Error
//@opt nom::Err::Failure => NomErr::Failure
//@opt nom::Needed::new => Needed::new
//@opt self . clone ( ) => self.v_clone()
//@spec
    requires self.wf()
    ensures forall|f: Option<usize>| #[trigger] first_is(self@, predicate, f) ==> split_answer(self@, f, false, Some(e), r)
//@end
//@fn nom_7/bytequeue.rs <ByteQueue as InputTakeAtPosition>::split_at_position_complete
//@ret r
//@sig < P , E : nom::error::ParseError < Self >> => <P, E: ParseError<ByteQueue<'a>>>
//@sig where P : Fn ( Self::Item ) -> bool , =>
//@sig nom::IResult<Self , Self , E> => IResult<ByteQueue<'a>, ByteQueue<'a>, E>
//@opt nom::Err::Incomplete => NomErr::Incomplete
//@opt nom::Err::Error => NomErr::Error
//@opt nom::Err::Failure => NomErr::Failure
//@opt nom::Needed::new => Needed::new
//@opt self . clone ( ) => self.v_clone()
//@spec
    requires self.wf()
    ensures forall|f: Option<usize>| #[trigger] first_is(self@, predicate, f) ==> split_answer(self@, f, true, None::<ErrorKind>, r)
//@end
//@fn nom_7/bytequeue.rs <ByteQueue as InputTakeAtPosition>::split_at_position1_complete
//@ret r
//@sig < P , E : nom::error::ParseError < Self >> => <P, E: ParseError<ByteQueue<'a>>>
//@sig where P : Fn ( Self::Item ) -> bool , =>
//@sig nom::IResult<Self , Self , E> => IResult<ByteQueue<'a>, ByteQueue<'a>, E>
//@sig nom::error::ErrorKind => ErrorKind
//@opt nom::Err::Incomplete => NomErr::Incomplete
//@opt nom::Err::Error => NomErr::Error
//@opt nom::Err::Failure => NomErr::Failure
//@opt nom::Needed::new => Needed::new
//@opt self . clone ( ) => self.v_clone()
//@spec
    requires self.wf()
    ensures forall|f: Option<usize>| #[trigger] first_is(self@, predicate, f) ==> split_answer(self@, f, true, Some(e), r)
//@end
//@fn nom_7/bytequeue.rs <ByteQueue as Slice<core::ops::Range<usize>>>::slice as nom_slice_range
//@ret r
//@sig Self => ByteQueue<'a>
//@spec
    requires self.wf()
    ensures in_range(range, self@.len() as int), r.wf(), r@ =~= self@.subrange(first(range), past(range, self@.len() as int))
//@end
//@fn nom_7/bytequeue.rs <ByteQueue as Slice<core::ops::RangeTo<usize>>>::slice as nom_slice_to
//@ret r
//@sig Self => ByteQueue<'a>
//@spec
    requires self.wf()
    ensures in_range(range, self@.len() as int), r.wf(), r@ =~= self@.subrange(first(range), past(range, self@.len() as int))
//@end
//@fn nom_7/bytequeue.rs <ByteQueue as Slice<core::ops::RangeFrom<usize>>>::slice as nom_slice_from
//@ret r
//@sig Self => ByteQueue<'a>
//@spec
    requires self.wf()
    ensures in_range(range, self@.len() as int), r.wf(), r@ =~= self@.subrange(first(range), past(range, self@.len() as int))
//@end
//@fn nom_7/bytequeue.rs <ByteQueue as Slice<core::ops::RangeFull>>::slice as nom_slice_full
//@ret r
//@sig Self => ByteQueue<'a>
//@spec
    requires self.wf()
    ensures in_range(range, self@.len() as int), r.wf(), r@ =~= self@.subrange(first(range), past(range, self@.len() as int))
//@end
}

} // verus!
fn main() {}
