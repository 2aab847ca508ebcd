//@props P06
//@title constant helpers, for inputs of every length
//@assume text: a `str` is its bytes (`as_bytes`), which do not begin with a continuation byte, and `from_utf8_unchecked` is given the contract that it reads as the bytes it is made from, with "cut from a text at character boundaries" as precondition
//@assume pointers into a slice: `as_ptr`, `add` and `from_raw_parts` are given the contract of the part of the slice they denote, with the bounds as preconditions
use vstd::prelude::*;

verus! {

//@include ptr.rs
pub uninterp spec fn text(s: &str) -> Seq<u8>;

pub trait AsText {
    fn v_bytes(&self) -> (r: &[u8]);
}
impl AsText for str {
    #[verifier::external_body]
    fn v_bytes(&self) -> (r: &[u8])
        ensures r@ == text(self), text(self).len() > 0 ==> !(0x80 <= text(self)[0] < 0xc0)
    { unimplemented!() }
}
#[verifier::external_body]
const unsafe fn v_text<'a>(b: &'a [u8], from: Ghost<&str>, i: Ghost<int>, j: Ghost<int>) -> (r: &'a str)
    requires cut(text(from@), i@, j@, b@)
    ensures text(r) == b@
{ unimplemented!() }

/// Either side of the first occurrence of a text in a text.
#[verifier::external_body]
const unsafe fn v_part<'a>(b: &'a [u8], h: Ghost<&str>, n: Ghost<&str>) -> (r: &'a str)
    requires exists|p: int| at(text(h@), text(n@), p) && (b@ == text(h@).take(p) || b@ == text(h@).skip(p))
    ensures text(r) == b@
{ unimplemented!() }

// ---- specification ----

/// Where a text may be cut: at its ends and where no continuation byte follows.
pub open spec fn boundary(s: Seq<u8>, i: int) -> bool {
    i == 0 || i == s.len() || (0 < i < s.len() && !(0x80 <= s[i] < 0xc0))
}
pub open spec fn cut(s: Seq<u8>, i: int, j: int, r: Seq<u8>) -> bool {
    0 <= i <= j <= s.len() && boundary(s, i) && boundary(s, j) && r =~= s.subrange(i, j)
}
proof fn continuation()
    ensures forall|b: u8| #![trigger b & 0b1100_0000] (b & 0b1100_0000 == 0b1000_0000) <==> 0x80 <= b < 0xc0
{
    assert(forall|b: u8| #![trigger b & 0b1100_0000] (b & 0b1100_0000 == 0b1000_0000) <==> 0x80 <= b < 0xc0) by (bit_vector);
}

//@item lib.rs enum StrSliceResult

pub open spec fn at(h: Seq<u8>, n: Seq<u8>, p: int) -> bool {
    0 <= p && p + n.len() <= h.len() && h.subrange(p, p + n.len()) =~= n
}

pub open spec fn concat(v: Seq<&[u8]>) -> Seq<u8>
    decreases v.len()
{
    if v.len() == 0 { seq![] } else { concat(v.drop_last()) + v.last()@ }
}

proof fn concat_step(v: Seq<&[u8]>, i: int)
    requires 0 <= i < v.len()
    ensures concat(v.take(i + 1)) == concat(v.take(i)) + v[i]@
{
    assert(v.take(i + 1).drop_last() =~= v.take(i));
}

proof fn concat_mono(v: Seq<&[u8]>, i: int)
    requires 0 <= i <= v.len()
    ensures concat(v.take(i)).len() <= concat(v).len()
    decreases v.len() - i
{
    if i < v.len() {
        concat_step(v, i);
        concat_mono(v, i + 1);
    } else {
        assert(v.take(i) =~= v);
    }
}

//@fn lib.rs const_eq
//@ret r
//@spec
    ensures r == (a_val@ =~= b_val@)
//@loop 0 while
    invariant i <= a_val.len(), a_val.len() == b_val.len(), forall|j: int| 0 <= j < i ==> a_val@[j] == b_val@[j]
    decreases a_val.len() - i
//@end

//@fn lib.rs const_starts_with
//@ret r
//@spec
    ensures r == at(haystack@, needle@, 0)
//@loop 0 while
    invariant i <= needle.len() <= haystack.len(), forall|j: int| 0 <= j < i ==> haystack@[j] == needle@[j]
    decreases needle.len() - i
//@at loop 0 start
    assert(haystack@.subrange(0, needle@.len() as int)[i as int] == haystack@[i as int]);
//@end

//@fn lib.rs const_ends_with
//@ret r
//@sub . as_ptr ( ) => .v_ptr()
//@sub . add ( => .v_add(
//@sub core::slice::from_raw_parts => v_from_raw_parts
//@spec
    ensures r == at(haystack@, needle@, haystack@.len() - needle@.len())
//@loop 0 while
    invariant i <= needle.len() <= haystack.len(), hayend@ == haystack@.subrange(haystack.len() - needle.len(), haystack.len() as int),
        forall|j: int| 0 <= j < i ==> hayend@[j] == needle@[j]
    decreases needle.len() - i
//@end

//@fn lib.rs const_slice
//@ret r
//@sub . as_ptr ( ) => .v_ptr()
//@sub . add ( => .v_add(
//@sub core::slice::from_raw_parts => v_from_raw_parts
//@spec
    ensures
        r is Some <==> range.start <= range.end <= data.len(),
        r matches Some(s) ==> s@ == data@.subrange(range.start as int, range.end as int)
//@end

//@fn lib.rs const_or_bytes
//@ret r
//@spec
    ensures r == (if value is Some { value->0 } else { default })
//@end

//@fn lib.rs const_split_once_byte
//@ret r
//@spec
    ensures
        r is Some <==> haystack@.contains(needle),
        r matches Some((a, b)) ==> a@ + b@ =~= haystack@ && !a@.contains(needle) && b@.len() > 0 && b@[0] == needle
//@loop 0 while
    invariant pos <= haystack.len(), forall|j: int| 0 <= j < pos ==> haystack@[j] != needle
    decreases haystack.len() - pos
//@end

//@fn lib.rs const_find_bytes
//@ret r
//@sub . as_ptr ( ) => .v_ptr()
//@sub . add ( => .v_add(
//@sub core::slice::from_raw_parts => v_from_raw_parts
//@spec
    ensures
        r matches Some(p) ==> at(haystack@, needle@, p as int) && forall|j: int| 0 <= j < p ==> !at(haystack@, needle@, j),
        r is None ==> forall|j: int| !at(haystack@, needle@, j)
//@loop 0 loop
    invariant needle.len() <= haystack.len(), max_start == haystack.len() - needle.len(), pos <= max_start,
        forall|j: int| 0 <= j < pos ==> !at(haystack@, needle@, j)
    decreases max_start - pos
//@end

//@fn lib.rs const_split_once_bytes
//@ret r
//@sub . as_ptr ( ) => .v_ptr()
//@sub . add ( => .v_add(
//@sub core::slice::from_raw_parts => v_from_raw_parts
//@spec
    ensures
        r is Some <==> exists|p: int| at(haystack@, needle@, p),
        r matches Some((a, b)) ==> a@ + b@ =~= haystack@ && at(haystack@, needle@, a@.len() as int)
            && forall|j: int| 0 <= j < a@.len() ==> !at(haystack@, needle@, j)
//@end

//@fn lib.rs build_const_bytes
//@ret r
//@refuse concat(inputs@).len() > N
//@spec
    ensures
        concat(inputs@).len() <= N,
        r.1 == concat(inputs@).len(),
        r.0@ =~= concat(inputs@) + data@.subrange(r.1 as int, N as int)
//@loop 0 while
    invariant i <= inputs.len(), pos == concat(inputs@.take(i as int)).len(), pos <= N, old_data.len() == N,
        data@ =~= concat(inputs@.take(i as int)) + old_data.subrange(pos as int, N as int)
    decreases inputs.len() - i
//@at loop 0 before
    let ghost old_data = data@;
    assert(inputs@.take(0) =~= seq![]);
//@at loop 0 start
    proof { concat_step(inputs@, i as int); concat_mono(inputs@, i + 1); }
//@loop 1 while
    invariant j <= input.len(), pos == concat(inputs@.take(i as int)).len() + j, pos <= N, old_data.len() == N,
        input@ == inputs@[i as int]@, concat(inputs@).len() >= concat(inputs@.take(i as int)).len() + input@.len(),
        data@ =~= concat(inputs@.take(i as int)) + input@.take(j as int) + old_data.subrange(pos as int, N as int)
    decreases input.len() - j
//@at loop 0 end
    assert(input@.take(j as int) =~= input@);
//@at loop 1 end
    assert(input@.take(j as int) =~= input@.take(j - 1).push(input@[j - 1]));
//@at loop 0 after
    assert(inputs@.take(i as int) =~= inputs@);
//@end

//@fn lib.rs const_slice_str
//@ret r
//@sub let data = data . as_bytes ( ) => let ghost whole = data; let data = data.v_bytes()
//@sub . as_ptr ( ) => .v_ptr()
//@sub . add ( => .v_add(
//@sub core::slice::from_raw_parts => v_from_raw_parts
//@sub core::str::from_utf8_unchecked ( data ) => v_text(data, Ghost(whole), Ghost(start as int), Ghost(end as int))
//@spec
    ensures
        r is OutOfBounds <==> !(range.start <= range.end <= text(data).len()),
        r is Success <==> range.start <= range.end <= text(data).len() && boundary(text(data), range.start as int) && boundary(text(data), range.end as int),
        r matches StrSliceResult::Success(s) ==> text(s) =~= text(data).subrange(range.start as int, range.end as int)
//@at start
    proof { continuation(); }
    let ghost bytes = text(data);
//@end

impl<'a> StrSliceResult<'a> {
//@fn lib.rs StrSliceResult::ok
//@ret r
//@spec
    ensures r is Some <==> self is Success, r is Some ==> r->0 == self->Success_0
//@end
//@fn lib.rs StrSliceResult::unwrap
//@ret r
//@refuse !(self is Success)
//@spec
    ensures self is Success, r == self->Success_0
//@end
//@fn lib.rs StrSliceResult::err
//@ret r
//@spec
    ensures r == (if self is Success { None } else { Some(self) })
//@end
//@fn lib.rs StrSliceResult::is_ok
//@ret r
//@opt matches! ( self , & $(x) ) => matches!(*self, $(x))
//@spec
    ensures r == (self is Success)
//@end
//@fn lib.rs StrSliceResult::is_err
//@ret r
//@opt matches! ( self , & $(x) ) => matches!(*self, $(x))
//@spec
    ensures r == !(self is Success)
//@end
}
//@fn lib.rs const_or_str
//@ret r
//@spec
    ensures r == (match value { Some(x) => x, None => default })
//@end

//@fn lib.rs const_split_once_str
//@ret r
//@sub haystack . as_bytes ( ) => haystack.v_bytes()
//@sub needle . as_bytes ( ) => needle.v_bytes()
//@sub let av = unsafe => proof { assert(av@ =~= text(haystack).take(av@.len() as int)); assert(bv@ =~= text(haystack).skip(av@.len() as int)); } let av = unsafe
//@sub core::str::from_utf8_unchecked ( $x ) => v_part($x, Ghost(haystack), Ghost(needle))
//@spec
    ensures
        r is Some <==> exists|p: int| at(text(haystack), text(needle), p),
        r matches Some((a, b)) ==> text(a) + text(b) =~= text(haystack) && at(text(haystack), text(needle), text(a).len() as int)
            && forall|j: int| 0 <= j < text(a).len() ==> !at(text(haystack), text(needle), j)
//@end

} // verus!
fn main() {}
