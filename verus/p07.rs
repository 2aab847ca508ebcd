//@props P07
//@title decoding of one character, for inputs of every length
//@assume pointers into a slice: `as_ptr`, `add` and `read` are given the contract of the part of the slice they denote, with the bounds as preconditions
//@assume `char::from_u32` is defined exactly on the scalar values (`char::len_utf8` has a contract in vstd)
use vstd::prelude::*;

verus! {

//@include ptr.rs
pub assume_specification[ core::char::from_u32 ](v: u32) -> (r: Option<char>)
    ensures
        r is Some <==> v < 0xd800 || 0xe000 <= v <= 0x10ffff,
        r matches Some(c) ==> c as u32 == v;

//@include utf8.rs

//@fn lib.rs const_utf8_char_next
//@attr #[verifier::loop_isolation(false)]
//@ret r
//@spec
    ensures
        r.1 == width(data@),
        r.0 == (if width(data@) == 0 { 0 } else { value(data@) })
//@at start
    proof { bits(); }
    let ghost s = data@;
//@loop 0 while
    invariant
        i <= extra <= data.len(), extra <= 3, s.len() == data.len() + 1, s[0] == first, data@ =~= s.skip(1),
        extra == 1 <==> 0xc0 <= first <= 0xdf, extra == 2 <==> 0xe0 <= first <= 0xef, extra == 3 <==> 0xf0 <= first <= 0xf7,
        forall|j: int| 1 <= j <= i ==> cont(s[j]),
        value == put(lead_bits(first), s, i as int), 0 <= put(lead_bits(first), s, i as int) < (if i == 0 { 0x20int } else if i == 1 { 0x800int } else if i == 2 { 0x20000int } else { 0x800000int })
    decreases extra - i
//@at loop 0 start
    proof { bits(); put3(lead_bits(first), s); assert(data@[i as int] == s[i + 1]); assert(!cont(s[i + 1]) ==> width(s) == 0) by { assert(i == 0 || i == 1 || i == 2); } }
//@at loop 0 after
    proof { put3(lead_bits(first), s); }
//@end

//@fn lib.rs const_slice
//@ret r
//@sub . as_ptr ( ) => .v_ptr()
//@sub . add ( => .v_add(
//@sub core::slice::from_raw_parts => v_from_raw_parts
//@spec
    ensures
        r is Some <==> range.start <= range.end <= data.len(),
        r matches Some(s) ==> s@ == data@.subrange(range.start as int, range.end as int)
//@end

//@fn lib.rs const_or_bytes
//@ret r
//@spec
    ensures r == (if value is Some { value->0 } else { default })
//@end

//@item char_indicies.rs struct Utf8CharError

#[derive(Clone, Copy)]
//@item char_indicies.rs struct Utf8CharIndices

//@fn char_indicies.rs Utf8CharIndices::next_const/inner
//@attr #[verifier::loop_isolation(false)]
//@ret r
//@sig * const u8 => Ptr<'_>
//@sub data . add ( => data.v_add(
//@sub data . read ( => data.v_read(
//@spec
    requires data.o == 0, data.s.len() == max, max > 0, first == data.s@[0], first >= 0x80
    ensures
        r matches Ok((c, w)) ==> w == width(data.s@) && w > 0 && c as u32 == value(data.s@),
        r matches Err(e) ==> width(data.s@) == 0 && 1 <= e <= 4,
//@at start
    proof { bits(); }
    let ghost s = data.s@;
//@loop 0 while
    invariant
        1 <= i <= width <= max, 2 <= width <= 4, data.s@ == s, data.o == i - 1,
        forall|j: int| 1 <= j < i ==> cont(s[j]),
        char == put(lead_bits(first), s, i - 1),
        0 <= put(lead_bits(first), s, i - 1) < (if i == 1 { 0x20int } else if i == 2 { 0x800int } else if i == 3 { 0x20000int } else { 0x800000int })
    decreases width - i
//@at loop 0 start
    proof { bits(); put3(lead_bits(first), s); assert(!cont(s[i as int]) ==> crate::width(s) == 0) by { assert(i == 1 || i == 2 || i == 3); } }
//@at loop 0 after
    proof { put3(lead_bits(first), s); }
//@end

impl<'a> Utf8CharIndices<'a> {
//@fn char_indicies.rs Utf8CharIndices::next_const
//@drop inner
//@ret r
//@sig mut self => self
//@sub self => this
//@sub . as_ptr ( ) => .v_ptr()
//@sub data . read ( => data.v_read(
//@spec
    requires self.offset + self.data.len() <= usize::MAX
    ensures
        r matches Ok((t, o, c)) ==> width(self.data@) > 0 && o == self.offset && c as u32 == value(self.data@)
            && t.offset == self.offset + width(self.data@) && t.data@ =~= self.data@.skip(width(self.data@)),
        r matches Err((t, e)) ==> width(self.data@) == 0 && e.valid_up_to == self.offset,
        r matches Err((t, e)) ==> (self.data.len() == 0 ==> e.error_len == 0 && t == self),
        r matches Err((t, e)) ==> (self.data.len() > 0 ==> e.error_len >= 1 && t.offset == self.offset + 1 && t.data@ =~= self.data@.skip(1)),
//@at start
    let mut this = self;
//@end

//@fn char_indicies.rs Utf8CharIndices::new
//@ret r
//@spec
    ensures r.data == data, r.offset == 0
//@end

//@fn char_indicies.rs Utf8CharIndices::remaining
//@ret r
//@spec
    ensures r == self.data
//@end

//@fn char_indicies.rs Utf8CharIndices::size_hint
//@ret r
//@spec
    requires self.data.len() <= isize::MAX
    ensures r.1 == self.data.len(), r.0 == (self.data.len() + 3) / 4
//@at start
    assert(forall|n: usize| #![trigger n >> 2i32] n >> 2i32 == n / 4) by (bit_vector);
//@end

//@fn char_indicies.rs <Utf8CharIndices as Iterator>::next
//@ret r
//@sig Self::Item => Result<(usize, char), Utf8CharError>
//@spec
    requires old(self).offset + old(self).data.len() <= usize::MAX
    ensures
        r is None <==> old(self).data.len() == 0,
        r is None ==> *final(self) == *old(self),
        r matches Some(Ok((o, c))) ==> width(old(self).data@) > 0 && o == old(self).offset && c as u32 == value(old(self).data@)
            && final(self).offset == o + width(old(self).data@) && final(self).data@ =~= old(self).data@.skip(width(old(self).data@)),
        r matches Some(Err(e)) ==> width(old(self).data@) == 0 && e.valid_up_to == old(self).offset && e.error_len >= 1
            && final(self).offset == old(self).offset + 1 && final(self).data@ =~= old(self).data@.skip(1)
//@end
}

}
fn main() {}
