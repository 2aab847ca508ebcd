//@props P14
//@title the string queue and its characters, for texts of every division into chunks
//@assume a predicate given to find_char/take_while answers for a character what an uninterpreted predicate says (`Iterator::find` is `next` until it holds)
use vstd::prelude::*;

verus! {

//@uses queue.rs
//@uses queue_split.rs
//@uses queue_iter.rs

// ---- strings ----

//@item stringdata.rs struct StringData
impl<'a> View for StringData<'a> { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.data@ } }
/// `&*(val as *const ByteData).cast::<StringData>()`: `StringData` is a transparent wrapper.
#[verifier::external_body]
fn v_text_ref<'a, 'b>(x: &'b ByteData<'a>) -> (r: &'b StringData<'a>)
    requires valid(x@)
    ensures r@ == x@
{ unimplemented!() }
pub trait TextRef<'a, 'b> {
    spec fn it(&self) -> Option<Seq<u8>>;
    fn v_text(self) -> (r: Option<&'b StringData<'a>>)
        requires self.it() is Some ==> valid(self.it()->0)
        ensures match (self.it(), r) { (Some(x), Some(y)) => y@ == x, (None, None) => true, _ => false };
}
impl<'a, 'b> TextRef<'a, 'b> for Option<&'b ByteData<'a>> {
    open spec fn it(&self) -> Option<Seq<u8>> { match self { Some(x) => Some(x@), None => None } }
    fn v_text(self) -> (r: Option<&'b StringData<'a>>) { match self { Some(x) => Some(v_text_ref(x)), None => None } }
}
pub trait TextVal<'a> {
    spec fn val(&self) -> Option<Seq<u8>>;
    fn v_textval(self) -> (r: Option<StringData<'a>>)
        requires self.val() is Some ==> valid(self.val()->0)
        ensures match (self.val(), r) { (Some(x), Some(y)) => y@ == x && y.wf(), (None, None) => true, _ => false };
}
impl<'a> TextVal<'a> for Option<ByteData<'a>> {
    open spec fn val(&self) -> Option<Seq<u8>> { match self { Some(x) => Some(x@), None => None } }
    fn v_textval(self) -> (r: Option<StringData<'a>>) { match self { Some(x) => Some(unsafe { StringData::from_bytedata_unchecked(x) }), None => None } }
}
impl<'a> StringData<'a> {
    pub open spec fn wf(&self) -> bool { valid(self@) }
//@fn stringdata.rs StringData::from_bytedata_unchecked
//@prop P14
//@ret r
//@spec
    requires valid(dat@)
    ensures r.wf(), r@ == dat@
//@end
    /// `transmute`: `StringData` is a transparent wrapper.
    #[verifier::external_body]
    fn into_bytedata(self) -> (r: ByteData<'a>) ensures r@ == self@ { unimplemented!() }
}

//@item queue/string_queue.rs struct StringQueue
impl<'a> View for StringQueue<'a> { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.queue@ } }
proof fn texts_parts(q: Seq<Seq<u8>>)
    requires texts(q)
    ensures q.len() > 0 ==> texts(q.skip(1)) && texts(q.drop_last()) && valid(q[0]) && valid(q.last())
{
    if q.len() > 0 {
        assert forall|i: int| 0 <= i < q.skip(1).len() implies valid(#[trigger] q.skip(1)[i]) by { assert(q.skip(1)[i] == q[i + 1]); }
        assert forall|i: int| 0 <= i < q.drop_last().len() implies valid(#[trigger] q.drop_last()[i]) by { assert(q.drop_last()[i] == q[i]); }
    }
}
impl<'a> StringQueue<'a> {
    pub open spec fn wf(&self) -> bool { self.queue.wf() && texts(self.queue.queue@) }
    pub proof fn is_text(&self)
        requires self.wf()
        ensures valid(self@), bnd(self@, 0), bnd(self@, self@.len() as int)
    { texts_first(self.queue.queue@); }

//@fn queue/string_queue.rs StringQueue::new
//@prop P14
//@ret r
//@spec
    ensures r.wf(), r@ == Seq::<u8>::empty()
//@end
//@fn queue/string_queue.rs StringQueue::with_item
//@prop P14
//@ret r
//@spec
    requires data.wf()
    ensures r.wf(), r@ == data@
//@end
//@fn queue/string_queue.rs StringQueue::from_bytequeue
//@prop P14
//@ret r
//@spec
    requires queue.wf(), texts(queue.queue@)
    ensures r.wf(), r@ == queue@
//@end
//@fn queue/string_queue.rs StringQueue::as_bytequeue
//@prop P14
//@ret r
//@spec
    ensures *r == self.queue
//@end
    /// `transmute`: `StringQueue` is a transparent wrapper.
    fn into_bytequeue(self) -> (r: ByteQueue<'a>) ensures r == self.queue { self.queue }
//@fn queue/string_queue.rs StringQueue::push_back
//@prop P14
//@sig < S : Into < StringData < 'a >> > => <>
//@sig data : S => data: StringData<'a>
//@sub data . into ( ) => data
//@spec
    requires old(self).wf(), data.wf(), old(self)@.len() + data@.len() <= usize::MAX
    ensures final(self).wf(), final(self)@ == old(self)@ + data@
//@end
//@fn queue/string_queue.rs StringQueue::push_front
//@prop P14
//@sig < S : Into < StringData < 'a >> > => <>
//@sig data : S => data: StringData<'a>
//@sub data . into ( ) => data
//@spec
    requires old(self).wf(), data.wf(), old(self)@.len() + data@.len() <= usize::MAX
    ensures final(self).wf(), final(self)@ == data@ + old(self)@
//@end
//@fn queue/string_queue.rs StringQueue::pop_front
//@prop P14
//@ret r
//@spec
    requires old(self).wf()
    ensures final(self).wf(), match r {
        None => old(self)@.len() == 0 && final(self)@ == old(self)@,
        Some(x) => x.wf() && x@.len() > 0 && old(self)@ == x@ + final(self)@,
    }
//@at start
    proof { texts_parts(self.queue.queue@); }
//@end
//@fn queue/string_queue.rs StringQueue::pop_back
//@prop P14
//@ret r
//@spec
    requires old(self).wf()
    ensures final(self).wf(), match r {
        None => old(self)@.len() == 0 && final(self)@ == old(self)@,
        Some(x) => x.wf() && x@.len() > 0 && old(self)@ == final(self)@ + x@,
    }
//@at start
    proof { texts_parts(self.queue.queue@); }
//@end
//@fn queue/string_queue.rs StringQueue::front
//@prop P14
//@ret r
//@sub . map ( | val | unsafe { & * ( val as * const ByteData < 'a > ) . cast :: < StringData < 'a >> ( ) } ) => .v_text()
//@spec
    requires self.wf()
    ensures match r { None => self@.len() == 0, Some(x) => x@.len() > 0 && x@ == self.queue.queue@[0] }
//@at start
    proof { texts_parts(self.queue.queue@); }
//@end
//@fn queue/string_queue.rs StringQueue::back
//@prop P14
//@ret r
//@sub . map ( | val | unsafe { & * ( val as * const ByteData < 'a > ) . cast :: < StringData < 'a >> ( ) } ) => .v_text()
//@spec
    requires self.wf()
    ensures match r { None => self@.len() == 0, Some(x) => x@.len() > 0 && x@ == self.queue.queue@.last() }
//@at start
    proof { texts_parts(self.queue.queue@); }
//@end
//@fn queue/string_queue.rs StringQueue::is_empty
//@prop P14
//@ret r
//@spec
    requires self.wf()
    ensures r == (self@.len() == 0)
//@end
//@fn queue/string_queue.rs StringQueue::len
//@prop P14
//@ret r
//@spec
    requires self.wf()
    ensures r == self@.len()
//@end
//@fn queue/string_queue.rs StringQueue::starts_with
//@prop P14
//@ret r
//@sig < S : AsRef < [ u8 ] >> => <>
//@sig bytes : S => bytes: &[u8]
//@sub bytes . as_ref ( ) => bytes
//@spec
    requires self.wf()
    ensures r == at(self@, bytes@, 0)
//@end
//@fn queue/string_queue.rs StringQueue::ends_with
//@prop P14
//@ret r
//@sig < S : AsRef < [ u8 ] >> => <>
//@sig bytes : S => bytes: &[u8]
//@sub bytes . as_ref ( ) => bytes
//@spec
    requires self.wf()
    ensures r == at(self@, bytes@, self@.len() - bytes@.len())
//@end
//@fn queue/string_queue.rs StringQueue::into_iter
//@prop P14
//@ret r
//@spec
    requires self.wf()
    ensures r.wf(), r@ == self.queue.queue@
//@end
//@fn queue/string_queue.rs StringQueue::slice
//@prop P14
//@ret r
//@drop inner
//@sub inner ( slic ) => slice_checked(Ghost(self@), Ghost(first(range)), Ghost(past(range, self@.len() as int)), slic)
//@sig core :: ops :: RangeBounds => RangeBounds
//@spec
    requires self.wf()
    ensures in_range(range, self@.len() as int), r.wf(), r@ =~= self@.subrange(first(range), past(range, self@.len() as int)),
        r@.len() > 0 ==> bnd(self@, first(range)) && bnd(self@, past(range, self@.len() as int))
//@at start
    proof { self.is_text(); }
//@end
//@fn queue/string_queue.rs StringQueue::split_off
//@prop P14
//@ret r
//@drop inner
//@sub inner ( => str_split_off(
//@spec
    requires old(self).wf()
    ensures final(self).wf(), r.wf(), bnd(old(self)@, at as int), final(self)@ =~= old(self)@.take(at as int), r@ =~= old(self)@.skip(at as int)
//@at start
    proof { self.is_text(); }
//@end
//@fn queue/string_queue.rs StringQueue::check_range
//@prop P14
//@ret r
//@sig impl core :: ops :: RangeBounds < usize > => R
//@sig fn check_range => fn check_range<R: RangeBounds<usize>>
//@refuse !bnd(self@, first(range))
//@refuse !bnd(self@, past(range, self@.len() as int))
//@spec
    requires self.wf()
    ensures in_range(range, self@.len() as int), r.0 == first(range), r.1 == past(range, self@.len() as int), bnd(self@, r.0 as int), bnd(self@, r.1 as int)
//@at start
    hide(flat); hide(full); hide(texts); hide(ByteIter::wf);
    proof { self.is_text(); bits(); }
//@end
//@fn queue/string_queue.rs StringQueue::replace_range
//@prop P14
//@sig core :: ops :: RangeBounds => RangeBounds
//@spec
    requires old(self).wf(), replace_with.wf(), old(self)@.len() + replace_with@.len() <= usize::MAX
    ensures in_range(range, old(self)@.len() as int), bnd(old(self)@, first(range)), bnd(old(self)@, past(range, old(self)@.len() as int)), final(self).wf(),
        final(self)@ =~= old(self)@.take(first(range)) + replace_with@ + old(self)@.skip(past(range, old(self)@.len() as int))
//@end
//@fn queue/string_queue.rs StringQueue::chars
//@prop P14
//@ret r
//@sub char_iter :: CharIter => CharIter
//@spec
    requires self.wf()
    ensures r.wf(), r@ =~= self@
//@end
//@fn queue/string_queue.rs StringQueue::into_chars
//@prop P14
//@ret r
//@sub char_iter :: OwnedCharIter => OwnedCharIter
//@spec
    requires self.wf()
    ensures r.wf(), r@ =~= self@
//@end
//@fn queue/string_queue.rs StringQueue::chars_indecies
//@prop P14
//@ret r
//@sub char_iter :: CharIndecies => CharIndecies
//@spec
    requires self.wf()
    ensures r.wf(), r@ =~= self@, r.offset == 0
//@end
//@fn queue/string_queue.rs StringQueue::bytes
//@prop P14
//@ret r
//@spec
    requires self.wf()
    ensures r.wf(), r@ =~= self@
//@end
//@fn queue/string_queue.rs StringQueue::into_bytes
//@prop P14
//@ret r
//@spec
    requires self.wf()
    ensures r.wf(), r@ =~= self@
//@end
//@fn queue/string_queue.rs StringQueue::byte_chunks
//@prop P14
//@ret r
//@spec
    requires self.wf()
    ensures r@ == self.queue.queue@
//@end
//@fn queue/string_queue.rs StringQueue::chunks
//@prop P14
//@ret r
//@spec
    requires self.wf()
    ensures r.wf(), r@ == self.queue.queue@
//@end
//@fn queue/string_queue.rs StringQueue::split_on_bytes
//@prop P14
//@ret r
//@spec
    requires self.wf()
    ensures r.wf(), r.left() == (if self@.len() == 0 { Seq::empty() } else { pieces(self@, needle@, 0, 0) })
//@end
//@fn queue/string_queue.rs StringQueue::splitn_on_bytes
//@prop P14
//@ret r
//@spec
    requires self.wf()
    ensures r.wf(), r.left() == (if self@.len() == 0 { Seq::empty() } else { pieces(self@, needle@, 0, max as int) })
//@end
//@fn queue/string_queue.rs StringQueue::split_on
//@prop P14
//@ret r
//@sig & 'b str => &'b StrRef
//@spec
    requires self.wf(), valid(needle@)
    ensures r.wf(), r.inner.left() == (if self@.len() == 0 { Seq::empty() } else { pieces(self@, needle@, 0, 0) })
//@end
//@fn queue/string_queue.rs StringQueue::splitn_on
//@prop P14
//@ret r
//@sig & 'b str => &'b StrRef
//@spec
    requires self.wf(), valid(needle@)
    ensures r.wf(), r.inner.left() == (if self@.len() == 0 { Seq::empty() } else { pieces(self@, needle@, 0, max as int) })
//@end
}
/// `str` is its bytes.
#[verifier::external_body]
pub struct StrRef(u8);
impl View for StrRef { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl StrRef {
    #[verifier::external_body]
    fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}

//@fn queue/string_queue.rs StringQueue::slice/inner as slice_checked
//@prop P14
//@ret r
//@attr #[verifier::loop_isolation(false)]
//@sig slic : => x: Ghost<Seq<u8>>, s: Ghost<int>, e: Ghost<int>, slic:
//@sig ByteQueue < '_ > => ByteQueue<'a>
//@sig StringQueue < '_ > => StringQueue<'a>
//@sig fn inner => fn inner<'a>
//@refuse !bnd(x@, s@)
//@refuse !bnd(x@, e@)
//@sub front [ 0 ] => front.as_slice()[0]
//@sub let by = slic . back ( ) . expect ( "not empty" ) ; => let by = slic.back().expect("not empty"); proof { assert(q[q.len() - 1] == by@); flat_last(q); assert(slic@[0] == front@[0]); assert(slic@[0] == x@[s@]); assert(bnd(x@, s@)); assert(heads(q)); assert(!cont(by@[0])); tail(x@, s@, e@, by@); }
//@sub let end_byte = by [ by . len ( ) - 1 ] ; => let end_byte = by.as_slice()[by.len() - 1]; proof { assert(x@[e@ - 1] == end_byte); if !cont(end_byte) { last_char(x@, e@, e@ - 1); assert(x@.skip(e@ - 1)[0] == end_byte); } }
//@sub by [ i ] => by.as_slice()[i]
//@sub let char_len = by . len ( ) - i ; => let char_len = by.len() - i; proof { let j = e@ - char_len; assert(x@[j] == by@[i as int]); assert forall|k: int| j < k < e@ implies cont(x@[k]) by { assert(x@[k] == by@[k - (e@ - by@.len())]); } last_char(x@, e@, j); assert(x@.skip(j)[0] == by@[i as int]); }
//@spec
    requires slic.wf(), valid(x@), 0 <= s@ < e@ <= x@.len(), slic@ == x@.subrange(s@, e@), bnd(x@, s@) ==> heads(slic.queue@), bnd(x@, s@) && bnd(x@, e@) ==> texts(slic.queue@)
    ensures bnd(x@, s@), bnd(x@, e@), r.wf(), r@ == x@.subrange(s@, e@)
//@at start
    proof { bits(); full_parts(slic.queue@); }
    let ghost q = slic.queue@;
//@loop 0 while
    invariant i <= by@.len() - 2, forall|k: int| i < k < by@.len() ==> cont(by@[k])
    decreases i
//@end
//@fn queue/string_queue.rs StringQueue::split_off/inner as str_split_off
//@prop P14
//@ret r
//@sub queue . bytes ( ) . skip_mut ( at ) . next ( ) => ({ let mut bytes = queue.bytes(); bytes.skip_mut(at); bytes.next() })
//@refuse at > queue@.len()
//@refuse !bnd(queue@, at as int)
//@spec
    requires old(queue).wf(), texts(old(queue).queue@), at != old(queue)@.len()
    ensures final(queue).wf(), texts(final(queue).queue@), r.wf(), bnd(old(queue)@, at as int), final(queue)@ =~= old(queue)@.take(at as int), r@ =~= old(queue)@.skip(at as int)
//@at start
    proof { bits(); }
//@end
#[verifier::external_body]
fn v_never<T>() -> T requires false { unimplemented!() }

// ---- iterating over the characters ----

proof fn unfold(s: Seq<u8>)
    requires valid(s)
    ensures s.len() > 0 ==> width(s) > 0 && valid(s.skip(width(s))), forall|t: Seq<u8>| t.len() == 0 ==> #[trigger] valid(t)
{ }
pub open spec fn lead(b: u8) -> int { if b < 0x80 { b as int } else { lead_bits(b) } }
/// The bytes of a character read as `u32` and put together.
proof fn wide()
    ensures
        forall|b: u8| #![trigger (b as u32) & 0b0001_1111] 0xc0 <= b <= 0xdf ==> (b as u32) & 0b0001_1111 == b - 0xc0,
        forall|b: u8| #![trigger (b as u32) & 0b0000_1111] 0xe0 <= b <= 0xef ==> (b as u32) & 0b0000_1111 == b - 0xe0,
        forall|b: u8| #![trigger (b as u32) & 0b0000_0111] 0xf0 <= b <= 0xf7 ==> (b as u32) & 0b0000_0111 == b - 0xf0,
        forall|v: u32, b: u8| #![trigger (v << 6u8) | ((b as u32) & 0b0011_1111)] v < 0x100000 && 0x80 <= b <= 0xbf ==> (v << 6u8) | ((b as u32) & 0b0011_1111) == v * 0x40 + (b - 0x80),
{
    assert(forall|b: u8| #![trigger (b as u32) & 0b0001_1111] 0xc0 <= b <= 0xdf ==> (b as u32) & 0b0001_1111 == b - 0xc0) by (bit_vector);
    assert(forall|b: u8| #![trigger (b as u32) & 0b0000_1111] 0xe0 <= b <= 0xef ==> (b as u32) & 0b0000_1111 == b - 0xe0) by (bit_vector);
    assert(forall|b: u8| #![trigger (b as u32) & 0b0000_0111] 0xf0 <= b <= 0xf7 ==> (b as u32) & 0b0000_0111 == b - 0xf0) by (bit_vector);
    assert(forall|v: u32, b: u8| #![trigger (v << 6u8) | ((b as u32) & 0b0011_1111)] v < 0x100000 && 0x80 <= b <= 0xbf ==> (v << 6u8) | ((b as u32) & 0b0011_1111) == v * 0x40 + (b - 0x80)) by (bit_vector);
}
#[verifier::external_body]
fn v_char(c: u32) -> (r: char)
    requires c <= 0xd7ff || 0xe000 <= c <= 0x10ffff
    ensures r as u32 == c
{ unimplemented!() }
/// A text has at most one byte, at least a quarter of a byte per character.
pub open spec fn chars_of(s: Seq<u8>) -> nat
    decreases s.len()
{
    if s.len() == 0 || width(s) == 0 { 0 } else { 1 + chars_of(s.skip(width(s))) }
}
proof fn chars_bound(s: Seq<u8>)
    requires valid(s)
    ensures (s.len() + 3) / 4 <= chars_of(s) <= s.len()
    decreases s.len()
{
    if s.len() > 0 { chars_bound(s.skip(width(s))); }
}

//@item queue/char_iter.rs struct CharIter
impl<'a, 'b> View for CharIter<'a, 'b> { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.bytes@ } }
impl<'a, 'b> CharIter<'a, 'b> {
    pub open spec fn wf(&self) -> bool { self.bytes.wf() && valid(self@) }
//@fn queue/char_iter.rs CharIter::new
//@prop P14
//@ret r
//@spec
    requires queue.wf()
    ensures r.wf(), r@ =~= queue@
//@at start
    proof { queue.is_text(); }
//@end
//@fn queue/char_iter.rs CharIter::from_byte_iter
//@prop P14
//@ret r
//@spec
    requires bytes.wf(), valid(bytes@)
    ensures r.wf(), r@ == bytes@
//@end
//@fn queue/char_iter.rs <CharIter as Iterator>::next
//@prop P14
//@ret r
//@attr #[verifier::loop_isolation(false)]
//@sig Self :: Item => char
//@sub core :: char :: from_u32_unchecked => v_char
//@sub for _ in => for k in
//@spec
    requires old(self).wf()
    ensures final(self).wf(), match r {
        None => old(self)@.len() == 0 && final(self)@.len() == 0,
        Some(c) => old(self)@.len() > 0 && c as u32 == value(old(self)@) && final(self)@ =~= old(self)@.skip(width(old(self)@)),
    }
//@at start
    hide(ByteIter::wf); hide(ByteIter::all); hide(flat); hide(full); hide(valid); hide(texts);
    proof { unfold(self@); bits(); wide(); put3(lead(self@[0]), self@); }
    let ghost s = self@;
//@loop 0 for
    invariant self.bytes.wf(), self@ =~= s.skip(k + 1), ch == put(lead(s[0]), s, k as int), width(s) == expects + 1
//@at loop 0 end
    proof { reveal_with_fuel(put, 2); }
//@end
//@fn queue/char_iter.rs <CharIter as Iterator>::size_hint
//@prop P14
//@ret r
//@spec
    requires self.wf(), self@.len() <= usize::MAX - 3
    ensures r.0 <= chars_of(self@), r.1 is Some, chars_of(self@) <= r.1->0
//@at start
    proof { assert(forall|n: usize| #![trigger n >> 2i32] n >> 2i32 == n / 4) by (bit_vector); chars_bound(self@); }
//@end
}
//@item queue/char_iter.rs struct CharIndecies
impl<'a, 'b> View for CharIndecies<'a, 'b> { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.bytes@ } }
impl<'a, 'b> CharIndecies<'a, 'b> {
    pub open spec fn wf(&self) -> bool { self.bytes.wf() && valid(self@) && self.offset + self@.len() <= usize::MAX }
//@fn queue/char_iter.rs CharIndecies::new
//@prop P14
//@ret r
//@spec
    requires queue.wf()
    ensures r.wf(), r@ =~= queue@, r.offset == 0
//@at start
    proof { queue.is_text(); }
//@end
//@fn queue/char_iter.rs <CharIndecies as Iterator>::next
//@prop P14
//@ret r
//@attr #[verifier::loop_isolation(false)]
//@sig Self :: Item => (usize, char)
//@sub core :: char :: from_u32_unchecked => v_char
//@sub for _ in => for k in
//@spec
    requires old(self).wf()
    ensures final(self).wf(), match r {
        None => old(self)@.len() == 0 && final(self)@.len() == 0,
        Some((p, c)) => old(self)@.len() > 0 && p == old(self).offset && final(self).offset == p + width(old(self)@) && c as u32 == value(old(self)@) && final(self)@ =~= old(self)@.skip(width(old(self)@)),
    }
//@at start
    hide(ByteIter::wf); hide(ByteIter::all); hide(flat); hide(full); hide(valid); hide(texts);
    proof { unfold(self@); bits(); wide(); put3(lead(self@[0]), self@); }
    let ghost s = self@;
//@loop 0 for
    invariant self.bytes.wf(), self@ =~= s.skip(k + 1), self.offset == old(self).offset + k + 1, ch == put(lead(s[0]), s, k as int), width(s) == expects + 1
//@at loop 0 end
    proof { reveal_with_fuel(put, 2); }
//@end
//@fn queue/char_iter.rs <CharIndecies as Iterator>::size_hint
//@prop P14
//@ret r
//@spec
    requires self.wf(), self@.len() <= usize::MAX - 3
    ensures r.0 <= chars_of(self@), r.1 is Some, chars_of(self@) <= r.1->0
//@at start
    proof { assert(forall|n: usize| #![trigger n >> 2i32] n >> 2i32 == n / 4) by (bit_vector); chars_bound(self@); }
//@end
}
//@item queue/char_iter.rs struct OwnedCharIter
impl<'a> View for OwnedCharIter<'a> { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.bytes@ } }
impl<'a> OwnedCharIter<'a> {
    pub open spec fn wf(&self) -> bool { self.bytes.wf() && valid(self@) }
//@fn queue/char_iter.rs OwnedCharIter::new
//@prop P14
//@ret r
//@spec
    requires queue.wf()
    ensures r.wf(), r@ =~= queue@
//@at start
    proof { queue.is_text(); }
//@end
//@fn queue/char_iter.rs <OwnedCharIter as Iterator>::next
//@prop P14
//@ret r
//@attr #[verifier::loop_isolation(false)]
//@sig Self :: Item => char
//@sub core :: char :: from_u32_unchecked => v_char
//@sub for _ in => for k in
//@spec
    requires old(self).wf()
    ensures final(self).wf(), match r {
        None => old(self)@.len() == 0 && final(self)@.len() == 0,
        Some(c) => old(self)@.len() > 0 && c as u32 == value(old(self)@) && final(self)@ =~= old(self)@.skip(width(old(self)@)),
    }
//@at start
    hide(ByteIter::wf); hide(ByteIter::all); hide(flat); hide(full); hide(valid); hide(texts);
    proof { unfold(self@); bits(); wide(); put3(lead(self@[0]), self@); }
    let ghost s = self@;
//@loop 0 for
    invariant self.bytes.wf(), self@ =~= s.skip(k + 1), ch == put(lead(s[0]), s, k as int), width(s) == expects + 1
//@at loop 0 end
    proof { reveal_with_fuel(put, 2); }
//@end
}

//@item queue/split.rs struct SplitOnStr
impl<'a, 'b> SplitOnStr<'a, 'b> {
    pub open spec fn wf(&self) -> bool { self.inner.wf() && self.inner.texty() }
//@fn queue/split.rs SplitOnStr::new
//@prop P14
//@ret r
//@sig & 'b str => &'b StrRef
//@spec
    requires queue.wf(), valid(needle@)
    ensures r.wf(), r.inner.left() == (if queue@.len() == 0 { Seq::empty() } else { pieces(queue@, needle@, 0, max as int) })
//@at start
    proof { queue.is_text(); }
//@end
//@fn queue/split.rs <SplitOnStr as Iterator>::next
//@prop P14
//@ret r
//@sig Self :: Item => StringQueue<'a>
//@spec
    requires old(self).wf()
    ensures final(self).wf(), match r {
        None => old(self).inner.left().len() == 0 && final(self).inner.left() == old(self).inner.left(),
        Some(x) => x.wf() && old(self).inner.left().len() > 0 && x@ == old(self).inner.left()[0] && final(self).inner.left() =~= old(self).inner.left().skip(1),
    }
//@end
}
//@item queue/chunk_iter.rs struct StrChunkIter ( LinkedRoot => (pub LinkedRoot
impl<'a> View for StrChunkIter<'a> { type V = Seq<Seq<u8>>; open spec fn view(&self) -> Seq<Seq<u8>> { self.0@ } }
impl<'a> StrChunkIter<'a> {
    pub open spec fn wf(&self) -> bool { texts(self@) }
//@fn queue/chunk_iter.rs StrChunkIter::new
//@prop P14
//@ret r
//@spec
    requires texts(data@)
    ensures r.wf(), r@ == data@
//@end
//@fn queue/chunk_iter.rs <StrChunkIter as Iterator>::next
//@prop P14
//@ret r
//@sig Self :: Item => StringData<'a>
//@sub . map ( | x | unsafe { StringData :: from_bytedata_unchecked ( x ) } ) => .v_textval()
//@spec
    requires old(self).wf()
    ensures final(self).wf(), match r {
        None => old(self)@.len() == 0 && final(self)@ == old(self)@,
        Some(x) => old(self)@.len() > 0 && x.wf() && x@ == old(self)@[0] && final(self)@ == old(self)@.skip(1),
    }
//@at start
    proof { texts_parts(self@); }
//@end
//@fn queue/chunk_iter.rs <StrChunkIter as DoubleEndedIterator>::next_back
//@prop P14
//@ret r
//@sig Self :: Item => StringData<'a>
//@sub . map ( | x | unsafe { StringData :: from_bytedata_unchecked ( x ) } ) => .v_textval()
//@spec
    requires old(self).wf()
    ensures final(self).wf(), match r {
        None => old(self)@.len() == 0 && final(self)@ == old(self)@,
        Some(x) => old(self)@.len() > 0 && x.wf() && x@ == old(self)@.last() && final(self)@ == old(self)@.drop_last(),
    }
//@at start
    proof { texts_parts(self@); }
//@end
//@fn queue/chunk_iter.rs <StrChunkIter as Iterator>::size_hint
//@prop P14
//@ret r
//@spec
    ensures r.0 == self@.len(), r.1 == Some(r.0)
//@end
//@fn queue/chunk_iter.rs <StrChunkIter as Iterator>::count
//@prop P14
//@ret r
//@spec
    ensures r == self@.len()
//@end
//@fn queue/chunk_iter.rs <StrChunkIter as ExactSizeIterator>::len
//@prop P14
//@ret r
//@spec
    ensures r == self@.len()
//@end
}


//@item queue/linked_iter.rs struct LinkedStrIter
impl<'a, 'b> View for LinkedStrIter<'a, 'b> { type V = Seq<Seq<u8>>; open spec fn view(&self) -> Seq<Seq<u8>> { self.inner@ } }
proof fn texts_skip(q: Seq<Seq<u8>>, n: int)
    requires texts(q)
    ensures n >= 0 ==> texts(from_nth(q, n)), q.len() > 0 ==> texts(q.skip(1))
{
    texts_parts(q);
    if 0 <= n < q.len() { assert forall|i: int| 0 <= i < q.skip(n).len() implies valid(#[trigger] q.skip(n)[i]) by { assert(q.skip(n)[i] == q[i + n]); } }
}
impl<'a, 'b> LinkedStrIter<'a, 'b> {
    pub open spec fn wf(&self) -> bool { texts(self@) }
//@fn queue/linked_iter.rs LinkedStrIter::new
//@prop P14
//@ret r
//@spec
    requires texts(inner@)
    ensures r.wf(), r@ == inner@
//@end
//@fn queue/linked_iter.rs <LinkedStrIter as Iterator>::next
//@prop P14
//@ret r
//@sig Self :: Item => &'b StringData<'a>
//@sub . map ( | val | unsafe { & * ( val as * const ByteData < 'a > ) . cast :: < StringData < 'a >> ( ) } ) => .v_text()
//@spec
    requires old(self).wf()
    ensures final(self).wf(), match r {
        None => old(self)@.len() == 0 && final(self)@ == old(self)@,
        Some(x) => old(self)@.len() > 0 && valid(x@) && x@ == old(self)@[0] && final(self)@ == old(self)@.skip(1),
    }
//@at start
    proof { texts_parts(self@); }
//@end
//@fn queue/linked_iter.rs <LinkedStrIter as Iterator>::size_hint
//@prop P14
//@ret r
//@spec
    ensures r.0 == self@.len(), r.1 == Some(r.0)
//@end
//@fn queue/linked_iter.rs <LinkedStrIter as Iterator>::count
//@prop P14
//@ret r
//@spec
    ensures r == self@.len()
//@end
//@fn queue/linked_iter.rs <LinkedStrIter as ExactSizeIterator>::len
//@prop P14
//@ret r
//@spec
    ensures r == self@.len()
//@end
//@fn queue/linked_iter.rs <LinkedStrIter as Iterator>::nth
//@prop P14
//@ret r
//@sig Self :: Item => &'b StringData<'a>
//@spec
    requires old(self).wf()
    ensures final(self).wf(), match r {
        None => n >= old(self)@.len() && final(self)@.len() == 0,
        Some(x) => n < old(self)@.len() && x@ == old(self)@[n as int] && final(self)@ =~= old(self)@.skip(n + 1) && valid(x@),
    }
//@at start
    proof { texts_skip(self@, n as int); }
//@end
//@fn queue/linked_iter.rs <LinkedStrIter as Iterator>::last
//@prop P14
//@ret r
//@sig Self :: Item => &'b StringData<'a>
//@sig mut self => self
//@sub self => this
//@spec
    requires self.wf()
    ensures match r { None => self@.len() == 0, Some(x) => self@.len() > 0 && x@ == self@.last() && valid(x@) }
//@at start
    let mut this = self;
    proof { texts_skip(self@, self@.len() - 1); }
//@end
}
/// What the caller's predicate answers for a character (code point).
pub uninterp spec fn chosen<F>(f: F, c: char) -> bool;
pub open spec fn pick<F>(f: F) -> spec_fn(char) -> bool { |c: char| chosen(f, c) }
#[verifier::external_body]
fn v_choose<F>(f: &F, c: char) -> (r: bool) ensures r == chosen(*f, c) { unimplemented!() }
/// A character begins at p: cutting there leaves texts.
pub open spec fn char_at(s: Seq<u8>, p: int) -> bool { 0 <= p < s.len() && valid(s.take(p)) && valid(s.skip(p)) }
pub open spec fn is_char(c: char, s: Seq<u8>, p: int) -> bool { char_at(s, p) && c as u32 == value(s.skip(p)) }
/// The first character a predicate holds for.
pub open spec fn first_char(s: Seq<u8>, f: spec_fn(char) -> bool, r: Option<usize>) -> bool {
    match r {
        Some(i) => char_at(s, i as int) && (exists|c: char| #[trigger] is_char(c, s, i as int)) && (forall|c: char| #[trigger] is_char(c, s, i as int) ==> f(c)) && (forall|c: char, p: int| 0 <= p < i && #[trigger] is_char(c, s, p) ==> !f(c)),
        None => forall|c: char, p: int| #[trigger] is_char(c, s, p) ==> !f(c),
    }
}

proof fn char_step(s: Seq<u8>, o: int, p: int)
    requires 0 <= o < s.len(), valid(s.skip(o)), o < p < o + width(s.skip(o))
    ensures !char_at(s, p)
{
    let t = s.skip(o);
    assert(cont(t[p - o]));
    if valid(s.skip(p)) { valid_first(s.skip(p)); assert(s.skip(p)[0] == s[p]); }
}
proof fn prefix_step(s: Seq<u8>, o: int)
    requires 0 <= o < s.len(), valid(s.take(o)), valid(s.skip(o))
    ensures o + width(s.skip(o)) <= s.len(), valid(s.take(o + width(s.skip(o)))), s.skip(o).skip(width(s.skip(o))) =~= s.skip(o + width(s.skip(o)))
{
    let w = width(s.skip(o));
    let t = s.skip(o).take(w);
    width_prefix(s.skip(o), w);
    assert(t.skip(w) =~= Seq::<u8>::empty());
    assert(valid(Seq::<u8>::empty()));
    assert(valid(t));
    valid_join(s.take(o), t);
    assert(s.take(o + w) =~= s.take(o) + t);
}
proof fn ascii_is_one(s: Seq<u8>)
    requires width(s) > 0, value(s) < 0x80
    ensures width(s) == 1
{ }
/// `Iterator::find`: `next` until the predicate holds.
#[verifier::loop_isolation(false)]
fn v_find_char_of<'a, 'b, F>(i: CharIndecies<'a, 'b>, f: &F) -> (r: Option<usize>)
    requires i.wf(), i.offset == 0
    ensures first_char(i@, pick(*f), r)
{
    hide(ByteIter::wf); hide(ByteIter::all); hide(flat); hide(full);
    let mut i = i;
    let ghost s = i@;
    proof { assert(s.skip(0) =~= s); assert(valid(s.take(0))); }
    loop
        invariant i.wf(), i.offset + i@.len() == s.len(), i@ =~= s.skip(i.offset as int), valid(s.take(i.offset as int)), valid(s),
            forall|c: char, p: int| 0 <= p < i.offset && #[trigger] is_char(c, s, p) ==> !chosen(*f, c)
        decreases i@.len()
    {
        let ghost o = i.offset as int;
        proof { assert(i@ == s.skip(o)); if o < s.len() { prefix_step(s, o); } }
        match i.next() {
            None => { return None; }
            Some((p, c)) => {
                assert(is_char(c, s, p as int));
                if v_choose(f, c) {
                    assert(forall|d: char| #[trigger] is_char(d, s, p as int) ==> d == c);
                    return Some(p);
                }
                proof {
                    assert forall|d: char, q: int| 0 <= q < i.offset && #[trigger] is_char(d, s, q) implies !chosen(*f, d) by {
                        if q > o { char_step(s, o, q); }
                    }
                }
            }
        }
    }
}
/// `find_char` with a closure.
#[verifier::external_body]
fn v_find_char_where<'a>(q: &mut StringQueue<'a>, p: Ghost<spec_fn(char) -> bool>) -> (r: Option<usize>)
    requires old(q).wf()
    ensures first_char(old(q)@, p@, r), *final(q) == *old(q)
{ unimplemented!() }
impl<'a> StringQueue<'a> {
//@fn queue/string_queue.rs StringQueue::find_char
//@prop P14
//@ret r
//@sig F : FnMut ( char ) -> bool => F
//@sig mut fun => fun
//@sub self . chars_indecies ( ) . find ( | & ( _ , $c ) | fun ( $c ) ) . map ( | ( $p , _ ) | $p ) => v_find_char_of(self.chars_indecies(), &fun)
//@spec
    requires old(self).wf()
    ensures first_char(old(self)@, pick(fun), r), *final(self) == *old(self)
//@end
//@fn queue/string_queue.rs StringQueue::take_while
//@prop P14
//@ret r
//@sig F : FnMut ( char ) -> bool => F
//@sig mut fun => fun
//@sub fun ( $b ) => chosen(fun, $b)
//@sub self . find_char ( | $b | $(e) ) => v_find_char_where(self, Ghost(|$b: char| $(e)))
//@spec
    requires old(self).wf()
    ensures r.wf(), final(self).wf(), old(self)@ =~= r@ + final(self)@,
        forall|c: char, p: int| 0 <= p < r@.len() && #[trigger] is_char(c, old(self)@, p) ==> chosen(fun, c),
        forall|c: char| #[trigger] is_char(c, old(self)@, r@.len() as int) ==> !chosen(fun, c)
//@at start
    proof { self.is_text(); starts(self@); }
//@end
//@fn queue/string_queue.rs StringQueue::take_line
//@prop P14
//@ret r
//@sub self . find_char ( | $b | $(e) ) => v_find_char_where(self, Ghost(|$b: char| $(e)))
//@spec
    requires old(self).wf()
    ensures r.wf(), final(self).wf(), old(self)@ =~= r@ + final(self)@,
        forall|p: int| 0 <= p < r@.len() - 1 ==> !is_char('\n', old(self)@, p),
        final(self)@.len() > 0 ==> r@.len() > 0 && r@.last() == 10
//@at start
    proof { self.is_text(); starts(self@); }
//@end
}
/// Where a character begins the text may be cut, and behind a character of one byte too.
proof fn starts(s: Seq<u8>)
    requires valid(s)
    ensures
        forall|p: int| #[trigger] char_at(s, p) ==> bnd(s, p),
        forall|c: char, p: int| #[trigger] is_char(c, s, p) && c as u32 == 10 ==> s[p] == 10 && bnd(s, p + 1),
{
    assert forall|p: int| #[trigger] char_at(s, p) implies bnd(s, p) by { valid_first(s.skip(p)); assert(s.skip(p)[0] == s[p]); }
    assert forall|c: char, p: int| #[trigger] is_char(c, s, p) && c as u32 == 10 implies s[p] == 10 && bnd(s, p + 1) by {
        ascii_is_one(s.skip(p));
        prefix_step(s, p);
        assert(s.skip(p)[0] == s[p]);
        valid_first(s.skip(p + 1));
        if p + 1 < s.len() { assert(s.skip(p + 1)[0] == s[p + 1]); }
    }
}

//@item queue/drain.rs struct DrainChars pub ptr : * mut StringQueue < 'a > , =>
impl<'a, 'b> View for DrainChars<'a, 'b> { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { match self.queue { Some(q) => q@, None => Seq::empty() } } }
impl<'a, 'b> DrainChars<'a, 'b> {
    pub open spec fn wf(&self) -> bool { match self.queue { Some(q) => q.wf(), None => true } }
//@fn queue/drain.rs DrainChars::new
//@prop P14
//@ret r
//@sig & 'b mut => &'b
//@sub let ptr = queue as * mut StringQueue < 'a > ; =>
//@sub ptr , =>
//@spec
    requires queue.wf(), start <= end <= queue@.len(), bnd(queue@, start as int), bnd(queue@, end as int)
    ensures r.wf(), r.start == start, r.end == end, r@ =~= queue@.subrange(start as int, end as int)
//@at start
    hide(flat); hide(full); hide(valid); hide(texts);
    proof { queue.is_text(); valid_between(queue@, start as int, end as int); let y = from_nth(queue@, start as int); let z = queue@.subrange(start as int, end as int); assert(y.take(end - start) =~= z); if y.len() <= end - start { assert(y =~= z); } }
//@end
//@fn queue/drain.rs <DrainChars as Iterator>::next
//@prop P14
//@ret r
//@sig Self :: Item => char
//@sub self . queue . as_mut ( ) . and_then ( CharIter :: $x ) =>> (match &mut self.queue { Some(v_q) => v_q.$x(), None => None })
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).start == old(self).start, final(self).end == old(self).end, match r {
        None => old(self)@.len() == 0 && final(self)@.len() == 0,
        Some(c) => old(self)@.len() > 0 && c as u32 == value(old(self)@) && final(self)@ =~= old(self)@.skip(width(old(self)@)),
    }
//@end
//@fn queue/drain.rs <DrainChars as Iterator>::size_hint
//@prop P14
//@ret r
//@sub self . queue . as_ref ( ) . map_or ( ( 0 , Some ( 0 ) ) , CharIter :: $x ) =>> (match &self.queue { Some(v_q) => v_q.$x(), None => (0, Some(0)) })
//@spec
    requires self.wf(), self@.len() <= usize::MAX - 3
    ensures r.0 <= chars_of(self@), r.1 is Some, chars_of(self@) <= r.1->0
//@end
//@fn queue/drain.rs <DrainChars as Iterator>::count
//@prop P14
//@ret r
//@sig mut self => self
//@sub self . queue . take ( ) . map_or ( 0 , CharIter :: $x ) =>> (match self.queue { Some(v_q) => v_q.$x(), None => 0 })
//@spec
    requires self.wf()
    ensures r == chars_of(self@)
//@end
//@fn queue/drain.rs <DrainChars as Iterator>::last
//@prop P14
//@ret r
//@sig mut self => self
//@sig Self :: Item => char
//@sub self . queue . take ( ) . and_then ( CharIter :: $x ) =>> (match self.queue { Some(v_q) => v_q.$x(), None => None })
//@spec
    requires self.wf()
    ensures match r { None => self@.len() == 0, Some(c) => self@.len() > 0 && c as u32 == nth_char(self@, chars_of(self@) - 1) }
//@end
//@fn queue/drain.rs <DrainChars as Iterator>::nth
//@prop P14
//@ret r
//@sig Self :: Item => char
//@sub self . queue . as_mut ( ) . and_then ( | $q | $q . nth ( n ) ) =>> (match &mut self.queue { Some($q) => $q.nth(n), None => None })
//@spec
    requires old(self).wf()
    ensures final(self).wf(), match r { None => n >= chars_of(old(self)@), Some(c) => n < chars_of(old(self)@) && c as u32 == nth_char(old(self)@, n as int) && final(self)@ =~= after_char(old(self)@, n as int) }
//@end
}
/// The code point of the n-th character of a text, and what stands behind it.
pub open spec fn nth_char(s: Seq<u8>, n: int) -> int
    decreases n
{ if n <= 0 { value(s) } else { nth_char(s.skip(width(s)), n - 1) } }
pub open spec fn after_char(s: Seq<u8>, n: int) -> Seq<u8>
    decreases n
{ if n <= 0 { s.skip(width(s)) } else { after_char(s.skip(width(s)), n - 1) } }
/// `Iterator::count`, `last` and `nth` where the code leaves them as the standard library has them: `next` again and again.
impl<'a, 'b> CharIter<'a, 'b> {
    #[verifier::loop_isolation(false)]
    #[verifier::allow_complex_invariants]
    fn count(self) -> (r: usize)
        requires self.wf()
        ensures r == chars_of(self@)
    {
        let mut it = self;
        let mut n = 0usize;
        let _bound = it.bytes.len();
        proof { chars_bound(self@); }
        while let Some(_c) = it.next()
            invariant it.wf(), n + chars_of(it@) == chars_of(self@), chars_of(self@) <= self@.len() <= usize::MAX
            ensures it@.len() == 0
            decreases it@.len()
        { n += 1; }
        n
    }
    #[verifier::loop_isolation(false)]
    #[verifier::allow_complex_invariants]
    fn last(self) -> (r: Option<char>)
        requires self.wf()
        ensures match r { None => self@.len() == 0, Some(c) => self@.len() > 0 && c as u32 == nth_char(self@, chars_of(self@) - 1) }
    {
        let mut it = self;
        let mut l = None;
        let ghost mut n: int = 0;
        proof { nth_zero(self@); }
        while let Some(c) = it.next()
            invariant it.wf(), 0 <= n, n + chars_of(it@) == chars_of(self@), n == 0 ==> l is None && it@ == self@, n > 0 ==> it@ == after_char(self@, n - 1) && self@.len() > 0 && (l matches Some(c) && c as u32 == nth_char(self@, n - 1))
            ensures it@.len() == 0
            decreases it@.len()
        { proof { nth_step(self@, n); n = n + 1; } l = Some(c); }
        l
    }
    #[verifier::loop_isolation(false)]
    #[verifier::allow_complex_invariants]
    fn nth(&mut self, n: usize) -> (r: Option<char>)
        requires old(self).wf()
        ensures final(self).wf(), match r { None => n >= chars_of(old(self)@), Some(c) => n < chars_of(old(self)@) && c as u32 == nth_char(old(self)@, n as int) && final(self)@ =~= after_char(old(self)@, n as int) }
    {
        let ghost s = self@;
        let mut k = 0usize;
        while k < n
            invariant self.wf(), 0 <= k <= n, k + chars_of(self@) == chars_of(s), k == 0 ==> self@ == s, k > 0 ==> self@ == after_char(s, k - 1)
            decreases n - k
        {
            proof { nth_step(s, k as int); }
            if self.next().is_none() { return None; }
            k += 1;
        }
        proof { nth_step(s, k as int); }
        self.next()
    }
}
proof fn nth_zero(s: Seq<u8>) ensures nth_char(s, 0) == value(s), after_char(s, 0) == s.skip(width(s)) {}
proof fn nth_step(s: Seq<u8>, n: int)
    requires n >= 0
    ensures n == 0 ==> nth_char(s, n) == value(s) && after_char(s, n) == s.skip(width(s)),
        n > 0 ==> nth_char(s, n) == value(after_char(s, n - 1)) && after_char(s, n) == after_char(s, n - 1).skip(width(after_char(s, n - 1)))
    decreases n
{ if n > 0 { nth_step(s.skip(width(s)), n - 1); } }
//@fn queue/drain.rs <DrainChars as Drop>::drop as drop_drain_chars
//@prop P14
//@sig & mut self => this: DrainRange, queue_: &mut StringQueue
//@sub unsafe { & mut * self . ptr } => queue_
//@sub _ = self . queue . take ( ) ; =>
//@sub self . start => this.start
//@sub self . end => this.end
//@sub queue . as_bytequeue_mut ( ) => &mut queue.queue
//@spec
    requires old(queue_).wf(), this.start <= this.end <= old(queue_)@.len(), bnd(old(queue_)@, this.start as int), bnd(old(queue_)@, this.end as int)
    ensures final(queue_).wf(), final(queue_)@ =~= old(queue_)@.take(this.start as int) + old(queue_)@.skip(this.end as int)
//@end
impl<'a> StringQueue<'a> {
//@fn queue/string_queue.rs StringQueue::drain
//@prop P14
//@ret r
//@sig & mut self => &self
//@sig core :: ops :: RangeBounds => RangeBounds
//@spec
    requires self.wf()
    ensures in_range(range, self@.len() as int), r.wf(), r.start == first(range), r.end == past(range, self@.len() as int),
        bnd(self@, r.start as int), bnd(self@, r.end as int), r@ =~= self@.subrange(r.start as int, r.end as int)
//@end
}

} // verus!
fn main() {}
