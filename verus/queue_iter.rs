//@props P12
//@title iterating over the bytes and chunks of a queue
//@assume a predicate given to find_byte/take_while answers for a byte what an uninterpreted predicate says (`Iterator::position` is `next` until it holds); `DrainBytes`/`DrainChars` are extracted without the pointer to their queue, which their `drop` gets as an argument
use vstd::prelude::*;

verus! {

//@uses queue.rs

// ---- iterating over the bytes ----

//@item queue/byte_iter.rs struct ByteIter
fn v_chunk_len(c: Option<&ByteData>) -> (r: usize)
    ensures r == (match c { Some(x) => x@.len(), None => 0 })
{ match c { Some(x) => x.len(), None => 0 } }

impl<'a, 'b> View for ByteIter<'a, 'b> { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.all().subrange(self.offset as int, self.len as int) } }
impl<'a, 'b> ByteIter<'a, 'b> {
    /// The current chunk and those to come.
    pub open spec fn all(&self) -> Seq<u8> { (match self.chunk { Some(c) => c@, None => Seq::empty() }) + flat(self.inner@) }
    pub open spec fn wf(&self) -> bool { self.offset <= self.len <= self.all().len() }

//@fn queue/byte_iter.rs ByteIter::new
//@prop P12
//@ret r
//@spec
    requires queue.wf()
    ensures r.wf(), r@ =~= queue@
//@end

//@fn queue/byte_iter.rs ByteIter::skip as skip
//@prop P12
//@ret r
//@sig mut self => self
//@sub self => this
//@spec
    requires self.wf()
    ensures r.wf(), r@ =~= from_nth(self@, n as int)
//@at start
    let mut this = self;
//@end

//@fn queue/byte_iter.rs ByteIter::skip_mut
//@prop P12
//@sig -> & mut Self =>
//@sub self } => }
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self)@ =~= from_nth(old(self)@, n as int)
//@end

//@fn queue/byte_iter.rs ByteIter::take
//@prop P12
//@ret r
//@sig mut self => self
//@sub self => this
//@spec
    requires self.wf()
    ensures r.wf(), r@ =~= (if n < self@.len() { self@.take(n as int) } else { self@ })
//@at start
    let mut this = self;
//@end

//@fn queue/byte_iter.rs ByteIter::len
//@prop P12
//@ret r
//@spec
    requires self.wf()
    ensures r == self@.len()
//@end

//@fn queue/byte_iter.rs <ByteIter as core::iter::ExactSizeIterator>::len as exact_len
//@prop P12
//@ret r
//@spec
    requires self.wf()
    ensures r == self@.len()
//@end

//@fn queue/byte_iter.rs ByteIter::is_empty
//@prop P12
//@ret r
//@spec
    requires self.wf()
    ensures r == (self@.len() == 0)
//@end

//@fn queue/byte_iter.rs <ByteIter as Iterator>::next
//@prop P12
//@ret r
//@sig Self :: Item => u8
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sub self . chunk . map ( ByteData :: len ) . unwrap_or_default ( ) => v_chunk_len(self.chunk)
//@sub chunk [ self . offset ] => chunk.as_slice()[self.offset]
//@spec
    requires old(self).wf()
    ensures final(self).wf(), match r {
        None => old(self)@.len() == 0 && final(self)@.len() == 0,
        Some(b) => old(self)@.len() > 0 && b == old(self)@[0] && final(self)@ =~= old(self)@.skip(1),
    }
//@loop 0 loop
    invariant self.wf(), self@ =~= old(self)@, self@.len() > 0
    ensures self.chunk is Some, self.offset < self.chunk->0@.len()
    decreases self.inner@.len()
//@end

//@fn queue/byte_iter.rs <ByteIter as Iterator>::size_hint
//@prop P12
//@ret r
//@spec
    requires self.wf()
    ensures r.0 == self@.len(), r.1 == Some(r.0)
//@end

//@fn queue/byte_iter.rs <ByteIter as Iterator>::count
//@prop P12
//@ret r
//@spec
    requires self.wf()
    ensures r == self@.len()
//@end

//@fn queue/byte_iter.rs <ByteIter as Iterator>::last
//@prop P12
//@ret r
//@sig Self :: Item => u8
//@sig mut self => self
//@sub self => this
//@sub this . skip_mut ( $(n) ) . next ( ) => { this.skip_mut($(n)); this.next() }
//@spec
    requires self.wf()
    ensures r == (if self@.len() == 0 { None } else { Some(self@.last()) })
//@at start
    let mut this = self;
//@end

//@fn queue/byte_iter.rs <ByteIter as Iterator>::nth
//@prop P12
//@ret r
//@sig Self :: Item => u8
//@sub self . skip_mut ( $(n) ) . next ( ) => { self.skip_mut($(n)); self.next() }
//@spec
    requires old(self).wf()
    ensures final(self).wf(), match r {
        None => n >= old(self)@.len() && final(self)@.len() == 0,
        Some(b) => n < old(self)@.len() && b == old(self)@[n as int] && final(self)@ =~= old(self)@.skip(n + 1),
    }
//@at start
    hide(ByteIter::wf); hide(flat); hide(full);
//@end
}

//@item queue/byte_iter.rs struct OwnedByteIter
impl<'a> View for OwnedByteIter<'a> { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.inner@ } }
impl<'a> OwnedByteIter<'a> {
    pub open spec fn wf(&self) -> bool { self.inner.wf() }

//@fn queue/byte_iter.rs OwnedByteIter::new
//@prop P12
//@ret r
//@spec
    requires queue.wf()
    ensures r.wf(), r@ == queue@
//@end

//@fn queue/byte_iter.rs OwnedByteIter::skip
//@prop P12
//@ret r
//@sig mut self => self
//@sub self => this
//@spec
    requires self.wf()
    ensures r.wf(), r@ =~= from_nth(self@, n as int)
//@at start
    let mut this = self;
//@end

//@fn queue/byte_iter.rs OwnedByteIter::skip_mut
//@prop P12
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sig -> & mut Self =>
//@sig mut n => n
//@sub return self => return
//@sub self } => }
//@sub while let Some ( mut av ) => while let Some(av_)
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self)@ =~= from_nth(old(self)@, n as int)
//@at start
    let ghost n0 = n as int;
    let mut n = n;
//@loop 0 while
    invariant self.wf(), n <= n0, n0 - n <= old(self)@.len(), self@ =~= old(self)@.skip(n0 - n)
    ensures self@.len() == 0, n0 >= old(self)@.len()
    decreases self@.len()
//@at loop 0 start
    let mut av = av_;
    proof { popped(old(self)@, n0 - n, av@, self@, if n <= av@.len() { n as int } else { 0 }); }
//@end

//@fn queue/byte_iter.rs OwnedByteIter::take
//@prop P12
//@ret r
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sig mut self => self
//@sub self => this
//@sub unsafe { this . inner . pop_back ( ) . unwrap_unchecked ( ) } => this.inner.pop_back().unwrap()
//@sub this . inner . push_back ( av ) ; => this.inner.push_back(av); proof { assert(this@ =~= self@.take(n as int)); }
//@spec
    requires self.wf()
    ensures r.wf(), r@ =~= (if n < self@.len() { self@.take(n as int) } else { self@ })
//@at start
    let mut this = self;
//@loop 0 while
    invariant this.wf(), this@.len() <= self@.len(), this@ =~= self@.take(this@.len() as int), n < self@.len() ==> this@.len() >= n, n >= self@.len() ==> this@.len() == self@.len()
    ensures this@ =~= (if n < self@.len() { self@.take(n as int) } else { self@ })
    decreases this@.len()
//@at loop 0 after
    proof { assert(this@ =~= (if n < self@.len() { self@.take(n as int) } else { self@ })); }
//@end

//@fn queue/byte_iter.rs OwnedByteIter::len
//@prop P12
//@ret r
//@spec
    requires self.wf()
    ensures r == self@.len()
//@end

//@fn queue/byte_iter.rs <OwnedByteIter as core::iter::ExactSizeIterator>::len as exact_len
//@prop P12
//@ret r
//@spec
    requires self.wf()
    ensures r == self@.len()
//@end

//@fn queue/byte_iter.rs OwnedByteIter::is_empty
//@prop P12
//@ret r
//@spec
    requires self.wf()
    ensures r == (self@.len() == 0)
//@end

//@fn queue/byte_iter.rs <OwnedByteIter as Iterator>::next
//@prop P12
//@ret r
//@sig Self :: Item => u8
//@spec
    requires old(self).wf()
    ensures final(self).wf(), match r {
        None => old(self)@.len() == 0 && final(self)@.len() == 0,
        Some(b) => old(self)@.len() > 0 && b == old(self)@[0] && final(self)@ =~= old(self)@.skip(1),
    }
//@end

//@fn queue/byte_iter.rs <OwnedByteIter as Iterator>::size_hint
//@prop P12
//@ret r
//@spec
    requires self.wf()
    ensures r.0 == self@.len(), r.1 == Some(r.0)
//@end

//@fn queue/byte_iter.rs <OwnedByteIter as Iterator>::count
//@prop P12
//@ret r
//@spec
    requires self.wf()
    ensures r == self@.len()
//@end

//@fn queue/byte_iter.rs <OwnedByteIter as Iterator>::last
//@prop P12
//@ret r
//@sig Self :: Item => u8
//@sig mut self => self
//@sub self => this
//@spec
    requires self.wf()
    ensures r == (if self@.len() == 0 { None } else { Some(self@.last()) })
//@at start
    let mut this = self;
//@end

//@fn queue/byte_iter.rs <OwnedByteIter as Iterator>::nth
//@prop P12
//@ret r
//@sig Self :: Item => u8
//@sub self . skip_mut ( $(n) ) . next ( ) => { self.skip_mut($(n)); self.next() }
//@spec
    requires old(self).wf()
    ensures final(self).wf(), match r {
        None => n >= old(self)@.len() && final(self)@.len() == 0,
        Some(b) => n < old(self)@.len() && b == old(self)@[n as int] && final(self)@ =~= old(self)@.skip(n + 1),
    }
//@end
}

// ---- iterating over the chunks ----

impl<'a, 'b> LinkedIter<'a, 'b> {
//@fn queue/linked_iter.rs <LinkedIter as Iterator>::size_hint
//@prop P12
//@ret r
//@spec
    ensures r.0 == self@.len(), r.1 == Some(r.0)
//@end
//@fn queue/linked_iter.rs <LinkedIter as Iterator>::count
//@prop P12
//@ret r
//@spec
    ensures r == self@.len()
//@end
//@fn queue/linked_iter.rs <LinkedIter as ExactSizeIterator>::len
//@prop P12
//@ret r
//@spec
    ensures r == self@.len()
//@end
//@fn queue/linked_iter.rs <LinkedIter as Iterator>::nth
//@prop P12
//@ret r
//@sig Self :: Item => &'b ByteData<'a>
//@spec
    ensures match r {
        None => n >= old(self)@.len() && final(self)@.len() == 0,
        Some(x) => n < old(self)@.len() && x@ == old(self)@[n as int] && final(self)@ =~= old(self)@.skip(n + 1),
    }
//@end
//@fn queue/linked_iter.rs <LinkedIter as Iterator>::last
//@prop P12
//@ret r
//@sig Self :: Item => &'b ByteData<'a>
//@sig mut self => self
//@sub self => this
//@spec
    ensures match r { None => self@.len() == 0, Some(x) => self@.len() > 0 && x@ == self@.last() }
//@at start
    let mut this = self;
//@end
}

impl<'a> ChunkIter<'a> {
//@fn queue/chunk_iter.rs ChunkIter::new
//@prop P12
//@ret r
//@spec
    ensures r@ == data@
//@end
//@fn queue/chunk_iter.rs <ChunkIter as Iterator>::next
//@prop P12
//@ret r
//@sig Self :: Item => ByteData<'a>
//@spec
    ensures match r {
        None => old(self)@.len() == 0 && final(self)@ == old(self)@,
        Some(x) => old(self)@.len() > 0 && x@ == old(self)@[0] && final(self)@ == old(self)@.skip(1),
    }
//@end
//@fn queue/chunk_iter.rs <ChunkIter as Iterator>::size_hint
//@prop P12
//@ret r
//@spec
    ensures r.0 == self@.len(), r.1 == Some(r.0)
//@end
//@fn queue/chunk_iter.rs <ChunkIter as Iterator>::count
//@prop P12
//@ret r
//@spec
    ensures r == self@.len()
//@end
//@fn queue/chunk_iter.rs <ChunkIter as DoubleEndedIterator>::next_back
//@prop P12
//@ret r
//@sig Self :: Item => ByteData<'a>
//@spec
    ensures match r {
        None => old(self)@.len() == 0 && final(self)@ == old(self)@,
        Some(x) => old(self)@.len() > 0 && x@ == old(self)@.last() && final(self)@ == old(self)@.drop_last(),
    }
//@end
//@fn queue/chunk_iter.rs <ChunkIter as ExactSizeIterator>::len
//@prop P12
//@ret r
//@spec
    ensures r == self@.len()
//@end
}
impl<'a> ByteQueue<'a> {
//@fn queue/byte_queue.rs <ByteQueue as IntoIterator>::into_iter
//@prop P12
//@ret r
//@sig Self :: IntoIter => ChunkIter<'a>
//@spec
    ensures r@ == self.queue@
//@end
//@fn queue/byte_queue.rs ByteQueue::bytes
//@prop P12
//@ret r
//@spec
    requires self.wf()
    ensures r.wf(), r@ =~= self@
//@end
//@fn queue/byte_queue.rs ByteQueue::into_bytes
//@prop P12
//@ret r
//@spec
    requires self.wf()
    ensures r.wf(), r@ == self@
//@end
}


// ---- searching with a predicate ----

/// What the caller's predicate answers for a byte (a predicate with state: for the bytes in the order they are asked).
pub uninterp spec fn holds<F>(f: F, b: u8) -> bool;
#[verifier::external_body]
fn v_test<F>(f: &F, b: u8) -> (r: bool) ensures r == holds(*f, b) { unimplemented!() }
/// The first byte a predicate holds for.
pub open spec fn first_where(s: Seq<u8>, p: spec_fn(u8) -> bool, r: Option<usize>) -> bool {
    match r {
        Some(i) => i < s.len() && p(s[i as int]) && (forall|j: int| 0 <= j < i ==> !p(#[trigger] s[j])),
        None => forall|j: int| 0 <= j < s.len() ==> !p(#[trigger] s[j]),
    }
}
/// `Iterator::position`: `next` until the predicate holds.
#[verifier::loop_isolation(false)]
fn v_position_of<'a, 'b, F>(i: ByteIter<'a, 'b>, f: &F) -> (r: Option<usize>)
    requires i.wf()
    ensures first_where(i@, |b: u8| holds(*f, b), r)
{
    let mut i = i;
    let ghost s = i@;
    let mut n: usize = 0;
    loop
        invariant i.wf(), n + i@.len() == s.len(), i@ =~= s.skip(n as int), forall|j: int| 0 <= j < n ==> !holds(*f, #[trigger] s[j]), s.len() <= usize::MAX
        decreases i@.len()
    {
        match i.next() {
            None => { return None; }
            Some(b) => {
                assert(b == s[n as int]);
                if v_test(f, b) { return Some(n); }
                n += 1;
            }
        }
    }
}
/// `find_byte` with a closure over the caller's predicate.
#[verifier::external_body]
fn v_find_where<'a>(q: &ByteQueue<'a>, p: Ghost<spec_fn(u8) -> bool>) -> (r: Option<usize>)
    requires q.wf()
    ensures first_where(q@, p@, r)
{ unimplemented!() }
impl<'a> ByteQueue<'a> {
//@fn queue/byte_queue.rs ByteQueue::find_byte
//@prop P10
//@ret r
//@sig F : FnMut ( u8 ) -> bool => F
//@sub self . bytes ( ) . position ( predicate ) => v_position_of(self.bytes(), &predicate)
//@spec
    requires self.wf()
    ensures first_where(self@, |b: u8| holds(predicate, b), r)
//@end
//@fn queue/byte_queue.rs ByteQueue::take_while
//@prop P11
//@ret r
//@sig F : FnMut ( u8 ) -> bool => F
//@sig mut fun => fun
//@sub fun ( $b ) => holds(fun, $b)
//@sub self . find_byte ( | $b | $(e) ) => v_find_where(self, Ghost(|$b: u8| $(e)))
//@spec
    requires old(self).wf()
    ensures r.wf(), final(self).wf(), old(self)@ =~= r@ + final(self)@,
        forall|j: int| 0 <= j < r@.len() ==> holds(fun, #[trigger] r@[j]),
        final(self)@.len() > 0 ==> !holds(fun, final(self)@[0])
//@end
//@fn queue/byte_queue.rs ByteQueue::drain
//@prop P11
//@ret r
//@sig & mut self => &self
//@spec
    requires self.wf()
    ensures in_range(range, self@.len() as int), r.wf(), r.start == first(range), r.end == past(range, self@.len() as int), r@ =~= self@.subrange(r.start as int, r.end as int)
//@end
}

// ---- draining ----

//@item queue/drain.rs struct DrainBytes pub ptr : * mut ByteQueue < 'a > , =>
impl<'a, 'b> View for DrainBytes<'a, 'b> { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { match self.queue { Some(q) => q@, None => Seq::empty() } } }
impl<'a, 'b> DrainBytes<'a, 'b> {
    pub open spec fn wf(&self) -> bool { match self.queue { Some(q) => q.wf(), None => true } }
//@fn queue/drain.rs DrainBytes::new
//@prop P11
//@ret r
//@sig & 'b mut => &'b
//@sub let ptr = queue as * mut ByteQueue < 'a > ; =>
//@sub ptr , =>
//@spec
    requires queue.wf(), start <= end <= queue@.len()
    ensures r.wf(), r.start == start, r.end == end, r@ =~= queue@.subrange(start as int, end as int)
//@end
//@fn queue/drain.rs <DrainBytes as Iterator>::next
//@prop P11
//@ret r
//@sig Self :: Item => u8
//@sub self . queue . as_mut ( ) . and_then ( ByteIter :: $x ) =>> (match &mut self.queue { Some(v_q) => v_q.$x(), None => None })
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).start == old(self).start, final(self).end == old(self).end, match r {
        None => old(self)@.len() == 0 && final(self)@.len() == 0,
        Some(b) => old(self)@.len() > 0 && b == old(self)@[0] && final(self)@ =~= old(self)@.skip(1),
    }
//@end
//@fn queue/drain.rs <DrainBytes as Iterator>::size_hint
//@prop P11
//@ret r
//@sub self . queue . as_ref ( ) . map_or ( ( 0 , Some ( 0 ) ) , ByteIter :: $x ) =>> (match &self.queue { Some(v_q) => v_q.$x(), None => (0, Some(0)) })
//@spec
    requires self.wf()
    ensures r.0 == self@.len(), r.1 == Some(r.0)
//@end
//@fn queue/drain.rs <DrainBytes as ExactSizeIterator>::len
//@prop P11
//@ret r
//@sub self . queue . as_ref ( ) . map_or ( 0 , ByteIter :: $x ) =>> (match &self.queue { Some(v_q) => v_q.$x(), None => 0 })
//@spec
    requires self.wf()
    ensures r == self@.len()
//@end
//@fn queue/drain.rs <DrainBytes as Iterator>::count
//@prop P11
//@ret r
//@sig mut self => self
//@sub self . queue . take ( ) . map_or ( 0 , ByteIter :: $x ) =>> (match self.queue { Some(v_q) => v_q.$x(), None => 0 })
//@spec
    requires self.wf()
    ensures r == self@.len()
//@end
//@fn queue/drain.rs <DrainBytes as Iterator>::last
//@prop P11
//@ret r
//@sig mut self => self
//@sig Self :: Item => u8
//@sub self . queue . take ( ) . and_then ( ByteIter :: $x ) =>> (match self.queue { Some(v_q) => v_q.$x(), None => None })
//@spec
    requires self.wf()
    ensures r == (if self@.len() == 0 { None } else { Some(self@.last()) })
//@end
//@fn queue/drain.rs <DrainBytes as Iterator>::nth
//@prop P11
//@ret r
//@sig Self :: Item => u8
//@sub self . queue . as_mut ( ) . and_then ( | $q | $q . nth ( n ) ) =>> (match &mut self.queue { Some($q) => $q.nth(n), None => None })
//@spec
    requires old(self).wf()
    ensures final(self).wf(), match r {
        None => n >= old(self)@.len() && final(self)@.len() == 0,
        Some(b) => n < old(self)@.len() && b == old(self)@[n as int] && final(self)@ =~= old(self)@.skip(n + 1),
    }
//@end
}

} // verus!
fn main() {}
