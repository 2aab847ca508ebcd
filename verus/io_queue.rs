//@props P16
//@title reading from and writing to a queue through std::io, for every division into chunks
//@assume the lengths of what is written and what the queue holds add up to at most usize::MAX
use vstd::prelude::*;

verus! {

//@uses queue.rs
//@uses queue_iter.rs
//@uses io.rs in one

//@include io.rs

/// `copy_nonoverlapping` to a place in the caller's buffer.
#[verifier::external_body]
fn v_fill(buf: &mut [u8], at: usize, src: Src<'_>, n: usize)
    requires at + n <= old(buf)@.len(), src.o + n <= src.s@.len()
    ensures final(buf)@.len() == old(buf)@.len(), final(buf)@ =~= old(buf)@.take(at as int) + src.part(n as int) + old(buf)@.skip(at + n)
{ unimplemented!() }
fn v_plus(a: usize, n: usize) -> (r: usize)
    requires a + n <= usize::MAX
    ensures r == a + n
{ a + n }
impl Bufs {
    /// `buf[range].copy_from_slice(src)` where `buf` is what is left of a buffer from its `at`-th byte.
    fn v_put<R: RangeBounds<usize>>(&mut self, i: usize, at: usize, range: R, src: &[u8])
        requires
            i < old(self)@.len(), at <= old(self)@[i as int].len(), in_range(range, old(self)@[i as int].len() - at), first(range) == 0,
            past(range, old(self)@[i as int].len() - at) == src@.len()
        ensures final(self)@ =~= old(self)@.update(i as int, old(self)@[i as int].take(at as int) + src@ + old(self)@[i as int].skip(at + src@.len()))
    {
        assert(Src { s: src, o: 0 }.part(src@.len() as int) =~= src@);
        self.v_write(i, at, Src::v_of(src), src.len())
    }
}

impl Bufs {
    /// `buf.copy_from_slice(src)`
    fn v_put_all(&mut self, i: usize, at: usize, src: &[u8])
        requires i < old(self)@.len(), at <= old(self)@[i as int].len(), old(self)@[i as int].len() - at == src@.len()
        ensures final(self)@ =~= old(self)@.update(i as int, old(self)@[i as int].take(at as int) + src@)
    {
        assert(Src { s: src, o: 0 }.part(src@.len() as int) =~= src@);
        self.v_write(i, at, Src::v_of(src), src.len());
        assert(old(self)@[i as int].skip(at + src@.len()) =~= Seq::<u8>::empty());
        assert(old(self)@[i as int].take(at as int) + src@ + Seq::<u8>::empty() =~= old(self)@[i as int].take(at as int) + src@);
    }
}
/// What values are made of (P01).
impl<'a> ByteData<'a> {
    #[verifier::external_body]
    fn from_chunk_slice(b: &[u8]) -> (r: ByteData<'a>)
        requires b@.len() <= 14
        ensures r@ == b@
    { unimplemented!() }
    #[verifier::external_body]
    fn from_shared(b: one::SharedBytes) -> (r: ByteData<'a>)
        requires b.wf()
        ensures r@ == b@
    { unimplemented!() }
    #[verifier::external_body]
    fn v_of(b: one::SharedBytes) -> (r: ByteData<'a>)
        requires b.wf()
        ensures r@ == b@
    { unimplemented!() }
}
#[verifier::external_body]
fn v_shared(b: &[u8]) -> (r: one::SharedBytes)
    ensures r.wf(), r@ == b@
{ unimplemented!() }

proof fn first_flat(s: Seq<Seq<u8>>)
    requires full(s)
    ensures s.len() > 0 ==> flat(s) =~= s[0] + flat(s.skip(1)) && flat(s).len() > 0, s.len() == 0 ==> flat(s).len() == 0
{ full_parts(s); }

/// The first chunk of what is left, and the rest.
proof fn next_part(q: Seq<u8>, at: int, a: Seq<u8>, rest: Seq<u8>, left: int)
    requires 0 <= at, 0 < left, at + left <= q.len(), q.skip(at) =~= a + rest
    ensures
        a.len() <= left ==> rest =~= q.skip(at + a.len()) && q.take(at + a.len()) =~= q.take(at) + a,
        a.len() > left ==> a.skip(left) + rest =~= q.skip(at + left) && q.take(at + left) =~= q.take(at) + a.take(left),
{
    assert forall|i: int| 0 <= i < q.len() - at implies #[trigger] q[at + i] == (a + rest)[i] by { assert(q.skip(at)[i] == q[at + i]); }
    assert(q.skip(at).len() == a.len() + rest.len());
    if a.len() <= left {
        assert forall|i: int| 0 <= i < rest.len() implies #[trigger] rest[i] == q.skip(at + a.len())[i] by { assert(q[at + (a.len() + i)] == (a + rest)[a.len() + i]); }
        assert forall|i: int| 0 <= i < at + a.len() implies #[trigger] q.take(at + a.len())[i] == (q.take(at) + a)[i] by { if i >= at { assert(q[at + (i - at)] == (a + rest)[i - at]); } }
    } else {
        assert forall|i: int| 0 <= i < q.len() - at - left implies #[trigger] q.skip(at + left)[i] == (a.skip(left) + rest)[i] by { assert(q[at + (left + i)] == (a + rest)[left + i]); }
        assert forall|i: int| 0 <= i < at + left implies #[trigger] q.take(at + left)[i] == (q.take(at) + a.take(left))[i] by { if i >= at { assert(q[at + (i - at)] == (a + rest)[i - at]); } }
    }
}

/// The next bytes go behind those that are in the buffer.
proof fn v_k1(whole: Seq<u8>, was: Seq<u8>, now: Seq<u8>, a: Seq<u8>, n0: int, offs: int)
    requires 0 <= n0 <= offs <= whole.len(), offs - n0 <= was.len(), now =~= over(whole.subrange(n0, offs), was), whole.skip(offs).len() >= a.len(), whole.skip(offs).take(a.len() as int) =~= a
    ensures
        forall|m: int| #![trigger a.take(m)] 0 <= m <= a.len() && offs - n0 + m <= was.len() ==>
            now.take(offs - n0) + a.take(m) + now.skip(offs - n0 + m) =~= over(whole.subrange(n0, offs + m), was),
        a.take(a.len() as int) =~= a,
{
    assert forall|m: int| #![trigger a.take(m)] 0 <= m <= a.len() && offs - n0 + m <= was.len() implies
            now.take(offs - n0) + a.take(m) + now.skip(offs - n0 + m) =~= over(whole.subrange(n0, offs + m), was) by {
        assert forall|i: int| 0 <= i < m implies #[trigger] a[i] == whole[offs + i] by { assert(whole.skip(offs).take(a.len() as int)[i] == a[i]); }
    }
}

impl<'a> ByteQueue<'a> {
//@fn std.rs <ByteQueue as Read>::read/read_inner
//@attr #[verifier::loop_isolation(false)]
//@sig queue : & mut ByteQueue<'_> , mut buf : * mut u8 => queue: &mut ByteQueue<'_>, v_to: &mut [u8], mut buf: usize
//@sub queue . pop_front ( ) . unwrap_unchecked ( ) => queue.pop_front().unwrap()
//@sub let ab : * const u8 = ab . as_ptr ( ) ; => let ab = Src::v_of(ab); proof { assert(q.skip(n - left) =~= aa@ + queue@); next_part(q, n - left, aa@, queue@, left as int); }
//@sub core::ptr::copy_nonoverlapping ( $(s) , buf , $(n) ) => v_fill(v_to, buf, $(s), $(n))
//@sub buf . add ( $(x) ) => v_plus(buf, $(x))
//@spec
    requires old(queue).wf(), 0 < left <= old(queue)@.len(), buf + left <= old(v_to)@.len() <= usize::MAX
    ensures
        final(queue).wf(), final(queue)@ =~= old(queue)@.skip(left as int), final(v_to)@.len() == old(v_to)@.len(),
        final(v_to)@ =~= old(v_to)@.take(buf as int) + old(queue)@.take(left as int) + old(v_to)@.skip(buf + left)
//@at start
    let ghost n = left as int;
    let ghost b0 = buf as int;
    let ghost q = queue@;
    let ghost t = v_to@;
//@loop 0 loop
    invariant
        queue.wf(), 0 < left <= n, buf == b0 + (n - left), queue@ =~= q.skip(n - left), v_to@.len() == t.len(),
        v_to@ =~= t.take(b0) + q.take(n - left) + t.skip(buf as int)
    decreases left
//@end
//@fn std.rs <ByteQueue as Read>::read
//@drop read_inner
//@ret r
//@sig std::io::Result => IoResult
//@sub read_inner ( self , buf . as_mut_ptr ( ) , $(n) ) => Self::read_inner(self, buf, 0, $(n))
//@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(buf)@.len() == old(buf)@.len(),
        match r {
            Ok(n) => n == least(old(self)@.len() as int, old(buf)@.len() as int) && moved(old(self)@, final(self)@, n as int) && final(buf)@ =~= over(old(self)@.take(n as int), old(buf)@),
            Err(_) => false,
        }
//@end
//@fn std.rs <ByteQueue as Read>::read_vectored
//@ret r
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@sig & mut [ IoSliceMut<'_> ] => &mut Bufs
//@sig std::io::Result => IoResult
//@sub for $x in bufs => for $x in bufs.v_iter()
//@iter 0 it
//@sub let mut buf = buf . as_mut ( ) ; => let v_b = buf; let mut v_at: usize = 0;
//@sub buf . is_empty ( ) => (v_at == bufs.v_len(v_b))
//@opt let left = buf . len ( ) ; => let left = bufs.v_len(v_b) - v_at; proof { assert(whole.skip(offs as int) =~= aa@ + self@); if left > 0 && left <= whole.len() - offs { next_part(whole, offs as int, aa@, self@, left as int); } else if left > 0 { next_part(whole, offs as int, aa@, self@, whole.len() - offs); } v_k1(whole, old(bufs)@[k], bufs@[k], aa@, n0, offs as int); }
//@opt buf . len ( ) => (bufs.v_len(v_b) - v_at)
//@opt continue 'outer ; => proof { one_more(old(bufs)@, bs, bufs@, whole, k, n0, offs - n0); } continue 'outer;
//@opt & $x . as_slice ( ) [ $(q) ] => v_cut($x.as_slice(), $(q))
//@opt & $x [ $(q) ] => v_cut($x.as_slice(), $(q))
//@sub . copy_from_slice ( & aa ) => .copy_from_slice(aa.as_slice())
//@sub buf [ $(r) ] . copy_from_slice ( $(x) ) => bufs.v_put(v_b, v_at, $(r), $(x))
//@sub buf . copy_from_slice ( $(x) ) => bufs.v_put_all(v_b, v_at, $(x))
//@sub buf = & mut buf [ len .. ] ; => v_at = v_at + len;
//@spec
    requires old(self).wf()
    ensures
        final(self).wf(),
        match r {
            Ok(n) => spread(old(bufs)@, final(bufs)@, old(self)@, n as int) && moved(old(self)@, final(self)@, n as int),
            Err(_) => false,
        }
//@at loop 0 before
    let ghost whole = self@;
    proof {
        assert(bufs@.take(0) =~= Seq::<Seq<u8>>::empty());
        assert(glued(bufs@.take(0)) =~= Seq::<u8>::empty());
    }
//@loop 0 for
    invariant
        it.at <= it.n, it.n == bufs@.len(), self.wf(), offs <= whole.len(), self@ =~= whole.skip(offs as int), partly(old(bufs)@, bufs@, whole, it.at as int, offs as int),
    ensures it.at == it.n
    decreases it.n - it.at
//@at loop 0 start
    let ghost bs = bufs@;
    let ghost n0 = offs as int;
    let ghost k = buf as int;
    proof { assert(bs =~= bs.update(k, over(whole.subrange(n0, n0), old(bufs)@[k]))) by { assert(over(whole.subrange(n0, n0), old(bufs)@[k]) =~= bs[k]); } }
//@loop 1 while
    invariant
        self.wf(), n0 <= offs <= whole.len(), self@ =~= whole.skip(offs as int), v_at == offs - n0, v_at <= old(bufs)@[k].len(), v_b == k, k < bs.len(),
        bufs@ =~= bs.update(k, over(whole.subrange(n0, offs as int), old(bufs)@[k])),
    decreases old(bufs)@[k].len() - v_at
//@at loop 1 start
    proof { if self@.len() == 0 { one_more(old(bufs)@, bs, bufs@, whole, k, n0, offs - n0); all_seen(old(bufs)@, bufs@, whole, k + 1, offs as int); } }
//@at loop 0 end
    proof { one_more(old(bufs)@, bs, bufs@, whole, k, n0, offs - n0); }
//@at loop 0 after
    proof { all_seen(old(bufs)@, bufs@, whole, it.at as int, offs as int); }
//@end
//@fn std.rs <ByteQueue as Read>::read_to_end
//@ret r
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@sig std::io::Result => IoResult
//@opt $b . extend_from_slice ( & aa ) => v_append($b, aa.as_slice())
//@opt $b . extend_from_slice ( $(x) ) => v_append($b, $(x))
//@opt $b . reserve ( len ) ; =>
//@iter 0 it
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self)@.len() == 0, final(buf)@ =~= old(buf)@ + old(self)@, r matches Ok(n) && n == old(self)@.len()
//@loop 0 for
    invariant buf@ + flat(it@) =~= old(buf)@ + old(self)@
    ensures it@.len() == 0
    decreases it@.len()
//@end
//@fn std.rs <ByteQueue as BufRead>::fill_buf
//@ret r
//@sig std::io::Result<& [ u8 ]> => IoResult<&[u8]>
//@opt Ok ( & [ ] ) => Ok(v_nothing())
//@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(self)@ =~= old(self)@,
        r matches Ok(x) && x@.len() <= old(self)@.len() && x@ =~= old(self)@.take(x@.len() as int) && (x@.len() == 0 ==> old(self)@.len() == 0)
//@at start
    proof { first_flat(self.queue@); }
//@end
//@fn std.rs <ByteQueue as BufRead>::consume as consume_io
//@sub ByteQueue::consume => Self::consume
//@spec
    requires old(self).wf()
    ensures final(self).wf(), amt <= old(self)@.len(), moved(old(self)@, final(self)@, amt as int)
//@end
//@fn std.rs <ByteQueue as BufRead>::read_until/read_until_inner
//@ret r
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@opt $b . extend_from_slice ( & bb [ $(q) ] ) => v_append($b, v_cut(bb, $(q)))
//@opt $b . extend_from_slice ( $(x) ) => v_append($b, $(x))
//@spec
    requires old(queue).wf()
    ensures
        final(queue).wf(), up_to(old(queue)@, byte, r as int), moved(old(queue)@, final(queue)@, r as int), final(buf)@ =~= old(buf)@ + old(queue)@.take(r as int)
//@loop 0 while
    invariant
        queue.wf(), offs <= old(queue)@.len(), queue@ =~= old(queue)@.skip(offs as int), buf@ =~= old(buf)@ + old(queue)@.take(offs as int),
        forall|j: int| #![trigger old(queue)@[j]] 0 <= j < offs ==> old(queue)@[j] != byte
    ensures queue@.len() == 0
    decreases queue.queue@.len()
//@loop 1 while
    invariant
        queue.wf(), queue@ == q1, queue.queue@.len() == c1, old(queue)@.skip(offs as int) =~= aa@ + queue@, (offs + len) as int <= old(queue)@.len(),
        len == aa@.len(), i <= len, bb@ == aa@, buf@ =~= old(buf)@ + old(queue)@.take(offs as int),
        forall|j: int| #![trigger old(queue)@[j]] 0 <= j < offs + i ==> old(queue)@[j] != byte
    decreases len - i
//@at loop 1 before
    let ghost q1 = queue@;
    let ghost c1 = queue.queue@.len();
    proof {
        assert(old(queue)@.skip(offs as int) =~= aa@ + queue@);
        next_part(old(queue)@, offs as int, aa@, queue@, aa@.len() as int);
        assert forall|j: int| 0 <= j < aa@.len() implies #[trigger] aa@[j] == old(queue)@[offs + j] by { assert(old(queue)@.skip(offs as int)[j] == aa@[j]); }
    }
//@end
//@fn std.rs <ByteQueue as BufRead>::read_until
//@ret r
//@drop read_until_inner
//@sig std::io::Result => IoResult
//@sub read_until_inner ( self => Self::read_until_inner(self
//@spec
    requires old(self).wf()
    ensures
        final(self).wf(),
        match r {
            Ok(n) => up_to(old(self)@, byte, n as int) && moved(old(self)@, final(self)@, n as int) && final(buf)@ =~= old(buf)@ + old(self)@.take(n as int),
            Err(_) => false,
        }
//@end
//@fn std.rs <ByteQueue as Write>::write
//@ret r
//@sig std::io::Result => IoResult
//@sub ByteChunk::LEN => one::ByteChunk::LEN
//@sub buf . into ( ) => v_shared(buf)
//@spec
    requires old(self).wf(), old(self)@.len() + buf@.len() <= usize::MAX
    ensures final(self).wf(), final(self)@ =~= old(self)@ + buf@, r matches Ok(n) && n == buf@.len()
//@end
//@fn std.rs <ByteQueue as Write>::flush
//@ret r
//@sig std::io::Result => IoResult
//@spec
    ensures r is Ok, *final(self) == *old(self)
//@end
//@fn std.rs <ByteQueue as Write>::write_vectored
//@ret r
//@sig & [ std::io::IoSlice<'_> ] => &one::Slices
//@sig std::io::Result => one::IoResult
//@sub SharedBytesBuilder::new => one::SharedBytesBuilder::new
//@sub Write::write_vectored ( & mut shared , bufs ) => shared.write_vectored(bufs)
//@sub shared . build ( ) => ByteData::v_of(shared.build())
//@spec
    requires old(self).wf(), old(self)@.len() + one::glued(bufs@).len() <= usize::MAX
    ensures
        final(self).wf(),
        match r {
            Ok(n) => n <= one::glued(bufs@).len() && final(self)@ =~= old(self)@ + one::glued(bufs@).take(n as int) && (one::glued(bufs@).len() <= 0xFFFF_0000 ==> n == one::glued(bufs@).len()),
            Err(_) => final(self)@ == old(self)@ && one::glued(bufs@).len() > 0xFFFF_0000,
        }
//@end
}
#[verifier::external_body]
fn v_nothing<'s>() -> (r: &'s [u8])
    ensures r@.len() == 0
{ unimplemented!() }

} // verus!
fn main() {}
