//@props P09 P10 P11
//@title the byte queue over its list of chunks, for queues of every shape
//@assume `ByteData` is given the contracts of P01 and P02 (the bytes it holds), `LinkedRoot` and its iterators those of P09 (the chunks they hold)
//@assume the lengths of all chunks of a queue add up to at most usize::MAX
use vstd::prelude::*;

verus! {

//@include range.rs
//@include queue.rs
//@include utf8.rs
//@include text.rs

pub open spec fn texts(q: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < q.len() ==> valid(#[trigger] q[i]) }
proof fn texts_first(q: Seq<Seq<u8>>)
    requires texts(q)
    ensures valid(flat(q)), bnd(flat(q), 0)
    decreases q.len()
{
    if q.len() > 0 {
        assert forall|i: int| 0 <= i < q.skip(1).len() implies valid(#[trigger] q.skip(1)[i]) by { assert(q.skip(1)[i] == q[i + 1]); }
        texts_first(q.skip(1));
        valid_join(q[0], flat(q.skip(1)));
        valid_first(flat(q));
    }
}
/// Where x + r may be cut.
proof fn bnd_step(x: Seq<u8>, r: Seq<u8>, i: int)
    requires bnd(x + r, i)
    ensures i < x.len() ==> bnd(x, i), i >= x.len() ==> bnd(r, i - x.len())
{
    if i >= x.len() && i < (x + r).len() { assert((x + r)[i] == r[i - x.len()]); }
}

/// The character that ends at, or is cut by, e begins at j.
proof fn last_char(x: Seq<u8>, e: int, j: int)
    requires valid(x), 0 <= j < e <= x.len(), !cont(x[j]), forall|k: int| j < k < e ==> cont(x[k])
    ensures width(x.skip(j)) > 0, e - j <= width(x.skip(j)), bnd(x, e) <==> e - j == width(x.skip(j))
    decreases x.len()
{
    let w = width(x);
    if e <= w {
        assert(j == 0);
        assert(x.skip(0) =~= x);
        if e == w { valid_first(x.skip(w)); if w < x.len() { assert(x.skip(w)[0] == x[w]); } } else { assert(cont(x[e])); }
    } else {
        valid_first(x.skip(w));
        assert(x.skip(w)[0] == x[w]);
        assert(j >= w);
        assert forall|k: int| j - w < k < e - w implies cont(x.skip(w)[k]) by { assert(x.skip(w)[k] == x[k + w]); }
        last_char(x.skip(w), e - w, j - w);
        assert(x.skip(w).skip(j - w) =~= x.skip(j));
        if e < x.len() { assert(x.skip(w)[e - w] == x[e]); }
    }
}
/// Every chunk begins with a character.
pub open spec fn heads(q: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).len() > 0 ==> !cont(q[i][0]) }
/// by ends x[s..e].
pub open spec fn ends(x: Seq<u8>, e: int, by: Seq<u8>) -> bool { 0 < by.len() <= e <= x.len() && by =~= x.subrange(e - by.len(), e) }
proof fn tail(x: Seq<u8>, s: int, e: int, by: Seq<u8>)
    requires 0 <= s < e <= x.len(), exists|p: Seq<u8>| x.subrange(s, e) == #[trigger] (p + by), by.len() > 0
    ensures ends(x, e, by)
{
    let p = choose|p: Seq<u8>| x.subrange(s, e) == #[trigger] (p + by);
    assert(x.subrange(s, e).len() == p.len() + by.len());
    assert forall|k: int| 0 <= k < by.len() implies by[k] == x.subrange(e - by.len(), e)[k] by { assert((p + by)[p.len() + k] == x.subrange(s, e)[p.len() + k]); }
}

impl<'a, 'b> LinkedIter<'a, 'b> {
//@fn queue/linked_iter.rs LinkedIter::skip
//@prop P12
//@ret r
//@sig mut self => self
//@sub self => this
//@spec
    ensures r@ =~= from_nth(self@, n as int)
//@at start
    let mut this = self;
//@end
}
//@item queue/byte_queue.rs struct ByteQueue
/// The bytes n stand in h nowhere from a up to b.
pub open spec fn none(h: Seq<u8>, n: Seq<u8>, a: int, b: int) -> bool { forall|p: int| a <= p < b ==> !at(h, n, p) }
pub open spec fn never(h: Seq<u8>, n: Seq<u8>, a: int) -> bool { forall|p: int| a <= p ==> !at(h, n, p) }
/// A search answers with the first place from `sb` on, as byte position and as chunk and offset.
pub open spec fn found(q: &ByteQueue, n: Seq<u8>, sb: int, r: Option<(usize, usize, usize)>) -> bool {
    match r {
        Some((p, c, o)) => sb <= p && at(q@, n, p as int) && none(q@, n, sb, p as int) && c <= q.queue@.len() && p == flat(q.queue@.take(c as int)).len() + o,
        None => never(q@, n, sb),
    }
}
/// Reading m bytes from s on in x followed by r.
proof fn slice_step(x: Seq<u8>, r: Seq<u8>, s: int, m: int)
    requires 0 <= s, 0 <= m, s + m <= x.len() + r.len()
    ensures
        s >= x.len() ==> (x + r).subrange(s, s + m) =~= r.subrange(s - x.len(), s - x.len() + m),
        s < x.len() && s + m <= x.len() ==> (x + r).subrange(s, s + m) =~= x.subrange(s, s + m) && r.subrange(0, 0) =~= Seq::<u8>::empty(),
        s < x.len() && s + m > x.len() ==> (x + r).subrange(s, s + m) =~= x.subrange(s, x.len() as int) + r.subrange(0, s + m - x.len()),
{
}
proof fn at_step(x: Seq<u8>, r: Seq<u8>, n: Seq<u8>, p: int)
    requires 0 <= p
    ensures
        p >= x.len() ==> at(x + r, n, p) == at(r, n, p - x.len()),
        p < x.len() && n.len() <= x.len() - p ==> at(x + r, n, p) == (x.subrange(p, p + n.len()) =~= n),
        p < x.len() && n.len() > x.len() - p ==> at(x + r, n, p) == (x.skip(p) =~= n.take(x.len() - p) && at(r, n.skip(x.len() - p), 0)),
{
    let k = x.len() - p;
    if p >= x.len() {
        if p + n.len() <= (x + r).len() {
            assert((x + r).subrange(p, p + n.len()) =~= r.subrange(p - x.len(), p - x.len() + n.len()));
        }
    } else if n.len() <= k {
        assert((x + r).subrange(p, p + n.len()) =~= x.subrange(p, p + n.len()));
    } else {
        if p + n.len() <= (x + r).len() {
            let w = (x + r).subrange(p, p + n.len());
            assert(w =~= x.skip(p) + r.subrange(0, n.len() - k));
            assert(w.take(k) =~= x.skip(p));
            assert(w.skip(k) =~= r.subrange(0, n.len() - k));
            assert(n =~= n.take(k) + n.skip(k));
        }
    }
}
proof fn at_first(h: Seq<u8>, n: Seq<u8>)
    requires n.len() > 0
    ensures forall|p: int| at(h, n, p) ==> 0 <= p < h.len() && #[trigger] h[p] == n[0]
{
    assert forall|p: int| at(h, n, p) implies 0 <= p < h.len() && #[trigger] h[p] == n[0] by {
        assert(h.subrange(p, p + n.len())[0] == h[p]);
    }
}
/// No more chunks than bytes.
proof fn count(s: Seq<Seq<u8>>)
    requires full(s)
    ensures s.len() <= flat(s).len()
    decreases s.len()
{
    full_parts(s);
    if s.len() > 0 { count(s.skip(1)); }
}
/// Where the c-th chunk lies.
proof fn in_chunk(q: Seq<Seq<u8>>, c: int)
    requires 0 <= c < q.len()
    ensures
        flat(q) =~= flat(q.take(c)) + q[c] + flat(q.skip(c + 1)),
        forall|j: int| 0 <= j < q[c].len() ==> flat(q)[flat(q.take(c)).len() + j] == #[trigger] q[c][j],
{
    flat_split(q, c);
    flat_step(q, c);
}
proof fn at_suffix(a: Seq<u8>, b: Seq<u8>, n: Seq<u8>, p: int)
    requires p >= 0
    ensures at(a + b, n, a.len() + p) == at(b, n, p)
{
    at_step(a, b, n, a.len() + p);
}
proof fn nothing(s: Seq<Seq<u8>>)
    ensures s.len() == 0 ==> flat(s) =~= Seq::<u8>::empty()
{ }
/// Behind the last chunk nothing begins.
proof fn past_end(q: Seq<Seq<u8>>, n: Seq<u8>, c: int, o: int)
    requires 0 <= c <= q.len(), n.len() > 0, o >= 0
    ensures c == q.len() ==> never(flat(q), n, flat(q.take(c)).len() + o)
{
    if c == q.len() { assert(q.take(c) =~= q); }
}
/// k bytes of a chunk, none of them the first one of n: n begins at none of them.
proof fn skipped(q: Seq<Seq<u8>>, n: Seq<u8>, c: int, o: int, k: int)
    requires 0 <= c < q.len(), n.len() > 0, o >= 0, 0 <= k, o + k <= q[c].len(), forall|j: int| 0 <= j < k ==> q[c].skip(o)[j] != n[0]
    ensures none(flat(q), n, flat(q.take(c)).len() + o, flat(q.take(c)).len() + o + k)
{
    in_chunk(q, c);
    at_first(flat(q), n);
    let s = flat(q.take(c)).len() + o;
    assert forall|p: int| s <= p < s + k implies !at(flat(q), n, p) by {
        assert(q[c].skip(o)[p - s] == q[c][p - s + o]);
        assert(flat(q)[p] == q[c][p - s + o]);
    }
}
/// Beginning o bytes into a chunk.
proof fn candidate(q: Seq<Seq<u8>>, n: Seq<u8>, c: int, o: int)
    requires 0 <= c < q.len(), 0 <= o <= q[c].len()
    ensures at(flat(q), n, flat(q.take(c)).len() + o) == at(q[c].skip(o) + flat(q.skip(c + 1)), n, 0)
{
    in_chunk(q, c);
    let pre = flat(q.take(c)) + q[c].take(o);
    assert(flat(q) =~= pre + (q[c].skip(o) + flat(q.skip(c + 1))));
    at_suffix(pre, q[c].skip(o) + flat(q.skip(c + 1)), n, 0);
}
/// Comparing as much of n as the chunk x has.
proof fn cmp_step(x: Seq<u8>, r: Seq<u8>, n: Seq<u8>)
    ensures
        n.len() <= x.len() ==> at(x + r, n, 0) == (x.take(n.len() as int) =~= n),
        n.len() > x.len() ==> at(x + r, n, 0) == (x =~= n.take(x.len() as int) && at(r, n.skip(x.len() as int), 0)),
        n.len() > x.len() && at(r, n.skip(x.len() as int), 0) ==> n.len() <= x.len() + r.len(),
        n.take(n.len() as int) =~= n, x.take(x.len() as int) =~= x,
{
    at_step(x, r, n, 0);
    if x.len() == 0 {
        assert(x + r =~= r);
        assert(n.skip(0) =~= n);
        assert(n.take(0) =~= x);
    } else {
        assert(x.skip(0) =~= x);
        if n.len() <= x.len() { assert(x.subrange(0, n.len() as int) =~= x.take(n.len() as int)); }
    }
}
/// Taking a chunk x off what is left from i on.
proof fn popped(q: Seq<u8>, i: int, x: Seq<u8>, r: Seq<u8>, k: int)
    requires 0 <= i <= q.len(), q.skip(i) =~= x + r, 0 <= k <= q.len() - i
    ensures
        q.skip(i + x.len()) =~= r,
        k <= x.len() ==> q.skip(i + k) =~= x.skip(k) + r,
{
    assert(q.skip(i).skip(x.len() as int) =~= q.skip(i + x.len()));
    assert(q.skip(i).skip(k) =~= q.skip(i + k));
    assert((x + r).skip(x.len() as int) =~= r);
}
#[verifier::external_body]
fn v_position(s: &[u8], b: u8) -> (r: Option<usize>)
    ensures match r {
        Some(i) => i < s@.len() && s@[i as int] == b && (forall|j: int| 0 <= j < i ==> s@[j] != b),
        None => forall|j: int| 0 <= j < s@.len() ==> s@[j] != b,
    }
{ unimplemented!() }
pub trait First {
    spec fn opt(&self) -> Option<(usize, usize, usize)>;
    fn v_first(self) -> (r: Option<usize>) ensures r == (match self.opt() { Some((a, _, _)) => Some(a), None => None });
}
impl First for Option<(usize, usize, usize)> {
    open spec fn opt(&self) -> Option<(usize, usize, usize)> { *self }
    fn v_first(self) -> (r: Option<usize>) { match self { Some((a, _, _)) => Some(a), None => None } }
}

impl<'a> View for ByteQueue<'a> { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { flat(self.queue@) } }
impl<'a> ByteQueue<'a> {
    pub open spec fn wf(&self) -> bool { full(self.queue@) && self.remain == self@.len() }

//@fn queue/byte_queue.rs ByteQueue::new
//@prop P09
//@ret r
//@spec
    ensures r.wf(), r@ == Seq::<u8>::empty(), r.queue@.len() == 0
//@end

//@fn queue/byte_queue.rs ByteQueue::with_item
//@prop P09
//@ret r
//@spec
    ensures r.wf(), r@ == data@, r.queue@ == (if data@.len() == 0 { Seq::<Seq<u8>>::empty() } else { seq![data@] })
//@at start
    proof { flat_cons(data@, Seq::empty()); assert(seq![data@] + Seq::<Seq<u8>>::empty() =~= seq![data@]); }
//@end

//@fn queue/byte_queue.rs ByteQueue::push_back
//@prop P09
//@sig < I : Into < ByteData < 'a >> > => <>
//@sig data : I => data: ByteData<'a>
//@sub data . into ( ) => data
//@spec
    requires old(self).wf(), old(self)@.len() + data@.len() <= usize::MAX
    ensures final(self).wf(), final(self)@ == old(self)@ + data@,
        final(self).queue@ == (if data@.len() == 0 { old(self).queue@ } else { old(self).queue@.push(data@) })
//@at start
    proof { flat_push(self.queue@, data@); }
//@at end
    proof { assert forall|i: int| 0 <= i < self.queue@.len() implies (#[trigger] self.queue@[i]).len() > 0 by { if i < old(self).queue@.len() { assert(old(self).queue@[i].len() > 0); } } }
//@end

//@fn queue/byte_queue.rs ByteQueue::push_front
//@prop P09
//@sig < I : Into < ByteData < 'a >> > => <>
//@sig data : I => data: ByteData<'a>
//@sub data . into ( ) => data
//@spec
    requires old(self).wf(), old(self)@.len() + data@.len() <= usize::MAX
    ensures final(self).wf(), final(self)@ == data@ + old(self)@,
        final(self).queue@ == (if data@.len() == 0 { old(self).queue@ } else { seq![data@] + old(self).queue@ })
//@at start
    proof { flat_cons(data@, self.queue@); }
//@at end
    proof { assert forall|i: int| 0 <= i < self.queue@.len() implies (#[trigger] self.queue@[i]).len() > 0 by { if i > 0 { assert(old(self).queue@[i - 1].len() > 0); } } }
//@end

//@fn queue/byte_queue.rs ByteQueue::pop_front
//@prop P09
//@ret r
//@spec
    requires old(self).wf()
    ensures final(self).wf(), match r {
        None => old(self)@.len() == 0 && old(self).queue@.len() == 0 && final(self).queue@ == old(self).queue@,
        Some(x) => old(self).queue@.len() > 0 && x@.len() > 0 && x@ == old(self).queue@[0] && final(self).queue@ == old(self).queue@.skip(1) && old(self)@ == x@ + final(self)@,
    }
//@at start
    proof { full_parts(self.queue@); }
//@end

//@fn queue/byte_queue.rs ByteQueue::pop_back
//@prop P09
//@ret r
//@spec
    requires old(self).wf()
    ensures final(self).wf(), match r {
        None => old(self)@.len() == 0 && old(self).queue@.len() == 0 && final(self).queue@ == old(self).queue@,
        Some(x) => old(self).queue@.len() > 0 && x@.len() > 0 && x@ == old(self).queue@.last() && final(self).queue@ == old(self).queue@.drop_last() && old(self)@ == final(self)@ + x@,
    }
//@at start
    proof { full_parts(self.queue@); if self.queue@.len() > 0 { flat_last(self.queue@); } }
//@end

//@fn queue/byte_queue.rs ByteQueue::front
//@prop P09
//@ret r
//@spec
    requires self.wf()
    ensures match r { None => self@.len() == 0, Some(x) => self.queue@.len() > 0 && x@.len() > 0 && x@ == self.queue@[0] }
//@at start
    proof { full_parts(self.queue@); }
//@end

//@fn queue/byte_queue.rs ByteQueue::back
//@prop P09
//@ret r
//@spec
    requires self.wf()
    ensures match r { None => self@.len() == 0, Some(x) => self.queue@.len() > 0 && x@.len() > 0 && x@ == self.queue@.last() }
//@at start
    proof { full_parts(self.queue@); }
//@end

//@fn queue/byte_queue.rs ByteQueue::is_empty
//@prop P09
//@ret r
//@spec
    requires self.wf()
    ensures r == (self@.len() == 0)
//@end

//@fn queue/byte_queue.rs ByteQueue::len
//@prop P09
//@ret r
//@spec
    requires self.wf()
    ensures r == self@.len()
//@end

//@fn queue/byte_queue.rs ByteQueue::chunk_len
//@prop P09
//@ret r
//@spec
    ensures r == self.queue@.len()
//@end

//@fn queue/byte_queue.rs ByteQueue::chunks
//@prop P09
//@ret r
//@sig & self => &'b self
//@sig fn chunks => fn chunks<'b>
//@sig LinkedIter < 'a , '_ > => LinkedIter<'a, 'b>
//@spec
    ensures r@ == self.queue@
//@end

//@fn queue/byte_queue.rs ByteQueue::append
//@prop P09
//@sig mut other => other
//@sig Self => ByteQueue<'a>
//@spec
    requires old(self).wf(), other.wf(), old(self)@.len() + other@.len() <= usize::MAX
    ensures final(self).wf(), final(self)@ == old(self)@ + other@, final(self).queue@ == old(self).queue@ + other.queue@
//@at start
    let ghost o = other.queue@;
    let mut other = other;
    proof { flat_add(self.queue@, other.queue@); }
//@at end
    proof { assert forall|i: int| 0 <= i < self.queue@.len() implies (#[trigger] self.queue@[i]).len() > 0 by {
        if i < old(self).queue@.len() { assert(old(self).queue@[i].len() > 0); } else { assert(o[i - old(self).queue@.len()].len() > 0); } } }
//@end

//@fn queue/byte_queue.rs ByteQueue::consume
//@prop P11 P14
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sig mut cnt => cnt
//@refuse cnt > old(self)@.len()
//@spec
    requires old(self).wf()
    ensures cnt <= old(self)@.len(), final(self).wf(), final(self)@ == old(self)@.skip(cnt as int),
        texts(old(self).queue@) && bnd(old(self)@, cnt as int) ==> texts(final(self).queue@)
//@at start
    let ghost n = cnt as int;
    let mut cnt = cnt;
//@loop 0 while
    invariant self.wf(), 0 <= cnt <= n <= old(self)@.len(), self@ =~= old(self)@.skip(n - cnt),
        texts(old(self).queue@) ==> texts(self.queue@)
    decreases cnt
//@sub let len = front . len ( ) ; => let len = front.len(); proof { if texts(old(self).queue@) && bnd(old(self)@, n) && len > cnt { bnd_step(front@, self@, cnt as int); valid_cut(front@, cnt as int); } assert(before.skip(len as int) =~= self@); if len > cnt { assert(before.skip(cnt as int) =~= front@.skip(cnt as int) + self@); } }
//@at loop 0 start
    let ghost before = self@;
//@end

//@fn queue/byte_queue.rs ByteQueue::check_range
//@prop P11 P09
//@ret r
//@sub core :: ops :: Bound => Bound
//@sub Bound :: Excluded ( & 0 ) => Bound::Excluded(vv) if *vv == 0
//@refuse !in_range(range, self@.len() as int)
//@sig impl RangeBounds < usize > => R
//@sig fn check_range => fn check_range<R: RangeBounds<usize>>
//@spec
    requires self.wf()
    ensures in_range(range, self@.len() as int), r.0 == first(range), r.1 == past(range, self@.len() as int)
//@end

//@fn queue/byte_queue.rs ByteQueue::slice
//@prop P11 P14
//@ret r
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@spec
    requires self.wf()
    ensures in_range(range, self@.len() as int), r.wf(), r@ == self@.subrange(first(range), past(range, self@.len() as int)),
        texts(self.queue@) && bnd(self@, first(range)) && bnd(self@, past(range, self@.len() as int)) ==> texts(r.queue@),
        texts(self.queue@) && bnd(self@, first(range)) ==> heads(r.queue@)
//@iter 0 it
//@loop 0 for
    invariant out.wf(), start + max <= flat(it@).len() <= self@.len(), out@.len() + max <= self@.len(),
        self@.subrange(first(range), past(range, self@.len() as int)) =~= out@ + flat(it@).subrange(start as int, start + max),
        texts(self.queue@) && bnd(self@, first(range)) && bnd(self@, past(range, self@.len() as int)) ==>
            texts(out.queue@) && bnd(flat(it@), start + max),
        texts(self.queue@) && bnd(self@, first(range)) ==> texts(it@) && heads(out.queue@) && bnd(flat(it@), start as int)
    ensures it@.len() == 0
    decreases it@.len()
//@at loop 0 start
    proof {
        slice_step(vv@, flat(it@), start as int, max as int);
        if texts(self.queue@) && bnd(self@, first(range)) {
            bnd_step(vv@, flat(it@), start as int);
            assert(texts(it@));
            texts_first(it@);
            valid_first(vv@);
        }
        if texts(self.queue@) && bnd(self@, first(range)) && bnd(self@, past(range, self@.len() as int)) {
            bnd_step(vv@, flat(it@), start + max);
            let e = if start + max < vv@.len() { start + max } else { vv@.len() as int };
            if start < vv@.len() { valid_between(vv@, start as int, e); }
        }
    }
//@end

//@fn queue/byte_queue.rs ByteQueue::exists_at
//@prop P10
//@ret r
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sig mut index => index
//@sig mut data => data
//@spec
    requires self.wf()
    ensures r == at(self@, data@, index as int)
//@at start
    let ghost want = at(self@, data@, index as int);
    let mut index = index;
    let mut data = data;
//@iter 0 it
//@loop 0 for
    invariant want == at(flat(it@), data@, index as int)
    ensures it@.len() == 0
    decreases it@.len()
//@at loop 0 start
    proof { at_step(chunk@, flat(it@), data@, index as int); }
//@end

//@fn queue/byte_queue.rs ByteQueue::starts_with
//@prop P10
//@ret r
//@spec
    requires self.wf()
    ensures r == at(self@, data@, 0)
//@end

//@fn queue/byte_queue.rs ByteQueue::ends_with
//@prop P10
//@ret r
//@spec
    requires self.wf()
    ensures r == at(self@, data@, self@.len() - data@.len())
//@end

//@fn queue/byte_queue.rs ByteQueue::find_slice
//@prop P10
//@ret r
//@spec
    requires self.wf()
    ensures match r {
        Some(p) => at(self@, data@, p as int) && none(self@, data@, 0, p as int),
        None => never(self@, data@, 0),
    }
//@end

//@fn queue/byte_queue.rs ByteQueue::find_slice_after
//@prop P10
//@ret r
//@sub . map ( | ( $a , _ , _ ) | $b ) => .v_first()
//@spec
    requires self.wf()
    ensures match r {
        Some(p) => start <= p && at(self@, data@, p as int) && none(self@, data@, start as int, p as int),
        None => never(self@, data@, start as int),
    }
//@at start
    proof { assert(self.queue@.take(0) =~= Seq::<Seq<u8>>::empty()); }
//@end

//@fn queue/byte_queue.rs ByteQueue::find_slice_pos
//@prop P10
//@ret r
//@spec
    requires self.wf(), start_chunk <= self.queue@.len(), start_byte == flat(self.queue@.take(start_chunk as int)).len() + start_offset
    ensures found(self, data@, start_byte as int, r)
//@at start
    proof { flat_split(self.queue@, start_chunk as int); }
//@end

//@fn queue/byte_queue.rs ByteQueue::find_slice_pos_nonempty
//@prop P10
//@ret r
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sig mut start_chunk => start_chunk
//@sig mut start_offset => start_offset
//@sig mut start_byte => start_byte
//@sub sl . iter ( ) . position ( | $x | * $y == first_byte ) => v_position(sl, first_byte)
//@opt debug_assert ! ( $(c) , $m ) ; =>
//@spec
    requires self.wf(), start_chunk <= self.queue@.len(), start_byte == flat(self.queue@.take(start_chunk as int)).len() + start_offset, data@.len() > 0
    ensures found(self, data@, start_byte as int, r)
//@at start
    hide(flat); hide(at); hide(full);
    let ghost sb = start_byte as int;
    let ghost q = self.queue@;
    let mut start_chunk = start_chunk;
    let mut start_offset = start_offset;
    let mut start_byte = start_byte;
    proof { count(q); past_end(q, data@, start_chunk as int, start_offset as int); assert(flat(q) == self@); }
//@at loop 0 start
    let ghost c0 = start_chunk;
    let ghost o0 = start_offset;
//@at loop 1 start
    proof { flat_step(q, start_chunk as int); past_end(q, data@, start_chunk + 1, start_offset - sect.len()); if start_chunk + 1 < q.len() { assert(q.skip(start_chunk + 1).skip(1) =~= q.skip(start_chunk + 2)); } }
//@sub start_byte += sl . len ( ) ; => proof { skipped(q, data@, start_chunk as int, start_offset as int, sl.len() as int); in_chunk(q, start_chunk as int); assert(none(self@, data@, sb, start_byte + sl.len())); } start_byte += sl.len();
//@sub start_offset += av ; => proof { skipped(q, data@, start_chunk as int, start_offset as int, av as int); in_chunk(q, start_chunk as int); } start_offset += av;
//@at loop 2 before
    proof { candidate(q, data@, start_chunk as int, start_offset as int); assert(hay@ =~= q[start_chunk as int].skip(start_offset as int)); assert(rest@ =~= q.skip(start_chunk + 1)); }
//@at loop 2 after
    proof { assert(none(self@, data@, sb, start_byte + 1)); }
//@at loop 2 start
    proof { cmp_step(hay@, flat(rest@), left@); nothing(rest@); }
    let ghost r0 = rest@;
//@at loop 2 end
    proof { flat_cons(hay@, rest@); assert(seq![hay@] + rest@ =~= r0); }
//@loop 0 loop
    invariant start_chunk < q.len(), chunks@ =~= q.skip(start_chunk + 1), sect@ == q[start_chunk as int],
        start_byte == flat(q.take(start_chunk as int)).len() + start_offset, sb <= start_byte, none(self@, data@, sb, start_byte as int),
    decreases q.len() - start_chunk, sect.len() - start_offset
//@loop 1 while
    invariant start_chunk < q.len(), chunks@ =~= q.skip(start_chunk + 1), sect@ == q[start_chunk as int],
        start_byte == flat(q.take(start_chunk as int)).len() + start_offset,
        start_chunk > c0 || (start_chunk == c0 && start_offset == o0)
    decreases q.len() - start_chunk
//@loop 2 loop
    invariant at(self@, data@, start_byte as int) == at(hay@ + flat(rest@), left@, 0), left@.len() > 0
    ensures !at(self@, data@, start_byte as int)
    decreases rest@.len()
//@end

//@fn queue/byte_queue.rs ByteQueue::split_off
//@prop P11 P14
//@ret r
//@drop inner
//@sub inner ( self , at ) => split_off_inner(self, at)
//@refuse at > old(self)@.len()
//@spec
    requires old(self).wf()
    ensures at <= old(self)@.len(), final(self).wf(), r.wf(), final(self)@ =~= old(self)@.take(at as int), r@ =~= old(self)@.skip(at as int),
        texts(old(self).queue@) && bnd(old(self)@, at as int) ==> texts(final(self).queue@) && texts(r.queue@)
//@end

//@fn queue/byte_queue.rs ByteQueue::replace_range
//@prop P11 P14
//@spec
    requires old(self).wf(), old(self)@.len() + replace_with@.len() <= usize::MAX
    ensures in_range(range, old(self)@.len() as int), final(self).wf(),
        final(self)@ =~= old(self)@.take(first(range)) + replace_with@ + old(self)@.skip(past(range, old(self)@.len() as int)),
        texts(old(self).queue@) && valid(replace_with@) && bnd(old(self)@, first(range)) && bnd(old(self)@, past(range, old(self)@.len() as int)) ==> texts(final(self).queue@)
//@end

//@fn queue/byte_queue.rs ByteQueue::replace_range_inner
//@prop P11 P14
//@sub core :: mem :: drop ( self . drain ( $a .. $b ) ) ; => v_drain(self, $a, $b);
//@spec
    requires old(self).wf(), start <= end <= old(self)@.len(), old(self)@.len() + replace_with@.len() <= usize::MAX
    ensures final(self).wf(), final(self)@ =~= old(self)@.take(start as int) + replace_with@ + old(self)@.skip(end as int),
        texts(old(self).queue@) && valid(replace_with@) && bnd(old(self)@, start as int) && bnd(old(self)@, end as int) ==> texts(final(self).queue@)
//@end
}

//@fn queue/byte_queue.rs ByteQueue::split_off/inner as split_off_inner
//@prop P11 P14
//@ret r
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sub let len = av . len ( ) ; => let ghost av0 = av@; let len = av.len(); proof { assert(old(this)@.skip(at as int) =~= (this@ + av0).skip(at as int) + out@); if texts(old(this).queue@) && bnd(old(this)@, at as int) && len > remain { assert(old(this)@[at as int] == av0[len - remain]); valid_cut(av0, len - remain); } }
//@spec
    requires old(this).wf(), at < old(this)@.len()
    ensures final(this).wf(), r.wf(), final(this)@ =~= old(this)@.take(at as int), r@ =~= old(this)@.skip(at as int),
        texts(old(this).queue@) && bnd(old(this)@, at as int) ==> texts(final(this).queue@) && texts(r.queue@)
//@loop 0 while
    invariant this.wf(), out.wf(), remain > 0, at + remain == this@.len(), old(this)@ =~= this@ + out@,
        texts(old(this).queue@) ==> texts(this.queue@) && texts(out.queue@)
    ensures this@.len() == at
    decreases this@.len()
//@end

/// `drain(start..end)` dropped at once.
fn v_drain<'a>(queue: &mut ByteQueue<'a>, start: usize, end: usize)
    requires old(queue).wf(), start <= end <= old(queue)@.len()
    ensures final(queue).wf(), final(queue)@ =~= old(queue)@.take(start as int) + old(queue)@.skip(end as int),
        texts(old(queue).queue@) && bnd(old(queue)@, start as int) && bnd(old(queue)@, end as int) ==> texts(final(queue).queue@)
{
    drop_drain(DrainRange { start, end }, queue);
}
/// What `DrainBytes` holds besides the pointer to the queue and the iterator over the drained bytes.
pub struct DrainRange { pub start: usize, pub end: usize }

//@fn queue/drain.rs <DrainBytes as Drop>::drop as drop_drain
//@prop P11 P14
//@sig & mut self => this: DrainRange, queue_: &mut ByteQueue
//@sub unsafe { & mut * self . ptr } => queue_
//@sub _ = self . queue . take ( ) ; =>
//@sub self . start => this.start
//@sub self . end => this.end
//@spec
    requires old(queue_).wf(), this.start <= this.end <= old(queue_)@.len()
    ensures final(queue_).wf(), final(queue_)@ =~= old(queue_)@.take(this.start as int) + old(queue_)@.skip(this.end as int),
        texts(old(queue_).queue@) && bnd(old(queue_)@, this.start as int) && bnd(old(queue_)@, this.end as int) ==> texts(final(queue_).queue@)
//@end

//@fn queue/drain.rs do_drain
//@prop P11 P14
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sig mut end => end
//@spec
    requires old(queue).wf(), start < end <= old(queue)@.len()
    ensures final(queue).wf(), final(queue)@ =~= old(queue)@.take(start as int) + old(queue)@.skip(end as int),
        texts(old(queue).queue@) && bnd(old(queue)@, start as int) && bnd(old(queue)@, end as int) ==> texts(final(queue).queue@)
//@at start
    let ghost e = end as int;
    let mut end = end;
    let ghost q0 = queue@;
    let ghost t = texts(queue.queue@);
//@loop 0 while
    invariant t ==> texts(queue.queue@), queue.wf(), 0 < end <= queue@.len(), queue@ =~= q0.skip(e - end), end <= e
    decreases queue@.len()
//@at loop 0 start
    proof { popped(q0, e - end, aa@, queue@, end as int); if t && bnd(q0, e) && aa@.len() > end { assert(q0.skip(e - end)[end as int] == q0[e]); valid_cut(aa@, end as int); } }
//@loop 1 while
    invariant t ==> texts(queue.queue@), queue.wf(), start < queue@.len() <= q0.len(), queue@ =~= q0.take(queue@.len() as int)
    decreases queue@.len()
//@at loop 1 start
    proof { assert(q0.take((queue@.len() + av@.len()) as int) =~= queue@ + av@); assert(queue@ =~= q0.take(queue@.len() as int)); if t && bnd(q0, start as int) && queue@.len() < start { assert((queue@ + av@)[start as int] == av@[start - queue@.len()]); assert(q0.take((queue@.len() + av@.len()) as int)[start as int] == q0[start as int]); valid_cut(av@, start - queue@.len()); } }
//@loop 2 while
    invariant t && bnd(q0, start as int) ==> texts(queue2.queue@), queue2.wf(), 0 < remove <= queue2@.len(), remove <= e - start, queue2@ =~= q0.skip(e - remove)
    ensures queue2@ =~= q0.skip(e), t && bnd(q0, start as int) && bnd(q0, e) ==> texts(queue2.queue@)
    decreases queue2@.len()
//@at loop 2 start
    proof { popped(q0, e - remove, av@, queue2@, remove as int); if t && bnd(q0, start as int) && bnd(q0, e) && av@.len() > remove { assert(q0.skip(e - remove)[remove as int] == q0[e]); valid_cut(av@, remove as int); } }
//@end


} // verus!
fn main() {}
