// ---- what lies outside: buffers of the caller ----

pub struct IoError;
pub type IoResult<T> = Result<T, IoError>;

pub open spec fn least(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn glued(v: Seq<Seq<u8>>) -> Seq<u8>
    decreases v.len()
{
    if v.len() == 0 { Seq::empty() } else { glued(v.drop_last()) + v.last() }
}
/// Bytes were put over the beginning of a buffer.
pub open spec fn over(x: Seq<u8>, b: Seq<u8>) -> Seq<u8> { x + b.skip(x.len() as int) }

/// `buf[range].copy_from_slice(src)`
#[verifier::external_body]
fn v_place<R: RangeBounds<usize>>(buf: &mut [u8], range: R, src: &[u8])
    requires in_range(range, old(buf)@.len() as int), past(range, old(buf)@.len() as int) - first(range) == src@.len()
    ensures
        final(buf)@.len() == old(buf)@.len(),
        final(buf)@ =~= old(buf)@.take(first(range)) + src@ + old(buf)@.skip(past(range, old(buf)@.len() as int))
{ unimplemented!() }
/// `&src[range]`
#[verifier::external_body]
fn v_cut<R: RangeBounds<usize>>(src: &[u8], range: R) -> (r: &[u8])
    requires in_range(range, src@.len() as int)
    ensures r@ =~= src@.subrange(first(range), past(range, src@.len() as int))
{ unimplemented!() }
/// `Vec::extend_from_slice`
#[verifier::external_body]
fn v_append(buf: &mut Vec<u8>, src: &[u8])
    ensures final(buf)@ == old(buf)@ + src@
{ unimplemented!() }

/// A pointer into the bytes that are read.
#[derive(Clone, Copy)]
pub struct Src<'a> { pub s: &'a [u8], pub o: usize }
impl<'a> Src<'a> {
    fn v_of(s: &'a [u8]) -> (r: Src<'a>)
        ensures r.s == s, r.o == 0
    { Src { s, o: 0 } }
    fn add(self, n: usize) -> (r: Src<'a>)
        requires self.o + n <= self.s@.len()
        ensures r.s == self.s, r.o == self.o + n
    { let m = self.s.len(); Src { s: self.s, o: self.o + n } }
    pub open spec fn part(&self, n: int) -> Seq<u8> { self.s@.subrange(self.o as int, self.o + n) }
}

/// The list of buffers of a vectored read: a buffer is named by its place in the list.
#[verifier::external_body]
pub struct Bufs { b: Vec<Vec<u8>> }
impl Bufs {
    pub uninterp spec fn view(&self) -> Seq<Seq<u8>>;
    #[verifier::external_body]
    fn v_count(&self) -> (r: usize)
        ensures r == self@.len()
    { unimplemented!() }
    #[verifier::external_body]
    fn v_len(&self, i: usize) -> (r: usize)
        requires i < self@.len()
        ensures r == self@[i as int].len()
    { unimplemented!() }
    /// `copy_nonoverlapping` to the `at`-th byte of a buffer.
    #[verifier::external_body]
    fn v_write(&mut self, i: usize, at: usize, src: Src<'_>, n: usize)
        requires i < old(self)@.len(), at + n <= old(self)@[i as int].len(), src.o + n <= src.s@.len()
        ensures final(self)@ =~= old(self)@.update(i as int, old(self)@[i as int].take(at as int) + src.part(n as int) + old(self)@[i as int].skip(at + n))
    { unimplemented!() }
    /// `for buf in bufs`
    fn v_iter(&self) -> (r: Places)
        ensures r.at == 0, r.n == self@.len()
    { Places { at: 0, n: self.v_count() } }
}
pub struct Places { pub at: usize, pub n: usize }
impl Places {
    pub open spec fn view(&self) -> int { self.n - self.at }
    fn next(&mut self) -> (r: Option<usize>)
        requires old(self).at <= old(self).n
        ensures
            final(self).n == old(self).n, final(self).at <= final(self).n,
            match r { None => old(self).at == old(self).n && final(self).at == old(self).at, Some(i) => i == old(self).at && i < old(self).n && final(self).at == i + 1 },
    { if self.at < self.n { self.at += 1; Some(self.at - 1) } else { None } }
}
/// The bytes of `data` were put, in order, over the beginning of the buffers `was`, as many as fit.
pub open spec fn spread(was: Seq<Seq<u8>>, now: Seq<Seq<u8>>, data: Seq<u8>, n: int) -> bool {
    &&& n == least(data.len() as int, glued(was).len() as int)
    &&& now.len() == was.len() && forall|i: int| #![trigger now[i]] 0 <= i < was.len() ==> now[i].len() == was[i].len()
    &&& glued(now) =~= over(data.take(n), glued(was))
}
/// The first k buffers hold what they should, the others what they did.
pub open spec fn partly(was: Seq<Seq<u8>>, now: Seq<Seq<u8>>, data: Seq<u8>, k: int, n: int) -> bool {
    &&& 0 <= k <= was.len() && now.len() == was.len()
    &&& spread(was.take(k), now.take(k), data, n)
    &&& forall|i: int| #![trigger now[i]] k <= i < was.len() ==> now[i] == was[i]
}
proof fn glue(v: Seq<Seq<u8>>, k: int)
    requires 0 <= k <= v.len()
    ensures
        glued(v) =~= glued(v.take(k)) + glued(v.skip(k)),
        k < v.len() ==> glued(v.take(k + 1)) =~= glued(v.take(k)) + v[k],
    decreases v.len() - k
{
    if k < v.len() {
        assert(v.take(k + 1).drop_last() =~= v.take(k));
        glue(v, k + 1);
        front(v.skip(k));
        assert(v.skip(k).skip(1) =~= v.skip(k + 1));
        assert(v.skip(k)[0] == v[k]);
    } else {
        assert(v.take(k) =~= v);
        assert(v.skip(k).len() == 0);
    }
}
proof fn front(v: Seq<Seq<u8>>)
    requires v.len() > 0
    ensures glued(v) =~= v[0] + glued(v.skip(1))
    decreases v.len()
{
    if v.len() == 1 {
        assert(glued(v.drop_last()) =~= Seq::<u8>::empty());
        assert(glued(v.skip(1)) =~= Seq::<u8>::empty());
        assert(v.last() == v[0]);
    } else {
        front(v.drop_last());
        assert(v.drop_last().skip(1) =~= v.skip(1).drop_last());
        assert(v.skip(1).last() == v.last());
    }
}
/// One more buffer, into which the next bytes went.
proof fn one_more(was: Seq<Seq<u8>>, now: Seq<Seq<u8>>, next: Seq<Seq<u8>>, data: Seq<u8>, k: int, n: int, m: int)
    requires
        partly(was, now, data, k, n), k < was.len(), m == least(was[k].len() as int, data.len() - n),
        next =~= now.update(k, over(data.subrange(n, n + m), was[k])),
    ensures partly(was, next, data, k + 1, n + m)
{
    glue(was, k);
    glue(now, k);
    glue(next, k);
    assert(next.take(k) =~= now.take(k));
    let w = was.take(k);
    let e = now.take(k);
    assert(glued(e).len() == glued(w).len());
    assert forall|i: int| #![trigger next.take(k + 1)[i]] 0 <= i < k + 1 implies next.take(k + 1)[i].len() == was.take(k + 1)[i].len() by {
        if i < k { assert(e[i].len() == w[i].len()); assert(next[i] == now[i]); }
    }
    if n < data.len() {
        assert(n == glued(w).len());
        assert(glued(e) =~= data.take(n));
        assert(glued(next.take(k + 1)) =~= over(data.take(n + m), glued(was.take(k + 1))));
    } else {
        assert(m == 0);
        assert(over(data.subrange(n, n + m), was[k]) =~= was[k]);
        assert(glued(next.take(k + 1)) =~= over(data.take(n + m), glued(was.take(k + 1))));
    }
}
/// Everything was given out before the last buffer, or all buffers were seen.
proof fn all_seen(was: Seq<Seq<u8>>, now: Seq<Seq<u8>>, data: Seq<u8>, k: int, n: int)
    requires partly(was, now, data, k, n), n == data.len() || k == was.len()
    ensures spread(was, now, data, n)
{
    glue(was, k);
    glue(now, k);
    assert(was.skip(k) =~= now.skip(k)) by { assert forall|i: int| 0 <= i < was.len() - k implies was.skip(k)[i] == now.skip(k)[i] by { assert(now[k + i] == was[k + i]); } }
    if k == was.len() { assert(was.take(k) =~= was); assert(now.take(k) =~= now); }
    assert forall|i: int| #![trigger now[i]] 0 <= i < was.len() implies now[i].len() == was[i].len() by {
        if i < k { assert(now.take(k)[i].len() == was.take(k)[i].len()); }
    }
}

/// What has been read: `n` of the bytes `was`; what is left.
pub open spec fn moved(was: Seq<u8>, left: Seq<u8>, n: int) -> bool { 0 <= n <= was.len() && left =~= was.skip(n) }
/// Where reading up to a byte stops.
pub open spec fn up_to(d: Seq<u8>, byte: u8, n: int) -> bool {
    &&& 0 <= n <= d.len()
    &&& forall|i: int| #![trigger d[i]] 0 <= i < n - 1 ==> d[i] != byte
    &&& n < d.len() ==> n > 0 && d[n - 1] == byte
}

/// The list of slices of a vectored write.
#[verifier::external_body]
pub struct Slices { b: Vec<Vec<u8>> }
impl Slices {
    pub uninterp spec fn view(&self) -> Seq<Seq<u8>>;
    #[verifier::external_body]
    fn v_count(&self) -> (r: usize)
        ensures r == self@.len()
    { unimplemented!() }
    #[verifier::external_body]
    fn v_get(&self, i: usize) -> (r: &[u8])
        requires i < self@.len()
        ensures r@ == self@[i as int]
    { unimplemented!() }
    /// `for buf in bufs`
    fn v_iter(&self) -> (r: Listed<'_>)
        ensures r.at == 0, r.of == self
    { Listed { at: 0, of: self } }
}
pub struct Listed<'a> { pub at: usize, pub of: &'a Slices }
impl<'a> Listed<'a> {
    pub open spec fn view(&self) -> Seq<Seq<u8>> { self.of@.skip(self.at as int) }
    fn next(&mut self) -> (r: Option<&'a [u8]>)
        requires old(self).at <= old(self).of@.len()
        ensures
            final(self).of == old(self).of, final(self).at <= final(self).of@.len(),
            match r {
                None => old(self).at == old(self).of@.len() && final(self).at == old(self).at,
                Some(x) => old(self).at < old(self).of@.len() && final(self).at == old(self).at + 1 && x@ == old(self).of@[old(self).at as int],
            },
    {
        if self.at < self.of.v_count() { self.at += 1; Some(self.of.v_get(self.at - 1)) } else { None }
    }
}
/// No part is longer than the whole.
proof fn part(v: Seq<Seq<u8>>, k: int)
    requires 0 <= k < v.len()
    ensures
        glued(v.take(k + 1)) =~= glued(v.take(k)) + v[k], glued(v.take(k)).len() + v[k].len() <= glued(v).len(),
        glued(v.take(k)) =~= glued(v).take(glued(v.take(k)).len() as int), glued(v.take(k + 1)) =~= glued(v).take(glued(v.take(k + 1)).len() as int),
{
    glue(v, k);
    glue(v, k + 1);
}
