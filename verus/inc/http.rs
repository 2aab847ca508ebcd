// ---- what lies outside: polling and frames ----

pub struct Infallible;
pub enum Poll<T> { Ready(T), Pending }
pub struct SizeHint { pub lower: u64, pub upper: Option<u64> }
impl SizeHint {
    fn with_exact(n: u64) -> (r: Self) ensures r.lower == n, r.upper == Some(n) { SizeHint { lower: n, upper: Some(n) } }
    fn new() -> (r: Self) ensures r.lower == 0, r.upper is None { SizeHint { lower: 0, upper: None } }
    fn default() -> (r: Self) ensures r.lower == 0, r.upper is None { SizeHint { lower: 0, upper: None } }
    fn set_lower(&mut self, n: u64) ensures final(self).lower == n, final(self).upper == old(self).upper { self.lower = n; }
    fn set_upper(&mut self, n: u64) ensures final(self).upper == Some(n), final(self).lower == old(self).lower { self.upper = Some(n); }
    fn set_exact(&mut self, n: u64) ensures final(self).lower == n, final(self).upper == Some(n) { self.lower = n; self.upper = Some(n); }
}
pub struct HeaderMap;
pub enum Frame<T> { Data(T), Trailers(HeaderMap) }
impl<T> Frame<T> {
    fn data(x: T) -> (r: Self) ensures r == Frame::Data(x) { Frame::Data(x) }
}

// ---- what polling answers ----

pub open spec fn exact(h: SizeHint, n: int) -> bool { h.lower == n && h.upper == Some(h.lower) }
/// A step of polling: a frame of the first bytes (neither empty nor too long), or the end when nothing is left.
pub open spec fn step(was: Seq<u8>, frame: Option<Seq<u8>>, left: Seq<u8>) -> bool {
    match frame {
        None => was.len() == 0 && left.len() == 0,
        Some(f) => 0 < f.len() <= 0xFFFF && was =~= f + left,
    }
}
impl<T> Frame<T> {
    pub open spec fn of(&self) -> Option<T> { match self { Frame::Data(x) => Some(*x), _ => None } }
}
/// A whole history of polling: `left[i]` is what is left after i frames.
pub open spec fn polled(f: Seq<Seq<u8>>, left: Seq<Seq<u8>>) -> bool {
    left.len() == f.len() + 1 && forall|i: int| #![trigger f[i]] 0 <= i < f.len() ==> step(left[i], Some(f[i]), left[i + 1])
}
pub open spec fn all_of(v: Seq<Seq<u8>>) -> Seq<u8>
    decreases v.len()
{
    if v.len() == 0 { Seq::empty() } else { all_of(v.drop_last()) + v.last() }
}
/// By steps: the frames so far and what is left are the bytes; there are never more frames than bytes; at the end the frames are the bytes, and the end stays.
proof fn delivers(f: Seq<Seq<u8>>, left: Seq<Seq<u8>>)
    requires polled(f, left)
    ensures
        all_of(f) + left.last() =~= left[0], f.len() + left.last().len() <= left[0].len(),
        forall|x: Option<Seq<u8>>, rest: Seq<u8>| #[trigger] step(left.last(), x, rest) ==> (x is None <==> all_of(f) == left[0]) && (x is None ==> rest == left.last()),
    decreases f.len()
{
    if f.len() > 0 {
        let g = f.drop_last();
        let l = left.drop_last();
        assert(polled(g, l)) by {
            assert forall|i: int| #![trigger g[i]] 0 <= i < g.len() implies step(l[i], Some(g[i]), l[i + 1]) by { assert(f[i] == g[i]); }
        }
        delivers(g, l);
        assert(step(left[f.len() - 1], Some(f[f.len() - 1]), left[f.len() as int]));
        assert(l.last() =~= f.last() + left.last());
        assert(all_of(f) + left.last() =~= all_of(g) + (f.last() + left.last()));
    }
    assert(all_of(f).len() + left.last().len() == left[0].len());
    assert forall|x: Option<Seq<u8>>, rest: Seq<u8>| #[trigger] step(left.last(), x, rest) implies (x is None <==> all_of(f) == left[0]) && (x is None ==> rest == left.last()) by {
        if x is None { assert(all_of(f) =~= left[0]); assert(rest =~= left.last()); }
    }
}

