//@props P10
//@title splitting a queue on a separator
use vstd::prelude::*;

verus! {

//@uses queue.rs

// ---- splitting on a separator ----

//@item queue/split.rs struct SplitOn

/// The first place from `from` on where n stands.
pub open spec fn first_at(h: Seq<u8>, n: Seq<u8>, from: int) -> Option<int>
    decreases h.len() - from
{
    if from + n.len() > h.len() { None } else if at(h, n, from) { Some(from) } else { first_at(h, n, from + 1) }
}
/// The pieces of h from `from` on, at most `max` of them (0: no limit).
pub open spec fn pieces(h: Seq<u8>, n: Seq<u8>, from: int, max: int) -> Seq<Seq<u8>>
    decreases h.len() - from
{
    match first_at(h, n, from) {
        Some(p) => if n.len() > 0 && from <= p && p + n.len() <= h.len() && max != 1 {
            seq![h.subrange(from, p)] + pieces(h, n, p + n.len(), if max == 0 { 0 } else { max - 1 })
        } else { seq![h.skip(from)] },
        None => seq![h.skip(from)],
    }
}
pub open spec fn joined(v: Seq<Seq<u8>>, n: Seq<u8>) -> Seq<u8>
    decreases v.len()
{
    if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { v[0] + n + joined(v.skip(1), n) }
}
proof fn first_at_is(h: Seq<u8>, n: Seq<u8>, from: int)
    requires 0 <= from
    ensures match first_at(h, n, from) {
        Some(p) => from <= p && at(h, n, p) && none(h, n, from, p),
        None => never(h, n, from),
    }
    decreases h.len() - from
{
    if from + n.len() <= h.len() && !at(h, n, from) { first_at_is(h, n, from + 1); }
}
/// A search that answers with the first place answers with `first_at`.
proof fn found_first(q: &ByteQueue, n: Seq<u8>, from: int, r: Option<(usize, usize, usize)>)
    requires found(q, n, from, r), from >= 0
    ensures match r { Some((p, _, _)) => first_at(q@, n, from) == Some(p as int), None => first_at(q@, n, from) is None }
{
    first_at_is(q@, n, from);
}
/// The pieces joined by the separator are the whole, and no piece holds the separator unless the limit ends the splitting.
proof fn pieces_join(h: Seq<u8>, n: Seq<u8>, from: int, max: int)
    requires 0 <= from <= h.len(), max >= 0
    ensures joined(pieces(h, n, from, max), n) =~= h.skip(from), pieces(h, n, from, max).len() > 0, max > 0 ==> pieces(h, n, from, max).len() <= max
    decreases h.len() - from
{
    first_at_is(h, n, from);
    match first_at(h, n, from) {
        Some(p) => if n.len() > 0 && max != 1 {
            let m = if max == 0 { 0 } else { max - 1 };
            pieces_join(h, n, p + n.len(), m);
            let v = pieces(h, n, from, max);
            assert(v.skip(1) =~= pieces(h, n, p + n.len(), m));
            assert(h.subrange(p, p + n.len()) =~= n);
            assert(h.skip(from) =~= h.subrange(from, p) + n + h.skip(p + n.len()));
        },
        None => {},
    }
}

impl<'a, 'b> SplitOn<'a, 'b> {
    pub open spec fn wf(&self) -> bool {
        self.queue.wf() && self.start_chunk <= self.queue.queue@.len()
            && self.start_byte == flat(self.queue.queue@.take(self.start_chunk as int)).len() + self.start_offset && self.start_byte <= self.queue@.len()
    }
    /// Splitting a text on a text.
    pub open spec fn texty(&self) -> bool { texts(self.queue.queue@) && valid(self.needle@) && bnd(self.queue@, self.start_byte as int) }
    /// What it still yields.
    pub open spec fn left(&self) -> Seq<Seq<u8>> {
        if self.done { Seq::empty() } else { pieces(self.queue@, self.needle@, self.start_byte as int, self.max as int) }
    }

//@fn queue/split.rs SplitOn::new
//@prop P10
//@ret r
//@spec
    requires queue.wf()
    ensures r.wf(), r.queue == queue, r.needle == needle, r.start_byte == 0, r.left() == (if queue@.len() == 0 { Seq::empty() } else { pieces(queue@, needle@, 0, max as int) })
//@at start
    proof { assert(queue.queue@.take(0) =~= Seq::<Seq<u8>>::empty()); }
//@end

//@fn queue/split.rs <SplitOn as Iterator>::next
//@prop P10
//@ret r
//@drop inner
//@sig Self :: Item => ByteQueue<'a>
//@sub inner ( self ) => split_next(self)
//@sub self . start_byte == self . queue . len ( ) => ({ proof { first_at_is(self.queue@, self.needle@, self.start_byte as int); at_end(self.queue@, self.needle@); } self.start_byte == self.queue.len() })
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).queue == old(self).queue, final(self).needle == old(self).needle, match r {
        None => old(self).left().len() == 0 && final(self).left() == old(self).left(),
        Some(x) => x.wf() && old(self).left().len() > 0 && x@ == old(self).left()[0] && final(self).left() =~= old(self).left().skip(1),
    },
        old(self).texty() ==> final(self).texty() && (r matches Some(x) ==> texts(x.queue@))
//@end

//@fn queue/split.rs <SplitOn as Iterator>::size_hint
//@prop P10
//@ret r
//@spec
    requires self.wf()
    ensures r.0 <= self.left().len(), match r.1 { Some(n) => self.left().len() <= n, None => true }
//@at start
    proof { pieces_join(self.queue@, self.needle@, self.start_byte as int, self.max as int); }
//@end
}
proof fn at_end(h: Seq<u8>, n: Seq<u8>)
    ensures n.len() > 0 ==> first_at(h, n, h.len() as int) is None, h.skip(h.len() as int) =~= Seq::<u8>::empty(), pieces(h, n, h.len() as int, 0).len() == 1
{ }

//@fn queue/split.rs <SplitOn as Iterator>::next/inner as split_next
//@prop P10
//@ret r
//@sub let new_q = => proof { found_first(this.queue, this.needle@, this.start_byte as int, val); if this.texty() && this.needle@.len() > 0 { texts_first(this.queue.queue@); needle_bnd(this.queue@, this.needle@, first_at(this.queue@, this.needle@, this.start_byte as int)->0); } } let new_q =
//@sub this . done = true => this.done = true; proof { if this.needle@.len() > 0 { found_first(this.queue, this.needle@, this.start_byte as int, val); } }
//@spec
    requires old(this).wf(), !old(this).done, old(this).max != 1, old(this).start_byte < old(this).queue@.len()
    ensures final(this).wf(), final(this).queue == old(this).queue, final(this).needle == old(this).needle,
        r.wf(), old(this).left().len() > 0, r@ == old(this).left()[0], final(this).left() =~= old(this).left().skip(1),
        old(this).texty() ==> final(this).texty() && texts(r.queue@)
//@end


} // verus!
fn main() {}
