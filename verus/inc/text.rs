// ---- texts ----

/// Well-formed UTF-8.
pub open spec fn valid(s: Seq<u8>) -> bool
    decreases s.len()
{
    s.len() == 0 || (width(s) > 0 && valid(s.skip(width(s))))
}
/// A text may be cut at i: no continuation byte follows.
pub open spec fn bnd(s: Seq<u8>, i: int) -> bool { 0 <= i <= s.len() && (i < s.len() ==> !cont(s[i])) }

proof fn width_prefix(s: Seq<u8>, i: int)
    requires 0 <= width(s) <= i <= s.len(), width(s) > 0
    ensures width(s.take(i)) == width(s), value(s.take(i)) == value(s)
{ }
proof fn valid_cut(s: Seq<u8>, i: int)
    requires valid(s), bnd(s, i)
    ensures valid(s.take(i)), valid(s.skip(i))
    decreases s.len()
{
    if i == 0 {
        assert(s.skip(0) =~= s);
    } else {
        let w = width(s);
        if i < w { assert(cont(s[i])); }
        width_prefix(s, i);
        valid_cut(s.skip(w), i - w);
        assert(s.take(i).skip(w) =~= s.skip(w).take(i - w));
        assert(s.skip(i) =~= s.skip(w).skip(i - w));
    }
}
proof fn valid_between(s: Seq<u8>, i: int, j: int)
    requires valid(s), bnd(s, i), bnd(s, j), i <= j
    ensures valid(s.subrange(i, j))
{
    valid_cut(s, j);
    valid_cut(s.take(j), i);
    assert(s.take(j).skip(i) =~= s.subrange(i, j));
}
proof fn valid_join(a: Seq<u8>, b: Seq<u8>)
    requires valid(a), valid(b)
    ensures valid(a + b)
    decreases a.len()
{
    if a.len() == 0 {
        assert(a + b =~= b);
    } else {
        let w = width(a);
        assert((a + b).take(a.len() as int) =~= a);
        assert(width(a + b) == w);
        valid_join(a.skip(w), b);
        assert((a + b).skip(w) =~= a.skip(w) + b);
    }
}
proof fn valid_first(s: Seq<u8>)
    requires valid(s)
    ensures s.len() > 0 ==> !cont(s[0]), bnd(s, 0)
{ }
proof fn needle_end(y: Seq<u8>, n: Seq<u8>)
    requires valid(y), valid(n), n.len() <= y.len(), n =~= y.take(n.len() as int)
    ensures bnd(y, n.len() as int)
    decreases n.len()
{
    if n.len() == 0 {
        valid_first(y);
    } else {
        assert(forall|j: int| 0 <= j < n.len() ==> n[j] == y[j]);
        let w = width(n);
        assert(width(y) == w);
        assert(n.skip(w) =~= y.skip(w).take(n.len() - w));
        needle_end(y.skip(w), n.skip(w));
    }
}
/// Where a text stands in a text, the text may be cut before and behind it.
proof fn needle_bnd(h: Seq<u8>, n: Seq<u8>, p: int)
    requires valid(h), valid(n), n.len() > 0, at(h, n, p)
    ensures bnd(h, p), bnd(h, p + n.len())
{
    assert(h.subrange(p, p + n.len())[0] == h[p]);
    valid_first(n);
    valid_cut(h, p);
    assert(n =~= h.skip(p).take(n.len() as int));
    needle_end(h.skip(p), n);
    if p + n.len() < h.len() { assert(h.skip(p)[n.len() as int] == h[p + n.len()]); }
}
