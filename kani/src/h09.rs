//! P09: the ring of slots and the list of blocks, from every well-formed state.
//!
//! A chunk is stood for by one unconstrained non-zero byte; the ring and the list only move chunks.
use crate::util::*;
use bytedata::queue::verif::{Block, List, Ring};
use bytedata::ByteData;
use core::mem::ManuallyDrop;

const S: usize = 15;

fn item(x: u8) -> ByteData<'static> {
    ByteData::from_byte(x)
}
/// Which one-byte chunk this is, told by its representation.
fn id(d: &ByteData<'static>) -> u8 {
    // SAFETY: of the same size, and every byte of a chunk stored in place is initialised
    let raw: [u8; 16] = unsafe { core::mem::transmute_copy(d) };
    let one: [u8; 16] = unsafe { core::mem::transmute(ManuallyDrop::new(item(raw[1]))) };
    assert!(u128::from_ne_bytes(raw) == u128::from_ne_bytes(one), "a chunk arrives whole");
    raw[1]
}

/// The abstract value of a ring: its chunks in order.
struct Model {
    ids: [u8; S],
    len: usize,
    beg: u8,
}
fn any_ring(min: u8) -> (ManuallyDrop<Ring<'static>>, Model) {
    let ids: [u8; S] = kani::any();
    let (beg, len): (u8, u8) = (kani::any(), kani::any());
    kani::assume((beg as usize) < S && len as usize <= S && len >= min);
    let r = Ring::new(beg, len, |p| item(ids[p]));
    (ManuallyDrop::new(r), Model { ids, len: len as usize, beg })
}
fn at(r: &Ring<'static>, pos: usize) -> u8 {
    let i = r.beg() + pos;
    id(r.slot(if i >= S { i - S } else { i }))
}
/// The ring is well formed and holds exactly `len` chunks, the one at every position given by `f`.
fn holds(r: &Ring<'static>, len: usize, f: impl Fn(usize) -> u8) {
    assert!(r.slots() == S && r.beg() < S && r.len() == len, "shape of the ring");
    let k: usize = kani::any();
    if k < len {
        assert!(at(r, k) == f(k), "chunk at every position");
    }
}
/// As `holds`, with the chunks of the model.
fn unchanged(r: &Ring<'static>, m: &Model) {
    holds(r, m.len, |k| m.ids[k]);
}

//@ p09_ring_push_back | complete | LinkedNodeData::push_back | from every ring state: appends, or refuses exactly when full and gives the chunk back
#[kani::proof]
#[kani::unwind(17)]
fn p09_ring_push_back() {
    let (mut r, m) = any_ring(0);
    let x: u8 = kani::any();
    match r.push_back(item(x)) {
        Ok(()) => {
            assert!(m.len < S);
            holds(&r, m.len + 1, |k| if k == m.len { x } else { m.ids[k] });
        }
        Err(d) => {
            assert!(m.len == S && id(&ManuallyDrop::new(d)) == x);
            unchanged(&r, &m);
        }
    }
    kani::cover!(m.len == S);
    kani::cover!(m.beg == 14 && m.len == 14);
}

//@ p09_ring_push_front | complete | LinkedNodeData::push_front | from every ring state: prepends, or refuses exactly when full and gives the chunk back
#[kani::proof]
#[kani::unwind(17)]
fn p09_ring_push_front() {
    let (mut r, m) = any_ring(0);
    let x: u8 = kani::any();
    match r.push_front(item(x)) {
        Ok(()) => {
            assert!(m.len < S);
            holds(&r, m.len + 1, |k| if k == 0 { x } else { m.ids[k - 1] });
        }
        Err(d) => {
            assert!(m.len == S && id(&ManuallyDrop::new(d)) == x);
            unchanged(&r, &m);
        }
    }
    kani::cover!(m.beg == 0);
}

//@ p09_ring_pop | complete | LinkedNodeData::pop_front, LinkedNodeData::pop_back | from every ring state: takes the chunk at that end, nothing exactly when empty
#[kani::proof]
#[kani::unwind(17)]
fn p09_ring_pop() {
    let (mut r, m) = any_ring(0);
    if kani::any() {
        match ManuallyDrop::new(r.pop_front()).as_ref() {
            Some(d) => {
                assert!(m.len > 0 && id(d) == m.ids[0]);
                holds(&r, m.len - 1, |k| m.ids[k + 1]);
            }
            None => {
                assert!(m.len == 0);
                unchanged(&r, &m);
            }
        }
    } else {
        match ManuallyDrop::new(r.pop_back()).as_ref() {
            Some(d) => {
                assert!(m.len > 0 && id(d) == m.ids[m.len - 1]);
                holds(&r, m.len - 1, |k| m.ids[k]);
            }
            None => {
                assert!(m.len == 0);
                unchanged(&r, &m);
            }
        }
    }
    kani::cover!(m.len == 0);
    kani::cover!(m.beg == 14 && m.len == 2);
}

//@ p09_ring_ends | complete | LinkedNodeData::front, LinkedNodeData::back | from every ring state: the chunk at that end, nothing exactly when empty
#[kani::proof]
#[kani::unwind(17)]
fn p09_ring_ends() {
    let (r, m) = any_ring(0);
    match (r.front(), r.back()) {
        (Some(a), Some(b)) => assert!(m.len > 0 && id(a) == m.ids[0] && id(b) == m.ids[m.len - 1]),
        (None, None) => assert!(m.len == 0),
        _ => panic!("one end only"),
    }
    unchanged(&r, &m);
}

// ---- the list of blocks ----
//
// Invariant: blocks are linked both ways from `first` to `last`; every ring is well formed and, unless
// it is the only one, not empty; the count is the number of chunks in the chamber and the rings.
// Abstract value: the chamber (if occupied) followed by the rings in order.
//
// Shapes: 0 to 3 blocks, and four or more, where the blocks between the second and the last but one
// stand behind addresses that must not be followed: an operation that touched one of them would fail
// its memory-safety obligations, so what is proved for this shape holds for lists of every length.

/// Dropping a chunk: what it releases is decided elsewhere (P03, P05, P15), here only where chunks go matters.
fn no_drop<'a>(_: &mut ByteData<'a>)
where
    'a: 'a,
{
}

/// First slot and number of chunks of the rings, if not arbitrary.
type Rings = Option<[(u8, u8); 4]>;

fn ring(beg: u8, len: u8) -> (ManuallyDrop<Ring<'static>>, Model) {
    let ids: [u8; S] = kani::any();
    let r = Ring::new(beg, len, |p| item(ids[p]));
    (ManuallyDrop::new(r), Model { ids, len: len as usize, beg })
}

struct Lst {
    chamber: u8,
    n: usize,
    open: bool,
    blocks: [Block<'static>; 4],
    models: [Model; 4],
    hidden: usize,
    count: usize,
}

fn model() -> Model {
    Model { ids: [0; S], len: 0, beg: 0 }
}

/// An arbitrary list with `n` known blocks; `open` hides an arbitrary number of further ones in the middle.
fn any_list(n: usize, open: bool, rings: Rings) -> (List<'static>, Lst) {
    let chamber: u8 = kani::any();
    let mut l = Lst {
        chamber,
        n,
        open,
        blocks: [Block::NULL; 4],
        models: [model(), model(), model(), model()],
        hidden: if open { kani::any() } else { 0 },
        count: 0,
    };
    kani::assume(l.hidden <= usize::MAX / 32);
    l.count = l.hidden + (chamber != 0) as usize;
    let mut i = 0;
    while i < n {
        let (r, m) = match rings {
            Some(c) => ring(c[i].0, c[i].1),
            None => any_ring(if n == 1 { 0 } else { 1 }),
        };
        l.blocks[i] = Block::new(ManuallyDrop::into_inner(r));
        l.count += m.len;
        l.models[i] = m;
        i += 1;
    }
    let mut i = 0;
    while i < n {
        let mut prev = if i == 0 { Block::NULL } else { l.blocks[i - 1] };
        let mut next = if i + 1 == n { Block::NULL } else { l.blocks[i + 1] };
        if open && i == 1 {
            next = Block::forbidden();
        }
        if open && i == 2 {
            prev = Block::forbidden();
        }
        l.blocks[i].set(prev, next);
        i += 1;
    }
    let c = if chamber == 0 { ByteData::empty() } else { item(chamber) };
    let (f, b) = if n == 0 { (Block::NULL, Block::NULL) } else { (l.blocks[0], l.blocks[n - 1]) };
    (List::from_parts(c, f, b, l.count), l)
}

impl Lst {
    /// Number of chunks before the hidden part (all of them when nothing is hidden).
    fn front_len(&self) -> usize {
        if self.open {
            (self.chamber != 0) as usize + self.models[0].len + self.models[1].len
        } else {
            self.count
        }
    }
    /// Chunk `k` counted from the front, `k < front_len()`.
    fn front_at(&self, mut k: usize) -> u8 {
        if self.chamber != 0 {
            if k == 0 {
                return self.chamber;
            }
            k -= 1;
        }
        let known = if self.open { 2 } else { self.n };
        let mut i = 0;
        while i < known {
            if k < self.models[i].len {
                return self.models[i].ids[k];
            }
            k -= self.models[i].len;
            i += 1;
        }
        unreachable!()
    }
    /// Number of chunks behind the hidden part.
    fn back_len(&self) -> usize {
        if self.open { self.models[2].len + self.models[3].len } else { self.count }
    }
    /// Chunk `k` counted from the back, `k < back_len()`.
    fn back_at(&self, mut k: usize) -> u8 {
        let known = if self.open { 2 } else { self.n };
        let mut i = 0;
        while i < known {
            let m = &self.models[self.n - 1 - i];
            if k < m.len {
                return m.ids[m.len - 1 - k];
            }
            k -= m.len;
            i += 1;
        }
        assert!(!self.open && k == 0);
        self.chamber
    }
}

/// The list is well formed with `count` chunks and its chunks from the front are `len` many given by `f`.
fn front_is(l: &List<'static>, old: &Lst, count: usize, len: usize, f: impl Fn(usize) -> u8) {
    assert!(l.count() == count, "chunk count");
    let c = l.chamber();
    let mut seen = 0;
    let k: usize = kani::any();
    if !c.is_empty() {
        if k == 0 && len > 0 {
            assert!(id(c) == f(0), "chunk from the front");
        }
        seen = 1;
    }
    let mut b = l.first();
    let mut prev = Block::NULL;
    let mut blocks = 0;
    while !b.is_null() && !(old.open && prev == old.blocks[1]) {
        let r = b.ring();
        assert!(b.prev() == prev, "backward link");
        assert!(r.beg() < S && r.len() <= S, "ring in bounds");
        assert!(r.len() > 0 || (prev.is_null() && b.next().is_null()), "only a lone block is empty");
        if k >= seen && k - seen < r.len() {
            assert!(k < len && at(r, k - seen) == f(k), "chunk from the front");
        }
        seen += r.len();
        blocks += 1;
        assert!(blocks <= if old.open { 3 } else { old.n + 1 }, "number of blocks");
        prev = b;
        b = b.next();
    }
    if old.open {
        assert!(prev == old.blocks[1] && b == Block::forbidden(), "the hidden part stays where it is");
    } else {
        assert!(l.last() == prev, "last block");
        assert!(count == len);
    }
    assert!(seen == len, "number of chunks from the front");
}

/// For an open list: its chunks from the back up to the hidden part are `len` many given by `f`.
fn back_is(l: &List<'static>, old: &Lst, len: usize, f: impl Fn(usize) -> u8) {
    if !old.open {
        return;
    }
    let k: usize = kani::any();
    let mut seen = 0;
    let mut b = l.last();
    let mut next = Block::NULL;
    let mut blocks = 0;
    while next != old.blocks[2] {
        let r = b.ring();
        assert!(b.next() == next, "forward link");
        assert!(r.beg() < S && r.len() <= S && r.len() > 0, "ring in bounds and not empty");
        if k >= seen && k - seen < r.len() {
            assert!(k < len && at(r, r.len() - 1 - (k - seen)) == f(k), "chunk from the back");
        }
        seen += r.len();
        blocks += 1;
        assert!(blocks <= if old.open { 3 } else { old.n + 1 }, "number of blocks");
        next = b;
        b = b.prev();
    }
    assert!(b == Block::forbidden(), "the hidden part stays where it is");
    assert!(seen == len, "number of chunks from the back");
}

fn push_back(n: usize, open: bool, rings: Rings) {
    let (l, o) = any_list(n, open, rings);
    let mut l = ManuallyDrop::new(l);
    let x: u8 = kani::any();
    if x == 0 {
        l.push_back(ByteData::empty());
        front_is(&l, &o, o.count, o.front_len(), |k| o.front_at(k));
        back_is(&l, &o, o.back_len(), |k| o.back_at(k));
        return;
    }
    l.push_back(item(x));
    let fl = o.front_len() + !open as usize;
    front_is(&l, &o, o.count + 1, fl, |k| if !open && k == o.count { x } else { o.front_at(k) });
    back_is(&l, &o, o.back_len() + 1, |k| if k == 0 { x } else { o.back_at(k - 1) });
}
fn push_front(n: usize, open: bool, rings: Rings) {
    let (l, o) = any_list(n, open, rings);
    let mut l = ManuallyDrop::new(l);
    let x: u8 = kani::any();
    if x == 0 {
        l.push_front(ByteData::empty());
        front_is(&l, &o, o.count, o.front_len(), |k| o.front_at(k));
        return;
    }
    l.push_front(item(x));
    front_is(&l, &o, o.count + 1, o.front_len() + 1, |k| if k == 0 { x } else { o.front_at(k - 1) });
    back_is(&l, &o, o.back_len(), |k| o.back_at(k));
}
fn pop_front(n: usize, open: bool, rings: Rings) {
    let (l, o) = any_list(n, open, rings);
    let mut l = ManuallyDrop::new(l);
    match ManuallyDrop::new(l.pop_front()).as_ref() {
        Some(d) => {
            assert!(o.count > 0 && id(d) == o.front_at(0), "the first chunk");
            front_is(&l, &o, o.count - 1, o.front_len() - 1, |k| o.front_at(k + 1));
        }
        None => {
            assert!(o.count == 0);
            front_is(&l, &o, 0, 0, |_| 0);
        }
    }
    back_is(&l, &o, o.back_len(), |k| o.back_at(k));
}
fn pop_back(n: usize, open: bool, rings: Rings) {
    let (l, o) = any_list(n, open, rings);
    let mut l = ManuallyDrop::new(l);
    match ManuallyDrop::new(l.pop_back()).as_ref() {
        Some(d) => {
            assert!(o.count > 0 && id(d) == o.back_at(0), "the last chunk");
            let fl = o.front_len() - !open as usize;
            front_is(&l, &o, o.count - 1, fl, |k| o.front_at(k));
        }
        None => {
            assert!(o.count == 0);
            front_is(&l, &o, 0, 0, |_| 0);
        }
    }
    if o.count > 0 {
        back_is(&l, &o, o.back_len() - 1, |k| o.back_at(k + 1));
    }
}
fn ends(n: usize, open: bool, rings: Rings) {
    let (l, o) = any_list(n, open, rings);
    let l = ManuallyDrop::new(l);
    match (l.front(), l.back()) {
        (Some(a), Some(b)) => assert!(o.count > 0 && id(a) == o.front_at(0) && id(b) == o.back_at(0)),
        (None, None) => assert!(o.count == 0),
        _ => panic!("one end only"),
    }
}

macro_rules! shapes {
    ($f:ident: $a:ident $b:ident $c:ident $d:ident) => {
        #[kani::proof]
        #[kani::unwind(17)]
        #[kani::stub(<bytedata::ByteData<'static> as core::ops::Drop>::drop, no_drop)]
        fn $a() {
            $f(0, false, None)
        }
        #[kani::proof]
        #[kani::unwind(17)]
        #[kani::stub(<bytedata::ByteData<'static> as core::ops::Drop>::drop, no_drop)]
        fn $b() {
            $f(1, false, None)
        }
        #[kani::proof]
        #[kani::unwind(17)]
        #[kani::stub(<bytedata::ByteData<'static> as core::ops::Drop>::drop, no_drop)]
        fn $c() {
            $f(2, false, None)
        }
        #[kani::proof]
        #[kani::unwind(17)]
        #[kani::stub(<bytedata::ByteData<'static> as core::ops::Drop>::drop, no_drop)]
        fn $d() {
            $f(4, true, None)
        }
    };
}
//@ p09_list_push_back_0 | complete | LinkedRoot::push_back (no block) | appends one chunk, an empty one is dropped; invariant kept
//@ p09_list_push_back_1 | complete | LinkedRoot::push_back (one block) | appends one chunk, an empty one is dropped; invariant kept
//@ p09_list_push_back_2 | complete | LinkedRoot::push_back (two blocks) | appends one chunk, an empty one is dropped; invariant kept
//@ p09_list_push_back_4 | complete | LinkedRoot::push_back (any number of blocks from four) | appends one chunk, an empty one is dropped; invariant kept, inner blocks untouched
shapes!(push_back: p09_list_push_back_0 p09_list_push_back_1 p09_list_push_back_2 p09_list_push_back_4);
//@ p09_list_push_front_0 | complete | LinkedRoot::push_front (no block) | prepends one chunk, an empty one is dropped; invariant kept
//@ p09_list_push_front_1 | complete | LinkedRoot::push_front (one block) | prepends one chunk, an empty one is dropped; invariant kept
//@ p09_list_push_front_2 | complete | LinkedRoot::push_front (two blocks) | prepends one chunk, an empty one is dropped; invariant kept
//@ p09_list_push_front_4 | complete | LinkedRoot::push_front (any number of blocks from four) | prepends one chunk, an empty one is dropped; invariant kept, inner blocks untouched
shapes!(push_front: p09_list_push_front_0 p09_list_push_front_1 p09_list_push_front_2 p09_list_push_front_4);
//@ p09_list_pop_front_0 | complete | LinkedRoot::pop_front (no block) | takes the first chunk, nothing exactly when empty; invariant kept
//@ p09_list_pop_front_1 | complete | LinkedRoot::pop_front (one block) | takes the first chunk, nothing exactly when empty; invariant kept
//@ p09_list_pop_front_2 | complete | LinkedRoot::pop_front (two blocks) | takes the first chunk, nothing exactly when empty; invariant kept
//@ p09_list_pop_front_4 | complete | LinkedRoot::pop_front (any number of blocks from four) | takes the first chunk, nothing exactly when empty; invariant kept, inner blocks untouched
shapes!(pop_front: p09_list_pop_front_0 p09_list_pop_front_1 p09_list_pop_front_2 p09_list_pop_front_4);
//@ p09_list_pop_back_0 | complete | LinkedRoot::pop_back (no block) | takes the last chunk, nothing exactly when empty; invariant kept
//@ p09_list_pop_back_1 | complete | LinkedRoot::pop_back (one block) | takes the last chunk, nothing exactly when empty; invariant kept
//@ p09_list_pop_back_2 | complete | LinkedRoot::pop_back (two blocks) | takes the last chunk, nothing exactly when empty; invariant kept
//@ p09_list_pop_back_4 | complete | LinkedRoot::pop_back (any number of blocks from four) | takes the last chunk, nothing exactly when empty; invariant kept, inner blocks untouched
shapes!(pop_back: p09_list_pop_back_0 p09_list_pop_back_1 p09_list_pop_back_2 p09_list_pop_back_4);


// ---- joining two lists ----

/// The blocks from `b` on, behind `prev`, up to the end or the hidden part hold `len` chunks given by `f`;
/// gives the last of them. Chunks before position `seen` are elsewhere.
fn walk(mut b: Block<'static>, mut prev: Block<'static>, mut seen: usize, len: usize, most: usize, alone: bool, f: impl Fn(usize) -> u8) -> Block<'static> {
    let k: usize = kani::any();
    let mut blocks = 0;
    while !b.is_null() && b != Block::forbidden() {
        let r = b.ring();
        assert!(b.prev() == prev, "backward link");
        assert!(r.beg() < S && r.len() <= S, "ring in bounds");
        assert!(r.len() > 0 || (alone && prev.is_null() && b.next().is_null()), "only a lone block is empty");
        if k >= seen && k - seen < r.len() {
            assert!(k < len && at(r, k - seen) == f(k), "chunk at every position");
        }
        seen += r.len();
        blocks += 1;
        assert!(blocks <= most, "number of blocks");
        prev = b;
        b = b.next();
    }
    assert!(seen == len, "number of chunks");
    prev
}

fn append(n1: usize, open1: bool, n2: usize, open2: bool) {
    let (l, a) = any_list(n1, open1, None);
    let (other, b) = any_list(n2, open2, None);
    kani::assume(a.hidden <= usize::MAX / 64 && b.hidden <= usize::MAX / 64);
    let mut l = ManuallyDrop::new(l);
    l.append(other);
    assert!(l.count() == a.count + b.count, "chunk count");
    // up to the first hidden part
    let alen = a.front_len();
    let len = if open1 { alen } else { alen + b.front_len() };
    let f = |k: usize| if k < alen { a.front_at(k) } else { b.front_at(k - alen) };
    let c = l.chamber();
    if !c.is_empty() {
        assert!(len > 0 && id(c) == f(0), "chunk at every position");
    }
    let most = if open1 { 2 } else { n1 + 1 + if open2 { 2 } else { n2 } };
    let mut last = walk(l.first(), Block::NULL, !c.is_empty() as usize, len, most, true, f);
    if open1 {
        assert!(last == a.blocks[1]);
        // behind the part hidden in the first list
        let alen = a.back_len();
        let len = alen + b.front_len();
        let f = |k: usize| if k < alen { a.back_at(alen - 1 - k) } else { b.front_at(k - alen) };
        let most = 3 + if open2 { 2 } else { n2 };
        last = walk(a.blocks[2], Block::forbidden(), 0, len, most, false, f);
    }
    if open2 {
        assert!(last == b.blocks[1]);
        let len = b.back_len();
        last = walk(b.blocks[2], Block::forbidden(), 0, len, 2, false, |k| b.back_at(len - 1 - k));
    }
    assert!(l.last() == last, "last block");
}

// What becomes of the blocks of a list that is dropped is decided elsewhere (P15): `no_drop` does nothing.
macro_rules! joined {
    ($($f:ident: $n1:literal $o1:literal $n2:literal $o2:literal;)*) => {$(
        #[kani::proof]
        #[kani::unwind(17)]
        #[kani::stub(<bytedata::ByteData<'static> as core::ops::Drop>::drop, no_drop)]
        #[kani::stub(<bytedata::queue::linked_root::LinkedRoot<'static> as core::ops::Drop>::drop, bytedata::queue::verif::no_drop)]
        fn $f() {
            append($n1, $o1, $n2, $o2)
        }
    )*};
}
//@ p09_append_0_0 | complete | LinkedRoot::append (no block + no block) | the chunks of both in order; invariant kept
//@ p09_append_0_1 | complete | LinkedRoot::append (no block + one block) | the chunks of both in order; invariant kept
//@ p09_append_0_4 | complete | LinkedRoot::append (no block + any number of blocks from four) | the chunks of both in order; invariant kept
//@ p09_append_1_0 | complete | LinkedRoot::append (one block + no block) | the chunks of both in order; invariant kept
//@ p09_append_1_1 | complete | LinkedRoot::append (one block + one block) | the chunks of both in order; invariant kept
//@ p09_append_1_4 | complete | LinkedRoot::append (one block + any number of blocks from four) | the chunks of both in order; invariant kept
//@ p09_append_4_0 | complete | LinkedRoot::append (any number of blocks from four + no block) | the chunks of both in order; invariant kept
//@ p09_append_4_1 | complete | LinkedRoot::append (any number of blocks from four + one block) | the chunks of both in order; invariant kept
//@ p09_append_4_4 | thorough complete | LinkedRoot::append (any number of blocks from four + any number of blocks from four) | the chunks of both in order; invariant kept
joined! {
    p09_append_0_0: 0 false 0 false;
    p09_append_0_1: 0 false 1 false;
    p09_append_0_4: 0 false 4 true;
    p09_append_1_0: 1 false 0 false;
    p09_append_1_1: 1 false 1 false;
    p09_append_1_4: 1 false 4 true;
    p09_append_4_0: 4 true 0 false;
    p09_append_4_1: 4 true 1 false;
    p09_append_4_4: 4 true 4 true;
}
