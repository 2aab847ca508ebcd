// ---- what lies outside: the allocator and the memory of one block ----

pub open spec fn pow2(n: usize) -> bool { n != 0 && n & ((n - 1) as usize) == 0 }

#[derive(Clone, Copy)]
pub struct Layout { pub size: usize, pub align: usize }
pub open spec fn layout_ok(size: usize, align: usize) -> bool { pow2(align) && size <= isize::MAX - (align - 1) }
/// `Layout::from_size_align(..).unwrap()`: a panic otherwise.
#[verifier::external_body]
const fn v_layout(size: usize, align: usize) -> (r: Layout)
    requires layout_ok(size, align)
    ensures r == (Layout { size, align })
{ unimplemented!() }

/// A block of memory: `None` stands for a byte nobody wrote yet.
pub ghost struct Mem {
    pub id: int,
    pub live: bool,
    pub layout: Layout,
    pub meta: Option<SharedBytesMeta>,
    pub bytes: Seq<Option<u8>>,
}
pub open spec fn block(m: Mem) -> bool { m.live && layout_ok(m.layout.size, m.layout.align) && m.bytes.len() == m.layout.size && m.layout.size > 0 }
pub open spec fn written(m: Mem, a: int, b: int) -> bool { forall|i: int| #![trigger m.bytes[i]] a <= i < b ==> m.bytes[i] is Some }
pub open spec fn cells(m: Mem, a: int, b: int) -> Seq<u8>
    recommends 0 <= a <= b <= m.bytes.len(), written(m, a, b)
{ Seq::new((b - a) as nat, |i: int| m.bytes[a + i]->0) }

/// A pointer into the block `id`, `o` bytes from its start.
#[derive(Clone, Copy)]
pub struct At { pub id: Ghost<int>, pub o: usize }
impl At {
    const fn v_add(self, n: usize) -> (r: At)
        requires self.o + n <= usize::MAX
        ensures r.id == self.id, r.o == self.o + n
    { At { id: self.id, o: self.o + n } }
}

/// The pointer to an allocated block, with the right to use it.
#[verifier::external_body]
pub struct Heap { p: *mut u8 }
impl Heap {
    pub uninterp spec fn v(&self) -> Mem;
    pub uninterp spec fn null(&self) -> bool;

    #[verifier::external_body]
    const fn v_null() -> (r: Heap)
        ensures r.null(), !r.v().live
    { unimplemented!() }

    #[verifier::external_body]
    fn v_alloc(l: Layout) -> (r: Heap)
        requires l.size > 0, layout_ok(l.size, l.align)
        ensures
            r.null() ==> !r.v().live,
            !r.null() ==> block(r.v()) && r.v().layout == l,
    { unimplemented!() }

    #[verifier::external_body]
    fn v_realloc(&mut self, l: Layout, n: usize) -> (r: Heap)
        requires block(old(self).v()), l == old(self).v().layout, n > 0, layout_ok(n, l.align)
        ensures
            r.null() ==> !r.v().live && *final(self) == *old(self),
            !r.null() ==> block(r.v()) && r.v().layout == (Layout { size: n, align: l.align }) && !final(self).v().live
                && (forall|i: int| #![trigger r.v().bytes[i]] 0 <= i < l.size && i < n ==> r.v().bytes[i] == old(self).v().bytes[i]),
    { unimplemented!() }

    /// Frees the block: with the layout it was allocated with, and only once.
    #[verifier::external_body]
    fn v_dealloc(&mut self, l: Layout)
        requires block(old(self).v()), l == old(self).v().layout
        ensures !final(self).v().live, final(self).null() == old(self).null()
    { unimplemented!() }

    /// Replaces the pointer: the block it stood for must be gone (else it leaks).
    #[verifier::external_body]
    fn v_set(&mut self, to: Heap)
        requires !old(self).v().live
        ensures *final(self) == to
    { unimplemented!() }

    /// Takes the block over; the pointer left behind must not be used.
    #[verifier::external_body]
    fn v_take(&mut self) -> (r: Heap)
        ensures r == *old(self), !final(self).v().live
    { unimplemented!() }

    #[verifier::external_body]
    const fn is_null(&self) -> (r: bool)
        ensures r == self.null()
    { unimplemented!() }

    #[verifier::external_body]
    const fn v_add(&self, n: usize) -> (r: At)
        requires block(self.v()), n <= self.v().layout.size
        ensures r.id@ == self.v().id, r.o == n
    { unimplemented!() }

    /// `copy_nonoverlapping` from a slice.
    #[verifier::external_body]
    fn v_write(&mut self, to: At, from: &[u8], n: usize)
        requires block(old(self).v()), to.id@ == old(self).v().id, to.o >= 12, to.o + n <= old(self).v().layout.size, n <= from@.len()
        ensures
            final(self).v() == (Mem { bytes: final(self).v().bytes, ..old(self).v() }), final(self).null() == old(self).null(),
            final(self).v().bytes =~= Seq::new(old(self).v().bytes.len(), |i: int| if to.o <= i < to.o + n { Some(from@[i - to.o]) } else { old(self).v().bytes[i] }),
    { unimplemented!() }

    /// `write_bytes`.
    #[verifier::external_body]
    fn v_fill(&mut self, to: At, b: u8, n: usize)
        requires block(old(self).v()), to.id@ == old(self).v().id, to.o >= 12, to.o + n <= old(self).v().layout.size
        ensures
            final(self).v() == (Mem { bytes: final(self).v().bytes, ..old(self).v() }), final(self).null() == old(self).null(),
            final(self).v().bytes =~= Seq::new(old(self).v().bytes.len(), |i: int| if to.o <= i < to.o + n { Some(b) } else { old(self).v().bytes[i] }),
    { unimplemented!() }

    /// `copy_from_nonoverlapping` from another block.
    #[verifier::external_body]
    fn v_copy(&mut self, to: At, from: &Heap, at: At, n: usize)
        requires
            block(old(self).v()), to.id@ == old(self).v().id, to.o >= 12, to.o + n <= old(self).v().layout.size,
            block(from.v()), at.id@ == from.v().id, at.o >= 12, at.o + n <= from.v().layout.size,
        ensures
            final(self).v() == (Mem { bytes: final(self).v().bytes, ..old(self).v() }), final(self).null() == old(self).null(),
            final(self).v().bytes =~= Seq::new(old(self).v().bytes.len(), |i: int| if to.o <= i < to.o + n { from.v().bytes[at.o + (i - to.o)] } else { old(self).v().bytes[i] }),
    { unimplemented!() }

    /// `copy_from` inside one block: the parts may overlap.
    #[verifier::external_body]
    fn v_move(&mut self, to: At, at: At, n: usize)
        requires
            block(old(self).v()), to.id@ == old(self).v().id, to.o >= 12, to.o + n <= old(self).v().layout.size,
            at.id@ == old(self).v().id, at.o >= 12, at.o + n <= old(self).v().layout.size,
        ensures
            final(self).v() == (Mem { bytes: final(self).v().bytes, ..old(self).v() }), final(self).null() == old(self).null(),
            final(self).v().bytes =~= Seq::new(old(self).v().bytes.len(), |i: int| if to.o <= i < to.o + n { old(self).v().bytes[at.o + (i - to.o)] } else { old(self).v().bytes[i] }),
    { unimplemented!() }

    /// Writes the header: only into a block big and aligned enough for it.
    #[verifier::external_body]
    fn v_meta_write(&mut self, m: SharedBytesMeta)
        requires block(old(self).v()), old(self).v().layout.size >= 12, old(self).v().layout.align >= 4
        ensures
            final(self).v() == (Mem { meta: Some(m), bytes: final(self).v().bytes, ..old(self).v() }), final(self).null() == old(self).null(),
            final(self).v().bytes.len() == old(self).v().bytes.len(),
            forall|i: int| #![trigger final(self).v().bytes[i]] 12 <= i < old(self).v().bytes.len() ==> final(self).v().bytes[i] == old(self).v().bytes[i],
    { unimplemented!() }

    /// `from_raw_parts`: only of bytes that were written.
    #[verifier::external_body]
    const fn v_slice(&self, at: At, n: usize) -> (r: &[u8])
        requires block(self.v()), at.id@ == self.v().id, at.o >= 12, at.o + n <= self.v().layout.size, written(self.v(), at.o as int, at.o + n)
        ensures r@ == cells(self.v(), at.o as int, at.o + n)
    { unimplemented!() }
}

#[verifier::external_body]
fn v_oom(l: Layout)
    ensures false
{ panic!() }

pub trait Bits: Sized {
    spec fn val(self) -> usize;
    fn v_npo2(self) -> (r: usize)
        ensures
            self.val() <= 0x8000_0000_0000_0000 ==> pow2(r) && r >= self.val() && (self.val() <= 1 ==> r == 1) && (self.val() > 1 ==> r < 2 * self.val()) && (pow2(self.val()) ==> r == self.val()),
            self.val() > 0x8000_0000_0000_0000 ==> r == 0 && !pow2(self.val());
    fn v_ilog2(self) -> (r: u32)
        requires self.val() > 0
        ensures r < 64, 1usize << r <= self.val(), r < 63 ==> self.val() < 1usize << (r + 1) as u32;
}
impl Bits for usize {
    open spec fn val(self) -> usize { self }
    #[verifier::external_body]
    fn v_npo2(self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn v_ilog2(self) -> (r: u32) { unimplemented!() }
}
// ---- a block shared between handles ----

/// What a handle of a shared block knows: the block does not change while there are handles.
pub ghost struct Shared {
    pub id: int,
    /// Holds one of the counted rights to the block.
    pub live: bool,
    /// Gave back the last right: has to free the block.
    pub owned: bool,
    /// Everything done through the other handles happened before.
    pub synced: bool,
    pub layout: Layout,
    pub meta: SharedBytesMeta,
    pub bytes: Seq<Option<u8>>,
}
pub open spec fn shared_ok(s: Shared) -> bool {
    layout_ok(s.layout.size, s.layout.align) && s.bytes.len() == s.layout.size && s.meta.len == s.layout.size
        && align_ok(s.layout.align) && s.meta.info < 30 && 4usize << s.meta.info == s.layout.align
}
/// The address of a shared block with one counted right.
#[verifier::external_body]
pub struct Hand { p: u64 }
impl Hand {
    pub uninterp spec fn v(&self) -> Shared;
    pub uninterp spec fn null(&self) -> bool;

    #[verifier::external_body]
    const fn v_null() -> (r: Hand)
        ensures r.null(), !r.v().live, !r.v().owned
    { unimplemented!() }

    #[verifier::external_body]
    const fn is_null(&self) -> (r: bool)
        ensures r == self.null()
    { unimplemented!() }
}
/// Turns a block into a shared one: its header must be there and count the one handle there is.
#[verifier::external_body]
fn v_share(h: Heap) -> (r: Hand)
    requires block(h.v()), h.v().meta is Some, h.v().meta->0.refcnt == 1
    ensures !r.null(), r.v() == (Shared { id: h.v().id, live: true, owned: false, synced: r.v().synced, layout: h.v().layout, meta: h.v().meta->0, bytes: h.v().bytes })
{ unimplemented!() }

/// `core::sync::atomic::Ordering`
pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }
pub open spec fn releases(o: Ordering) -> bool { o is Release || o is AcqRel || o is SeqCst }
pub open spec fn acquires(o: Ordering) -> bool { o is Acquire || o is AcqRel || o is SeqCst }
/// What this handle read of the counter synchronises with the handles that are gone.
pub uninterp spec fn seen(h: Hand) -> bool;

/// The number of handles of the block at this moment.
pub uninterp spec fn handles(h: Hand) -> int;

/// Counted rights to the block `id` that no handle holds yet.
#[verifier::external_body]
pub tracked struct Rights {}
impl Rights {
    pub uninterp spec fn n(&self) -> int;
    pub uninterp spec fn id(&self) -> int;
}

impl Hand {
    #[verifier::external_body]
    const fn v_add(&self, n: usize) -> (r: At)
        requires self.v().live, n <= self.v().layout.size
        ensures r.id@ == self.v().id, r.o == n
    { unimplemented!() }

    /// `from_raw_parts`: only of bytes that were written.
    #[verifier::external_body]
    const fn v_slice(&self, at: At, n: usize) -> (r: &[u8])
        requires self.v().live, at.id@ == self.v().id, at.o >= 12, at.o + n <= self.v().layout.size,
            forall|i: int| #![trigger self.v().bytes[i]] at.o <= i < at.o + n ==> self.v().bytes[i] is Some
        ensures r@ == Seq::new(n as nat, |i: int| self.v().bytes[at.o + i]->0)
    { unimplemented!() }

    /// Reads one byte.
    #[verifier::external_body]
    fn v_at(&self, at: At) -> (r: &u8)
        requires self.v().live, at.id@ == self.v().id, 12 <= at.o < self.v().layout.size, self.v().bytes[at.o as int] is Some
        ensures *r == self.v().bytes[at.o as int]->0
    { unimplemented!() }

    /// The header: only while a right to the block is held.
    #[verifier::external_body]
    fn v_meta(&self) -> (r: &SharedBytesMeta)
        requires self.v().live || self.v().owned
        ensures r.len == self.v().meta.len, r.info == self.v().meta.info
    { unimplemented!() }

    /// The counter is the number of handles.
    #[verifier::external_body]
    fn v_load(&self, o: Ordering) -> (r: u32)
        requires self.v().live, !releases(o) || o is SeqCst
        ensures r == handles(*self), r >= 1, acquires(o) ==> seen(*self)
    { unimplemented!() }

    /// Sets the counter to a number that is right whatever the other handles do: there is none.
    #[verifier::external_body]
    fn v_store(&self, n: u32, o: Ordering)
        requires false
    { unimplemented!() }

    #[verifier::external_body]
    fn v_fetch_add(&self, n: u32, o: Ordering, Tracked(rights): Tracked<&mut Rights>)
        requires self.v().live, old(rights).n() == 0 || old(rights).id() == self.v().id
        ensures final(rights).n() == old(rights).n() + n, final(rights).id() == self.v().id
    { unimplemented!() }

    /// A second handle: uses up one right.
    #[verifier::external_body]
    fn v_alias(&self, Tracked(rights): Tracked<&mut Rights>) -> (r: Hand)
        requires self.v().live, old(rights).n() > 0, old(rights).id() == self.v().id
        ensures final(rights).n() == old(rights).n() - 1, final(rights).id() == old(rights).id(), r.v() == self.v(), !r.null()
    { unimplemented!() }

    /// Gives the right of this handle back, after everything done with it (so the operation has to release);
    /// who gives back the last one owns the block.
    #[verifier::external_body]
    fn v_fetch_sub(&mut self, n: u32, o: Ordering) -> (r: u32)
        requires old(self).v().live, n == 1, releases(o)
        ensures r >= 1, final(self).null() == old(self).null(), final(self).v() == (Shared { live: false, owned: r == 1, synced: acquires(o), ..old(self).v() })
    { unimplemented!() }

    /// A fence: what was done before the counter was left by the others happened before what follows.
    #[verifier::external_body]
    fn v_fence(&mut self, o: Ordering)
        requires !(o is Relaxed)
        ensures final(self).null() == old(self).null(), final(self).v() == (Shared { synced: acquires(o) || old(self).v().synced, ..old(self).v() })
    { unimplemented!() }

    /// Frees the block: with the layout it was allocated with, by its only owner, after everything done through the other handles.
    #[verifier::external_body]
    fn v_dealloc(&mut self, l: Layout)
        requires old(self).v().owned, old(self).v().synced, l == old(self).v().layout
        ensures final(self).v() == (Shared { owned: false, ..old(self).v() }), final(self).null() == old(self).null()
    { unimplemented!() }

    /// Back to a block of its own: only for the only handle.
    #[verifier::external_body]
    fn v_unshare(&mut self) -> (r: Heap)
        requires old(self).v().live, handles(*old(self)) == 1, seen(*old(self))
        ensures
            !r.null(), r.v() == (Mem { id: old(self).v().id, live: true, layout: old(self).v().layout, meta: r.v().meta, bytes: old(self).v().bytes }),
            !final(self).v().live, !final(self).v().owned
    { unimplemented!() }

    /// Forgets the address: a right that is still held would be lost.
    #[verifier::external_body]
    fn v_set_null(&mut self)
        requires !old(self).v().live, !old(self).v().owned
        ensures final(self).null(), !final(self).v().live, !final(self).v().owned
    { unimplemented!() }

    /// `as_ref`: nothing behind the null pointer.
    #[verifier::external_body]
    fn v_as_mut(&mut self) -> (r: Option<&mut Hand>)
        ensures
            old(self).null() ==> r is None && *final(self) == *old(self),
            !old(self).null() ==> (r matches Some(h) && *h == *old(self) && *final(self) == *final(h)),
    { unimplemented!() }
}
/// `Layout::from_size_align(..).unwrap()`, which refuses what is no layout.
#[verifier::external_body]
fn v_layout_or_panic(size: usize, align: usize) -> (r: Layout)
    ensures layout_ok(size, align), r == (Layout { size, align })
{ unimplemented!() }
