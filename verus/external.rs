//@props P15 P23 P02
//@title externally owned bytes, for owners of every type, size and alignment
//@assume a type's size is a multiple of its alignment, alignments are powers of two up to 2^29 (the limit of the language) and sizes stay below 2^61 (the limit of the compiler)
//@assume the reference counter has the contracts of a counter of rights to the block (as for shared bytes); it does not overflow (fewer than 2^32 handles)
//@assume an owner's byte slice does not change while nobody has the owner mutably
use vstd::prelude::*;

verus! {

global size_of usize == 8;

//@include range.rs

pub open spec fn pow2(n: usize) -> bool { n != 0 && n & ((n - 1) as usize) == 0 }
pub open spec fn layout_ok(size: usize, align: usize) -> bool { pow2(align) && size <= isize::MAX - (align - 1) }
#[derive(Clone, Copy)]
pub struct Layout { pub size: usize, pub align: usize }
/// `Layout::from_size_align(..).unwrap()`: a panic otherwise.
#[verifier::external_body]
const fn v_layout(size: usize, align: usize) -> (r: Layout)
    requires layout_ok(size, align)
    ensures r == (Layout { size, align })
{ unimplemented!() }
#[verifier::external_body]
fn v_oom(l: Layout)
    ensures false
{ panic!() }

pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }
pub open spec fn releases(o: Ordering) -> bool { o is Release || o is AcqRel || o is SeqCst }
pub open spec fn acquires(o: Ordering) -> bool { o is Acquire || o is AcqRel || o is SeqCst }

// ---- types as values ----
pub uninterp spec fn size<T>() -> usize;
pub uninterp spec fn alignment<T>() -> usize;
pub uninterp spec fn kind<T>() -> int;
pub uninterp spec fn drops<T>() -> bool;
pub open spec fn sized<T>() -> bool {
    pow2(alignment::<T>()) && alignment::<T>() <= 0x2000_0000 && size::<T>() <= 0x2000_0000_0000_0000 && size::<T>() as int % alignment::<T>() as int == 0
}
#[verifier::external_body]
proof fn sizes<T>()
    ensures sized::<T>(), sized::<ExtBytesWrapper>(), size::<ExtBytesWrapper>() > 0
{ unimplemented!() }
#[verifier::external_body]
fn v_size_of<T>() -> (r: usize)
    ensures r == size::<T>(), sized::<T>()
{ unimplemented!() }
#[verifier::external_body]
fn v_align_of<T>() -> (r: usize)
    ensures r == alignment::<T>(), sized::<T>()
{ unimplemented!() }
#[derive(Clone, Copy)]
pub struct TypeId { pub k: Ghost<int> }
impl TypeId {
    #[verifier::external_body]
    fn v_of<T>() -> (r: TypeId)
        ensures r.k@ == kind::<T>()
    { unimplemented!() }
    #[verifier::external_body]
    fn v_ne(self, o: TypeId) -> (r: bool)
        ensures r == (self.k@ != o.k@)
    { unimplemented!() }
}
/// Equal type identifiers: the same type.
pub open spec fn same_type<T, U>() -> bool { kind::<T>() == kind::<U>() }

fn v_max(a: usize, b: usize) -> (r: usize)
    ensures r == (if a < b { b } else { a })
{ if a < b { b } else { a } }

/// The drop function of the owner's type.
#[derive(Clone, Copy)]
pub struct DropFn { pub k: Ghost<int> }
/// `ExternalOps` of a type.
#[verifier::external_body]
fn v_ops_drop<T>() -> (r: Option<DropFn>)
    ensures r is Some == drops::<T>(), r matches Some(d) ==> d.k@ == kind::<T>()
{ unimplemented!() }
/// The bytes of an owner that stands at the address `at` (an owner may keep its bytes inside itself).
pub uninterp spec fn bytes_of<T>(t: T, at: int) -> Seq<u8>;
pub uninterp spec fn here<T>(t: &T) -> int;
/// `OPS.as_slice`
#[verifier::external_body]
fn v_as_slice<T>(t: &T) -> (r: &[u8])
    ensures r@ == bytes_of(*t, here(t))
{ unimplemented!() }
/// The bytes do not depend on where the owner stands.
pub open spec fn steady<T>(t: T) -> bool { forall|a: int, b: int| #[trigger] bytes_of(t, a) == #[trigger] bytes_of(t, b) }

//@item external.rs struct ExtBytesWrapper core::sync::atomic::AtomicU32 => u32 ;; core::any::TypeId => TypeId ;; Option<unsafe fn ( * mut ( ) )> => Option<DropFn>

/// What a handle of an owner's block knows.
pub ghost struct Ext {
    /// Holds one of the counted rights to the block.
    pub live: bool,
    /// Gave back the last right: has to drop the owner and free the block.
    pub owned: bool,
    pub synced: bool,
    pub id: int,
    pub layout: Layout,
    pub head: ExtBytesWrapper,
    /// Where the owner stands in the block; its type, whether it has to be dropped, and its bytes.
    pub place: int,
    pub kind: int,
    pub drops: bool,
    pub bytes: Seq<u8>,
}
/// What the header says is true.
pub open spec fn told(e: Ext) -> bool {
    e.head.alloc == e.layout.size && e.head.align == e.layout.align && layout_ok(e.layout.size, e.layout.align)
        && e.head.kind.k@ == e.kind && e.head.drop is Some == e.drops && (e.head.drop matches Some(d) ==> d.k@ == e.kind)
        && e.place == up(size::<ExtBytesWrapper>() as int, e.layout.align as int) && e.place <= e.layout.size
        && sized::<ExtBytesWrapper>()
}
pub open spec fn up(n: int, a: int) -> int { if n % a == 0 { n } else { n + a - n % a } }
proof fn divides(a: usize, b: usize)
    requires pow2(a), pow2(b), a <= b, b <= 0x2000_0000
    ensures b as int % a as int == 0
{
    let x = a as u32;
    let y = b as u32;
    assert(x & sub(x, 1) == 0 && y & sub(y, 1) == 0) by (bit_vector)
        requires a != 0, b != 0, a & sub(a, 1) == 0, b & sub(b, 1) == 0, a <= b, b <= 0x2000_0000, x == a as u32, y == b as u32;
    assert(y & sub(x, 1) == 0 && y % x == 0) by (bit_vector) requires x != 0, y != 0, x & sub(x, 1) == 0, y & sub(y, 1) == 0, x <= y;
}
proof fn chain(n: int, b: int, a: int)
    requires a > 0, b > 0, n % b == 0, b % a == 0
    ensures n % a == 0
{
    let k = n / b;
    let j = b / a;
    assert(n == k * b && b == j * a) by (nonlinear_arith) requires a > 0, b > 0, n % b == 0, b % a == 0, k == n / b, j == b / a;
    assert(n == (k * j) * a) by (nonlinear_arith) requires n == k * b, b == j * a;
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(k * j, a);
}
proof fn rounded(n: int, a: int)
    requires a > 0, n >= 0
    ensures up(n, a) % a == 0, n <= up(n, a) < n + a
{
    let q = n / a;
    assert(n == q * a + n % a && 0 <= n % a < a) by (nonlinear_arith) requires a > 0, q == n / a;
    if n % a != 0 {
        assert(up(n, a) == (q + 1) * a) by (nonlinear_arith) requires n == q * a + n % a, up(n, a) == n + a - n % a;
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q + 1, a);
    }
}
proof fn beside(m: int, n: int, a: int)
    requires a > 0, m >= 0, n >= 0, m % a == 0
    ensures up(m + n, a) == m + up(n, a)
{
    let k = m / a;
    assert(m == k * a) by (nonlinear_arith) requires a > 0, m % a == 0, k == m / a;
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(k, n, a);
    assert(a * k + n == m + n) by (nonlinear_arith) requires m == k * a;
}
/// The block has room for the header and, behind it, the owner.
proof fn roomy<T>()
    requires sized::<T>(), sized::<ExtBytesWrapper>()
    ensures ({
        let a = if alignment::<T>() < alignment::<ExtBytesWrapper>() { alignment::<ExtBytesWrapper>() } else { alignment::<T>() } as int;
        let n = size::<T>() as int;
        let h = size::<ExtBytesWrapper>() as int;
        &&& h <= up(h, a) && up(h, a) + n <= up(n + h, a) < n + h + a
        &&& up(h, a) % alignment::<T>() as int == 0 && a % alignment::<T>() as int == 0 && a % alignment::<ExtBytesWrapper>() as int == 0
    })
{
    let t = alignment::<T>();
    let w = alignment::<ExtBytesWrapper>();
    let n = size::<T>() as int;
    let h = size::<ExtBytesWrapper>() as int;
    if t < w {
        divides(t, w);
        divides(w, w);
        rounded(n + h, w as int);
        rounded(h, w as int);
        chain(up(h, w as int), w as int, t as int);
    } else {
        divides(w, t);
        divides(t, t);
        rounded(n + h, t as int);
        rounded(h, t as int);
        beside(n, h, t as int);
        chain(up(h, t as int), t as int, t as int);
    }
}
/// The value the block owns (of type `T`, if its kind is that of `T`).
pub uninterp spec fn owner<T>(e: Ext) -> T;

/// A pointer into the block.
#[derive(Clone, Copy)]
pub struct At { pub id: Ghost<int>, pub o: usize }
/// A pointer into the owner's bytes.
#[derive(Clone, Copy)]
pub struct Ptr { pub id: Ghost<int>, pub o: Ghost<int>, pub n: Ghost<int> }
impl Ptr {
    /// Stays inside the slice or one behind its end.
    #[verifier::external_body]
    fn v_add(self, n: usize) -> (r: Ptr)
        requires self.o@ + n <= self.n@
        ensures r.id == self.id, r.o@ == self.o@ + n, r.n == self.n
    { unimplemented!() }
}

#[verifier::external_body]
pub struct Hand { p: u64 }
pub uninterp spec fn handles(h: Hand) -> int;
pub uninterp spec fn seen(h: Hand) -> bool;
#[verifier::external_body]
pub tracked struct Rights {}
impl Rights {
    pub uninterp spec fn n(&self) -> int;
    pub uninterp spec fn id(&self) -> int;
}
impl Hand {
    pub uninterp spec fn v(&self) -> Ext;
    pub uninterp spec fn null(&self) -> bool;

    #[verifier::external_body]
    const fn is_null(&self) -> (r: bool)
        ensures r == self.null()
    { unimplemented!() }

    /// The header: only while a right to the block is held.
    #[verifier::external_body]
    fn v_head(&self) -> (r: &ExtBytesWrapper)
        requires self.v().live || self.v().owned
        ensures r.drop == self.v().head.drop, r.alloc == self.v().head.alloc, r.kind == self.v().head.kind, r.align == self.v().head.align
    { unimplemented!() }

    #[verifier::external_body]
    const fn v_add(&self, n: usize) -> (r: At)
        requires self.v().live || self.v().owned, n <= self.v().layout.size
        ensures r.id@ == self.v().id, r.o == n
    { unimplemented!() }

    /// The owner: of the type it has, where it stands; what bytes it has has not changed.
    #[verifier::external_body]
    fn v_owner<T>(&self, at: At) -> (r: &T)
        requires self.v().live, at.id@ == self.v().id, at.o == self.v().place, self.v().kind == kind::<T>()
        ensures *r == owner::<T>(self.v()), bytes_of(*r, here(r)) == self.v().bytes
    { unimplemented!() }

    /// The owner, to be changed: only for the only handle.
    #[verifier::external_body]
    fn v_owner_mut<T>(&self, at: At) -> (r: &mut T)
        requires self.v().live, handles(*self) == 1, seen(*self), at.id@ == self.v().id, at.o == self.v().place, self.v().kind == kind::<T>()
        ensures *r == owner::<T>(self.v()), bytes_of(*r, here(&*r)) == self.v().bytes
    { unimplemented!() }

    /// `from_raw_parts` of the owner's bytes.
    #[verifier::external_body]
    const fn v_slice(&self, p: Ptr, n: usize) -> (r: &[u8])
        requires self.v().live, p.id@ == self.v().id, 0 <= p.o@, p.o@ + n <= self.v().bytes.len()
        ensures r@ == self.v().bytes.subrange(p.o@, p.o@ + n)
    { unimplemented!() }

    #[verifier::external_body]
    fn v_load(&self, o: Ordering) -> (r: u32)
        requires self.v().live, !releases(o) || o is SeqCst
        ensures r == handles(*self), r >= 1, acquires(o) ==> seen(*self)
    { unimplemented!() }

    /// Sets the counter to a number that is right whatever the other handles do: there is none.
    #[verifier::external_body]
    fn v_store(&self, n: u32, o: Ordering)
        requires false
    { unimplemented!() }

    #[verifier::external_body]
    fn v_fetch_add(&self, n: u32, o: Ordering, Tracked(rights): Tracked<&mut Rights>)
        requires self.v().live, old(rights).n() == 0 || old(rights).id() == self.v().id
        ensures final(rights).n() == old(rights).n() + n, final(rights).id() == self.v().id
    { unimplemented!() }

    /// A second handle: uses up one right.
    #[verifier::external_body]
    fn v_alias(&self, Tracked(rights): Tracked<&mut Rights>) -> (r: Hand)
        requires self.v().live, old(rights).n() > 0, old(rights).id() == self.v().id
        ensures final(rights).n() == old(rights).n() - 1, final(rights).id() == old(rights).id(), r.v() == self.v(), !r.null()
    { unimplemented!() }

    /// Gives the right of this handle back, after everything done with it (so the operation has to release);
    /// who gives back the last one owns the block.
    #[verifier::external_body]
    fn v_fetch_sub(&mut self, n: u32, o: Ordering) -> (r: u32)
        requires old(self).v().live, n == 1, releases(o)
        ensures r >= 1, final(self).null() == old(self).null(), final(self).v() == (Ext { live: false, owned: r == 1, synced: acquires(o), ..old(self).v() })
    { unimplemented!() }

    #[verifier::external_body]
    fn v_fence(&mut self, o: Ordering)
        requires !(o is Relaxed)
        ensures final(self).null() == old(self).null(), final(self).v() == (Ext { synced: acquires(o) || old(self).v().synced, ..old(self).v() })
    { unimplemented!() }

    /// Drops the owner: its own drop function, on where it stands, once, after everything done through the other handles.
    #[verifier::external_body]
    fn v_drop_owner(&mut self, d: DropFn, at: At)
        requires old(self).v().owned, old(self).v().synced, old(self).v().drops, d.k@ == old(self).v().kind, at.id@ == old(self).v().id, at.o == old(self).v().place
        ensures final(self).v() == (Ext { drops: false, ..old(self).v() }), final(self).null() == old(self).null()
    { unimplemented!() }

    /// Frees the block: with the layout it was allocated with, by its only owner, when the owner of the bytes is dropped.
    #[verifier::external_body]
    fn v_dealloc(&mut self, l: Layout)
        requires old(self).v().owned, old(self).v().synced, !old(self).v().drops, l == old(self).v().layout
        ensures final(self).v() == (Ext { owned: false, ..old(self).v() }), final(self).null() == old(self).null()
    { unimplemented!() }
}

// ---- a block of its own, before it is shared ----
pub ghost struct Mem { pub id: int, pub live: bool, pub layout: Layout, pub head: Option<ExtBytesWrapper>, pub full: bool, pub place: int }
pub open spec fn block(m: Mem) -> bool { m.live && layout_ok(m.layout.size, m.layout.align) }
/// A block for an owner of type `T`.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Heap<T> { p: *mut T }
impl<T> Heap<T> {
    pub uninterp spec fn v(&self) -> Mem;
    pub uninterp spec fn null(&self) -> bool;
    pub uninterp spec fn owner(&self) -> T;

    #[verifier::external_body]
    fn v_alloc(l: Layout) -> (r: Self)
        requires l.size > 0, layout_ok(l.size, l.align)
        ensures
            r.null() ==> !r.v().live,
            !r.null() ==> block(r.v()) && r.v().layout == l && r.v().head is None && !r.v().full,
    { unimplemented!() }

    #[verifier::external_body]
    const fn is_null(&self) -> (r: bool)
        ensures r == self.null()
    { unimplemented!() }

    #[verifier::external_body]
    const fn v_add(&self, n: usize) -> (r: At)
        requires block(self.v()), n <= self.v().layout.size
        ensures r.id@ == self.v().id, r.o == n
    { unimplemented!() }

    /// Moves the owner into the block: behind the header, aligned, and inside the block.
    #[verifier::external_body]
    fn v_owner_write(&mut self, at: At, t: T)
        requires
            block(old(self).v()), !old(self).v().full, at.id@ == old(self).v().id, at.o >= size::<ExtBytesWrapper>(), at.o + size::<T>() <= old(self).v().layout.size,
            at.o as int % alignment::<T>() as int == 0, old(self).v().layout.align as int % alignment::<T>() as int == 0
        ensures final(self).v() == (Mem { full: true, place: at.o as int, ..old(self).v() }), final(self).owner() == t, final(self).null() == old(self).null()
    { unimplemented!() }

    #[verifier::external_body]
    fn v_owner(&self, at: At) -> (r: &T)
        requires block(self.v()), self.v().full, at.id@ == self.v().id, at.o == self.v().place
        ensures *r == self.owner(), here(r) == self.v().id
    { unimplemented!() }

    /// Drops the owner where it stands.
    #[verifier::external_body]
    fn v_owner_drop(&mut self, d: DropFn, at: At)
        requires block(old(self).v()), old(self).v().full, at.id@ == old(self).v().id, at.o == old(self).v().place, d.k@ == kind::<T>()
        ensures final(self).v() == (Mem { full: false, ..old(self).v() }), final(self).null() == old(self).null()
    { unimplemented!() }

    /// Writes the header: only into a block big and aligned enough for it.
    #[verifier::external_body]
    fn v_head_write(&mut self, h: ExtBytesWrapper)
        requires
            block(old(self).v()), old(self).v().layout.size >= size::<ExtBytesWrapper>(),
            old(self).v().layout.align as int % alignment::<ExtBytesWrapper>() as int == 0
        ensures final(self).v() == (Mem { head: Some(h), ..old(self).v() }), final(self).owner() == old(self).owner(), final(self).null() == old(self).null()
    { unimplemented!() }

    /// Frees the block: an owner in it that needs to be dropped would be lost.
    #[verifier::external_body]
    fn v_dealloc(self, l: Layout)
        requires block(self.v()), !self.v().full || !drops::<T>(), l == self.v().layout
    { unimplemented!() }

    /// The block becomes shared: its header must be there and count the one handle there is.
    #[verifier::external_body]
    fn v_share(self) -> (r: Hand)
        requires block(self.v()), self.v().head is Some, self.v().head->0.ref_count == 1, self.v().full
        ensures
            !r.null(), r.v().live, !r.v().owned, r.v().id == self.v().id, r.v().layout == self.v().layout, r.v().head == self.v().head->0, r.v().place == self.v().place,
            r.v().kind == kind::<T>(), r.v().drops == drops::<T>(), owner::<T>(r.v()) == self.owner(), r.v().bytes == bytes_of(self.owner(), self.v().id)
    { unimplemented!() }
}
/// A pointer to the start of the owner's bytes.
#[verifier::external_body]
fn v_ptr<T>(s: &[u8], h: &Heap<T>) -> (r: Ptr)
    requires block(h.v()), h.v().full, s@ == bytes_of(h.owner(), h.v().id)
    ensures r.id@ == h.v().id, r.o@ == 0, r.n@ == s@.len()
{ unimplemented!() }

// ---- the box a handle points to ----
#[verifier::external_body]
pub struct Boxed { p: *const ExtBytesRef }
impl Boxed {
    /// What is in the box; nothing if it was freed (or is the null pointer).
    pub uninterp spec fn v(&self) -> Option<ExtBytesRef>;
    #[verifier::external_body]
    fn v_new(x: ExtBytesRef) -> (r: Boxed)
        ensures r.v() == Some(x)
    { unimplemented!() }
    #[verifier::external_body]
    fn v_null() -> (r: Boxed)
        ensures r.v() is None
    { unimplemented!() }
    #[verifier::external_body]
    fn is_null(&self) -> (r: bool)
        ensures r ==> self.v() is None
    { unimplemented!() }
    #[verifier::external_body]
    fn v_is_set(&self) -> (r: bool)
        requires self.v() is Some
        ensures r
    { unimplemented!() }
    #[verifier::external_body]
    const fn v_ref(&self) -> (r: &ExtBytesRef)
        requires self.v() is Some
        ensures self.v() == Some(*r)
    { unimplemented!() }
    #[verifier::external_body]
    fn v_mut(&mut self) -> (r: &mut ExtBytesRef)
        requires old(self).v() is Some
        ensures old(self).v() == Some(*r), final(self).v() == Some(*final(r))
    { unimplemented!() }
    /// `drop(Box::from_raw(..))`: a right to the block still held in it would be lost.
    #[verifier::external_body]
    fn v_free(&mut self)
        requires old(self).v() matches Some(x) && !x.data.v().live && !x.data.v().owned
        ensures final(self).v() is None
    { unimplemented!() }
}

// ---- the values built of them ----
pub enum ByteData { Chunk(Ghost<Seq<u8>>), External(ExtBytes) }
impl ByteData {
    pub open spec fn view(&self) -> Seq<u8> { match self { ByteData::Chunk(s) => s@, ByteData::External(e) => e@ } }
    pub open spec fn wf(&self) -> bool { match self { ByteData::Chunk(s) => s@.len() <= 14, ByteData::External(e) => e.wf() && e@.len() > 14 } }
    #[verifier::external_body]
    fn from_chunk_slice(s: &[u8]) -> (r: ByteData)
        requires s@.len() <= 14
        ensures r == ByteData::Chunk(Ghost(s@))
    { unimplemented!() }
}

//@item external.rs struct ExtBytesRef * const ExtBytesWrapper => Hand ;; * const u8 => Ptr
//@item external.rs struct ExtBytes * const ExtBytesRef => Boxed
//@item external.rs const KIND_EXT_BYTES
//@item external.rs struct TakeExtBytesInner slice : & 'a [ u8 ] => slice: Placed<'a>
pub struct ByteChunk {}

impl ByteChunk {
//@item byte_chunk.rs const LEN
}

impl ExtBytesRef {
    pub open spec fn wf(&self) -> bool {
        !self.data.null() && self.data.v().live && !self.data.v().owned && told(self.data.v()) && self.ptr.id@ == self.data.v().id && self.ptr.n@ == self.data.v().bytes.len()
            && 0 <= self.ptr.o@ && self.ptr.o@ + self.len <= self.ptr.n@
    }
    pub open spec fn view(&self) -> Seq<u8> { self.data.v().bytes.subrange(self.ptr.o@, self.ptr.o@ + self.len) }
//@fn external.rs ExtBytesRef::as_slice
//@ret r
//@sub core::slice::from_raw_parts ( $(p) , $(n) ) => self.data.v_slice($(p), $(n))
//@spec
    requires self.wf()
    ensures r@ == self@
//@end
//@fn external.rs ExtBytesRef::len
//@ret r
//@spec
    ensures r == self.len
//@end
}

/// `x` is what the function gives for the owner and the bytes.
pub open spec fn gave<T, R, F: FnOnce(&T, Placed<'_>) -> R>(f: F, owner: T, bytes: Seq<u8>, x: R) -> bool {
    exists|t: &T, s: Placed| *t == owner && s.s@ == bytes && #[trigger] f.ensures((t, s), x)
}
/// Bytes of an owner, and where they begin among all it has.
#[derive(Clone, Copy)]
pub struct Placed<'a> { pub s: &'a [u8], pub at: Ghost<int> }
impl<'a> Placed<'a> {
    /// These bytes stand there.
    pub open spec fn of(&self, all: Seq<u8>) -> bool { 0 <= self.at@ && self.at@ + self.s@.len() <= all.len() && all.subrange(self.at@, self.at@ + self.s@.len()) == self.s@ }
    fn len(&self) -> (r: usize)
        ensures r == self.s@.len()
    { self.s.len() }
    /// The distance of the two addresses.
    #[verifier::external_body]
    fn v_offset(&self, all: &[u8]) -> (r: usize)
        requires self.of(all@)
        ensures r == self.at@, all@.len() <= usize::MAX
    { unimplemented!() }
}
impl<'a, T> TakeExtBytesInner<'a, T> {
//@fn external.rs TakeExtBytesInner::with_slice_ref
//@prop P15
//@ret r
//@sig < 'b , F : FnOnce ( &'b T , &'b [ u8 ] ) -> R , R > => <'b, F: FnOnce(&'b T, Placed<'b>) -> R, R>
//@sub fun ( self . data , self . slice ) => fun(&*self.data, self.slice)
//@spec
    requires fun.requires((&*self.data, self.slice))
    ensures fun.ensures((&*old(self.data), self.slice), r)
//@end
//@fn external.rs TakeExtBytesInner::into_inner
//@prop P15
//@ret r
//@spec
    ensures *r == *old(self.data), *final(r) == *final(self.data)
//@end
}
pub open spec fn took<T, R, F: for<'a> FnOnce(TakeExtBytesInner<'a, T>) -> R>(f: F, owner: T, bytes: Seq<u8>, x: R) -> bool {
    exists|t: TakeExtBytesInner<T>| *t.data == owner && t.slice.s@ == bytes && #[trigger] f.ensures((t,), x)
}

impl ExtBytes {
    pub open spec fn wf(&self) -> bool { self.magic@[0] == KIND_EXT_BYTES && (self.data.v() matches Some(x) && x.wf()) }
    pub open spec fn view(&self) -> Seq<u8> { self.data.v()->0@ }
    pub open spec fn block(&self) -> Ext { self.data.v()->0.data.v() }
    pub open spec fn hand(&self) -> Hand { self.data.v()->0.data }
    /// A handle of the same owner.
    pub open spec fn same_owner(&self, o: &Self) -> bool { self.block() == o.block() }

//@item external.rs const MAGIC const MAGIC : [ u8 ; 8 ] = $(x) ; => fn v_magic() -> (r: [u8; 8]) ensures r@[0] == KIND_EXT_BYTES { $(x) }

//@fn external.rs ExtBytes::create
//@prop P15 P01
//@ret r
//@sig <'a , T : IntoExternalBytes> => <T>
//@sig ByteData<'a> => ByteData
//@sub let ext_bytes = ext_bytes . into ( ) ; =>
//@sub let as_slice = <T::External>::OPS . as_slice ; =>
//@sub let sl = as_slice ( & ext_bytes ) => let sl = v_as_slice::<T>(&ext_bytes)
//@sub as_slice ( unsafe { & * payload } ) => v_as_slice::<T>(data.v_owner(payload))
//@sub ByteData::from_chunk_slice => ByteData::from_chunk_slice
//@sub core::mem::align_of::<T::External> ( ) . max ( $(x) ) => v_max(v_align_of::<T>(), $(x))
//@sub core::mem::size_of::<T::External> ( ) => v_size_of::<T>()
//@sub core::mem::align_of::<ExtBytesWrapper> ( ) => v_align_of::<ExtBytesWrapper>()
//@sub core::mem::size_of::<ExtBytesWrapper> ( ) => v_size_of::<ExtBytesWrapper>()
//@sub core::alloc::Layout::from_size_align ( $(s) , $(a) ) . unwrap ( ) => v_layout($(s), $(a))
//@sub let data = unsafe { alloc::alloc::alloc ( layout ) } => let mut data = Heap::<T>::v_alloc(layout)
//@sub alloc::alloc::handle_alloc_error ( layout ) => v_oom(layout)
//@sub . cast::<T::External> ( ) =>
//@sub data . add ( $(x) ) => data.v_add($(x))
//@sub payload . write ( $(x) ) => data.v_owner_write(payload, $(x))
//@sub sl . as_ptr ( ) => v_ptr(sl, &data)
//@sub <T::External>::OPS . drop => v_ops_drop::<T>()
//@sub drop ( payload ) => data.v_owner_drop(drop, payload)
//@sub alloc::alloc::dealloc ( data , $(l) ) => data.v_dealloc($(l))
//@sub let header = data . cast::<ExtBytesWrapper> ( ) ; =>
//@sub core::mem::transmute::< Option<unsafe fn ( * mut T::External ) > , Option<unsafe fn ( * mut ( ) ) > , > ( $(x) ) => $(x)
//@sub core::sync::atomic::AtomicU32::new ( $(x) ) => $(x)
//@sub core::any::TypeId::of::<T::External> ( ) => TypeId::v_of::<T>()
//@sub header . write ( $(x) ) => data.v_head_write($(x))
//@sub ( header , len , ptr ) => (data.v_share(), len, ptr)
//@sub alloc::boxed::Box::into_raw ( alloc::boxed::Box::new ( $(x) ) ) => Boxed::v_new($(x))
//@sub external : core::mem::ManuallyDrop::new ( $(x) ) => v_external: $(x)
//@sub ByteData { v_external : $(x) , } => ByteData::External($(x))
//@sub Self::MAGIC => Self::v_magic()
//@spec
    ensures
        r.wf(), steady(ext_bytes) ==> r@ =~= bytes_of(ext_bytes, here(&ext_bytes)),
        r matches ByteData::External(e) ==> e.block().kind == kind::<T>() && owner::<T>(e.block()) == ext_bytes && e.block().drops == drops::<T>() && e@ =~= e.block().bytes,
//@at start
    proof { sizes::<T>(); roomy::<T>(); }
//@end

//@fn external.rs ExtBytes::as_slice
//@ret r
//@sub ( * self . data ) => self.data.v_ref()
//@spec
    requires self.wf()
    ensures r@ == self@
//@end

//@fn external.rs ExtBytes::len
//@ret r
//@sub ( * self . data ) => self.data.v_ref()
//@spec
    requires self.wf()
    ensures r == self@.len()
//@end

//@fn external.rs ExtBytes::make_sliced_range
//@sig < R : core::ops::RangeBounds<usize> + core::slice::SliceIndex < [ u8 ] , Output = [ u8 ] > , > => <R: RangeBounds<usize>>
//@refuse !in_range(range, old(self)@.len() as int)
//@sub & mut * self . data . cast_mut ( ) => self.data.v_mut()
//@sub self . data . is_null ( ) => self.data.is_null()
//@sub core::ops::Bound => Bound
//@sub ( & $x ) => $y =>> ($x) => (*$y)
//@sub dd . ptr . add ( $(x) ) => dd.ptr.v_add($(x))
//@spec
    requires old(self).wf()
    ensures
        in_range(range, old(self)@.len() as int), final(self).wf(), final(self)@ =~= old(self)@.subrange(first(range), past(range, old(self)@.len() as int)),
        final(self).same_owner(old(self))
//@end

//@fn external.rs <ExtBytes as Clone>::clone
//@prop P15 P23 P01
//@ret r
//@sig ( & self ) => (&self, Tracked(rights): Tracked<&mut Rights>)
//@sub & * self . data => self.data.v_ref()
//@sub & * ( ext_ref . data ) => &ext_ref.data
//@sub header . ref_count . fetch_add ( $(n) , $(o) ) => header.v_fetch_add($(n), $(o), Tracked(&mut *rights))
//@opt header . ref_count . fetch_sub ( $(n) , $(o) ) => header.v_fetch_sub($(n), $(o))
//@opt header . ref_count . load ( $(o) ) => header.v_load($(o))
//@opt header . ref_count . store ( $(n) , $(o) ) => header.v_store($(n), $(o))
//@sub core::sync::atomic::Ordering => Ordering
//@sub data : ext_ref . data => data: ext_ref.data.v_alias(Tracked(&mut *rights))
//@sub alloc::boxed::Box::new ( $(x) ) => $(x)
//@sub alloc::boxed::Box::into_raw ( $(x) ) => Boxed::v_new($(x))
//@sub Self::MAGIC => Self::v_magic()
//@spec
    requires self.wf(), old(rights).n() == 0
    ensures r.wf(), r@ == self@, r.same_owner(self), final(rights).n() == 0
//@end

//@fn external.rs ExtBytes::sliced_range
//@ret r
//@sig ( & self , => (&self, Tracked(rights): Tracked<&mut Rights>,
//@sig < 's , R : core::ops::RangeBounds<usize> + core::slice::SliceIndex < [ u8 ] , Output = [ u8 ] > , > => <R: RangeBounds<usize>>
//@sig ByteData<'s> => ByteData
//@refuse !in_range(range, self@.len() as int)
//@sub & * self . data => self.data.v_ref()
//@sub & mut * ret . data . cast_mut ( ) => ret.data.v_mut()
//@sub core::ops::Bound => Bound
//@sub ( & $x ) => $y =>> ($x) => (*$y)
//@sub byte_chunk::ByteChunk => ByteChunk
//@sub dd . ptr . add ( $(x) ) => dd.ptr.v_add($(x))
//@sub core::slice::from_raw_parts ( $(p) , $(n) ) => dd.data.v_slice($(p), $(n))
//@sub let ret = self . clone ( ) => let mut ret = self.clone(Tracked(&mut *rights))
//@sub bref . ptr . add ( $(x) ) => bref.ptr.v_add($(x))
//@sub ByteData { external : core::mem::ManuallyDrop::new ( $(x) ) , } => ByteData::External($(x))
//@spec
    requires self.wf(), old(rights).n() == 0
    ensures
        in_range(range, self@.len() as int), r.wf(), r@ =~= self@.subrange(first(range), past(range, self@.len() as int)),
        r matches ByteData::External(e) ==> e.same_owner(self), final(rights).n() == 0
//@end

//@fn external.rs ExtBytes::with_inner
//@prop P15
//@ret r
//@sig <T : core::any::Any , R , F : FnOnce ( & T , & [ u8 ] ) -> R> => <T, R, F: FnOnce(&T, Placed<'_>) -> R>
//@sub & * self . data => self.data.v_ref()
//@sub & * dd . data => &dd.data
//@sub ee . kind != core::any::TypeId::of::<T> ( ) => ee.v_head().kind.v_ne(TypeId::v_of::<T>())
//@sub core::mem::size_of::<ExtBytesWrapper> ( ) => v_size_of::<ExtBytesWrapper>()
//@sub ee . align => ee.v_head().align
//@sub dd . data . cast::<u8> ( ) . add ( $(x) ) => dd.data.v_add($(x))
//@sub & * t_val . cast::<T> ( ) => dd.data.v_owner::<T>(t_val)
//@sub core::slice::from_raw_parts ( $(p) , $(n) ) => dd.data.v_slice($(p), $(n))
//@sub Some ( fun ( $(t) , $(s) ) ) => ({ let s = Placed { s: $(s), at: Ghost(dd.ptr.o@) }; let x = fun($(t), s); assert(fun.ensures((t_val, s), x)); Some(x) })
//@spec
    requires
        self.wf(), self.block().kind == kind::<T>() ==> (forall|t: &T, s: Placed| *t == owner::<T>(self.block()) && bytes_of(*t, here(t)) == self.block().bytes && s.s@ == self@ && s.of(self.block().bytes) ==> #[trigger] fun.requires((t, s)))
    ensures
        r is Some == (self.block().kind == kind::<T>()),
        r is Some ==> gave(fun, owner::<T>(self.block()), self@, r->0)
//@end

//@fn external.rs <ExtBytes as Drop>::drop as release
//@prop P15 P23
//@sub self . data . is_null ( ) => self.data.is_null()
//@sub & mut * self . data . cast_mut ( ) => self.data.v_mut()
//@sub & * ext_ref . data => &mut ext_ref.data
//@sub header . ref_count . fetch_sub ( $(n) , $(o) ) => header.v_fetch_sub($(n), $(o))
//@opt header . ref_count . load ( $(o) ) => header.v_load($(o))
//@opt header . ref_count . store ( $(n) , $(o) ) => header.v_store($(n), $(o))
//@opt core::sync::atomic::fence ( $(o) ) => header.v_fence($(o))
//@sub core::sync::atomic::Ordering => Ordering
//@sub header . drop => header.v_head().drop
//@sub header . align => header.v_head().align
//@sub header . alloc => header.v_head().alloc
//@sub core::mem::size_of::<ExtBytesWrapper> ( ) => v_size_of::<ExtBytesWrapper>()
//@sub ext_ref . data . cast::<u8> ( ) . add ( $(x) ) . cast_mut ( ) => header.v_add($(x))
//@sub drop ( ptr . cast ( ) ) => header.v_drop_owner(drop, ptr)
//@sub core::alloc::Layout::from_size_align ( $(s) , $(a) ) . unwrap ( ) => v_layout($(s), $(a))
//@sub alloc::alloc::dealloc ( $(d) , $(l) ) => header.v_dealloc($(l))
//@sub core::mem::drop ( unsafe { alloc::boxed::Box::from_raw ( ext_ref ) } ) => self.data.v_free()
//@sub self . data = core::ptr::null ( ) => self.data = Boxed::v_null()
//@spec
    requires old(self).wf()
    ensures final(self).data.v() is None
//@end

//@fn external.rs ExtBytes::take_inner
//@prop P15 P23
//@ret r
//@sig <T : core::any::Any , R , F : for<'a> FnOnce ( TakeExtBytesInner<'a , T> ) -> R , > => <T, R, F: for<'a> FnOnce(TakeExtBytesInner<'a, T>) -> R>
//@sub & * self . data => self.data.v_ref()
//@sub & * dd . data => &dd.data
//@sub ee . kind != core::any::TypeId::of::<T> ( ) => ee.v_head().kind.v_ne(TypeId::v_of::<T>())
//@sub ee . ref_count . load ( $(o) ) => ee.v_load($(o))
//@opt ee . ref_count . fetch_sub ( $(n) , $(o) ) => ee.v_fetch_sub($(n), $(o))
//@opt ee . ref_count . store ( $(n) , $(o) ) => ee.v_store($(n), $(o))
//@sub core::sync::atomic::Ordering => Ordering
//@sub core::mem::size_of::<ExtBytesWrapper> ( ) => v_size_of::<ExtBytesWrapper>()
//@sub ee . align => ee.v_head().align
//@sub dd . data . cast::<u8> ( ) . add ( $(x) ) => dd.data.v_add($(x))
//@sub & mut * t_val . cast::<T> ( ) . cast_mut ( ) => dd.data.v_owner_mut::<T>(t_val)
//@sub core::slice::from_raw_parts ( $(p) , $(n) ) => dd.data.v_slice($(p), $(n))
//@sub core::mem::drop ( self ) => v_drop(self)
//@sub slice : slic => slice: Placed { s: slic, at: Ghost(dd.ptr.o@) }
//@spec
    requires
        self.wf(), self.block().kind == kind::<T>() ==> (forall|t: TakeExtBytesInner<T>| *t.data == owner::<T>(self.block()) && bytes_of(*t.data, here(&*t.data)) == self.block().bytes && t.slice.s@ == self@ && t.slice.of(self.block().bytes) ==> #[trigger] fun.requires((t,)))
    ensures
        r is Ok ==> self.block().kind == kind::<T>() && handles(self.hand()) == 1,
        self.block().kind == kind::<T>() && handles(self.hand()) == 1 ==> r is Ok,
        r is Ok ==> took(fun, owner::<T>(self.block()), self@, r->Ok_0),
        r matches Err(e) ==> e == self,
//@end
}
/// `drop`: what `<ExtBytes as Drop>::drop` does.
fn v_drop(e: ExtBytes)
    requires e.wf()
{ let mut e = e; e.release(); }

} // verus!
fn main() {}
