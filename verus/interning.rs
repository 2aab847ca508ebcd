//@props P22
//@title interning: one stored copy per content, for every content, representation and state of the table
//@assume the table: `get` and `entry` find the entry whose key has the same bytes (hashing and equality of values and slices: P13), an entry found vacant stays vacant until its guard inserts or is dropped; other threads add entries, none is removed between operations except by `clear`
//@assume `AtomicPtr` and `Arc`: a pointer loaded with acquire, published with release, points to the table that was put there
use vstd::prelude::*;

verus! {

//@uses stringdata.rs

// ---- what lies outside: the table ----

/// `core::sync::atomic::Ordering` is `Ordering` of the counters.
/// The entries of a table at this moment: content -> stored value.
#[verifier::external_body]
pub tracked struct Table {}
impl Table {
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn view(&self) -> Map<Seq<u8>, ByteData<'static>>;
    pub open spec fn wf(&self) -> bool {
        forall|k: Seq<u8>| #![trigger self@.dom().contains(k)] self@.dom().contains(k) ==> self@[k].wf() && self@[k]@ == k && self@[k].own()
    }
    /// Entries are added (by anybody); what is stored stays.
    pub open spec fn grew(&self, was: &Self) -> bool {
        self.id() == was.id() && self.wf() && forall|k: Seq<u8>| #![trigger self@.dom().contains(k)] #![trigger was@.dom().contains(k)] was@.dom().contains(k) ==> self@.dom().contains(k) && self@[k] == was@[k]
    }
}
/// Strong counts of a table that no pointer accounts for yet.
#[verifier::external_body]
pub tracked struct Strong {}
impl Strong {
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn n(&self) -> int;
}
#[verifier::external_body]
proof fn no_strong() -> (tracked r: Strong)
    ensures r.n() == 0
{ unimplemented!() }

/// `dashmap::DashMap<ByteData<'static>, ()>`
#[verifier::external_body]
pub struct Dash { p: u8 }
/// `Ref`, or an entry: what its key is.
pub struct Ref { pub k: ByteData<'static> }
impl Ref {
    fn key(&self) -> (r: &ByteData<'static>) ensures *r == self.k { &self.k }
}
pub struct Vacant { pub k: ByteData<'static>, pub id: Ghost<int> }
pub enum Entry { Occupied(Ref), Vacant(Vacant) }
impl Vacant {
    #[verifier::external_body]
    fn insert(self, Tracked(table): Tracked<&mut Table>, v: ()) -> (r: Ref)
        requires old(table).id() == self.id@, old(table).wf(), !old(table)@.dom().contains(self.k@), self.k.wf(), self.k.own()
        ensures final(table).grew(old(table)), final(table)@.dom().contains(self.k@), final(table)@[self.k@] == self.k, r.k == self.k
    { unimplemented!() }
}
impl Dash {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    fn get(&self, Tracked(table): Tracked<&mut Table>, key: &Bytes) -> (r: Option<Ref>)
        requires old(table).id() == self.id(), old(table).wf()
        ensures
            final(table).grew(old(table)),
            match r { Some(e) => final(table)@.dom().contains(key@) && final(table)@[key@] == e.k, None => !old(table)@.dom().contains(key@) }
    { unimplemented!() }
    #[verifier::external_body]
    fn entry(&self, Tracked(table): Tracked<&mut Table>, key: ByteData<'static>) -> (r: Entry)
        requires old(table).id() == self.id(), old(table).wf(), key.wf(), key.own()
        ensures
            final(table).grew(old(table)),
            match r {
                Entry::Occupied(e) => final(table)@.dom().contains(key@) && final(table)@[key@] == e.k,
                Entry::Vacant(e) => !final(table)@.dom().contains(key@) && e.k == key && e.id@ == self.id(),
            }
    { unimplemented!() }
    #[verifier::external_body]
    fn clear(&self, Tracked(table): Tracked<&mut Table>)
        requires old(table).id() == self.id()
        ensures final(table).id() == self.id(), final(table).wf()
    { unimplemented!() }
}
/// `Arc<DashMap<..>>`
pub struct Shelf { pub id: Ghost<int> }
/// `Arc::new(DashMap::new())`
#[verifier::external_body]
fn v_shelf() -> (r: Shelf)
{ unimplemented!() }
/// `Arc::into_raw(..) as *mut _`
#[verifier::external_body]
fn v_into_raw(a: Shelf, Tracked(strong): Tracked<&mut Strong>) -> (r: Ptr)
    requires old(strong).n() == 0
    ensures !r.null(), r.id() == a.id@, final(strong).n() == 1, final(strong).id() == a.id@
{ unimplemented!() }
/// `Arc::from_raw`: takes one strong count back.
#[verifier::external_body]
fn v_from_raw(p: Ptr, Tracked(strong): Tracked<&mut Strong>) -> (r: Shelf)
    requires !p.null(), old(strong).n() > 0, old(strong).id() == p.id()
    ensures r.id@ == p.id(), final(strong).n() == old(strong).n() - 1, final(strong).id() == old(strong).id()
{ unimplemented!() }
/// `Arc::increment_strong_count`
#[verifier::external_body]
fn v_increment(p: &Dash, Tracked(strong): Tracked<&mut Strong>)
    requires old(strong).n() == 0 || old(strong).id() == p.id()
    ensures final(strong).n() == old(strong).n() + 1, final(strong).id() == p.id()
{ unimplemented!() }
fn v_drop<T>(x: T) { }

/// `*mut DashMap<..>`
#[derive(Clone, Copy)]
#[verifier::external_body]
pub struct Ptr { p: usize }
impl Ptr {
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn null(&self) -> bool;
    #[verifier::external_body]
    fn v_null() -> (r: Ptr) ensures r.null() { unimplemented!() }
    #[verifier::external_body]
    fn v_of(d: &Dash) -> (r: Ptr) ensures !r.null(), r.id() == d.id() { unimplemented!() }
    #[verifier::external_body]
    fn is_null(&self) -> (r: bool) ensures r == self.null() { unimplemented!() }
    #[verifier::external_body]
    fn as_ref<'s>(self) -> (r: Option<&'s Dash>)
        ensures match r { Some(d) => !self.null() && d.id() == self.id(), None => self.null() }
    { unimplemented!() }
}
/// `AtomicPtr`: null, or the table it is given once.
#[verifier::external_body]
pub struct Cell { p: usize }
impl Cell {
    /// The table that is, or will be, there; whether it is there from the beginning.
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn filled(&self) -> bool;
    #[verifier::external_body]
    fn new(p: Ptr, Tracked(strong): Tracked<&mut Strong>) -> (r: Cell)
        requires p.null() ==> old(strong).n() == 0, !p.null() ==> old(strong).n() == 1 && old(strong).id() == p.id()
        ensures !p.null() ==> r.id() == p.id() && r.filled(), p.null() ==> !r.filled(), final(strong).n() == old(strong).n() - (if p.null() { 0int } else { 1 }), final(strong).id() == old(strong).id()
    { unimplemented!() }
    #[verifier::external_body]
    fn v_empty() -> (r: Cell)
        ensures !r.filled()
    { unimplemented!() }
    #[verifier::external_body]
    fn load(&self, Tracked(table): Tracked<&mut Table>, o: Ordering) -> (r: Ptr)
        requires acquires(o), old(table).id() == self.id(), old(table).wf()
        ensures final(table).grew(old(table)), r.null() ==> old(table)@.dom() =~= Set::empty() && !self.filled(), !r.null() ==> r.id() == self.id()
    { unimplemented!() }
    #[verifier::external_body]
    fn compare_exchange(&self, Tracked(strong): Tracked<&mut Strong>, was: Ptr, new: Ptr, o: Ordering, f: Ordering) -> (r: Result<Ptr, Ptr>)
        requires releases(o), acquires(f), was.null(), !new.null(), old(strong).n() > 0, old(strong).id() == new.id()
        ensures
            match r {
                Ok(p) => p.null() && new.id() == self.id() && final(strong).n() == old(strong).n() - 1,
                Err(p) => !p.null() && p.id() == self.id() && final(strong).n() == old(strong).n(),
            },
            final(strong).id() == old(strong).id()
    { unimplemented!() }
    /// Takes the pointer out, and the strong count with it.
    #[verifier::external_body]
    fn swap(&mut self, Tracked(strong): Tracked<&mut Strong>, new: Ptr, o: Ordering) -> (r: Ptr)
        requires acquires(o), new.null(), old(strong).n() == 0
        ensures !final(self).filled(), r.null() ==> !old(self).filled() && final(strong).n() == 0, !r.null() ==> r.id() == old(self).id() && final(strong).n() == 1 && final(strong).id() == r.id()
    { unimplemented!() }
}

//@item interning/static.rs struct StaticInterning AtomicPtr<dashmap::DashMap<ByteData<'static> , ( ) >> => Cell

/// What interning `v` answers: the stored copy.
pub open spec fn stored(t: &Table, r: ByteData<'static>, v: Seq<u8>) -> bool {
    t@.dom().contains(v) && r.wf() && r@ =~= v && r.own() && same_copy(r, t@[v])
}

impl StaticInterning {
    pub open spec fn id(&self) -> int { self.map.id() }

//@fn interning/static.rs StaticInterning::new_const
//@ret r
//@opt AtomicPtr::new ( core::ptr::null_mut ( ) ) => Cell::v_empty()
//@spec
    ensures r.max_len == max_len
//@end

//@fn interning/static.rs StaticInterning::new
//@ret r
//@sub Arc::into_raw ( Arc::new ( dashmap::DashMap::<ByteData<'static> , ( ) >::new ( ) , ) ) as * mut dashmap::DashMap<ByteData<'static> , ( ) > => v_into_raw(v_shelf(), Tracked(&mut strong))
//@opt AtomicPtr::new ( $(x) ) => Cell::new($(x), Tracked(&mut strong))
//@opt core::ptr::null_mut ( ) => Ptr::v_null()
//@spec
    ensures r.max_len == max_len, r.map.filled()
//@at start
    let tracked mut strong = no_strong();
//@end

//@fn interning/static.rs StaticInterning::clear
//@sig ( & self ) => (&self, Tracked(table): Tracked<&mut Table>)
//@opt . load ( $(o) ) => .load(Tracked(&mut *table), $(o))
//@opt core::sync::atomic::Ordering => Ordering
//@opt . clear ( ) => .clear(Tracked(&mut *table))
//@spec
    requires old(table).id() == self.id(), old(table).wf()
    ensures final(table).id() == self.id(), final(table).wf()
//@end

//@fn interning/static.rs StaticInterning::init
//@ret r
//@sig & dashmap::DashMap<ByteData<'static> , ( ) > => &Dash
//@opt Arc::into_raw ( Arc::new ( dashmap::DashMap::<ByteData<'static> , ( ) >::new ( ) ) ) as * mut dashmap::DashMap<ByteData<'static> , ( ) > => v_into_raw(v_shelf(), Tracked(&mut strong))
//@opt & dashmap::DashMap => &Dash
//@opt . compare_exchange ( => .compare_exchange(Tracked(&mut strong),
//@opt core::ptr::null_mut ( ) => Ptr::v_null()
//@opt core::sync::atomic::Ordering => Ordering
//@opt & * ptr => ptr.as_ref().unwrap()
//@opt & * ret => { proof { assert(strong.n() == 0); } ret.as_ref().unwrap() }
//@opt core::mem::drop => v_drop
//@opt Arc::from_raw ( $(x) ) => v_from_raw($(x), Tracked(&mut strong))
//@spec
    ensures r.id() == self.id()
//@at start
    let tracked mut strong = no_strong();
//@end

//@fn interning/static.rs <StaticInterning as Drop>::drop as release
//@opt . swap ( => .swap(Tracked(&mut strong),
//@opt core::ptr::null_mut ( ) => Ptr::v_null()
//@opt core::sync::atomic::Ordering => Ordering
//@opt core::mem::drop => v_drop
//@opt Arc::from_raw ( $(x) ) => v_from_raw($(x), Tracked(&mut strong))
//@spec
    ensures !final(self).map.filled()
//@at start
    let tracked mut strong = no_strong();
//@at end
    proof { assert(strong.n() == 0); }
//@end

//@fn interning/static.rs <StaticInterning as Clone>::clone
//@ret r
//@sig ( & self ) => (&self, Tracked(table): Tracked<&mut Table>)
//@opt . load ( $(o) ) => .load(Tracked(&mut *table), $(o))
//@opt core::sync::atomic::Ordering => Ordering
//@opt unsafe { ptr . as_ref ( ) } . unwrap_or_else ( || $(x) ) =>> match ptr.as_ref() { Some(v_p) => v_p, None => $(x) }
//@opt Arc::increment_strong_count ( $(x) ) => v_increment($(x), Tracked(&mut strong))
//@opt ptr as * const dashmap::DashMap<ByteData<'static> , ( ) > as * mut dashmap::DashMap<ByteData<'static> , ( ) > => Ptr::v_of(ptr)
//@opt AtomicPtr::new ( $(x) , ) => Cell::new($(x), Tracked(&mut strong))
//@opt AtomicPtr::new ( $(x) ) => Cell::new($(x), Tracked(&mut strong))
//@spec
    requires old(table).id() == self.id(), old(table).wf()
    ensures final(table).grew(old(table)), r.max_len == self.max_len, r.id() == self.id(), r.map.filled()
//@at start
    let tracked mut strong = no_strong();
//@end

//@fn interning/static.rs <StaticInterning as ByteInterning>::intern_always
//@ret r
//@sig ( & self , => (&self, Tracked(table): Tracked<&mut Table>,
//@opt . load ( $(o) ) => .load(Tracked(&mut *table), $(o))
//@opt core::sync::atomic::Ordering => Ordering
//@opt unsafe { ptr . as_ref ( ) } . unwrap_or_else ( || $(x) ) =>> match ptr.as_ref() { Some(v_p) => v_p, None => $(x) }
//@opt ptr . get ( $(x) ) => ptr.get(Tracked(&mut *table), $(x))
//@opt ptr . entry ( $(x) ) => ptr.entry(Tracked(&mut *table), $(x))
//@opt dashmap::Entry => Entry
//@opt . insert ( ( ) ) => .insert(Tracked(&mut *table), ())
//@spec
    requires old(table).id() == self.id(), old(table).wf(), value.wf()
    ensures final(table).grew(old(table)), stored(final(table), r, value@)
//@end

//@fn interning/static.rs <StaticInterning as ByteInterning>::intern
//@ret r
//@sig ( & self , => (&self, Tracked(table): Tracked<&mut Table>,
//@opt ByteChunk::LEN => ByteChunk::LEN
//@opt . intern_always ( $(x) ) => .intern_always(Tracked(&mut *table), $(x))
//@spec
    requires old(table).id() == self.id(), old(table).wf(), value.wf()
    ensures
        final(table).grew(old(table)),
        match r {
            Ok(x) => x.wf() && x@ =~= value@ && x.own() && (value@.len() > ByteChunk::LEN ==> value@.len() <= self.max_len && stored(final(table), x, value@)),
            Err(e) => e == value && value@.len() > self.max_len,
        }
//@end

//@fn interning/static.rs <StaticInterning as ByteInterning>::get
//@ret r
//@sig ( & self , => (&self, Tracked(table): Tracked<&mut Table>,
//@opt . load ( $(o) ) => .load(Tracked(&mut *table), $(o))
//@opt core::sync::atomic::Ordering => Ordering
//@opt ptr . get ( $(x) ) => ptr.get(Tracked(&mut *table), $(x))
//@opt . map_or_else ( || Err ( value ) , | entry | Ok ( entry . key ( ) . clone ( ) ) ) => .v_found(value)
//@spec
    requires old(table).id() == self.id(), old(table).wf(), value.wf()
    ensures
        final(table).grew(old(table)),
        match r { Ok(x) => stored(final(table), x, value@), Err(e) => e == value && !old(table)@.dom().contains(value@) }
//@end

//@fn interning/byte_interning.rs trait ByteInterning::intern_str
//@ret r
//@sig ( & self , => (&self, Tracked(table): Tracked<&mut Table>,
//@sig StringData<'a> => StringData<'static>
//@opt . intern ( $(x) ) => .intern(Tracked(&mut *table), $(x))
//@spec
    requires old(table).id() == self.id(), old(table).wf(), value.wf()
    ensures
        final(table).grew(old(table)),
        match r {
            Ok(x) => x.wf() && x@ =~= value@ && x.data.own() && (value@.len() > ByteChunk::LEN ==> value@.len() <= self.max_len && stored(final(table), x.data, value@)),
            Err(e) => e == value && value@.len() > self.max_len,
        }
//@end

//@fn interning/byte_interning.rs trait ByteInterning::intern_always_str
//@ret r
//@sig ( & self , => (&self, Tracked(table): Tracked<&mut Table>,
//@sig StringData<'a> => StringData<'static>
//@opt . intern_always ( $(x) ) => .intern_always(Tracked(&mut *table), $(x))
//@spec
    requires old(table).id() == self.id(), old(table).wf(), value.wf()
    ensures final(table).grew(old(table)), r.wf(), stored(final(table), r.data, value@)
//@end

//@fn interning/byte_interning.rs trait ByteInterning::get_str
//@ret r
//@sig ( & self , => (&self, Tracked(table): Tracked<&mut Table>,
//@sig StringData<'a> => StringData<'static>
//@opt . get ( $(x) ) => .get(Tracked(&mut *table), $(x))
//@spec
    requires old(table).id() == self.id(), old(table).wf(), value.wf()
    ensures
        final(table).grew(old(table)),
        match r { Ok(x) => x.wf() && stored(final(table), x.data, value@), Err(e) => e == value && !old(table)@.dom().contains(value@) }
//@end
}
/// `map_or_else(|| Err(value), |entry| Ok(entry.key().clone()))`
trait Found: Sized {
    spec fn got(&self) -> Option<Ref>;
    fn v_found<'b>(self, value: ByteData<'b>) -> (r: Result<ByteData<'static>, ByteData<'b>>)
        requires self.got() matches Some(e) ==> e.k.wf()
        ensures match self.got() {
            Some(e) => r matches Ok(x) && x.wf() && x@ =~= e.k@ && (e.k.own() ==> x.own()) && same_copy(x, e.k),
            None => r == Err::<ByteData<'static>, ByteData<'b>>(value),
        };
}
impl Found for Option<Ref> {
    spec fn got(&self) -> Option<Ref> { *self }
    fn v_found<'b>(self, value: ByteData<'b>) -> (r: Result<ByteData<'static>, ByteData<'b>>) {
        match self { Some(entry) => Ok(entry.key().clone()), None => Err(value) }
    }
}

/// Equal contents interned twice are the same copy, whatever was interned in between; different contents are different entries.
proof fn interned_twice(t0: &Table, t1: &Table, a: ByteData<'static>, b: ByteData<'static>, v: Seq<u8>)
    requires stored(t0, a, v), t1.grew(t0), stored(t1, b, v)
    ensures same_copy(a, t0@[v]), same_copy(b, t0@[v])
{ }

} // verus!
fn main() {}
