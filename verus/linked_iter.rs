//@props P09 P12
//@title the iterator over a queue's chunks, walking the list's nodes and their rings of slots
//@assume the pointers of a well-formed list lead from each node to the next one and are null at the end (lists stay well formed by the list's own contracts, P09)
use vstd::prelude::*;

verus! {

global size_of usize == 8;

#[verifier::external_body]
pub struct ByteData<'a>(core::marker::PhantomData<&'a u8>);

/// The slots of a ring: each holds a value or nothing yet.
#[verifier::external_body]
pub struct Slots<'a>(core::marker::PhantomData<&'a u8>);
#[verifier::external_body]
pub struct Slot<'a>(core::marker::PhantomData<&'a u8>);
impl<'a> Slots<'a> {
    pub uninterp spec fn at(&self, i: int) -> Option<ByteData<'a>>;
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == NODE_SIZE { unimplemented!() }
    #[verifier::external_body]
    fn v_slot(&self, i: usize) -> (r: &Slot<'a>) requires i < NODE_SIZE ensures r.v() == self.at(i as int) { unimplemented!() }
}
impl<'a> Slot<'a> {
    pub uninterp spec fn v(&self) -> Option<ByteData<'a>>;
    #[verifier::external_body]
    fn assume_init_ref(&self) -> (r: &ByteData<'a>) requires self.v() is Some ensures *r == self.v()->0 { unimplemented!() }
}
/// The pointer to the next node.
pub struct Next<'a>(pub Option<Box<LinkedNodeLeaf<'a>>>);
impl<'a> Next<'a> {
    fn as_ref(&self) -> (r: Option<&LinkedNodeLeaf<'a>>)
        ensures match self.0 { None => r is None, Some(b) => r matches Some(x) && *x == *b }
    { match &self.0 { None => None, Some(b) => Some(&**b) } }
}
pub struct Prev;
fn v_count(b: bool) -> (r: usize) ensures r == if b { 1usize } else { 0 } { if b { 1 } else { 0 } }
fn v_min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }

//@item queue/linked_node_data.rs const NODE_SIZE
//@item queue/linked_node_data.rs struct LinkedNodeData data : [ $(t) ; NODE_SIZE ] => data: Slots<'a>
//@item queue/linked_node_leaf.rs struct LinkedNodeLeaf prev : * mut LinkedNodeLeaf<'a> => prev: Prev ;; next : * mut LinkedNodeLeaf<'a> => next: Next<'a>
//@item queue/linked_iter.rs struct LinkedIter linked_node_leaf::LinkedNodeLeaf => LinkedNodeLeaf

impl<'a> LinkedNodeData<'a> {
    pub open spec fn wf(&self) -> bool {
        self.beg < NODE_SIZE && self.len <= NODE_SIZE && forall|i: int| 0 <= i < self.len ==> (#[trigger] self.data.at((self.beg + i) % (NODE_SIZE as int))) is Some
    }
    pub open spec fn items(&self) -> Seq<ByteData<'a>> { Seq::new(self.len as nat, |i: int| self.data.at((self.beg + i) % (NODE_SIZE as int))->0) }
}
/// What the node and the nodes after it hold.
pub open spec fn held<'a>(l: LinkedNodeLeaf<'a>) -> Seq<ByteData<'a>>
    decreases l
{ match l.next.0 { None => l.data.items(), Some(b) => l.data.items() + held(*b) } }
pub open spec fn fine<'a>(l: LinkedNodeLeaf<'a>) -> bool
    decreases l
{ l.data.wf() && match l.next.0 { None => true, Some(b) => fine(*b) } }
pub open spec fn nodes<'a>(l: LinkedNodeLeaf<'a>) -> nat
    decreases l
{ match l.next.0 { None => 1, Some(b) => 1 + nodes(*b) } }
proof fn held_long<'a>(l: LinkedNodeLeaf<'a>)
    ensures held(l).len() >= l.data.len
{ }

impl<'a, 'b> LinkedIter<'a, 'b> {
    pub open spec fn wf(&self) -> bool { self.node matches Some(l) ==> fine(*l) && self.offset <= l.data.len }
    pub open spec fn rest(&self) -> Seq<ByteData<'a>> { match self.node { None => Seq::empty(), Some(l) => held(*l).skip(self.offset as int) } }
    /// The values still to come.
    pub open spec fn view(&self) -> Seq<ByteData<'a>> { match self.chamber { None => self.rest(), Some(c) => seq![*c] + self.rest() } }
    pub open spec fn left(&self) -> nat { match self.node { None => 0, Some(l) => nodes(*l) } }

//@fn queue/linked_iter.rs LinkedIter::new
//@ret r
//@sig linked_node_leaf::LinkedNodeLeaf => LinkedNodeLeaf
//@spec
    requires node matches Some(l) ==> fine(*l)
    ensures r.wf(), r.view() =~= (match chamber { None => Seq::empty(), Some(c) => seq![*c] }) + (match node { None => Seq::empty(), Some(l) => held(*l) })
//@end
//@fn queue/linked_iter.rs LinkedIter::item_len
//@opt usize::from ( $(x) ) => v_count($(x))
//@opt while let Some ( aa ) = unsafe { $(x) } => while let Some(aa) = $(x)
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ret r
//@spec
    requires self.wf(), self.view().len() <= usize::MAX
    ensures r == self.view().len()
//@at loop 0 before
    proof { held_long(*node); }
//@loop 0 while
    invariant fine(*node), held(*node).len() + len == self.rest().len() + node.data.len
    ensures node.next.0 is None, held(*node).len() + len == self.rest().len() + node.data.len
    decreases nodes(*node)
//@at loop 0 start
    proof { held_long(*node); held_long(*aa); }
//@end
//@fn queue/linked_iter.rs LinkedIter::skip
//@ret r
//@sig mut self => self
//@sub if n != 0 => let mut this = self; if n != 0
//@sub self . skip_mut ( n ) => this.skip_mut(n)
//@sub } self => } this
//@spec
    requires self.wf()
    ensures r.wf(), r.view() =~= (if n <= self.view().len() { self.view().skip(n as int) } else { Seq::empty() })
//@end
//@fn queue/linked_iter.rs LinkedIter::skip_mut
//@drop skip_mut_inner
//@sig -> & mut Self =>
//@sub skip_mut_inner ( $(x) , $(y) ) => Self::skip_mut_inner($(x), $(y))
//@opt return self ; => return;
//@sub self } => }
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).view() =~= (if n <= old(self).view().len() { old(self).view().skip(n as int) } else { Seq::empty() })
//@end
//@fn queue/linked_iter.rs LinkedIter::skip_mut/skip_mut_inner
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sig < 'a : 'b , 'b > =>
//@sig mut n => n
//@opt core::cmp::min => v_min
//@spec
    requires old(this).wf(), n > 0
    ensures final(this).wf(), final(this).view() =~= (if n <= old(this).view().len() { old(this).view().skip(n as int) } else { Seq::empty() })
//@at start
    let ghost all = this.view();
    let ghost given = n;
    let mut n = n;
//@loop 0 while
    invariant n <= given, this.wf(), this.chamber is None, given - n <= all.len(), this.rest() =~= all.skip(given - n)
    decreases n, this.left()
//@at loop 0 start
    let ghost before = this.rest();
    let ghost was = n;
    proof {
        if this.node is Some {
            let l = *this.node->0;
            held_long(l);
            assert(held(l).skip(l.data.len as int) =~= match l.next.0 { None => Seq::empty(), Some(b) => held(*b) });
        }
    }
//@at loop 0 end
    proof { assert(this.rest() =~= before.skip(was - n)); assert(all.skip(given - was).skip(was - n) =~= all.skip(given - n)); }
//@end
//@fn queue/linked_iter.rs <LinkedIter as Iterator>::next as v_next
//@ret r
//@sig Self::Item => &'b ByteData<'a>
//@drop inner
//@sub inner ( self ) => Self::inner(self)
//@spec
    requires old(self).wf()
    ensures final(self).wf(), match r { None => old(self).view().len() == 0 && final(self).view().len() == 0, Some(x) => old(self).view().len() > 0 && *x == old(self).view()[0] && final(self).view() =~= old(self).view().skip(1) }
    decreases old(self).left(), 1int
//@end
//@fn queue/linked_iter.rs <LinkedIter as Iterator>::next/inner
//@ret r
//@sig < 'a : 'b , 'b > =>
//@sub this . next ( ) => this.v_next()
//@opt let ret : $(t) = => let ret =
//@sub & data . data [ $(x) ] => data.data.v_slot($(x))
//@opt & MaybeUninit<ByteData<'a>> => &Slot<'a>
//@spec
    requires old(this).wf(), old(this).chamber is None
    ensures final(this).wf(), match r { None => old(this).view().len() == 0 && final(this).view().len() == 0, Some(x) => old(this).view().len() > 0 && *x == old(this).view()[0] && final(this).view() =~= old(this).view().skip(1) }
    decreases old(this).left(), 0int
//@end
}

} // verus!
fn main() {}
