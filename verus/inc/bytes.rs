// ---- what lies outside: the bytes crate ----

/// `Vec<u8>` and `BytesMut`: a buffer with room for `cap` bytes, the first `n` of which are there.
#[verifier::external_body]
pub struct XVec { v: Vec<u8> }
impl XVec {
    pub uninterp spec fn cap(&self) -> nat;
    pub uninterp spec fn cells(&self) -> Seq<Option<u8>>;
    pub uninterp spec fn n(&self) -> nat;
    pub open spec fn view(&self) -> Seq<u8> { Seq::new(self.n(), |i: int| self.cells()[i]->0) }
    #[verifier::external_body]
    fn new() -> (r: XVec) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    fn with_capacity(n: usize) -> (r: XVec) ensures r@.len() == 0, r.cap() >= n, r.cells().len() == r.cap() { unimplemented!() }
    /// `copy_nonoverlapping` to `as_mut_ptr`.
    #[verifier::external_body]
    fn v_copy_in(&mut self, from: &[u8], n: usize)
        requires n <= from@.len(), n <= old(self).cap(), old(self).cells().len() == old(self).cap()
        ensures final(self).cap() == old(self).cap(), final(self).n() == old(self).n(), final(self).cells().len() == old(self).cells().len(),
            forall|i: int| #![trigger final(self).cells()[i]] 0 <= i < old(self).cap() ==> final(self).cells()[i] == (if i < n { Some(from@[i]) } else { old(self).cells()[i] }),
    { unimplemented!() }
    #[verifier::external_body]
    unsafe fn set_len(&mut self, n: usize)
        requires n <= old(self).cap(), forall|i: int| #![trigger old(self).cells()[i]] 0 <= i < n ==> old(self).cells()[i] is Some
        ensures final(self).cap() == old(self).cap(), final(self).cells() == old(self).cells(), final(self).n() == n
    { unimplemented!() }
    /// `put`: appends, making room where there is none.
    #[verifier::external_body]
    fn put(&mut self, from: &[u8])
        ensures final(self)@ =~= old(self)@ + from@
    { unimplemented!() }
    #[verifier::external_body]
    fn freeze(self) -> (r: XBytes) ensures r@ =~= self@, r.block() == -1 { unimplemented!() }
}
/// `bytes::Bytes`
#[verifier::external_body]
pub struct XBytes { v: Vec<u8> }
impl View for XBytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl XBytes {
    /// The block it shares with this crate's handles (-1: none).
    pub uninterp spec fn block(&self) -> int;
    #[verifier::external_body]
    fn new() -> (r: XBytes) ensures r@.len() == 0, r.block() == -1 { unimplemented!() }
    #[verifier::external_body]
    fn copy_from_slice(s: &[u8]) -> (r: XBytes) ensures r@ == s@, r.block() == -1 { unimplemented!() }
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
