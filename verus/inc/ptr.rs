// ---- what lies outside: pointers into a slice ----

/// A pointer into the slice `s`, `o` bytes in.
#[derive(Clone, Copy)]
pub struct Ptr<'a> {
    pub s: &'a [u8],
    pub o: usize,
}

pub trait AsPtr {
    spec fn seq(&self) -> Seq<u8>;
    fn v_ptr(&self) -> (r: Ptr<'_>)
        ensures r.s@ == self.seq(), r.o == 0;
}
impl AsPtr for [u8] {
    open spec fn seq(&self) -> Seq<u8> { self@ }
    fn v_ptr(&self) -> (r: Ptr<'_>) { Ptr { s: self, o: 0 } }
}
impl<'a> Ptr<'a> {
    /// Stays inside the slice or one behind its end.
    const fn v_add(self, n: usize) -> (r: Ptr<'a>)
        requires self.o + n <= self.s.len()
        ensures r.s == self.s, r.o == self.o + n
    { Ptr { s: self.s, o: self.o + n } }
    /// Reads the byte it points to.
    const fn v_read(self) -> (r: u8)
        requires self.o < self.s.len()
        ensures r == self.s@[self.o as int]
    { self.s[self.o] }
}
#[verifier::external_body]
const fn v_from_raw_parts<'a>(p: Ptr<'a>, n: usize) -> (r: &'a [u8])
    requires p.o + n <= p.s.len()
    ensures r@ == p.s@.subrange(p.o as int, p.o + n)
{ unimplemented!() }

pub open spec fn yes(b: bool) -> bool { b }
/// A panic: only where the property allows the call to be refused.
#[verifier::external_body]
fn refuse(allowed: Ghost<bool>) -> !
    requires allowed@
{ panic!() }

