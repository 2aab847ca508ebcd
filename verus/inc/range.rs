// ---- what lies outside: refusals and ranges ----

pub open spec fn yes(b: bool) -> bool { b }
/// A panic: only where the property allows the call to be refused.
#[verifier::external_body]
fn refuse(allowed: Ghost<bool>) -> !
    requires allowed@
{ panic!() }

#[verifier::external_body]
fn v_refuse<T>(allowed: Ghost<bool>) -> T
    requires allowed@
    ensures false
{ panic!() }

pub enum Bound<T> { Included(T), Excluded(T), Unbounded }

pub open spec fn is_bound(x: Bound<&usize>, y: Bound<usize>) -> bool {
    match (x, y) {
        (Bound::Included(a), Bound::Included(b)) => *a == b,
        (Bound::Excluded(a), Bound::Excluded(b)) => *a == b,
        (Bound::Unbounded, Bound::Unbounded) => true,
        _ => false,
    }
}

/// `core::ops::RangeBounds`: any pair of bounds.
pub trait RangeBounds<T>: Sized {
    spec fn lo(&self) -> Bound<usize>;
    spec fn hi(&self) -> Bound<usize>;
    fn start_bound(&self) -> (r: Bound<&usize>)
        ensures is_bound(r, self.lo());
    fn end_bound(&self) -> (r: Bound<&usize>)
        ensures is_bound(r, self.hi());
}
/// Start and end of a range of a text of length `n`, as mathematical integers.
pub open spec fn first<R: RangeBounds<usize>>(r: R) -> int {
    match r.lo() { Bound::Included(a) => a as int, Bound::Excluded(a) => a + 1, Bound::Unbounded => 0 }
}
pub open spec fn past<R: RangeBounds<usize>>(r: R, n: int) -> int {
    match r.hi() { Bound::Included(a) => a + 1, Bound::Excluded(a) => a as int, Bound::Unbounded => n }
}
pub open spec fn in_range<R: RangeBounds<usize>>(r: R, n: int) -> bool {
    0 <= first(r) <= past(r, n) <= n
}
impl RangeBounds<usize> for core::ops::Range<usize> {
    open spec fn lo(&self) -> Bound<usize> { Bound::Included(self.start) }
    open spec fn hi(&self) -> Bound<usize> { Bound::Excluded(self.end) }
    fn start_bound(&self) -> (r: Bound<&usize>) { Bound::Included(&self.start) }
    fn end_bound(&self) -> (r: Bound<&usize>) { Bound::Excluded(&self.end) }
}
impl RangeBounds<usize> for core::ops::RangeFrom<usize> {
    open spec fn lo(&self) -> Bound<usize> { Bound::Included(self.start) }
    open spec fn hi(&self) -> Bound<usize> { Bound::Unbounded }
    fn start_bound(&self) -> (r: Bound<&usize>) { Bound::Included(&self.start) }
    fn end_bound(&self) -> (r: Bound<&usize>) { Bound::Unbounded }
}
impl RangeBounds<usize> for core::ops::RangeFull {
    open spec fn lo(&self) -> Bound<usize> { Bound::Unbounded }
    open spec fn hi(&self) -> Bound<usize> { Bound::Unbounded }
    fn start_bound(&self) -> (r: Bound<&usize>) { Bound::Unbounded }
    fn end_bound(&self) -> (r: Bound<&usize>) { Bound::Unbounded }
}
impl RangeBounds<usize> for core::ops::RangeTo<usize> {
    open spec fn lo(&self) -> Bound<usize> { Bound::Unbounded }
    open spec fn hi(&self) -> Bound<usize> { Bound::Excluded(self.end) }
    fn start_bound(&self) -> (r: Bound<&usize>) { Bound::Unbounded }
    fn end_bound(&self) -> (r: Bound<&usize>) { Bound::Excluded(&self.end) }
}

/// `Option::unwrap_or_else` with a panic.
pub trait OrRefuse {
    spec fn some(&self) -> Option<usize>;
    fn v_or(self, allowed: Ghost<bool>) -> (r: usize)
        requires self.some() is None ==> allowed@
        ensures self.some() == Some(r);
}
impl OrRefuse for Option<usize> {
    open spec fn some(&self) -> Option<usize> { *self }
    fn v_or(self, allowed: Ghost<bool>) -> (r: usize)
    { match self { Some(x) => x, None => v_refuse(allowed) } }
}
