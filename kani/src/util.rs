//! Unconstrained inputs, range expressions and the shape of a refusal.
use bytedata::external::{ExternalBytes, ExternalOps};
use bytedata::{ByteData, SharedBytes, SharedBytesBuilder};

/// Length bound of the unconstrained buffers: beyond the 14 bytes kept inline.
pub const N: usize = 17;

/// An unconstrained slice of any length up to `L`, alive for the whole proof.
pub fn any_slice<const L: usize>() -> &'static [u8] {
    let a: [u8; L] = kani::any();
    let s: &'static [u8] = Box::leak(Box::new(a));
    let n: usize = kani::any();
    kani::assume(n <= L);
    &s[..n]
}

pub fn sub<const L: usize>(a: &[u8; L]) -> &[u8] {
    let n: usize = kani::any();
    kani::assume(n <= L);
    &a[..n]
}

/// Reaching this is a failure that is not a panic, so a `should_panic` proof that gets here fails.
pub fn returned() {
    unsafe {
        let p: *const u8 = core::ptr::null();
        let _ = core::ptr::read_volatile(p);
    }
}

/// Equal bytes at every index (one unconstrained index stands for all of them).
pub fn same(a: &[u8], b: &[u8]) {
    assert!(a.len() == b.len(), "length");
    let k: usize = kani::any();
    if k < a.len() {
        assert!(a[k] == b[k], "byte at every index");
    }
}

/// An owner outside the crate whose drops are counted.
pub struct Own {
    pub data: &'static [u8],
}
pub static mut DROPS: u32 = 0;
pub fn drops() -> u32 {
    unsafe { DROPS }
}
impl Drop for Own {
    fn drop(&mut self) {
        unsafe { DROPS += 1 }
    }
}
impl ExternalBytes for Own {
    const OPS: ExternalOps<Self> = ExternalOps::new(|x| x.data);
}

/// `m` copied into a reference-counted buffer.
pub fn shared_of(m: &[u8]) -> SharedBytes {
    SharedBytes::from_slice(m)
}

/// A reference-counted buffer of any length `1..=L` with unconstrained contents.
pub fn any_shared<const L: usize>() -> SharedBytes {
    let n: usize = kani::any();
    kani::assume(n >= 1 && n <= L);
    let mut b = SharedBytesBuilder::with_capacity(L);
    b.apply_unfilled(|_| ((), n));
    b.build()
}

/// An arbitrary inline value.
pub fn any_chunk() -> ByteData<'static> {
    let a: [u8; 14] = kani::any();
    ByteData::from_chunk_slice(sub(&a))
}

/// A fixed length lets the prover see which representation is in play; the contents stay free.
pub fn fixed_external() -> ByteData<'static> {
    let a: [u8; N] = kani::any();
    ByteData::from_external(Own { data: Box::leak(Box::new(a)) })
}

pub fn fixed_borrowed() -> ByteData<'static> {
    let a: [u8; N] = kani::any();
    ByteData::from_borrowed(Box::leak(Box::new(a)))
}

pub fn fixed_shared() -> ByteData<'static> {
    let a: [u8; N] = kani::any();
    ByteData::from_shared(SharedBytes::from_slice(&a))
}

pub fn ab(n: usize) -> (usize, usize) {
    let (a, b): (usize, usize) = (kani::any(), kani::any());
    kani::assume(a <= b && b <= n);
    (a, b)
}

/// One of the six range types, over unconstrained `usize` bounds; `$ok` tells whether std accepts it
/// for length `$n`, `$lo..$hi` is the denoted range.
#[macro_export]
macro_rules! each_range {
    ($n:expr, |$r:ident, $lo:ident, $hi:ident, $ok:ident| $body:expr) => {{
        let (x, y): (usize, usize) = (kani::any(), kani::any());
        let which: u8 = kani::any();
        match which {
            0 => {
                let ($r, $lo, $hi) = (x..y, x, y);
                let $ok = x <= y && y <= $n;
                $body
            }
            1 => {
                let ($r, $lo, $hi) = (x..=y, x, y.wrapping_add(1));
                let $ok = y < usize::MAX && x <= y + 1 && y < $n;
                $body
            }
            2 => {
                let ($r, $lo, $hi) = (x.., x, $n);
                let $ok = x <= $n;
                $body
            }
            3 => {
                let ($r, $lo, $hi) = (..y, 0usize, y);
                let $ok = y <= $n;
                $body
            }
            4 => {
                let ($r, $lo, $hi) = (..=y, 0usize, y.wrapping_add(1));
                let $ok = y < $n;
                $body
            }
            _ => {
                let ($r, $lo, $hi) = (.., 0usize, $n);
                let $ok = true;
                $body
            }
        }
    }};
}
