//@props P03 P04
//@title the header in front of shared bytes
//@assume the counter in the header is read and written as the number it holds (its atomic operations have their own contracts)
use vstd::prelude::*;

verus! {

//@include range.rs
//@include heap.rs
global size_of usize == 8;
global layout SharedBytesMeta is size == 12, align == 4;

//@item shared_bytes.rs struct SharedBytesMeta RefCounter => u32

/// Where the bytes of a block with this alignment begin.
pub open spec fn start(align: usize) -> int {
    if align >= 12 { align as int } else if align == 8 { 16 } else { 12 }
}
/// Alignments a block may have.
pub open spec fn align_ok(a: usize) -> bool { pow2(a) && 4 <= a <= 0x8000_0000 }

proof fn small(a: usize)
    requires align_ok(a), a < 16
    ensures a == 4 || a == 8
{
    assert(a == 4 || a == 8) by (bit_vector) requires a != 0, a & ((a - 1) as usize) == 0, 4 <= a, a < 16;
}
/// The bytes begin behind the header and at a multiple of the alignment.
proof fn start_aligned(a: usize)
    requires align_ok(a)
    ensures start(a) >= 12, start(a) % a as int == 0
{
    if a < 16 { small(a); } else { assert(a as int % a as int == 0) by (nonlinear_arith) requires a > 0; }
}
proof fn shift(a: usize, r: u32)
    requires align_ok(a), r < 64, 1usize << r <= a >> 2, r < 63 ==> a >> 2 < 1usize << (r + 1) as u32
    ensures 4usize << (r as u8) == a, r < 30
{
    assert(4usize << (r as u8) == a && r < 30) by (bit_vector)
        requires a != 0, a & ((a - 1) as usize) == 0, 4 <= a, a <= 0x8000_0000, r < 64, 1usize << r <= a >> 2, r < 63 ==> a >> 2 < 1usize << ((r + 1) as u32);
}

#[verifier::external_body]
const fn v_zeroed() -> (r: SharedBytesMeta)
    ensures r.refcnt == 0, r.info == 0, r.len == 0
{ unimplemented!() }

impl SharedBytesMeta {
//@fn shared_bytes.rs SharedBytesMeta::compute_start_offset
//@ret r
//@spec
    requires 4 <= align <= 0x8000_0000
    ensures r <= align + 12, align_ok(align) ==> r == start(align) && r >= 12 && r % align as u32 == 0
//@at start
    proof {
        let a = align as u32;
        assert(a as int % a as int == 0) by (nonlinear_arith) requires a > 0;
        if align_ok(align) { start_aligned(align); if align < 16 { small(align); } }
    }
//@end

//@fn shared_bytes.rs SharedBytesMeta::new
//@ret r
//@sub core::mem::zeroed::<Self> ( ) => v_zeroed()
//@spec
    ensures r.refcnt == 0, r.len == 0
//@at start
    proof { assert(pow2(4usize)) by { assert(4usize & 3usize == 0) by (bit_vector); } }
//@end

//@fn shared_bytes.rs SharedBytesMeta::with_len
//@ret r
//@spec
    ensures r == (SharedBytesMeta { len, ..self })
//@end

//@fn shared_bytes.rs SharedBytesMeta::with_align
//@ret r
//@sub . ilog2 ( ) => .v_ilog2()
//@sub core::mem::align_of::<SharedBytesMeta> ( ) => 4
//@spec
    requires align_ok(align)
    ensures r == (SharedBytesMeta { info: r.info, ..self }), r.info < 30, 4usize << r.info == align
//@at start
    proof {
        assert(align >> 2 > 0) by (bit_vector) requires align >= 4;
        assert forall|k: u32| #![trigger 1usize << k] k < 64 && 1usize << k <= align >> 2 && (k < 63 ==> align >> 2 < 1usize << (k + 1) as u32) implies 4usize << (k as u8) == align && k < 30 by { shift(align, k); }
    }
//@end

//@fn shared_bytes.rs SharedBytesMeta::with_refcount
//@ret r
//@sub RefCounter::new ( count ) => count
//@spec
    ensures r == (SharedBytesMeta { refcnt: count, ..self })
//@end

//@fn shared_bytes.rs SharedBytesMeta::align
//@ret r
//@spec
    requires self.info < 30
    ensures r == 4usize << self.info
//@end
}

} // verus!
fn main() {}
