//! P02: cutting a byte value.
use crate::util::*;
use bytedata::ByteData;
use core::mem::ManuallyDrop;

macro_rules! kind {
    ($any:ident, $cut:ident, $into:ident, $make:ident, $take:ident, $ref1:ident, $ref2:ident, $ref3:ident, $ref4:ident) => {
        #[kani::proof]
        #[kani::unwind(16)]
        fn $cut() {
            let d = ManuallyDrop::new($any());
            each_range!(d.len(), |r, lo, hi, ok| {
                kani::assume(ok);
                let c = ManuallyDrop::new(d.sliced(r));
                same(c.as_slice(), &d.as_slice()[lo..hi]);
                assert!(c.is_empty() == (lo == hi));
            });
        }
        #[kani::proof]
        #[kani::unwind(16)]
        fn $into() {
            let d = $any();
            let m = ManuallyDrop::new(d.clone());
            each_range!(m.len(), |r, lo, hi, ok| {
                kani::assume(ok);
                let c = ManuallyDrop::new(d.into_sliced(r));
                same(c.as_slice(), &m.as_slice()[lo..hi]);
            });
        }
        #[kani::proof]
        #[kani::unwind(16)]
        fn $make() {
            let mut d = ManuallyDrop::new($any());
            let m = ManuallyDrop::new(ByteData::clone(&d));
            each_range!(m.len(), |r, lo, hi, ok| {
                kani::assume(ok);
                d.make_sliced(r);
                same(d.as_slice(), &m.as_slice()[lo..hi]);
            });
        }
        #[kani::proof]
        #[kani::unwind(16)]
        fn $take() {
            let d = $any();
            let m = ManuallyDrop::new(d.clone());
            let p: usize = kani::any();
            kani::assume(p <= m.len());
            if kani::any() {
                let d = &mut *ManuallyDrop::new(d);
                let c = ManuallyDrop::new(d.take_bytes(p));
                same(c.as_slice(), &m.as_slice()[..p]);
                same(d.as_slice(), &m.as_slice()[p..]);
            } else {
                let (x, y) = d.split_at(p);
                let (x, y) = (ManuallyDrop::new(x), ManuallyDrop::new(y));
                same(x.as_slice(), &m.as_slice()[..p]);
                same(y.as_slice(), &m.as_slice()[p..]);
            }
        }
        #[kani::proof]
        #[kani::unwind(16)]
        #[kani::should_panic]
        fn $ref1() {
            let d = ManuallyDrop::new($any());
            each_range!(d.len(), |r, _lo, _hi, ok| {
                kani::assume(!ok);
                core::mem::forget(d.sliced(r));
            });
            returned();
        }
        #[kani::proof]
        #[kani::unwind(16)]
        #[kani::should_panic]
        fn $ref2() {
            let d = $any();
            each_range!(d.len(), |r, _lo, _hi, ok| {
                kani::assume(!ok);
                core::mem::forget(d.into_sliced(r));
            });
            returned();
        }
        #[kani::proof]
        #[kani::unwind(16)]
        #[kani::should_panic]
        fn $ref3() {
            let mut d = ManuallyDrop::new($any());
            each_range!(d.len(), |r, _lo, _hi, ok| {
                kani::assume(!ok);
                d.make_sliced(r);
            });
            returned();
        }
        #[kani::proof]
        #[kani::unwind(16)]
        #[kani::should_panic]
        fn $ref4() {
            let mut d = ManuallyDrop::new($any());
            let p: usize = kani::any();
            kani::assume(p > d.len());
            core::mem::forget(d.take_bytes(p));
            returned();
        }
    };
}

//@ p02_chunk_sliced | complete | ByteData::sliced (inline) | equals slice indexing for every accepted range of all six kinds
//@ p02_chunk_into | complete | ByteData::into_sliced (inline) | equals slice indexing
//@ p02_chunk_make | complete | ByteData::make_sliced (inline) | equals slice indexing
//@ p02_chunk_take | complete | ByteData::take_bytes, ByteData::split_at (inline) | the two parts are the two halves
//@ p02_chunk_sliced_refuses | complete | ByteData::sliced (inline) | every range std refuses is refused
//@ p02_chunk_into_refuses | complete | ByteData::into_sliced (inline) | every range std refuses is refused
//@ p02_chunk_make_refuses | complete | ByteData::make_sliced (inline) | every range std refuses is refused
//@ p02_chunk_take_refuses | complete | ByteData::take_bytes (inline) | a position beyond the end is refused
kind!(any_chunk, p02_chunk_sliced, p02_chunk_into, p02_chunk_make, p02_chunk_take, p02_chunk_sliced_refuses, p02_chunk_into_refuses, p02_chunk_make_refuses, p02_chunk_take_refuses);
//@ p02_borrowed_sliced | bounded(a value of 17 bytes; ranges unbounded) | ByteData::sliced (borrowed) | equals slice indexing for every accepted range of all six kinds
//@ p02_borrowed_into | bounded(a value of 17 bytes; ranges unbounded) | ByteData::into_sliced (borrowed) | equals slice indexing
//@ p02_borrowed_make | bounded(a value of 17 bytes; ranges unbounded) | ByteData::make_sliced (borrowed) | equals slice indexing
//@ p02_borrowed_take | bounded(a value of 17 bytes; ranges unbounded) | ByteData::take_bytes, ByteData::split_at (borrowed) | the two parts are the two halves
//@ p02_borrowed_sliced_refuses | bounded(a value of 17 bytes; ranges unbounded) | ByteData::sliced (borrowed) | every range std refuses is refused
//@ p02_borrowed_into_refuses | bounded(a value of 17 bytes; ranges unbounded) | ByteData::into_sliced (borrowed) | every range std refuses is refused
//@ p02_borrowed_make_refuses | bounded(a value of 17 bytes; ranges unbounded) | ByteData::make_sliced (borrowed) | every range std refuses is refused
//@ p02_borrowed_take_refuses | bounded(a value of 17 bytes; ranges unbounded) | ByteData::take_bytes (borrowed) | a position beyond the end is refused
kind!(fixed_borrowed, p02_borrowed_sliced, p02_borrowed_into, p02_borrowed_make, p02_borrowed_take, p02_borrowed_sliced_refuses, p02_borrowed_into_refuses, p02_borrowed_make_refuses, p02_borrowed_take_refuses);
//@ p02_shared_sliced | bounded(a value of 17 bytes; ranges unbounded) | ByteData::sliced (shared) | equals slice indexing for every accepted range of all six kinds
//@ p02_shared_into | bounded(a value of 17 bytes; ranges unbounded) | ByteData::into_sliced (shared) | equals slice indexing
//@ p02_shared_make | bounded(a value of 17 bytes; ranges unbounded) | ByteData::make_sliced (shared) | equals slice indexing
//@ p02_shared_take | bounded(a value of 17 bytes; ranges unbounded) | ByteData::take_bytes, ByteData::split_at (shared) | the two parts are the two halves
//@ p02_shared_sliced_refuses | bounded(a value of 17 bytes; ranges unbounded) | ByteData::sliced (shared) | every range std refuses is refused
//@ p02_shared_into_refuses | bounded(a value of 17 bytes; ranges unbounded) | ByteData::into_sliced (shared) | every range std refuses is refused
//@ p02_shared_make_refuses | bounded(a value of 17 bytes; ranges unbounded) | ByteData::make_sliced (shared) | every range std refuses is refused
//@ p02_shared_take_refuses | bounded(a value of 17 bytes; ranges unbounded) | ByteData::take_bytes (shared) | a position beyond the end is refused
kind!(fixed_shared, p02_shared_sliced, p02_shared_into, p02_shared_make, p02_shared_take, p02_shared_sliced_refuses, p02_shared_into_refuses, p02_shared_make_refuses, p02_shared_take_refuses);
//@ p02_external_sliced | bounded(a value of 17 bytes; ranges unbounded) | ByteData::sliced (external) | equals slice indexing for every accepted range of all six kinds
//@ p02_external_into | bounded(a value of 17 bytes; ranges unbounded) | ByteData::into_sliced (external) | equals slice indexing
//@ p02_external_make | bounded(a value of 17 bytes; ranges unbounded) | ByteData::make_sliced (external) | equals slice indexing
//@ p02_external_take | bounded(a value of 17 bytes; ranges unbounded) | ByteData::take_bytes, ByteData::split_at (external) | the two parts are the two halves
//@ p02_external_sliced_refuses | bounded(a value of 17 bytes; ranges unbounded) | ByteData::sliced (external) | every range std refuses is refused
//@ p02_external_into_refuses | bounded(a value of 17 bytes; ranges unbounded) | ByteData::into_sliced (external) | every range std refuses is refused
//@ p02_external_make_refuses | bounded(a value of 17 bytes; ranges unbounded) | ByteData::make_sliced (external) | every range std refuses is refused
//@ p02_external_take_refuses | bounded(a value of 17 bytes; ranges unbounded) | ByteData::take_bytes (external) | a position beyond the end is refused
kind!(fixed_external, p02_external_sliced, p02_external_into, p02_external_make, p02_external_take, p02_external_sliced_refuses, p02_external_into_refuses, p02_external_make_refuses, p02_external_take_refuses);
