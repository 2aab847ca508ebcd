//! P05: the inline chunk.
use crate::util::*;
use bytedata::ByteChunk;
use core::fmt::Write;

fn any() -> ByteChunk {
    let a: [u8; 14] = kani::any();
    ByteChunk::from_slice(sub(&a))
}

//@ p05_from_slice | complete | ByteChunk::from_slice, ByteChunk::as_slice, ByteChunk::len, ByteChunk::is_empty | any content of up to 14 bytes is stored exactly
#[kani::proof]
#[kani::unwind(16)]
fn p05_from_slice() {
    let a: [u8; 14] = kani::any();
    let m = sub(&a);
    let c = ByteChunk::from_slice(m);
    assert!(c.len() == m.len() && c.is_empty() == m.is_empty());
    same(c.as_slice(), m);
    kani::cover!(m.len() == 14);
    kani::cover!(m.is_empty());
}

//@ p05_from_slice_refuses | bounded(length <= 64) | ByteChunk::from_slice | more than 14 bytes are refused
#[kani::proof]
#[kani::unwind(16)]
#[kani::should_panic]
fn p05_from_slice_refuses() {
    let a = [0u8; 64];
    let m = sub(&a);
    kani::assume(m.len() > 14);
    let _ = ByteChunk::from_slice(m);
    returned();
}

//@ p05_from_array | complete | ByteChunk::from_array, ByteChunk::from_byte, ByteChunk::default | arrays and single bytes are stored exactly
#[kani::proof]
#[kani::unwind(16)]
fn p05_from_array() {
    let a: [u8; 14] = kani::any();
    let b: [u8; 5] = kani::any();
    let c: u8 = kani::any();
    same(ByteChunk::from_array(&a).as_slice(), &a);
    same(ByteChunk::from_array(&b).as_slice(), &b);
    assert!(ByteChunk::from_array(&[0u8; 0]).is_empty());
    let o = ByteChunk::from_byte(c);
    assert!(o.len() == 1 && o.as_slice()[0] == c && !o.is_empty());
    assert!(ByteChunk::default().is_empty() && ByteChunk::default().len() == 0);
}

//@ p05_sliced | complete | ByteChunk::sliced, ByteChunk::into_sliced, ByteChunk::make_sliced | slicing by any accepted range is slice indexing
#[kani::proof]
#[kani::unwind(16)]
fn p05_sliced() {
    let mut c = any();
    let o = c;
    each_range!(o.len(), |r, lo, hi, ok| {
        kani::assume(ok);
        let m = &o.as_slice()[lo..hi];
        same(c.sliced(r.clone()).as_slice(), m);
        same(c.as_slice(), o.as_slice());
        same(c.into_sliced(r.clone()).as_slice(), m);
        c.make_sliced(r);
        same(c.as_slice(), m);
    });
}

macro_rules! refuses {
    ($n:ident, |$c:ident, $r:ident| $e:expr) => {
        #[kani::proof]
        #[kani::unwind(16)]
        #[kani::should_panic]
        fn $n() {
            #[allow(unused_mut)]
            let mut $c = any();
            each_range!($c.len(), |$r, _lo, _hi, ok| {
                kani::assume(!ok);
                let _ = $e;
            });
            returned();
        }
    };
}
//@ p05_sliced_refuses | complete | ByteChunk::sliced | every range std refuses is refused
refuses!(p05_sliced_refuses, |c, r| c.sliced(r));
//@ p05_into_sliced_refuses | complete | ByteChunk::into_sliced | every range std refuses is refused
refuses!(p05_into_sliced_refuses, |c, r| c.into_sliced(r));
//@ p05_make_sliced_refuses | complete | ByteChunk::make_sliced | every range std refuses is refused
refuses!(p05_make_sliced_refuses, |c, r| c.make_sliced(r));

//@ p05_write | bounded(text <= 16 bytes) | ByteChunk::write_str | writing text appends it, or fails and leaves the chunk alone when it does not fit
#[kani::proof]
#[kani::unwind(18)]
fn p05_write() {
    let mut c = any();
    let o = c;
    let mut t: [u8; 16] = kani::any();
    let mut i = 0;
    while i < 16 {
        t[i] &= 0x7f;
        i += 1;
    }
    let t = sub(&t);
    let s = unsafe { core::str::from_utf8_unchecked(t) };
    let r = c.write_str(s);
    if o.len() + t.len() > 14 {
        assert!(r.is_err());
        same(c.as_slice(), o.as_slice());
    } else {
        assert!(r.is_ok() && c.len() == o.len() + t.len());
        same(&c.as_slice()[..o.len()], o.as_slice());
        same(&c.as_slice()[o.len()..], t);
    }
    kani::cover!(r.is_err());
    kani::cover!(r.is_ok() && !t.is_empty());
}
