//! Building and converting keeps the bytes, whatever the representation.
use crate::ck;
use crate::ctx::{eq, outcome, same, Ctx};
use crate::reps;
use crate::util::*;
use bytedata::{ByteChunk, ByteData, ByteQueue, SharedBytes, SharedBytesBuilder, StringData};
use std::borrow::Cow;

pub fn run(c: &mut Ctx) {
    let mut lens: Vec<usize> = c.pick(LENS.to_vec(), (0..=64).collect());
    lens.extend_from_slice(BIG);
    for &len in &lens {
        let ats: &[usize] = if len > 300 { &[5] } else { &[0, 5, 31] };
        for &at in ats {
            let b = reps::bytes(at, len);
            for k in 0..reps::KINDS {
                one(c, k, at, len, b);
            }
            shared(c, at, len, b);
        }
    }
    // every single byte value
    for v in 0..=255u8 {
        c.case("one byte values hold that byte", v, || {
            same("ByteData::from_byte", ByteData::from_byte(v).as_slice(), &[v])?;
            same("ByteData::from_chunk", ByteData::from_chunk(&[v]).as_slice(), &[v])?;
            same("ByteChunk::from_byte", ByteChunk::from_byte(v).as_slice(), &[v])?;
            same("index", &[ByteData::from_byte(v)[0]], &[v])
        });
    }
    arrays(c);
    concat(c);
    shared_survive(c);
}

fn one(c: &mut Ctx, k: usize, at: usize, len: usize, b: &'static [u8]) {
    c.case("a byte value holds exactly the bytes it was built from", (k, at, len), || {
        let Some(d) = reps::data(k, b) else { return Ok(()) };
        same("as_slice", d.as_slice(), b)?;
        eq("len", d.len(), b.len())?;
        eq("is_empty", d.is_empty(), b.is_empty())?;
        same("as_ref", d.as_ref(), b)?;
        same("deref", &d, b)?;
        if let Some(x) = d.as_borrowed() {
            same("as_borrowed", x, b)?;
        }
        for i in idx_in(len) {
            if i < len {
                eq("index", d[i], b[i])?;
            } else {
                ck!(outcome(|| d[i]).is_none(), "index {i} of {len} did not panic");
            }
        }
        let dd = d.clone();
        same("clone", dd.as_slice(), b)?;
        drop(d);
        same("clone after the original is gone", dd.as_slice(), b)?;
        let s = dd.into_shared();
        same("into_shared", s.as_slice(), b)?;
        Ok(())
    });
    c.case("conversions between byte types keep the bytes", (k, at, len), || {
        let mk = || reps::data(k, b);
        let Some(d) = mk() else { return Ok(()) };
        let v: Vec<u8> = d.into();
        same("Vec from ByteData", &v, b)?;
        let cow: Cow<'_, [u8]> = mk().unwrap().into();
        same("Cow from ByteData", &cow, b)?;
        let sh: SharedBytes = mk().unwrap().into();
        same("SharedBytes from ByteData", &sh, b)?;
        let back: ByteData<'_> = sh.clone().into();
        same("ByteData from SharedBytes", &back, b)?;
        let q: ByteQueue<'_> = mk().unwrap().into();
        same("ByteQueue from ByteData", &reps::queue_bytes(&q), b)?;
        let sq: SharedBytes = q.clone().into();
        same("SharedBytes from ByteQueue", &sq, b)?;
        let dq: ByteData<'_> = q.clone().into();
        same("ByteData from ByteQueue", &dq, b)?;
        let vq: Vec<u8> = q.into();
        same("Vec from ByteQueue", &vq, b)?;
        let bl: SharedBytesBuilder = sh.into();
        same("builder from SharedBytes", &bl, b)?;
        // two owners: the builder must copy
        let sh: SharedBytes = mk().unwrap().into();
        let keep = sh.clone();
        let mut bl: SharedBytesBuilder = sh.into();
        bl.extend_from_slice(b"tail");
        same("value shared with a builder", &keep, b)?;
        same("builder grown from a shared value", &bl, &[b, b"tail"].concat())?;
        let st = mk().unwrap().statically_borrowed();
        same("statically_borrowed", &st, b)?;
        let bytes: Vec<u8> = mk().unwrap().collect();
        same("iterating the bytes", &bytes, b)?;
        let it: ByteData<'_> = b.iter().copied().collect();
        same("collecting the bytes", &it, b)?;
        let s = String::from_utf8_lossy(b).into_owned();
        let d: ByteData<'_> = s.clone().into();
        same("ByteData from String", &d, s.as_bytes())?;
        let d: ByteData<'_> = Cow::<str>::Owned(s.clone()).into();
        same("ByteData from Cow<str>", &d, s.as_bytes())?;
        let d: ByteData<'_> = Cow::<[u8]>::Borrowed(b).into();
        same("ByteData from borrowed Cow", &d, b)?;
        let d = ByteData::from_cow_static(Cow::Borrowed(b));
        same("ByteData from static Cow", &d, b)?;
        let d = ByteData::from_cow_static(Cow::Owned(b.to_vec()));
        same("ByteData from owned static Cow", &d, b)?;
        let d = ByteData::from_external(s.clone());
        same("ByteData from external String", &d, s.as_bytes())?;
        let d: ByteData<'_> = StringData::from_owned(s.clone()).into();
        same("ByteData from StringData", &d, s.as_bytes())
    });
    let slots = idx_in(len.min(64));
    for &s in &slots {
        c.case("making a value shared copies the chosen range", (k, at, len, s), || {
            let Some(d) = reps::data(k, b) else { return Ok(()) };
            let e = len - (len - s) / 3;
            let x = d.clone().into_shared_range(s..e);
            same("into_shared_range a..b", &x, &b[s..e])?;
            let x = d.clone().into_shared_range(s..);
            same("into_shared_range a..", &x, &b[s..])?;
            let x = d.clone().into_shared_range(..e);
            drop(d);
            same("into_shared_range ..b", &x, &b[..e])
        });
    }
}

fn shared(c: &mut Ctx, at: usize, len: usize, b: &'static [u8]) {
    c.case("shared bytes hold exactly the bytes they were built from", (at, len), || {
        same("from_slice", &SharedBytes::from_slice(b), b)?;
        same("from slice", &SharedBytes::from(b), b)?;
        same("from Vec", &SharedBytes::from(b.to_vec()), b)?;
        let s = String::from_utf8_lossy(b).into_owned();
        same("from String", &SharedBytes::from(s.clone()), s.as_bytes())?;
        same("parse", &s.parse::<SharedBytes>().unwrap(), s.as_bytes())?;
        let x = SharedBytes::from_slice(b);
        same("as_ref", x.as_ref(), b)?;
        eq("len", x.len(), len)?;
        eq("is_empty", x.is_empty(), len == 0)?;
        for i in idx_in(len) {
            if i < len {
                eq("index", x[i], b[i])?;
                same("index a..", &x[i..], &b[i..])?;
                same("index ..a", &x[..i], &b[..i])?;
                same("index a..b", &x[i..len], &b[i..len])?;
            }
        }
        same("index ..", &x[..], b)?;
        for al in [1usize, 2, 4, 8, 16, 32, 64, 128, 256, 512] {
            let y = SharedBytes::from_slice_aligned(b, al);
            same("from_slice_aligned", &y, b)?;
            if len > 0 {
                ck!(y.as_slice().as_ptr() as usize % al == 0, "alignment {al} not honoured");
            }
        }
        Ok(())
    });
}

fn arrays(c: &mut Ctx) {
    macro_rules! arr {
        ($($n:literal)*) => {$(
            c.case("an inline value holds exactly its array", $n as usize, || {
                let mut a = [0u8; $n];
                let p = reps::bytes(3, $n);
                a.copy_from_slice(p);
                same("ByteData::from_chunk", ByteData::from_chunk(&a).as_slice(), p)?;
                same("ByteChunk::from_array", ByteChunk::from_array(&a).as_slice(), p)?;
                same("ByteChunk::from_slice", ByteChunk::from_slice(&a).as_slice(), p)?;
                same("ByteData::from_chunk_slice", ByteData::from_chunk_slice(&a).as_slice(), p)?;
                eq("len", ByteChunk::from_array(&a).len(), $n)?;
                eq("len", ByteData::from_chunk(&a).len(), $n)
            });
        )*};
    }
    arr!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14);
    for n in [15usize, 16, 30, 255, 256, 257, 270, 65536, 65550] {
        c.case("an inline value refuses more than 14 bytes", n, || {
            let p = reps::bytes(3, n);
            ck!(outcome(|| ByteData::from_chunk_slice(p)).is_none(), "from_chunk_slice accepted {n} bytes");
            ck!(outcome(|| ByteChunk::from_slice(p)).is_none(), "ByteChunk::from_slice accepted {n} bytes");
            Ok(())
        });
    }
}

fn concat(c: &mut Ctx) {
    let parts: &[&[usize]] = &[
        &[],
        &[0],
        &[5],
        &[20],
        &[0, 0],
        &[7, 7],
        &[7, 8],
        &[14, 0],
        &[14, 1],
        &[0, 15, 0],
        &[0, 3, 0, 0],
        &[1, 2, 3, 4],
        &[1, 2, 3, 4, 5],
        &[300, 0, 1, 400],
        &[13, 1, 0],
        &[0, 0, 14],
    ];
    for &lens in parts {
        c.case("joining slices gives their concatenation", lens, || {
            let mut at = 0;
            let mut v: Vec<&[u8]> = vec![];
            for l in lens {
                v.push(&reps::bytes(0, 2000)[at..at + l]);
                at += l;
            }
            same("from_concat", &ByteData::from_concat(&v), &v.concat())
        });
    }
    for a in TEXTS {
        for b in TEXTS {
            c.case("joining strings gives their concatenation", (a, b), || {
                let j = format!("{a}{b}");
                same("from_concat", StringData::from_concat(&[a, b]).as_bytes(), j.as_bytes())
            });
        }
    }
}

/// A shared value does not depend on what it was made from.
fn shared_survive(c: &mut Ctx) {
    for &len in &[0usize, 1, 14, 15, 16, 20, 24, 30, 31, 32, 33, 64, 100, 300, 5000] {
        c.case("a shared value outlives what it was made from", len, || {
            let mut v = reps::bytes(9, len).to_vec();
            let want = v.clone();
            let s = ByteData::from_borrowed(&v).into_shared();
            let t = ByteData::from_borrowed(&v).into_shared_range(len / 3..);
            let o = SharedBytes::from(ByteData::from_borrowed(&v));
            let (a, b) = (len / 5, len - len / 7);
            let mut parts: Vec<(&str, usize, usize, ByteData<'static>)> = Vec::new();
            let whole = || ByteData::from_borrowed(&v);
            parts.push(("sliced", a, b, whole().sliced(a..b).into_shared()));
            parts.push(("sliced, all of it", 0, len, whole().sliced(..).into_shared()));
            parts.push(("into_sliced", a, b, whole().into_sliced(a..b).into_shared()));
            parts.push(("sliced twice", a, b, whole().sliced(a..).into_sliced(..b - a).into_shared()));
            parts.push(("sliced, a part of it", a, b, whole().sliced(..b).into_shared_range(a..)));
            let mut m = whole();
            m.make_sliced(a..b);
            parts.push(("make_sliced", a, b, m.into_shared()));
            let mut m = whole();
            let t0 = m.take_bytes(a);
            parts.push(("take_bytes", 0, a, t0.into_shared()));
            parts.push(("what take_bytes left", a, len, m.into_shared()));
            let (x, y) = whole().split_at(b);
            parts.push(("split_at", 0, b, x.into_shared()));
            parts.push(("split_at, the rest", b, len, y.into_shared()));
            parts.push(("clone", 0, len, whole().clone().into_shared()));
            parts.push(("concat", 0, len, ByteData::from_concat(&[&v[..]]).into_shared()));
            parts.push(("cow", 0, len, ByteData::from_cow(Cow::Borrowed(&v[..])).into_shared()));
            parts.push(("cow", 0, len, ByteData::from(Cow::Borrowed(&v[..])).into_shared()));
            let mut st: Vec<(&str, usize, usize, SharedBytes)> = Vec::new();
            st.push(("SharedBytes of a part", a, b, whole().sliced(a..b).into()));
            let own: Vec<(usize, usize, Vec<u8>)> = vec![(a, b, whole().sliced(a..b).into()), (0, len, whole().into())];
            for x in v.iter_mut() {
                *x = !*x;
            }
            drop(v);
            same("into_shared", &s, &want)?;
            same("into_shared_range", &t, &want[len / 3..])?;
            for (what, i, j, d) in &parts {
                same(what, d, &want[*i..*j])?;
            }
            for (what, i, j, d) in &st {
                same(what, d, &want[*i..*j])?;
            }
            for (i, j, d) in &own {
                same("Vec of a part", d, &want[*i..*j])?;
            }
            same("SharedBytes", &o, &want)
        });
    }
}
