//! Exchanging bytes with the bytes crate.
use crate::ck;
use crate::ctx::{eq, outcome, same, Ctx, Rng};
use crate::reps;
use bytedata::{ByteData, ByteQueue, SharedBytes, SharedBytesBuilder};
use bytes::{Buf, BufMut, Bytes, BytesMut};

fn convert(k: usize, c: &'static [u8]) -> Result<(), String> {
    let Some(d) = reps::data(k, c) else { return Ok(()) };
    let p = d.as_slice().as_ptr() as usize;
    let keep = d.clone();
    let b = Bytes::from(d);
    same("Bytes from byte data", &b, c)?;
    if k == 0 && c.len() > 14 {
        ck!(b.as_ptr() as usize == p, "static bytes were copied");
    }
    if matches!(k, 3 | 5) && c.len() > 14 {
        ck!(b.as_ptr() as usize == p, "shared bytes were copied");
    }
    drop(keep);
    let b2 = b.clone();
    same("clone", &b2, c)?;
    let h = c.len() / 2;
    let s = b2.slice(h..);
    drop(b2);
    let back = ByteData::from(b);
    same("byte data from Bytes", back.as_slice(), c)?;
    same("slice", &s, &c[h..])?;
    if k == 0 && c.len() > 14 {
        ck!(back.as_slice().as_ptr() as usize == p, "static bytes were copied on the way back");
    }
    let sh = SharedBytes::from(s.clone());
    same("shared bytes from Bytes", sh.as_slice(), &c[h..])?;
    let q = ByteQueue::from(s);
    reps::queue_is(&q, &c[h..])?;
    let bq = Bytes::from(q);
    same("Bytes from a queue", &bq, &c[h..])?;
    let v: Vec<u8> = bq.into();
    same("vector from Bytes", &v, &c[h..])?;
    // bytes made by the bytes crate itself
    for m in 0..4 {
        let b = match m {
            0 => Bytes::from(c.to_vec()),
            1 => {
                let mut x = BytesMut::with_capacity(c.len() + 9);
                x.put_slice(c);
                x.freeze()
            }
            2 => Bytes::copy_from_slice(c),
            _ => Bytes::from_static(c),
        };
        let piece = b.slice(h..);
        let d = ByteData::from(b.clone());
        same("byte data from Bytes", d.as_slice(), c)?;
        let e = ByteData::from(piece);
        drop(b);
        same("byte data from a slice of Bytes", e.as_slice(), &c[h..])?;
        let x = ByteData::from_external(Bytes::from(c.to_vec()));
        let xp = x.as_slice().as_ptr() as usize;
        let y = x.sliced(h..);
        drop(x);
        let yp = y.as_slice().as_ptr() as usize;
        let back = Bytes::from(y);
        same("Bytes from external Bytes", &back, &c[h..])?;
        if c.len() - h > 14 {
            ck!(yp == xp + h && back.as_ptr() as usize == yp, "external Bytes were copied");
        }
    }
    Ok(())
}

/// A shared buffer handed around on both sides.
fn history(len: usize, align: usize, seed: u64) -> Result<(), String> {
    let c = reps::bytes(9, len);
    let mut r = Rng(seed);
    let mut ours: Vec<(SharedBytes, &'static [u8])> = vec![(SharedBytes::from_slice_aligned(c, align), c)];
    let mut theirs: Vec<(Bytes, &'static [u8])> = vec![];
    let base = ours[0].0.as_slice().as_ptr() as usize;
    for step in 0..30 {
        if ours.is_empty() && theirs.is_empty() {
            break;
        }
        if !ours.is_empty() && (theirs.is_empty() || r.below(3) == 0) {
            let i = r.below(ours.len());
            let l = ours[i].1.len();
            let a = r.below(l + 1);
            let n = r.below(l - a + 1);
            match r.below(8) {
                0 => {
                    let x = (ours[i].0.clone(), ours[i].1);
                    ours.push(x);
                }
                1 => {
                    let x = (ours[i].0.sliced(a, n), &ours[i].1[a..a + n]);
                    ours.push(x);
                }
                2 | 3 => {
                    let (x, y) = ours.swap_remove(i);
                    let b = Bytes::from(x);
                    if !y.is_empty() {
                        let off = y.as_ptr() as usize - c.as_ptr() as usize;
                        ck!(b.as_ptr() as usize == base + off, "step {step}: a shared buffer was copied");
                    }
                    theirs.push((b, y));
                }
                4 => {
                    let (x, y) = &mut ours[i];
                    let b = x.copy_to_bytes(a);
                    let w = &y[..a];
                    *y = &y[a..];
                    theirs.push((b, w));
                }
                5 => {
                    let (x, y) = &mut ours[i];
                    x.advance(a);
                    *y = &y[a..];
                }
                6 => {
                    let (x, y) = ours.swap_remove(i);
                    let b = SharedBytesBuilder::from(x);
                    same("back in a builder", b.as_slice(), y)?;
                }
                _ => {
                    ours.swap_remove(i);
                }
            }
        } else {
            let i = r.below(theirs.len());
            let l = theirs[i].1.len();
            let a = r.below(l + 1);
            let n = r.below(l - a + 1);
            match r.below(12) {
                0 | 1 => {
                    let x = (theirs[i].0.clone(), theirs[i].1);
                    theirs.push(x);
                }
                2 => {
                    let x = (theirs[i].0.slice(a..a + n), &theirs[i].1[a..a + n]);
                    theirs.push(x);
                }
                3 => {
                    let (x, y) = &mut theirs[i];
                    let t = x.split_to(a);
                    let w = &y[..a];
                    *y = &y[a..];
                    theirs.push((t, w));
                }
                4 => {
                    let (x, y) = &mut theirs[i];
                    let t = x.split_off(a);
                    let w = &y[a..];
                    *y = &y[..a];
                    theirs.push((t, w));
                }
                5 => {
                    let (x, y) = theirs.swap_remove(i);
                    let v: Vec<u8> = x.into();
                    same("vector from Bytes", &v, y)?;
                }
                6 => {
                    let (x, y) = theirs.swap_remove(i);
                    let mut v = BytesMut::from(x);
                    same("BytesMut from Bytes", &v, y)?;
                    v.iter_mut().for_each(|b| *b = !*b);
                }
                7 => {
                    let (x, y) = theirs.swap_remove(i);
                    match x.try_into_mut() {
                        Ok(mut v) => {
                            same("BytesMut from unique Bytes", &v, y)?;
                            v.iter_mut().for_each(|b| *b = !*b);
                        }
                        Err(x) => theirs.push((x, y)),
                    }
                }
                8 => {
                    let (x, y) = theirs.swap_remove(i);
                    ours.push((SharedBytes::from(x), y));
                    ours.pop();
                }
                9 => {
                    // other handles of the buffer exist exactly when it is not unique
                    let (x, y) = &theirs[i];
                    if !y.is_empty() {
                        let others = ours.iter().any(|(_, y)| !y.is_empty()) || theirs.iter().enumerate().any(|(j, (_, y))| j != i && !y.is_empty());
                        if others {
                            ck!(!x.is_unique(), "step {step}: Bytes says it is unique while others read the buffer");
                        }
                    }
                }
                _ => {
                    theirs.swap_remove(i);
                }
            }
        }
        for (x, y) in &ours {
            same(&format!("step {step}: shared bytes"), x.as_slice(), y)?;
        }
        for (x, y) in &theirs {
            same(&format!("step {step}: Bytes"), x, y)?;
        }
    }
    Ok(())
}

trait Src: Buf {
    fn rest(&self) -> Vec<u8>;
    fn wf(&self) -> Result<(), String> {
        Ok(())
    }
}
impl Src for ByteData<'_> {
    fn rest(&self) -> Vec<u8> {
        self.as_slice().to_vec()
    }
}
impl Src for SharedBytes {
    fn rest(&self) -> Vec<u8> {
        self.as_slice().to_vec()
    }
}
impl Src for ByteQueue<'_> {
    fn rest(&self) -> Vec<u8> {
        reps::queue_bytes(self)
    }
    fn wf(&self) -> Result<(), String> {
        reps::queue_wf(self)
    }
}

fn drive<S: Src>(mut s: S, mut c: &'static [u8], seed: u64) -> Result<(), String> {
    let mut r = Rng(seed);
    let mut kept: Vec<(Bytes, &'static [u8])> = vec![];
    for step in 0..12 {
        eq("remaining", s.remaining(), c.len())?;
        eq("has_remaining", s.has_remaining(), !c.is_empty())?;
        let ch = s.chunk();
        ck!(ch.is_empty() == c.is_empty(), "chunk is empty: {} with {} bytes remaining", ch.is_empty(), c.len());
        ck!(c.starts_with(ch), "chunk shows other bytes");
        let mut io = [std::io::IoSlice::new(&[]); 40];
        let room = r.below(41);
        let n = s.chunks_vectored(&mut io[..room]);
        ck!(n <= room, "chunks_vectored filled more than its room");
        let flat: Vec<u8> = io[..n].iter().flat_map(|x| x.to_vec()).collect();
        ck!(c.starts_with(&flat), "chunks_vectored shows other bytes");
        ck!(room == 0 || c.is_empty() || !flat.is_empty(), "chunks_vectored shows nothing");
        let a = match r.below(4) {
            0 => 0,
            1 => c.len(),
            2 => r.below(c.len() + 1).min(r.below(20)),
            _ => r.below(c.len() + 1),
        };
        match r.below(7) {
            0 | 1 => {
                s.advance(a);
                c = &c[a..];
            }
            2 | 3 => {
                let b = s.copy_to_bytes(a);
                same("copy_to_bytes", &b, &c[..a])?;
                kept.push((b, &c[..a]));
                c = &c[a..];
            }
            4 => {
                let mut v = vec![0; a];
                s.copy_to_slice(&mut v);
                same("copy_to_slice", &v, &c[..a])?;
                c = &c[a..];
            }
            5 if c.len() >= 8 => {
                eq("get_u64", s.get_u64(), u64::from_be_bytes(c[..8].try_into().unwrap()))?;
                eq("remaining after get_u64", s.remaining(), c.len() - 8)?;
                c = &c[8..];
            }
            _ => {}
        }
        same(&format!("step {step}: rest"), &s.rest(), c)?;
        s.wf()?;
    }
    drop(s);
    for (b, w) in &kept {
        same("extracted bytes after the source is gone", b, w)?;
    }
    Ok(())
}

fn refused(len: usize, far: usize) -> Result<(), String> {
    let c = reps::bytes(0, len);
    macro_rules! go {
        ($mk:expr, $name:literal) => {
            let mut d = $mk;
            ck!(outcome(|| d.advance(far)).is_none(), "{} advanced by {far} of {len}", $name);
            same($name, &d.rest(), c)?;
            let mut d = $mk;
            ck!(outcome(|| d.copy_to_bytes(far)).is_none(), "{} extracted {far} of {len}", $name);
            same($name, &d.rest(), c)?;
        };
    }
    go!(ByteData::from_owned(c.to_vec()), "ByteData");
    go!(ByteData::from_external(c.to_vec()), "external ByteData");
    go!(SharedBytes::from_slice(c), "SharedBytes");
    go!(crate::p10::cutq(c, 0x5555, 0), "ByteQueue");
    Ok(())
}

fn appending(align: usize, seed: u64) -> Result<(), String> {
    let mut r = Rng(seed);
    let mut b = if align == 0 { SharedBytesBuilder::new() } else { SharedBytesBuilder::with_alignment(align) };
    let mut m: Vec<u8> = vec![];
    for _ in 0..12 {
        let n = if r.below(5) == 0 { r.below(2000) } else { r.below(40) };
        let c = reps::bytes(r.below(90), n);
        match r.below(6) {
            0 => b.put_slice(c),
            1 => b.put(c),
            2 => b.put(crate::p10::cutq(c, r.next(), 0)),
            3 => {
                let v = r.next() as u8;
                b.put_bytes(v, n);
                m.extend(std::iter::repeat(v).take(n));
                eq("length", b.len(), m.len())?;
                continue;
            }
            4 => {
                b.put_u32(0x0102_0304);
                m.extend_from_slice(&[1, 2, 3, 4]);
                continue;
            }
            _ => {
                let room = {
                    let u = b.chunk_mut();
                    ck!(u.len() > 0, "chunk_mut has no room");
                    let w = n.min(u.len());
                    u[..w].copy_from_slice(&c[..w]);
                    w
                };
                unsafe { b.advance_mut(room) };
                m.extend_from_slice(&c[..room]);
                same("after chunk_mut", b.as_slice(), &m)?;
                continue;
            }
        }
        m.extend_from_slice(c);
        same("builder", b.as_slice(), &m)?;
        ck!(b.capacity() >= b.len(), "capacity below length");
        eq("remaining_mut", b.has_remaining_mut(), true)?;
        if align > 0 {
            ck!(b.as_slice().as_ptr() as usize % align == 0 || b.is_empty(), "alignment lost");
        }
    }
    same("built", b.build().as_slice(), &m)
}

pub fn run(c: &mut Ctx) {
    for len in [0usize, 1, 2, 13, 14, 15, 16, 17, 28, 29, 33, 64, 300] {
        let b = reps::bytes(5, len);
        for k in 0..reps::KINDS {
            c.case("converting to and from Bytes", (len, k), || convert(k, b));
            for _ in 0..c.pick(80, 960) {
                let s = c.rng.next();
                c.case("byte data as a buffer", (len, k, s), || match reps::data(k, b) {
                    Some(d) => drive(d, b, s),
                    None => Ok(()),
                });
            }
        }
        for al in [1usize, 8, 64] {
            for _ in 0..c.pick(600, 8000) {
                let s = c.rng.next();
                c.case("one buffer on both sides", (len, al, s), || history(len, al, s));
            }
            for _ in 0..c.pick(100, 800) {
                let s = c.rng.next();
                c.case("shared bytes as a buffer", (len, al, s), || drive(SharedBytes::from_slice_aligned(b, al), b, s));
            }
        }
        for far in [len + 1, (1 << 32) + len, (1 << 32), usize::MAX, usize::MAX - len] {
            c.case("refusing to run past the end", (len, far), || refused(len, far));
        }
    }
    for i in 0..c.pick(20000, 320000) {
        let mut lens: Vec<usize> = vec![];
        for _ in 0..c.rng.below(if i % 7 == 0 { 36 } else { 6 }) {
            lens.push(c.rng.pick(&[0, 1, 1, 2, 3, 13, 14, 15, 16, 20, 40]));
        }
        let (k, how, s) = (c.rng.below(20), c.rng.below(3), c.rng.next());
        c.case("a queue as a buffer", (lens.clone(), k, how, s), || drive(reps::queue(&lens, k, 3, how), reps::flat(&lens, 3), s));
    }
    for al in [0usize, 1, 2, 16, 64, 512] {
        for _ in 0..c.pick(600, 8000) {
            let s = c.rng.next();
            c.case("appending through BufMut", (al, s), || appending(al, s));
        }
    }
}
