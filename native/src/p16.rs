//! Reading and writing through std::io moves exactly the bytes.
use crate::ck;
use crate::ctx::{eq, outcome, same, Ctx, Rng};
use crate::reps;
use bytedata::{ByteData, ByteQueue, SharedBytes, SharedBytesBuilder};
use std::io::{BufRead, IoSlice, IoSliceMut, Read, Write};

trait Src: Read + BufRead {
    fn rest(&self) -> Vec<u8>;
    fn wf(&self) -> Result<(), String> {
        Ok(())
    }
}
impl Src for ByteData<'_> {
    fn rest(&self) -> Vec<u8> {
        self.as_slice().to_vec()
    }
}
impl Src for SharedBytes {
    fn rest(&self) -> Vec<u8> {
        self.as_slice().to_vec()
    }
}
impl Src for ByteQueue<'_> {
    fn rest(&self) -> Vec<u8> {
        reps::queue_bytes(self)
    }
    fn wf(&self) -> Result<(), String> {
        reps::queue_wf(self)
    }
}

fn drive<S: Src>(mut s: S, mut c: &'static [u8], seed: u64) -> Result<(), String> {
    let mut r = Rng(seed);
    for step in 0..12 {
        let big = |r: &mut Rng| match r.below(6) {
            0 => 0,
            1 => 1,
            2 => r.below(c.len() + 1),
            3 => c.len(),
            4 => c.len() + 1 + r.below(20),
            _ => r.below(20),
        };
        let before = c;
        match r.below(8) {
            0 | 1 => {
                let n = big(&mut r);
                let mut buf = vec![0xA5u8; n];
                let got = s.read(&mut buf).map_err(|e| e.to_string())?;
                let want = n.min(c.len());
                eq("count from read", got, want)?;
                same("read", &buf[..want], &c[..want])?;
                ck!(buf[want..].iter().all(|b| *b == 0xA5), "read wrote beyond what it reported");
                c = &c[want..];
            }
            2 => {
                let lens: Vec<usize> = (0..r.below(5)).map(|_| if r.below(3) == 0 { 0 } else { big(&mut r) }).collect();
                let mut bufs: Vec<Vec<u8>> = lens.iter().map(|n| vec![0xA5; *n]).collect();
                let total: usize = lens.iter().sum();
                let got = {
                    let mut io: Vec<IoSliceMut<'_>> = bufs.iter_mut().map(|b| IoSliceMut::new(b)).collect();
                    s.read_vectored(&mut io).map_err(|e| e.to_string())?
                };
                let want = total.min(c.len());
                eq("count from read_vectored", got, want)?;
                let flat: Vec<u8> = bufs.concat();
                same("read_vectored", &flat[..want], &c[..want])?;
                ck!(flat[want..].iter().all(|b| *b == 0xA5), "read_vectored wrote beyond what it reported");
                c = &c[want..];
            }
            3 => {
                let b = s.fill_buf().map_err(|e| e.to_string())?;
                ck!(b.is_empty() == c.is_empty(), "fill_buf is empty: {} with {} bytes left", b.is_empty(), c.len());
                ck!(c.starts_with(b), "fill_buf shows other bytes");
                let n = r.below(b.len() + 1);
                s.consume(n);
                c = &c[n..];
            }
            4 => {
                let byte = if c.is_empty() || r.below(3) == 0 { r.next() as u8 } else { c[r.below(c.len().min(40))] };
                let mut buf = b"before".to_vec();
                let got = s.read_until(byte, &mut buf).map_err(|e| e.to_string())?;
                let want = c.iter().position(|x| *x == byte).map_or(c.len(), |i| i + 1);
                eq("count from read_until", got, want)?;
                same("read_until", &buf, &[b"before", &c[..want]].concat())?;
                c = &c[want..];
            }
            5 if step > 4 => {
                let mut buf = b"x".to_vec();
                let got = s.read_to_end(&mut buf).map_err(|e| e.to_string())?;
                eq("count from read_to_end", got, c.len())?;
                same("read_to_end", &buf, &[b"x", c].concat())?;
                c = &c[c.len()..];
            }
            6 => {
                let n = r.below(c.len() + 1).min(1 + r.below(40));
                let mut buf = vec![0; n];
                s.read_exact(&mut buf).map_err(|e| format!("read_exact of {n} from {}: {e}", c.len()))?;
                same("read_exact", &buf, &c[..n])?;
                c = &c[n..];
            }
            _ => {
                let n = r.below(30);
                let mut v = vec![];
                (&mut s).take(n as u64).read_to_end(&mut v).map_err(|e| e.to_string())?;
                let n = n.min(c.len());
                same("take + read_to_end", &v, &c[..n])?;
                c = &c[n..];
            }
        }
        same(&format!("step {step}: unread rest (had {})", before.len()), &s.rest(), c)?;
        s.wf()?;
    }
    Ok(())
}

fn lines(text: &'static str, masks: u64) -> Result<(), String> {
    let want: Vec<String> = text.lines().map(|s| s.to_string()).collect();
    let q = crate::p10::cutq(text.as_bytes(), masks, 1);
    let got: Vec<String> = BufRead::lines(q).collect::<Result<_, _>>().map_err(|e| e.to_string())?;
    eq("lines of a queue", got, want.clone())?;
    let d = ByteData::from_static(text.as_bytes());
    let got: Vec<String> = BufRead::lines(d).collect::<Result<_, _>>().map_err(|e| e.to_string())?;
    eq("lines of byte data", got, want)?;
    let mut q = crate::p10::cutq(text.as_bytes(), masks, 0);
    let mut s = String::new();
    q.read_to_string(&mut s).map_err(|e| e.to_string())?;
    eq("read_to_string", s.as_str(), text)
}

fn until(h: &'static [u8], byte: u8, k: usize, m: u64) -> Result<(), String> {
    fn all<R: BufRead>(mut s: R, h: &[u8], byte: u8) -> Result<(), String> {
        let want: Vec<&[u8]> = h.split_inclusive(|b| *b == byte).collect();
        for w in want {
            let mut buf = vec![];
            let got = s.read_until(byte, &mut buf).map_err(|e| e.to_string())?;
            same("read_until", &buf, w)?;
            eq("count from read_until", got, w.len())?;
        }
        let mut buf = vec![];
        eq("count from read_until at the end", s.read_until(byte, &mut buf).map_err(|e| e.to_string())?, 0)?;
        same("read_until at the end", &buf, b"")
    }
    if let Some(d) = reps::data(k, h) {
        all(d, h, byte)?;
    }
    all(SharedBytes::from_slice(h), h, byte)?;
    all(crate::p10::cutq(h, m, k), h, byte)?;
    let want: Vec<Vec<u8>> = h.split(|b| *b == byte).map(|p| p.to_vec()).collect();
    let want = &want[..want.len() - usize::from(want.last().is_some_and(|p| p.is_empty()))];
    let got: Vec<Vec<u8>> = BufRead::split(crate::p10::cutq(h, m, k + 1), byte).collect::<Result<_, _>>().map_err(|e| e.to_string())?;
    eq("split", &got[..], want)
}

fn too_far(len: usize, amt: usize) -> Result<(), String> {
    let c = reps::bytes(0, len);
    let mut d = ByteData::from_owned(c.to_vec());
    ck!(outcome(|| BufRead::consume(&mut d, amt)).is_none(), "ByteData let {amt} of {len} be consumed");
    let mut d = SharedBytes::from_slice(c);
    ck!(outcome(|| BufRead::consume(&mut d, amt)).is_none(), "SharedBytes let {amt} of {len} be consumed");
    let mut q = ByteQueue::new();
    q.push_back(ByteData::from_owned(c.to_vec()));
    let _ = outcome(|| BufRead::consume(&mut q, amt));
    reps::queue_wf(&q)
}

fn writing(seed: u64) -> Result<(), String> {
    let mut r = Rng(seed);
    let mut q = ByteQueue::new();
    let mut b = SharedBytesBuilder::new();
    let mut m: Vec<u8> = vec![];
    for _ in 0..10 {
        if r.below(2) == 0 {
            let n = if r.below(6) == 0 { r.below(5000) } else { r.below(40) };
            let c = reps::bytes(r.below(90), n);
            eq("count from write to a queue", q.write(c).map_err(|e| e.to_string())?, n)?;
            eq("count from write to a builder", b.write(c).map_err(|e| e.to_string())?, n)?;
            m.extend_from_slice(c);
        } else {
            let parts: Vec<&'static [u8]> = (0..r.below(5)).map(|_| reps::bytes(r.below(90), if r.below(3) == 0 { 0 } else { r.below(30) })).collect();
            let io: Vec<IoSlice<'_>> = parts.iter().map(|p| IoSlice::new(p)).collect();
            let n: usize = parts.iter().map(|p| p.len()).sum();
            eq("count from write_vectored to a queue", q.write_vectored(&io).map_err(|e| e.to_string())?, n)?;
            eq("count from write_vectored to a builder", b.write_vectored(&io).map_err(|e| e.to_string())?, n)?;
            m.extend_from_slice(&parts.concat());
        }
        q.flush().map_err(|e| e.to_string())?;
        b.flush().map_err(|e| e.to_string())?;
        reps::queue_is(&q, &m)?;
        same("builder content", b.as_slice(), &m)?;
    }
    same("built", b.build().as_slice(), &m)?;
    let mut out = vec![];
    std::io::copy(&mut q, &mut out).map_err(|e| e.to_string())?;
    same("copied out of the queue", &out, &m)?;
    ck!(q.is_empty(), "the queue is not empty after reading everything");
    Ok(())
}

pub fn run(c: &mut Ctx) {
    for len in [0usize, 1, 2, 13, 14, 15, 16, 17, 29, 33, 64, 300] {
        let b = reps::bytes(5, len);
        for k in 0..reps::KINDS {
            for _ in 0..c.pick(80, 960) {
                let s = c.rng.next();
                c.case("reading byte data", (len, k, s), || match reps::data(k, b) {
                    Some(d) => drive(d, b, s),
                    None => Ok(()),
                });
            }
        }
        for k in 0..3 {
            for _ in 0..c.pick(300, 3200) {
                let s = c.rng.next();
                c.case("reading shared bytes", (len, k, s), || {
                    let d = match k {
                        0 => SharedBytes::from_slice(b),
                        1 => SharedBytes::from_slice_aligned(b, 128),
                        _ => SharedBytes::from_slice(reps::bytes(0, len + 9)).sliced(5, len),
                    };
                    drive(d, b, s)
                });
            }
        }
        for a in [1usize, 5, usize::MAX - len, usize::MAX - 4] {
            let amt = len.wrapping_add(a);
            if amt > len {
                c.case("consuming more than there is", (len, amt), || too_far(len, amt));
            }
        }
    }
    for i in 0..c.pick(25000, 320000) {
        let mut lens: Vec<usize> = vec![];
        for _ in 0..c.rng.below(if i % 7 == 0 { 36 } else { 6 }) {
            lens.push(c.rng.pick(&[0, 1, 1, 2, 3, 13, 14, 15, 16, 20, 40]));
        }
        let (k, how, s) = (c.rng.below(20), c.rng.below(3), c.rng.next());
        c.case("reading a queue", (lens.clone(), k, how, s), || drive(reps::queue(&lens, k, 3, how), reps::flat(&lens, 3), s));
    }
    for i in 0..c.pick(15000usize, 240000) {
        let mut r = c.rng.clone();
        c.rng.next();
        let byte = if i % 3 == 0 { b'\n' } else { r.next() as u8 };
        let n = r.below(60);
        let h = crate::util::leak(crate::util::near(&mut r, byte, n));
        let (k, m) = (r.below(reps::KINDS), r.next() & r.next());
        c.case("reading until a byte", (h, byte, k, m), || until(h, byte, k, m));
    }
    for &t in crate::util::TEXTS {
        for m in [0, !0, 0x9249_2492_4924_9249, 0x1111_1111_1111_1111] {
            c.case("lines", (t, m), || lines(t, m));
        }
    }
    for _ in 0..c.pick(4000, 48000) {
        let s = c.rng.next();
        c.case("writing", s, || writing(s));
    }
}
