//! Externally owned bytes keep their owner alive and drop it once.
use crate::ck;
use crate::ctx::{eq, same, Ctx, Rng};
use crate::reps;
use bytedata::external::{ExternalBytes, ExternalOps};
use bytedata::{ByteData, StringData};
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering::Relaxed};
use std::sync::Arc;

static LIVE: AtomicI64 = AtomicI64::new(0);
static DROPS: AtomicI64 = AtomicI64::new(0);
static AT: AtomicUsize = AtomicUsize::new(0);
static BAD: AtomicI64 = AtomicI64::new(0);

macro_rules! owner {
    ($name:ident, $al:literal, $pad:literal, inside $cap:literal) => {
        /// The bytes live inside the owner, so they move with it.
        #[repr(align($al))]
        struct $name {
            pad: [u8; $pad],
            len: usize,
            data: [u8; $cap],
            tag: u64,
        }
        impl $name {
            #[allow(dead_code)]
            const MAX: usize = $cap;
            fn new(d: &[u8]) -> Self {
                LIVE.fetch_add(1, Relaxed);
                let mut data = [0; $cap];
                data[..d.len()].copy_from_slice(d);
                Self { pad: [0x5A; $pad], len: d.len(), data, tag: 0xA11CE }
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                if self.tag != 0xA11CE || self.pad.iter().any(|b| *b != 0x5A) || (self as *const Self as usize) % $al != 0 {
                    BAD.fetch_add(1, Relaxed);
                }
                self.tag = 0;
                LIVE.fetch_sub(1, Relaxed);
                DROPS.fetch_add(1, Relaxed);
            }
        }
        impl ExternalBytes for $name {
            const OPS: ExternalOps<Self> = ExternalOps::new(|o| {
                if o.tag != 0xA11CE || (o as *const Self as usize) % $al != 0 {
                    BAD.fetch_add(1, Relaxed);
                }
                &o.data[..o.len]
            });
        }
    };
}
owner!(In1, 1, 0, inside 64);
owner!(In16, 16, 3, inside 80);
owner!(In64, 64, 1, inside 100);
owner!(In4096, 4096, 0, inside 64);

/// Bytes elsewhere, owner of odd size.
struct Away {
    data: Box<[u8]>,
    _odd: [u8; 5],
}
impl Drop for Away {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, Relaxed);
        DROPS.fetch_add(1, Relaxed);
    }
}
impl ExternalBytes for Away {
    const OPS: ExternalOps<Self> = ExternalOps::new(|o| &o.data);
}

/// An owner without any state.
struct Nothing;
static NOTHING: [u8; 40] = *b"bytes that belong to nobody in particula";
impl Drop for Nothing {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, Relaxed);
        DROPS.fetch_add(1, Relaxed);
    }
}
impl ExternalBytes for Nothing {
    const OPS: ExternalOps<Self> = ExternalOps::new(|_| &NOTHING);
}

pub const OWNERS: usize = 6;

/// A value over owner kind `k` and the content it must read as.
fn make(k: usize, len: usize, at: usize) -> (ByteData<'static>, &'static [u8]) {
    let c = reps::bytes(at, len.min(60));
    match k {
        0 => (ByteData::from_external(In1::new(c)), c),
        1 => (ByteData::from_external(In16::new(c)), c),
        2 => (ByteData::from_external(In64::new(c)), c),
        3 => (ByteData::from_external(In4096::new(c)), c),
        4 => {
            LIVE.fetch_add(1, Relaxed);
            let c = reps::bytes(at, len);
            (ByteData::from_external(Away { data: c.into(), _odd: [1; 5] }), c)
        }
        _ => {
            LIVE.fetch_add(1, Relaxed);
            (ByteData::from_external(Nothing), &NOTHING)
        }
    }
}

fn inside(base: usize, n: usize, d: &[u8]) -> bool {
    let p = d.as_ptr() as usize;
    n > 0 && p >= base && p + d.len() <= base + n && !d.is_empty()
}

fn reset() {
    LIVE.store(0, Relaxed);
    DROPS.store(0, Relaxed);
    BAD.store(0, Relaxed);
    AT.store(0, Relaxed);
}

fn history(k: usize, len: usize, seed: u64) -> Result<(), String> {
    reset();
    let mut r = Rng(seed);
    let (d, c) = make(k, len, (seed % 50) as usize);
    same("content", d.as_slice(), c)?;
    let (base, n) = (d.as_slice().as_ptr() as usize, c.len());
    let mut hs: Vec<(ByteData<'static>, &'static [u8])> = vec![(d, c)];
    let small = c.len() <= 14;
    if small {
        ck!(LIVE.load(Relaxed) == 0 && DROPS.load(Relaxed) == 1, "a short external value was copied inline but its owner is still there");
    }
    for step in 0..30 {
        if hs.is_empty() {
            break;
        }
        let i = r.below(hs.len());
        let l = hs[i].1.len();
        let a = r.below(l + 1);
        let b = a + r.below(l - a + 1);
        match r.below(13) {
            0 | 1 => {
                let x = (hs[i].0.clone(), hs[i].1);
                hs.push(x);
            }
            2 | 3 => {
                let x = (hs[i].0.sliced(a..b), &hs[i].1[a..b]);
                hs.push(x);
            }
            4 => {
                hs[i].0.make_sliced(a..b);
                hs[i].1 = &hs[i].1[a..b];
            }
            5 => {
                let (x, y) = hs.swap_remove(i);
                hs.push((x.into_sliced(a..b), &y[a..b]));
            }
            6 => {
                let (x, y) = hs.swap_remove(i);
                let (p, q) = x.split_at(a);
                hs.push((p, &y[..a]));
                hs.push((q, &y[a..]));
            }
            7 => {
                let (x, y) = &mut hs[i];
                let t = x.take_bytes(a);
                let w = &y[..a];
                *y = &y[a..];
                hs.push((t, w));
            }
            8 => {
                let (x, y) = hs.swap_remove(i);
                let v: Vec<u8> = x.into();
                same("as a vector", &v, y)?;
            }
            9 => {
                let (x, y) = hs.swap_remove(i);
                hs.push((x.into_shared(), y));
            }
            10 => {
                let (x, y) = hs.swap_remove(i);
                let mut q = bytedata::ByteQueue::from(x);
                let t = q.split_off(a);
                let v: Vec<u8> = q.into();
                same("through a queue", &v, &y[..a])?;
                hs.push((ByteData::from(t), &y[a..]));
            }
            _ => {
                hs.swap_remove(i);
            }
        }
        for (j, (x, y)) in hs.iter().enumerate() {
            same(&format!("step {step}, handle {j}"), x.as_slice(), y)?;
        }
        if !small {
            let refers = hs.iter().any(|(x, _)| inside(base, n, x.as_slice()));
            let live = LIVE.load(Relaxed);
            // a handle of nothing may still hold on to the owner, but a handle of its bytes must
            if refers {
                ck!(live == 1, "step {step}: the owner is gone ({live}) while a value reads its bytes");
            }
            let none = hs.iter().all(|(x, _)| !x.is_empty() && !inside(base, n, x.as_slice()));
            if none {
                ck!(live == 0, "step {step}: nothing refers to the owner any more, but it was not dropped");
            }
        }
    }
    drop(hs);
    eq("owners alive at the end", LIVE.load(Relaxed), 0)?;
    eq("drops of the owner", DROPS.load(Relaxed), 1)?;
    eq("corrupted or misplaced owners", BAD.load(Relaxed), 0)
}

/// Taking the vector back.
fn vec_back(len: usize, cap: usize, a: usize, b: usize, shared: bool) -> Result<(), String> {
    let c = reps::bytes(7, len);
    let mut v = Vec::with_capacity(len + cap);
    v.extend_from_slice(c);
    let p = v.as_ptr() as usize;
    let mut d = ByteData::from_external(v);
    d.make_sliced(a..b);
    let in_place = inside(p, len, d.as_slice());
    let other = if shared { Some(d.clone()) } else { None };
    let back: Vec<u8> = d.into();
    same("vector taken back", &back, &c[a..b])?;
    if in_place && !shared {
        ck!(back.as_ptr() as usize == p, "the only handle was copied when taken back");
        ck!(back.capacity() == len + cap, "the vector taken back has another capacity");
    }
    if let Some(o) = other {
        same("the other handle", o.as_slice(), &c[a..b])?;
        if in_place {
            ck!(back.as_ptr() as usize != p, "a shared owner was taken away from another handle");
        }
        let mut back = back;
        back.iter_mut().for_each(|x| *x = !*x);
        same("the other handle after changing the copy", o.as_slice(), &c[a..b])?;
        let o2: Vec<u8> = o.into();
        same("the last handle taken back", &o2, &c[a..b])?;
        if in_place {
            ck!(o2.as_ptr() as usize == p, "the last handle was copied when taken back");
        }
    }
    Ok(())
}

fn std_owners(len: usize, a: usize, b: usize) -> Result<(), String> {
    let c = reps::bytes(11, len);
    let text: String = c.iter().map(|x| (b'a' + x % 26) as char).collect();
    let t = text.as_bytes();
    let arc: Arc<[u8]> = c.into();
    let d = ByteData::from_external(arc.clone());
    let e = d.sliced(a..b);
    same("Arc", d.as_slice(), c)?;
    same("Arc piece", e.as_slice(), &c[a..b])?;
    if len > 14 {
        eq("Arc count while held", Arc::strong_count(&arc), 2)?;
    }
    drop(d);
    same("Arc piece", e.as_slice(), &c[a..b])?;
    eq("Arc count while a piece is held", Arc::strong_count(&arc), if b - a > 14 && len > 14 { 2 } else { 1 })?;
    drop(e);
    eq("Arc count at the end", Arc::strong_count(&arc), 1)?;
    let arc: Arc<str> = text.as_str().into();
    let d = ByteData::from_external(arc.clone());
    same("Arc<str>", d.as_slice(), t)?;
    drop(d);
    eq("Arc<str> count at the end", Arc::strong_count(&arc), 1)?;
    let d = ByteData::from_external(Box::<str>::from(text.as_str()));
    same("Box<str>", d.sliced(a..b).as_slice(), &t[a..b])?;
    let d = ByteData::from_external(text.clone());
    same("String", d.sliced(a..b).as_slice(), &t[a..b])?;
    let v: Vec<u8> = d.into();
    same("String taken back", &v, t)?;
    let d = ByteData::from_external(bytes::Bytes::from(c.to_vec()));
    same("Bytes", d.sliced(a..b).as_slice(), &c[a..b])?;
    let v: Vec<u8> = d.into();
    same("Bytes as a vector", &v, c)?;
    let s = StringData::try_from_bytedata(ByteData::from_external(text.clone())).map_err(|_| "valid text refused".to_string())?;
    same("StringData over an owner", s.sliced(a..b).as_bytes(), &t[a..b])?;
    let v: Vec<u8> = ByteData::from_external(Box::<[u8]>::from(c)).into();
    same("Box taken as a vector", &v, c)?;
    Ok(())
}

pub fn run(c: &mut Ctx) {
    for k in 0..OWNERS {
        for len in [0usize, 1, 13, 14, 15, 16, 17, 28, 30, 31, 48, 60] {
            for _ in 0..c.pick(400, 6400) {
                let s = c.rng.next();
                c.case("external histories", (k, len, s), || history(k, len, s));
            }
        }
    }
    for len in [0usize, 14, 15, 16, 29, 33, 64] {
        for a in [0usize, 1, 2, 15] {
            for b in [len, len.saturating_sub(1), len / 2 + 9] {
                if a <= b && b <= len {
                    for sh in [false, true] {
                        for cap in [0usize, 7] {
                            c.case("taking an external vector back", (len, cap, a, b, sh), || vec_back(len, cap, a, b, sh));
                        }
                    }
                    c.case("owners of the standard library", (len, a, b), || std_owners(len, a, b));
                }
            }
        }
    }
}
