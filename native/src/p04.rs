//! The builder is a growable byte buffer with the alignment it was asked for.
use crate::ck;
use crate::ctx::{eq, outcome, same, Ctx};
use crate::reps;
use bytedata::{ByteData, SharedBytes, SharedBytesBuilder};
use core::fmt::Write as _;
use core::mem::MaybeUninit;

pub fn run(c: &mut Ctx) {
    #[cfg(feature = "borrowed_buf")]
    borrowed_buf(c);
    capacity(c);
    growth(c);
    histories(c);
    generated(c);
}

fn capacity(c: &mut Ctx) {
    let caps: Vec<usize> = c.pick(
        vec![0, 1, 2, 15, 16, 17, 100, 4096, 32766, 32768, 65536, 100_000],
        (0..600).chain([4096, 32752, 32766, 32767, 32768, 32769, 65535, 65536, 100_000, 1 << 20]).collect(),
    );
    for &cap in &caps {
        c.case("a builder made with a capacity has room for it", cap, || {
            let mut b = SharedBytesBuilder::with_capacity(cap);
            ck!(b.capacity() >= cap, "capacity {} asked for {cap}", b.capacity());
            eq("len", b.len(), 0)?;
            ck!(b.is_empty(), "not empty");
            same("content", &b, b"")?;
            let p = reps::bytes(0, cap.min(1000));
            b.extend_from_slice(p);
            same("content", &b, p)?;
            same("built", &b.build(), p)
        });
        for al in 0..=10u32 {
            let align = 1usize << al;
            c.case("an aligned builder has the alignment and the capacity", (cap, align), || {
                let got = outcome(|| SharedBytesBuilder::with_aligned_capacity(cap, align));
                let Some(mut b) = got else {
                    ck!(align > 512, "alignment {align} panicked");
                    return Ok(());
                };
                if cap > 0 {
                    ck!(align <= 512, "alignment {align} did not panic");
                }
                ck!(b.capacity() >= cap, "capacity {} asked for {cap}", b.capacity());
                let n = cap.min(700) + 3;
                let p = reps::bytes(1, n);
                b.extend_from_slice(p);
                same("content", &b, p)?;
                ck!(b.as_slice().as_ptr() as usize % align == 0, "content is not aligned to {align}");
                b.reserve(40_000);
                ck!(b.as_slice().as_ptr() as usize % align == 0, "content is not aligned to {align} after growing");
                same("content after growing", &b, p)?;
                let s = b.build();
                same("built", &s, p)?;
                ck!(s.as_slice().as_ptr() as usize % align == 0, "built content is not aligned to {align}");
                let b2: SharedBytesBuilder = s.into();
                same("builder again", &b2, p)?;
                ck!(b2.as_slice().as_ptr() as usize % align == 0, "rebuilt content is not aligned to {align}");
                Ok(())
            });
        }
    }
    for align in [0usize, 3, 5, 6, 7, 9, 12, 24, 100, 511, 513, 1024, 4096, 1 << 20, usize::MAX] {
        for cap in [1usize, 100] {
            c.case("an alignment that is not a power of two up to 512 is refused", (align, cap), || {
                ck!(
                    outcome(|| SharedBytesBuilder::with_aligned_capacity(cap, align)).is_none(),
                    "with_aligned_capacity({cap}, {align}) did not panic"
                );
                Ok(())
            });
        }
    }
    for cap in [0xFFFF_FFFFusize, 0x1_0000_0000, 0x1_0000_0001, usize::MAX, 0xFFFF_FFF8] {
        c.case("a capacity that cannot be represented is refused", cap, || {
            ck!(outcome(|| SharedBytesBuilder::with_capacity(cap)).is_none(), "with_capacity({cap}) did not panic");
            ck!(
                outcome(|| SharedBytesBuilder::with_aligned_capacity(cap, 64)).is_none(),
                "with_aligned_capacity({cap}, 64) did not panic"
            );
            Ok(())
        });
    }
}

/// Reservation honours the request at every fill level around the growth steps.
fn growth(c: &mut Ctx) {
    let fills: Vec<usize> = c.pick(
        vec![0, 1, 7, 15, 16, 17, 30, 47, 48, 49, 112, 32700, 32751, 32752, 32753, 32760, 65519, 65520, 65521],
        (0..140).chain(32700..32800).chain(65500..65560).chain([100_000]).collect(),
    );
    let adds: Vec<usize> = c.pick(
        vec![0, 1, 15, 16, 17, 100, 32752, 32768, 65536],
        vec![0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 100, 1000, 32700, 32751, 32752, 32753, 32768, 65536, 70_000],
    );
    for &f in &fills {
        for &a in &adds {
            for align in [1usize, 64] {
                c.case("reserving makes room and keeps the content", (f, a, align), || {
                    let mut b = SharedBytesBuilder::with_alignment(align);
                    let p = reps::bytes(4, f);
                    b.extend_from_slice(p);
                    let cap = b.capacity();
                    b.reserve(a);
                    ck!(b.capacity() - b.len() >= a, "reserve({a}) left room for {}", b.capacity() - b.len());
                    ck!(b.capacity() >= cap, "capacity shrank");
                    same("content", &b, p)?;
                    let room = b.capacity();
                    let q = reps::bytes(50, a);
                    b.extend_from_slice(q);
                    eq("capacity after filling the reserved room", b.capacity(), room)?;
                    same("content", &b, &[p, q].concat())?;
                    same("built", &b.build(), &[p, q].concat())
                });
            }
        }
    }
}

fn histories(c: &mut Ctx) {
    let runs = c.pick(5000, 150_000);
    for i in 0..runs {
        let mut rng = c.rng.clone();
        c.rng.next();
        let align = 1usize << rng.below(10);
        let start = rng.below(4);
        let steps: Vec<u64> = (0..rng.below(12) + 1).map(|_| rng.next()).collect();
        c.case("a builder behaves like a growable byte buffer", (i, align, start, steps.clone()), || {
            let mut m: Vec<u8> = vec![];
            let mut b = match start {
                0 => SharedBytesBuilder::new(),
                1 => SharedBytesBuilder::with_alignment(align),
                2 => SharedBytesBuilder::with_aligned_capacity(steps.len() * 9, align),
                _ => {
                    m = reps::bytes(7, 20).to_vec();
                    SharedBytes::from_slice(&m).into()
                }
            };
            for s in &steps {
                let r = (s >> 8) as usize;
                let sizes = [0usize, 1, 3, 15, 16, 17, 40, 200, 33_000];
                let n = sizes[r % (if s >> 60 == 0 { 9 } else { 8 })];
                let p = reps::bytes(r >> 8, n);
                match s % 14 {
                    0 | 1 => {
                        b.extend_from_slice(p);
                        m.extend_from_slice(p);
                    }
                    2 => {
                        b.clear();
                        m.clear();
                    }
                    3 => {
                        let t = [n, n + (1 << 32), usize::MAX, m.len() / 2, 0][(s >> 40) as usize % 5];
                        b.truncate(t);
                        m.truncate(t);
                    }
                    4 => b.reserve(n),
                    5 => {
                        for (x, y) in b.as_slice_mut().iter_mut().zip(m.iter_mut()) {
                            *x = x.wrapping_add(1);
                            *y = y.wrapping_add(1);
                        }
                    }
                    6 => {
                        let room = b.capacity() - b.len();
                        let k = n.min(room);
                        let seen = b.apply_unfilled(|u: &mut [MaybeUninit<u8>]| {
                            for (x, y) in u.iter_mut().zip(p) {
                                x.write(*y);
                            }
                            (u.len(), k)
                        });
                        eq("unfilled room", seen, room)?;
                        m.extend_from_slice(&p[..k]);
                    }
                    7 => {
                        b.extend(p.iter().copied());
                        m.extend_from_slice(p);
                    }
                    8 => {
                        b.extend(p.iter());
                        m.extend_from_slice(p);
                    }
                    9 => {
                        b.extend([p, &p[..n / 2]]);
                        m.extend_from_slice(p);
                        m.extend_from_slice(&p[..n / 2]);
                    }
                    10 => {
                        b.extend(["a\u{e9}", "", "xyz"]);
                        write!(b, "{}-{:?}", n, "q").unwrap();
                        m.extend_from_slice("a\u{e9}xyz".as_bytes());
                        m.extend_from_slice(format!("{}-{:?}", n, "q").as_bytes());
                    }
                    11 => {
                        let sh = core::mem::take(&mut b).build();
                        same("built", &sh, &m)?;
                        let keep = if s >> 50 & 1 == 0 { Some(sh.clone()) } else { None };
                        b = sh.into();
                        if let Some(k) = keep {
                            b.extend_from_slice(&[1, 2, 3]);
                            same("handle to what was built", &k, &m)?;
                            m.extend_from_slice(&[1, 2, 3]);
                        }
                    }
                    12 => {
                        let d: ByteData<'static> = core::mem::take(&mut b).into();
                        same("byte data built", &d, &m)?;
                        b = SharedBytes::from(d).into();
                    }
                    _ => {
                        // slicing off a prefix, then back to a builder
                        let sh = core::mem::take(&mut b).build();
                        let a = n.min(m.len());
                        b = sh.into_sliced(a, m.len() - a).into();
                        m.drain(..a);
                    }
                }
                same("content", &b, &m)?;
                eq("len", b.len(), m.len())?;
                eq("is_empty", b.is_empty(), m.is_empty())?;
                ck!(b.capacity() >= b.len(), "capacity {} below length {}", b.capacity(), b.len());
            }
            let (r, n) = (outcome(|| b.apply_unfilled(|u| ((), u.len() + 1))), b.len());
            ck!(r.is_none(), "claiming more bytes than fit did not panic");
            eq("len after the refused claim", n, m.len())?;
            same("built", &b.build(), &m)
        });
    }
}

#[cfg(feature = "borrowed_buf")]
pub fn borrowed_buf(c: &mut Ctx) {
    for &cap in &[0usize, 1, 16, 40] {
        for &fill in &[0usize, 1, 5, 16] {
            for &add in &[0usize, 1, 3, 16] {
                c.case("a borrowed buffer appends what was filled", (cap, fill, add), || {
                    let mut b = SharedBytesBuilder::with_capacity(cap);
                    let p = reps::bytes(3, fill);
                    b.extend_from_slice(p);
                    let q = reps::bytes(60, add);
                    let mut done = 0;
                    b.apply_borrowed_buf(|bb| {
                        let mut cur = bb.unfilled();
                        done = add.min(cur.capacity());
                        cur.append(&q[..done]);
                    });
                    same("content", &b, &[p, &q[..done]].concat())
                });
            }
        }
    }
}

/// Builders made by the generator of the `arbitrary` crate: filled through their spare room.
fn generated(c: &mut Ctx) {
    use arbitrary::{Arbitrary, Unstructured};
    let mut r = crate::ctx::Rng(c.seed ^ 0xa4);
    for i in 0..c.pick(3000, 160000) {
        let n = if i % 40 == 0 { 3000 } else { r.below(200) };
        let raw = crate::util::noise(&mut r, n);
        c.case("a generated builder holds the bytes it was filled with", &raw, || {
            for rest in [false, true] {
                let b = if rest { SharedBytesBuilder::arbitrary_take_rest(Unstructured::new(&raw)) } else { SharedBytesBuilder::arbitrary(&mut Unstructured::new(&raw)) };
                if let Ok(b) = b {
                    ck!(b.capacity() >= b.len(), "capacity {} below length {}", b.capacity(), b.len());
                    ck!(raw.starts_with(b.as_slice()), "the bytes {} are no prefix of {}", crate::ctx::show(b.as_slice()), crate::ctx::show(&raw));
                    let v = b.as_slice().to_vec();
                    crate::ctx::same("build", b.build().as_slice(), &v)?;
                }
            }
            Ok(())
        });
    }
}
