//! Shared byte values: every handle keeps its content, memory is released exactly once.
use crate::ctx::{eq, outcome, same, Ctx};
use crate::reps;
use crate::util::*;
use crate::{ck, with_range};
use bytedata::{ByteData, SharedBytes, SharedBytesBuilder};

pub fn run(c: &mut Ctx) {
    ranges_of_shared(c);
    unique(c);
    histories(c);
}

fn ranges_of_shared(c: &mut Ctx) {
    for &len in c.pick(&[0usize, 1, 15, 40][..], &[0, 1, 2, 14, 15, 40, 300, 70_000][..]) {
        for &(pre, post) in &[(0usize, 0usize), (5, 9)] {
            let whole = reps::bytes(2, len + pre + post);
            let b = &whole[pre..pre + len];
            let mk = move || SharedBytes::from_slice(whole).into_sliced(pre, len);
            for r in ranges(len) {
                c.case("sub-slicing shared bytes is slice indexing", (len, pre, post, r), move || {
                    let d = mk();
                    let want = r.on(len).map(|(s, e)| &b[s..e]);
                    let check = |what: &str, got: Option<SharedBytes>| match (got, want) {
                        (None, None) => Ok(()),
                        (Some(g), Some(w)) => same(what, &g, w),
                        (Some(g), None) => Err(format!("{what}: out of range but gave {} bytes", g.len())),
                        (None, Some(_)) => Err(format!("{what}: panicked on a range that is in bounds")),
                    };
                    check("sliced_range", outcome(|| with_range!(r, |x| d.sliced_range(x))))?;
                    check("into_sliced_range", outcome(|| with_range!(r, |x| d.clone().into_sliced_range(x))))?;
                    let mut m = d.clone();
                    check("make_sliced_range", outcome(|| with_range!(r, |x| m.make_sliced_range(x).clone())))?;
                    let at = match r {
                        Rg::Full => Some(outcome(|| d[..].to_vec())),
                        Rg::From(a) => Some(outcome(|| d[a..].to_vec())),
                        Rg::To(e) => Some(outcome(|| d[..e].to_vec())),
                        Rg::R(a, e) => Some(outcome(|| d[a..e].to_vec())),
                        _ => None,
                    };
                    if let Some(got) = at {
                        eq("indexed", got.as_deref(), want)?;
                    }
                    same("the value after slicing it", &d, b)
                });
            }
            let ix = idx(len);
            for &o in &ix {
                c.case("indexing shared bytes is slice indexing", (len, pre, post, o), move || {
                    let d = mk();
                    eq("byte", outcome(|| d[o]), b.get(o).copied())
                });
                for &n in &ix {
                    c.case("sub-slicing shared bytes by offset and length", (len, pre, post, o, n), move || {
                        let d = mk();
                        let want = o.checked_add(n).and_then(|e| b.get(o..e));
                        let check = |what: &str, got: Option<SharedBytes>| match (got, want) {
                            (None, None) => Ok(()),
                            (Some(g), Some(w)) => same(what, &g, w),
                            (Some(g), None) => Err(format!("{what}: out of range but gave {} bytes", g.len())),
                            (None, Some(_)) => Err(format!("{what}: panicked on a range that is in bounds")),
                        };
                        check("sliced", outcome(|| d.sliced(o, n)))?;
                        check("into_sliced", outcome(|| d.clone().into_sliced(o, n)))?;
                        let mut m = d.clone();
                        check("make_sliced", outcome(|| m.make_sliced(o, n).clone()))?;
                        same("the value after slicing it", &d, b)
                    });
                }
            }
        }
    }
}

fn unique(c: &mut Ctx) {
    for &len in &[1usize, 14, 15, 40, 300] {
        for others in 0..4usize {
            c.case("a shared value is unique exactly when no other handle exists", (len, others), || {
                let d = SharedBytes::from_slice(reps::bytes(1, len));
                ck!(d.is_unique(), "not unique right after creation");
                let hs: Vec<SharedBytes> = (0..others).map(|i| if i % 2 == 0 { d.clone() } else { d.sliced(0, (len + 1) / 2) }).collect();
                eq("is_unique", d.is_unique(), others == 0)?;
                for h in &hs {
                    ck!(!h.is_unique(), "a second handle says it is unique");
                }
                // a builder made from a handle must not write into what others see
                let mut bl: SharedBytesBuilder = d.clone().into();
                for x in bl.as_slice_mut() {
                    *x = !*x;
                }
                bl.extend_from_slice(b"more");
                same("handle", &d, reps::bytes(1, len))?;
                for h in &hs {
                    same("other handle", h, &reps::bytes(1, len)[..h.len()])?;
                }
                drop(bl);
                drop(hs);
                ck!(d.is_unique(), "not unique after the other handles are gone");
                // unique: the same buffer comes back, with the content
                let bl: SharedBytesBuilder = d.into();
                same("builder", &bl, reps::bytes(1, len))
            });
        }
    }
}

#[derive(Clone)]
enum H {
    S(SharedBytes),
    D(ByteData<'static>),
}
impl H {
    fn s(&self) -> &[u8] {
        match self {
            H::S(x) => x,
            H::D(x) => x,
        }
    }
}

/// Random histories over a pool of handles; each handle has the bytes it must show and the id of the
/// allocation it shares.
fn histories(c: &mut Ctx) {
    let runs = c.pick(6000, 150_000);
    for i in 0..runs {
        let mut rng = c.rng.clone();
        c.rng.next();
        let steps: Vec<u64> = (0..rng.below(14) + 2).map(|_| rng.next()).collect();
        c.case("every handle keeps its bytes through a history of sharing", (i, steps.clone()), || {
            let mut hs: Vec<(H, Vec<u8>)> = vec![];
            for (n, s) in steps.iter().enumerate() {
                let pick = if hs.is_empty() { 0 } else { (s >> 8) as usize % hs.len() };
                let op = if hs.is_empty() { 0 } else { s % 12 };
                let r1 = (s >> 16) as usize;
                let r2 = (s >> 32) as usize;
                match op {
                    0 => {
                        let len = [1usize, 14, 15, 16, 33, 200][r1 % 6];
                        let b = reps::bytes(n * 13 + r2 % 50, len);
                        let h = match r2 % 4 {
                            0 => H::S(SharedBytes::from_slice(b)),
                            1 => H::D(ByteData::from_shared(SharedBytes::from_slice(b))),
                            2 => H::S(SharedBytes::from_slice_aligned(b, 32)),
                            _ => {
                                let mut bl = SharedBytesBuilder::with_capacity(r1 % 300);
                                bl.extend_from_slice(&b[..len / 2]);
                                bl.extend_from_slice(&b[len / 2..]);
                                H::S(bl.build())
                            }
                        };
                        hs.push((h, b.to_vec()));
                    }
                    1 | 2 => {
                        let x = hs[pick].clone();
                        hs.push(x);
                    }
                    3 | 4 => {
                        let (h, m) = &hs[pick];
                        let a = r1 % (m.len() + 1);
                        let e = a + r2 % (m.len() - a + 1);
                        let m2 = m[a..e].to_vec();
                        let h2 = match h {
                            H::S(x) => H::S(if op == 3 { x.sliced(a, e - a) } else { x.sliced_range(a..e) }),
                            H::D(x) => H::D(if op == 3 { x.sliced(a..e) } else { x.clone().into_sliced(a..e) }),
                        };
                        hs.push((h2, m2));
                    }
                    5 => {
                        let (h, m) = &mut hs[pick];
                        let a = r1 % (m.len() + 1);
                        let e = a + r2 % (m.len() - a + 1);
                        match h {
                            H::S(x) => {
                                x.make_sliced(a, e - a);
                            }
                            H::D(x) => x.make_sliced(a..e),
                        }
                        *m = m[a..e].to_vec();
                    }
                    6 | 7 => {
                        hs.swap_remove(pick);
                    }
                    8 => {
                        let (h, m) = hs.swap_remove(pick);
                        let h = match h {
                            H::S(x) => H::D(x.into()),
                            H::D(x) => H::S(x.into()),
                        };
                        hs.push((h, m));
                    }
                    9 => {
                        // to a builder, scribble, grow, and back
                        let (h, mut m) = hs.swap_remove(pick);
                        let x: SharedBytes = match h {
                            H::S(x) => x,
                            H::D(x) => x.into(),
                        };
                        let mut bl: SharedBytesBuilder = x.into();
                        same("builder from a handle", &bl, &m)?;
                        for (p, q) in bl.as_slice_mut().iter_mut().zip(m.iter_mut()) {
                            *p ^= 0x5A;
                            *q ^= 0x5A;
                        }
                        let ext = reps::bytes(r1, r2 % 40);
                        bl.extend_from_slice(ext);
                        m.extend_from_slice(ext);
                        if r1 % 3 == 0 {
                            let t = r2 % (m.len() + 1);
                            bl.truncate(t);
                            m.truncate(t);
                        }
                        hs.push((H::S(bl.build()), m));
                    }
                    10 => {
                        if let (H::D(x), m) = &mut hs[pick] {
                            let t = r1 % (m.len() + 1);
                            let y = x.take_bytes(t);
                            let rest = m.split_off(t);
                            let head = core::mem::replace(m, rest);
                            hs.push((H::D(y), head));
                        }
                    }
                    _ => {
                        if let (H::D(_), _) = &hs[pick] {
                            let (h, m) = hs.swap_remove(pick);
                            let H::D(x) = h else { unreachable!() };
                            let t = r1 % (m.len() + 1);
                            let (x, y) = x.split_at(t);
                            hs.push((H::D(x), m[..t].to_vec()));
                            hs.push((H::D(y), m[t..].to_vec()));
                        }
                    }
                }
                for (h, m) in &hs {
                    same("handle", h.s(), m)?;
                }
            }
            Ok(())
        });
    }
}
