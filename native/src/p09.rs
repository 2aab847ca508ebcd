//! A byte queue is a sequence of non-empty chunks, and of their bytes.
use crate::ck;
use crate::ctx::{eq, same, Ctx};
use crate::reps;
use bytedata::{ByteData, ByteQueue, StringData};
use core::fmt::Write as _;

pub const COUNTS: &[usize] = &[0, 1, 2, 3, 4, 14, 15, 16, 17, 29, 30, 31, 32, 44, 45, 46, 47, 61, 62];

pub fn is(q: &ByteQueue<'_>, m: &[Vec<u8>]) -> Result<(), String> {
    let flat = m.concat();
    reps::queue_is(q, &flat)?;
    let cs: Vec<Vec<u8>> = q.chunks().map(|c| c.as_slice().to_vec()).collect();
    eq("chunks", cs, m.to_vec())
}

fn lens(n: usize, how: usize) -> Vec<usize> {
    (0..n).map(|i| [1, 3, 15, 20, 2, 14, 33][(i * (how + 1) + how) % 7]).collect()
}

fn model(ls: &[usize], at: usize) -> Vec<Vec<u8>> {
    let f = reps::flat(ls, at);
    let mut p = 0;
    ls.iter()
        .map(|l| {
            p += l;
            f[p - l..p].to_vec()
        })
        .collect()
}

pub fn run(c: &mut Ctx) {
    for &n in COUNTS {
        for how in 0..3 {
            let ls = lens(n, how);
            c.case("pushing and popping keep the order and the counts", (n, how), || {
                let mut m = model(&ls, how);
                let mut q = reps::queue(&ls, n, how, how);
                is(&q, &m)?;
                let q2 = q.clone();
                is(&q2, &m)?;
                // pop in a pattern
                let mut i = 0;
                while !m.is_empty() {
                    let front = match how {
                        0 => true,
                        1 => false,
                        _ => i % 3 != 0,
                    };
                    i += 1;
                    let (a, b) = if front { (q.pop_front(), m.remove(0)) } else { (q.pop_back(), m.pop().unwrap()) };
                    let Some(a) = a else { return Err("popping gave nothing from a non-empty queue".into()) };
                    same("popped", &a, &b)?;
                    is(&q, &m)?;
                }
                ck!(q.pop_front().is_none() && q.pop_back().is_none(), "popping an empty queue gave something");
                is(&q2, &model(&ls, how))
            });
            for &n2 in COUNTS {
                let ls2 = lens(n2, how + 1);
                c.case("appending a queue moves all its chunks to the end", (n, n2, how), || {
                    let mut q = reps::queue(&ls, n, 0, how);
                    let q2 = reps::queue(&ls2, n2, 3, how + 1);
                    let mut m = model(&ls, 0);
                    m.extend(model(&ls2, 3));
                    q.append(q2);
                    is(&q, &m)?;
                    // still usable at both ends
                    q.push_back(reps::bytes(50, 5));
                    q.push_front(reps::bytes(60, 17));
                    m.push(reps::bytes(50, 5).to_vec());
                    m.insert(0, reps::bytes(60, 17).to_vec());
                    is(&q, &m)?;
                    for _ in 0..20.min(m.len()) {
                        same("popped", &q.pop_back().unwrap_or_default(), &m.pop().unwrap())?;
                    }
                    is(&q, &m)
                });
            }
            let total: usize = ls.iter().sum();
            let mut cuts: Vec<usize> = if c.thorough() || n <= 3 { (0..=total).collect() } else { vec![] };
            let mut p = 0;
            for l in &ls {
                cuts.extend([p, p + 1, (p + l).saturating_sub(1)]);
                p += l;
            }
            cuts.push(total);
            cuts.sort_unstable();
            cuts.dedup();
            for cut in cuts {
                if cut > total {
                    continue;
                }
                c.case("splitting a queue off at a byte position", (n, how, cut), || {
                    let mut q = reps::queue(&ls, n, 0, how);
                    let f = reps::flat(&ls, 0);
                    let t = q.split_off(cut);
                    reps::queue_is(&q, &f[..cut])?;
                    reps::queue_is(&t, &f[cut..])?;
                    q.append(t);
                    reps::queue_is(&q, f)
                });
            }
        }
    }
    for &n in &[1usize, 5, 100] {
        for at in [n + 1, n + 2, usize::MAX, (1 << 32) + 1] {
            c.case("splitting off beyond the end is refused", (n, at), || {
                let mut q = reps::queue(&[n], 0, 0, 0);
                let r = crate::ctx::outcome(|| q.split_off(at));
                ck!(r.is_none(), "split_off({at}) of {n} bytes did not panic");
                Ok(())
            });
        }
    }
    empties(c);
    conv(c);
    histories(c);
    generated(c);
}

fn empties(c: &mut Ctx) {
    for k in 0..reps::KINDS {
        c.case("empty chunks never enter a queue", k, || {
            let mk = || reps::data(k, b"").unwrap_or_default();
            let mut q = ByteQueue::new();
            q.push_back(mk());
            is(&q, &[])?;
            q.push_front(mk());
            is(&q, &[])?;
            is(&ByteQueue::with_item(mk()), &[])?;
            is(&ByteQueue::from(mk()), &[])?;
            q.extend([mk(), ByteData::from_static(b"x"), mk()]);
            is(&q, &[b"x".to_vec()])?;
            q.extend([&b""[..], b"yz", b""]);
            q.extend(["", "\u{e9}"]);
            q.extend([String::new(), "s".to_string()]);
            q.extend([vec![], vec![1u8, 2]]);
            q.extend([StringData::empty(), StringData::from_static("t")]);
            write!(q, "").unwrap();
            let want: Vec<Vec<u8>> = [&b"x"[..], b"yz", "\u{e9}".as_bytes(), b"s", &[1, 2], b"t"].iter().map(|x| x.to_vec()).collect();
            is(&q, &want)?;
            let r: ByteQueue<'_> = [mk(), ByteData::from_static(b"a"), mk(), ByteData::from_static(b"b")].into_iter().collect();
            reps::queue_is(&r, b"ab")?;
            let mut e = ByteQueue::new();
            e.append(ByteQueue::new());
            is(&e, &[])?;
            e.append(r);
            reps::queue_is(&e, b"ab")
        });
    }
}

fn conv(c: &mut Ctx) {
    for &n in COUNTS {
        c.case("a queue converts to its bytes", n, || {
            let ls = lens(n, 1);
            let f = reps::flat(&ls, 4);
            let mk = || reps::queue(&ls, n, 4, 2);
            same("Vec", &Vec::<u8>::from(mk()), f)?;
            same("ByteData", &ByteData::from(mk()), f)?;
            same("SharedBytes", &bytedata::SharedBytes::from(mk()), f)?;
            is(&ByteQueue::default(), &[])?;
            let r: ByteQueue<'_> = mk().into_iter().collect();
            reps::queue_is(&r, f)?;
            reps::queue_is(&ByteQueue::from(f), f)?;
            reps::queue_is(&ByteQueue::from(f.to_vec()), f)
        });
    }
}

/// Random histories against a model, over several queues.
fn histories(c: &mut Ctx) {
    let runs = c.pick(4000, 100_000);
    for i in 0..runs {
        let mut rng = c.rng.clone();
        c.rng.next();
        let long = rng.below(4) == 0;
        let steps: Vec<u64> = (0..rng.below(if long { 90 } else { 20 }) + 1).map(|_| rng.next()).collect();
        c.case("a queue behaves like a sequence of chunks through any history", (i, long, steps.clone()), || {
            let mut q = ByteQueue::new();
            let mut m: Vec<Vec<u8>> = vec![];
            for (n, s) in steps.iter().enumerate() {
                let r = (s >> 8) as usize;
                let r2 = (s >> 36) as usize;
                match s % 13 {
                    0..=3 => {
                        let l = [0usize, 1, 2, 9, 14, 15, 40][r % 7];
                        let b = reps::bytes(n * 7, l);
                        if let Some(d) = reps::data(r2 % reps::KINDS, b) {
                            if s % 2 == 0 {
                                q.push_back(d);
                                if l > 0 {
                                    m.push(b.to_vec());
                                }
                            } else {
                                q.push_front(d);
                                if l > 0 {
                                    m.insert(0, b.to_vec());
                                }
                            }
                        }
                    }
                    4 => {
                        let x = q.pop_front();
                        let y = if m.is_empty() { None } else { Some(m.remove(0)) };
                        eq("popped front", x.map(|x| x.as_slice().to_vec()), y)?;
                    }
                    5 => {
                        let x = q.pop_back();
                        eq("popped back", x.map(|x| x.as_slice().to_vec()), m.pop())?;
                    }
                    6 => {
                        let k = r % 40;
                        let ls = lens(k, r2 % 3);
                        q.append(reps::queue(&ls, r2, n, r2));
                        m.extend(model(&ls, n));
                    }
                    7 => {
                        let k = r % 20;
                        let ls = lens(k, r2 % 3);
                        let mut p = reps::queue(&ls, r2, n, r2);
                        p.append(q);
                        q = p;
                        let mut w = model(&ls, n);
                        w.append(&mut m);
                        m = w;
                    }
                    8 => {
                        let total: usize = m.iter().map(Vec::len).sum();
                        let cut = r % (total + 1);
                        let t = q.split_off(cut);
                        let f = m.concat();
                        reps::queue_is(&t, &f[cut..])?;
                        if r2 % 2 == 0 {
                            reps::queue_is(&q, &f[..cut])?;
                            q = t;
                            m = q.chunks().map(|c| c.as_slice().to_vec()).collect();
                            eq("bytes after the cut", m.concat(), f[cut..].to_vec())?;
                        } else {
                            m = q.chunks().map(|c| c.as_slice().to_vec()).collect();
                            eq("bytes before the cut", m.concat(), f[..cut].to_vec())?;
                        }
                    }
                    9 => {
                        let q2 = q.clone();
                        is(&q, &m)?;
                        q = q2;
                    }
                    10 => {
                        q.extend([ByteData::from_static(b"E1"), ByteData::empty(), ByteData::from_static(b"E2")]);
                        m.push(b"E1".to_vec());
                        m.push(b"E2".to_vec());
                    }
                    11 => {
                        // rotate
                        if let Some(x) = q.pop_front() {
                            q.push_back(x);
                            let y = m.remove(0);
                            m.push(y);
                        }
                    }
                    _ => {
                        if let Some(x) = q.pop_back() {
                            q.push_front(x);
                            let y = m.pop().unwrap();
                            m.insert(0, y);
                        }
                    }
                }
                is(&q, &m)?;
            }
            Ok(())
        });
    }
}

/// Queues made by the generator of the `arbitrary` crate.
fn generated(c: &mut Ctx) {
    use arbitrary::{Arbitrary, Unstructured};
    let mut r = crate::ctx::Rng(c.seed ^ 0xa9);
    for i in 0..c.pick(1200, 20000) {
        let n = if i % 40 == 0 { 3000 } else { r.below(200) };
        let raw = crate::util::noise(&mut r, n);
        c.case("a generated queue is well formed", &raw, || {
            for rest in [false, true] {
                let q = if rest { ByteQueue::arbitrary_take_rest(Unstructured::new(&raw)) } else { ByteQueue::arbitrary(&mut Unstructured::new(&raw)) };
                if let Ok(q) = q {
                    let (n, k) = (q.chunks().map(|x| x.len()).sum::<usize>(), q.chunks().count());
                    crate::ctx::eq("length", q.len(), n)?;
                    crate::ctx::eq("chunks", q.chunk_len(), k)?;
                    ck!(q.chunks().all(|x| !x.is_empty()), "an empty chunk");
                }
            }
            Ok(())
        });
    }
}
