//! Cutting, draining and replacing byte ranges of a queue.
use crate::ck;
use crate::ctx::{eq, outcome, Ctx};
use crate::p10::cutq;
use crate::reps;
use crate::util::*;
use bytedata::{ByteData, ByteQueue};

fn shapes(c: &Ctx) -> Vec<(Vec<usize>, usize)> {
    let mut v = vec![
        (vec![], 0),
        (vec![1], 0),
        (vec![5], 0),
        (vec![20], 1),
        (vec![1, 1], 0),
        (vec![3, 2], 2),
        (vec![20, 1, 17], 0),
        (vec![1; 4], 1),
        (vec![1; 15], 0),
        (vec![1; 16], 0),
        (vec![2; 17], 2),
        (vec![1; 31], 1),
        (vec![15, 1, 14, 2, 16], 0),
    ];
    if c.thorough() {
        v.extend([(vec![1; 30], 2), (vec![1; 46], 0), (vec![3; 33], 1), (vec![40, 40, 40], 2), (vec![1, 30, 1], 1)]);
    }
    v
}

/// Positions of interest: chunk boundaries and their neighbours, block boundaries, out of range.
fn points(ls: &[usize]) -> Vec<usize> {
    let total: usize = ls.iter().sum();
    let mut v = vec![0, total, total + 1, usize::MAX, (1 << 32) + 1];
    let mut p = 0;
    for (i, l) in ls.iter().enumerate() {
        if i < 3 || i + 3 > ls.len() || (13..=17).contains(&i) || (28..=32).contains(&i) {
            v.extend([p, p + 1, p + l - 1, p + l]);
        }
        p += l;
    }
    v.sort_unstable();
    v.dedup();
    if v.len() > 14 {
        // keep the ends and a spread
        let keep: Vec<usize> = v.iter().enumerate().filter(|(i, _)| i % 3 == 0 || *i < 3 || *i + 5 > v.len()).map(|(_, x)| *x).collect();
        v = keep;
    }
    v
}

pub fn run(c: &mut Ctx) {
    for (ls, how) in shapes(c) {
        let f = reps::flat(&ls, 1);
        let total = f.len();
        let pts = points(&ls);
        let rs: Vec<Rg> = ranges_of(&pts);
        let kinds: &[usize] = c.pick(&[0, 3, 10][..], &[0, 1, 3, 5, 7, 10, 13][..]);
        for &k in kinds {
            for &r in &rs {
                if !c.thorough() && !r.plain() && k != 0 {
                    continue;
                }
                range_ops(c, &ls, how, k, f, r);
            }
            for &n in &pts {
                c.case("consuming drops exactly the first bytes", (&ls, how, k, n), || {
                    let mut q = reps::queue(&ls, k, 1, how);
                    let keep = q.clone();
                    match outcome(|| q.consume(n)) {
                        Some(()) => {
                            if n <= total {
                                reps::queue_is(&q, &f[n..])?;
                            } else {
                                reps::queue_wf(&q)?;
                            }
                        }
                        None => ck!(n > total, "consume({n}) of {total} panicked"),
                    }
                    reps::queue_is(&keep, f)
                });
                if n <= total {
                    c.case("taking from a queue while a predicate holds", (&ls, how, k, n), || {
                        let mut q = reps::queue(&ls, k, 1, how);
                        let mut left = n;
                        let mut seen = vec![];
                        let t = q.take_while(|b| {
                            seen.push(b);
                            let go = left > 0;
                            left = left.saturating_sub(1);
                            go
                        });
                        reps::queue_is(&t, &f[..n])?;
                        reps::queue_is(&q, &f[n..])?;
                        eq("bytes the predicate saw", seen.as_slice(), &f[..(n + 1).min(total)])
                    });
                }
            }
        }
    }
    histories(c);
}

fn range_ops(c: &mut Ctx, ls: &[usize], how: usize, k: usize, f: &'static [u8], r: Rg) {
    let want = r.on(f.len());
    c.case("slicing a queue is slice indexing", (ls, how, k, r), || {
        let q = reps::queue(ls, k, 1, how);
        match (outcome(|| q.slice(r.pair())), want) {
            (None, None) => {}
            (Some(s), Some((a, e))) => {
                reps::queue_is(&s, &f[a..e])?;
                let mut s = s;
                s.push_back(ByteData::from_static(b"!"));
                s.push_front(ByteData::from_static(b"?"));
                reps::queue_is(&s, &[b"?", &f[a..e], b"!"].concat())?;
            }
            (Some(_), None) => return Err("slice: out of range but did not panic".into()),
            (None, Some(_)) => return Err("slice: panicked on a range that is in bounds".into()),
        }
        reps::queue_is(&q, f)
    });
    c.case("draining removes exactly the range and yields it", (ls, how, k, r), || {
        let base = reps::queue(ls, k, 1, how);
        for mode in 0..4 {
            let mut q = base.clone();
            let res = outcome(|| {
                let mut d = q.drain(r.pair());
                let n = d.len();
                match mode {
                    0 => (n, d.collect::<Vec<u8>>()),
                    1 => (n, vec![]),
                    2 => {
                        let mut v = vec![];
                        for _ in 0..2 {
                            v.extend(d.next());
                        }
                        (n, v)
                    }
                    _ => {
                        let mut v = vec![];
                        v.extend(d.nth(1));
                        (n, v)
                    }
                }
            });
            match (res, want) {
                (None, None) => {
                    reps::queue_is(&q, f).map_err(|e| format!("after a refused drain: {e}"))?;
                }
                (Some((n, v)), Some((a, e))) => {
                    let m = &f[a..e];
                    eq("drain length", n, m.len())?;
                    match mode {
                        0 => eq("drained", v.as_slice(), m)?,
                        2 => eq("drained first two", v.as_slice(), &m[..2.min(m.len())])?,
                        3 => eq("drained second", v.first(), m.get(1))?,
                        _ => {}
                    }
                    reps::queue_is(&q, &[&f[..a], &f[e..]].concat()).map_err(|x| format!("after draining (mode {mode}): {x}"))?;
                }
                (Some(_), None) => return Err("drain: out of range but did not panic".into()),
                (None, Some(_)) => return Err("drain: panicked on a range that is in bounds".into()),
            }
        }
        reps::queue_is(&base, f)
    });
    for (i, rep) in [&b""[..], b"R", b"a replacement of more than 14 bytes"].into_iter().enumerate() {
        c.case("replacing a range leaves the rest", (ls, how, k, r, i), || {
            let base = reps::queue(ls, k, 1, how);
            let mut q = base.clone();
            match (outcome(|| q.replace_range(r.pair(), ByteData::from_static(rep))), want) {
                (None, None) => reps::queue_is(&q, f)?,
                (Some(()), Some((a, e))) => {
                    reps::queue_is(&q, &[&f[..a], rep, &f[e..]].concat())?;
                }
                (Some(()), None) => return Err("replace_range: out of range but did not panic".into()),
                (None, Some(_)) => return Err("replace_range: panicked on a range that is in bounds".into()),
            }
            reps::queue_is(&base, f)
        });
    }
}

fn histories(c: &mut Ctx) {
    let runs = c.pick(3000, 80_000);
    for i in 0..runs {
        let mut rng = c.rng.clone();
        c.rng.next();
        let n = rng.below(80);
        let mask = rng.next();
        let steps: Vec<u64> = (0..rng.below(10) + 1).map(|_| rng.next()).collect();
        c.case("a queue edited through any history equals the edited bytes", (i, n, mask, steps.clone()), || {
            let mut m = reps::bytes(i as usize, n).to_vec();
            let mut q = cutq(&m, mask, i as usize);
            for s in &steps {
                let len = m.len();
                let a = (s >> 8) as usize % (len + 1);
                let e = a + (s >> 30) as usize % (len - a + 1);
                match s % 10 {
                    0 => {
                        q.consume(a);
                        m.drain(..a);
                    }
                    1 => {
                        let v: Vec<u8> = q.drain(a..e).collect();
                        eq("drained", v, m.drain(a..e).collect())?;
                    }
                    2 => {
                        drop(q.drain(a..e));
                        m.drain(a..e);
                    }
                    3 => {
                        let r = reps::bytes(e, (s >> 50) as usize % 20);
                        q.replace_range(a..e, ByteData::from_static(r));
                        m.splice(a..e, r.iter().copied());
                    }
                    4 => {
                        q = q.slice(a..e);
                        m = m[a..e].to_vec();
                    }
                    5 => {
                        let t = q.split_off(a);
                        let mut t2 = t;
                        let rest = m.split_off(a);
                        t2.append(core::mem::take(&mut q));
                        q = t2;
                        m = [rest, m].concat();
                    }
                    6 => {
                        q.push_front(ByteData::from_static(b"front!"));
                        m = [b"front!", &m[..]].concat();
                    }
                    7 => {
                        q.push_back(ByteData::from_static(b"at the very back"));
                        m.extend_from_slice(b"at the very back");
                    }
                    8 => {
                        let mut d = q.drain(a..e);
                        let x = d.next();
                        drop(d);
                        let v: Vec<u8> = m.drain(a..e).collect();
                        eq("first drained", x, v.first().copied())?;
                    }
                    _ => {
                        let b = m.get(a).copied().unwrap_or(0);
                        let p = m.iter().position(|x| *x == b).unwrap_or(m.len());
                        let t = q.take_while(|x| x != b);
                        reps::queue_is(&t, &m[..p])?;
                        m.drain(..p);
                    }
                }
                reps::queue_is(&q, &m)?;
            }
            Ok(())
        });
    }
    c.case("an empty queue can be edited", 0, || {
        let mut q = ByteQueue::new();
        q.consume(0);
        ck!(q.drain(..).next().is_none(), "drained something");
        q.replace_range(0..0, ByteData::from_static(b"in"));
        reps::queue_is(&q, b"in")?;
        q.replace_range(.., ByteData::empty());
        reps::queue_is(&q, b"")
    });
}
