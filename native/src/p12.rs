//! The iterators of a queue agree with iteration over the flat bytes and chunks.
use crate::ck;
use crate::ctx::{eq, Ctx};
use crate::reps;

/// Drive an exact-size iterator in a scripted way next to a slice iterator.
fn drive<I: ExactSizeIterator<Item = u8>>(make: impl Fn() -> I, m: &[u8], script: &[usize]) -> Result<(), String> {
    // play the first `k` steps of the script on both
    let play = |k: usize| {
        let mut it = make();
        let mut w = m.iter().copied();
        for &s in &script[..k] {
            eq("len", it.len(), w.len())?;
            eq("size hint", it.size_hint(), w.size_hint())?;
            if s == 0 {
                eq("next", it.next(), w.next())?;
            } else {
                eq("nth", it.nth(s - 1), w.nth(s - 1))?;
            }
        }
        eq("len", it.len(), w.len())?;
        Ok::<_, String>((it, w))
    };
    for k in 0..=script.len() {
        let (it, w) = play(k)?;
        eq("count of the rest", it.count(), w.count())?;
        let (it, w) = play(k)?;
        eq("last of the rest", it.last(), w.last())?;
        let (it, w) = play(k)?;
        eq("the rest", it.collect::<Vec<u8>>(), w.collect::<Vec<u8>>())?;
    }
    let (mut it, _) = play(script.len())?;
    it.by_ref().for_each(drop);
    ck!(it.next().is_none() && it.next().is_none(), "yielded after the end");
    eq("len at the end", it.len(), 0)
}

const SCRIPTS: &[&[usize]] = &[
    &[],
    &[0, 0, 0],
    &[1, 2, 3],
    &[5, 0, 16],
    &[0, 15, 1, 17],
    &[40, 0],
    &[usize::MAX, 0],
    &[2, 2, 2, 2, 2, 2, 2, 2],
    &[15, 15, 15],
    &[14, 0, 1, 16, 31],
];

pub fn run(c: &mut Ctx) {
    let mut shapes: Vec<Vec<usize>> = vec![
        vec![],
        vec![1],
        vec![20],
        vec![1, 1],
        vec![3, 20, 1],
        vec![1; 14],
        vec![1; 15],
        vec![1; 16],
        vec![2; 17],
        vec![1; 30],
        vec![1; 31],
        vec![3; 46],
        vec![14, 15, 16, 1],
    ];
    if c.thorough() {
        for n in 2..70 {
            shapes.push((0..n).map(|i| i % 4 + 1).collect());
        }
    }
    for ls in &shapes {
        let f = reps::flat(ls, 2);
        let total = f.len();
        for how in 0..3 {
            for (si, script) in SCRIPTS.iter().enumerate() {
                c.case("byte iterators agree with the flat bytes", (ls, how, si), || {
                    let q = reps::queue(ls, si, 2, how);
                    drive(|| q.bytes(), f, script)?;
                    reps::queue_is(&q, f)?;
                    drive(|| q.clone().into_bytes(), f, script)?;
                    reps::queue_is(&q, f)
                });
            }
            for n in [0, 1, 2, 3, 14, 15, 16, total / 2, total.saturating_sub(1), total, total + 1, usize::MAX - 1, usize::MAX] {
                for n2 in [0, 1, 5, total, usize::MAX] {
                    c.case("skipping and limiting a byte iterator", (ls, how, n, n2), || {
                        let q = reps::queue(ls, 4, 2, how);
                        let s = &f[n.min(total)..];
                        let t = &f[..n.min(total)];
                        drive(|| q.bytes().skip(n), s, &[0, 1])?;
                        drive(|| q.bytes().take(n), t, &[0, 1])?;
                        drive(|| q.bytes().skip(n).take(n2), &s[..n2.min(s.len())], &[0])?;
                        drive(|| q.bytes().take(n).skip(n2), &t[n2.min(t.len())..], &[0])?;
                        drive(|| q.bytes().skip(n).skip(n2), &s[n2.min(s.len())..], &[])?;
                        drive(|| q.clone().into_bytes().skip(n), s, &[0, 1])?;
                        drive(|| q.clone().into_bytes().take(n), t, &[0, 1])?;
                        drive(|| q.clone().into_bytes().skip(n).take(n2), &s[..n2.min(s.len())], &[0])?;
                        drive(|| q.clone().into_bytes().take(n).skip(n2), &t[n2.min(t.len())..], &[0])?;
                        eq("is_empty", q.bytes().skip(n).is_empty(), s.is_empty())?;
                        eq("is_empty", q.clone().into_bytes().take(n).is_empty(), t.is_empty())?;
                        reps::queue_is(&q, f)
                    });
                }
            }
            c.case("chunk iterators agree with the chunks", (ls, how), || {
                let q = reps::queue(ls, 1, 2, how);
                let mut p = 0;
                let m: Vec<Vec<u8>> = ls
                    .iter()
                    .map(|l| {
                        p += l;
                        f[p - l..p].to_vec()
                    })
                    .collect();
                let n = m.len();
                let get = |x: &bytedata::ByteData<'_>| x.as_slice().to_vec();
                eq("chunks", q.chunks().map(get).collect::<Vec<_>>(), m.clone())?;
                eq("iter", q.iter().map(get).collect::<Vec<_>>(), m.clone())?;
                eq("into_iter by reference", (&q).into_iter().map(get).collect::<Vec<_>>(), m.clone())?;
                for k in [0, 1, 2, 13, 14, 15, 16, 17, 29, 30, 31, n, n + 1, usize::MAX] {
                    let w = &m[k.min(n)..];
                    let it = q.chunks().skip(k);
                    eq("skip: len", it.len(), w.len())?;
                    eq("skip", it.map(get).collect::<Vec<_>>(), w.to_vec())?;
                    let after = || {
                        let mut it = q.chunks();
                        eq("nth", it.nth(k).map(get), m.get(k).cloned())?;
                        Ok::<_, String>(it)
                    };
                    let it = after()?;
                    let w = &m[k.saturating_add(1).min(n)..];
                    eq("len after nth", it.len(), w.len())?;
                    eq("size hint after nth", it.size_hint(), (w.len(), Some(w.len())))?;
                    eq("after nth", after()?.map(get).collect::<Vec<_>>(), w.to_vec())?;
                    eq("count after nth", after()?.count(), w.len())?;
                    eq("last after nth", after()?.last().map(get), w.last().cloned())?;
                }
                // owned, from both ends
                for pat in 0..4 {
                    let mut it = q.clone().into_iter();
                    let mut w: std::collections::VecDeque<Vec<u8>> = m.clone().into();
                    let mut i = 0usize;
                    loop {
                        eq("owned len", it.len(), w.len())?;
                        eq("owned size hint", it.size_hint(), (w.len(), Some(w.len())))?;
                        let back = match pat {
                            0 => false,
                            1 => true,
                            2 => i % 2 == 1,
                            _ => i % 5 == 3,
                        };
                        i += 1;
                        let (x, y) = if back { (it.next_back(), w.pop_back()) } else { (it.next(), w.pop_front()) };
                        eq("owned chunk", x.map(|x| get(&x)), y.clone())?;
                        if y.is_none() {
                            break;
                        }
                        if pat == 3 && i == 20 {
                            break;
                        }
                    }
                    eq("owned count", it.count(), w.len())?;
                }
                reps::queue_is(&q, f)
            });
            c.case("draining iterators agree with the flat bytes", (ls, how), || {
                for (si, script) in SCRIPTS.iter().enumerate() {
                    let mut q = reps::queue(ls, si, 2, how);
                    let (a, e) = (total / 5, total - total / 4);
                    let mut w = f[a..e].iter().copied();
                    let mut d = q.drain(a..e);
                    for &s in *script {
                        eq("drain len", d.len(), w.len())?;
                        eq("drain size hint", d.size_hint(), w.size_hint())?;
                        if s == 0 {
                            eq("drain next", d.next(), w.next())?;
                        } else {
                            eq("drain nth", d.nth(s - 1), w.nth(s - 1))?;
                        }
                    }
                    if si % 2 == 0 {
                        eq("drain count", d.count(), w.count())?;
                    } else {
                        eq("drain last", d.last(), w.last())?;
                    }
                    reps::queue_is(&q, &[&f[..a], &f[e..]].concat())?;
                }
                Ok(())
            });
        }
    }
}
