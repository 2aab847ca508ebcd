//! Searching a queue sees through the chunk boundaries.
use crate::ck;
use crate::ctx::{eq, same, Ctx};
use crate::reps;
use bytedata::{ByteData, ByteQueue};

/// `h` cut into pieces at the set bits of `mask`.
pub fn cutq(h: &[u8], mask: u64, kind: usize) -> ByteQueue<'static> {
    let mut q = ByteQueue::new();
    let mut s = 0;
    for i in 0..h.len() {
        if i + 1 == h.len() || mask >> (i % 64) & 1 == 1 {
            let p = &h[s..=i];
            q.push_back(match (kind + i) % 3 {
                0 => ByteData::from_owned(p.to_vec()),
                1 => ByteData::from_external(p.to_vec()),
                _ => ByteData::from_shared(bytedata::SharedBytes::from_slice(p)),
            });
            s = i + 1;
        }
    }
    q
}

/// `h` as chunks inline so that 16 or more are cheap, one byte each.
fn single(h: &[u8]) -> ByteQueue<'static> {
    let mut q = ByteQueue::new();
    for b in h {
        q.push_back(ByteData::from_byte(*b));
    }
    q
}

fn find(h: &[u8], n: &[u8], from: usize) -> Option<usize> {
    (from..=h.len()).find(|i| h[*i..].starts_with(n))
}

fn pieces(h: &[u8], n: &[u8], max: usize) -> Vec<Vec<u8>> {
    let mut v = vec![];
    if h.is_empty() || max == 0 {
        return v;
    }
    let mut s = 0;
    loop {
        if v.len() + 1 == max || n.is_empty() {
            v.push(h[s..].to_vec());
            return v;
        }
        match find(h, n, s) {
            Some(p) => {
                v.push(h[s..p].to_vec());
                s = p + n.len();
            }
            None => {
                v.push(h[s..].to_vec());
                return v;
            }
        }
    }
}

fn check(q: &ByteQueue<'_>, h: &[u8], n: &[u8]) -> Result<(), String> {
    eq("starts_with", q.starts_with(n), h.starts_with(n))?;
    eq("ends_with", q.ends_with(n), h.ends_with(n))?;
    eq("find_slice", q.find_slice(n), find(h, n, 0))?;
    for from in 0..=h.len() + 1 {
        eq("find_slice_after", q.find_slice_after(n, from), find(h, n, from))?;
        let there = h.get(from..).is_some_and(|x| x.starts_with(n));
        if !(n.is_empty() && from > h.len()) {
            eq("exists_at", q.exists_at(from, n), there)?;
        }
    }
    if !n.is_empty() {
        eq("exists_at far beyond the end", q.exists_at(usize::MAX, n), false)?;
        eq("find_slice_after far beyond the end", q.find_slice_after(n, usize::MAX), None)?;
        let got: Vec<Vec<u8>> = q.split_on(n).map(|p| Vec::<u8>::from(p)).collect();
        eq("split_on", got, pieces(h, n, usize::MAX))?;
        for max in 1..4 {
            let got: Vec<Vec<u8>> = q.splitn_on(n, max).map(|p| Vec::<u8>::from(p)).collect();
            eq("splitn_on", got, pieces(h, n, max))?;
        }
        for p in q.split_on(n) {
            reps::queue_wf(&p)?;
        }
        eq("find_byte", q.find_byte(|b| b == n[0]), h.iter().position(|b| *b == n[0]))?;
    }
    reps::queue_is(q, h)
}

pub fn run(c: &mut Ctx) {
    let top = c.pick(6, 8);
    let mut needles: Vec<Vec<u8>> = vec![vec![]];
    for l in 1..=c.pick(3usize, 4) {
        for bits in 0..1u32 << l {
            needles.push((0..l).map(|i| b'a' + (bits >> i & 1) as u8).collect());
        }
    }
    for len in 0..=top {
        for bits in 0..1u32 << len {
            let h: Vec<u8> = (0..len).map(|i| b'a' + (bits >> i & 1) as u8).collect();
            let masks = if len == 0 { 1 } else { 1u64 << (len - 1) };
            for mask in 0..masks {
                if !c.thorough() && len >= 6 && (mask * 7 + u64::from(bits)) % 5 != 0 {
                    continue;
                }
                c.case("searches in a queue agree with the flat bytes", (h.clone(), mask), || {
                    let q = cutq(&h, mask, 0);
                    for n in &needles {
                        check(&q, &h, n).map_err(|e| format!("needle {:?}: {e}", String::from_utf8_lossy(n)))?;
                    }
                    Ok(())
                });
            }
        }
    }
    // long queues: the match lies near, on and across block boundaries
    for n in [14usize, 15, 16, 17, 29, 30, 31, 46] {
        for p in 0..n {
            c.case("searches find matches across many chunks", (n, p), || {
                let mut h = vec![b'.'; n + 4];
                h[p..p + 4].copy_from_slice(b"abac");
                let q = single(&h);
                check(&q, &h, b"abac")?;
                check(&q, &h, b"ab")?;
                check(&q, &h, b"ac")?;
                check(&q, &h, b"c")?;
                let q = cutq(&h, 0x5555_5555_5555_5555 << (p % 3), p);
                check(&q, &h, b"abac")?;
                check(&q, &h, b"aba")
            });
        }
    }
    let runs = c.pick(1500, 40_000);
    for i in 0..runs {
        let mut rng = c.rng.clone();
        c.rng.next();
        let n = rng.below(70);
        let h: Vec<u8> = (0..n).map(|_| rng.pick(b"aab")).collect();
        let s = rng.below(n + 1);
        let l = rng.below((n - s).min(6) + 1);
        let mut needle = h[s..s + l].to_vec();
        if rng.below(3) == 0 {
            needle.push(rng.pick(b"ab"));
        }
        let mask = rng.next();
        c.case("searches in a queue agree with the flat bytes (random)", (i, h.clone(), needle.clone(), mask), || {
            let q = cutq(&h, mask, i as usize);
            check(&q, &h, &needle)
        });
    }
    for i in 0..c.pick(2400, 120000) {
        let mut rng = c.rng.clone();
        c.rng.next();
        let b = rng.next() as u8;
        let n = rng.below(50);
        let h = crate::util::near(&mut rng, b, n);
        let s = rng.below(n + 1);
        let l = rng.below((n - s).min(20) + 1);
        let mut needle = h[s..s + l].to_vec();
        if rng.below(2) == 0 {
            needle = crate::util::bent(&mut rng, &needle);
        }
        let mask = rng.next() & if i % 2 == 0 { rng.next() & rng.next() } else { !0 };
        c.case("searches in a queue tell similar bytes apart", (i, h.clone(), needle.clone(), b, mask), || {
            let q = cutq(&h, mask, i as usize);
            check(&q, &h, &needle)?;
            check(&q, &h, &[b])
        });
    }
    c.case("an empty queue finds nothing", 0, || {
        let q = ByteQueue::new();
        check(&q, b"", b"a")?;
        check(&q, b"", b"")?;
        ck!(q.find_byte(|_| true).is_none(), "found a byte in an empty queue");
        same("x", b"", b"")
    });
}
