//! Taking parts of a byte value follows slice indexing.
use crate::ctx::{eq, outcome, same, Ctx};
use crate::reps;
use crate::util::*;
use crate::{ck, with_range};
use bytedata::ByteData;

pub fn run(c: &mut Ctx) {
    let lens: Vec<usize> = c.pick(vec![0, 1, 3, 14, 15, 17, 29], vec![0, 1, 2, 3, 5, 13, 14, 15, 16, 17, 28, 29, 40, 257, 65536]);
    for &len in &lens {
        let b = reps::bytes(len, len);
        let ix = if c.thorough() { idx(len) } else { short_idx(len) };
        for k in 0..reps::KINDS {
            if reps::data(k, b).is_none() {
                continue;
            }
            for r in ranges_of(&ix) {
                slice(c, k, b, r);
            }
            for &i in &idx(len) {
                at(c, k, b, i);
            }
            for n in idx_in(len) {
                take_while(c, k, b, n);
            }
        }
    }
    histories(c);
}

fn short_idx(n: usize) -> Vec<usize> {
    let mut v = vec![0, 1, n / 2, n, n + 1, 256 + n / 2, (1 << 32) + 1, (1 << 32) + n, usize::MAX];
    v.sort_unstable();
    v.dedup();
    v
}

fn slice(c: &mut Ctx, k: usize, b: &'static [u8], r: Rg) {
    c.case("sub-slicing a byte value is slice indexing", (k, b.len(), r), || {
        let d = reps::data(k, b).unwrap();
        let want = r.on(b.len()).map(|(s, e)| &b[s..e]);
        let check = |what: &str, got: Option<ByteData<'static>>| -> Result<(), String> {
            match (got, want) {
                (None, None) => Ok(()),
                (Some(g), Some(w)) => same(what, &g, w),
                (Some(g), None) => Err(format!("{what}: out of range but gave {} bytes", g.len())),
                (None, Some(_)) => Err(format!("{what}: panicked on a range that is in bounds")),
            }
        };
        check("sliced", outcome(|| with_range!(r, |x| d.sliced(x))))?;
        same("the value after slicing it", &d, b)?;
        check("into_sliced", outcome(|| with_range!(r, |x| d.clone().into_sliced(x))))?;
        check("into_shared_range", outcome(|| with_range!(r, |x| d.clone().into_shared_range(x))))?;
        let mut m = d.clone();
        let ok = outcome(|| with_range!(r, |x| m.make_sliced(x)));
        match (ok, want) {
            (Some(()), Some(w)) => same("make_sliced", &m, w)?,
            (None, None) => {}
            (Some(()), None) => return Err("make_sliced: out of range but did not panic".into()),
            (None, Some(_)) => return Err("make_sliced: panicked on a range that is in bounds".into()),
        }
        same("the value after its clones were sliced", &d, b)
    });
}

fn at(c: &mut Ctx, k: usize, b: &'static [u8], i: usize) {
    c.case("splitting a byte value at a position", (k, b.len(), i), || {
        let d = reps::data(k, b).unwrap();
        let ok = i <= b.len();
        match outcome(|| d.clone().split_at(i)) {
            Some((x, y)) => {
                ck!(ok, "split_at({i}) of {} did not panic", b.len());
                same("first part", &x, &b[..i])?;
                same("second part", &y, &b[i..])?;
            }
            None => ck!(!ok, "split_at({i}) of {} panicked", b.len()),
        }
        let mut m = d.clone();
        match outcome(|| m.take_bytes(i)) {
            Some(x) => {
                ck!(ok, "take_bytes({i}) of {} did not panic", b.len());
                same("taken", &x, &b[..i])?;
                same("left", &m, &b[i..])?;
            }
            None => ck!(!ok, "take_bytes({i}) of {} panicked", b.len()),
        }
        same("the original", &d, b)
    });
}

fn take_while(c: &mut Ctx, k: usize, b: &'static [u8], n: usize) {
    c.case("taking while a predicate holds", (k, b.len(), n), || {
        let mut d = reps::data(k, b).unwrap();
        let mut seen = vec![];
        let mut left = n;
        let x = ByteData::take_while(&mut d, |v: u8| {
            seen.push(v);
            if left == 0 {
                return false;
            }
            left -= 1;
            true
        });
        same("taken", &x, &b[..n])?;
        same("left", &d, &b[n..])?;
        same("bytes the predicate saw", &seen[..], &b[..(n + 1).min(b.len())])
    });
}

/// Cut a value again and again, from both ends, in all representations.
fn histories(c: &mut Ctx) {
    let runs = c.pick(3000, 60_000);
    for i in 0..runs {
        let mut rng = c.rng.clone();
        c.rng.next();
        let k = rng.below(reps::KINDS);
        let len = rng.pick(&[3usize, 14, 15, 16, 29, 60, 300]);
        let steps: Vec<u64> = (0..rng.below(9) + 1).map(|_| rng.next()).collect();
        c.case("a sequence of cuts equals the same cuts on a slice", (i, k, len, steps.clone()), || {
            let b = reps::bytes(i as usize, len);
            let Some(mut d) = reps::data(k, b) else { return Ok(()) };
            let mut m: &[u8] = b;
            let mut kept: Vec<(ByteData<'static>, Vec<u8>)> = vec![];
            for s in &steps {
                let n = m.len();
                let a = (s >> 8) as usize % (n + 1);
                let e = a + (s >> 32) as usize % (n - a + 1);
                match s % 8 {
                    0 => {
                        d.make_sliced(a..e);
                        m = &m[a..e];
                    }
                    1 => {
                        let t = d.take_bytes(a.min(3));
                        kept.push((t, m[..a.min(3)].to_vec()));
                        m = &m[a.min(3)..];
                    }
                    2 => {
                        kept.push((d.sliced(a..e), m[a..e].to_vec()));
                    }
                    3 => {
                        let (x, y) = d.split_at(a);
                        kept.push((x, m[..a].to_vec()));
                        d = y;
                        m = &m[a..];
                    }
                    4 => {
                        if a < n {
                            d = d.into_sliced(a..=n - 1);
                            m = &m[a..];
                        }
                    }
                    5 => {
                        d = d.into_shared_range(a..e);
                        m = &m[a..e];
                    }
                    6 => {
                        kept.push((d.clone(), m.to_vec()));
                        if kept.len() > 2 {
                            kept.remove(0);
                        }
                    }
                    _ => {
                        let first = d.next();
                        eq("next", first, m.first().copied())?;
                        m = m.get(1..).unwrap_or(&[]);
                    }
                }
                same("value", &d, m)?;
                for (x, w) in &kept {
                    same("value taken earlier", x, w)?;
                }
            }
            Ok(())
        });
    }
}
