//! The const helpers agree with the standard library.
use crate::ck;
use crate::ctx::{eq, outcome, same, Ctx};
use crate::util::*;
use bytedata::*;

fn strings(alpha: &[u8], max: usize) -> Vec<Vec<u8>> {
    let mut all = vec![vec![]];
    let mut last: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for s in &last {
            for a in alpha {
                let mut t = s.clone();
                t.push(*a);
                next.push(t);
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}

pub fn run(c: &mut Ctx) {
    let hay = strings(b"ab", c.pick(6, 9));
    let need = strings(b"ab", c.pick(3, 4));
    for h in &hay {
        for n in &need {
            pair(c, h, n);
        }
    }
    let hay = strings(b"abc", c.pick(4, 6));
    let need = strings(b"abc", c.pick(2, 3));
    for h in &hay {
        for n in &need {
            pair(c, h, n);
        }
    }
    for (h, n) in [(&b"aaaaaaab"[..], &b"aaab"[..]), (b"abababac", b"ababac"), (b"\xff\xfe\xff", b"\xff\xff"), (b"", b"")] {
        pair(c, h, n);
    }
    for _ in 0..c.pick(30000, 480000) {
        let mut r = c.rng.clone();
        c.rng.next();
        let b = r.next() as u8;
        let n = r.below(70);
        let h = near(&mut r, b, n);
        let s = r.below(n + 1);
        let e = s + r.below(n - s + 1);
        let (s, e) = match r.below(4) {
            0 => (0, e),
            1 => (s, n),
            2 => (s, e.min(s + 4)),
            _ => (s, e),
        };
        let part = h[s..e].to_vec();
        pair(c, &h, &part);
        pair(c, &h, &bent(&mut r, &part));
        pair(c, &h, &bent(&mut r, &h));
        pair(c, &h, &[b]);
    }
    for len in [0usize, 1, 2, 5, 20] {
        let b = crate::reps::bytes(3, len);
        for s in idx(len) {
            for e in idx(len) {
                c.case("const slicing is slice::get", (len, s, e), || eq("const_slice", const_slice(b, s..e), b.get(s..e)));
            }
        }
    }
    for t in TEXTS {
        let ix: Vec<usize> = (0..=t.len() + 2).chain([usize::MAX, 1 << 32]).collect();
        for &s in &ix {
            for &e in &ix {
                c.case("const string slicing is str::get", (t, s, e), || {
                    let want = t.get(s..e);
                    let got = const_slice_str(t, s..e);
                    eq("const_slice_str", got.ok(), want)?;
                    eq("is_ok", got.is_ok(), want.is_some())?;
                    eq("is_err", got.is_err(), want.is_none())?;
                    eq("err", got.err().is_some(), want.is_none())?;
                    eq("unwrap", outcome(|| got.unwrap()), want)?;
                    let inb = s <= e && e <= t.len();
                    match got {
                        StrSliceResult::OutOfBounds => ck!(!inb, "OutOfBounds for a range in bounds"),
                        StrSliceResult::InvalidUtf8 => ck!(inb, "InvalidUtf8 for a range out of bounds"),
                        StrSliceResult::Success(_) => {}
                    }
                    Ok(())
                });
            }
        }
        for u in TEXTS.iter().chain(&["\u{e9}", "b", " ", "\n", "abc", "\u{20ac}\u{20ac}"]) {
            c.case("const string splitting keeps both halves valid", (t, u), || {
                let want = t.find(u).map(|p| t.split_at(p));
                eq("const_split_once_str", const_split_once_str(t, u), want)?;
                eq("const_or_str", const_or_str(want.map(|x| x.0), u), want.map(|x| x.0).unwrap_or(u))
            });
        }
    }
    concat(c);
}

fn pair(c: &mut Ctx, h: &[u8], n: &[u8]) {
    c.case("const comparisons and searches agree with the slice methods", (h, n), || {
        eq("const_eq", const_eq(h, n), h == n)?;
        eq("const_starts_with", const_starts_with(h, n), h.starts_with(n))?;
        eq("const_ends_with", const_ends_with(h, n), h.ends_with(n))?;
        let want = (0..=h.len()).find(|i| h[*i..].starts_with(n));
        eq("const_find_bytes", const_find_bytes(h, n), want)?;
        eq("const_split_once_bytes", const_split_once_bytes(h, n), want.map(|p| h.split_at(p)))?;
        if let Some(&x) = n.first() {
            let w = h.iter().position(|v| *v == x).map(|p| h.split_at(p));
            eq("const_split_once_byte", const_split_once_byte(h, x), w)?;
        }
        eq("const_or_bytes", const_or_bytes(Some(h), n), h)?;
        eq("const_or_bytes", const_or_bytes(None, n), n)
    });
}

fn concat(c: &mut Ctx) {
    const A: &[u8] = concat_bytes_static!(b"ab", b"", b"cde", b"f");
    const _: () = assert!(A.len() == 6);
    c.case("static concatenation macros join their arguments", 0, || {
        same("bytes", A, b"abcdef")?;
        let s: &str = concat_str_static!("a\u{e9}", "", "\u{20ac}z");
        eq("str", s, "a\u{e9}\u{20ac}z")?;
        eq("empty", concat_str_static!(), "")
    });
    for lens in [&[][..], &[0], &[3], &[3, 0, 2], &[4, 4], &[8], &[9], &[4, 5], &[0, 8, 0], &[0, 8, 1]] {
        c.case("building a constant array joins its inputs or refuses", lens, || {
            let pool = crate::reps::bytes(0, 100);
            let mut at = 0;
            let mut v = vec![];
            for l in lens {
                v.push(&pool[at..at + l]);
                at += l;
            }
            let want = v.concat();
            match outcome(|| build_const_bytes([0xAAu8; 8], &v)) {
                None => ck!(at > 8, "refused {at} bytes in an array of 8"),
                Some((a, n)) => {
                    ck!(at <= 8, "accepted {at} bytes in an array of 8");
                    eq("length", n, at)?;
                    same("content", &a[..n], &want)?;
                    ck!(a[n..].iter().all(|x| *x == 0xAA), "bytes after the content changed");
                }
            }
            Ok(())
        });
    }
}
