//! Splitting a value on a separator gives the pieces between the matches.
use crate::ck;
use crate::ctx::{eq, same, Ctx};
use crate::reps;
use bytedata::{ByteData, StringData};

/// The pieces between successive non-overlapping matches, without an empty piece at the end.
fn pieces<'a>(h: &'a [u8], n: &[u8]) -> Vec<&'a [u8]> {
    let mut v = vec![];
    let mut s = 0;
    while s < h.len() {
        if n.is_empty() {
            v.push(&h[s..]);
            return v;
        }
        match (s..h.len()).find(|i| h[*i..].starts_with(n)) {
            Some(p) => {
                v.push(&h[s..p]);
                s = p + n.len();
            }
            None => {
                v.push(&h[s..]);
                s = h.len();
            }
        }
    }
    v
}

fn split(h: &'static [u8], n: &'static [u8], k: usize) -> Result<(), String> {
    let Some(d) = reps::data(k, h) else { return Ok(()) };
    let want = pieces(h, n);
    let got: Vec<ByteData<'_>> = d.clone().split_on(n).collect();
    eq("pieces", got.iter().map(|p| p.as_slice()).collect::<Vec<_>>(), want.clone())?;
    let mut joined: Vec<u8> = want.join(n);
    if joined.len() != h.len() {
        joined.extend_from_slice(n);
    }
    same("joined again", &joined, h)?;
    let mut it = d.clone().split_on(n);
    for i in 0..want.len() + 2 {
        let left = want.len().saturating_sub(i);
        let (lo, hi) = it.size_hint();
        ck!(lo <= left && hi.map_or(true, |h| h >= left), "size hint ({lo}, {hi:?}) with {left} pieces left");
        eq("piece", it.next().map(|p| p.as_slice().to_vec()), want.get(i).map(|p| p.to_vec()))?;
    }
    same("the value itself", d.as_slice(), h)?;
    let at = (0..=h.len()).find(|i| h[*i..].starts_with(n));
    match (d.clone().split_once_on(n), at) {
        (Ok((a, b)), Some(i)) => {
            same("before the separator", a.as_slice(), &h[..i])?;
            same("from the separator", b.as_slice(), &h[i..])?;
        }
        (Err(x), None) => same("handed back", x.as_slice(), h)?,
        (Ok(_), None) => return Err("split where there is no separator".into()),
        (Err(_), Some(i)) => return Err(format!("the separator at {i} was not found")),
    }
    Ok(())
}

fn split_text(h: &'static str, n: &'static str, k: usize) -> Result<(), String> {
    let Some(d) = reps::string(k, h) else { return Ok(()) };
    let want = pieces(h.as_bytes(), n.as_bytes());
    let got: Vec<StringData<'_>> = d.clone().split_on(n).collect();
    for p in &got {
        ck!(core::str::from_utf8(p.as_bytes()).is_ok(), "a piece is not valid text");
    }
    eq("pieces", got.iter().map(|p| p.as_bytes()).collect::<Vec<_>>(), want)?;
    match (d.clone().split_once_on(n), h.find(n)) {
        (Ok((a, b)), Some(i)) => {
            same("before the separator", a.as_bytes(), h[..i].as_bytes())?;
            same("from the separator", b.as_bytes(), h[i..].as_bytes())?;
        }
        (Err(x), None) => same("handed back", x.as_bytes(), h.as_bytes())?,
        (Ok(_), None) => return Err("split where there is no separator".into()),
        (Err(_), Some(i)) => return Err(format!("the separator at {i} was not found")),
    }
    Ok(())
}

pub fn run(c: &mut Ctx) {
    let mut small: Vec<&'static [u8]> = vec![];
    for n in 0..=c.pick(6u32, 8) {
        for m in 0..1u32 << n {
            small.push(Box::leak((0..n).map(|i| if m >> i & 1 == 1 { b'b' } else { b'a' }).collect::<Vec<u8>>().into_boxed_slice()));
        }
    }
    for (i, &h) in small.iter().enumerate() {
        for &n in small.iter().filter(|n| n.len() <= 3) {
            for k in [i % reps::KINDS, (i * 7 + 3) % reps::KINDS] {
                c.case("splitting byte data", (h, n, k), || split(h, n, k));
            }
        }
    }
    for &(h, n) in &[
        (&b"one, two, three, four and a last, "[..], &b", "[..]),
        (b"aaaaaaaaaaaaaaaab", b"aab"),
        (b"aabaabaabaabaabaabaab", b"aabaab"),
        (b"0123456789abcd|0123456789abcd|", b"|"),
        (b"0123456789abcde||0123456789abcdef", b"||"),
        (b"0123456789abcdef", b"0123456789abcdef"),
        (b"0123456789abcdef", b"0123456789abcdefg"),
        (b"x0123456789abcdef", b"0123456789abcdef"),
        (b"\xff\x80\xff\x80\xff\xff\x80zz\xff", b"\xff\x80"),
    ] {
        for k in 0..reps::KINDS {
            c.case("splitting byte data", (h, n, k), || split(h, n, k));
        }
    }
    for i in 0..c.pick(15000u64, 240000) {
        let len = c.rng.below(60);
        let h: &'static [u8] = Box::leak((0..len).map(|_| c.rng.pick(b"aab")).collect::<Vec<u8>>().into_boxed_slice());
        let nl = 1 + c.rng.below(4);
        let n: &'static [u8] = Box::leak((0..nl).map(|_| c.rng.pick(b"aab")).collect::<Vec<u8>>().into_boxed_slice());
        let k = i as usize % reps::KINDS;
        c.case("splitting byte data", (h, n, k), || split(h, n, k));
    }
    for i in 0..c.pick(10000u64, 160000) {
        let mut r = c.rng.clone();
        c.rng.next();
        let b = r.next() as u8;
        let len = r.below(60);
        let h = crate::util::leak(crate::util::near(&mut r, b, len));
        let s = r.below(len + 1);
        let mut n = h[s..s + r.below((len - s).min(16) + 1)].to_vec();
        if n.is_empty() || r.below(3) == 0 {
            n = vec![b];
        } else if r.below(3) == 0 {
            n = crate::util::bent(&mut r, &n);
        }
        let n = crate::util::leak(n);
        let k = i as usize % reps::KINDS;
        c.case("splitting byte data", (h, n, k), || split(h, n, k));
    }
    for &t in crate::util::TEXTS {
        let mut seps: Vec<&'static str> = vec!["", "\n", "\r\n", "\u{e9}", "a", "aa", " ", "\u{20ac}\u{20ac}", "e\n"];
        for (i, ch) in t.char_indices() {
            seps.push(&t[i..i + ch.len_utf8()]);
        }
        seps.push(t);
        seps.sort_unstable();
        seps.dedup();
        for &n in &seps {
            for k in 0..reps::SKINDS {
                c.case("splitting text", (t, n, k), || split_text(t, n, k));
            }
        }
    }
}
