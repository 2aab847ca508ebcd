//! The UTF-8 decoders accept exactly what the standard library accepts.
use crate::ck;
use crate::ctx::{eq, Ctx};
use crate::util::*;
use bytedata::{const_utf8_char_next, Utf8CharIndices};

/// The first char of `d` with its width, or `None` if `d` is empty or does not start with one.
fn first(d: &[u8]) -> Option<(char, usize)> {
    for w in 1..=4.min(d.len()) {
        if let Ok(s) = std::str::from_utf8(&d[..w]) {
            return s.chars().next().map(|c| (c, w));
        }
    }
    None
}

fn check(d: &[u8]) -> Result<(), String> {
    let want = first(d);
    let (v, n) = const_utf8_char_next(d);
    eq("const_utf8_char_next", (v, n), want.map_or((0, 0), |(c, w)| (c as u32, w as u32)))?;
    // the whole iteration
    let mut it = Utf8CharIndices::new(d);
    let mut pos = 0;
    loop {
        let (lo, hi) = it.size_hint();
        let rest = &d[pos..];
        eq("remaining", it.remaining(), rest)?;
        match it.next_const() {
            Ok((nx, at, ch)) => {
                let Some((w, n)) = first(rest) else { return Err(format!("accepted an invalid sequence at {pos}")) };
                eq("index and char", (at, ch), (pos, w))?;
                ck!(hi >= 1, "size hint ({lo}, {hi}) but there is a char");
                pos += n;
                it = nx;
            }
            Err((nx, _)) => {
                ck!(first(rest).is_none(), "refused a valid char at {pos}");
                if rest.is_empty() {
                    ck!(lo == 0, "size hint {lo} at the end");
                    eq("remaining at the end", nx.remaining(), &d[d.len()..])?;
                    break;
                }
                pos += 1;
                it = nx;
            }
        }
    }
    // as an iterator over text
    if let Ok(s) = std::str::from_utf8(d) {
        let got: Vec<(usize, char)> = Utf8CharIndices::new(d).map_while(|r| r.ok()).collect();
        let want: Vec<(usize, char)> = s.char_indices().collect();
        eq("char indices", got, want)?;
        let (lo, hi) = Utf8CharIndices::new(d).size_hint();
        let n = s.chars().count();
        ck!(lo <= n && n <= hi, "size hint ({lo}, {hi}) for {n} chars");
    }
    Ok(())
}

pub fn run(c: &mut Ctx) {
    c.case("decoding agrees with the standard library", "empty", || check(&[]));
    // every code point
    for hi in 0..=0x10Fu32 {
        c.case("decoding agrees with the standard library on every code point", hi, || {
            for lo in 0..0x1000u32 {
                    let v = hi << 12 | lo;
                    // the bytes of the code point, also when it is a surrogate or in an overlong form
                    let e3 = [0xE0 | (v >> 12) as u8 & 0xF, 0x80 | (v >> 6) as u8 & 0x3F, 0x80 | v as u8 & 0x3F];
                    let e4 = [0xF0 | (v >> 18) as u8 & 7, 0x80 | (v >> 12) as u8 & 0x3F, e3[1], e3[2]];
                    one(&e3)?;
                    one(&e4)?;
            }
            Ok(())
        });
    }
    // every pair of bytes, and every lead with boundary continuations
    let b: Vec<u8> = vec![0, 1, 0x41, 0x7F, 0x80, 0x81, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xF8, 0xFF];
    for x in 0..=255u8 {
        c.case("decoding agrees with the standard library", (x, "pairs"), || {
            one(&[x])?;
            for y in 0..=255u8 {
                one(&[x, y])?;
            }
            Ok(())
        });
        c.case("decoding agrees with the standard library", (x, "boundaries"), || {
            for &y in &b {
                for &z in &b {
                    one(&[x, y, z])?;
                    for &w in &b {
                        one(&[x, y, z, w])?;
                    }
                }
            }
            Ok(())
        });
    }
    for t in TEXTS {
        c.case("decoding agrees with the standard library", t, || check(t.as_bytes()));
        for cut in 0..t.len() {
            c.case("decoding agrees with the standard library", (t, cut), || {
                check(&t.as_bytes()[cut..])?;
                check(&t.as_bytes()[..cut])?;
                let mut v = t.as_bytes().to_vec();
                v[cut] ^= 0x80;
                check(&v)?;
                v[cut] = 0xC0;
                check(&v)
            });
        }
    }
    for t in long_texts() {
        c.case("decoding agrees with the standard library", t, || check(t));
    }
    let n = c.pick(20_000, 400_000);
    for i in 0..n {
        let mut rng = c.rng.clone();
        c.rng.next();
        let v: Vec<u8> = (0..rng.below(9)).map(|_| if rng.below(2) == 0 { rng.pick(&b) } else { rng.next() as u8 }).collect();
        c.case("decoding agrees with the standard library", (i, v.clone()), || check(&v));
    }
}

fn one(d: &[u8]) -> Result<(), String> {
    check(d).map_err(|e| format!("{d:02x?}: {e}"))
}
