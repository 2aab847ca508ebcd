//! String values are valid UTF-8 and are cut like `str`.
use crate::ctx::{eq, outcome, same, Ctx, Rng};
use crate::reps;
use crate::util::*;
use crate::ck;
use bytedata::{ByteData, SharedBytes, SharedBytesBuilder, SharedStrBuilder, StringData};
use core::fmt::Write as _;
use std::borrow::Cow;

fn is(what: &str, got: &StringData<'_>, want: &str) -> Result<(), String> {
    same(what, got.as_bytes(), want.as_bytes())?;
    ck!(std::str::from_utf8(got.as_bytes()).is_ok(), "{what}: not UTF-8");
    eq(what, got.as_str(), want)?;
    eq("len", got.len(), want.len())?;
    eq("is_empty", got.is_empty(), want.is_empty())
}

const SPACES: &[&str] = &["", " ", "\t\n", "\u{a0}", "\u{3000} ", "\u{2028}", "\u{200b}", "\u{b}\u{c}\r", "\u{85}"];

pub fn run(c: &mut Ctx) {
    for t in TEXTS {
        for k in 0..reps::SKINDS {
            if reps::string(k, t).is_none() {
                continue;
            }
            whole(c, k, t);
            let full: Vec<usize> = (0..=t.len() + 1).chain([usize::MAX, (1 << 32) + 1, 256]).collect();
            let ix = if t.len() > 20 && !c.thorough() { idx(t.len()) } else { full };
            for r in ranges_of(&ix) {
                if r.plain() {
                    slice(c, k, t, r);
                }
            }
            for &i in &ix {
                at(c, k, t, i);
            }
        }
    }
    for a in SPACES {
        for b in SPACES {
            for m in ["", "x", "a b", "\u{e9}", "0123456789abcdefg"] {
                let s: &'static str = Box::leak(format!("{a}{m}{b}").into_boxed_str());
                for k in 0..reps::SKINDS {
                    c.case("trimming is the trimming of str", (k, s), || {
                        let Some(d) = reps::string(k, s) else { return Ok(()) };
                        is("trim", &d.trim(), s.trim())?;
                        is("trim_start", &d.trim_start(), s.trim_start())?;
                        is("trim_end", &d.trim_end(), s.trim_end())?;
                        is("the value after trimming", &d, s)
                    });
                }
            }
        }
    }
    invalid(c);
    builder(c);
    histories(c);
    generated(c);
}

/// Values made by the generator of the `arbitrary` crate.
fn generated(c: &mut Ctx) {
    use arbitrary::{Arbitrary, Unstructured};
    let mut r = Rng(c.seed ^ 0xa8);
    for i in 0..c.pick(1600, 20000) {
        let n = if i % 40 == 0 { 3000 } else { r.below(90) };
        let raw = noise(&mut r, n);
        c.case("a generated string is a text", &raw, || {
            let mut u = Unstructured::new(&raw);
            for _ in 0..4 {
                if let Ok(s) = StringData::arbitrary(&mut u) {
                    let t = String::from_utf8(s.as_bytes().to_vec()).map_err(|e| format!("arbitrary: {e}"))?;
                    is("arbitrary", &s, &t)?;
                }
            }
            if let Ok(s) = StringData::arbitrary_take_rest(Unstructured::new(&raw)) {
                let t = String::from_utf8(s.as_bytes().to_vec()).map_err(|e| format!("arbitrary_take_rest: {e}"))?;
                is("arbitrary_take_rest", &s, &t)?;
            }
            Ok(())
        });
    }
}

fn whole(c: &mut Ctx, k: usize, t: &'static str) {
    c.case("a string value holds exactly its text", (k, t), || {
        let d = reps::string(k, t).unwrap();
        is("as_str", &d, t)?;
        if let Some(b) = d.as_borrowed() {
            eq("as_borrowed", b, t)?;
        }
        is("clone", &d.clone(), t)?;
        is("into_shared", &d.clone().into_shared(), t)?;
        is("statically_borrowed", &d.clone().statically_borrowed(), t)?;
        eq("as_ref", AsRef::<str>::as_ref(&d), t)?;
        same("as_ref", AsRef::<[u8]>::as_ref(&d), t.as_bytes())?;
        same("as_bytedata", d.as_bytedata(), t.as_bytes())?;
        let s: String = d.clone().into();
        eq("String", s.as_str(), t)?;
        let s: Cow<'_, str> = d.clone().into();
        eq("Cow", &*s, t)?;
        let v: Vec<u8> = d.clone().into();
        same("Vec", &v, t.as_bytes())?;
        let b: ByteData<'_> = d.clone().into();
        same("ByteData", &b, t.as_bytes())?;
        is("back from bytes", &StringData::try_from_bytedata(b).map_err(|_| "refused valid text")?, t)?;
        let sh = SharedBytes::from(d.clone().into_bytedata());
        is("from shared", &StringData::try_from_shared(sh).map_err(|_| "refused valid text")?, t)?;
        eq("chars", d.iter().collect::<String>().as_str(), t)?;
        eq("by value chars", d.clone().collect::<String>().as_str(), t)?;
        let mut it = d.clone();
        let mut left = t.chars();
        loop {
            let (lo, hi) = it.size_hint();
            let n = left.clone().count();
            ck!(lo <= n && hi.map_or(true, |h| n <= h), "size hint ({lo}, {hi:?}) with {n} chars left");
            let (x, y) = (it.next(), left.next());
            eq("next char", x, y)?;
            if x.is_none() {
                break;
            }
            is("the rest", &it, left.as_str())?;
        }
        eq("display", format!("{d}").as_str(), t)?;
        eq("padded display", format!("[{d:>40}]"), format!("[{t:>40}]"))?;
        let b: SharedStrBuilder = d.into();
        eq("builder", b.as_str(), t)
    });
}

fn slice(c: &mut Ctx, k: usize, t: &'static str, r: Rg) {
    c.case("sub-slicing a string value is str indexing", (k, t, r), || {
        let d = reps::string(k, t).unwrap();
        let want = r.on(t.len()).and_then(|(s, e)| t.get(s..e));
        let check = |what: &str, got: Option<StringData<'static>>| match (got, want) {
            (None, None) => Ok(()),
            (Some(g), Some(w)) => is(what, &g, w),
            (Some(g), None) => Err(format!("{what}: out of range or inside a char but gave {:?}", g.as_bytes())),
            (None, Some(_)) => Err(format!("{what}: panicked on a valid range")),
        };
        macro_rules! go {
            ($x:expr) => {{
                let x = $x;
                check("sliced", outcome(|| d.sliced(x.clone())))?;
                check("into_sliced", outcome(|| d.clone().into_sliced(x.clone())))?;
                check("into_shared_range", outcome(|| d.clone().into_shared_range(x.clone())))?;
                let mut m = d.clone();
                let ok = outcome(|| m.make_sliced(x.clone()));
                check("make_sliced", ok.map(|()| m))?;
            }};
        }
        match r {
            Rg::Full => go!(..),
            Rg::From(a) => go!(a..),
            Rg::To(b) => go!(..b),
            Rg::ToInc(b) => go!(..=b),
            Rg::R(a, b) => go!(a..b),
            Rg::Inc(a, b) => go!(a..=b),
            _ => {}
        }
        is("the value after slicing it", &d, t)
    });
}

fn at(c: &mut Ctx, k: usize, t: &'static str, i: usize) {
    c.case("splitting a string value at a position", (k, t, i), || {
        let d = reps::string(k, t).unwrap();
        let ok = t.is_char_boundary(i);
        match outcome(|| d.clone().split_at(i)) {
            Some((x, y)) => {
                ck!(ok, "split_at({i}) did not panic");
                is("first part", &x, &t[..i])?;
                is("second part", &y, &t[i..])?;
            }
            None => ck!(!ok, "split_at({i}) panicked"),
        }
        // take while: the first i chars
        let mut m = d.clone();
        let mut left = i;
        let n = t.char_indices().nth(i).map_or(t.len(), |x| x.0);
        let x = StringData::take_while(&mut m, |_: char| {
            let go = left > 0;
            left = left.saturating_sub(1);
            go
        });
        is("taken", &x, &t[..n])?;
        is("left", &m, &t[n..])?;
        // the i-th line
        let mut m = d.clone();
        let mut rest = t;
        for _ in 0..i.min(8) {
            let line = m.take_line();
            let n = rest.find('\n').map_or(rest.len(), |p| p + 1);
            is("line", &line, &rest[..n])?;
            rest = &rest[n..];
            is("after the line", &m, rest)?;
        }
        is("the original", &d, t)
    });
}

fn invalid(c: &mut Ctx) {
    for b in long_texts() {
        let Ok(t) = core::str::from_utf8(b) else { continue };
        c.case("bytes that are UTF-8 are accepted", b, || {
            for k in (b.len() % 3..reps::KINDS).step_by(3) {
                let Some(d) = reps::data(k, b) else { continue };
                is("try_from_bytedata", &StringData::try_from_bytedata(d.clone()).map_err(|_| "refused by try_from_bytedata")?, t)?;
                is("try_from", &StringData::try_from(d.clone()).map_err(|_| "refused by TryFrom")?, t)?;
                let sh = SharedBytes::from(d);
                is("try_from_shared", &StringData::try_from_shared(sh).map_err(|_| "refused by try_from_shared")?, t)?;
            }
            Ok(())
        });
    }
    let bad: &[&[u8]] = &[
        b"\x80", b"\xc0\x80", b"\xe2\x82", b"abc\xff", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"ok but then a long tail \xe2\x28\xa1 and more",
        b"0123456789abc\xc3", b"\xf0\x9f\x98",
    ];
    let long = long_texts();
    for b in bad.iter().chain(long.iter().filter(|b| core::str::from_utf8(b).is_err())) {
        for k in 0..reps::KINDS {
            c.case("bytes that are not UTF-8 are refused and handed back", (k, *b), || {
                let Some(d) = reps::data(k, b) else { return Ok(()) };
                match StringData::try_from_bytedata(d.clone()) {
                    Ok(_) => return Err("try_from_bytedata accepted invalid text".into()),
                    Err(d) => same("handed back", &d, b)?,
                }
                match StringData::try_from(d.clone()) {
                    Ok(_) => return Err("TryFrom accepted invalid text".into()),
                    Err(d) => {
                        let _ = d;
                    }
                }
                let sh = SharedBytes::from(d);
                match StringData::try_from_shared(sh.clone()) {
                    Ok(_) => return Err("try_from_shared accepted invalid text".into()),
                    Err(d) => same("handed back", &d, b)?,
                }
                ck!(SharedStrBuilder::try_from(SharedBytesBuilder::from(sh)).is_err(), "the string builder accepted invalid text");
                Ok(())
            });
        }
    }
}

fn builder(c: &mut Ctx) {
    for t in TEXTS {
        for i in 0..=t.len() + 2 {
            c.case("truncating a string builder keeps it valid", (t, i), || {
                let mut b = SharedStrBuilder::new();
                b.push_str(t);
                match outcome(|| b.truncate(i)) {
                    Some(()) => {
                        ck!(i >= t.len() || t.is_char_boundary(i), "truncate({i}) inside a char did not panic");
                        eq("content", b.as_str(), &t[..i.min(t.len())])?;
                    }
                    None => {
                        ck!(i < t.len() && !t.is_char_boundary(i), "truncate({i}) panicked");
                        eq("content", b.as_str(), t)?;
                    }
                }
                let want = b.as_str().to_string();
                is("built", &b.build_str(), &want)
            });
        }
    }
    let runs = c.pick(2000, 40_000);
    for i in 0..runs {
        let mut rng = c.rng.clone();
        c.rng.next();
        let steps: Vec<u64> = (0..rng.below(10) + 1).map(|_| rng.next()).collect();
        c.case("a string builder behaves like a String", (i, steps.clone()), || {
            let mut b = SharedStrBuilder::with_capacity(i as usize % 40);
            let mut m = String::new();
            for s in &steps {
                let t = TEXTS[(s >> 8) as usize % TEXTS.len()];
                match s % 7 {
                    0 | 1 => {
                        b.push_str(t);
                        m.push_str(t);
                    }
                    2 => {
                        for ch in t.chars() {
                            b.push(ch);
                            m.push(ch);
                        }
                    }
                    3 => {
                        let n = (s >> 20) as usize % (m.len() + 1);
                        if m.is_char_boundary(n) {
                            b.truncate(n);
                            m.truncate(n);
                        }
                    }
                    4 => b.reserve((s >> 20) as usize % 100),
                    5 => {
                        write!(b, "{t:?}").unwrap();
                        write!(m, "{t:?}").unwrap();
                    }
                    _ => {
                        if s >> 60 == 0 {
                            b.clear();
                            m.clear();
                        } else {
                            b = SharedStrBuilder::from(b.build_str());
                        }
                    }
                }
                eq("content", b.as_str(), m.as_str())?;
                same("bytes", b.as_bytes(), m.as_bytes())?;
                eq("len", b.len(), m.len())?;
                eq("is_empty", b.is_empty(), m.is_empty())?;
                ck!(b.capacity() >= b.len(), "capacity below length");
            }
            match i % 3 {
                0 => same("built", &b.build(), m.as_bytes()),
                1 => same("byte builder", &b.into_shared_bytes_builder(), m.as_bytes()),
                _ => is("built", &StringData::from(b), &m),
            }
        });
    }
}

fn histories(c: &mut Ctx) {
    let runs = c.pick(3000, 60_000);
    for i in 0..runs {
        let mut rng = c.rng.clone();
        c.rng.next();
        let k = rng.below(reps::SKINDS);
        let steps: Vec<u64> = (0..rng.below(9) + 1).map(|_| rng.next()).collect();
        c.case("a sequence of cuts equals the same cuts on str", (i, k, steps.clone()), || {
            let t = TEXTS[steps[0] as usize % TEXTS.len()];
            let Some(mut d) = reps::string(k, t) else { return Ok(()) };
            let mut m = t;
            for s in &steps {
                let cuts: Vec<usize> = m.char_indices().map(|x| x.0).chain([m.len()]).collect();
                let mut a = cuts[(s >> 8) as usize % cuts.len()];
                let mut e = cuts[(s >> 32) as usize % cuts.len()];
                if a > e {
                    core::mem::swap(&mut a, &mut e);
                }
                match s % 7 {
                    0 => {
                        d.make_sliced(a..e);
                        m = &m[a..e];
                    }
                    1 => {
                        let (x, y) = d.split_at(a);
                        is("head", &x, &m[..a])?;
                        d = y;
                        m = &m[a..];
                    }
                    2 => {
                        d = d.trim_end();
                        m = m.trim_end();
                    }
                    3 => {
                        d = d.into_shared();
                    }
                    4 => {
                        eq("next", d.next(), m.chars().next())?;
                        let mut it = m.chars();
                        it.next();
                        m = it.as_str();
                    }
                    5 => {
                        d = d.trim_start();
                        m = m.trim_start();
                    }
                    _ => {
                        let l = d.take_line();
                        let n = m.find('\n').map_or(m.len(), |p| p + 1);
                        is("line", &l, &m[..n])?;
                        m = &m[n..];
                    }
                }
                is("value", &d, m)?;
            }
            Ok(())
        });
    }
}
