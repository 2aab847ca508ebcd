//! Parsing a value gives what parsing its flat contents gives.
use crate::ck;
use crate::ctx::{eq, outcome, same, Ctx};
use crate::p10::cutq;
use crate::p13::cuts;
use crate::reps;
use bytedata::{ByteData, ByteQueue, StringData, StringQueue};
use nom::error::{Error, ErrorKind};
use nom::{Compare, FindSubstring, FindToken, IResult, InputIter, InputLength, InputTake, InputTakeAtPosition, Slice};

trait Flat {
    fn flat(&self) -> Vec<u8>;
}
impl Flat for &[u8] {
    fn flat(&self) -> Vec<u8> {
        self.to_vec()
    }
}
impl Flat for &str {
    fn flat(&self) -> Vec<u8> {
        self.as_bytes().to_vec()
    }
}
impl Flat for ByteData<'_> {
    fn flat(&self) -> Vec<u8> {
        self.as_slice().to_vec()
    }
}
impl Flat for StringData<'_> {
    fn flat(&self) -> Vec<u8> {
        self.as_bytes().to_vec()
    }
}
impl Flat for ByteQueue<'_> {
    fn flat(&self) -> Vec<u8> {
        reps::queue_bytes(self)
    }
}
impl Flat for StringQueue<'_> {
    fn flat(&self) -> Vec<u8> {
        self.byte_chunks().flat_map(|c| c.as_slice().to_vec()).collect()
    }
}

#[derive(PartialEq, Debug)]
enum Out {
    Done(Vec<u8>, Vec<u8>),
    More(nom::Needed),
    Err(Vec<u8>, ErrorKind),
    Fail(Vec<u8>, ErrorKind),
}
fn out<I: Flat, O: Flat>(r: IResult<I, O, Error<I>>) -> Out {
    match r {
        Ok((rest, got)) => Out::Done(rest.flat(), got.flat()),
        Err(nom::Err::Incomplete(n)) => Out::More(n),
        Err(nom::Err::Error(e)) => Out::Err(e.input.flat(), e.code),
        Err(nom::Err::Failure(e)) => Out::Fail(e.input.flat(), e.code),
    }
}

/// The operations of the input traits, on one value and on the flat original.
macro_rules! ops {
    ($v:expr, $f:expr, $n:expr, $preds:expr, $bounds:expr) => {{
        let v = &$v;
        let f = $f;
        eq("input_len", v.input_len(), f.input_len())?;
        eq("iter_elements", v.iter_elements().collect::<Vec<_>>(), f.iter_elements().collect::<Vec<_>>())?;
        eq("iter_indices", v.iter_indices().collect::<Vec<_>>(), f.iter_indices().collect::<Vec<_>>())?;
        for count in 0..$n + 3 {
            eq("slice_index", v.slice_index(count), f.slice_index(count))?;
        }
        eq("slice_index far out", v.slice_index(usize::MAX).is_err(), f.slice_index(usize::MAX).is_err())?;
        for p in $preds {
            eq("position", v.position(p), f.position(p))?;
            eq("split_at_position", out(v.split_at_position::<_, Error<_>>(p)), out(f.split_at_position::<_, Error<_>>(p)))?;
            eq("split_at_position1", out(v.split_at_position1::<_, Error<_>>(p, ErrorKind::Digit)), out(f.split_at_position1::<_, Error<_>>(p, ErrorKind::Digit)))?;
            eq("split_at_position_complete", out(v.split_at_position_complete::<_, Error<_>>(p)), out(f.split_at_position_complete::<_, Error<_>>(p)))?;
            eq(
                "split_at_position1_complete",
                out(v.split_at_position1_complete::<_, Error<_>>(p, ErrorKind::Alpha)),
                out(f.split_at_position1_complete::<_, Error<_>>(p, ErrorKind::Alpha)),
            )?;
        }
        for &b in $bounds {
            eq("take", v.take(b).flat(), f.take(b).flat())?;
            let (x, y) = v.take_split(b);
            let (p, q) = f.take_split(b);
            eq("take_split", (x.flat(), y.flat()), (p.flat(), q.flat()))?;
            same("slice from", &v.slice(b..).flat(), &f.slice(b..).flat())?;
            same("slice to", &v.slice(..b).flat(), &f.slice(..b).flat())?;
            for &e in $bounds {
                if b <= e {
                    same("slice", &v.slice(b..e).flat(), &f.slice(b..e).flat())?;
                }
            }
        }
        same("slice full", &v.slice(..).flat(), &f.slice(..).flat())?;
        for b in [$n + 1, usize::MAX] {
            ck!(outcome(|| v.take(b)).is_none(), "take({b}) of {} was not refused", $n);
            ck!(outcome(|| v.take_split(b)).is_none(), "take_split({b}) of {} was not refused", $n);
            ck!(outcome(|| v.slice(b..)).is_none(), "slice({b}..) of {} was not refused", $n);
        }
    }};
}

/// Comparisons with and searches for a pattern, in each form a pattern can have.
macro_rules! pats {
    ($v:expr, $f:expr, $pat:expr, $($form:expr),*) => {{
        let v = &$v;
        $(
            eq("compare", v.compare($form), $f.compare($pat))?;
            eq("compare_no_case", v.compare_no_case($form), $f.compare_no_case($pat))?;
        )*
        let _ = v;
    }};
}

fn bpred(k: usize) -> impl Fn(u8) -> bool + Copy {
    move |b| match k {
        0 => false,
        1 => true,
        2 => b == b'b',
        3 => b >= 0x80,
        4 => b == b'c' || b == b'\n',
        _ => b < b'a',
    }
}
fn cpred(k: usize) -> impl Fn(char) -> bool + Copy {
    move |b| match k {
        0 => false,
        1 => true,
        2 => b == 'b',
        3 => b >= '\u{80}',
        4 => b == 'c' || b == '\n',
        _ => b == '\u{1F600}' || b == '\u{20ac}',
    }
}

fn bytes_ops(h: &'static [u8], m: u64, k: usize) -> Result<(), String> {
    let bounds: Vec<usize> = (0..=h.len()).filter(|i| h.len() <= 8 || [0, 1, 7, 14, 15, 16, h.len() / 2, h.len() - 1, h.len()].contains(i)).collect();
    if let Some(d) = reps::data(k % reps::KINDS, h) {
        ops!(d, h, h.len(), (0..6).map(bpred), &bounds);
        same("as_bytes", nom::AsBytes::as_bytes(&d), h)?;
    }
    ops!(cutq(h, m, k), h, h.len(), (0..6).map(bpred), &bounds);
    Ok(())
}

fn bytes_pats(h: &'static [u8], n: &'static [u8], m: u64, k: usize) -> Result<(), String> {
    let nd = ByteData::from_borrowed(n);
    if let Some(d) = reps::data(k % reps::KINDS, h) {
        pats!(d, h, n, n, nd.clone(), &nd);
        eq("find_substring", d.find_substring(n), h.find_substring(n))?;
        eq("find_substring", d.find_substring(nd.clone()), h.find_substring(n))?;
        eq("find_substring", d.find_substring(&nd), h.find_substring(n))?;
        if let Ok(t) = core::str::from_utf8(n) {
            pats!(d, h, t, t);
            eq("find_substring", d.find_substring(t), h.find_substring(t))?;
        }
        for b in [b'a', b'b', b'z', 0x80, 0xff] {
            eq("find_token", d.find_token(b), h.find_token(b))?;
            eq("find_token", d.find_token(&b), h.find_token(b))?;
        }
        for ch in ['a', 'b', 'z', '\n'] {
            eq("find_token of a character", d.find_token(ch), h.find_token(ch))?;
            eq("find_token of a character", d.find_token(&ch), h.find_token(ch))?;
        }
    }
    let q = cutq(h, m, k);
    pats!(q, h, n, n, nd.clone(), &nd);
    eq("find_substring", q.find_substring(n), h.find_substring(n))?;
    eq("find_substring", q.find_substring(nd.clone()), h.find_substring(n))?;
    eq("find_substring", q.find_substring(&nd), h.find_substring(n))?;
    if let Ok(t) = core::str::from_utf8(n) {
        let sd = StringData::from_borrowed(t);
        pats!(q, h, t, t, sd.clone(), &sd);
        eq("find_substring", q.find_substring(t), h.find_substring(t))?;
    }
    for b in [b'a', b'b', b'z', 0x80, 0xff] {
        eq("find_token", q.find_token(b), h.find_token(b))?;
        eq("find_token", q.find_token(&b), h.find_token(b))?;
    }
    for ch in ['a', 'b', 'z', '\n'] {
        eq("find_token of a character", q.find_token(ch), h.find_token(ch))?;
        eq("find_token of a character", q.find_token(&ch), h.find_token(ch))?;
    }
    Ok(())
}

fn text_ops(t: &'static str, m: u64, k: usize) -> Result<(), String> {
    let bounds: Vec<usize> = (0..=t.len()).filter(|i| t.is_char_boundary(*i) && (t.len() <= 16 || i % 3 == 0 || *i == t.len() || *i == 14 || *i == 15)).collect();
    if let Some(d) = reps::string(k % reps::SKINDS, t) {
        ops!(d, t, t.len(), (0..6).map(cpred), &bounds);
        same("as_bytes", nom::AsBytes::as_bytes(&d), t.as_bytes())?;
    }
    ops!(cuts(t, m), t, t.len(), (0..6).map(cpred), &bounds);
    Ok(())
}

fn text_pats(t: &'static str, n: &'static str, m: u64, k: usize) -> Result<(), String> {
    let nd = ByteData::from_borrowed(n.as_bytes());
    let sd = StringData::from_borrowed(n);
    let tb = t.as_bytes();
    let nb = n.as_bytes();
    let chars = ['a', 'b', 'z', '\n', '\u{e9}', '\u{20ac}', '\u{1F600}'];
    if let Some(d) = reps::string(k % reps::SKINDS, t) {
        pats!(d, t, n, n, sd.clone(), &sd);
        pats!(d, tb, nb, nb, nd.clone(), &nd);
        eq("find_substring", d.find_substring(n), t.find_substring(n))?;
        eq("find_substring", d.find_substring(nb), tb.find_substring(nb))?;
        eq("find_substring", d.find_substring(nd.clone()), tb.find_substring(nb))?;
        eq("find_substring", d.find_substring(&nd), tb.find_substring(nb))?;
        eq("find_substring", d.find_substring(sd.clone()), t.find_substring(n))?;
        eq("find_substring", d.find_substring(&sd), t.find_substring(n))?;
        for b in [b'a', b'z', 0xe2, 0x80] {
            eq("find_token", d.find_token(b), tb.find_token(b))?;
            eq("find_token", d.find_token(&b), tb.find_token(b))?;
        }
        for ch in chars {
            eq("find_token of a character", d.find_token(ch), t.find_token(ch))?;
            eq("find_token of a character", d.find_token(&ch), t.find_token(ch))?;
        }
    }
    let q = cuts(t, m);
    pats!(q, t, n, n);
    pats!(q, tb, nb, nb, nd.clone(), &nd);
    eq("compare", q.compare(sd.clone()), t.compare(n))?;
    eq("compare", q.compare(&sd), t.compare(n))?;
    if t.is_ascii() && n.is_ascii() {
        pats!(q, t, n, sd.clone(), &sd);
    }
    eq("find_substring", q.find_substring(n), t.find_substring(n))?;
    eq("find_substring", q.find_substring(nb), tb.find_substring(nb))?;
    eq("find_substring", q.find_substring(nd.clone()), tb.find_substring(nb))?;
    eq("find_substring", q.find_substring(&nd), tb.find_substring(nb))?;
    for b in [b'a', b'z', 0xe2, 0x80] {
        eq("find_token", q.find_token(b), tb.find_token(b))?;
        eq("find_token", q.find_token(&b), tb.find_token(b))?;
    }
    for ch in chars {
        eq("find_token of a character", q.find_token(ch), t.find_token(ch))?;
        eq("find_token of a character", q.find_token(&ch), t.find_token(ch))?;
    }
    Ok(())
}

/// A few parsers of the library as a whole.
macro_rules! parsers {
    ($v:expr, $f:expr, $tag:expr, $set:expr) => {{
        use nom::bytes::{complete as co, streaming as st};
        let (v, f) = (&$v, $f);
        macro_rules! both {
            ($what:literal, $p:expr, $q:expr) => {
                eq($what, out($p(v.clone())), out($q(f)))?;
            };
        }
        both!("complete tag", co::tag::<_, _, Error<_>>($tag), co::tag::<_, _, Error<_>>($tag));
        both!("streaming tag", st::tag::<_, _, Error<_>>($tag), st::tag::<_, _, Error<_>>($tag));
        both!("complete tag_no_case", co::tag_no_case::<_, _, Error<_>>($tag), co::tag_no_case::<_, _, Error<_>>($tag));
        both!("complete take_until", co::take_until::<_, _, Error<_>>($tag), co::take_until::<_, _, Error<_>>($tag));
        both!("streaming take_until", st::take_until::<_, _, Error<_>>($tag), st::take_until::<_, _, Error<_>>($tag));
        both!("complete take_until1", co::take_until1::<_, _, Error<_>>($tag), co::take_until1::<_, _, Error<_>>($tag));
        both!("complete is_not", co::is_not::<_, _, Error<_>>($set), co::is_not::<_, _, Error<_>>($set));
        both!("complete is_a", co::is_a::<_, _, Error<_>>($set), co::is_a::<_, _, Error<_>>($set));
        both!("streaming is_a", st::is_a::<_, _, Error<_>>($set), st::is_a::<_, _, Error<_>>($set));
        for n in [0usize, 1, 2, 3, 5, 14, 15, 40] {
            both!("complete take", co::take::<_, _, Error<_>>(n), co::take::<_, _, Error<_>>(n));
            both!("streaming take", st::take::<_, _, Error<_>>(n), st::take::<_, _, Error<_>>(n));
        }
    }};
}

fn run_parsers(t: &'static str, n: &'static str, m: u64, k: usize) -> Result<(), String> {
    if let Some(d) = reps::data(k % reps::KINDS, t.as_bytes()) {
        parsers!(d, t.as_bytes(), n.as_bytes(), &b"ab\n"[..]);
    }
    if let Some(d) = reps::string(k % reps::SKINDS, t) {
        parsers!(d, t, n, "ab\u{e9}\n");
    }
    parsers!(cutq(t.as_bytes(), m, k), t.as_bytes(), n.as_bytes(), &b"ab\n"[..]);
    parsers!(cuts(t, m), t, n, "ab\u{e9}\n");
    Ok(())
}

pub fn run(c: &mut Ctx) {
    let mut hs: Vec<&'static [u8]> = vec![];
    let alpha = [b'a', b'b', 0x80];
    for n in 0..=c.pick(4u32, 5) {
        for mut i in 0..3usize.pow(n) {
            let mut v = vec![];
            for _ in 0..n {
                v.push(alpha[i % 3]);
                i /= 3;
            }
            hs.push(Box::leak(v.into_boxed_slice()));
        }
    }
    hs.push(b"the quick brown fox jumps over a bad\ncat ");
    hs.push(b"aaaaaaaaaaaaaab");
    hs.push(b"cccccccccccccccccccccccccccccccccccb");
    for (i, &h) in hs.iter().enumerate() {
        let step = if h.len() <= 3 || c.thorough() { 1 } else { 3 };
        let all = if h.len() <= 6 { 1u64 << h.len().saturating_sub(1) } else { 12 };
        for m in (0..all).filter(|m| (m + i as u64) % step == 0) {
            let m = if h.len() > 6 { if m == 0 { !0 } else { c.rng.next() } } else { m };
            let k = i + m as usize % 20;
            c.case("input operations on bytes", (h, m, k), || bytes_ops(h, m, k));
            for &n in hs.iter().filter(|n| n.len() <= 2 || h.starts_with(n) || h.len() > 6 && n.len() > 6) {
                c.case("patterns on bytes", (h, n, m, k), || bytes_pats(h, n, m, k));
            }
            for n in [&b"AB"[..], b"Ba", b"A", b"QUICK", b"bad\ncat ", b"a bad\ncat x"] {
                c.case("patterns on bytes", (h, n, m, k), || bytes_pats(h, n, m, k));
            }
        }
    }
    for i in 0..c.pick(2000usize, 80000) {
        let mut r = c.rng.clone();
        c.rng.next();
        let b = if i % 2 == 0 { r.next() as u8 } else { r.pick(b"aAzZ@`[{") };
        let n = r.below(40);
        let h = crate::util::leak(crate::util::near(&mut r, b, n));
        let s = if r.below(2) == 0 { 0 } else { r.below(n + 1) };
        let e = s + r.below((n - s).min(20) + 1);
        let mut p = h[s..e].to_vec();
        if r.below(2) == 0 {
            p = crate::util::bent(&mut r, &p);
        }
        let p = crate::util::leak(p);
        let m = r.next() & r.next();
        c.case("input operations on bytes", (h, m, i % 20), || bytes_ops(h, m, i % 20));
        c.case("patterns on bytes", (h, p, m, i % 20), || bytes_pats(h, p, m, i % 20));
        if let (Ok(h), Ok(p)) = (core::str::from_utf8(h), core::str::from_utf8(p)) {
            c.case("patterns on text", (h, p, m, i % 20), || text_pats(h, p, m, i % 20));
        }
    }
    let ts: Vec<&'static str> = crate::util::TEXTS.iter().copied().chain(["ab", "bba\u{e9}ab", "a\u{e9}b\u{20ac}c\u{1F600}d", "aB\u{c9}", "ccccccccccccccccccccccab"]).collect();
    for &t in &ts {
        let masks = if t.chars().count() <= 5 { (0..1u64 << t.chars().count()).collect::<Vec<_>>() } else { vec![0, !0, 0x5555_5555, 0x9249_2492, c.rng.next(), c.rng.next()] };
        for m in masks {
            for k in 0..c.pick(3, 9) {
                let k = k * 3 + m as usize % 3;
                c.case("input operations on text", (t, m, k), || text_ops(t, m, k));
                for &n in ts.iter().filter(|n| n.len() <= 6 || t.starts_with(**n)) {
                    c.case("patterns on text", (t, n, m, k), || text_pats(t, n, m, k));
                }
                for n in ["", "a", "ab", "\u{e9}", "\n", "AB\u{e9}", "\u{e9}a", "b\u{20ac}"] {
                    c.case("parsers", (t, n, m, k), || run_parsers(t, n, m, k));
                }
            }
        }
    }
}
