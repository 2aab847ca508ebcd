//! A string queue behaves like the string it spells.
use crate::ck;
use crate::ctx::{eq, outcome, Ctx};
use crate::p13::cuts;
use crate::util::{ranges_of, Rg, TEXTS};
use crate::with_range;
use bytedata::{StringData, StringQueue};

fn spell(q: &StringQueue<'_>) -> Result<String, String> {
    let mut v = vec![];
    let mut n = 0;
    for ch in q.byte_chunks() {
        ck!(std::str::from_utf8(ch.as_slice()).is_ok(), "chunk {n} is not valid text: {:?}", ch.as_slice());
        ck!(!ch.is_empty(), "chunk {n} is empty");
        v.extend_from_slice(ch.as_slice());
        n += 1;
    }
    ck!(v.len() == q.len(), "length {} but {} bytes", q.len(), v.len());
    ck!(n == q.chunk_len(), "chunk count {} but {n} chunks", q.chunk_len());
    ck!(q.is_empty() == v.is_empty(), "is_empty is {}", q.is_empty());
    Ok(String::from_utf8(v).unwrap())
}

fn is(what: &str, q: &StringQueue<'_>, want: &str) -> Result<(), String> {
    let s = spell(q).map_err(|e| format!("{what}: {e}"))?;
    eq(what, s.as_str(), want)
}

/// In range and at character borders; `None` for the unspecified empty cut inside a character.
fn legal(t: &str, r: Rg) -> Option<Option<(usize, usize)>> {
    match r.on(t.len()) {
        None => Some(None),
        Some((s, e)) => {
            let ok = t.is_char_boundary(s) && t.is_char_boundary(e);
            if ok {
                Some(Some((s, e)))
            } else if s == e {
                None
            } else {
                Some(None)
            }
        }
    }
}

fn reading(t: &'static str, m: u64) -> Result<(), String> {
    let q = cuts(t, m);
    is("content", &q, t)?;
    eq("chars", q.chars().collect::<String>(), t.to_string())?;
    eq("into_chars", cuts(t, m).into_chars().collect::<String>(), t.to_string())?;
    eq("chars_indecies", q.chars_indecies().collect::<Vec<_>>(), t.char_indices().collect::<Vec<_>>())?;
    eq("bytes", q.bytes().collect::<Vec<u8>>(), t.as_bytes().to_vec())?;
    eq("into_bytes", cuts(t, m).into_bytes().collect::<Vec<u8>>(), t.as_bytes().to_vec())?;
    eq("chunks", q.chunks().map(|c| c.to_string()).collect::<String>(), t.to_string())?;
    eq("into_iter", cuts(t, m).into_iter().map(|c| c.to_string()).collect::<String>(), t.to_string())?;
    eq("Display", q.to_string(), t.to_string())?;
    eq("into StringData", StringData::from(cuts(t, m)).as_str(), t)?;
    eq("into String", String::from(cuts(t, m)), t.to_string())?;
    eq("front", q.front().map(|f| t.starts_with(f.as_str()) && !f.is_empty()), if t.is_empty() { None } else { Some(true) })?;
    eq("back", q.back().map(|f| t.ends_with(f.as_str()) && !f.is_empty()), if t.is_empty() { None } else { Some(true) })?;
    is("clone", &q.clone(), t)?;
    is("as_bytequeue", &q, t)?;
    let n = t.chars().count();
    for k in 0..n + 2 {
        eq("chars nth", q.chars().nth(k), t.chars().nth(k))?;
        eq("into_chars nth", cuts(t, m).into_chars().nth(k), t.chars().nth(k))?;
        eq("chars_indecies nth", q.chars_indecies().nth(k), t.char_indices().nth(k))?;
        let mut it = q.chars();
        for _ in 0..k {
            it.next();
        }
        let left = n.saturating_sub(k);
        let (lo, hi) = it.size_hint();
        ck!(lo <= left && hi.map_or(true, |h| h >= left), "chars size hint ({lo}, {hi:?}) with {left} left");
        eq("chars count", it.count(), left)?;
        let mut it = q.chars_indecies();
        for _ in 0..k {
            it.next();
        }
        let (lo, hi) = it.size_hint();
        ck!(lo <= left && hi.map_or(true, |h| h >= left), "chars_indecies size hint ({lo}, {hi:?}) with {left} left");
        eq("chars_indecies count", it.count(), left)?;
        let mut it = cuts(t, m).into_chars();
        for _ in 0..k {
            it.next();
        }
        let (lo, hi) = it.size_hint();
        ck!(lo <= left && hi.map_or(true, |h| h >= left), "into_chars size hint ({lo}, {hi:?}) with {left} left");
        eq("into_chars count", it.count(), left)?;
    }
    eq("chars last", q.chars().last(), t.chars().last())?;
    eq("chars_indecies last", q.chars_indecies().last(), t.char_indices().last())?;
    eq("into_chars last", cuts(t, m).into_chars().last(), t.chars().last())?;
    let mut it = q.chars();
    while it.next().is_some() {}
    eq("chars after the end", it.next(), None)?;
    Ok(())
}

fn searching(t: &'static str, m: u64) -> Result<(), String> {
    let mut cands: Vec<char> = t.chars().collect();
    cands.extend(['\n', 'z', '\u{e9}', '\u{1F602}']);
    for ch in cands {
        let mut q = cuts(t, m);
        eq("find_char", q.find_char(|x| x == ch), t.find(ch))?;
        let cut = t.find(ch).unwrap_or(t.len());
        let got = q.take_while(|x| x != ch);
        is("take_while: taken", &got, &t[..cut])?;
        is("take_while: rest", &q, &t[cut..])?;
        let s = ch.to_string();
        let q = cuts(t, m);
        eq("starts_with", q.starts_with(&s), t.starts_with(ch))?;
        eq("ends_with", q.ends_with(&s), t.ends_with(ch))?;
        let want: Vec<&str> = if t.is_empty() { vec![] } else { t.split(s.as_str()).collect() };
        let mut got = vec![];
        for p in q.split_on(&s) {
            got.push(spell(&p)?);
        }
        eq("split_on", got.iter().map(|s| s.as_str()).collect::<Vec<_>>(), want.clone())?;
        let got: Vec<Vec<u8>> = q.split_on_bytes(s.as_bytes()).map(Vec::<u8>::from).collect();
        eq("split_on_bytes", got, want.iter().map(|s| s.as_bytes().to_vec()).collect::<Vec<_>>())?;
        for max in 1..4 {
            let want: Vec<&str> = if t.is_empty() { vec![] } else { t.splitn(max, s.as_str()).collect() };
            let mut got = vec![];
            for p in q.splitn_on(&s, max) {
                got.push(spell(&p)?);
            }
            eq("splitn_on", got.iter().map(|s| s.as_str()).collect::<Vec<_>>(), want.clone())?;
            let got: Vec<Vec<u8>> = q.splitn_on_bytes(s.as_bytes(), max).map(Vec::<u8>::from).collect();
            eq("splitn_on_bytes", got, want.iter().map(|s| s.as_bytes().to_vec()).collect::<Vec<_>>())?;
        }
    }
    let mut q = cuts(t, m);
    let mut rest = t;
    loop {
        let cut = rest.find('\n').map_or(rest.len(), |i| i + 1);
        let line = q.take_line();
        is("take_line: line", &line, &rest[..cut])?;
        rest = &rest[cut..];
        is("take_line: rest", &q, rest)?;
        if rest.is_empty() {
            break;
        }
    }
    Ok(())
}

fn cutting(t: &'static str, m: u64, r: Rg) -> Result<(), String> {
    let Some(want) = legal(t, r) else { return Ok(()) };
    // slice
    let q = cuts(t, m);
    let got = outcome(|| with_range!(r, |x| q.slice(x)));
    match (&got, want) {
        (Some(g), Some((s, e))) => is("slice", g, &t[s..e])?,
        (None, None) => {}
        (Some(g), None) => return Err(format!("slice {r:?} gave {:?} instead of refusing", String::from_utf8_lossy(&g.bytes().collect::<Vec<u8>>()))),
        (None, Some(_)) => return Err(format!("slice {r:?} panicked")),
    }
    is("after slice", &q, t)?;
    drop(got);
    // drain to the end, partly, not at all
    for steps in [0usize, 1, usize::MAX] {
        let mut q = cuts(t, m);
        let got = outcome(|| {
            let mut d = with_range!(r, |x| q.drain(x));
            let (lo, hi) = d.size_hint();
            (lo, hi, d.by_ref().take(steps).collect::<String>())
        });
        match (got, want) {
            (Some((lo, hi, g)), Some((s, e))) => {
                let n = t[s..e].chars().count();
                ck!(lo <= n && hi.map_or(true, |h| h >= n), "drain size hint ({lo}, {hi:?}) for {n} characters");
                eq("drained characters", g, t[s..e].chars().take(steps).collect::<String>())?;
                is("after drain", &q, &format!("{}{}", &t[..s], &t[e..]))?;
            }
            (None, None) => is("after a refused drain", &q, t)?,
            (Some(_), None) => return Err(format!("drain {r:?} was not refused")),
            (None, Some(_)) => return Err(format!("drain {r:?} panicked")),
        }
    }
    for rep in ["", "\u{e9}", "a long enough replacement \u{1F600}"] {
        let mut q = cuts(t, m);
        let got = outcome(|| with_range!(r, |x| q.replace_range(x, StringData::from_owned(rep.to_string()))));
        match (got, want) {
            (Some(()), Some((s, e))) => is("replace_range", &q, &format!("{}{rep}{}", &t[..s], &t[e..]))?,
            (None, None) => is("after a refused replace_range", &q, t)?,
            (Some(_), None) => return Err(format!("replace_range {r:?} was not refused")),
            (None, Some(_)) => return Err(format!("replace_range {r:?} panicked")),
        }
    }
    Ok(())
}

fn splitting_off(t: &'static str, m: u64, at: usize) -> Result<(), String> {
    let mut q = cuts(t, m);
    let got = outcome(|| q.split_off(at));
    let ok = t.is_char_boundary(at);
    match (got, ok) {
        (Some(g), true) => {
            is("split_off: tail", &g, &t[at..])?;
            is("split_off: head", &q, &t[..at])
        }
        (None, false) => is("after a refused split_off", &q, t),
        (Some(_), false) => Err(format!("split_off at {at} was not refused")),
        (None, true) => Err(format!("split_off at {at} panicked")),
    }
}

fn history(seed: u64) -> Result<(), String> {
    let mut r = crate::ctx::Rng(seed);
    let mut q = StringQueue::new();
    let mut m: std::collections::VecDeque<String> = Default::default();
    for step in 0..40 {
        let t = TEXTS[r.below(TEXTS.len())];
        match r.below(12) {
            0 | 1 => {
                q.push_back(StringData::from_borrowed(t));
                if !t.is_empty() {
                    m.push_back(t.into());
                }
            }
            2 | 3 => {
                q.push_front(t);
                if !t.is_empty() {
                    m.push_front(t.into());
                }
            }
            4 => eq("pop_front", q.pop_front().map(|s| s.as_str().to_string()), m.pop_front())?,
            5 => eq("pop_back", q.pop_back().map(|s| s.as_str().to_string()), m.pop_back())?,
            6 => {
                q.extend([StringData::from_static("x"), StringData::from_static(""), StringData::from_owned(t.to_string())]);
                m.push_back("x".into());
                if !t.is_empty() {
                    m.push_back(t.into());
                }
            }
            7 => {
                q.extend([t, "\u{e9}"]);
                if !t.is_empty() {
                    m.push_back(t.into());
                }
                m.push_back("\u{e9}".into());
            }
            8 => {
                q.extend([t.to_string()]);
                if !t.is_empty() {
                    m.push_back(t.into());
                }
            }
            9 => {
                use core::fmt::Write;
                write!(q, "{t}").map_err(|_| "write failed".to_string())?;
                let all: String = m.iter().map(|s| s.as_str()).chain([t]).collect();
                is("write", &q, &all)?;
                m.clear();
                for c in q.chunks() {
                    m.push_back(c.to_string());
                }
            }
            10 => {
                let f: StringQueue<'_> = m.iter().map(|s| StringData::from_owned(s.clone())).collect();
                ck!(f == q, "collected queue differs");
            }
            _ => {
                let all: String = m.iter().map(|s| s.as_str()).collect();
                let cutpos: Vec<usize> = (0..=all.len()).filter(|i| all.is_char_boundary(*i)).collect();
                let at = cutpos[r.below(cutpos.len())];
                let t = q.split_off(at);
                is("tail", &t, &all[at..])?;
                is("head", &q, &all[..at])?;
                q.extend(t.into_iter());
                m.clear();
                for c in q.chunks() {
                    m.push_back(c.to_string());
                }
                is("joined again", &q, &all)?;
            }
        }
        let got: Vec<String> = q.chunks().map(|c| c.to_string()).collect();
        eq("chunks", got, m.iter().cloned().collect::<Vec<_>>()).map_err(|e| format!("step {step}: {e}"))?;
        spell(&q)?;
    }
    Ok(())
}

fn making(t: &'static str) -> Result<(), String> {
    is("From<StringData>", &StringQueue::from(StringData::from_static(t)), t)?;
    is("From<&str>", &StringQueue::from(t), t)?;
    is("From<String>", &StringQueue::from(t.to_string()), t)?;
    is("From<Cow>", &StringQueue::from(std::borrow::Cow::Borrowed(t)), t)?;
    is("with_item", &StringQueue::with_item(StringData::from_static(t)), t)?;
    is("default", &StringQueue::default(), "")?;
    Ok(())
}

pub fn run(c: &mut Ctx) {
    generated(c);
    let texts: Vec<&'static str> = TEXTS.iter().copied().chain(["a\nb", "\n", "\n\n\u{e9}\n", "\u{e9}\u{20ac}\u{1F600}x"]).collect();
    for &t in &texts {
        c.case("building a string queue", t, || making(t));
        let n = t.chars().count();
        let mut masks = vec![0, !0, 0x5555_5555_5555_5555, 0xAAAA_AAAA_AAAA_AAAA];
        if n <= 5 {
            masks.extend(0..1u64 << n);
        } else {
            for _ in 0..c.pick(4, 40) {
                masks.push(c.rng.next());
            }
        }
        masks.sort_unstable();
        masks.dedup();
        let mut ix: Vec<usize> = if t.len() <= 8 { (0..=t.len() + 1).collect() } else { vec![0, 1, 2, 12, 13, 14, 15, 16, t.len() / 2, t.len() - 1, t.len(), t.len() + 1] };
        ix.push(usize::MAX);
        ix.push((1 << 32) + 1);
        for &m in &masks {
            c.case("reading the characters of a string queue", (t, m), || reading(t, m));
            c.case("searching a string queue", (t, m), || searching(t, m));
            for at in 0..t.len() + 2 {
                c.case("string queue split_off", (t, m, at), || splitting_off(t, m, at));
            }
            let rs = ranges_of(&ix);
            let step = if t.len() <= 6 || c.thorough() { 1 } else { 5 };
            for (i, r) in rs.into_iter().enumerate() {
                if i % step == (m % step as u64) as usize {
                    c.case("cutting and editing a string queue", (t, m, r), || cutting(t, m, r));
                }
            }
        }
    }
    for i in 0..c.pick(1200, 4000) {
        let s = c.rng.next() ^ i;
        c.case("string queue histories", s, || history(s));
    }
}

/// Queues made by the generator of the `arbitrary` crate.
fn generated(c: &mut Ctx) {
    use arbitrary::{Arbitrary, Unstructured};
    let mut r = crate::ctx::Rng(c.seed ^ 0xa14);
    for i in 0..c.pick(1200, 20000) {
        let n = if i % 40 == 0 { 3000 } else { r.below(200) };
        let raw = crate::util::noise(&mut r, n);
        c.case("a generated string queue is well formed", &raw, || {
            let mut u = Unstructured::new(&raw);
            for _ in 0..3 {
                if let Ok(q) = StringQueue::arbitrary(&mut u) {
                    let t = spell(&q).map_err(|e| format!("arbitrary: {e}"))?;
                    eq("its characters", q.chars().collect::<String>(), t)?;
                }
            }
            if let Ok(q) = StringQueue::arbitrary_take_rest(Unstructured::new(&raw)) {
                let t = spell(&q).map_err(|e| format!("arbitrary_take_rest: {e}"))?;
                eq("its characters", q.chars().collect::<String>(), t)?;
            }
            Ok(())
        });
    }
}
