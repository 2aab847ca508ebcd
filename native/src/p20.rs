//! Debug and hexadecimal rendering spell the exact bytes.
use crate::ck;
use crate::ctx::{eq, same, Ctx};
use crate::p10::cutq;
use crate::p13::cuts;
use crate::reps;
use bytedata::{ByteChunk, ByteStringRender, MultiByteStringRender, SharedBytes, SharedBytesBuilder};

/// Read a byte string literal body the way the Rust reference defines it.
fn unescape(s: &str) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    let mut it = s.chars();
    while let Some(ch) = it.next() {
        ck!(ch.is_ascii(), "{ch:?} cannot stand in a byte string literal");
        ck!(ch != '"', "an unescaped quote");
        ck!(!ch.is_ascii_control(), "an unescaped control character");
        if ch != '\\' {
            v.push(ch as u8);
            continue;
        }
        v.push(match it.next() {
            Some('n') => b'\n',
            Some('r') => b'\r',
            Some('t') => b'\t',
            Some('0') => 0,
            Some('\\') => b'\\',
            Some('"') => b'"',
            Some('\'') => b'\'',
            Some('x') => {
                let h: String = it.by_ref().take(2).collect();
                ck!(h.len() == 2 && h.bytes().all(|b| b.is_ascii_hexdigit()), "\\x{h}");
                u8::from_str_radix(&h, 16).map_err(|e| e.to_string())?
            }
            o => return Err(format!("escape {o:?}")),
        });
    }
    Ok(v)
}

fn literal(what: &str, s: &str, c: &[u8]) -> Result<(), String> {
    let Some(b) = s.strip_prefix("b\"").and_then(|s| s.strip_suffix('"')) else {
        return Err(format!("{what}: {s:?} is not a byte string literal"));
    };
    let got = unescape(b).map_err(|e| format!("{what}: {s:?}: {e}"))?;
    same(what, &got, c)
}

fn body(what: &str, s: &str, c: &[u8]) -> Result<(), String> {
    same(what, &unescape(s).map_err(|e| format!("{what}: {s:?}: {e}"))?, c)
}

fn hex(c: &[u8], upper: bool, w: usize) -> String {
    let mut s = String::new();
    for b in c {
        s += &if upper { format!("{b:02X}") } else { format!("{b:02x}") };
    }
    format!("{}{s}", "0".repeat(w.saturating_sub(s.len())))
}

macro_rules! hexes {
    ($what:expr, $v:expr, $c:expr) => {{
        eq($what, format!("{:x}", $v), hex($c, false, 0))?;
        eq($what, format!("{:X}", $v), hex($c, true, 0))?;
        for w in [0, 1, 2, $c.len(), 2 * $c.len(), 2 * $c.len() + 1, 2 * $c.len() + 5, 70] {
            eq($what, format!("{:w$x}", $v), hex($c, false, w))?;
            eq($what, format!("{:w$X}", $v), hex($c, true, w))?;
        }
    }};
}

fn flat(c: &'static [u8]) -> Result<(), String> {
    let r = ByteStringRender::from_slice(c);
    literal("ByteStringRender", &format!("{r:?}"), c)?;
    body("ByteStringRender", &format!("{r}"), c)?;
    literal("ByteStringRender", &format!("{:?}", ByteStringRender::from(c)), c)?;
    literal("ByteStringRender", &format!("{:?}", ByteStringRender::from_ref(&c)), c)?;
    same("as_slice", r.as_slice(), c)?;
    hexes!("ByteStringRender", r, c);
    if let Ok(t) = core::str::from_utf8(c) {
        literal("ByteStringRender", &format!("{:?}", ByteStringRender::from_str(t)), c)?;
        literal("ByteStringRender", &format!("{:?}", ByteStringRender::from(t)), c)?;
    }
    if c.len() <= 14 {
        literal("ByteChunk", &format!("{:?}", ByteChunk::from_slice(c)), c)?;
    }
    hexes!("SharedBytes", SharedBytes::from_slice(c), c);
    let mut b = SharedBytesBuilder::new();
    b.extend_from_slice(c);
    hexes!("SharedBytesBuilder", b, c);
    let parts: Vec<&[u8]> = c.chunks(3).collect();
    literal("MultiByteStringRender", &format!("{:?}", MultiByteStringRender::new(&parts)), c)?;
    body("MultiByteStringRender", &format!("{}", MultiByteStringRender::new(&parts)), c)?;
    let s = format!("{:?}", SharedBytes::from_slice(c).sliced(0, c.len()));
    let at = s.find("dat: ").ok_or("SharedBytes: no data in the debug form")?;
    let lit = s[at + 5..].strip_suffix(" }").ok_or("SharedBytes: unexpected end of the debug form")?;
    literal("SharedBytes", lit, c)
}

fn data(c: &'static [u8], k: usize) -> Result<(), String> {
    let Some(d) = reps::data(k, c) else { return Ok(()) };
    literal("ByteData", &format!("{d:?}"), c)?;
    hexes!("ByteData", d, c);
    Ok(())
}

fn queue(c: &'static [u8], m: u64) -> Result<(), String> {
    let q = cutq(c, m, 0);
    literal("ByteQueue", &format!("{q:?}"), c)?;
    hexes!("ByteQueue", q, c);
    Ok(())
}

fn text(t: &'static str, k: usize, m: u64) -> Result<(), String> {
    if let Some(s) = reps::string(k, t) {
        eq("StringData debug", format!("{s:?}"), format!("{t:?}"))?;
        eq("StringData display", format!("{s}"), t.to_string())?;
        eq("StringData display with width", format!("[{s:>20}]"), format!("[{t:>20}]"))?;
    }
    let q = cuts(t, m);
    eq("StringQueue display", format!("{q}"), t.to_string())?;
    let mut b = bytedata::SharedStrBuilder::new();
    b.push_str(t);
    eq("SharedStrBuilder display", format!("{b}"), t.to_string())
}

pub fn run(c: &mut Ctx) {
    for b in 0..=255u8 {
        let one: &'static [u8] = Box::leak(vec![b].into_boxed_slice());
        c.case("rendering of one byte", b, || flat(one));
        c.case("rendering of byte data", (b, 2), || data(one, 2));
        // a digit follows, so that an escape cannot swallow it
        let two: &'static [u8] = Box::leak(vec![b, b'0', b, b'a', b'\\', b].into_boxed_slice());
        c.case("rendering of a few bytes", (b, 6), || flat(two));
        c.case("rendering of a queue", (b, 6), || queue(two, b as u64));
    }
    for len in [0usize, 1, 13, 14, 15, 16, 40, 300] {
        let b = reps::bytes(len, len);
        c.case("rendering of a few bytes", (len, 0), || flat(b));
        for k in 0..reps::KINDS {
            c.case("rendering of byte data", (len, k), || data(b, k));
        }
        for i in 0..c.pick(80u64, 800) {
            let m = if i == 0 { 0 } else if i == 1 { !0 } else { c.rng.next() };
            c.case("rendering of a queue", (len, m), || queue(b, m));
        }
    }
    for &t in crate::util::TEXTS {
        for k in 0..reps::SKINDS {
            c.case("rendering of text", (t, k), || text(t, k, 0x1234_5678_9ABC_DEF0 >> k));
        }
    }
}
