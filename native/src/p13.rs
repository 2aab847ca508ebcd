//! Equality, order and hashing depend on the contents only.
use crate::ck;
use crate::ctx::Ctx;
use crate::p10::cutq;
use crate::reps;
use bytedata::{ByteData, SharedBytes, StringData, StringQueue};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

fn h<T: Hash + ?Sized>(v: &T) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut s);
    s.finish()
}

/// `==`, `!=` of two values against what their contents say.
macro_rules! eqs {
    ($a:expr, $b:expr, $want:expr, $what:expr) => {
        ck!(($a == $b) == $want, "{}: == says {}", $what, !$want);
        ck!(($a != $b) != $want, "{}: != says {}", $what, $want);
    };
}
macro_rules! cmps {
    ($a:expr, $b:expr, $want:expr, $what:expr) => {
        let got = PartialOrd::partial_cmp(&$a, &$b);
        ck!(got == Some($want), "{}: partial_cmp says {:?}, the contents {:?}", $what, got, $want);
        ck!(($a < $b) == ($want == Ordering::Less), "{}: <", $what);
        ck!(($a >= $b) == ($want != Ordering::Less), "{}: >=", $what);
    };
}

/// Contents that differ early, late, in length only, at the inline limit and by sign of a byte.
fn contents() -> Vec<&'static [u8]> {
    let mut v: Vec<&'static [u8]> = vec![
        b"", b"\0", b"\0\0", b"a", b"b", b"\x7f", b"\x80", b"\xff", b"ab", b"ba", b"aa", b"abc", b"abd", b"ab\x80", b"\x80ab",
        b"abcdefghijklm", b"abcdefghijklmn", b"abcdefghijklmo", b"abcdefghijklmno", b"abcdefghijklmnop", b"abcdefghijklmn\x00",
        b"Abcdefghijklmnop", b"abcdefgHijklmnop", b"abcdefghijklmnoq",
    ];
    v.push(reps::bytes(0, 40));
    v.push(reps::bytes(0, 41));
    v.push(reps::bytes(1, 40));
    v
}

fn texts() -> Vec<&'static str> {
    vec!["", "a", "b", "\u{7f}", "\u{e9}", "\u{e8}", "\u{20ac}", "\u{1F600}", "a\u{e9}", "ab", "abcdefghijklm\u{e9}", "abcdefghijklm\u{e8}", "abcdefghijklmn", "abcdefghijklmno", "abcdefghijklmnoP", "\0", "\u{ffff}", "\u{10000}"]
}

fn bytes_pair(x: &'static [u8], y: &'static [u8], ka: usize, kb: usize) -> Result<(), String> {
    let (Some(a), Some(b)) = (reps::data(ka, x), reps::data(kb, y)) else { return Ok(()) };
    let e = x == y;
    let o = x.cmp(y);
    eqs!(a, b, e, "ByteData/ByteData");
    cmps!(a, b, o, "ByteData/ByteData");
    ck!(Ord::cmp(&a, &b) == o, "ByteData cmp");
    eqs!(a, *y, e, "ByteData/[u8]");
    eqs!(*x, b, e, "[u8]/ByteData");
    eqs!(a, y, e, "ByteData/&[u8]");
    eqs!(x, b, e, "&[u8]/ByteData");
    cmps!(a, *y, o, "ByteData/[u8]");
    cmps!(*x, b, o, "[u8]/ByteData");
    let (vx, vy) = (x.to_vec(), y.to_vec());
    eqs!(a, vy, e, "ByteData/Vec");
    eqs!(vx, b, e, "Vec/ByteData");
    cmps!(a, vy, o, "ByteData/Vec");
    cmps!(vx, b, o, "Vec/ByteData");
    if e {
        ck!(h(&a) == h(&b), "equal ByteData hash differently");
    }
    ck!(h(&a) == h(x), "ByteData hashes differently from its bytes, which it can be borrowed as");
    Ok(())
}

fn shared_pair(x: &'static [u8], y: &'static [u8], ka: usize) -> Result<(), String> {
    let mk = |c: &[u8], k: usize| match k % 3 {
        0 => SharedBytes::from_slice(c),
        1 => SharedBytes::from_slice_aligned(c, 32),
        _ => {
            let mut v = vec![9u8; 5];
            v.extend_from_slice(c);
            v.extend_from_slice(b"\0\0tail");
            SharedBytes::from_slice(&v).sliced(5, c.len())
        }
    };
    let (a, b) = (mk(x, ka), mk(y, ka / 3));
    let e = x == y;
    let o = x.cmp(y);
    eqs!(a, b, e, "SharedBytes/SharedBytes");
    cmps!(a, b, o, "SharedBytes/SharedBytes");
    ck!(Ord::cmp(&a, &b) == o, "SharedBytes cmp");
    eqs!(a, *y, e, "SharedBytes/[u8]");
    eqs!(*x, b, e, "[u8]/SharedBytes");
    eqs!(a, y, e, "SharedBytes/&[u8]");
    cmps!(a, *y, o, "SharedBytes/[u8]");
    cmps!(*x, b, o, "[u8]/SharedBytes");
    cmps!(a, y, o, "SharedBytes/&[u8]");
    let (vx, vy) = (x.to_vec(), y.to_vec());
    eqs!(a, vy, e, "SharedBytes/Vec");
    eqs!(vx, b, e, "Vec/SharedBytes");
    cmps!(a, vy, o, "SharedBytes/Vec");
    cmps!(vx, b, o, "Vec/SharedBytes");
    if e {
        ck!(h(&a) == h(&b), "equal SharedBytes hash differently");
    }
    Ok(())
}

fn string_pair(x: &'static str, y: &'static str, ka: usize, kb: usize) -> Result<(), String> {
    let (Some(a), Some(b)) = (reps::string(ka, x), reps::string(kb, y)) else { return Ok(()) };
    let (bx, by) = (x.as_bytes(), y.as_bytes());
    let e = x == y;
    let o = bx.cmp(by);
    eqs!(a, b, e, "StringData/StringData");
    cmps!(a, b, o, "StringData/StringData");
    ck!(Ord::cmp(&a, &b) == o, "StringData cmp");
    eqs!(a, *y, e, "StringData/str");
    eqs!(*x, b, e, "str/StringData");
    eqs!(a, y, e, "StringData/&str");
    eqs!(x, b, e, "&str/StringData");
    eqs!(a, *by, e, "StringData/[u8]");
    eqs!(*bx, b, e, "[u8]/StringData");
    eqs!(a, by, e, "StringData/&[u8]");
    eqs!(bx, b, e, "&[u8]/StringData");
    cmps!(a, *by, o, "StringData/[u8]");
    cmps!(*bx, b, o, "[u8]/StringData");
    cmps!(a, *y, o, "StringData/str");
    cmps!(*x, b, o, "str/StringData");
    let (vx, vy) = (bx.to_vec(), by.to_vec());
    let (sx, sy) = (x.to_string(), y.to_string());
    eqs!(a, vy, e, "StringData/Vec");
    eqs!(vx, b, e, "Vec/StringData");
    eqs!(a, sy, e, "StringData/String");
    eqs!(sx, b, e, "String/StringData");
    cmps!(a, vy, o, "StringData/Vec");
    cmps!(vx, b, o, "Vec/StringData");
    cmps!(a, sy, o, "StringData/String");
    cmps!(sx, b, o, "String/StringData");
    let (da, db) = (reps::data(ka, bx), reps::data(kb, by));
    if let (Some(da), Some(db)) = (da, db) {
        eqs!(a, db, e, "StringData/ByteData");
        eqs!(da, b, e, "ByteData/StringData");
        cmps!(a, db, o, "StringData/ByteData");
        cmps!(da, b, o, "ByteData/StringData");
    }
    ck!(h(&a) == h(x), "StringData hashes differently from its text, which it can be borrowed as");
    Ok(())
}

fn queue_pair(x: &'static [u8], y: &'static [u8], ma: u64, mb: u64, k: usize) -> Result<(), String> {
    let (a, b) = (cutq(x, ma, k), cutq(y, mb, k + 1));
    let e = x == y;
    let o = x.cmp(y);
    eqs!(a, b, e, "ByteQueue/ByteQueue");
    cmps!(a, b, o, "ByteQueue/ByteQueue");
    ck!(Ord::cmp(&a, &b) == o, "ByteQueue cmp");
    ck!(Ord::cmp(&a, &b) == Ord::cmp(&b, &a).reverse(), "ByteQueue cmp is not antisymmetric");
    eqs!(a, *y, e, "ByteQueue/[u8]");
    eqs!(*x, b, e, "[u8]/ByteQueue");
    eqs!(a, y, e, "ByteQueue/&[u8]");
    eqs!(x, b, e, "&[u8]/ByteQueue");
    cmps!(a, *y, o, "ByteQueue/[u8]");
    cmps!(*x, b, o, "[u8]/ByteQueue");
    let (vx, vy) = (x.to_vec(), y.to_vec());
    eqs!(a, vy, e, "ByteQueue/Vec");
    eqs!(vx, b, e, "Vec/ByteQueue");
    cmps!(a, vy, o, "ByteQueue/Vec");
    cmps!(vx, b, o, "Vec/ByteQueue");
    if let (Some(da), Some(db)) = (reps::data(k % reps::KINDS, x), reps::data((k + 3) % reps::KINDS, y)) {
        eqs!(a, db, e, "ByteQueue/ByteData");
        eqs!(da, b, e, "ByteData/ByteQueue");
    }
    if e {
        ck!(h(&a) == h(&b), "equal ByteQueue hash differently");
    }
    if let (Ok(tx), Ok(ty)) = (std::str::from_utf8(x), std::str::from_utf8(y)) {
        eqs!(a, *ty, e, "ByteQueue/str");
        eqs!(*tx, b, e, "str/ByteQueue");
        eqs!(a, ty, e, "ByteQueue/&str");
        eqs!(tx, b, e, "&str/ByteQueue");
        let (sa, sb) = (StringData::from_owned(tx.to_string()), StringData::from_owned(ty.to_string()));
        eqs!(a, sb, e, "ByteQueue/StringData");
        eqs!(sa, b, e, "StringData/ByteQueue");
    }
    Ok(())
}

/// Cut a text at its character borders where the mask says so.
pub fn cuts(t: &'static str, mask: u64) -> StringQueue<'static> {
    let mut q = StringQueue::new();
    let mut s = 0;
    let mut n = 0;
    for (i, ch) in t.char_indices() {
        let end = i + ch.len_utf8();
        if end == t.len() || mask >> (n % 64) & 1 == 1 {
            q.push_back(match (n + s) % 3 {
                0 => StringData::from_static(&t[s..end]),
                1 => StringData::from_owned(t[s..end].to_string()),
                _ => StringData::try_from_shared(SharedBytes::from_slice(t[s..end].as_bytes())).unwrap(),
            });
            s = end;
        }
        n += 1;
    }
    q
}

fn squeue_pair(x: &'static str, y: &'static str, ma: u64, mb: u64) -> Result<(), String> {
    let (a, b) = (cuts(x, ma), cuts(y, mb));
    let (bx, by) = (x.as_bytes(), y.as_bytes());
    let e = x == y;
    let o = bx.cmp(by);
    eqs!(a, b, e, "StringQueue/StringQueue");
    cmps!(a, b, o, "StringQueue/StringQueue");
    ck!(Ord::cmp(&a, &b) == o, "StringQueue cmp");
    let (qa, qb) = (cutq(bx, mb, 0), cutq(by, ma, 1));
    eqs!(a, qb, e, "StringQueue/ByteQueue");
    eqs!(qa, b, e, "ByteQueue/StringQueue");
    cmps!(a, qb, o, "StringQueue/ByteQueue");
    cmps!(qa, b, o, "ByteQueue/StringQueue");
    let (sa, sb) = (StringData::from_owned(x.to_string()), StringData::from_owned(y.to_string()));
    eqs!(a, sb, e, "StringQueue/StringData");
    eqs!(sa, b, e, "StringData/StringQueue");
    cmps!(a, sb, o, "StringQueue/StringData");
    cmps!(sa, b, o, "StringData/StringQueue");
    let (da, db) = (ByteData::from_owned(bx.to_vec()), ByteData::from_owned(by.to_vec()));
    eqs!(a, db, e, "StringQueue/ByteData");
    eqs!(da, b, e, "ByteData/StringQueue");
    cmps!(a, db, o, "StringQueue/ByteData");
    cmps!(da, b, o, "ByteData/StringQueue");
    eqs!(a, *y, e, "StringQueue/str");
    eqs!(*x, b, e, "str/StringQueue");
    eqs!(a, y, e, "StringQueue/&str");
    eqs!(x, b, e, "&str/StringQueue");
    eqs!(a, *by, e, "StringQueue/[u8]");
    eqs!(*bx, b, e, "[u8]/StringQueue");
    eqs!(a, by, e, "StringQueue/&[u8]");
    eqs!(bx, b, e, "&[u8]/StringQueue");
    cmps!(a, *y, o, "StringQueue/str");
    cmps!(*x, b, o, "str/StringQueue");
    cmps!(a, y, o, "StringQueue/&str");
    cmps!(a, *by, o, "StringQueue/[u8]");
    cmps!(*bx, b, o, "[u8]/StringQueue");
    cmps!(a, by, o, "StringQueue/&[u8]");
    Ok(())
}

pub fn run(c: &mut Ctx) {
    let cs = contents();
    for (i, &x) in cs.iter().enumerate() {
        for (j, &y) in cs.iter().enumerate() {
            let step = c.pick(7, 1);
            let mut k = (i * 3 + j) % step;
            while k < reps::KINDS * reps::KINDS {
                let (ka, kb) = (k % reps::KINDS, k / reps::KINDS);
                c.case("byte values compare as their bytes", (x, y, ka, kb), || bytes_pair(x, y, ka, kb));
                k += step;
            }
            for k in 0..9 {
                c.case("shared bytes compare as their bytes", (x, y, k), || shared_pair(x, y, k));
            }
        }
    }
    let ts = texts();
    for (i, &x) in ts.iter().enumerate() {
        for (j, &y) in ts.iter().enumerate() {
            let step = c.pick(4, 1);
            let mut k = (i + j) % step;
            while k < reps::SKINDS * reps::SKINDS {
                let (ka, kb) = (k % reps::SKINDS, k / reps::SKINDS);
                c.case("string values compare as their bytes", (x, y, ka, kb), || string_pair(x, y, ka, kb));
                k += step;
            }
            for (ma, mb) in [(0, 0), (0, !0), (!0, 0), (!0, !0), (5, 10), (2, 1), (1 << 12, 1 << 13)] {
                c.case("string queues compare as their text", (x, y, ma, mb), || squeue_pair(x, y, ma, mb));
            }
        }
    }
    for i in 0..c.pick(8000usize, 320000) {
        let mut r = c.rng.clone();
        c.rng.next();
        let b = r.next() as u8;
        let n = r.below(40);
        let x = crate::util::leak(crate::util::near(&mut r, b, n));
        let y = crate::util::leak(crate::util::bent(&mut r, x));
        let (ka, kb) = (r.below(reps::KINDS), r.below(reps::KINDS));
        let (ma, mb) = (r.next() & r.next(), r.next() & r.next());
        c.case("byte values compare as their bytes", (x, y, ka, kb), || bytes_pair(x, y, ka, kb));
        c.case("shared bytes compare as their bytes", (x, y, i % 9), || shared_pair(x, y, i % 9));
        c.case("queues compare as their bytes", (x, y, ma, mb), || queue_pair(x, y, ma, mb, ka));
        if let (Ok(x), Ok(y)) = (core::str::from_utf8(x), core::str::from_utf8(y)) {
            c.case("string values compare as their bytes", (x, y, ka, kb), || string_pair(x, y, ka % reps::SKINDS, kb % reps::SKINDS));
            c.case("string queues compare as their text", (x, y, ma, mb), || squeue_pair(x, y, ma, mb));
        }
    }
    // every division of short strings over two letters
    let mut small: Vec<&'static [u8]> = vec![];
    for n in 0..=c.pick(3, 4) {
        for m in 0..1u32 << n {
            small.push(Box::leak((0..n).map(|i| if m >> i & 1 == 1 { 0x80 } else { b'a' }).collect::<Vec<u8>>().into_boxed_slice()));
        }
    }
    for &x in &small {
        for &y in &small {
            for ma in 0..1u64 << x.len().saturating_sub(1) {
                for mb in 0..1u64 << y.len().saturating_sub(1) {
                    c.case("queues compare as their bytes", (x, y, ma, mb), || queue_pair(x, y, ma, mb, ma as usize));
                }
            }
        }
    }
    for &x in &cs {
        for &y in &cs {
            for _ in 0..c.pick(6, 60) {
                let (ma, mb, k) = (c.rng.next(), c.rng.next() & c.rng.next(), c.rng.below(20));
                c.case("queues compare as their bytes", (x, y, ma, mb, k), || queue_pair(x, y, ma, mb, k));
            }
        }
    }
    // long queues across ring borders
    for n in [14usize, 15, 16, 17, 31, 47] {
        let x = reps::bytes(3, n);
        let y: &'static [u8] = {
            let mut v = x.to_vec();
            v[n - 1] ^= 0x80;
            Box::leak(v.into_boxed_slice())
        };
        for (a, b) in [(x, x), (x, y), (y, x), (x, &x[..n - 1]), (&x[..n - 1], x)] {
            for (ma, mb) in [(!0, 0), (0, !0), (!0, !0), (0x5555_5555, !0)] {
                c.case("queues compare as their bytes", (a, b, ma, mb), || queue_pair(a, b, ma, mb, 0));
            }
        }
    }
}
