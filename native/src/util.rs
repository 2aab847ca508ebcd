//! Shared bits of the input spaces.
use core::ops::Bound;

/// Lengths around the boundaries of the representations.
pub const LENS: &[usize] = &[0, 1, 2, 3, 7, 13, 14, 15, 16, 17, 28, 29, 30, 40];
pub const BIG: &[usize] = &[254, 255, 256, 257, 0x7FFF, 0x8000, 0xFFFF, 0x1_0000, 70_000];

/// Indices of interest for a sequence of length `n`, some out of range.
pub fn idx(n: usize) -> Vec<usize> {
    let mut v = vec![0, 1, 2, n / 2, n.saturating_sub(1), n, n + 1, n + 2, 14, 15, (1 << 32) + 1, 1 << 32, u32::MAX as usize, usize::MAX - 1, usize::MAX];
    v.push((1 << 32) + n);
    v.push(256 + n / 2);
    v.push(256 + n);
    v.push(0x1_0000 + n);
    v.push((1usize << 63) + 1);
    v.sort_unstable();
    v.dedup();
    v
}

/// Indices in range.
pub fn idx_in(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = idx(n).into_iter().filter(|i| *i <= n).collect();
    if n <= 16 {
        v = (0..=n).collect();
    }
    v
}

/// A range in every shape the standard library has.
#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
pub enum Rg {
    Full,
    From(usize),
    To(usize),
    ToInc(usize),
    R(usize, usize),
    Inc(usize, usize),
    Ex(usize, usize),
    ExInc(usize, usize),
    ExUnb(usize),
}

impl Rg {
    pub fn pair(self) -> (Bound<usize>, Bound<usize>) {
        use Bound::*;
        match self {
            Rg::Full => (Unbounded, Unbounded),
            Rg::From(a) => (Included(a), Unbounded),
            Rg::To(b) => (Unbounded, Excluded(b)),
            Rg::ToInc(b) => (Unbounded, Included(b)),
            Rg::R(a, b) => (Included(a), Excluded(b)),
            Rg::Inc(a, b) => (Included(a), Included(b)),
            Rg::Ex(a, b) => (Excluded(a), Excluded(b)),
            Rg::ExInc(a, b) => (Excluded(a), Included(b)),
            Rg::ExUnb(a) => (Excluded(a), Unbounded),
        }
    }
    /// The half-open range this denotes in a sequence of `n`, if it is in range.
    pub fn on(self, n: usize) -> Option<(usize, usize)> {
        let (s, e) = self.pair();
        let s = match s {
            Bound::Included(a) => a,
            Bound::Excluded(a) => a.checked_add(1)?,
            Bound::Unbounded => 0,
        };
        let e = match e {
            Bound::Included(a) => a.checked_add(1)?,
            Bound::Excluded(a) => a,
            Bound::Unbounded => n,
        };
        if s <= e && e <= n {
            Some((s, e))
        } else {
            None
        }
    }
    /// Shapes with a type of their own (`..`, `a..`, ...): the others are pairs of bounds.
    pub fn plain(self) -> bool {
        !matches!(self, Rg::Ex(..) | Rg::ExInc(..) | Rg::ExUnb(..))
    }
}

pub fn ranges(n: usize) -> Vec<Rg> {
    ranges_of(&idx(n))
}

pub fn ranges_of(ix: &[usize]) -> Vec<Rg> {
    let mut v = vec![Rg::Full];
    for &a in ix {
        v.extend([Rg::From(a), Rg::To(a), Rg::ToInc(a), Rg::ExUnb(a)]);
        for &b in ix {
            v.extend([Rg::R(a, b), Rg::Inc(a, b), Rg::Ex(a, b), Rg::ExInc(a, b)]);
        }
    }
    v
}

/// Only ranges that are in range.
pub fn ranges_in(n: usize) -> Vec<Rg> {
    let mut v = ranges_of(&idx_in(n));
    v.retain(|r| r.on(n).is_some());
    v
}

/// Call a generic slicing operation with the range in its own type.
#[macro_export]
macro_rules! with_range {
    ($r:expr, |$x:ident| $e:expr) => {
        match $r {
            $crate::util::Rg::Full => { let $x = ..; $e }
            $crate::util::Rg::From(a) => { let $x = a..; $e }
            $crate::util::Rg::To(b) => { let $x = ..b; $e }
            $crate::util::Rg::ToInc(b) => { let $x = ..=b; $e }
            $crate::util::Rg::R(a, b) => { let $x = a..b; $e }
            $crate::util::Rg::Inc(a, b) => { let $x = a..=b; $e }
            r => { let $x = r.pair(); $e }
        }
    };
}

/// Strings that mix widths and put multi-byte characters around positions 13..16 and at the ends.
pub const TEXTS: &[&str] = &[
    "",
    "a",
    "\u{e9}",
    "\u{20ac}",
    "\u{1F600}",
    "a\u{e9}",
    "\u{e9}a",
    "x\u{20ac}y",
    "\u{1F600}\u{1F601}",
    "abcdefghijklm\u{e9}",
    "abcdefghijkl\u{20ac}z",
    "abcdefghijklmn",
    "abcdefghijklmno",
    "abcdefghijklm\u{1F600}tail of the text",
    "\u{20ac}\u{20ac}\u{20ac}\u{20ac}\u{20ac}\u{20ac}",
    "  lead and trail \u{3000}\t\r\n",
    "line one\nline two\r\nline \u{e9} three\n\nend",
    "\u{7f}\u{80}\u{7ff}\u{800}\u{ffff}\u{10000}\u{10ffff}\u{d7ff}\u{e000}",
    "aaaaaaabaaaaaaabaaaaaaab",
    "\r\r\n\n\r",
];

/// Raw material for generated values: several lengths, mostly text-like bytes and arbitrary ones.
pub fn noise(r: &mut crate::ctx::Rng, n: usize) -> Vec<u8> {
    let kind = r.below(3);
    (0..n)
        .map(|_| match kind {
            0 => r.next() as u8,
            1 => r.pick(b"abc \xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80\x00\x01\x02\xff"),
            _ => r.pick(&[0u8, 1, 2, 0x41, 0xd8, 0xdf, 0x10]),
        })
        .collect()
}

/// Contents that code working on several bytes at a time gets wrong: `b` among the bytes that
/// differ from it in one bit or by one, densely or rarely.
pub fn near(r: &mut crate::ctx::Rng, b: u8, n: usize) -> Vec<u8> {
    let all = [b, b ^ 1, b ^ 0x80, b ^ 0x81, b.wrapping_add(1), b.wrapping_sub(1), b ^ 0x20, 0, 0x80, 0xff, 1, 0x7f];
    let few = [r.pick(&all), r.pick(&all)];
    let kind = r.below(3);
    (0..n)
        .map(|_| match kind {
            0 => r.pick(&all),
            1 => if r.below(12) == 0 { b } else { r.pick(&few) },
            _ => if r.below(4) == 0 { b } else { b ^ 1 },
        })
        .collect()
}

/// `a` with one or two of its bytes changed a little.
pub fn bent(r: &mut crate::ctx::Rng, a: &[u8]) -> Vec<u8> {
    let mut v = a.to_vec();
    if !v.is_empty() {
        for _ in 0..1 + r.below(2) {
            let i = r.below(v.len());
            v[i] = match r.below(4) {
                0 => v[i] ^ 0x20,
                1 => v[i].wrapping_add(1),
                2 => v[i] ^ 0x80,
                _ => v[i] ^ 1 << r.below(8),
            };
        }
    }
    v
}

pub fn leak(v: Vec<u8>) -> &'static [u8] {
    Box::leak(v.into_boxed_slice())
}

/// Long, mostly ASCII bytes with something else at one place, valid or not.
pub fn long_texts() -> Vec<&'static [u8]> {
    let mut all = vec![];
    for at in 0..34usize {
        for x in [&b"\x80"[..], b"\xc3\xa9", b"\xff", b"\xe2\x82\xac", b"\xed\xa0\x80", b"\xf0\x9f\x98\x80", b"\xc3", b"\xc1\xbf"] {
            let mut v: Vec<u8> = (0..at).map(|i| b'a' + (i % 26) as u8).collect();
            v.extend_from_slice(x);
            if at % 3 != 0 {
                v.extend_from_slice(&b"and the rest of it"[..at % 19]);
            }
            all.push(leak(v));
        }
    }
    all
}
