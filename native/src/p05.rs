//! The inline chunk holds up to 14 bytes and slices like a slice.
use crate::ctx::{eq, outcome, same, Ctx};
use crate::reps;
use crate::util::*;
use crate::{ck, with_range};
use bytedata::ByteChunk;
use core::fmt::Write as _;

pub fn run(c: &mut Ctx) {
    for len in 0..=14usize {
        let b = reps::bytes(len, len);
        c.case("an inline chunk holds its bytes", len, || {
            let x = ByteChunk::from_slice(b);
            same("as_slice", x.as_slice(), b)?;
            eq("len", x.len(), len)?;
            eq("is_empty", x.is_empty(), len == 0)?;
            let y = x;
            same("copy", y.as_slice(), b)?;
            ck!(format!("{x:?}") == format!("{y:?}"), "copies print differently");
            Ok(())
        });
        for r in ranges(len) {
            c.case("sub-slicing an inline chunk is slice indexing", (len, r), || {
                let d = ByteChunk::from_slice(b);
                let want = r.on(len).map(|(s, e)| &b[s..e]);
                let check = |what: &str, got: Option<ByteChunk>| match (got, want) {
                    (None, None) => Ok(()),
                    (Some(g), Some(w)) => same(what, g.as_slice(), w).and_then(|()| eq("len", g.len(), w.len())),
                    (Some(g), None) => Err(format!("{what}: out of range but gave {} bytes", g.len())),
                    (None, Some(_)) => Err(format!("{what}: panicked on a range that is in bounds")),
                };
                check("sliced", outcome(|| with_range!(r, |x| d.sliced(x))))?;
                check("into_sliced", outcome(|| with_range!(r, |x| d.into_sliced(x))))?;
                let mut m = d;
                let ok = outcome(|| with_range!(r, |x| m.make_sliced(x)));
                check("make_sliced", ok.map(|()| m))?;
                same("the chunk after slicing it", d.as_slice(), b)
            });
        }
        for add in 0..=18usize {
            c.case("writing text to an inline chunk appends it if it fits", (len, add), || {
                let mut x = ByteChunk::from_slice(b);
                let t: String = "abcdefghijklmnopqrstuvwxyz"[..add].into();
                let r = x.write_str(&t);
                if len + add <= 14 {
                    ck!(r.is_ok(), "refused {add} bytes after {len}");
                    same("content", x.as_slice(), &[b, t.as_bytes()].concat())
                } else {
                    ck!(r.is_err(), "accepted {add} bytes after {len}");
                    same("content", x.as_slice(), b)
                }
            });
        }
    }
}
