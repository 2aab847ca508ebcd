//! An HTTP body delivers exactly its bytes and then ends.
use crate::ck;
use crate::ctx::{eq, same, Ctx};
use crate::reps;
use bytedata::SharedBytes;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

fn body1<B>(mut b: B, c: &'static [u8], flat: impl Fn(&B::Data) -> Vec<u8>) -> Result<(), String>
where
    B: http_body::Body + Unpin,
    B::Error: std::fmt::Debug,
{
    let mut cx = Context::from_waker(Waker::noop());
    let mut got: Vec<u8> = vec![];
    for step in 0.. {
        let left = (c.len() - got.len()) as u64;
        let h = b.size_hint();
        eq("size hint", (h.lower(), h.upper(), h.exact()), (left, Some(left), Some(left)))?;
        eq("is_end_stream", b.is_end_stream(), left == 0)?;
        match Pin::new(&mut b).poll_frame(&mut cx) {
            Poll::Pending => return Err("the body is never pending, but it was".into()),
            Poll::Ready(None) => {
                eq("bytes delivered when the end was announced", got.len(), c.len())?;
                break;
            }
            Poll::Ready(Some(Err(e))) => return Err(format!("error {e:?}")),
            Poll::Ready(Some(Ok(f))) => {
                ck!(f.is_data(), "a frame that is not data");
                let d = flat(f.data_ref().unwrap());
                ck!(!d.is_empty(), "frame {step} is empty");
                ck!(d.len() <= 0xFFFF, "frame {step} has {} bytes", d.len());
                got.extend_from_slice(&d);
                ck!(c.starts_with(&got), "frame {step} delivers other bytes");
            }
        }
    }
    for _ in 0..3 {
        ck!(matches!(Pin::new(&mut b).poll_frame(&mut cx), Poll::Ready(None)), "frames after the end");
        eq("is_end_stream after the end", b.is_end_stream(), true)?;
        eq("size after the end", b.size_hint().exact(), Some(0))?;
    }
    same("delivered", &got, c)
}

fn body04<B>(mut b: B, c: &'static [u8], flat: impl Fn(&B::Data) -> Vec<u8>) -> Result<(), String>
where
    B: http_body_04::Body + Unpin,
    B::Error: std::fmt::Debug,
{
    let mut cx = Context::from_waker(Waker::noop());
    let mut got: Vec<u8> = vec![];
    for step in 0.. {
        let left = (c.len() - got.len()) as u64;
        let h = b.size_hint();
        eq("size hint", (h.lower(), h.upper(), h.exact()), (left, Some(left), Some(left)))?;
        eq("is_end_stream", b.is_end_stream(), left == 0)?;
        match Pin::new(&mut b).poll_data(&mut cx) {
            Poll::Pending => return Err("the body is never pending, but it was".into()),
            Poll::Ready(None) => {
                eq("bytes delivered when the end was announced", got.len(), c.len())?;
                break;
            }
            Poll::Ready(Some(Err(e))) => return Err(format!("error {e:?}")),
            Poll::Ready(Some(Ok(d))) => {
                let d = flat(&d);
                ck!(!d.is_empty(), "frame {step} is empty");
                ck!(d.len() <= 0xFFFF, "frame {step} has {} bytes", d.len());
                got.extend_from_slice(&d);
                ck!(c.starts_with(&got), "frame {step} delivers other bytes");
            }
        }
    }
    ck!(matches!(Pin::new(&mut b).poll_trailers(&mut cx), Poll::Ready(Ok(None))), "trailers");
    for _ in 0..3 {
        ck!(matches!(Pin::new(&mut b).poll_data(&mut cx), Poll::Ready(None)), "frames after the end");
        eq("is_end_stream after the end", b.is_end_stream(), true)?;
        eq("size after the end", b.size_hint().exact(), Some(0))?;
    }
    same("delivered", &got, c)
}

pub fn run(c: &mut Ctx) {
    let mut lens = vec![0usize, 1, 13, 14, 15, 16, 31, 32, 33, 1000, 0xFFFE, 0xFFFF, 0x1_0000, 0x1_0001, 0x1_000E, 0x1_000F, 0x1_FFFD, 0x1_FFFE, 0x1_FFFF, 0x2_0000];
    if c.thorough() {
        lens.extend([0x2_FFFC, 0x2_FFFD, 0x2_FFFE, 0x3_FFF0, 200_000]);
    }
    for len in lens {
        let b = reps::bytes(1, len);
        for k in 0..reps::KINDS {
            c.case("byte data as a body (http-body 1)", (len, k), || match reps::data(k, b) {
                Some(d) => body1(d, b, |d| d.as_slice().to_vec()),
                None => Ok(()),
            });
            c.case("byte data as a body (http-body 0.4)", (len, k), || match reps::data(k, b) {
                Some(d) => body04(d, b, |d| d.as_slice().to_vec()),
                None => Ok(()),
            });
        }
        for al in [1usize, 64] {
            c.case("shared bytes as a body (http-body 1)", (len, al), || body1(SharedBytes::from_slice_aligned(b, al), b, |d| d.as_slice().to_vec()));
            c.case("shared bytes as a body (http-body 0.4)", (len, al), || body04(SharedBytes::from_slice_aligned(b, al), b, |d| d.as_slice().to_vec()));
            c.case("a piece of shared bytes as a body", (len, al), || body1(SharedBytes::from_slice(reps::bytes(0, len + 2)).sliced(1, len), reps::bytes(1, len), |d| d.as_slice().to_vec()));
            c.case("a piece of shared bytes as a body", (len, al, 4), || body04(SharedBytes::from_slice(reps::bytes(0, len + 2)).sliced(1, len), reps::bytes(1, len), |d| d.as_slice().to_vec()));
        }
    }
    for i in 0..c.pick(4000, 32000) {
        let mut lens: Vec<usize> = vec![];
        for _ in 0..c.rng.below(if i % 5 == 0 { 36 } else { 5 }) {
            lens.push(c.rng.pick(&[0, 1, 2, 13, 14, 15, 16, 40]));
        }
        if i % 4 == 0 {
            let at = c.rng.below(lens.len() + 1);
            lens.insert(at, c.rng.pick(&[0xFFFE, 0xFFFF, 0x1_0000, 0x1_000D, 0x1_FFFE, 0x1_FFFF]));
        }
        let (k, how) = (c.rng.below(20), c.rng.below(3));
        c.case("a queue as a body", (lens.clone(), k, how), || body1(reps::queue(&lens, k, 3, how), reps::flat(&lens, 3), |d| d.as_slice().to_vec()));
    }
}
