//! Byte and string values with chosen content in every representation the crate has.
use bytedata::{ByteData, ByteQueue, SharedBytes, SharedBytesBuilder, StringData};
use std::borrow::Cow;
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

const POOL_N: usize = 1 << 18;

const fn build() -> [u8; POOL_N] {
    let mut a = [0u8; POOL_N];
    let mut i = 0;
    let mut x: u32 = 12345;
    while i < POOL_N {
        x = x.wrapping_mul(1_664_525).wrapping_add(1_013_904_223);
        // every byte value occurs, neighbours differ
        let mut b = (x >> 17) as u8;
        if i > 0 && a[i - 1] == b {
            b = b.wrapping_add(1);
        }
        a[i] = b;
        i += 1;
    }
    a
}

static POOL: [u8; POOL_N] = build();

/// `len` bytes of fixed content starting somewhere in the pool.
pub fn bytes(at: usize, len: usize) -> &'static [u8] {
    &POOL[at % 97..][..len]
}

/// Owners created by `Owner::new` and not dropped yet.
pub static OWNERS: AtomicI64 = AtomicI64::new(0);

/// A foreign owner of bytes that is unusually aligned and counts itself.
#[repr(align(64))]
pub struct Owner {
    pub data: Box<[u8]>,
    pub tag: u64,
}

impl Owner {
    pub fn new(d: &[u8]) -> Self {
        OWNERS.fetch_add(1, Relaxed);
        Self { data: d.into(), tag: 0x5EED }
    }
}
impl Drop for Owner {
    fn drop(&mut self) {
        OWNERS.fetch_sub(1, Relaxed);
        self.tag = 0;
    }
}
impl bytedata::external::ExternalBytes for Owner {
    const OPS: bytedata::external::ExternalOps<Self> = bytedata::external::ExternalOps::new(|o| &o.data);
}

pub const KINDS: usize = 20;

/// The content `c` as byte data of representation `k`; `None` if the representation cannot hold it.
pub fn data(k: usize, c: &'static [u8]) -> Option<ByteData<'static>> {
    let padded = || {
        let mut v = vec![0xEEu8; 3];
        v.extend_from_slice(c);
        v.extend_from_slice(&[0xDD; 21]);
        v
    };
    Some(match k {
        0 => ByteData::from_static(c),
        1 => ByteData::from_borrowed(c),
        2 => {
            if c.len() > 14 {
                return None;
            }
            ByteData::from_chunk_slice(c)
        }
        3 => ByteData::from_shared(SharedBytes::from_slice(c)),
        4 => ByteData::from_shared(SharedBytes::from_slice(&padded()).sliced(3, c.len())),
        5 => ByteData::from_shared(SharedBytes::from_slice_aligned(c, 64)),
        6 => ByteData::from_shared(SharedBytes::from_slice(&padded()).into_sliced(3, c.len())),
        7 => ByteData::from_owned(c.to_vec()),
        8 => {
            let mut v = Vec::with_capacity(c.len() + 37);
            v.extend_from_slice(c);
            ByteData::from_owned(v)
        }
        9 => ByteData::from_owned(padded()).into_sliced(3..3 + c.len()),
        10 => ByteData::from_external(Owner::new(c)),
        11 => ByteData::from_external(Owner::new(&padded())).sliced(3..3 + c.len()),
        12 => ByteData::from_external(Box::<[u8]>::from(c)),
        13 => ByteData::from_external(std::sync::Arc::<[u8]>::from(c)),
        14 => ByteData::from_concat(&[&c[..c.len() / 2], &c[c.len() / 2..]]),
        15 => ByteData::from_cow(Cow::Owned(c.to_vec())),
        16 => c.iter().copied().collect::<ByteData<'static>>(),
        17 => {
            let mut b = SharedBytesBuilder::new();
            b.extend_from_slice(c);
            ByteData::from(b)
        }
        18 => {
            let mut d = ByteData::from_owned(padded());
            d.make_sliced(3..);
            d.make_sliced(..c.len());
            d
        }
        19 => {
            let d = ByteData::from_borrowed(c);
            d.into_shared()
        }
        _ => return None,
    })
}

pub const SKINDS: usize = 9;

/// The content `c` as string data of representation `k`.
pub fn string(k: usize, c: &'static str) -> Option<StringData<'static>> {
    Some(match k {
        0 => StringData::from_static(c),
        1 => StringData::from_borrowed(c),
        2 => StringData::from_owned(c.to_string()),
        3 => StringData::try_from_shared(SharedBytes::from_slice(c.as_bytes())).ok()?,
        4 => {
            let p = format!("\u{20ac}{c}\u{e9}xyzxyzxyzxyzxyz");
            StringData::from_owned(p).into_sliced(3..3 + c.len())
        }
        5 => {
            let p = format!("ab{c}tail");
            StringData::try_from_shared(SharedBytes::from_slice(p.as_bytes())).ok()?.sliced(2..2 + c.len())
        }
        6 => StringData::from_cow(Cow::Owned(c.to_string())),
        7 => StringData::from_borrowed(c).into_shared(),
        8 => {
            if c.len() > 14 {
                return None;
            }
            StringData::try_from_bytedata(ByteData::from_chunk_slice(c.as_bytes())).ok()?
        }
        _ => return None,
    })
}

/// Chunk lengths to chunks: successive pieces of the pool, in rotating representations.
pub fn chunks(lens: &[usize], kind0: usize, at: usize) -> Vec<ByteData<'static>> {
    let mut pos = at % 97;
    let mut v = Vec::new();
    for (i, &l) in lens.iter().enumerate() {
        let c = &POOL[pos..pos + l];
        pos += l;
        let mut k = (kind0 + i * 7) % KINDS;
        loop {
            if let Some(d) = data(k, c) {
                v.push(d);
                break;
            }
            k = (k + 1) % KINDS;
        }
    }
    v
}

/// The bytes of `chunks(lens, _, at)`.
pub fn flat(lens: &[usize], at: usize) -> &'static [u8] {
    &POOL[at % 97..][..lens.iter().sum()]
}

/// A queue with the given chunk lengths, built by appending or by prepending.
pub fn queue(lens: &[usize], kind0: usize, at: usize, how: usize) -> ByteQueue<'static> {
    let cs = chunks(lens, kind0, at);
    let mut q = ByteQueue::new();
    match how % 3 {
        0 => {
            for c in cs {
                q.push_back(c);
            }
        }
        1 => {
            for c in cs.into_iter().rev() {
                q.push_front(c);
            }
        }
        _ => {
            let n = cs.len() / 2;
            let mut front = vec![];
            for (i, c) in cs.into_iter().enumerate() {
                if i < n {
                    front.push(c);
                } else {
                    q.push_back(c);
                }
            }
            for c in front.into_iter().rev() {
                q.push_front(c);
            }
        }
    }
    q
}

pub fn queue_bytes(q: &ByteQueue<'_>) -> Vec<u8> {
    let mut v = vec![];
    for c in q.chunks() {
        v.extend_from_slice(c.as_slice());
    }
    v
}

/// The contract every byte queue keeps: length is the sum of the chunks, no chunk is empty, the
/// chunk count is right, the first and last chunk are the ends.
pub fn queue_wf(q: &ByteQueue<'_>) -> Result<(), String> {
    let mut n = 0;
    let mut total = 0;
    let mut first: Option<Vec<u8>> = None;
    let mut last: Option<Vec<u8>> = None;
    for c in q.chunks() {
        if c.is_empty() {
            return Err(format!("chunk {n} is empty"));
        }
        if first.is_none() {
            first = Some(c.as_slice().to_vec());
        }
        last = Some(c.as_slice().to_vec());
        n += 1;
        total += c.len();
    }
    if total != q.len() {
        return Err(format!("length {} but the chunks hold {total} bytes", q.len()));
    }
    if n != q.chunk_len() {
        return Err(format!("chunk count {} but {n} chunks are visible", q.chunk_len()));
    }
    if q.is_empty() != (total == 0) {
        return Err(format!("is_empty {} with {total} bytes", q.is_empty()));
    }
    if q.front().map(|c| c.as_slice().to_vec()) != first {
        return Err("the front is not the first chunk".into());
    }
    if q.back().map(|c| c.as_slice().to_vec()) != last {
        return Err("the back is not the last chunk".into());
    }
    Ok(())
}

pub fn queue_is(q: &ByteQueue<'_>, want: &[u8]) -> Result<(), String> {
    queue_wf(q)?;
    crate::ctx::same("queue content", &queue_bytes(q), want)
}
