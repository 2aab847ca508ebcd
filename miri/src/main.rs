//! Histories of handles used from several threads, run by Miri under many schedules.
//! Usage: bmiri CASE
use bytedata::external::{ExternalBytes, ExternalOps};
use bytedata::{ByteData, ByteQueue, SharedBytes, SharedBytesBuilder, StringData};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
use std::thread::spawn;

static LIVE: AtomicI64 = AtomicI64::new(0);
static DROPS: AtomicI64 = AtomicI64::new(0);

/// An owner that keeps its bytes inside itself.
struct Own {
    data: [u8; 24],
    tag: Box<u32>,
}
impl Own {
    fn new(x: u8) -> Self {
        LIVE.fetch_add(1, SeqCst);
        Own { data: [x; 24], tag: Box::new(7) }
    }
}
impl Drop for Own {
    fn drop(&mut self) {
        assert_eq!(*self.tag, 7);
        *self.tag = 0;
        self.data = [0; 24];
        LIVE.fetch_sub(1, SeqCst);
        DROPS.fetch_add(1, SeqCst);
    }
}
impl ExternalBytes for Own {
    const OPS: ExternalOps<Self> = ExternalOps::new(|o| &o.data);
}

fn text(n: usize) -> Vec<u8> {
    (0..n).map(|i| b'a' + (i % 23) as u8).collect()
}
fn sum(b: &[u8]) -> u64 {
    b.iter().map(|x| *x as u64).sum()
}

fn shared_drop() {
    let t = text(40);
    let a = SharedBytes::from_slice(&t);
    let b = a.clone();
    let (t1, t2) = (t.clone(), t.clone());
    let h = spawn(move || assert_eq!(b.as_slice(), t1));
    let c = a.sliced(3, 20);
    let g = spawn(move || {
        let d = c.clone();
        drop(c);
        assert_eq!(d.as_slice(), &t2[3..23]);
    });
    assert_eq!(a.as_slice(), t);
    drop(a);
    h.join().unwrap();
    g.join().unwrap();
}
fn shared_clone_elsewhere() {
    let t = text(33);
    let a = SharedBytes::from_slice_aligned(&t, 64);
    std::thread::scope(|s| {
        for i in 0..3usize {
            let (a, t) = (&a, &t);
            s.spawn(move || {
                let c = a.clone();
                let d = c.sliced_range(i..20 + i);
                drop(c);
                assert_eq!(d.as_slice(), &t[i..20 + i]);
            });
        }
    });
    assert!(a.is_unique());
    drop(a);
}
fn shared_reuse() {
    let t = text(40);
    let a = SharedBytes::from_slice(&t);
    let b = a.clone();
    let t1 = t.clone();
    let h = spawn(move || {
        assert_eq!(b.as_slice(), t1);
        drop(b);
    });
    let mut m = SharedBytesBuilder::from(a);
    m.clear();
    m.extend_from_slice(&[9; 30]);
    let f = m.build();
    assert_eq!(f.as_slice(), &[9; 30]);
    h.join().unwrap();
}
fn shared_reuse_waiting() {
    let t = text(40);
    let a = SharedBytes::from_slice(&t);
    let b = a.clone();
    let h = spawn(move || sum(b.as_slice()));
    let mut left = 40;
    while !a.is_unique() && left > 0 {
        left -= 1;
        std::thread::yield_now();
    }
    let mut m = SharedBytesBuilder::from(a);
    m.as_mut().fill(1);
    assert_eq!(sum(m.as_slice()), 40);
    drop(m);
    assert_eq!(h.join().unwrap(), sum(&t));
}
fn bytedata_shared() {
    let t = text(50);
    let a: ByteData<'static> = SharedBytes::from_slice(&t).into();
    let b = a.sliced(2..40);
    let c = a.clone().into_sliced(20..);
    let (t1, t2) = (t.clone(), t.clone());
    let h = spawn(move || assert_eq!(b.as_slice(), &t1[2..40]));
    let g = spawn(move || {
        let mut c = c;
        c.make_sliced(1..);
        assert_eq!(c.as_slice(), &t2[21..]);
        let (x, y) = c.split_at(15);
        drop(x);
        assert_eq!(y.as_slice(), &t2[36..]);
    });
    assert_eq!(a.into_sliced(1..45).as_slice(), &t[1..45]);
    h.join().unwrap();
    g.join().unwrap();
}
fn bytedata_to_vec() {
    let t = text(50);
    let a: ByteData<'static> = SharedBytes::from_slice(&t).into();
    let b = a.clone();
    let t1 = t.clone();
    let h = spawn(move || assert_eq!(Vec::from(b), t1));
    assert_eq!(Vec::from(a), t);
    h.join().unwrap();
}
fn external_drop() {
    let a = ByteData::from_external(Own::new(5));
    let b = a.clone();
    let c = a.sliced(3..22);
    let h = spawn(move || assert_eq!(sum(b.as_slice()), 24 * 5));
    let g = spawn(move || {
        let d = c.clone();
        drop(c);
        assert_eq!(sum(d.as_slice()), 19 * 5);
    });
    assert_eq!(sum(a.as_slice()), 24 * 5);
    drop(a);
    h.join().unwrap();
    g.join().unwrap();
    assert_eq!((LIVE.load(SeqCst), DROPS.load(SeqCst)), (0, 1));
}
fn external_clone_elsewhere() {
    let a = ByteData::from_external(Own::new(3));
    std::thread::scope(|s| {
        for i in 0..3usize {
            let a = &a;
            s.spawn(move || {
                let c = a.clone();
                let d = c.into_sliced(i..i + 20);
                assert_eq!(sum(d.as_slice()), 60);
            });
        }
    });
    assert_eq!(DROPS.load(SeqCst), 0);
    drop(a);
    assert_eq!((LIVE.load(SeqCst), DROPS.load(SeqCst)), (0, 1));
}
fn external_take() {
    let t = text(40);
    let a = ByteData::from_external(t.clone());
    let b = a.clone();
    let t1 = t.clone();
    let h = spawn(move || {
        assert_eq!(b.as_slice(), t1);
        drop(b);
    });
    let mut v = Vec::from(a);
    assert_eq!(v, t);
    v.fill(0);
    h.join().unwrap();
}
fn external_take_both() {
    let t = text(40);
    let a = ByteData::from_external(t.clone());
    let b = a.clone();
    let t1 = t.clone();
    let h = spawn(move || {
        let mut v = Vec::from(b);
        assert_eq!(v, t1);
        v.fill(1);
    });
    let mut v = Vec::from(a);
    assert_eq!(v, t);
    v.fill(0);
    h.join().unwrap();
}
fn bytes_exchange() {
    let t = text(40);
    let a = SharedBytes::from_slice(&t);
    let b: bytes::Bytes = a.clone().into();
    let c = b.clone();
    let d = b.slice(4..30);
    let (t1, t2) = (t.clone(), t.clone());
    let h = spawn(move || {
        let v: Vec<u8> = c.into();
        assert_eq!(v, t1);
    });
    let g = spawn(move || {
        assert_eq!(&d[..], &t2[4..30]);
        drop(d);
    });
    drop(b);
    let mut m = SharedBytesBuilder::from(a);
    m.as_mut().fill(1);
    assert_eq!(sum(m.as_slice()), 40);
    h.join().unwrap();
    g.join().unwrap();
}
fn bytes_last() {
    let t = text(40);
    let b: bytes::Bytes = SharedBytes::from_slice(&t).into();
    let c = b.clone();
    let t1 = t.clone();
    let h = spawn(move || {
        assert_eq!(&c[..], &t1[..]);
        drop(c);
    });
    assert_eq!(&b[..], &t[..]);
    drop(b);
    h.join().unwrap();
}
fn queue_and_text() {
    let t = "some text of more than fourteen bytes".to_string();
    let s = StringData::from(t.clone());
    let mut q = ByteQueue::new();
    q.push_back(ByteData::from(SharedBytes::from_slice(t.as_bytes())));
    q.push_back(ByteData::from_external(Own::new(1)));
    let p = q.clone();
    let s2 = s.clone();
    let t1 = t.clone();
    let h = spawn(move || {
        let mut p = p;
        assert_eq!(p.len(), t1.len() + 24);
        p.consume(3);
        let (x, y) = s2.split_at(5);
        assert_eq!((x.as_str(), y.as_str()), t1.split_at(5));
    });
    let tail = q.split_off(10);
    drop(q);
    assert_eq!(tail.len(), t.len() + 14);
    drop(tail);
    drop(s);
    h.join().unwrap();
    assert_eq!((LIVE.load(SeqCst), DROPS.load(SeqCst)), (0, 1));
}

const CASES: &[(&str, &str, fn())] = &[
    ("P23 P03", "clones and sub-ranges of shared bytes read and dropped in three threads", shared_drop),
    ("P23 P03", "shared bytes cloned and cut in three threads at once", shared_clone_elsewhere),
    ("P23 P03", "shared bytes turned into a builder while another thread reads and drops a clone", shared_reuse),
    ("P23 P03", "shared bytes turned into a builder once they report to be unique", shared_reuse_waiting),
    ("P23 P03", "shared byte values cut in three threads", bytedata_shared),
    ("P23 P03", "shared byte values turned into vectors in two threads", bytedata_to_vec),
    ("P23 P15", "clones and sub-ranges of an external value read and dropped in three threads", external_drop),
    ("P23 P15", "an external value cloned and cut in three threads at once", external_clone_elsewhere),
    ("P23 P15", "an external vector taken back while another thread reads and drops a clone", external_take),
    ("P23 P15", "an external vector taken back in two threads", external_take_both),
    ("P23 P17", "shared bytes as Bytes in three threads, then turned into a builder", bytes_exchange),
    ("P23 P17", "shared bytes as Bytes, dropped in two threads", bytes_last),
    ("P23 P15 P03", "a queue and a string value in two threads", queue_and_text),
];

fn main() {
    match std::env::args().nth(1).and_then(|a| a.parse::<usize>().ok()) {
        Some(i) if i < CASES.len() => (CASES[i].2)(),
        _ => {
            for (i, c) in CASES.iter().enumerate() {
                println!("CASE\t{i}\t{}\t{}", c.0, c.1);
            }
        }
    }
}
