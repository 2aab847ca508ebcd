//! Runs contracts case by case and records what was covered and what failed.
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Viol {
    pub case: u64,
    pub contract: &'static str,
    pub input: String,
    pub why: String,
}

pub struct Ctx {
    pub tier: Tier,
    pub seed: u64,
    pub rng: Rng,
    pub evals: u64,
    distinct: HashSet<u64>,
    pub distinct_capped: bool,
    pub samples: Vec<String>,
    pub viols: Vec<Viol>,
    pub contracts: BTreeMap<&'static str, u64>,
    only: Option<u64>,
    describe_only: bool,
    pub described: Option<(String, String)>,
    case_no: u64,
    per_contract_viols: BTreeMap<&'static str, u32>,
}

pub static CASE: AtomicU64 = AtomicU64::new(0);
pub static CASE_START: AtomicU64 = AtomicU64::new(0);
static CONTRACT_PTR: AtomicUsize = AtomicUsize::new(0);
static CONTRACT_LEN: AtomicUsize = AtomicUsize::new(0);

extern "C" {
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn _exit(c: i32) -> !;
    fn signal(s: i32, h: usize) -> usize;
    fn sigaltstack(ss: *const StackT, old: *mut StackT) -> i32;
    fn sigaction(s: i32, a: *const SigAct, old: *mut SigAct) -> i32;
}
#[repr(C)]
struct StackT {
    sp: *mut u8,
    flags: i32,
    size: usize,
}
#[repr(C)]
struct SigAct {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}

/// Async-signal-safe: report the running case and stop.
pub fn fatal(why: &str) -> ! {
    let mut buf = [0u8; 64];
    let mut n = CASE.load(Relaxed);
    let mut i = 64;
    loop {
        i -= 1;
        buf[i] = b'0' + (n % 10) as u8;
        n /= 10;
        if n == 0 {
            break;
        }
    }
    unsafe {
        let w = |s: &[u8]| {
            write(1, s.as_ptr(), s.len());
        };
        w(b"\nFATAL ");
        w(&buf[i..]);
        w(b" ");
        w(std::slice::from_raw_parts(
            CONTRACT_PTR.load(Relaxed) as *const u8,
            CONTRACT_LEN.load(Relaxed),
        ));
        w(b" | ");
        w(why.as_bytes());
        w(b"\n");
        _exit(70)
    }
}

extern "C" fn on_signal(s: i32) {
    fatal(match s {
        11 => "segmentation fault",
        7 => "bus error",
        6 => "abort",
        4 => "illegal instruction",
        8 => "arithmetic exception",
        5 => "trap",
        _ => "signal",
    })
}

pub fn install() {
    unsafe {
        let stack = Box::leak(vec![0u8; 65536].into_boxed_slice());
        let ss = StackT { sp: stack.as_mut_ptr(), flags: 0, size: 65536 };
        sigaltstack(&ss, std::ptr::null_mut());
        for s in [11, 7, 6, 4, 8, 5] {
            let a = SigAct { handler: on_signal as usize, mask: [0; 16], flags: 0x0800_0000, restorer: 0 };
            if sigaction(s, &a, std::ptr::null_mut()) != 0 {
                signal(s, on_signal as usize);
            }
        }
    }
    std::panic::set_hook(Box::new(|_| {}));
    let t0 = std::time::Instant::now();
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let now = t0.elapsed().as_millis() as u64 + 1;
        let c = CASE.load(Relaxed);
        let s = CASE_START.load(Relaxed);
        if c == 0 {
            continue;
        }
        if s >> 20 != c & 0xFFF_FFFF_FFFF {
            CASE_START.store((c << 20) | ((now / 100) & 0xF_FFFF), Relaxed);
        } else {
            let began = (s & 0xF_FFFF) * 100;
            if now.saturating_sub(began) > 30_000 {
                fatal("does not terminate (30 s in one case)");
            }
        }
    });
}

impl Ctx {
    pub fn new(tier: Tier, seed: u64, only: Option<u64>, describe_only: bool) -> Self {
        Self {
            tier,
            seed,
            rng: Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x1234_5678_9ABC_DEF1),
            evals: 0,
            distinct: HashSet::with_capacity(1 << 16),
            distinct_capped: false,
            samples: vec![],
            viols: vec![],
            contracts: BTreeMap::new(),
            only,
            describe_only,
            described: None,
            case_no: 0,
            per_contract_viols: BTreeMap::new(),
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    /// Pick by tier.
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }

    pub fn distinct(&self) -> usize {
        self.distinct.len()
    }

    /// Evaluate one contract on one input. `f` allocates and releases everything it needs: what it
    /// leaves allocated is reported as a leak.
    pub fn case<P: Debug + Hash>(
        &mut self,
        contract: &'static str,
        params: P,
        f: impl FnOnce() -> Result<(), String>,
    ) {
        self.case_opt(contract, params, true, f)
    }

    /// As `case`, but without the leak check (the library keeps a process-wide table, say).
    pub fn case_noleak<P: Debug + Hash>(
        &mut self,
        contract: &'static str,
        params: P,
        f: impl FnOnce() -> Result<(), String>,
    ) {
        self.case_opt(contract, params, false, f)
    }

    fn case_opt<P: Debug + Hash>(
        &mut self,
        contract: &'static str,
        params: P,
        leak: bool,
        f: impl FnOnce() -> Result<(), String>,
    ) {
        self.case_no += 1;
        if let Some(o) = self.only {
            if o != self.case_no {
                return;
            }
            self.described = Some((contract.to_string(), format!("{params:?}")));
            if self.describe_only {
                return;
            }
        }
        if self.per_contract_viols.get(contract).copied().unwrap_or(0) >= 3 || self.viols.len() >= 12 {
            return;
        }
        self.evals += 1;
        *self.contracts.entry(contract).or_insert(0) += 1;
        if self.distinct.len() < 4_000_000 {
            let mut h = Fnv(0xcbf2_9ce4_8422_2325);
            contract.hash(&mut h);
            params.hash(&mut h);
            self.distinct.insert(h.finish());
        } else {
            self.distinct_capped = true;
        }
        let n = self.contracts[contract];
        if n == 17 || (n == 1 && self.samples.len() < 8) {
            if self.samples.len() < 24 {
                self.samples.push(format!("{contract}: {params:?}"));
            }
        }
        CONTRACT_PTR.store(contract.as_ptr() as usize, Relaxed);
        CONTRACT_LEN.store(contract.len(), Relaxed);
        CASE.store(self.case_no, Relaxed);
        let before = crate::heap::live();
        let r = catch_unwind(AssertUnwindSafe(f));
        let after = crate::heap::live();
        CASE.store(0, Relaxed);
        let herr = crate::heap::take_errors();
        let mut why = match r {
            Ok(Ok(())) => {
                if leak && after.0 > before.0 {
                    Some(format!("{} block(s) ({} bytes) were never released", after.0 - before.0, after.1 - before.1))
                } else if leak && after.0 < before.0 {
                    Some("more blocks were released than allocated".to_string())
                } else {
                    None
                }
            }
            Ok(Err(e)) => Some(e),
            Err(p) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                Some(format!("unexpected panic: {m}"))
            }
        };
        if herr != 0 {
            let h = crate::heap::describe(herr);
            why = Some(match why {
                Some(w) => format!("{w}; {h}"),
                None => h,
            });
        }
        if let Some(why) = why {
            *self.per_contract_viols.entry(contract).or_insert(0) += 1;
            self.viols.push(Viol { case: self.case_no, contract, input: format!("{params:?}"), why });
        }
    }
}

struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ u64::from(*x)).wrapping_mul(0x0000_0100_0000_01b3);
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0 ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        self.0 ^= self.0 >> 31;
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(u64::from(v))
    }
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n as u64).max(1)) as usize
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())]
    }
}

/// `Err` with a message unless the condition holds.
#[macro_export]
macro_rules! ck {
    ($c:expr, $($t:tt)*) => {
        if !$c { return Err(format!($($t)*)); }
    };
}

/// Run and tell whether it panicked.
pub fn outcome<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

pub fn show(b: &[u8]) -> String {
    if b.len() > 48 {
        format!("{:?}.. ({} bytes)", String::from_utf8_lossy(&b[..40]), b.len())
    } else {
        format!("{:?}", String::from_utf8_lossy(b))
    }
}

/// Compare two byte strings, naming the first difference.
pub fn same(what: &str, got: &[u8], want: &[u8]) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    Err(format!(
        "{what}: got {} bytes {}, expected {} bytes {} (first difference at {at})",
        got.len(),
        show(got),
        want.len(),
        show(want)
    ))
}

pub fn eq<T: PartialEq + Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: got {got:?}, expected {want:?}"))
    }
}
