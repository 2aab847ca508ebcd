//! Interning returns one stored copy per content.
use crate::ck;
use crate::ctx::{same, Ctx, Rng};
use crate::reps;
use bytedata::interning::{ByteInterning, StaticInterning};
use bytedata::{ByteData, StringData};
use std::collections::HashMap;

fn history(max: usize, lazy: bool, seed: u64) -> Result<(), String> {
    let mut r = Rng(seed);
    let mut tabs = vec![if lazy { StaticInterning::new_const(max) } else { StaticInterning::new(max) }];
    // content -> address of the stored copy
    let mut m: HashMap<&'static [u8], usize> = HashMap::new();
    let mut held: Vec<(ByteData<'static>, &'static [u8])> = vec![];
    for step in 0..60 {
        let len = match r.below(8) {
            0 => r.below(16),
            1 => max,
            2 => max + 1,
            3 => 15,
            _ => 14 + r.below(30),
        };
        let c = reps::bytes(r.below(4), len);
        let k = r.below(reps::KINDS);
        let Some(v) = reps::data(k, c) else { continue };
        let ti = r.below(tabs.len());
        let t = &tabs[ti];
        let stored = m.get(c).copied();
        let text: String = c.iter().map(|b| (b'a' + b % 26) as char).collect();
        match r.below(9) {
            0..=2 => match t.intern(v) {
                Ok(d) => {
                    same("interned", d.as_slice(), c)?;
                    ck!(len <= max || len <= 14, "step {step}: a value of {len} bytes was interned with a limit of {max}");
                    if len > 14 {
                        let p = d.as_slice().as_ptr() as usize;
                        if let Some(s) = stored {
                            ck!(p == s, "step {step}: a second copy of the same content");
                        }
                        m.insert(c, p);
                    }
                    held.push((d, c));
                }
                Err(d) => {
                    same("handed back", d.as_slice(), c)?;
                    ck!(len > max, "step {step}: a value of {len} bytes was handed back with a limit of {max}");
                }
            },
            3 => {
                let d = t.intern_always(v);
                same("interned always", d.as_slice(), c)?;
                if len > 14 {
                    let p = d.as_slice().as_ptr() as usize;
                    if let Some(s) = stored {
                        ck!(p == s, "step {step}: a second copy of the same content");
                    }
                    m.insert(c, p);
                    held.push((d, c));
                }
            }
            4 | 5 => match t.get(v) {
                Ok(d) => {
                    same("looked up", d.as_slice(), c)?;
                    if len > 14 {
                        ck!(stored == Some(d.as_slice().as_ptr() as usize), "step {step}: looked up something that was not stored");
                    }
                }
                Err(d) => {
                    same("handed back by get", d.as_slice(), c)?;
                    ck!(stored.is_none(), "step {step}: a stored value was not found");
                }
            },
            6 => {
                let s = StringData::from_owned(text.clone());
                // string and byte values share the table
                match t.intern_str(s) {
                    Ok(d) => {
                        same("interned text", d.as_bytes(), text.as_bytes())?;
                        ck!(len <= max || len <= 14, "step {step}: text of {len} bytes was interned with a limit of {max}");
                        if len > 14 {
                            let e = t.get_str(StringData::from_owned(text.clone()));
                            let e = e.map_err(|_| "text that was just interned was not found".to_string())?;
                            ck!(e.as_bytes().as_ptr() == d.as_bytes().as_ptr(), "step {step}: a second copy of the same text");
                            let e = t.intern_always_str(StringData::from_owned(text.clone()));
                            ck!(e.as_bytes().as_ptr() == d.as_bytes().as_ptr(), "step {step}: a second copy of the same text");
                            let e = t.intern(ByteData::from_owned(text.clone().into_bytes())).map_err(|_| "handed back".to_string())?;
                            ck!(e.as_slice().as_ptr() == d.as_bytes().as_ptr(), "step {step}: a second copy of the same bytes");
                        }
                    }
                    Err(d) => {
                        same("text handed back", d.as_bytes(), text.as_bytes())?;
                        ck!(len > max, "step {step}: text of {len} bytes was handed back with a limit of {max}");
                    }
                }
            }
            7 => {
                if tabs.len() < 3 {
                    let x = t.clone();
                    tabs.push(x);
                } else {
                    tabs.swap_remove(ti);
                }
            }
            _ => {
                if r.below(4) == 0 {
                    t.clear();
                    m.clear();
                }
            }
        }
        for (d, c) in &held {
            same("a value that was interned before", d.as_slice(), c)?;
        }
    }
    drop(tabs);
    for (d, c) in &held {
        same("an interned value after the table is gone", d.as_slice(), c)?;
    }
    Ok(())
}

pub fn run(c: &mut Ctx) {
    for _ in 0..4 {
        // the hash map seeds its hasher and shards lazily
        let _ = history(64, true, 1);
    }
    for i in 0..c.pick(6000u64, 64000) {
        let s = c.rng.next();
        let max = c.rng.pick(&[0usize, 14, 15, 16, 20, 32, 40, 128]);
        c.case("interning histories", (max, i % 2, s), || history(max, i % 2 == 0, s));
    }
}
