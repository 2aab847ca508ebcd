//! Executable contracts of the crate's public operations, evaluated over bounded exhaustive and
//! seeded input spaces.  These stand in (and are labelled bounded) where no deductive proof covers a
//! function, and they turn a failed proof obligation into a concrete failing input.
#![allow(clippy::all)]
#![cfg_attr(feature = "borrowed_buf", feature(core_io_borrowed_buf))]
mod ctx;
mod heap;
mod reps;
mod util;

mod p01;
mod p02;
mod p03;
mod p04;
mod p05;
mod p06;
mod p07;
mod p08;
mod p09;
mod p10;
mod p11;
mod p12;
mod p13;
mod p14;
mod p15;
mod p16;
mod p17;
mod p18;
mod p19;
mod p20;
mod p21;
mod p22;
mod p24;

use ctx::{Ctx, Tier};

#[global_allocator]
static A: heap::Checked = heap::Checked;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let mut tier = Tier::Quick;
    let mut seed = 1;
    let mut only = None;
    let mut describe = false;
    let mut prop = String::new();
    let mut a = std::env::args().skip(1);
    while let Some(x) = a.next() {
        match x.as_str() {
            "--tier" => {
                if a.next().as_deref() == Some("thorough") {
                    tier = Tier::Thorough
                }
            }
            "--seed" => seed = a.next().and_then(|s| s.parse().ok()).unwrap_or(1),
            "--case" => only = a.next().and_then(|s| s.parse().ok()),
            "--describe" => {
                only = a.next().and_then(|s| s.parse().ok());
                describe = true
            }
            p => prop = p.to_string(),
        }
    }
    ctx::install();
    let mut c = Ctx::new(tier, seed, only, describe);
    match prop.as_str() {
        "P01" => p01::run(&mut c),
        "P02" => p02::run(&mut c),
        "P03" => p03::run(&mut c),
        "P04" => p04::run(&mut c),
        "P05" => p05::run(&mut c),
        "P06" => p06::run(&mut c),
        "P07" => p07::run(&mut c),
        "P08" => p08::run(&mut c),
        "P09" => p09::run(&mut c),
        "P10" => p10::run(&mut c),
        "P11" => p11::run(&mut c),
        "P12" => p12::run(&mut c),
        "P13" => p13::run(&mut c),
        "P14" => p14::run(&mut c),
        "P15" => p15::run(&mut c),
        "P16" => p16::run(&mut c),
        "P17" => p17::run(&mut c),
        "P18" => p18::run(&mut c),
        "P19" => p19::run(&mut c),
        "P20" => p20::run(&mut c),
        "P21" => p21::run(&mut c),
        "P22" => p22::run(&mut c),
        "P24" => p24::run(&mut c),
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(3);
        }
    }
    let list = |v: &[String]| v.join(",");
    let viols: Vec<String> = c
        .viols
        .iter()
        .map(|v| {
            format!(
                "{{\"case\":{},\"contract\":{},\"input\":{},\"why\":{}}}",
                v.case,
                js(v.contract),
                js(&v.input),
                js(&v.why)
            )
        })
        .collect();
    let contracts: Vec<String> = c.contracts.iter().map(|(k, n)| format!("{}:{n}", js(k))).collect();
    let samples: Vec<String> = c.samples.iter().map(|s| js(s)).collect();
    let desc = match &c.described {
        Some((k, p)) => format!("{{\"contract\":{},\"input\":{}}}", js(k), js(p)),
        None => "null".into(),
    };
    println!(
        "\nRESULT {{\"evals\":{},\"distinct\":{},\"capped\":{},\"contracts\":{{{}}},\"samples\":[{}],\"violations\":[{}],\"described\":{}}}",
        c.evals,
        c.distinct(),
        c.distinct_capped,
        list(&contracts),
        list(&samples),
        list(&viols),
        desc
    );
    std::process::exit(if c.viols.is_empty() { 0 } else { 1 });
}
