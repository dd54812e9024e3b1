//! Runs cases of one property and reports what the monitors saw.
use std::{
    io::{Seek, Write},
    time::Instant,
};

use serde_json::json;

use crate::{
    rng::{mix, Rng},
    util::{clip, panic_text, Ctx, QUIET, R},
};

pub type Case = fn(&mut Ctx, &mut Rng) -> R;
pub type Special = fn(&mut Ctx, &mut Rng, usize) -> R;

#[derive(Clone, Copy)]
pub struct Prop {
    pub id: &'static str,
    /// Deterministic shapes that come first.
    pub special: Option<(usize, Special)>,
    pub case: Case,
}

pub struct Opts {
    pub prop: String,
    pub seed: u64,
    pub start: u64,
    pub step: u64,
    pub cases: u64,
    pub secs: f64,
    pub out: String,
    pub progress: String,
    pub thorough: bool,
    pub tiny: bool,
    pub no_special: bool,
}

pub fn parse() -> Opts {
    let mut o = Opts {
        prop: String::new(),
        seed: 1,
        start: 0,
        step: 1,
        cases: 100,
        secs: 1e9,
        out: String::new(),
        progress: String::new(),
        thorough: false,
        tiny: false,
        no_special: false,
    };
    let mut args = std::env::args().skip(1);
    while let Some(a) = args.next() {
        let mut v = || args.next().unwrap_or_default();
        match a.as_str() {
            "--prop" => o.prop = v(),
            "--seed" => o.seed = v().parse().unwrap(),
            "--start" => o.start = v().parse().unwrap(),
            "--step" => o.step = v().parse().unwrap(),
            "--cases" => o.cases = v().parse().unwrap(),
            "--secs" => o.secs = v().parse().unwrap(),
            "--out" => o.out = v(),
            "--progress" => o.progress = v(),
            "--thorough" => o.thorough = true,
            "--tiny" => o.tiny = true,
            "--no-special" => o.no_special = true,
            _ => {
                eprintln!("unknown argument {}", a);
                std::process::exit(64);
            }
        }
    }
    o
}

fn prop_num(id: &str) -> u64 {
    id.bytes().fold(7, |h, b| mix(h ^ b as u64))
}

pub fn case_rng(prop: &str, seed: u64, index: u64) -> Rng {
    Rng::new(mix(seed) ^ mix(prop_num(prop)).rotate_left(17) ^ mix(index ^ 0xABCD).rotate_left(31))
}

pub fn run_case(p: &Prop, cx: &mut Ctx, o: &Opts, index: u64) -> R {
    cx.case_sig = 0;
    cx.case_trivial = false;
    cx.case_desc.clear();
    cx.index = index;
    cx.want_sample = index % 97 == 3 || o.cases == 1;
    let rng = case_rng(p.id, o.seed, index);
    let n_special = if o.no_special { 0 } else { p.special.map_or(0, |it| it.0) } as u64;
    QUIET.with(|q| q.set(0));
    // Every third case runs with addresses that are used again at once, and then once more with
    // other texts: new trees of equal shape, where the old ones were.
    // Some do so over and over, with tiny trees that differ in how they are put together.
    let again = index >= n_special && index % 3 == 1;
    let churn = again && index % 10 == 7 && !o.tiny;
    crate::alloc::reuse(again);
    let mut r = Ok(());
    let mut trivial = true;
    for round in 0..if churn {
        24
    } else if again {
        2
    } else {
        1
    } {
        let tweak = if churn { 0 } else { round };
        crate::term::TWEAK.set(tweak);
        crate::term::CHURN.set(churn);
        let mut rng = if churn { Rng::new(rng.clone().u64() ^ mix(round)) } else { rng.clone() };
        let one = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            if index < n_special {
                (p.special.unwrap().1)(cx, &mut rng, index as usize)
            } else {
                (p.case)(cx, &mut rng)
            }
        }));
        r = match one {
            Ok(it) => it,
            Err(e) => Err(format!("unexpected panic: {}", panic_text(&e))),
        };
        trivial &= cx.case_trivial;
        if r.is_err() {
            break;
        }
        if round > 0 {
            cx.count(if churn { "tiny cases at used addresses" } else { "cases at used addresses" });
        }
    }
    crate::term::TWEAK.set(0);
    crate::term::CHURN.set(false);
    crate::alloc::reuse(false);
    cx.cases += 1;
    if trivial {
        cx.trivial += 1;
    } else if cx.sigs.len() < 200_000 {
        let s = cx.case_sig;
        cx.sigs.insert(s);
    }
    if cx.want_sample && cx.samples.len() < 3 && !cx.case_desc.is_empty() {
        let s = format!("case {}: {}", index, cx.case_desc);
        cx.samples.push(clip(&s, 900));
    }
    r
}

/// Returns the exit code.
pub fn main_with(props: &'static [Prop]) -> i32 {
    let o = parse();
    crate::util::install_hook();
    let big = if cfg!(miri) { 1 << 20 } else { 1 << 30 };
    let h = std::thread::Builder::new().stack_size(big).spawn(move || worker(props, o)).unwrap();
    h.join().unwrap_or(70)
}

fn worker(props: &'static [Prop], o: Opts) -> i32 {
    let Some(p) = props.iter().find(|it| it.id == o.prop) else {
        eprintln!("unknown property {}", o.prop);
        return 64;
    };
    let t0 = Instant::now();
    let mut cx = Ctx::new(o.thorough, o.tiny);
    let mut progress = (!o.progress.is_empty() && !cfg!(miri)).then(|| std::fs::File::create(&o.progress).unwrap());
    let mut violations = Vec::new();
    let mut i = o.start;
    let mut done = 0;
    let mut timed_out = false;
    while done < o.cases {
        if t0.elapsed().as_secs_f64() > o.secs {
            timed_out = true;
            break;
        }
        if let Some(f) = &mut progress {
            let _ = f.rewind();
            let _ = f.write_all(format!("{:>20}\n", i).as_bytes());
        }
        if cfg!(miri) {
            eprintln!("CASE {}", i);
        }
        if let Err(e) = run_case(p, &mut cx, &o, i) {
            violations.push(json!({ "index": i, "message": clip(&e, 3000), "desc": cx.case_desc }));
            if violations.len() >= 3 {
                break;
            }
        }
        i += o.step;
        done += 1;
    }
    #[cfg(not(any(miri, feature = "plainalloc")))]
    crate::alloc::flush();
    if let Some(f) = &mut progress {
        let _ = f.rewind();
        let _ = f.write_all(format!("{:>20}\n", "done").as_bytes());
    }
    let res = json!({
        "prop": o.prop, "seed": o.seed, "cases": cx.cases, "trivial": cx.trivial, "checks": cx.checks,
        "counters": cx.counters, "violations": violations, "samples": cx.samples,
        "sigs": cx.sigs.iter().map(|it| format!("{:x}", it)).collect::<Vec<_>>(),
        "secs": t0.elapsed().as_secs_f64(), "timed_out": timed_out,
    });
    if o.out.is_empty() {
        let mut res = res;
        res["sigs"] = json!(cx.sigs.len());
        println!("{}", serde_json::to_string_pretty(&res).unwrap());
    } else if o.out == "-" {
        println!("RESULT {}", res);
    } else {
        std::fs::write(&o.out, res.to_string()).unwrap();
    }
    if violations.is_empty() {
        0
    } else {
        1
    }
}
