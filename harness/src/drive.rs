//! Runs the cases of a property and reports what happened.

use crate::alloc::{self, untracked};
use crate::cx::{Cx, Group};
use crate::elem::HarnessError;
use crate::mon::{self, FusePanic, Violation};
use crate::rng::{mix, Rng};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::time::{Duration, Instant};

struct Args {
    seed: u64,
    cases: u64,
    budget: f64,
    scale: usize,
    only: Option<(String, u64)>,
    progress: Option<std::fs::File>,
    hashes: bool,
    sigs: Option<String>,
}

fn args(default_cases: u64) -> Args {
    let mut a = Args { seed: 1, cases: default_cases, budget: 1e9, scale: if cfg!(miri) { 0 } else { 1 }, only: None, progress: None, hashes: false, sigs: None };
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        let mut v = || it.next().expect("value");
        match &k[..] {
            "--seed" => a.seed = v().parse().unwrap(),
            "--cases" => a.cases = v().parse().unwrap(),
            "--budget" => a.budget = v().parse().unwrap(),
            "--only" => {
                let g = v();
                let i = v().parse().unwrap();
                a.only = Some((g, i))
            }
            "--progress" => a.progress = Some(std::fs::File::create(v()).unwrap()),
            "--sigs" => a.sigs = Some(v()),
            "--hashes" => a.hashes = true,
            "--scale" => a.scale = v().parse().unwrap(),
            _ => panic!("unknown argument {}", k),
        }
    }
    a
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

enum Out {
    Ok,
    Bad(String),
    Harness(String),
}

fn name_hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))
}

fn one(cx: &mut Cx, seed: u64, group: &Group, case: u64, verbose: bool) -> Out {
    mon::reset();
    let _ = untracked(alloc::take_error);
    cx.rng = Rng::new(mix(mix(seed, name_hash(group.0)), case));
    cx.sig = name_hash(group.0);
    cx.verbose = verbose;
    cx.nontrivial = false;
    cx.vcount = 0;
    cx.long = 0;
    untracked(|| cx.log.clear());
    let before = alloc::counts();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (group.2)(cx)));
    mon::disarm();
    match r {
        Ok(()) => {
            let live = mon::live();
            if let Some(e) = mon::ledger(|l| l.err.take()) {
                return Out::Bad(format!("{} [end of the case]", e))
            }
            if let Some(e) = untracked(alloc::take_error) {
                return Out::Bad(format!("allocator: {} [end of the case]", e))
            }
            if live > 0 && !cx.leaks_ok() {
                return Out::Bad(format!("{} elements were never dropped [end of the case]", live))
            }
            let after = alloc::counts();
            if after.live > before.live && !cx.leaks_ok() {
                return Out::Bad(format!(
                    "{} heap blocks ({} bytes) were never freed [end of the case]",
                    after.live - before.live,
                    after.bytes.wrapping_sub(before.bytes)
                ))
            }
            Out::Ok
        }
        Err(e) => {
            if let Some(v) = e.downcast_ref::<Violation>() {
                let s = v.0.clone();
                untracked(|| drop(e));
                Out::Bad(s)
            } else if let Some(h) = e.downcast_ref::<HarnessError>() {
                let s = h.0.clone();
                untracked(|| drop(e));
                Out::Harness(s)
            } else if e.is::<FusePanic>() {
                Out::Harness("an injected panic was not caught".to_string())
            } else {
                Out::Bad(format!("unexpected panic: {}", mon::last_panic()))
            }
        }
    }
}

impl Cx {
    /// a case that leaks on purpose says so by this operation
    pub fn leaks_ok(&self) -> bool {
        self.leaky
    }
}

pub fn main(prop: &str, groups: Vec<Group>, default_cases: u64) {
    // leaks of the harness are its own business
    alloc::untracked(|| real_main(prop, groups, default_cases))
}

fn real_main(prop: &str, groups: Vec<Group>, default_cases: u64) {
    let mut a = args(default_cases);
    mon::install_hook();
    mon::ledger(|l| l.recs.reserve(1 << 12));
    let mut cx = Cx {
        rng: Rng::new(0),
        verbose: false,
        log: Vec::new(),
        sig: 0,
        nontrivial: false,
        ops: BTreeMap::new(),
        scale: a.scale,
        long: 0,
        vcount: 0,
        leak_base: 0,
        leaky: false,
        same_everywhere: false,
    };
    if let Some((g, i)) = &a.only {
        let group = groups.iter().find(|x| x.0 == g).expect("no such group");
        let r = alloc::tracked(|| one(&mut cx, a.seed, group, *i, true));
        for l in &cx.log {
            println!("  {}", l)
        }
        println!("SIG {:016x}", cx.sig);
        match r {
            Out::Ok => println!("OK"),
            Out::Bad(m) => {
                println!("VIOLATION {}", m);
                std::process::exit(1)
            }
            Out::Harness(m) => {
                println!("HARNESS {}", m);
                std::process::exit(3)
            }
        }
        return
    }
    let start = Instant::now();
    let total: u64 = groups.iter().map(|g| g.1 as u64).sum();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut evals = 0u64;
    let mut nontrivial = 0u64;
    let mut per_group: BTreeMap<&str, u64> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut bad: Vec<(String, u64, String, Vec<String>)> = Vec::new();
    let mut all = 0u64;
    let mut out_of_time = false;
    // rounds, so that a time limit cuts every group evenly
    let rounds = (a.cases / 1500).max(8);
    'outer: for round in 0..rounds {
        for group in &groups {
            let n = (a.cases * group.1 as u64 + total - 1) / total;
            let n = if a.cases == 0 { 0 } else { n.max(1) };
            let (lo, hi) = (n * round / rounds, n * (round + 1) / rounds);
            let mut gh = 0u64;
            for i in lo..hi {
                if let Some(f) = &mut a.progress {
                    use std::io::Seek;
                    let _ = f.seek(std::io::SeekFrom::Start(0));
                    let _ = f.write_all(format!("{} {}\n                                        ", group.0, i).as_bytes());
                }
                cx.leaky = false;
                let r = alloc::tracked(|| one(&mut cx, a.seed, group, i, false));
                evals += 1;
                *per_group.entry(group.0).or_insert(0) += 1;
                gh = mix(gh, cx.sig);
                if a.hashes {
                    println!("HASH {} {} {:016x}", group.0, i, cx.sig)
                }
                if cx.nontrivial && seen.insert(cx.sig) {
                    nontrivial += 1;
                    if samples.len() < 3 && nontrivial % 37 == 1 {
                        let g2 = alloc::tracked(|| {
                            let ops = untracked(|| cx.ops.clone());
                            let _ = one(&mut cx, a.seed, group, i, true);
                            cx.ops = ops;
                        });
                        let _ = g2;
                        let mut s = format!("{} case {}: ", group.0, i);
                        for l in cx.log.iter().take(30) {
                            s.push_str(l);
                            s.push_str("; ")
                        }
                        s.truncate((0..=s.len().min(1800)).rev().find(|&k| s.is_char_boundary(k)).unwrap_or(0));
                        samples.push(s);
                    }
                }
                match r {
                    Out::Ok => (),
                    Out::Harness(m) => {
                        println!("HARNESS {} case {}: {}", group.0, i, m);
                        std::process::exit(3)
                    }
                    Out::Bad(m) => {
                        // again, with the log
                        cx.leaky = false;
                        let again = alloc::tracked(|| one(&mut cx, a.seed, group, i, true));
                        let log = cx.log.clone();
                        let m = match again {
                            Out::Bad(m2) => m2,
                            _ => format!("{} (not seen again when the case was repeated in the same process)", m),
                        };
                        println!("BAD {{\"group\":{},\"case\":{},\"message\":{}}}", jstr(group.0), i, jstr(&m));
                        let _ = std::io::stdout().flush();
                        bad.push((group.0.to_string(), i, m, log));
                        if bad.len() >= 3 {
                            break 'outer
                        }
                        break
                    }
                }
                if start.elapsed() > Duration::from_secs_f64(a.budget) || alloc::nearly_full() {
                    out_of_time = true;
                    break 'outer
                }
            }
            all = mix(all, gh);
        }
    }
    if let Some(f) = &a.sigs {
        let mut b: Vec<u8> = Vec::with_capacity(seen.len() * 8);
        for s in &seen {
            b.extend_from_slice(&s.to_ne_bytes())
        }
        std::fs::write(f, b).unwrap();
    }
    let l = mon::ledger(|l| (l.made, l.dropped, l.clones, l.checks));
    let k = mon::by_kind();
    let mut o = String::new();
    o.push_str(&format!("{{\"property\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"out_of_time\":{},", jstr(prop), evals, nontrivial, out_of_time));
    o.push_str(&format!("\"elements_made\":{},\"elements_dropped\":{},\"clones\":{},\"identity_checks\":{},", l.0, l.1, l.2, l.3));
    o.push_str(&format!("\"callbacks\":{{\"clone\":{},\"drop\":{},\"eq\":{},\"predicate\":{},\"iterator\":{},\"make\":{}}},", k[0], k[1], k[2], k[3], k[4], k[5]));
    let c = alloc::counts();
    o.push_str(&format!("\"allocations\":{},\"reallocations\":{},\"frees\":{},", c.allocs, c.reallocs, c.frees));
    let list = |m: &BTreeMap<&str, u64>| m.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(",");
    o.push_str(&format!("\"operations\":{{{}}},\"cases\":{{{}}},", list(&cx.ops), list(&per_group)));
    o.push_str(&format!("\"trace_hash\":\"{:016x}\",", all));
    o.push_str(&format!("\"samples\":[{}],", samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")));
    o.push_str(&format!(
        "\"bad\":[{}],\"seconds\":{:.2}}}",
        bad.iter()
            .map(|(g, i, m, log)| format!(
                "{{\"group\":{},\"case\":{},\"message\":{},\"log\":[{}]}}",
                jstr(g),
                i,
                jstr(m),
                log.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")
            ))
            .collect::<Vec<_>>()
            .join(","),
        start.elapsed().as_secs_f64()
    ));
    println!("SUMMARY {}", o);
    if !bad.is_empty() {
        std::process::exit(1)
    }
}
