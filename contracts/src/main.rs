//! Native runner of the executable contracts.
//!   vh run <property> <seed> <millis> <replay-file>   search for a failing input on the real code
//!   vh replay <replay-file>                            run one recorded input again
//!   vh kani <case> <json list of byte lists>           run a Kani counterexample on the real code
//!   vh list                                            list the cases
use contracts::src::{Playback, Rng, Skip};
use contracts::{CASES, Case};
use std::cell::RefCell;
use std::collections::HashSet;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::time::{Duration, Instant};

thread_local! { static LAST: RefCell<String> = const { RefCell::new(String::new()) }; }

enum Out {
    Ok,
    Skip,
    Fail(String),
}

fn guarded(f: impl FnOnce()) -> Out {
    LAST.with(|l| l.borrow_mut().clear());
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => Out::Ok,
        Err(p) => {
            if p.is::<Skip>() {
                return Out::Skip;
            }
            Out::Fail(LAST.with(|l| l.borrow().clone()))
        }
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn run_choices(case: &Case, choices: &[u64]) -> (Out, Vec<u64>, Vec<String>) {
    let mut r = Rng::replay(choices.to_vec());
    r.notes = Some(Vec::new());
    let out = guarded(|| (case.native)(&mut r));
    (out, std::mem::take(&mut r.log), r.notes.take().unwrap_or_default())
}

fn shrink(case: &Case, mut best: Vec<u64>) -> Vec<u64> {
    let end = Instant::now() + Duration::from_millis(4000);
    let fails = |c: &[u64]| -> Option<Vec<u64>> {
        match run_choices(case, c) {
            (Out::Fail(_), log, _) => Some(log),
            _ => None,
        }
    };
    let mut progress = true;
    while progress && Instant::now() < end {
        progress = false;
        let mut chunk = (best.len() / 2).max(1);
        while chunk >= 1 {
            let mut i = 0;
            while i + chunk <= best.len() && Instant::now() < end {
                let mut c = best.clone();
                c.drain(i..i + chunk);
                match fails(&c) {
                    Some(l) if l.len() < best.len() || (l.len() == best.len() && l < best) => {
                        best = l;
                        progress = true;
                    }
                    _ => i += chunk,
                }
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        let mut i = 0;
        while i < best.len() && Instant::now() < end {
            for cand in [0, best[i] / 2, best[i].saturating_sub(1)] {
                if cand < best[i] {
                    let mut c = best.clone();
                    c[i] = cand;
                    if let Some(l) = fails(&c) {
                        if l.len() < best.len() || (l.len() == best.len() && l < best) {
                            best = l;
                            progress = true;
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
    }
    best
}

struct Stat {
    evals: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    fail: Option<Vec<u64>>,
}

fn search(case: &'static Case, seed: u64, millis: u64, threads: u64) -> Stat {
    let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let handles: Vec<_> = (0..threads)
        .map(|t| {
            let stop = stop.clone();
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    let mut st = Stat { evals: 0, distinct: HashSet::new(), samples: vec![], fail: None };
                    let end = Instant::now() + Duration::from_millis(millis);
                    let mut i = 0u64;
                    while Instant::now() < end && !stop.load(std::sync::atomic::Ordering::Relaxed) {
                        if case.limit > 0 && i * threads >= case.limit {
                            break;
                        }
                        let s = seed
                            .wrapping_mul(0x100000001b3)
                            .wrapping_add(t.wrapping_mul(0x9E37_79B9_7F4A_7C15))
                            .wrapping_add(i.wrapping_mul(0xD134_2543_DE82_EF95));
                        let mut r = Rng::new(s, 2 + (i as usize / 50).min(30));
                        if i >= 7 && t == 0 && st.samples.is_empty() {
                            r.notes = Some(vec![]);
                        }
                        i += 1;
                        let out = guarded(|| (case.native)(&mut r));
                        match out {
                            Out::Skip => {}
                            Out::Ok => {
                                st.evals += 1;
                                if st.distinct.len() < 200_000 {
                                    use std::hash::{Hash, Hasher};
                                    let mut h = std::collections::hash_map::DefaultHasher::new();
                                    r.log.hash(&mut h);
                                    st.distinct.insert(h.finish());
                                }
                                if let Some(n) = r.notes.take() {
                                    st.samples = n;
                                }
                            }
                            Out::Fail(_) => {
                                st.evals += 1;
                                st.fail = Some(r.log.clone());
                                stop.store(true, std::sync::atomic::Ordering::Relaxed);
                                break;
                            }
                        }
                    }
                    st
                })
                .unwrap()
        })
        .collect();
    let mut tot = Stat { evals: 0, distinct: HashSet::new(), samples: vec![], fail: None };
    for h in handles {
        match h.join() {
            Ok(s) => {
                tot.evals += s.evals;
                tot.distinct.extend(s.distinct);
                if tot.samples.is_empty() {
                    tot.samples = s.samples;
                }
                if tot.fail.is_none() {
                    tot.fail = s.fail;
                }
            }
            Err(_) => {}
        }
    }
    tot
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = format!("{msg} [at {loc}]"));
    }));
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for c in CASES {
                println!("{} {}", c.prop, c.name);
            }
        }
        Some("app") => contracts::c24::app(&args[2]),
        Some("run") => {
            let prop = &args[2];
            let seed: u64 = args[3].parse().unwrap_or(1);
            let millis: u64 = args[4].parse().unwrap_or(3000);
            let path = &args[5];
            let threads = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).min(8);
            let cases: Vec<&'static Case> = CASES.iter().filter(|c| c.prop == *prop).collect();
            let mut failed = false;
            for &c in &cases {
                let st = search(c, seed, millis / cases.len().max(1) as u64, threads);
                let mut line = format!(
                    "{{\"case\":{},\"evaluations\":{},\"distinct\":{},\"samples\":[{}]",
                    js(c.name),
                    st.evals,
                    st.distinct.len(),
                    st.samples.iter().take(3).map(|s| js(&s.chars().take(400).collect::<String>())).collect::<Vec<_>>().join(",")
                );
                // a failure that depends on the machine's mood is none until it has been seen again
                let seen_again = st.fail.and_then(|ch| {
                    std::thread::Builder::new()
                        .stack_size(256 << 20)
                        .spawn(move || {
                            let small = shrink(c, ch.clone());
                            for again in [&small, &small, &ch, &ch] {
                                if let (Out::Fail(m), _, n) = run_choices(c, again) {
                                    return Some((again.clone(), m, n));
                                }
                            }
                            None
                        })
                        .unwrap()
                        .join()
                        .unwrap()
                });
                if let Some((ch, msg, notes)) = seen_again {
                    let body = format!(
                        "{{\"property\":{},\"case\":{},\"message\":{},\"input\":[{}],\"choices\":[{}]}}\n",
                        js(c.prop),
                        js(c.name),
                        js(&msg),
                        notes.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
                        ch.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",")
                    );
                    if !failed {
                        let _ = std::fs::write(path, &body);
                    }
                    failed = true;
                    line.push_str(&format!(",\"fail\":{}", body.trim()));
                }
                line.push('}');
                println!("{line}");
            }
            std::process::exit(if failed { 1 } else { 0 });
        }
        Some("replay") => {
            let text = std::fs::read_to_string(&args[2]).expect("replay file");
            let field = |k: &str| -> String {
                let i = text.find(&format!("\"{k}\":\"")).expect("field") + k.len() + 4;
                text[i..].split('"').next().unwrap().to_string()
            };
            let name = field("case");
            let i = text.find("\"choices\":[").expect("choices") + 11;
            let j = text[i..].find(']').unwrap() + i;
            let ch: Vec<u64> = text[i..j].split(',').filter_map(|v| v.trim().parse().ok()).collect();
            let c = CASES.iter().find(|c| c.name == name).expect("case");
            let code = std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    let (o, _, n) = run_choices(c, &ch);
                    for l in n {
                        println!("input: {l}");
                    }
                    match o {
                        Out::Fail(m) => {
                            println!("FAIL {m}");
                            1
                        }
                        _ => {
                            println!("holds on this input");
                            0
                        }
                    }
                })
                .unwrap()
                .join()
                .unwrap();
            std::process::exit(code);
        }
        Some("kani") => {
            let name = &args[2];
            let mut vals: Vec<Vec<u8>> = vec![];
            let inner = args[3].trim().trim_start_matches('[').trim_end_matches(']');
            for part in inner.split("],") {
                let p = part.trim().trim_start_matches('[').trim_end_matches(']');
                vals.push(p.split(',').filter_map(|v| v.trim().parse().ok()).collect());
            }
            let c = CASES.iter().find(|c| c.name == name).expect("case");
            let mut p = Playback { vals, pos: 0, notes: vec![] };
            let out = guarded(|| (c.playback)(&mut p));
            for n in &p.notes {
                println!("input: {n}");
            }
            match out {
                Out::Fail(m) => {
                    println!("FAIL {m}");
                    std::process::exit(1);
                }
                _ => println!("holds on this input"),
            }
        }
        _ => eprintln!("usage: vh run|replay|kani|list"),
    }
}
