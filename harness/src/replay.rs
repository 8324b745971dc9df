//! Replays cases produced by TLC from the specification against the real library.
//!
//! usage: replay OUT.jsonl [--log FILE] FILE...   ("-" = standard input)
//! Lines that are not printed cases are ignored.  Every disagreement is written to OUT.jsonl;
//! the last line on stdout is a JSON summary.
mod ast;
mod ext;
mod cases;
mod cli;
mod reg;
#[cfg(feature = "catalog")]
mod cat;
mod sess;
mod std_json;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, Write};
use std::sync::mpsc;
use std::sync::{Arc, Mutex};

fn main() {
    let mut args = std::env::args().skip(1);
    let out = args.next().expect("OUT.jsonl");
    let mut files: Vec<String> = args.collect();
    let mut log = None;
    if files.len() > 1 && files[0] == "--log" {
        files.remove(0);
        log = Some(std::fs::File::create(files.remove(0)).unwrap());
    }
    // development helpers: fewer threads, and stopping at the first disagreement that is not a known finding
    let threads: usize = std::env::var("SX_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
    let stop = std::env::var("SX_STOP").is_ok();
    // the kinds of case the property at hand is judged by (all of them, by default)
    let only: Option<&'static str> = std::env::var("SX_ONLY").ok().filter(|x| !x.is_empty()).map(|x| &*x.leak());
    std::panic::set_hook(Box::new(|_| {}));
    let (tx, rx) = mpsc::sync_channel::<(usize, String)>(4096);
    let rx = Arc::new(Mutex::new(rx));
    let fails: Arc<Mutex<Vec<Value>>> = Arc::default();
    let stats: Arc<Mutex<BTreeMap<String, u64>>> = Arc::default();
    let samples: Arc<Mutex<BTreeMap<String, Vec<Value>>>> = Arc::default();
    let mut hs = vec![];
    // one slot per worker: when its current case started, and the case; a case that takes more than
    // two minutes is reported as non-termination
    type Slot = Arc<Mutex<Option<(std::time::Instant, Value)>>>;
    let slots: Vec<Slot> = (0..threads).map(|_| Slot::default()).collect();
    {
        let (slots, out) = (slots.clone(), out.clone());
        std::thread::spawn(move || {
            loop {
                std::thread::sleep(std::time::Duration::from_secs(2));
                for sl in &slots {
                    if let Some((t, c)) = &*sl.lock().unwrap()
                        && t.elapsed().as_secs() > 120
                    {
                        let f = json!({"case": c, "n": 0, "fail": {"oracle": "terminates", "what": "no answer after two minutes", "detail": {}}});
                        std::fs::write(&out, format!("{f}\n")).unwrap();
                        println!("{}", json!({"cases": 1, "stats": {}, "samples": {}, "hung": true}));
                        std::process::exit(3);
                    }
                }
            }
        });
    }
    for slot in slots {
        let (rx, fails, stats, samples) = (rx.clone(), fails.clone(), stats.clone(), samples.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut st = BTreeMap::<String, u64>::new();
                    let env = cases::Env::new();
                    loop {
                        let got = rx.lock().unwrap().recv();
                        let Ok((n, line)) = got else { break };
                        let text: String = match serde_json::from_str(&line) {
                            Ok(t) => t,
                            Err(_) => continue,
                        };
                        // TLC's integers end at 2^31 - 1: this one stands for the largest unsigned number (Base.tla, U32)
                        let text = text.replace("2147480000", "4294967295");
                        let Ok(case) = serde_json::from_str::<Value>(&text) else { continue };
                        let Some(kind) = case.get("c").and_then(|c| c.as_str()) else { continue };
                        // "clean": formatted with default options, and nothing in the plan to report
                        let wanted = |k: &str| only.is_none_or(|o| o.split(',').any(|x| x == k));
                        if !wanted(kind) && !(kind == "fmt" && wanted("clean") && cases::is_clean(&case)) {
                            continue;
                        }
                        *st.entry(format!("case:{kind}")).or_default() += 1;
                        let mut rep = cases::Report::default();
                        *slot.lock().unwrap() = Some((std::time::Instant::now(), case.clone()));
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cases::run(&env, &case, &mut rep)));
                        if let Err(p) = r {
                            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
                            rep.fail("harness", &format!("harness panic: {m}"), json!({}));
                        }
                        *slot.lock().unwrap() = None;
                        for (k, v) in rep.stats {
                            *st.entry(k).or_default() += v;
                        }
                        {
                            let mut sm = samples.lock().unwrap();
                            let e = sm.entry(kind.to_string()).or_default();
                            if e.len() < 2 {
                                e.push(rep.sample);
                            }
                        }
                        if !rep.fails.is_empty() {
                            let mut f = fails.lock().unwrap();
                            if stop && case.get("kf").is_none() {
                                println!("{}", json!({"n": n, "kind": kind, "fail": rep.fails[0]}));
                                std::process::exit(1);
                            }
                            for x in rep.fails {
                                if f.len() < 2000 {
                                    f.push(json!({"n": n, "case": case, "fail": x}));
                                }
                                *st.entry("failures".into()).or_default() += 1;
                            }
                        }
                    }
                    let mut all = stats.lock().unwrap();
                    for (k, v) in st {
                        *all.entry(k).or_default() += v;
                    }
                })
                .unwrap(),
        );
    }
    let mut n = 0;
    for f in files {
        let rd: Box<dyn BufRead> =
            if f == "-" { Box::new(std::io::BufReader::new(std::io::stdin())) } else { Box::new(std::io::BufReader::new(std::fs::File::open(&f).unwrap())) };
        for line in rd.lines() {
            let Ok(line) = line else { break };
            if line.starts_with("\"{") {
                n += 1;
                tx.send((n, line)).unwrap();
            } else if line.starts_with("{\"case\"") {
                // a recorded failure: replay its case
                let v: Value = serde_json::from_str(&line).unwrap();
                n += 1;
                tx.send((n, json!(v["case"].to_string()).to_string())).unwrap();
            } else if let Some(w) = &mut log {
                writeln!(w, "{line}").unwrap();
            }
        }
    }
    drop(tx);
    for h in hs {
        h.join().unwrap();
    }
    let mut w = std::fs::File::create(&out).unwrap();
    let mut f = fails.lock().unwrap();
    f.sort_by_key(|x| x["n"].as_u64());
    for x in f.iter() {
        writeln!(w, "{x}").unwrap();
    }
    println!("{}", json!({"cases": n, "stats": &*stats.lock().unwrap(), "samples": &*samples.lock().unwrap()}));
    std::process::exit(if f.is_empty() { 0 } else { 1 });
}
