//! C15: sessions.  Calls nested inside one another's extension handlers, and calls of several threads
//! interleaved at those handlers, over one registry.
use crate::ast::{self, q, s};
use crate::cases::{self, Env, Flat, Report};
use crate::ext;
use prost::Message;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::sync::{mpsc, Arc};
use substrait::proto::Plan;
use substrait_explain::extensions::{ExtensionRegistry, ExtensionType};
use substrait_explain::{format_with_registry, parse_with_registry, OutputOptions};

thread_local! {
    static HOOK: RefCell<Option<Box<dyn FnMut()>>> = const { RefCell::new(None) };
}
/// Called by the reference handlers whenever the library is inside one of them.
pub fn in_handler() {
    let h = HOOK.with(|h| h.borrow_mut().take());
    if let Some(mut f) = h {
        f();
        HOOK.with(|h| *h.borrow_mut() = Some(f));
    }
}
fn with_hook<T>(f: Option<Box<dyn FnMut()>>, body: impl FnOnce() -> T) -> T {
    let old = HOOK.with(|h| std::mem::replace(&mut *h.borrow_mut(), f));
    let r = body();
    HOOK.with(|h| *h.borrow_mut() = old);
    r
}

pub enum Op {
    Read(String),
    Write(Plan, OutputOptions),
}
pub fn op(v: &Value) -> Op {
    match s(v, "c") {
        "doc" => Op::Read(Flat::of(&v["text"]).text),
        _ => Op::Write(ast::plan(&v["ast"]), cases::options(&v["opts"])),
    }
}
/// Everything a caller sees of a call.
pub fn outcome(o: &Op, reg: &ExtensionRegistry) -> String {
    let r = cases::guard(|| match o {
        Op::Read(t) => match parse_with_registry(t, reg) {
            Ok(p) => format!("plan {}", ast::hex(&p.encode_to_vec())),
            Err(e) => format!("error {e} {e:?}"),
        },
        Op::Write(p, opts) => {
            let before = p.clone();
            let (t, errs) = format_with_registry(p, opts, reg);
            if *p != before {
                return "the plan was changed".into();
            }
            format!("text {t}\nerrors {:?}", errs.iter().map(|e| e.to_string()).collect::<Vec<_>>())
        }
    });
    r.unwrap_or_else(|p| format!("panic {p}"))
}
pub fn registry_view(r: &ExtensionRegistry) -> String {
    let names = |t| {
        let mut n: Vec<String> = r.extension_names(t).iter().map(|x| x.to_string()).collect();
        n.sort();
        n
    };
    format!(
        "{:?} {:?} {:?} {:?} {:?}",
        names(ExtensionType::Relation),
        names(ExtensionType::ExtensionTable),
        names(ExtensionType::Enhancement),
        names(ExtensionType::Optimization),
        r.descriptors().len()
    )
}

struct Nest {
    ops: Arc<Vec<Op>>,
    reg: Arc<ExtensionRegistry>,
    word: RefCell<VecDeque<usize>>,
    out: RefCell<Vec<(usize, String)>>,
    inside: RefCell<u64>,
}
/// Runs the call at the head of the word; calls nested in it run inside its handlers, as far as it has any.
fn nested(n: &Arc<Nest2>, depth: u64) {
    let i = n.0.word.borrow_mut().pop_front().unwrap();
    let m = n.clone();
    let hook: Box<dyn FnMut()> = Box::new(move || {
        if m.0.word.borrow().front().is_some_and(|x| *x != 0) {
            *m.0.inside.borrow_mut() += 1;
            nested(&m, depth + 1);
        }
    });
    let r = with_hook(Some(hook), || outcome(&n.0.ops[i - 1], &n.0.reg));
    n.0.out.borrow_mut().push((i, r));
    while n.0.word.borrow().front().is_some_and(|x| *x != 0) {
        nested(n, depth + 1);
    }
    n.0.word.borrow_mut().pop_front();
}
struct Nest2(Nest);

enum Ev {
    Paused,
    Done(usize, String),
    Idle,
}
struct Worker {
    go: mpsc::Sender<()>,
    ev: mpsc::Receiver<Ev>,
    h: std::thread::JoinHandle<()>,
}
fn worker(ops: Arc<Vec<Op>>, reg: Arc<ExtensionRegistry>, prog: Vec<usize>) -> Worker {
    let (go, go_rx) = mpsc::channel::<()>();
    let (ev_tx, ev) = mpsc::channel::<Ev>();
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let go_rx = Arc::new(std::sync::Mutex::new(go_rx));
            let mut prog = prog.into_iter();
            loop {
                if go_rx.lock().unwrap().recv().is_err() {
                    return;
                }
                match prog.next() {
                    None => {
                        let _ = ev_tx.send(Ev::Idle);
                    }
                    Some(i) => {
                        let (tx, rx) = (ev_tx.clone(), go_rx.clone());
                        let hook: Box<dyn FnMut()> = Box::new(move || {
                            let _ = tx.send(Ev::Paused);
                            let _ = rx.lock().unwrap().recv();
                        });
                        let r = with_hook(Some(hook), || outcome(&ops[i - 1], &reg));
                        let _ = ev_tx.send(Ev::Done(i, r));
                    }
                }
            }
        })
        .unwrap();
    Worker { go, ev, h }
}

pub fn sess_case(_env: &Env, c: &Value, rep: &mut Report) {
    // each call on its own, with a registry of its own
    let mut solo = vec![];
    for v in q(c, "ops") {
        let e = Env::new();
        cases::run(&e, v, rep);
        solo.push(outcome(&op(v), &ext::registry()));
    }
    if !rep.fails.is_empty() {
        return;
    }
    let ops: Arc<Vec<Op>> = Arc::new(q(c, "ops").iter().map(op).collect());
    let reg = Arc::new(ext::registry());
    let view = registry_view(&reg);
    let hist: Vec<usize> = q(c, "hist").iter().map(|x| x.as_u64().unwrap() as usize).collect();
    rep.sample = json!({"mode": c["mode"], "history": hist, "program": c["prog"]});
    let got: Vec<(usize, String)> = if s(c, "mode") == "nest" {
        let n = Arc::new(Nest2(Nest { ops, reg: reg.clone(), word: RefCell::new(hist.iter().copied().collect()), out: RefCell::default(), inside: RefCell::default() }));
        while !n.0.word.borrow().is_empty() {
            nested(&n, 0);
        }
        *rep.stats.entry("calls_inside_calls".into()).or_default() += *n.0.inside.borrow();
        n.0.out.take()
    } else {
        let prog = |t: &Value| t.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect::<Vec<_>>();
        let ws: Vec<Worker> = q(c, "prog").iter().map(|p| worker(ops.clone(), reg.clone(), prog(p))).collect();
        let mut out = vec![];
        let mut paused = vec![false; ws.len()];
        let step = |t: usize, out: &mut Vec<(usize, String)>, paused: &mut Vec<bool>, rep: &mut Report| {
            ws[t].go.send(()).unwrap();
            paused[t] = false;
            match ws[t].ev.recv().unwrap() {
                Ev::Paused => {
                    rep.count("pauses_inside_calls");
                    paused[t] = true;
                }
                Ev::Done(i, r) => out.push((i, r)),
                Ev::Idle => {}
            }
        };
        for t in &hist {
            step(*t - 1, &mut out, &mut paused, rep);
        }
        for t in 0..ws.len() {
            while paused[t] {
                step(t, &mut out, &mut paused, rep);
            }
        }
        for w in ws {
            drop(w.go);
            let _ = w.h.join();
        }
        out
    };
    for (i, r) in got {
        rep.count("calls");
        if r != solo[i - 1] {
            let d = json!({"call": i, "history": hist, "alone": solo[i - 1], "got": r});
            rep.fail("session", "the outcome of a call depends on other calls", d);
        }
    }
    if registry_view(&reg) != view {
        rep.fail("session", "the registry was changed", json!({"before": view, "after": registry_view(&reg)}));
    }
}

/// Roots do not influence each other.
pub fn comp_case(env: &Env, c: &Value, rep: &mut Report) {
    let body = |v: &Value, rep: &mut Report| -> Option<(String, String, usize)> {
        let Op::Write(p, o) = op(v) else { panic!() };
        match cases::format(env, &p, &o) {
            cases::Got::Ok((t, n, _)) => {
                let k = if t.starts_with("=== Plan\n") { Some(0) } else { t.find("\n=== Plan\n").map(|k| k + 1) };
                let Some(k) = k else {
                    rep.fail("composition", "no plan section", json!({"text": t}));
                    return None;
                };
                Some((t[..k].to_string(), t[k + 9..].to_string(), n))
            }
            _ => {
                rep.fail("composition", "panic while formatting", json!({}));
                None
            }
        }
    };
    cases::run(env, &c["whole"], rep);
    let parts: Vec<_> = q(c, "parts").iter().filter_map(|v| body(v, rep)).collect();
    for (k, rev) in [("whole", false), ("rev", true)] {
        let Some((head, text, n)) = body(&c[k], rep) else { return };
        rep.sample = json!({"text": text});
        let mut ps: Vec<&(String, String, usize)> = parts.iter().collect();
        if rev {
            ps.reverse();
        }
        let want = ps.iter().map(|p| p.1.as_str()).collect::<Vec<_>>().join("\n");
        if text != want || ps.iter().any(|p| p.0 != head) {
            rep.fail("composition", "a root prints differently next to other roots", json!({"diff": cases::first_diff(&want, &text), "got": text, "want": want}));
        } else if n != ps.iter().map(|p| p.2).sum::<usize>() {
            rep.fail("composition", "roots report other errors when printed together", json!({"text": text, "errors": n}));
        }
        rep.count("compositions");
    }
}
