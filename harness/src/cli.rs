//! C16: invocations of the command line, in process and (for some) as the real binary.
use crate::ast::{self, q, s};
use crate::std_json;
use crate::cases::{Env, Flat, Report};
use clap::Parser;
use prost::Message;
use serde_json::{json, Value};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use substrait::proto::Plan;
use substrait_explain::cli::{Cli, Outcome};
use substrait_explain::extensions::ExtensionRegistry;

fn argv(a: &Value) -> Vec<String> {
    let mut v: Vec<String> = vec!["substrait-explain".into(), s(a, "cmd").into()];
    let mut put = |k: &str, x: &str| v.push(format!("{k}={x}"));
    put("--input", s(a, "i"));
    put("--output", s(a, "o"));
    q(a, "f").iter().for_each(|x| put("--from", x.as_str().unwrap()));
    q(a, "t").iter().for_each(|x| put("--to", x.as_str().unwrap()));
    if a["slt"] == true {
        v.push("--show-literal-types".into());
    }
    if a["vb"] == true {
        v.push("-v".into());
    }
    v
}
/// exit status class (true = 0), number of reported issues, output
struct Ran {
    ok: bool,
    issues: Option<usize>,
    out: Vec<u8>,
    err: String,
}
fn in_process(reg: &ExtensionRegistry, args: &[String], input: &[u8]) -> Result<Ran, String> {
    let mut out = Vec::new();
    let r = catch_unwind(AssertUnwindSafe(|| match Cli::try_parse_from(args) {
        Err(e) => Err(e.to_string()),
        Ok(cli) => cli.run_with_io(input, &mut out, reg).map_err(|e| format!("{e:#}")),
    }));
    match r {
        Err(p) => Err(p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default()),
        Ok(Err(e)) => Ok(Ran { ok: false, issues: None, out, err: e }),
        Ok(Ok(Outcome::Success)) => Ok(Ran { ok: true, issues: Some(0), out, err: String::new() }),
        Ok(Ok(Outcome::HadFormattingIssues(v))) => Ok(Ran { ok: false, issues: Some(v.len()), out, err: format!("{v:?}") }),
    }
}
static N: AtomicU64 = AtomicU64::new(0);
fn as_binary(exe: &str, a: &Value, args: &[String], input: &[u8]) -> Result<Ran, String> {
    let dir = std::env::temp_dir().join(format!("sxcli{}_{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
    for d in ["d", "d.json"] {
        std::fs::create_dir_all(dir.join(d)).map_err(|e| e.to_string())?;
    }
    let (i, o) = (s(a, "i"), s(a, "o"));
    if i != "-" {
        std::fs::write(dir.join(i), input).map_err(|e| e.to_string())?;
    }
    let mut ch = Command::new(exe)
        .args(&args[1..])
        .current_dir(&dir)
        .env_remove("RUST_BACKTRACE")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| e.to_string())?;
    let mut stdin = ch.stdin.take().unwrap();
    let data = input.to_vec();
    let w = std::thread::spawn(move || {
        let _ = stdin.write_all(&data);
    });
    let r = ch.wait_with_output().map_err(|e| e.to_string())?;
    let _ = w.join();
    let out = if o == "-" { r.stdout.clone() } else { std::fs::read(dir.join(o)).unwrap_or_default() };
    let _ = std::fs::remove_dir_all(&dir);
    let err = String::from_utf8_lossy(&r.stderr).to_string();
    if r.status.code().is_none() || err.contains("panicked at") {
        return Err(err);
    }
    Ok(Ran { ok: r.status.success(), issues: None, out, err })
}
/// what the bytes denote in a form
fn denotes(form: &str, b: &[u8], env: &Env) -> Result<Plan, String> {
    let t = || String::from_utf8(b.to_vec()).map_err(|e| e.to_string());
    match form {
        "json" => serde_json::from_str(&t()?).map_err(|e| e.to_string()),
        "yaml" => serde_yaml::from_str(&t()?).map_err(|e| e.to_string()),
        "pb" => Plan::decode(b).map_err(|e| e.to_string()),
        _ => substrait_explain::parse_with_registry(&t()?, &env.reg).map_err(|e| e.to_string()),
    }
}
pub fn cli_case(env: &Env, c: &Value, rep: &mut Report) {
    let style = c.get("js");
    std_json::TYPED.set(style.is_some());
    let plan = q(c, "ast").first().map(ast::plan);
    std_json::TYPED.set(false);
    let reg = if style.is_some() { std_json::registry() } else { &env.reg };
    let mut cur: Vec<u8> = match (s(c, "first"), &plan) {
        ("bytes", _) => q(c, "input").iter().map(|x| x.as_u64().unwrap() as u8).collect(),
        ("text", _) => Flat::of(&c["input"]).text.into_bytes(),
        ("json", Some(p)) if style.is_some() => std_json::encode(p, style.unwrap()),
        ("json", Some(p)) => serde_json::to_vec(p).expect("json"),
        ("yaml", Some(p)) => serde_yaml::to_string(p).expect("yaml").into_bytes(),
        (_, Some(p)) => p.encode_to_vec(),
        (f, None) => panic!("first {f}"),
    };
    // prost-reflect holds the shortest decimal spelling of f32::MAX to be out of range
    if style.is_some() && String::from_utf8_lossy(&cur).contains("3.4028235e") {
        return rep.count("not_judged");
    }
    match c["dmg"].as_str() {
        Some("cut") => cur.truncate(cur.len() * c["at"].as_u64().unwrap() as usize / 1000),
        Some(tail) => cur.extend(tail.as_bytes()),
        None => {}
    }
    let (plain, typed) = (Flat::of(&c["text"]), Flat::of(&c["ltext"]));
    let exe = std::env::var("SX_BIN").ok();
    let mut trail = vec![];
    for st in q(c, "steps") {
        let a = &st["a"];
        let args = argv(a);
        trail.push(json!(args[1..].join(" ")));
        rep.sample = json!({"steps": trail, "text": plain.text});
        let want_ok = st["ok"] == true;
        let out_form = s(st, "out");
        let want = if st["slt"] == true { &typed } else { &plain };
        let issues = if out_form == "text" { want.errors as usize } else { 0 };
        let mut runs = vec![("in-process", in_process(reg, &args, &cur))];
        if let (true, Some(exe)) = (c["bin"] == true && s(a, "i") != s(a, "o") || (c["bin"] == true && s(a, "i") == "-"), &exe) {
            rep.count("binary_runs");
            runs.push(("binary", as_binary(exe, a, &args, &cur)));
        }
        let mut next = None;
        for (how, r) in runs {
            let d = |x: &str| json!({"how": how, "steps": trail, "error": x, "input": String::from_utf8_lossy(&cur)});
            let r = match r {
                Err(m) => return rep.fail("panic", "panic", d(&m)),
                Ok(r) => r,
            };
            if !want_ok {
                rep.count("refused");
                if r.ok {
                    rep.fail("refuse", "accepted what it should refuse", d(&String::from_utf8_lossy(&r.out)));
                } else if !r.out.is_empty() {
                    rep.fail("refuse", "wrote output although it failed", d(&String::from_utf8_lossy(&r.out)));
                } else if r.err.is_empty() {
                    rep.fail("refuse", "failed without a message", d(""));
                }
                continue;
            }
            if r.ok != (issues == 0) || r.issues.is_some_and(|n| n != issues) {
                rep.fail("status", "wrong outcome", d(&format!("want {issues} issues, got {:?} ok={} {}", r.issues, r.ok, r.err)));
                return;
            }
            if out_form == "text" {
                rep.count("text_outputs");
                if r.out != want.text.as_bytes() {
                    // tokens of lost parts are spelt freely; only clean text is compared exactly
                    if issues == 0 {
                        rep.fail("output", "text output differs", d(&String::from_utf8_lossy(&r.out)));
                    } else if let Some(p) = &plan {
                        let o = substrait_explain::OutputOptions {
                            literal_types: if st["slt"] == true { substrait_explain::Visibility::Always } else { substrait_explain::OutputOptions::default().literal_types },
                            ..Default::default()
                        };
                        if substrait_explain::format_with_registry(p, &o, &env.reg).0.as_bytes() != &r.out[..] {
                            rep.fail("output", "text output differs from the library's", d(&String::from_utf8_lossy(&r.out)));
                        }
                    }
                }
            } else {
                rep.count("encoded_outputs");
                match denotes(out_form, &r.out, env) {
                    Ok(p) if Some(&p) == plan.as_ref() => {}
                    Ok(_) => rep.fail("output", "output denotes another plan", d(&String::from_utf8_lossy(&r.out))),
                    Err(e) => rep.fail("output", "output cannot be read", d(&e)),
                }
            }
            next = Some(r.out);
        }
        match next {
            Some(n) => cur = n,
            None => break,
        }
    }
}
/// One construct nested n times (Deep.tla), given to the real binary.
pub fn deep_case(c: &Value, rep: &mut Report) {
    let Ok(exe) = std::env::var("SX_BIN") else { return rep.count("not_judged") };
    let (sh, n) = (&c["sh"], c["n"].as_u64().unwrap() as usize);
    let mut t = s(sh, "pre").to_string();
    let ind = |i: usize| if sh["ind"] == true { "  ".repeat(i) } else { String::new() };
    (0..n).for_each(|i| t += &(ind(i) + s(sh, "op")));
    t += &(ind(n) + s(sh, "md"));
    (0..n).for_each(|_| t += s(sh, "cl"));
    t += s(sh, "po");
    let form = s(c, "form");
    rep.sample = json!({"construct": sh["nm"], "depth": n, "form": form});
    let go = |a: Value, input: &[u8]| as_binary(&exe, &a, &argv(&a), input);
    let conv = |f: &str, t: &str| json!({"cmd": "convert", "i": "-", "o": "-", "f": [f], "t": [t]});
    let mut input = t.clone().into_bytes();
    let steps = if form == "validate" { vec![json!({"cmd": "validate", "i": "-", "o": "-", "f": [], "t": []})] } else { vec![conv("text", form), conv(form, "text")] };
    for a in steps {
        match go(a, &input) {
            Err(e) => return rep.fail("deep", "the process died", json!({"construct": sh["nm"], "depth": n, "error": e.chars().take(300).collect::<String>()})),
            Ok(r) if !r.ok => return rep.fail("deep", "refused", json!({"construct": sh["nm"], "depth": n, "error": r.err.chars().take(300).collect::<String>()})),
            Ok(r) => input = r.out,
        }
    }
    if input.trim_ascii_end() != t.as_bytes().trim_ascii_end() {
        rep.fail("deep", "the text changed", json!({"construct": sh["nm"], "depth": n}));
    }
}

/// What lies in the files (CliFs.tla): one invocation of the real binary in a directory of its own.
pub fn fs_case(c: &Value, rep: &mut Report) {
    let Ok(exe) = std::env::var("SX_BIN") else { return rep.count("not_judged") };
    const JUNK: &[u8] = &[0xff, 0xfe, 0x00, 0x7b];
    let plans: Vec<Plan> = q(c, "plans").iter().map(ast::plan).collect();
    let plan = |x: &Value| &plans[x["p"].as_u64().unwrap() as usize - 1];
    let write = |x: &Value| -> Option<Vec<u8>> {
        match (s(x, "k"), x.get("f").and_then(|f| f.as_str())) {
            ("absent", _) => None,
            ("junk", _) => Some(JUNK.to_vec()),
            (_, Some("text")) => Some(substrait_explain::format(plan(x)).0.into_bytes()),
            (_, Some("json")) => Some(serde_json::to_vec(plan(x)).expect("json")),
            (_, Some("yaml")) => Some(serde_yaml::to_string(plan(x)).expect("yaml").into_bytes()),
            _ => Some(plan(x).encode_to_vec()),
        }
    };
    let holds = |x: &Value, b: &[u8]| match x["f"].as_str().unwrap() {
        "text" => b == substrait_explain::format(plan(x)).0.as_bytes(),
        "json" => serde_json::from_slice::<Plan>(b).is_ok_and(|p| &p == plan(x)),
        "yaml" => serde_yaml::from_slice::<Plan>(b).is_ok_and(|p| &p == plan(x)),
        _ => Plan::decode(b).is_ok_and(|p| &p == plan(x)),
    };
    let (a, ok, out) = (&c["a"], c["ok"] == true, &c["out"]);
    let args = argv(a);
    rep.sample = json!({"invocation": args[1..].join(" "), "files": c["before"]});
    let dir = std::env::temp_dir().join(format!("sxfs{}_{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
    std::fs::create_dir_all(&dir).expect("scratch");
    let before: Vec<(&str, Option<Vec<u8>>)> = q(c, "before").iter().map(|e| (s(e, "n"), write(&e["c"]))).collect();
    for (n, b) in &before {
        if let Some(b) = b {
            std::fs::write(dir.join(n), b).expect("scratch");
        }
    }
    let mut ch = Command::new(exe)
        .args(&args[1..])
        .current_dir(&dir)
        .env_remove("RUST_BACKTRACE")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("binary");
    let mut stdin = ch.stdin.take().unwrap();
    let _ = stdin.write_all(substrait_explain::format(&plans[0]).0.as_bytes());
    drop(stdin);
    let r = ch.wait_with_output().expect("binary");
    let now: Vec<(&str, Option<Vec<u8>>)> = before.iter().map(|(n, _)| (*n, std::fs::read(dir.join(n)).ok())).collect();
    let names = std::fs::read_dir(&dir).map(|d| d.count()).unwrap_or(0);
    let _ = std::fs::remove_dir_all(&dir);
    let err = String::from_utf8_lossy(&r.stderr).to_string();
    let d = |x: &str| json!({"invocation": args[1..].join(" "), "files": c["before"], "error": x, "stderr": err.chars().take(200).collect::<String>()});
    if r.status.code().is_none() || err.contains("panicked at") {
        return rep.fail("panic", "the process died", d(""));
    }
    let want_status = ok && !(s(out, "f") == "text" && out["p"] == 3);
    if r.status.success() != want_status {
        return rep.fail("status", "wrong exit status", d(&format!("want success: {want_status}")));
    }
    if !want_status && err.is_empty() {
        return rep.fail("status", "failed without a message", d(""));
    }
    rep.count(if ok { "converted" } else { "refused" });
    let stdout_used = ok && s(a, "o") == "-";
    if stdout_used && !holds(out, &r.stdout) {
        return rep.fail("output", "standard output holds something else", d(&String::from_utf8_lossy(&r.stdout)));
    }
    if !stdout_used && !r.stdout.is_empty() {
        return rep.fail("output", "something was written to standard output", d(&String::from_utf8_lossy(&r.stdout)));
    }
    for ((n, old), (_, new)) in before.iter().zip(&now) {
        if ok && *n == s(a, "o") {
            match new {
                Some(b) if holds(out, b) => {}
                Some(b) => return rep.fail("output", "the output file holds something else", d(&String::from_utf8_lossy(b))),
                None => return rep.fail("output", "there is no output file", d(n)),
            }
        } else if old != new {
            return rep.fail("files", "a file changed that should not have", d(n));
        }
    }
    if names != now.iter().filter(|x| x.1.is_some()).count() {
        rep.fail("files", "another file appeared", d(""));
    }
}
