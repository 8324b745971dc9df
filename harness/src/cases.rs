//! The oracles: each case states, in the specification's terms, what the library must do.
use crate::ast::{self, has, i, q, s};
use crate::ext;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use substrait::proto::Plan;
use substrait_explain::extensions::ExtensionRegistry;
use substrait_explain::{format_with_registry, parse_with_registry, OutputOptions, ParseError, Visibility};

pub struct Env {
    pub reg: ExtensionRegistry,
}
impl Env {
    pub fn new() -> Self {
        Env { reg: ext::registry() }
    }
}
#[derive(Default)]
pub struct Report {
    pub fails: Vec<Value>,
    pub stats: BTreeMap<String, u64>,
    pub sample: Value,
}
impl Report {
    pub fn fail(&mut self, oracle: &str, what: &str, detail: Value) {
        self.fails.push(json!({"oracle": oracle, "what": what, "detail": detail}));
    }
    pub fn count(&mut self, k: &str) {
        *self.stats.entry(k.into()).or_default() += 1;
    }
}

/// The text a rope denotes, the errors it announces and the line it marks.
#[derive(Default)]
pub struct Flat {
    pub text: String,
    pub errors: u64,
    pub mark: Option<i64>,
    line: i64,
}
impl Flat {
    pub fn of(v: &Value) -> Self {
        let mut f = Flat { line: 1, ..Default::default() };
        f.add(v);
        f
    }
    fn push(&mut self, t: &str) {
        self.line += t.matches('\n').count() as i64;
        self.text.push_str(t);
    }
    fn add(&mut self, v: &Value) {
        match v {
            Value::String(t) => self.push(t),
            Value::Number(n) => self.push(&n.to_string()),
            Value::Array(a) => a.iter().for_each(|x| self.add(x)),
            Value::Object(o) => {
                let (k, x) = o.iter().next().unwrap();
                match k.as_str() {
                    "u" => self.push(&char::from_u32(x.as_u64().unwrap() as u32).unwrap().to_string()),
                    "bad" => {
                        self.errors += 1;
                        self.push(&format!("!{{{}}}", x.as_str().unwrap()));
                    }
                    "warn" => self.errors += x.as_u64().unwrap(),
                    "mark" => self.mark = Some(self.line),
                    k => panic!("rope {k}"),
                }
            }
            _ => panic!("rope {v}"),
        }
    }
}

pub enum Got<T> {
    Ok(T),
    Err(String, Option<(i64, String)>),
    Panic(String),
}
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f))
        .map_err(|p| p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default())
}
pub fn error_line(e: &ParseError) -> Option<(i64, String)> {
    let c = match e {
        ParseError::Extension(c, _)
        | ParseError::ExtensionDetail(c, _)
        | ParseError::Plan(c, _)
        | ParseError::ValidationError(c, _)
        | ParseError::Initial(c, _)
        | ParseError::Relation(c, _) => c,
        ParseError::Expected { context, .. } => context,
        ParseError::UnregisteredExtension { context, .. } => context,
        ParseError::RelationParse(c, ..) => c,
        _ => return None,
    };
    Some((c.line_no, c.line.clone()))
}
pub fn parse(env: &Env, t: &str) -> Got<Plan> {
    match guard(|| parse_with_registry(t, &env.reg)) {
        Err(p) => Got::Panic(p),
        Ok(Ok(p)) => Got::Ok(p),
        Ok(Err(e)) => {
            let l = error_line(&e);
            Got::Err(e.to_string(), l)
        }
    }
}
pub fn options(o: &Value) -> OutputOptions {
    let vis = |t: &str| match t {
        "never" => Visibility::Never,
        "req" => Visibility::Required,
        _ => Visibility::Always,
    };
    let o = OutputOptions {
        show_simple_extension_anchors: vis(s(o, "an")),
        literal_types: vis(s(o, "lt")),
        show_emit: o["em"].as_bool().unwrap(),
        show_literal_binaries: o["bin"].as_bool().unwrap(),
        virtual_table_multiline_threshold: i(o, "thr") as usize,
        indent: s(o, "ind").to_string(),
        ..OutputOptions::default()
    };
    // the options a caller gets by asking for everything
    if o.show_simple_extension_anchors == Visibility::Always && o.literal_types == Visibility::Always && !o.show_emit && o.show_literal_binaries && o.virtual_table_multiline_threshold == 3 && o.indent == "  " {
        return OutputOptions::verbose();
    }
    o
}
pub fn format(env: &Env, p: &Plan, o: &OutputOptions) -> Got<(String, usize, Vec<String>)> {
    match guard(|| format_with_registry(p, o, &env.reg)) {
        Err(m) => Got::Panic(m),
        Ok((t, e)) => Got::Ok((t, e.len(), e.iter().map(|x| x.to_string()).collect())),
    }
}
/// Error tokens compare equal whatever they say.
pub fn blank_tokens(t: &str) -> String {
    let mut out = String::new();
    let mut rest = t;
    while let Some(k) = rest.find("!{") {
        out.push_str(&rest[..k]);
        match rest[k..].find('}') {
            Some(e) => {
                out.push_str("!{}");
                rest = &rest[k + e + 1..];
            }
            None => {
                out.push_str(&rest[k..]);
                rest = "";
            }
        }
    }
    out.push_str(rest);
    out
}
pub fn tokens(t: &str) -> usize {
    t.matches("!{").count()
}
pub fn first_diff(a: &str, b: &str) -> Value {
    let (la, lb): (Vec<_>, Vec<_>) = (a.split('\n').collect(), b.split('\n').collect());
    for k in 0..la.len().max(lb.len()) {
        let (x, y) = (la.get(k), lb.get(k));
        if x != y {
            return json!({"line": k + 1, "expected": x, "got": y});
        }
    }
    json!({})
}
pub fn plan_diff(a: &Plan, b: &Plan) -> Value {
    first_diff(&format!("{a:#?}"), &format!("{b:#?}"))
}
/// Structural equality that tells -0.0 from 0.0.
pub fn same(a: &Plan, b: &Plan) -> bool {
    a == b && prost::Message::encode_to_vec(a) == prost::Message::encode_to_vec(b)
}

/// parse(text) must be the plan `ast`.
pub fn expect_parse(env: &Env, text: &str, want: &Plan, oracle: &str, rep: &mut Report) -> Option<Plan> {
    match parse(env, text) {
        Got::Ok(p) => {
            if !same(want, &p) {
                rep.fail(oracle, "parsed plan differs", json!({"text": text, "diff": plan_diff(want, &p)}));
                return None;
            }
            Some(p)
        }
        Got::Err(e, _) => {
            rep.fail(oracle, "valid text rejected", json!({"text": text, "error": e}));
            None
        }
        Got::Panic(m) => {
            rep.fail(oracle, "panic while parsing", json!({"text": text, "error": m}));
            None
        }
    }
}
pub fn expect_format(env: &Env, plan: &Plan, o: &OutputOptions, want: &Flat, oracle: &str, rep: &mut Report) -> Option<String> {
    match format(env, plan, o) {
        Got::Ok((t, n, errs)) => {
            let mut ok = true;
            if blank_tokens(&t) != blank_tokens(&want.text) {
                rep.fail(oracle, "text differs", json!({"want": want.text, "got": t, "diff": first_diff(&want.text, &t), "errors": errs}));
                ok = false;
            }
            if n as u64 != want.errors {
                rep.fail(oracle, "number of reported errors differs", json!({"want": want.errors, "got": n, "errors": errs, "text": t}));
                ok = false;
            }
            ok.then_some(t)
        }
        Got::Err(..) => unreachable!(),
        Got::Panic(m) => {
            rep.fail(oracle, "panic while formatting", json!({"error": m, "want": want.text}));
            None
        }
    }
}

pub fn run(env: &Env, c: &Value, rep: &mut Report) {
    match s(c, "c") {
        "rt" => round_trip(env, c, rep),
        "fmt" => fmt_case(env, c, rep),
        "doc" => doc_case(env, c, rep),
        "law" => law_case(env, c, rep),
        "cli" => crate::cli::cli_case(env, c, rep),
        "fs" => crate::cli::fs_case(c, rep),
        "soup" => soup_case(env, c, rep),
        "lossy" => lossy_case(env, c, rep),
        #[cfg(feature = "catalog")]
        "cat" => crate::cat::cat_case(c, rep),
        #[cfg(feature = "catalog")]
        "cpd" => crate::cat::comp_case(c, rep),
        #[cfg(not(feature = "catalog"))]
        "cat" | "cpd" => rep.count("not_available"),
        "deep" => crate::cli::deep_case(c, rep),
        "conv" => crate::reg::conv_case(c, rep),
        "args" => crate::reg::args_case(c, rep),
        "any" => crate::reg::any_case(c, rep),
        "reg" => crate::reg::reg_case(c, rep),
        "sess" => crate::sess::sess_case(env, c, rep),
        "comp" => crate::sess::comp_case(env, c, rep),
        k => panic!("case kind {k}"),
    }
}

/// C01-style: plan -> text -> plan is the identity, and text is stable.
fn round_trip(env: &Env, c: &Value, rep: &mut Report) {
    let plan = ast::plan(&c["ast"]);
    let want = Flat::of(&c["text"]);
    rep.sample = json!({"text": want.text});
    let before = plan.clone();
    let d = OutputOptions::default();
    if expect_format(env, &plan, &d, &want, "format", rep).is_some() {
        rep.count("formatted");
    }
    if plan != before {
        rep.fail("format", "formatting changed the plan", json!({}));
    }
    if let Some(p) = expect_parse(env, &want.text, &plan, "parse", rep) {
        rep.count("parsed");
        expect_format(env, &p, &d, &want, "reformat", rep);
    }
}

pub fn is_clean(c: &Value) -> bool {
    let d = json!({"an": "req", "lt": "req", "em": false, "bin": false, "thr": 3, "ind": "  "});
    c["opts"] == d && Flat::of(&c["text"]).errors == 0
}

/// A plan, options, the exact text and number of errors; `back' = what the text denotes.
fn fmt_case(env: &Env, c: &Value, rep: &mut Report) {
    ast::OLDER.set(c["older"].as_u64().unwrap_or(0) as u8);
    let plan = ast::plan(&c["ast"]);
    ast::OLDER.set(0);
    let o = options(&c["opts"]);
    let want = Flat::of(&c["text"]);
    rep.sample = json!({"text": want.text, "errors": want.errors, "opts": c["opts"]});
    if want.errors > 0 {
        rep.count("with_errors");
    }
    expect_format(env, &plan, &o, &want, "format", rep);
    if let Some(b) = c.get("back").and_then(|b| b.as_array()).and_then(|b| b.first()) {
        rep.count("reparsed");
        expect_parse(env, &want.text, &ast::plan(b), "reparse", rep);
    }
}

/// The line an error shows is the line of the text, up to what follows the relation.
fn shows(line: &str, shown: &str) -> bool {
    line == shown || (shown.ends_with(']') && line.starts_with(shown))
}

/// A text and what it denotes: ok = <<plan>>, or <<>> when it denotes nothing.
fn doc_case(env: &Env, c: &Value, rep: &mut Report) {
    let t = Flat::of(&c["text"]);
    rep.sample = json!({"text": t.text, "accept": !q(c, "ok").is_empty(), "error_line": t.mark});
    if let Some(a) = q(c, "ok").first() {
        rep.count("accepted");
        let want = ast::plan(a);
        if let Some(p) = expect_parse(env, &t.text, &want, "parse", rep) {
            if has(c, "canon") {
                let canon = Flat::of(&c["canon"]);
                expect_format(env, &p, &OutputOptions::default(), &canon, "canonical", rep);
            }
        }
        return;
    }
    rep.count("rejected");
    match parse(env, &t.text) {
        Got::Ok(p) => rep.fail("reject", "text that denotes no plan was accepted", json!({"text": t.text, "plan": format!("{p:?}")})),
        Got::Panic(m) => rep.fail("reject", "panic while parsing", json!({"text": t.text, "error": m})),
        Got::Err(e, l) => {
            if let Some(m) = t.mark {
                rep.count("error_line_checked");
                let want = t.text.split('\n').nth(m as usize - 1).unwrap_or("").trim().to_string();
                match l {
                    None => rep.fail("line", "error names no line", json!({"text": t.text, "error": e, "want": m})),
                    Some((n, tx)) => {
                        if n != m {
                            rep.fail("line", "error names the wrong line", json!({"text": t.text, "error": e, "want": m, "got": n}));
                        } else if !shows(&want, tx.trim().lines().next().unwrap_or("").trim()) {
                            rep.fail("line", "error shows the wrong line", json!({"text": t.text, "error": e, "want": want, "got": tx}));
                        }
                    }
                }
            }
        }
    }
}

/// C01's law alone, where the model does not predict the text: no errors, the text means the same plan, and it is stable.
fn law_case(env: &Env, c: &Value, rep: &mut Report) {
    let plan = ast::plan(&c["ast"]);
    let d = OutputOptions::default();
    match format(env, &plan, &d) {
        Got::Panic(m) => rep.fail("format", "panic while formatting", json!({"error": m})),
        Got::Err(..) => unreachable!(),
        Got::Ok((t, n, errs)) => {
            rep.sample = json!({"text": t});
            if n > 0 {
                rep.fail("format", "errors on a supported plan", json!({"errors": errs, "text": t}));
            } else if let Some(p) = expect_parse(env, &t, &plan, "law", rep) {
                rep.count("round_trips");
                if let Got::Ok((t2, ..)) = format(env, &p, &d) {
                    if t2 != t {
                        rep.fail("law", "text is not stable", json!({"first": t, "second": t2}));
                    }
                }
            }
        }
    }
}

/// C09's law on text that need not denote anything.
fn soup_case(env: &Env, c: &Value, rep: &mut Report) {
    let mut cs: Vec<char> = Flat::of(&c["text"]).text.chars().collect();
    for e in q(c, "edits") {
        let n = |k: &str| e[k].as_u64().unwrap_or(0) as usize;
        let at = if cs.is_empty() { 0 } else { n("at") % (cs.len() + 1) };
        let from = if cs.is_empty() { 0 } else { n("frm") % cs.len() };
        let copy: Vec<char> = cs[from..(from + n("len")).min(cs.len())].to_vec();
        let end = (at + n("del")).min(cs.len());
        cs.splice(at..end, s(e, "ins").chars().chain(copy));
    }
    let t: String = cs.into_iter().collect();
    rep.sample = json!({"text": t});
    match parse(env, &t) {
        Got::Panic(m) => rep.fail("panic", "panic while parsing", json!({"text": t, "error": m})),
        Got::Err(e, l) => {
            rep.count("rejected");
            if let Some((n, tx)) = l {
                let shown = tx.trim().lines().next().unwrap_or("").trim().to_string();
                let line = t.split('\n').nth((n - 1).max(0) as usize).unwrap_or("");
                if n < 1 || n as usize > t.split('\n').count() {
                    rep.fail("line", "error names a line the text does not have", json!({"text": t, "error": e, "line": n}));
                } else if !line.contains(&shown) {
                    rep.fail("line", "error shows the wrong line", json!({"text": t, "error": e, "want": line, "got": shown}));
                }
            }
        }
        Got::Ok(p) => {
            rep.count("accepted");
            match format(env, &p, &OutputOptions::default()) {
                Got::Panic(m) => rep.fail("panic", "panic while formatting", json!({"text": t, "error": m})),
                Got::Err(..) => unreachable!(),
                Got::Ok((t2, 0, _)) => {
                    // columns a mapping repeats are written out, so equal text is the law here, not equal plans
                    rep.count("reread");
                    match parse(env, &t2) {
                        Got::Ok(p2) if p2 == p => rep.count("same_plan"),
                        Got::Ok(p2) => match format(env, &p2, &OutputOptions::default()) {
                            Got::Ok((t3, 0, _)) if t3 == t2 => rep.count("same_text"),
                            _ => rep.fail("law", "what an accepted text prints as does not print the same again", json!({"text": t, "printed": t2})),
                        },
                        _ => rep.fail("law", "what an accepted text prints as is rejected", json!({"text": t, "printed": t2})),
                    }
                }
                Got::Ok(_) => rep.count("with_errors"),
            }
        }
    }
}

/// C08: a plan with a part the text form has no place for: either an error is reported or the text still denotes the plan.
fn lossy_case(env: &Env, c: &Value, rep: &mut Report) {
    let plan = ast::plan(&c["ast"]);
    match format(env, &plan, &OutputOptions::default()) {
        Got::Panic(m) => rep.fail("reported", "panic while formatting", json!({"error": m})),
        Got::Err(..) => unreachable!(),
        Got::Ok((t, n, _)) => {
            rep.sample = json!({"text": t});
            if n == 0 {
                rep.count("silent");
                match parse(env, &t) {
                    Got::Ok(p) if p == plan => rep.count("kept"),
                    Got::Ok(_) => rep.fail("reported", "part of the plan is dropped and no error is reported", json!({"text": t})),
                    _ => rep.fail("reported", "no error is reported and the text does not read back", json!({"text": t})),
                }
            } else {
                rep.count("reported");
            }
        }
    }
}
