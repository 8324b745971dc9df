//! Reference extension handlers.  A handler stores what it was given (arguments and output
//! columns) verbatim in its payload and gives it back verbatim, so that whatever reaches the
//! text or the plan is exactly what the library passed on.
use crate::ast::{hex, unhex};
use indexmap::IndexMap;
use prost::Message;
use serde_json::{json, Value};
use substrait::proto;
use substrait_explain::extensions::{
    Any, AnyConvertible, AnyRef, ArgsAccess, Explainable, ExtensionArgs, ExtensionColumn, ExtensionContext, ExtensionError, ExtensionRegistry,
    ExtensionValue, Expr, EnumValue, TupleValue,
};

pub const NS: [&str; 4] = ["rel", "tab", "enh", "opt"];
/// Index 3 is the context-sensitive handler of the specification.
pub const NAMES: [&str; 7] = ["Alpha", "Beta", "odd x", "Ctx", "Gamma", "Delta", "Typed"];
/// The argument names the handlers know, in the order they are kept.
pub const ARGS: [&str; 7] = ["a", "count", "path", "null", "odd n", "limit", "true"];

pub fn type_url(ns: usize, name: &str) -> String {
    format!("type.test/{}.{}", NS[ns], name)
}
pub fn payload(v: &Value) -> Vec<u8> {
    serde_json::to_vec(v).unwrap()
}

pub fn val_to_json(v: &ExtensionValue) -> Value {
    match v {
        ExtensionValue::String(s) => json!({"s": s}),
        ExtensionValue::Integer(i) => json!({"i": i.to_string()}),
        ExtensionValue::Float(f) => json!({"f": hex(&f.to_bits().to_be_bytes())}),
        ExtensionValue::Boolean(b) => json!({"b": b}),
        ExtensionValue::Null => json!({"z": 0}),
        ExtensionValue::Enum(e) => json!({"n": e}),
        ExtensionValue::Tuple(t) => json!({"t": t.iter().map(val_to_json).collect::<Vec<_>>()}),
        ExtensionValue::Expr(e) => json!({"e": hex(&e.as_proto().encode_to_vec())}),
        ExtensionValue::Error(_) => json!({"err": 0}),
    }
}
pub fn json_to_val(v: &Value) -> Result<ExtensionValue, ExtensionError> {
    let bad = || ExtensionError::InvalidArgument("payload".into());
    let (k, x) = v.as_object().and_then(|o| o.iter().next()).ok_or_else(bad)?;
    Ok(match k.as_str() {
        "s" => ExtensionValue::String(x.as_str().ok_or_else(bad)?.into()),
        "i" => ExtensionValue::Integer(x.as_str().and_then(|t| t.parse().ok()).ok_or_else(bad)?),
        "f" => ExtensionValue::Float(f64::from_bits(u64::from_str_radix(x.as_str().ok_or_else(bad)?, 16).map_err(|_| bad())?)),
        "b" => ExtensionValue::Boolean(x.as_bool().ok_or_else(bad)?),
        "z" => ExtensionValue::Null,
        "n" => ExtensionValue::Enum(x.as_str().ok_or_else(bad)?.into()),
        "t" => ExtensionValue::Tuple(x.as_array().ok_or_else(bad)?.iter().map(json_to_val).collect::<Result<Vec<_>, _>>()?.into()),
        "e" => ExtensionValue::Expr(Expr::from(proto::Expression::decode(&unhex(x.as_str().ok_or_else(bad)?)[..]).map_err(|_| bad())?)),
        "err" => ExtensionValue::Error(bad()),
        _ => return Err(bad()),
    })
}

/// The handler of name N in namespace S.
pub struct Gen<const S: usize, const N: usize>(pub Value);
impl<const S: usize, const N: usize> AnyConvertible for Gen<S, N> {
    fn to_any(&self) -> Result<Any, ExtensionError> {
        Ok(Any::new(Self::type_url(), payload(&self.0)))
    }
    fn from_any<'a>(any: AnyRef<'a>) -> Result<Self, ExtensionError> {
        serde_json::from_slice(any.value).map(Gen).map_err(|e| ExtensionError::InvalidArgument(e.to_string()))
    }
    fn type_url() -> String {
        type_url(S, NAMES[N])
    }
}
impl<const S: usize, const N: usize> Explainable for Gen<S, N> {
    fn name() -> &'static str {
        NAMES[N]
    }
    fn from_args(args: &mut ArgsAccess<'_>) -> Result<Self, ExtensionError> {
        crate::sess::in_handler();
        let pos: Vec<Value> = args.positional().iter().map(val_to_json).collect();
        let mut named = vec![];
        for a in ARGS {
            if let Some(v) = args.get_named_arg(a) {
                named.push(json!([a, val_to_json(v)]));
            }
        }
        if N == 3 {
            args.get_named_arg("w");
        }
        let cols: Vec<Value> = args
            .output_columns()
            .iter()
            .map(|c| match c {
                ExtensionColumn::Named { name, r#type } => json!({"n": name, "t": hex(&r#type.encode_to_vec())}),
                ExtensionColumn::Expr(e) => json!({"e": hex(&e.as_proto().encode_to_vec())}),
            })
            .collect();
        Ok(Gen(json!({"pos": pos, "named": named, "cols": cols})))
    }
    fn to_args(&self, context: &ExtensionContext<'_>) -> Result<ExtensionArgs, ExtensionError> {
        crate::sess::in_handler();
        let bad = || ExtensionError::InvalidArgument("payload".into());
        let arr = |k: &str| self.0.get(k).and_then(|v| v.as_array()).ok_or_else(bad);
        let mut named: IndexMap<String, ExtensionValue> = IndexMap::new();
        for p in arr("named")? {
            named.insert(p[0].as_str().ok_or_else(bad)?.to_string(), json_to_val(&p[1])?);
        }
        if N == 3 {
            let w: Vec<ExtensionValue> = context.inputs().iter().map(|i| ExtensionValue::Integer(i.emitted_column_count() as i64)).collect();
            named.insert("w".into(), ExtensionValue::Tuple(w.into()));
        }
        let cols = arr("cols")?
            .iter()
            .map(|c| {
                if let Some(n) = c.get("n") {
                    let t = proto::Type::decode(&unhex(c["t"].as_str().ok_or_else(bad)?)[..]).map_err(|_| bad())?;
                    Ok(ExtensionColumn::Named { name: n.as_str().ok_or_else(bad)?.into(), r#type: t })
                } else {
                    let e = proto::Expression::decode(&unhex(c["e"].as_str().ok_or_else(bad)?)[..]).map_err(|_| bad())?;
                    Ok(ExtensionColumn::Expr(e.into()))
                }
            })
            .collect::<Result<Vec<_>, ExtensionError>>()?;
        Ok(ExtensionArgs { positional: arr("pos")?.iter().map(json_to_val).collect::<Result<Vec<_>, _>>()?, named, output_columns: cols })
    }
}

/// A handler that takes every argument by type: the requests of ArgsX.tla.
pub struct Typed<const S: usize>(Value);
impl<const S: usize> AnyConvertible for Typed<S> {
    fn to_any(&self) -> Result<Any, ExtensionError> {
        Ok(Any::new(Self::type_url(), payload(&self.0)))
    }
    fn from_any<'a>(any: AnyRef<'a>) -> Result<Self, ExtensionError> {
        serde_json::from_slice(any.value).map(Typed).map_err(|e| ExtensionError::InvalidArgument(e.to_string()))
    }
    fn type_url() -> String {
        type_url(S, "Typed")
    }
}
impl<const S: usize> Explainable for Typed<S> {
    fn name() -> &'static str {
        "Typed"
    }
    fn from_args(a: &mut ArgsAccess<'_>) -> Result<Self, ExtensionError> {
        let mut named: Vec<(&str, ExtensionValue)> = vec![("n", a.expect_named::<i64>("n")?.into())];
        let mut put = |n: &'static str, v: Option<ExtensionValue>| {
            if let Some(v) = v {
                named.push((n, v));
            }
        };
        put("i", a.get_named::<i64>("i")?.map(Into::into));
        put("f", a.get_named::<f64>("f")?.map(Into::into));
        put("b", a.get_named::<bool>("b")?.map(Into::into));
        put("s", a.get_named::<String>("s")?.map(Into::into));
        put("z", a.get_named::<&str>("z")?.map(Into::into));
        put("e", a.get_named::<EnumValue>("e")?.map(|e| ExtensionValue::Enum(e.0)));
        put("t", a.get_named::<&TupleValue>("t")?.map(|t| ExtensionValue::Tuple(t.clone())));
        if let Some(e) = a.get_named::<Expr>("r")? {
            let k = e.as_direct_reference().ok_or_else(|| ExtensionError::InvalidArgument("a reference".into()))?;
            put("r", Some(Expr::field(k).into()));
        }
        put("x", a.get_named::<Expr>("x")?.map(Into::into));
        put("ti", a.get_named_tuple::<i64>("ti")?.map(|v| ExtensionValue::Tuple(v.into_iter().map(ExtensionValue::from).collect::<Vec<_>>().into())));
        put("ts", a.get_named_tuple::<String>("ts")?.map(|v| ExtensionValue::Tuple(v.into_iter().map(ExtensionValue::from).collect::<Vec<_>>().into())));
        put("tx", a.get_named_tuple::<Expr>("tx")?.map(|v| ExtensionValue::Tuple(v.into_iter().map(ExtensionValue::from).collect::<Vec<_>>().into())));
        let named: Vec<Value> = named.iter().map(|(n, v)| json!([n, val_to_json(v)])).collect();
        Ok(Typed(json!({"pos": [], "named": named, "cols": []})))
    }
    fn to_args(&self, c: &ExtensionContext<'_>) -> Result<ExtensionArgs, ExtensionError> {
        Gen::<S, 0>(self.0.clone()).to_args(c)
    }
}

fn reg_ns<const S: usize>(r: &mut ExtensionRegistry) {
    macro_rules! go { ($($n:literal),*) => { $( register::<S, $n>(r).unwrap(); )* } }
    go!(0, 1, 2, 3);
    match S {
        0 => r.register_relation::<Typed<S>>(),
        1 => r.register_extension_table::<Typed<S>>(),
        2 => r.register_enhancement::<Typed<S>>(),
        _ => r.register_optimization::<Typed<S>>(),
    }
    .unwrap();
}
pub fn register<const S: usize, const N: usize>(r: &mut ExtensionRegistry) -> Result<(), String> {
    match S {
        0 => r.register_relation::<Gen<S, N>>(),
        1 => r.register_extension_table::<Gen<S, N>>(),
        2 => r.register_enhancement::<Gen<S, N>>(),
        _ => r.register_optimization::<Gen<S, N>>(),
    }
    .map_err(|e| format!("{e:?}"))
}
/// The registry of the document checks: Alpha, Beta, "odd x" and Ctx in every namespace.
pub fn registry() -> ExtensionRegistry {
    let mut r = ExtensionRegistry::new();
    reg_ns::<0>(&mut r);
    reg_ns::<1>(&mut r);
    reg_ns::<2>(&mut r);
    reg_ns::<3>(&mut r);
    r
}
