//! The standard JSON form of a plan (as protojson and friends write it), in all its spellings.
use prost::Message;
use prost_reflect::{DescriptorPool, DynamicMessage, SerializeOptions};
use prost_types::{field_descriptor_proto as fd, DescriptorProto, FieldDescriptorProto, FileDescriptorProto, FileDescriptorSet};
use serde_json::Value;
use std::cell::Cell;
use std::sync::OnceLock;
use substrait::proto::{Plan, FILE_DESCRIPTOR_SET};
use substrait_explain::extensions::ExtensionRegistry;

thread_local! {
    /// whether extension payloads are built as messages with a schema
    pub static TYPED: Cell<bool> = const { Cell::new(false) };
}
#[derive(Clone, PartialEq, Message)]
pub struct Blob {
    #[prost(bytes = "vec", tag = "1")]
    pub raw: Vec<u8>,
    #[prost(string, tag = "2")]
    pub note: String,
    #[prost(int64, tag = "3")]
    pub n: i64,
    #[prost(message, repeated, tag = "4")]
    pub kids: Vec<Blob>,
}
/// the payload as a message with a schema
pub fn typed(ns: usize, raw: Vec<u8>) -> (String, Vec<u8>) {
    let n = raw.len() as i64;
    let kids = if n % 2 == 1 { vec![Blob { n: -n, ..Default::default() }, Blob::default()] } else { vec![] };
    let m = Blob { raw, note: if n % 3 == 0 { String::new() } else { "é\"\n".into() }, n: if n % 5 == 0 { i64::MIN } else { n }, kids };
    (format!("type.googleapis.com/{}.Blob", if ns % 2 == 0 { "sx" } else { "sx.two" }), m.encode_to_vec())
}
fn file(package: &str) -> FileDescriptorProto {
    let f = |name: &str, n: i32, t: fd::Type, l: fd::Label, tn: Option<String>| FieldDescriptorProto {
        name: Some(name.into()),
        number: Some(n),
        r#type: Some(t as i32),
        label: Some(l as i32),
        type_name: tn,
        json_name: Some(name.into()),
        ..Default::default()
    };
    let o = fd::Label::Optional;
    FileDescriptorProto {
        name: Some(format!("{package}.proto")),
        package: Some(package.into()),
        syntax: Some("proto3".into()),
        message_type: vec![DescriptorProto {
            name: Some("Blob".into()),
            field: vec![
                f("raw", 1, fd::Type::Bytes, o, None),
                f("note", 2, fd::Type::String, o, None),
                f("n", 3, fd::Type::Int64, o, None),
                f("kids", 4, fd::Type::Message, fd::Label::Repeated, Some(format!(".{package}.Blob"))),
            ],
            ..Default::default()
        }],
        ..Default::default()
    }
}
/// two descriptor blobs, each bundled with files the core schema also has
fn blobs() -> [Vec<u8>; 2] {
    let core = FileDescriptorSet::decode(FILE_DESCRIPTOR_SET).expect("core");
    let wkt: Vec<_> = core.file.iter().filter(|f| f.name().starts_with("google/")).cloned().collect();
    ["sx", "sx.two"].map(|p| FileDescriptorSet { file: wkt.iter().cloned().chain([file(p)]).collect() }.encode_to_vec())
}
pub fn registry() -> &'static ExtensionRegistry {
    static R: OnceLock<ExtensionRegistry> = OnceLock::new();
    R.get_or_init(|| {
        let mut r = crate::ext::registry();
        blobs().into_iter().for_each(|b| r.add_descriptor(b));
        r
    })
}
pub fn encode(plan: &Plan, style: &Value) -> Vec<u8> {
    static P: OnceLock<DescriptorPool> = OnceLock::new();
    let pool = P.get_or_init(|| {
        let mut p = DescriptorPool::decode(FILE_DESCRIPTOR_SET).expect("core");
        ["sx", "sx.two"].iter().for_each(|x| p.add_file_descriptor_proto(file(x)).expect("sx"));
        p
    });
    let on = |k: &str| style[k] == true;
    let o = SerializeOptions::new()
        .stringify_64_bit_integers(on("str64"))
        .use_enum_numbers(on("nums"))
        .use_proto_field_name(on("snake"))
        .skip_default_fields(!on("all"));
    let m = DynamicMessage::decode(pool.get_message_by_name("substrait.Plan").expect("Plan"), &plan.encode_to_vec()[..]).expect("plan");
    let mut out = vec![];
    if on("pretty") {
        m.serialize_with_options(&mut serde_json::Serializer::pretty(&mut out), &o).expect("json");
    } else {
        m.serialize_with_options(&mut serde_json::Serializer::new(&mut out), &o).expect("json");
    }
    out
}
