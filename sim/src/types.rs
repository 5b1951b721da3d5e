//! Column types and values: generation, arrow and avro encoding, canonical text.

use crate::rng::Rng;
use arrow::buffer::{NullBuffer, OffsetBuffer};
use arrow_array::builder::*;
use arrow_array::cast::AsArray;
use arrow_array::types::*;
use arrow_array::*;
use arrow_schema::{DataType, Field, Fields, TimeUnit};
use serde::{Deserialize, Serialize};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ty {
    Bool,
    I32,
    I64,
    F32,
    F64,
    Str,
    Bin,
    Date,
    TsMs,
    TsUs,
    TimeMs,
    TimeUs,
    Fixed(i32),
    Dec(u8, i8),
    Enum,
    List(Box<Ty>, bool),
    Struct(Vec<(String, Ty, bool)>),
    Map(Box<Ty>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Null,
    Bool(bool),
    I32(i32),
    I64(i64),
    F32(f32),
    F64(f64),
    Str(String),
    Bin(Vec<u8>),
    Dec(i128),
    List(Vec<Val>),
    Struct(Vec<Val>),
    Map(Vec<(String, Val)>),
}

pub const ENUM: [&str; 4] = ["RED", "GREEN", "BLUE", "X"];

const STRS: [&str; 16] = [
    "",
    "a",
    "A",
    "abc",
    "zz",
    "0",
    "-1",
    "null",
    "é",
    "日本語",
    "\u{1F600}x",
    " lead",
    "tail ",
    "tab\there",
    "quote\"'",
    "new\nline",
];

impl Ty {
    pub fn arrow(&self) -> DataType {
        let utc: Arc<str> = "UTC".into();
        match self {
            Ty::Bool => DataType::Boolean,
            Ty::I32 => DataType::Int32,
            Ty::I64 => DataType::Int64,
            Ty::F32 => DataType::Float32,
            Ty::F64 => DataType::Float64,
            Ty::Str | Ty::Enum => DataType::Utf8,
            Ty::Bin => DataType::Binary,
            Ty::Date => DataType::Date32,
            Ty::TsMs => DataType::Timestamp(TimeUnit::Millisecond, Some(utc)),
            Ty::TsUs => DataType::Timestamp(TimeUnit::Microsecond, Some(utc)),
            Ty::TimeMs => DataType::Time32(TimeUnit::Millisecond),
            Ty::TimeUs => DataType::Time64(TimeUnit::Microsecond),
            Ty::Fixed(n) => DataType::FixedSizeBinary(*n),
            Ty::Dec(p, s) => DataType::Decimal128(*p, *s),
            Ty::List(t, n) => DataType::List(Arc::new(Field::new("element", t.arrow(), *n))),
            Ty::Struct(fs) => DataType::Struct(struct_fields(fs)),
            Ty::Map(t) => DataType::Map(
                Arc::new(Field::new(
                    "key_value",
                    DataType::Struct(Fields::from(vec![
                        Field::new("key", DataType::Utf8, false),
                        Field::new("value", t.arrow(), true),
                    ])),
                    false,
                )),
                false,
            ),
        }
    }

    /// Whether the avro reader of the code is expected to represent the type.
    pub fn avro_supported(&self) -> bool {
        match self {
            Ty::Dec(..) | Ty::Map(_) => false,
            Ty::List(t, _) => t.avro_supported(),
            Ty::Struct(fs) => fs.iter().all(|(_, t, _)| t.avro_supported()),
            _ => true,
        }
    }

    pub fn avro(&self, path: &str) -> String {
        match self {
            Ty::Bool => "\"boolean\"".into(),
            Ty::I32 => "\"int\"".into(),
            Ty::I64 => "\"long\"".into(),
            Ty::F32 => "\"float\"".into(),
            Ty::F64 => "\"double\"".into(),
            Ty::Str => "\"string\"".into(),
            Ty::Bin => "\"bytes\"".into(),
            Ty::Date => r#"{"type":"int","logicalType":"date"}"#.into(),
            Ty::TsMs => r#"{"type":"long","logicalType":"timestamp-millis"}"#.into(),
            Ty::TsUs => r#"{"type":"long","logicalType":"timestamp-micros"}"#.into(),
            Ty::TimeMs => r#"{"type":"int","logicalType":"time-millis"}"#.into(),
            Ty::TimeUs => r#"{"type":"long","logicalType":"time-micros"}"#.into(),
            Ty::Fixed(n) => format!(r#"{{"type":"fixed","name":"{path}_fx","size":{n}}}"#),
            Ty::Dec(p, s) => format!(
                r#"{{"type":"fixed","name":"{path}_fx","size":16,"logicalType":"decimal","precision":{p},"scale":{s}}}"#
            ),
            Ty::Enum => format!(
                r#"{{"type":"enum","name":"{path}_en","symbols":["RED","GREEN","BLUE","X"]}}"#
            ),
            Ty::List(t, n) => format!(
                r#"{{"type":"array","items":{}}}"#,
                opt(&t.avro(&format!("{path}_e")), *n)
            ),
            Ty::Struct(fs) => {
                let f: Vec<String> = fs
                    .iter()
                    .map(|(name, t, n)| {
                        format!(
                            r#"{{"name":"{name}","type":{}}}"#,
                            opt(&t.avro(&format!("{path}_{name}")), *n)
                        )
                    })
                    .collect();
                format!(
                    r#"{{"type":"record","name":"{path}_r","fields":[{}]}}"#,
                    f.join(",")
                )
            }
            Ty::Map(t) => format!(
                r#"{{"type":"map","values":{}}}"#,
                opt(&t.avro(&format!("{path}_v")), true)
            ),
        }
    }

    pub fn gen(&self, r: &mut Rng, nullable: bool) -> Val {
        if nullable && r.pm(180) {
            return Val::Null;
        }
        match self {
            Ty::Bool => Val::Bool(r.coin()),
            Ty::I32 => Val::I32(int(r) as i32),
            Ty::I64 => Val::I64(int(r)),
            Ty::F32 => Val::F32(float(r) as f32),
            Ty::F64 => Val::F64(float(r)),
            Ty::Str => Val::Str(string(r)),
            Ty::Bin => Val::Bin((0..r.below(6)).map(|_| r.next() as u8).collect()),
            Ty::Date => Val::I32(*r.pick(&[0, -1, 1, 19723, 2932896, -719162, 20000, 18262])),
            Ty::TsMs => Val::I64(match r.below(4) {
                0 => 0,
                1 => -1,
                2 => 1_700_000_000_123,
                _ => r.range(-60_000_000_000_000, 250_000_000_000_000),
            }),
            Ty::TsUs => Val::I64(match r.below(4) {
                0 => 0,
                1 => -1,
                2 => 1_700_000_000_123_456,
                _ => r.range(-60_000_000_000_000_000, 250_000_000_000_000_000),
            }),
            Ty::TimeMs => Val::I32(r.range(0, 86_399_999) as i32),
            Ty::TimeUs => Val::I64(r.range(0, 86_399_999_999)),
            Ty::Fixed(n) => Val::Bin((0..*n).map(|_| r.next() as u8).collect()),
            Ty::Dec(p, _) => {
                let max = 10i128.pow(*p as u32) - 1;
                Val::Dec(match r.below(4) {
                    0 => 0,
                    1 => max,
                    2 => -max,
                    _ => {
                        ((r.next() as i128).wrapping_mul(r.next() as i128) % (max + 1))
                            * if r.coin() { 1 } else { -1 }
                    }
                })
            }
            Ty::Enum => Val::Str(r.pick(&ENUM).to_string()),
            Ty::List(t, n) => {
                let k = *r.pick(&[0usize, 0, 1, 1, 2, 3]);
                Val::List((0..k).map(|_| t.gen(r, *n)).collect())
            }
            Ty::Struct(fs) => Val::Struct(fs.iter().map(|(_, t, n)| t.gen(r, *n)).collect()),
            Ty::Map(t) => {
                let k = r.below(3);
                Val::Map((0..k).map(|i| (format!("k{i}"), t.gen(r, true))).collect())
            }
        }
    }

    /// A random type; `depth` bounds nesting.
    pub fn random(r: &mut Rng, depth: u32, exotic: bool) -> Ty {
        let n = if depth > 0 { 15 } else { 12 };
        match r.below(n) {
            0 => Ty::Bool,
            1 => Ty::I32,
            2 => Ty::I64,
            3 => Ty::F32,
            4 => Ty::F64,
            5 | 6 => Ty::Str,
            7 => Ty::Bin,
            8 => Ty::Date,
            9 => Ty::TsUs,
            10 => Ty::TsMs,
            11 => {
                if !exotic {
                    return Ty::Str;
                }
                match r.below(6) {
                    0 => Ty::TimeMs,
                    1 => Ty::TimeUs,
                    2 => Ty::Fixed(r.range(1, 5) as i32),
                    3 => Ty::Enum,
                    4 => Ty::Map(Box::new(Ty::random(r, 0, false))),
                    _ => Ty::Dec(*r.pick(&[5, 12, 20, 38]), *r.pick(&[0, 2])),
                }
            }
            12 | 13 => Ty::List(Box::new(Ty::random(r, depth - 1, exotic)), r.coin()),
            _ => {
                let k = r.us(1, 3);
                Ty::Struct(
                    (0..k)
                        .map(|i| (format!("s{i}"), Ty::random(r, depth - 1, exotic), r.coin()))
                        .collect(),
                )
            }
        }
    }
}

fn opt(t: &str, nullable: bool) -> String {
    if nullable {
        format!("[\"null\",{t}]")
    } else {
        t.to_string()
    }
}

pub fn struct_fields(fs: &[(String, Ty, bool)]) -> Fields {
    fs.iter()
        .map(|(n, t, null)| Field::new(n, t.arrow(), *null))
        .collect::<Vec<_>>()
        .into()
}

fn int(r: &mut Rng) -> i64 {
    match r.below(10) {
        0 => 0,
        1 => -1,
        2 => i64::MAX,
        3 => i64::MIN,
        4 => i32::MAX as i64,
        5 => i32::MIN as i64,
        6 => 1 << 31,
        _ => r.range(-1000, 1000),
    }
}
fn float(r: &mut Rng) -> f64 {
    match r.below(10) {
        0 => 0.0,
        1 => -0.0,
        2 => f64::INFINITY,
        3 => f64::NEG_INFINITY,
        4 => f64::NAN,
        5 => f64::MIN_POSITIVE,
        _ => r.range(-1000, 1000) as f64 / 8.0,
    }
}
fn string(r: &mut Rng) -> String {
    if r.pm(30) {
        return "long-".repeat(200);
    }
    r.pick(&STRS).to_string()
}

// ---------------------------------------------------------------- arrow

macro_rules! prim {
    ($t:ty, $v:ident, $vals:expr) => {
        Arc::new(
            $vals
                .iter()
                .map(|v| match v {
                    Val::$v(x) => Some(*x),
                    _ => None,
                })
                .collect::<PrimitiveArray<$t>>(),
        ) as ArrayRef
    };
}

pub fn build_array(ty: &Ty, vals: &[&Val]) -> ArrayRef {
    match ty {
        Ty::Bool => Arc::new(
            vals.iter()
                .map(|v| match v {
                    Val::Bool(b) => Some(*b),
                    _ => None,
                })
                .collect::<BooleanArray>(),
        ),
        Ty::I32 => prim!(Int32Type, I32, vals),
        Ty::I64 => prim!(Int64Type, I64, vals),
        Ty::F32 => prim!(Float32Type, F32, vals),
        Ty::F64 => prim!(Float64Type, F64, vals),
        Ty::Date => prim!(Date32Type, I32, vals),
        Ty::TimeMs => prim!(Time32MillisecondType, I32, vals),
        Ty::TimeUs => prim!(Time64MicrosecondType, I64, vals),
        Ty::TsMs => {
            let a: PrimitiveArray<TimestampMillisecondType> =
                vals.iter().map(|v| i64_of(v)).collect();
            Arc::new(a.with_timezone("UTC"))
        }
        Ty::TsUs => {
            let a: PrimitiveArray<TimestampMicrosecondType> =
                vals.iter().map(|v| i64_of(v)).collect();
            Arc::new(a.with_timezone("UTC"))
        }
        Ty::Str | Ty::Enum => Arc::new(
            vals.iter()
                .map(|v| match v {
                    Val::Str(s) => Some(s.as_str()),
                    _ => None,
                })
                .collect::<StringArray>(),
        ),
        Ty::Bin => {
            let mut b = BinaryBuilder::new();
            for v in vals {
                match v {
                    Val::Bin(x) => b.append_value(x),
                    _ => b.append_null(),
                }
            }
            Arc::new(b.finish())
        }
        Ty::Fixed(n) => {
            let mut b = FixedSizeBinaryBuilder::new(*n);
            for v in vals {
                match v {
                    Val::Bin(x) => b.append_value(x).unwrap(),
                    _ => b.append_null(),
                }
            }
            Arc::new(b.finish())
        }
        Ty::Dec(p, s) => {
            let a: PrimitiveArray<Decimal128Type> = vals
                .iter()
                .map(|v| match v {
                    Val::Dec(d) => Some(*d),
                    _ => None,
                })
                .collect();
            Arc::new(a.with_precision_and_scale(*p, *s).unwrap())
        }
        Ty::List(t, n) => {
            let mut lens = Vec::new();
            let mut flat = Vec::new();
            let mut valid = Vec::new();
            for v in vals {
                match v {
                    Val::List(xs) => {
                        lens.push(xs.len());
                        flat.extend(xs.iter());
                        valid.push(true);
                    }
                    _ => {
                        lens.push(0);
                        valid.push(false);
                    }
                }
            }
            let child = build_array(t, &flat);
            Arc::new(ListArray::new(
                Arc::new(Field::new("element", t.arrow(), *n)),
                OffsetBuffer::from_lengths(lens),
                child,
                Some(NullBuffer::from(valid)),
            ))
        }
        Ty::Struct(fs) => {
            let valid: Vec<bool> = vals.iter().map(|v| matches!(v, Val::Struct(_))).collect();
            let arrays: Vec<ArrayRef> = fs
                .iter()
                .enumerate()
                .map(|(i, (_, t, _))| {
                    let c: Vec<&Val> = vals
                        .iter()
                        .map(|v| match v {
                            Val::Struct(xs) => &xs[i],
                            _ => &Val::Null,
                        })
                        .collect();
                    build_array(t, &c)
                })
                .collect();
            Arc::new(StructArray::new(
                struct_fields(fs),
                arrays,
                Some(NullBuffer::from(valid)),
            ))
        }
        Ty::Map(t) => {
            let mut lens = Vec::new();
            let mut keys = Vec::new();
            let mut flat = Vec::new();
            let mut valid = Vec::new();
            for v in vals {
                match v {
                    Val::Map(xs) => {
                        lens.push(xs.len());
                        for (k, x) in xs {
                            keys.push(k.as_str());
                            flat.push(x);
                        }
                        valid.push(true);
                    }
                    _ => {
                        lens.push(0);
                        valid.push(false);
                    }
                }
            }
            let DataType::Map(entries, _) = ty.arrow() else {
                unreachable!()
            };
            let DataType::Struct(ef) = entries.data_type().clone() else {
                unreachable!()
            };
            let st = StructArray::new(
                ef,
                vec![Arc::new(StringArray::from(keys)), build_array(t, &flat)],
                None,
            );
            Arc::new(MapArray::new(
                entries,
                OffsetBuffer::from_lengths(lens),
                st,
                Some(NullBuffer::from(valid)),
                false,
            ))
        }
    }
}

fn i64_of(v: &Val) -> Option<i64> {
    match v {
        Val::I64(x) => Some(*x),
        _ => None,
    }
}

// ---------------------------------------------------------------- avro

pub fn zigzag(out: &mut Vec<u8>, v: i64) {
    let mut z = ((v << 1) ^ (v >> 63)) as u64;
    loop {
        let b = (z & 0x7f) as u8;
        z >>= 7;
        if z == 0 {
            out.push(b);
            return;
        }
        out.push(b | 0x80);
    }
}

pub fn avro_bytes(out: &mut Vec<u8>, b: &[u8]) {
    zigzag(out, b.len() as i64);
    out.extend_from_slice(b);
}

pub fn avro_encode(out: &mut Vec<u8>, ty: &Ty, nullable: bool, v: &Val) {
    if nullable {
        if *v == Val::Null {
            zigzag(out, 0);
            return;
        }
        zigzag(out, 1);
    }
    match (ty, v) {
        (Ty::Bool, Val::Bool(b)) => out.push(*b as u8),
        (Ty::Enum, Val::Str(s)) => zigzag(out, ENUM.iter().position(|e| e == s).unwrap() as i64),
        (_, Val::I32(x)) => zigzag(out, *x as i64),
        (_, Val::I64(x)) => zigzag(out, *x),
        (_, Val::F32(x)) => out.extend_from_slice(&x.to_le_bytes()),
        (_, Val::F64(x)) => out.extend_from_slice(&x.to_le_bytes()),
        (_, Val::Str(s)) => avro_bytes(out, s.as_bytes()),
        (Ty::Fixed(_), Val::Bin(b)) => out.extend_from_slice(b),
        (_, Val::Bin(b)) => avro_bytes(out, b),
        (_, Val::Dec(d)) => out.extend_from_slice(&d.to_be_bytes()),
        (Ty::List(t, n), Val::List(xs)) => {
            if !xs.is_empty() {
                zigzag(out, xs.len() as i64);
                for x in xs {
                    avro_encode(out, t, *n, x);
                }
            }
            zigzag(out, 0);
        }
        (Ty::Struct(fs), Val::Struct(xs)) => {
            for ((_, t, n), x) in fs.iter().zip(xs) {
                avro_encode(out, t, *n, x);
            }
        }
        (Ty::Map(t), Val::Map(xs)) => {
            if !xs.is_empty() {
                zigzag(out, xs.len() as i64);
                for (k, x) in xs {
                    avro_bytes(out, k.as_bytes());
                    avro_encode(out, t, true, x);
                }
            }
            zigzag(out, 0);
        }
        (t, v) => panic!("harness: cannot encode {v:?} as {t:?}"),
    }
}

// ---------------------------------------------------------------- canonical text

fn esc(s: &str) -> String {
    format!("{s:?}")
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn f32s(x: f32) -> String {
    if x.is_nan() {
        "NaN".into()
    } else {
        format!("{x:?}")
    }
}
fn f64s(x: f64) -> String {
    if x.is_nan() {
        "NaN".into()
    } else {
        format!("{x:?}")
    }
}

pub fn canon(ty: &Ty, v: &Val) -> String {
    match (ty, v) {
        (_, Val::Null) => "~".into(),
        (_, Val::Bool(b)) => b.to_string(),
        (_, Val::I32(x)) => x.to_string(),
        (_, Val::I64(x)) => x.to_string(),
        (_, Val::F32(x)) => f32s(*x),
        (_, Val::F64(x)) => f64s(*x),
        (_, Val::Str(s)) => esc(s),
        (_, Val::Bin(b)) => hex(b),
        (_, Val::Dec(d)) => d.to_string(),
        (Ty::List(t, _), Val::List(xs)) => {
            format!(
                "[{}]",
                xs.iter().map(|x| canon(t, x)).collect::<Vec<_>>().join(",")
            )
        }
        (Ty::Struct(fs), Val::Struct(xs)) => format!(
            "{{{}}}",
            fs.iter()
                .zip(xs)
                .map(|((n, t, _), x)| format!("{n}:{}", canon(t, x)))
                .collect::<Vec<_>>()
                .join(",")
        ),
        (Ty::Map(t), Val::Map(xs)) => format!(
            "<{}>",
            xs.iter()
                .map(|(k, x)| format!("{}:{}", esc(k), canon(t, x)))
                .collect::<Vec<_>>()
                .join(",")
        ),
        (t, v) => panic!("harness: {v:?} is not a {t:?}"),
    }
}

pub fn canon_arrow(a: &dyn Array, i: usize) -> String {
    if a.is_null(i) {
        return "~".into();
    }
    match a.data_type() {
        DataType::Null => "~".into(),
        DataType::Boolean => a.as_boolean().value(i).to_string(),
        DataType::Int32 => a.as_primitive::<Int32Type>().value(i).to_string(),
        DataType::Int64 => a.as_primitive::<Int64Type>().value(i).to_string(),
        DataType::Int16 => a.as_primitive::<Int16Type>().value(i).to_string(),
        DataType::Int8 => a.as_primitive::<Int8Type>().value(i).to_string(),
        DataType::UInt64 => a.as_primitive::<UInt64Type>().value(i).to_string(),
        DataType::UInt32 => a.as_primitive::<UInt32Type>().value(i).to_string(),
        DataType::Float32 => f32s(a.as_primitive::<Float32Type>().value(i)),
        DataType::Float64 => f64s(a.as_primitive::<Float64Type>().value(i)),
        DataType::Date32 => a.as_primitive::<Date32Type>().value(i).to_string(),
        DataType::Time32(TimeUnit::Millisecond) => a
            .as_primitive::<Time32MillisecondType>()
            .value(i)
            .to_string(),
        DataType::Time64(TimeUnit::Microsecond) => a
            .as_primitive::<Time64MicrosecondType>()
            .value(i)
            .to_string(),
        DataType::Timestamp(TimeUnit::Millisecond, _) => a
            .as_primitive::<TimestampMillisecondType>()
            .value(i)
            .to_string(),
        DataType::Timestamp(TimeUnit::Microsecond, _) => a
            .as_primitive::<TimestampMicrosecondType>()
            .value(i)
            .to_string(),
        DataType::Utf8 => esc(a.as_string::<i32>().value(i)),
        DataType::LargeUtf8 => esc(a.as_string::<i64>().value(i)),
        DataType::Utf8View => esc(a.as_string_view().value(i)),
        DataType::Binary => hex(a.as_binary::<i32>().value(i)),
        DataType::LargeBinary => hex(a.as_binary::<i64>().value(i)),
        DataType::BinaryView => hex(a.as_binary_view().value(i)),
        DataType::FixedSizeBinary(_) => hex(a.as_fixed_size_binary().value(i)),
        DataType::Decimal128(_, _) => a.as_primitive::<Decimal128Type>().value(i).to_string(),
        DataType::List(_) => {
            let v = a.as_list::<i32>().value(i);
            format!(
                "[{}]",
                (0..v.len())
                    .map(|k| canon_arrow(v.as_ref(), k))
                    .collect::<Vec<_>>()
                    .join(",")
            )
        }
        DataType::Struct(fs) => {
            let s = a.as_struct();
            format!(
                "{{{}}}",
                fs.iter()
                    .enumerate()
                    .map(|(k, f)| format!("{}:{}", f.name(), canon_arrow(s.column(k).as_ref(), i)))
                    .collect::<Vec<_>>()
                    .join(",")
            )
        }
        DataType::Map(_, _) => {
            let e = a.as_map().value(i);
            format!(
                "<{}>",
                (0..e.len())
                    .map(|k| format!(
                        "{}:{}",
                        canon_arrow(e.column(0).as_ref(), k),
                        canon_arrow(e.column(1).as_ref(), k)
                    ))
                    .collect::<Vec<_>>()
                    .join(",")
            )
        }
        t => format!("?{t:?}"),
    }
}

/// Order of two values of one orderable type, for filters and ordering columns.
pub fn cmp_val(a: &Val, b: &Val) -> std::cmp::Ordering {
    use std::cmp::Ordering::*;
    match (a, b) {
        (Val::Bool(x), Val::Bool(y)) => x.cmp(y),
        (Val::I32(x), Val::I32(y)) => x.cmp(y),
        (Val::I64(x), Val::I64(y)) => x.cmp(y),
        (Val::F64(x), Val::F64(y)) => x.total_cmp(y),
        (Val::F32(x), Val::F32(y)) => x.total_cmp(y),
        (Val::Str(x), Val::Str(y)) => x.as_bytes().cmp(y.as_bytes()),
        (Val::Dec(x), Val::Dec(y)) => x.cmp(y),
        _ => Equal,
    }
}
