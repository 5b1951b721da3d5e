//! Table layout: schemas, partition paths, parquet base files, log blocks, properties.

use crate::rng::Rng;
use crate::types::*;
use arrow_array::{ArrayRef, RecordBatch, StringArray};
use arrow_schema::{DataType, Field, Schema, SchemaRef};
use parquet::arrow::arrow_writer::ArrowWriterOptions;
use parquet::arrow::ArrowWriter;
use parquet::file::properties::WriterProperties;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::Arc;

pub const META: [&str; 5] = [
    "_hoodie_commit_time",
    "_hoodie_commit_seqno",
    "_hoodie_record_key",
    "_hoodie_partition_path",
    "_hoodie_file_name",
];
pub const DEFAULT_PARTITION: &str = "__HIVE_DEFAULT_PARTITION__";

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Col {
    pub name: String,
    pub ty: Ty,
    pub nullable: bool,
    /// Schema version that added it.
    pub since: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TableSpec {
    pub mor: bool,
    pub version: u32,
    pub base: String,
    /// Includes `id`, the ordering column and the partition columns, in file order.
    pub cols: Vec<Col>,
    pub ord: Option<String>,
    pub strategy: Option<String>,
    /// Partition fields in configured order.
    pub parts: Vec<String>,
    pub pool_seed: u64,
    pub pool_size: u32,
    pub hive: bool,
    pub urlenc: bool,
    /// Leave the two properties above out when false.
    pub explicit_style: bool,
    pub nonpart_keygen: bool,
    pub populate_meta: bool,
    /// POSIX TZ when the timeline is in local time.
    pub tz: Option<String>,
    /// Wall clock of the first instant.
    pub epoch_ms: i64,
    /// So many first instants have second precision.
    pub short_ts: u32,
    /// 0 avro, 1 parquet, 2 both.
    pub log_fmt: u32,
    pub log_append: bool,
    pub rg_rows: u32,
    /// Some writes have up to this many rows.
    #[serde(default)]
    pub bulk: u32,
    pub arrow_meta: bool,
    pub extra_props: Vec<(String, String)>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Row {
    pub key: String,
    pub part: String,
    pub ct: String,
    pub seq: String,
    pub vals: Vec<Val>,
    /// Canonical text.
    pub text: String,
}

pub type Rows = Vec<Rc<Row>>;

impl TableSpec {
    pub fn append_only(&self) -> bool {
        match &self.strategy {
            Some(s) => s == "append_only",
            None => self.ord.is_none() || !self.populate_meta,
        }
    }
    pub fn partitioned(&self) -> bool {
        !self.parts.is_empty() && !self.nonpart_keygen
    }
    pub fn cols_at(&self, ver: u32) -> impl Iterator<Item = &Col> {
        self.cols.iter().filter(move |c| c.since <= ver)
    }
    pub fn max_ver(&self) -> u32 {
        self.cols.iter().map(|c| c.since).max().unwrap_or(0)
    }
    pub fn col(&self, name: &str) -> usize {
        self.cols
            .iter()
            .position(|c| c.name == name)
            .expect("column")
    }
    pub fn arrow_schema(&self, ver: u32) -> SchemaRef {
        let mut f: Vec<Field> = META
            .iter()
            .map(|m| Field::new(*m, DataType::Utf8, true))
            .collect();
        f.extend(
            self.cols_at(ver)
                .map(|c| Field::new(&c.name, c.ty.arrow(), c.nullable)),
        );
        Arc::new(Schema::new(f))
    }
    pub fn avro_schema(&self, ver: u32, with_meta: bool) -> String {
        let mut f: Vec<String> = Vec::new();
        if with_meta {
            for m in META {
                f.push(format!(
                    r#"{{"name":"{m}","type":["null","string"],"doc":"","default":null}}"#
                ));
            }
        }
        for c in self.cols_at(ver) {
            let t = c.ty.avro(&format!("tbl_{}", c.name));
            f.push(if c.nullable {
                format!(
                    r#"{{"name":"{}","type":["null",{t}],"default":null}}"#,
                    c.name
                )
            } else {
                format!(r#"{{"name":"{}","type":{t}}}"#, c.name)
            });
        }
        format!(
            r#"{{"type":"record","name":"tbl_record","namespace":"hoodie.tbl","fields":[{}]}}"#,
            f.join(",")
        )
    }

    /// The values a partition field takes.
    pub fn pool(&self, field: &str) -> Vec<Val> {
        let c = &self.cols[self.col(field)];
        let mut r = Rng::new(self.pool_seed ^ crate::rng::hash_str(field));
        let all: Vec<Val> = match c.ty {
            Ty::Bool => vec![Val::Bool(false), Val::Bool(true)],
            Ty::I32 => [10, 9, 100, -5, 0, 20, 2147483647]
                .iter()
                .map(|x| Val::I32(*x))
                .collect(),
            Ty::I64 => [10i64, 9, 100, -5, 0, 5_000_000_000]
                .iter()
                .map(|x| Val::I64(*x))
                .collect(),
            Ty::Date => [19723, 19724, 19754, 0, -1]
                .iter()
                .map(|x| Val::I32(*x))
                .collect(),
            Ty::F64 => [1.5, 10.25, -2.0, 0.0]
                .iter()
                .map(|x| Val::F64(*x))
                .collect(),
            _ => {
                let plain = [
                    "a",
                    "b",
                    "B",
                    "10",
                    "9",
                    "x y",
                    "é",
                    "2024-01-01",
                    "v.1",
                    "under_score",
                    "-",
                    "日本",
                    "a+b",
                    "~t",
                    "p&q",
                    "c;d",
                    "(1)",
                    "it's",
                    "true",
                    "x,y",
                ];
                let odd = [
                    "a/b", "50%", "k=v", "a:b", "q?", "%41", "#1", "[z]", "a%2Fb", "\\",
                ];
                let mut v: Vec<&str> = plain.to_vec();
                if self.urlenc {
                    v.extend(odd);
                } else {
                    v.extend(["50%", "%41", "#1", "a:b", "q?"]);
                    if self.hive {
                        v.push("k=v");
                    }
                }
                v.iter().map(|s| Val::Str(s.to_string())).collect()
            }
        };
        let mut all = all;
        r.shuffle(&mut all);
        all.truncate(self.pool_size as usize);
        if c.nullable && r.coin() {
            all.push(Val::Null);
        }
        all
    }

    fn part_text(&self, v: &Val) -> String {
        match v {
            Val::Null => DEFAULT_PARTITION.to_string(),
            Val::Str(s) if s.is_empty() => DEFAULT_PARTITION.to_string(),
            Val::Str(s) => {
                if self.urlenc {
                    hudi_escape(s)
                } else {
                    s.clone()
                }
            }
            Val::Bool(b) => b.to_string(),
            Val::I64(x) => x.to_string(),
            Val::F64(x) => format!("{x:?}"),
            _ => unreachable!("partition value {v:?}"),
        }
    }
    pub fn part_seg(&self, field: &str, v: &Val) -> String {
        let c = &self.cols[self.col(field)];
        let t = match (&c.ty, v) {
            (_, Val::Null) => DEFAULT_PARTITION.to_string(),
            (Ty::Date, Val::I32(d)) => date_text(*d),
            (_, Val::I32(x)) => x.to_string(),
            _ => self.part_text(v),
        };
        if self.hive {
            format!("{field}={t}")
        } else {
            t
        }
    }
    pub fn part_path(&self, vals: &BTreeMap<String, Val>) -> String {
        if !self.partitioned() {
            return String::new();
        }
        self.parts
            .iter()
            .map(|f| self.part_seg(f, &vals[f]))
            .collect::<Vec<_>>()
            .join("/")
    }

    pub fn properties(&self) -> String {
        let mut p: Vec<(String, String)> = vec![
            ("hoodie.table.name".into(), "tbl".into()),
            (
                "hoodie.table.type".into(),
                if self.mor {
                    "MERGE_ON_READ"
                } else {
                    "COPY_ON_WRITE"
                }
                .into(),
            ),
            ("hoodie.table.version".into(), self.version.to_string()),
            ("hoodie.timeline.layout.version".into(), "1".into()),
            ("hoodie.table.base.file.format".into(), "PARQUET".into()),
            ("hoodie.table.recordkey.fields".into(), "id".into()),
            ("hoodie.archivelog.folder".into(), "archived".into()),
            ("hoodie.table.checksum".into(), "3349344564".into()),
            (
                "hoodie.populate.meta.fields".into(),
                self.populate_meta.to_string(),
            ),
            (
                "hoodie.datasource.write.drop.partition.columns".into(),
                "false".into(),
            ),
        ];
        if !self.parts.is_empty() {
            p.push(("hoodie.table.partition.fields".into(), self.parts.join(",")));
        }
        if self.explicit_style {
            p.push((
                "hoodie.datasource.write.hive_style_partitioning".into(),
                self.hive.to_string(),
            ));
            p.push((
                "hoodie.datasource.write.partitionpath.urlencode".into(),
                self.urlenc.to_string(),
            ));
        }
        if self.nonpart_keygen {
            p.push((
                "hoodie.table.keygenerator.class".into(),
                "org.apache.hudi.keygen.NonpartitionedKeyGenerator".into(),
            ));
        } else {
            p.push((
                "hoodie.table.keygenerator.class".into(),
                "org.apache.hudi.keygen.ComplexKeyGenerator".into(),
            ));
        }
        if let Some(o) = &self.ord {
            p.push(("hoodie.table.precombine.field".into(), o.clone()));
        }
        if let Some(s) = &self.strategy {
            p.push(("hoodie.table.record.merge.strategy".into(), s.clone()));
        }
        if self.tz.is_some() {
            p.push(("hoodie.table.timeline.timezone".into(), "LOCAL".into()));
        } else if self.pool_seed & 1 == 1 {
            p.push(("hoodie.table.timeline.timezone".into(), "UTC".into()));
        }
        p.extend(self.extra_props.clone());
        let mut s =
            String::from("#Updated at 2024-04-01T00:00:00Z\n#Mon Apr 01 00:00:00 UTC 2024\n");
        for (k, v) in p {
            s.push_str(&format!("{k}={v}\n"));
        }
        s
    }

    pub fn canon_row(&self, row: &Row) -> String {
        let mut s = if self.populate_meta {
            format!("{}|{}|{}|{}", row.ct, row.seq, row.key, row.part)
        } else {
            "~|~|~|~".to_string()
        };
        for (i, c) in self.cols.iter().enumerate() {
            s.push('|');
            s.push_str(&c.name);
            s.push('=');
            match row.vals.get(i) {
                Some(v) => s.push_str(&canon(&c.ty, v)),
                None => s.push('~'),
            }
        }
        s
    }

    /// Canonical rows of a result, checking column names and types.
    pub fn canon_batches(&self, batches: &[RecordBatch]) -> Result<Vec<String>, String> {
        let mut out = Vec::new();
        for b in batches {
            let schema = b.schema();
            for f in schema.fields() {
                if META.contains(&f.name().as_str()) {
                    if f.data_type() != &DataType::Utf8 {
                        return Err(format!("column {} has type {}", f.name(), f.data_type()));
                    }
                    continue;
                }
                let Some(c) = self.cols.iter().find(|c| &c.name == f.name()) else {
                    return Err(format!("unexpected column {}", f.name()));
                };
                if !same_type(&c.ty.arrow(), f.data_type()) {
                    return Err(format!(
                        "column {} has type {:?}, expected {:?}",
                        c.name,
                        f.data_type(),
                        c.ty.arrow()
                    ));
                }
            }
            let names: std::collections::BTreeSet<&String> =
                schema.fields().iter().map(|f| f.name()).collect();
            if names.len() != schema.fields().len() {
                return Err("duplicate column".to_string());
            }
            for m in META {
                if b.column_by_name(m).is_none() {
                    return Err(format!("column {m} is missing"));
                }
            }
            for c in self.cols.iter().filter(|c| c.since == 0) {
                if b.column_by_name(&c.name).is_none() {
                    return Err(format!("column {} is missing", c.name));
                }
            }
            let txt = |name: &str, i: usize| -> String {
                let a = b.column_by_name(name).unwrap();
                if a.is_null(i) {
                    "~".to_string()
                } else {
                    a.as_any()
                        .downcast_ref::<StringArray>()
                        .unwrap()
                        .value(i)
                        .to_string()
                }
            };
            for i in 0..b.num_rows() {
                let mut s = format!(
                    "{}|{}|{}|{}",
                    txt(META[0], i),
                    txt(META[1], i),
                    txt(META[2], i),
                    txt(META[3], i)
                );
                for c in &self.cols {
                    s.push('|');
                    s.push_str(&c.name);
                    s.push('=');
                    match b.column_by_name(&c.name) {
                        Some(a) => s.push_str(&canon_arrow(a.as_ref(), i)),
                        None => s.push('~'),
                    }
                }
                out.push(s);
            }
        }
        Ok(out)
    }

    fn batch(&self, ver: u32, rows: &[Rc<Row>], file: &str, with_meta: bool) -> RecordBatch {
        let meta = |f: &dyn Fn(&Row) -> String| -> ArrayRef {
            Arc::new(
                rows.iter()
                    .map(|r| self.populate_meta.then(|| f(r)))
                    .collect::<StringArray>(),
            )
        };
        let mut arrays: Vec<ArrayRef> = Vec::new();
        if with_meta {
            arrays.push(meta(&|r| r.ct.clone()));
            arrays.push(meta(&|r| r.seq.clone()));
            arrays.push(meta(&|r| r.key.clone()));
            arrays.push(meta(&|r| r.part.clone()));
            arrays.push(meta(&|_| file.to_string()));
        }
        for (i, c) in self.cols.iter().enumerate().filter(|(_, c)| c.since <= ver) {
            let vals: Vec<&Val> = rows
                .iter()
                .map(|r| r.vals.get(i).unwrap_or(&Val::Null))
                .collect();
            arrays.push(build_array(&c.ty, &vals));
        }
        RecordBatch::try_new(self.arrow_schema(ver), arrays).expect("harness batch")
    }

    pub fn parquet(&self, ver: u32, rows: &[Rc<Row>], file: &str) -> Vec<u8> {
        let b = self.batch(ver, rows, file, true);
        let props = WriterProperties::builder()
            .set_max_row_group_size(self.rg_rows.max(1) as usize)
            .set_created_by("parquet-mr version 1.10.1".to_string())
            .build();
        let opts = ArrowWriterOptions::new()
            .with_properties(props)
            .with_skip_arrow_metadata(!self.arrow_meta);
        let mut w =
            ArrowWriter::try_new_with_options(Vec::new(), b.schema(), opts).expect("writer");
        w.write(&b).expect("write");
        w.into_inner().expect("close")
    }

    pub fn avro_content(&self, ver: u32, rows: &[Rc<Row>], file: &str) -> Vec<u8> {
        let mut out = Vec::new();
        out.extend_from_slice(&3u32.to_be_bytes());
        out.extend_from_slice(&(rows.len() as u32).to_be_bytes());
        for row in rows {
            let mut d = Vec::new();
            for m in [&row.ct, &row.seq, &row.key, &row.part, &file.to_string()] {
                if self.populate_meta {
                    zigzag(&mut d, 1);
                    avro_bytes(&mut d, m.as_bytes());
                } else {
                    zigzag(&mut d, 0);
                }
            }
            for (i, c) in self.cols.iter().enumerate().filter(|(_, c)| c.since <= ver) {
                avro_encode(
                    &mut d,
                    &c.ty,
                    c.nullable,
                    row.vals.get(i).unwrap_or(&Val::Null),
                );
            }
            out.extend_from_slice(&(d.len() as u32).to_be_bytes());
            out.extend_from_slice(&d);
        }
        out
    }

    /// One data block.
    pub fn data_block(
        &self,
        inst: &str,
        ver: u32,
        rows: &[Rc<Row>],
        file: &str,
        avro: bool,
    ) -> Vec<u8> {
        let schema = self.avro_schema(ver, true);
        let header = [(0u32, inst.to_string()), (2u32, schema)];
        if avro {
            block(3, &header, &self.avro_content(ver, rows, file))
        } else {
            block(5, &header, &self.parquet(ver, rows, file))
        }
    }
}

/// Equal up to the nullability and naming of list elements.
pub fn same_type(a: &DataType, b: &DataType) -> bool {
    match (a, b) {
        (DataType::List(x), DataType::List(y)) => same_type(x.data_type(), y.data_type()),
        (DataType::Struct(x), DataType::Struct(y)) => {
            x.len() == y.len()
                && x.iter()
                    .zip(y.iter())
                    .all(|(p, q)| p.name() == q.name() && same_type(p.data_type(), q.data_type()))
        }
        (DataType::Map(x, _), DataType::Map(y, _)) => match (x.data_type(), y.data_type()) {
            (DataType::Struct(x), DataType::Struct(y)) => x
                .iter()
                .zip(y.iter())
                .all(|(p, q)| same_type(p.data_type(), q.data_type())),
            _ => false,
        },
        _ => a == b,
    }
}

pub fn date_text(d: i32) -> String {
    (chrono::NaiveDate::from_ymd_opt(1970, 1, 1).unwrap() + chrono::Duration::days(d as i64))
        .format("%Y-%m-%d")
        .to_string()
}

/// Hudi's PartitionPathEncodeUtils.escapePathName.
pub fn hudi_escape(s: &str) -> String {
    let mut out = String::new();
    for c in s.chars() {
        if (c as u32) < 0x20 || "\"#%'*/:=?\\\u{7f}{[]^".contains(c) {
            out.push_str(&format!("%{:02X}", c as u32));
        } else {
            out.push(c);
        }
    }
    out
}

/// A log block in format version 1.
pub fn block(ty: u32, header: &[(u32, String)], content: &[u8]) -> Vec<u8> {
    let mut b = Vec::new();
    b.extend_from_slice(&1u32.to_be_bytes());
    b.extend_from_slice(&ty.to_be_bytes());
    b.extend_from_slice(&(header.len() as u32).to_be_bytes());
    for (k, v) in header {
        b.extend_from_slice(&k.to_be_bytes());
        b.extend_from_slice(&(v.len() as u32).to_be_bytes());
        b.extend_from_slice(v.as_bytes());
    }
    b.extend_from_slice(&(content.len() as u64).to_be_bytes());
    b.extend_from_slice(content);
    b.extend_from_slice(&0u32.to_be_bytes());
    let len = b.len() as u64 + 8;
    b.extend_from_slice(&(len + 6).to_be_bytes());
    let mut out = b"#HUDI#".to_vec();
    out.extend_from_slice(&len.to_be_bytes());
    out.extend_from_slice(&b);
    out
}

pub fn rollback_block(inst: &str, target: &str) -> Vec<u8> {
    block(
        0,
        &[
            (0, inst.to_string()),
            (1, target.to_string()),
            (3, "0".to_string()),
        ],
        &[],
    )
}
