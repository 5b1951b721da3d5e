// A minimal writer of Hudi tables on the local file system, for demonstrations.
#![allow(dead_code, unused_imports)]
use arrow_array::*;
use arrow_schema::{DataType, Field, Schema};
use hudi_core::table::{builder::TableBuilder, Table};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::Arc;

pub struct T {
    pub dir: PathBuf,
}
impl Drop for T {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

/// key, ordering value, value, partition value
#[derive(Clone, Debug)]
pub struct R(pub &'static str, pub i64, pub &'static str, pub &'static str);

pub fn schema() -> Arc<Schema> {
    let s = |n: &str| Field::new(n, DataType::Utf8, true);
    Arc::new(Schema::new(vec![
        s("_hoodie_commit_time"),
        s("_hoodie_commit_seqno"),
        s("_hoodie_record_key"),
        s("_hoodie_partition_path"),
        s("_hoodie_file_name"),
        s("id"),
        Field::new("ts", DataType::Int64, true),
        s("v"),
        s("p"),
    ]))
}

pub fn avro_schema() -> String {
    let f: Vec<Value> = schema()
        .fields()
        .iter()
        .map(|f| {
            let t = if f.name() == "ts" { "long" } else { "string" };
            json!({"name": f.name(), "type": ["null", t], "default": null})
        })
        .collect();
    json!({"type": "record", "name": "t", "namespace": "hoodie.t", "fields": f}).to_string()
}

/// (commit time, row)
pub fn batch(rows: &[(&str, R)], part: &str) -> RecordBatch {
    let col = |f: &dyn Fn(usize, &(&str, R)) -> String| {
        Arc::new(StringArray::from_iter_values(rows.iter().enumerate().map(|(i, r)| f(i, r)))) as ArrayRef
    };
    RecordBatch::try_new(
        schema(),
        vec![
            col(&|_, r| r.0.to_string()),
            col(&|i, r| format!("{}_0_{}", r.0, i + 1)),
            col(&|_, r| r.1 .0.to_string()),
            col(&|_, _| part.to_string()),
            col(&|_, _| "f".to_string()),
            col(&|_, r| r.1 .0.to_string()),
            Arc::new(Int64Array::from_iter_values(rows.iter().map(|r| r.1 .1))),
            col(&|_, r| r.1 .2.to_string()),
            col(&|_, r| r.1 .3.to_string()),
        ],
    )
    .unwrap()
}

pub fn parquet(b: &RecordBatch) -> Vec<u8> {
    let mut out = Vec::new();
    let mut w = ::parquet::arrow::ArrowWriter::try_new(&mut out, b.schema(), None).unwrap();
    w.write(b).unwrap();
    w.close().unwrap();
    out
}

pub fn zigzag(out: &mut Vec<u8>, v: i64) {
    let mut z = ((v << 1) ^ (v >> 63)) as u64;
    loop {
        let b = (z & 0x7f) as u8;
        z >>= 7;
        if z == 0 {
            out.push(b);
            return;
        }
        out.push(b | 0x80);
    }
}

pub fn avro(rows: &[(&str, R)], part: &str) -> Vec<u8> {
    let mut out = Vec::new();
    out.extend_from_slice(&3u32.to_be_bytes());
    out.extend_from_slice(&(rows.len() as u32).to_be_bytes());
    for (i, (ct, r)) in rows.iter().enumerate() {
        let mut d = Vec::new();
        let mut s = |d: &mut Vec<u8>, x: &str| {
            zigzag(d, 1);
            zigzag(d, x.len() as i64);
            d.extend_from_slice(x.as_bytes());
        };
        s(&mut d, ct);
        s(&mut d, &format!("{ct}_0_{}", i + 1));
        s(&mut d, r.0);
        s(&mut d, part);
        s(&mut d, "f");
        s(&mut d, r.0);
        zigzag(&mut d, 1);
        zigzag(&mut d, r.1);
        s(&mut d, r.2);
        s(&mut d, r.3);
        out.extend_from_slice(&(d.len() as u32).to_be_bytes());
        out.extend_from_slice(&d);
    }
    out
}

pub fn block(ty: u32, header: &[(u32, &str)], content: &[u8]) -> Vec<u8> {
    let mut b = Vec::new();
    b.extend_from_slice(&1u32.to_be_bytes());
    b.extend_from_slice(&ty.to_be_bytes());
    b.extend_from_slice(&(header.len() as u32).to_be_bytes());
    for (k, v) in header {
        b.extend_from_slice(&k.to_be_bytes());
        b.extend_from_slice(&(v.len() as u32).to_be_bytes());
        b.extend_from_slice(v.as_bytes());
    }
    b.extend_from_slice(&(content.len() as u64).to_be_bytes());
    b.extend_from_slice(content);
    b.extend_from_slice(&0u32.to_be_bytes());
    let len = b.len() as u64 + 8;
    b.extend_from_slice(&(len + 6).to_be_bytes());
    let mut out = b"#HUDI#".to_vec();
    out.extend_from_slice(&len.to_be_bytes());
    out.extend_from_slice(&b);
    out
}

pub fn avro_block(inst: &str, rows: &[(&str, R)], part: &str) -> Vec<u8> {
    block(3, &[(0, inst), (2, &avro_schema())], &avro(rows, part))
}
pub fn parquet_block(inst: &str, rows: &[(&str, R)], part: &str) -> Vec<u8> {
    block(5, &[(0, inst), (2, &avro_schema())], &parquet(&batch(rows, part)))
}
pub fn rollback_block(inst: &str, target: &str) -> Vec<u8> {
    block(0, &[(0, inst), (1, target), (3, "0")], &[])
}

impl T {
    /// `props` come on top of the defaults and replace them.
    pub fn new(props: &[(&str, &str)]) -> T {
        let dir = std::env::temp_dir().join(format!("demo-{}-{:?}", std::process::id(), std::time::Instant::now()).replace(['{', '}', ' ', ':', ','], ""));
        std::fs::create_dir_all(dir.join(".hoodie")).unwrap();
        let t = T { dir };
        let mut m: BTreeMap<&str, &str> = [
            ("hoodie.table.name", "t"),
            ("hoodie.table.type", "MERGE_ON_READ"),
            ("hoodie.table.version", "6"),
            ("hoodie.timeline.layout.version", "1"),
            ("hoodie.table.recordkey.fields", "id"),
            ("hoodie.table.precombine.field", "ts"),
            ("hoodie.table.base.file.format", "PARQUET"),
            ("hoodie.table.timeline.timezone", "UTC"),
            ("hoodie.datasource.write.hive_style_partitioning", "true"),
        ]
        .into();
        m.extend(props.iter().copied());
        let text: String = m.iter().map(|(k, v)| format!("{k}={v}\n")).collect();
        t.put(".hoodie/hoodie.properties", text.as_bytes());
        t
    }
    pub fn put(&self, rel: &str, data: &[u8]) {
        let p = self.dir.join(rel);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, data).unwrap();
    }
    pub fn del(&self, rel: &str) {
        std::fs::remove_file(self.dir.join(rel)).unwrap();
    }
    pub fn append(&self, rel: &str, data: &[u8]) {
        let mut d = std::fs::read(self.dir.join(rel)).unwrap_or_default();
        d.extend_from_slice(data);
        self.put(rel, &d);
    }
    /// Writes a base file, returns its relative path.
    pub fn base(&self, part: &str, id: &str, inst: &str, rows: &[(&str, R)]) -> String {
        if !part.is_empty() {
            self.put(&format!("{part}/.hoodie_partition_metadata"), b"depth=1\n");
        }
        let rel = join(part, &format!("{id}_0-1-1_{inst}.parquet"));
        self.put(&rel, &parquet(&batch(rows, part)));
        rel
    }
    pub fn log(&self, part: &str, id: &str, base: &str, n: u32, data: &[u8]) -> String {
        let rel = join(part, &format!(".{id}_{base}.log.{n}_0-1-1"));
        self.append(&rel, data);
        rel
    }
    /// `files`: (partition, file id, path, log?); `replaced`: (partition, file id)
    pub fn meta(&self, files: &[(&str, &str, String, bool)], replaced: &[(&str, &str)]) -> String {
        let mut st: BTreeMap<&str, Vec<Value>> = BTreeMap::new();
        for (part, id, path, log) in files {
            let mut s = json!({
                "fileId": id, "path": path, "prevCommit": "null", "numWrites": 1, "numDeletes": 0,
                "numUpdateWrites": 0, "numInserts": 1, "totalWriteBytes": 1, "totalWriteErrors": 0,
                "partitionPath": part, "totalLogRecords": 0, "fileSizeInBytes": 1
            });
            if *log {
                let f = path.rsplit('/').next().unwrap();
                let base = f.split('.').nth(1).unwrap().rsplit_once('_').unwrap().1;
                s["baseFile"] = json!(format!("{id}_0-1-1_{base}.parquet"));
                s["logFiles"] = json!([f]);
            }
            st.entry(part).or_default().push(s);
        }
        let mut m = Map::new();
        m.insert("partitionToWriteStats".into(), json!(st));
        m.insert("compacted".into(), json!(false));
        m.insert("extraMetadata".into(), json!({"schema": avro_schema()}));
        m.insert("operationType".into(), json!("UPSERT"));
        if !replaced.is_empty() {
            let mut r: BTreeMap<&str, Vec<&str>> = BTreeMap::new();
            for (p, id) in replaced {
                r.entry(p).or_default().push(id);
            }
            m.insert("partitionToReplaceFileIds".into(), json!(r));
        }
        Value::Object(m).to_string()
    }
    pub fn commit(&self, inst: &str, action: &str, files: &[(&str, &str, String, bool)], replaced: &[(&str, &str)]) {
        let m = self.meta(files, replaced);
        self.put(&format!(".hoodie/{inst}.{action}.requested"), b"");
        self.put(&format!(".hoodie/{inst}.{action}.inflight"), b"");
        self.put(&format!(".hoodie/{inst}.{action}"), m.as_bytes());
    }
    pub fn uri(&self) -> String {
        format!("file://{}", self.dir.display())
    }
    pub async fn open(&self) -> Table {
        Table::new(&self.uri()).await.unwrap()
    }
    pub async fn open_with(&self, o: &[(&str, &str)]) -> Table {
        TableBuilder::from_base_uri(&self.uri())
            .with_options(o.iter().map(|(a, b)| (a.to_string(), b.to_string())))
            .build()
            .await
            .unwrap()
    }
}

pub fn join(part: &str, f: &str) -> String {
    if part.is_empty() {
        f.to_string()
    } else {
        format!("{part}/{f}")
    }
}

/// Sorted "key=value" of the rows.
pub fn kv(batches: &[RecordBatch]) -> Vec<String> {
    let mut out = vec![];
    for b in batches {
        let s = |n: &str| {
            let c = arrow_cast::cast(b.column_by_name(n).unwrap(), &DataType::Utf8).unwrap();
            (0..c.len()).map(|i| c.as_any().downcast_ref::<StringArray>().unwrap().value(i).to_string()).collect::<Vec<_>>()
        };
        let (k, v) = (s("id"), s("v"));
        out.extend(k.into_iter().zip(v).map(|(k, v)| format!("{k}={v}")));
    }
    out.sort();
    out
}

pub fn rt<F: std::future::Future<Output = ()>>(f: F) {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(f)
}
