//! The same calls through the Python binding and through the Rust API, and their comparison.

use crate::sched;
use arrow::pyarrow::FromPyArrow;
use arrow_array::RecordBatch;
use arrow_schema::Schema;
use hsim::plan::ROp;
use hsim::reader::{v, Shared, Violation};
use hsim::rng::{hash, Rng};
use hsim::store::FaultKind;
use hsim::types::canon_arrow;
use hudi_core::file_group::file_slice::FileSlice;
use hudi_core::file_group::reader::FileGroupReader;
use hudi_core::table::builder::TableBuilder;
use hudi_core::table::Table;
use hudi_core::timeline::instant::Instant;
use pyo3::prelude::*;
use pyo3::types::{PyDict, PyList};
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};

/// What a call gave, in an order-free form where no order is promised.
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Lines(Vec<String>),
    Err(String),
    /// Something other than the binding's exception.
    Other(String),
}

const REFERENCE: u32 = 888_888;

type Opts = Vec<(String, String)>;

/// How a table is made.
#[derive(Clone, Debug)]
enum How {
    Plain,
    Options(Opts),
    Builder {
        hudi: Opts,
        storage: Opts,
        any: Opts,
        one_by_one: bool,
    },
}

/// A call, with everything resolved.
#[derive(Clone, Debug)]
enum Call {
    Snapshot(Option<Filters>),
    AsOf(String, Option<Filters>),
    Incr(String, Option<String>),
    Slices {
        t: Option<String>,
        filters: Option<Filters>,
        split: Option<usize>,
        read: u32,
    },
    Between(Option<String>, Option<String>),
    Schema,
    Avro,
    Part,
    Timeline,
    Kind(u32, bool),
    Props,
}

type Filters = Vec<(String, String, String)>;

fn schema_text(s: &Schema) -> String {
    let meta: BTreeMap<_, _> = s.metadata().iter().collect();
    let f: Vec<String> = s
        .fields()
        .iter()
        .map(|f| {
            let m: BTreeMap<_, _> = f.metadata().iter().collect();
            // pyarrow has its own name for the entries of maps
            let ty = format!("{:?}", f.data_type()).replace(
                "Map(Field { name: \"key_value\"",
                "Map(Field { name: \"entries\"",
            );
            format!("{}:{ty}:{}:{m:?}", f.name(), f.is_nullable())
        })
        .collect();
    format!("{} {meta:?}", f.join(","))
}

/// The rows, and the schemas they come with.
fn rows_text(bs: &[RecordBatch]) -> Vec<String> {
    let mut out = Vec::new();
    for b in bs {
        out.push(format!("schema {}", schema_text(&b.schema())));
        for i in 0..b.num_rows() {
            let r: Vec<String> = b
                .columns()
                .iter()
                .map(|c| canon_arrow(c.as_ref(), i))
                .collect();
            out.push(r.join("|"));
        }
    }
    out.sort();
    out
}

fn opt_map(o: &Opts) -> HashMap<String, String> {
    o.iter().cloned().collect()
}

fn map_text(m: HashMap<String, String>) -> Vec<String> {
    let mut v: Vec<String> = m.into_iter().map(|(k, v)| format!("{k}={v}")).collect();
    v.sort();
    v
}

// ---------------------------------------------------------------- Rust

type Res = Result<Vec<String>, String>;

fn e(x: impl std::fmt::Display) -> String {
    x.to_string()
}

async fn rust_open(url: &str, how: &How) -> Result<Table, String> {
    match how {
        How::Plain => Table::new(url).await.map_err(e),
        How::Options(o) => Table::new_with_options(url, opt_map(o)).await.map_err(e),
        How::Builder {
            hudi, storage, any, ..
        } => TableBuilder::from_base_uri(url)
            .with_hudi_options(opt_map(hudi))
            .with_storage_options(opt_map(storage))
            .with_options(opt_map(any))
            .build()
            .await
            .map_err(e),
    }
}

fn slice_text(f: &FileSlice) -> Result<String, String> {
    let m = f.base_file.file_metadata.clone().unwrap_or_default();
    let logs: Vec<String> = f.log_files.iter().map(|l| l.file_name()).collect();
    let paths: Result<Vec<String>, _> = f
        .log_files
        .iter()
        .map(|l| f.log_file_relative_path(l))
        .collect();
    Ok(format!(
        "{} {:?} {} {} {} {} {} {logs:?} {} {:?}",
        f.file_id(),
        f.partition_path,
        f.creation_instant_time(),
        f.base_file.file_name(),
        m.size,
        m.byte_size,
        m.num_records,
        f.base_file_relative_path().map_err(e)?,
        paths.map_err(e)?
    ))
}

fn instant_text(i: &Instant) -> String {
    format!(
        "{} {} {} {}",
        i.timestamp,
        i.action.as_ref(),
        i.state.as_ref(),
        i.epoch_millis
    )
}

fn strs(f: &Option<Filters>) -> Vec<(&str, &str, &str)> {
    f.iter()
        .flatten()
        .map(|(a, b, c)| (a.as_str(), b.as_str(), c.as_str()))
        .collect()
}

async fn rust_call(t: &Table, url: &str, opts: &Opts, c: &Call) -> Res {
    match c {
        Call::Snapshot(f) => Ok(rows_text(&t.read_snapshot(&strs(f)).await.map_err(e)?)),
        Call::AsOf(ts, f) => Ok(rows_text(
            &t.read_snapshot_as_of(ts, &strs(f)).await.map_err(e)?,
        )),
        Call::Incr(a, b) => Ok(rows_text(
            &t.read_incremental_records(a, b.as_deref())
                .await
                .map_err(e)?,
        )),
        Call::Slices {
            t: ts,
            filters,
            split,
            read,
        } => {
            let f = strs(filters);
            let groups: Vec<Vec<FileSlice>> = match (ts, split) {
                (None, None) => vec![t.get_file_slices(&f).await.map_err(e)?],
                (Some(ts), None) => vec![t.get_file_slices_as_of(ts, &f).await.map_err(e)?],
                (None, Some(n)) => t.get_file_slices_splits(*n, &f).await.map_err(e)?,
                (Some(ts), Some(n)) => t
                    .get_file_slices_splits_as_of(*n, ts, &f)
                    .await
                    .map_err(e)?,
            };
            let mut out = vec![format!(
                "groups {:?}",
                groups.iter().map(|g| g.len()).collect::<Vec<_>>()
            )];
            let slices: Vec<&FileSlice> = groups.iter().flatten().collect();
            for s in &slices {
                out.push(slice_text(s)?);
            }
            if *read > 0 {
                let rd = match read {
                    2 => FileGroupReader::new_with_options(url, opt_map(opts)).map_err(e)?,
                    _ => t
                        .create_file_group_reader_with_options(opt_map(opts))
                        .map_err(e)?,
                };
                for s in slices {
                    let b = match read {
                        3 => rd
                            .read_file_slice_by_base_file_path(
                                &s.base_file_relative_path().map_err(e)?,
                            )
                            .await
                            .map_err(e)?,
                        _ => rd.read_file_slice(s).await.map_err(e)?,
                    };
                    out.extend(rows_text(&[b]));
                }
            }
            out.sort();
            Ok(out)
        }
        Call::Between(a, b) => {
            let l = t
                .get_file_slices_between(a.as_deref(), b.as_deref())
                .await
                .map_err(e)?;
            let mut out = l.iter().map(slice_text).collect::<Result<Vec<_>, _>>()?;
            out.sort();
            Ok(out)
        }
        Call::Schema => Ok(vec![schema_text(&t.get_schema().await.map_err(e)?)]),
        Call::Avro => Ok(vec![t.get_avro_schema().await.map_err(e)?]),
        Call::Part => Ok(vec![schema_text(
            &t.get_partition_schema().await.map_err(e)?,
        )]),
        Call::Timeline => {
            let tl = t.get_timeline();
            Ok(vec![
                tl.get_latest_commit_timestamp().map_err(e)?,
                tl.get_latest_avro_schema().await.map_err(e)?,
                schema_text(&tl.get_latest_schema().await.map_err(e)?),
            ])
        }
        Call::Kind(k, desc) => {
            let tl = t.get_timeline();
            let l = match k {
                0 => tl.get_completed_commits(*desc).await,
                1 => tl.get_completed_deltacommits(*desc).await,
                2 => tl.get_completed_replacecommits(*desc).await,
                _ => tl.get_completed_clustering_commits(*desc).await,
            }
            .map_err(e)?;
            let mut out: Vec<String> = l.iter().map(instant_text).collect();
            for i in &l {
                out.push(tl.get_instant_metadata_in_json(i).await.map_err(e)?);
            }
            Ok(out)
        }
        Call::Props => {
            let mut out = map_text(t.hudi_options());
            out.push("--".into());
            out.extend(map_text(t.storage_options()));
            out.push(format!(
                "{} {} {} {}",
                t.table_name(),
                t.table_type(),
                t.is_mor(),
                t.timezone()
            ));
            Ok(out)
        }
    }
}

// ---------------------------------------------------------------- Python

fn dict<'p>(py: Python<'p>, o: &Opts) -> PyResult<Bound<'p, PyDict>> {
    let d = PyDict::new(py);
    for (k, v) in o {
        d.set_item(k, v)?;
    }
    Ok(d)
}

fn py_open(py: Python, url: &str, how: &How) -> PyResult<PyObject> {
    let m = py.import("hudi")?;
    Ok(match how {
        How::Plain => m.getattr("HudiTable")?.call1((url,))?,
        How::Options(o) => m.getattr("HudiTable")?.call1((url, dict(py, o)?))?,
        How::Builder {
            hudi,
            storage,
            any,
            one_by_one,
        } => {
            let mut b = m
                .getattr("HudiTableBuilder")?
                .call_method1("from_base_uri", (url,))?;
            for (name, o) in [
                ("hudi_option", hudi),
                ("storage_option", storage),
                ("option", any),
            ] {
                if *one_by_one {
                    for (k, v) in o {
                        b = b.call_method1(format!("with_{name}").as_str(), (k, v))?;
                    }
                } else if !o.is_empty() {
                    b = b.call_method1(format!("with_{name}s").as_str(), (dict(py, o)?,))?;
                }
            }
            b.call_method0("build")?
        }
    }
    .unbind())
}

fn batches(x: &Bound<PyAny>) -> PyResult<Vec<RecordBatch>> {
    let l = x.downcast::<PyList>()?;
    l.iter()
        .map(|b| RecordBatch::from_pyarrow_bound(&b))
        .collect()
}

fn schema(x: &Bound<PyAny>) -> PyResult<String> {
    Ok(schema_text(&Schema::from_pyarrow_bound(x)?))
}

fn py_slice(f: &Bound<PyAny>) -> PyResult<String> {
    let s = |k: &str| -> PyResult<String> { f.getattr(k)?.extract() };
    let n = |k: &str| -> PyResult<i64> { f.getattr(k)?.extract() };
    let logs: Vec<String> = f.getattr("log_file_names")?.extract()?;
    let paths: Vec<String> = f.call_method0("log_files_relative_paths")?.extract()?;
    let base: String = f.call_method0("base_file_relative_path")?.extract()?;
    Ok(format!(
        "{} {:?} {} {} {} {} {} {logs:?} {base} {paths:?}",
        s("file_id")?,
        s("partition_path")?,
        s("creation_instant_time")?,
        s("base_file_name")?,
        n("base_file_size")?,
        n("base_file_byte_size")?,
        n("num_records")?,
    ))
}

fn py_instant(i: &Bound<PyAny>) -> PyResult<String> {
    Ok(format!(
        "{} {} {} {}",
        i.getattr("timestamp")?.extract::<String>()?,
        i.getattr("action")?.extract::<String>()?,
        i.getattr("state")?.extract::<String>()?,
        i.getattr("epoch_mills")?.extract::<i64>()?
    ))
}

fn py_call(
    py: Python,
    t: &Bound<PyAny>,
    url: &str,
    opts: &Opts,
    c: &Call,
    named: bool,
) -> PyResult<Vec<String>> {
    // by position or by name
    let call = |m: &str, args: &[(&str, PyObject)]| -> PyResult<Bound<PyAny>> {
        if named {
            let d = PyDict::new(py);
            for (k, v) in args {
                d.set_item(k, v)?;
            }
            t.call_method(m, (), Some(&d))
        } else {
            let a: Vec<&PyObject> = args.iter().map(|x| &x.1).collect();
            t.call_method1(m, pyo3::types::PyTuple::new(py, a)?)
        }
    };
    fn obj<'p, T: IntoPyObject<'p>>(py: Python<'p>, x: T) -> PyObject {
        pyo3::IntoPyObjectExt::into_py_any(x, py).expect("object")
    }
    // what is not given is left out
    let with = |mut a: Vec<(&'static str, PyObject)>, f: &Option<Filters>| {
        if let Some(f) = f {
            a.push(("filters", obj(py, f.clone())));
        }
        a
    };
    match c {
        Call::Snapshot(f) => Ok(rows_text(&batches(&call(
            "read_snapshot",
            &with(vec![], f),
        )?)?)),
        Call::AsOf(ts, f) => {
            let a = with(vec![("timestamp", obj(py, ts))], f);
            Ok(rows_text(&batches(&call("read_snapshot_as_of", &a)?)?))
        }
        Call::Incr(a, b) => {
            let mut x = vec![("start_timestamp", obj(py, a))];
            if let Some(b) = b {
                x.push(("end_timestamp", obj(py, b)));
            }
            Ok(rows_text(&batches(&call("read_incremental_records", &x)?)?))
        }
        Call::Slices {
            t: ts,
            filters,
            split,
            read,
        } => {
            let mut a = Vec::new();
            let mut name = "get_file_slices".to_string();
            if let Some(n) = split {
                a.push(("n", obj(py, *n)));
                name += "_splits";
            }
            if let Some(ts) = ts {
                a.push(("timestamp", obj(py, ts)));
                name += "_as_of";
            }
            let got = call(&name, &with(a, filters))?;
            let groups: Vec<Vec<Bound<PyAny>>> = if split.is_some() {
                got.downcast::<PyList>()?
                    .iter()
                    .map(|g| Ok(g.downcast::<PyList>()?.iter().collect()))
                    .collect::<PyResult<_>>()?
            } else {
                vec![got.downcast::<PyList>()?.iter().collect()]
            };
            let mut out = vec![format!(
                "groups {:?}",
                groups.iter().map(|g| g.len()).collect::<Vec<_>>()
            )];
            let slices: Vec<&Bound<PyAny>> = groups.iter().flatten().collect();
            for s in &slices {
                out.push(py_slice(s)?);
            }
            if *read > 0 {
                let rd = match read {
                    2 => py
                        .import("hudi")?
                        .getattr("HudiFileGroupReader")?
                        .call1((url, dict(py, opts)?))?,
                    _ if opts.is_empty() => {
                        t.call_method0("create_file_group_reader_with_options")?
                    }
                    _ => {
                        t.call_method1("create_file_group_reader_with_options", (dict(py, opts)?,))?
                    }
                };
                for s in slices {
                    let b = match read {
                        3 => rd.call_method1(
                            "read_file_slice_by_base_file_path",
                            (s.call_method0("base_file_relative_path")?,),
                        )?,
                        _ => rd.call_method1("read_file_slice", (s,))?,
                    };
                    out.extend(rows_text(&[RecordBatch::from_pyarrow_bound(&b)?]));
                }
            }
            out.sort();
            Ok(out)
        }
        Call::Between(a, b) => {
            let d = PyDict::new(py);
            if let Some(a) = a {
                d.set_item("start_timestamp", a)?;
            }
            if let Some(b) = b {
                d.set_item("end_timestamp", b)?;
            }
            let got = t.call_method("get_file_slices_between", (), Some(&d))?;
            let mut out = got
                .downcast::<PyList>()?
                .iter()
                .map(|s| py_slice(&s))
                .collect::<PyResult<Vec<_>>>()?;
            out.sort();
            Ok(out)
        }
        Call::Schema => Ok(vec![schema(&call("get_schema", &[])?)?]),
        Call::Avro => Ok(vec![call("get_avro_schema", &[])?.extract()?]),
        Call::Part => Ok(vec![schema(&call("get_partition_schema", &[])?)?]),
        Call::Timeline => {
            let tl = call("get_timeline", &[])?;
            Ok(vec![
                tl.call_method0("get_latest_commit_timestamp")?.extract()?,
                tl.call_method0("get_latest_avro_schema")?.extract()?,
                schema(&tl.call_method0("get_latest_schema")?)?,
            ])
        }
        Call::Kind(k, desc) => {
            let tl = call("get_timeline", &[])?;
            let m = [
                "get_completed_commits",
                "get_completed_deltacommits",
                "get_completed_replacecommits",
                "get_completed_clustering_commits",
            ][*k as usize];
            let got = if *desc {
                tl.call_method1(m, (true,))?
            } else {
                tl.call_method0(m)?
            };
            let l = got.downcast::<PyList>()?;
            let mut out = l
                .iter()
                .map(|i| py_instant(&i))
                .collect::<PyResult<Vec<_>>>()?;
            for i in l.iter() {
                out.push(
                    tl.call_method1("get_instant_metadata_in_json", (i,))?
                        .extract()?,
                );
            }
            Ok(out)
        }
        Call::Props => {
            let mut out = map_text(t.call_method0("hudi_options")?.extract()?);
            out.push("--".into());
            out.extend(map_text(t.call_method0("storage_options")?.extract()?));
            out.push(format!(
                "{} {} {} {}",
                t.getattr("table_name")?.extract::<String>()?,
                t.getattr("table_type")?.extract::<String>()?,
                t.getattr("is_mor")?.extract::<bool>()?,
                t.getattr("timezone")?.extract::<String>()?
            ));
            Ok(out)
        }
    }
}

fn out_of(py: Python, r: PyResult<Vec<String>>) -> Out {
    match r {
        Ok(l) => Out::Lines(l),
        Err(x) => {
            let ty = x
                .get_type(py)
                .name()
                .map(|n| n.to_string())
                .unwrap_or_default();
            let text = x.value(py).to_string();
            match ty.as_str() {
                "HudiCoreError" => Out::Err(text),
                _ => Out::Other(format!("{ty}: {text}")),
            }
        }
    }
}

// ---------------------------------------------------------------- a session

fn resolve(s: &Shared, r: &mut Rng, op: &ROp) -> Call {
    let mut f = |x: &Filters| {
        if x.is_empty() && r.coin() {
            None
        } else {
            Some(x.clone())
        }
    };
    match op {
        ROp::Snapshot { filters } => Call::Snapshot(f(filters)),
        ROp::AsOf { t, filters } => Call::AsOf(s.resolve(t), f(filters)),
        ROp::Incr { s: a, e } => Call::Incr(s.resolve(a), e.as_ref().map(|e| s.resolve(e))),
        ROp::Slices {
            t,
            filters,
            split,
            read,
            ..
        } => Call::Slices {
            t: t.as_ref().map(|t| s.resolve(t)),
            filters: f(filters),
            split: split.map(|n| n as usize),
            read: *read,
        },
        ROp::SlicesBetween { s: a, e } => Call::Between(
            a.as_ref().map(|a| s.resolve(a)),
            e.as_ref().map(|e| s.resolve(e)),
        ),
        ROp::Schema => Call::Schema,
        ROp::AvroSchema => Call::Avro,
        ROp::PartSchema => Call::Part,
        ROp::Timeline => Call::Timeline,
        ROp::Kind(k, d) => Call::Kind(*k, *d),
        _ => Call::Props,
    }
}

struct Session<'a> {
    s: &'a Shared,
    url: String,
    opts: Opts,
    how: How,
    seed: u64,
}

enum Python2 {
    Opened(Vec<Vec<Out>>),
    NotOpened(Out),
    Stuck,
    Runaway,
}

impl Session<'_> {
    /// Open, then let every thread make its calls.
    fn python(&self, threads: &[Vec<Call>]) -> Python2 {
        let core = self.s.core.clone();
        let slot: Arc<Mutex<Option<Result<PyObject, Out>>>> = Arc::new(Mutex::new(None));
        let (x, url, how) = (slot.clone(), self.url.clone(), self.how.clone());
        let open = Box::new(move || {
            Python::with_gil(|py| {
                let r = py_open(py, &url, &how).map_err(|e| out_of(py, Err(e)));
                *x.lock().unwrap() = Some(r);
            })
        });
        match sched::run(&core, hash(&[self.seed, 1]), vec![open]) {
            sched::Ended::Stuck => return Python2::Stuck,
            sched::Ended::Runaway => return Python2::Runaway,
            sched::Ended::All => {}
        }
        let r = slot.lock().unwrap().take();
        let table = match r {
            Some(Ok(t)) => t,
            Some(Err(o)) => return Python2::NotOpened(o),
            None => return Python2::NotOpened(Out::Other("the thread died".into())),
        };
        let outs: Arc<Mutex<Vec<Vec<Out>>>> = Arc::new(Mutex::new(vec![Vec::new(); threads.len()]));
        let mut jobs: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
        for (k, calls) in threads.iter().enumerate() {
            let calls = calls.clone();
            let (outs, url, opts) = (outs.clone(), self.url.clone(), self.opts.clone());
            let table = Python::with_gil(|py| table.clone_ref(py));
            let named = hash(&[self.seed, k as u64, 5]) % 3 == 0;
            jobs.push(Box::new(move || {
                let n = calls.len();
                for (i, c) in calls.into_iter().enumerate() {
                    let o = Python::with_gil(|py| {
                        let r = py_call(py, table.bind(py), &url, &opts, &c, named);
                        out_of(py, r)
                    });
                    outs.lock().unwrap()[k].push(o);
                    if i + 1 < n {
                        sched::pause();
                    }
                }
                Python::with_gil(|_| drop(table));
            }));
        }
        let end = sched::run(&core, hash(&[self.seed, 2]), jobs);
        Python::with_gil(|_| drop(table));
        match end {
            sched::Ended::Stuck => Python2::Stuck,
            sched::Ended::Runaway => Python2::Runaway,
            sched::Ended::All => Python2::Opened(outs.lock().unwrap().clone()),
        }
    }

    fn reference(&self, actor: u32, threads: &[Vec<Call>]) -> Option<Result<Vec<Vec<Out>>, Out>> {
        let core = self.s.core.clone();
        let before = core.set_actor(REFERENCE);
        let r = sched::drive(&core, async {
            let t = match rust_open(&self.url, &self.how).await {
                Ok(t) => t,
                Err(x) => return Err(Out::Err(x)),
            };
            let mut all = Vec::new();
            for calls in threads {
                let mut l = Vec::new();
                for c in calls {
                    l.push(match rust_call(&t, &self.url, &self.opts, c).await {
                        Ok(x) => Out::Lines(x),
                        Err(x) => Out::Err(x),
                    });
                }
                all.push(l);
            }
            Ok(all)
        });
        core.set_actor(before);
        let _ = actor;
        r
    }
}

fn short(o: &Out) -> String {
    match o {
        Out::Lines(l) => format!("{} lines", l.len()),
        x => format!("{x:?}").chars().take(300).collect(),
    }
}

fn differ(a: &Out, b: &Out) -> String {
    match (a, b) {
        (Out::Lines(a), Out::Lines(b)) => {
            let x = a.iter().find(|l| !b.contains(l));
            let y = b.iter().find(|l| !a.contains(l));
            format!(
                "{} lines, expected {}; only in Python {x:?}; only in Rust {y:?}",
                a.len(),
                b.len()
            )
        }
        _ => format!("{}, expected {}", short(a), short(b)),
    }
}

/// A whole operation of a reader: atomic for the rest of the simulation.
pub fn session(s: &Shared, actor: u32, opi: u32, op: &ROp) -> Result<(), Violation> {
    let ROp::Py {
        opts,
        seed,
        threads,
    } = op
    else {
        return Ok(());
    };
    let mut r = Rng::new(*seed);
    let how = match r.below(4) {
        0 if opts.is_empty() => How::Plain,
        0 | 1 => How::Options(opts.clone()),
        _ => {
            let mut parts: [Opts; 3] = Default::default();
            for (k, v) in opts {
                parts[r.us(0, 2)].push((k.clone(), v.clone()));
                if r.pm(150) {
                    parts[r.us(0, 2)].push((k.clone(), "1".into()));
                }
            }
            let [hudi, storage, any] = parts;
            How::Builder {
                hudi,
                storage,
                any,
                one_by_one: r.coin(),
            }
        }
    };
    let calls: Vec<Vec<Call>> = threads
        .iter()
        .enumerate()
        .map(|(k, l)| {
            let mut c: Vec<Call> = l.iter().map(|o| resolve(s, &mut r, o)).collect();
            if k == 0 && r.pm(250) {
                c.push(Call::Props);
            }
            c
        })
        .collect();
    let x = Session {
        s,
        url: s.url.clone(),
        opts: opts
            .iter()
            .filter(|o| o.0.starts_with("hoodie."))
            .cloned()
            .collect(),
        how,
        seed: hash(&[*seed, 0x9911]),
    };
    s.core
        .trace(1, || format!("python session {:?} {calls:?}", x.how));
    s.store.begin_op(actor, opi);
    let before = s.core.set_actor(actor);
    let mark = s.store.fired_len();
    let py = x.python(&calls);
    s.core.set_actor(before);
    let fired = s.store.fired_since(mark, actor);
    let faulted = !fired.is_empty();
    if fired.iter().any(|f| f.path.ends_with("hudi-defaults.conf")) {
        // opened without the defaults, which a second opening has
        s.count("not compared");
        return Ok(());
    }
    let stalled = fired.iter().any(|f| f.kind == FaultKind::Stall);
    s.count("op python");
    if faulted {
        s.count("python sessions under faults");
    }
    s.store.begin_op(REFERENCE, opi);
    let Some(want) = x.reference(actor, &calls) else {
        return Ok(()); // the Rust API's own properties are about this
    };
    let got = match py {
        Python2::Stuck if stalled => {
            s.count("stalled");
            return Ok(());
        }
        Python2::Stuck => {
            return Err(v(
                "hang",
                "python",
                "no thread can go on and no answer is due".into(),
            ))
        }
        Python2::Runaway => {
            return Err(v(
                "hang",
                "python",
                "the threads go round in circles".into(),
            ))
        }
        Python2::NotOpened(o) => {
            s.count("not opened");
            return match (&o, &want) {
                (Out::Err(_), Err(_)) => Ok(()),
                (Out::Err(_), _) if faulted => Ok(()),
                (o, Err(w)) => Err(v("python-differs", "open", differ(o, w))),
                (o, Ok(_)) => Err(v(
                    "python-differs",
                    "open",
                    format!("{}, but the Rust API opens it", short(o)),
                )),
            };
        }
        Python2::Opened(g) => g,
    };
    let want = match want {
        Ok(w) => w,
        Err(e) => {
            return Err(v(
                "python-differs",
                "open",
                format!("opened, but the Rust API says {}", short(&e)),
            ))
        }
    };
    for (k, l) in calls.iter().enumerate() {
        for (i, c) in l.iter().enumerate() {
            let Some(g) = got[k].get(i) else {
                return Err(v(
                    "panic",
                    "python",
                    format!("{c:?}: the thread ended before it"),
                ));
            };
            let w = &want[k][i];
            let name = format!("{c:?}")
                .chars()
                .take_while(|c| c.is_alphanumeric())
                .collect::<String>();
            s.count(&format!(
                "python {name} {}",
                if matches!(g, Out::Lines(_)) {
                    "ok"
                } else {
                    "err"
                }
            ));
            let same = match (g, w) {
                (Out::Err(a), Out::Err(b)) => faulted || kind(a) == kind(b),
                (Out::Err(_), _) => faulted,
                (g, w) => g == w,
            };
            if !same {
                return Err(v(
                    "python-differs",
                    &name,
                    format!("{c:?}: {}", differ(g, w)),
                ));
            }
        }
    }
    Ok(())
}

/// Which error it is; the rest may depend on which of several requests failed first.
fn kind(e: &str) -> String {
    let head = e.split(':').next().unwrap_or("");
    let words: Vec<&str> = head
        .split(' ')
        .filter(|w| !w.contains(|c: char| c.is_ascii_digit()))
        .collect();
    words.join(" ")
}
