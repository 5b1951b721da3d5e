//! Opening tables whose properties, options and global defaults are generated: what must come out.

use crate::reader::{Got, Shared, Violation};
use crate::rng::{hash, Rng};
use hudi_core::table::builder::TableBuilder;
use std::collections::BTreeMap;

type Map = BTreeMap<String, String>;

pub const GLOBAL_CONF: &str = "etc/hudi/conf/hudi-defaults.conf";

const BOOLS: [&str; 4] = [
    "hoodie.populate.meta.fields",
    "hoodie.datasource.write.drop.partition.columns",
    "hoodie.datasource.write.hive_style_partitioning",
    "hoodie.datasource.write.partitionpath.urlencode",
];
const SIZES: [&str; 2] = [
    "hoodie.read.input.partitions",
    "hoodie.read.listing.parallelism",
];
const RO: &str = "hoodie.read.use.read_optimized.mode";

fn v(class: &str, detail: String) -> Violation {
    Violation {
        class: class.into(),
        op: "open (configuration)".into(),
        detail,
    }
}

/// Lines of a properties file, later ones winning. None when it cannot be read as text.
fn parse(data: &[u8], sep: &str) -> Option<Map> {
    let mut m = Map::new();
    for line in data.split(|b| *b == b'\n') {
        let line = std::str::from_utf8(line).ok()?.trim();
        if line.is_empty() || line.starts_with('#') {
            continue;
        }
        let (k, x) = match line.find(|c| sep.contains(c)) {
            Some(i) => (&line[..i], &line[i + 1..]),
            None => (line, ""),
        };
        m.insert(k.trim().to_string(), x.trim().to_string());
    }
    Some(m)
}

/// Why the merged configuration must be refused.
fn refuse(m: &Map) -> Option<String> {
    let low = |k: &str| m.get(k).map(|x| x.to_ascii_lowercase());
    if !m.contains_key("hoodie.table.name") {
        return Some("no table name".into());
    }
    match low("hoodie.table.type").as_deref() {
        Some(
            "copy_on_write" | "copy-on-write" | "cow" | "merge_on_read" | "merge-on-read" | "mor",
        ) => {}
        x => return Some(format!("table type {x:?}")),
    }
    for (k, lo, hi) in [
        ("hoodie.table.version", 5, 6),
        ("hoodie.timeline.layout.version", 1, 1),
    ] {
        match m.get(k).map(|x| x.parse::<i64>()) {
            Some(Ok(n)) if (lo..=hi).contains(&n) => {}
            x => return Some(format!("{k}: {x:?}")),
        }
    }
    for k in BOOLS.iter().chain([&RO]) {
        if m.get(*k).is_some_and(|x| x != "true" && x != "false") {
            return Some(format!("{k} is no boolean"));
        }
    }
    for k in SIZES {
        if m.get(k).is_some_and(|x| x.parse::<usize>().is_err()) {
            return Some(format!("{k} is no size"));
        }
    }
    if m.get("hoodie.table.checksum")
        .is_some_and(|x| x.parse::<i64>().is_err())
    {
        return Some("checksum".into());
    }
    if low("hoodie.table.base.file.format").is_some_and(|x| x != "parquet") {
        return Some("base file format".into());
    }
    if low("hoodie.table.timeline.timezone").is_some_and(|x| x != "utc" && x != "local") {
        return Some("timezone".into());
    }
    if m.get(BOOLS[1]).is_some_and(|x| x == "true") {
        return Some("drops partition columns".into());
    }
    let populate = m.get(BOOLS[0]).is_none_or(|x| x == "true");
    let precombine = m.contains_key("hoodie.table.precombine.field");
    match low("hoodie.table.record.merge.strategy").as_deref() {
        Some("append_only") | None => None,
        Some("overwrite_with_latest") if !populate => Some("overwrite without meta fields".into()),
        Some("overwrite_with_latest") if !precombine => {
            Some("overwrite without precombine field".into())
        }
        Some("overwrite_with_latest") => None,
        Some(x) => Some(format!("merge strategy {x}")),
    }
}

struct Gen {
    r: Rng,
    /// Per mille of entries that are wrong.
    bad: u64,
}

impl Gen {
    fn value(&mut self, good: &[&str], wrong: &[&str]) -> String {
        if self.r.pm(self.bad) {
            self.r.pick(wrong).to_string()
        } else {
            self.r.pick(good).to_string()
        }
    }
    fn entry(&mut self, k: &str) -> String {
        let junk = [
            "",
            "abc",
            "TRUE1",
            "-1",
            "9999999999999999999999",
            "é",
            "1.5",
            "null",
        ];
        match k {
            "hoodie.table.name" => self.value(&["tbl", "t", "日本", "a=b", "x y"], &["", "é"]),
            "hoodie.table.type" => self.value(
                &[
                    "COPY_ON_WRITE",
                    "MERGE_ON_READ",
                    "cow",
                    "Mor",
                    "merge-on-read",
                    "copy-on-write",
                ],
                &["", "COPY", "MERGE ON READ", "é"],
            ),
            "hoodie.table.version" => self.value(
                &["5", "6"],
                &[
                    "4",
                    "7",
                    "8",
                    "0",
                    "-5",
                    "",
                    "six",
                    "5.0",
                    "6 6",
                    "99999999999999999999",
                ],
            ),
            "hoodie.timeline.layout.version" => self.value(&["1"], &["0", "2", "", "x", "-1"]),
            "hoodie.table.checksum" => self.value(
                &["0", "-12", "3349344564"],
                &["", "x", "99999999999999999999"],
            ),
            "hoodie.table.base.file.format" => self.value(
                &["PARQUET", "parquet", "Parquet"],
                &["ORC", "HFILE", "", "csv"],
            ),
            "hoodie.table.timeline.timezone" => {
                self.value(&["UTC", "utc", "LOCAL", "local"], &["", "CET", "UTC+1"])
            }
            "hoodie.table.record.merge.strategy" => self.value(
                &["append_only", "overwrite_with_latest", "APPEND_ONLY"],
                &["", "custom", "eager"],
            ),
            "hoodie.table.precombine.field" => self.value(&["ts", "a.b"], &[""]),
            "hoodie.datasource.write.drop.partition.columns" => {
                self.value(&["false"], &["true", "", "no"])
            }
            "hoodie.read.use.read_optimized.mode" => {
                self.value(&["true", "false"], &["True", "", "1"])
            }
            "hoodie.table.partition.fields" => self.value(&["a", "a,b", "c:simple"], &["", ","]),
            "hoodie.table.recordkey.fields" => self.value(&["id", "id,a"], &["", ","]),
            "hoodie.custom" => self.r.pick(&["1", "a b", "x=y", "\ttab"]).to_string(),
            k if SIZES.contains(&k) => self.value(&["0", "1", "7", "100000"], &junk),
            k if BOOLS.contains(&k) => self.value(&["true", "false"], &junk),
            _ => self.value(&["a", ""], &junk),
        }
    }
    fn pairs(&mut self, present: u64, keys: &[&str]) -> Vec<(String, String)> {
        let mut out = Vec::new();
        for k in keys {
            if self.r.pm(present) {
                let x = self.entry(k);
                out.push((k.to_string(), x));
            }
        }
        self.r.shuffle(&mut out);
        out
    }
    fn text(&mut self, pairs: &[(String, String)], seps: &[&str]) -> Vec<u8> {
        let mut s = String::new();
        let eol = if self.r.pm(150) { "\r\n" } else { "\n" };
        for (k, x) in pairs {
            match self.r.below(12) {
                0 => s.push_str(&format!("# {k}=zzz{eol}")),
                1 => s.push_str(eol),
                2 => s.push_str("  "),
                _ => {}
            }
            let sep = *self.r.pick(seps);
            s.push_str(&format!("{k}{sep}{x}{eol}"));
        }
        let mut b = s.into_bytes();
        if self.r.pm(self.bad / 3) {
            match self.r.below(3) {
                0 => {
                    let at = self.r.us(0, b.len());
                    b.insert(at, 0xff);
                }
                1 => b.clear(),
                _ => b = b"\x00\x01\xfe\xff\n\x80".to_vec(),
            }
        }
        b
    }
}

const REQUIRED: [&str; 4] = [
    "hoodie.table.name",
    "hoodie.table.type",
    "hoodie.table.version",
    "hoodie.timeline.layout.version",
];
const OPTIONAL: [&str; 14] = [
    "hoodie.table.checksum",
    "hoodie.table.base.file.format",
    "hoodie.table.timeline.timezone",
    "hoodie.table.record.merge.strategy",
    "hoodie.table.precombine.field",
    "hoodie.table.partition.fields",
    "hoodie.table.recordkey.fields",
    "hoodie.database.name",
    "hoodie.table.keygenerator.class",
    "hoodie.custom",
    BOOLS[0],
    BOOLS[1],
    BOOLS[2],
    BOOLS[3],
];
const READ: [&str; 4] = [RO, SIZES[0], SIZES[1], "hoodie.custom"];

pub async fn check(s: &Shared, actor: u32, opi: u32, seed: u64) -> Result<(), Violation> {
    let mut g = Gen {
        r: Rng::new(hash(&[seed, 0xC0F])),
        bad: 0,
    };
    g.bad = *g.r.pick(&[0, 0, 60, 200, 500]);
    let req = *g.r.pick(&[1000, 1000, 1000, 850]);
    let opt = *g.r.pick(&[100, 400, 800]);
    let mut props = g.pairs(req, &REQUIRED);
    props.extend(g.pairs(opt, &OPTIONAL));
    props.extend(g.pairs(80, &READ));
    if g.r.pm(150) && !props.is_empty() {
        let d = g.r.us(0, props.len() - 1);
        let k = props[d].0.clone();
        let x = g.entry(&k);
        props.push((k, x)); // the later line wins
    }
    let bytes = g.text(&props, &["=", "=", "=", " = ", "= "]);
    let missing = g.r.pm(g.bad / 5);
    let all: Vec<&str> = REQUIRED
        .iter()
        .chain(OPTIONAL.iter())
        .chain(READ.iter())
        .copied()
        .collect();
    let some = *g.r.pick(&[0, 60, 250]);
    let explicit = g.pairs(some, &all);
    let generic = {
        let mut p = g.pairs(some, &all);
        if g.r.pm(200) {
            p.push(("some_store_key".into(), "1".into()));
        }
        p
    };
    let global = if g.r.coin() {
        let mut p = g.pairs(some, &all);
        p.push(("not.hoodie".into(), "x".into()));
        Some(g.text(&p, &["=", " ", "\t"]))
    } else {
        None
    };

    // ---- what must come out
    let table = if missing { None } else { parse(&bytes, "=") };
    let merged = |with_global: bool| -> Option<Map> {
        let mut m: Map = generic
            .iter()
            .filter(|x| x.0.starts_with("hoodie."))
            .cloned()
            .collect();
        m.extend(explicit.iter().cloned());
        m.extend(table.clone()?);
        if let (true, Some(gl)) = (with_global, &global) {
            for (k, x) in parse(gl, " \t=").unwrap_or_default() {
                if k.starts_with("hoodie.") {
                    m.entry(k).or_insert(x);
                }
            }
        }
        Some(m)
    };

    // ---- what does
    let rel = format!("{}/.hoodie/.cfg{seed:x}", s.cx.spec.base);
    if !missing {
        s.store
            .put_now(&format!("{rel}/.hoodie/hoodie.properties"), bytes.clone());
    }
    match &global {
        Some(x) => s.store.put_now(GLOBAL_CONF, x.clone()),
        None => {
            s.store.delete_now(GLOBAL_CONF);
        }
    }
    let url = format!("sim://s1/{rel}");
    let mut b = TableBuilder::from_base_uri(&url)
        .with_hudi_options(explicit.clone())
        .with_options(generic.clone());
    let c = s
        .call(actor, opi, "open (configuration)", b.build())
        .await?;
    let full = merged(true);
    let context = || {
        format!(
            "properties {:?} (missing={missing}) explicit {explicit:?} generic {generic:?} global {:?}",
            String::from_utf8_lossy(&bytes),
            global.as_ref().map(|x| String::from_utf8_lossy(x).to_string())
        )
    };
    match c.got {
        Got::Stalled => Ok(()),
        Got::Err(e) => {
            s.count("configuration refused");
            if c.faulted {
                return Ok(());
            }
            match full.as_ref().map(refuse) {
                Some(None) => Err(v("unexpected-error", format!("{e}; {}", context()))),
                _ => Ok(()),
            }
        }
        Got::Ok(t) => {
            s.count("configuration accepted");
            let mut have: Map = t.hudi_options().into_iter().collect();
            if have.remove("hoodie.base.path").as_deref() != Some(url.as_str()) {
                return Err(v(
                    "wrong-config",
                    format!("base path changed; {}", context()),
                ));
            }
            let mut cands = vec![full];
            if c.faulted {
                cands.push(merged(false));
            }
            let mut why = String::new();
            for m in cands {
                let Some(m) = m else {
                    why = "properties are missing or unreadable".into();
                    continue;
                };
                if let Some(x) = refuse(&m) {
                    why = format!("accepted although: {x}");
                    continue;
                }
                if m != have {
                    let d: Vec<String> = m
                        .iter()
                        .filter(|(k, x)| have.get(*k) != Some(x))
                        .map(|(k, x)| format!("{k}: {:?} instead of {x:?}", have.get(k)))
                        .chain(
                            have.keys()
                                .filter(|k| !m.contains_key(*k))
                                .map(|k| format!("extra {k}")),
                        )
                        .collect();
                    why = format!("settings differ: {d:?}");
                    continue;
                }
                let mor = m["hoodie.table.type"].to_ascii_lowercase().starts_with('m');
                let ty = if mor {
                    "MERGE_ON_READ"
                } else {
                    "COPY_ON_WRITE"
                };
                let tz = m
                    .get("hoodie.table.timeline.timezone")
                    .map_or("utc".to_string(), |x| x.to_ascii_lowercase());
                let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    (
                        t.table_name(),
                        t.table_type(),
                        t.is_mor(),
                        t.timezone(),
                        t.base_url().to_string(),
                    )
                }));
                let Ok(got) = got else {
                    let p = crate::reader::LAST_PANIC.with(|p| p.borrow().clone());
                    return Err(v("panic", format!("{p}; {}", context())));
                };
                let want_url = url.trim_end_matches('/').replace(' ', "%20");
                if got.0 != m["hoodie.table.name"]
                    || got.1 != ty
                    || got.2 != mor
                    || got.3 != tz
                    || got.4.trim_end_matches('/') != want_url
                {
                    why = format!("{got:?}, expected type {ty} timezone {tz}");
                    continue;
                }
                if t.storage_options().get("some_store_key").is_some()
                    != generic.iter().any(|x| x.0 == "some_store_key")
                {
                    why = "storage option lost".into();
                    continue;
                }
                // and the handle works: an empty table
                {
                    let c = s
                        .call(
                            actor,
                            opi + 300,
                            "read_snapshot (configured)",
                            t.read_snapshot(&[]),
                        )
                        .await?;
                    match c.got {
                        Got::Ok(b) if b.iter().all(|b| b.num_rows() == 0) => {}
                        Got::Ok(_) => {
                            return Err(v("wrong-rows", "rows from an empty table".into()))
                        }
                        Got::Err(e) if !c.faulted => {
                            return Err(v(
                                "unexpected-error",
                                format!("snapshot of an empty table: {e}; {}", context()),
                            ))
                        }
                        _ => {}
                    }
                }
                return Ok(());
            }
            Err(v("wrong-config", format!("{why}; {}", context())))
        }
    }
}
