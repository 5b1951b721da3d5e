//! Writers following Hudi's write, table service and rollback protocols step by step, with a crash
//! possible before every step.

use crate::core::Core;
use crate::plan::*;
use crate::rng::{hash, hash_str, Rng};
use crate::store::SimStore;
use crate::table::*;
use crate::types::*;
use crate::world::*;
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::Arc;

pub struct Cx {
    pub core: Arc<Core>,
    pub store: Arc<SimStore>,
    pub world: RefCell<World>,
    pub spec: Rc<TableSpec>,
}

pub struct Crashed;
type Step = Result<(), Crashed>;

struct Run<'a> {
    cx: &'a Cx,
    r: Rng,
    n: u32,
    op: &'a WOp,
}

impl Run<'_> {
    async fn step(&mut self) -> Step {
        let d = self.r.below(8_000);
        if d > 0 {
            self.cx.core.sleep(d).await;
        }
        if self.op.crash == Some(self.n) {
            return Err(Crashed);
        }
        self.n += 1;
        Ok(())
    }
}

enum W {
    Base {
        fg: usize,
        rows: Rows,
    },
    Log {
        fg: usize,
        rows: Rows,
        dels: Vec<String>,
    },
}

impl Cx {
    pub fn hoodie(&self, f: &str) -> String {
        format!("{}/.hoodie/{f}", self.spec.base)
    }
    pub fn path(&self, rel: &str) -> String {
        format!("{}/{rel}", self.spec.base)
    }
    pub fn init(&self, raw_props: Option<&str>) {
        let text = raw_props.map_or_else(|| self.spec.properties(), |s| s.to_string());
        self.store
            .put_now(&self.hoodie("hoodie.properties"), text.into_bytes());
    }

    pub async fn writer(&self, plan: &WriterPlan) {
        for op in &plan.ops {
            if op.delay > 0 {
                self.core.sleep(op.delay).await;
            }
            self.core.trace(
                hash(&[hash_str(&format!("{:?}", op.kind)), op.seed]),
                || format!("writer {:?}", op.kind),
            );
            let mut run = Run {
                cx: self,
                r: Rng::new(op.seed),
                n: 0,
                op,
            };
            let _ = run.op(&op.kind).await;
        }
        self.world.borrow_mut().writers_live -= 1;
    }
}

fn join(part: &str, f: &str) -> String {
    if part.is_empty() {
        f.to_string()
    } else {
        format!("{part}/{f}")
    }
}

fn uuid(seed: u64, n: u64) -> String {
    let a = hash(&[seed, n, 1]);
    let b = hash(&[seed, n, 2]);
    format!(
        "{:08x}-{:04x}-{:04x}-{:04x}-{:012x}-{}",
        a >> 32,
        (a >> 16) & 0xffff,
        a & 0xffff,
        b >> 48,
        b & 0xffff_ffff_ffff,
        n % 3
    )
}

impl Run<'_> {
    async fn op(&mut self, kind: &WKind) -> Step {
        match kind {
            WKind::Insert => self.insert().await,
            WKind::Upsert => self.upsert(false).await,
            WKind::Delete => self.upsert(true).await,
            WKind::Overwrite => self.overwrite(false).await,
            WKind::OverwriteTable => self.overwrite(true).await,
            WKind::DeletePartition => self.delete_partition().await,
            WKind::Cluster => self.cluster().await,
            WKind::CompactSchedule => self.compact_schedule().await,
            WKind::CompactRun => self.compact_run().await,
            WKind::Clean => self.clean().await,
            WKind::Archive => {
                // under the table service lock
                if std::mem::replace(&mut self.cx.world.borrow_mut().archiving, true) {
                    return Ok(());
                }
                let r = self.archive().await;
                self.cx.world.borrow_mut().archiving = false;
                r
            }
            WKind::Rollback => self.rollback(false).await,
            WKind::Undo => {
                if std::mem::replace(&mut self.cx.world.borrow_mut().archiving, true) {
                    return Ok(());
                }
                let r = self.rollback(true).await;
                self.cx.world.borrow_mut().archiving = false;
                r
            }
            WKind::Savepoint => self.savepoint().await,
            WKind::Evolve => {
                let mut w = self.cx.world.borrow_mut();
                if w.ver < w.spec.max_ver() {
                    w.ver += 1;
                }
                Ok(())
            }
            WKind::Empty => self.empty().await,
            WKind::Noise => self.noise().await,
        }
    }

    // ------------------------------------------------------------ rows

    fn gen_row(
        &mut self,
        key: &str,
        vals: &BTreeMap<String, Val>,
        part: &str,
        ts: &str,
        seq: u64,
        ver: u32,
    ) -> Rc<Row> {
        let spec = self.cx.spec.clone();
        let mut v = Vec::new();
        for c in spec.cols_at(ver) {
            let x = if c.name == "id" {
                Val::Str(key.to_string())
            } else if Some(&c.name) == spec.ord.as_ref() {
                gen_ord(&c.ty, &mut self.r)
            } else if let Some(p) = vals.get(&c.name) {
                p.clone()
            } else {
                c.ty.gen(&mut self.r, c.nullable)
            };
            v.push(x);
        }
        let mut row = Row {
            key: key.to_string(),
            part: part.to_string(),
            ct: ts.to_string(),
            seq: format!("{ts}_{}_{}", seq / 10, seq % 10),
            vals: v,
            text: String::new(),
        };
        row.text = spec.canon_row(&row);
        Rc::new(row)
    }

    fn pick_partition(&mut self) -> (String, BTreeMap<String, Val>) {
        let spec = self.cx.spec.clone();
        let mut vals = BTreeMap::new();
        for f in &spec.parts {
            let pool = spec.pool(f);
            vals.insert(f.clone(), self.r.pick(&pool).clone());
        }
        if spec.partitioned() {
            // two value tuples must not share a path
            let p = spec.part_path(&vals);
            let mut w = self.cx.world.borrow_mut();
            let v = w.parts.entry(p.clone()).or_insert(vals).clone();
            (p, v)
        } else {
            (String::new(), vals)
        }
    }

    fn new_fg(&mut self, part: String, vals: BTreeMap<String, Val>) -> usize {
        let mut w = self.cx.world.borrow_mut();
        let n = w.fgs.len();
        let id = uuid(self.cx.spec.pool_seed, n as u64);
        w.fgs.push(Fg {
            part,
            vals,
            id,
            images: vec![],
            deltas: vec![],
            lock: None,
            compacting: None,
            cur_base: String::new(),
            log_ver: 1,
            last_log: None,
            replaced_by: None,
        });
        n
    }

    fn live(&self, compacting_too: bool) -> Vec<usize> {
        let w = self.cx.world.borrow();
        let all = w.view(usize::MAX, "99999999999999999");
        all.iter()
            .map(|v| v.fg)
            .filter(|f| {
                w.fgs[*f].lock.is_none() && (compacting_too || w.fgs[*f].compacting.is_none())
            })
            .collect()
    }
    fn rows_of(&self, fg: usize) -> Rows {
        let w = self.cx.world.borrow();
        w.view(usize::MAX, "99999999999999999")
            .into_iter()
            .find(|v| v.fg == fg)
            .map(|v| v.rows)
            .unwrap_or_default()
    }

    fn new_key(&mut self) -> String {
        let w = self.cx.world.borrow_mut();
        // now and then a key that exists elsewhere
        let reuse = w.keys > 0 && self.r.pm(if self.cx.spec.append_only() { 200 } else { 80 });
        if reuse {
            let k = self.r.below(w.keys);
            return format!("k{k}");
        }
        drop(w);
        self.fresh_key()
    }
    fn fresh_key(&self) -> String {
        let mut w = self.cx.world.borrow_mut();
        w.keys += 1;
        format!("k{}", w.keys - 1)
    }

    // ------------------------------------------------------------ actions

    fn begin(&mut self, kind: AKind, op: &str) -> usize {
        let mut w = self.cx.world.borrow_mut();
        let ts = w.next_ts(&mut self.r);
        let ver = w.ver;
        w.acts.push(Action {
            ts,
            kind,
            op: op.to_string(),
            meta: String::new(),
            ver,
            wrote: false,
            has_schema: true,
            done_at: None,
            undone_at: None,
            archived_at: None,
            crashed: false,
            dead: false,
            started: false,
            replaced: vec![],
            touched: vec![],
            files: vec![],
            logs: vec![],
            images: vec![],
            deltas: vec![],
            timeline_files: vec![],
        });
        w.acts.len() - 1
    }
    fn put_timeline(&self, a: usize, name: String, body: Vec<u8>) {
        let p = self.cx.hoodie(&name);
        {
            let mut w = self.cx.world.borrow_mut();
            w.acts[a].started = true;
            w.acts[a].timeline_files.push(p.clone());
        }
        self.cx.store.put_now(&p, body);
    }

    /// Run a write action to completion.
    async fn commit(&mut self, a: usize, writes: Vec<W>, replaced: Vec<usize>) -> Step {
        {
            let mut w = self.cx.world.borrow_mut();
            let mut t: Vec<usize> = writes
                .iter()
                .map(|x| match x {
                    W::Base { fg, .. } | W::Log { fg, .. } => *fg,
                })
                .collect();
            t.extend(&replaced);
            for f in &t {
                w.fgs[*f].lock = Some(a);
            }
            w.acts[a].touched = t;
            w.acts[a].replaced = replaced;
        }
        let res = self.commit_steps(a, writes).await;
        if res.is_err() {
            let mut w = self.cx.world.borrow_mut();
            if w.acts[a].started {
                w.acts[a].crashed = true;
                w.probe("crashed action");
            } else {
                w.acts[a].dead = true;
                w.unlock(a);
            }
        }
        res
    }

    /// Instants do not start before the active timeline does: later ones are complete and earlier
    /// ones may be archived. The table service lock and the clock of real writers see to that.
    fn too_late(&mut self, a: usize) -> bool {
        let mut w = self.cx.world.borrow_mut();
        let first = w
            .acts
            .iter()
            .filter(|x| {
                x.kind != AKind::Other
                    && x.done_at.is_some()
                    && x.undone_at.is_none()
                    && x.archived_at.is_none()
            })
            .map(|x| norm(&x.ts))
            .min();
        let late = first.is_some_and(|f| norm(&w.acts[a].ts) < f);
        if late {
            w.acts[a].dead = true;
            w.unlock(a);
            w.probe("late instant given up");
        }
        late
    }

    async fn commit_steps(&mut self, a: usize, writes: Vec<W>) -> Step {
        let (ts, kind, op, ver, replaced) = {
            let w = self.cx.world.borrow();
            let x = &w.acts[a];
            (
                x.ts.clone(),
                x.kind,
                x.op.clone(),
                x.ver,
                x.replaced.clone(),
            )
        };
        let suf = kind.suffix();
        self.step().await?;
        if kind != AKind::Compaction && self.too_late(a) {
            return Ok(());
        }
        if kind != AKind::Compaction {
            self.put_timeline(a, format!("{ts}.{suf}.requested"), self.pending_body());
        }
        self.step().await?;
        match kind {
            AKind::Commit => self.put_timeline(a, format!("{ts}.inflight"), self.pending_body()),
            AKind::Compaction => {
                self.put_timeline(a, format!("{ts}.compaction.inflight"), self.pending_body())
            }
            _ => self.put_timeline(a, format!("{ts}.{suf}.inflight"), self.pending_body()),
        }
        let mut stats: BTreeMap<String, Vec<Value>> = BTreeMap::new();
        let mut extra: Vec<String> = Vec::new();
        let markers = self.r.pm(400);
        for w in writes {
            match w {
                W::Base { fg, rows } => {
                    let (part, id, prev) = {
                        let w = self.cx.world.borrow();
                        let g = &w.fgs[fg];
                        (
                            g.part.clone(),
                            g.id.clone(),
                            g.images
                                .last()
                                .map_or("null".to_string(), |i| i.inst.clone()),
                        )
                    };
                    self.partition_meta(&part, &ts);
                    let tok = format!(
                        "{}-{}-{}",
                        self.r.below(3),
                        self.r.below(40),
                        self.r.below(90)
                    );
                    let name = format!("{id}_{tok}_{ts}.parquet");
                    let rel = join(&part, &name);
                    let full = self.cx.path(&rel);
                    let data = self.cx.spec.parquet(ver, &rows, &name);
                    if markers {
                        let m = self.cx.hoodie(&format!(".temp/{ts}/{rel}.marker.CREATE"));
                        self.cx.store.put_now(&m, vec![]);
                        extra.push(m);
                    }
                    // a retried task: an earlier attempt of the same file under another token
                    if self.r.pm(120) {
                        self.step().await?;
                        let other = format!("{id}_{tok}9_{ts}.parquet");
                        let p = self.cx.path(&join(&part, &other));
                        let full_attempt = self.r.coin();
                        let cut = self.r.us(0, data.len().saturating_sub(1));
                        let body = if full_attempt {
                            data.clone()
                        } else {
                            data[..cut].to_vec()
                        };
                        self.cx.world.borrow_mut().acts[a].files.push(p.clone());
                        self.cx.world.borrow_mut().probe("retried task");
                        self.cx.store.put_now(&p, body);
                        extra.push(p);
                    }
                    self.cx.world.borrow_mut().acts[a].files.push(full.clone());
                    if let Err(e) = self.step().await {
                        if self.op.torn {
                            let cut = self.r.us(0, data.len().saturating_sub(1));
                            self.cx.store.put_now(&full, data[..cut].to_vec());
                            self.cx.world.borrow_mut().probe("torn base file");
                        }
                        return Err(e);
                    }
                    let size = data.len();
                    self.cx.store.put_now(&full, data);
                    stats.entry(part.clone()).or_default().push(json!({
                        "fileId": id, "path": rel, "cdcStats": null, "prevCommit": prev,
                        "numWrites": rows.len(), "numDeletes": 0, "numUpdateWrites": 0, "numInserts": rows.len(),
                        "totalWriteBytes": size, "totalWriteErrors": 0, "tempPath": null, "partitionPath": part,
                        "totalLogRecords": 0, "fileSizeInBytes": size, "minEventTime": null, "maxEventTime": null
                    }));
                    let mut w = self.cx.world.borrow_mut();
                    w.acts[a].wrote = true;
                    w.acts[a].images.push((
                        fg,
                        Image {
                            act: a,
                            inst: ts.clone(),
                            rows,
                            path: rel,
                            size,
                            cleaned: false,
                            purged: false,
                        },
                    ));
                }
                W::Log { fg, rows, dels } => {
                    let stat = self.write_log(a, fg, &ts, ver, &rows, &dels).await?;
                    stats.entry(stat.0).or_default().push(stat.1);
                    let mut w = self.cx.world.borrow_mut();
                    w.acts[a].wrote = true;
                    let base = w.fgs[fg].cur_base.clone();
                    let logs = w.acts[a]
                        .logs
                        .iter()
                        .filter(|x| x.0 == fg)
                        .map(|x| x.1.clone())
                        .collect();
                    w.acts[a].deltas.push((
                        fg,
                        Delta {
                            act: a,
                            inst: ts.clone(),
                            rows,
                            dels,
                            base,
                            logs,
                        },
                    ));
                }
            }
        }
        // reconcile attempts and markers
        for p in extra {
            self.step().await?;
            self.cx.store.delete_now(&p);
        }
        self.step().await?;
        let no_schema = self.r.pm(40) && !self.cx.world.borrow().acts[a].wrote;
        let mut m = Map::new();
        m.insert("partitionToWriteStats".into(), json!(stats));
        m.insert("compacted".into(), json!(kind == AKind::Compaction));
        let mut ex = Map::new();
        if !no_schema {
            ex.insert("schema".into(), json!(self.cx.spec.avro_schema(ver, false)));
        }
        ex.insert(
            "deltastreamer.checkpoint.key".into(),
            json!(format!("{}", self.r.below(100))),
        );
        m.insert("extraMetadata".into(), Value::Object(ex));
        m.insert("operationType".into(), json!(op));
        if kind == AKind::Replace {
            let w = self.cx.world.borrow();
            let mut rep: BTreeMap<String, Vec<String>> = BTreeMap::new();
            for f in &replaced {
                rep.entry(w.fgs[*f].part.clone())
                    .or_default()
                    .push(w.fgs[*f].id.clone());
            }
            m.insert("partitionToReplaceFileIds".into(), json!(rep));
        }
        let text = serde_json::to_string_pretty(&Value::Object(m)).unwrap();
        {
            let mut w = self.cx.world.borrow_mut();
            w.acts[a].meta = text.clone();
            w.acts[a].has_schema = !no_schema;
        }
        self.put_timeline(a, format!("{ts}.{suf}"), text.into_bytes());
        self.cx.world.borrow_mut().complete(a);
        Ok(())
    }

    fn pending_body(&self) -> Vec<u8> {
        match self.op.seed % 3 {
            0 => vec![],
            1 => b"{\"partitionToWriteStats\":{\"x\":[{\"fileId\":\"f\",\"pa".to_vec(),
            _ => b"{\"partitionToWriteStats\":{},\"compacted\":false,\"extraMetadata\":{},\"operationType\":\"UPSERT\"}".to_vec(),
        }
    }

    fn partition_meta(&mut self, part: &str, ts: &str) {
        let f = self.cx.path(&join(part, ".hoodie_partition_metadata"));
        if self.cx.store.get_now(&f).is_none() {
            let depth = if part.is_empty() {
                0
            } else {
                part.split('/').count()
            };
            self.cx.store.put_now(
                &f,
                format!("#partition metadata\ncommitTime={ts}\npartitionDepth={depth}\n")
                    .into_bytes(),
            );
        }
    }

    async fn write_log(
        &mut self,
        a: usize,
        fg: usize,
        ts: &str,
        ver: u32,
        rows: &Rows,
        dels: &[String],
    ) -> Result<(String, Value), Crashed> {
        let (part, id, base) = {
            let w = self.cx.world.borrow();
            let g = &w.fgs[fg];
            (g.part.clone(), g.id.clone(), g.cur_base.clone())
        };
        // cut into blocks, blocks into files
        let mut cuts: Vec<Rows> = Vec::new();
        let mut cur: Rows = Vec::new();
        let every = (rows.len() as u64 / 3).max(7);
        for r in rows {
            cur.push(r.clone());
            if self.r.below(every) == 0 {
                cuts.push(std::mem::take(&mut cur));
            }
        }
        if !cur.is_empty() || (cuts.is_empty() && dels.is_empty()) {
            cuts.push(cur);
        }
        let mut blocks: Vec<(String, Vec<u8>)> = Vec::new();
        let tok = format!(
            "{}-{}-{}",
            self.r.below(3),
            self.r.below(40),
            self.r.below(90)
        );
        let mut path = String::new();
        for (i, c) in cuts.iter().enumerate() {
            if path.is_empty() || (i > 0 && self.r.pm(300)) {
                path = self.log_path(fg, &part, &id, &base, &tok);
            }
            let avro = match self.cx.spec.log_fmt {
                0 => true,
                1 => false,
                _ => self.r.coin(),
            };
            let name = path.rsplit('/').next().unwrap().to_string();
            blocks.push((
                path.clone(),
                self.cx.spec.data_block(ts, ver, c, &name, avro),
            ));
        }
        if !dels.is_empty() {
            if path.is_empty() {
                path = self.log_path(fg, &part, &id, &base, &tok);
            }
            blocks.push((path.clone(), delete_block(ts, dels)));
        }
        for (p, b) in blocks {
            self.step().await?;
            {
                let mut w = self.cx.world.borrow_mut();
                w.acts[a].logs.push((fg, p.clone()));
            }
            append(self.cx, &p, b);
        }
        let (all, last) = {
            let w = self.cx.world.borrow();
            let mut all: BTreeSet<String> = BTreeSet::new();
            for x in w.fgs[fg].deltas.iter().filter(|d| d.base == base) {
                all.extend(x.logs.iter().cloned());
            }
            all.extend(
                w.acts[a]
                    .logs
                    .iter()
                    .filter(|x| x.0 == fg)
                    .map(|x| x.1.clone()),
            );
            (
                all,
                w.acts[a]
                    .logs
                    .iter()
                    .rev()
                    .find(|x| x.0 == fg)
                    .map(|x| x.1.clone())
                    .unwrap(),
            )
        };
        let names: Vec<String> = all
            .iter()
            .map(|p| p.rsplit('/').next().unwrap().to_string())
            .collect();
        let base_file = {
            let w = self.cx.world.borrow();
            w.fgs[fg]
                .images
                .iter()
                .find(|i| i.inst == base)
                .map(|i| i.path.rsplit('/').next().unwrap().to_string())
                .unwrap_or_default()
        };
        let rel = last[self.cx.spec.base.len() + 1..].to_string();
        Ok((
            part.clone(),
            json!({
                "fileId": id, "path": rel, "cdcStats": null, "prevCommit": base, "numWrites": rows.len(),
                "numDeletes": dels.len(), "numUpdateWrites": rows.len(), "numInserts": 0, "totalWriteBytes": 1,
                "totalWriteErrors": 0, "tempPath": null, "partitionPath": part, "totalLogRecords": 0,
                "fileSizeInBytes": 1, "logVersion": 1, "logOffset": 0, "baseFile": base_file, "logFiles": names,
                "recordsStats": {"val": null, "present": false}
            }),
        ))
    }

    /// The log file the next block goes to.
    fn log_path(&mut self, fg: usize, part: &str, id: &str, base: &str, tok: &str) -> String {
        let append = self.cx.spec.log_append && !self.r.pm(250);
        let mut w = self.cx.world.borrow_mut();
        let g = &mut w.fgs[fg];
        if append {
            if let Some(p) = &g.last_log {
                return p.clone();
            }
        }
        let name = format!(".{id}_{base}.log.{}_{tok}", g.log_ver);
        g.log_ver += 1;
        let p = self.cx.path(&join(part, &name));
        g.last_log = Some(p.clone());
        p
    }

    fn gen_rows(
        &mut self,
        n: usize,
        part: &str,
        vals: &BTreeMap<String, Val>,
        a: usize,
        seq: &mut u64,
    ) -> Rows {
        let (ts, ver) = {
            let w = self.cx.world.borrow();
            (w.acts[a].ts.clone(), w.acts[a].ver)
        };
        let mut out: Rows = Vec::new();
        let mut used = BTreeSet::new();
        for _ in 0..n {
            let k = if n > 50 {
                self.fresh_key()
            } else {
                self.new_key()
            };
            if n <= 50 && !self.cx.spec.append_only() {
                if !used.insert(k.clone()) || self.key_in_partition(&k, part) {
                    continue;
                }
                let at = (part.to_string(), k.clone());
                let mut w = self.cx.world.borrow_mut();
                if w.taken
                    .get(&at)
                    .is_some_and(|b| *b == a || !w.acts[*b].dead && w.acts[*b].done_at.is_none())
                {
                    continue;
                }
                w.taken.insert(at, a);
            }
            if n > 50 {
                self.cx
                    .world
                    .borrow_mut()
                    .taken
                    .insert((part.to_string(), k.clone()), a);
            }
            *seq += 1;
            let v = if self.cx.spec.partitioned() {
                vals.clone()
            } else {
                // unpartitioned: partition columns, if any, are ordinary
                BTreeMap::new()
            };
            out.push(self.gen_row(&k, &v, part, &ts, *seq, ver));
        }
        out
    }
    /// Keys are unique per partition, counting what pending writers hold.
    fn key_in_partition(&self, k: &str, part: &str) -> bool {
        let w = self.cx.world.borrow();
        w.fgs.iter().enumerate().any(|(i, g)| {
            g.part == part
                && (g.images.iter().any(|im| im.rows.iter().any(|r| r.key == k))
                    || g.deltas.iter().any(|d| d.rows.iter().any(|r| r.key == k)))
                && g.replaced_by.is_none()
                || w.acts.iter().any(|a| {
                    !a.dead
                        && a.done_at.is_none()
                        && g.part == part
                        && (a
                            .images
                            .iter()
                            .any(|(f, im)| *f == i && im.rows.iter().any(|r| r.key == k))
                            || a.deltas
                                .iter()
                                .any(|(f, d)| *f == i && d.rows.iter().any(|r| r.key == k)))
                })
        })
    }

    fn write_kind(&self) -> AKind {
        if self.cx.spec.mor {
            AKind::Delta
        } else {
            AKind::Commit
        }
    }

    async fn insert(&mut self) -> Step {
        let op = *self.r.pick(&["INSERT", "BULK_INSERT", "UPSERT"]);
        let a = self.begin(self.write_kind(), op);
        let mut writes = Vec::new();
        let mut seq = 0;
        for _ in 0..self.r.us(1, 3) {
            let (part, vals) = self.pick_partition();
            let n = if self.r.pm(40) {
                0
            } else if self.cx.spec.bulk > 0 && self.r.pm(600) {
                self.r
                    .us(self.cx.spec.bulk as usize / 2, self.cx.spec.bulk as usize)
            } else {
                self.r.us(1, 6)
            };
            let rows = self.gen_rows(n, &part, &vals, a, &mut seq);
            if rows.is_empty() && n > 0 {
                continue;
            }
            let fg = self.new_fg(part, vals);
            writes.push(W::Base { fg, rows });
        }
        self.commit(a, writes, vec![]).await
    }

    async fn upsert(&mut self, delete: bool) -> Step {
        let op = if delete { "DELETE" } else { "UPSERT" };
        let mut live = self.live(true);
        self.r.shuffle(&mut live);
        live.truncate(self.r.us(1, 3));
        if live.is_empty() {
            return if delete { Ok(()) } else { self.insert().await };
        }
        let a = self.begin(self.write_kind(), op);
        let (ts, ver) = {
            let w = self.cx.world.borrow();
            (w.acts[a].ts.clone(), w.acts[a].ver)
        };
        let mut writes = Vec::new();
        let mut seq = 0u64;
        for fg in live {
            let (part, vals, has_logs, compacting) = {
                let w = self.cx.world.borrow();
                let g = &w.fgs[fg];
                let from = g.images.last().map_or(String::new(), |i| norm(&i.inst));
                (
                    g.part.clone(),
                    g.vals.clone(),
                    g.deltas.iter().any(|d| norm(&d.inst) > from) || g.last_log.is_some(),
                    g.compacting.is_some(),
                )
            };
            let pv = if self.cx.spec.partitioned() {
                vals.clone()
            } else {
                BTreeMap::new()
            };
            let old = self.rows_of(fg);
            let as_log = self.cx.spec.mor && (has_logs || compacting || self.r.pm(850));
            let mut chosen: Vec<usize> = (0..old.len()).collect();
            self.r.shuffle(&mut chosen);
            if self.cx.spec.bulk == 0 || self.r.coin() {
                chosen.truncate(self.r.us(1, 4));
            }
            let keep: Rows = old
                .iter()
                .enumerate()
                .filter(|(i, _)| !chosen.contains(i))
                .map(|(_, r)| r.clone())
                .collect();
            if delete {
                let keys: Vec<String> = chosen.iter().map(|i| old[*i].key.clone()).collect();
                if as_log {
                    if keys.is_empty() {
                        continue;
                    }
                    writes.push(W::Log {
                        fg,
                        rows: vec![],
                        dels: keys,
                    });
                } else {
                    writes.push(W::Base { fg, rows: keep });
                }
                continue;
            }
            let mut new: Rows = Vec::new();
            let mut seen = BTreeSet::new();
            for i in &chosen {
                if !seen.insert(old[*i].key.clone()) {
                    continue;
                }
                seq += 1;
                new.push(self.gen_row(&old[*i].key, &pv, &part, &ts, seq, ver));
            }
            if self.r.pm(350) {
                let n = self.r.us(1, 3);
                let more = self.gen_rows(n, &part, &vals, a, &mut seq);
                new.extend(more.into_iter().filter(|r| !seen.contains(&r.key)));
            }
            if as_log {
                if new.is_empty() {
                    continue;
                }
                writes.push(W::Log {
                    fg,
                    rows: new,
                    dels: vec![],
                });
            } else if self.cx.spec.append_only() {
                let mut rows = old.clone();
                rows.extend(new);
                writes.push(W::Base { fg, rows });
            } else {
                let mut rows = keep;
                // deleted keys of the same name stay out; replaced rows come back in any order
                let nk: BTreeSet<&String> = new.iter().map(|r| &r.key).collect();
                rows.retain(|r| !nk.contains(&r.key));
                rows.extend(new.iter().cloned());
                self.r.shuffle(&mut rows);
                writes.push(W::Base { fg, rows });
            }
        }
        self.commit(a, writes, vec![]).await
    }

    async fn overwrite(&mut self, table: bool) -> Step {
        let live = self.live(false);
        let a = self.begin(
            AKind::Replace,
            if table {
                "INSERT_OVERWRITE_TABLE"
            } else {
                "INSERT_OVERWRITE"
            },
        );
        let mut seq = 0;
        let mut writes = Vec::new();
        let mut parts = BTreeSet::new();
        let k = self.r.us(if table { 0 } else { 1 }, 2);
        for _ in 0..k {
            let (part, vals) = self.pick_partition();
            parts.insert(part.clone());
            // nothing of the partition may be written by somebody else meanwhile
            let n = self.r.us(1, 4);
            let rows = self.gen_fresh(n, &part, &vals, a, &mut seq);
            let fg = self.new_fg(part, vals);
            writes.push(W::Base { fg, rows });
        }
        let replaced: Vec<usize> = {
            let w = self.cx.world.borrow();
            live.into_iter()
                .filter(|f| table || parts.contains(&w.fgs[*f].part))
                .collect()
        };
        self.commit(a, writes, replaced).await
    }
    /// Rows with new keys only.
    fn gen_fresh(
        &mut self,
        n: usize,
        part: &str,
        vals: &BTreeMap<String, Val>,
        a: usize,
        seq: &mut u64,
    ) -> Rows {
        let (ts, ver) = {
            let w = self.cx.world.borrow();
            (w.acts[a].ts.clone(), w.acts[a].ver)
        };
        let v = if self.cx.spec.partitioned() {
            vals.clone()
        } else {
            BTreeMap::new()
        };
        (0..n)
            .map(|_| {
                let k = {
                    let mut w = self.cx.world.borrow_mut();
                    w.keys += 1;
                    let k = format!("k{}", w.keys - 1);
                    w.taken.insert((part.to_string(), k.clone()), a);
                    k
                };
                *seq += 1;
                self.gen_row(&k, &v, part, &ts, *seq, ver)
            })
            .collect()
    }

    async fn delete_partition(&mut self) -> Step {
        let live = self.live(false);
        if live.is_empty() {
            return Ok(());
        }
        let f = *self.r.pick(&live);
        let replaced: Vec<usize> = {
            let w = self.cx.world.borrow();
            live.into_iter()
                .filter(|x| w.fgs[*x].part == w.fgs[f].part)
                .collect()
        };
        let a = self.begin(AKind::Replace, "DELETE_PARTITION");
        self.commit(a, vec![], replaced).await
    }

    async fn cluster(&mut self) -> Step {
        let live = self.live(false);
        if live.is_empty() {
            return Ok(());
        }
        let f = *self.r.pick(&live);
        let (part, vals) = {
            let w = self.cx.world.borrow();
            (w.fgs[f].part.clone(), w.fgs[f].vals.clone())
        };
        let mut group: Vec<usize> = {
            let w = self.cx.world.borrow();
            live.into_iter()
                .filter(|x| {
                    w.fgs[*x].part == part
                        // file groups without log files, as clustering of them needs no merging
                        && (!self.cx.spec.append_only() || w.fgs[*x].deltas.is_empty())
                })
                .collect()
        };
        self.r.shuffle(&mut group);
        group.truncate(self.r.us(1, 3));
        if group.is_empty() {
            return Ok(());
        }
        let a = self.begin(AKind::Replace, "CLUSTER");
        let mut rows: Rows = group.iter().flat_map(|g| self.rows_of(*g)).collect();
        let ver = self.cx.world.borrow().acts[a].ver;
        let _ = ver;
        self.r.shuffle(&mut rows);
        let k = self.r.us(1, 2).min(rows.len().max(1));
        let mut writes = Vec::new();
        let per = rows.len().div_ceil(k).max(1);
        let chunks: Vec<Rows> = if rows.is_empty() {
            vec![vec![]]
        } else {
            rows.chunks(per).map(|c| c.to_vec()).collect()
        };
        for c in chunks {
            let fg = self.new_fg(part.clone(), vals.clone());
            writes.push(W::Base { fg, rows: c });
        }
        self.commit(a, writes, group).await
    }

    async fn compact_schedule(&mut self) -> Step {
        if !self.cx.spec.mor || self.cx.spec.append_only() {
            return Ok(());
        }
        let live = self.live(false);
        let plan: Vec<usize> = {
            let w = self.cx.world.borrow();
            live.into_iter()
                .filter(|f| {
                    let g = &w.fgs[*f];
                    let from = g.images.last().map_or(String::new(), |i| norm(&i.inst));
                    g.deltas.iter().any(|d| norm(&d.inst) > from)
                })
                .collect()
        };
        if plan.is_empty() {
            return Ok(());
        }
        let plan: Vec<usize> = plan.into_iter().filter(|_| !self.r.pm(250)).collect();
        if plan.is_empty() {
            return Ok(());
        }
        let a = self.begin(AKind::Compaction, "COMPACT");
        self.cx.world.borrow_mut().acts[a].touched = plan.clone();
        for f in &plan {
            self.cx.world.borrow_mut().fgs[*f].lock = Some(a);
        }
        let r = self.step().await;
        {
            let mut w = self.cx.world.borrow_mut();
            w.unlock(a);
            if r.is_err() {
                w.acts[a].dead = true;
                return r;
            }
        }
        if self.too_late(a) {
            return Ok(());
        }
        let ts = self.cx.world.borrow().acts[a].ts.clone();
        self.put_timeline(
            a,
            format!("{ts}.compaction.requested"),
            b"Obj\x01avro".to_vec(),
        );
        let mut images = Vec::new();
        for f in &plan {
            images.push((*f, self.rows_of(*f)));
        }
        let mut w = self.cx.world.borrow_mut();
        w.probe("compaction scheduled");
        for (f, rows) in images {
            w.acts[a].images.push((
                f,
                Image {
                    act: a,
                    inst: ts.clone(),
                    rows,
                    path: String::new(),
                    size: 0,
                    cleaned: false,
                    purged: false,
                },
            ));
            let g = &mut w.fgs[f];
            g.compacting = Some(a);
            g.cur_base = ts.clone();
            g.log_ver = 1;
            g.last_log = None;
        }
        // parked until somebody runs it
        w.acts[a].crashed = true;
        Ok(())
    }

    async fn compact_run(&mut self) -> Step {
        let a = {
            let w = self.cx.world.borrow();
            (0..w.acts.len()).find(|i| {
                let x = &w.acts[*i];
                x.kind == AKind::Compaction
                    && x.done_at.is_none()
                    && x.crashed
                    && !x.dead
                    && x.started
            })
        };
        let Some(a) = a else {
            self.compact_schedule().await?;
            return Ok(());
        };
        // undo an earlier attempt
        let left: Vec<String> = {
            let mut w = self.cx.world.borrow_mut();
            w.acts[a].crashed = false;
            std::mem::take(&mut w.acts[a].files)
        };
        let mut todo = left.clone();
        while let Some(p) = todo.pop() {
            if let Err(e) = self.step().await {
                let mut w = self.cx.world.borrow_mut();
                todo.push(p);
                w.acts[a].files = todo;
                w.acts[a].crashed = true;
                return Err(e);
            }
            self.cx.store.delete_now(&p);
        }
        let writes: Vec<W> = {
            let mut w = self.cx.world.borrow_mut();
            // the table's schema as of now
            let ver = w
                .acts
                .iter()
                .filter(|x| x.wrote && !x.dead && x.done_at.is_some())
                .map(|x| x.ver)
                .max();
            w.acts[a].ver = ver.unwrap_or(w.ver);
            let im = std::mem::take(&mut w.acts[a].images);
            im.into_iter()
                .map(|(fg, i)| W::Base { fg, rows: i.rows })
                .collect()
        };
        let backup: Vec<(usize, Rows)> = writes
            .iter()
            .map(|x| match x {
                W::Base { fg, rows } => (*fg, rows.clone()),
                _ => unreachable!(),
            })
            .collect();
        let saved: Vec<(usize, String, u32, Option<String>)> = {
            let w = self.cx.world.borrow();
            backup
                .iter()
                .map(|(f, _)| {
                    let g = &w.fgs[*f];
                    (*f, g.cur_base.clone(), g.log_ver, g.last_log.clone())
                })
                .collect()
        };
        let _ = saved;
        let res = self.commit_steps(a, writes).await;
        let mut w = self.cx.world.borrow_mut();
        match res {
            Ok(()) => {
                for (f, _) in &backup {
                    w.fgs[*f].compacting = None;
                }
                w.probe("compaction done");
                Ok(())
            }
            Err(e) => {
                let ts = w.acts[a].ts.clone();
                w.acts[a].crashed = true;
                w.acts[a].images = backup
                    .into_iter()
                    .map(|(f, rows)| {
                        (
                            f,
                            Image {
                                act: a,
                                inst: ts.clone(),
                                rows,
                                path: String::new(),
                                size: 0,
                                cleaned: false,
                                purged: false,
                            },
                        )
                    })
                    .collect();
                w.probe("compaction crashed");
                Err(e)
            }
        }
    }

    async fn clean(&mut self) -> Step {
        let keep = self.r.us(1, 3);
        let drop_replaced = self.r.pm(700);
        let a = self.begin(AKind::Other, "clean");
        let ts = self.cx.world.borrow().acts[a].ts.clone();
        // (file group, image)
        let mut doomed: Vec<(usize, usize)> = Vec::new();
        {
            let w = self.cx.world.borrow();
            for (k, g) in w.fgs.iter().enumerate() {
                if g.lock.is_some() || g.compacting.is_some() {
                    continue;
                }
                let replaced = g.replaced_by.is_some_and(|r| w.acts[r].done_at.is_some());
                let n = if replaced && drop_replaced {
                    g.images.len()
                } else {
                    g.images.len().saturating_sub(keep)
                };
                let mut order: Vec<usize> = (0..g.images.len()).collect();
                order.sort_by_key(|i| norm(&g.images[*i].inst));
                for i in order.into_iter().take(n) {
                    if !g.images[i].purged {
                        doomed.push((k, i));
                    }
                }
            }
        }
        if doomed.is_empty() {
            self.cx.world.borrow_mut().acts[a].dead = true;
            return Ok(());
        }
        self.step().await?;
        self.put_timeline(a, format!("{ts}.clean.requested"), b"Obj\x01".to_vec());
        self.step().await?;
        self.put_timeline(a, format!("{ts}.clean.inflight"), b"Obj\x01".to_vec());
        for (f, i) in doomed {
            let (paths, stop) = {
                let mut w = self.cx.world.borrow_mut();
                let g = &mut w.fgs[f];
                if g.lock.is_some() && g.replaced_by.is_none() {
                    // a writer came in between; leave it to a later clean
                    (vec![], true)
                } else {
                    g.images[i].cleaned = true;
                    let inst = g.images[i].inst.clone();
                    let mut p: BTreeSet<String> = BTreeSet::new();
                    for d in g.deltas.iter().filter(|d| d.base == inst) {
                        p.extend(d.logs.iter().cloned());
                    }
                    let img = g.images[i].path.clone();
                    let mut v: Vec<String> = vec![self.cx.path(&img)];
                    v.extend(p);
                    (v, false)
                }
            };
            if stop {
                continue;
            }
            self.cx.world.borrow_mut().probe("slice cleaned");
            for p in paths {
                self.step().await?;
                self.cx.store.delete_now(&p);
            }
            self.cx.world.borrow_mut().fgs[f].images[i].purged = true;
        }
        self.step().await?;
        self.put_timeline(a, format!("{ts}.clean"), b"Obj\x01".to_vec());
        Ok(())
    }

    async fn archive(&mut self) -> Step {
        let keep = self.r.us(1, 3);
        let list: Vec<usize> = {
            let w = self.cx.world.borrow();
            let mut all: Vec<usize> = (0..w.acts.len())
                .filter(|i| {
                    let a = &w.acts[*i];
                    a.kind != AKind::Other && !a.dead && a.archived_at.is_none()
                })
                .collect();
            all.sort_by_key(|i| norm(&w.acts[*i].ts));
            let complete = all
                .iter()
                .filter(|i| w.acts[**i].done_at.is_some() && w.acts[**i].undone_at.is_none())
                .count();
            let mut n = complete.saturating_sub(keep);
            let mut out = Vec::new();
            for i in all {
                let a = &w.acts[i];
                // a write whose undoing stopped half-way is pending again
                if n == 0 || a.done_at.is_none() || a.undone_at.is_some() {
                    break;
                }
                if !a
                    .replaced
                    .iter()
                    .all(|f| w.fgs[*f].images.iter().all(|im| im.purged))
                {
                    break;
                }
                n -= 1;
                out.push(i);
            }
            out
        };
        for i in list {
            let files = {
                let mut f = self.cx.world.borrow().acts[i].timeline_files.clone();
                f.dedup();
                f
            };
            let last = files.len() - 1;
            for (k, p) in files.iter().enumerate() {
                self.step().await?;
                {
                    let w = self.cx.world.borrow();
                    if w.acts[i].undone_at.is_some() {
                        return Ok(());
                    }
                }
                self.cx.store.delete_now(p);
                if k == last {
                    let mut w = self.cx.world.borrow_mut();
                    let ev = w.events;
                    w.events += 1;
                    w.acts[i].archived_at = Some(ev);
                    w.probe("instant archived");
                }
            }
            self.cx.store.put_now(
                &self.cx.hoodie("archived/.commits_.archive.1_1-0-1"),
                vec![1, 2, 3],
            );
        }
        Ok(())
    }

    async fn rollback(&mut self, undo: bool) -> Step {
        let target = {
            let w = self.cx.world.borrow();
            if undo {
                // the newest write of all, finished, nothing after it
                let mut v: Vec<usize> = (0..w.acts.len())
                    .filter(|i| w.acts[*i].kind != AKind::Other && !w.acts[*i].dead)
                    .collect();
                v.sort_by_key(|i| norm(&w.acts[*i].ts));
                // archiving keeps some instants, and so does this
                let active = v
                    .iter()
                    .filter(|i| {
                        w.acts[**i].done_at.is_some()
                            && w.acts[**i].archived_at.is_none()
                            && w.acts[**i].undone_at.is_none()
                    })
                    .count();
                v.last().copied().filter(|i| {
                    let a = &w.acts[*i];
                    a.done_at.is_some()
                        && a.archived_at.is_none()
                        && a.undone_at.is_none()
                        && matches!(a.kind, AKind::Commit | AKind::Delta)
                        && active > 1
                        && a.touched.iter().all(|f| {
                            let g = &w.fgs[*f];
                            g.lock.is_none()
                                && g.compacting.is_none()
                                && g.images.iter().all(|im| !im.cleaned)
                        })
                })
            } else {
                (0..w.acts.len()).find(|i| {
                    let a = &w.acts[*i];
                    a.crashed
                        && (a.done_at.is_none() || a.undone_at.is_some())
                        && !a.dead
                        && a.kind != AKind::Compaction
                        && a.kind != AKind::Other
                })
            }
        };
        let Some(t) = target else { return Ok(()) };
        let r = self.begin(AKind::Other, "rollback");
        let (rts, tts, tkind, touched) = {
            let mut w = self.cx.world.borrow_mut();
            if !undo {
                w.acts[t].crashed = false;
            }
            (
                w.acts[r].ts.clone(),
                w.acts[t].ts.clone(),
                w.acts[t].kind,
                w.acts[t].touched.clone(),
            )
        };
        if undo {
            let mut w = self.cx.world.borrow_mut();
            for f in &touched {
                w.fgs[*f].lock = Some(t);
            }
        }
        let res = self.rollback_steps(r, t, &rts, &tts, tkind, undo).await;
        let mut w = self.cx.world.borrow_mut();
        match &res {
            Ok(()) => {
                w.acts[t].dead = true;
                w.unlock(t);
                w.probe(if undo {
                    "completed write undone"
                } else {
                    "failed write rolled back"
                });
            }
            Err(_) => {
                w.probe("rollback crashed");
                if w.acts[t].done_at.is_none() || w.acts[t].undone_at.is_some() {
                    // picked up again by the next rollback
                    w.acts[t].crashed = true;
                    if w.acts[t].undone_at.is_some() {
                        w.acts[t].kind = tkind;
                    }
                } else {
                    w.unlock(t);
                }
            }
        }
        res
    }

    async fn rollback_steps(
        &mut self,
        r: usize,
        t: usize,
        rts: &str,
        tts: &str,
        tkind: AKind,
        undo: bool,
    ) -> Step {
        self.step().await?;
        self.put_timeline(r, format!("{rts}.rollback.requested"), b"Obj\x01".to_vec());
        self.step().await?;
        self.put_timeline(r, format!("{rts}.rollback.inflight"), b"Obj\x01".to_vec());
        if undo {
            self.step().await?;
            self.cx
                .store
                .delete_now(&self.cx.hoodie(&format!("{tts}.{}", tkind.suffix())));
            let mut w = self.cx.world.borrow_mut();
            let ev = w.events;
            w.events += 1;
            w.acts[t].undone_at = Some(ev);
            // log blocks go to the slice before, again
            let n = w.acts.len() as u32;
            for f in w.acts[t].touched.clone() {
                let g = &w.fgs[f];
                let last = g
                    .images
                    .iter()
                    .filter(|i| {
                        i.act != t && w.acts[i.act].undone_at.is_none() && !w.acts[i.act].dead
                    })
                    .max_by_key(|i| norm(&i.inst))
                    .map(|i| i.inst.clone());
                let g = &mut w.fgs[f];
                if let Some(last) = last.filter(|l| *l != g.cur_base) {
                    g.cur_base = last;
                    g.log_ver = 20 + n;
                    g.last_log = None;
                }
            }
        }
        let (files, logs) = {
            let w = self.cx.world.borrow();
            (w.acts[t].files.clone(), w.acts[t].logs.clone())
        };
        for p in files {
            self.step().await?;
            self.cx.store.delete_now(&p);
        }
        let fgs: BTreeSet<usize> = logs.iter().map(|x| x.0).collect();
        for f in fgs {
            self.step().await?;
            let (part, id, base) = {
                let w = self.cx.world.borrow();
                let g = &w.fgs[f];
                // the slice the blocks went to, even if a compaction was scheduled since
                let name = logs
                    .iter()
                    .find(|x| x.0 == f)
                    .unwrap()
                    .1
                    .rsplit('/')
                    .next()
                    .unwrap()
                    .to_string();
                let base = name[1 + g.id.len() + 1..]
                    .split('.')
                    .next()
                    .unwrap()
                    .to_string();
                (g.part.clone(), g.id.clone(), base)
            };
            let tok = format!("0-{}-{}", self.r.below(40), self.r.below(90));
            let p = if self.cx.world.borrow().fgs[f].cur_base == base {
                self.log_path(f, &part, &id, &base, &tok)
            } else {
                let name = format!(".{id}_{base}.log.9_{tok}");
                self.cx.path(&join(&part, &name))
            };
            self.cx.world.borrow_mut().probe("rollback block");
            append(self.cx, &p, rollback_block(rts, tts));
        }
        let pend: Vec<String> = match tkind {
            AKind::Commit => vec![format!("{tts}.inflight"), format!("{tts}.commit.requested")],
            k => vec![
                format!("{tts}.{}.inflight", k.suffix()),
                format!("{tts}.{}.requested", k.suffix()),
            ],
        };
        for f in pend {
            self.step().await?;
            self.cx.store.delete_now(&self.cx.hoodie(&f));
        }
        self.cx.world.borrow_mut().acts[t].dead = true;
        self.step().await?;
        self.put_timeline(r, format!("{rts}.rollback"), b"Obj\x01".to_vec());
        Ok(())
    }

    async fn savepoint(&mut self) -> Step {
        let ts = {
            let w = self.cx.world.borrow();
            let t = w.timeline(usize::MAX);
            if t.is_empty() {
                return Ok(());
            }
            w.acts[*self.r.pick(&t)].ts.clone()
        };
        self.step().await?;
        self.cx
            .store
            .put_now(&self.cx.hoodie(&format!("{ts}.savepoint.inflight")), vec![]);
        self.step().await?;
        self.cx.store.put_now(
            &self.cx.hoodie(&format!("{ts}.savepoint")),
            b"Obj\x01".to_vec(),
        );
        Ok(())
    }

    async fn empty(&mut self) -> Step {
        let a = self.begin(self.write_kind(), "UPSERT");
        self.commit(a, vec![], vec![]).await
    }

    async fn noise(&mut self) -> Step {
        self.step().await?;
        let ts = {
            let mut w = self.cx.world.borrow_mut();
            w.next_ts(&mut self.r)
        };
        let part = {
            let w = self.cx.world.borrow();
            let p: Vec<String> = w
                .fgs
                .iter()
                .filter(|g| !g.images.is_empty())
                .map(|g| g.part.clone())
                .collect();
            if p.is_empty() {
                None
            } else {
                Some(self.r.pick(&p).clone())
            }
        };
        let n = self.r.below(22);
        let h = |f: &str| self.cx.hoodie(f);
        let mut files: Vec<(String, Vec<u8>)> = match n {
            0 => vec![(h(&format!("{ts}.clean.requested")), vec![])],
            1 => vec![(h(".aux/.bootstrap/.partitions/0"), vec![1])],
            2 => vec![(h(&format!(".{ts}.commit.crc")), vec![1, 2])],
            3 => vec![(h("20240101.commit"), b"{}".to_vec())],
            4 => vec![(h("abc.commit"), b"{}".to_vec())],
            5 => vec![(h(&format!("{ts}.commit.tmp")), b"{}".to_vec())],
            6 => vec![(h(&format!("{ts}.indexing")), vec![])],
            7 => vec![(h(".commit"), vec![])],
            8 => vec![(h("2024010101010é.commit"), b"{}".to_vec())],
            9 => vec![(h(&format!("{ts}9.commit.requested")), vec![])],
            10 => vec![(h(&format!("{ts}.restore.inflight")), vec![])],
            11 => vec![(
                h("metadata/files/files-0000-0_0-1-1_00000000000000.hfile"),
                vec![7; 20],
            )],
            12 => vec![(
                h("metadata/.hoodie/20990101000000000.commit"),
                b"{}".to_vec(),
            )],
            13 => vec![(
                h("hoodie.properties.backup"),
                b"hoodie.table.name=other\n".to_vec(),
            )],
            14 => vec![(h(&format!("{ts}.logcompaction.requested")), vec![])],
            15 => vec![
                (h("20241399999999999.commit"), b"{}".to_vec()),
                (h("aaaaaaaaaaaaaaaaa.deltacommit"), vec![]),
            ],
            16 => vec![
                (h(&format!("{ts}.COMMIT")), b"{}".to_vec()),
                (h(&format!("{ts}.commit.completed")), vec![]),
            ],
            17 => vec![(h(".schema/20240101000000000.schemacommit"), b"{}".to_vec())],
            _ => vec![],
        };
        if let Some(p) = part {
            let id = {
                let w = self.cx.world.borrow();
                let i: Vec<String> = w
                    .fgs
                    .iter()
                    .filter(|g| g.part == p)
                    .map(|g| g.id.clone())
                    .collect();
                self.r.pick(&i).clone()
            };
            let d = |f: &str| self.cx.path(&join(&p, f));
            match n {
                18 => files.push((d(&format!(".{id}_0-1-2_{ts}.parquet.crc")), vec![9; 8])),
                19 => files.push((d("_SUCCESS"), vec![])),
                20 => files.push((d(".DS_Store"), vec![0; 30])),
                21 => {
                    let base = self
                        .cx
                        .world
                        .borrow()
                        .fgs
                        .iter()
                        .find(|g| g.id == id)
                        .unwrap()
                        .cur_base
                        .clone();
                    if base.is_empty() {
                        return Ok(());
                    }
                    files.push((
                        d(&format!(".{id}_{base}.log.1_0-1-1.cdc")),
                        b"#HUDI#cdc".to_vec(),
                    ))
                }
                _ => {}
            }
        }
        for (p, b) in files {
            self.cx.store.put_now(&p, b);
        }
        Ok(())
    }
}

fn append(cx: &Cx, path: &str, block: Vec<u8>) {
    let mut data = cx
        .store
        .get_now(path)
        .map(|b| b.to_vec())
        .unwrap_or_default();
    data.extend_from_slice(&block);
    let mut w = cx.world.borrow_mut();
    let b = w.bounds.entry(path.to_string()).or_insert_with(|| vec![0]);
    b.push(data.len());
    drop(w);
    cx.store.put_now(path, data);
}

fn delete_block(ts: &str, keys: &[String]) -> Vec<u8> {
    let mut c = Vec::new();
    c.extend_from_slice(&3u32.to_be_bytes());
    let body = keys.join(",");
    c.extend_from_slice(&(body.len() as u32).to_be_bytes());
    c.extend_from_slice(body.as_bytes());
    block(1, &[(0, ts.to_string()), (3, "0".to_string())], &c)
}

fn gen_ord(ty: &Ty, r: &mut Rng) -> Val {
    let n = r.range(-2, 4);
    match ty {
        Ty::I32 => Val::I32(n as i32),
        Ty::Date => Val::I32(19_700 + n as i32),
        Ty::I64 => Val::I64(n),
        Ty::TsUs => Val::I64(1_700_000_000_000_000 + n * 1_000_003),
        Ty::TsMs => Val::I64(1_700_000_000_000 + n * 1_003),
        Ty::F64 => Val::F64(n as f64 / 2.0 + 0.25),
        _ => Val::Str(r.pick(&["a", "b", "B", "aa", "10", "9", "é"]).to_string()),
    }
}
