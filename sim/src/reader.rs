//! Readers: every operation calls the real code and compares with the reference model.

use crate::core::{timeout, Core, PollLimit, Spawner, FIRST_READER};
use crate::plan::*;
use crate::rng::Rng;
use crate::store::{FaultKind, SimStore};
use crate::table::*;
use crate::types::*;
use crate::world::*;
use crate::writer::Cx;
use futures::FutureExt;
use hudi_core::file_group::file_slice::FileSlice;
use hudi_core::file_group::reader::FileGroupReader;
use hudi_core::table::Table;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::panic::AssertUnwindSafe;
use std::rc::Rc;
use std::sync::Arc;

/// Simulated time after which an operation counts as hanging.
const PATIENCE: u64 = 3_600_000_000;

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub struct Violation {
    pub class: String,
    pub op: String,
    pub detail: String,
}

thread_local! {
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let at = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let m = format!("{m} at {at}");
        crate::watch::set_last_panic(&m);
        LAST_PANIC.with(|p| *p.borrow_mut() = m);
    }));
}

pub struct Shared {
    pub core: Arc<Core>,
    pub store: Arc<SimStore>,
    pub cx: Rc<Cx>,
    pub plan: Rc<Plan>,
    pub url: String,
    pub spawner: Spawner,
    pub viol: RefCell<Option<Violation>>,
    pub stats: RefCell<BTreeMap<String, u64>>,
    pub next_actor: Cell<u32>,
}

pub struct Handle {
    pub table: Table,
    /// States the handle may have been opened on.
    pub cands: RefCell<Vec<usize>>,
    pub ro: bool,
}

pub enum Got<T> {
    Ok(T),
    Err(String),
    /// Never answered because a request was never answered.
    Stalled,
}

pub struct Call<T> {
    pub got: Got<T>,
    pub faulted: bool,
}

pub type Verdict = Result<(), Violation>;

pub fn v(class: &str, op: &str, detail: String) -> Violation {
    Violation {
        class: class.into(),
        op: op.into(),
        detail,
    }
}

/// The part of a timestamp query the model can judge.
impl Shared {
    fn judged(&self, t: &str) -> Option<String> {
        use chrono::TimeZone;
        let ms = parse_ms(t)?;
        if self.cx.spec.tz.is_some() {
            // no clock shows the hour that is skipped in spring
            let d = chrono::DateTime::from_timestamp_millis(ms)?.naive_utc();
            let l = chrono::Local.from_local_datetime(&d).earliest()?;
            (chrono::Local
                .from_utc_datetime(&l.naive_utc())
                .naive_local()
                == d)
                .then_some(())?;
        }
        Some(norm(t))
    }
    pub fn count(&self, k: &str) {
        *self.stats.borrow_mut().entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn report(&self, r: Verdict) {
        if let Err(e) = r {
            let mut g = self.viol.borrow_mut();
            if g.is_none() {
                self.core.trace(0xBAD, || format!("VIOLATION {e:?}"));
                *g = Some(e);
            }
        }
    }
    pub fn failed(&self) -> bool {
        self.viol.borrow().is_some()
    }

    pub async fn reader(self: Rc<Self>, idx: usize, plan: ReaderPlan) {
        let actor = FIRST_READER + idx as u32;
        match plan.start {
            Some(t) => self.core.sleep(t).await,
            None => {
                while self.cx.world.borrow().writers_live > 0 || !self.cx.world.borrow().damaged {
                    self.core.sleep(5_000).await;
                }
            }
        }
        let mut handle: Option<Rc<Handle>> = None;
        for (i, op) in plan.ops.iter().enumerate() {
            if self.failed() {
                return;
            }
            self.core
                .trace(i as u64, || format!("reader {actor} op {i}: {op:?}"));
            if handle.is_none() && !matches!(op, ROp::Open { .. } | ROp::Wait(_)) {
                handle = self.open(actor, 1000 + i as u32, &[]).await;
            }
            match op {
                ROp::Open { opts } => {
                    let h = self.open(actor, i as u32, opts).await;
                    if h.is_some() {
                        handle = h;
                    }
                }
                ROp::Wait(us) => self.core.sleep(*us).await,
                op => {
                    if let Some(h) = &handle {
                        let r = self
                            .clone()
                            .exec(actor, i as u32, op.clone(), h.clone())
                            .await;
                        self.report(r);
                    }
                }
            }
        }
    }

    /// Run one call into the code under test.
    pub async fn call<T, E: std::fmt::Display>(
        &self,
        actor: u32,
        opi: u32,
        name: &str,
        fut: impl Future<Output = Result<T, E>>,
    ) -> Result<Call<T>, Violation> {
        self.store.begin_op(actor, opi);
        self.count(&format!("op {name}"));
        let mark = self.store.fired_len();
        let r = timeout(&self.core, PATIENCE, AssertUnwindSafe(fut).catch_unwind()).await;
        let fired = self.store.fired_since(mark, actor);
        let n = self.store.op_requests(actor) as usize;
        let limit = 200 + 20 * self.store.paths_now("").len();
        let out = match r {
            None if fired.iter().any(|f| f.kind == FaultKind::Stall) => Got::Stalled,
            None => {
                return Err(v(
                    "hang",
                    name,
                    format!("no answer although every request was answered ({n} requests)"),
                ))
            }
            Some(Err(_)) => {
                let m = LAST_PANIC.with(|p| p.borrow().clone());
                return Err(v("panic", name, m));
            }
            Some(Ok(Ok(x))) => Got::Ok(x),
            Some(Ok(Err(e))) => Got::Err(e.to_string()),
        };
        if n > limit {
            return Err(v("runaway", name, format!("{n} requests")));
        }
        self.count(match &out {
            Got::Ok(_) => "ok",
            Got::Err(_) => "err",
            Got::Stalled => "stalled",
        });
        if !fired.is_empty() {
            self.count(match &out {
                Got::Ok(_) => "ok under faults",
                Got::Err(_) => "err under faults",
                Got::Stalled => "stalled under faults",
            });
        }
        let text = match &out {
            Got::Err(e) => format!("error: {e}"),
            Got::Ok(_) => "ok".into(),
            Got::Stalled => "stalled".into(),
        };
        self.core.trace(crate::rng::hash_str(&text), || {
            format!("  {name} -> {text}")
        });
        // slow, refused or broken requests may fail the call
        let faulted = fired.iter().any(|f| f.kind != FaultKind::Slow);
        Ok(Call { got: out, faulted })
    }

    async fn open(&self, actor: u32, opi: u32, opts: &[(String, String)]) -> Option<Rc<Handle>> {
        let ev0 = self.cx.world.borrow().events;
        let c = match self
            .call(
                actor,
                opi,
                "open",
                Table::new_with_options(&self.url, opts.to_vec()),
            )
            .await
        {
            Ok(c) => c,
            Err(e) => {
                self.report(Err(e));
                return None;
            }
        };
        let w = self.cx.world.borrow();
        match c.got {
            Got::Ok(table) => {
                let ro = opts
                    .iter()
                    .any(|(k, x)| k == "hoodie.read.use.read_optimized.mode" && x == "true");
                Some(Rc::new(Handle {
                    table,
                    cands: RefCell::new((ev0..=w.events).collect()),
                    ro,
                }))
            }
            Got::Err(e) => {
                if !c.faulted && self.plan.raw_props.is_none() && w.harmed.is_empty() {
                    self.report(Err(v("unexpected-error", "open", e)));
                }
                None
            }
            Got::Stalled => None,
        }
    }

    pub fn resolve(&self, t: &TSel) -> String {
        if let Some(r) = &t.raw {
            return r.clone();
        }
        let w = self.cx.world.borrow();
        let mut all: Vec<i64> = w.acts.iter().filter_map(|a| parse_ms(&a.ts)).collect();
        all.sort();
        let at = if all.is_empty() {
            w.spec.epoch_ms
        } else {
            all[(t.pick % all.len() as u64) as usize]
        };
        fmt_ms(at + t.delta_ms, t.short)
    }

    pub fn exec(
        self: Rc<Self>,
        actor: u32,
        opi: u32,
        op: ROp,
        h: Rc<Handle>,
    ) -> futures::future::LocalBoxFuture<'static, Verdict> {
        async move {
            let s = &*self;
            match &op {
                ROp::Snapshot { filters } => s.rows_op(actor, opi, &h, None, filters).await,
                ROp::AsOf { t, filters } => {
                    let t = s.resolve(t);
                    s.rows_op(actor, opi, &h, Some(t), filters).await
                }
                ROp::Incr { s: a, e } => {
                    let a = s.resolve(a);
                    let e = e.as_ref().map(|e| s.resolve(e));
                    s.incr(actor, opi, &h, a, e).await
                }
                ROp::Slices {
                    t,
                    filters,
                    split,
                    read,
                    wait,
                } => {
                    let t = t.as_ref().map(|t| s.resolve(t));
                    s.slices(actor, opi, &h, t, filters, *split, *read, *wait)
                        .await
                }
                ROp::SlicesBetween { s: a, e } => {
                    let a = a.as_ref().map(|a| s.resolve(a));
                    let e = e.as_ref().map(|e| s.resolve(e));
                    s.slices_between(actor, opi, &h, a, e).await
                }
                ROp::Schema => s.schema(actor, opi, &h).await,
                ROp::AvroSchema => s.avro_schema(actor, opi, &h).await,
                ROp::PartSchema => s.part_schema(actor, opi, &h).await,
                ROp::Timeline => s.timeline(actor, opi, &h).await,
                ROp::Kind(k, desc) => s.kind(actor, opi, &h, *k, *desc).await,
                ROp::Config(seed) => crate::config::check(s, actor, opi, *seed).await,
                ROp::Sql(seed) => match crate::run::hooks().sql {
                    Some(f) => f(self.clone(), actor, opi, *seed).await,
                    None => Ok(()),
                },
                ROp::Py { .. } => match crate::run::hooks().py {
                    Some(f) => f(s, actor, opi, &op),
                    None => Ok(()),
                },
                ROp::Wait(us) => {
                    s.core.sleep(*us).await;
                    Ok(())
                }
                ROp::Open { opts } => {
                    s.open(actor, opi, opts).await;
                    Ok(())
                }
                ROp::Conc { ops, clone } => {
                    let mut rx = Vec::new();
                    for op in ops.iter() {
                        let a = s.next_actor.get();
                        s.next_actor.set(a + 1);
                        let h2 = if *clone {
                            Rc::new(Handle {
                                table: h.table.clone(),
                                cands: h.cands.clone(),
                                ro: h.ro,
                            })
                        } else {
                            h.clone()
                        };
                        let (tx, r) = futures::channel::oneshot::channel();
                        let me = self.clone();
                        let op = op.clone();
                        s.spawner.spawn(a, async move {
                            let r = me.clone().exec(a, opi, op, h2).await;
                            me.report(r);
                            let _ = tx.send(());
                        });
                        rx.push(r);
                    }
                    for r in rx {
                        let _ = r.await;
                    }
                    Ok(())
                }
                ROp::Cancel { op, polls } => {
                    let a = s.next_actor.get();
                    s.next_actor.set(a + 1);
                    let (tx, r) = futures::channel::oneshot::channel();
                    let me = self.clone();
                    let op = (**op).clone();
                    let h2 = h.clone();
                    let left = *polls;
                    s.spawner.spawn(a, async move {
                        let fut = me.clone().exec(a, opi, op, h2);
                        let r = PollLimit {
                            fut: Some(Box::pin(fut)),
                            left,
                        }
                        .await;
                        match r {
                            Some(r) => me.report(r),
                            None => me.count("cancelled"),
                        }
                        let _ = tx.send(());
                    });
                    let _ = r.await;
                    Ok(())
                }
            }
        }
        .boxed_local()
    }

    // ------------------------------------------------------------ judging

    pub fn harm_matters(&self, w: &World, ro: bool) -> (bool, bool) {
        let mut any = false;
        let mut wild = false;
        for (p, x) in &w.harmed {
            let f = p.rsplit('/').next().unwrap();
            if ro && f.starts_with('.') && f.contains(".log.") {
                continue;
            }
            any = true;
            wild |= x.wild || x.gone;
        }
        (any, wild)
    }

    /// Whether a failure of an operation on this handle has an excuse.
    fn error_excused(&self, w: &World, h: &Handle, faulted: bool) -> bool {
        self.excused(w, &h.cands.borrow(), h.ro, faulted)
    }
    pub fn excused(&self, w: &World, cands: &[usize], ro: bool, faulted: bool) -> bool {
        faulted
            || self.harm_matters(w, ro).0
            || cands.iter().any(|t| w.expired(*t) || w.undone_since(*t))
    }

    /// A file that the state at `t` (the latest of the handle if not given) needs is gone.
    fn gone_at(&self, w: &World, h: &Handle, t: Option<&str>) -> bool {
        h.cands.borrow().iter().any(|tau| {
            let tt = match t {
                Some(t) => norm(t),
                None => w.latest(*tau).map(|x| norm(&x)).unwrap_or_default(),
            };
            w.view(*tau, &tt).iter().any(|f| f.gone)
        })
    }

    /// Filters need the schema, and there is none as long as nothing was written.
    fn no_schema(&self, w: &World, h: &Handle, filters: &Filters, e: &str) -> bool {
        !filters.is_empty()
            && e.contains("Failed to resolve the latest schema")
            && self
                .schema_versions(w, h)
                .iter()
                .any(|(tau, ver)| ver.is_none() && w.latest(*tau).is_some())
    }

    /// Which partitions pass the filters: Some(true) surely, Some(false) surely not, None unknown.
    /// Err: the filters themselves are invalid.
    fn partition_passes(
        &self,
        vals: &BTreeMap<String, Val>,
        filters: &Filters,
    ) -> Result<Option<bool>, ()> {
        let spec = &self.cx.spec;
        let mut unknown = false;
        for (f, op, x) in filters {
            if !spec.parts.contains(f) || !["=", "!=", "<", "<=", ">", ">="].contains(&op.as_str())
            {
                return Err(());
            }
            let ty = &spec.cols[spec.col(f)].ty;
            let lit = parse_lit(ty, x).ok_or(())?;
            if !spec.partitioned() {
                unknown = true;
                continue;
            }
            match vals.get(f) {
                None | Some(Val::Null) => unknown = true,
                Some(x) if *x == Val::Str(String::new()) => unknown = true,
                Some(x) => {
                    let o = cmp_val(x, &lit);
                    let pass = match op.as_str() {
                        "=" => o.is_eq(),
                        "!=" => o.is_ne(),
                        "<" => o.is_lt(),
                        "<=" => o.is_le(),
                        ">" => o.is_gt(),
                        _ => o.is_ge(),
                    };
                    if !pass {
                        return Ok(Some(false));
                    }
                }
            }
        }
        Ok(if unknown { None } else { Some(true) })
    }
    fn filters_valid(&self, filters: &Filters) -> bool {
        self.partition_passes(&BTreeMap::new(), filters).is_ok()
    }

    async fn rows_op(
        &self,
        actor: u32,
        opi: u32,
        h: &Handle,
        t: Option<String>,
        filters: &Filters,
    ) -> Verdict {
        let fl: Vec<(&str, &str, &str)> = filters
            .iter()
            .map(|(a, b, c)| (a.as_str(), b.as_str(), c.as_str()))
            .collect();
        let name = if t.is_some() {
            "read_snapshot_as_of"
        } else {
            "read_snapshot"
        };
        let c = match &t {
            Some(t) => {
                self.call(actor, opi, name, h.table.read_snapshot_as_of(t, &fl))
                    .await?
            }
            None => {
                self.call(actor, opi, name, h.table.read_snapshot(&fl))
                    .await?
            }
        };
        let w = self.cx.world.borrow();
        if t.as_ref().is_some_and(|t| self.judged(t).is_none()) {
            return Ok(());
        }
        let valid = self.filters_valid(filters);
        let batches = match c.got {
            Got::Stalled => return Ok(()),
            Got::Err(e) => {
                if self.error_excused(&w, h, c.faulted)
                    || !valid
                    || self.gone_at(&w, h, t.as_deref())
                    || self.no_schema(&w, h, filters, &e)
                {
                    return Ok(());
                }
                for tau in h.cands.borrow().iter() {
                    let tt = match &t {
                        Some(t) => norm(t),
                        None => w.latest(*tau).map(|x| norm(&x)).unwrap_or_default(),
                    };
                    if !h.ro && w.view(*tau, &tt).iter().any(|f| f.unsupported) {
                        self.count("unsupported block reported");
                        return Ok(());
                    }
                }
                return Err(v(
                    "unexpected-error",
                    name,
                    format!("t={t:?} filters={filters:?}: {e}"),
                ));
            }
            Got::Ok(b) => b,
        };
        if self.harm_matters(&w, h.ro).1 {
            return Ok(());
        }
        let rows = match self.cx.spec.canon_batches(&batches) {
            Ok(r) => r,
            Err(e) => return Err(v("wrong-type", name, e)),
        };
        let got = bag(rows.iter().map(|s| s.as_str()));
        self.count(if got.is_empty() {
            "empty result"
        } else {
            "nonempty result"
        });
        if !valid {
            return Ok(());
        }
        let mut keep = Vec::new();
        let mut why = String::new();
        let mut excused = false;
        for tau in h.cands.borrow().iter() {
            let tt = match &t {
                Some(t) => norm(t),
                None => w.latest(*tau).map(|x| norm(&x)).unwrap_or_default(),
            };
            let views = w.view(*tau, &tt);
            if w.undone_since(*tau) || views.iter().any(|f| f.gone) {
                excused = true;
                keep.push(*tau);
                continue;
            }
            match self.match_rows(&w, &views, filters, &got, h.ro) {
                Ok(()) => keep.push(*tau),
                Err(e) => {
                    if std::env::var_os("HSIM_ROWS").is_some() {
                        eprintln!("got {got:#?}\nstate {tau} as of {tt}");
                        for f in &views {
                            let texts =
                                |r: &Rows| r.iter().map(|r| r.text.clone()).collect::<Vec<_>>();
                            eprintln!(
                                "{} {}: base {:#?} rows {:#?}",
                                w.fgs[f.fg].part,
                                w.fgs[f.fg].id,
                                texts(&f.base_rows),
                                texts(&f.rows)
                            );
                        }
                    }
                    why = format!("state {tau} as of {tt}: {e}")
                }
            }
        }
        if keep.is_empty() {
            return Err(v(
                "wrong-rows",
                name,
                format!("t={t:?} filters={filters:?} ro={}: {why}", h.ro),
            ));
        }
        if excused {
            self.count("not judged: files gone");
        }
        *h.cands.borrow_mut() = keep;
        Ok(())
    }

    fn match_rows(
        &self,
        w: &World,
        views: &[FgView],
        filters: &Filters,
        got: &BTreeMap<&str, i64>,
        ro: bool,
    ) -> Result<(), String> {
        let mut left = got.clone();
        let mut may: BTreeMap<&str, Vec<&str>> = BTreeMap::new();
        let mut missing = Vec::new();
        for f in views {
            let g = &w.fgs[f.fg];
            let rows = if ro { &f.base_rows } else { &f.rows };
            match self.partition_passes(&g.vals, filters).unwrap() {
                Some(false) => {}
                None => may
                    .entry(&g.part)
                    .or_default()
                    .extend(rows.iter().map(|r| r.text.as_str())),
                Some(true) => {
                    for r in rows {
                        if !take(&mut left, &r.text) {
                            missing.push(r.text.clone());
                        }
                    }
                }
            }
        }
        if !missing.is_empty() {
            return Err(format!(
                "{} rows missing, e.g. {}; extra {:?}",
                missing.len(),
                missing[0],
                first(&left)
            ));
        }
        for (p, rows) in may {
            let mut l2 = left.clone();
            let n = rows.iter().filter(|r| take(&mut l2, r)).count();
            if n == rows.len() {
                left = l2;
            } else if !self.cx.spec.partitioned() {
                return Err(format!(
                    "unpartitioned table: {} of {} rows returned",
                    n,
                    rows.len()
                ));
            } else if n > 0 {
                return Err(format!(
                    "partition {p:?} returned in part: {n} of {}",
                    rows.len()
                ));
            }
        }
        match first(&left) {
            Some(x) => Err(format!(
                "{} unexpected rows, e.g. {x}",
                left.values().sum::<i64>()
            )),
            None => Ok(()),
        }
    }

    async fn incr(
        &self,
        actor: u32,
        opi: u32,
        h: &Handle,
        s: String,
        e: Option<String>,
    ) -> Verdict {
        let name = "read_incremental_records";
        let c = self
            .call(
                actor,
                opi,
                name,
                h.table.read_incremental_records(&s, e.as_deref()),
            )
            .await?;
        let w = self.cx.world.borrow();
        if self.judged(&s).is_none() || e.as_ref().is_some_and(|e| self.judged(e).is_none()) {
            return Ok(());
        }
        let lo = norm(&s);
        let hi = |tau: usize| match &e {
            Some(e) => Some(norm(e)),
            None => w.latest(tau).map(|x| norm(&x)),
        };
        let what = format!("({s},{e:?}]");
        let inside = |x: &str, hi: &str| {
            let n = norm(x);
            n > lo && n.as_str() <= hi
        };
        let batches = match c.got {
            Got::Stalled => return Ok(()),
            Got::Err(err) => {
                if self.error_excused(&w, h, c.faulted) || self.gone_at(&w, h, e.as_deref()) {
                    return Ok(());
                }
                for tau in h.cands.borrow().iter() {
                    let Some(hi) = hi(*tau) else { continue };
                    let bad = w.view(*tau, &hi).iter().any(|f| {
                        f.deltas
                            .iter()
                            .map(|d| &w.fgs[f.fg].deltas[*d])
                            .any(|d| !d.dels.is_empty() && inside(&d.inst, &hi))
                    });
                    if bad && !h.ro {
                        return Ok(());
                    }
                }
                return Err(v("unexpected-error", name, format!("{what}: {err}")));
            }
            Got::Ok(b) => b,
        };
        if !self.cx.spec.populate_meta || self.harm_matters(&w, h.ro).1 {
            return Ok(());
        }
        let rows = match self.cx.spec.canon_batches(&batches) {
            Ok(r) => r,
            Err(e) => return Err(v("wrong-type", name, e)),
        };
        let got = bag(rows.iter().map(|s| s.as_str()));
        self.count(if got.is_empty() {
            "empty result"
        } else {
            "nonempty result"
        });
        let mut keep = Vec::new();
        let mut why = String::new();
        for tau in h.cands.borrow().iter() {
            let Some(hi) = hi(*tau) else {
                if got.is_empty() {
                    keep.push(*tau);
                } else {
                    why = "rows from an empty timeline".into();
                }
                continue;
            };
            let views = w.view(*tau, &hi);
            let archived = w.acts.iter().any(|a| {
                a.archived_at.is_some_and(|x| x < *tau || x >= *tau) && inside(&a.ts, &hi)
            });
            // the row is there, but the commit that moved it there is not listed any more
            if archived || w.undone_since(*tau) || views.iter().any(|f| f.gone) {
                keep.push(*tau);
                self.count("not judged: window archived or cleaned");
                continue;
            }
            let mut left = got.clone();
            let mut missing = None;
            for f in &views {
                let rows = if h.ro { &f.base_rows } else { &f.rows };
                for r in rows.iter().filter(|r| inside(&r.ct, &hi)) {
                    if !take(&mut left, &r.text) {
                        missing.get_or_insert(r.text.clone());
                    }
                }
            }
            if !h.ro {
                for f in &views {
                    for d in f.deltas.iter().map(|d| &w.fgs[f.fg].deltas[*d]) {
                        if inside(&d.inst, &hi) {
                            for r in &d.rows {
                                // beaten by a version from before the window
                                let beaten = f.rows.iter().any(|x| {
                                    x.key == r.key && !inside(&x.ct, &hi) && x.text != r.text
                                });
                                if beaten {
                                    take(&mut left, &r.text);
                                }
                            }
                        }
                    }
                }
            }
            if let Some(m) = missing {
                why = format!("state {tau}: missing {m}; extra {:?}", first(&left));
            } else if let Some(x) = first(&left) {
                why = format!("state {tau}: unexpected {x}");
            } else {
                keep.push(*tau);
            }
        }
        if keep.is_empty() {
            return Err(v("wrong-rows", name, format!("{what} ro={}: {why}", h.ro)));
        }
        *h.cands.borrow_mut() = keep;
        Ok(())
    }

    fn check_plan(
        &self,
        w: &World,
        tau: usize,
        tt: &str,
        filters: &Filters,
        slices: &[FileSlice],
    ) -> Result<(), String> {
        let views = w.view(tau, tt);
        let mut seen = BTreeSet::new();
        for s in slices {
            let id = s.file_id().to_string();
            if !seen.insert((s.partition_path.clone(), id.clone())) {
                return Err(format!("file group {id} planned twice"));
            }
            let Some(f) = views
                .iter()
                .find(|f| w.fgs[f.fg].id == id && w.fgs[f.fg].part == s.partition_path)
            else {
                return Err(format!("unexpected slice {s}"));
            };
            if self.partition_passes(&w.fgs[f.fg].vals, filters).unwrap() == Some(false) {
                return Err(format!("slice of an excluded partition {s}"));
            }
            slice_matches(w, f, s, true)?;
        }
        for f in &views {
            let g = &w.fgs[f.fg];
            let must = match self.partition_passes(&g.vals, filters).unwrap() {
                Some(x) => x,
                None => !self.cx.spec.partitioned(),
            };
            if must && !seen.contains(&(g.part.clone(), g.id.clone())) {
                return Err(format!("no slice for file group {} in {:?}", g.id, g.part));
            }
        }
        Ok(())
    }

    #[allow(clippy::too_many_arguments)]
    async fn slices(
        &self,
        actor: u32,
        opi: u32,
        h: &Handle,
        t: Option<String>,
        filters: &Filters,
        split: Option<u64>,
        read: u32,
        wait: u64,
    ) -> Verdict {
        let fl: Vec<(&str, &str, &str)> = filters
            .iter()
            .map(|(a, b, c)| (a.as_str(), b.as_str(), c.as_str()))
            .collect();
        let name = if split.is_some() {
            "get_file_slices_splits"
        } else {
            "get_file_slices"
        };
        let tb = &h.table;
        let c = self
            .call(actor, opi, name, async {
                match (split, &t) {
                    (None, None) => tb.get_file_slices(&fl).await.map(|s| vec![s]),
                    (None, Some(t)) => tb.get_file_slices_as_of(t, &fl).await.map(|s| vec![s]),
                    (Some(n), None) => tb.get_file_slices_splits(n as usize, &fl).await,
                    (Some(n), Some(t)) => tb.get_file_slices_splits_as_of(n as usize, t, &fl).await,
                }
            })
            .await?;
        let valid = self.filters_valid(filters);
        if t.as_ref().is_some_and(|t| self.judged(t).is_none()) {
            return Ok(());
        }
        let splits = match c.got {
            Got::Stalled => return Ok(()),
            Got::Err(e) => {
                let w = self.cx.world.borrow();
                if self.error_excused(&w, h, c.faulted)
                    || !valid
                    || self.gone_at(&w, h, t.as_deref())
                    || self.no_schema(&w, h, filters, &e)
                {
                    return Ok(());
                }
                return Err(v(
                    "unexpected-error",
                    name,
                    format!("t={t:?} filters={filters:?} split={split:?}: {e}"),
                ));
            }
            Got::Ok(s) => s,
        };
        if !valid {
            return Ok(());
        }
        if let Some(n) = split {
            if splits.iter().any(|s| s.is_empty()) || splits.len() as u64 > n.max(1) {
                let l: Vec<usize> = splits.iter().map(|s| s.len()).collect();
                return Err(v("bad-split", name, format!("{n}-way split into {l:?}")));
            }
        }
        let slices: Vec<FileSlice> = splits.into_iter().flatten().collect();
        let mut judge = true;
        let mut keep = Vec::new();
        {
            let w = self.cx.world.borrow();
            let mut why = String::new();
            if w.harmed.values().any(|x| x.wild || x.gone) {
                judge = false;
            }
            for tau in h.cands.borrow().iter() {
                let tt = match &t {
                    Some(t) => norm(t),
                    None => w.latest(*tau).map(|x| norm(&x)).unwrap_or_default(),
                };
                if !judge || w.undone_since(*tau) || w.view(*tau, &tt).iter().any(|f| f.gone) {
                    judge = false;
                    keep.push(*tau);
                    continue;
                }
                match self.check_plan(&w, *tau, &tt, filters, &slices) {
                    Ok(()) => keep.push(*tau),
                    Err(e) => why = format!("state {tau} as of {tt}: {e}"),
                }
            }
            if keep.is_empty() {
                return Err(v(
                    "wrong-plan",
                    name,
                    format!("t={t:?} filters={filters:?} split={split:?}: {why}"),
                ));
            }
            *h.cands.borrow_mut() = keep.clone();
        }
        self.count(if slices.is_empty() {
            "empty result"
        } else {
            "nonempty result"
        });
        if read == 0 || slices.is_empty() {
            return Ok(());
        }
        if wait > 0 {
            self.core.sleep(wait).await;
        }
        // read them one by one
        let tt = match &t {
            Some(t) => t.clone(),
            None => h
                .table
                .timeline
                .get_latest_commit_timestamp()
                .unwrap_or_default(),
        };
        let mut var = Rng::new(opi as u64 ^ self.plan.seed.rotate_left(17));
        let mut end = vec![];
        // what was planned for the latest state needs no end (a reader of its own looks at a later timeline)
        if t.is_some() || read == 2 || !var.pm(250) {
            end.push((
                "hoodie.read.file_group.end_timestamp".to_string(),
                tt.clone(),
            ));
        }
        // the mode of a reader is its own
        let mode = var.pm(250).then(|| var.coin());
        if let Some(m) = mode {
            end.push((
                "hoodie.read.use.read_optimized.mode".to_string(),
                m.to_string(),
            ));
        }
        let rd = if read == 2 {
            let mut o: Vec<(String, String)> = h.table.hudi_options().into_iter().collect();
            o.retain(|x| !end.iter().any(|y| x.0 == y.0));
            o.sort();
            o.extend(end);
            FileGroupReader::new_with_options(&self.url, o)
        } else {
            h.table.create_file_group_reader_with_options(end)
        };
        let rd = match rd {
            Ok(r) => r,
            Err(e) => return Err(v("unexpected-error", "create reader", e.to_string())),
        };
        let mut order: Vec<usize> = (0..slices.len()).collect();
        Rng::new(opi as u64 ^ self.plan.seed).shuffle(&mut order);
        let n17 = norm(&tt);
        for i in order {
            let s = &slices[i];
            let name = [
                "",
                "read_file_slice",
                "read_file_slice (own reader)",
                "read_file_slice_by_base_file_path",
            ][read as usize];
            let ev = self.cx.world.borrow().events;
            let c = self
                .call(actor, opi + 500, name, async {
                    if read == 3 {
                        rd.read_file_slice_by_base_file_path(&s.base_file_relative_path()?)
                            .await
                    } else {
                        rd.read_file_slice(s).await
                    }
                })
                .await?;
            let w = self.cx.world.borrow();
            let ro = mode.unwrap_or(h.ro) || read == 3;
            let mut ok = false;
            let mut why = String::new();
            let harmed = self.harm_matters(&w, ro);
            let rows: Option<Vec<String>> = match &c.got {
                Got::Ok(b) => match self.cx.spec.canon_batches(std::slice::from_ref(b)) {
                    Ok(r) => Some(r),
                    Err(_) if w.harmed.values().any(|x| x.wild) => return Ok(()),
                    Err(e) => return Err(v("wrong-type", name, e)),
                },
                _ => None,
            };
            for tau in keep.iter() {
                let gone = w.undone_since(*tau) || w.view(*tau, &n17).iter().any(|f| f.gone);
                let views = w.view(*tau, &n17);
                let f = views.iter().find(|f| {
                    w.fgs[f.fg].id == s.file_id() && w.fgs[f.fg].part == s.partition_path
                });
                let (Some(f), false) = (f, gone) else {
                    ok = true;
                    continue;
                };
                match &c.got {
                    Got::Stalled => ok = true,
                    Got::Err(e) => {
                        if c.faulted || harmed.0 || w.expired(*tau) || (!ro && f.unsupported) {
                            ok = true;
                        } else if read == 2
                            && w.fgs[f.fg].deltas.iter().any(|d| {
                                !d.dels.is_empty()
                                    && norm(&d.inst) <= n17
                                    && w.acts[d.act].done_at.is_some_and(|x| x >= *tau)
                            })
                        {
                            ok = true; // its own, later timeline
                        } else {
                            why = e.clone();
                        }
                    }
                    Got::Ok(_) => {
                        // (its own reader looks at the timeline again)
                        if w.harmed.values().any(|x| x.wild || (x.gone && read == 2)) || !judge {
                            ok = true;
                            continue;
                        }
                        let rows = rows.as_ref().unwrap();
                        let got = bag(rows.iter().map(|s| s.as_str()));
                        let want = if ro { &f.base_rows } else { &f.rows };
                        let w2 = bag(want.iter().map(|r| r.text.as_str()));
                        if got == w2 {
                            ok = true;
                        } else if read == 2
                            && w.fgs[f.fg].deltas.iter().any(|d| {
                                !w.done(d.act, *tau)
                                    && norm(&d.inst) <= n17
                                    && w.acts[d.act].done_at.is_some()
                            })
                            && ev >= *tau
                        {
                            ok = true; // its own, later timeline
                        } else {
                            why = diff(&got, &w2);
                        }
                    }
                }
            }
            if !ok {
                let class = if matches!(c.got, Got::Err(_)) {
                    "unexpected-error"
                } else {
                    "wrong-rows"
                };
                return Err(v(class, name, format!("{s} as of {tt} ro={ro}: {why}")));
            }
        }
        Ok(())
    }

    async fn slices_between(
        &self,
        actor: u32,
        opi: u32,
        h: &Handle,
        s: Option<String>,
        e: Option<String>,
    ) -> Verdict {
        let name = "get_file_slices_between";
        let c = self
            .call(
                actor,
                opi,
                name,
                h.table.get_file_slices_between(s.as_deref(), e.as_deref()),
            )
            .await?;
        let w = self.cx.world.borrow();
        if [&s, &e]
            .iter()
            .any(|t| t.as_ref().is_some_and(|t| self.judged(t).is_none()))
        {
            return Ok(());
        }
        let lo = s
            .as_ref()
            .map_or("19700101000000000".to_string(), |s| norm(s));
        let slices = match c.got {
            Got::Stalled => return Ok(()),
            Got::Err(err) => {
                if self.error_excused(&w, h, c.faulted) || self.gone_at(&w, h, e.as_deref()) {
                    return Ok(());
                }
                return Err(v("unexpected-error", name, format!("({s:?},{e:?}]: {err}")));
            }
            Got::Ok(x) => x,
        };
        if self.harm_matters(&w, false).1 {
            return Ok(());
        }
        let mut keep = Vec::new();
        let mut why = String::new();
        'next: for tau in h.cands.borrow().iter() {
            let hi = match &e {
                Some(e) => norm(e),
                None => match w.latest(*tau) {
                    Some(x) => norm(&x),
                    None => {
                        if slices.is_empty() {
                            keep.push(*tau);
                        }
                        continue;
                    }
                },
            };
            let views = w.view(*tau, &hi);
            let archived = w
                .acts
                .iter()
                .any(|a| a.archived_at.is_some() && norm(&a.ts) > lo && norm(&a.ts) <= hi);
            if archived || w.undone_since(*tau) || views.iter().any(|f| f.gone) {
                keep.push(*tau);
                continue;
            }
            let mut seen = BTreeSet::new();
            for s in &slices {
                let Some(f) = views.iter().find(|f| {
                    w.fgs[f.fg].id == s.file_id() && w.fgs[f.fg].part == s.partition_path
                }) else {
                    why = format!("unexpected slice {s}");
                    continue 'next;
                };
                if !seen.insert(f.fg) {
                    why = format!("slice twice {s}");
                    continue 'next;
                }
                let touched = |k: usize| {
                    let a = &w.acts[k];
                    w.active(k, *tau) && norm(&a.ts) > lo && norm(&a.ts) <= hi
                };
                let g = &w.fgs[f.fg];
                if !g.images.iter().any(|i| touched(i.act))
                    && !g.deltas.iter().any(|d| touched(d.act))
                {
                    why = format!("slice not written in the window: {s}");
                    continue 'next;
                }
                if let Err(e) = slice_matches(&w, f, s, false) {
                    why = e;
                    continue 'next;
                }
            }
            for f in &views {
                let g = &w.fgs[f.fg];
                let touched = |k: usize| {
                    let a = &w.acts[k];
                    w.active(k, *tau)
                        && a.kind != AKind::Compaction
                        && norm(&a.ts) > lo
                        && norm(&a.ts) <= hi
                };
                if (g.images.iter().any(|i| touched(i.act))
                    || g.deltas.iter().any(|d| touched(d.act)))
                    && !seen.contains(&f.fg)
                {
                    why = format!("no slice for file group {}", g.id);
                    continue 'next;
                }
            }
            keep.push(*tau);
        }
        if keep.is_empty() {
            return Err(v("wrong-plan", name, format!("({s:?},{e:?}]: {why}")));
        }
        *h.cands.borrow_mut() = keep;
        Ok(())
    }

    // ------------------------------------------------------------ schema and timeline

    fn schema_versions(&self, w: &World, h: &Handle) -> Vec<(usize, Option<u32>)> {
        self.versions(w, &h.cands.borrow())
    }
    /// Schema versions a table may have, per state.
    pub fn versions(&self, w: &World, cands: &[usize]) -> Vec<(usize, Option<u32>)> {
        let mut out = vec![];
        for tau in cands.iter() {
            let l = w.timeline(*tau);
            let latest = l
                .iter()
                .rev()
                .find(|a| w.acts[**a].wrote)
                .map(|a| w.acts[*a].ver);
            out.push((*tau, latest));
            // a compaction has the schema of when it ran, which may be later than its instant
            let has_base = |ts: &str| w.fgs.iter().any(|g| g.images.iter().any(|i| i.inst == ts));
            let based = l.iter().rev().find(|a| has_base(&w.acts[**a].ts));
            if let Some(a) = based {
                if w.acts[*a].kind == AKind::Compaction && Some(w.acts[*a].ver) != latest {
                    out.push((*tau, Some(w.acts[*a].ver)));
                }
            }
        }
        out
    }

    async fn schema(&self, actor: u32, opi: u32, h: &Handle) -> Verdict {
        let c = self
            .call(actor, opi, "get_schema", h.table.get_schema())
            .await?;
        let w = self.cx.world.borrow();
        let vs = self.schema_versions(&w, h);
        match c.got {
            Got::Stalled => Ok(()),
            Got::Err(e) => {
                if self.error_excused(&w, h, c.faulted) || vs.iter().any(|x| x.1.is_none()) {
                    return Ok(());
                }
                Err(v("unexpected-error", "get_schema", e))
            }
            Got::Ok(s) => {
                if self.error_excused(&w, h, false) {
                    return Ok(());
                }
                let mut why = "no state".to_string();
                let mut keep = vec![];
                for (tau, ver) in vs {
                    let Some(ver) = ver else {
                        keep.push(tau);
                        continue;
                    };
                    let want = self.cx.spec.arrow_schema(ver);
                    // without populated meta fields, a schema known from commits alone need not have them
                    let bare = !self.cx.spec.populate_meta && same_schema(&s, &bare(&want));
                    if bare || same_schema(&s, &want) {
                        keep.push(tau);
                    } else {
                        why = format!(
                            "{:?}, expected version {ver}: {:?}",
                            names(&s),
                            names(&want)
                        );
                    }
                }
                if keep.is_empty() {
                    return Err(v("wrong-schema", "get_schema", why));
                }
                *h.cands.borrow_mut() = keep;
                Ok(())
            }
        }
    }

    async fn avro_schema(&self, actor: u32, opi: u32, h: &Handle) -> Verdict {
        let c = self
            .call(actor, opi, "get_avro_schema", h.table.get_avro_schema())
            .await?;
        let w = self.cx.world.borrow();
        let vs: Vec<(usize, Option<u32>)> = h
            .cands
            .borrow()
            .iter()
            .map(|tau| {
                let l = w.timeline(*tau);
                (
                    *tau,
                    l.iter()
                        .rev()
                        .find(|a| w.acts[**a].has_schema)
                        .map(|a| w.acts[*a].ver),
                )
            })
            .collect();
        match c.got {
            Got::Stalled => Ok(()),
            Got::Err(e) => {
                if self.error_excused(&w, h, c.faulted) || vs.iter().any(|x| x.1.is_none()) {
                    return Ok(());
                }
                Err(v("unexpected-error", "get_avro_schema", e))
            }
            Got::Ok(s) => {
                if self.error_excused(&w, h, false) {
                    return Ok(());
                }
                if vs
                    .iter()
                    .any(|(_, x)| x.is_none_or(|x| self.cx.spec.avro_schema(x, false) == s))
                {
                    return Ok(());
                }
                Err(v(
                    "wrong-schema",
                    "get_avro_schema",
                    format!("{s}, expected version {vs:?}"),
                ))
            }
        }
    }

    async fn part_schema(&self, actor: u32, opi: u32, h: &Handle) -> Verdict {
        let c = self
            .call(
                actor,
                opi,
                "get_partition_schema",
                h.table.get_partition_schema(),
            )
            .await?;
        let w = self.cx.world.borrow();
        let none = self.schema_versions(&w, h).iter().any(|x| x.1.is_none());
        match c.got {
            Got::Stalled => Ok(()),
            Got::Err(e) => {
                if self.error_excused(&w, h, c.faulted) || none {
                    return Ok(());
                }
                Err(v("unexpected-error", "get_partition_schema", e))
            }
            Got::Ok(s) => {
                if none || self.error_excused(&w, h, false) {
                    return Ok(());
                }
                let mut want: Vec<String> = self.cx.spec.parts.clone();
                let mut got: Vec<String> = s.fields().iter().map(|f| f.name().clone()).collect();
                for f in s.fields() {
                    if let Some(c) = self.cx.spec.cols.iter().find(|c| &c.name == f.name()) {
                        if !same_type(&c.ty.arrow(), f.data_type()) {
                            return Err(v(
                                "wrong-schema",
                                "get_partition_schema",
                                format!("{f:?}"),
                            ));
                        }
                    }
                }
                want.sort();
                got.sort();
                if want != got {
                    return Err(v(
                        "wrong-schema",
                        "get_partition_schema",
                        format!("{got:?}, expected {want:?}"),
                    ));
                }
                Ok(())
            }
        }
    }

    async fn timeline(&self, actor: u32, opi: u32, h: &Handle) -> Verdict {
        let name = "timeline";
        let tl = h.table.get_timeline();
        let got: Vec<(String, String)> = tl
            .completed_commits
            .iter()
            .map(|i| (i.timestamp.clone(), i.action.as_ref().to_string()))
            .collect();
        let insts = tl.completed_commits.clone();
        {
            let w = self.cx.world.borrow();
            if !w.harmed.values().any(|x| x.gone) {
                let mut keep = vec![];
                let mut why = String::new();
                for tau in h.cands.borrow().iter() {
                    let want = expect_timeline(&w, *tau, |_| true);
                    if want == got {
                        keep.push(*tau);
                    } else {
                        why = format!("{got:?}, expected {want:?}");
                    }
                }
                if keep.is_empty() {
                    return Err(v("wrong-timeline", name, why));
                }
                *h.cands.borrow_mut() = keep;
            }
            let last = tl.get_latest_commit_timestamp().ok();
            if last != got.last().map(|x| x.0.clone()) {
                return Err(v(
                    "wrong-timeline",
                    name,
                    format!("latest is {last:?} in {got:?}"),
                ));
            }
        }
        for i in insts {
            let c = self
                .call(
                    actor,
                    opi,
                    "get_instant_metadata_in_json",
                    tl.get_instant_metadata_in_json(&i),
                )
                .await?;
            let w = self.cx.world.borrow();
            let Some(a) = w
                .acts
                .iter()
                .find(|a| a.ts == i.timestamp && a.kind != AKind::Other)
            else {
                continue;
            };
            let gone = a.archived_at.is_some() || a.undone_at.is_some();
            match c.got {
                Got::Stalled => return Ok(()),
                Got::Err(e) => {
                    if !(c.faulted || gone || !w.harmed.is_empty()) {
                        return Err(v(
                            "unexpected-error",
                            "get_instant_metadata_in_json",
                            format!("{i:?}: {e}"),
                        ));
                    }
                }
                Got::Ok(m) => {
                    if m != a.meta && w.harmed.is_empty() {
                        return Err(v(
                            "wrong-timeline",
                            "get_instant_metadata_in_json",
                            format!("{i:?}: {m}"),
                        ));
                    }
                }
            }
        }
        Ok(())
    }

    async fn kind(&self, actor: u32, opi: u32, h: &Handle, k: u32, desc: bool) -> Verdict {
        let tl = h.table.get_timeline();
        let name = [
            "get_completed_commits",
            "get_completed_deltacommits",
            "get_completed_replacecommits",
            "get_completed_clustering_commits",
        ][k as usize];
        let ev0 = self.cx.world.borrow().events;
        let c = self
            .call(actor, opi, name, async {
                match k {
                    0 => tl.get_completed_commits(desc).await,
                    1 => tl.get_completed_deltacommits(desc).await,
                    2 => tl.get_completed_replacecommits(desc).await,
                    _ => tl.get_completed_clustering_commits(desc).await,
                }
            })
            .await?;
        let w = self.cx.world.borrow();
        match c.got {
            Got::Stalled => Ok(()),
            Got::Err(e) => {
                let gone =
                    (ev0..=w.events).any(|t| w.expired(t)) || self.error_excused(&w, h, false);
                if c.faulted || !w.harmed.is_empty() || (k == 3 && gone) {
                    return Ok(());
                }
                Err(v("unexpected-error", name, e))
            }
            Got::Ok(l) => {
                if w.harmed.values().any(|x| x.gone) || (k == 3 && !w.harmed.is_empty()) {
                    return Ok(());
                }
                let got: Vec<(String, String)> = l
                    .iter()
                    .map(|i| (i.timestamp.clone(), i.action.as_ref().to_string()))
                    .collect();
                let mut why = String::new();
                let mut taus: Vec<usize> = (ev0..=w.events).collect();
                taus.extend(h.cands.borrow().iter());
                for tau in taus {
                    let mut want = expect_timeline(&w, tau, |a| match k {
                        0 => a.kind.suffix() == "commit",
                        1 => a.kind == AKind::Delta,
                        2 => a.kind == AKind::Replace,
                        _ => a.kind == AKind::Replace && a.op == "CLUSTER",
                    });
                    if desc {
                        want.reverse();
                    }
                    if want == got {
                        return Ok(());
                    }
                    why = format!("desc={desc}: {got:?}, expected {want:?}");
                }
                Err(v("wrong-timeline", name, why))
            }
        }
    }
}

fn expect_timeline(w: &World, tau: usize, f: impl Fn(&Action) -> bool) -> Vec<(String, String)> {
    w.timeline(tau)
        .into_iter()
        .map(|a| &w.acts[a])
        .filter(|a| f(a))
        .map(|a| (a.ts.clone(), a.kind.suffix().to_string()))
        .collect()
}

fn slice_matches(w: &World, f: &FgView, s: &FileSlice, meta: bool) -> Result<(), String> {
    let g = &w.fgs[f.fg];
    let im = &g.images[f.image];
    if s.creation_instant_time() != im.inst {
        return Err(format!(
            "{s} starts at {}, expected {}",
            s.creation_instant_time(),
            im.inst
        ));
    }
    let p = s.base_file_relative_path().map_err(|e| e.to_string())?;
    if p != im.path {
        return Err(format!("slice has base file {p}, expected {}", im.path));
    }
    if meta {
        let Some(m) = &s.base_file.file_metadata else {
            return Err(format!("{s} has no file metadata"));
        };
        if m.size != im.size || m.num_records != im.rows.len() as i64 {
            return Err(format!(
                "{s}: size {} records {}, expected {} and {}",
                m.size,
                m.num_records,
                im.size,
                im.rows.len()
            ));
        }
    }
    let logs: BTreeSet<String> = s.log_files.iter().map(|l| l.file_name()).collect();
    for d in &f.deltas {
        for l in &g.deltas[*d].logs {
            let n = l.rsplit('/').next().unwrap();
            if !logs.contains(n) {
                return Err(format!("{s} lacks log file {n}"));
            }
        }
    }
    Ok(())
}

pub fn bag<'a>(it: impl Iterator<Item = &'a str>) -> BTreeMap<&'a str, i64> {
    let mut m = BTreeMap::new();
    for x in it {
        *m.entry(x).or_insert(0) += 1;
    }
    m
}
fn take<'a>(m: &mut BTreeMap<&'a str, i64>, k: &str) -> bool {
    match m.get_mut(k) {
        Some(n) if *n > 1 => {
            *n -= 1;
            true
        }
        Some(_) => {
            m.remove(k);
            true
        }
        None => false,
    }
}
fn first<'a>(m: &BTreeMap<&'a str, i64>) -> Option<&'a str> {
    m.keys().next().copied()
}
pub fn diff(got: &BTreeMap<&str, i64>, want: &BTreeMap<&str, i64>) -> String {
    let miss: Vec<&str> = want
        .iter()
        .filter(|(k, n)| got.get(*k).copied().unwrap_or(0) < **n)
        .map(|x| *x.0)
        .collect();
    let extra: Vec<&str> = got
        .iter()
        .filter(|(k, n)| want.get(*k).copied().unwrap_or(0) < **n)
        .map(|x| *x.0)
        .collect();
    format!(
        "{} missing {:?}, {} unexpected {:?}",
        miss.len(),
        miss.first(),
        extra.len(),
        extra.first()
    )
}

fn names(s: &arrow_schema::Schema) -> Vec<String> {
    s.fields()
        .iter()
        .map(|f| format!("{} {}", f.name(), f.data_type()))
        .collect()
}
fn same_schema(a: &arrow_schema::Schema, b: &arrow_schema::Schema) -> bool {
    a.fields().len() == b.fields().len()
        && a.fields()
            .iter()
            .zip(b.fields())
            .all(|(x, y)| x.name() == y.name() && same_type(x.data_type(), y.data_type()))
}

/// Without the meta fields.
fn bare(s: &arrow_schema::Schema) -> arrow_schema::Schema {
    let f = s
        .fields()
        .iter()
        .filter(|f| !META.contains(&f.name().as_str()));
    arrow_schema::Schema::new(f.cloned().collect::<Vec<_>>())
}

/// A filter literal as a value of the column's type; None when it is not one.
pub fn parse_lit(ty: &Ty, s: &str) -> Option<Val> {
    match ty {
        Ty::Bool => match s {
            "true" => Some(Val::Bool(true)),
            "false" => Some(Val::Bool(false)),
            _ => None,
        },
        Ty::I32 => s.parse().ok().map(Val::I32),
        Ty::I64 => s.parse().ok().map(Val::I64),
        Ty::F64 => s.parse().ok().map(Val::F64),
        Ty::Date => {
            let d = chrono::NaiveDate::parse_from_str(s, "%Y-%m-%d").ok()?;
            Some(Val::I32(
                (d - chrono::NaiveDate::from_ymd_opt(1970, 1, 1).unwrap()).num_days() as i32,
            ))
        }
        _ => Some(Val::Str(s.to_string())),
    }
}
