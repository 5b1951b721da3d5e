//! The reference model: what every file group logically contains at every instant, and which
//! actions are complete.

use crate::rng::Rng;
use crate::table::*;
use crate::types::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum AKind {
    Commit,
    Delta,
    Replace,
    Compaction,
    Other,
}

impl AKind {
    /// Suffix of the completed file.
    pub fn suffix(self) -> &'static str {
        match self {
            AKind::Commit | AKind::Compaction => "commit",
            AKind::Delta => "deltacommit",
            AKind::Replace => "replacecommit",
            AKind::Other => "other",
        }
    }
}

#[derive(Clone, Debug)]
pub struct Action {
    pub ts: String,
    pub kind: AKind,
    pub op: String,
    pub meta: String,
    pub ver: u32,
    /// Carries a schema and wrote at least one file.
    pub wrote: bool,
    pub has_schema: bool,
    /// Event indices.
    pub done_at: Option<usize>,
    pub undone_at: Option<usize>,
    pub archived_at: Option<usize>,
    pub crashed: bool,
    /// Gone for good: rolled back.
    pub dead: bool,
    pub started: bool,
    /// (file group index)
    pub replaced: Vec<usize>,
    pub touched: Vec<usize>,
    pub files: Vec<String>,
    /// Log files with blocks of this action: (file group, path)
    pub logs: Vec<(usize, String)>,
    pub images: Vec<(usize, Image)>,
    pub deltas: Vec<(usize, Delta)>,
    pub timeline_files: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Image {
    pub act: usize,
    pub inst: String,
    pub rows: Rows,
    pub path: String,
    pub size: usize,
    pub cleaned: bool,
    /// All its files are deleted.
    pub purged: bool,
}

#[derive(Clone, Debug)]
pub struct Delta {
    pub act: usize,
    pub inst: String,
    pub rows: Rows,
    pub dels: Vec<String>,
    /// Instant of the slice it was written to.
    pub base: String,
    pub logs: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Fg {
    pub part: String,
    pub vals: BTreeMap<String, Val>,
    pub id: String,
    pub images: Vec<Image>,
    pub deltas: Vec<Delta>,
    pub lock: Option<usize>,
    pub compacting: Option<usize>,
    pub cur_base: String,
    pub log_ver: u32,
    pub last_log: Option<String>,
    pub replaced_by: Option<usize>,
}

/// One file group as of some state and time.
pub struct FgView {
    pub fg: usize,
    pub image: usize,
    pub rows: Rows,
    pub base_rows: Rows,
    pub deltas: Vec<usize>,
    /// A needed block is of a kind readers do not support.
    pub unsupported: bool,
    /// A needed file is gone.
    pub gone: bool,
}

#[derive(Clone, Copy, Debug)]
pub struct Harmed {
    /// Its content may now decode to anything.
    pub wild: bool,
    /// It is missing, which listings cannot show.
    pub gone: bool,
}

pub struct World {
    pub spec: Rc<TableSpec>,
    pub fgs: Vec<Fg>,
    pub acts: Vec<Action>,
    pub events: usize,
    pub last_ms: i64,
    pub n_inst: u32,
    pub keys: u64,
    /// The action that last brought a key into a partition.
    pub taken: BTreeMap<(String, String), usize>,
    pub archiving: bool,
    pub ver: u32,
    pub writers_live: usize,
    pub damaged: bool,
    pub parts: BTreeMap<String, BTreeMap<String, Val>>,
    /// Offsets between blocks per log file.
    pub bounds: BTreeMap<String, Vec<usize>>,
    /// What was harmed at rest.
    pub harmed: BTreeMap<String, Harmed>,
    pub probes: BTreeMap<&'static str, u64>,
}

pub fn norm(ts: &str) -> String {
    if ts.len() == 14 {
        format!("{ts}000")
    } else {
        ts.to_string()
    }
}

pub fn fmt_ms(ms: i64, short: bool) -> String {
    let d = chrono::DateTime::from_timestamp_millis(ms).expect("instant");
    if short {
        d.format("%Y%m%d%H%M%S").to_string()
    } else {
        d.format("%Y%m%d%H%M%S%3f").to_string()
    }
}

pub fn parse_ms(ts: &str) -> Option<i64> {
    let n = norm(ts);
    if n.len() != 17 || !n.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let d = chrono::NaiveDateTime::parse_from_str(&n[..14], "%Y%m%d%H%M%S").ok()?;
    Some(d.and_utc().timestamp_millis() + n[14..].parse::<i64>().ok()?)
}

impl World {
    pub fn new(spec: Rc<TableSpec>) -> World {
        World {
            last_ms: spec.epoch_ms,
            spec,
            fgs: vec![],
            acts: vec![],
            events: 0,
            n_inst: 0,
            keys: 0,
            taken: BTreeMap::new(),
            archiving: false,
            ver: 0,
            writers_live: 0,
            damaged: false,
            parts: BTreeMap::new(),
            bounds: BTreeMap::new(),
            harmed: BTreeMap::new(),
            probes: BTreeMap::new(),
        }
    }
    pub fn probe(&mut self, k: &'static str) {
        *self.probes.entry(k).or_insert(0) += 1;
    }

    pub fn next_ts(&mut self, r: &mut Rng) -> String {
        let gap = match r.below(8) {
            0 => 1,
            1 => r.range(1, 20),
            2 => 1000,
            3 => r.range(1, 5) * 60_000,
            4 => r.range(1, 5) * 3_600_000,
            5 => 86_400_000 * r.range(1, 40),
            _ => r.range(20, 5000),
        };
        let gap = if self.spec.tz.is_some() {
            gap.min(3_600_000 * 2)
        } else {
            gap
        };
        let mut ms = self.last_ms + gap;
        let short = self.n_inst < self.spec.short_ts;
        if short || (self.n_inst > 0 && self.n_inst == self.spec.short_ts) {
            ms = (self.last_ms.div_euclid(1000) + 1 + gap / 1000) * 1000;
        } else if r.pm(250) {
            ms = (ms.div_euclid(1000) + 1) * 1000; // lands on ...000
        }
        if self.spec.tz.is_some() {
            use chrono::TimeZone;
            // clocks never show the hour skipped in spring
            while chrono::Local
                .from_local_datetime(
                    &chrono::DateTime::from_timestamp_millis(ms)
                        .unwrap()
                        .naive_utc(),
                )
                .earliest()
                .is_none()
            {
                ms += 600_000;
            }
        }
        self.last_ms = ms;
        self.n_inst += 1;
        fmt_ms(ms, short)
    }

    pub fn done(&self, a: usize, tau: usize) -> bool {
        let a = &self.acts[a];
        a.done_at.is_some_and(|d| d < tau) && !a.undone_at.is_some_and(|d| d < tau)
    }
    pub fn active(&self, a: usize, tau: usize) -> bool {
        self.done(a, tau)
            && !self.acts[a].archived_at.is_some_and(|d| d < tau)
            && self.acts[a].kind != AKind::Other
    }
    /// Completed, listed instants in time order.
    pub fn timeline(&self, tau: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..self.acts.len())
            .filter(|a| self.active(*a, tau))
            .collect();
        v.sort_by_key(|a| norm(&self.acts[*a].ts));
        v
    }
    pub fn latest(&self, tau: usize) -> Option<String> {
        self.timeline(tau).last().map(|a| self.acts[*a].ts.clone())
    }
    pub fn complete(&mut self, a: usize) {
        let ev = self.events;
        self.events += 1;
        let act = &mut self.acts[a];
        act.done_at = Some(ev);
        let images = std::mem::take(&mut act.images);
        let deltas = std::mem::take(&mut act.deltas);
        let replaced = act.replaced.clone();
        for (f, i) in images {
            let fg = &mut self.fgs[f];
            fg.cur_base = i.inst.clone();
            fg.log_ver = 1;
            fg.last_log = None;
            fg.images.push(i);
        }
        for (f, d) in deltas {
            self.fgs[f].deltas.push(d);
        }
        for f in replaced {
            self.fgs[f].replaced_by = Some(a);
        }
        self.unlock(a);
    }
    pub fn unlock(&mut self, a: usize) {
        for fg in self.fgs.iter_mut() {
            if fg.lock == Some(a) {
                fg.lock = None;
            }
        }
    }

    /// Every file group that exists and is not replaced, in the state of the first `tau` events as
    /// of `t` (17 digits).
    pub fn view(&self, tau: usize, t: &str) -> Vec<FgView> {
        let mut out = Vec::new();
        for (k, fg) in self.fgs.iter().enumerate() {
            if let Some(r) = fg.replaced_by {
                if self.done(r, tau) && norm(&self.acts[r].ts).as_str() <= t {
                    continue;
                }
            }
            let mut best: Option<usize> = None;
            for (i, im) in fg.images.iter().enumerate() {
                let n = norm(&im.inst);
                if self.done(im.act, tau)
                    && n.as_str() <= t
                    && best.is_none_or(|b| norm(&fg.images[b].inst) < n)
                {
                    best = Some(i);
                }
            }
            let Some(b) = best else { continue };
            let im = &fg.images[b];
            let from = norm(&im.inst);
            let deltas: Vec<usize> = fg
                .deltas
                .iter()
                .enumerate()
                .filter(|(_, d)| {
                    let n = norm(&d.inst);
                    self.done(d.act, tau) && n > from && n.as_str() <= t
                })
                .map(|(i, _)| i)
                .collect();
            let ds: Vec<&Delta> = deltas.iter().map(|i| &fg.deltas[*i]).collect();
            out.push(FgView {
                fg: k,
                image: b,
                base_rows: im.rows.clone(),
                rows: merge(&self.spec, &im.rows, &ds),
                unsupported: ds.iter().any(|d| !d.dels.is_empty()),
                gone: im.cleaned,
                deltas,
            });
        }
        out
    }

    /// The handle opened at `tau` may meet missing metadata or files.
    pub fn expired(&self, tau: usize) -> bool {
        self.acts.iter().enumerate().any(|(i, a)| {
            self.active(i, tau)
                && (a.archived_at.is_some_and(|e| e >= tau)
                    || a.undone_at.is_some_and(|e| e >= tau))
        }) || self.view(tau, "99999999999999999").iter().any(|v| v.gone)
    }
    /// A completed action of `tau` was undone later: its data may be gone.
    pub fn undone_since(&self, tau: usize) -> bool {
        self.acts
            .iter()
            .enumerate()
            .any(|(i, a)| self.done(i, tau) && a.undone_at.is_some_and(|e| e >= tau))
    }
}

fn ord_of<'a>(spec: &TableSpec, r: &'a Row) -> Option<&'a Val> {
    spec.ord.as_ref().map(|o| &r.vals[spec.col(o)])
}

/// Record merging: greatest ordering value, then the latest write.
pub fn merge(spec: &TableSpec, base: &Rows, deltas: &[&Delta]) -> Rows {
    if deltas.is_empty() {
        return base.clone();
    }
    if spec.append_only() {
        let mut v = base.clone();
        for d in deltas {
            v.extend(d.rows.iter().cloned());
        }
        return v;
    }
    let mut m: BTreeMap<&str, &Rc<Row>> = BTreeMap::new();
    let mut gone: BTreeSet<&str> = BTreeSet::new();
    let mut ds: Vec<&&Delta> = deltas.iter().collect();
    ds.sort_by_key(|d| norm(&d.inst));
    for r in base {
        put(spec, &mut m, r);
    }
    for d in ds {
        for k in &d.dels {
            m.remove(k.as_str());
            gone.insert(k);
        }
        for r in &d.rows {
            put(spec, &mut m, r);
        }
    }
    m.values().map(|r| (*r).clone()).collect()
}

fn put<'a>(spec: &TableSpec, m: &mut BTreeMap<&'a str, &'a Rc<Row>>, r: &'a Rc<Row>) {
    match m.get(r.key.as_str()) {
        Some(old) if wins(spec, old, r) => {}
        _ => {
            m.insert(&r.key, r);
        }
    }
}

/// Whether `old` beats `new`.
pub fn wins(spec: &TableSpec, old: &Row, new: &Row) -> bool {
    if let (Some(a), Some(b)) = (ord_of(spec, old), ord_of(spec, new)) {
        match cmp_val(a, b) {
            std::cmp::Ordering::Greater => return true,
            std::cmp::Ordering::Less => return false,
            _ => {}
        }
    }
    norm(&old.ct) > norm(&new.ct)
}
