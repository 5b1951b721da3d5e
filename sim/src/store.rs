//! The simulated object store: in-memory objects behind seeded latencies, listing orders, body
//! chunking and injected faults.

use crate::core::{Core, BACKGROUND, FIRST_READER};
use crate::rng::{hash, hash_str, Rng};
use async_trait::async_trait;
use bytes::Bytes;
use futures::stream::{self, BoxStream};
use futures::StreamExt;
use object_store::path::Path;
use object_store::{
    Attributes, GetOptions, GetRange, GetResult, GetResultPayload, ListResult, MultipartUpload,
    ObjectMeta, ObjectStore, PutMultipartOpts, PutOptions, PutPayload, PutResult, Result,
};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Range;
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum FaultKind {
    /// The request fails (5xx, connection refused).
    Err,
    /// The response body breaks off with an error after some chunks.
    Body,
    /// The request takes very long.
    Slow,
    /// The request is never answered.
    Stall,
    /// Access denied.
    Denied,
}

pub const FAULT_KINDS: [FaultKind; 5] = [
    FaultKind::Err,
    FaultKind::Body,
    FaultKind::Slow,
    FaultKind::Stall,
    FaultKind::Denied,
];

/// Hits requests `nth .. nth + len` of operation `op` of `actor`.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fault {
    pub actor: u32,
    pub op: u32,
    pub nth: u32,
    pub len: u32,
    pub kind: FaultKind,
}

/// Upper bounds in microseconds.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Latency {
    pub request: u64,
    pub chunk: u64,
    pub chunk_size: u64,
    /// Per mille of requests taking a hundred times longer.
    pub tail: u64,
}

#[derive(Clone, Debug)]
struct Obj {
    data: Bytes,
    mtime: u64,
}

#[derive(Clone, Debug)]
pub struct Fired {
    pub actor: u32,
    pub op: u32,
    pub kind: FaultKind,
    pub path: String,
}

#[derive(Default)]
struct State {
    objs: BTreeMap<String, Obj>,
    /// actor -> (operation, requests so far in it)
    at: BTreeMap<u32, (u32, u32)>,
    total: BTreeMap<u32, u64>,
    faults: Vec<Fault>,
    fired: Vec<Fired>,
    /// Violations of read-only or path confinement, as found.
    trespass: Vec<String>,
    requests: u64,
    chunks: u64,
}

pub struct SimStore {
    core: Arc<Core>,
    seed: u64,
    lat: Latency,
    /// Readers may only touch paths under this, or `also`.
    base: String,
    also: String,
    st: Mutex<State>,
}

impl std::fmt::Debug for SimStore {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("SimStore")
    }
}
impl std::fmt::Display for SimStore {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("SimStore")
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Get,
    Head,
    List,
}

struct Ticket {
    actor: u32,
    id: u64,
    fault: Option<FaultKind>,
    pre: u64,
    post: u64,
}

fn err(msg: &str) -> object_store::Error {
    object_store::Error::Generic {
        store: "sim",
        source: msg.to_string().into(),
    }
}

impl SimStore {
    pub fn new(core: Arc<Core>, seed: u64, lat: Latency, base: &str, also: &str) -> Self {
        SimStore {
            core,
            seed,
            lat,
            base: base.trim_matches('/').to_string(),
            also: also.trim_matches('/').to_string(),
            st: Mutex::new(State::default()),
        }
    }
    pub fn set_faults(&self, f: Vec<Fault>) {
        self.st.lock().unwrap().faults = f;
    }
    pub fn clear_faults(&self, actor: u32) {
        self.st.lock().unwrap().faults.retain(|f| f.actor != actor);
    }
    /// Requests of `actor` from now on belong to operation `op`.
    pub fn begin_op(&self, actor: u32, op: u32) {
        self.st.lock().unwrap().at.insert(actor, (op, 0));
    }
    pub fn op_requests(&self, actor: u32) -> u32 {
        self.st.lock().unwrap().at.get(&actor).map_or(0, |x| x.1)
    }
    pub fn fired_len(&self) -> usize {
        self.st.lock().unwrap().fired.len()
    }
    /// Faults fired since `mark` in `actor`'s requests (or in requests nobody can be blamed for).
    pub fn fired_since(&self, mark: usize, actor: u32) -> Vec<Fired> {
        self.st.lock().unwrap().fired[mark..]
            .iter()
            .filter(|f| f.actor == actor || f.actor == BACKGROUND)
            .cloned()
            .collect()
    }
    pub fn fired(&self) -> Vec<Fired> {
        self.st.lock().unwrap().fired.clone()
    }
    pub fn trespass(&self) -> Vec<String> {
        self.st.lock().unwrap().trespass.clone()
    }
    pub fn counts(&self) -> (u64, u64) {
        let s = self.st.lock().unwrap();
        (s.requests, s.chunks)
    }

    // ---- direct, atomic access for writers, damage and checks ----
    pub fn put_now(&self, path: &str, data: Vec<u8>) {
        let now = self.core.now();
        let len = data.len();
        self.core.trace(hash(&[hash_str(path), len as u64, 1]), || {
            format!("  put {path} ({len} bytes)")
        });
        self.st.lock().unwrap().objs.insert(
            path.trim_matches('/').to_string(),
            Obj {
                data: data.into(),
                mtime: now,
            },
        );
    }
    pub fn delete_now(&self, path: &str) -> bool {
        self.core
            .trace(hash(&[hash_str(path), 2]), || format!("  delete {path}"));
        self.st
            .lock()
            .unwrap()
            .objs
            .remove(path.trim_matches('/'))
            .is_some()
    }
    pub fn get_now(&self, path: &str) -> Option<Bytes> {
        self.st
            .lock()
            .unwrap()
            .objs
            .get(path.trim_matches('/'))
            .map(|o| o.data.clone())
    }
    pub fn paths_now(&self, prefix: &str) -> Vec<String> {
        let p = prefix.trim_matches('/').to_string();
        self.st
            .lock()
            .unwrap()
            .objs
            .keys()
            .filter(|k| k.starts_with(&p))
            .cloned()
            .collect()
    }
    /// Hash of every path and its bytes.
    pub fn fingerprint(&self) -> u64 {
        let s = self.st.lock().unwrap();
        let mut h = 0;
        for (k, v) in s.objs.iter() {
            h = hash(&[h, hash_str(k), v.data.len() as u64, v.mtime]);
            for c in v.data.chunks(8) {
                let mut b = [0u8; 8];
                b[..c.len()].copy_from_slice(c);
                h = h.rotate_left(5) ^ u64::from_le_bytes(b).wrapping_mul(0x9e3779b97f4a7c15);
            }
        }
        h
    }

    // ---- requests ----
    fn draw(&self, id: u64, actor: u32, what: u64, max: u64) -> u64 {
        if max == 0 {
            0
        } else {
            hash(&[self.seed, actor as u64, id, what]) % (max + 1)
        }
    }

    fn ticket(&self, kind: Kind, path: &str) -> Ticket {
        let actor = self.core.actor();
        let mut s = self.st.lock().unwrap();
        let t = s.total.entry(actor).or_insert(0);
        *t += 1;
        let id = *t;
        s.requests += 1;
        let at = s.at.entry(actor).or_insert((0, 0));
        let (op, nth) = *at;
        at.1 += 1;
        let p = path.trim_matches('/');
        if actor >= FIRST_READER {
            let inside = p == self.base || p.starts_with(&format!("{}/", self.base));
            if !inside && p != self.also {
                s.trespass
                    .push(format!("{kind:?} {p:?} outside of {:?}", self.base));
            }
        }
        let fault = s
            .faults
            .iter()
            .find(|f| {
                f.actor == actor
                    && f.op == op
                    && nth >= f.nth
                    && nth < f.nth.saturating_add(f.len)
                    && (f.kind != FaultKind::Body || kind == Kind::Get)
            })
            .map(|f| f.kind);
        if let Some(kind) = fault {
            s.fired.push(Fired {
                actor,
                op,
                kind,
                path: p.to_string(),
            });
        }
        drop(s);
        let mut pre = self.draw(id, actor, 1, self.lat.request);
        let mut post = self.draw(id, actor, 2, self.lat.request);
        if self.draw(id, actor, 3, 999) < self.lat.tail {
            pre = pre * 100 + 1000;
            post *= 10;
        }
        if fault == Some(FaultKind::Slow) {
            pre = pre * 10 + 5_000_000;
        }
        self.core.trace(
            hash(&[
                hash_str(p),
                kind as u64,
                actor as u64,
                fault.map_or(0, |f| f as u64 + 1),
            ]),
            || format!("  actor {actor} op {op} req {nth}: {kind:?} {p} fault={fault:?}"),
        );
        Ticket {
            actor,
            id,
            fault,
            pre,
            post,
        }
    }

    /// Wait for the moment the request takes effect.
    async fn arrive(&self, t: &Ticket) -> Result<()> {
        if t.pre > 0 {
            self.core.sleep(t.pre).await;
        }
        match t.fault {
            Some(FaultKind::Stall) if !self.core.foreign() => {
                futures::future::pending::<()>().await;
                unreachable!()
            }
            Some(FaultKind::Err) | Some(FaultKind::Stall) => Err(err("injected request failure")),
            Some(FaultKind::Denied) => Err(object_store::Error::PermissionDenied {
                path: "sim".to_string(),
                source: "injected denial".into(),
            }),
            _ => Ok(()),
        }
    }
    async fn depart(&self, t: &Ticket) {
        if t.post > 0 {
            self.core.sleep(t.post).await;
        }
    }
    fn meta(&self, path: &str, o: &Obj) -> ObjectMeta {
        ObjectMeta {
            location: Path::parse(path).expect("stored path"),
            last_modified: chrono::DateTime::from_timestamp_micros(
                1_700_000_000_000_000 + o.mtime as i64,
            )
            .unwrap(),
            size: o.data.len(),
            e_tag: None,
            version: None,
        }
    }
    fn forbid(&self, what: &str, path: &Path) -> object_store::Error {
        let actor = self.core.actor();
        self.st
            .lock()
            .unwrap()
            .trespass
            .push(format!("{what} of {path} by reader {actor}"));
        err("writes are not accepted from readers")
    }
}

fn slice(range: &Option<GetRange>, len: usize) -> Result<Range<usize>> {
    match range {
        None => Ok(0..len),
        Some(GetRange::Bounded(r)) => {
            if r.start >= r.end || r.start >= len {
                return Err(err("range not satisfiable"));
            }
            Ok(r.start..r.end.min(len))
        }
        Some(GetRange::Offset(o)) => {
            if *o >= len {
                return Err(err("range not satisfiable"));
            }
            Ok(*o..len)
        }
        Some(GetRange::Suffix(n)) => Ok(len.saturating_sub(*n)..len),
    }
}

#[async_trait]
impl ObjectStore for SimStore {
    async fn put_opts(&self, p: &Path, _: PutPayload, _: PutOptions) -> Result<PutResult> {
        Err(self.forbid("put", p))
    }
    async fn put_multipart_opts(
        &self,
        p: &Path,
        _: PutMultipartOpts,
    ) -> Result<Box<dyn MultipartUpload>> {
        Err(self.forbid("multipart put", p))
    }
    async fn delete(&self, p: &Path) -> Result<()> {
        Err(self.forbid("delete", p))
    }
    async fn copy(&self, _: &Path, to: &Path) -> Result<()> {
        Err(self.forbid("copy", to))
    }
    async fn copy_if_not_exists(&self, _: &Path, to: &Path) -> Result<()> {
        Err(self.forbid("copy", to))
    }

    async fn get_opts(&self, location: &Path, options: GetOptions) -> Result<GetResult> {
        let path = location.as_ref().to_string();
        let t = self.ticket(if options.head { Kind::Head } else { Kind::Get }, &path);
        self.arrive(&t).await?;
        let found = self.st.lock().unwrap().objs.get(&path).cloned();
        self.depart(&t).await;
        let Some(o) = found else {
            return Err(object_store::Error::NotFound {
                path,
                source: "no such object".into(),
            });
        };
        let meta = self.meta(&path, &o);
        let r = slice(&options.range, o.data.len())?;
        let data = if options.head {
            Bytes::new()
        } else {
            o.data.slice(r.clone())
        };
        // cut the body
        let mut chunks = Vec::new();
        let mut rest = data.clone();
        let mut n = 0;
        while !rest.is_empty() {
            let k = 1 + self.draw(t.id, t.actor, 100 + n, self.lat.chunk_size) as usize;
            let k = if n > 64 {
                rest.len()
            } else {
                k.min(rest.len())
            };
            chunks.push(rest.split_to(k));
            n += 1;
        }
        self.st.lock().unwrap().chunks += n;
        let mut parts: Vec<(u64, Result<Bytes>)> = Vec::new();
        let cut = (t.fault == Some(FaultKind::Body) && !options.head)
            .then(|| self.draw(t.id, t.actor, 50, n) as usize);
        for (i, c) in chunks.into_iter().enumerate() {
            if cut == Some(i) {
                break;
            }
            parts.push((
                self.draw(t.id, t.actor, 1000 + i as u64, self.lat.chunk),
                Ok(c),
            ));
        }
        if cut.is_some() {
            parts.push((0, Err(err("injected disconnect in the body"))));
        }
        let core = self.core.clone();
        let body = stream::iter(parts)
            .then(move |(d, c)| {
                let core = core.clone();
                async move {
                    if d > 0 {
                        core.sleep(d).await;
                    }
                    c
                }
            })
            .boxed();
        Ok(GetResult {
            payload: GetResultPayload::Stream(body),
            meta,
            range: r,
            attributes: Attributes::default(),
        })
    }

    fn list(&self, prefix: Option<&Path>) -> BoxStream<'_, Result<ObjectMeta>> {
        let p = prefix.map(|p| p.as_ref().to_string()).unwrap_or_default();
        let fut = async move {
            let t = self.ticket(Kind::List, &p);
            if let Err(e) = self.arrive(&t).await {
                return stream::iter(vec![Err(e)]);
            }
            let mut out: Vec<Result<ObjectMeta>> = {
                let s = self.st.lock().unwrap();
                s.objs
                    .iter()
                    .filter(|(k, _)| p.is_empty() || k.starts_with(&format!("{p}/")))
                    .map(|(k, o)| Ok(self.meta(k, o)))
                    .collect()
            };
            self.depart(&t).await;
            Rng::new(self.draw(t.id, t.actor, 7, u64::MAX - 1)).shuffle(&mut out);
            stream::iter(out)
        };
        stream::once(fut).flatten().boxed()
    }

    async fn list_with_delimiter(&self, prefix: Option<&Path>) -> Result<ListResult> {
        let p = prefix.map(|p| p.as_ref().to_string()).unwrap_or_default();
        let t = self.ticket(Kind::List, &p);
        self.arrive(&t).await?;
        let lead = if p.is_empty() {
            String::new()
        } else {
            format!("{p}/")
        };
        let mut dirs = BTreeSet::new();
        let mut objects = Vec::new();
        {
            let s = self.st.lock().unwrap();
            for (k, o) in s.objs.range(lead.clone()..) {
                let Some(rest) = k.strip_prefix(&lead) else {
                    break;
                };
                match rest.split_once('/') {
                    Some((d, _)) => {
                        dirs.insert(format!("{lead}{d}"));
                    }
                    None => objects.push(self.meta(k, o)),
                }
            }
        }
        self.depart(&t).await;
        let mut common_prefixes: Vec<Path> = dirs
            .iter()
            .map(|d| Path::parse(d).expect("stored dir"))
            .collect();
        let mut r = Rng::new(self.draw(t.id, t.actor, 7, u64::MAX - 1));
        r.shuffle(&mut objects);
        r.shuffle(&mut common_prefixes);
        Ok(ListResult {
            common_prefixes,
            objects,
        })
    }
}
