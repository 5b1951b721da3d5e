//! One plan, one execution.

use crate::core::{Core, Exec, Outcome};
use crate::plan::*;
use crate::reader::{Shared, Violation};
use crate::rng::{hash, Rng};
use crate::store::SimStore;
use crate::world::{Harmed, World};
use crate::writer::Cx;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Report {
    pub violation: Option<Violation>,
    pub trace: u64,
    pub steps: u64,
    pub sim_us: u64,
    pub requests: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub stats: BTreeMap<String, u64>,
    pub log: Vec<String>,
}

pub type SqlFn = fn(
    Rc<Shared>,
    u32,
    u32,
    u64,
) -> futures::future::LocalBoxFuture<'static, Result<(), Violation>>;

pub type PyFn = fn(&Shared, u32, u32, &ROp) -> Result<(), Violation>;

/// How runs are driven, and what executes queries.
#[derive(Clone, Copy)]
pub struct Hooks {
    pub drive: fn(&mut Exec, &Arc<Core>) -> Outcome,
    pub sql: Option<SqlFn>,
    pub py: Option<PyFn>,
}

static HOOKS: std::sync::OnceLock<Hooks> = std::sync::OnceLock::new();

pub fn set_hooks(h: Hooks) {
    let _ = HOOKS.set(h);
}

pub fn hooks() -> Hooks {
    *HOOKS.get_or_init(|| Hooks {
        drive: |e, _| e.run(),
        sql: None,
        py: None,
    })
}

pub const STORE: &str = "sim://s1";
const MAX_STEPS: u64 = 3_000_000;

fn add(m: &mut BTreeMap<String, u64>, k: &str, n: u64) {
    *m.entry(k.to_string()).or_insert(0) += n;
}

async fn damage(cx: Rc<Cx>, plan: Rc<Plan>, fired: Rc<RefCell<BTreeMap<String, u64>>>) {
    while cx.world.borrow().writers_live > 0 {
        cx.core.sleep(3_000).await;
    }
    let mut ds = plan.damage.clone();
    ds.sort_by_key(|d| d.after);
    let mut at = 0;
    let mut open = false;
    for d in ds {
        if d.after > 0 && !open {
            cx.world.borrow_mut().damaged = true;
            open = true;
        }
        if d.after > at {
            cx.core.sleep(d.after - at).await;
            at = d.after;
        }
        if harm(&cx, &d) {
            add(
                &mut fired.borrow_mut(),
                &format!("at rest: {:?} {:?}", d.harm, d.target),
                1,
            );
        }
    }
    cx.world.borrow_mut().damaged = true;
}

/// Change a stored file. False when there is none of the kind, or nothing changed.
fn harm(cx: &Cx, d: &Damage) -> bool {
    let mut r = Rng::new(d.seed);
    let mut w = cx.world.borrow_mut();
    let hoodie = cx.hoodie("");
    let mut paths: Vec<String> = match d.target {
        Target::Base => {
            let all = r.pm(250);
            let live = w.view(usize::MAX, "99999999999999999");
            w.fgs
                .iter()
                .enumerate()
                .flat_map(|(k, g)| g.images.iter().enumerate().map(move |(i, im)| (k, i, im)))
                .filter(|(k, i, im)| {
                    !im.cleaned && (all || live.iter().any(|f| f.fg == *k && f.image == *i))
                })
                .map(|(_, _, im)| cx.path(&im.path))
                .collect()
        }
        Target::Log => {
            let live = w.view(usize::MAX, "99999999999999999");
            live.iter()
                .flat_map(|f| {
                    f.deltas
                        .iter()
                        .flat_map(|d| w.fgs[f.fg].deltas[*d].logs.clone())
                        .collect::<Vec<_>>()
                })
                .collect()
        }
        Target::Commit => w
            .timeline(usize::MAX)
            .into_iter()
            .map(|a| cx.hoodie(&format!("{}.{}", w.acts[a].ts, w.acts[a].kind.suffix())))
            .collect(),
        Target::Pending => cx
            .store
            .paths_now(&hoodie)
            .into_iter()
            .filter(|p| {
                (p.ends_with(".requested") || p.ends_with("inflight")) && !p.contains("/metadata/")
            })
            .collect(),
        Target::Foreign => cx
            .store
            .paths_now(&format!("{}/", cx.spec.base))
            .into_iter()
            .filter(|p| {
                let f = p.rsplit('/').next().unwrap();
                f == ".hoodie_partition_metadata"
                    || f.ends_with(".crc")
                    || f.ends_with(".rollback")
                    || f.ends_with(".clean")
                    || f.ends_with(".savepoint")
                    || p.contains("/.hoodie/metadata/")
                    || p.contains("/archived/")
                    || p.contains("/.temp/")
            })
            .collect(),
        Target::Props => vec![cx.hoodie("hoodie.properties")],
    };
    paths.sort();
    paths.dedup();
    if paths.is_empty() {
        return false;
    }
    let path = r.pick(&paths).clone();
    let Some(old) = cx.store.get_now(&path).map(|b| b.to_vec()) else {
        return false;
    };
    let bounds = w.bounds.get(&path).cloned().unwrap_or_default();
    let mut new = old.clone();
    let mut wild = d.target == Target::Props;
    match d.harm {
        Harm::Delete => {
            cx.store.delete_now(&path);
            if !matches!(d.target, Target::Pending | Target::Foreign) {
                w.harmed.insert(path, Harmed { wild, gone: true });
            }
            return true;
        }
        Harm::Truncate => {
            if old.is_empty() {
                return false;
            }
            let cut = match r.below(4) {
                0 if d.target != Target::Log => 0,
                1 => old.len() - 1 - r.us(0, 30.min(old.len() - 1)),
                2 if !bounds.is_empty() => (r.pick(&bounds) + r.us(1, 40)).min(old.len() - 1),
                _ => r.us(0, old.len() - 1),
            };
            if d.target == Target::Log && bounds.contains(&cut) {
                return false; // reads as a shorter log, which nothing in the format can tell
            }
            new.truncate(cut);
        }
        Harm::ZeroTail => {
            if old.is_empty() {
                return false;
            }
            let cut = if r.coin() {
                r.us(0, old.len() - 1)
            } else {
                old.len() - 1 - r.us(0, 60.min(old.len() - 1))
            };
            for b in new[cut..].iter_mut() {
                *b = 0;
            }
        }
        Harm::Garbage => {
            wild = true;
            let a = r.us(0, old.len());
            let n = *r.pick(&[1usize, 4, 8, 40, 4000]);
            for b in new.iter_mut().skip(a).take(n) {
                *b = r.next() as u8;
            }
            if r.pm(150) {
                new = (0..r.us(0, 200)).map(|_| r.next() as u8).collect();
            }
        }
        Harm::Flip => {
            wild = true;
            if old.is_empty() {
                return false;
            }
            for _ in 0..*r.pick(&[1, 1, 3]) {
                // mostly near the start of a block, where the structure is
                let a = if !bounds.is_empty() && r.pm(700) {
                    (r.pick(&bounds) + r.us(0, 60)).min(old.len() - 1)
                } else {
                    r.us(0, old.len() - 1)
                };
                new[a] ^= 1 << r.below(8);
            }
        }
    }
    if new == old {
        return false;
    }
    cx.store.put_now(&path, new);
    if !matches!(d.target, Target::Pending | Target::Foreign) {
        w.harmed.insert(path, Harmed { wild, gone: false });
    }
    true
}

/// Runs on the calling thread, whose entropy and time zone are set up by the caller.
pub fn execute(plan: &Plan, keep_log: bool) -> Report {
    let core = Core::new(keep_log);
    let spec = Rc::new(plan.spec.clone());
    let store = Arc::new(SimStore::new(
        core.clone(),
        hash(&[plan.seed, 0x570E]),
        plan.lat.clone(),
        &spec.base,
        crate::config::GLOBAL_CONF,
    ));
    hudi_core::storage::sim::register(STORE, store.clone());
    let mut world = World::new(spec.clone());
    world.writers_live = plan.writers.len();
    let cx = Rc::new(Cx {
        core: core.clone(),
        store: store.clone(),
        world: RefCell::new(world),
        spec: spec.clone(),
    });
    cx.init(plan.raw_props.as_deref());
    if let Some(g) = &plan.global_conf {
        store.put_now(crate::config::GLOBAL_CONF, g.clone().into_bytes());
    }
    store.set_faults(plan.faults.clone());
    let mut exec = Exec::new(
        core.clone(),
        plan.sched_seed,
        plan.eager,
        plan.spurious,
        MAX_STEPS,
    );
    let plan = Rc::new(plan.clone());
    let sh = Rc::new(Shared {
        core: core.clone(),
        store: store.clone(),
        cx: cx.clone(),
        plan: plan.clone(),
        url: format!("{STORE}/{}", spec.base),
        spawner: exec.spawner(),
        viol: RefCell::new(None),
        stats: RefCell::new(BTreeMap::new()),
        next_actor: Cell::new(200),
    });
    let sp = exec.spawner();
    for (i, w) in plan.writers.iter().enumerate() {
        let cx = cx.clone();
        let w = w.clone();
        sp.spawn(i as u32, async move { cx.writer(&w).await });
    }
    let fired = Rc::new(RefCell::new(BTreeMap::new()));
    sp.spawn(90, damage(cx.clone(), plan.clone(), fired.clone()));
    for (i, rp) in plan.readers.iter().enumerate() {
        sp.spawn(
            crate::core::FIRST_READER + i as u32,
            sh.clone().reader(i, rp.clone()),
        );
    }
    let out = (hooks().drive)(&mut exec, &core);
    let mut violation = sh.viol.borrow().clone();
    if violation.is_none() {
        match out {
            Outcome::Done => {}
            Outcome::Stuck => {
                violation = Some(Violation {
                    class: "hang".into(),
                    op: "any".into(),
                    detail: "no task can run and no event is due".into(),
                })
            }
            Outcome::TooManySteps => {
                violation = Some(Violation {
                    class: "runaway".into(),
                    op: "any".into(),
                    detail: format!("more than {MAX_STEPS} scheduling steps"),
                })
            }
        }
    }
    let trespass = store.trespass();
    if violation.is_none() || plan.property == "P15" {
        if let Some(t) = trespass.first() {
            violation = Some(Violation {
                class: "trespass".into(),
                op: "store".into(),
                detail: t.clone(),
            });
        }
    }
    exec.abandon();
    hudi_core::storage::sim::unregister(STORE);
    let mut faults: BTreeMap<String, u64> = fired.borrow().clone();
    for f in store.fired() {
        add(&mut faults, &format!("request: {:?}", f.kind), 1);
    }
    let w = cx.world.borrow();
    let crashes = w.acts.iter().filter(|a| a.crashed).count() as u64;
    if crashes > 0 {
        add(&mut faults, "writer crash", crashes);
    }
    let mut probes: BTreeMap<String, u64> =
        w.probes.iter().map(|(k, n)| (k.to_string(), *n)).collect();
    let done = w.acts.iter().filter(|a| a.done_at.is_some()).count() as u64;
    add(&mut probes, "action completed", done);
    let mut stats = sh.stats.borrow().clone();
    if plan.lat.tail > 0 {
        add(&mut stats, "runs with latency tail", 1);
    }
    let steps = core.steps();
    Report {
        violation,
        trace: hash(&[core.trace_hash(), store.fingerprint()]),
        steps,
        sim_us: core.now(),
        requests: store.counts().0,
        faults,
        probes,
        stats,
        log: core.take_log(),
    }
}

/// Whether the property of the plan is about this kind of violation.
pub fn relevant(property: &str, v: &Violation) -> bool {
    match property {
        "P15" => v.class == "trespass",
        _ => v.class != "trespass",
    }
}

/// Execute on a fresh thread, so that every thread-local starts the same.
pub fn isolated(plan: &Plan, keep_log: bool) -> Report {
    let p = plan.clone();
    match &p.spec.tz {
        Some(z) => std::env::set_var("TZ", z),
        None => std::env::set_var("TZ", "UTC"),
    }
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .name("sim".into())
        .spawn(move || {
            crate::interpose::seed_entropy(hash(&[p.seed, 0xE17]));
            crate::watch::enter();
            let r = execute(&p, keep_log);
            crate::watch::leave();
            r
        })
        .unwrap();
    match h.join() {
        Ok(mut r) => {
            if r.violation
                .as_ref()
                .is_some_and(|v| !relevant(&plan.property, v))
            {
                *r.stats
                    .entry("other property's violation".into())
                    .or_insert(0) += 1;
                r.violation = None;
            }
            r
        }
        Err(_) => {
            crate::watch::leave();
            hudi_core::storage::sim::unregister(STORE);
            Report {
                violation: Some(Violation {
                    class: "panic".into(),
                    op: "simulation".into(),
                    detail: crate::watch::last_panic(),
                }),
                ..Default::default()
            }
        }
    }
}
