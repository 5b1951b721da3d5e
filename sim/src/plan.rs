//! What a run does: plain data, made from a seed by `gen.rs`, stored as the replay file, and cut
//! down by the minimiser.

use crate::store::{Fault, Latency};
use crate::table::TableSpec;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
pub enum WKind {
    Insert,
    Upsert,
    Delete,
    Overwrite,
    OverwriteTable,
    DeletePartition,
    Cluster,
    CompactSchedule,
    CompactRun,
    Clean,
    Archive,
    /// Of a failed write.
    Rollback,
    /// Of the latest completed write.
    Undo,
    Savepoint,
    Evolve,
    Empty,
    Noise,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WOp {
    pub kind: WKind,
    pub seed: u64,
    pub delay: u64,
    /// Die before this step.
    pub crash: Option<u32>,
    /// Leave the file being written half-written when dying (base files only).
    pub torn: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WriterPlan {
    pub ops: Vec<WOp>,
}

/// A timestamp, resolved when the operation starts.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TSel {
    pub pick: u64,
    pub delta_ms: i64,
    pub short: bool,
    pub raw: Option<String>,
}

pub type Filters = Vec<(String, String, String)>;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum ROp {
    Open {
        opts: Vec<(String, String)>,
    },
    Snapshot {
        filters: Filters,
    },
    AsOf {
        t: TSel,
        filters: Filters,
    },
    Incr {
        s: TSel,
        e: Option<TSel>,
    },
    Slices {
        t: Option<TSel>,
        filters: Filters,
        split: Option<u64>,
        /// 0 plan only, 1 read with the table's reader, 2 with a separate reader, 3 base files only.
        read: u32,
        wait: u64,
    },
    SlicesBetween {
        s: Option<TSel>,
        e: Option<TSel>,
    },
    Schema,
    AvroSchema,
    PartSchema,
    Timeline,
    /// 0 commits, 1 deltacommits, 2 replacecommits, 3 clusterings.
    Kind(u32, bool),
    Config(u64),
    Sql(u64),
    /// Calls through the Python binding, by so many threads.
    Py {
        opts: Vec<(String, String)>,
        seed: u64,
        threads: Vec<Vec<ROp>>,
    },
    Wait(u64),
    Conc {
        ops: Vec<ROp>,
        clone: bool,
    },
    Cancel {
        op: Box<ROp>,
        polls: u32,
    },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ReaderPlan {
    /// None: after all writers and damage.
    pub start: Option<u64>,
    pub ops: Vec<ROp>,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
pub enum Target {
    Base,
    Log,
    Commit,
    Pending,
    Foreign,
    Props,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
pub enum Harm {
    Truncate,
    ZeroTail,
    Garbage,
    Flip,
    Delete,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Damage {
    pub target: Target,
    pub harm: Harm,
    pub seed: u64,
    /// So long after the writers ended.
    pub after: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub property: String,
    pub seed: u64,
    pub spec: TableSpec,
    pub writers: Vec<WriterPlan>,
    pub readers: Vec<ReaderPlan>,
    pub damage: Vec<Damage>,
    pub faults: Vec<Fault>,
    pub lat: Latency,
    pub sched_seed: u64,
    pub eager: u64,
    pub spurious: u64,
    pub global_conf: Option<String>,
    /// Raw content of hoodie.properties in place of the one made from `spec`.
    pub raw_props: Option<String>,
}

impl Plan {
    /// Rough size, for the minimiser's report.
    pub fn weight(&self) -> usize {
        fn r(o: &ROp) -> usize {
            match o {
                ROp::Py { threads, .. } => 1 + threads.iter().flatten().map(r).sum::<usize>(),
                ROp::Conc { ops, .. } => 1 + ops.iter().map(r).sum::<usize>(),
                ROp::Cancel { op, .. } => 1 + r(op),
                _ => 1,
            }
        }
        self.writers.iter().map(|w| w.ops.len()).sum::<usize>()
            + self
                .readers
                .iter()
                .map(|x| x.ops.iter().map(r).sum::<usize>())
                .sum::<usize>()
            + self.damage.len()
            + self.faults.len()
    }
}
