//! A plan from a property and a seed. Every seed draws its own mixture (swarm testing): which
//! features the table has, which actions the writers take, which operations the readers do.

use crate::plan::*;
use crate::rng::{hash, hash_str, Rng};
use crate::store::*;
use crate::table::*;
use crate::types::*;
use std::collections::BTreeMap;

pub const PROPERTIES: [&str; 20] = [
    "P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13",
    "P14", "P15", "P16", "P17", "P18", "P19", "P20",
];

#[derive(Clone, Copy, PartialEq)]
enum R {
    Snapshot,
    Filtered,
    AsOf,
    Incr,
    Slices,
    SlicesFiltered,
    Between,
    Schema,
    Avro,
    Part,
    Timeline,
    Kind,
    Reopen,
    Wait,
    Conc,
    Cancel,
    Config,
    Sql,
    Py,
}

/// What a property's runs look like. Probabilities are per mille.
struct Profile {
    mor: u64,
    writers: (usize, usize),
    wops: (usize, usize),
    /// Weights over write operations, multiplied by a random subset.
    w: Vec<(WKind, u64)>,
    crash: u64,
    torn: u64,
    readers: (usize, usize),
    rops: (usize, usize),
    r: Vec<(R, u64)>,
    /// A reader starting while writers run.
    live: u64,
    parts: (usize, usize),
    odd_parts: u64,
    nested: u32,
    exotic: u64,
    many_cols: usize,
    tz: u64,
    short: u64,
    no_meta: u64,
    append: u64,
    evolve: bool,
    ro: u64,
    odd_opts: u64,
    faults: (usize, usize),
    damage: u64,
    bad_input: u64,
    noise_heavy: bool,
    log_fmt: Vec<u32>,
    par_sizes: bool,
    /// Tables with writes of more rows than fit a batch of the readers.
    bulk: u64,
}

fn all_writes() -> Vec<(WKind, u64)> {
    use WKind::*;
    vec![
        (Insert, 12),
        (Upsert, 22),
        (Overwrite, 4),
        (OverwriteTable, 1),
        (DeletePartition, 2),
        (Cluster, 5),
        (CompactSchedule, 5),
        (CompactRun, 6),
        (Clean, 5),
        (Archive, 4),
        (Rollback, 7),
        (Undo, 3),
        (Savepoint, 2),
        (Empty, 2),
        (Noise, 3),
        (Delete, 2),
    ]
}

impl Profile {
    fn base() -> Profile {
        Profile {
            mor: 600,
            writers: (1, 2),
            wops: (2, 9),
            w: all_writes(),
            crash: 80,
            torn: 400,
            readers: (1, 2),
            rops: (1, 4),
            r: vec![(R::Snapshot, 10)],
            live: 350,
            parts: (0, 2),
            odd_parts: 300,
            nested: 1,
            exotic: 100,
            many_cols: 3,
            tz: 30,
            short: 120,
            no_meta: 30,
            append: 180,
            evolve: true,
            ro: 0,
            odd_opts: 100,
            faults: (0, 0),
            damage: 0,
            bad_input: 20,
            noise_heavy: false,
            log_fmt: vec![0, 1, 2],
            par_sizes: false,
            bulk: 6,
        }
    }
    fn of(p: &str) -> Profile {
        use WKind::*;
        let b = Profile::base();
        let set = |w: &mut Vec<(WKind, u64)>, k: WKind, n: u64| {
            w.retain(|x| x.0 != k);
            w.push((k, n));
        };
        match p {
            "P01" => Profile {
                r: vec![(R::Snapshot, 10), (R::Reopen, 4)],
                ..b
            },
            "P02" => {
                let mut w = b.w.clone();
                set(&mut w, Rollback, 14);
                set(&mut w, Undo, 6);
                Profile {
                    w,
                    crash: 350,
                    torn: 500,
                    writers: (1, 3),
                    live: 500,
                    r: vec![
                        (R::Snapshot, 8),
                        (R::AsOf, 3),
                        (R::Incr, 4),
                        (R::Slices, 4),
                        (R::Between, 2),
                        (R::Schema, 1),
                        (R::Timeline, 1),
                        (R::Reopen, 4),
                    ],
                    ..b
                }
            }
            "P03" => Profile {
                writers: (1, 3),
                wops: (3, 10),
                readers: (2, 3),
                rops: (3, 8),
                live: 900,
                crash: 120,
                r: vec![
                    (R::Snapshot, 10),
                    (R::AsOf, 2),
                    (R::Incr, 2),
                    (R::Slices, 3),
                    (R::Timeline, 2),
                    (R::Wait, 5),
                    (R::Reopen, 2),
                ],
                ..b
            },
            "P04" => Profile {
                wops: (3, 12),
                rops: (3, 8),
                live: 250,
                short: 350,
                tz: 60,
                bad_input: 80,
                r: vec![(R::AsOf, 12), (R::Slices, 3), (R::Reopen, 2)],
                ..b
            },
            "P05" => Profile {
                wops: (3, 12),
                rops: (3, 8),
                live: 200,
                short: 250,
                no_meta: 0,
                bad_input: 60,
                r: vec![(R::Incr, 12), (R::Between, 4), (R::Reopen, 2)],
                ..b
            },
            "P06" => Profile {
                wops: (1, 6),
                rops: (3, 7),
                faults: (1, 6),
                live: 200,
                r: vec![
                    (R::Snapshot, 8),
                    (R::AsOf, 3),
                    (R::Incr, 4),
                    (R::Slices, 4),
                    (R::Between, 2),
                    (R::Schema, 2),
                    (R::Avro, 1),
                    (R::Part, 1),
                    (R::Timeline, 2),
                    (R::Kind, 2),
                    (R::Reopen, 5),
                    (R::Conc, 2),
                ],
                ..b
            },
            "P07" => Profile {
                wops: (1, 6),
                rops: (1, 4),
                odd_opts: 600,
                par_sizes: true,
                live: 150,
                r: vec![(R::Conc, 12), (R::Snapshot, 1), (R::Reopen, 2)],
                ..b
            },
            "P08" => Profile {
                wops: (1, 6),
                rops: (2, 6),
                live: 100,
                r: vec![
                    (R::Cancel, 10),
                    (R::Snapshot, 4),
                    (R::Slices, 3),
                    (R::Incr, 2),
                    (R::AsOf, 2),
                    (R::Conc, 4),
                ],
                ..b
            },
            "P09" => {
                let mut w = b.w.clone();
                set(&mut w, Upsert, 45);
                set(&mut w, Cluster, 1);
                set(&mut w, Overwrite, 1);
                set(&mut w, Delete, 4);
                Profile {
                    bulk: 20,
                    mor: 1000,
                    w,
                    wops: (3, 12),
                    short: 250,
                    append: 200,
                    parts: (0, 1),
                    odd_parts: 0,
                    many_cols: 2,
                    r: vec![
                        (R::Snapshot, 6),
                        (R::Slices, 6),
                        (R::AsOf, 5),
                        (R::Reopen, 2),
                    ],
                    ..b
                }
            }
            "P10" => Profile {
                parts: (1, 3),
                odd_parts: 700,
                wops: (2, 7),
                writers: (1, 1),
                rops: (4, 10),
                bad_input: 60,
                live: 100,
                many_cols: 1,
                nested: 0,
                r: vec![
                    (R::Filtered, 12),
                    (R::SlicesFiltered, 4),
                    (R::AsOf, 1),
                    (R::Reopen, 1),
                ],
                ..b
            },
            "P11" => Profile {
                wops: (1, 6),
                rops: (2, 6),
                live: 80,
                faults: (0, 2),
                nested: 0,
                bad_input: 0,
                many_cols: 3,
                no_meta: 0,
                log_fmt: vec![1],
                r: vec![(R::Sql, 12), (R::Reopen, 1)],
                ..b
            },
            "P20" => Profile {
                wops: (1, 8),
                readers: (1, 1),
                rops: (1, 3),
                live: 120,
                faults: (0, 2),
                bad_input: 40,
                short: 200,
                tz: 60,
                ro: 100,
                odd_opts: 300,
                r: vec![(R::Py, 1)],
                ..b
            },
            "P12" => Profile {
                wops: (2, 9),
                rops: (2, 7),
                r: vec![(R::Slices, 10), (R::SlicesFiltered, 3), (R::Reopen, 2)],
                ..b
            },
            "P13" => Profile {
                wops: (3, 14),
                writers: (1, 3),
                crash: 200,
                noise_heavy: true,
                short: 400,
                tz: 250,
                live: 500,
                many_cols: 0,
                rops: (2, 6),
                r: vec![(R::Timeline, 6), (R::Kind, 8), (R::Reopen, 5)],
                ..b
            },
            "P14" => Profile {
                damage: 1000,
                wops: (2, 8),
                rops: (3, 7),
                live: 0,
                crash: 100,
                ro: 150,
                r: vec![
                    (R::Snapshot, 8),
                    (R::AsOf, 4),
                    (R::Incr, 4),
                    (R::Slices, 6),
                    (R::Between, 2),
                    (R::Schema, 2),
                    (R::Timeline, 2),
                    (R::Kind, 2),
                    (R::Reopen, 4),
                ],
                ..b
            },
            "P15" => Profile {
                faults: (0, 3),
                damage: 150,
                ro: 150,
                odd_opts: 200,
                rops: (3, 8),
                bad_input: 150,
                odd_parts: 600,
                r: vec![
                    (R::Snapshot, 6),
                    (R::Filtered, 3),
                    (R::AsOf, 3),
                    (R::Incr, 3),
                    (R::Slices, 4),
                    (R::Between, 2),
                    (R::Schema, 2),
                    (R::Avro, 2),
                    (R::Part, 2),
                    (R::Timeline, 2),
                    (R::Kind, 2),
                    (R::Reopen, 3),
                    (R::Conc, 2),
                    (R::Cancel, 2),
                    (R::Config, 1),
                ],
                ..b
            },
            "P16" => Profile {
                mor: 850,
                ro: 850,
                damage: 250,
                r: vec![
                    (R::Snapshot, 8),
                    (R::AsOf, 4),
                    (R::Slices, 3),
                    (R::Reopen, 4),
                ],
                ..b
            },
            "P17" => Profile {
                wops: (0, 1),
                writers: (1, 1),
                readers: (1, 1),
                rops: (4, 10),
                faults: (0, 2),
                live: 0,
                r: vec![(R::Config, 1)],
                ..b
            },
            "P18" => Profile {
                mor: 750,
                wops: (2, 6),
                writers: (1, 1),
                bulk: 25,
                nested: 2,
                exotic: 700,
                many_cols: 6,
                parts: (0, 1),
                odd_parts: 0,
                crash: 0,
                live: 0,
                rops: (1, 4),
                r: vec![(R::Snapshot, 8), (R::Slices, 3), (R::Incr, 2)],
                ..b
            },
            "P19" => {
                let mut w = b.w.clone();
                set(&mut w, Empty, 6);
                set(&mut w, DeletePartition, 4);
                Profile {
                    w,
                    nested: 2,
                    exotic: 300,
                    parts: (0, 3),
                    wops: (2, 10),
                    crash: 150,
                    rops: (2, 7),
                    r: vec![
                        (R::Schema, 8),
                        (R::Avro, 5),
                        (R::Part, 5),
                        (R::Snapshot, 2),
                        (R::Reopen, 4),
                    ],
                    ..b
                }
            }
            _ => b,
        }
    }
}

pub fn plan(property: &str, seed: u64) -> Plan {
    let p = Profile::of(property);
    let mut r = Rng::new(hash(&[hash_str(property), seed]));
    let spec = spec(&p, &mut r);
    let writers = writers(&p, &spec, &mut r);
    let rg = RGen { p: &p, spec: &spec };
    let readers: Vec<ReaderPlan> = (0..r.us(p.readers.0, p.readers.1))
        .map(|_| rg.reader(&mut r))
        .collect();
    let damage = if r.pm(p.damage) {
        damage(&p, &spec, &mut r)
    } else {
        vec![]
    };
    let n = r.us(p.faults.0, p.faults.1);
    let faults = (0..n).map(|_| fault(&readers, &mut r)).collect();
    let fast = r.pm(350);
    let lat = Latency {
        request: if fast {
            *r.pick(&[0, 0, 50])
        } else {
            *r.pick(&[500, 5_000, 30_000])
        },
        chunk: if fast { 0 } else { *r.pick(&[0, 100, 3_000]) },
        chunk_size: if spec.bulk > 0 {
            *r.pick(&[20_000, 1 << 20])
        } else {
            *r.pick(&[7, 200, 5_000, 1 << 20])
        },
        tail: if r.pm(200) { 60 } else { 0 },
    };
    let global_conf = r.pm(80).then(|| {
        r.pick(&[
            "hoodie.read.listing.parallelism 3\n",
            "# nothing\n",
            "hoodie.table.name=other\nhoodie.table.type=junk\nhoodie.table.version 99\n",
        ])
        .to_string()
    });
    Plan {
        property: property.to_string(),
        seed,
        spec,
        writers,
        readers,
        damage,
        faults,
        lat,
        sched_seed: r.next(),
        eager: *r.pick(&[0, 0, 100, 400]),
        spurious: *r.pick(&[0, 0, 50, 200]),
        global_conf,
        raw_props: None,
    }
}

fn spec(p: &Profile, r: &mut Rng) -> TableSpec {
    let mor = r.pm(p.mor);
    let log_fmt = *r.pick(&p.log_fmt);
    let avro = mor && log_fmt != 1;
    let populate_meta = !r.pm(p.no_meta);
    let append = r.pm(p.append);
    let mut cols: Vec<Col> = vec![Col {
        name: "id".into(),
        ty: Ty::Str,
        nullable: false,
        since: 0,
    }];
    let ord = if append && r.coin() {
        None
    } else {
        let ty = match r.below(8) {
            0 => Ty::I32,
            1 => Ty::Date,
            2 => Ty::TsUs,
            3 => Ty::TsMs,
            4 => Ty::F64,
            5 => Ty::Str,
            _ => Ty::I64,
        };
        cols.push(Col {
            name: "ts".into(),
            ty,
            nullable: r.coin(),
            since: 0,
        });
        Some("ts".to_string())
    };
    let strategy = if !populate_meta {
        if r.coin() {
            None
        } else {
            Some("append_only".to_string())
        }
    } else if ord.is_none() {
        if r.coin() {
            None
        } else {
            Some("append_only".to_string())
        }
    } else if append {
        Some("append_only".to_string())
    } else if r.coin() {
        None
    } else {
        Some("overwrite_with_latest".to_string())
    };
    let n = r.us(p.parts.0, p.parts.1);
    let mut parts = Vec::new();
    for i in 0..n {
        let name = ["region", "p_1", "Day"][i].to_string();
        let ty = match r.below(10) {
            0 => Ty::Bool,
            1 | 2 => Ty::I32,
            3 => Ty::I64,
            4 => Ty::Date,
            5 if r.pm(p.odd_parts) => Ty::F64,
            _ => Ty::Str,
        };
        cols.push(Col {
            name: name.clone(),
            ty,
            nullable: r.pm(p.odd_parts / 2),
            since: 0,
        });
        parts.push(name);
    }
    let k = r.us(0, p.many_cols);
    for i in 0..k {
        let exotic = r.pm(p.exotic);
        let mut ty = Ty::random(r, p.nested, exotic);
        while avro && !ty.avro_supported() {
            ty = Ty::random(r, p.nested, false);
        }
        cols.push(Col {
            name: format!("c{i}"),
            ty,
            nullable: r.pm(650),
            since: 0,
        });
    }
    r.shuffle(&mut cols);
    if r.pm(300) {
        r.shuffle(&mut parts);
    }
    if p.evolve && r.pm(250) {
        for v in 1..=r.below(2) as u32 + 1 {
            cols.push(Col {
                name: format!("e{v}"),
                ty: Ty::random(r, p.nested.min(1), false),
                nullable: true,
                since: v,
            });
        }
    }
    let odd = r.pm(p.odd_parts);
    let bulk = if r.pm(p.bulk) {
        r.range(1030, 2600) as u32
    } else {
        0
    };
    let explicit = !r.pm(150);
    let hive = explicit && r.coin();
    let urlenc = explicit && r.pm(if odd { 600 } else { 200 });
    let tz = r.pm(p.tz).then(|| {
        r.pick(&[
            "EST5EDT,M3.2.0,M11.1.0",
            "CET-1CEST,M3.5.0,M10.5.0/3",
            "<+1030>-10:30<+11>-11,M10.1.0,M4.1.0",
            "IST-5:30",
        ])
        .to_string()
    });
    // around the clock changes of 2024 when in local time
    let day = 86_400_000i64;
    let epoch_ms = if tz.is_some() {
        {
            let near = *r.pick(&[
                1_710_028_800_000i64,
                1_730_592_000_000,
                1_711_843_200_000,
                1_729_987_200_000,
            ]);
            near + r.range(0, 10) * 1_000_000
        }
    } else {
        *r.pick(&[
            1_704_067_200_000i64,
            1_709_164_800_000,
            946_684_800_000,
            1_735_689_599_000,
        ]) + r.range(0, 400) * day / 7
    };
    TableSpec {
        mor,
        version: *r.pick(&[5, 6, 6]),
        base: r
            .pick(&["tbl", "wh/tbl", "w h/tbl", "wh/dt=1/t.b-l_1"])
            .to_string(),
        cols,
        ord,
        strategy,
        parts,
        pool_seed: r.next(),
        pool_size: r.range(1, 5) as u32,
        hive,
        urlenc,
        explicit_style: explicit,
        nonpart_keygen: r.pm(60),
        populate_meta,
        tz,
        epoch_ms,
        short_ts: if r.pm(p.short) {
            *r.pick(&[1, 2, 3, 1000])
        } else {
            0
        },
        log_fmt,
        log_append: r.coin(),
        rg_rows: if bulk > 0 {
            *r.pick(&[300, 1000, 1 << 20])
        } else {
            *r.pick(&[1, 2, 3, 1000])
        },
        bulk,
        arrow_meta: r.pm(250),
        extra_props: vec![],
    }
}

fn writers(p: &Profile, spec: &TableSpec, r: &mut Rng) -> Vec<WriterPlan> {
    use WKind::*;
    let n = r.us(p.writers.0, p.writers.1);
    // a random subset of kinds, inserts and upserts always
    let mut w: Vec<(WKind, u64)> =
        p.w.iter()
            .filter(|(k, _)| matches!(k, Insert | Upsert) || r.pm(550))
            .cloned()
            .collect();
    for x in w.iter_mut() {
        if matches!(x.0, Delete) && !r.pm(400) {
            x.1 = 0;
        }
        if x.0 == Noise && p.noise_heavy {
            x.1 = 12;
        }
    }
    if spec.max_ver() > 0 {
        w.push((Evolve, 7));
    }
    let crash = *r.pick(&[0, p.crash, p.crash, p.crash * 2]);
    let ws: Vec<u64> = w.iter().map(|x| x.1).collect();
    (0..n)
        .map(|wi| {
            let k = r.us(p.wops.0, p.wops.1);
            let ops = (0..k)
                .map(|i| {
                    let kind = if i == 0 && wi == 0 && r.pm(900) {
                        Insert
                    } else {
                        w[r.weighted(&ws)].0.clone()
                    };
                    WOp {
                        kind,
                        seed: r.next(),
                        delay: *r.pick(&[0, 0, 5_000, 60_000]),
                        crash: r.pm(crash).then(|| r.below(12) as u32),
                        torn: r.pm(p.torn),
                    }
                })
                .collect();
            WriterPlan { ops }
        })
        .collect()
}

struct RGen<'a> {
    p: &'a Profile,
    spec: &'a TableSpec,
}

const PY_OPTS: [(&str, &str); 6] = [
    ("hoodie.read.use.read_optimized.mode", "maybe"),
    ("hoodie.read.listing.parallelism", "-1"),
    ("hoodie.table.name", "other"),
    ("custom.key", "日本"),
    ("aws_region", "nowhere"),
    ("hoodie.read.input.partitions", ""),
];

impl RGen<'_> {
    fn reader(&self, r: &mut Rng) -> ReaderPlan {
        let p = self.p;
        let start = r.pm(p.live).then(|| {
            let max = *r.pick(&[20_000, 200_000, 1_000_000]);
            r.below(max)
        });
        let mut ops = vec![self.open(r)];
        // a random subset of operations
        let mut w: Vec<(R, u64)> = p.r.iter().filter(|_| r.pm(700)).cloned().collect();
        if w.iter().all(|x| matches!(x.0, R::Reopen | R::Wait)) {
            w = p.r.clone();
        }
        let ws: Vec<u64> = w.iter().map(|x| x.1).collect();
        let n = r.us(p.rops.0, p.rops.1);
        for _ in 0..n {
            let k = w[r.weighted(&ws)].0;
            ops.push(self.op(k, r, 2));
        }
        ReaderPlan { start, ops }
    }

    fn open(&self, r: &mut Rng) -> ROp {
        let mut opts: Vec<(String, String)> = Vec::new();
        if r.pm(self.p.ro) {
            opts.push(("hoodie.read.use.read_optimized.mode".into(), "true".into()));
        } else if r.pm(self.p.odd_opts / 3) {
            opts.push(("hoodie.read.use.read_optimized.mode".into(), "false".into()));
        }
        if r.pm(self.p.odd_opts) {
            let x = if self.p.par_sizes {
                r.pick(&["0", "1", "2", "1000", "18446744073709551615"])
                    .to_string()
            } else {
                r.pick(&["1", "2", "50"]).to_string()
            };
            opts.push(("hoodie.read.listing.parallelism".into(), x));
        }
        if r.pm(self.p.odd_opts) {
            opts.push((
                "hoodie.read.input.partitions".into(),
                r.pick(&["0", "1", "3", "100"]).to_string(),
            ));
        }
        ROp::Open { opts }
    }

    fn tsel(&self, r: &mut Rng) -> TSel {
        let raw = r.pm(self.p.bad_input).then(|| {
            r.pick(&[
                "",
                "2024",
                "20240229",
                "abc",
                "2024022912345",
                "20240229123456789012",
                "9999999999999é",
                "日本日本日本日本",
                "2024-02-29 12:34:56",
                "20241399000000000",
                "00000000000000000",
                "20240101000000abc",
                " 20240101000000",
                "-0240101000000000",
                "2024010100000é",
                "99999999999999",
            ])
            .to_string()
        });
        TSel {
            pick: r.next(),
            delta_ms: match r.below(10) {
                0 | 1 => -1,
                2 | 3 => 1,
                4 => -1000,
                5 => 1000,
                6 => *r.pick(&[
                    -86_400_000i64,
                    86_400_000,
                    3_600_000,
                    -3_600_000,
                    4_000_000_000,
                ]),
                _ => 0,
            },
            short: r.pm(250),
            raw,
        }
    }

    fn filters(&self, r: &mut Rng, always: bool) -> Filters {
        let mut out = Vec::new();
        if self.spec.parts.is_empty() || (!always && r.pm(850)) {
            return out;
        }
        for _ in 0..*r.pick(&[1, 1, 1, 2, 2, 3]) {
            let f = r.pick(&self.spec.parts).clone();
            let ty = self.spec.cols[self.spec.col(&f)].ty.clone();
            let op = r.pick(&["=", "=", "!=", "<", "<=", ">", ">="]).to_string();
            let near: &[&str] = match ty {
                Ty::Bool => &["true", "false"],
                Ty::I32 | Ty::I64 => &["10", "9", "0", "-5", "11", "100", "99"],
                Ty::Date => &[
                    "2024-01-01",
                    "2024-01-02",
                    "2024-01-31",
                    "1970-01-01",
                    "1969-12-31",
                    "2023-06-01",
                ],
                Ty::F64 => &["1.5", "10", "-2.0", "0", "10.25"],
                _ => &[
                    "a", "b", "", "A", "zz", "10", "9", "x y", "é", "50%", "a/b", "%41", "v.1",
                ],
            };
            let mut lit = r.pick(near).to_string();
            if r.coin() {
                let pool = self.spec.pool(&f);
                let x = r.pick(&pool);
                if let Some(t) = literal(&ty, x) {
                    lit = t;
                }
            }
            let (mut f, mut op) = (f, op);
            if r.pm(self.p.bad_input) {
                match r.below(4) {
                    0 => {
                        lit = r
                            .pick(&["abc", "", "1e", "true!", "2024-13-45", "--1"])
                            .to_string()
                    }
                    1 => op = r.pick(&["==", "LIKE", "", "<>", "in"]).to_string(),
                    2 => {
                        f = r
                            .pick(&["id", "nope", "", "_hoodie_record_key"])
                            .to_string()
                    }
                    _ => f = f.to_uppercase(),
                }
            }
            out.push((f, op, lit));
        }
        out
    }

    fn slices(&self, r: &mut Rng, filtered: bool) -> ROp {
        ROp::Slices {
            t: r.pm(400).then(|| self.tsel(r)),
            filters: self.filters(r, filtered),
            split: r
                .pm(500)
                .then(|| *r.pick(&[0, 1, 2, 3, 4, 7, 100, u64::MAX])),
            read: *r.pick(&[0, 0, 1, 1, 2, 3]),
            wait: *r.pick(&[0, 0, 0, 20_000, 300_000]),
        }
    }

    fn op(&self, k: R, r: &mut Rng, depth: u32) -> ROp {
        match k {
            R::Snapshot => ROp::Snapshot { filters: vec![] },
            R::Filtered => ROp::Snapshot {
                filters: self.filters(r, true),
            },
            R::AsOf => ROp::AsOf {
                t: self.tsel(r),
                filters: self.filters(r, false),
            },
            R::Incr => ROp::Incr {
                s: self.tsel(r),
                e: r.coin().then(|| self.tsel(r)),
            },
            R::Slices => self.slices(r, false),
            R::SlicesFiltered => self.slices(r, true),
            R::Between => ROp::SlicesBetween {
                s: r.coin().then(|| self.tsel(r)),
                e: r.coin().then(|| self.tsel(r)),
            },
            R::Schema => ROp::Schema,
            R::Avro => ROp::AvroSchema,
            R::Part => ROp::PartSchema,
            R::Timeline => ROp::Timeline,
            R::Kind => ROp::Kind(r.below(4) as u32, r.coin()),
            R::Reopen => self.open(r),
            R::Wait => ROp::Wait(r.below(200_000)),
            R::Config => ROp::Config(r.next() >> 32),
            R::Sql => ROp::Sql(r.next()),
            R::Py => {
                let ROp::Open { mut opts } = self.open(r) else {
                    unreachable!()
                };
                if r.pm(60) {
                    let (k, v) = *r.pick(&PY_OPTS);
                    opts.push((k.into(), v.into()));
                }
                let n = *r.pick(&[1, 1, 2, 2, 3, 5]);
                ROp::Py {
                    opts,
                    seed: r.next() >> 16,
                    threads: (0..n)
                        .map(|_| (0..r.us(1, 3)).map(|_| self.py(r)).collect())
                        .collect(),
                }
            }
            R::Conc | R::Cancel if depth == 0 => ROp::Snapshot { filters: vec![] },
            R::Conc => {
                let n = r.us(2, 5);
                ROp::Conc {
                    ops: (0..n).map(|_| self.any(r, depth - 1)).collect(),
                    clone: r.pm(300),
                }
            }
            R::Cancel => ROp::Cancel {
                op: Box::new(self.any(r, depth - 1)),
                polls: *r.pick(&[1, 2, 3, 4, 6, 9, 14, 22, 40]),
            },
        }
    }

    /// Anything the Python binding has.
    fn py(&self, r: &mut Rng) -> ROp {
        let k = match r.below(20) {
            0..=2 => R::Snapshot,
            3 => R::Filtered,
            4 | 5 => R::AsOf,
            6 | 7 => R::Incr,
            8..=11 => R::Slices,
            12 => R::SlicesFiltered,
            13 => R::Between,
            14 => R::Schema,
            15 => R::Avro,
            16 => R::Part,
            17 => R::Timeline,
            _ => R::Kind,
        };
        self.op(k, r, 0)
    }

    /// Anything that queries.
    fn any(&self, r: &mut Rng, depth: u32) -> ROp {
        let k = match r.below(20) {
            0..=5 => R::Snapshot,
            6 => R::Filtered,
            7 | 8 => R::AsOf,
            9 | 10 => R::Incr,
            11..=13 => R::Slices,
            14 => R::Between,
            15 => R::Schema,
            16 => R::Part,
            17 => R::Timeline,
            18 => R::Kind,
            _ => R::Cancel,
        };
        self.op(k, r, depth)
    }
}

/// A partition value written as a filter literal.
pub fn literal(ty: &Ty, v: &Val) -> Option<String> {
    Some(match (ty, v) {
        (Ty::Date, Val::I32(d)) => date_text(*d),
        (_, Val::Bool(b)) => b.to_string(),
        (_, Val::I32(x)) => x.to_string(),
        (_, Val::I64(x)) => x.to_string(),
        (_, Val::F64(x)) => format!("{x:?}"),
        (_, Val::Str(s)) => s.clone(),
        _ => return None,
    })
}

fn fault(readers: &[ReaderPlan], r: &mut Rng) -> Fault {
    let k = r.below(readers.len() as u64) as usize;
    let conc = readers[k].ops.iter().any(|o| matches!(o, ROp::Conc { .. }));
    // never in the last two operations: those show recovery
    let last = readers[k].ops.len().saturating_sub(2).max(1) as u64;
    let py = readers[k].ops.iter().any(|o| matches!(o, ROp::Py { .. }));
    let op = if py {
        r.range(1, readers[k].ops.len() as i64 - 1) as u32
    } else {
        r.below(last) as u32
    };
    let nth = match r.below(4) {
        0 => 0,
        1 => r.below(3) as u32,
        2 => r.below(10) as u32,
        _ => r.below(40) as u32,
    };
    let reading =
        matches!(readers[k].ops.get(op as usize), Some(ROp::Slices { read, .. }) if *read > 0);
    let sql = matches!(readers[k].ops.get(op as usize), Some(ROp::Sql(_)));
    Fault {
        actor: if conc && r.coin() {
            200 + r.below(5) as u32
        } else if sql && r.pm(650) {
            crate::core::BACKGROUND
        } else {
            100 + k as u32
        },
        op: if reading && r.coin() { op + 500 } else { op },
        nth,
        len: *r.pick(&[1, 1, 1, 2, 5, 1000]),
        kind: *r.pick(&FAULT_KINDS),
    }
}

fn damage(p: &Profile, spec: &TableSpec, r: &mut Rng) -> Vec<Damage> {
    let mut out = Vec::new();
    let ro_only = p.ro > 500;
    for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
        let target = if ro_only {
            *r.pick(&[Target::Log, Target::Log, Target::Foreign, Target::Pending])
        } else {
            *r.pick(&[
                Target::Base,
                Target::Base,
                Target::Base,
                Target::Log,
                Target::Log,
                Target::Log,
                Target::Log,
                Target::Commit,
                Target::Commit,
                Target::Pending,
                Target::Foreign,
                Target::Props,
            ])
        };
        if target == Target::Log && !spec.mor {
            continue;
        }
        let harm = match target {
            Target::Base => *r.pick(&[Harm::Truncate, Harm::ZeroTail, Harm::Delete]),
            Target::Log if spec.log_fmt != 0 => {
                *r.pick(&[Harm::Truncate, Harm::ZeroTail, Harm::Delete])
            }
            Target::Pending => {
                *r.pick(&[Harm::Truncate, Harm::ZeroTail, Harm::Garbage, Harm::Flip])
            }
            _ => *r.pick(&[
                Harm::Truncate,
                Harm::ZeroTail,
                Harm::Delete,
                Harm::Garbage,
                Harm::Flip,
            ]),
        };
        let after = if r.pm(350) || harm == Harm::Delete {
            r.below(400_000)
        } else {
            0
        };
        // the parquet reader panics if a file shrinks between its footer and its pages
        let after = if harm != Harm::Delete && (target == Target::Base || spec.log_fmt != 0) {
            0
        } else {
            after
        };
        out.push(Damage {
            target,
            harm,
            seed: r.next(),
            after,
        });
    }
    out
}

/// For evidence: how often each kind of thing is planned.
pub fn describe(p: &Plan) -> BTreeMap<String, u64> {
    let mut m = BTreeMap::new();
    for w in &p.writers {
        for o in &w.ops {
            *m.entry(format!("{:?}", o.kind)).or_insert(0) += 1;
        }
    }
    m
}
