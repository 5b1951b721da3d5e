//! Runs queries through the DataFusion provider and compares with the reference evaluation.

use crate::query::{columns, Gen, QCol, Query, Shape, Src};
use arrow_array::RecordBatch;
use arrow_schema::DataType;
use datafusion::catalog::TableProviderFactory;
use datafusion::execution::session_state::SessionStateBuilder;
use datafusion::prelude::{SessionConfig, SessionContext};
use datafusion_common::DataFusionError;
use futures::future::LocalBoxFuture;
use futures::FutureExt;
use hsim::core::BACKGROUND;
use hsim::reader::{v, Got, Shared, Verdict};
use hsim::rng::{hash, Rng};
use hsim::table::{same_type, Row, META};
use hsim::types::canon_arrow;
use hsim::world::norm;
use hudi_datafusion::{HudiDataSource, HudiTableFactory};
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::Arc;

pub fn run(s: Rc<Shared>, actor: u32, opi: u32, seed: u64) -> LocalBoxFuture<'static, Verdict> {
    async move { sql(&s, actor, opi, seed).await }.boxed_local()
}

fn session(r: &mut Rng, bulk: bool) -> SessionContext {
    let mut c = SessionConfig::new()
        .with_target_partitions(*r.pick(&[1, 2, 3, 8]))
        .with_batch_size(*r.pick(if bulk {
            &[100, 1000, 8192]
        } else {
            &[1, 7, 100, 8192]
        }));
    let o = c.options_mut();
    o.execution.collect_statistics = r.pm(300);
    o.execution.coalesce_batches = r.pm(700);
    o.execution.parquet.pushdown_filters = r.pm(400);
    o.execution.parquet.reorder_filters = r.coin();
    o.execution.parquet.enable_page_index = r.coin();
    o.execution.parquet.pruning = r.pm(800);
    o.execution.parquet.schema_force_view_types = r.pm(800);
    o.execution.parquet.metadata_size_hint =
        *r.pick(&[None, None, Some(8), Some(64), Some(100_000)]);
    o.optimizer.repartition_file_scans = r.pm(700);
    o.optimizer.repartition_file_min_size = *r.pick(&[0, 500, 10 << 20]);
    o.sql_parser.enable_ident_normalization = false;
    let f: Arc<dyn TableProviderFactory> = Arc::new(HudiTableFactory::new());
    let st = SessionStateBuilder::new()
        .with_config(c)
        .with_default_features()
        .with_table_factories(HashMap::from([("HUDI".to_string(), f)]))
        .build();
    SessionContext::new_with_state(st)
}

fn stringy(d: &DataType) -> bool {
    matches!(d, DataType::Utf8 | DataType::Utf8View | DataType::LargeUtf8)
}
fn binary(d: &DataType) -> bool {
    matches!(
        d,
        DataType::Binary | DataType::BinaryView | DataType::LargeBinary
    )
}
fn like(a: &DataType, b: &DataType) -> bool {
    same_type(a, b) || (stringy(a) && stringy(b)) || (binary(a) && binary(b))
}

/// Rows of a result as text; for `*` the columns by name, in the order of `all`.
fn rows_of(
    bs: &[RecordBatch],
    star: Option<&[QCol]>,
    spec_names: &[String],
) -> Result<Vec<String>, String> {
    let mut out = Vec::new();
    for b in bs {
        let idx: Vec<usize> = match star {
            None => (0..b.num_columns()).collect(),
            Some(all) => {
                let schema = b.schema();
                let have: Vec<String> = schema.fields().iter().map(|f| f.name().clone()).collect();
                let mut want: Vec<String> = META.iter().map(|s| s.to_string()).collect();
                want.extend(spec_names.iter().cloned());
                let (mut x, mut y) = (have.clone(), want.clone());
                x.sort();
                y.sort();
                if x != y {
                    return Err(format!("columns {have:?}, expected {want:?}"));
                }
                for c in all {
                    let f = schema.field_with_name(&c.name).unwrap();
                    if !like(&c.ty.arrow(), f.data_type()) {
                        return Err(format!("column {} has type {}", c.name, f.data_type()));
                    }
                }
                all.iter()
                    .map(|c| schema.index_of(&c.name).unwrap())
                    .collect()
            }
        };
        for i in 0..b.num_rows() {
            out.push(
                idx.iter()
                    .map(|k| canon_arrow(b.column(*k).as_ref(), i))
                    .collect::<Vec<_>>()
                    .join("|"),
            );
        }
    }
    Ok(out)
}

async fn sql(s: &Shared, actor: u32, opi: u32, seed: u64) -> Verdict {
    let mut r = Rng::new(hash(&[seed, 0x5A1]));
    let spec = s.cx.spec.clone();
    let ctx = session(&mut r, spec.bulk > 0);
    let n = *r.pick(&[0u64, 1, 2, 3, 5, 100]);
    let mut opts = vec![("hoodie.read.input.partitions".to_string(), n.to_string())];
    if r.coin() {
        opts.push((
            "hoodie.read.listing.parallelism".to_string(),
            r.range(1, 12).to_string(),
        ));
    }
    s.store.begin_op(BACKGROUND, opi);
    let ev0 = s.cx.world.borrow().events;
    let external = r.pm(400);
    let c = if external {
        let o: Vec<String> = opts.iter().map(|(k, v)| format!("'{k}' '{v}'")).collect();
        let q = format!(
            "CREATE EXTERNAL TABLE t STORED AS HUDI LOCATION '{}' OPTIONS ({})",
            s.url.replace('\'', "''"),
            o.join(", ")
        );
        s.call(actor, opi, "create external table", async {
            ctx.sql(&q).await?.collect().await?;
            Ok::<(), DataFusionError>(())
        })
        .await?
    } else {
        s.call(actor, opi, "create source", async {
            let t = HudiDataSource::new_with_options(&s.url, opts).await?;
            ctx.register_table("t", Arc::new(t))?;
            Ok::<(), DataFusionError>(())
        })
        .await?
    };
    let mut cands: Vec<usize>;
    {
        let w = s.cx.world.borrow();
        cands = (ev0..=w.events).collect();
        match c.got {
            Got::Ok(()) => {}
            Got::Err(e) => {
                if s.excused(&w, &cands, true, c.faulted) {
                    return Ok(());
                }
                return Err(v("unexpected-error", "create source", e));
            }
            Got::Stalled => return Ok(()),
        }
    }
    let every = columns(&spec);
    for _ in 0..r.us(1, 3) {
        // generate from what the table holds by now
        let (q, text) = {
            let w = s.cx.world.borrow();
            let ver = s.versions(&w, &cands).iter().filter_map(|x| x.1).max();
            let cols: Vec<QCol> = every
                .iter()
                .filter(|c| c.since <= ver.unwrap_or(0))
                .cloned()
                .collect();
            let now = w.latest(w.events).map(|t| norm(&t)).unwrap_or_default();
            let rows: Vec<Rc<Row>> = w
                .view(w.events, &now)
                .iter()
                .flat_map(|f| f.base_rows.clone())
                .collect();
            let g = Gen {
                spec: &spec,
                cols: &cols,
                rows: &rows,
            };
            let q = if ver.is_none() {
                Query {
                    shape: Shape::Aggregate(vec![crate::query::Agg::Count]),
                    pred: None,
                }
            } else {
                g.query(&mut r)
            };
            let t = q.sql();
            (q, t)
        };
        s.core
            .trace(hsim::rng::hash_str(&text), || format!("  {text}"));
        s.store.begin_op(BACKGROUND, opi);
        let c = s
            .call(actor, opi, "sql", async {
                let df = ctx.sql(&text).await?;
                if r.pm(200) {
                    // as a stream, one batch at a time
                    use futures::StreamExt;
                    let mut st = df.execute_stream().await?;
                    let mut out = Vec::new();
                    while let Some(b) = st.next().await {
                        out.push(b?);
                    }
                    Ok::<Vec<RecordBatch>, DataFusionError>(out)
                } else {
                    df.collect().await
                }
            })
            .await?;
        let w = s.cx.world.borrow();
        let vers = s.versions(&w, &cands);
        let batches = match c.got {
            Got::Stalled => return Ok(()),
            Got::Err(e) => {
                let lacks = vers.iter().any(|(_, x)| match x {
                    None => true,
                    Some(x) => q.cols().iter().any(|c| c.since > *x),
                });
                let gone = cands.iter().any(|t| {
                    let tt = w.latest(*t).map(|x| norm(&x)).unwrap_or_default();
                    w.view(*t, &tt).iter().any(|f| f.gone)
                });
                if lacks || gone || s.excused(&w, &cands, true, c.faulted) {
                    continue;
                }
                return Err(v("unexpected-error", "sql", format!("{text}: {e}")));
            }
            Got::Ok(b) => b,
        };
        if s.harm_matters(&w, true).1 {
            return Ok(());
        }
        let mut keep = Vec::new();
        let mut why = String::new();
        for (tau, ver) in vers {
            let tt = w.latest(tau).map(|x| norm(&x)).unwrap_or_default();
            let views = w.view(tau, &tt);
            if w.undone_since(tau) || views.iter().any(|f| f.gone) {
                keep.push(tau);
                s.count("not judged: files gone");
                continue;
            }
            let rows: Vec<Rc<Row>> = views.iter().flat_map(|f| f.base_rows.clone()).collect();
            let ver = match ver {
                Some(x) => x,
                None => {
                    if batches.iter().all(|b| b.num_rows() == 0)
                        || matches!(q.shape, Shape::Aggregate(_))
                    {
                        keep.push(tau);
                    } else {
                        why = format!("state {tau}: rows of a table without any");
                    }
                    continue;
                }
            };
            if q.cols().iter().any(|c| c.since > ver) {
                why = format!("state {tau}: a column of a later schema");
                continue;
            }
            let all: Vec<QCol> = every.iter().filter(|c| c.since <= ver).cloned().collect();
            let names: Vec<String> = all
                .iter()
                .filter(|c| matches!(c.src, Src::Col(_)))
                .map(|c| c.name.clone())
                .collect();
            let star = matches!(q.shape, Shape::Star).then_some(&all[..]);
            let res = rows_of(&batches, star, &names).and_then(|got| {
                s.count(if got.is_empty() {
                    "empty result"
                } else {
                    "nonempty result"
                });
                q.answer(&rows, &all).check(&got)
            });
            match res {
                Ok(()) => keep.push(tau),
                Err(e) => why = format!("state {tau}: {e}"),
            }
        }
        if keep.is_empty() {
            return Err(v("wrong-rows", "sql", format!("{text}: {why}")));
        }
        keep.dedup();
        cands = keep;
    }
    Ok(())
}
