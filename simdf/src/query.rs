//! Queries: generated from a seed, printed as SQL, evaluated over rows.

use hsim::rng::Rng;
use hsim::table::{Row, TableSpec};
use hsim::types::{canon, cmp_val, Ty, Val};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Src {
    Time,
    Key,
    Part,
    Col(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub struct QCol {
    pub name: String,
    pub ty: Ty,
    pub src: Src,
    /// Schema version that has it.
    pub since: u32,
}

impl QCol {
    fn val(&self, r: &Row) -> Val {
        match self.src {
            Src::Time => Val::Str(r.ct.clone()),
            Src::Key => Val::Str(r.key.clone()),
            Src::Part => Val::Str(r.part.clone()),
            Src::Col(i) => r.vals.get(i).cloned().unwrap_or(Val::Null),
        }
    }
    fn text(&self, r: &Row) -> String {
        canon(&self.ty, &self.val(r))
    }
    fn sql(&self) -> String {
        format!("\"{}\"", self.name.replace('"', "\"\""))
    }
    fn ordered(&self) -> bool {
        matches!(
            self.ty,
            Ty::Bool | Ty::I32 | Ty::I64 | Ty::Str | Ty::Date | Ty::TsMs | Ty::TsUs
        )
    }
    fn comparable(&self, part: bool) -> bool {
        self.ordered() || (part && self.ty == Ty::F64)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
}
const OPS: [Op; 6] = [Op::Eq, Op::Ne, Op::Lt, Op::Le, Op::Gt, Op::Ge];

impl Op {
    fn sql(self) -> &'static str {
        match self {
            Op::Eq => "=",
            Op::Ne => "<>",
            Op::Lt => "<",
            Op::Le => "<=",
            Op::Gt => ">",
            Op::Ge => ">=",
        }
    }
    fn flip(self) -> Op {
        match self {
            Op::Lt => Op::Gt,
            Op::Le => Op::Ge,
            Op::Gt => Op::Lt,
            Op::Ge => Op::Le,
            o => o,
        }
    }
    fn holds(self, o: Ordering) -> bool {
        match self {
            Op::Eq => o.is_eq(),
            Op::Ne => o.is_ne(),
            Op::Lt => o.is_lt(),
            Op::Le => o.is_le(),
            Op::Gt => o.is_gt(),
            Op::Ge => o.is_ge(),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Pred {
    /// The flag puts the literal on the left.
    Cmp(QCol, Op, Val, bool),
    Cols(QCol, Op, QCol),
    Plus(QCol, i32, Op, i64),
    Null(QCol, bool),
    In(QCol, Vec<Val>, bool),
    Between(QCol, Val, Val, bool),
    Distinct(QCol, Val, bool),
    Like(QCol, String, bool),
    Bare(QCol),
    Vague(QCol, Op),
    Const(bool),
    Not(Box<Pred>),
    And(Box<Pred>, Box<Pred>),
    Or(Box<Pred>, Box<Pred>),
}

fn cmp(a: &Val, op: Op, b: &Val) -> Option<bool> {
    if *a == Val::Null || *b == Val::Null {
        return None;
    }
    Some(op.holds(cmp_val(a, b)))
}

fn lit(ty: &Ty, v: &Val) -> String {
    match (ty, v) {
        (_, Val::Null) => "NULL".into(),
        (_, Val::Bool(b)) => b.to_string().to_uppercase(),
        (Ty::Date, Val::I32(d)) => format!("DATE '{}'", hsim::table::date_text(*d)),
        (Ty::TsMs, Val::I64(x)) => {
            format!("arrow_cast({x}, 'Timestamp(Millisecond, Some(\"UTC\"))')")
        }
        (Ty::TsUs, Val::I64(x)) => {
            format!("arrow_cast({x}, 'Timestamp(Microsecond, Some(\"UTC\"))')")
        }
        (_, Val::I32(x)) => x.to_string(),
        (_, Val::I64(x)) => x.to_string(),
        (_, Val::F64(x)) if !x.is_finite() => format!("CAST('{x}' AS DOUBLE)"),
        (_, Val::F64(x)) => format!("{x:?}"),
        (_, Val::Str(s)) => format!("'{}'", s.replace('\'', "''")),
        _ => panic!("harness: no literal for {v:?}"),
    }
}

impl Pred {
    pub fn eval(&self, r: &Row) -> Option<bool> {
        match self {
            Pred::Cmp(c, op, v, _) => cmp(&c.val(r), *op, v),
            Pred::Cols(a, op, b) => cmp(&a.val(r), *op, &b.val(r)),
            Pred::Plus(c, k, op, v) => match c.val(r) {
                Val::I32(x) => Some(op.holds((x as i64 + *k as i64).cmp(v))),
                _ => None,
            },
            Pred::Null(c, neg) => Some((c.val(r) == Val::Null) != *neg),
            Pred::In(c, vs, neg) => {
                let x = c.val(r);
                if x == Val::Null {
                    return None;
                }
                if vs.iter().any(|v| *v != Val::Null && cmp_val(&x, v).is_eq()) {
                    return Some(!*neg);
                }
                if vs.contains(&Val::Null) {
                    return None;
                }
                Some(*neg)
            }
            Pred::Between(c, a, b, neg) => {
                let x = c.val(r);
                let t = and(cmp(&x, Op::Ge, a), cmp(&x, Op::Le, b));
                t.map(|t| t != *neg)
            }
            Pred::Distinct(c, v, neg) => {
                let x = c.val(r);
                let d = match (&x, v) {
                    (Val::Null, Val::Null) => false,
                    (Val::Null, _) | (_, Val::Null) => true,
                    (a, b) => cmp_val(a, b).is_ne(),
                };
                Some(d != *neg)
            }
            Pred::Like(c, p, neg) => match c.val(r) {
                Val::Str(s) => Some(s.starts_with(p.as_str()) != *neg),
                _ => None,
            },
            Pred::Bare(c) => match c.val(r) {
                Val::Bool(b) => Some(b),
                _ => None,
            },
            Pred::Vague(..) => None,
            Pred::Const(b) => Some(*b),
            Pred::Not(p) => p.eval(r).map(|b| !b),
            Pred::And(a, b) => and(a.eval(r), b.eval(r)),
            Pred::Or(a, b) => match (a.eval(r), b.eval(r)) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
        }
    }
    pub fn keeps(&self, r: &Row) -> bool {
        self.eval(r) == Some(true)
    }
    pub fn sql(&self) -> String {
        let n = |neg: &bool| if *neg { "NOT " } else { "" };
        match self {
            Pred::Cmp(c, op, v, false) => format!("{} {} {}", c.sql(), op.sql(), lit(&c.ty, v)),
            Pred::Cmp(c, op, v, true) => {
                format!("{} {} {}", lit(&c.ty, v), op.flip().sql(), c.sql())
            }
            Pred::Cols(a, op, b) => format!("{} {} {}", a.sql(), op.sql(), b.sql()),
            Pred::Plus(c, k, op, v) => {
                format!("CAST({} AS BIGINT) + {k} {} {v}", c.sql(), op.sql())
            }
            Pred::Null(c, neg) => format!("{} IS {}NULL", c.sql(), n(neg)),
            Pred::In(c, vs, neg) => format!(
                "{} {}IN ({})",
                c.sql(),
                n(neg),
                vs.iter()
                    .map(|v| lit(&c.ty, v))
                    .collect::<Vec<_>>()
                    .join(", ")
            ),
            Pred::Between(c, a, b, neg) => {
                format!(
                    "{} {}BETWEEN {} AND {}",
                    c.sql(),
                    n(neg),
                    lit(&c.ty, a),
                    lit(&c.ty, b)
                )
            }
            Pred::Distinct(c, v, neg) => {
                format!("{} IS {}DISTINCT FROM {}", c.sql(), n(neg), lit(&c.ty, v))
            }
            Pred::Like(c, p, neg) => format!("{} {}LIKE '{p}%'", c.sql(), n(neg)),
            Pred::Bare(c) => c.sql(),
            Pred::Vague(c, op) => format!("{} {} NULL", c.sql(), op.sql()),
            Pred::Const(b) => b.to_string().to_uppercase(),
            Pred::Not(p) => format!("NOT ({})", p.sql()),
            Pred::And(a, b) => format!("({}) AND ({})", a.sql(), b.sql()),
            Pred::Or(a, b) => format!("({}) OR ({})", a.sql(), b.sql()),
        }
    }
    /// A list of values, and more about its column elsewhere: DataFusion intersects the two, and
    /// takes an empty intersection for FALSE where the column is NULL.
    fn intersects(&self) -> bool {
        fn lists<'a>(p: &'a Pred, out: &mut Vec<&'a str>) {
            match p {
                Pred::In(c, ..) => out.push(&c.name),
                Pred::Not(p) => lists(p, out),
                Pred::And(a, b) | Pred::Or(a, b) => {
                    lists(a, out);
                    lists(b, out);
                }
                _ => {}
            }
        }
        let (mut l, mut all) = (Vec::new(), Vec::new());
        lists(self, &mut l);
        self.cols(&mut all);
        l.iter()
            .any(|n| all.iter().filter(|c| c.name == *n).count() > 1)
    }
    fn cols<'a>(&'a self, out: &mut Vec<&'a QCol>) {
        match self {
            Pred::Cols(a, _, b) => out.extend([a, b]),
            Pred::Cmp(c, ..)
            | Pred::Plus(c, ..)
            | Pred::Null(c, _)
            | Pred::In(c, ..)
            | Pred::Between(c, ..)
            | Pred::Distinct(c, ..)
            | Pred::Like(c, ..)
            | Pred::Bare(c)
            | Pred::Vague(c, _) => out.push(c),
            Pred::Const(_) => {}
            Pred::Not(p) => p.cols(out),
            Pred::And(a, b) | Pred::Or(a, b) => {
                a.cols(out);
                b.cols(out);
            }
        }
    }
}

fn and(a: Option<bool>, b: Option<bool>) -> Option<bool> {
    match (a, b) {
        (Some(false), _) | (_, Some(false)) => Some(false),
        (Some(true), Some(true)) => Some(true),
        _ => None,
    }
}

#[derive(Clone, Debug)]
pub enum Agg {
    Count,
    CountCol(QCol),
    CountDistinct(QCol),
    Min(QCol),
    Max(QCol),
    Sum(QCol),
}

impl Agg {
    fn sql(&self) -> String {
        match self {
            Agg::Count => "count(*)".into(),
            Agg::CountCol(c) => format!("count({})", c.sql()),
            Agg::CountDistinct(c) => format!("count(DISTINCT {})", c.sql()),
            Agg::Min(c) => format!("min({})", c.sql()),
            Agg::Max(c) => format!("max({})", c.sql()),
            Agg::Sum(c) => format!("sum({})", c.sql()),
        }
    }
    fn col(&self) -> Option<&QCol> {
        match self {
            Agg::Count => None,
            Agg::CountCol(c) | Agg::CountDistinct(c) | Agg::Min(c) | Agg::Max(c) | Agg::Sum(c) => {
                Some(c)
            }
        }
    }
    fn eval(&self, rows: &[&Rc<Row>]) -> String {
        let vals = |c: &QCol| {
            rows.iter()
                .map(|r| c.val(r))
                .filter(|v| *v != Val::Null)
                .collect::<Vec<_>>()
        };
        match self {
            Agg::Count => rows.len().to_string(),
            Agg::CountCol(c) => vals(c).len().to_string(),
            Agg::CountDistinct(c) => vals(c)
                .iter()
                .map(|v| canon(&c.ty, v))
                .collect::<BTreeSet<_>>()
                .len()
                .to_string(),
            Agg::Min(c) => vals(c)
                .iter()
                .min_by(|a, b| cmp_val(a, b))
                .map_or("~".into(), |v| canon(&c.ty, v)),
            Agg::Max(c) => vals(c)
                .iter()
                .max_by(|a, b| cmp_val(a, b))
                .map_or("~".into(), |v| canon(&c.ty, v)),
            Agg::Sum(c) => {
                let v = vals(c);
                if v.is_empty() {
                    return "~".into();
                }
                v.iter()
                    .map(|v| match v {
                        Val::I32(x) => *x as i64,
                        _ => panic!("harness: sum"),
                    })
                    .sum::<i64>()
                    .to_string()
            }
        }
    }
}

#[derive(Clone, Debug)]
pub enum Shape {
    Star,
    Project(Vec<QCol>),
    Aggregate(Vec<Agg>),
    Group(QCol, Vec<Agg>),
    Limit(Vec<QCol>, usize, usize),
    Order(QCol, bool, bool, usize),
    Distinct(Vec<QCol>),
    Join(QCol),
    Union(Vec<QCol>, Option<Pred>),
    Semi(QCol, bool, Option<Pred>),
}

#[derive(Clone, Debug)]
pub struct Query {
    pub shape: Shape,
    pub pred: Option<Pred>,
}

/// What the answer has to be.
pub enum Answer {
    Bag(Vec<String>),
    List(Vec<String>),
    /// So many of these.
    Some(Vec<String>, usize),
}

impl Answer {
    pub fn check(&self, got: &[String]) -> Result<(), String> {
        let bag = |l: &[String]| {
            let mut m: BTreeMap<String, i64> = BTreeMap::new();
            for x in l {
                *m.entry(x.clone()).or_insert(0) += 1;
            }
            m
        };
        match self {
            Answer::List(l) => match l.iter().zip(got).position(|(a, b)| a != b) {
                Some(i) => Err(format!("place {i} is {}, expected {}", got[i], l[i])),
                None if l.len() != got.len() => {
                    Err(format!("{} rows, expected {}", got.len(), l.len()))
                }
                None => Ok(()),
            },
            Answer::Bag(l) | Answer::Some(l, _) => {
                let (want, have) = (bag(l), bag(got));
                for (k, n) in &have {
                    if want.get(k).copied().unwrap_or(0) < *n {
                        return Err(format!(
                            "{} rows, expected {}; unexpected {k}",
                            got.len(),
                            l.len()
                        ));
                    }
                }
                let n = match self {
                    Answer::Some(_, n) => *n,
                    _ => l.len(),
                };
                if got.len() != n {
                    let miss = want
                        .iter()
                        .find(|(k, n)| have.get(*k).copied().unwrap_or(0) < **n);
                    return Err(format!(
                        "{} rows, expected {n}; missing {:?}",
                        got.len(),
                        miss.map(|x| x.0)
                    ));
                }
                Ok(())
            }
        }
    }
}

fn list(cols: &[QCol]) -> String {
    cols.iter().map(|c| c.sql()).collect::<Vec<_>>().join(", ")
}
fn texts(cols: &[QCol], r: &Row) -> String {
    cols.iter().map(|c| c.text(r)).collect::<Vec<_>>().join("|")
}

impl Query {
    pub fn cols(&self) -> Vec<&QCol> {
        let mut out = Vec::new();
        if let Some(p) = &self.pred {
            p.cols(&mut out);
        }
        match &self.shape {
            Shape::Star => {}
            Shape::Project(c) | Shape::Limit(c, ..) | Shape::Distinct(c) => out.extend(c.iter()),
            Shape::Union(c, p) => {
                out.extend(c.iter());
                if let Some(p) = p {
                    p.cols(&mut out);
                }
            }
            Shape::Semi(c, _, p) => {
                out.push(c);
                if let Some(p) = p {
                    p.cols(&mut out);
                }
            }
            Shape::Aggregate(a) => out.extend(a.iter().filter_map(|a| a.col())),
            Shape::Group(c, a) => {
                out.push(c);
                out.extend(a.iter().filter_map(|a| a.col()));
            }
            Shape::Order(c, ..) | Shape::Join(c) => out.push(c),
        }
        out
    }
    pub fn sql(&self) -> String {
        let wh = |p: &Option<Pred>| {
            p.as_ref()
                .map_or(String::new(), |p| format!(" WHERE {}", p.sql()))
        };
        let w = wh(&self.pred);
        let aggs = |a: &[Agg]| {
            a.iter()
                .enumerate()
                .map(|(i, a)| format!("{} AS a{i}", a.sql()))
                .collect::<Vec<_>>()
                .join(", ")
        };
        match &self.shape {
            Shape::Star => format!("SELECT * FROM t{w}"),
            Shape::Project(c) => format!("SELECT {} FROM t{w}", list(c)),
            Shape::Aggregate(a) => format!("SELECT {} FROM t{w}", aggs(a)),
            Shape::Group(c, a) => format!(
                "SELECT {}, {} FROM t{w} GROUP BY {}",
                c.sql(),
                aggs(a),
                c.sql()
            ),
            Shape::Limit(c, n, off) => {
                let o = if *off > 0 {
                    format!(" OFFSET {off}")
                } else {
                    String::new()
                };
                format!("SELECT {} FROM t{w} LIMIT {n}{o}", list(c))
            }
            Shape::Order(c, desc, first, n) => format!(
                "SELECT {} FROM t{w} ORDER BY {} {} NULLS {} LIMIT {n}",
                c.sql(),
                c.sql(),
                if *desc { "DESC" } else { "ASC" },
                if *first { "FIRST" } else { "LAST" }
            ),
            Shape::Distinct(c) => format!("SELECT DISTINCT {} FROM t{w}", list(c)),
            Shape::Join(c) => format!(
                "SELECT count(*) FROM (SELECT {} AS k FROM t{w}) a JOIN t b ON a.k = b.{}",
                c.sql(),
                c.sql()
            ),
            Shape::Union(c, p) => format!(
                "SELECT {} FROM t{w} UNION ALL SELECT {} FROM t{}",
                list(c),
                list(c),
                wh(p)
            ),
            Shape::Semi(c, neg, p) => {
                let x = format!(
                    "{} {}IN (SELECT {} FROM t{})",
                    c.sql(),
                    if *neg { "NOT " } else { "" },
                    c.sql(),
                    wh(p)
                );
                let x = match &self.pred {
                    Some(q) => format!("({}) AND {x}", q.sql()),
                    None => x,
                };
                format!("SELECT {} FROM t WHERE {x}", c.sql())
            }
        }
    }
    /// `all` are the columns `*` stands for.
    pub fn answer(&self, rows: &[Rc<Row>], all: &[QCol]) -> Answer {
        let keep = |p: &Option<Pred>| -> Vec<&Rc<Row>> {
            rows.iter()
                .filter(|r| p.as_ref().is_none_or(|p| p.keeps(r)))
                .collect()
        };
        let hit = keep(&self.pred);
        match &self.shape {
            Shape::Star => Answer::Bag(hit.iter().map(|r| texts(all, r)).collect()),
            Shape::Project(c) => Answer::Bag(hit.iter().map(|r| texts(c, r)).collect()),
            Shape::Aggregate(a) => Answer::Bag(vec![a
                .iter()
                .map(|a| a.eval(&hit))
                .collect::<Vec<_>>()
                .join("|")]),
            Shape::Group(c, a) => {
                let mut m: BTreeMap<String, Vec<&Rc<Row>>> = BTreeMap::new();
                for r in hit {
                    m.entry(c.text(r)).or_default().push(r);
                }
                Answer::Bag(
                    m.iter()
                        .map(|(k, rs)| {
                            std::iter::once(k.clone())
                                .chain(a.iter().map(|a| a.eval(rs)))
                                .collect::<Vec<_>>()
                                .join("|")
                        })
                        .collect(),
                )
            }
            Shape::Limit(c, n, off) => {
                let l: Vec<String> = hit.iter().map(|r| texts(c, r)).collect();
                let n = l.len().saturating_sub(*off).min(*n);
                Answer::Some(l, n)
            }
            Shape::Order(c, desc, first, n) => {
                let mut v: Vec<Val> = hit.iter().map(|r| c.val(r)).collect();
                v.sort_by(|a, b| match (a, b) {
                    (Val::Null, Val::Null) => Ordering::Equal,
                    (Val::Null, _) if *first => Ordering::Less,
                    (Val::Null, _) => Ordering::Greater,
                    (_, Val::Null) if *first => Ordering::Greater,
                    (_, Val::Null) => Ordering::Less,
                    (a, b) if *desc => cmp_val(b, a),
                    (a, b) => cmp_val(a, b),
                });
                v.truncate(*n);
                Answer::List(v.iter().map(|v| canon(&c.ty, v)).collect())
            }
            Shape::Distinct(c) => {
                let s: BTreeSet<String> = hit.iter().map(|r| texts(c, r)).collect();
                Answer::Bag(s.into_iter().collect())
            }
            Shape::Join(c) => {
                let mut m: BTreeMap<String, usize> = BTreeMap::new();
                for r in rows.iter().filter(|r| c.val(r) != Val::Null) {
                    *m.entry(c.text(r)).or_insert(0) += 1;
                }
                let n: usize = hit
                    .iter()
                    .filter(|r| c.val(r) != Val::Null)
                    .map(|r| m.get(&c.text(r)).copied().unwrap_or(0))
                    .sum();
                Answer::Bag(vec![n.to_string()])
            }
            Shape::Union(c, p) => {
                let mut l: Vec<String> = hit.iter().map(|r| texts(c, r)).collect();
                l.extend(keep(p).iter().map(|r| texts(c, r)));
                Answer::Bag(l)
            }
            Shape::Semi(c, neg, p) => {
                let inner: Vec<Val> = keep(p).iter().map(|r| c.val(r)).collect();
                let some: BTreeSet<String> = inner
                    .iter()
                    .filter(|v| **v != Val::Null)
                    .map(|v| canon(&c.ty, v))
                    .collect();
                let null = inner.contains(&Val::Null);
                let keep = |r: &&&Rc<Row>| {
                    let v = c.val(r);
                    if inner.is_empty() {
                        return *neg;
                    }
                    if v == Val::Null {
                        return false;
                    }
                    match some.contains(&canon(&c.ty, &v)) {
                        true => !*neg,
                        false => *neg && !null,
                    }
                };
                Answer::Bag(hit.iter().filter(keep).map(|r| c.text(r)).collect())
            }
        }
    }
}

pub fn columns(spec: &TableSpec) -> Vec<QCol> {
    let meta = |name: &str, src| QCol {
        name: name.into(),
        ty: Ty::Str,
        src,
        since: 0,
    };
    let mut v = vec![
        meta("_hoodie_commit_time", Src::Time),
        meta("_hoodie_record_key", Src::Key),
        meta("_hoodie_partition_path", Src::Part),
    ];
    v.extend(spec.cols.iter().enumerate().map(|(i, c)| QCol {
        name: c.name.clone(),
        ty: c.ty.clone(),
        src: Src::Col(i),
        since: c.since,
    }));
    v
}

pub struct Gen<'a> {
    pub spec: &'a TableSpec,
    pub cols: &'a [QCol],
    pub rows: &'a [Rc<Row>],
}

impl Gen<'_> {
    fn value(&self, r: &mut Rng, c: &QCol) -> Val {
        if r.pm(600) && !self.rows.is_empty() {
            let v = c.val(r.pick::<Rc<Row>>(self.rows));
            if v != Val::Null {
                return v;
            }
        }
        if self.spec.parts.contains(&c.name) {
            let v = r.pick(&self.spec.pool(&c.name)).clone();
            if v != Val::Null {
                return match v {
                    Val::I32(x) if r.pm(200) => Val::I32(x.saturating_add(r.range(-1, 1) as i32)),
                    Val::I64(x) if r.pm(200) => Val::I64(x.saturating_add(r.range(-1, 1))),
                    v => v,
                };
            }
        }
        match c.ty {
            Ty::F64 => Val::F64(*r.pick(&[0.5, 3.0, -1.25, 10.25])),
            _ => c.ty.gen(r, false),
        }
    }
    fn atom(&self, r: &mut Rng) -> Pred {
        // floats only as partition values: others may be NaN, which Parquet's statistics leave out
        let is_part = |c: &&QCol| self.spec.partitioned() && self.spec.parts.contains(&c.name);
        let parts: Vec<&QCol> = self.cols.iter().filter(is_part).collect();
        let pool: Vec<&QCol> = if !parts.is_empty() && r.pm(600) {
            parts
        } else {
            self.cols.iter().filter(|c| c.comparable(false)).collect()
        };
        let c = (*r.pick(&pool)).clone();
        if !c.comparable(true) {
            return Pred::Null(c, r.coin());
        }
        let op = *r.pick(&OPS);
        match r.below(20) {
            0..=8 => Pred::Cmp(c.clone(), op, self.value(r, &c), r.pm(400)),
            9 => {
                let same: Vec<&QCol> = self
                    .cols
                    .iter()
                    .filter(|d| d.ty == c.ty && d.comparable(c.ty != Ty::F64))
                    .collect();
                if same.is_empty() || c.ty == Ty::F64 {
                    return Pred::Null(c, true);
                }
                Pred::Cols(c.clone(), op, (*r.pick(&same)).clone())
            }
            10 if c.ty == Ty::I32 => Pred::Plus(c, r.range(-3, 3) as i32, op, r.range(-20, 20)),
            10 | 11 => Pred::Null(c, r.coin()),
            12 | 13 => {
                let n = *r.pick(&[1usize, 2, 3, 5]);
                // no NULL in the list: DataFusion's intersection of two lists forgets it
                Pred::In(
                    c.clone(),
                    (0..n).map(|_| self.value(r, &c)).collect(),
                    r.pm(350),
                )
            }
            14 | 15 => {
                let (a, b) = (self.value(r, &c), self.value(r, &c));
                Pred::Between(c, a, b, r.pm(350))
            }
            16 => {
                let v = if r.pm(300) {
                    Val::Null
                } else {
                    self.value(r, &c)
                };
                Pred::Distinct(c, v, r.coin())
            }
            17 if c.ty == Ty::Str => {
                let v = match self.value(r, &c) {
                    Val::Str(s) => s
                        .chars()
                        .take(2)
                        .filter(|c| c.is_ascii_alphanumeric())
                        .collect(),
                    _ => String::new(),
                };
                Pred::Like(c, v, r.pm(350))
            }
            17 => Pred::Vague(c, op),
            18 if c.ty == Ty::Bool => Pred::Bare(c),
            18 => Pred::Const(r.coin()),
            _ => Pred::Cmp(c.clone(), Op::Eq, self.value(r, &c), false),
        }
    }
    fn pred(&self, r: &mut Rng, depth: u32) -> Pred {
        if depth == 0 || r.pm(350) {
            return self.atom(r);
        }
        match r.below(6) {
            0 => Pred::Not(Box::new(self.pred(r, depth - 1))),
            1 | 2 => Pred::Or(
                Box::new(self.pred(r, depth - 1)),
                Box::new(self.pred(r, depth - 1)),
            ),
            _ => Pred::And(
                Box::new(self.pred(r, depth - 1)),
                Box::new(self.pred(r, depth - 1)),
            ),
        }
    }
    fn some_cols(&self, r: &mut Rng) -> Vec<QCol> {
        let n = r.us(1, self.cols.len().min(4));
        let mut c = self.cols.to_vec();
        r.shuffle(&mut c);
        c.truncate(n);
        c
    }
    fn one(&self, r: &mut Rng, f: impl Fn(&QCol) -> bool) -> QCol {
        let v: Vec<&QCol> = self.cols.iter().filter(|c| f(c)).collect();
        (*r.pick(&v)).clone()
    }
    fn agg(&self, r: &mut Rng) -> Agg {
        match r.below(6) {
            0 => Agg::Count,
            1 => Agg::CountCol(r.pick(self.cols).clone()),
            2 => Agg::CountDistinct(self.one(r, |c| c.ordered())),
            3 => Agg::Min(self.one(r, |c| c.ordered())),
            4 => Agg::Max(self.one(r, |c| c.ordered())),
            _ => match self.cols.iter().find(|c| c.ty == Ty::I32) {
                Some(c) => Agg::Sum(c.clone()),
                None => Agg::Count,
            },
        }
    }
    pub fn query(&self, r: &mut Rng) -> Query {
        let maybe = |g: &Self, r: &mut Rng, pm| match r.pm(pm) {
            true => std::iter::repeat_with(|| g.pred(r, 2)).find(|p| !p.intersects()),
            false => None,
        };
        let pred = maybe(self, r, 750);
        let shape = match r.below(16) {
            0 | 1 => Shape::Star,
            2..=5 => Shape::Project(self.some_cols(r)),
            6 => Shape::Aggregate(vec![Agg::Count]),
            7 => Shape::Aggregate((0..r.us(1, 4)).map(|_| self.agg(r)).collect()),
            8 => {
                let c = self.one(r, |c| c.ordered());
                Shape::Group(c, (0..r.us(1, 3)).map(|_| self.agg(r)).collect())
            }
            9 | 10 => Shape::Limit(
                self.some_cols(r),
                *r.pick(&[0, 1, 2, 5, 20, 1000]),
                *r.pick(&[0, 0, 0, 1, 7]),
            ),
            11 => Shape::Order(
                self.one(r, |c| c.ordered()),
                r.coin(),
                r.coin(),
                *r.pick(&[1, 3, 10, 5000]),
            ),
            12 => Shape::Distinct(
                self.some_cols(r)
                    .into_iter()
                    .filter(|c| c.ordered())
                    .collect(),
            ),
            13 => Shape::Join(self.one(r, |c| c.ordered())),
            14 => Shape::Union(self.some_cols(r), maybe(self, r, 600)),
            // DataFusion's anti joins do not know nulls: only keys
            _ if r.pm(300) => Shape::Semi(self.cols[1].clone(), true, maybe(self, r, 600)),
            _ => Shape::Semi(self.one(r, |c| c.ordered()), false, maybe(self, r, 600)),
        };
        let shape = match shape {
            Shape::Distinct(c) if c.is_empty() => Shape::Project(vec![self.cols[1].clone()]),
            // the product of big groups is not interesting
            Shape::Join(_) if self.rows.len() > 300 => Shape::Join(self.cols[1].clone()),
            s => s,
        };
        Query { shape, pred }
    }
}
