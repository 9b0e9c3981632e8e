mod gen;
mod http;
mod time;
use std::fmt::Debug;

use arrow::datatypes::DataType;
use common::query::*;
use common::types::*;
use proputil::*;
use serde::de::DeserializeOwned;
use serde::Serialize;

fn rt<T: Serialize + DeserializeOwned + PartialEq + Debug>(what: &str, v: &T) -> R {
    let j = serde_json::to_string(v).map_err(|e| format!("{what}: JSON encode: {e}"))?;
    let back: T = serde_json::from_str(&j).map_err(|e| format!("{what}: JSON decode: {e} of {j}"))?;
    ensure_eq!(back, *v, "{what}: JSON round trip");
    let b = bincode::serialize(v).map_err(|e| format!("{what}: binary encode: {e}"))?;
    let back: T = bincode::deserialize(&b).map_err(|e| format!("{what}: binary decode: {e}"))?;
    ensure_eq!(back, *v, "{what}: binary round trip");
    Ok(())
}

fn c01(p: &mut Prop) {
    p.suite(
        "segmentation-report",
        "random segmentation definitions over every variant; non-trivial: at least one event or segment with content",
        6000,
        200000,
        |s, c| {
            let v = gen::segmentation(s);
            c.note(format!("{v:?}"));
            c.nontrivial(!v.events.is_empty() || v.segments.as_ref().is_some_and(|x| !x.is_empty()));
            if v.segments.is_some() {
                c.label("segments");
            }
            rt("segmentation", &v)
        },
    );
    p.suite(
        "funnel-report",
        "random funnel definitions over every variant; non-trivial: at least one step",
        6000,
        200000,
        |s, c| {
            let v = gen::funnel(s);
            c.note(format!("{v:?}"));
            c.nontrivial(!v.steps.is_empty());
            rt("funnel", &v)
        },
    );
    p.suite(
        "filter-value",
        "one filter with one typed value; non-trivial: the value is not null",
        20000,
        500000,
        |s, c| {
            let v = gen::scalar(s);
            c.note(format!("{v:?}"));
            c.nontrivial(!v.is_null());
            c.label(format!("{}", v.data_type()));
            let f = PropValueFilter::Property {
                property: PropertyRef::Event("p".into()),
                operation: PropValueOperation::Eq,
                value: Some(vec![v.clone()]),
            };
            rt("filter", &f)?;
            // two different values never become the same stored value
            let w = gen::scalar(s);
            if w != v {
                let a = bincode::serialize(&common::scalar::ScalarValueRef::from(&v)).unwrap();
                let b = bincode::serialize(&common::scalar::ScalarValueRef::from(&w)).unwrap();
                ensure!(a != b, "{v:?} and {w:?} are stored alike");
            }
            Ok(())
        },
    );
}

fn dtype(s: &mut Src) -> DType {
    s.pick(&[
        DType::String,
        DType::Int8,
        DType::Int16,
        DType::Int32,
        DType::Int64,
        DType::Decimal,
        DType::Boolean,
        DType::Timestamp,
    ])
    .clone()
}

fn c04(p: &mut Prop) {
    use arrow2::datatypes::DataType as D2;
    p.suite(
        "column-type",
        "a logical type (a third of them lists) through both column formats; every case is non-trivial",
        2000,
        20000,
        |s, c| {
            let el = dtype(s);
            let list = s.below(3) == 2;
            let t = if list { DType::List(Box::new(el.clone())) } else { el.clone() };
            c.note(format!("{t:?}"));
            c.nontrivial(true);
            c.label(format!("{t:?}"));
            let a: DataType = t.clone().into();
            let b: D2 = t.clone().try_into().map_err(|e| format!("{e:?}"))?;
            // a list is stored as a nullable column of its element type
            ensure_eq!(DType::from(a.clone()), el, "query-side type of {t:?} read back");
            ensure_eq!(DType::try_from(b.clone()).map_err(|e| format!("{e:?}"))?, el, "storage-side type of {t:?} read back");
            // and both sides agree on the physical layout
            let same = match (&a, &b) {
                (DataType::Utf8, D2::Utf8)
                | (DataType::Int8, D2::Int8)
                | (DataType::Int16, D2::Int16)
                | (DataType::Int32, D2::Int32)
                | (DataType::Int64, D2::Int64)
                | (DataType::Boolean, D2::Boolean) => true,
                (DataType::Decimal128(p, sc), D2::Decimal(p2, s2)) => {
                    *p as usize == *p2 && *sc as usize == *s2 && *p == common::DECIMAL_PRECISION && *sc == common::DECIMAL_SCALE
                }
                (
                    DataType::Timestamp(arrow_schema::TimeUnit::Millisecond, None),
                    D2::Timestamp(arrow2::datatypes::TimeUnit::Millisecond, None),
                ) => true,
                _ => false,
            };
            ensure!(same, "{t:?} is {a:?} for queries but {b:?} in storage");
            let bl = D2::List(Box::new(arrow2::datatypes::Field::new("item", b.clone(), true)));
            let al = DataType::List(std::sync::Arc::new(arrow_schema::Field::new("item", a.clone(), true)));
            ensure_eq!(DType::try_from(bl).map_err(|e| format!("{e:?}"))?, el, "storage-side list of {t:?}");
            ensure_eq!(DType::from(al), el, "query-side list of {t:?}");
            // column name stems distinguish types
            let u = if s.bool() { DType::List(Box::new(dtype(s))) } else { dtype(s) };
            ensure_eq!(u.short_name() == t.short_name(), u == t, "stems of {t:?} and {u:?}");
            rt("type", &t)?;
            for a in [
                arrow_schema::TimeUnit::Second,
                arrow_schema::TimeUnit::Millisecond,
                arrow_schema::TimeUnit::Microsecond,
                arrow_schema::TimeUnit::Nanosecond,
            ] {
                let q: TimeUnit = a.clone().try_into().map_err(|e| format!("{e:?}"))?;
                ensure_eq!(format!("{q:?}"), format!("{a:?}"), "time unit");
                let b: arrow_schema::TimeUnit = q.try_into().map_err(|e| format!("{e:?}"))?;
                ensure_eq!(b, a, "time unit read back");
            }
            let b = common::arrow::DecimalBuilder::with_capacity(1).finish();
            ensure_eq!(*arrow::array::Array::data_type(&b), DataType::from(DType::Decimal), "decimal column");
            Ok(())
        },
    );
}

fn c05(p: &mut Prop) {
    #[derive(Serialize, serde::Deserialize, Debug, Clone, PartialEq, Default)]
    #[serde(rename_all = "camelCase")]
    struct Patch {
        #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
        name: OptionalProperty<String>,
        #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
        display_name: OptionalProperty<Option<String>>,
        #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
        tags: OptionalProperty<Option<Vec<i64>>>,
        #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
        flag: OptionalProperty<bool>,
    }
    p.suite(
        "patch-document",
        "random patch documents (each field absent, null or set); non-trivial: at least one field present",
        8000,
        200000,
        |s, c| {
            fn opt<T>(s: &mut Src, f: impl FnOnce(&mut Src) -> T) -> OptionalProperty<T> {
                if s.bool() { OptionalProperty::Some(f(s)) } else { OptionalProperty::None }
            }
            let v = Patch {
                name: opt(s, |s| s.string(4)),
                display_name: opt(s, |s| s.opt(|s| s.string(4))),
                tags: opt(s, |s| s.opt(|s| s.vec(0, 3, |s| s.int()))),
                flag: opt(s, |s| s.bool()),
            };
            c.note(format!("{v:?}"));
            let present = [v.name.is_none(), v.display_name.is_none(), v.tags.is_none(), v.flag.is_none()];
            c.nontrivial(present.iter().any(|n| !n));
            // the document written by hand
            let mut o = serde_json::Map::new();
            if let OptionalProperty::Some(x) = &v.name {
                o.insert("name".into(), serde_json::json!(x));
            }
            if let OptionalProperty::Some(x) = &v.display_name {
                o.insert("displayName".into(), serde_json::json!(x));
            }
            if let OptionalProperty::Some(x) = &v.tags {
                o.insert("tags".into(), serde_json::json!(x));
            }
            if let OptionalProperty::Some(x) = &v.flag {
                o.insert("flag".into(), serde_json::json!(x));
            }
            let doc = serde_json::Value::Object(o);
            let got: Patch = serde_json::from_value(doc.clone()).map_err(|e| format!("{doc}: {e}"))?;
            ensure_eq!(got, v, "patch read from {doc}");
            ensure_eq!(serde_json::to_value(&v).map_err(|e| e.to_string())?, doc, "patch written");
            // null for a field that cannot be cleared is an error, never "absent"
            for f in ["name", "flag"] {
                let mut d = doc.clone();
                d[f] = serde_json::Value::Null;
                ensure!(serde_json::from_value::<Patch>(d).is_err(), "null {f} accepted");
            }
            // carrying a patch to another layer keeps presence and value
            ensure_eq!(v.tags.clone().map(|t| t.map(|x| x.len())), match &v.tags {
                OptionalProperty::None => OptionalProperty::None,
                OptionalProperty::Some(t) => OptionalProperty::Some(t.as_ref().map(|x| x.len())),
            }, "map");
            let w: OptionalProperty<Vec<u8>> = v.name.clone().into();
            ensure_eq!(w, v.name.clone().map(|n| n.into_bytes()), "into");
            let n = opt(s, |s| s.int());
            let t: Result<OptionalProperty<i8>, _> = n.clone().try_into();
            match (&n, t) {
                (OptionalProperty::None, Ok(OptionalProperty::None)) => {}
                (OptionalProperty::Some(x), Ok(OptionalProperty::Some(y))) => ensure_eq!(i64::from(y), *x, "try_into"),
                (OptionalProperty::Some(x), Err(_)) => ensure!(i8::try_from(*x).is_err(), "try_into refused {x}"),
                (a, b) => return Err(format!("try_into {a:?} gave {b:?}")),
            }
            let mut m = v.name.clone();
            m.insert("z".into());
            ensure_eq!(m, OptionalProperty::Some("z".to_string()), "insert");
            Ok(())
        },
    );
}

fn c06(p: &mut Prop) {
    use datafusion::arrow::array::*;
    use datafusion::physical_expr::expressions::{BinaryExpr, Column, Literal};
    use datafusion::physical_plan::PhysicalExpr;
    use datafusion_common::ScalarValue;
    use datafusion_expr::Operator as DFOp;
    use std::sync::Arc;
    p.suite(
        "comparison",
        "an operation evaluated over a generated column against the natural comparison; non-trivial: both outcomes occur",
        3000,
        60000,
        |s, c| {
            let ops: [(PropValueOperation, fn(std::cmp::Ordering) -> bool); 6] = [
                (PropValueOperation::Eq, |o| o.is_eq()),
                (PropValueOperation::Neq, |o| o.is_ne()),
                (PropValueOperation::Gt, |o| o.is_gt()),
                (PropValueOperation::Gte, |o| o.is_ge()),
                (PropValueOperation::Lt, |o| o.is_lt()),
                (PropValueOperation::Lte, |o| o.is_le()),
            ];
            let (op, want) = s.pick(&ops).clone();
            let a: Vec<Option<i64>> = s.vec(1, 8, |s| if s.chance(1, 6) { None } else { Some(s.int()) });
            let v = if s.bool() { s.int() } else { a.iter().flatten().next().copied().unwrap_or(0) };
            c.note(format!("{a:?} {op:?} {v}"));
            let direct: DFOp = op.clone().try_into().map_err(|e| format!("{e:?}"))?;
            let via: DFOp = Operator::from(op.clone()).into();
            ensure_eq!(via, direct, "{op:?} maps to two operators");
            ensure_eq!(Operator::from(direct), Operator::from(op.clone()), "operator of {op:?} read back");
            let arr = Int64Array::from(a.clone());
            let schema = Arc::new(arrow_schema::Schema::new(vec![arrow_schema::Field::new("x", DataType::Int64, true)]));
            let rb = RecordBatch::try_new(schema.clone(), vec![Arc::new(arr)]).unwrap();
            let e = BinaryExpr::new(
                Arc::new(Column::new("x", 0)),
                direct,
                Arc::new(Literal::new(ScalarValue::Int64(Some(v)))),
            );
            let r = e.evaluate(&rb).map_err(|e| e.to_string())?.into_array(a.len()).map_err(|e| e.to_string())?;
            let r = r.as_any().downcast_ref::<BooleanArray>().ok_or("not boolean")?;
            let mut outs = [false; 2];
            for (i, x) in a.iter().enumerate() {
                let got = if r.is_null(i) { None } else { Some(r.value(i)) };
                let w = x.map(|x| want(x.cmp(&v)));
                if let Some(b) = w {
                    outs[b as usize] = true;
                }
                ensure_eq!(got, w, "{x:?} {op:?} {v}");
            }
            c.label(format!("{op:?}"));
            c.nontrivial(outs[0] && outs[1]);
            Ok(())
        },
    );
    p.suite(
        "match-and-valueless",
        "regex operations over generated texts, and which operations take no value; every case is non-trivial",
        1500,
        20000,
        |s, c| {
            let texts: Vec<String> = s.vec(1, 5, |s| s.string(4).replace('\n', "n"));
            let pat = *s.pick(&["a", "^a", "b$", "[abc]+", "^$", "1|z"]);
            let neg = s.bool();
            let op = if neg { PropValueOperation::NotRegex } else { PropValueOperation::Regex };
            c.note(format!("{texts:?} {op:?} {pat}"));
            c.nontrivial(true);
            let direct: DFOp = op.clone().try_into().map_err(|e| format!("{e:?}"))?;
            let via: DFOp = Operator::from(op.clone()).into();
            ensure_eq!(via, direct, "{op:?} maps to two operators");
            let arr = StringArray::from(texts.clone());
            let schema = Arc::new(arrow_schema::Schema::new(vec![arrow_schema::Field::new("x", DataType::Utf8, true)]));
            let rb = RecordBatch::try_new(schema, vec![Arc::new(arr)]).unwrap();
            let e = BinaryExpr::new(Arc::new(Column::new("x", 0)), direct, Arc::new(Literal::new(ScalarValue::from(pat))));
            let r = e.evaluate(&rb).map_err(|e| e.to_string())?.into_array(texts.len()).map_err(|e| e.to_string())?;
            let r = r.as_any().downcast_ref::<BooleanArray>().ok_or("not boolean")?;
            for (i, t) in texts.iter().enumerate() {
                let m = match pat {
                    "a" => t.contains('a'),
                    "^a" => t.starts_with('a'),
                    "b$" => t.ends_with('b'),
                    "[abc]+" => t.contains(['a', 'b', 'c']),
                    "^$" => t.is_empty(),
                    _ => t.contains(['1', 'z']),
                };
                ensure_eq!(r.value(i), m != neg, "{t:?} {op:?} {pat}");
            }
            let o = gen::op(s);
            use PropValueOperation::*;
            ensure_eq!(o.is_without_value(), matches!(o, True | False | Exists | Empty), "{o:?} takes no value");
            Ok(())
        },
    );
    p.suite(
        "aggregate-names",
        "the aggregate a report names is the one planned; every case is non-trivial",
        500,
        2000,
        |s, c| {
            use datafusion::physical_plan::aggregates::AggregateFunction as DF;
            c.nontrivial(true);
            let i = s.below(4) as usize;
            let q = [QueryAggregate::Min, QueryAggregate::Max, QueryAggregate::Avg, QueryAggregate::Sum][i].clone();
            c.note(format!("{q:?}"));
            let a = q.aggregate_function();
            ensure_eq!(format!("{a}"), ["MIN", "MAX", "AVG", "SUM"][i], "aggregate of {q:?}");
            let df: Option<DF> = [Some(DF::Min), Some(DF::Max), Some(DF::Avg), None][i].clone();
            if let Some(df) = df {
                ensure_eq!(DF::from(a.clone()), df, "planned aggregate of {a:?}");
                ensure_eq!(AggregateFunction::from(df), a, "aggregate read back");
            }
            ensure_eq!(DF::from(AggregateFunction::Count), DF::Count, "count");
            Ok(())
        },
    );
}

fn labels(p: &mut Prop) {
    use common::event_segmentation::Query;
    p.suite(
        "metric-labels",
        "the label of a generated metric against one spelled out by hand, and two metrics compared; non-trivial: the metric names a property",
        4000,
        60000,
        |s, c| {
            fn agg(s: &mut Src) -> (AggregateFunction, &'static str) {
                s.pick(&[
                    (AggregateFunction::Sum, "SUM"),
                    (AggregateFunction::Min, "MIN"),
                    (AggregateFunction::Max, "MAX"),
                    (AggregateFunction::Avg, "AVG"),
                    (AggregateFunction::Count, "COUNT"),
                ])
                .clone()
            }
            fn pagg(s: &mut Src) -> (PartitionedAggregateFunction, &'static str) {
                s.pick(&[
                    (PartitionedAggregateFunction::Sum, "SUM"),
                    (PartitionedAggregateFunction::Min, "MIN"),
                    (PartitionedAggregateFunction::Max, "MAX"),
                    (PartitionedAggregateFunction::Avg, "AVG"),
                    (PartitionedAggregateFunction::Count, "COUNT"),
                ])
                .clone()
            }
            fn prop(s: &mut Src) -> (PropertyRef, String) {
                let n = s.string(4);
                (if s.bool() { PropertyRef::Event(n.clone()) } else { PropertyRef::Group(n.clone(), s.us(0, 4)) }, n)
            }
            fn q(s: &mut Src) -> (Query, String, String, Vec<String>) {
                match s.below(3) {
                    0 => {
                        let (p, n) = prop(s);
                        let (a, an) = agg(s);
                        let w = format!("{an}({n})");
                        (Query::AggregateProperty { property: p, aggregate: a }, w, "agg".into(), vec![an.into(), n])
                    }
                    1 => {
                        let (p, n) = prop(s);
                        let (a, an) = agg(s);
                        let (i, inn) = pagg(s);
                        let w = format!("{an}({inn}({n}))");
                        (
                            Query::AggregatePropertyPerGroup { property: p, aggregate_per_group: i, aggregate: a },
                            w,
                            "partitioned_agg".into(),
                            vec![an.into(), inn.into(), n],
                        )
                    }
                    _ => {
                        let (a, an) = agg(s);
                        let w = format!("{}{}", &an[..1], an[1..].to_lowercase());
                        (Query::CountPerGroup { aggregate: a }, w, "partitioned_count".into(), vec![an.into()])
                    }
                }
            }
            let (a, want, init, key) = q(s);
            c.note(format!("{a:?}"));
            c.nontrivial(!matches!(a, Query::CountPerGroup { .. }));
            ensure_eq!(a.name(), want, "label of {a:?}");
            ensure_eq!(a.initial_name(), init.as_str(), "result column of {a:?}");
            let (b, _, _, key2) = q(s);
            if key != key2 && key.len() == key2.len() {
                ensure!(a.name() != b.name(), "{a:?} and {b:?} share a label");
            }
            Ok(())
        },
    );
}

fn c09(p: &mut Prop) {
    use common::rbac::*;
    // what each role is for, written down independently of the code
    use OrganizationRole as OR;
    use ProjectPermission as PP;
    use ProjectRole as PR;
    p.suite(
        "role-table",
        "a generated (role, privilege) pair looked up as the server does; non-trivial: the role is not unrestricted",
        3000,
        30000,
        |s, c| {
            let pps = [
                PP::ManageProject, PP::DeleteProject, PP::ViewProject, PP::ManageSchema, PP::DeleteSchema, PP::ViewSchema,
                PP::InviteMembers, PP::ManageMembers, PP::ExploreReports, PP::ManageReports,
            ];
            let roles = [PR::Owner, PR::Admin, PR::Member, PR::Reader];
            let r = s.pick(&roles).clone();
            let x = s.pick(&pps).clone();
            c.note(format!("{r:?} {x:?}"));
            c.nontrivial(r != PR::Owner);
            let granted = |r: &PR, x: &PP| {
                PROJECT_PERMISSIONS.iter().filter(|(k, _)| k == r).any(|(_, v)| v.contains(&PP::All) || v.contains(x))
            };
            let reader = [PP::ExploreReports, PP::ViewSchema];
            let member = [PP::ManageReports, PP::ManageSchema];
            let admin = [PP::ManageProject, PP::InviteMembers, PP::ManageMembers];
            let want = match r {
                PR::Owner => true,
                PR::Admin => reader.contains(&x) || member.contains(&x) || admin.contains(&x),
                PR::Member => reader.contains(&x) || member.contains(&x),
                PR::Reader => reader.contains(&x),
            };
            ensure_eq!(granted(&r, &x), want, "{r:?} may {x:?}");
            // a higher role never loses what a lower one has
            for w in roles.windows(2) {
                ensure!(!granted(&w[1], &x) || granted(&w[0], &x), "{:?} may {x:?} but {:?} may not", w[1], w[0]);
            }
            use OrganizationPermission as OP;
            let ops = [OP::ViewOrganization, OP::ManageOrganization, OP::ManageProjects, OP::ExploreProjects, OP::DeleteOrganization];
            let o = s.pick(&[OR::Owner, OR::Admin, OR::Member]).clone();
            let y = s.pick(&ops).clone();
            let got = ORGANIZATION_PERMISSIONS.iter().filter(|(k, _)| *k == o).any(|(_, v)| v.contains(&OP::All) || v.contains(&y));
            let want = match o {
                OR::Owner => true,
                OR::Admin => y == OP::ManageProjects,
                OR::Member => false,
            };
            ensure_eq!(got, want, "organization {o:?} may {y:?}");
            let all = [
                Permission::ManageAccounts, Permission::ViewAccounts, Permission::ManageOrganizations,
                Permission::ViewOrganizations, Permission::ManageProjects, Permission::ManageServer,
            ];
            let z = s.pick(&all).clone();
            ensure!(PERMISSIONS.iter().any(|(k, v)| *k == Role::Admin && (v.contains(&Permission::All) || v.contains(&z))), "admin may {z:?}");
            rt("role", &r)?;
            rt("organization role", &o)?;
            Ok(())
        },
    );
}

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let mut p = Prop::new(&id);
    match id.as_str() {
        "C01" => c01(&mut p),
        "C02" => {
            time::c02(&mut p);
            time::report_columns(&mut p)
        }
        "C03" => time::c03(&mut p),
        "C04" => c04(&mut p),
        "C05" => c05(&mut p),
        "C06" => {
            c06(&mut p);
            labels(&mut p)
        }
        "C07" => http::c07(&mut p),
        "C08" => http::c08(&mut p),
        "C09" => c09(&mut p),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
    p.finish()
}
