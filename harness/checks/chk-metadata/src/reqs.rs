//! Generators of report queries and event filters.
use chrono::DateTime;
use common::event_segmentation as es;
use common::funnel as f;
use common::query::*;
use common::types::{DECIMAL_PRECISION, DECIMAL_SCALE};
use datafusion_common::ScalarValue;
use metadata::reports;
use proputil::*;

const OPS: [PropValueOperation; 14] = [
    PropValueOperation::Eq, PropValueOperation::Neq, PropValueOperation::Gt, PropValueOperation::Gte, PropValueOperation::Lt,
    PropValueOperation::Lte, PropValueOperation::True, PropValueOperation::False, PropValueOperation::Exists, PropValueOperation::Empty,
    PropValueOperation::Like, PropValueOperation::NotLike, PropValueOperation::Regex, PropValueOperation::NotRegex,
];
pub fn prop_ref(s: &mut Src) -> PropertyRef {
    match s.us(0, 2) {
        0 => PropertyRef::Event(s.string(6)),
        1 => PropertyRef::Group(s.string(6), s.us(0, 4)),
        _ => PropertyRef::Custom(s.u64()),
    }
}
fn value(s: &mut Src) -> ScalarValue {
    match s.us(0, 7) {
        0 => ScalarValue::Utf8(Some(s.string(6))),
        1 => ScalarValue::Int8(Some(s.int() as i8)),
        2 => ScalarValue::Int16(Some(s.int() as i16)),
        3 => ScalarValue::Int32(Some(s.int() as i32)),
        4 => ScalarValue::Int64(Some(s.int())),
        5 => ScalarValue::Boolean(Some(s.bool())),
        6 => ScalarValue::TimestampMillisecond(Some(s.int()), None),
        _ => ScalarValue::Decimal128(Some(s.int() as i128 * s.int() as i128), DECIMAL_PRECISION, DECIMAL_SCALE),
    }
}
/// A filter as custom events store it.
pub fn ce_filter(s: &mut Src) -> PropValueFilter {
    let operation = s.pick(&OPS).clone();
    PropValueFilter::Property { property: prop_ref(s), operation, value: s.opt(|s| s.vec(1, 3, value)) }
}
fn unit(s: &mut Src) -> TimeIntervalUnit {
    [TimeIntervalUnit::Hour, TimeIntervalUnit::Day, TimeIntervalUnit::Week, TimeIntervalUnit::Month, TimeIntervalUnit::Year][s.us(0, 4)].clone()
}
fn time(s: &mut Src) -> QueryTime {
    let t = |s: &mut Src| DateTime::from_timestamp(s.range(0, 4_000_000_000), 0).unwrap();
    match s.us(0, 2) {
        0 => QueryTime::Between { from: t(s), to: t(s) },
        1 => QueryTime::From(t(s)),
        _ => QueryTime::Last { last: s.range(0, 100), unit: unit(s) },
    }
}
fn eref(s: &mut Src) -> EventRef {
    match s.us(0, 2) {
        0 => EventRef::RegularName(s.string(5)),
        1 => EventRef::Regular(s.u64()),
        _ => EventRef::Custom(s.u64()),
    }
}
/// Reports are covered in depth by C01; here it matters that the stored one comes back.
pub fn query(s: &mut Src) -> (reports::Type, reports::Query) {
    if s.bool() {
        let q = es::EventSegmentationRequest {
            time: time(s),
            group_id: s.us(0, 4),
            interval_unit: unit(s),
            chart_type: es::ChartType::Line,
            analysis: es::Analysis::Linear,
            compare: s.opt(|s| es::Compare { offset: s.us(0, 9), unit: unit(s) }),
            events: s.vec(1, 3, |s| {
                es::Event::new(eref(s), s.opt(|s| s.vec(1, 2, ce_filter)), s.opt(|s| vec![Breakdown::Property(prop_ref(s))]), vec![
                    es::NamedQuery::new(es::Query::CountEvents, s.opt(|s| s.string(4))),
                ])
            }),
            filters: s.opt(|s| s.vec(1, 2, ce_filter)),
            breakdowns: s.opt(|s| vec![Breakdown::Property(prop_ref(s))]),
            segments: None,
        };
        (reports::Type::EventSegmentation, reports::Query::EventSegmentation(q))
    } else {
        let q = f::Funnel {
            time: time(s),
            group_id: s.us(0, 4),
            steps: s.vec(1, 3, |s| f::Step {
                events: s.vec(1, 2, |s| f::Event { event: eref(s), filters: s.opt(|s| s.vec(1, 2, ce_filter)) }),
                order: f::StepOrder::Exact,
            }),
            time_window: f::TimeWindow { n: s.us(1, 9), unit: f::TimeIntervalUnitSession::Week },
            chart_type: if s.bool() { f::ChartType::Steps } else { f::ChartType::ConversionOverTime { interval_unit: unit(s) } },
            count: if s.bool() { f::Count::Unique } else { f::Count::NonUnique },
            filter: None,
            touch: s.opt(|s| f::Touch::Step { step: s.us(0, 3) }),
            holding_constants: s.opt(|s| vec![prop_ref(s)]),
            exclude: None,
            breakdowns: None,
            segments: None,
            filters: s.opt(|s| s.vec(1, 2, ce_filter)),
        };
        (reports::Type::Funnel, reports::Query::Funnel(q))
    }
}
