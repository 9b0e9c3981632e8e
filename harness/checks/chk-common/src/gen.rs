//! Generators of the stored query definitions.
use std::sync::Arc;

use chrono::{DateTime, TimeZone, Utc};
use common::event_segmentation as es;
use common::funnel as fu;
use common::query::*;
use datafusion_common::ScalarValue;
use proputil::Src;

pub fn dt(s: &mut Src) -> DateTime<Utc> {
    // 1970..2105 with sub-second parts
    let secs = s.below(4_260_000_000) as i64;
    let ns = *s.pick(&[0u32, 1, 1_000, 1_000_000, 999_999_999]);
    Utc.timestamp_opt(secs, ns).unwrap()
}

pub fn scalar(s: &mut Src) -> ScalarValue {
    let tz = |s: &mut Src| s.opt(|s| Arc::from(*s.pick(&["UTC", "+02:00"])) as Arc<str>);
    macro_rules! int {
        ($v:ident, $t:ty) => {
            ScalarValue::$v(s.opt(|s| s.int() as $t))
        };
    }
    match s.below(28) {
        0 => ScalarValue::Null,
        1 => ScalarValue::Boolean(s.opt(|s| s.bool())),
        2 => int!(Int8, i8),
        3 => int!(Int16, i16),
        4 => int!(Int32, i32),
        5 => int!(Int64, i64),
        6 => int!(UInt8, u8),
        7 => int!(UInt16, u16),
        8 => int!(UInt32, u32),
        9 => int!(UInt64, u64),
        10 => ScalarValue::Float32(s.opt(|s| s.int() as f32 / 8.0)),
        11 => ScalarValue::Float64(s.opt(|s| s.int() as f64 / 8.0)),
        12 => {
            let v = s.opt(|s| s.int() as i128 * *s.pick(&[1i128, 10i128.pow(16), 12345]));
            ScalarValue::Decimal128(v, *s.pick(&[28u8, 1, 38]), *s.pick(&[16i8, 0, -2, 28]))
        }
        13 => ScalarValue::Utf8(s.opt(|s| s.string(6))),
        14 => ScalarValue::LargeUtf8(s.opt(|s| s.string(6))),
        15 => ScalarValue::Binary(s.opt(|s| s.vec(0, 5, |s| s.below(256) as u8))),
        16 => ScalarValue::LargeBinary(s.opt(|s| s.vec(0, 5, |s| s.below(256) as u8))),
        17 => ScalarValue::FixedSizeBinary(3, s.opt(|s| s.vec(3, 3, |s| s.below(256) as u8))),
        // (the Debug form of dates and times is only defined for a sane range)
        18 => ScalarValue::Date32(s.opt(|s| s.range(-30000, 80000) as i32)),
        19 => ScalarValue::Date64(s.opt(|s| s.range(-30000, 80000) * 86_400_000)),
        20 => int!(Time32Second, i32),
        21 => int!(Time32Millisecond, i32),
        22 => int!(Time64Microsecond, i64),
        23 => int!(Time64Nanosecond, i64),
        24 => ScalarValue::TimestampSecond(s.opt(|s| s.int()), tz(s)),
        25 => ScalarValue::TimestampMillisecond(s.opt(|s| s.int()), tz(s)),
        26 => ScalarValue::TimestampMicrosecond(s.opt(|s| s.int()), tz(s)),
        _ => ScalarValue::TimestampNanosecond(s.opt(|s| s.int()), tz(s)),
    }
}

pub fn unit(s: &mut Src) -> TimeIntervalUnit {
    s.pick(&[
        TimeIntervalUnit::Hour,
        TimeIntervalUnit::Day,
        TimeIntervalUnit::Week,
        TimeIntervalUnit::Month,
        TimeIntervalUnit::Year,
    ])
    .clone()
}
pub fn prop_ref(s: &mut Src) -> PropertyRef {
    match s.below(3) {
        0 => PropertyRef::Event(s.string(5)),
        1 => PropertyRef::Group(s.string(5), s.us(0, 4)),
        _ => PropertyRef::Custom(s.u64()),
    }
}
pub fn event_ref(s: &mut Src) -> EventRef {
    match s.below(3) {
        0 => EventRef::RegularName(s.string(5)),
        1 => EventRef::Regular(s.u64()),
        _ => EventRef::Custom(s.u64()),
    }
}
pub fn op(s: &mut Src) -> PropValueOperation {
    use PropValueOperation::*;
    s.pick(&[Eq, Neq, Gt, Gte, Lt, Lte, True, False, Exists, Empty, Like, NotLike, Regex, NotRegex]).clone()
}
pub fn values(s: &mut Src) -> Option<Vec<ScalarValue>> {
    s.opt(|s| s.vec(0, 3, scalar))
}
pub fn filter(s: &mut Src) -> PropValueFilter {
    PropValueFilter::Property { property: prop_ref(s), operation: op(s), value: values(s) }
}
pub fn filters(s: &mut Src) -> Option<Vec<PropValueFilter>> {
    s.opt(|s| s.vec(0, 3, filter))
}
pub fn breakdowns(s: &mut Src) -> Option<Vec<Breakdown>> {
    s.opt(|s| s.vec(0, 2, |s| Breakdown::Property(prop_ref(s))))
}
pub fn qtime(s: &mut Src) -> QueryTime {
    match s.below(3) {
        0 => QueryTime::Between { from: dt(s), to: dt(s) },
        1 => QueryTime::From(dt(s)),
        _ => QueryTime::Last { last: s.int(), unit: unit(s) },
    }
}
pub fn stime(s: &mut Src) -> SegmentTime {
    match s.below(5) {
        0 => SegmentTime::Between { from: dt(s), to: dt(s) },
        1 => SegmentTime::From(dt(s)),
        2 => SegmentTime::Last { n: s.int(), unit: unit(s) },
        3 => SegmentTime::AfterFirstUse { within: s.int(), unit: unit(s) },
        _ => SegmentTime::Each { n: s.int(), unit: unit(s) },
    }
}
fn qagg(s: &mut Src) -> QueryAggregate {
    use QueryAggregate::*;
    s.pick(&[Min, Max, Sum, Avg, Median, DistinctCount, Percentile25th, Percentile75th, Percentile90th, Percentile99th]).clone()
}
fn agg(s: &mut Src) -> AggregateFunction {
    use AggregateFunction::*;
    s.pick(&[Count, Sum, Min, Max, Avg]).clone()
}
fn pagg(s: &mut Src) -> PartitionedAggregateFunction {
    use PartitionedAggregateFunction::*;
    s.pick(&[Count, Sum, Avg, Min, Max]).clone()
}
fn cond(s: &mut Src) -> SegmentCondition {
    match s.below(3) {
        0 => SegmentCondition::HasPropertyValue { property: prop_ref(s), operation: op(s), value: values(s) },
        1 => SegmentCondition::HadPropertyValue { property: prop_ref(s), operation: op(s), value: values(s), time: stime(s) },
        _ => SegmentCondition::DidEvent {
            event: event_ref(s),
            filters: filters(s),
            aggregate: match s.below(4) {
                0 => DidEventAggregate::Count { operation: op(s), value: s.int(), time: stime(s) },
                1 => DidEventAggregate::RelativeCount { event: event_ref(s), operation: op(s), filters: filters(s), time: stime(s) },
                2 => DidEventAggregate::AggregateProperty {
                    property: prop_ref(s),
                    aggregate: qagg(s),
                    operation: op(s),
                    value: s.opt(scalar),
                    time: stime(s),
                },
                _ => DidEventAggregate::HistoricalCount { operation: op(s), value: s.u64(), time: stime(s) },
            },
        },
    }
}
pub fn segments(s: &mut Src) -> Option<Vec<Segment>> {
    s.opt(|s| s.vec(0, 2, |s| Segment { name: s.string(4), conditions: s.vec(0, 2, |s| s.vec(0, 2, cond)) }))
}
pub fn segmentation(s: &mut Src) -> es::EventSegmentationRequest {
    es::EventSegmentationRequest {
        time: qtime(s),
        group_id: s.us(0, 4),
        interval_unit: unit(s),
        chart_type: s.pick(&[es::ChartType::Line, es::ChartType::Column, es::ChartType::Pie]).clone(),
        analysis: match s.below(4) {
            0 => es::Analysis::Linear,
            1 => es::Analysis::RollingAverage { window: s.us(0, 9), unit: unit(s) },
            2 => es::Analysis::Logarithmic,
            _ => es::Analysis::Cumulative,
        },
        compare: s.opt(|s| es::Compare { offset: s.us(0, 9), unit: unit(s) }),
        events: s.vec(0, 3, |s| es::Event {
            event: event_ref(s),
            filters: filters(s),
            breakdowns: breakdowns(s),
            queries: s.vec(0, 2, |s| es::NamedQuery {
                agg: match s.below(9) {
                    0 => es::Query::CountEvents,
                    1 => es::Query::CountUniqueGroups,
                    2 => es::Query::DailyActiveGroups,
                    3 => es::Query::WeeklyActiveGroups,
                    4 => es::Query::MonthlyActiveGroups,
                    5 => es::Query::CountPerGroup { aggregate: agg(s) },
                    6 => es::Query::AggregatePropertyPerGroup { property: prop_ref(s), aggregate_per_group: pagg(s), aggregate: agg(s) },
                    7 => es::Query::AggregateProperty { property: prop_ref(s), aggregate: agg(s) },
                    _ => es::Query::QueryFormula { formula: s.string(5) },
                },
                name: s.opt(|s| s.string(3)),
            }),
        }),
        filters: filters(s),
        breakdowns: breakdowns(s),
        segments: segments(s),
    }
}
pub fn funnel(s: &mut Src) -> fu::Funnel {
    let fev = |s: &mut Src| fu::Event { event: event_ref(s), filters: filters(s) };
    fu::Funnel {
        time: qtime(s),
        group_id: s.us(0, 4),
        steps: s.vec(0, 3, |s| fu::Step {
            events: s.vec(0, 2, fev),
            order: if s.bool() { fu::StepOrder::Any(s.vec(0, 2, |s| (s.us(0, 4), s.us(0, 4)))) } else { fu::StepOrder::Exact },
        }),
        time_window: fu::TimeWindow {
            n: s.us(0, 40),
            unit: {
                use fu::TimeIntervalUnitSession::*;
                s.pick(&[Hour, Day, Week, Month, Year, Session]).clone()
            },
        },
        chart_type: match s.below(4) {
            0 => fu::ChartType::Steps,
            1 => fu::ChartType::ConversionOverTime { interval_unit: unit(s) },
            2 => fu::ChartType::TimeToConvert { interval_unit: unit(s), min_interval: s.int(), max_interval: s.int() },
            _ => fu::ChartType::Frequency,
        },
        count: s.pick(&[fu::Count::Unique, fu::Count::NonUnique, fu::Count::Session]).clone(),
        filter: s.opt(|s| match s.below(3) {
            0 => fu::Filter::DropOffOnAnyStep,
            1 => fu::Filter::DropOffOnStep(s.us(0, 5)),
            _ => fu::Filter::TimeToConvert(s.int(), s.int()),
        }),
        touch: s.opt(|s| match s.below(3) {
            0 => fu::Touch::First,
            1 => fu::Touch::Last,
            _ => fu::Touch::Step { step: s.us(0, 5) },
        }),
        holding_constants: s.opt(|s| s.vec(0, 2, prop_ref)),
        exclude: s.opt(|s| {
            s.vec(0, 2, |s| fu::Exclude {
                event: event_ref(s),
                filters: filters(s),
                steps: s.opt(|s| if s.bool() { fu::ExcludeSteps::Between(s.us(0, 4), s.us(0, 4)) } else { fu::ExcludeSteps::All }),
            })
        }),
        breakdowns: breakdowns(s),
        segments: segments(s),
        filters: filters(s),
    }
}
