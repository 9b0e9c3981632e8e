H = '''
#![allow(unused_imports)]
use chrono::{DateTime, Utc, TimeZone, Duration};
'''
BUGS = [
dict(id='c01-timestamp-unit', property='C01', kind='common',
  edits=[('src/common/src/scalar.rs',
   "            ScalarValue::TimestampMicrosecond(v, f) => ScalarValueRef::TimestampMicrosecond(v, f),\n            ScalarValue::TimestampNanosecond(v, f) => ScalarValueRef::TimestampNanosecond(v, f),",
   "            ScalarValue::TimestampMicrosecond(v, f) => ScalarValueRef::TimestampMicrosecond(v, f),\n            ScalarValue::TimestampNanosecond(v, f) => {\n                ScalarValueRef::TimestampMicrosecond(v.map(|v| v / 1000), f)\n            }")],
  needs='a saved filter whose value is a nanosecond timestamp', breaks='nanosecond timestamps are stored as microseconds, so a report read back is not the one saved',
  demo=H+'''
use common::query::*;
use datafusion_common::ScalarValue;

#[test]
fn a_report_filter_with_a_timestamp_reads_back_as_saved() {
    for v in [
        ScalarValue::TimestampMillisecond(Some(1_700_000_000_123), None),
        ScalarValue::TimestampMicrosecond(Some(1_700_000_000_123_456), None),
        ScalarValue::TimestampNanosecond(Some(1_700_000_000_123_456_789), None),
    ] {
        let f = PropValueFilter::Property {
            property: PropertyRef::Event("at".to_string()),
            operation: PropValueOperation::Gt,
            value: Some(vec![v]),
        };
        let s = serde_json::to_string(&f).unwrap();
        assert_eq!(serde_json::from_str::<PropValueFilter>(&s).unwrap(), f);
    }
}
'''),
dict(id='c02-year-leap-day', property='C02', kind='common',
  edits=[('src/common/src/query.rs',
   "            .and_then(|d| d.with_hour(0))\n            .and_then(|d| d.with_day0(0))\n            .and_then(|d| d.with_month0(0)),",
   "            .and_then(|d| d.with_hour(0))\n            .map(|d| d - Duration::days(d.ordinal0().min(364) as i64)),")],
  needs='an instant on December 31 of a leap year, with yearly granularity', breaks='the last day of a leap year is put into a bucket that starts on January 2',
  demo=H+'''
use common::query::*;

#[test]
fn a_year_bucket_starts_on_january_first() {
    for y in 1999..2030 {
        for (m, d) in [(1, 1), (2, 28), (6, 30), (12, 30), (12, 31)] {
            let t = Utc.with_ymd_and_hms(y, m, d, 13, 5, 7).unwrap();
            let want = Utc.with_ymd_and_hms(y, 1, 1, 0, 0, 0).unwrap();
            assert_eq!(date_trunc(&TimeIntervalUnit::Year, t).unwrap(), want, "{t}");
        }
    }
}
'''),
dict(id='c03-last-months-as-days', property='C03', kind='common',
  edits=[('src/common/src/query.rs',
   "            TimeIntervalUnit::Month => RelativeDuration::months(n as i32),\n            TimeIntervalUnit::Year => RelativeDuration::years(n as i32),",
   "            TimeIntervalUnit::Month => RelativeDuration::months((n % 12) as i32)\n                + RelativeDuration::days(365 * (n / 12)),\n            TimeIntervalUnit::Year => RelativeDuration::years(n as i32),")],
  needs='a report over the last twelve or more months whose span contains a February 29', breaks='the range starts a day late',
  demo=H+'''
use common::query::*;

#[test]
fn last_months_are_calendar_months() {
    let now = Utc.with_ymd_and_hms(2024, 7, 15, 10, 20, 30).unwrap();
    for (n, y, m) in [(1, 2024, 6), (6, 2024, 1), (11, 2023, 8), (12, 2023, 7), (13, 2023, 6), (24, 2022, 7)] {
        let (from, to) = QueryTime::Last { last: n, unit: TimeIntervalUnit::Month }.range(now);
        assert_eq!(to, now);
        assert_eq!(from, Utc.with_ymd_and_hms(y, m, 15, 10, 20, 30).unwrap(), "last {n} months");
    }
}
'''),
dict(id='c04-list-decimal-scale', property='C04', kind='common',
  edits=[('src/common/src/types.rs',
   "                DType::Int64 => DataType::Int64,\n                DType::Decimal => DataType::Decimal128(DECIMAL_PRECISION, DECIMAL_SCALE),",
   "                DType::Int64 => DataType::Int64,\n                DType::Decimal => DataType::Decimal128(DECIMAL_PRECISION - 1, DECIMAL_SCALE),")],
  needs='a list property whose elements are decimals', breaks='its query column has another precision than its stored column',
  demo=H+'''
use arrow_schema::DataType;
use common::types::*;

#[test]
fn decimals_have_one_precision() {
    let want = DataType::Decimal128(DECIMAL_PRECISION, DECIMAL_SCALE);
    assert_eq!(DataType::from(DType::Decimal), want);
    assert_eq!(DataType::from(DType::List(Box::new(DType::Decimal))), want);
}
'''),
dict(id='c05-failed-conversion-unchanged', property='C05', kind='common',
  edits=[('src/common/src/types.rs',
   "            OptionalProperty::Some(v) => OptionalProperty::Some(v.try_into()?),\n        })",
   "            OptionalProperty::Some(v) => match v.try_into() {\n                Ok(v) => OptionalProperty::Some(v),\n                Err(_) => OptionalProperty::None,\n            },\n        })")],
  needs='a patch with a value the next layer cannot represent', breaks='the field counts as unchanged instead of the patch being refused',
  demo=H+'''
use common::types::OptionalProperty;

#[test]
fn a_value_that_does_not_convert_is_an_error() {
    assert!(OptionalProperty::Some(300i64).try_into::<u8>().is_err());
    assert_eq!(OptionalProperty::Some(200i64).try_into::<u8>().unwrap(), OptionalProperty::Some(200u8));
    assert_eq!(OptionalProperty::<i64>::None.try_into::<u8>().unwrap(), OptionalProperty::None);
}
'''),
dict(id='c06-less-than-op', property='C06', kind='common',
  edits=[('src/common/src/query.rs',
   "            PropValueOperation::Lt => DFOperator::Lt,\n            PropValueOperation::Lte => DFOperator::LtEq,\n            PropValueOperation::Regex => DFOperator::RegexMatch,",
   "            PropValueOperation::Lt => DFOperator::Lt,\n            PropValueOperation::Lte => DFOperator::Lt,\n            PropValueOperation::Regex => DFOperator::RegexMatch,")],
  needs='a less-or-equal filter and a value that equals the bound', breaks='rows equal to the bound are left out',
  demo=H+'''
use common::query::*;
use datafusion_expr::Operator as DF;

#[test]
fn less_or_equal_is_planned_as_such() {
    let op: DF = PropValueOperation::Lte.try_into().unwrap();
    assert_eq!(op, DF::LtEq);
    let op: DF = PropValueOperation::Lt.try_into().unwrap();
    assert_eq!(op, DF::Lt);
}
'''),
dict(id='c07-message-lost-with-fields', property='C07', kind='common',
  edits=[('src/common/src/http.rs',
   "            message: self.message.map(|msg| format!(\"{msg}: {inner}\")),\n            fields: self.fields,",
   "            message: self.message.map(|msg| format!(\"{msg}: {inner}\")),\n            fields: self\n                .fields\n                .into_iter()\n                .filter(|(_, v)| inner.contains(v.as_str()))\n                .collect(),")],
  needs='an error that has field errors before an inner message is appended', breaks='field errors not mentioned in the message are dropped',
  demo=H+'''
use std::collections::BTreeMap;
use common::http::ApiError;

#[test]
fn an_error_keeps_its_fields() {
    let fields = BTreeMap::from([("name".to_string(), "missing".to_string()), ("age".to_string(), "unknown".to_string())]);
    let e = ApiError::bad_request("invalid").with_fields(fields.clone()).append_inner_message("missing things".to_string());
    assert_eq!(e.message.as_deref(), Some("invalid: missing things"));
    assert_eq!(e.fields, fields);
}
'''),
dict(id='c08-large-body-cut', property='C08', kind='common',
  edits=[('src/common/src/http.rs',
   "        Ok(collected) => collected.to_bytes(),",
   "        Ok(collected) => {\n            let mut bytes = collected.to_bytes();\n            while bytes.last() == Some(&b'\\n') {\n                bytes.truncate(bytes.len() - 1);\n            }\n            bytes\n        }")],
  needs='a request body that ends in a line feed', breaks='the handler receives a shorter body than the client sent',
  demo=H+'''
use axum::body::Body;
use axum::http::Request;
use axum::routing::post;
use axum::Router;

#[test]
fn a_handler_gets_the_body_that_was_sent() {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    rt.block_on(async {
        for body in ["", "x", "a b c", "line\\nline", "line\\n", "\\n"] {
            let app: Router = Router::new()
                .route("/", post(|b: bytes::Bytes| async move { b }))
                .layer(axum::middleware::from_fn(common::http::print_request_response));
            let req = Request::post("/").body(Body::from(body)).unwrap();
            use tower::ServiceExt;
            let res = app.oneshot(req).await.unwrap();
            let got = axum::body::to_bytes(res.into_body(), 1 << 20).await.unwrap();
            assert_eq!(got, body.as_bytes());
        }
    });
}
'''),
dict(id='c09-reader-manages', property='C09', kind='common',
  edits=[('src/common/src/rbac.rs',
   "        (ProjectRole::Member, vec![\n            ProjectPermission::ExploreReports,\n            ProjectPermission::ManageReports,\n            ProjectPermission::ViewSchema,\n            ProjectPermission::ManageSchema,",
   "        (ProjectRole::Member, vec![\n            ProjectPermission::ExploreReports,\n            ProjectPermission::ManageReports,\n            ProjectPermission::ViewSchema,\n            ProjectPermission::ManageSchema,\n            ProjectPermission::InviteMembers,")],
  needs='a member of a project asking to invite others', breaks='members may invite members',
  demo=H+'''
use common::rbac::*;

#[test]
fn members_may_not_invite() {
    let p = PROJECT_PERMISSIONS.iter().find(|(r, _)| *r == ProjectRole::Member).unwrap();
    assert!(!p.1.contains(&ProjectPermission::InviteMembers));
    assert!(!p.1.contains(&ProjectPermission::ManageMembers));
    assert!(p.1.contains(&ProjectPermission::ManageSchema));
}
'''),
]
BUGS = [b for b in BUGS if b['edits']]
