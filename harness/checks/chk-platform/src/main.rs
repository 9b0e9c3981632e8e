mod admin;
mod api;
mod auth;
mod crud;
mod gen;
mod fix;
mod http;
mod perm;
mod robust;
mod tenant;

use proputil::*;

fn p1(p: &mut Prop) {
    let root = p.scratch();
    p.suite("matrix", "at least two requests are refused and two granted", 1200, 8000, |s, c| perm::matrix_case(&root, s, c));
}

fn p2(p: &mut Prop) {
    let root = p.scratch();
    p.suite("tenants", "at least two requests name a thing of another project and one lists", 1500, 12000, |s, c| tenant::case(&root, s, c));
}

fn p3(p: &mut Prop) {
    let root = p.scratch();
    p.suite("accounts", "a log in succeeds, an account changes and something is refused", 3000, 20000, |s, c| auth::case(&root, s, c));
}

fn p4(p: &mut Prop) {
    let root = p.scratch();
    p.suite("stored", "things are made and changed, at least four times", 1200, 12000, |s, c| crud::case(&root, s, c));
    p.suite("admin", "more than three changes are made", 800, 10000, |s, c| admin::case(&root, s, c));
}

fn p5(p: &mut Prop) {
    let root = p.scratch();
    p.suite("segmentation", "the answer has more than one line", 700, 12000, |s, c| http::segmentation_case(&root, s, c));
    p.suite("funnel", "some attempt got to the second step", 700, 12000, |s, c| http::funnel_case(&root, s, c));
    p.suite("event records", "more than one row and not all match", 600, 12000, |s, c| http::records_case(&root, s, c));
    p.suite("group records", "more than one record and not all match", 600, 12000, |s, c| http::groups_case(&root, s, c));
    p.suite("values", "more than one value", 600, 12000, |s, c| http::values_case(&root, s, c));
}

fn p6(p: &mut Prop) {
    let root = p.scratch();
    let r = root.clone();
    p.finding("pattern-on-id-column", "a funnel of a group with a pattern on the group's id column, or a count with a pattern on the event's", move || robust::pattern_on_id_witness(&r));
    let r = root.clone();
    p.finding("breakdown-by-column", "a count broken down by a column every record has (event, created_at, event_id of one event of two)", move || robust::breakdown_by_column_witness(&r));
    let r = root.clone();
    p.finding("breakdowns-of-one-name", "a funnel broken down by properties of one name, of two groups", move || robust::breakdowns_of_a_name_witness(&r));
    p.suite("queries", "some are answered and some refused", 1200, 16000, |s, c| robust::queries_case(&root, s, c));
    p.suite("requests", "some are granted and some refused", 1200, 16000, |s, c| robust::requests_case(&root, s, c));
}

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let mut p = Prop::new(&id);
    match id.as_str() {
        "P01" => p1(&mut p),
        "P02" => p2(&mut p),
        "P03" => p3(&mut p),
        "P04" => p4(&mut p),
        "P05" => p5(&mut p),
        "P06" => p6(&mut p),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    }
    p.finish();
}
