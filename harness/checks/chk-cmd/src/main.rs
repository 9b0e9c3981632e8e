mod backup;
mod clock;
mod sessions;
mod start;

use proputil::*;

pub fn e2s(e: impl std::fmt::Display) -> String {
    e.to_string()
}

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let mut p = Prop::new(&id);
    let root = p.scratch();
    match id.as_str() {
        "X01" => p.suite("backups", "a backup is stored and another step follows", 3000, 60000, |s, c| backup::case(&root, s, c)),
        "X02" => p.suite("sessions", "a session ends and another goes on", 1500, 30000, |s, c| sessions::case(&root, s, c)),
        "X03" => {
            p.suite("config", "every field has a value of its own", 4000, 100000, |s, c| start::config_case(s, c));
            p.suite("start", "the server has been started twice", 150, 3000, |s, c| start::case(&root, s, c));
        }
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    }
    p.finish();
}
