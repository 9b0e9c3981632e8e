fn main() {
    let d = std::path::PathBuf::from(std::env::var("CARGO_MANIFEST_DIR").unwrap()).join("src/pb");
    protogen::generate_dir(&d);
}
