fn main() {
    chk_query::main()
}
