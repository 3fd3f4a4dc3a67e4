fn main() {
    std::process::exit(fxcore::engine::main(wrap::find))
}
