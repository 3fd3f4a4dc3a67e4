fn main() {
    std::process::exit(fxcore::engine::main(codec::find))
}
