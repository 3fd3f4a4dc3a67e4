fn main() {
    std::process::exit(fxcore::engine::main(withs::find))
}
