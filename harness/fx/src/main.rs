fn main() {
    std::process::exit(fxcore::engine::main(fx::find))
}
