//! Coverage-guided search for a case that breaks the property named by `FUZZ_PROPERTY`.
#![no_main]
use fxcore::engine::{self, Prop};
use libfuzzer_sys::{fuzz_target, Corpus};

fn find() -> &'static dyn Prop {
    engine::init();
    engine::watch();
    let id = std::env::var("FUZZ_PROPERTY").expect("FUZZ_PROPERTY");
    let p = fx::find(&id)
        .or_else(|| codec::find(&id))
        .or_else(|| withs::find(&id))
        .or_else(|| wrap::find(&id));
    Box::leak(p.unwrap_or_else(|| panic!("no property {}", id)))
}
thread_local!(static PROP: &'static dyn Prop = find());

fuzz_target!(|bytes: &[u8]| -> Corpus {
    if PROP.with(|p| engine::fuzz_one(*p, bytes)) {
        Corpus::Keep
    } else {
        Corpus::Reject
    }
});
