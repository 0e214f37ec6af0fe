//! Coverage-guided search over the choice sequences of one property (named by FUZZ_PROPERTY).
#![no_main]
use libfuzzer_sys::fuzz_target;
use std::sync::OnceLock;
use tedium_verif::{engine::{guarded, install_panic_hook, Cx, Outcome, Property, Source}, props};

fn property() -> &'static Property {
    static P: OnceLock<Property> = OnceLock::new();
    P.get_or_init(|| {
        install_panic_hook();
        let id = std::env::var("FUZZ_PROPERTY").expect("FUZZ_PROPERTY");
        props::all().into_iter().find(|p| p.id == id).expect("a property")
    })
}

fuzz_target!(|data: &[u8]| {
    let p = property();
    let mut src = Source::bytes(data);
    let mut cx = Cx::default();
    let out = guarded(|| (p.run)(&mut src, &mut cx));
    let kind = match out {
        Outcome::Ok => return,
        Outcome::Fail(e) => format!("FAIL {e}"),
        Outcome::Harness(e) => format!("HARNESS {e}"),
    };
    eprintln!("{kind}");
    if let Ok(path) = std::env::var("FUZZ_CHOICES") {
        let text: Vec<String> = src.rec.iter().map(|c| c.to_string()).collect();
        std::fs::write(path, text.join(",")).expect("choices");
    }
    std::process::abort();
});
