//! One case of one facet per input; the bytes are its choices.
//! VH_PROPERTY and VH_FACET name the facet.  A case that fails aborts, so that
//! libFuzzer keeps the input; `vh bytes` shrinks it and writes the replay file.
#![no_main]
use libfuzzer_sys::fuzz_target;
use std::sync::OnceLock;
use vh::engine::*;

static CASE: OnceLock<CaseFn> = OnceLock::new();

fn find() -> CaseFn {
    // panics of the library are caught by the engine and judged by the case
    install_panic_hook();
    let id = std::env::var("VH_PROPERTY").expect("VH_PROPERTY");
    let facet = std::env::var("VH_FACET").expect("VH_FACET");
    for p in vh::props::all() {
        for f in &p.facets {
            if p.id == id && f.name == facet {
                return f.run;
            }
        }
    }
    eprintln!("no facet {} of {}", facet, id);
    std::process::exit(2);
}

fuzz_target!(|data: &[u8]| {
    let f = *CASE.get_or_init(find);
    let mut src = Src::bytes(data.to_vec(), 0);
    let mut ctx = Ctx::default();
    if let Err(e) = eval(f, &mut src, &mut ctx) {
        eprintln!("{}", e.msg);
        std::process::abort();
    }
});
