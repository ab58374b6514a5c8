//! `mirfacts`: RUSTC_WRAPPER driver that dumps the type-checked, monomorphised MIR of a harness
//! crate and everything it reaches inside the crate under analysis, plus crate-level facts
//! (unsafe audit, statics) of the crate under analysis itself.  Nothing is executed.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_trait_selection;
extern crate rustc_infer;
#[macro_use]
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate serde_json;

mod audit;
mod mono;


fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WRAPPER: argv[1] is the path of the real rustc
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let target = std::env::var("MIRFACTS_CRATE").unwrap_or_else(|_| "corries".into());
    let harness = std::env::var("MIRFACTS_HARNESS").unwrap_or_else(|_| "corries_roots".into());
    let is_build_script = crate_name == "build_script_build";
    let interesting = !is_build_script && (crate_name == target || crate_name == harness);
    if args.len() < 2 {
        eprintln!("mirfacts: to be used as RUSTC_WRAPPER");
        std::process::exit(2);
    }
    if !interesting {
        let real = args.remove(1);
        let st = std::process::Command::new(real)
            .args(&args[1..])
            .status()
            .expect("cannot run rustc");
        std::process::exit(st.code().unwrap_or(101));
    }
    args.remove(0);
    let out = std::env::var("MIRFACTS_OUT").expect("MIRFACTS_OUT");
    let is_harness = crate_name == harness;
    let res = run_with_tcx!(&args, |tcx| -> ControlFlow<(), ()> {
        let v = if is_harness {
            mono::dump(tcx, &target, &harness)
        } else {
            audit::dump(tcx)
        };
        let p = format!("{}/{}.json", out, if is_harness { "mono" } else { "audit" });
        std::fs::write(&p, serde_json::to_string(&v).unwrap()).expect("write facts");
        ControlFlow::Continue(())
    });
    match res {
        Ok(()) => {}
        Err(_) => std::process::exit(101),
    }
}
