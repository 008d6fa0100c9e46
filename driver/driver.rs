// Conformance driver. Included into the crate (see the hook in /repo/src/protocols.rs) so that it can
// call crate-private items; it observes and records, and decides nothing: every event it writes
// is judged by the TLA+ specifications in /verif/spec.

use std::prelude::v1::*;

/// Whether the modules that need the crate `manul` are there (see tools/reduced.py).
pub const FULL: bool = true;
macro_rules! part {
    ($name:ident, $file:literal) => {
        pub mod $name {
            include!(concat!(env!("SYNEDRION_VERIF_DIR"), $file));
        }
    };
}
part!(util, "/util.rs");
part!(uint, "/uint.rs");
part!(curve, "/curve.rs");
part!(paillier, "/paillier.rs");
part!(probe, "/probe.rs");
part!(zk, "/zk.rs");
part!(honest, "/honest.rs");
part!(hashing, "/hashing.rs");
part!(wire, "/wire.rs");
part!(params, "/params.rs");
part!(debug, "/debug.rs");
part!(entities, "/entities.rs");
part!(session, "/session.rs");
part!(traffic, "/traffic.rs");
part!(forge, "/forge.rs");
part!(protocols, "/protocols.rs");
part!(life, "/life.rs");
part!(wipe, "/wipe.rs");

/// `args`: suite name, then `key=value` pairs (`seed`, `tier`, `plan`, `out`).
pub fn run(args: &[String]) -> i32 {
    let suite = args.first().map(|s| s.as_str()).unwrap_or("");
    let ctx = util::Ctx::new(&args[1..]);
    match suite {
        "uint" => uint::run(&ctx),
        "curve" => curve::run(&ctx),
        "paillier" => paillier::run(&ctx),
        "zk" => zk::run(&ctx),
        "honest" => honest::run(&ctx),
        "hashing" => hashing::run(&ctx),
        "wire" => wire::run(&ctx),
        "params" => params::run(&ctx),
        "debug" => debug::run(&ctx),
        "entities" => entities::run(&ctx),
        "protocols" => protocols::run(&ctx),
        "life" => life::run(&ctx),
        "wipe" => wipe::run(&ctx),
        _ => {
            std::eprintln!("unknown suite {suite}");
            return 2;
        }
    }
    0
}
