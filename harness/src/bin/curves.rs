//! Properties of the five Edwards curves.

use scharness::cli::{self, Plan};
use scharness::cprops;

fn plan(id: &str, scale: usize) -> Option<Plan> {
    cprops::units(id, scale).map(|units| Plan {
        units,
        rule: cprops::RULE,
        assumptions: vec![
            "the reference integers and the reference addition law (self-tested at every start) are right",
            "stored coordinates are read and set through the guarded hook verif_coords / verif_from_coords",
        ],
        exhaustive: false,
        threads: 8,
    })
}

fn main() {
    cli::main(plan);
}
