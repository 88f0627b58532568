//! Properties of the nine fields.

use scharness::cli::{self, Plan};
use scharness::fprops;

fn plan(id: &str, scale: usize) -> Option<Plan> {
    fprops::units(id, scale).map(|units| Plan {
        units,
        rule: fprops::RULE_OPS,
        assumptions: vec![
            "the reference integers (schoolbook arithmetic, self-tested at every start) are right",
            "elements are observed through pack on a copy",
        ],
        exhaustive: false,
        threads: 8,
    })
}

fn main() {
    cli::main(plan);
}
