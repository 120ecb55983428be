#[path = "../../vbase/src/common.rs"]
mod common;
#[path = "../../vbase/src/env.rs"]
mod env;
mod builders;
mod perm;
#[path = "../../vbase/src/reference.rs"]
mod reference;
mod solve;
mod table;
use common::Scen;

fn scenarios(prop: &str, thorough: bool) -> Vec<Scen> {
    match prop {
        "C11" => perm::c11(thorough),
        "C12" => perm::c12(thorough),
        "C13" => perm::c13(thorough),
        "C17" => builders::c17(thorough),
        "C18" => perm::c18(thorough),
        "C14" => table::c14(thorough),
        "C15" => table::c15(thorough),
        "C16" => table::c16(thorough),
        "C19" => table::c19(thorough),
        _ => vec![],
    }
}
include!("../../vbase/src/entry.rs");
