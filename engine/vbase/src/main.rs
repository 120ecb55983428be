mod common;
mod env;
mod reference;
mod scen;
mod wfield;
use scen::scenarios;

include!("entry.rs");
