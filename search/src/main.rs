// The crate under test is compiled into this program from /repo's current source, so that its
// crate-private parts can be exercised too.
#![allow(dead_code, unused_imports, unused_variables, mismatched_lifetime_syntaxes, unknown_lints)]
include!(concat!(env!("P2T_REPO"), "/src/lib.rs"));
mod vs;
fn main() {
    vs::main()
}
