//@ include js_types.vs
//@ include js_hspec.vs
//@ include js_help.vs
fn main() {}
} // verus!
