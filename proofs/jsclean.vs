//@ include js_types.vs
//@ include js_clean.vs
fn main() {}
}
