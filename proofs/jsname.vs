//@ include prelude.vs
//@ include js_name.vs
fn main() {}
}
