// ================================================================ code: json_minifier.rs
//@ type src/json/json_minifier.rs JsonMinifier

impl JsonMinifier {
    pub open spec fn wf(self) -> bool {
        self.escaped_quotation <= 1 && (!self.is_string ==> self.escaped_quotation == 0)
    }
    pub open spec fn ctx(self) -> JCtx {
        if !self.is_string { JCtx::Out } else if self.escaped_quotation > 0 { JCtx::Esc } else { JCtx::Str }
    }
}

//@ fn src/json/json_minifier.rs impl=JsonMinifier new
//@ spec
    ensures r.wf(), r.ctx() == JCtx::Out,
//@ end

//@ fn src/json/json_minifier.rs impl=JsonMinifier trait=Default default
//@ spec
    ensures r.wf(), r.ctx() == JCtx::Out,
//@ end

//@ fn src/json/json_minifier.rs opt is_whitespace_outside_string
//@ spec
    requires old(minifier).wf(), !c0(*item1),
    ensures final(minifier).wf(),
        final(minifier).ctx() == jstep(old(minifier).ctx(), *item1),
        !r == jkeep(old(minifier).ctx(), *item1),
//@ end

//@ fn src/json/json_minifier.rs keep_element
//@ spec
    requires old(minifier).wf(),
    ensures final(minifier).wf(),
        final(minifier).ctx() == jstep(old(minifier).ctx(), *item1),
        r == jkeep(old(minifier).ctx(), *item1),
//@ end

/// the function value `keep_element`, defunctionalised
pub trait JsonPred {
    fn call(&mut self, minifier: &mut JsonMinifier, item1: &char, item2: Option<&char>) -> (r: bool)
        requires old(minifier).wf(),
        ensures final(minifier).wf(),
            final(minifier).ctx() == jstep(old(minifier).ctx(), *item1),
            r == jkeep(old(minifier).ctx(), *item1);
}
#[derive(Clone, Copy)]
pub struct JsonMethod { }
impl JsonPred for JsonMethod {
    fn call(&mut self, minifier: &mut JsonMinifier, item1: &char, item2: Option<&char>) -> (r: bool) {
        keep_element(minifier, item1, item2)
    }
}
