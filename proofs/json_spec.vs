//@ include prelude.vs
pub mod spec {
use vstd::prelude::*;
use super::base::*;
broadcast use group_base;

// ================================================================ specification
pub enum JCtx { Out, Str, Esc }

/// RFC 8259 string recogniser; a raw C0 control character changes nothing.
pub open spec fn jstep(x: JCtx, c: char) -> JCtx {
    if c0(c) { x } else {
        match x {
            JCtx::Out => if c == '"' { JCtx::Str } else { JCtx::Out },
            JCtx::Str => if c == '\\' { JCtx::Esc } else if c == '"' { JCtx::Out } else { JCtx::Str },
            JCtx::Esc => JCtx::Str,
        }
    }
}
pub open spec fn jkeep(x: JCtx, c: char) -> bool {
    !c0(c) && (x == JCtx::Out ==> !ws(c))
}
pub open spec fn jfilter(x: JCtx, s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { seq![] }
    else if jkeep(x, s[0]) { seq![s[0]] + jfilter(jstep(x, s[0]), s.drop_first()) }
    else { jfilter(jstep(x, s[0]), s.drop_first()) }
}
pub open spec fn jctx(x: JCtx, s: Seq<char>) -> JCtx
    decreases s.len()
{
    if s.len() == 0 { x } else { jctx(jstep(x, s[0]), s.drop_first()) }
}
/// what `minify` is specified to return
pub open spec fn jmin(s: Seq<char>) -> Seq<char> { jfilter(JCtx::Out, s) }

// ================================================================ lemmas: what jmin guarantees
/// minifying twice is minifying once
pub proof fn lemma_idempotent(x: JCtx, s: Seq<char>)
    ensures jfilter(x, jfilter(x, s)) == jfilter(x, s)
    decreases s.len()
{
    if s.len() > 0 {
        let c = s[0];
        let t = s.drop_first();
        lemma_idempotent(jstep(x, c), t);
        if jkeep(x, c) {
            let f = jfilter(x, s);
            assert(f[0] == c);
            assert(f.drop_first() =~= jfilter(jstep(x, c), t));
        } else {
            assert(jstep(x, c) == x);
        }
    }
}
/// the output is a subsequence made of everything but C0 controls and whitespace outside strings;
/// context is preserved, so every string literal starts and ends where it did
pub proof fn lemma_ctx_preserved(x: JCtx, s: Seq<char>)
    ensures jctx(x, jfilter(x, s)) == jctx(x, s)
    decreases s.len()
{
    if s.len() > 0 {
        let c = s[0];
        let t = s.drop_first();
        lemma_ctx_preserved(jstep(x, c), t);
        if jkeep(x, c) {
            let f = jfilter(x, s);
            assert(f[0] == c);
            assert(f.drop_first() =~= jfilter(jstep(x, c), t));
        } else {
            assert(jstep(x, c) == x);
        }
    }
}
/// no whitespace outside strings and no C0 control anywhere is left
pub proof fn lemma_no_ws_left(x: JCtx, s: Seq<char>, i: int)
    requires 0 <= i < jfilter(x, s).len()
    ensures !c0(jfilter(x, s)[i]),
        jctx(x, jfilter(x, s).take(i)) == JCtx::Out ==> !ws(jfilter(x, s)[i])
    decreases s.len()
{
    if s.len() > 0 {
        let c = s[0];
        let t = s.drop_first();
        if jkeep(x, c) {
            let f = jfilter(x, s);
            let g = jfilter(jstep(x, c), t);
            assert(f == seq![c] + g);
            if i == 0 {
                assert(f.take(0) =~= Seq::<char>::empty());
            } else {
                lemma_no_ws_left(jstep(x, c), t, i - 1);
                assert(f[i] == g[i - 1]);
                assert(f.take(i)[0] == c);
                assert(f.take(i).drop_first() =~= g.take(i - 1));
            }
        } else {
            assert(jstep(x, c) == x);
            lemma_no_ws_left(x, t, i);
        }
    }
}
pub proof fn lemma_jfilter_append(x: JCtx, s: Seq<char>, t: Seq<char>)
    ensures jfilter(x, s + t) == jfilter(x, s) + jfilter(jctx(x, s), t), jctx(x, s + t) == jctx(jctx(x, s), t)
    decreases s.len()
{
    if s.len() == 0 {
        assert(s + t =~= t);
        assert(jfilter(x, s) + jfilter(jctx(x, s), t) =~= jfilter(x, t));
    } else {
        let c = s[0];
        assert((s + t)[0] == c);
        assert((s + t).drop_first() =~= s.drop_first() + t);
        lemma_jfilter_append(jstep(x, c), s.drop_first(), t);
        assert(jfilter(x, s + t) =~= jfilter(x, s) + jfilter(jctx(x, s), t));
    }
}

pub broadcast proof fn lemma_jfilter_cons(x: JCtx, c: char, t: Seq<char>)
    ensures #[trigger] jfilter(x, cons(c, t)) ==
        if jkeep(x, c) { cons(c, jfilter(jstep(x, c), t)) } else { jfilter(jstep(x, c), t) }
{
    assert(cons(c, t).drop_first() =~= t);
}
pub broadcast group group_json { lemma_jfilter_cons }
} // mod spec
