### ------------------------------------------------------------------ the default builders
### What the default builders make of their arguments, and how words are compressed.
@mod [C18 C19] ast::builder::default_builder
pub mod cb {
use vstd::prelude::*;
use crate::vf::*;
use crate::ast::*;
use crate::ast::builder::*;
use super::{CoalesceResult, BuilderPipeableCommand};
broadcast use {crate::vf::group_vf};

pub type Op<A> = spec_fn(A, A) -> CoalesceResult<A>;

/// `f` computes `op`.
pub open spec fn co_is<F: Fn(A, A) -> CoalesceResult<A>, A>(f: F, op: Op<A>) -> bool {
    forall|a: A, b: A, r: CoalesceResult<A>| #[trigger] call_ensures(f, (a, b), r) ==> r == op(a, b)
}
pub open spec fn co_total<F: Fn(A, A) -> CoalesceResult<A>, A>(f: F) -> bool {
    forall|a: A, b: A| #[trigger] call_requires(f, (a, b))
}
/// `l` merged with as much of `s` as goes with it; what is left of `s`.
pub open spec fn co_first<A>(op: Op<A>, l: A, s: Seq<A>) -> (A, Seq<A>)
    decreases s.len(),
{
    if s.len() == 0 { (l, s) }
    else {
        match op(l, s[0]) {
            Ok(c) => co_first(op, c, s.drop_first()),
            Err((x, y)) => (x, seq![y] + s.drop_first()),
        }
    }
}
/// Every maximal run of `s` merged.
pub open spec fn co_all<A>(op: Op<A>, s: Seq<A>) -> Seq<A>
    decreases s.len(),
{
    if s.len() == 0 { seq![] }
    else {
        let (a, r) = co_first(op, s[0], s.drop_first());
        seq![a] + if r.len() < s.len() { co_all(op, r) } else { seq![] }
    }
}

/// Adjacent literals are merged, nothing else is.
pub open spec fn cs_sp<C>(a: SimpleWordKind<C>, b: SimpleWordKind<C>) -> CoalesceResult<SimpleWordKind<C>> {
    match (a, b) {
        (SimpleWordKind::Literal(x), SimpleWordKind::Literal(y)) => Ok(SimpleWordKind::Literal(mk_string(x@ + y@))),
        (a, b) => Err((a, b)),
    }
}
pub open spec fn cs_op<C>() -> Op<SimpleWordKind<C>> { |a: SimpleWordKind<C>, b: SimpleWordKind<C>| cs_sp(a, b) }
/// Adjacent literals, adjacent single quoted strings and adjacent double quoted strings are merged.
pub open spec fn cw_sp<C>(a: WordKind<C>, b: WordKind<C>) -> CoalesceResult<WordKind<C>> {
    match (a, b) {
        (WordKind::Simple(SimpleWordKind::Literal(x)), WordKind::Simple(SimpleWordKind::Literal(y))) =>
            Ok(WordKind::Simple(SimpleWordKind::Literal(mk_string(x@ + y@)))),
        (WordKind::SingleQuoted(x), WordKind::SingleQuoted(y)) => Ok(WordKind::SingleQuoted(mk_string(x@ + y@))),
        (WordKind::DoubleQuoted(x), WordKind::DoubleQuoted(y)) => Ok(WordKind::DoubleQuoted(mk_vec(co_all(cs_op(), x@ + y@)))),
        (a, b) => Err((a, b)),
    }
}
pub open spec fn cw_op<C>() -> Op<WordKind<C>> { |a: WordKind<C>, b: WordKind<C>| cw_sp(a, b) }
/// A compressed word.
pub open spec fn cmp<C>(w: ComplexWordKind<C>) -> ComplexWordKind<C> {
    match w {
        ComplexWordKind::Single(WordKind::DoubleQuoted(v)) => ComplexWordKind::Single(WordKind::DoubleQuoted(mk_vec(co_all(cs_op(), v@)))),
        ComplexWordKind::Single(s) => ComplexWordKind::Single(s),
        ComplexWordKind::Concat(v) => {
            let b = co_all(cw_op(), v@);
            if b.len() == 1 { ComplexWordKind::Single(b[0]) } else { ComplexWordKind::Concat(mk_vec(b)) }
        }
    }
}
// ---- what the methods of the builder make of their arguments
/// The conversions between the types of the tree (`From`) are functions.
pub uninterp spec fn from_of<A, T>(a: A) -> T;
pub broadcast axiom fn axiom_from<A, T: From<A>>(a: A, r: T)
    ensures #[trigger] call_ensures(<T as From<A>>::from, (a,), r) ==> r == from_of::<A, T>(a);
pub open spec fn bx<A>(a: A) -> Box<A> { Box::new(a) }
pub open spec fn seconds<A, B>(s: Seq<(A, B)>) -> Seq<B> { Seq::new(s.len(), |i: int| s[i].1) }
pub open spec fn re_of<T, R, W>(x: RedirectOrEnvVar<R, String, W>) -> RedirectOrEnvVar<R, T, W> {
    match x {
        RedirectOrEnvVar::Redirect(r) => RedirectOrEnvVar::Redirect(r),
        RedirectOrEnvVar::EnvVar(k, v) => RedirectOrEnvVar::EnvVar(from_of(k), v),
    }
}
pub open spec fn res<T, R, W>(s: Seq<RedirectOrEnvVar<R, String, W>>) -> Seq<RedirectOrEnvVar<R, T, W>> { Seq::new(s.len(), |i: int| re_of(s[i])) }
pub open spec fn gb_of<C>(g: GuardBodyPairGroup<C>) -> GuardBodyPair<C> { GuardBodyPair { guard: g.guard.commands, body: g.body.commands } }
pub open spec fn gbs<C>(s: Seq<GuardBodyPairGroup<C>>) -> Seq<GuardBodyPair<C>> { Seq::new(s.len(), |i: int| gb_of(s[i])) }
pub open spec fn arm_of<W, C>(a: CaseArm<W, C>) -> PatternBodyPair<W, C> { PatternBodyPair { patterns: a.patterns.pattern_alternatives, body: a.body.commands } }
pub open spec fn arms<W, C>(s: Seq<CaseArm<W, C>>) -> Seq<PatternBodyPair<W, C>> { Seq::new(s.len(), |i: int| arm_of(s[i])) }
pub open spec fn rd_of<W>(k: RedirectKind<W>) -> Redirect<W> {
    match k {
        RedirectKind::Read(fd, w) => Redirect::Read(fd, w),
        RedirectKind::Write(fd, w) => Redirect::Write(fd, w),
        RedirectKind::ReadWrite(fd, w) => Redirect::ReadWrite(fd, w),
        RedirectKind::Append(fd, w) => Redirect::Append(fd, w),
        RedirectKind::Clobber(fd, w) => Redirect::Clobber(fd, w),
        RedirectKind::Heredoc(fd, w) => Redirect::Heredoc(fd, w),
        RedirectKind::DupRead(fd, w) => Redirect::DupRead(fd, w),
        RedirectKind::DupWrite(fd, w) => Redirect::DupWrite(fd, w),
    }
}
// ---- words
pub type SW<T, W, C> = SimpleWord<T, Parameter<T>, Box<ParameterSubstitution<Parameter<T>, W, C, Arithmetic<T>>>>;
pub type WD<T, W, C> = Word<T, SW<T, W, C>>;
pub open spec fn pm<T>(p: DefaultParameter) -> Parameter<T> {
    match p {
        Parameter::At => Parameter::At,
        Parameter::Star => Parameter::Star,
        Parameter::Pound => Parameter::Pound,
        Parameter::Question => Parameter::Question,
        Parameter::Dash => Parameter::Dash,
        Parameter::Dollar => Parameter::Dollar,
        Parameter::Bang => Parameter::Bang,
        Parameter::Positional(n) => Parameter::Positional(n),
        Parameter::Var(v) => Parameter::Var(from_of(v)),
    }
}
pub open spec fn am<T>(a: Arithmetic<String>) -> Arithmetic<T>
    decreases a, 0nat,
{
    match a {
        Arithmetic::Var(v) => Arithmetic::Var(from_of(v)),
        Arithmetic::Literal(l) => Arithmetic::Literal(l),
        Arithmetic::PostIncr(v) => Arithmetic::PostIncr(from_of(v)),
        Arithmetic::PostDecr(v) => Arithmetic::PostDecr(from_of(v)),
        Arithmetic::PreIncr(v) => Arithmetic::PreIncr(from_of(v)),
        Arithmetic::PreDecr(v) => Arithmetic::PreDecr(from_of(v)),
        Arithmetic::UnaryPlus(x) => Arithmetic::UnaryPlus(bx(am(*x))),
        Arithmetic::UnaryMinus(x) => Arithmetic::UnaryMinus(bx(am(*x))),
        Arithmetic::LogicalNot(x) => Arithmetic::LogicalNot(bx(am(*x))),
        Arithmetic::BitwiseNot(x) => Arithmetic::BitwiseNot(bx(am(*x))),
        Arithmetic::Pow(x, y) => Arithmetic::Pow(bx(am(*x)), bx(am(*y))),
        Arithmetic::Mult(x, y) => Arithmetic::Mult(bx(am(*x)), bx(am(*y))),
        Arithmetic::Div(x, y) => Arithmetic::Div(bx(am(*x)), bx(am(*y))),
        Arithmetic::Modulo(x, y) => Arithmetic::Modulo(bx(am(*x)), bx(am(*y))),
        Arithmetic::Add(x, y) => Arithmetic::Add(bx(am(*x)), bx(am(*y))),
        Arithmetic::Sub(x, y) => Arithmetic::Sub(bx(am(*x)), bx(am(*y))),
        Arithmetic::ShiftLeft(x, y) => Arithmetic::ShiftLeft(bx(am(*x)), bx(am(*y))),
        Arithmetic::ShiftRight(x, y) => Arithmetic::ShiftRight(bx(am(*x)), bx(am(*y))),
        Arithmetic::Less(x, y) => Arithmetic::Less(bx(am(*x)), bx(am(*y))),
        Arithmetic::LessEq(x, y) => Arithmetic::LessEq(bx(am(*x)), bx(am(*y))),
        Arithmetic::Great(x, y) => Arithmetic::Great(bx(am(*x)), bx(am(*y))),
        Arithmetic::GreatEq(x, y) => Arithmetic::GreatEq(bx(am(*x)), bx(am(*y))),
        Arithmetic::Eq(x, y) => Arithmetic::Eq(bx(am(*x)), bx(am(*y))),
        Arithmetic::NotEq(x, y) => Arithmetic::NotEq(bx(am(*x)), bx(am(*y))),
        Arithmetic::BitwiseAnd(x, y) => Arithmetic::BitwiseAnd(bx(am(*x)), bx(am(*y))),
        Arithmetic::BitwiseXor(x, y) => Arithmetic::BitwiseXor(bx(am(*x)), bx(am(*y))),
        Arithmetic::BitwiseOr(x, y) => Arithmetic::BitwiseOr(bx(am(*x)), bx(am(*y))),
        Arithmetic::LogicalAnd(x, y) => Arithmetic::LogicalAnd(bx(am(*x)), bx(am(*y))),
        Arithmetic::LogicalOr(x, y) => Arithmetic::LogicalOr(bx(am(*x)), bx(am(*y))),
        Arithmetic::Ternary(x, y, z) => Arithmetic::Ternary(bx(am(*x)), bx(am(*y)), bx(am(*z))),
        Arithmetic::Assign(v, x) => Arithmetic::Assign(from_of(v), bx(am(*x))),
        Arithmetic::Sequence(v) => Arithmetic::Sequence(mk_vec(am_seq(v, v@.len()))),
    }
}
pub open spec fn am_seq<T>(v: Vec<Arithmetic<String>>, n: nat) -> Seq<Arithmetic<T>>
    decreases v, n,
{
    if 0 < n <= v@.len() { am_seq(v, (n - 1) as nat).push(am(v@[n - 1])) } else { seq![] }
}
/// How deep substitutions are nested.
pub open spec fn dps<C>(s: SimpleWordKind<C>) -> nat
    decreases s, 0nat,
{
    match s { SimpleWordKind::Subst(p) => 1 + dpp(*p), _ => 0 }
}
pub open spec fn dpp<C>(p: ParameterSubstitutionKind<ComplexWordKind<C>, C>) -> nat
    decreases p, 0nat,
{
    match p {
        ParameterSubstitutionKind::Default(_, _, Some(w)) => dp(w),
        ParameterSubstitutionKind::Assign(_, _, Some(w)) => dp(w),
        ParameterSubstitutionKind::Error(_, _, Some(w)) => dp(w),
        ParameterSubstitutionKind::Alternative(_, _, Some(w)) => dp(w),
        ParameterSubstitutionKind::RemoveSmallestSuffix(_, Some(w)) => dp(w),
        ParameterSubstitutionKind::RemoveLargestSuffix(_, Some(w)) => dp(w),
        ParameterSubstitutionKind::RemoveSmallestPrefix(_, Some(w)) => dp(w),
        ParameterSubstitutionKind::RemoveLargestPrefix(_, Some(w)) => dp(w),
        _ => 0,
    }
}
pub open spec fn max(a: nat, b: nat) -> nat { if a < b { b } else { a } }
pub open spec fn dps_max<C>(v: Vec<SimpleWordKind<C>>, n: nat) -> nat
    decreases v, n,
{
    if 0 < n <= v@.len() { max(dps_max(v, (n - 1) as nat), dps(v@[n - 1])) } else { 0 }
}
pub open spec fn dpw<C>(w: WordKind<C>) -> nat
    decreases w, 0nat,
{
    match w { WordKind::Simple(s) => dps(s), WordKind::SingleQuoted(_) => 0, WordKind::DoubleQuoted(v) => dps_max(v, v@.len()) }
}
pub open spec fn dpw_max<C>(v: Vec<WordKind<C>>, n: nat) -> nat
    decreases v, n,
{
    if 0 < n <= v@.len() { max(dpw_max(v, (n - 1) as nat), dpw(v@[n - 1])) } else { 0 }
}
pub open spec fn dp<C>(k: ComplexWordKind<C>) -> nat
    decreases k, 0nat,
{
    match k { ComplexWordKind::Single(w) => dpw(w), ComplexWordKind::Concat(v) => dpw_max(v, v@.len()) }
}
/// Merging adds no depth.
pub open spec fn keeps<A>(op: Op<A>, p: spec_fn(A) -> bool) -> bool {
    forall|a: A, b: A| p(a) && p(b) ==> match #[trigger] op(a, b) { Ok(c) => p(c), Err((x, y)) => p(x) && p(y) }
}
pub open spec fn all<A>(p: spec_fn(A) -> bool, s: Seq<A>) -> bool { forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i]) }
pub proof fn lemma_first_keeps<A>(op: Op<A>, p: spec_fn(A) -> bool, l: A, s: Seq<A>)
    requires keeps(op, p), p(l), all(p, s),
    ensures p(co_first(op, l, s).0), all(p, co_first(op, l, s).1),
    decreases s.len(),
{
    if s.len() > 0 {
        assert(p(s[0]));
        let o = op(l, s[0]);
        if let Ok(c) = o { lemma_first_keeps(op, p, c, s.drop_first()); }
    }
}
pub proof fn lemma_all_keeps<A>(op: Op<A>, p: spec_fn(A) -> bool, s: Seq<A>)
    requires keeps(op, p), all(p, s),
    ensures all(p, co_all(op, s)), co_all(op, s).len() <= s.len(),
    decreases s.len(),
{
    if s.len() > 0 {
        assert(p(s[0]));
        lemma_first_keeps(op, p, s[0], s.drop_first());
        let (a, r) = co_first(op, s[0], s.drop_first());
        if r.len() < s.len() {
            lemma_all_keeps(op, p, r);
            assert(co_all(op, s) == seq![a] + co_all(op, r));
        } else {
            assert(co_all(op, s) == seq![a] + Seq::<A>::empty());
        }
    }
}
pub open spec fn ps<C>(d: nat) -> spec_fn(SimpleWordKind<C>) -> bool { |s: SimpleWordKind<C>| dps(s) <= d }
pub open spec fn pw<C>(d: nat) -> spec_fn(WordKind<C>) -> bool { |s: WordKind<C>| dpw(s) <= d }
pub proof fn lemma_dps_max<C>(v: Vec<SimpleWordKind<C>>, n: nat, d: nat)
    requires n <= v@.len(),
    ensures dps_max(v, n) <= d <==> forall|i: int| 0 <= i < n ==> dps(#[trigger] v@[i]) <= d,
    decreases n,
{
    if n > 0 {
        lemma_dps_max(v, (n - 1) as nat, d);
        assert(v@[n - 1] == v@[n - 1]);
    }
}
pub proof fn lemma_dpw_max<C>(v: Vec<WordKind<C>>, n: nat, d: nat)
    requires n <= v@.len(),
    ensures dpw_max(v, n) <= d <==> forall|i: int| 0 <= i < n ==> dpw(#[trigger] v@[i]) <= d,
    decreases n,
{
    if n > 0 {
        lemma_dpw_max(v, (n - 1) as nat, d);
        assert(v@[n - 1] == v@[n - 1]);
    }
}
pub proof fn lemma_dq<C>(s: Seq<SimpleWordKind<C>>, d: nat)
    requires all(ps(d), s),
    ensures dpw(WordKind::DoubleQuoted(mk_vec(co_all(cs_op(), s)))) <= d,
{
    let v = mk_vec(co_all(cs_op(), s));
    assert(keeps(cs_op::<C>(), ps(d)));
    lemma_all_keeps(cs_op(), ps(d), s);
    axiom_mk_vec(co_all(cs_op(), s));
    assert forall|i: int| 0 <= i < v@.len() implies dps(#[trigger] v@[i]) <= d by { assert(ps::<C>(d)(co_all(cs_op(), s)[i])); }
    lemma_dps_max(v, v@.len(), d);
}
pub proof fn lemma_dp<C>(k: ComplexWordKind<C>)
    ensures dp(cmp(k)) <= dp(k),
{
    let d = dp(k);
    match k {
        ComplexWordKind::Single(WordKind::DoubleQuoted(v)) => {
            lemma_dps_max(v, v@.len(), d);
            assert(all(ps(d), v@));
            lemma_dq(v@, d);
        }
        ComplexWordKind::Single(_) => {}
        ComplexWordKind::Concat(v) => {
            lemma_dpw_max(v, v@.len(), d);
            assert(all(pw(d), v@));
            let (op, p) = (cw_op::<C>(), pw::<C>(d));
            assert forall|a: WordKind<C>, b: WordKind<C>| p(a) && p(b) implies match #[trigger] op(a, b) { Ok(c) => p(c), Err((x, y)) => p(x) && p(y) } by {
                if let (WordKind::DoubleQuoted(x), WordKind::DoubleQuoted(y)) = (a, b) {
                    lemma_dps_max(x, x@.len(), d);
                    lemma_dps_max(y, y@.len(), d);
                    let s = x@ + y@;
                    assert forall|i: int| 0 <= i < s.len() implies ps::<C>(d)(#[trigger] s[i]) by {
                        if i < x@.len() { assert(dps(x@[i]) <= d); } else { assert(dps(y@[i - x@.len()]) <= d); }
                    }
                    lemma_dq(s, d);
                }
            }
            lemma_all_keeps(op, p, v@);
            let b = co_all(op, v@);
            axiom_mk_vec(b);
            if b.len() == 1 { assert(p(b[0])); }
            else {
                let u = mk_vec(b);
                assert forall|i: int| 0 <= i < u@.len() implies dpw(#[trigger] u@[i]) <= d by { assert(p(b[i])); }
                lemma_dpw_max(u, u@.len(), d);
            }
        }
    }
}
/// A fragment.
pub open spec fn sm<T, W, C>(s: SimpleWordKind<C>) -> SW<T, W, C>
    decreases dps(s), 0nat, 0nat,
{
    match s {
        SimpleWordKind::Literal(x) => SimpleWord::Literal(from_of(x)),
        SimpleWordKind::Escaped(x) => SimpleWord::Escaped(from_of(x)),
        SimpleWordKind::Param(p) => SimpleWord::Param(pm(p)),
        SimpleWordKind::Star => SimpleWord::Star,
        SimpleWordKind::Question => SimpleWord::Question,
        SimpleWordKind::SquareOpen => SimpleWord::SquareOpen,
        SimpleWordKind::SquareClose => SimpleWord::SquareClose,
        SimpleWordKind::Tilde => SimpleWord::Tilde,
        SimpleWordKind::Colon => SimpleWord::Colon,
        SimpleWordKind::CommandSubst(c) => SimpleWord::Subst(bx(ParameterSubstitution::Command(c.commands))),
        SimpleWordKind::Subst(p) => SimpleWord::Subst(bx(match *p {
            ParameterSubstitutionKind::Command(c) => ParameterSubstitution::Command(c.commands),
            ParameterSubstitutionKind::Len(p) => ParameterSubstitution::Len(pm(p)),
            ParameterSubstitutionKind::Arith(a) => ParameterSubstitution::Arith(match a { Some(a) => Some(am(a)), None => None }),
            ParameterSubstitutionKind::Default(c, p, w) => ParameterSubstitution::Default(c, pm(p), match w { Some(w) => Some(cwm::<T, W, C>(w)), None => None }),
            ParameterSubstitutionKind::Assign(c, p, w) => ParameterSubstitution::Assign(c, pm(p), match w { Some(w) => Some(cwm::<T, W, C>(w)), None => None }),
            ParameterSubstitutionKind::Error(c, p, w) => ParameterSubstitution::Error(c, pm(p), match w { Some(w) => Some(cwm::<T, W, C>(w)), None => None }),
            ParameterSubstitutionKind::Alternative(c, p, w) => ParameterSubstitution::Alternative(c, pm(p), match w { Some(w) => Some(cwm::<T, W, C>(w)), None => None }),
            ParameterSubstitutionKind::RemoveSmallestSuffix(p, w) => ParameterSubstitution::RemoveSmallestSuffix(pm(p), match w { Some(w) => Some(cwm::<T, W, C>(w)), None => None }),
            ParameterSubstitutionKind::RemoveLargestSuffix(p, w) => ParameterSubstitution::RemoveLargestSuffix(pm(p), match w { Some(w) => Some(cwm::<T, W, C>(w)), None => None }),
            ParameterSubstitutionKind::RemoveSmallestPrefix(p, w) => ParameterSubstitution::RemoveSmallestPrefix(pm(p), match w { Some(w) => Some(cwm::<T, W, C>(w)), None => None }),
            ParameterSubstitutionKind::RemoveLargestPrefix(p, w) => ParameterSubstitution::RemoveLargestPrefix(pm(p), match w { Some(w) => Some(cwm::<T, W, C>(w)), None => None }),
        })),
    }
}
pub open spec fn sm_seq<T, W, C>(v: Vec<SimpleWordKind<C>>, n: nat) -> Seq<SW<T, W, C>>
    decreases dps_max(v, n), 1nat, n,
{
    if 0 < n <= v@.len() { sm_seq(v, (n - 1) as nat).push(sm(v@[n - 1])) } else { seq![] }
}
pub open spec fn wm<T, W, C>(w: WordKind<C>) -> WD<T, W, C>
    decreases dpw(w), 2nat, 0nat,
{
    match w {
        WordKind::Simple(s) => Word::Simple(sm(s)),
        WordKind::SingleQuoted(x) => Word::SingleQuoted(from_of(x)),
        WordKind::DoubleQuoted(v) => Word::DoubleQuoted(mk_vec(sm_seq(v, v@.len()))),
    }
}
pub open spec fn wm_seq<T, W, C>(v: Vec<WordKind<C>>, n: nat) -> Seq<WD<T, W, C>>
    decreases dpw_max(v, n), 3nat, n,
{
    if 0 < n <= v@.len() { wm_seq(v, (n - 1) as nat).push(wm(v@[n - 1])) } else { seq![] }
}
/// A word: compressed, then fragment by fragment.
pub open spec fn cwm<T, W, C>(k: ComplexWordKind<C>) -> W
    decreases dp(k), 4nat, 0nat via cwm_dec::<T, W, C>
{
    from_of::<ShellWord<T, W, C>, W>(match cmp(k) {
        ComplexWordKind::Single(w) => ComplexWord::Single(wm::<T, W, C>(w)),
        ComplexWordKind::Concat(v) => ComplexWord::Concat(mk_vec(wm_seq::<T, W, C>(v, v@.len()))),
    })
}
#[verifier::decreases_by]
proof fn cwm_dec<T, W, C>(k: ComplexWordKind<C>) { lemma_dp(k); }

}
use cb::*;
broadcast use {crate::vf::group_vf, cb::axiom_from};

@mod [C18 C19] ast::builder::default_builder
pub proof fn lemma_co_len<A>(op: cb::Op<A>, l: A, s: Seq<A>)
    ensures cb::co_first(op, l, s).1.len() <= s.len(),
    decreases s.len(),
{
    if s.len() > 0 {
        if let Ok(c) = op(l, s[0]) { lemma_co_len(op, c, s.drop_first()); }
    }
}
pub proof fn lemma_co_all<A>(op: cb::Op<A>, s: Seq<A>)
    requires s.len() > 0,
    ensures ({
        let (a, r) = cb::co_first(op, s[0], s.drop_first());
        r.len() < s.len() && cb::co_all(op, s) == seq![a] + cb::co_all(op, r)
    }),
{
    lemma_co_len(op, s[0], s.drop_first());
}
pub proof fn lemma_collect<A>(op: cb::Op<A>, acc: Seq<A>, s: Seq<A>)
    ensures
        s.len() == 0 ==> acc + cb::co_all(op, s) == acc,
        s.len() > 0 ==> ({
            let (a, r) = cb::co_first(op, s[0], s.drop_first());
            acc.push(a) + cb::co_all(op, r) == acc + cb::co_all(op, s)
        }),
{
    if s.len() > 0 {
        lemma_co_all(op, s);
        let (a, r) = cb::co_first(op, s[0], s.drop_first());
        assert(acc.push(a) + cb::co_all(op, r) =~= acc + (seq![a] + cb::co_all(op, r)));
    } else {
        assert(cb::co_all(op, s) =~= seq![]);
        assert(acc + cb::co_all(op, s) =~= acc);
    }
}
impl<I: crate::vf::RawIterator, F> Coalesce<I, F> {
    /// What it has yet to merge.
    pub open spec fn pend(&self) -> Seq<I::Item> {
        if let Some(c) = self.cur { seq![c] + self.iter.raw_rest() } else { self.iter.raw_rest() }
    }
}

@mod [C19] ast::builder::default_builder
/// The text of a word: its characters and its other fragments, each with its quoting (0: none, 1: single, 2: double).
pub enum Atom<C> { Ch(char, int), Other(SimpleWordKind<C>, int) }
pub open spec fn fl_text<C>(x: Seq<char>, q: int) -> Seq<Atom<C>> { Seq::new(x.len(), |i: int| Atom::Ch(x[i], q)) }
pub open spec fn fl_s<C>(s: SimpleWordKind<C>, q: int) -> Seq<Atom<C>> {
    match s {
        SimpleWordKind::Literal(x) => fl_text(x@, q),
        o => seq![Atom::Other(o, q)],
    }
}
pub open spec fn fl_all<A, B>(g: spec_fn(A) -> Seq<B>, s: Seq<A>) -> Seq<B>
    decreases s.len(),
{
    if s.len() == 0 { seq![] } else { g(s[0]) + fl_all(g, s.drop_first()) }
}
pub open spec fn g_dq<C>() -> spec_fn(SimpleWordKind<C>) -> Seq<Atom<C>> { |s: SimpleWordKind<C>| fl_s(s, 2) }
pub open spec fn fl_w<C>(w: WordKind<C>) -> Seq<Atom<C>> {
    match w {
        WordKind::Simple(s) => fl_s(s, 0),
        WordKind::SingleQuoted(x) => fl_text(x@, 1),
        WordKind::DoubleQuoted(v) => fl_all(g_dq(), v@),
    }
}
pub open spec fn g_w<C>() -> spec_fn(WordKind<C>) -> Seq<Atom<C>> { |w: WordKind<C>| fl_w(w) }
pub open spec fn fl<C>(w: ComplexWordKind<C>) -> Seq<Atom<C>> {
    match w {
        ComplexWordKind::Single(x) => fl_w(x),
        ComplexWordKind::Concat(v) => fl_all(g_w(), v@),
    }
}
/// The kinds of fragments that merge with their own kind; 0 does not.
pub open spec fn kd_s<C>(s: SimpleWordKind<C>) -> int { if s is Literal { 1 } else { 0 } }
pub open spec fn kd_w<C>(w: WordKind<C>) -> int {
    match w {
        WordKind::Simple(s) => kd_s(s),
        WordKind::SingleQuoted(_) => 2,
        WordKind::DoubleQuoted(_) => 3,
    }
}
pub open spec fn k_s<C>() -> spec_fn(SimpleWordKind<C>) -> int { |s: SimpleWordKind<C>| kd_s(s) }
pub open spec fn k_w<C>() -> spec_fn(WordKind<C>) -> int { |s: WordKind<C>| kd_w(s) }
/// No two neighbours could be merged.
pub open spec fn apart<A>(k: spec_fn(A) -> int, s: Seq<A>) -> bool {
    forall|i: int| 0 <= i < s.len() - 1 ==> !(#[trigger] k(s[i]) == k(s[i + 1]) && k(s[i]) > 0)
}
/// How many fragments there are inside (quotes counted as what they contain).
pub open spec fn m_s<C>() -> spec_fn(SimpleWordKind<C>) -> nat { |s: SimpleWordKind<C>| 1 }
pub open spec fn m_w<C>() -> spec_fn(WordKind<C>) -> nat { |w: WordKind<C>| match w { WordKind::DoubleQuoted(v) => v@.len(), _ => 1 } }
pub open spec fn total<A>(m: spec_fn(A) -> nat, s: Seq<A>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { m(s[0]) + total(m, s.drop_first()) }
}
pub open spec fn parts<C>(w: ComplexWordKind<C>) -> nat {
    match w { ComplexWordKind::Single(_) => 0, ComplexWordKind::Concat(v) => total(m_w(), v@) }
}
/// `op` merges exactly what is of the same mergeable kind.
pub open spec fn op_kind<A>(op: cb::Op<A>, k: spec_fn(A) -> int) -> bool {
    forall|a: A, b: A| match #[trigger] op(a, b) {
        Ok(c) => k(a) == k(b) && k(a) > 0 && k(c) == k(a),
        Err((x, y)) => x == a && y == b && !(k(a) == k(b) && k(a) > 0),
    }
}
/// `op` keeps the text.
pub open spec fn op_text<A, B>(op: cb::Op<A>, g: spec_fn(A) -> Seq<B>, m: spec_fn(A) -> nat) -> bool {
    forall|a: A, b: A| (#[trigger] op(a, b) matches Ok(c) ==> m(a) + m(b) < isize::MAX ==> g(c) == g(a) + g(b) && m(c) <= m(a) + m(b))
}
pub proof fn lemma_first_kind<A>(op: cb::Op<A>, k: spec_fn(A) -> int, l: A, s: Seq<A>)
    requires op_kind(op, k),
    ensures ({
        let (a, r) = cb::co_first(op, l, s);
        &&& k(a) == k(l)
        &&& r.len() > 0 ==> !(k(a) == k(r[0]) && k(a) > 0)
    }),
    decreases s.len(),
{
    if s.len() > 0 {
        let o = op(l, s[0]);
        if let Ok(c) = o { lemma_first_kind(op, k, c, s.drop_first()); }
    }
}
pub proof fn lemma_first_text<A, B>(op: cb::Op<A>, g: spec_fn(A) -> Seq<B>, m: spec_fn(A) -> nat, k: spec_fn(A) -> int, l: A, s: Seq<A>)
    requires op_text(op, g, m), op_kind(op, k), m(l) + total(m, s) < isize::MAX,
    ensures ({
        let (a, r) = cb::co_first(op, l, s);
        &&& g(a) + fl_all(g, r) == g(l) + fl_all(g, s)
        &&& m(a) + total(m, r) <= m(l) + total(m, s)
    }),
    decreases s.len(),
{
    if s.len() > 0 {
        let o = op(l, s[0]);
        match o {
            Ok(c) => {
                lemma_first_text(op, g, m, k, c, s.drop_first());
                assert((g(l) + g(s[0])) + fl_all(g, s.drop_first()) =~= g(l) + (g(s[0]) + fl_all(g, s.drop_first())));
            }
            Err((x, y)) => {
                assert(seq![y] + s.drop_first() =~= s);
            }
        }
    }
}
pub proof fn lemma_all_kind<A>(op: cb::Op<A>, k: spec_fn(A) -> int, s: Seq<A>)
    requires op_kind(op, k),
    ensures
        apart(k, cb::co_all(op, s)),
        cb::co_all(op, s).len() <= s.len(),
        s.len() > 0 ==> cb::co_all(op, s).len() > 0 && k(cb::co_all(op, s)[0]) == k(s[0]),
    decreases s.len(),
{
    if s.len() > 0 {
        let (a, r) = cb::co_first(op, s[0], s.drop_first());
        lemma_co_all(op, s);
        lemma_co_len(op, s[0], s.drop_first());
        lemma_first_kind(op, k, s[0], s.drop_first());
        lemma_all_kind(op, k, r);
        let t = cb::co_all(op, r);
        let u = cb::co_all(op, s);
        assert(u == seq![a] + t && u[0] == a);
        assert forall|i: int| 0 <= i < u.len() - 1 implies !(#[trigger] k(u[i]) == k(u[i + 1]) && k(u[i]) > 0) by {
            if i > 0 { assert(u[i] == t[i - 1] && u[i + 1] == t[i]); assert(!(k(t[i - 1]) == k(t[i - 1 + 1]) && k(t[i - 1]) > 0)); }
            else { assert(u[1] == t[0]); }
        }
    }
}
pub proof fn lemma_all_text<A, B>(op: cb::Op<A>, g: spec_fn(A) -> Seq<B>, m: spec_fn(A) -> nat, k: spec_fn(A) -> int, s: Seq<A>)
    requires op_text(op, g, m), op_kind(op, k), total(m, s) < isize::MAX,
    ensures fl_all(g, cb::co_all(op, s)) == fl_all(g, s),
    decreases s.len(),
{
    if s.len() > 0 {
        let (a, r) = cb::co_first(op, s[0], s.drop_first());
        lemma_co_all(op, s);
        lemma_first_text(op, g, m, k, s[0], s.drop_first());
        lemma_all_text(op, g, m, k, r);
        let u = cb::co_all(op, s);
        assert(u[0] == a);
        assert(u.drop_first() =~= cb::co_all(op, r));
    }
}
pub proof fn lemma_fl_add<A, B>(g: spec_fn(A) -> Seq<B>, s: Seq<A>, t: Seq<A>)
    ensures fl_all(g, s + t) == fl_all(g, s) + fl_all(g, t),
    decreases s.len(),
{
    if s.len() == 0 {
        assert(s + t =~= t);
        assert(fl_all(g, s) + fl_all(g, t) =~= fl_all(g, t));
    } else {
        lemma_fl_add(g, s.drop_first(), t);
        assert((s + t).drop_first() =~= s.drop_first() + t);
        assert(fl_all(g, s + t) =~= fl_all(g, s) + fl_all(g, t));
    }
}
pub proof fn lemma_total_one<C>(s: Seq<SimpleWordKind<C>>)
    ensures total(m_s(), s) == s.len(),
    decreases s.len(),
{
    if s.len() > 0 { lemma_total_one(s.drop_first()); }
}
pub proof fn lemma_cs<C>()
    ensures op_kind(cb::cs_op::<C>(), k_s()), op_text(cb::cs_op::<C>(), g_dq(), m_s()),
{
    let (op, g, m) = (cb::cs_op::<C>(), g_dq::<C>(), m_s::<C>());
    assert forall|a: SimpleWordKind<C>, b: SimpleWordKind<C>| (#[trigger] op(a, b) matches Ok(c) ==> m(a) + m(b) < isize::MAX ==> g(c) == g(a) + g(b) && m(c) <= m(a) + m(b)) by {
        if let (SimpleWordKind::Literal(x), SimpleWordKind::Literal(y)) = (a, b) {
            assert(fl_text::<C>(x@ + y@, 2) =~= fl_text(x@, 2) + fl_text(y@, 2));
        }
    }
}
pub proof fn lemma_cw<C>()
    ensures op_kind(cb::cw_op::<C>(), k_w()), op_text(cb::cw_op::<C>(), g_w(), m_w()),
{
    lemma_cs::<C>();
    let (op, g, m) = (cb::cw_op::<C>(), g_w::<C>(), m_w::<C>());
    assert forall|a: WordKind<C>, b: WordKind<C>| (#[trigger] op(a, b) matches Ok(c) ==> m(a) + m(b) < isize::MAX ==> g(c) == g(a) + g(b) && m(c) <= m(a) + m(b)) by {
        match (a, b) {
            (WordKind::Simple(SimpleWordKind::Literal(x)), WordKind::Simple(SimpleWordKind::Literal(y))) => {
                assert(fl_text::<C>(x@ + y@, 0) =~= fl_text(x@, 0) + fl_text(y@, 0));
            }
            (WordKind::SingleQuoted(x), WordKind::SingleQuoted(y)) => {
                assert(fl_text::<C>(x@ + y@, 1) =~= fl_text(x@, 1) + fl_text(y@, 1));
            }
            (WordKind::DoubleQuoted(x), WordKind::DoubleQuoted(y)) => {
                if x@.len() + y@.len() < isize::MAX {
                    let s = x@ + y@;
                    lemma_total_one(s);
                    lemma_all_kind(cb::cs_op::<C>(), k_s(), s);
                    lemma_all_text(cb::cs_op::<C>(), g_dq(), m_s(), k_s(), s);
                    lemma_fl_add(g_dq::<C>(), x@, y@);
                    axiom_mk_vec(cb::co_all(cb::cs_op(), s));
                }
            }
            _ => {}
        }
    }
}
/// What compression is for: the text and its quoting stay as they are, and no fragments that could be merged are left next to each other.
pub proof fn lemma_cmp<C>(w: ComplexWordKind<C>)
    ensures
        parts(w) < isize::MAX ==> fl(cb::cmp(w)) == fl(w),
        cb::cmp(w) matches ComplexWordKind::Concat(v) ==> v@.len() != 1 && apart(k_w(), v@),
        cb::cmp(w) matches ComplexWordKind::Single(WordKind::DoubleQuoted(v)) ==> w is Single ==> apart(k_s(), v@),
{
    lemma_cs::<C>();
    lemma_cw::<C>();
    match w {
        ComplexWordKind::Single(WordKind::DoubleQuoted(v)) => {
            let s = v@;
            axiom_vec_len(v);
            lemma_total_one(s);
            lemma_all_kind(cb::cs_op::<C>(), k_s(), s);
            lemma_all_text(cb::cs_op::<C>(), g_dq(), m_s(), k_s(), s);
            axiom_mk_vec(cb::co_all(cb::cs_op(), s));
        }
        ComplexWordKind::Single(_) => {}
        ComplexWordKind::Concat(v) => {
            let s = v@;
            axiom_vec_len(v);
            let b = cb::co_all(cb::cw_op(), s);
            lemma_all_kind(cb::cw_op::<C>(), k_w(), s);
            if parts(w) < isize::MAX { lemma_all_text(cb::cw_op::<C>(), g_w(), m_w(), k_w(), s); }
            axiom_mk_vec(b);
            if b.len() == 1 {
                assert(b.drop_first() =~= seq![]);
                assert(fl_all(g_w::<C>(), b.drop_first()) =~= seq![]);
                assert(fl_all(g_w::<C>(), b) =~= fl_w(b[0]));
            }
        }
    }
}

@fn ast::builder::default_builder::Coalesce::new
props C18 C19 C07 C08
ensures
  [C18 C19] iter.into_post(r.iter)
  [C18 C19] r.cur is None && r.func == func

@fn ast::builder::default_builder::Coalesce::next
props C18 C19 C07 C08
requires
  [C18 C19] cb::co_total(old(self).func)
  [C18 C19] old(self).iter.raw_fused()
ensures
  [C18 C19] final(self).func == old(self).func && final(self).iter.raw_fused()
  [C18 C19] final(self).pend().len() <= old(self).pend().len() && (r is Some ==> final(self).pend().len() < old(self).pend().len())
  [C18 C19] forall|op: cb::Op<I::Item>| #[trigger] cb::co_is(old(self).func, op) ==>
    match r {
        None => old(self).pend().len() == 0 && final(self).pend().len() == 0,
        Some(a) => old(self).pend().len() > 0 && (a, final(self).pend()) == cb::co_first(op, old(self).pend()[0], old(self).pend().drop_first()),
    }
@proof start
assert(self.cur is Some ==> self.pend().drop_first() =~= self.iter.raw_rest());
assert(self.iter.raw_rest().len() > 0 ==> self.iter.raw_rest() =~= seq![self.iter.raw_rest()[0]] + self.iter.raw_rest().drop_first());
assert(self.pend().len() > 1 ==> self.pend().drop_first() =~= seq![self.pend()[1]] + self.pend().drop_first().drop_first());
@loop 1
invariant
  - self.func == old(self).func && self.iter.raw_fused() && self.cur is None
  - self.iter.raw_rest().len() + 2 <= old(self).pend().len()
  - forall|op: cb::Op<I::Item>| #[trigger] cb::co_is(old(self).func, op) ==>
    cb::co_first(op, old(self).pend()[0], old(self).pend().drop_first()) == cb::co_first(op, left, seq![right] + self.iter.raw_rest())
decreases
  - self.iter.raw_rest().len()
@proof loop1.start
let ghost rest = self.iter.raw_rest();
let ghost l0 = left;
let ghost r0 = right;
assert((seq![right] + rest).drop_first() =~= rest && (seq![right] + rest)[0] == right);
assert(rest.len() > 0 ==> rest =~= seq![rest[0]] + rest.drop_first());

@proof before-call return#3
assert(self.pend() =~= rest);
assert(forall|op: cb::Op<I::Item>| #[trigger] cb::co_first(op, combined, rest) == (combined, rest));
assert forall|op: cb::Op<I::Item>| #[trigger] cb::co_is(old(self).func, op) implies cb::co_first(op, l0, seq![r0] + rest) == (combined, rest) by {
    assert(call_ensures(self.func, (l0, r0), Ok(combined)));
    let s = seq![r0] + rest;
    assert(op(l0, r0) == Ok::<I::Item, (I::Item, I::Item)>(combined));
    assert(s.len() > 0 && s[0] == r0 && s.drop_first() == rest);
    assert(cb::co_first(op, l0, s) == cb::co_first(op, combined, s.drop_first()));
    assert(cb::co_first(op, combined, rest) == (combined, rest));
}

@fn ast::builder::default_builder::compress::coalesce_simple
props C18 C19 C07 C08
ensures [C18 C19] r == cb::cs_sp(a, b)

@fn ast::builder::default_builder::compress::coalesce_word
props C18 C19 C07 C08
ensures [C18 C19] r == cb::cw_sp(a, b)
@proof before:loop1
assert(__vx_it1.pend() == a@ + b@);
@loop 1
invariant
  - cb::co_is(__vx_it1.func, cb::cs_op::<C>()) && cb::co_total(__vx_it1.func) && __vx_it1.iter.raw_fused()
  - __vx_acc@ + cb::co_all(cb::cs_op(), __vx_it1.pend()) == cb::co_all(cb::cs_op(), a@ + b@)
decreases
  - __vx_it1.pend().len()
@proof loop1.start
proof { lemma_collect(cb::cs_op(), __vx_acc@, __vx_it1.pend()); }

@fn ast::builder::default_builder::compress
props C18 C19 C07 C08
ensures
  [C18 C19] r == cb::cmp(word)
  [C19] parts(word) < isize::MAX ==> fl(r) == fl(word)
  [C19] r matches ComplexWordKind::Concat(v) ==> v@.len() != 1 && apart(k_w(), v@)
  [C19] r matches ComplexWordKind::Single(WordKind::DoubleQuoted(v)) ==> word is Single ==> apart(k_s(), v@)
@proof [C19] start
proof { lemma_cmp(word); }
@loop 1
invariant
  - cb::co_is(__vx_it1.func, cb::cs_op::<C>()) && cb::co_total(__vx_it1.func) && __vx_it1.iter.raw_fused()
  - __vx_acc@ + cb::co_all(cb::cs_op(), __vx_it1.pend()) == cb::co_all(cb::cs_op(), v@)
decreases
  - __vx_it1.pend().len()
@proof loop1.start
proof { lemma_collect(cb::cs_op(), __vx_acc@, __vx_it1.pend()); }
@loop 2
invariant
  - cb::co_is(__vx_it2.func, cb::cw_op::<C>()) && cb::co_total(__vx_it2.func) && __vx_it2.iter.raw_fused()
  - __vx_acc@ + cb::co_all(cb::cw_op(), __vx_it2.pend()) == cb::co_all(cb::cw_op(), v@)
decreases
  - __vx_it2.pend().len()
@proof loop2.start
proof { lemma_collect(cb::cw_op(), __vx_acc@, __vx_it2.pend()); }

@impl Builder for ast::builder::default_builder::DefaultBuilder
    open spec fn bs(&self) -> BState { arbitrary() }
    open spec fn failure(&self) -> Option<Self::Error> { None }
    open spec fn complete_command_of(b: BState, pre_cmd_comments: Vec<Newline>, list: Self::CommandList, separator: SeparatorKind, cmd_comment: Option<Newline>) -> (Result<Self::Command, Self::Error>, BState) { <RcCoreBuilder<T, TopLevelWord<T>, TopLevelCommand<T>> as Builder>::complete_command_of(b, pre_cmd_comments, list, separator, cmd_comment) }
    open spec fn and_or_list_of(b: BState, first: Self::ListableCommand, rest: Vec<(Vec<Newline>, AndOr<Self::ListableCommand>)>) -> (Result<Self::CommandList, Self::Error>, BState) { <RcCoreBuilder<T, TopLevelWord<T>, TopLevelCommand<T>> as Builder>::and_or_list_of(b, first, rest) }
    open spec fn pipeline_of(b: BState, bang: bool, cmds: Vec<(Vec<Newline>, Self::PipeableCommand )>) -> (Result<Self::ListableCommand, Self::Error>, BState) { <RcCoreBuilder<T, TopLevelWord<T>, TopLevelCommand<T>> as Builder>::pipeline_of(b, bang, cmds) }
    open spec fn simple_command_of(b: BState, redirects_or_env_vars: Vec<RedirectOrEnvVar<Self::Redirect, String, Self::Word>>, redirects_or_cmd_words: Vec<RedirectOrCmdWord<Self::Redirect, Self::Word>>) -> (Result<Self::PipeableCommand, Self::Error>, BState) { <RcCoreBuilder<T, TopLevelWord<T>, TopLevelCommand<T>> as Builder>::simple_command_of(b, redirects_or_env_vars, redirects_or_cmd_words) }
    open spec fn brace_group_of(b: BState, cmds: CommandGroup<Self::Command>, redirects: Vec<Self::Redirect>) -> (Result<Self::CompoundCommand, Self::Error>, BState) { <RcCoreBuilder<T, TopLevelWord<T>, TopLevelCommand<T>> as Builder>::brace_group_of(b, cmds, redirects) }
    open spec fn subshell_of(b: BState, cmds: CommandGroup<Self::Command>, redirects: Vec<Self::Redirect>) -> (Result<Self::CompoundCommand, Self::Error>, BState) { <RcCoreBuilder<T, TopLevelWord<T>, TopLevelCommand<T>> as Builder>::subshell_of(b, cmds, redirects) }
    open spec fn loop_command_of(b: BState, kind: LoopKind, guard_body_pair: GuardBodyPairGroup<Self::Command>, redirects: Vec<Self::Redirect>) -> (Result<Self::CompoundCommand, Self::Error>, BState) { <RcCoreBuilder<T, TopLevelWord<T>, TopLevelCommand<T>> as Builder>::loop_command_of(b, kind, guard_body_pair, redirects) }
    open spec fn if_command_of(b: BState, fragments: IfFragments<Self::Command>, redirects: Vec<Self::Redirect>) -> (Result<Self::CompoundCommand, Self::Error>, BState) { <RcCoreBuilder<T, TopLevelWord<T>, TopLevelCommand<T>> as Builder>::if_command_of(b, fragments, redirects) }
    open spec fn for_command_of(b: BState, fragments: ForFragments<Self::Word, Self::Command>, redirects: Vec<Self::Redirect>) -> (Result<Self::CompoundCommand, Self::Error>, BState) { <RcCoreBuilder<T, TopLevelWord<T>, TopLevelCommand<T>> as Builder>::for_command_of(b, fragments, redirects) }
    open spec fn case_command_of(b: BState, fragments: CaseFragments<Self::Word, Self::Command>, redirects: Vec<Self::Redirect>) -> (Result<Self::CompoundCommand, Self::Error>, BState) { <RcCoreBuilder<T, TopLevelWord<T>, TopLevelCommand<T>> as Builder>::case_command_of(b, fragments, redirects) }
    open spec fn compound_command_into_pipeable_of(b: BState, cmd: Self::CompoundCommand) -> (Result<Self::PipeableCommand, Self::Error>, BState) { <RcCoreBuilder<T, TopLevelWord<T>, TopLevelCommand<T>> as Builder>::compound_command_into_pipeable_of(b, cmd) }
    open spec fn function_declaration_of(b: BState, name: String, post_name_comments: Vec<Newline>, body: Self::CompoundCommand) -> (Result<Self::PipeableCommand, Self::Error>, BState) { <RcCoreBuilder<T, TopLevelWord<T>, TopLevelCommand<T>> as Builder>::function_declaration_of(b, name, post_name_comments, body) }
    open spec fn comments_of(b: BState, comments: Vec<Newline>) -> (Result<(), Self::Error>, BState) { <RcCoreBuilder<T, TopLevelWord<T>, TopLevelCommand<T>> as Builder>::comments_of(b, comments) }
    open spec fn word_of(b: BState, kind: ComplexWordKind<Self::Command>) -> (Result<Self::Word, Self::Error>, BState) { <RcCoreBuilder<T, TopLevelWord<T>, TopLevelCommand<T>> as Builder>::word_of(b, kind) }
    open spec fn redirect_of(b: BState, kind: RedirectKind<Self::Word>) -> (Result<Self::Redirect, Self::Error>, BState) { <RcCoreBuilder<T, TopLevelWord<T>, TopLevelCommand<T>> as Builder>::redirect_of(b, kind) }

@impl Builder for ast::builder::default_builder::AtomicDefaultBuilder
    open spec fn bs(&self) -> BState { arbitrary() }
    open spec fn failure(&self) -> Option<Self::Error> { None }
    open spec fn complete_command_of(b: BState, pre_cmd_comments: Vec<Newline>, list: Self::CommandList, separator: SeparatorKind, cmd_comment: Option<Newline>) -> (Result<Self::Command, Self::Error>, BState) { <ArcCoreBuilder<T, AtomicTopLevelWord<T>, AtomicTopLevelCommand<T>> as Builder>::complete_command_of(b, pre_cmd_comments, list, separator, cmd_comment) }
    open spec fn and_or_list_of(b: BState, first: Self::ListableCommand, rest: Vec<(Vec<Newline>, AndOr<Self::ListableCommand>)>) -> (Result<Self::CommandList, Self::Error>, BState) { <ArcCoreBuilder<T, AtomicTopLevelWord<T>, AtomicTopLevelCommand<T>> as Builder>::and_or_list_of(b, first, rest) }
    open spec fn pipeline_of(b: BState, bang: bool, cmds: Vec<(Vec<Newline>, Self::PipeableCommand )>) -> (Result<Self::ListableCommand, Self::Error>, BState) { <ArcCoreBuilder<T, AtomicTopLevelWord<T>, AtomicTopLevelCommand<T>> as Builder>::pipeline_of(b, bang, cmds) }
    open spec fn simple_command_of(b: BState, redirects_or_env_vars: Vec<RedirectOrEnvVar<Self::Redirect, String, Self::Word>>, redirects_or_cmd_words: Vec<RedirectOrCmdWord<Self::Redirect, Self::Word>>) -> (Result<Self::PipeableCommand, Self::Error>, BState) { <ArcCoreBuilder<T, AtomicTopLevelWord<T>, AtomicTopLevelCommand<T>> as Builder>::simple_command_of(b, redirects_or_env_vars, redirects_or_cmd_words) }
    open spec fn brace_group_of(b: BState, cmds: CommandGroup<Self::Command>, redirects: Vec<Self::Redirect>) -> (Result<Self::CompoundCommand, Self::Error>, BState) { <ArcCoreBuilder<T, AtomicTopLevelWord<T>, AtomicTopLevelCommand<T>> as Builder>::brace_group_of(b, cmds, redirects) }
    open spec fn subshell_of(b: BState, cmds: CommandGroup<Self::Command>, redirects: Vec<Self::Redirect>) -> (Result<Self::CompoundCommand, Self::Error>, BState) { <ArcCoreBuilder<T, AtomicTopLevelWord<T>, AtomicTopLevelCommand<T>> as Builder>::subshell_of(b, cmds, redirects) }
    open spec fn loop_command_of(b: BState, kind: LoopKind, guard_body_pair: GuardBodyPairGroup<Self::Command>, redirects: Vec<Self::Redirect>) -> (Result<Self::CompoundCommand, Self::Error>, BState) { <ArcCoreBuilder<T, AtomicTopLevelWord<T>, AtomicTopLevelCommand<T>> as Builder>::loop_command_of(b, kind, guard_body_pair, redirects) }
    open spec fn if_command_of(b: BState, fragments: IfFragments<Self::Command>, redirects: Vec<Self::Redirect>) -> (Result<Self::CompoundCommand, Self::Error>, BState) { <ArcCoreBuilder<T, AtomicTopLevelWord<T>, AtomicTopLevelCommand<T>> as Builder>::if_command_of(b, fragments, redirects) }
    open spec fn for_command_of(b: BState, fragments: ForFragments<Self::Word, Self::Command>, redirects: Vec<Self::Redirect>) -> (Result<Self::CompoundCommand, Self::Error>, BState) { <ArcCoreBuilder<T, AtomicTopLevelWord<T>, AtomicTopLevelCommand<T>> as Builder>::for_command_of(b, fragments, redirects) }
    open spec fn case_command_of(b: BState, fragments: CaseFragments<Self::Word, Self::Command>, redirects: Vec<Self::Redirect>) -> (Result<Self::CompoundCommand, Self::Error>, BState) { <ArcCoreBuilder<T, AtomicTopLevelWord<T>, AtomicTopLevelCommand<T>> as Builder>::case_command_of(b, fragments, redirects) }
    open spec fn compound_command_into_pipeable_of(b: BState, cmd: Self::CompoundCommand) -> (Result<Self::PipeableCommand, Self::Error>, BState) { <ArcCoreBuilder<T, AtomicTopLevelWord<T>, AtomicTopLevelCommand<T>> as Builder>::compound_command_into_pipeable_of(b, cmd) }
    open spec fn function_declaration_of(b: BState, name: String, post_name_comments: Vec<Newline>, body: Self::CompoundCommand) -> (Result<Self::PipeableCommand, Self::Error>, BState) { <ArcCoreBuilder<T, AtomicTopLevelWord<T>, AtomicTopLevelCommand<T>> as Builder>::function_declaration_of(b, name, post_name_comments, body) }
    open spec fn comments_of(b: BState, comments: Vec<Newline>) -> (Result<(), Self::Error>, BState) { <ArcCoreBuilder<T, AtomicTopLevelWord<T>, AtomicTopLevelCommand<T>> as Builder>::comments_of(b, comments) }
    open spec fn word_of(b: BState, kind: ComplexWordKind<Self::Command>) -> (Result<Self::Word, Self::Error>, BState) { <ArcCoreBuilder<T, AtomicTopLevelWord<T>, AtomicTopLevelCommand<T>> as Builder>::word_of(b, kind) }
    open spec fn redirect_of(b: BState, kind: RedirectKind<Self::Word>) -> (Result<Self::Redirect, Self::Error>, BState) { <ArcCoreBuilder<T, AtomicTopLevelWord<T>, AtomicTopLevelCommand<T>> as Builder>::redirect_of(b, kind) }

@impl Builder for ast::builder::default_builder::CoreBuilder
    open spec fn bs(&self) -> BState { arbitrary() }
    open spec fn failure(&self) -> Option<Self::Error> { None }
    open spec fn complete_command_of(b: BState, pre_cmd_comments: Vec<Newline>, list: Self::CommandList, separator: SeparatorKind, cmd_comment: Option<Newline>) -> (Result<Self::Command, Self::Error>, BState) { (Ok(cb::from_of(match separator { SeparatorKind::Amp => Command::Job(list), _ => Command::List(list) })), arbitrary()) }
    open spec fn and_or_list_of(b: BState, first: Self::ListableCommand, rest: Vec<(Vec<Newline>, AndOr<Self::ListableCommand>)>) -> (Result<Self::CommandList, Self::Error>, BState) { (Ok(AndOrList { first, rest: mk_vec(cb::seconds(rest@)) }), arbitrary()) }
    open spec fn pipeline_of(b: BState, bang: bool, cmds: Vec<(Vec<Newline>, Self::PipeableCommand )>) -> (Result<Self::ListableCommand, Self::Error>, BState) { (Ok(if bang || cmds@.len() != 1 { ListableCommand::Pipe(bang, mk_vec(cb::seconds(cmds@))) } else { ListableCommand::Single(cmds@[0].1) }), arbitrary()) }
    open spec fn simple_command_of(b: BState, redirects_or_env_vars: Vec<RedirectOrEnvVar<Self::Redirect, String, Self::Word>>, redirects_or_cmd_words: Vec<RedirectOrCmdWord<Self::Redirect, Self::Word>>) -> (Result<Self::PipeableCommand, Self::Error>, BState) { (Ok(PipeableCommand::Simple(cb::bx(SimpleCommand { redirects_or_env_vars: mk_vec(cb::res(redirects_or_env_vars@)), redirects_or_cmd_words }))), arbitrary()) }
    open spec fn brace_group_of(b: BState, cmds: CommandGroup<Self::Command>, redirects: Vec<Self::Redirect>) -> (Result<Self::CompoundCommand, Self::Error>, BState) { (Ok(CompoundCommand { kind: CompoundCommandKind::Brace(cmds.commands), io: redirects }), arbitrary()) }
    open spec fn subshell_of(b: BState, cmds: CommandGroup<Self::Command>, redirects: Vec<Self::Redirect>) -> (Result<Self::CompoundCommand, Self::Error>, BState) { (Ok(CompoundCommand { kind: CompoundCommandKind::Subshell(cmds.commands), io: redirects }), arbitrary()) }
    open spec fn loop_command_of(b: BState, kind: LoopKind, guard_body_pair: GuardBodyPairGroup<Self::Command>, redirects: Vec<Self::Redirect>) -> (Result<Self::CompoundCommand, Self::Error>, BState) { (Ok(CompoundCommand { kind: match kind { LoopKind::While => CompoundCommandKind::While(cb::gb_of(guard_body_pair)), LoopKind::Until => CompoundCommandKind::Until(cb::gb_of(guard_body_pair)) }, io: redirects }), arbitrary()) }
    open spec fn if_command_of(b: BState, fragments: IfFragments<Self::Command>, redirects: Vec<Self::Redirect>) -> (Result<Self::CompoundCommand, Self::Error>, BState) { (Ok(CompoundCommand { kind: CompoundCommandKind::If { conditionals: mk_vec(cb::gbs(fragments.conditionals@)), else_branch: match fragments.else_branch { Some(g) => Some(g.commands), None => None } }, io: redirects }), arbitrary()) }
    open spec fn for_command_of(b: BState, fragments: ForFragments<Self::Word, Self::Command>, redirects: Vec<Self::Redirect>) -> (Result<Self::CompoundCommand, Self::Error>, BState) { (Ok(CompoundCommand { kind: CompoundCommandKind::For { var: cb::from_of(fragments.var), words: match fragments.words { Some(x) => Some(x.1), None => None }, body: fragments.body.commands }, io: redirects }), arbitrary()) }
    open spec fn case_command_of(b: BState, fragments: CaseFragments<Self::Word, Self::Command>, redirects: Vec<Self::Redirect>) -> (Result<Self::CompoundCommand, Self::Error>, BState) { (Ok(CompoundCommand { kind: CompoundCommandKind::Case { word: fragments.word, arms: mk_vec(cb::arms(fragments.arms@)) }, io: redirects }), arbitrary()) }
    open spec fn compound_command_into_pipeable_of(b: BState, cmd: Self::CompoundCommand) -> (Result<Self::PipeableCommand, Self::Error>, BState) { (Ok(PipeableCommand::Compound(cb::bx(cmd))), arbitrary()) }
    open spec fn function_declaration_of(b: BState, name: String, post_name_comments: Vec<Newline>, body: Self::CompoundCommand) -> (Result<Self::PipeableCommand, Self::Error>, BState) { (Ok(PipeableCommand::FunctionDef(cb::from_of(name), cb::from_of(body))), arbitrary()) }
    open spec fn comments_of(b: BState, comments: Vec<Newline>) -> (Result<(), Self::Error>, BState) { (Ok(()), arbitrary()) }
    open spec fn word_of(b: BState, kind: ComplexWordKind<Self::Command>) -> (Result<Self::Word, Self::Error>, BState) { (Ok(cb::cwm::<T, W, C>(kind)), arbitrary()) }
    open spec fn redirect_of(b: BState, kind: RedirectKind<Self::Word>) -> (Result<Self::Redirect, Self::Error>, BState) { (Ok(cb::rd_of(kind)), arbitrary()) }

@fn ast::builder::default_builder::DefaultBuilder::complete_command
props C18 C07 C08
@fn ast::builder::default_builder::DefaultBuilder::and_or_list
props C18 C07 C08
@fn ast::builder::default_builder::DefaultBuilder::pipeline
props C18 C07 C08
@fn ast::builder::default_builder::DefaultBuilder::simple_command
props C18 C07 C08
@fn ast::builder::default_builder::DefaultBuilder::brace_group
props C18 C07 C08
@fn ast::builder::default_builder::DefaultBuilder::subshell
props C18 C07 C08
@fn ast::builder::default_builder::DefaultBuilder::loop_command
props C18 C07 C08
@fn ast::builder::default_builder::DefaultBuilder::if_command
props C18 C07 C08
@fn ast::builder::default_builder::DefaultBuilder::for_command
props C18 C07 C08
@fn ast::builder::default_builder::DefaultBuilder::case_command
props C18 C07 C08
@fn ast::builder::default_builder::DefaultBuilder::compound_command_into_pipeable
props C18 C07 C08
@fn ast::builder::default_builder::DefaultBuilder::function_declaration
props C18 C07 C08
@fn ast::builder::default_builder::DefaultBuilder::comments
props C18 C07 C08
@fn ast::builder::default_builder::DefaultBuilder::word
props C18 C19 C07 C08
@fn ast::builder::default_builder::DefaultBuilder::redirect
props C18 C07 C08
@fn ast::builder::default_builder::AtomicDefaultBuilder::complete_command
props C18 C07 C08
@fn ast::builder::default_builder::AtomicDefaultBuilder::and_or_list
props C18 C07 C08
@fn ast::builder::default_builder::AtomicDefaultBuilder::pipeline
props C18 C07 C08
@fn ast::builder::default_builder::AtomicDefaultBuilder::simple_command
props C18 C07 C08
@fn ast::builder::default_builder::AtomicDefaultBuilder::brace_group
props C18 C07 C08
@fn ast::builder::default_builder::AtomicDefaultBuilder::subshell
props C18 C07 C08
@fn ast::builder::default_builder::AtomicDefaultBuilder::loop_command
props C18 C07 C08
@fn ast::builder::default_builder::AtomicDefaultBuilder::if_command
props C18 C07 C08
@fn ast::builder::default_builder::AtomicDefaultBuilder::for_command
props C18 C07 C08
@fn ast::builder::default_builder::AtomicDefaultBuilder::case_command
props C18 C07 C08
@fn ast::builder::default_builder::AtomicDefaultBuilder::compound_command_into_pipeable
props C18 C07 C08
@fn ast::builder::default_builder::AtomicDefaultBuilder::function_declaration
props C18 C07 C08
@fn ast::builder::default_builder::AtomicDefaultBuilder::comments
props C18 C07 C08
@fn ast::builder::default_builder::AtomicDefaultBuilder::word
props C18 C19 C07 C08
@fn ast::builder::default_builder::AtomicDefaultBuilder::redirect
props C18 C07 C08
@fn ast::builder::default_builder::CoreBuilder::complete_command
props C18 C07 C08
@fn ast::builder::default_builder::CoreBuilder::and_or_list
props C18 C07 C08
@fn ast::builder::default_builder::CoreBuilder::pipeline
props C18 C07 C08
@fn ast::builder::default_builder::CoreBuilder::simple_command
props C18 C07 C08
@fn ast::builder::default_builder::CoreBuilder::brace_group
props C18 C07 C08
@fn ast::builder::default_builder::CoreBuilder::subshell
props C18 C07 C08
@fn ast::builder::default_builder::CoreBuilder::loop_command
props C18 C07 C08
@fn ast::builder::default_builder::CoreBuilder::if_command
props C18 C07 C08
@fn ast::builder::default_builder::CoreBuilder::for_command
props C18 C07 C08
@fn ast::builder::default_builder::CoreBuilder::case_command
props C18 C07 C08
@fn ast::builder::default_builder::CoreBuilder::compound_command_into_pipeable
props C18 C07 C08
@fn ast::builder::default_builder::CoreBuilder::function_declaration
props C18 C07 C08
@fn ast::builder::default_builder::CoreBuilder::comments
props C18 C07 C08
@fn ast::builder::default_builder::CoreBuilder::word
props C18 C19 C07 C08
@fn ast::builder::default_builder::CoreBuilder::redirect
props C18 C07 C08

@fn ast::builder::default_builder::CoreBuilder::and_or_list
@proof start
let ghost s = rest@;
@loop 1
invariant
  - __vx_acc@.len() <= s.len() && __vx_it1.rest() == s.skip(__vx_acc@.len() as int)
  - __vx_acc@ == cb::seconds(s).take(__vx_acc@.len() as int)
decreases
  - __vx_it1.rest().len()
@proof loop1.start
let ghost n = __vx_acc@.len() as int;
assert(n < s.len() ==> cb::seconds(s).take(n + 1) =~= cb::seconds(s).take(n).push(cb::seconds(s)[n]));
assert(n < s.len() ==> s.skip(n)[0] == s[n] && s.skip(n).drop_first() =~= s.skip(n + 1));
assert(n == s.len() ==> cb::seconds(s).take(n) =~= cb::seconds(s));

@fn ast::builder::default_builder::CoreBuilder::pipeline
@proof start
let ghost s = cmds@;
@loop 1
invariant
  - __vx_acc@.len() <= s.len() && __vx_it1.rest() == s.skip(__vx_acc@.len() as int)
  - __vx_acc@ == cb::seconds(s).take(__vx_acc@.len() as int)
decreases
  - __vx_it1.rest().len()
@proof loop1.start
let ghost n = __vx_acc@.len() as int;
assert(n < s.len() ==> cb::seconds(s).take(n + 1) =~= cb::seconds(s).take(n).push(cb::seconds(s)[n]));
assert(n < s.len() ==> s.skip(n)[0] == s[n] && s.skip(n).drop_first() =~= s.skip(n + 1));
assert(n == s.len() ==> cb::seconds(s).take(n) =~= cb::seconds(s));

@fn ast::builder::default_builder::CoreBuilder::simple_command
@proof start
let ghost s = redirects_or_env_vars@;
@loop 1
invariant
  - __vx_acc@.len() <= s.len() && __vx_it1.rest() == s.skip(__vx_acc@.len() as int)
  - __vx_acc@ == cb::res::<T, Redirect<W>, W>(s).take(__vx_acc@.len() as int)
decreases
  - __vx_it1.rest().len()
@proof loop1.start
let ghost n = __vx_acc@.len() as int;
assert(n < s.len() ==> cb::res::<T, Redirect<W>, W>(s).take(n + 1) =~= cb::res::<T, Redirect<W>, W>(s).take(n).push(cb::res::<T, Redirect<W>, W>(s)[n]));
assert(n < s.len() ==> s.skip(n)[0] == s[n] && s.skip(n).drop_first() =~= s.skip(n + 1));
assert(n == s.len() ==> cb::res::<T, Redirect<W>, W>(s).take(n) =~= cb::res::<T, Redirect<W>, W>(s));

@fn ast::builder::default_builder::CoreBuilder::if_command
@proof start
let ghost s = fragments.conditionals@;
@loop 1
invariant
  - __vx_acc@.len() <= s.len() && __vx_it1.rest() == s.skip(__vx_acc@.len() as int)
  - __vx_acc@ == cb::gbs(s).take(__vx_acc@.len() as int)
decreases
  - __vx_it1.rest().len()
@proof loop1.start
let ghost n = __vx_acc@.len() as int;
assert(n < s.len() ==> cb::gbs(s).take(n + 1) =~= cb::gbs(s).take(n).push(cb::gbs(s)[n]));
assert(n < s.len() ==> s.skip(n)[0] == s[n] && s.skip(n).drop_first() =~= s.skip(n + 1));
assert(n == s.len() ==> cb::gbs(s).take(n) =~= cb::gbs(s));

@fn ast::builder::default_builder::CoreBuilder::case_command
@proof start
let ghost s = fragments.arms@;
@loop 1
invariant
  - __vx_acc@.len() <= s.len() && __vx_it1.rest() == s.skip(__vx_acc@.len() as int)
  - __vx_acc@ == cb::arms(s).take(__vx_acc@.len() as int)
decreases
  - __vx_it1.rest().len()
@proof loop1.start
let ghost n = __vx_acc@.len() as int;
assert(n < s.len() ==> cb::arms(s).take(n + 1) =~= cb::arms(s).take(n).push(cb::arms(s)[n]));
assert(n < s.len() ==> s.skip(n)[0] == s[n] && s.skip(n).drop_first() =~= s.skip(n + 1));
assert(n == s.len() ==> cb::arms(s).take(n) =~= cb::arms(s));

@fn ast::builder::default_builder::CoreBuilder::word::map_arith
props C18 C07 C08
ensures [C18] r == cb::am::<T>(kind)
decreases kind
@proof start
let ghost k0 = kind;
let ghost g = kind->Sequence_0;
@loop 1
invariant
  - k0 is Sequence && g == k0->Sequence_0
  - __vx_acc@.len() <= g@.len() && __vx_it1.rest() == g@.skip(__vx_acc@.len() as int)
  - __vx_acc@ == cb::am_seq::<T>(g, __vx_acc@.len())
decreases
  - __vx_it1.rest().len()
@proof loop1.start
let ghost n = __vx_acc@.len() as int;
assert(n < g@.len() ==> g@.skip(n)[0] == g@[n] && g@.skip(n).drop_first() =~= g@.skip(n + 1));

@fn ast::builder::default_builder::CoreBuilder::word
closure map_param <T: From<String>>(kind: DefaultParameter) -> Parameter<T>
closure map_simple <T, W, C, F>(vx_self: &mut CoreBuilder<T, W, C, F>, kind: SimpleWordKind<C>) -> Result<SimpleWord<T, Parameter<T>, Box<ParameterSubstitution<Parameter<T>, W, C, Arithmetic<T>>>>, Void> where T: From<String>, W: From<ShellWord<T, W, C>>, C: From<Command<AndOrList<ListableCommand<BuilderPipeableCommand<T, W, C, F>>>>>, F: From<ShellCompoundCommand<T, W, C>>
closure map_word <T, W, C, F>(vx_self: &mut CoreBuilder<T, W, C, F>, kind: WordKind<C>) -> Result<Word<T, SimpleWord<T, Parameter<T>, Box<ParameterSubstitution<Parameter<T>, W, C, Arithmetic<T>>>>>, Void> where T: From<String>, W: From<ShellWord<T, W, C>>, C: From<Command<AndOrList<ListableCommand<BuilderPipeableCommand<T, W, C, F>>>>>, F: From<ShellCompoundCommand<T, W, C>>
decreases cb::dp(kind), 4nat
@proof start
let ghost k0 = kind;
let ghost g = cb::cmp(kind)->Concat_0;
proof { cb::lemma_dp(k0); }
@loop 1
invariant
  - cb::cmp(k0) is Concat && g == cb::cmp(k0)->Concat_0 && cb::dp(cb::cmp(k0)) <= cb::dp(k0)
  - __vx_acc@.len() <= g@.len() && __vx_it1.rest() == g@.skip(__vx_acc@.len() as int)
  - __vx_acc@ == cb::wm_seq::<T, W, C>(g, __vx_acc@.len())
decreases
  - __vx_it1.rest().len()
@proof loop1.start
let ghost n = __vx_acc@.len() as int;
proof { cb::lemma_dpw_max(g, g@.len(), cb::dp(k0)); }
assert(n < g@.len() ==> g@.skip(n)[0] == g@[n] && g@.skip(n).drop_first() =~= g@.skip(n + 1));

@fn ast::builder::default_builder::CoreBuilder::word::map_param
props C18 C07 C08
ensures [C18] r == cb::pm::<T>(kind)

@fn ast::builder::default_builder::CoreBuilder::word::map_simple
props C18 C19 C07 C08
ensures [C18 C19] r == Ok::<_, Void>(cb::sm::<T, W, C>(kind))
decreases cb::dps(kind), 0nat

@fn ast::builder::default_builder::CoreBuilder::word::map_word
props C18 C19 C07 C08
ensures [C18 C19] r == Ok::<_, Void>(cb::wm::<T, W, C>(kind))
decreases cb::dpw(kind), 2nat
@proof start
let ghost k0 = kind;
let ghost g = kind->DoubleQuoted_0;
@loop 1
invariant
  - k0 is DoubleQuoted && g == k0->DoubleQuoted_0
  - __vx_acc@.len() <= g@.len() && __vx_it1.rest() == g@.skip(__vx_acc@.len() as int)
  - __vx_acc@ == cb::sm_seq::<T, W, C>(g, __vx_acc@.len())
decreases
  - __vx_it1.rest().len()
@proof loop1.start
let ghost n = __vx_acc@.len() as int;
proof { cb::lemma_dps_max(g, g@.len(), cb::dpw(k0)); }
assert(n < g@.len() ==> g@.skip(n)[0] == g@[n] && g@.skip(n).drop_first() =~= g@.skip(n + 1));
