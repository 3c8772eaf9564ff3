### ------------------------------------------------------------------ heredocs
@mod parse
/// What a heredoc consists of.
pub mod hd {
use vstd::prelude::*;
use crate::vf::*;
use crate::gr::*;
use crate::token::{Token, tstr, is_delim};
use crate::parse::SourcePos;
use crate::parse::iter::{TokenOrPos, UnmatchedError, BSt, BRun, bal_run, bal_init, bal_step, fst, strip, lemma_map_fst, lemma_bal_run, lemma_bal_run_some, lemma_bal_step, lemma_head_dec, inter, lemma_inter_add, lemma_inter_one, lemma_inter_toks, put_back, lemma_put_back, own};
broadcast use {crate::vf::group_vf, crate::vf::lemma_after};

pub proof fn lemma_fst_one(t: Token, p: SourcePos, r: Seq<(Token, SourcePos)>)
    ensures
        fst(seq![(t, p)] + r) == seq![t] + fst(r),
        cat(fst(seq![(t, p)] + r)) == tstr(t) + cat(fst(r)),
{
    assert(fst(seq![(t, p)] + r) =~= seq![t] + fst(r));
    lemma_cat_add(seq![t], fst(r));
    lemma_cat_one(t);
}
pub proof fn lemma_cat_one(t: Token)
    ensures cat(seq![t]) == tstr(t),
{
    assert(seq![t].drop_last() =~= Seq::empty());
    assert(cat(seq![t].drop_last()) =~= Seq::empty());
    assert(cat(seq![t]) =~= tstr(t));
}

/// The tokens of the delimiter: words, parentheses and anything quoted.
pub open spec fn delim_toks(s: St) -> (Seq<Token>, Option<UnmatchedError>, St)
    decreases ntoks(s.items),
{
    if head(s) is None || (is_delim(head(s)->0) && head(s)->0 != Token::ParenOpen) {
        (Seq::empty(), None, s)
    } else {
        let n = bal_run(bal_init(s, None));
        if n.err is Some { (Seq::empty(), n.err, n.end.st) }
        else if ntoks(n.end.st.items) < ntoks(s.items) {
            let m = delim_toks(n.end.st);
            (fst(n.toks) + m.0, m.1, m.2)
        } else { arbitrary() }
    }
}
pub proof fn lemma_delim_toks(s: St)
    ensures ntoks(delim_toks(s).2.items) <= ntoks(s.items), s.wf() ==> delim_toks(s).2.wf(),
    decreases ntoks(s.items),
{
    lemma_bal_run(bal_init(s, None));
    lemma_bal_run_some(s);
    let n = bal_run(bal_init(s, None));
    if head(s) is Some && n.err is None && ntoks(n.end.st.items) < ntoks(s.items) { lemma_delim_toks(n.end.st); }
}

/// Between double quotes a backslash is kept unless it is in front of `$`, `` ` ``, `"`, `\` or a newline.
pub open spec fn dq_special(t: Token) -> bool {
    t is Dollar || t is Backtick || t is DoubleQuote || t is Backslash || t is Newline
}
pub open spec fn dq_text(s: Seq<Token>) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() }
    else if s[0] is Backslash && s.len() >= 2 {
        (if dq_special(s[1]) { tstr(s[1]) } else { tstr(s[0]) + tstr(s[1]) }) + dq_text(s.skip(2))
    } else { tstr(s[0]) + dq_text(s.skip(1)) }
}
pub proof fn lemma_dq_step(b: BSt)
    ensures
        ({
            let (r1, b2) = bal_step(b);
            let (r2, b3) = bal_step(b2);
            let n = bal_run(b);
            match r1 {
                None => dq_text(fst(n.toks)) =~= Seq::empty() && n.err is None && n.end == b2
                    && bal_run(b2) == (BRun { toks: Seq::empty(), err: None, end: b2 }),
                Some(Err(e)) => n.err == Some(e),
                Some(Ok(Token::Backslash)) => match r2 {
                    None => dq_text(fst(n.toks)) == tstr(Token::Backslash) && n.err is None && n.end == b3
                        && bal_run(b3) == (BRun { toks: Seq::empty(), err: None, end: b3 }),
                    Some(Err(e)) => n.err == Some(e),
                    Some(Ok(t2)) => {
                        let n3 = bal_run(b3);
                        &&& n.err == n3.err && n.end == n3.end
                        &&& dq_text(fst(n.toks)) == (if dq_special(t2) { tstr(t2) } else { tstr(Token::Backslash) + tstr(t2) }) + dq_text(fst(n3.toks))
                    }
                },
                Some(Ok(t)) => {
                    let n2 = bal_run(b2);
                    &&& n.err == n2.err && n.end == n2.end
                    &&& dq_text(fst(n.toks)) == tstr(t) + dq_text(fst(n2.toks))
                }
            }
        }),
{
    let (r1, b2) = bal_step(b);
    let (r2, b3) = bal_step(b2);
    let n = bal_run(b);
    lemma_bal_step(b);
    lemma_bal_step(b2);
    let n2 = bal_run(b2);
    let n3 = bal_run(b3);
    match r1 {
        Some(Ok(t)) => {
            assert(n.toks == seq![(t, b.pos)] + n2.toks);
            lemma_fst_one(t, b.pos, n2.toks);
            assert(fst(n.toks).skip(1) =~= fst(n2.toks));
            if t is Backslash {
                match r2 {
                    Some(Ok(t2)) => {
                        assert(n2.toks == seq![(t2, b2.pos)] + n3.toks);
                        lemma_fst_one(t2, b2.pos, n3.toks);
                        assert(fst(n.toks).skip(2) =~= fst(n3.toks));
                    }
                    _ => {
                        assert(fst(n2.toks) =~= Seq::empty());
                        assert(dq_text(fst(n2.toks)) =~= Seq::empty());
                        assert(dq_text(fst(n.toks)) =~= tstr(Token::Backslash));
                    }
                }
            }
        }
        _ => { assert(fst(n.toks) =~= Seq::empty()); }
    }
}

/// One round of unquoting between double quotes, in front of which `d` was unquoted.
pub proof fn lemma_dq_loop(d: Seq<char>, b: BSt)
    ensures
        ({
            let (r1, b2) = bal_step(b);
            let (r2, b3) = bal_step(b2);
            let n = bal_run(b);
            let all = d + dq_text(fst(n.toks));
            let e = Seq::<(Token, SourcePos)>::empty();
            match r1 {
                None => all == d && n.err is None && n.end == b2 && bal_run(b2) == (BRun { toks: e, err: None, end: b2 }),
                Some(Err(x)) => n.err == Some(x),
                Some(Ok(Token::Backslash)) => match r2 {
                    None => d + tstr(Token::Backslash) == all && n.err is None && n.end == b3
                        && d + tstr(Token::Backslash) + dq_text(fst(e)) == all
                        && bal_run(b3) == (BRun { toks: e, err: None, end: b3 }),
                    Some(Err(x)) => n.err == Some(x),
                    Some(Ok(t2)) => {
                        let x = dq_text(fst(bal_run(b3).toks));
                        &&& n.err == bal_run(b3).err && n.end == bal_run(b3).end
                        &&& dq_special(t2) ==> d + tstr(t2) + x == all
                        &&& !dq_special(t2) ==> d + tstr(Token::Backslash) + tstr(t2) + x == all
                    }
                },
                Some(Ok(t)) => {
                    &&& n.err == bal_run(b2).err && n.end == bal_run(b2).end
                    &&& d + tstr(t) + dq_text(fst(bal_run(b2).toks)) == all
                }
            }
        }),
        dq_text(fst(Seq::<(Token, SourcePos)>::empty())) == Seq::<char>::empty(),
{
    lemma_dq_step(b);
    let (r1, b2) = bal_step(b);
    let (r2, b3) = bal_step(b2);
    assert(fst(Seq::<(Token, SourcePos)>::empty()) =~= Seq::empty());
    assert(d + Seq::<char>::empty() =~= d);
    if let Some(Ok(t)) = r1 {
        let x = dq_text(fst(bal_run(b2).toks));
        assert((d + tstr(t)) + x =~= d + (tstr(t) + x));
        assert(d + tstr(t) + Seq::<char>::empty() =~= d + tstr(t));
        if let Some(Ok(t2)) = r2 {
            let y = dq_text(fst(bal_run(b3).toks));
            assert((d + tstr(t2)) + y =~= d + (tstr(t2) + y));
            assert(((d + tstr(t)) + tstr(t2)) + y =~= d + ((tstr(t) + tstr(t2)) + y));
        }
    }
}
/// One piece of the delimiter: its text once unquoted, whether it is quoted, and what follows.
pub open spec fn delim_chunk(s: St) -> (Seq<char>, bool, Option<UnmatchedError>, St) {
    let a = after(s);
    match head(s) {
        None => (Seq::empty(), false, None, s),
        Some(Token::Backslash) => match head(a) {
            Some(t) => (tstr(t), true, None, after(a)),
            None => (Seq::empty(), true, None, a),
        },
        Some(Token::SingleQuote) => {
            let n = bal_run(bal_init(a, Some((Token::SingleQuote, s.pos))));
            (cat(fst(n.toks)), true, n.err, n.end.st)
        }
        Some(Token::DoubleQuote) => {
            let n = bal_run(bal_init(a, Some((Token::DoubleQuote, s.pos))));
            (dq_text(fst(n.toks)), true, n.err, n.end.st)
        }
        Some(Token::Backtick) => {
            let n = bal_run(bal_init(a, Some((Token::Backtick, s.pos))));
            (tstr(Token::Backtick) + cat(fst(strip(n.toks))) + tstr(Token::Backtick), true, n.err, n.end.st)
        }
        Some(t) => (tstr(t), false, None, a),
    }
}
/// The text of the delimiter without its quotes, and whether any of it is quoted.
pub open spec fn delim_text(s: St) -> (Seq<char>, bool, Option<UnmatchedError>)
    decreases ntoks(s.items),
{
    let c = delim_chunk(s);
    if head(s) is None { (Seq::empty(), false, None) }
    else if c.2 is Some { (c.0, c.1, c.2) }
    else if ntoks(c.3.items) < ntoks(s.items) {
        let m = delim_text(c.3);
        (c.0 + m.0, c.1 || m.1, m.2)
    } else { arbitrary() }
}
pub proof fn lemma_delim_chunk(s: St)
    ensures head(s) is Some ==> ntoks(delim_chunk(s).3.items) < ntoks(s.items), s.wf() ==> delim_chunk(s).3.wf(),
{
    let a = after(s);
    lemma_head_dec(s);
    lemma_head_dec(a);
    lemma_bal_run(bal_init(a, Some((Token::SingleQuote, s.pos))));
    lemma_bal_run(bal_init(a, Some((Token::DoubleQuote, s.pos))));
    lemma_bal_run(bal_init(a, Some((Token::Backtick, s.pos))));
}

/// One round of unquoting the delimiter, in front of which `d` was unquoted.
pub proof fn lemma_delim_step(d: Seq<char>, s: St)
    ensures
        ({
            let c = delim_chunk(s);
            let (r, q) = (delim_text(c.3), delim_text(s));
            &&& head(s) is None ==> d + q.0 == d && !q.1 && q.2 is None
            &&& head(s) is Some ==> ntoks(c.3.items) < ntoks(s.items)
            &&& head(s) is Some && c.2 is Some ==> q.2 == c.2
            &&& head(s) is Some && c.2 is None ==> (d + c.0) + r.0 == d + q.0 && (c.1 || r.1) == q.1 && r.2 == q.2
            &&& s.wf() ==> c.3.wf()
        }),
        d + Seq::<char>::empty() == d,
{
    lemma_delim_chunk(s);
    let c = delim_chunk(s);
    assert((d + c.0) + delim_text(c.3).0 =~= d + (c.0 + delim_text(c.3).0));
    assert(d + Seq::<char>::empty() =~= d);
}
/// The delimiter word in front, unquoted.
pub open spec fn delim_of(t: Seq<Token>) -> (Seq<char>, bool, Option<UnmatchedError>) {
    delim_text(St { items: tok_items(t), pos: SourcePos { byte: 0, line: 1, col: 1 } })
}
pub proof fn lemma_tok_items_wf(t: Seq<Token>)
    ensures (St { items: tok_items(t), pos: SourcePos { byte: 0, line: 1, col: 1 } }).wf(),
{ }
/// The tokens up to a newline or the end of the input.
pub open spec fn to_newline(s: St) -> (Seq<(Token, SourcePos)>, St)
    decreases ntoks(s.items) via to_newline_dec
{
    if head(s) is None || head(s) == Some(Token::Newline) { (Seq::empty(), s) }
    else { let n = to_newline(after(s)); (seq![(head(s)->0, s.pos)] + n.0, n.1) }
}
#[via_fn]
proof fn to_newline_dec(s: St) { lemma_head_dec(s); }
pub proof fn lemma_to_newline(s: St)
    ensures
        to_newline(s).0.len() + ntoks(to_newline(s).1.items) == ntoks(s.items),
        s.wf() ==> to_newline(s).1.wf(),
        head(to_newline(s).1) is None || head(to_newline(s).1) == Some(Token::Newline),
    decreases ntoks(s.items),
{
    lemma_head_dec(s);
    if !(head(s) is None || head(s) == Some(Token::Newline)) { lemma_to_newline(after(s)); }
}

/// What is left of the line of the operator, up to and with the first newline which is not quoted.
/// Nothing within a comment is special.
pub open spec fn rest_line(s: St, start: bool) -> (Seq<(Token, SourcePos)>, Option<UnmatchedError>, St)
    decreases ntoks(s.items),
{
    if head(s) is None { (Seq::empty(), None, s) }
    else if (start && head(s) == Some(Token::Pound)) || head(s) == Some(Token::Newline) {
        let c = to_newline(s);
        match head(c.1) {
            Some(t) => (c.0 + seq![(t, c.1.pos)], None, after(c.1)),
            None => (c.0, None, c.1),
        }
    } else {
        let n = bal_run(bal_init(s, None));
        if n.err is Some { (n.toks, n.err, n.end.st) }
        else if ntoks(n.end.st.items) < ntoks(s.items) {
            let m = rest_line(n.end.st, is_delim(head(s)->0) && n.toks.len() == 1);
            (n.toks + m.0, m.1, m.2)
        } else { arbitrary() }
    }
}
pub proof fn lemma_rest_line(s: St, start: bool)
    ensures
        rest_line(s, start).1 is None ==> rest_line(s, start).0.len() + ntoks(rest_line(s, start).2.items) <= ntoks(s.items),
        ntoks(rest_line(s, start).2.items) <= ntoks(s.items),
        s.wf() ==> rest_line(s, start).2.wf(),
    decreases ntoks(s.items),
{
    lemma_to_newline(s);
    lemma_head_dec(to_newline(s).1);
    lemma_bal_run(bal_init(s, None));
    lemma_bal_run_some(s);
    let n = bal_run(bal_init(s, None));
    if head(s) is Some && n.err is None && ntoks(n.end.st.items) < ntoks(s.items) {
        lemma_rest_line(n.end.st, is_delim(head(s)->0) && n.toks.len() == 1);
    }
}

pub broadcast proof fn lemma_concat2(v: Seq<Seq<char>>)
    ensures v.len() == 2 ==> #[trigger] concat_str(v) == v[0] + v[1],
{
    if v.len() == 2 {
        assert(v.drop_last().drop_last() =~= Seq::empty());
        assert(concat_str(v.drop_last().drop_last()) =~= Seq::empty());
        assert(concat_str(v.drop_last()) =~= v[0]);
    }
}
pub proof fn lemma_blen_cr(d: Seq<char>)
    ensures blen(d.push('\r')) == blen(d) + 1,
{
    lemma_blen_add(d, seq!['\r']);
    assert(d.push('\r') =~= d + seq!['\r']);
    assert(seq!['\r'].drop_first() =~= Seq::empty());
    reveal_with_fuel(blen, 2);
}
pub proof fn lemma_blen_skip(w: Seq<char>, k: int)
    ensures 0 <= k <= w.len() ==> blen(w.skip(k)) <= blen(w),
{
    if 0 <= k <= w.len() {
        lemma_blen_add(w.take(k), w.skip(k));
        assert(w =~= w.take(k) + w.skip(k));
    }
}
pub proof fn lemma_leading(w: Seq<char>, c: char)
    ensures leading(w, c) <= w.len(),
    decreases w.len(),
{
    if w.len() > 0 && w[0] == c { lemma_leading(w.drop_first(), c); }
}
/// The tabs at the start of a line are left out.
pub open spec fn adv_tabs(p: SourcePos, n: usize) -> SourcePos {
    SourcePos { byte: (p.byte + n) as usize, line: p.line, col: (p.col + n) as usize }
}
pub open spec fn no_tabs(s: St) -> (Seq<(Token, SourcePos)>, St) {
    match head(s) {
        Some(Token::Whitespace(w)) => {
            let r = w@.skip(leading(w@, '\t') as int);
            if r.len() == 0 { (Seq::empty(), after(s)) }
            else { (seq![(Token::Whitespace(mk_string(r)), adv_tabs(s.pos, (blen(w@) - blen(r)) as usize))], after(s)) }
        }
        _ => (Seq::empty(), s),
    }
}
/// A line of the body, without its newline.
pub open spec fn here_line(s: St, tabs: bool) -> (Seq<(Token, SourcePos)>, St) {
    let a = if tabs { no_tabs(s) } else { (Seq::empty(), s) };
    let b = to_newline(a.1);
    (a.0 + b.0, b.1)
}
/// The line is the delimiter (a carriage return at its end does not matter).
pub open spec fn is_end(l: Seq<Token>, delim: Seq<char>) -> bool {
    cat(l) == delim || cat(l) == delim.push('\r')
}
/// The line with its newline, if it has one.
pub open spec fn full_line(l: (Seq<(Token, SourcePos)>, St)) -> Seq<(Token, SourcePos)> {
    match head(l.1) { Some(t) => l.0 + seq![(t, l.1.pos)], None => l.0 }
}
/// The lines up to the delimiter, which is consumed, or to the end of the input.
pub open spec fn here_body(s: St, tabs: bool, delim: Seq<char>) -> (Seq<(Token, SourcePos)>, St)
    decreases ntoks(s.items),
{
    let l = here_line(s, tabs);
    if l.0.len() == 0 && head(l.1) is None { (Seq::empty(), l.1) }
    else if is_end(fst(l.0), delim) { (Seq::empty(), after(l.1)) }
    else if ntoks(after(l.1).items) < ntoks(s.items) {
        let m = here_body(after(l.1), tabs, delim);
        (full_line(l) + m.0, m.1)
    } else { arbitrary() }
}
pub proof fn lemma_here_line(s: St, tabs: bool)
    ensures
        ({
            let l = here_line(s, tabs);
            &&& l.0.len() + ntoks(l.1.items) <= ntoks(s.items)
            &&& (s.wf() ==> l.1.wf() && after(l.1).wf())
            &&& (head(l.1) is None || head(l.1) == Some(Token::Newline))
            &&& full_line(l).len() + ntoks(after(l.1).items) <= ntoks(s.items)
            &&& (l.0.len() == 0 && head(l.1) is None) || ntoks(after(l.1).items) < ntoks(s.items)
        }),
{
    lemma_head_dec(s);
    lemma_head_dec(after(s));
    let a = if tabs { no_tabs(s) } else { (Seq::empty(), s) };
    lemma_to_newline(a.1);
    lemma_head_dec(to_newline(a.1).1);
    if s.wf() { lemma_after(to_newline(a.1).1); }
}
pub proof fn lemma_here_body(s: St, tabs: bool, delim: Seq<char>)
    ensures
        here_body(s, tabs, delim).0.len() + ntoks(here_body(s, tabs, delim).1.items) <= ntoks(s.items),
        s.wf() ==> here_body(s, tabs, delim).1.wf(),
    decreases ntoks(s.items),
{
    lemma_here_line(s, tabs);
    let l = here_line(s, tabs);
    lemma_head_dec(l.1);
    if !(l.0.len() == 0 && head(l.1) is None) && !is_end(fst(l.0), delim) { lemma_here_body(after(l.1), tabs, delim); }
}
/// What is in front of the rest of the line.
pub proof fn lemma_stripped(s: St, tabs: bool)
    ensures
        ({
            let a = if tabs { no_tabs(s) } else { (Seq::empty(), s) };
            let l = here_line(s, tabs);
            &&& fst(l.0) == fst(a.0) + fst(to_newline(a.1).0)
            &&& inter(l.0) == inter(a.0) + inter(to_newline(a.1).0)
            &&& l.1 == to_newline(a.1).1
            &&& a.0.len() == 0 ==> fst(a.0) == Seq::<Token>::empty() && inter(a.0) == Seq::<TokenOrPos>::empty()
            &&& a.0.len() == 1 ==> fst(a.0) == seq![a.0[0].0] && inter(a.0) == seq![TokenOrPos::Pos(a.0[0].1), TokenOrPos::Tok(a.0[0].0)]
            &&& a.0.len() <= 1
        }),
{
    let a = if tabs { no_tabs(s) } else { (Seq::empty(), s) };
    lemma_map_fst(a.0, to_newline(a.1).0);
    lemma_inter_add(a.0, to_newline(a.1).0);
    assert(inter(Seq::<(Token, SourcePos)>::empty()) =~= Seq::empty());
    if a.0.len() == 1 {
        lemma_inter_one(a.0[0].0, a.0[0].1, Seq::empty());
        assert(a.0 =~= seq![a.0[0]]);
        assert(a.0 =~= a.0 + Seq::empty());
        assert(fst(a.0) =~= seq![a.0[0].0]);
        assert(inter(a.0) =~= seq![TokenOrPos::Pos(a.0[0].1), TokenOrPos::Tok(a.0[0].0)]);
    } else {
        assert(a.0 =~= Seq::empty());
        assert(fst(a.0) =~= Seq::empty());
    }
}
/// The line so far, and its next token.
pub proof fn lemma_line_step(k: Seq<Token>, q: Seq<TokenOrPos>, s: St, l: (Seq<(Token, SourcePos)>, St))
    requires
        k + fst(to_newline(s).0) == fst(l.0),
        q + inter(to_newline(s).0) == inter(l.0),
        to_newline(s).1 == l.1,
    ensures
        ({
            let t = head(s)->0;
            let n = to_newline(after(s));
            if head(s) is None || t is Newline {
                &&& k == fst(l.0) && q == inter(l.0) && s == l.1
                &&& k.len() == l.0.len()
                &&& head(s) is None ==> k == fst(full_line(l)) && q == inter(full_line(l))
                &&& head(s) is Some ==> k.push(t) == fst(full_line(l)) && q.push(TokenOrPos::Pos(s.pos)).push(TokenOrPos::Tok(t)) == inter(full_line(l))
            } else {
                &&& k.push(t) + fst(n.0) == fst(l.0)
                &&& q.push(TokenOrPos::Pos(s.pos)).push(TokenOrPos::Tok(t)) + inter(n.0) == inter(l.0)
                &&& n.1 == l.1
            }
        }),
        ntoks(to_newline(s).1.items) <= ntoks(s.items),
        head(s) is Some ==> ntoks(after(s).items) < ntoks(s.items),
{
    lemma_head_dec(s);
    lemma_to_newline(s);
    assert(inter(Seq::<(Token, SourcePos)>::empty()) =~= Seq::empty());
    if head(s) is Some {
        let t = head(s)->0;
        if t is Newline {
            lemma_map_fst(l.0, seq![(t, l.1.pos)]);
            lemma_inter_add(l.0, seq![(t, l.1.pos)]);
            lemma_inter_one(t, l.1.pos, Seq::empty());
            lemma_fst_one(t, l.1.pos, Seq::empty());
            assert(seq![(t, l.1.pos)] + Seq::<(Token, SourcePos)>::empty() =~= seq![(t, l.1.pos)]);
            assert(seq![t] + fst(Seq::<(Token, SourcePos)>::empty()) =~= seq![t]);
            assert(k =~= fst(l.0));
            assert(q =~= inter(l.0));
            assert(k.push(t) =~= fst(l.0) + seq![t]);
            assert(q.push(TokenOrPos::Pos(s.pos)).push(TokenOrPos::Tok(t)) =~= inter(l.0) + seq![TokenOrPos::Pos(s.pos), TokenOrPos::Tok(t)]);
        } else {
            let n = to_newline(after(s));
            lemma_fst_one(t, s.pos, n.0);
            lemma_inter_one(t, s.pos, n.0);
            assert(k.push(t) + fst(n.0) =~= k + (seq![t] + fst(n.0)));
            assert(q.push(TokenOrPos::Pos(s.pos)).push(TokenOrPos::Tok(t)) + inter(n.0)
                =~= q + (seq![TokenOrPos::Pos(s.pos), TokenOrPos::Tok(t)] + inter(n.0)));
        }
    } else {
        assert(k =~= fst(l.0));
        assert(q =~= inter(l.0));
    }
}
/// The captured lines, one after another.
pub open spec fn flat_t(h: Seq<(Vec<Token>, Vec<TokenOrPos>)>) -> Seq<Token>
    decreases h.len(),
{
    if h.len() == 0 { Seq::empty() } else { h[0].0@ + flat_t(h.drop_first()) }
}
pub open spec fn flat_p(h: Seq<(Vec<Token>, Vec<TokenOrPos>)>) -> Seq<TokenOrPos>
    decreases h.len(),
{
    if h.len() == 0 { Seq::empty() } else { h[0].1@ + flat_p(h.drop_first()) }
}
pub proof fn lemma_flat_push(h: Seq<(Vec<Token>, Vec<TokenOrPos>)>, x: (Vec<Token>, Vec<TokenOrPos>))
    ensures
        flat_t(h.push(x)) == flat_t(h) + x.0@,
        flat_p(h.push(x)) == flat_p(h) + x.1@,
    decreases h.len(),
{
    if h.len() == 0 {
        assert(h.push(x).drop_first() =~= Seq::empty());
        assert(flat_t(h.push(x).drop_first()) =~= Seq::empty());
        assert(flat_p(h.push(x).drop_first()) =~= Seq::empty());
        assert(flat_t(h) =~= Seq::empty());
        assert(flat_p(h) =~= Seq::empty());
        assert(flat_t(h.push(x)) =~= flat_t(h) + x.0@);
        assert(flat_p(h.push(x)) =~= flat_p(h) + x.1@);
    } else {
        assert(h.push(x).drop_first() =~= h.drop_first().push(x));
        lemma_flat_push(h.drop_first(), x);
        assert(flat_t(h.push(x)) =~= flat_t(h) + x.0@);
        assert(flat_p(h.push(x)) =~= flat_p(h) + x.1@);
    }
}
}
pub use hd::*;
use crate::parse::iter::{fst, strip, lemma_bal_run, lemma_bal_run_some, lemma_map_fst, lemma_head_dec, inter, lemma_inter_add, lemma_inter_one, lemma_inter_toks, put_back, lemma_put_back, own, BRun};

@fn parse::Parser::redirect_heredoc
attr #[verifier::rlimit(100)]
@proof before:loop1
let ghost s1 = self.st0();
let ghost bld = self.builder;
let ghost dl = delim_toks(s1);
proof { lemma_delim_toks(s1); }
@loop 1
isolate
invariant
  - self.st0().wf()
  [C14] self.builder.failure() is None
  - ntoks(self.st0().items) < ntoks((*old(self)).st0().items)
  - self.builder == bld
  - ntoks(self.st0().items) <= ntoks(s1.items)
invariant_except_break
  - delim_tokens@ + delim_toks(self.st0()).0 == dl.0
  - delim_toks(self.st0()).1 == dl.1
  - delim_toks(self.st0()).2 == dl.2
ensures
  - delim_tokens@ == dl.0
  - dl.1 is None
  - self.st0() == dl.2
decreases ntoks(self.st0().items)
@proof loop1.start
let ghost s2 = self.st0();
let ghost d2 = delim_tokens@;
let ghost n2 = bal_run(bal_init(s2, None));
proof { lemma_bal_run(bal_init(s2, None)); lemma_bal_run_some(s2); assert(d2 + Seq::<Token>::empty() =~= d2); }
@proof before:loop2
let ghost fin2 = __vx_it1.iter.fin();
@loop 2
invariant
  - __vx_it1.iter.st().wf()
  - __vx_it1.iter.fin() == fin2
  - delim_tokens@ + fst(bal_run(__vx_it1.bst()).toks) == d2 + fst(n2.toks)
  - bal_run(__vx_it1.bst()).err == n2.err
  - bal_run(__vx_it1.bst()).end == n2.end
ensures bal_run(__vx_it1.bst()) == (BRun { toks: Seq::empty(), err: None, end: __vx_it1.bst() })
decreases bal_measure(__vx_it1.bst()), (if __vx_it1.bst().done && __vx_it1.bst().esc is None { 0nat } else { 1nat })
@proof loop2.start
let ghost b2 = __vx_it1.bst();
let ghost a2 = delim_tokens@;
proof { lemma_bal_step(b2); lemma_bal_run(b2); lemma_bal_run(bal_step(b2).1); }
@proof loop2.end
proof {
    let t = delim_tokens@.last();
    let r = bal_run(__vx_it1.bst()).toks;
    lemma_fst_one(t, b2.pos, r);
    assert(delim_tokens@ + fst(r) =~= a2 + (seq![t] + fst(r)));
}
@proof loop1.end
proof {
    assert(fst(Seq::<(Token, SourcePos)>::empty()) =~= Seq::empty());
    assert(delim_tokens@ =~= d2 + fst(n2.toks));
    assert((d2 + fst(n2.toks)) + delim_toks(self.st0()).0 =~= d2 + (fst(n2.toks) + delim_toks(self.st0()).0));
}

@proof before:loop3
let ghost i3 = iter.st0();
let ghost dt = delim_text(i3);
proof { lemma_tok_items_wf(dl.0); }
@loop 3
isolate
invariant
  - self.st0().wf()
  [C14] self.builder.failure() is None
  - ntoks(self.st0().items) < ntoks((*old(self)).st0().items)
  - iter.st0().wf()
invariant_except_break
  - delim@ + delim_text(iter.st0()).0 == dt.0
  - (quoted || delim_text(iter.st0()).1) == dt.1
  - delim_text(iter.st0()).2 == dt.2
ensures
  - delim@ == dt.0
  - quoted == dt.1
  - dt.2 is None
decreases ntoks(iter.st0().items)
@proof loop3.start
let ghost s3 = iter.st0();
let ghost a3 = delim@;
let ghost c3 = delim_chunk(s3);
proof {
    lemma_delim_step(a3, s3); lemma_head_dec(s3); lemma_head_dec(after(s3));
    lemma_bal_run(bal_init(after(s3), Some((Token::SingleQuote, s3.pos))));
    lemma_bal_run(bal_init(after(s3), Some((Token::DoubleQuote, s3.pos))));
    lemma_bal_run(bal_init(after(s3), Some((Token::Backtick, s3.pos))));
}
@proof loop3.end
proof { assert(delim@ =~= a3 + c3.0); }
@proof before:loop4
let ghost fin4 = __vx_it2.iter.fin();
let ghost n4 = bal_run(__vx_it2.bst());
@loop 4
isolate
invariant
  - self.st0().wf()
  [C14] self.builder.failure() is None
  - ntoks(self.st0().items) < ntoks((*old(self)).st0().items)
  - __vx_it2.iter.st().wf()
  - __vx_it2.iter.fin() == fin4
  - delim@ + cat(fst(bal_run(__vx_it2.bst()).toks)) == a3 + cat(fst(n4.toks))
  - bal_run(__vx_it2.bst()).err == n4.err
  - bal_run(__vx_it2.bst()).end == n4.end
ensures bal_run(__vx_it2.bst()) == (BRun { toks: Seq::empty(), err: None, end: __vx_it2.bst() })
decreases bal_measure(__vx_it2.bst()), (if __vx_it2.bst().done && __vx_it2.bst().esc is None { 0nat } else { 1nat })
@proof loop4.start
let ghost b4 = __vx_it2.bst();
let ghost d4 = delim@;
proof {
    lemma_bal_step(b4); lemma_bal_run(b4);
    if let Some(Ok(t)) = bal_step(b4).0 { lemma_fst_one(t, b4.pos, bal_run(bal_step(b4).1).toks); }
}
@proof loop4.end
proof {
    let t = bal_step(b4).0->0->Ok_0;
    let r = bal_run(__vx_it2.bst()).toks;
    assert((d4 + tstr(t)) + cat(fst(r)) =~= d4 + (tstr(t) + cat(fst(r))));
}
@proof after:loop4
proof {
    assert(fst(Seq::<(Token, SourcePos)>::empty()) =~= Seq::empty());
    assert(delim@ =~= a3 + cat(fst(n4.toks)));
}
@proof before:loop5
let ghost fin5 = iter.iter.fin();
let ghost n5 = bal_run(iter.bst());
@loop 5
isolate
invariant
  - self.st0().wf()
  [C14] self.builder.failure() is None
  - ntoks(self.st0().items) < ntoks((*old(self)).st0().items)
  - iter.iter.st().wf()
  - iter.iter.fin() == fin5
  - delim@ + dq_text(fst(bal_run(iter.bst()).toks)) == a3 + dq_text(fst(n5.toks))
  - bal_run(iter.bst()).err == n5.err
  - bal_run(iter.bst()).end == n5.end
ensures bal_run(iter.bst()) == (BRun { toks: Seq::empty(), err: None, end: iter.bst() })
decreases bal_measure(iter.bst()), (if iter.bst().done && iter.bst().esc is None { 0nat } else { 1nat })
@proof loop5.start
let ghost b5 = iter.bst();
let ghost d5 = delim@;
proof { lemma_bal_step(b5); lemma_bal_step(bal_step(b5).1); lemma_dq_loop(d5, b5); lemma_bal_run(b5); }
@proof after:loop5
proof {
    assert(fst(Seq::<(Token, SourcePos)>::empty()) =~= Seq::empty());
    assert(delim@ =~= a3 + dq_text(fst(n5.toks)));
}
@proof before:loop6
let ghost fin6 = __vx_it3.iter.iter.fin();
let ghost n6 = bal_run(__vx_it3.iter.bst());
let ghost r6 = __vx_it3.rest();
let ghost e6 = delim@;
@loop 6
isolate
invariant
  - self.st0().wf()
  [C14] self.builder.failure() is None
  - ntoks(self.st0().items) < ntoks((*old(self)).st0().items)
  - __vx_it3.iter.iter.st().wf()
  - __vx_it3.iter.iter.fin() == fin6
  - __vx_it3.done ==> __vx_it3.peeked is None && bal_run(__vx_it3.iter.bst()) == (BRun { toks: Seq::empty(), err: None, end: __vx_it3.iter.bst() })
  - delim@ + cat(__vx_it3.rest().0) == e6 + cat(r6.0)
  - __vx_it3.rest().1 == r6.1
  - r6.1 is None ==> bal_run(__vx_it3.iter.bst()).end == n6.end
ensures
  - bal_run(__vx_it3.iter.bst()) == (BRun { toks: Seq::empty(), err: None, end: __vx_it3.iter.bst() })
  - __vx_it3.rest().0.len() == 0
  - r6.1 is None
decreases __vx_it3.rest().0.len()
@proof loop6.start
let ghost q6 = __vx_it3.rest();
let ghost d6 = delim@;
proof {
    if q6.0.len() > 0 {
        assert(q6.0 =~= seq![q6.0[0]] + q6.0.drop_first());
        lemma_cat_add(seq![q6.0[0]], q6.0.drop_first());
        lemma_cat_one(q6.0[0]);
    }
}
@proof loop6.end
proof {
    assert((d6 + tstr(q6.0[0])) + cat(q6.0.drop_first()) =~= d6 + (tstr(q6.0[0]) + cat(q6.0.drop_first())));
}
@proof after:loop6
proof {
    assert(cat(__vx_it3.rest().0) =~= Seq::empty());
    assert(delim@ =~= a3 + (tstr(Token::Backtick) + cat(fst(strip(n6.toks)))));
}

@proof before:loop7
let ghost s7 = self.st0();
let ghost rl = rest_line(s7, true);
proof { lemma_rest_line(s7, true); assert(saved_tokens@ + inter(rl.0) =~= inter(rl.0)); }
@loop 7
isolate
invariant
  - self.st0().wf()
  [C14] self.builder.failure() is None
  - ntoks(self.st0().items) < ntoks((*old(self)).st0().items)
  - self.builder == bld
invariant_except_break
  - saved_tokens@ + inter(rest_line(self.st0(), at_word_start).0) == inter(rl.0)
  - rest_line(self.st0(), at_word_start).1 == rl.1
  - rest_line(self.st0(), at_word_start).2 == rl.2
ensures
  - saved_tokens@ == inter(rl.0)
  - rl.1 is None
  - self.st0() == rl.2
decreases ntoks(self.st0().items)
@proof loop7.start
let ghost t7 = self.st0();
let ghost w7 = at_word_start;
let ghost v7 = saved_tokens@;
proof {
    lemma_to_newline(t7);
    assert(inter(Seq::<(Token, SourcePos)>::empty()) =~= Seq::empty());
    assert(v7 + Seq::<TokenOrPos>::empty() =~= v7);
    let c = to_newline(t7);
    lemma_head_dec(c.1);
    if head(c.1) is Some {
        lemma_inter_add(c.0, seq![(head(c.1)->0, c.1.pos)]);
        lemma_inter_one(head(c.1)->0, c.1.pos, Seq::empty());
        assert(v7 + (inter(c.0) + seq![TokenOrPos::Pos(c.1.pos), TokenOrPos::Tok(head(c.1)->0)])
            =~= (v7 + inter(c.0)).push(TokenOrPos::Pos(c.1.pos)).push(TokenOrPos::Tok(head(c.1)->0)));
    }
    let n = bal_run(bal_init(t7, None));
    lemma_bal_run(bal_init(t7, None)); lemma_bal_run_some(t7);
    lemma_inter_add(n.toks, rest_line(n.end.st, is_delim(head(t7)->0) && n.toks.len() == 1).0);
}
@loop 8
invariant
  - self.st0().wf()
  - self.builder == bld
  - ntoks(self.st0().items) <= ntoks(t7.items)
  - saved_tokens@ + inter(to_newline(self.st0()).0) == v7 + inter(to_newline(t7).0)
  - to_newline(self.st0()).1 == to_newline(t7).1
ensures
  - saved_tokens@ == v7 + inter(to_newline(t7).0)
  - self.st0() == to_newline(t7).1
decreases ntoks(self.st0().items)
@proof loop8.start
let ghost t8 = self.st0();
let ghost v8 = saved_tokens@;
proof {
    lemma_peek(t8);
    if head(t8) is Some {
        lemma_inter_one(head(t8)->0, t8.pos, to_newline(after(t8)).0);
        let r = inter(to_newline(after(t8)).0);
        assert(v8 + (seq![TokenOrPos::Pos(t8.pos), TokenOrPos::Tok(head(t8)->0)] + r)
            =~= v8.push(TokenOrPos::Pos(t8.pos)).push(TokenOrPos::Tok(head(t8)->0)) + r);
    }
    assert(inter(Seq::<(Token, SourcePos)>::empty()) =~= Seq::empty());
    assert(v8 + Seq::<TokenOrPos>::empty() =~= v8);
}
@proof before:loop9
let ghost fin9 = chunk.iter.fin();
let ghost c9 = chunk.bst();
let ghost n9 = bal_run(chunk.bst());
let ghost v9 = saved_tokens@;
proof { lemma_bal_run(c9); }
@loop 9
invariant
  - chunk.iter.st().wf()
  - chunk.iter.fin() == fin9
  - saved_tokens@ + inter(bal_run(chunk.bst()).toks) == v9 + inter(n9.toks)
  - bal_run(chunk.bst()).err == n9.err
  - bal_run(chunk.bst()).end == n9.end
  - chunk_len + bal_run(chunk.bst()).toks.len() == n9.toks.len()
  - saved_tokens@.len() == v9.len() + 2 * chunk_len
ensures bal_run(chunk.bst()) == (BRun { toks: Seq::empty(), err: None, end: chunk.bst() })
decreases bal_measure(chunk.bst()), (if chunk.bst().done && chunk.bst().esc is None { 0nat } else { 1nat })
@proof loop9.start
let ghost b9 = chunk.bst();
let ghost a9 = saved_tokens@;
proof {
    lemma_bal_step(b9); lemma_bal_run(b9);
    if let Some(Ok(t)) = bal_step(b9).0 {
        let r = bal_run(bal_step(b9).1).toks;
        lemma_inter_one(t, b9.pos, r);
        assert(a9 + (seq![TokenOrPos::Pos(b9.pos), TokenOrPos::Tok(t)] + inter(r))
            =~= a9.push(TokenOrPos::Pos(b9.pos)).push(TokenOrPos::Tok(t)) + inter(r));
    }
}
@proof after-call push#7
proof { axiom_vec_len(saved_tokens); }
@proof after:loop9
proof {
    assert(inter(Seq::<(Token, SourcePos)>::empty()) =~= Seq::empty());
    assert(saved_tokens@ =~= v9 + inter(n9.toks));
    let m = rest_line(n9.end.st, is_delim(head(t7)->0) && n9.toks.len() == 1);
    assert((v9 + inter(n9.toks)) + inter(m.0) =~= v9 + (inter(n9.toks) + inter(m.0)));
}
@proof after-let delim_r_len
broadcast use lemma_concat2;
proof {
    reveal_strlit("\r");
    lemma_blen_cr(delim@);
    assert(delim@ + seq!['\r'] =~= delim@.push('\r'));
    assert(delim_r@ =~= delim@.push('\r'));
}
@proof before:loop10
let ghost s10 = self.st0();
let ghost dm = delim@;
let ghost hb = here_body(s10, strip_tabs, dm);
proof {
    assert(flat_t(heredoc@) + fst(hb.0) =~= fst(hb.0));
    assert(flat_p(heredoc@) + inter(hb.0) =~= inter(hb.0));
}
@loop 10
isolate
invariant
  - self.st0().wf()
  [C14] self.builder.failure() is None
  - ntoks(self.st0().items) < ntoks((*old(self)).st0().items)
  - delim@ == dm
  - delim_len == blen(dm)
  - delim_r@ == dm.push('\r')
  - delim_r_len == blen(dm) + 1
  - self.builder == bld
invariant_except_break
  - flat_t(heredoc@) + fst(here_body(self.st0(), strip_tabs, dm).0) == fst(hb.0)
  - flat_p(heredoc@) + inter(here_body(self.st0(), strip_tabs, dm).0) == inter(hb.0)
  - here_body(self.st0(), strip_tabs, dm).1 == hb.1
ensures
  - flat_t(heredoc@) == fst(hb.0)
  - flat_p(heredoc@) == inter(hb.0)
  - self.st0() == hb.1
decreases ntoks(self.st0().items)
@proof loop10.start
let ghost t10 = self.st0();
let ghost l10 = here_line(t10, strip_tabs);
let ghost h10 = heredoc@;
proof {
    lemma_here_line(t10, strip_tabs);
    lemma_head_dec(l10.1);
    assert(fst(Seq::<(Token, SourcePos)>::empty()) =~= Seq::empty());
    assert(inter(Seq::<(Token, SourcePos)>::empty()) =~= Seq::empty());
    assert(flat_t(h10) + Seq::<Token>::empty() =~= flat_t(h10));
    assert(flat_p(h10) + Seq::<TokenOrPos>::empty() =~= flat_p(h10));
    let m = here_body(after(l10.1), strip_tabs, dm);
    lemma_map_fst(full_line(l10), m.0);
    lemma_inter_add(full_line(l10), m.0);
    assert(flat_t(h10) + (fst(full_line(l10)) + fst(m.0)) =~= (flat_t(h10) + fst(full_line(l10))) + fst(m.0));
    assert(flat_p(h10) + (inter(full_line(l10)) + inter(m.0)) =~= (flat_p(h10) + inter(full_line(l10))) + inter(m.0));
}
@loop 11
isolate
invariant
  - self.st0().wf()
  [C14] self.builder.failure() is None
  - ntoks(self.st0().items) < ntoks((*old(self)).st0().items)
  - l10 == here_line(t10, strip_tabs)
  - delim@ == dm
  - delim_len == blen(dm)
  - delim_r@ == dm.push('\r')
  - delim_r_len == blen(dm) + 1
  - self.builder == bld
  - ntoks(self.st0().items) <= ntoks(t10.items)
invariant_except_break
  - is_end(fst(l10.0), dm) || (l10.0.len() == 0 && head(l10.1) is None) ==> flat_t(heredoc@) == fst(hb.0) && flat_p(heredoc@) == inter(hb.0) && after(l10.1) == hb.1
  - line@.len() == 0 ==> self.st0() == t10 && line_with_pos@.len() == 0
  - line@.len() > 0 ==> line@ + fst(to_newline(self.st0()).0) == fst(l10.0) && line_with_pos@ + inter(to_newline(self.st0()).0) == inter(l10.0) && to_newline(self.st0()).1 == l10.1
ensures
  - line@ == fst(full_line(l10))
  - line_with_pos@ == inter(full_line(l10))
  - self.st0() == after(l10.1)
  - !(l10.0.len() == 0 && head(l10.1) is None)
  - !is_end(fst(l10.0), dm)
decreases ntoks(self.st0().items)
@proof loop11.start
let ghost t11 = self.st0();
let ghost l11 = line@;
let ghost p11 = line_with_pos@;
proof {
    lemma_head_dec(t11);
    if let Some(Token::Whitespace(w)) = head(t11) {
        lemma_leading(w@, '\t');
        lemma_blen_skip(w@, leading(w@, '\t') as int);
    }
}
@proof before-let next
let ghost s11 = self.st0();
proof {
    lemma_stripped(t10, strip_tabs);
    if l11.len() == 0 {
        let a = if strip_tabs { no_tabs(t10) } else { (Seq::empty(), t10) };
        assert(line@ =~= fst(a.0));
        assert(line_with_pos@ =~= inter(a.0));
    }
    lemma_line_step(line@, line_with_pos@, s11, l10);
}
@proof before:loop12
proof { lemma_blen_cr(dm); }
@loop 12
isolate
invariant_except_break
  - line_len + blen(cat(__vx_it4.rest())) == blen(cat(line@))
ensures line_len == blen(cat(line@)) || (line_len > delim_r_len && line_len <= blen(cat(line@)))
decreases __vx_it4.rest().len()
@proof loop12.start
let ghost r12 = __vx_it4.rest();
let ghost g12: usize = line_len;
proof {
    if r12.len() > 0 {
        assert(r12 =~= seq![r12[0]] + r12.drop_first());
        lemma_cat_add(seq![r12[0]], r12.drop_first());
        lemma_cat_one(r12[0]);
        lemma_blen_add(tstr(r12[0]), cat(r12.drop_first()));
        ### machine arithmetic: the length of a text is assumed not to exceed usize::MAX
        assume(g12 + blen(tstr(r12[0])) <= usize::MAX);
    }
}
@proof loop10.end
proof {
    lemma_flat_push(h10, heredoc@.last());
    assert(heredoc@ =~= h10.push(heredoc@.last()));
}
@loop 13
isolate
invariant
  - __vx_acc@ + flat_t(__vx_it5.rest()) == fst(hb.0)
ensures __vx_it5.rest().len() == 0
decreases __vx_it5.rest().len()
@proof loop13.start
let ghost a13 = __vx_acc@;
let ghost r13 = __vx_it5.rest();
proof { if r13.len() > 0 { assert((a13 + r13[0].0@) + flat_t(r13.drop_first()) =~= a13 + (r13[0].0@ + flat_t(r13.drop_first()))); } }
@loop 14
isolate
invariant
  - __vx_acc@ + flat_p(__vx_it6.rest()) == inter(hb.0)
ensures __vx_it6.rest().len() == 0
decreases __vx_it6.rest().len()
@proof loop14.start
let ghost a14 = __vx_acc@;
let ghost r14 = __vx_it6.rest();
proof { if r14.len() > 0 { assert((a14 + r14[0].1@) + flat_p(r14.drop_first()) =~= a14 + (r14[0].1@ + flat_p(r14.drop_first()))); } }
@proof after-call buffer_tokens_to_yield_first#1
proof { lemma_put_back(rl.0, s7.pos, hb.1); lemma_here_body(s10, strip_tabs, dm); }
@proof after-call buffer_tokens_to_yield_first#2
proof { lemma_put_back(hb.0, s10.pos, St { items: Seq::empty(), pos: s10.pos }); }
@loop 15
invariant true
decreases __vx_it7.rest().len()
