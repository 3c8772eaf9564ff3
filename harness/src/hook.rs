// Included in both modules when the token stream module is reachable.
use super::*;
use cp::parse::iter::*;

/// Token streams are read, peeked, rewound and re-read by a random sequence of operations; the
/// result is what was observed. `model` is the direct reference.
pub fn stream_ops(i: &Input, seed: u64) -> Vec<String> {
    let o = Rc::new(Obs::default());
    let mut it = TokenIter::new(src(i, &o));
    let mut r = crate::Rng(seed);
    let mut out = Vec::new();
    for _ in 0..24 {
        match r.below(8) {
            0 | 1 => out.push(format!("next {:?} pos {:?}", it.next(), pos3(it.pos()))),
            2 => { let t = format!("{:?}", it.peek()); out.push(format!("peek {} pos {:?}", t, pos3(it.pos()))); }
            3 | 4 => {
                let n = r.below(5);
                let mut v = Vec::new();
                { let mut mp = it.multipeek(); for _ in 0..n { v.push(format!("{:?}", mp.peek_next())); } }
                out.push(format!("multipeek {:?} pos {:?}", v, pos3(it.pos())));
            }
            5 => {
                // read some tokens with their positions and push them back
                let p0 = it.pos();
                let n = r.below(4);
                let mut v = Vec::new();
                for _ in 0..n {
                    let p = it.pos();
                    match it.next() { Some(t) => { v.push(TokenOrPos::Pos(p)); v.push(TokenOrPos::Tok(t)); } None => break }
                }
                it.buffer_tokens_to_yield_first(v, p0);
                out.push(format!("rebuffer pos {:?}", pos3(it.pos())));
            }
            6 => {
                let n = 1 + r.below(2);
                let v = (0..n).map(|k| TokenOrPos::Tok(if k == 0 { Token::Name("foo".into()) } else { Token::Newline })).collect();
                let p = SourcePos { byte: 100 + r.below(9), line: 7, col: 3 };
                it.buffer_tokens_to_yield_first(v, p);
                out.push(format!("buffer {} at {:?} pos {:?}", n, pos3(p), pos3(it.pos())));
            }
            _ => out.push(format!("pos {:?}", pos3(it.pos()))),
        }
    }
    loop {
        let p = pos3(it.pos());
        match it.next() { Some(t) => out.push(format!("{:?} at {:?}", t, p)), None => { out.push(format!("end at {:?}", p)); break; } }
    }
    out
}
/// The same operations on a list.
pub fn stream_model(i: &Input, seed: u64) -> Vec<String> {
    fn adv(p: [usize; 3], t: &Token) -> [usize; 3] {
        let s = t.to_string();
        let n = s.matches('\n').count();
        [p[0] + s.len(), p[1] + n, if n == 0 { p[2] + s.len() } else { 1 }]
    }
    let o = Rc::new(Obs::default());
    // every token with the position to assume before it, if any
    let mut l: std::collections::VecDeque<(Option<[usize; 3]>, Token)> = src(i, &o).map(|t| (None, t)).collect();
    let mut endpos: Option<[usize; 3]> = None;
    let mut pos = [0usize, 1, 1];
    let mut r = crate::Rng(seed);
    let mut out = Vec::new();
    macro_rules! settle { () => {{
        if let Some(f) = l.front_mut() { if let Some(p) = f.0.take() { pos = p; } }
        else if let Some(p) = endpos.take() { pos = p; }
    }} }
    for _ in 0..24 {
        match r.below(8) {
            0 | 1 => {
                let t = l.pop_front().map(|x| x.1);
                if let Some(t) = &t { pos = adv(pos, t); settle!(); }
                out.push(format!("next {:?} pos {:?}", t, pos));
            }
            2 => out.push(format!("peek {:?} pos {:?}", l.front().map(|x| &x.1), pos)),
            3 | 4 => {
                let n = r.below(5);
                let v: Vec<String> = (0..n).map(|k| format!("{:?}", l.get(k).map(|x| &x.1))).collect();
                out.push(format!("multipeek {:?} pos {:?}", v, pos));
            }
            5 => {
                let _ = r.below(4);
                out.push(format!("rebuffer pos {:?}", pos));
            }
            6 => {
                let n = 1 + r.below(2);
                let p = [100 + r.below(9), 7, 3];
                {
                    if let Some(f) = l.front_mut() { if f.0.is_none() { f.0 = Some(pos); } } else { endpos = Some(pos); }
                    if n == 2 { l.push_front((None, Token::Newline)); }
                    l.push_front((None, Token::Name("foo".into())));
                    pos = p;
                }
                out.push(format!("buffer {} at {:?} pos {:?}", n, p, pos));
            }
            _ => out.push(format!("pos {:?}", pos)),
        }
    }
    loop {
        let p = pos;
        match l.pop_front() {
            Some((_, t)) => { pos = adv(pos, &t); settle!(); out.push(format!("{:?} at {:?}", t, p)) }
            None => { out.push(format!("end at {:?}", p)); break; }
        }
    }
    out
}

/// A balanced region: kind 0 any, 1 single quoted, 2 double quoted, 3 backticked; `skip` tokens are read first.
pub fn balanced(i: &Input, kind: usize, skip: usize) -> Vec<String> {
    let o = Rc::new(Obs::default());
    let mut it = TokenIter::new(src(i, &o));
    for _ in 0..skip { it.next(); }
    let start = it.pos();
    let mut out = Vec::new();
    {
        let mut b = match kind {
            0 => it.balanced(),
            1 => it.single_quoted(start),
            2 => it.double_quoted(start),
            _ => it.backticked(start),
        };
        loop {
            let p = pos3(b.pos());
            match b.next() {
                Some(Ok(t)) => out.push(format!("{:?} at {:?}", t, p)),
                Some(Err(e)) => { out.push(format!("{:?}", e)); break; }
                None => { out.push("end".into()); break; }
            }
        }
        if let Some(x) = b.next() { out.push(format!("after the end {:?}", x)); }
    }
    rest(it, &mut out);
    out
}
fn rest<I: Iterator<Item = Token>>(mut it: TokenIter<I>, out: &mut Vec<String>) {
    loop {
        let p = pos3(it.pos());
        match it.next() { Some(t) => out.push(format!("rest {:?} at {:?}", t, p)), None => { out.push(format!("rest end at {:?}", p)); break; } }
    }
}
/// What is between backticks, read in both ways.
pub fn backticks(i: &Input) -> (Vec<String>, Vec<String>, Vec<String>) {
    let o = Rc::new(Obs::default());
    let (mut a, mut b) = (Vec::new(), Vec::new());
    let (mut ra, mut rb) = (Vec::new(), Vec::new());
    {
        let mut it = TokenIter::new(src(i, &o));
        let start = it.pos();
        {
            let mut x = it.backticked_remove_backslashes(start);
            loop {
                match x.next() {
                    Some(Ok(t)) => a.push(format!("{:?}", t)),
                    Some(Err(e)) => { a.clear(); a.push(format!("{:?}", e)); break; }
                    None => break,
                }
            }
        }
        rest(it, &mut ra);
    }
    let mut poss = Vec::new();
    {
        let mut it = TokenIter::new(src(i, &o));
        let start = it.pos();
        match it.token_iter_from_backticked_with_removed_backslashes(start) {
            Ok(mut x) => loop {
                let p = pos3(x.pos());
                match x.next() { Some(t) => { poss.push(format!("{:?} at {:?}", t, p)); b.push(format!("{:?}", t)) } None => break }
            },
            Err(e) => b.push(format!("{:?}", e)),
        }
        rest(it, &mut rb);
    }
    a.extend(ra);
    b.extend(rb);
    (a, b, poss)
}
