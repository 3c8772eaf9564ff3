//! The tokens of a text, written from the statement of C02.
pub fn tokens(s: &str) -> Vec<String> {
    let cs: Vec<char> = s.chars().collect();
    let mut out = Vec::new();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == '\\' {
            out.push("Backslash".to_string());
            i += 1;
            if i < cs.len() { if cs[i] == '\\' { out.push("Backslash".into()); } else { out.push(one(&cs[i..i + 1]).0); } i += 1; }
        } else {
            let (t, n) = one(&cs[i..]);
            out.push(t);
            i += n;
        }
    }
    out.push("END".into());
    out
}
const OPS: &[(&str, &str)] = &[
    ("<<-", "DLessDash"), ("&&", "AndIf"), ("||", "OrIf"), (";;", "DSemi"), ("<<", "DLess"), (">>", "DGreat"), (">&", "GreatAnd"),
    ("<&", "LessAnd"), (">|", "Clobber"), ("<>", "LessGreat"),
    ("$0", "ParamPositional(Zero)"), ("$1", "ParamPositional(One)"), ("$2", "ParamPositional(Two)"), ("$3", "ParamPositional(Three)"),
    ("$4", "ParamPositional(Four)"), ("$5", "ParamPositional(Five)"), ("$6", "ParamPositional(Six)"), ("$7", "ParamPositional(Seven)"),
    ("$8", "ParamPositional(Eight)"), ("$9", "ParamPositional(Nine)"),
    ("\n", "Newline"), ("(", "ParenOpen"), (")", "ParenClose"), ("{", "CurlyOpen"), ("}", "CurlyClose"), ("[", "SquareOpen"),
    ("]", "SquareClose"), ("!", "Bang"), ("~", "Tilde"), ("#", "Pound"), ("*", "Star"), ("?", "Question"), ("%", "Percent"),
    ("-", "Dash"), ("=", "Equals"), ("+", "Plus"), (":", "Colon"), ("@", "At"), ("^", "Caret"), ("/", "Slash"), (",", "Comma"),
    ("'", "SingleQuote"), ("\"", "DoubleQuote"), ("`", "Backtick"), ("$", "Dollar"), (";", "Semi"), ("&", "Amp"), ("<", "Less"),
    (">", "Great"), ("|", "Pipe"),
];
fn op(s: &[char]) -> Option<(&'static str, usize)> {
    OPS.iter().find(|(t, _)| { let t: Vec<char> = t.chars().collect(); s.starts_with(&t) }).map(|(t, n)| (*n, t.chars().count()))
}
fn one(s: &[char]) -> (String, usize) {
    if let Some((t, n)) = op(s) { return (t.into(), n); }
    let blank = |c: &char| c.is_whitespace() && *c != '\n';
    let start = |c: &char| *c == '_' || c.is_alphabetic();
    let cont = |c: &char| start(c) || ('0'..='9').contains(c);
    let lit = |c: &char| !c.is_whitespace() && *c != '\\' && op(&[*c]).is_none();
    let run = |f: &dyn Fn(&char) -> bool| s.iter().take_while(|c| f(c)).count();
    let (kind, n) = if blank(&s[0]) { ("Whitespace", run(&blank)) } else if start(&s[0]) { ("Name", run(&cont)) } else { ("Literal", run(&lit)) };
    (format!("{}({:?})", kind, s[..n].iter().collect::<String>()), n)
}
