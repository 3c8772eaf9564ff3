//! Inputs: alphabets of source snippets per property (enumerated exhaustively up to a length, then
//! sampled), and random scripts.
use crate::Rng;

pub const CHARS: &[&str] = &[
    "a", "B", "_", "9", "0", "é", " ", "\t", "\n", "\r", "\u{a0}", "\\", "$", "<", ">", "&", "|", ";", "-", "(", ")", "{", "}", "[", "]",
    "!", "~", "#", "*", "?", "%", "=", "+", ":", "@", "^", "/", ",", "'", "\"", "`", ".", "\u{1f600}", "\u{663}", "\u{b2}", "\u{c}", "\u{2028}",
];
pub const ALL: &[&str] = &[
    "a", "foo", "9", "1.5", "é", " ", "\t", "\n", "\\", "$", "$1", "${", "}", "$(", ")", "$((", "))", "(", "{ ", "`", "'", "\"",
    "<", ">", ">>", ">|", "<&", ">&", "<>", "<<", "<<-", "&", "&&", "|", "||", ";", ";;", "!", "~", "#", "*", "?", "%", "=", "+", ":",
    "@", "-", "/", ",", "[", "]", "if ", "then ", "elif ", "else ", "fi", "while ", "until ", "do ", "done", "for ", "in ", "case ", "esac",
    "function ", "EOF\n", "\nEOF\n", "x=", "# c\n", "\\\n", "2>", "()", "\r\n", "x\u{663}", "\u{2028}",
];
pub fn alphabet(p: &str) -> &'static [&'static str] {
    match p {
        "C01" | "C02" | "C25" => CHARS,
        "C04" | "C03" => &["a", " ", "\n", "\\", "$1", "`", "<<E", "\nE\n", "\"", "'", ";", "$(", ")", "é\n", "9", ">"],
        "C05" => &["a", " ", "\\", "'", "\"", "`", "${", "$(", "(", ")", "{", "}", "$", "\n"],
        "C06" => &["a", " ", "\\", "\\\\", "$", "`", "'", "\"", "$1", "\n", ";"],
        "C10" => &["foo", "if", "done", "{", "!", " ", "\t", "\\\n", "\n", ";", "(", ")", "'", "\"", "$", "&", "|", "<", ">", "a", "\\", "=", "`", "9", "}", "#"],
        "C26" => &["a", "Z", "_", "0", "9", "é", "if", "done"],
        "C11" => &[" ", "\t", "\n", "\\", "#", "# c", "a", ";", "\r", "'", "\""],
        "C12" => &["1", "07", "0x1f", "x", "$y", " ", "+", "-", "*", "/", "%", "**", "++", "--", "<", ">", "<<", ">>", "<=", ">=", "==", "!=", "=", "&", "|", "^", "&&", "||", "!", "~", "?", ":", ",", "(", ")", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "|=", "^="],
        "C13" => &["a", " ", "\n", ";", "&", "&&", "|", "||", "! ", "# c\n", "!", "b"],
        "C15" => &["a", "b9", "\\", "'", "\"", "*", "?", "[", "]", "~", ":", "$x", "$", "$1", "`a`", "#", " ", "\n", "\\\n", "{", "}", "!", "=", "%", "-", "+", "@", "/", ",", "^", ";", "&", "|", "<", ">", "(", ")"],
        "C16" => &["<", ">", "\u{663}", ">>", ">|", "<&", ">&", "<>", "1", "65535", "65536", "-", "a", " ", "'2'", "\"3\"", "$x", "\\4", "\\\n", "\n", "`b`", "2a", ";", "x=", "*"],
        "C17" => &["cat", "<<", "<<-", "E", "\u{e9}", "\n\u{e9}\n", "'E'", "\"E\"", "\\E", " ", "\t", "\n", "\nE\n", "x", "$y", "\\", "\r\n", "`", ";", "\nE", "# c", "\n\t", "|", "&&", "F", "'"],
        "C22" => &["${", "}", "x", "1", "12", "@", "*", "#", "?", "-", "$", "!", ":", "=", "+", "%", "%%", "##", " ", "a", "\"", "\\", "'"],
        "C24" => &["a\n", "a;", "if ", "then ", "elif ", "else ", "fi\n", "fi", "while ", "until ", "do ", "done\n", "done", "for ", "in ", "x ", "case ", "esac", "(", ")", "|", ";;", "\n", "# c\n", "{ ", "}", "f", "()", "function ", " ", ">f ", ";"],
        _ => ALL,
    }
}

pub struct G<'a> {
    pub r: &'a mut Rng,
    /// Heredocs whose bodies are due at the next newline: (delimiter, strip tabs, quoted).
    pub due: Vec<(String, bool)>,
}
impl<'a> G<'a> {
    fn p(&mut self, n: usize) -> bool { self.r.below(100) < n }
    fn s(&mut self, v: &[&str]) -> String { self.r.pick(v).to_string() }
    /// A small number, now and then a larger one.
    fn n(&mut self, small: usize) -> usize { if self.p(4) { small + self.r.below(7) } else { self.r.below(small) } }
    fn num(&mut self) -> String {
        if self.p(70) { return self.s(&["1", "12", "0", "9"]); }
        self.s(&["10", "11", "99", "100", "255", "256", "300", "1000", "32768", "65535", "65536", "4294967295", "4294967296", "00", "01", "007"])
    }
    fn pname(&mut self) -> String {
        if self.p(60) { self.s(&["x", "1", "12", "@", "*", "#", "?", "-", "$", "!"]) } else if self.p(50) { self.num() } else { self.name() }
    }
    pub fn ws(&mut self) -> String { self.s(&[" ", " ", " ", "  ", "\t", " \\\n", "\\\n"]) }
    pub fn ows(&mut self) -> String { self.s(&["", "", "", " ", "\\\n", "\t"]) }
    pub fn nl(&mut self) -> String {
        let mut s = self.s(&["\n", "\n", "\n", " # c\n", " #\n", " # it's \"c\n"]);
        for (d, strip) in std::mem::take(&mut self.due) {
            for _ in 0..self.n(3) {
                let l = self.s(&["body", "$x y", "\tt", "a\\b", "`c`", " E", "'q\"", "", "E x", "$(d)"]);
                if l.trim_start_matches('\t') == d { continue; }
                s += &l;
                s += "\n";
            }
            if strip && self.p(50) { s += "\t"; }
            s += &d;
            s += if self.p(90) { "\n" } else { "\r\n" };
        }
        s
    }
    pub fn sep(&mut self) -> String { if self.p(50) { self.nl() } else { self.s(&[";", "; ", " ;", "&", " & "]) } }
    pub fn name(&mut self) -> String { if self.p(85) { return self.s(&["x", "foo", "_b", "V1"]); }
        self.s(&["a1", "na\u{ef}ve", "\u{e9}", "_", "__", "in", "if", "do", "A_VERY_LONG_NAME_0123456789_0123456789_0123456789_0123456789_0123456789"])
    }
    pub fn param(&mut self, d: usize) -> String {
        match self.r.below(if d == 0 { 3 } else { 6 }) {
            0 => format!("${}", self.name()),
            1 => self.s(&["$1", "$@", "$*", "$#", "$?", "$-", "$$", "$!", "$0", "$9"]),
            2 => format!("${{{}}}", self.pname()),
            3 => {
                let p = self.pname();
                let op = self.s(&["-", "=", "?", "+", ":-", ":=", ":?", ":+", "%", "%%", "#", "##"]);
                let w = if self.p(30) { String::new() } else { self.word(d - 1) };
                format!("${{{}{}{}}}", p, op, w)
            }
            4 => format!("${{#{}}}", self.pname()),
            _ => self.subst(d),
        }
    }
    pub fn subst(&mut self, d: usize) -> String {
        match self.r.below(3) {
            0 => { let due = std::mem::take(&mut self.due); let c = self.list(d - 1); let s = format!("$({})", c); self.due = due; s }
            1 => format!("$(({}))", self.arith(d)),
            _ => {
                let due = std::mem::take(&mut self.due);
                let c = self.list(d - 1);
                self.due = due;
                let mut e = String::new();
                for ch in c.chars() { if ch == '`' || (ch == '\\') { e.push('\\'); } e.push(ch); }
                format!("`{}`", e)
            }
        }
    }
    pub fn arith(&mut self, d: usize) -> String {
        let o = self.ows().replace("\\\n", " ");
        if d == 0 {
            if self.p(80) { return self.s(&["1", "x", "$x", "07", "0x1F", "42", "y"]); }
            return self.s(&["0", "00", "08", "09", "0x", "0X1f", "0xg", "2147483648", "9223372036854775807", "9223372036854775808", "0777", "1_0", "na\u{ef}ve", "$1", "${x}", "$@", "1a", "\u{663}"]);
        }
        match self.r.below(12) {
            0 => format!("({})", self.arith(d - 1)),
            1 => format!("{}{}", self.s(&["!", "~", "+", "-", "++", "--", "- ", "+ "]), self.arith(d - 1)),
            2 => format!("x{}{}", o, self.s(&["++", "--"])),
            3 => format!("{}?{}:{}", self.arith(d - 1), self.arith(d - 1), self.arith(d - 1)),
            4 => format!("y{}{}{}", o, self.s(&["=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "^=", "|="]), self.arith(d - 1)),
            5 => format!("{},{}", self.arith(d - 1), self.arith(d - 1)),
            _ => {
                let op = self.s(&["+", "-", "*", "/", "%", "**", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&", "|", "^", "&&", "||"]);
                format!("{}{}{}{}{}", self.arith(d - 1), o, op, o, self.arith(d - 1))
            }
        }
    }
    pub fn frag(&mut self, d: usize) -> String {
        match self.r.below(12) {
            0..=4 if self.p(95) => self.s(&["a", "foo", "9", "b-c", "x.y", "{", "}", "!", "@", "%", "="]),
            0..=4 => { let u = self.s(&["a", "9", "-", "\u{e9}", "\u{1f600}", "{", "=", "/", "\u{663}"]); let k = 2 + self.r.below(40); u.repeat(k) }
            5 => self.s(&["*", "?", "[", "]", "~", ":"]),
            6 => self.s(&["\\a", "\\$", "\\ ", "\\\\", "\\'", "\\\""]),
            7 => format!("'{}'", self.s(&["", "q", "a b", "$x", "\\", "\n", "\""])),
            8 => {
                let n = self.n(3);
                let mut s = String::from("\"");
                for _ in 0..n { if self.p(40) { s += &self.param(d); } else { s += &self.s(&["a", " ", "\\$", "\\\"", "\\\\", "\\a", "\\\n", "*", "'", "\\`", "#"]); } }
                s + "\""
            }
            _ => self.param(d),
        }
    }
    pub fn word(&mut self, d: usize) -> String {
        let mut s = String::new();
        for _ in 0..1 + self.n(3) { s += &self.frag(d); }
        s
    }
    pub fn redirect(&mut self, d: usize) -> String {
        let fd = if self.p(80) { self.s(&["", "", "", "1", "2", "10"]) } else {
            self.s(&["0", "3", "9", "99", "255", "256", "1024", "32767", "32768", "65534", "65535", "65536", "007", "00000000001", "99999999999999999999", "1a", "'1'", "\\1", "1\\\n"]) };
        match self.r.below(8) {
            0 => {
                let strip = self.p(40);
                let delim = if self.p(85) { self.s(&["E", "EOF", "END"]) } else { self.s(&["\u{e9}", "E-F", "E.1", "9", "=", "_", "if", "done", "EOFEOF"]) };
                let q = match self.r.below(4) { 0 => format!("'{}'", delim), 1 => format!("\"{}\"", delim), 2 => format!("\\{}", delim), _ => delim.clone() };
                self.due.push((delim, strip));
                format!("{}{}{}{}", fd, if strip { "<<-" } else { "<<" }, self.ows(), q)
            }
            1 => format!("{}{}{}", fd, self.s(&["<&", ">&"]), self.s(&["-", "1", "12", "$x", "`b`", " 3", "\"4\""])),
            _ => format!("{}{}{}{}", fd, self.s(&["<", ">", ">>", ">|", "<>"]), self.ows(), self.word(d)),
        }
    }
    pub fn simple(&mut self, d: usize) -> String {
        let mut s = String::new();
        for _ in 0..self.n(2) {
            if self.p(50) { s += &format!("{}={}", self.name(), self.word(d)); } else { s += &self.redirect(d); }
            s += " ";
        }
        s += &self.s(&["echo", "a", "b", "cmd", "foo"]);
        for _ in 0..self.n(3) {
            s += &self.ws();
            if self.p(20) { s += &self.redirect(d) } else { s += &self.word(d) }
        }
        s
    }
    pub fn body(&mut self, d: usize) -> String {
        let mut s = String::new();
        for _ in 0..1 + self.n(2) {
            if self.p(15) { s += &self.s(&["\n", "# c\n"]); }
            s += &self.andor(d);
            s += &self.sep();
        }
        if self.p(10) { s += &self.s(&["\n", "# t\n"]); }
        if !s.ends_with('\n') && !s.ends_with(';') && !s.ends_with('&') { s += " "; }
        s
    }
    pub fn onl(&mut self) -> String { if self.p(70) { " ".into() } else { self.nl() } }
    pub fn compound(&mut self, d: usize) -> String {
        let mut s = match self.r.below(7) {
            0 => format!("{{ {}}}", self.body(d)),
            1 => format!("({})", self.body(d)),
            2 => {
                let mut s = format!("if {}then {}", self.body(d), self.body(d));
                for _ in 0..self.n(3) { s += &format!("elif {}then {}", self.body(d), self.body(d)); }
                if self.p(50) { s += &format!("else {}", self.body(d)); }
                s + "fi"
            }
            3 => format!("{} {}do {}done", self.s(&["while", "until"]), self.body(d), self.body(d)),
            4 => {
                let mut s = format!("for {}", self.name());
                match self.r.below(3) {
                    0 => s += &self.s(&[";", "\n", " # c\n", " ", "\n;", " # c\n;", " # a\n\n# b\n; # d\n", "\n\n;\n\n"]),
                    1 => { s += &self.onl(); s += "in"; for _ in 0..self.n(3) { s += " "; s += &self.word(0); } s += &self.s(&[";", "\n", " # c\n"]); }
                    _ => { s += " in;"; }
                }
                if self.p(20) { s += &self.nl(); }
                s + &format!(" do {}done", self.body(d))
            }
            5 => {
                let mut s = format!("case {}{}in{}", self.word(0), self.onl(), self.onl());
                let n = self.n(3);
                for k in 0..n {
                    if self.p(20) { s += &self.nl(); }
                    s += &self.s(&["", "("]);
                    s += &self.word(0);
                    for _ in 0..self.n(2) { s += &self.s(&["|", " | "]); s += &self.word(0); }
                    s += &self.s(&[")", " )"]);
                    if self.p(20) { s += &self.nl(); }
                    if self.p(80) { s += &self.body(d); }
                    if k + 1 < n || self.p(60) { s += ";;"; }
                    s += &self.onl();
                }
                s + " esac"
            }
            _ => format!("{}{}{}", self.s(&["f()", "f ()", "function f ", "function f()", "f( )"]), self.onl(), {
                let b = self.body(d); if self.p(50) { format!("{{ {}}}", b) } else { format!("({})", b) }
            }),
        };
        for _ in 0..self.n(2) { s += " "; s += &self.redirect(0); }
        s
    }
    pub fn command(&mut self, d: usize) -> String { if d > 0 && self.p(40) { self.compound(d - 1) } else { self.simple(d.min(1)) } }
    pub fn pipeline(&mut self, d: usize) -> String {
        let mut s = self.s(&["", "", "", "! "]);
        s += &self.command(d);
        for _ in 0..self.n(2) { s += &self.s(&["|", " | ", " |"]); if self.p(20) { s += &self.nl(); } s += &self.command(d); }
        s
    }
    pub fn andor(&mut self, d: usize) -> String {
        let mut s = self.pipeline(d);
        for _ in 0..self.n(2) { s += &self.s(&[" && ", "||", "&&", " ||"]); if self.p(20) { s += &self.nl(); } s += &self.pipeline(d); }
        s
    }
    pub fn list(&mut self, d: usize) -> String {
        let mut s = self.andor(d);
        for _ in 0..self.n(3) { s += &self.sep(); s += &self.andor(d); }
        if self.p(30) || !self.due.is_empty() { s += &self.nl(); }
        s
    }
}
impl<'a> G<'a> {
    /// One thing inside many others.
    pub fn nest(&mut self) -> String {
        let mut s = if self.p(50) { self.simple(0) } else { self.s(&["a", "echo \"b\"", "c 'd'", "x=1", ">f", "cat <<E\nb $y\nE\n", "# c\n", "if", ")", "}", "\"", "a b", "$(", "e\\\nf"]) };
        let mut bt = false;
        for _ in 0..1 + self.r.below(9) {
            let (a, b) = *self.r.pick(&[
                ("{ ", "; }"), ("{\n", "\n}"), ("(", ")"), ("( ", " )"), ("$(", ")"), ("echo \"$(", ")\""), ("echo ${x:-$(", ")}"), ("echo \"${x:-", "}\""),
                ("if ", "; then a; fi"), ("if a; then ", "\nfi"), ("if a\nthen b\nelif ", "; then c; else d; fi"), ("while ", "; do a; done"), ("until a; do ", "\ndone"),
                ("for i in a b; do ", "; done"), ("for i do ", "\ndone"), ("case x in a) ", ";; esac"), ("case x in a) b;; (c|d) ", "\nesac"), ("f() { ", "; }"), ("function g (", ")"),
                ("! ", ""), ("", " | a"), ("a |\n", ""), ("a && ", ""), ("", " || b"), ("a; ", ""), ("", " &"), ("", " >f"), ("", " 2>&1"), ("cat <<E; ", "\nb\nE\n"), ("x=$(", ")"), ("a >\"$(", ")\""),
                ("echo a\\\n", ""), ("# c\n", ""), ("echo $((1+$(", ")))"), ("'", "'"), ("\"", "\""), ("`", "`"),
            ]);
            if a == "`" { if bt { continue; } bt = true; s = s.replace('\\', "\\\\"); }
            s = format!("{}{}{}", a, s, b);
        }
        s
    }
    /// Much of one kind.
    pub fn many(&mut self) -> String {
        let k = 2 + self.r.below(14);
        let (a, u, b) = *self.r.pick(&[
            ("a", " w", ""), ("a", " && b", "\n"), ("a", "\n|| b", ""), ("a", " | b", ""), ("a", "|\n\nb", ""), ("", "a; ", ""), ("", "a\n", ""), ("", "a & ", ""), ("", "\n", "a"), ("", "# c\n", "a"), ("", "#\n\n", ""),
            ("", "x=1 ", "a"), ("", ">f ", ""), ("a", " 2>&1", ""), ("a", " <f w", ""), ("a", "\\\n", "b"), ("a", " \\\n", "b"), ("a ", "'q'", ""), ("a ", "\"d\"", ""), ("a ", "$x", ""), ("a ", "\\e", ""), ("a ", "*?", ""),
            ("a ", "$(b)", ""), ("a ", "`b`", ""), ("a ", "~:", ""), ("a \"", "$x b ", "\""), ("a \"", "\\$", "\""), ("a \"", "\\\n", "\""), ("a \"", "\n", "\""), ("a '", "\n'\"", "'"),
            ("if a; then b; ", "elif c; then d; ", "else e; fi"), ("case x in ", "a) b;; ", "esac"), ("case x in ", "a|", "b) c;; esac"), ("case x in ", "# c\n", "a) b\n# d\n;; esac"), ("for i in", " a", "; do b; done"), ("for i in a\n", "# c\n", "do b; done"),
            ("", "f() { a; }\n", ""), ("", "{ a; }; ", ""), ("cat", " <<E", "\nE\nE\nE\nE\nE\n"), ("cat <<E\n", "b $y\n", "E\n"), ("cat <<E\n", "\n", "E\n"), ("cat <<-E\n", "\t", "b\n\tE\n"), ("cat <<-E\n", "\tb\n", "E\n"), ("cat <<'E'\n", "\\\n", "E\n"),
            ("echo $((1", "+2", "))"), ("echo $((1", "**2", "))"), ("echo $((1", ",2", "))"), ("echo $((", "!", "1))"), ("echo $((1", "?2:3", "))"), ("echo $((", "(", "1))"), ("echo ${x:-", "a b ", "}"), ("echo ${x#", "#", "}"), ("echo ", "${#x}", ""),
            ("", " ", "a"), ("", "\t", "a"), ("", "! ", "a"), ("a", ";", ""), ("(", "(", "a"), ("{ a", "; }", ""), ("a", ")", ""), ("`", "\\\\", "`"), ("`", "\\$x ", "`"), ("a ", "\u{e9}", ">f"),
        ]);
        let mut s = a.to_string();
        for _ in 0..k { s += u; }
        s += b;
        if self.p(30) { s += &self.nl(); s += &self.simple(0); }
        if self.p(10) { s += " ;;"; }
        s
    }
}
/// A random input for a property, mostly well formed.
pub fn random(p: &str, r: &mut Rng) -> String {
    let al = alphabet(p);
    let mode = r.below(10);
    let d = if r.below(40) == 0 { 4 } else { r.below(3) };
    let mut s = if mode < 3 || matches!(p, "C01" | "C02" | "C25" | "C26") {
        let n = 1 + r.below(12);
        let al = if r.below(3) == 0 { ALL } else { al };
        (0..n).map(|_| *r.pick(al)).collect::<String>()
    } else {
        let big = r.below(100);
        let mut g = G { r, due: vec![] };
        match p {
            _ if big < 8 => g.nest(),
            _ if big < 16 => g.many(),
            "C12" => { let n = 1 + g.r.below(3); g.arith(n) }
            "C15" => { let n = 1 + g.r.below(2); (0..n).map(|_| g.word(d)).collect::<Vec<_>>().join(" ") }
            "C16" => { let s = g.redirect(0); let t = g.s(&["", " a", "\n", ";", "b", "'"]); let n = g.nl(); s + &t + &n }
            "C22" => g.param(2),
            "C17" => { let a = g.simple(1); let b = g.redirect(0); let c = g.sep(); let e = g.andor(0); let f = g.nl(); let h = g.list(0); format!("{} {} {} {}{}{}", a, b, c, e, f, h) }
            "C24" => { let mut s = g.compound(d); s += &g.nl(); s }
            "C11" => { let n = g.r.below(8); (0..n).map(|_| g.s(alphabet("C11"))).collect() }
            "C06" => { let l = g.list(1); let mut e = String::new(); for c in l.chars() { if (c == '`' || c == '\\' || c == '$') && g.p(70) { e.push('\\'); } e.push(c); } format!("`{}`", e) }
            _ => { let mut s = g.list(d); if g.p(50) { s += &g.nl(); s += &g.list(d); s += &g.nl(); } s }
        }
    };
    // a few edits
    if r.below(10) < 4 && !s.is_empty() {
        for _ in 0..1 + r.below(2) {
            let cs: Vec<char> = s.chars().collect();
            if cs.is_empty() { break; }
            let i = r.below(cs.len());
            match r.below(3) {
                0 => { let j = (i + 1 + r.below(3)).min(cs.len()); s = cs[..i].iter().chain(&cs[j..]).collect(); }
                1 => { let x = *r.pick(al); s = cs[..i].iter().collect::<String>() + x + &cs[i..].iter().collect::<String>(); }
                _ => s = cs[..i].iter().collect(),
            }
        }
    }
    s
}
