//! Bounded test of the assumed contracts of std functions (contracts/prelude.rs): the specification functions,
//! written out here as they are there, against std itself.
use super::Rng;

fn clen(c: char) -> usize { let n = c as u32; if n < 0x80 { 1 } else if n < 0x800 { 2 } else if n < 0x10000 { 3 } else { 4 } }
fn blen(s: &[char]) -> usize { if s.is_empty() { 0 } else { clen(s[0]) + blen(&s[1..]) } }
fn is_upper(c: char) -> bool { 'A' <= c && c <= 'Z' }
fn is_lower(c: char) -> bool { 'a' <= c && c <= 'z' }
fn is_digit10(c: char) -> bool { '0' <= c && c <= '9' }
fn lower_ascii(c: char) -> char { if is_upper(c) { (c as u8 + 32) as char } else { c } }
fn has_prefix(s: &[char], p: &[char]) -> bool { s.len() >= p.len() && s[..p.len()] == *p }
fn has_suffix(s: &[char], p: &[char]) -> bool { s.len() >= p.len() && s[s.len() - p.len()..] == *p }
fn has_infix(s: &[char], p: &[char]) -> bool { (0..=s.len()).any(|i| i + p.len() <= s.len() && s[i..i + p.len()] == *p) }
fn leading(s: &[char], c: char) -> usize { if !s.is_empty() && s[0] == c { 1 + leading(&s[1..], c) } else { 0 } }
fn trailing(s: &[char], c: char) -> usize { if !s.is_empty() && s[s.len() - 1] == c { 1 + trailing(&s[..s.len() - 1], c) } else { 0 } }
fn byte_cut(s: &[char], n: i64) -> Option<&[char]> {
    if n == 0 { Some(s) } else if n < 0 || s.is_empty() { None } else { byte_cut(&s[1..], n - clen(s[0]) as i64) }
}
fn digit_val(c: char) -> i128 {
    if '0' <= c && c <= '9' { c as i128 - '0' as i128 }
    else if 'a' <= c && c <= 'z' { c as i128 - 'a' as i128 + 10 }
    else if 'A' <= c && c <= 'Z' { c as i128 - 'A' as i128 + 10 }
    else { 1000 }
}
fn digits_val(s: &[char], radix: i128) -> Option<i128> {
    if s.is_empty() { return Some(0); }
    let (d, l) = (&s[..s.len() - 1], s[s.len() - 1]);
    match digits_val(d, radix) { Some(v) => if digit_val(l) < radix { Some(v * radix + digit_val(l)) } else { None }, None => None }
}
fn int_text(s: &[char], radix: i128, min: i128, max: i128) -> Option<i128> {
    let neg = !s.is_empty() && s[0] == '-' && min < 0;
    let d = if neg || (!s.is_empty() && s[0] == '+') { &s[1..] } else { s };
    if d.is_empty() { return None; }
    let w = digits_val(d, radix)? * if neg { -1 } else { 1 };
    if min <= w && w <= max { Some(w) } else { None }
}
fn dec(n: u64) -> Vec<char> { let d = (b'0' + (n % 10) as u8) as char; if n < 10 { vec![d] } else { let mut v = dec(n / 10); v.push(d); v } }
fn hint_ok(h: (usize, Option<usize>), n: usize) -> bool { h.0 <= n && h.1.map_or(true, |x| n <= x) }

/// Sound but inexact hints, not fused.
struct Src { v: Vec<u8>, i: usize, again: bool }
impl Iterator for Src {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        if self.i < self.v.len() { self.i += 1; Some(self.v[self.i - 1]) }
        else if self.again { self.again = false; None } else { self.again = true; Some(77) }
    }
    fn size_hint(&self) -> (usize, Option<usize>) { let n = self.v.len() - self.i; (n / 2, Some(n + 3)) }
}

macro_rules! same { ($n:ident, $a:expr, $b:expr, $($x:expr),*) => {{ $n += 1; let (lhs, rhs) = ($a, $b);
    if lhs != rhs { return Err(format!("{}: specified {:?}, std says {:?}, for {:?}", stringify!($b), lhs, rhs, ($(&$x,)*))); } }} }

/// Every char, and random texts and vectors for `secs` seconds. The number of comparisons.
pub fn run(seed: u64, secs: u64) -> Result<u64, String> {
    let mut n = 0u64;
    for u in 0..=0x10ffffu32 {
        let c = match std::char::from_u32(u) { Some(c) => c, None => continue };
        if u < 128 {
            same!(n, c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\u{b}' || c == '\u{c}', c.is_whitespace(), c);
            same!(n, is_upper(c) || is_lower(c), c.is_alphabetic(), c);
            same!(n, is_digit10(c), c.is_numeric(), c);
        }
        same!(n, false, c.is_alphabetic() && c.is_whitespace(), c);
        same!(n, is_digit10(c), c.is_digit(10), c);
        same!(n, c.is_alphabetic() || c.is_numeric(), c.is_alphanumeric(), c);
        same!(n, is_digit10(c), c.is_ascii_digit(), c);
        same!(n, u < 128, c.is_ascii(), c);
        same!(n, is_upper(c), c.is_ascii_uppercase(), c);
        same!(n, is_lower(c), c.is_ascii_lowercase(), c);
        same!(n, is_upper(c) || is_lower(c), c.is_ascii_alphabetic(), c);
        same!(n, is_upper(c) || is_lower(c) || is_digit10(c), c.is_ascii_alphanumeric(), c);
        same!(n, c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\u{c}', c.is_ascii_whitespace(), c);
        same!(n, is_digit10(c) || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F'), c.is_ascii_hexdigit(), c);
        same!(n, u < 32 || u == 127, c.is_ascii_control(), c);
        same!(n, u < 32 || (127 <= u && u < 160), c.is_control(), c);
        same!(n, 33 <= u && u < 127 && !(is_upper(c) || is_lower(c) || is_digit10(c)), c.is_ascii_punctuation(), c);
        same!(n, 33 <= u && u < 127, c.is_ascii_graphic(), c);
        same!(n, if is_digit10(c) { Some(u - 48) } else { None }, c.to_digit(10), c);
        same!(n, clen(c), c.len_utf8(), c);
        same!(n, lower_ascii(c), c.to_ascii_lowercase(), c);
    }
    let mut r = Rng(seed);
    let alpha: Vec<char> = "00123456789afzAZFk+-_ \taab\u{e9}\u{663}\u{20ac}\u{1f600}".chars().collect();
    let t = std::time::Instant::now();
    while t.elapsed().as_secs() < secs.max(1) {
        let text = |r: &mut Rng, m: usize| -> Vec<char> { let k = r.below(m); let few = r.below(3) == 0;
            (0..k).map(|_| if few { *r.pick(&['a', 'b', '1']) } else { *r.pick(&alpha) }).collect() };
        let (s, p) = (text(&mut r, 9), text(&mut r, 4));
        let (ss, ps): (String, String) = (s.iter().collect(), p.iter().collect());
        let c = *r.pick(&alpha);
        same!(n, blen(&s), ss.len(), ss);
        same!(n, s.len(), ss.chars().count(), ss);
        same!(n, s == p, ss == ps, ss, ps);
        same!(n, has_prefix(&s, &p), ss.starts_with(ps.as_str()), ss, ps);
        same!(n, has_prefix(&s, &[c]), ss.starts_with(c), ss, c);
        same!(n, has_suffix(&s, &p), ss.ends_with(ps.as_str()), ss, ps);
        same!(n, has_suffix(&s, &[c]), ss.ends_with(c), ss, c);
        same!(n, if has_prefix(&s, &p) { Some(s[p.len()..].iter().collect::<String>()) } else { None }, ss.strip_prefix(ps.as_str()).map(String::from), ss, ps);
        same!(n, has_infix(&s, &p), ss.contains(ps.as_str()), ss, ps);
        same!(n, s.contains(&c), ss.contains(c), ss, c);
        same!(n, s[leading(&s, c)..].iter().collect::<String>(), ss.trim_start_matches(c), ss, c);
        same!(n, s[..s.len() - trailing(&s, c)].iter().collect::<String>(), ss.trim_end_matches(c), ss, c);
        same!(n, s.iter().map(|&c| lower_ascii(c)).eq(p.iter().map(|&c| lower_ascii(c))), ss.eq_ignore_ascii_case(&ps), ss, ps);
        let k = r.below(12);
        same!(n, byte_cut(&s, k as i64).map(|v| v.iter().collect::<String>()), ss.get(k..).map(String::from), ss, k);
        same!(n, s.iter().chain(&p).collect::<String>(), { let mut x = ss.clone(); x.push_str(&ps); x }, ss, ps);
        same!(n, s.iter().chain(&p).collect::<String>(), vec![ss.as_str(), ps.as_str()].into_iter().collect::<String>(), ss, ps);
        let num: Vec<char> = { let mut v = text(&mut r, 4); if r.below(2) == 0 { v.truncate(1); v.retain(|c| *c == '+' || *c == '-'); v.extend(dec(match r.below(5) {
            0 => r.next() % 70_000, 1 => 65_530 + r.next() % 10, 2 => 4_294_967_290 + r.next() % 10, 3 => 9_223_372_036_854_775_800 + r.next() % 16, _ => r.next() >> (r.below(60)) })); } v };
        let ns: String = num.iter().collect();
        for &x in &[2u32, 8, 10, 16, 36] {
            same!(n, int_text(&num, x as i128, 0, 65535), u16::from_str_radix(&ns, x).ok().map(|v| v as i128), ns, x);
            same!(n, int_text(&num, x as i128, 0, 4294967295), u32::from_str_radix(&ns, x).ok().map(|v| v as i128), ns, x);
            if std::mem::size_of::<isize>() == 8 {
                same!(n, int_text(&num, x as i128, i64::MIN as i128, i64::MAX as i128), isize::from_str_radix(&ns, x).ok().map(|v| v as i128), ns, x);
            }
        }
        same!(n, int_text(&num, 10, 0, 65535), ns.parse::<u16>().ok().map(|v| v as i128), ns);
        let d = r.next() >> r.below(64);
        same!(n, dec(d).iter().collect::<String>(), d.to_string(), d);
        same!(n, dec(d as u32 as u64).iter().collect::<String>(), (d as u32).to_string(), d);
        // Vectors
        let (a, b): (Vec<u8>, Vec<u8>) = ((0..r.below(6)).map(|_| r.below(4) as u8).collect(), (0..r.below(6)).map(|_| r.below(4) as u8).collect());
        let ab: Vec<u8> = (0..a.len() + b.len()).map(|i| if i < a.len() { a[i] } else { b[i - a.len()] }).collect();
        same!(n, ab.clone(), { let mut x = a.clone(); x.extend(b.clone()); x }, a, b);
        same!(n, (ab.clone(), 0), { let (mut x, mut y) = (a.clone(), b.clone()); x.append(&mut y); (x, y.len()) }, a, b);
        same!(n, ab.clone(), a.clone().into_iter().chain(b.clone()).collect::<Vec<_>>(), a, b);
        same!(n, (0..a.len()).map(|i| a[a.len() - 1 - i]).collect::<Vec<_>>(), { let mut x = a.clone(); x.reverse(); x }, a);
        same!(n, (0..a.len()).any(|i| a[i] == 2), a.contains(&2), a);
        same!(n, (Vec::new(), a.clone()), { let mut x = a.clone(); let y = std::mem::take(&mut x); (x, y) }, a);
        same!(n, (b.clone(), a.clone()), { let mut x = a.clone(); let y = std::mem::replace(&mut x, b.clone()); (x, y) }, a, b);
        if !a.is_empty() {
            let (i, j) = (r.below(a.len()), r.below(a.len()));
            let w: Vec<u8> = (0..a.len()).map(|k| if k == j { a[i] } else if k == i { a[j] } else { a[k] }).collect();
            same!(n, w, { let mut x = a.clone(); x.swap(i, j); x }, a, i, j);
        }
        let (o, q) = (a.first().copied(), b.first().copied());
        same!(n, if o.is_some() { q } else { None }, o.and(q), o, q);
        same!(n, if o.is_some() && q.is_none() { o } else if o.is_none() && q.is_some() { q } else { None }, o.xor(q), o, q);
        same!(n, if o.is_some() && q.is_some() { Some((o.unwrap(), q.unwrap())) } else { None }, o.zip(q), o, q);
        // Iterators: `Fuse` and `Peekable` yield what is left up to the first `None`, hints stay sound, peeking takes nothing
        let mut f = Src { v: a.clone(), i: 0, again: true }.fuse();
        for i in 0..a.len() + 3 {
            same!(n, true, hint_ok(f.size_hint(), a.len().saturating_sub(i)), a, i);
            same!(n, a.get(i).copied(), f.next(), a, i);
        }
        let mut f = Src { v: a.clone(), i: 0, again: true }.fuse().peekable();
        let mut i = 0;
        for _ in 0..2 * a.len() + 4 {
            same!(n, true, hint_ok(f.size_hint(), a.len().saturating_sub(i)), a, i);
            if r.below(2) == 0 { same!(n, a.get(i), f.peek(), a, i); } else { same!(n, a.get(i).copied(), f.next(), a, i); i += 1; }
        }
    }
    Ok(n)
}
