//! A tiny backtracking matcher for the subset of regular expressions that the
//! generators produce.  Unanchored search, like the validator's.
#[derive(Debug, Clone)]
enum A {
    Ch(char),
    Any,
    Set(bool, Vec<(char, char)>),
    /// a class, possibly negated
    Cls(bool, fn(char) -> bool),
    Bol,
    Eol,
    Grp(Vec<Vec<(A, usize, usize)>>),
}
#[derive(Debug, Clone)]
pub struct Re(Vec<Vec<(A, usize, usize)>>);

struct Ps<'a> {
    c: Vec<char>,
    p: usize,
    _m: std::marker::PhantomData<&'a ()>,
}

impl Ps<'_> {
    fn alts(&mut self) -> Option<Vec<Vec<(A, usize, usize)>>> {
        let mut out = vec![self.seq()?];
        while self.c.get(self.p) == Some(&'|') {
            self.p += 1;
            out.push(self.seq()?);
        }
        Some(out)
    }
    fn seq(&mut self) -> Option<Vec<(A, usize, usize)>> {
        let mut out = vec![];
        while let Some(&c) = self.c.get(self.p) {
            if c == '|' || c == ')' {
                break;
            }
            self.p += 1;
            let a = match c {
                '.' => A::Any,
                '^' => A::Bol,
                '$' => A::Eol,
                '(' => {
                    if self.c.get(self.p) == Some(&'?') {
                        if self.c.get(self.p + 1) != Some(&':') {
                            return None;
                        }
                        self.p += 2;
                    }
                    let g = self.alts()?;
                    if self.c.get(self.p) != Some(&')') {
                        return None;
                    }
                    self.p += 1;
                    A::Grp(g)
                }
                '[' => {
                    let mut neg = false;
                    if self.c.get(self.p) == Some(&'^') {
                        neg = true;
                        self.p += 1;
                    }
                    let mut set = vec![];
                    loop {
                        let a = *self.c.get(self.p)?;
                        self.p += 1;
                        if a == ']' {
                            break;
                        }
                        if !a.is_alphanumeric() {
                            return None;
                        }
                        if self.c.get(self.p) == Some(&'-') {
                            let b = *self.c.get(self.p + 1)?;
                            if !b.is_alphanumeric() || b < a {
                                return None;
                            }
                            self.p += 2;
                            set.push((a, b));
                        } else {
                            set.push((a, a));
                        }
                    }
                    if set.is_empty() {
                        return None;
                    }
                    A::Set(neg, set)
                }
                '\\' => {
                    let e = *self.c.get(self.p)?;
                    self.p += 1;
                    let mut hex = |n: usize| {
                        let h: String = self.c.get(self.p..self.p + n)?.iter().collect();
                        self.p += n;
                        char::from_u32(u32::from_str_radix(&h, 16).ok()?)
                    };
                    match e {
                        '.' | '\\' | '/' | '-' | '*' => A::Ch(e),
                        'n' => A::Ch('\n'),
                        't' => A::Ch('\t'),
                        'x' => A::Ch(hex(2)?),
                        'u' => A::Ch(hex(4)?),
                        'd' | 'D' => A::Cls(e == 'D', digit),
                        'w' | 'W' => A::Cls(e == 'W', |c| c.is_alphanumeric() || c == '_'),
                        's' | 'S' => A::Cls(e == 'S', char::is_whitespace),
                        _ => return None,
                    }
                }
                c if c.is_alphanumeric() || matches!(c, ' ' | '-' | '_' | ':' | '@' | '/' | '"' | '=' | '\t' | '\n' | '#' | '\u{a0}' | '~' | '%' | '&' | '<' | '\'' | ',' | ';' | '😀') => A::Ch(c),
                _ => return None,
            };
            let (mut lo, mut hi) = (1, 1);
            match self.c.get(self.p) {
                Some('*') => {
                    (lo, hi) = (0, usize::MAX);
                    self.p += 1;
                }
                Some('+') => {
                    (lo, hi) = (1, usize::MAX);
                    self.p += 1;
                }
                Some('?') => {
                    (lo, hi) = (0, 1);
                    self.p += 1;
                }
                Some('{') => {
                    self.p += 1;
                    let mut n = String::new();
                    while let Some(&d) = self.c.get(self.p) {
                        self.p += 1;
                        if d == '}' {
                            break;
                        }
                        n.push(d);
                    }
                    match n.split_once(',') {
                        None => {
                            lo = n.parse().ok()?;
                            hi = lo;
                        }
                        Some((a, "")) => {
                            lo = a.parse().ok()?;
                            hi = usize::MAX;
                        }
                        Some((a, b)) => {
                            lo = a.parse().ok()?;
                            hi = b.parse().ok()?;
                        }
                    }
                    if hi < lo {
                        return None;
                    }
                }
                _ => {}
            }
            if (lo, hi) != (1, 1) {
                if matches!(a, A::Bol | A::Eol) {
                    return None;
                }
                if self.c.get(self.p) == Some(&'?') {
                    // lazy: it matches where the greedy one does
                    self.p += 1;
                }
                if matches!(self.c.get(self.p), Some('*' | '+' | '?' | '{')) {
                    return None;
                }
            }
            out.push((a, lo, hi));
        }
        Some(out)
    }
}

impl Re {
    pub fn parse(s: &str) -> Option<Re> {
        let mut p = Ps { c: s.chars().collect(), p: 0, _m: std::marker::PhantomData };
        let a = p.alts()?;
        if p.p != p.c.len() {
            return None;
        }
        Some(Re(a))
    }
    /// `None`: backtracking takes too long to tell.
    pub fn is_match(&self, s: &str) -> Option<bool> {
        let c: Vec<char> = s.chars().collect();
        FUEL.set(200_000);
        let m = (0..=c.len()).any(|i| alts(&self.0, &c, i, &mut |_| true));
        (FUEL.get() > 0).then_some(m)
    }
}

thread_local! {
    static FUEL: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

fn alts(a: &[Vec<(A, usize, usize)>], c: &[char], i: usize, k: &mut dyn FnMut(usize) -> bool) -> bool {
    a.iter().any(|s| seq(s, c, i, k))
}
fn seq(s: &[(A, usize, usize)], c: &[char], i: usize, k: &mut dyn FnMut(usize) -> bool) -> bool {
    match s.split_first() {
        None => k(i),
        Some(((a, lo, hi), rest)) => rep(a, *lo, *hi, rest, c, i, k),
    }
}
fn rep(a: &A, lo: usize, hi: usize, rest: &[(A, usize, usize)], c: &[char], i: usize, k: &mut dyn FnMut(usize) -> bool) -> bool {
    if FUEL.get() == 0 {
        return false;
    }
    FUEL.set(FUEL.get() - 1);
    if lo == 0 && seq(rest, c, i, k) {
        return true;
    }
    if hi == 0 {
        return false;
    }
    one(a, c, i, &mut |j| {
        if j == i && lo == 0 {
            return false;
        }
        let lo2 = if j == i { 0 } else { lo.saturating_sub(1) };
        let hi2 = if hi == usize::MAX { hi } else { hi - 1 };
        rep(a, lo2, hi2, rest, c, j, k)
    })
}
fn one(a: &A, c: &[char], i: usize, k: &mut dyn FnMut(usize) -> bool) -> bool {
    match a {
        A::Bol => i == 0 && k(i),
        A::Eol => i == c.len() && k(i),
        A::Grp(g) => alts(g, c, i, k),
        _ => {
            let Some(&x) = c.get(i) else { return false };
            let hit = match a {
                A::Ch(y) => x == *y,
                A::Any => x != '\n',
                A::Cls(neg, f) => f(x) != *neg,
                A::Set(neg, set) => set.iter().any(|(lo, hi)| *lo <= x && x <= *hi) != *neg,
                _ => unreachable!(),
            };
            hit && k(i + 1)
        }
    }
}

/// Decimal digits, of the scripts that the generators use.
fn digit(c: char) -> bool {
    c.is_ascii_digit()
}
