//! Reference model: journals as syntax trees, how they are written down, and what they mean.
//! The meaning is computed with exact rational numbers from the statements of the properties.

use std::collections::{BTreeMap, BTreeSet};

// ---------------------------------------------------------------------------------------------
// Exact rational numbers

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Rat {
    pub n: i128,
    pub d: i128,
}
fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a
}
impl Rat {
    pub const ZERO: Rat = Rat { n: 0, d: 1 };
    pub fn new(n: i128, d: i128) -> Rat {
        assert!(d != 0);
        let g = gcd(n, d).max(1) * if d < 0 { -1 } else { 1 };
        Rat { n: n / g, d: d / g }
    }
    pub fn int(n: i128) -> Rat {
        Rat { n, d: 1 }
    }
    pub fn add(self, o: Rat) -> Rat {
        let g = gcd(self.d, o.d);
        let l = (self.d / g).checked_mul(o.d).expect("model: overflow");
        let a = self.n.checked_mul(o.d / g).expect("model: overflow");
        let b = o.n.checked_mul(self.d / g).expect("model: overflow");
        Rat::new(a.checked_add(b).expect("model: overflow"), l)
    }
    pub fn neg(self) -> Rat {
        Rat { n: -self.n, d: self.d }
    }
    pub fn sub(self, o: Rat) -> Rat {
        self.add(o.neg())
    }
    pub fn mul(self, o: Rat) -> Rat {
        let g1 = gcd(self.n, o.d).max(1);
        let g2 = gcd(o.n, self.d).max(1);
        Rat::new(
            (self.n / g1).checked_mul(o.n / g2).expect("model: overflow"),
            (self.d / g2).checked_mul(o.d / g1).expect("model: overflow"),
        )
    }
    pub fn div(self, o: Rat) -> Rat {
        self.mul(Rat::new(o.d, o.n))
    }
    pub fn abs(self) -> Rat {
        Rat { n: self.n.abs(), d: self.d }
    }
    pub fn is_zero(self) -> bool {
        self.n == 0
    }
    pub fn signum(self) -> i128 {
        self.n.signum()
    }
    pub fn f64(self) -> f64 {
        self.n as f64 / self.d as f64
    }
    /// Equal to at least 18 decimals (or, for values over 1, 18 digits).
    pub fn near(self, o: Rat) -> bool {
        if self == o {
            return true;
        }
        // compare the integer parts and 18 decimals without overflowing
        let (a, b) = (self.to_e18(), o.to_e18());
        let (Some(a), Some(b)) = (a, b) else { return false };
        let mag = (a.abs().max(b.abs())) / 1_000_000_000_000_000_000;
        (a - b).abs() <= 1 + mag
    }
    /// The value in units of 1e-18, rounded towards minus infinity.
    fn to_e18(self) -> Option<i128> {
        let (d, mut rest) = (self.d as u128, self.n.rem_euclid(self.d) as u128);
        let mut out = self.n.div_euclid(self.d);
        for _ in 0..18 {
            // one more digit, by adding, as ten times the rest may be too large
            let (mut digit, mut sum) = (0, 0);
            for _ in 0..10 {
                sum += rest;
                if sum >= d {
                    sum -= d;
                    digit += 1;
                }
            }
            out = out.checked_mul(10)?.checked_add(digit)?;
            rest = sum;
        }
        Some(out)
    }
}
impl std::fmt::Display for Rat {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if self.d == 1 {
            write!(f, "{}", self.n)
        } else {
            write!(f, "{}/{}", self.n, self.d)
        }
    }
}

/// Reads a plain decimal: -?digits[.digits], at least one digit.
pub fn parse_dec(s: &str) -> Option<Rat> {
    let (neg, t) = match s.strip_prefix('-') {
        Some(t) => (true, t),
        None => (false, s),
    };
    let (i, f) = match t.find('.') {
        Some(p) => (&t[..p], &t[p + 1..]),
        None => (t, ""),
    };
    if i.is_empty() && f.is_empty() {
        return None;
    }
    let mut n: i128 = 0;
    for c in i.chars().chain(f.chars()) {
        n = n.checked_mul(10)?.checked_add(c.to_digit(10)? as i128)?;
    }
    let d = 10i128.checked_pow(f.len() as u32)?;
    Some(Rat::new(if neg { -n } else { n }, d))
}

/// What has to happen with a written number.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Num {
    /// has to be read, with this value
    Must(Rat),
    /// may be refused; if it is read, then with this value
    If(Rat),
    /// has to be refused
    Reject,
    /// not specified
    Skip,
}

/// The capacity of the decimal type: 96 bits and up to 28 decimals.
fn representable(int: &str, frac: &str) -> Option<bool> {
    let digits = format!("{}{}", int, frac);
    let sig = digits.trim_start_matches('0');
    let fits = |s: &str, scale: usize| -> bool {
        scale <= 28 && s.len() <= 29 && s.parse::<u128>().map_or(s.is_empty(), |v| v < (1u128 << 96))
    };
    if fits(sig, frac.len()) {
        if int.len() > 1 && int.starts_with('0') && digits.len() > 28 {
            return None; // many leading zeros
        }
        return Some(true);
    }
    // representable only after dropping trailing zeros of the fraction: not specified
    let f2 = frac.trim_end_matches('0');
    let d2 = format!("{}{}", int, f2);
    if fits(d2.trim_start_matches('0'), f2.len()) {
        return None;
    }
    Some(false)
}

pub fn num_class(s: &str) -> Num {
    if s.is_empty() {
        return Num::Reject;
    }
    let t = s.strip_prefix('-').unwrap_or(s);
    if t.contains('-') || !t.chars().any(|c| c.is_ascii_digit()) || t.matches('.').count() > 1 {
        return Num::Reject;
    }
    let plain: String = s.chars().filter(|c| *c != ',').collect();
    let (int, frac) = match t.find('.') {
        Some(p) => (&t[..p], &t[p + 1..]),
        None => (t, ""),
    };
    let grouped = |x: &str| -> bool {
        let parts: Vec<&str> = x.split(',').collect();
        parts.len() == 1
            || ((1..=3).contains(&parts[0].len()) && parts[1..].iter().all(|p| p.len() == 3))
    };
    if t.contains(',') {
        // a comma that does not separate thousands
        if frac.contains(',') || !grouped(int) {
            return Num::Reject;
        }
    }
    let int_plain: String = int.chars().filter(|c| *c != ',').collect();
    match representable(&int_plain, frac) {
        Some(false) => return Num::Reject,
        None => {
            return match parse_dec(&plain) {
                Some(v) => Num::If(v),
                None => Num::Skip,
            }
        }
        Some(true) => (),
    }
    let Some(v) = parse_dec(&plain) else { return Num::Skip };
    Num::Must(v)
}

// ---------------------------------------------------------------------------------------------
// Syntax

#[derive(Clone, Debug, PartialEq)]
pub struct AmtT {
    pub num: String,
    pub sym: String,
    /// 0: `N S`, 1: `NS`, 2: `S N`, 3: `SN`
    pub style: usize,
}
pub fn amt(num: &str, sym: &str) -> AmtT {
    AmtT { num: num.into(), sym: sym.into(), style: 0 }
}
impl AmtT {
    pub fn styled(mut self, s: usize) -> AmtT {
        self.style = s;
        self
    }
    pub fn text(&self) -> String {
        if self.sym.is_empty() {
            return self.num.clone();
        }
        match self.style {
            0 => format!("{} {}", self.num, self.sym),
            1 => format!("{}{}", self.num, self.sym),
            2 => format!("{} {}", self.sym, self.num),
            3 => format!("{}{}", self.sym, self.num),
            _ => format!("{}   {}", self.num, self.sym),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct CostT {
    pub per_unit: bool,
    pub amt: AmtT,
    /// text between the sign and the amount
    pub gap: &'static str,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct LotT {
    pub price: Option<AmtT>,
    pub date: Option<String>,
    pub date_first: bool,
    /// space between the parts
    pub tight: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct PostT {
    pub acct: String,
    pub amt: Option<AmtT>,
    pub lot: LotT,
    pub cost: Option<CostT>,
    /// note at the end of the line, with everything that precedes it
    pub tail: String,
}
pub fn post(acct: &str, a: Option<AmtT>) -> PostT {
    PostT { acct: acct.into(), amt: a, lot: LotT::default(), cost: None, tail: String::new() }
}
impl PostT {
    pub fn cost(mut self, per_unit: bool, a: AmtT) -> PostT {
        self.cost = Some(CostT { per_unit, amt: a, gap: " " });
        self
    }
    pub fn lot_price(mut self, a: AmtT) -> PostT {
        self.lot.price = Some(a);
        self
    }
    pub fn lot_date(mut self, d: &str) -> PostT {
        self.lot.date = Some(d.into());
        self
    }
    pub fn tail(mut self, t: &str) -> PostT {
        self.tail = t.into();
        self
    }
    /// everything after the account
    pub fn value_text(&self) -> String {
        let mut s = String::new();
        if let Some(a) = &self.amt {
            s += &a.text();
        }
        let sp = if self.lot.tight { "" } else { " " };
        let p = self.lot.price.as_ref().map(|p| format!("{{{}}}", p.text()));
        let d = self.lot.date.as_ref().map(|d| format!("[{}]", d));
        let parts: Vec<String> = if self.lot.date_first {
            [d, p].into_iter().flatten().collect()
        } else {
            [p, d].into_iter().flatten().collect()
        };
        for (i, part) in parts.iter().enumerate() {
            s += if i == 0 { " " } else { sp };
            s += part;
        }
        if let Some(c) = &self.cost {
            s += if parts.is_empty() { " " } else { sp };
            s += if c.per_unit { "@" } else { "@@" };
            s += c.gap;
            s += &c.amt.text();
        }
        s
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Body {
    Post(PostT),
    /// the text between the `;` and the end of the line
    Comment(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct XactT {
    pub date: String,
    pub aux: Option<String>,
    /// between the dates and the payee
    pub gap: String,
    pub payee: String,
    /// note text, with the separator before it
    pub note: Option<(String, String)>,
    pub body: Vec<Body>,
}
pub fn xact(date: &str, payee: &str, posts: Vec<PostT>) -> XactT {
    XactT {
        date: date.into(),
        aux: None,
        gap: " ".into(),
        payee: payee.into(),
        note: None,
        body: posts.into_iter().map(Body::Post).collect(),
    }
}
impl XactT {
    pub fn posts(&self) -> impl Iterator<Item = &PostT> {
        self.body.iter().filter_map(|b| match b {
            Body::Post(p) => Some(p),
            _ => None,
        })
    }
    pub fn header(&self) -> String {
        let mut s = self.date.clone();
        if let Some(a) = &self.aux {
            s += "=";
            s += a;
        }
        if !self.payee.is_empty() {
            s += &self.gap;
            s += &self.payee;
        }
        if let Some((sep, n)) = &self.note {
            s += sep;
            s += n;
        }
        s
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct PriceT {
    pub date: String,
    pub time: Option<String>,
    pub sym: String,
    pub num: String,
    pub target: String,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    X(XactT),
    P(PriceT),
    /// a comment line between the directives
    C(String),
    /// text that has to be refused
    Bad(String),
}

pub fn price(date: &str, time: &str, sym: &str, num: &str, target: &str) -> Item {
    Item::P(PriceT {
        date: date.into(),
        time: if time.is_empty() { None } else { Some(time.into()) },
        sym: sym.into(),
        num: num.into(),
        target: target.into(),
    })
}

/// Points of the layout that can be varied.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum L {
    Between,
    XactEnd,
    Indent,
    Gap,
    Trailing,
    Eol,
    LastEol,
}
pub fn layout_options(l: L) -> usize {
    match l {
        L::Between => 11,
        L::XactEnd => 4,
        L::Indent => 4,
        L::Gap => 4,
        L::Trailing => 3,
        L::Eol => 2,
        L::LastEol => 2,
    }
}

/// Writes the journal down; `lay` decides the layout (0 is the default everywhere).
pub fn render_with(items: &[Item], lay: &mut dyn FnMut(L) -> usize) -> String {
    // (text, kind): kind 0 = anything, 1 = blank line that ends a transaction
    let mut lines: Vec<String> = vec![];
    fn between(lines: &mut Vec<String>, c: usize) {
        match c {
            0 => (),
            1 => lines.push("".into()),
            2 => lines.push("   ".into()),
            3 => lines.push("; a comment".into()),
            4 => lines.push("# a comment".into()),
            5 => lines.push("* a comment".into()),
            6 => lines.push("| a comment".into()),
            7 => lines.push("\t".into()),
            8 => lines.extend(["".into(), "".into(), "".into()]),
            9 => lines.push(";2023-01-01 Commented  ; out".into()),
            _ => lines.extend(["; one".into(), "    ".into(), "# P 2023-01-01 EUR 5 USD".into(), "".into()]),
        }
    }
    let n = items.len();
    let c = lay(L::Between);
    between(&mut lines, c);
    for (k, it) in items.iter().enumerate() {
        match it {
            Item::X(x) => {
                let t = [0, 1, 4][lay(L::Trailing)];
                lines.push(format!("{}{}", x.header(), " ".repeat(t)));
                for b in &x.body {
                    let ind = [4, 1, 2, 11][lay(L::Indent)];
                    let line = match b {
                        Body::Post(p) => {
                            let v = p.value_text();
                            let g = [2, 3, 9, 40][if v.is_empty() { 0 } else { lay(L::Gap) }];
                            if v.is_empty() {
                                format!("{}{}", p.acct, p.tail)
                            } else {
                                format!("{}{}{}{}", p.acct, " ".repeat(g), v, p.tail)
                            }
                        }
                        Body::Comment(c) => format!(";{}", c),
                    };
                    let t = [0, 1, 4][lay(L::Trailing)];
                    lines.push(format!("{}{}{}", " ".repeat(ind), line, " ".repeat(t)));
                }
                // the line that ends the transaction; optional at the end of the text
                let e = lay(L::XactEnd);
                if k + 1 < n || e > 0 {
                    lines.push(["", "", "  ", "\t "][e].into());
                }
            }
            Item::P(p) => {
                let t = [0, 1, 4][lay(L::Trailing)];
                let time = p.time.as_ref().map(|t| format!(" {}", t)).unwrap_or_default();
                lines.push(format!(
                    "P {}{} {} {} {}{}",
                    p.date, time, p.sym, p.num, p.target, " ".repeat(t)
                ));
            }
            Item::C(c) => lines.push(c.clone()),
            Item::Bad(t) => {
                for l in t.lines() {
                    lines.push(l.into());
                }
                if k + 1 < n {
                    lines.push("".into());
                }
            }
        }
        let last_x = matches!(it, Item::X(_)) && k + 1 == n;
        let c = lay(L::Between);
        if c > 0 && last_x && !lines.last().map_or(true, |l| l.trim().is_empty()) {
            lines.push("".into());
        }
        between(&mut lines, c);
    }
    let mut s = String::new();
    let m = lines.len();
    for (i, l) in lines.iter().enumerate() {
        s += l;
        let e = lay(L::Eol);
        if i + 1 == m && lay(L::LastEol) == 1 {
            continue;
        }
        s += if e == 1 { "\r\n" } else { "\n" };
    }
    s
}
pub fn render(items: &[Item]) -> String {
    render_with(items, &mut |_| 0)
}

/// Layouts of a whole journal.
pub const LAYOUTS: usize = 9;
pub fn render_layout(items: &[Item], v: usize) -> String {
    let mut k = 0;
    render_with(items, &mut |l| match (v, l) {
        (1 | 3 | 8, L::LastEol) => 1,
        (2 | 3 | 7, L::Eol) => 1,
        (4, L::Indent) => 1,
        (5 | 7, L::Indent) => 3,
        (5, L::Gap) => 3,
        (4 | 7, L::Gap) => 1,
        (6 | 8, L::Trailing) => 2,
        (7, L::Trailing) => 1,
        (6, L::Between) => 10,
        (8, L::Between) => 2,
        (5, L::Between) => 8,
        (6, L::XactEnd) => 2,
        (7, L::Between) => {
            k += 1;
            3 + k % 4
        }
        (7, L::XactEnd) => 3,
        _ => 0,
    })
}

// ---------------------------------------------------------------------------------------------
// Meaning

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Verdict {
    /// has to be read
    Must,
    /// may be refused; if it is read, then as specified
    If,
    /// not specified
    Skip,
    /// must not be read
    Reject,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Am {
    pub q: Rat,
    pub sym: String,
}
impl std::fmt::Display for Am {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{} {}", self.q, self.sym)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum ECost {
    None,
    /// written
    Written(Am),
    /// inferred: to at least 18 decimals
    Inferred(Am),
    /// not specified whether there is one
    Any,
}

#[derive(Clone, Debug)]
pub struct EPost {
    pub acct: String,
    pub amount: Am,
    pub omitted: bool,
    pub cost: ECost,
    /// None: not specified
    pub note: Option<Option<String>>,
    /// the cost of a trade: per unit
    pub per_unit: bool,
}

#[derive(Clone, Debug)]
pub struct EXact {
    pub date: String,
    pub aux: Option<String>,
    pub payee: String,
    pub note: Option<String>,
    pub header_note_only: bool,
    pub has_comments: bool,
    pub posts: Vec<EPost>,
    pub inferred: bool,
    pub has_omitted: bool,
    pub has_cost: bool,
    /// sums to zero in every commodity by amounts
    pub balanced: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum EPrice {
    Exact(Rat),
    Near(Rat),
    Unspecified,
}

pub type Key = (String, String, String);

#[derive(Clone, Debug)]
pub struct Exp {
    pub verdict: Verdict,
    pub xacts: Vec<EXact>,
    pub accounts: BTreeSet<String>,
    pub symbols: BTreeSet<String>,
    pub prices: BTreeMap<Key, EPrice>,
    /// by symbol: lot price and lot date
    pub lots: BTreeMap<String, (Option<Am>, Option<String>)>,
    pub directives: u64,
    /// a number in it has to be refused
    pub bad_number: bool,
}

pub fn prefixes(name: &str) -> Vec<String> {
    let mut out = vec![];
    let mut cur = String::new();
    for p in name.split(':') {
        if !cur.is_empty() {
            cur.push(':');
        }
        cur += p;
        out.push(cur.clone());
    }
    out
}

impl Exp {
    pub fn empty() -> Exp {
        Exp {
            verdict: Verdict::Must,
            xacts: vec![],
            accounts: BTreeSet::new(),
            symbols: BTreeSet::new(),
            prices: BTreeMap::new(),
            lots: BTreeMap::new(),
            directives: 0,
            bad_number: false,
        }
    }
    pub fn worsen(&mut self, v: Verdict) {
        self.verdict = self.verdict.max(v);
    }
    fn num(&mut self, s: &str) -> Option<Rat> {
        match num_class(s) {
            Num::Must(v) => Some(v),
            Num::If(v) => {
                self.worsen(Verdict::If);
                Some(v)
            }
            Num::Reject => {
                self.worsen(Verdict::Reject);
                self.bad_number = true;
                None
            }
            Num::Skip => {
                self.worsen(Verdict::Skip);
                None
            }
        }
    }
    fn am(&mut self, a: &AmtT) -> Option<Am> {
        let q = self.num(&a.num)?;
        if !a.sym.is_empty() {
            self.symbols.insert(a.sym.clone());
        }
        Some(Am { q, sym: a.sym.clone() })
    }
    pub fn item(&mut self, it: &Item) {
        self.directives += 1;
        match it {
            Item::C(_) => (),
            Item::Bad(_) => self.worsen(Verdict::Reject),
            Item::P(p) => {
                let Some(q) = self.num(&p.num) else { return };
                if p.sym == p.target || p.target.is_empty() {
                    self.worsen(Verdict::Skip);
                    return;
                }
                if !valid_date(&p.date) {
                    self.worsen(Verdict::Reject);
                    return;
                }
                self.symbols.insert(p.sym.clone());
                self.symbols.insert(p.target.clone());
                let when = format!("{} {}", p.date, p.time.as_deref().unwrap_or("00:00:00"));
                if q.is_zero() {
                    // a directive with a zero rate: not specified
                    self.prices.insert((p.sym.clone(), p.target.clone(), when), EPrice::Unspecified);
                } else {
                    self.prices.insert((p.sym.clone(), p.target.clone(), when), EPrice::Exact(q));
                }
            }
            Item::X(x) => self.xact(x),
        }
    }
    fn xact(&mut self, x: &XactT) {
        if !valid_date(&x.date) || x.aux.as_ref().map_or(false, |a| !valid_date(a)) {
            self.worsen(Verdict::Reject);
            return;
        }
        let mut notes: Vec<String> = vec![];
        let mut has_comments = false;
        if let Some((_, n)) = &x.note {
            let n = n.trim();
            if !n.is_empty() {
                notes.push(n.into());
            }
        }
        let mut posts: Vec<EPost> = vec![];
        let mut xnote = notes;
        let mut pnotes: Vec<Vec<String>> = vec![];
        let mut only_header = true;
        for b in &x.body {
            match b {
                Body::Comment(c) => {
                    has_comments = true;
                    let c = c.trim();
                    if c.is_empty() {
                        continue;
                    }
                    if posts.is_empty() {
                        xnote.push(c.into());
                        only_header = false;
                    } else {
                        pnotes.last_mut().unwrap().push(c.into());
                    }
                }
                Body::Post(p) => {
                    pnotes.push(vec![]);
                    for a in prefixes(&p.acct) {
                        self.accounts.insert(a);
                    }
                    let has_amt = p.amt.is_some();
                    let a = match &p.amt {
                        Some(a) => match self.am(a) {
                            Some(a) => a,
                            None => return,
                        },
                        None => Am { q: Rat::ZERO, sym: String::new() },
                    };
                    if a.sym.is_empty() && (p.lot.price.is_some() || p.lot.date.is_some()) {
                        // a lot of nothing
                        self.worsen(Verdict::If);
                    }
                    let mut lot_price = None;
                    if let Some(l) = &p.lot.price {
                        lot_price = self.am(l);
                        if lot_price.is_none() {
                            return;
                        }
                    }
                    if let Some(d) = &p.lot.date {
                        if !valid_date(d) {
                            self.worsen(Verdict::Reject);
                            return;
                        }
                    }
                    if !a.sym.is_empty() && (lot_price.is_some() || p.lot.date.is_some()) {
                        // (the first one is kept)
                        self.lots.entry(a.sym.clone()).or_insert((lot_price, p.lot.date.clone()));
                    }
                    let mut per_unit = false;
                    let cost = match &p.cost {
                        None => ECost::None,
                        Some(c) => {
                            let Some(v) = self.am(&c.amt) else { return };
                            if v.sym == a.sym {
                                self.worsen(Verdict::Reject);
                                return;
                            }
                            if v.sym.is_empty() || a.sym.is_empty() {
                                // a price of nothing, or without a commodity
                                self.worsen(Verdict::If);
                            }
                            per_unit = c.per_unit;
                            ECost::Written(if c.per_unit { Am { q: v.q.mul(a.q), sym: v.sym } } else { v })
                        }
                    };
                    posts.push(EPost {
                        acct: p.acct.clone(),
                        amount: a,
                        omitted: !has_amt,
                        cost,
                        note: Some(None),
                        per_unit,
                    });
                }
            }
        }
        let bodies: Vec<&PostT> = x.posts().collect();
        for (i, p) in posts.iter_mut().enumerate() {
            p.note = if bodies[i].tail.contains(';') {
                None
            } else if pnotes[i].is_empty() {
                Some(None)
            } else {
                Some(Some(pnotes[i].join("\n")))
            };
        }
        let omitted = posts.iter().filter(|p| p.omitted).count();
        let has_cost = posts.iter().any(|p| p.cost != ECost::None);
        if posts.is_empty() {
            // may be refused
            self.worsen(Verdict::If);
        } else if posts.len() == 1 || omitted > 1 {
            self.worsen(Verdict::Reject);
            return;
        }
        // totals at cost
        let mut totals: BTreeMap<String, Rat> = BTreeMap::new();
        let mut by_amount: BTreeMap<String, Rat> = BTreeMap::new();
        let mut written_total_sale = false;
        for p in &posts {
            if p.omitted {
                continue;
            }
            let v = match &p.cost {
                ECost::Written(c) => c,
                _ => &p.amount,
            };
            if p.cost != ECost::None && !p.per_unit && p.amount.q.signum() * v.q.signum() < 0 {
                written_total_sale = true;
            }
            let e = totals.entry(v.sym.clone()).or_insert(Rat::ZERO);
            *e = e.add(v.q);
            let e = by_amount.entry(p.amount.sym.clone()).or_insert(Rat::ZERO);
            *e = e.add(p.amount.q);
        }
        let mut inferred = false;
        if omitted == 1 {
            let nonzero = totals.values().filter(|v| !v.is_zero()).count();
            if nonzero > 1 {
                self.worsen(Verdict::Reject);
                return;
            }
            if totals.len() != 1 {
                // the others cancel out: may be refused
                self.worsen(Verdict::If);
                if nonzero == 0 {
                    self.worsen(Verdict::Skip);
                    return;
                }
            }
            let (s, q) = totals.iter().max_by_key(|(_, v)| !v.is_zero()).unwrap();
            for p in posts.iter_mut().filter(|p| p.omitted) {
                p.amount = Am { q: q.neg(), sym: s.clone() };
            }
        } else if !has_cost {
            if totals.len() == 2 {
                let top = posts[0].amount.sym.clone();
                let other = totals.keys().find(|k| **k != top).unwrap().clone();
                let (tx, ty) = (totals[&top], totals[&other]);
                if tx.is_zero() || ty.is_zero() {
                    if !(tx.is_zero() && ty.is_zero()) {
                        self.worsen(Verdict::If);
                    }
                } else if tx.signum() == ty.signum() || top.is_empty() || other.is_empty() {
                    // may be refused, or balanced at some cost
                    self.worsen(Verdict::If);
                    for p in posts.iter_mut() {
                        p.cost = ECost::Any;
                        for (a, b) in [(&top, &other), (&other, &top)] {
                            self.prices.insert((a.clone(), b.clone(), format!("{} 00:00:00", x.date)), EPrice::Unspecified);
                        }
                    }
                } else {
                    inferred = true;
                    let ratio = ty.div(tx).abs();
                    for p in posts.iter_mut().filter(|p| p.amount.sym == top) {
                        p.cost = ECost::Inferred(Am { q: ratio.mul(p.amount.q), sym: other.clone() });
                    }
                }
            } else if totals.values().any(|v| !v.is_zero()) {
                // does not balance: may be refused
                self.worsen(Verdict::If);
            }
        } else if written_total_sale || totals.values().any(|v| !v.is_zero()) {
            self.worsen(Verdict::If);
        }
        // prices
        for p in &posts {
            let (c, exact) = match &p.cost {
                ECost::None | ECost::Any => continue,
                ECost::Written(c) => (c, false),
                ECost::Inferred(c) => (c, false),
            };
            let key = (p.amount.sym.clone(), c.sym.clone(), format!("{} 00:00:00", x.date));
            let _ = exact;
            if p.amount.q.is_zero() {
                if !c.q.is_zero() || true {
                    // no ratio: unspecified, unless the cost is zero too
                    if !c.q.is_zero() {
                        self.prices.insert(key, EPrice::Unspecified);
                    }
                }
                continue;
            }
            let r = c.q.div(p.amount.q).abs();
            if r.is_zero() {
                continue;
            }
            self.prices.insert(key, EPrice::Near(r));
        }
        let mut all: BTreeMap<&str, Rat> = BTreeMap::new();
        for p in &posts {
            let e = all.entry(&p.amount.sym).or_insert(Rat::ZERO);
            *e = e.add(p.amount.q);
        }
        let balanced = all.values().all(|v| v.is_zero());
        self.xacts.push(EXact {
            date: x.date.clone(),
            aux: x.aux.clone(),
            payee: {
                let p = x.payee.trim();
                if p.is_empty() { "Unknown Payee".into() } else { p.into() }
            },
            note: if xnote.is_empty() { None } else { Some(xnote.join("\n")) },
            header_note_only: only_header,
            has_comments,
            posts,
            inferred,
            has_omitted: omitted == 1,
            has_cost,
            balanced,
        });
    }
    /// own sums of every account, by commodity
    pub fn own(&self) -> BTreeMap<String, BTreeMap<String, Rat>> {
        let mut m: BTreeMap<String, BTreeMap<String, Rat>> = BTreeMap::new();
        m.insert(String::new(), BTreeMap::new());
        for a in &self.accounts {
            m.insert(a.clone(), BTreeMap::new());
        }
        for p in self.xacts.iter().flat_map(|x| x.posts.iter()) {
            let e = m.get_mut(&p.acct).unwrap().entry(p.amount.sym.clone()).or_insert(Rat::ZERO);
            *e = e.add(p.amount.q);
        }
        m
    }
    /// totals of every account with everything below it; the top account is ""
    pub fn totals(&self) -> BTreeMap<String, BTreeMap<String, Rat>> {
        let own = self.own();
        let mut m: BTreeMap<String, BTreeMap<String, Rat>> =
            own.keys().map(|k| (k.clone(), BTreeMap::new())).collect();
        for (a, sums) in &own {
            let mut chain = vec![String::new()];
            if !a.is_empty() {
                chain.extend(prefixes(a));
            }
            for c in chain {
                for (s, q) in sums {
                    let e = m.get_mut(&c).unwrap().entry(s.clone()).or_insert(Rat::ZERO);
                    *e = e.add(*q);
                }
            }
        }
        m
    }
    /// the accounts, each before its children, the siblings by name
    pub fn order(&self) -> Vec<String> {
        let mut v: Vec<Vec<&str>> = self.accounts.iter().map(|a| a.split(':').collect()).collect();
        v.sort();
        let mut out = vec![String::new()];
        out.extend(v.into_iter().map(|p| p.join(":")));
        out
    }
}

pub fn meaning(items: &[Item]) -> Exp {
    let mut e = Exp::empty();
    for it in items {
        e.item(it);
        if e.verdict == Verdict::Reject {
            break;
        }
    }
    e.directives = items.len() as u64;
    e
}

/// Reads what stands after the account of a posting, by the grammar
///   [AMOUNT [{AMOUNT}] [[DATE]] [@ AMOUNT | @@ AMOUNT]] [; NOTE]
/// character by character. None: it is not of this form.
pub fn read_value(text: &str) -> Option<PostT> {
    let (v, tail) = match text.find(';') {
        Some(i) => (&text[..i], &text[i..]),
        None => (text, ""),
    };
    let mut p = post("", None).tail(tail);
    let mut s = v.trim();
    if s.is_empty() {
        return Some(p);
    }
    let (a, rest) = read_amount(s)?;
    p.amt = Some(a);
    s = rest;
    loop {
        if let Some(r) = s.strip_prefix('{') {
            let (inner, after) = r.split_once('}')?;
            let (a, left) = read_amount(inner.trim())?;
            if !left.is_empty() || p.lot.price.is_some() {
                return None;
            }
            p.lot.price = Some(a);
            s = after.trim_start();
        } else if let Some(r) = s.strip_prefix('[') {
            let (inner, after) = r.split_once(']')?;
            if inner.trim().is_empty() || p.lot.date.is_some() {
                return None;
            }
            p.lot.date_first = p.lot.price.is_none();
            p.lot.date = Some(inner.trim().into());
            s = after.trim_start();
        } else {
            break;
        }
    }
    if let Some(r) = s.strip_prefix('@') {
        let (per_unit, r) = match r.strip_prefix('@') {
            Some(r) => (false, r),
            None => (true, r),
        };
        let (a, left) = read_amount(r.trim_start())?;
        p.cost = Some(CostT { per_unit, amt: a, gap: " " });
        s = left;
    }
    if s.is_empty() {
        Some(p)
    } else {
        None
    }
}

fn read_amount(s: &str) -> Option<(AmtT, &str)> {
    fn run(s: &str, f: impl Fn(char) -> bool) -> (&str, &str) {
        s.split_at(s.find(|c| !f(c)).unwrap_or(s.len()))
    }
    let number = |c: char| c.is_ascii_digit() || "-.,".contains(c);
    let symbol = |c: char| !(c.is_whitespace() || c.is_ascii_digit() || "-@;{}[]".contains(c));
    let (n, rest) = run(s, number);
    if !n.is_empty() {
        let (y, rest) = run(rest.trim_start(), symbol);
        return Some((amt(n, y), rest.trim_start()));
    }
    let (y, rest) = run(s, symbol);
    let (n, rest) = run(rest.trim_start(), number);
    if n.is_empty() {
        return None;
    }
    Some((amt(n, y), rest.trim_start()))
}

/// yyyy-mm-dd on the calendar
pub fn valid_date(s: &str) -> bool {
    let p: Vec<&str> = s.split('-').collect();
    if p.len() != 3 {
        return false;
    }
    let (Ok(y), Ok(m), Ok(d)) = (p[0].parse::<i64>(), p[1].parse::<u32>(), p[2].parse::<u32>()) else {
        return false;
    };
    let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let days = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    (1..=12).contains(&m) && d >= 1 && d <= days[(m - 1) as usize]
}
