//! What can be seen of a real journal. Pointers are compared as addresses with the objects the
//! journal owns; nothing is read through a pointer before it is known to lead to such an object.

use crate::model::{parse_dec, Rat};
use crate::rt::hash_of;
use ledger_rs_lib::account::Account;
use ledger_rs_lib::amount::Amount;
use ledger_rs_lib::commodity::Commodity;
use ledger_rs_lib::journal::Journal;
use ledger_rs_lib::post::Post;
use ledger_rs_lib::xact::Xact;
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum OSym {
    None,
    Sym(String),
    /// leads to something that is not a commodity of the journal
    Bad,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct OAmt {
    pub q: Rat,
    pub sym: OSym,
}
impl OAmt {
    pub fn is(&self, q: Rat, sym: &str) -> bool {
        self.q == q && self.sym_is(sym)
    }
    pub fn sym_is(&self, sym: &str) -> bool {
        match &self.sym {
            OSym::None => sym.is_empty(),
            OSym::Sym(s) => s == sym,
            OSym::Bad => false,
        }
    }
}
impl std::fmt::Display for OAmt {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match &self.sym {
            OSym::None => write!(f, "{}", self.q),
            OSym::Sym(s) => write!(f, "{} {}", self.q, s),
            OSym::Bad => write!(f, "{} <commodity outside of the journal>", self.q),
        }
    }
}
pub fn show(a: &Option<OAmt>) -> String {
    a.as_ref().map_or("nothing".into(), |a| a.to_string())
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct OPost {
    /// full name of the account the link leads to
    pub acct: Option<String>,
    pub xact_ok: bool,
    pub amount: Option<OAmt>,
    pub cost: Option<OAmt>,
    pub note: Option<String>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct OXact {
    pub date: Option<String>,
    pub aux: Option<String>,
    pub payee: String,
    pub note: Option<String>,
    pub posts: Vec<OPost>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct OAcct {
    /// path of the keys
    pub path: String,
    pub key: String,
    pub name: String,
    pub parent_ok: bool,
    pub fullname: Option<String>,
    /// (xact, post) of its postings; None when outside of the journal
    pub posts: Vec<Option<(usize, usize)>>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct OPrice {
    pub from: OSym,
    pub to: OSym,
    pub when: String,
    pub rate: Rat,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Obs {
    pub xacts: Vec<OXact>,
    /// by path, the top account is ""
    pub accts: Vec<OAcct>,
    pub prices: Vec<OPrice>,
    /// symbol, lot price, lot date
    pub lots: Vec<(String, Option<OAmt>, Option<String>)>,
    pub commodities: usize,
    pub missing_symbols: Vec<String>,
}
impl Obs {
    pub fn hash64(&self) -> u64 {
        hash_of(self)
    }
    pub fn links_safe(&self) -> bool {
        self.accts.iter().all(|a| a.parent_ok && a.posts.iter().all(|p| p.is_some()))
            && self.xacts.iter().flat_map(|x| &x.posts).all(|p| {
                p.acct.is_some()
                    && p.amount.as_ref().map_or(true, |a| a.sym != OSym::Bad)
                    && p.cost.as_ref().map_or(true, |a| a.sym != OSym::Bad)
            })
    }
}

pub struct Syms(HashMap<usize, String>);
impl Syms {
    pub fn of(j: &Journal, symbols: &BTreeSet<String>) -> (Syms, Vec<String>) {
        let mut m = HashMap::new();
        let mut missing = vec![];
        for s in symbols {
            match j.commodity_pool.find(s) {
                Some(c) => {
                    m.insert(c as *const Commodity as usize, s.clone());
                }
                None => missing.push(s.clone()),
            }
        }
        (Syms(m), missing)
    }
    pub fn sym(&self, c: *const Commodity) -> OSym {
        if c.is_null() {
            return OSym::None;
        }
        match self.0.get(&(c as usize)) {
            Some(s) => OSym::Sym(s.clone()),
            None => OSym::Bad,
        }
    }
    pub fn amt(&self, a: &Amount) -> OAmt {
        OAmt {
            q: rat(&a.quantity),
            sym: match a.get_commodity() {
                None => OSym::None,
                Some(c) => self.sym(c as *const Commodity),
            },
        }
    }
}

pub fn rat(q: &ledger_rs_lib::amount::Quantity) -> Rat {
    let s = q.to_string();
    parse_dec(&s).unwrap_or_else(|| panic!("quantity {:?}", s))
}

fn walk<'a>(a: &'a Account, path: &str, key: &str, parent: *const Account, out: &mut Vec<(String, String, &'a Account, bool)>) {
    #[cfg(ledger_verif)]
    let ok = ledger_rs_lib::verif_hooks::account_parent(a) == parent;
    #[cfg(not(ledger_verif))]
    let ok = {
        let _ = parent;
        true
    };
    out.push((path.to_string(), key.to_string(), a, ok));
    let mut keys: Vec<&String> = a.accounts.keys().collect();
    keys.sort();
    for k in keys {
        let c: &Account = a.accounts.get(k).unwrap();
        let p = if path.is_empty() { k.to_string() } else { format!("{}:{}", path, k) };
        walk(c, &p, k, a, out);
    }
}

/// The accounts of the journal with their paths.
pub fn tree(j: &Journal) -> Vec<(String, &Account)> {
    let mut v = vec![];
    walk(&j.master, "", "", std::ptr::null(), &mut v);
    v.into_iter().map(|(p, _, a, _)| (p, a)).collect()
}

pub fn observe(j: &Journal, symbols: &BTreeSet<String>) -> Obs {
    let (syms, missing_symbols) = Syms::of(j, symbols);
    let mut accts = vec![];
    walk(&j.master, "", "", std::ptr::null(), &mut accts);
    let by_addr: HashMap<usize, &str> =
        accts.iter().map(|(p, _, a, _)| (*a as *const Account as usize, p.as_str())).collect();
    let parents_ok = accts.iter().all(|x| x.3);
    let mut post_addr: HashMap<usize, (usize, usize)> = HashMap::new();
    let mut xacts = vec![];
    for (xi, x) in j.xacts.iter().enumerate() {
        let mut posts = vec![];
        for (pi, p) in x.posts.iter().enumerate() {
            let p: &Post = p;
            post_addr.insert(p as *const Post as usize, (xi, pi));
            posts.push(OPost {
                acct: by_addr.get(&(p.account as usize)).map(|s| s.to_string()),
                xact_ok: p.xact_ptr == x as *const Xact,
                amount: p.amount.as_ref().map(|a| syms.amt(a)),
                cost: p.cost.as_ref().map(|a| syms.amt(a)),
                note: p.note.clone(),
            });
        }
        xacts.push(OXact {
            date: x.date.map(|d| d.to_string()),
            aux: x.aux_date.map(|d| d.to_string()),
            payee: x.payee.clone(),
            note: x.note.clone(),
            posts,
        });
    }
    let accts = accts
        .iter()
        .map(|(path, key, a, ok)| OAcct {
            path: path.clone(),
            key: key.clone(),
            name: a.name.clone(),
            parent_ok: *ok,
            fullname: if parents_ok { Some(a.fullname().to_string()) } else { None },
            posts: a.posts.iter().map(|p| post_addr.get(&(*p as usize)).copied()).collect(),
        })
        .collect();
    #[allow(unused_mut)]
    let mut prices = vec![];
    #[cfg(ledger_verif)]
    {
        for (from, to, when, q) in ledger_rs_lib::verif_hooks::prices(&j.commodity_pool) {
            prices.push(OPrice { from: syms.sym(from), to: syms.sym(to), when: when.to_string(), rate: rat(&q) });
        }
        prices.sort_by(|a, b| format!("{:?}", a).cmp(&format!("{:?}", b)));
    }
    #[allow(unused_mut)]
    let mut lots = vec![];
    #[cfg(ledger_verif)]
    {
        for (symbol, price, date) in ledger_rs_lib::verif_hooks::lots(&j.commodity_pool) {
            lots.push((symbol, price.map(|p| syms.amt(&p)), date.map(|d| d.to_string())));
        }
        lots.sort_by(|a, b| a.0.cmp(&b.0));
    }
    Obs { xacts, accts, prices, lots, commodities: j.commodity_pool.len(), missing_symbols }
}

/// Is the text a list of exactly these amounts, in any order, as the balance report writes them?
pub fn balance_text_matches(text: &str, want: &BTreeMap<String, Rat>) -> bool {
    fn go(t: &str, left: &mut Vec<(&str, Rat)>) -> bool {
        if left.is_empty() {
            return t.is_empty();
        }
        // (a space between the amounts is allowed, and needed after an amount without a symbol:
        // digits that follow each other are one number)
        let t = t.strip_prefix(' ').unwrap_or(t);
        let b = t.as_bytes();
        let mut end = 0;
        while end < b.len() && (b[end].is_ascii_digit() || b[end] == b'.' || (end == 0 && b[end] == b'-')) {
            end += 1;
        }
        for i in 0..left.len() {
            let (s, q) = left[i];
            if end > 0 {
                let e = end;
                if parse_dec(&t[..e]) != Some(q) || t[..e].ends_with('.') {
                    continue;
                }
                let rest = if s.is_empty() {
                    Some(&t[e..])
                } else {
                    t[e..].strip_prefix(' ').and_then(|r| r.strip_prefix(s))
                };
                if let Some(r) = rest {
                    let x = left.swap_remove(i);
                    let ok = go(r, left);
                    left.push(x);
                    let n = left.len();
                    left.swap(i, n - 1);
                    if ok {
                        return true;
                    }
                }
            }
        }
        false
    }
    let mut left: Vec<(&str, Rat)> = want.iter().map(|(s, q)| (s.as_str(), *q)).collect();
    go(text, &mut left)
}
