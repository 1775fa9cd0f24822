//! The properties as predicates on (reference meaning, observation of the real journal).

use crate::model::*;
use crate::obs::*;
use crate::rt::*;
use ledger_rs_lib::account::Account;
use ledger_rs_lib::journal::Journal;
use std::collections::{BTreeMap, BTreeSet};

/// Does the journal say anything about the property? (A journal that has to be read and is
/// refused violates the properties it is relevant for.)
pub fn relevant(prop: &str, e: &Exp) -> bool {
    let any_post = e.xacts.iter().any(|x| !x.posts.is_empty());
    match prop {
        "C01" => e.xacts.iter().any(|x| x.has_omitted),
        "C03" => e.xacts.iter().any(|x| x.has_cost),
        "C04" => e.xacts.iter().any(|x| x.has_cost && x.has_omitted),
        "C05" => e.xacts.iter().any(|x| x.inferred || x.posts.len() > 1),
        "C10" => any_post && books(e),
        "C12" => e.xacts.iter().any(|x| x.has_comments || x.note.is_some()),
        "C15" | "C16" => !e.prices.is_empty(),
        "C18" | "C19" | "C17" => false,
        "C21" => false,
        "C23" => !e.lots.is_empty(),
        _ => true,
    }
}

/// Journals the property says nothing about.
pub fn outside(prop: &str, e: &Exp) -> bool {
    e.verdict < Verdict::Skip && matches!(prop, "C01" | "C03" | "C04" | "C10" | "C16" | "C21" | "C23") && !relevant(prop, e)
}

pub fn books(e: &Exp) -> bool {
    e.xacts.iter().all(|x| !x.has_cost && x.balanced)
}

macro_rules! bail {
    ($($t:tt)*) => { return Some(format!($($t)*)) };
}

fn same_posts(e: &Exp, o: &Obs) -> Option<String> {
    if e.xacts.len() != o.xacts.len() {
        bail!("{} transactions were read instead of {}", o.xacts.len(), e.xacts.len());
    }
    for (i, (x, y)) in e.xacts.iter().zip(&o.xacts).enumerate() {
        if x.posts.len() != y.posts.len() {
            bail!("transaction {} has {} postings instead of {}", i, y.posts.len(), x.posts.len());
        }
    }
    None
}

fn pairs<'a>(e: &'a Exp, o: &'a Obs) -> impl Iterator<Item = (usize, usize, &'a EXact, &'a EPost, &'a OPost)> {
    e.xacts.iter().zip(&o.xacts).enumerate().flat_map(|(xi, (x, y))| {
        x.posts.iter().zip(&y.posts).enumerate().map(move |(pi, (p, q))| (xi, pi, x, p, q))
    })
}

fn amount_is(p: &EPost, q: &OPost) -> bool {
    q.amount.as_ref().map_or(false, |a| a.is(p.amount.q, &p.amount.sym))
}

/// Violation of the property in this state, if any.
pub fn judge(prop: &str, e: &Exp, o: &Obs, j: &mut Journal) -> Option<String> {
    match prop {
        "C01" => c01(e, o),
        "C02" => c02(e, o),
        "C03" => c03(e, o),
        "C05" => c05(e, o),
        "C06" => c06(e, o, j),
        "C07" => c07(e, o, j),
        "C08" => c08(e, o, j),
        "C09" => c09(e, o, j),
        "C10" => c10(e, o, j),
        "C11" => c11(e, o),
        "C12" => c12(e, o),
        "C22" => c11(e, o).or_else(|| c02(e, o)),
        "C15" => c15(e, o),
        "C16" => c16(e, o, j),
        "C20" => c20(e, o, j),
        "C23" => c23(e, o, j),
        "ALL" => {
            // all of them at once, to try out changes (not a registered check)
            for p in ["C11", "C02", "C01", "C03", "C05", "C12", "C06", "C07", "C08", "C15", "C09", "C10", "C16", "C23", "C20"] {
                if outside(p, e) {
                    continue;
                }
                if let Some(m) = judge(p, e, o, j) {
                    return Some(format!("{}: {}", p, m));
                }
            }
            match c04(e, o, 0) {
                Outcome::Bad(m) if !outside("C04", e) => Some(format!("C04: {}", m)),
                _ => None,
            }
        }
        "C13" | "C14" => {
            for p in ["C11", "C02", "C01", "C03", "C05", "C12", "C06", "C07", "C08", "C15", "C09", "C23"] {
                if let Some(m) = judge(p, e, o, j) {
                    return Some(m);
                }
            }
            None
        }
        _ => None,
    }
}

fn c01(e: &Exp, o: &Obs) -> Option<String> {
    if let Some(m) = same_posts(e, o) {
        return Some(m);
    }
    for (xi, pi, x, p, q) in pairs(e, o) {
        if !x.has_omitted {
            continue;
        }
        if !amount_is(p, q) {
            if p.omitted {
                bail!("transaction {} posting {}: the omitted amount became {} instead of {}", xi, pi, show(&q.amount), p.amount);
            }
            bail!("transaction {} posting {}: the written amount {} became {}", xi, pi, p.amount, show(&q.amount));
        }
    }
    None
}

fn c02(e: &Exp, o: &Obs) -> Option<String> {
    if let Some(m) = same_posts(e, o) {
        return Some(m);
    }
    for (xi, pi, _, p, q) in pairs(e, o) {
        if q.acct.as_deref() != Some(p.acct.as_str()) {
            bail!("transaction {} posting {}: account {:?} instead of {:?}", xi, pi, q.acct, p.acct);
        }
        if !p.omitted && !amount_is(p, q) {
            bail!("transaction {} posting {}: read {} instead of {}", xi, pi, show(&q.amount), p.amount);
        }
    }
    None
}

fn c03(e: &Exp, o: &Obs) -> Option<String> {
    if let Some(m) = same_posts(e, o) {
        return Some(m);
    }
    for (xi, pi, _, p, q) in pairs(e, o) {
        if let ECost::Written(c) = &p.cost {
            if !q.cost.as_ref().map_or(false, |a| a.is(c.q, &c.sym)) {
                bail!("transaction {} posting {}: the cost is {} instead of {}", xi, pi, show(&q.cost), c);
            }
            if !amount_is(p, q) {
                bail!("transaction {} posting {}: the amount with a cost is {} instead of {}", xi, pi, show(&q.amount), p.amount);
            }
        }
    }
    None
}

fn c05(e: &Exp, o: &Obs) -> Option<String> {
    if let Some(m) = same_posts(e, o) {
        return Some(m);
    }
    for (xi, pi, x, p, q) in pairs(e, o) {
        match &p.cost {
            ECost::Written(_) | ECost::Any => (),
            ECost::None => {
                if q.cost.is_some() {
                    bail!("transaction {} posting {}: has the cost {} though none is defined", xi, pi, show(&q.cost));
                }
            }
            ECost::Inferred(c) => {
                if !q.cost.as_ref().map_or(false, |a| a.sym_is(&c.sym) && a.q.near(c.q)) {
                    bail!("transaction {} posting {}: the inferred cost is {} instead of {}", xi, pi, show(&q.cost), c);
                }
            }
        }
        if x.inferred && !amount_is(p, q) {
            bail!("transaction {} posting {}: inference changed the amount to {} from {}", xi, pi, show(&q.amount), p.amount);
        }
    }
    None
}

fn c06(e: &Exp, o: &Obs, j: &mut Journal) -> Option<String> {
    let mut want: BTreeSet<&str> = e.accounts.iter().map(|s| s.as_str()).collect();
    want.insert("");
    let have: BTreeSet<&str> = o.accts.iter().map(|a| a.path.as_str()).collect();
    if have.len() != o.accts.len() {
        bail!("an account is twice in the tree");
    }
    if want != have {
        bail!("the accounts are {:?} instead of {:?}", have, want);
    }
    for a in &o.accts {
        if a.name != a.key {
            bail!("account {:?} is named {:?}", a.path, a.name);
        }
        if !a.parent_ok {
            bail!("the parent of {:?} is not the account above it", a.path);
        }
        if a.fullname.as_deref() != Some(a.path.as_str()) {
            bail!("the full name of {:?} is {:?}", a.path, a.fullname);
        }
    }
    let addr: BTreeMap<String, usize> =
        tree(j).into_iter().map(|(p, a)| (p, a as *const Account as usize)).collect();
    // lookups
    let mut probes: BTreeSet<String> = BTreeSet::new();
    for a in e.accounts.iter() {
        probes.insert(a.clone());
        probes.insert(format!("{}x", a));
        probes.insert(format!("x{}", a));
        probes.insert(format!("{}:Zz", a));
        probes.insert(format!("Zz:{}", a));
        probes.insert(format!("{}:{}", a, a));
        probes.insert(a.to_lowercase());
        probes.insert(a.to_uppercase());
        probes.insert(a.replace(':', " "));
        probes.insert(format!("{} ", a));
        let parts: Vec<&str> = a.split(':').collect();
        for i in 1..parts.len() {
            probes.insert(parts[i..].join(":"));
        }
        probes.insert(parts.iter().rev().cloned().collect::<Vec<_>>().join(":"));
        let mut s = a.clone();
        s.pop();
        if !s.is_empty() && !s.ends_with(':') {
            probes.insert(s);
        }
        if probes.len() > 300 {
            break;
        }
    }
    for p in &probes {
        let got = match guard(|| j.find_account(p).map(|a| a as *const Account as usize)) {
            Ok(g) => g,
            Err(m) => bail!("looking up {:?} failed: {}", p, m),
        };
        let want = if e.accounts.contains(p) { addr.get(p).copied() } else { None };
        if got != want {
            bail!("looking up {:?} gives {}", p, match got {
                None => "nothing".to_string(),
                Some(g) => match addr.iter().find(|(_, v)| **v == g) {
                    Some((k, _)) => format!("the account {:?}", k),
                    None => "something outside of the tree".to_string(),
                },
            });
        }
    }
    let after: BTreeMap<String, usize> =
        tree(j).into_iter().map(|(p, a)| (p, a as *const Account as usize)).collect();
    if after != addr {
        bail!("looking up accounts changed the tree");
    }
    // registering the used names again finds them
    for a in e.accounts.iter().take(40) {
        let got = match guard(|| j.register_account(a).map(|p| p as usize)) {
            Ok(g) => g,
            Err(m) => bail!("registering {:?} again failed: {}", a, m),
        };
        if got != addr.get(a).copied() {
            bail!("registering {:?} again gives another account", a);
        }
    }
    let after: BTreeMap<String, usize> =
        tree(j).into_iter().map(|(p, a)| (p, a as *const Account as usize)).collect();
    if after != addr {
        bail!("registering the existing accounts again changed the tree");
    }
    None
}

pub fn links(o: &Obs) -> Option<String> {
    for a in &o.accts {
        if !a.parent_ok {
            bail!("the parent link of {:?} does not lead to the account above it", a.path);
        }
        if a.posts.iter().any(|p| p.is_none()) {
            bail!("the list of postings of {:?} leads outside of the journal", a.path);
        }
    }
    let mut lists: BTreeMap<&str, Vec<(usize, usize)>> = BTreeMap::new();
    for (xi, x) in o.xacts.iter().enumerate() {
        for (pi, p) in x.posts.iter().enumerate() {
            let Some(a) = &p.acct else { bail!("transaction {} posting {}: the account link leads outside of the journal", xi, pi) };
            lists.entry(a).or_default().push((xi, pi));
            if !p.xact_ok {
                bail!("transaction {} posting {}: the transaction link does not lead to its transaction", xi, pi);
            }
            for (what, a) in [("amount", &p.amount), ("cost", &p.cost)] {
                if a.as_ref().map_or(false, |a| a.sym == OSym::Bad) {
                    bail!("transaction {} posting {}: the commodity of the {} is not in the journal", xi, pi, what);
                }
            }
        }
    }
    for a in &o.accts {
        let want = lists.remove(a.path.as_str()).unwrap_or_default();
        let have: Vec<(usize, usize)> = a.posts.iter().map(|p| p.unwrap()).collect();
        if want != have {
            bail!("the postings of {:?} are listed as {:?} instead of {:?}", a.path, have, want);
        }
    }
    for p in &o.prices {
        if p.from == OSym::Bad || p.to == OSym::Bad {
            bail!("a price links to a commodity that is not in the journal");
        }
    }
    None
}

fn c07(e: &Exp, o: &Obs, j: &mut Journal) -> Option<String> {
    if let Some(m) = links(o) {
        return Some(m);
    }
    if let Some(m) = same_posts(e, o) {
        return Some(m);
    }
    for (xi, pi, _, p, q) in pairs(e, o) {
        if q.acct.as_deref() != Some(p.acct.as_str()) {
            bail!("transaction {} posting {}: the account link leads to {:?} instead of {:?}", xi, pi, q.acct, p.acct);
        }
        if !q.amount.as_ref().map_or(false, |a| a.sym_is(&p.amount.sym)) {
            bail!("transaction {} posting {}: the commodity link is wrong: {}", xi, pi, show(&q.amount));
        }
        if let ECost::Written(c) | ECost::Inferred(c) = &p.cost {
            if !q.cost.as_ref().map_or(false, |a| a.sym_is(&c.sym)) {
                bail!("transaction {} posting {}: the commodity link of the cost is wrong: {}", xi, pi, show(&q.cost));
            }
        }
    }
    let all: Vec<usize> = j.all_posts().iter().map(|p| *p as *const _ as usize).collect();
    let want: Vec<usize> = j
        .xacts
        .iter()
        .flat_map(|x| x.posts.iter())
        .map(|p| {
            let p: &ledger_rs_lib::post::Post = p;
            p as *const _ as usize
        })
        .collect();
    if all != want {
        bail!("the list of all postings is not the postings of the transactions in order");
    }
    None
}

fn c08(e: &Exp, o: &Obs, j: &mut Journal) -> Option<String> {
    if !o.missing_symbols.is_empty() {
        bail!("no commodity for {:?}", o.missing_symbols);
    }
    if o.commodities != e.symbols.len() {
        bail!("{} commodities for the {} symbols {:?}", o.commodities, e.symbols.len(), e.symbols);
    }
    let mut seen = BTreeSet::new();
    for s in &e.symbols {
        let c = j.commodity_pool.find(s).unwrap();
        if &c.symbol != s {
            bail!("the commodity {:?} has the symbol {:?}", s, c.symbol);
        }
        let Ok(i) = guard(|| j.commodity_pool.find_index(s)) else { bail!("finding the index of {:?} failed", s) };
        let Some(i) = i else { bail!("no index for {:?}", s) };
        let r = guard(|| j.commodity_pool.get_by_index(i) as *const _ as usize);
        if r != Ok(c as *const _ as usize) {
            bail!("the index of {:?} leads to another commodity", s);
        }
        if c.graph_index != Some(i) || guard(|| j.get_commodity(i) as *const _ as usize) != r {
            bail!("the index of {:?} is not the one the journal gives", s);
        }
        if !seen.insert(i) {
            bail!("the index of {:?} is not unique", s);
        }
    }
    for s in &e.symbols {
        let mut short = s.clone();
        short.pop();
        for other in [format!("{}x", s), s.to_lowercase(), s.to_uppercase(), format!(" {}", s), short, "".into()] {
            if e.symbols.contains(&other) {
                continue;
            }
            match guard(|| (j.commodity_pool.find(&other).is_some(), j.commodity_pool.find_index(&other).is_some())) {
                Ok((false, false)) => (),
                Ok(_) => bail!("there is a commodity for {:?}, which never occurred", other),
                Err(m) => bail!("looking up {:?} failed: {}", other, m),
            }
        }
    }
    if let Some(m) = same_posts(e, o) {
        return Some(m);
    }
    for (xi, pi, _, p, q) in pairs(e, o) {
        if !q.amount.as_ref().map_or(false, |a| a.sym_is(&p.amount.sym)) {
            bail!("transaction {} posting {}: the commodity is wrong: {} instead of {}", xi, pi, show(&q.amount), p.amount);
        }
        if let ECost::Written(c) | ECost::Inferred(c) = &p.cost {
            if !q.cost.as_ref().map_or(false, |a| a.sym_is(&c.sym)) {
                bail!("transaction {} posting {}: the commodity of the cost is wrong: {} instead of {}", xi, pi, show(&q.cost), c);
            }
        }
    }
    // what adds up together
    if o.links_safe() {
        let (syms, _) = Syms::of(j, &e.symbols);
        let totals = e.totals();
        for (path, a) in tree(j) {
            if let Some(m) = sums(&syms, guard(|| a.total().amounts), &totals[&path], &format!("the total of {:?}", path)) {
                return Some(m);
            }
        }
    } else {
        bail!("links lead outside of the journal");
    }
    None
}

/// Are these amounts exactly the given sums, one per commodity?
fn sums(syms: &Syms, got: Result<Vec<ledger_rs_lib::amount::Amount>, String>, want: &BTreeMap<String, Rat>, what: &str) -> Option<String> {
    let got = match got {
        Ok(g) => g,
        Err(m) => bail!("{} failed: {}", what, m),
    };
    let list: Vec<OAmt> = got.iter().map(|a| syms.amt(a)).collect();
    let text = || list.iter().map(|a| a.to_string()).collect::<Vec<_>>().join(", ");
    if list.len() != want.len() {
        bail!("{} is [{}] instead of {:?}", what, text(), want);
    }
    for (s, q) in want {
        if list.iter().filter(|a| a.is(*q, s)).count() != 1 {
            bail!("{} is [{}], it has to contain {} {}", what, text(), q, s);
        }
    }
    None
}

const LINE: &str = "Account ";
const MID: &str = " has balance ";

pub fn parse_line(line: &str) -> Option<(&str, &str)> {
    let t = line.strip_prefix(LINE)?;
    let i = t.rfind(MID)?;
    Some((&t[..i], &t[i + MID.len()..]))
}

/// Is this the balance report of the journal?
pub fn report_matches(e: &Exp, lines: &[String], ordered: bool) -> Option<String> {
    let totals = e.totals();
    let order = e.order();
    let mut names = vec![];
    for l in lines {
        let Some((n, t)) = parse_line(l) else { bail!("the report has the line {:?}", l) };
        let Some(want) = totals.get(n) else { bail!("the report has a line for the unknown account: {:?}", l) };
        if !balance_text_matches(t, want) {
            bail!("the report says {:?}, the total is {:?}", l, want);
        }
        names.push(n);
    }
    let mut a = names.clone();
    a.sort();
    let mut b: Vec<&str> = order.iter().map(|s| s.as_str()).collect();
    let c = b.clone();
    b.sort();
    if a != b {
        bail!("the report has the accounts {:?} instead of {:?}", a, b);
    }
    if ordered && names != c {
        bail!("the report has the order {:?} instead of {:?}", names, c);
    }
    None
}

fn c09(e: &Exp, o: &Obs, j: &mut Journal) -> Option<String> {
    if !o.links_safe() {
        bail!("the totals cannot be calculated: links lead outside of the journal");
    }
    let (syms, _) = Syms::of(j, &e.symbols);
    let (own, totals) = (e.own(), e.totals());
    for (path, a) in tree(j) {
        let (Some(w), Some(t)) = (own.get(&path), totals.get(&path)) else { bail!("unknown account {:?}", path) };
        if let Some(m) = sums(&syms, guard(|| a.amount().amounts), w, &format!("the own amount of {:?}", path)) {
            return Some(m);
        }
        if let Some(m) = sums(&syms, guard(|| a.total().amounts), t, &format!("the total of {:?}", path)) {
            return Some(m);
        }
    }
    match guard(|| ledger_rs_lib::report::balance_report(j)) {
        Ok(lines) => report_matches(e, &lines, false),
        Err(m) => bail!("the balance report failed: {}", m),
    }
}

fn c10(e: &Exp, o: &Obs, j: &mut Journal) -> Option<String> {
    if !books(e) {
        return None;
    }
    if !o.links_safe() {
        bail!("the grand total cannot be calculated: links lead outside of the journal");
    }
    let (syms, _) = Syms::of(j, &e.symbols);
    let total = match guard(|| j.master.total().amounts) {
        Ok(t) => t,
        Err(m) => bail!("the grand total failed: {}", m),
    };
    let list: Vec<OAmt> = total.iter().map(|a| syms.amt(a)).collect();
    if let Some(a) = list.iter().find(|a| !a.q.is_zero()) {
        bail!("the grand total of balanced books is {}", a);
    }
    let used: BTreeSet<&str> = e.xacts.iter().flat_map(|x| &x.posts).map(|p| p.amount.sym.as_str()).collect();
    for s in &used {
        if !list.iter().any(|a| a.sym_is(s)) {
            bail!("the grand total says nothing about {:?}", s);
        }
    }
    // the sum over all the accounts, and over all the postings
    let mut sum: BTreeMap<OSym, Rat> = BTreeMap::new();
    for (_, a) in tree(j) {
        let Ok(own) = guard(|| a.amount().amounts) else { bail!("the amount of an account failed") };
        for x in &own {
            let x = syms.amt(x);
            let en = sum.entry(x.sym).or_insert(Rat::ZERO);
            *en = en.add(x.q);
        }
    }
    if let Some((s, q)) = sum.iter().find(|(_, q)| !q.is_zero()) {
        bail!("all accounts together have {} {:?}", q, s);
    }
    let mut sum: BTreeMap<OSym, Rat> = BTreeMap::new();
    for p in o.xacts.iter().flat_map(|x| &x.posts) {
        let Some(a) = &p.amount else { bail!("a posting has no amount") };
        let en = sum.entry(a.sym.clone()).or_insert(Rat::ZERO);
        *en = en.add(a.q);
    }
    if let Some((s, q)) = sum.iter().find(|(_, q)| !q.is_zero()) {
        bail!("all postings together have {} {:?}", q, s);
    }
    let lines = match guard(|| ledger_rs_lib::report::balance_report(j)) {
        Ok(l) => l,
        Err(m) => bail!("the balance report failed: {}", m),
    };
    let zero: BTreeMap<String, Rat> = used.iter().map(|s| (s.to_string(), Rat::ZERO)).collect();
    let top: Vec<&String> = lines.iter().filter(|l| parse_line(l).map_or(false, |p| p.0.is_empty())).collect();
    if top.len() != 1 || !balance_text_matches(parse_line(top[0]).unwrap().1, &zero) {
        bail!("the report of balanced books says {:?}", top);
    }
    None
}

fn c11(e: &Exp, o: &Obs) -> Option<String> {
    if e.xacts.len() != o.xacts.len() {
        bail!("{} transactions were read instead of {}", o.xacts.len(), e.xacts.len());
    }
    for (i, (x, y)) in e.xacts.iter().zip(&o.xacts).enumerate() {
        if y.date.as_deref() != Some(x.date.as_str()) {
            bail!("transaction {}: the date is {:?} instead of {:?}", i, y.date, x.date);
        }
        if y.aux != x.aux {
            bail!("transaction {}: the auxiliary date is {:?} instead of {:?}", i, y.aux, x.aux);
        }
        if y.payee != x.payee {
            bail!("transaction {}: the payee is {:?} instead of {:?}", i, y.payee, x.payee);
        }
        if x.header_note_only && y.note != x.note {
            bail!("transaction {}: the note is {:?} instead of {:?}", i, y.note, x.note);
        }
    }
    None
}

fn c12(e: &Exp, o: &Obs) -> Option<String> {
    if let Some(m) = same_posts(e, o) {
        return Some(m);
    }
    for (i, (x, y)) in e.xacts.iter().zip(&o.xacts).enumerate() {
        if y.note != x.note {
            bail!("transaction {}: the note is {:?} instead of {:?}", i, y.note, x.note);
        }
    }
    for (xi, pi, x, p, q) in pairs(e, o) {
        if let Some(n) = &p.note {
            if &q.note != n {
                bail!("transaction {} posting {}: the note is {:?} instead of {:?}", xi, pi, q.note, n);
            }
        }
        if x.has_comments {
            if q.acct.as_deref() != Some(p.acct.as_str()) || !amount_is(p, q) {
                bail!("transaction {} posting {}: {:?} {} instead of {:?} {} next to comments", xi, pi, q.acct, show(&q.amount), p.acct, p.amount);
            }
        }
    }
    None
}

fn c15(e: &Exp, o: &Obs) -> Option<String> {
    if cfg!(not(ledger_verif)) {
        return None;
    }
    let mut have: BTreeMap<Key, Rat> = BTreeMap::new();
    for p in &o.prices {
        let (OSym::Sym(a), OSym::Sym(b)) = (&p.from, &p.to) else {
            bail!("a price between {:?} and {:?} is recorded", p.from, p.to)
        };
        if have.insert((a.clone(), b.clone(), p.when.clone()), p.rate).is_some() {
            bail!("two prices of {} in {} at {}", a, b, p.when);
        }
    }
    for (k, w) in &e.prices {
        let h = have.remove(k);
        let ok = match (w, h) {
            (EPrice::Unspecified, _) => true,
            (EPrice::Exact(r), Some(h)) => h == *r,
            (EPrice::Near(r), Some(h)) => h.near(*r),
            (_, None) => false,
        };
        if !ok {
            bail!("the price of {} in {} at {} is recorded as {:?} instead of {:?}", k.0, k.1, k.2, h.map(|h| h.to_string()), w);
        }
    }
    if let Some((k, h)) = have.iter().next() {
        bail!("a price of {} in {} at {} is recorded ({}), which was not given", k.0, k.1, k.2, h);
    }
    None
}

fn c23(e: &Exp, o: &Obs, j: &mut Journal) -> Option<String> {
    let text = |l: &(Option<Am>, Option<String>)| format!("({:?}, {:?})", l.0.as_ref().map(|a| a.to_string()), l.1);
    if cfg!(ledger_verif) {
        for (s, p, d) in &o.lots {
            let Some(w) = e.lots.get(s) else {
                bail!("{} has a lot although none was written", s);
            };
            let same = match (&w.0, p) {
                (None, None) => true,
                (Some(w), Some(p)) => p.is(w.q, &w.sym),
                _ => false,
            };
            if !same || &w.1 != d {
                bail!("the lot of {} is ({}, {:?}) instead of {}", s, show(p), d, text(w));
            }
        }
        if let Some((s, w)) = e.lots.iter().find(|(s, _)| !o.lots.iter().any(|l| &l.0 == *s)) {
            bail!("the lot {} of {} is missing", text(w), s);
        }
    }
    // what an exchange makes of it
    use ledger_rs_lib::amount::{Amount, Quantity};
    let moment = ledger_rs_lib::parser::parse_datetime("2023-05-06").unwrap();
    let (syms, _) = Syms::of(j, &e.symbols);
    let Some(cost_sym) = e.symbols.iter().next_back() else { return None };
    for s in e.symbols.iter().take(12) {
        let (Some(c), Some(k)) = (j.commodity_pool.find(s), j.commodity_pool.find(if s == cost_sym { e.symbols.iter().next().unwrap() } else { cost_sym })) else {
            bail!("the commodity {} is missing", s);
        };
        let amount = Amount::new(Quantity::from("2"), Some(c));
        let cost = Amount::new(Quantity::from("7"), Some(k));
        let got = match guard(|| j.commodity_pool.exchange(&amount, &cost, false, moment).0.basis_cost) {
            Ok(b) => syms.amt(&b),
            Err(m) => bail!("exchanging {} failed: {}", s, m),
        };
        let (q, y) = match e.lots.get(s).and_then(|l| l.0.as_ref()) {
            Some(p) => (p.q.mul(Rat::int(2)), if p.sym.is_empty() { s } else { &p.sym }),
            None => (Rat::int(7), if s == cost_sym { e.symbols.iter().next().unwrap() } else { cost_sym }),
        };
        if !got.is(q, y) {
            bail!("the basis of 2 {} is {} instead of {} {}", s, got, q, y);
        }
    }
    None
}

#[cfg(not(ledger_verif))]
fn c16(_: &Exp, _: &Obs, _: &mut Journal) -> Option<String> {
    None
}

/// The most recent rate of each pair: (rate, exact, moment)
pub type Rates = BTreeMap<(String, String), (Rat, String)>;

pub fn latest(prices: &BTreeMap<Key, EPrice>) -> Option<Rates> {
    let mut m: Rates = BTreeMap::new();
    for (k, p) in prices {
        let r = match p {
            EPrice::Exact(r) | EPrice::Near(r) => *r,
            EPrice::Unspecified => return None,
        };
        let e = m.entry((k.0.clone(), k.1.clone())).or_insert((r, k.2.clone()));
        if k.2 >= e.1 {
            *e = (r, k.2.clone());
        }
    }
    Some(m)
}

/// All (rate, date) along the chains with the fewest steps.
pub fn chains(m: &Rates, from: &str, to: &str) -> Vec<(Rat, String)> {
    let mut layer: Vec<(String, Rat, String)> = vec![(from.to_string(), Rat::int(1), "9999-99-99".into())];
    let mut seen: BTreeSet<String> = [from.to_string()].into();
    while !layer.is_empty() {
        let mut next: Vec<(String, Rat, String)> = vec![];
        for (at, r, d) in &layer {
            for ((_, b), (rate, when)) in m.range((at.clone(), String::new())..).take_while(|((a, _), _)| a == at) {
                if !seen.contains(b) {
                    next.push((b.clone(), r.mul(*rate), if when < d { when.clone() } else { d.clone() }));
                }
            }
        }
        let hits: Vec<(Rat, String)> = next.iter().filter(|x| x.0 == to).map(|x| (x.1, x.2.clone())).collect();
        if !hits.is_empty() {
            return hits;
        }
        for x in &next {
            seen.insert(x.0.clone());
        }
        next.sort();
        next.dedup();
        layer = next;
    }
    vec![]
}

#[cfg(ledger_verif)]
pub fn lookup(j: &Journal, syms: &Syms, from: &str, to: &str, times: (&str, &str)) -> Result<Option<(OAmt, String)>, String> {
    let a = j.commodity_pool.find(from).ok_or("no commodity")? as *const _;
    let b = j.commodity_pool.find(to).ok_or("no commodity")? as *const _;
    let moment = ledger_rs_lib::parser::parse_datetime(times.0).unwrap();
    let oldest = ledger_rs_lib::parser::parse_datetime(times.1).unwrap();
    guard(|| ledger_rs_lib::verif_hooks::find_price(&j.commodity_pool, a, b, moment, oldest))
        .map(|r| r.map(|(when, p)| (syms.amt(&p), when.to_string())))
}

#[cfg(ledger_verif)]
pub fn lookups(m: &Rates, symbols: &[&str], j: &Journal, syms: &Syms, pass: usize) -> Option<String> {
    // The answer does not depend on the times given (the code does not use them).
    let times = [("9990-01-01", "0001-01-01"), ("1801-01-01", "9990-01-01"), ("2021-06-15", "2021-02-15")][pass];
    for a in symbols {
        for b in symbols {
            if a == b {
                continue;
            }
            let want = chains(m, a, b);
            let got = match lookup(j, syms, a, b, times) {
                Ok(g) => g,
                Err(x) => bail!("looking up the price of {} in {} failed: {}", a, b, x),
            };
            let ok = match &got {
                None => want.is_empty(),
                Some((p, when)) => p.sym_is(b) && want.iter().any(|(r, d)| r.near(p.q) && d == when),
            };
            if !ok {
                bail!("the price of {} in {} is {:?}, the shortest chains of rates give {:?}", a, b, got.map(|(p, d)| format!("{} at {}", p, d)), want);
            }
        }
    }
    None
}

#[cfg(ledger_verif)]
fn c16(e: &Exp, o: &Obs, j: &mut Journal) -> Option<String> {
    if o.commodities != e.symbols.len() || !o.missing_symbols.is_empty() {
        bail!("the commodities are not the symbols used");
    }
    let Some(m) = latest(&e.prices) else { return None };
    let symbols: Vec<&str> = e.symbols.iter().map(|s| s.as_str()).take(9).collect();
    let (syms, _) = Syms::of(j, &e.symbols);
    for pass in 0..3 {
        if let Some(x) = lookups(&m, &symbols, j, &syms, pass) {
            return Some(x);
        }
    }
    if &observe(j, &e.symbols) != o {
        bail!("looking up prices changed the journal");
    }
    None
}

fn c20(e: &Exp, o: &Obs, j: &mut Journal) -> Option<String> {
    if !o.links_safe() {
        bail!("no report: links lead outside of the journal");
    }
    let r1 = match guard(|| ledger_rs_lib::report::balance_report(j)) {
        Ok(l) => l,
        Err(m) => bail!("the balance report failed: {}", m),
    };
    let names: Vec<&str> = r1.iter().filter_map(|l| parse_line(l).map(|p| p.0)).collect();
    let order = e.order();
    if names != order {
        bail!("the report has the order {:?} instead of {:?}", names, order);
    }
    let flat: Vec<String> = match guard(|| j.master.flatten_account_tree().iter().map(|a| a.fullname().to_string()).collect::<Vec<_>>()) {
        Ok(f) => f,
        Err(m) => bail!("the flattened tree failed: {}", m),
    };
    if flat != order {
        bail!("the flattened tree has the order {:?} instead of {:?}", flat, order);
    }
    let r2 = guard(|| ledger_rs_lib::report::balance_report(j));
    if r2.as_ref() != Ok(&r1) {
        bail!("a repeated report differs: {:?} and {:?}", r1, r2);
    }
    let after = observe(j, &e.symbols);
    if &after != o {
        bail!("reporting changed the journal");
    }
    None
}

// ---------------------------------------------------------------------------------------------

pub enum Outcome {
    Ok(u64),
    Refused,
    Unspecified,
    Bad(String),
    Known(&'static str, String),
}

pub fn unclaimed(prop: &str, e: &Exp) -> bool {
    match e.verdict {
        Verdict::Skip => true,
        Verdict::Reject => !(prop == "C21" || prop == "ALL" || (prop == "C02" && e.bad_number)),
        _ => outside(prop, e),
    }
}

/// Reads the items as one text and judges the property.
pub fn run_items(prop: &str, items: &[Item], text: &str) -> Outcome {
    let e = meaning(items);
    if unclaimed(prop, &e) {
        // nothing is claimed; not even run
        return Outcome::Unspecified;
    }
    let mut j = Journal::new();
    let r = guard(|| ledger_rs_lib::parse_text(text, &mut j));
    judge_read(prop, &e, r, &mut j)
}

pub fn judge_read(prop: &str, e: &Exp, r: Result<(), String>, j: &mut Journal) -> Outcome {
    match (e.verdict, r) {
        (Verdict::Skip, _) => Outcome::Unspecified,
        (Verdict::Reject, Err(_)) => Outcome::Refused,
        (Verdict::Reject, Ok(())) => {
            if prop == "C21" || prop == "ALL" || (prop == "C02" && e.bad_number) {
                Outcome::Bad("was read without complaint although it has no defined meaning".into())
            } else {
                Outcome::Unspecified
            }
        }
        (Verdict::If, Err(_)) => Outcome::Unspecified,
        (Verdict::Must, Err(m)) => {
            if relevant(prop, e) {
                Outcome::Bad(format!("was not read: {}", m))
            } else {
                Outcome::Unspecified
            }
        }
        (_, Ok(())) => {
            let o = observe(j, &e.symbols);
            let h = o.hash64();
            if prop == "C04" {
                return c04(e, &o, h);
            }
            match judge(prop, e, &o, j) {
                Some(m) => Outcome::Bad(m),
                None => Outcome::Ok(h),
            }
        }
    }
}

pub const KF_SALE_AT_TOTAL: &str = "sale-at-total-cost";

fn c04(e: &Exp, o: &Obs, h: u64) -> Outcome {
    if let Some(m) = same_posts(e, o) {
        return Outcome::Bad(m);
    }
    for (xi, (x, y)) in e.xacts.iter().zip(&o.xacts).enumerate() {
        if !x.has_omitted || !x.has_cost {
            continue;
        }
        let mut want = Rat::ZERO;
        let mut finding = false;
        let mut odd = false;
        for p in &x.posts {
            if p.omitted {
                continue;
            }
            match &p.cost {
                ECost::Written(c) => {
                    want = want.sub(c.q.abs().mul(Rat::int(p.amount.q.signum())));
                    if p.amount.q.signum() * c.q.signum() < 0 {
                        if !p.per_unit && p.amount.q.signum() < 0 {
                            finding = true;
                        } else {
                            odd = true;
                        }
                    }
                    if p.amount.q.is_zero() && !c.q.is_zero() {
                        odd = true;
                    }
                }
                _ => want = want.sub(p.amount.q),
            }
        }
        if odd {
            continue;
        }
        for (pi, (p, q)) in x.posts.iter().zip(&y.posts).enumerate() {
            if !p.omitted {
                continue;
            }
            if q.amount.as_ref().map_or(false, |a| a.is(want, &p.amount.sym)) {
                continue;
            }
            if finding && q.amount.as_ref().map_or(false, |a| a.is(p.amount.q, &p.amount.sym)) {
                return Outcome::Known(
                    KF_SALE_AT_TOTAL,
                    "a negative quantity with a positive total cost (`-10 VEUR @@ 25 EUR`) takes the cost out of the counter-posting instead of bringing it in".into(),
                );
            }
            return Outcome::Bad(format!(
                "transaction {} posting {}: the counter-posting of the trade is {} instead of {} {}",
                xi, pi, show(&q.amount), want, p.amount.sym
            ));
        }
    }
    Outcome::Ok(h)
}

/// Runs a case of a journal family.
pub fn case(ch: &Ch, cx: &mut Cx, items: &[Item]) {
    if cx.prop == "C13" {
        return same_in_all_layouts(ch, cx, items);
    }
    if cx.prop == "C14" {
        return same_in_all_deliveries(ch, cx, items);
    }
    let text = render(items);
    case_text(ch, cx, items, &text)
}

/// The same journal in several layouts: read with the same result, or refused, in all of them.
fn same_in_all_layouts(ch: &Ch, cx: &mut Cx, items: &[Item]) {
    let texts: Vec<String> = (0..LAYOUTS).map(|v| render_layout(items, v)).collect();
    same_in_layouts(ch, cx, items, &meaning(items), texts)
}

fn same_in_layouts(ch: &Ch, cx: &mut Cx, items: &[Item], e: &Exp, texts: Vec<String>) {
    cx.count((items.len() * texts.len()) as u64);
    cx.sample(|| texts[texts.len() - 1].clone());
    if e.verdict == Verdict::Skip {
        cx.unspecified();
        return;
    }
    let (out, which) = cx.exec(ch, || {
        let mut first: Option<Result<(Obs, Vec<String>), ()>> = None;
        for (v, text) in texts.iter().enumerate() {
            let mut j = Journal::new();
            let r = match guard(|| ledger_rs_lib::parse_text(text, &mut j)) {
                Err(m) => {
                    if e.verdict == Verdict::Must {
                        return (Outcome::Bad(format!("was not read: {}", m)), v);
                    }
                    Err(())
                }
                Ok(()) => {
                    let o = observe(&j, &e.symbols);
                    let rep = if o.links_safe() { guard(|| ledger_rs_lib::report::balance_report(&j)).unwrap_or_default() } else { vec![] };
                    Ok((o, rep))
                }
            };
            match &first {
                None => first = Some(r),
                Some(f) if *f != r => {
                    let show = |r: &Result<(Obs, Vec<String>), ()>| match r {
                        Err(()) => "is refused".to_string(),
                        Ok((o, rep)) => format!("gives {:?} {:?}", o.xacts, rep),
                    };
                    return (Outcome::Bad(format!("this layout {}, the plain layout {}", show(&r), show(f))), v);
                }
                _ => (),
            }
        }
        match first {
            Some(Ok((o, _))) => (Outcome::Ok(o.hash64()), 0),
            _ => (Outcome::Refused, 0),
        }
    });
    record(ch, cx, out, &texts[which]);
}

/// The same journal read at once, byte by byte, in odd chunks, and cut after every directive.
fn same_in_all_deliveries(ch: &Ch, cx: &mut Cx, items: &[Item]) {
    let text = render(items);
    let windows = render_layout(items, 3);
    let mut ways: Vec<(String, Vec<(usize, String)>)> = vec![
        ("at once".into(), vec![(0, text.clone())]),
        ("byte by byte".into(), vec![(1, text.clone())]),
        ("with Windows line ends, byte by byte".into(), vec![(1, windows)]),
        ("in chunks of 7 bytes".into(), vec![(7, text.clone())]),
        ("one directive after another".into(), items.iter().enumerate().map(|(i, it)| (i % 3, render(std::slice::from_ref(it)))).collect()),
    ];
    for k in 1..items.len().min(6) {
        ways.push((format!("cut after directive {}", k), vec![(0, render(&items[..k])), (5, render(&items[k..]))]));
    }
    cx.count((items.len() * ways.len()) as u64);
    cx.sample(|| text.clone());
    let e = meaning(items);
    if e.verdict == Verdict::Skip {
        cx.unspecified();
        return;
    }
    let out = cx.exec(ch, || {
        let mut first: Option<Result<(Obs, Vec<String>), ()>> = None;
        for (what, parts) in &ways {
            let mut j = Journal::new();
            let r = guard(|| {
                for (chunk, t) in parts {
                    let before = j.xacts.len();
                    if *chunk == 0 {
                        ledger_rs_lib::parse_text(t, &mut j);
                    } else {
                        let n = j.read(crate::spec::Pieces::every(t.as_bytes(), *chunk));
                        if n != j.xacts.len() - before {
                            return Some(n);
                        }
                    }
                }
                None
            });
            let r = match r {
                Err(m) => {
                    if e.verdict == Verdict::Must {
                        return Outcome::Bad(format!("{}: was not read: {}", what, m));
                    }
                    Err(())
                }
                Ok(Some(n)) => return Outcome::Bad(format!("{}: reported {} transactions", what, n)),
                Ok(None) => {
                    let o = observe(&j, &e.symbols);
                    let rep = if o.links_safe() { guard(|| ledger_rs_lib::report::balance_report(&j)).unwrap_or_default() } else { vec![] };
                    Ok((o, rep))
                }
            };
            match &first {
                None => first = Some(r),
                Some(f) if *f != r => {
                    let show = |r: &Result<(Obs, Vec<String>), ()>| match r {
                        Err(()) => "is refused".to_string(),
                        Ok((o, rep)) => format!("gives {:?} {:?}", o.xacts, rep),
                    };
                    return Outcome::Bad(format!("{}: {}, at once it {}", what, show(&r), show(f)));
                }
                _ => (),
            }
        }
        match first {
            Some(Ok((o, _))) => Outcome::Ok(o.hash64()),
            _ => Outcome::Refused,
        }
    });
    record(ch, cx, out, &text);
}

/// Runs a case with its own text, and a verdict that is at least the given one.
pub fn case_lines(ch: &Ch, cx: &mut Cx, items: &[Item], text: &str, verdict: Verdict) {
    let mut e = meaning(items);
    e.worsen(verdict);
    if cx.prop == "C13" {
        if verdict > Verdict::Must {
            cx.count(1);
            cx.unspecified();
            return;
        }
        return same_in_layouts(ch, cx, items, &e, vec![render(items), text.to_string(), text.replace('\n', "\r\n")]);
    }
    cx.count(items.len() as u64);
    cx.sample(|| text.to_string());
    let prop = cx.prop.clone();
    if unclaimed(&prop, &e) {
        cx.unspecified();
        return;
    }
    let out = cx.exec(ch, || {
        let mut j = Journal::new();
        let r = guard(|| ledger_rs_lib::parse_text(text, &mut j));
        judge_read(&prop, &e, r, &mut j)
    });
    record(ch, cx, out, text);
}

/// Reads the directives one by one into the same journal and judges it after each.
pub fn step_case(ch: &Ch, cx: &mut Cx, items: &[Item]) {
    let text = items.iter().map(|i| render(std::slice::from_ref(i))).collect::<Vec<_>>().join("--- then ---\n");
    cx.count(items.len() as u64);
    cx.sample(|| text.clone());
    let prop = cx.prop.clone();
    let out = cx.exec(ch, || {
        let mut j = Journal::new();
        let mut last = Outcome::Unspecified;
        for k in 0..items.len() {
            let e = meaning(&items[..=k]);
            let t = render(&items[k..=k]);
            let r = guard(|| ledger_rs_lib::parse_text(&t, &mut j));
            let safe = r.is_ok() && observe(&j, &e.symbols).links_safe();
            match judge_read(&prop, &e, r, &mut j) {
                Outcome::Bad(m) => return Outcome::Bad(format!("after directive {}: {}", k + 1, m)),
                o => last = o,
            }
            if !safe {
                return last;
            }
            // everything is looked at, whichever property is judged
            let _ = guard(|| ledger_rs_lib::report::balance_report(&j));
            let _ = guard(|| ledger_rs_lib::report::report_accounts(&j));
            for a in &e.accounts {
                let _ = guard(|| j.find_account(a).map(|a| a.amount().amounts.len() + a.total().amounts.len()));
            }
            let o = observe(&j, &e.symbols);
            if prop != "C16" {
                let _ = c16(&e, &o, &mut j);
            }
        }
        last
    });
    record(ch, cx, out, &text);
}

/// Two journals that live at the same time, read in turns: each has to be as if it were alone.
/// `turns`: whose directive is read next. `drop_first`: the journal that is complete first is gone from then on.
pub fn pair_case(ch: &Ch, cx: &mut Cx, sides: [&[Item]; 2], turns: &[usize], drop_first: bool) {
    let mut at = [0, 0];
    let mut text = String::new();
    for &s in turns {
        text += &format!("--- into journal {} ---\n{}", s + 1, render(&sides[s][at[s]..=at[s]]));
        at[s] += 1;
    }
    cx.count(turns.len() as u64);
    cx.sample(|| text.clone());
    let prop = cx.prop.clone();
    let out = cx.exec(ch, || {
        let mut js = [Some(Journal::new()), Some(Journal::new())];
        let mut at = [0, 0];
        let mut last = Outcome::Unspecified;
        let mut dropped = false;
        for &s in turns {
            let e = meaning(&sides[s][..=at[s]]);
            let t = render(&sides[s][at[s]..=at[s]]);
            at[s] += 1;
            let j = js[s].as_mut().unwrap();
            let r = guard(|| ledger_rs_lib::parse_text(&t, j));
            let safe = r.is_ok() && observe(j, &e.symbols).links_safe();
            match judge_read(&prop, &e, r, j) {
                Outcome::Bad(m) => return Outcome::Bad(format!("journal {} after directive {}: {}", s + 1, at[s], m)),
                o => last = o,
            }
            if !safe {
                return last;
            }
            let _ = guard(|| ledger_rs_lib::report::balance_report(j));
            if drop_first && !dropped && at[s] == sides[s].len() && at[1 - s] < sides[1 - s].len() {
                js[s] = None;
                dropped = true;
            }
        }
        for s in 0..2 {
            if let Some(j) = js[s].as_mut() {
                let e = meaning(sides[s]);
                match judge_read(&prop, &e, Ok(()), j) {
                    Outcome::Bad(m) => return Outcome::Bad(format!("journal {} at the end: {}", s + 1, m)),
                    o => last = o,
                }
            }
        }
        last
    });
    record(ch, cx, out, &text);
}

/// A journal read after another one was refused.
pub fn after_case(ch: &Ch, cx: &mut Cx, refused: &str, items: &[Item]) {
    let t = render(items);
    let text = format!("--- into a journal that is given up ---\n{}--- into a new journal ---\n{}", refused, t);
    cx.count(items.len() as u64 + 1);
    cx.sample(|| text.clone());
    let prop = cx.prop.clone();
    let out = cx.exec(ch, || {
        let _ = guard(|| {
            let mut j = Journal::new();
            ledger_rs_lib::parse_text(refused, &mut j)
        });
        run_items(&prop, items, &t)
    });
    record(ch, cx, out, &text);
}

pub fn case_text(ch: &Ch, cx: &mut Cx, items: &[Item], text: &str) {
    cx.count(items.len() as u64);
    cx.sample(|| text.to_string());
    let prop = cx.prop.clone();
    let out = cx.exec(ch, || run_items(&prop, items, text));
    record(ch, cx, out, text);
}

pub fn record(ch: &Ch, cx: &mut Cx, out: Outcome, text: &str) {
    match out {
        Outcome::Ok(h) => {
            cx.checked();
            cx.state(h);
        }
        Outcome::Refused => cx.rejected(),
        Outcome::Unspecified => cx.unspecified(),
        Outcome::Bad(m) => cx.fail(ch, m, text),
        Outcome::Known(k, w) => {
            cx.checked();
            cx.known(k, &w, ch, text)
        }
    }
}
