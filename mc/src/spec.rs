//! Families that belong to single properties.

use crate::fam::*;
use crate::model::*;
use crate::obs::*;
use crate::props::*;
use crate::rt::*;
use ledger_rs_lib::account::Account;
use ledger_rs_lib::amount::{Amount, Quantity};
use ledger_rs_lib::commodity::Commodity;
use ledger_rs_lib::journal::Journal;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;
use std::path::Path;

pub fn uses_shared(p: &str) -> bool {
    !matches!(p, "C17" | "C18" | "C19" | "C22")
}

/// (C13 runs each journal in several layouts and C14 in several deliveries.)
pub fn wants(p: &str, family: &str) -> bool {
    !matches!(p, "C13" | "C14") || !matches!((p, family), ("C14", "journal-lines")) && !matches!(family, "phrases" | "side-by-side" | "after-refusal" | "stepwise" | "postings" | "numerals" | "digits" | "costs")
}

pub fn families(p: &str) -> Vec<Family> {
    match p {
        "C01" => vec![
            Family { name: "precision", bound: "every 1 to 3 (thorough 4) of 12 values of one commodity, the omitted posting at every position", run: f_precision },
            Family { name: "trades", bound: "every 1 to 3 (thorough 4) of 9 trades and fees, the omitted posting at every position", run: f_trades },
        ],
        "C02" => vec![
            Family { name: "bare", bound: "every numeral up to length 4 (thorough 5) x 3 symbols x 5 notations, read as a bare amount", run: f_bare },
            Family { name: "numbers-symbols", bound: "every string over 0 1 . , - up to length 4 (thorough 5) with 25 symbols in 5 notations", run: f_numbers_symbols },
            Family { name: "whole-numbers", bound: "every number of up to 4 (thorough 5) digits, with a decimal point at every place or without, x sign", run: f_whole_numbers },
            Family { name: "lines", bound: "what stands after the account: every sequence of up to 4 (thorough 5) of 12 atoms, and of 14 atoms and phrases, joined with and without spaces x 2 counter-postings", run: f_lines },
        ],
        "C03" => vec![
            Family { name: "trades", bound: "every 1 to 3 (thorough 4) of 9 trades and fees, the omitted posting at every position", run: f_trades },
            Family { name: "lines", bound: "what stands after the account: every sequence of up to 4 (thorough 5) of 12 atoms, and of 14 atoms and phrases, joined with and without spaces x 2 counter-postings", run: f_lines },
        ],
        "C04" => vec![Family { name: "trades", bound: "every 1 to 3 (thorough 4) of 9 trades and fees, the omitted posting at every position", run: f_trades }],
        "C06" => vec![
            Family { name: "registrations", bound: "every sequence of up to 4 (thorough 5) of 15 registrations, lookups and readings", run: f_registrations },
            Family { name: "spellings", bound: "every account name of up to 5 (thorough 7) of the characters A, b, colon and space, next to 4 other accounts, written with and without amount and registered", run: f_spellings },
        ],
        "C07" => vec![Family { name: "operations", bound: "every sequence of up to 4 (thorough 5) of 16 operations on a journal, moves included, every account and commodity handed out followed", run: f_operations }],
        "C08" => vec![Family { name: "requests", bound: "every sequence of up to 4 (thorough 5) of 17 requests, price directives and readings", run: f_requests }],
        "C10" => vec![Family { name: "precision", bound: "every 1 to 3 (thorough 4) of 12 values of one commodity, the omitted posting at every position", run: f_precision }],
        "C11" => vec![
            Family { name: "payees", bound: "every payee and note of up to 4 (thorough 5) of 22 tokens, without and with an auxiliary date", run: f_payees },
            Family { name: "header-lines", bound: "every sequence of up to 5 (thorough 6) of 10 tokens after the date of a transaction", run: f_header_lines },
        ],
        "C12" => vec![
            Family { name: "comment-texts", bound: "every text of up to 3 (thorough 4) of 20 tokens as a comment of the transaction, of either posting, or of all", run: f_comment_texts },
            Family { name: "alike-notes", bound: "every sequence of 2 or 3 (thorough 4) of 13 texts that contain, begin or end with each other, as comments of the transaction, of its first or its last posting x 3 header notes x given once or to two elements", run: f_alike_notes },
        ],
        "C13" => vec![
            Family { name: "rules", bound: "comment and blank lines of every length 1..100 (thorough 300) out of 14 fillings x 4 comment signs x 4 places x 2 line ends", run: f_rules },
            Family { name: "widths", bound: "indentation, gap, trailing space, blank lines and comment lines of each size 1..130 (thorough 700), for 3 journals", run: f_widths },
            Family { name: "layouts", bound: "6 journals, every combination of at most 2 (thorough 3) departures from the default layout, for Unix and Windows line ends", run: f_layouts },
        ],
        "C14" => vec![
            Family { name: "chunks", bound: "every chunk size, every cut in two and in three, every pair of interruptions of single-byte reads", run: f_chunks },
            Family { name: "everywhere", bound: "each defect, each character alone and 13 unusual characters at 5 places, x 7 deliveries x 3 ends: refused in all or in none of them", run: f_everywhere },
            Family { name: "boundary", bound: "the end of the 8 KiB buffer at every byte of the journal", run: f_boundary },
            Family { name: "sources", bound: "every cut of a journal of 6 directives into up to 3 sources x 7 ways of delivery each", run: f_sources },
            Family { name: "includes", bound: "every nesting of two included files, by absolute and relative path, and a file included twice", run: f_includes },
            Family { name: "include-words", bound: "every include line of 1 to 3 (thorough 4) of 6 words, next to each set of files out of 5, the named one among them or not", run: f_include_words },
            Family { name: "path-characters", bound: "103 characters at 7 places of the name of an included file, next to files named without it, relative and absolute", run: f_path_characters },
            Family { name: "paths", bound: "24 forms of the path of an included file x 4 line ends x 3 places x 3 ways to read the including file", run: f_paths },
            Family { name: "nested", bound: "chains of 1..24 (thorough 80) files that include the next one, and 1..40 (150) includes in a row, x 4 arrangements of the transactions", run: f_nested },
        ],
        "C15" => vec![
            Family { name: "price-lines", bound: "every sequence of up to 5 (thorough 6) of 9 tokens after the P of a price directive x 3 separators", run: f_price_lines },
        ],
        "C16" => vec![
            Family { name: "graphs", bound: "every set of known pairs among 2 to 4 commodities x 3 orders of dates x 3 histories x 2 recording orders", run: f_graphs },
            Family { name: "large-graphs", bound: "thorough: every set of known pairs among 5 commodities (2^20); quick: those with at most 5 pairs", run: f_graphs5 },
            Family { name: "moments", bound: "every sequence of 2 to 4 (thorough 5) prices of 3 pairs at 5 moments of 3 days, with fractional rates", run: f_moments },
            Family { name: "rivals", bound: "two separate chains of 1 to 5 steps with 1, 2, 3, 5 or 9 prices per pair each, x 2 orders of recording x 3 datings", run: f_rivals },
            Family { name: "chains", bound: "chains and cycles of up to 16 commodities with a shortcut between each two", run: f_chains },
        ],
        "C17" => vec![
            Family { name: "lengths", bound: "every pair of numbers of 7 (thorough 14) lengths of the whole part x 8 (15) of the fraction x 3 digit patterns x signs, as far as exact results have at most 28 digits, all operations", run: f_lengths },
            Family { name: "integers", bound: "all whole numbers from -6000 to 5999 and around the powers of 2 and 10, as quantities and amounts and back", run: f_integers },
            Family { name: "pairs", bound: "every ordered pair of 26 quantities x 9 combinations of commodities x all operations", run: f_pairs },
            Family { name: "balances", bound: "every sequence of up to 4 (thorough 5) additions and subtractions of 7 amounts", run: f_balances },
            Family { name: "many", bound: "balances of 1..40 (thorough 150) commodities, with an addition, a subtraction, a cancellation or a sum at every position", run: f_bal_many },
            Family { name: "sums", bound: "every sum of 3 balances out of 15 contents", run: f_sums },
        ],
        "C18" => vec![Family { name: "exchange", bound: "15 quantities x 11 costs x 2 forms x 7 lots x 5 journals around it x 6 moments x 3 cost symbols", run: f_exchange_api }],
        "C19" => vec![
            Family { name: "arguments", bound: "6 commands at every position among up to 3 file options out of 4 files x 5 ways to give them", run: f_cli },
            Family { name: "many", bound: "4..17 (thorough 43) file options in 4 patterns x every position of the command x 3 ways to give them", run: f_cli_many },
            Family { name: "unknown-words", bound: "218 words that are no command or no option x 7 command lines x 2 ways: refused", run: f_cli_unknown },
            Family { name: "words", bound: "every command line of up to 4 (thorough 5) of 10 words: commands, options, files; accepted or refused", run: f_cli_words },
            Family { name: "file-names", bound: "38 unusual file names x 4 commands x 3 positions x in the directory or below x 5 ways to give them", run: f_cli_names },
        ],
        "C20" => vec![
            Family { name: "orders", bound: "sets of up to 4 (thorough 5) sibling names, read and reported with as many hash seeds as needed to see all orders of the collections", run: f_orders },
            Family { name: "alike", bound: "3 siblings that agree in their first or last 1..40 (thorough 130) characters, x 4 shapes x 16 hash seeds", run: f_alike },
            Family { name: "sibling-lengths", bound: "two siblings of every two lengths up to 56 (thorough 140) x 5 common beginnings x 5 pairs of fillings", run: f_sibling_lengths },
            Family { name: "character-order", bound: "2 siblings and their sub-accounts that differ in one character, every pair of 94 ASCII and 17 other characters at 3 places, x 3 hash seeds", run: f_character_order },
        ],
        "C21" => vec![
            Family { name: "everywhere", bound: "each defect, each character alone and 13 unusual characters at 5 places, x 7 deliveries x 3 ends: refused in all or in none of them", run: f_everywhere },
            Family { name: "include-words", bound: "every include line of 1 to 3 (thorough 4) of 6 words, next to each set of files out of 5, the named one among them or not", run: f_include_words },
            Family { name: "unknown-directives", bound: "415 words and characters that start no directive x 9 continuations x 4 places", run: f_unknown },
            Family { name: "defects", bound: "each of the defects between every two of 14 surroundings", run: f_defects },
            Family { name: "spellings", bound: "every account name of up to 5 (thorough 7) of the characters A, b, colon and space, next to 4 other accounts, written with and without amount and registered", run: f_spellings },
            Family { name: "dates", bound: "4 years x months 0..13 x days 0..32 x 4 places", run: f_dates },
            Family { name: "ambiguous", bound: "every 1 to 4 of 9 postings that leave no single meaning, after 14 surroundings", run: f_ambiguous },
            Family { name: "lines", bound: "what stands after the account: every sequence of up to 4 (thorough 5) of 12 atoms, and of 14 atoms and phrases, joined with and without spaces x 2 counter-postings", run: f_lines },
            Family { name: "price-lines", bound: "every sequence of up to 5 (thorough 6) of 9 tokens after the P of a price directive x 3 separators", run: f_price_lines },
            Family { name: "header-lines", bound: "every sequence of up to 5 (thorough 6) of 10 tokens after the date of a transaction", run: f_header_lines },
        ],
        "C22" => vec![
            Family { name: "kinds-of-errors", bound: "every kind of read error (as kind, with a message, and all errors of the system) at every line start, line end and inside lines x 2 chunk sizes x what the source does afterwards", run: f_kinds },
            Family { name: "failing-reads", bound: "a read error of 7 kinds after every byte of 2 journals x 5 chunk sizes x what the source does afterwards (end, go on, fail again), alone or after a complete source", run: f_failing },
            Family { name: "not-text", bound: "each of 6 bytes or byte sequences that are not UTF-8 inserted at, and put in the place of, every byte of 2 journals x 7 ways of delivery", run: f_not_text },
            Family { name: "cut-characters", bound: "2 journals ended at every byte, inside a character or not, x 7 ways of delivery", run: f_cut_characters },
            Family { name: "late-failures", bound: "the failure or the bad byte after 1..40 (thorough 200) transactions, and at each byte around the 8 KiB buffer ends", run: f_late_failures },
            Family { name: "missing-files", bound: "a missing file, a directory, a file that is not text and a path through a file, at every position among up to 3 file options or includes x 5 ways", run: f_missing_files },
        ],
        "C23" => vec![
            Family { name: "lots", bound: "every sequence of 1 to 3 (thorough 4) of 24 postings with and without lots of 3 commodities, in one transaction, in one each, or with prices between them", run: f_lots },
            Family { name: "lot-dates", bound: "every day of 4 years and the first and last day of each month of 200 years as lot date, x 3 forms", run: f_lot_dates },
            Family { name: "lot-prices", bound: "every number of up to 3 (thorough 4) digits with a point at every place or without, 3 notations, x 3 forms", run: f_lot_prices },
            Family { name: "lines", bound: "what stands after the account: every sequence of up to 4 (thorough 5) of 12 atoms, and of 14 atoms and phrases, joined with and without spaces x 2 counter-postings", run: f_lines },
        ],
        _ => vec![],
    }
}

// ---------------------------------------------------------------------------------------------

fn f_precision(ch: &mut Ch, cx: &mut Cx) -> R {
    let vals = ["1", "-1", "0.1", "-0.02", "0.003", "0", "99.99", "-1000000", "123456.789", "0.0000001", "-0.10", "12,345.60"];
    let n = 1 + ch.choose(cx.t(3, 4));
    let a = ch.choose(vals.len());
    let at = ch.choose(n + 1);
    ch.shard()?;
    let names = ["A:B", "A", "C", "A:B", "D:E:F"];
    let mut ps = vec![];
    for i in 0..n {
        let v = if i == 0 { a } else { ch.choose(vals.len()) };
        ps.push(post(names[i], Some(amt(vals[v], "EUR"))));
    }
    ps.insert(at, post("X:Y", None));
    case(ch, cx, &[Item::X(xact(D1, "P", ps))]);
    Ok(())
}

fn f_trades(ch: &mut Ch, cx: &mut Cx) -> R {
    let t = |q: &str, s: &str, per: bool, p: &str| post("A:Stocks", Some(amt(q, s))).cost(per, amt(p, "EUR"));
    let forms = vec![
        t("10", "VEUR", true, "2.5"),
        t("-10", "VEUR", true, "2.5"),
        t("3", "VEUR", false, "25"),
        t("-3", "VEUR", false, "25"),
        t("-3", "VEUR", false, "-25"),
        t("0.5", "ABC", true, "100").lot_price(amt("90", "EUR")).lot_date("2022-01-01"),
        t("-0.5", "ABC", true, "100").lot_price(amt("90", "EUR")),
        post("E:Fee", Some(amt("1.25", "EUR"))),
        post("I:Div", Some(amt("-4", "EUR"))),
    ];
    let n = 1 + ch.choose(cx.t(3, 4));
    let a = ch.choose(forms.len());
    let at = ch.choose(n + 1);
    ch.shard()?;
    let mut ps = vec![];
    for i in 0..n {
        let v = if i == 0 { a } else { ch.choose(forms.len()) };
        ps.push(forms[v].clone());
    }
    ps.insert(at, post("A:Cash", None));
    case(ch, cx, &[Item::X(xact(D1, "P", ps))]);
    Ok(())
}

/// All the digits.
fn f_whole_numbers(ch: &mut Ch, cx: &mut Cx) -> R {
    let len = 1 + ch.choose(cx.t(4, 5));
    let mut s = String::new();
    for i in 0..len {
        s.push((b'0' + ch.choose(10) as u8) as char);
        if i == 1 || len == 1 {
            ch.shard()?;
        }
    }
    // five transactions: no point, and a point at each place
    let mut items = vec![];
    for at in 0..=len {
        let mut n = s.clone();
        if at > 0 {
            n.insert(at - 1, '.');
        }
        let first = if at == 1 { AmtT { num: n.clone(), sym: "EUR".into(), style: 1 } } else { amt(&n, "EUR") };
        items.push(Item::X(xact(D1, "N", vec![post("A", Some(first)), post("B", Some(amt(&format!("-{}", n), "EUR"))), post("C", None)])));
    }
    case(ch, cx, &items);
    Ok(())
}

/// Every numeral with symbols of all kinds, in every notation.
fn f_numbers_symbols(ch: &mut Ch, cx: &mut Cx) -> R {
    const A: &[u8] = b"01.,-";
    const SYMS: [&str; 25] = ["EUR", "$", "V.X", "V,X", "X.", "X,", "a.b.c", "x'y", "é", "_", "A&B", "%", "a:b", "x/y", "\"q\"", "x#y", "*", "!", "A|B", "~x", "<x>", "\\", "?x", "e", "E"];
    let sym = *ch.pick(&SYMS);
    let len = 1 + ch.choose(cx.t(4, 5));
    let mut s = String::new();
    s.push(A[ch.choose(A.len())] as char);
    ch.shard()?;
    while s.len() < len {
        s.push(A[ch.choose(A.len())] as char);
    }
    let style = ch.choose(5);
    if (style == 2 || style == 3) && (s.starts_with('.') || s.starts_with(',')) {
        return Ok(());
    }
    let a = amt(&s, sym).styled(style);
    case(ch, cx, &[Item::X(xact(D1, "P", vec![post("A:B", Some(a)), post("C", None)]))]);
    Ok(())
}

fn f_bare(ch: &mut Ch, cx: &mut Cx) -> R {
    const A: &[u8] = b"150.,-9";
    let len = 1 + ch.choose(cx.t(4, 5));
    let mut s = String::new();
    s.push(A[ch.choose(A.len())] as char);
    if len > 1 {
        s.push(A[ch.choose(A.len())] as char);
    }
    ch.shard()?;
    while s.len() < len {
        s.push(A[ch.choose(A.len())] as char);
    }
    let sym = *ch.pick(&["EUR", "$", ""]);
    let style = if sym.is_empty() { 0 } else { ch.choose(5) };
    if (style == 2 || style == 3) && (s.starts_with('.') || s.starts_with(',')) {
        return Ok(());
    }
    let rest = *ch.pick(&["", " 5", " 000 EUR", " x", " {3 EUR}", " @ 2 USD"]);
    if rest == " x" && sym.is_empty() {
        return Ok(());
    }
    let text = amt(&s, sym).styled(style).text() + rest;
    // (with something after it, it is not an amount)
    let want = if rest.is_empty() { num_class(&s) } else { Num::Reject };
    cx.count(1);
    cx.sample(|| text.clone());
    let out = cx.exec(ch, || {
        let mut j = Journal::new();
        let r = guard(|| ledger_rs_lib::parser::parse_amount(&text, &mut j));
        let set: BTreeSet<String> = if sym.is_empty() { BTreeSet::new() } else { [sym.to_string()].into() };
        let got = match r {
            Ok(Some(a)) => {
                let (syms, _) = Syms::of(&j, &set);
                Some(syms.amt(&a))
            }
            _ => None,
        };
        match (want, got) {
            (Num::Skip, _) => Outcome::Unspecified,
            (Num::Reject, None) => Outcome::Refused,
            (Num::If(_), None) => Outcome::Unspecified,
            (Num::Must(v) | Num::If(v), Some(a)) if a.is(v, sym) => Outcome::Ok(hash_of(&a)),
            (w, g) => Outcome::Bad(format!("reading the amount gives {}, it has to be {:?} {}", show(&g), w, sym)),
        }
    });
    record(ch, cx, out, &text);
    Ok(())
}

/// An expectation that can be extended step by step.
fn use_account(e: &mut Exp, name: &str) {
    for p in prefixes(name) {
        e.accounts.insert(p);
    }
}

/// An account stays the same object for as long as the journal lives.
fn same_accounts(j: &Journal, given: &mut BTreeMap<String, usize>) -> Option<String> {
    let now: BTreeMap<String, usize> = tree(j).into_iter().map(|(p, a)| (p, a as *const Account as usize)).collect();
    for (n, p) in given.iter() {
        // (the top account is part of the journal and moves with it)
        if !n.is_empty() && now.get(n) != Some(p) {
            return Some(format!("the account {:?} is not the one any more that was handed out", n));
        }
    }
    *given = now;
    None
}

fn f_registrations(ch: &mut Ch, cx: &mut Cx) -> R {
    #[derive(Clone, Debug)]
    enum Op {
        Reg(&'static str),
        Find(&'static str),
        Read(&'static str, &'static str),
        Sub(&'static str, &'static str),
    }
    let ops = vec![
        Op::Reg("Assets"),
        Op::Reg("Assets:Cash"),
        Op::Reg("Assets:Cash:Box"),
        Op::Reg("Cash"),
        Op::Reg("Expenses:Assets"),
        Op::Reg("Assets:Bank"),
        Op::Reg("Expenses:Assets:Cash"),
        Op::Find("Assets:Cash"),
        Op::Find("Expenses"),
        Op::Find("Assets:Nowhere:Deep"),
        Op::Read("Assets:Cash", "Expenses:Food"),
        Op::Read("Expenses", "Assets"),
        Op::Sub("Assets", "Cash:Box"),
        Op::Sub("Assets", "Bank"),
        Op::Reg("Račun:Ž"),
    ];
    let n = 1 + ch.choose(cx.t(4, 5));
    let mut v = vec![ch.choose(ops.len())];
    if n > 1 {
        v.push(ch.choose(ops.len()));
    }
    ch.shard()?;
    while v.len() < n {
        v.push(ch.choose(ops.len()));
    }
    let seq: Vec<Op> = v.iter().map(|i| ops[*i].clone()).collect();
    let text = format!("{:?}", seq);
    cx.count(seq.len() as u64);
    cx.sample(|| text.clone());
    let out = cx.exec(ch, || {
        let mut j = Journal::new();
        let mut e = Exp::empty();
        // what was handed out for each name
        let mut given: BTreeMap<String, usize> = BTreeMap::new();
        for (k, op) in seq.iter().enumerate() {
            if let Some(m) = same_accounts(&j, &mut given) {
                return Outcome::Bad(format!("before step {}: {}", k, m));
            }
            match op {
                Op::Reg(n) => {
                    use_account(&mut e, n);
                    match guard(|| j.register_account(n).map(|p| p as usize)) {
                        Ok(Some(p)) => {
                            if !tree(&j).iter().any(|(path, a)| path == n && *a as *const Account as usize == p) {
                                return Outcome::Bad(format!("step {}: registering {:?} does not give that account", k, n));
                            }
                        }
                        x => return Outcome::Bad(format!("step {}: registering {:?} gives {:?}", k, n, x)),
                    }
                }
                Op::Find(n) => match guard(|| j.find_account(n).map(|p| p as *const Account as usize)) {
                    Ok(got) => {
                        let want = tree(&j).iter().find(|(path, _)| path == n).map(|(_, a)| *a as *const Account as usize);
                        if got != want || want.is_some() != e.accounts.contains(*n) {
                            return Outcome::Bad(format!("step {}: looking up {:?} is wrong", k, n));
                        }
                    }
                    Err(m) => return Outcome::Bad(format!("step {}: looking up {:?} failed: {}", k, n, m)),
                },
                Op::Read(a, b) => {
                    let it = Item::X(xact(D1, "R", vec![post(a, Some(amt("1", "EUR"))), post(b, None)]));
                    let t = render(&[it.clone()]);
                    if let Err(m) = guard(|| ledger_rs_lib::parse_text(&t, &mut j)) {
                        return Outcome::Bad(format!("step {}: was not read: {}", k, m));
                    }
                    e.item(&it);
                }
                Op::Sub(a, b) => {
                    // below an account
                    use_account(&mut e, a);
                    use_account(&mut e, &format!("{}:{}", a, b));
                    let r = guard(|| {
                        let p = j.register_account(a).unwrap();
                        j.get_account(p).find_or_create(b, true).map(|p| p as usize)
                    });
                    let full = format!("{}:{}", a, b);
                    match r {
                        Ok(Some(p)) => {
                            if !tree(&j).iter().any(|(path, a)| *path == full && *a as *const Account as usize == p) {
                                return Outcome::Bad(format!("step {}: creating {:?} below {:?} does not give that account", k, b, a));
                            }
                        }
                        x => return Outcome::Bad(format!("step {}: creating {:?} below {:?} gives {:?}", k, b, a, x)),
                    }
                }
            }
        }
        if let Some(m) = same_accounts(&j, &mut given) {
            return Outcome::Bad(format!("in the end: {}", m));
        }
        let o = observe(&j, &e.symbols);
        match judge("C06", &e, &o, &mut j) {
            Some(m) => Outcome::Bad(m),
            None => Outcome::Ok(o.hash64()),
        }
    });
    record(ch, cx, out, &text);
    Ok(())
}

/// Every name: it names exactly its path, or it has an empty part and is refused.
fn f_spellings(ch: &mut Ch, cx: &mut Cx) -> R {
    const A: [char; 4] = ['A', 'b', ':', ' '];
    let len = 1 + ch.choose(cx.t(5, 7));
    let mut name = String::new();
    for i in 0..len {
        name.push(*ch.pick(&A));
        if i == 1 || len == 1 {
            ch.shard()?;
        }
    }
    // (two spaces end the name; spaces around a colon are left open)
    if name.contains("  ") || name.split(':').any(|p| p.trim() != p) {
        return Ok(());
    }
    let other = *ch.pick(&["A", "A:b", "A:b:A", "C"]);
    let way = ch.choose(4);
    let empty = name.split(':').any(|p| p.is_empty());
    let (a, b) = (post(&name, Some(amt("1", "EUR"))), post(other, Some(amt("-1", "EUR"))));
    let items = vec![Item::X(match way {
        0 => xact(D1, "N", vec![a, b]),
        1 => xact(D1, "N", vec![post(&name, None), b]),
        2 => xact(D1, "N", vec![b, post(&name, None)]),
        _ => xact(D1, "N", vec![post(other, Some(amt("1", "EUR"))), post("D", None)]),
    })];
    let mut text = render(&items);
    if way == 3 {
        text = format!("{}then register {:?}", text, name);
    }
    cx.count(1);
    cx.sample(|| text.clone());
    let prop = cx.prop.clone();
    let out = cx.exec(ch, || {
        let mut j = Journal::new();
        let mut e = Exp::empty();
        for it in &items {
            e.item(it);
        }
        let t = render(&items);
        let r = guard(|| {
            ledger_rs_lib::parse_text(&t, &mut j);
            if way == 3 {
                j.register_account(&name).is_some()
            } else {
                true
            }
        });
        match (r, empty) {
            (Err(_), true) | (Ok(false), true) => Outcome::Refused,
            (Ok(true), true) => Outcome::Bad("was read without complaint although a part of the account name is empty".into()),
            _ if prop == "C21" => Outcome::Unspecified,
            (Err(m), false) => Outcome::Bad(format!("was not read: {}", m)),
            (Ok(_), false) => {
                use_account(&mut e, &name);
                let o = observe(&j, &e.symbols);
                match judge("C06", &e, &o, &mut j) {
                    Some(m) => Outcome::Bad(m),
                    None => Outcome::Ok(o.hash64()),
                }
            }
        }
    });
    record(ch, cx, out, &text);
    Ok(())
}

fn f_operations(ch: &mut Ch, cx: &mut Cx) -> R {
    let names: [&str; 16] = [
        "read a transaction", "read an exchange", "register 1 account", "register 9 accounts", "create 1 commodity", "create 9 commodities", "move the journal",
        "add a transaction", "add an empty transaction and read", "read a price", "read a large transaction", "read from a reader", "report", "register A", "register A:B", "look up",
    ];
    let n = 1 + ch.choose(cx.t(4, 5));
    let mut v = vec![ch.choose(names.len())];
    if n > 1 {
        v.push(ch.choose(names.len()));
    }
    ch.shard()?;
    while v.len() < n {
        v.push(ch.choose(names.len()));
    }
    let text = v.iter().map(|i| names[*i]).collect::<Vec<_>>().join("; ");
    cx.count(n as u64);
    cx.sample(|| text.clone());
    let out = cx.exec(ch, || {
        let mut j = Journal::new();
        let mut e = Exp::empty();
        let read = |j: &mut Journal, e: &mut Exp, it: Item| -> Result<(), String> {
            let t = render(&[it.clone()]);
            e.item(&it);
            guard(|| ledger_rs_lib::parse_text(&t, j))
        };
        let mut given: BTreeMap<String, usize> = BTreeMap::new();
        let mut coins: BTreeMap<String, usize> = BTreeMap::new();
        for (k, op) in v.iter().enumerate() {
            let r: Result<(), String> = match op {
                0 => read(&mut j, &mut e, Item::X(xact(D1, "R", vec![post("A:B", Some(amt("1", "EUR"))), post(&format!("C:N{}", k), None)]))),
                1 => read(&mut j, &mut e, Item::X(xact(D1, "R", vec![post("A:B", Some(amt("1", &sym(k)))), post("A", Some(amt("-2", "USD")))]))),
                2 => {
                    use_account(&mut e, "A:B:C");
                    guard(|| {
                        j.register_account("A:B:C");
                    })
                }
                3 => {
                    for i in 0..9 {
                        use_account(&mut e, &format!("A:S{}{}", k, i));
                    }
                    guard(|| {
                        for i in 0..9 {
                            j.register_account(&format!("A:S{}{}", k, i));
                        }
                    })
                }
                4 => {
                    e.symbols.insert("XAU".into());
                    guard(|| {
                        j.commodity_pool.find_or_create("XAU", None);
                    })
                }
                5 => {
                    for i in 0..9 {
                        e.symbols.insert(format!("K{}", sym(k * 9 + i)));
                    }
                    guard(|| {
                        for i in 0..9 {
                            j.commodity_pool.find_or_create(&format!("K{}", sym(k * 9 + i)), None);
                        }
                    })
                }
                6 => {
                    let mut boxed = vec![Box::new(j)];
                    boxed.push(Box::new(Journal::new()));
                    j = *boxed.swap_remove(0);
                    Ok(())
                }
                7 => {
                    // with postings, as a client builds it
                    let it = Item::X(xact(D1, "Built", vec![post("A:B", Some(amt("4", "EUR"))), post("Built:Here", Some(amt("-4", "EUR")))]));
                    e.item(&it);
                    guard(|| {
                        let mut x = ledger_rs_lib::xact::Xact::create(D1, "", "Built", "");
                        for (name, q) in [("A:B", 4), ("Built:Here", -4)] {
                            let a = j.register_account(name).unwrap();
                            let c = j.commodity_pool.find_or_create("EUR", None);
                            let p = ledger_rs_lib::post::Post::new(a, std::ptr::null(), Some(Amount::new(Quantity::from(q), Some(c))), None, None);
                            let r = x.add_post(p) as *const _;
                            j.get_account_mut(a).posts.push(r);
                        }
                        j.add_xact(x);
                    })
                }
                8 => {
                    let mut x = xact("2023-01-06", "Empty", vec![]);
                    x.body.clear();
                    e.xacts.push(EXact {
                        date: "2023-01-06".into(), aux: None, payee: "Empty".into(), note: None, header_note_only: true, has_comments: false,
                        posts: vec![], inferred: false, has_omitted: false, has_cost: false, balanced: true,
                    });
                    guard(|| {
                        j.add_xact(ledger_rs_lib::xact::Xact::create("2023-01-06", "", "Empty", ""));
                    })
                    .and_then(|_| read(&mut j, &mut e, Item::X(xact(D1, "R", vec![post("Z", Some(amt("1", "EUR"))), post("A", None)]))))
                }
                9 => read(&mut j, &mut e, price(D1, "", &sym(k), "2", "EUR")),
                10 => {
                    let mut ps: Vec<PostT> = (0..12).map(|i| post(&format!("L:N{}", i % 5), Some(amt("1", "EUR")))).collect();
                    ps.push(post("L", None));
                    read(&mut j, &mut e, Item::X(xact(D1, "Large", ps)))
                }
                11 => {
                    let it = Item::X(xact(D1, "Reader", vec![post("A:B", None), post("Q", Some(amt("3", "EUR")))]));
                    let t = render(&[it.clone()]);
                    e.item(&it);
                    guard(|| j.read(t.as_bytes())).map(|_| ())
                }
                12 => guard(|| {
                    ledger_rs_lib::report::balance_report(&j);
                }),
                13 => {
                    use_account(&mut e, "A");
                    guard(|| {
                        j.register_account("A");
                    })
                }
                14 => {
                    use_account(&mut e, "A:B");
                    guard(|| {
                        j.register_account("A:B");
                    })
                }
                _ => guard(|| {
                    for n in ["A", "A:B", "B", "A:B:C", "C"] {
                        j.find_account(n);
                    }
                    j.commodity_pool.find("EUR");
                }),
            };
            if let Err(m) = r {
                return Outcome::Bad(format!("step {} ({}) failed: {}", k, names[*op], m));
            }
            if let Some(m) = same_accounts(&j, &mut given) {
                return Outcome::Bad(format!("after step {} ({}): {}", k, names[*op], m));
            }
            for s in &e.symbols {
                if let Some(c) = j.commodity_pool.find(s) {
                    let p = c as *const Commodity as usize;
                    if *coins.entry(s.clone()).or_insert(p) != p {
                        return Outcome::Bad(format!("after step {} ({}): the commodity {:?} is not the one any more that was handed out", k, names[*op], s));
                    }
                }
            }
            let o = observe(&j, &e.symbols);
            if let Some(m) = judge("C07", &e, &o, &mut j) {
                return Outcome::Bad(format!("after step {} ({}): {}", k, names[*op], m));
            }
        }
        let o = observe(&j, &e.symbols);
        Outcome::Ok(o.hash64())
    });
    record(ch, cx, out, &text);
    Ok(())
}

fn f_requests(ch: &mut Ch, cx: &mut Cx) -> R {
    #[derive(Clone, Debug)]
    enum Op {
        Want(&'static str),
        Find(&'static str),
        Parse(&'static str, &'static str),
        Parts(&'static str),
        PriceLine(&'static str, &'static str),
        Read(Item),
    }
    let ops = vec![
        Op::Want("EUR"),
        Op::Want("USD"),
        Op::Want("eur"),
        Op::Want(""),
        Op::Want("EURs"),
        Op::Want("\"EUR\""),
        Op::Want("EUR."),
        Op::Find("EUR"),
        Op::Find("GBP"),
        Op::Parse("5 EUR", "EUR"),
        Op::Parse("$7", "$"),
        Op::Parts("USD"),
        Op::PriceLine("EUR", "USD"),
        Op::PriceLine("GBP", "EUR"),
        Op::Read(Item::X(xact(D1, "R", vec![post("A", Some(amt("1", "EUR"))), post("B", None)]))),
        Op::Read(Item::X(xact(D1, "R", vec![post("A", Some(amt("1", "VEUR"))).lot_price(amt("3", "GBP")).cost(true, amt("4", "USD")), post("B", None)]))),
        Op::Read(Item::X(xact(D1, "R", vec![post("A", Some(amt("1", "USD"))), post("B", Some(amt("-2", "eur")))]))),
    ];
    let n = 1 + ch.choose(cx.t(4, 5));
    let mut v = vec![ch.choose(ops.len())];
    if n > 1 {
        v.push(ch.choose(ops.len()));
    }
    ch.shard()?;
    while v.len() < n {
        v.push(ch.choose(ops.len()));
    }
    let seq: Vec<Op> = v.iter().map(|i| ops[*i].clone()).collect();
    let text = format!("{:?}", seq);
    cx.count(n as u64);
    cx.sample(|| text.clone());
    let out = cx.exec(ch, || {
        let mut j = Journal::new();
        let mut e = Exp::empty();
        let mut first: BTreeMap<String, usize> = BTreeMap::new();
        for (k, op) in seq.iter().enumerate() {
            let fail = |m: String| Outcome::Bad(format!("step {} ({:?}): {}", k, op, m));
            let mut check_ptr = |s: &str, p: usize| -> Option<String> {
                if s.is_empty() {
                    return if p == 0 { None } else { Some("no symbol gives a commodity".into()) };
                }
                match first.get(s) {
                    Some(q) if *q != p => Some(format!("the commodity of {:?} is another one than before", s)),
                    _ => {
                        first.insert(s.to_string(), p);
                        None
                    }
                }
            };
            match op {
                Op::Want(s) => {
                    if !s.is_empty() {
                        e.symbols.insert(s.to_string());
                    }
                    match guard(|| j.commodity_pool.find_or_create(s, None) as usize) {
                        Ok(p) => {
                            if let Some(m) = check_ptr(s, p) {
                                return fail(m);
                            }
                        }
                        Err(m) => return fail(m),
                    }
                }
                Op::Find(s) => match guard(|| (j.commodity_pool.find(s).map(|c| c as *const Commodity as usize), j.commodity_pool.find_index(s))) {
                    Ok((c, i)) => {
                        let known = e.symbols.contains(*s);
                        if c.is_some() != known || i.is_some() != known {
                            return fail("finds something else than the symbols used".into());
                        }
                        if let Some(p) = c {
                            if let Some(m) = check_ptr(s, p) {
                                return fail(m);
                            }
                        }
                    }
                    Err(m) => return fail(m),
                },
                Op::Parse(t, s) => {
                    e.symbols.insert(s.to_string());
                    match guard(|| ledger_rs_lib::parser::parse_amount(t, &mut j).and_then(|a| a.get_commodity().map(|c| c as *const Commodity as usize))) {
                        Ok(Some(p)) => {
                            if let Some(m) = check_ptr(s, p) {
                                return fail(m);
                            }
                        }
                        x => return fail(format!("{:?}", x)),
                    }
                }
                Op::Parts(s) => {
                    e.symbols.insert(s.to_string());
                    match guard(|| ledger_rs_lib::parser::parse_amount_parts("3", s, &mut j).and_then(|a| a.get_commodity().map(|c| c as *const Commodity as usize))) {
                        Ok(Some(p)) => {
                            if let Some(m) = check_ptr(s, p) {
                                return fail(m);
                            }
                        }
                        x => return fail(format!("{:?}", x)),
                    }
                }
                Op::PriceLine(a, b) => {
                    e.symbols.insert(a.to_string());
                    e.symbols.insert(b.to_string());
                    let l = format!("P 2023-01-0{} {} 1.5 {}", k + 1, a, b);
                    if let Err(m) = guard(|| j.commodity_pool.parse_price_directive(&l)) {
                        return fail(m);
                    }
                }
                Op::Read(it) => {
                    let t = render(&[it.clone()]);
                    e.item(it);
                    if let Err(m) = guard(|| ledger_rs_lib::parse_text(&t, &mut j)) {
                        return fail(m);
                    }
                }
            }
        }
        for (s, p) in &first {
            if j.commodity_pool.find(s).map(|c| c as *const Commodity as usize) != Some(*p) {
                return Outcome::Bad(format!("the commodity of {:?} is another one in the end", s));
            }
        }
        let o = observe(&j, &e.symbols);
        match judge("C08", &e, &o, &mut j) {
            Some(m) => Outcome::Bad(m),
            None => Outcome::Ok(o.hash64()),
        }
    });
    record(ch, cx, out, &text);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C13

pub fn base_journals() -> Vec<Vec<Item>> {
    let t = {
        let mut t = templates();
        fix_styles(&mut t);
        t
    };
    let pick = |v: &[usize]| v.iter().map(|i| t[*i].clone()).collect::<Vec<_>>();
    let mut bare = xact("2023-05-05", "", vec![post("A:B", None), post("C", Some(amt("5", "EUR").styled(3)))]);
    bare.aux = Some("2023-05-01".into());
    vec![
        pick(&[0, 6]),
        pick(&[7, 3, 8]),
        pick(&[5, 2, 12]),
        pick(&[4]),
        vec![Item::X(bare), t[9].clone()],
        vec![t[12].clone(), t[8].clone(), t[10].clone(), t[7].clone()],
    ]
}

fn f_layouts(ch: &mut Ch, cx: &mut Cx) -> R {
    let js = base_journals();
    let j = ch.choose(js.len());
    let windows = ch.choose(2);
    ch.set_budget(cx.t(2, 3));
    // the first departure is part of the shard
    let items = &js[j];
    let mut sharded = false;
    let mut skip = false;
    let text = render_with(items, &mut |l| {
        if l == L::Eol {
            // mixed line ends
            let c = ch.deviate(2);
            return if c == 0 { windows } else { 1 - windows };
        }
        let c = ch.deviate(layout_options(l));
        if c != 0 && !sharded {
            sharded = true;
            if ch.shard().is_err() {
                skip = true;
            }
        }
        c
    });
    if !sharded {
        ch.shard()?;
    }
    if skip {
        return Err(Stop);
    }
    case_text(ch, cx, items, &text);
    Ok(())
}

/// Comment lines made of one repeated text.
fn f_rules(ch: &mut Ch, cx: &mut Cx) -> R {
    const FILL: [&str; 14] = ["-", "=", "*", "_", "#", ";", "x", "9", "é", "-=", "+--", "~", "P 2023-01-01 EUR 1 USD ", "end "];
    let fill = *ch.pick(&FILL);
    let n = 1 + ch.choose(cx.t(100, 300));
    ch.shard()?;
    let mark = *ch.pick(&[";", "#", "*", "|"]);
    let place = ch.choose(4);
    let windows = ch.flag();
    let line: String = format!("{}{}", mark, fill.chars().cycle().take(n).collect::<String>());
    let items = &base_journals()[0];
    let plain = render(items);
    let plain = format!("{}\n", plain.trim_end());
    let text = match place {
        0 => format!("{}\n{}", line, plain),
        1 => format!("{}\n\n{}", line, plain),
        2 => plain.replace("\n\n", &format!("\n\n{}\n{}\n", line, line)),
        _ => format!("{}\n{}", plain, line),
    };
    let text = if windows { text.replace('\n', "\r\n") } else { text };
    case_text(ch, cx, items, &text);
    Ok(())
}

fn f_widths(ch: &mut Ch, cx: &mut Cx) -> R {
    let js = base_journals();
    let j = *ch.pick(&[0usize, 3, 4]);
    let n = 1 + ch.choose(cx.t(130, 700));
    ch.shard()?;
    let kind = ch.choose(7);
    let items = &js[j];
    // markers, replaced by the real width
    let plain = render(items);
    let text: String = match kind {
        0 => plain.lines().map(|l| if l.starts_with("    ") { format!("{}{}\n", " ".repeat(n), l.trim_start()) } else { format!("{}\n", l) }).collect(),
        1 => render_with(items, &mut |l| if l == L::Gap { 3 } else { 0 }).replace(&" ".repeat(40), &" ".repeat(n + 1)),
        2 => plain.lines().map(|l| if l.is_empty() { "\n".to_string() } else { format!("{}{}\n", l, " ".repeat(n)) }).collect(),
        3 => plain.lines().map(|l| if l.is_empty() { "\n".repeat(n) } else { format!("{}\n", l) }).collect(),
        4 => format!("{}{}\n{}", plain, if plain.ends_with("\n\n") { "" } else { "\n" }, ";x\n".repeat(n)),
        5 => format!("{}{}", "# c\n".repeat(n), plain),
        _ => plain.lines().map(|l| if l.is_empty() { format!("{}\r\n", " ".repeat(n)) } else { format!("{}\r\n", l) }).collect(),
    };
    case_text(ch, cx, items, &text);
    Ok(())
}

/// Notes that contain each other.
fn f_alike_notes(ch: &mut Ch, cx: &mut Cx) -> R {
    const T: [&str; 13] = ["a", "b", "ab", "ba", "aa", "a a", "paid twice", "twice", "paid", "P", "A:B", "1 EUR", "A"];
    let n = 2 + ch.choose(cx.t(2, 3));
    let mut notes = vec![];
    for _ in 0..n {
        notes.push(*ch.pick(&T));
    }
    ch.shard()?;
    let place = ch.choose(3);
    let header = ch.choose(3);
    let twice = ch.flag();
    let mut x = xact(D1, "P", vec![]);
    if header > 0 {
        x.note = Some(("  ; ".into(), if header == 1 { notes[0].to_string() } else { notes[n - 1].to_string() }));
    }
    let posts = [post("A:B", Some(amt("1", "EUR"))), post("A", Some(amt("2", "EUR"))), post("C", None)];
    for k in 0..4 {
        if k > 0 {
            x.body.push(Body::Post(posts[k - 1].clone()));
        }
        if k == [0, 1, 3][place] || (twice && k == [1, 2, 0][place]) {
            x.body.extend(notes.iter().map(|t| Body::Comment(format!(" {}", t))));
        }
    }
    let mut items = vec![Item::X(x)];
    if twice {
        items.push(items[0].clone());
    }
    case(ch, cx, &items);
    Ok(())
}

/// Every text of a few marks as a comment, next to another one.
fn f_comment_texts(ch: &mut Ch, cx: &mut Cx) -> R {
    const T: [&str; 20] = [" ", "  ", ";", ":", "a", "é", "*", "!", "(", ")", "|", "\"", "@", "5", "-", "[2023-01-01]", "=", "#", "{", "a:b"];
    let n = 1 + ch.choose(cx.t(3, 4));
    let mut t = vec![*ch.pick(&T)];
    ch.shard()?;
    while t.len() < n {
        t.push(*ch.pick(&T));
    }
    let place = ch.choose(4);
    let text = t.concat();
    let mut x = xact(D1, "P", vec![]);
    let posts = [post("A:B", Some(amt("1", "EUR"))), post("C", None)];
    for k in 0..3 {
        if k > 0 {
            x.body.push(Body::Post(posts[k - 1].clone()));
        }
        if k == place {
            x.body.push(Body::Comment(text.clone()));
            x.body.push(Body::Comment(" other".into()));
        } else if place == 3 {
            x.body.push(Body::Comment(" other".into()));
            x.body.push(Body::Comment(text.clone()));
        }
    }
    case(ch, cx, &[Item::X(x)]);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C23

fn f_lots(ch: &mut Ch, cx: &mut Cx) -> R {
    let mut forms = vec![];
    for (i, s) in ["VEUR", "ABC", "EUR"].iter().enumerate() {
        let a = |q: &str| post("A:S", Some(amt(q, s)));
        forms.push(a("3"));
        forms.push(a("3").lot_price(amt(["2", "0.125", "4"][i], "USD")));
        forms.push(a("-2").lot_date(["2022-01-31", "2024-02-29", "2021-12-01"][i]));
        forms.push(a("5").lot_price(amt("1.5", "GBP")).lot_date("2022-03-04"));
        let mut p = a("-1.5").lot_price(amt("7", "USD")).lot_date("2020-05-06");
        p.lot.date_first = true;
        p.lot.tight = true;
        forms.push(p.clone());
        p = a("0").lot_price(amt("0", "USD"));
        forms.push(p);
        forms.push(a("4").lot_price(amt("2.50", "USD")).cost(true, amt("3", "USD")));
        forms.push(a("-4").lot_date("2019-01-01").lot_price(amt("9", "GBP")).cost(false, amt("-3", "USD")).tail("  ; n"));
    }
    let n = 1 + ch.choose(cx.t(3, 4));
    let mut v = vec![forms[ch.choose(forms.len())].clone()];
    if n > 1 {
        v.push(forms[ch.choose(forms.len())].clone());
    }
    ch.shard()?;
    while v.len() < n {
        v.push(forms[ch.choose(forms.len())].clone());
    }
    // each with a counter-posting of its own value
    let balance = |p: &PostT| {
        let mut c = p.clone();
        c.lot = LotT::default();
        c.tail = String::new();
        c.acct = "B:T".into();
        for t in [c.amt.as_mut(), c.cost.as_mut().filter(|k| !k.per_unit).map(|k| &mut k.amt)].into_iter().flatten() {
            t.num = match t.num.strip_prefix('-') {
                Some(m) => m.to_string(),
                None if t.num == "0" => "0".into(),
                None => format!("-{}", t.num),
            };
        }
        c
    };
    let way = ch.choose(3);
    let mut items = vec![];
    if way == 0 {
        let mut ps = vec![];
        for p in &v {
            ps.push(p.clone());
        }
        for p in &v {
            ps.push(balance(p));
        }
        items.push(Item::X(xact(D1, "P", ps)));
    } else {
        for (i, p) in v.iter().enumerate() {
            if way == 2 {
                items.push(price(["2022-01-31", "2022-03-04", "2020-05-06", "2023-01-01"][i], "", ["VEUR", "ABC", "EUR", "VEUR"][i], "11", "USD"));
            }
            items.push(Item::X(xact(D1, "P", vec![p.clone(), balance(p)])));
        }
    }
    case(ch, cx, &items);
    Ok(())
}

fn lot_forms(k: usize, price: Option<AmtT>, date: Option<String>) -> PostT {
    let mut p = post("A:S", Some(amt("3", "VEUR")));
    p.lot.price = price;
    p.lot.date = date;
    match k {
        0 => p,
        1 => {
            p.lot.date_first = true;
            p.cost(true, amt("2.25", "EUR"))
        }
        _ => {
            p.lot.tight = true;
            p.amt = Some(amt("-3", "VEUR"));
            p.cost(true, amt("2.25", "EUR")).tail("  ; n")
        }
    }
}

fn f_lot_dates(ch: &mut Ch, cx: &mut Cx) -> R {
    let y = ch.choose(204);
    let year = if y < 4 { [2023, 2024, 1999, 2000][y] } else { 1900 + y - 4 };
    let month = 1 + ch.choose(12);
    ch.shard()?;
    let len = [31, 28 + (year % 4 == 0 && (year % 100 != 0 || year % 400 == 0)) as usize, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][month - 1];
    let day = if y < 4 { 1 + ch.choose(len) } else { [1, len][ch.choose(2)] };
    let form = ch.choose(3);
    let with_price = ch.flag();
    let p = lot_forms(form, if with_price { Some(amt("2", "EUR")) } else { None }, Some(format!("{:04}-{:02}-{:02}", year, month, day)));
    case(ch, cx, &[Item::X(xact(D1, "P", vec![p, post("C", None)]))]);
    Ok(())
}

fn f_lot_prices(ch: &mut Ch, cx: &mut Cx) -> R {
    let digits = 1 + ch.choose(cx.t(3, 4));
    let first = ch.choose(10);
    ch.shard()?;
    let mut t = first.to_string();
    for _ in 1..digits {
        t += &ch.choose(10).to_string();
    }
    let point = ch.choose(digits);
    if point > 0 {
        t.insert(point, '.');
    }
    let mut a = amt(&t, "EUR");
    a.style = ch.choose(3) as _;
    let form = ch.choose(3);
    let date = if ch.flag() { Some("2022-01-02".to_string()) } else { None };
    let p = lot_forms(form, Some(a), date);
    case(ch, cx, &[Item::X(xact(D1, "P", vec![p, post("C", None)]))]);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C14

pub struct Pieces<'a> {
    data: &'a [u8],
    pos: usize,
    cuts: Vec<usize>,
    reads: usize,
    interrupts: Vec<usize>,
}
impl<'a> Pieces<'a> {
    pub fn every(data: &'a [u8], n: usize) -> Pieces<'a> {
        Pieces { data, pos: 0, cuts: (1..=data.len() / n).map(|i| i * n).collect(), reads: 0, interrupts: vec![] }
    }
}
impl Read for Pieces<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let k = self.reads;
        self.reads += 1;
        if self.interrupts.contains(&k) {
            return Err(std::io::Error::from(std::io::ErrorKind::Interrupted));
        }
        let end = self.cuts.get(self.cuts.partition_point(|c| *c <= self.pos)).copied().unwrap_or(self.data.len());
        let n = (end - self.pos).min(buf.len());
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

fn c14_journal(k: usize) -> (Vec<Item>, String) {
    let t = {
        let mut t = templates();
        fix_styles(&mut t);
        t
    };
    let mut x = xact("2023-06-07", "Čaj €", vec![]);
    x.note = Some(("  ; ".into(), "nöte".into()));
    x.body = vec![
        Body::Comment(" ključ: 日本".into()),
        Body::Post(post("Račun:Žiro", Some(amt("3.5", "€")))),
        Body::Post(post("Ostalo", None)),
    ];
    let items = match k {
        0 => vec![Item::X(x), t[8].clone(), t[3].clone()],
        _ => vec![t[7].clone(), Item::X(x), Item::C("; é".into()), t[2].clone()],
    };
    let text = if k == 0 { render(&items) } else { render_with(&items, &mut |l| if l == L::Eol { 1 } else if l == L::LastEol { 1 } else { 0 }) };
    (items, text)
}

fn read_case(ch: &Ch, cx: &mut Cx, items: &[Item], what: &str, read: impl FnOnce(&mut Journal) -> usize + Send) {
    cx.count(items.len() as u64);
    cx.sample(|| what.to_string());
    let e = meaning(items);
    let prop = cx.prop.clone();
    let out = cx.exec(ch, || {
        let mut j = Journal::new();
        let r = guard(|| read(&mut j));
        if let Ok(n) = r {
            if n != e.xacts.len() {
                return Outcome::Bad(format!("reported {} transactions instead of {}", n, e.xacts.len()));
            }
        }
        judge_read(&prop, &e, r.map(|_| ()), &mut j)
    });
    record(ch, cx, out, what);
}

fn f_chunks(ch: &mut Ch, cx: &mut Cx) -> R {
    let k = ch.choose(2);
    let (items, text) = c14_journal(k);
    let len = text.len();
    let mode = ch.choose(4);
    let (cuts, interrupts): (Vec<usize>, Vec<usize>) = match mode {
        0 => {
            let size = 1 + ch.choose(len);
            ch.shard()?;
            ((1..=len / size).map(|i| i * size).collect(), vec![])
        }
        1 => {
            let a = ch.choose(len);
            ch.shard()?;
            let i = ch.choose(4);
            (vec![a], [vec![], vec![0], vec![1], vec![0, 1, 2]][i].clone())
        }
        2 => {
            let a = 1 + ch.choose(len - 2);
            ch.shard()?;
            let step = cx.t(3, 1);
            let b = a + 1 + step * ch.choose((len - a - 1) / step + 1);
            (vec![a, b], vec![])
        }
        _ => {
            // single bytes, with interruptions
            let a = ch.choose(len);
            ch.shard()?;
            let step = cx.t(17, 3);
            let b = a + step * ch.choose((len - a) / step + 1);
            ((1..len).collect(), vec![a, b])
        }
    };
    let what = format!("cuts {:?}{} interruptions at reads {:?} of {:?}", &cuts[..cuts.len().min(3)], if cuts.len() > 3 { " ..." } else { "" }, interrupts, text);
    let data = text.clone();
    read_case(ch, cx, &items, &what, move |j| {
        j.read(Pieces { data: data.as_bytes(), pos: 0, cuts, reads: 0, interrupts })
    });
    Ok(())
}

fn f_boundary(ch: &mut Ch, cx: &mut Cx) -> R {
    let k = ch.choose(2);
    let (items, text) = c14_journal(k);
    let base = *ch.pick(&cx.t(vec![8192usize], vec![4096, 8192, 16384, 65536]));
    let at = ch.choose(text.len() + 2);
    ch.shard()?;
    let how = ch.choose(4);
    // comments before the journal, so that byte `at` of it is the first one of the next buffer
    let pad = base - at;
    let mut s = String::new();
    while pad - s.len() > 90 {
        s += "; ";
        s += &"x".repeat(77);
        s += "\n";
    }
    let rest = pad - s.len();
    s += "#";
    s += &"y".repeat(rest - 2);
    s += "\n";
    assert_eq!(s.len(), pad);
    s += &text;
    let what = format!("{} bytes of comments, then {:?}", pad, text);
    match how {
        0 => read_case(ch, cx, &items, &what, move |j| j.read(s.as_bytes())),
        1 => read_case(ch, cx, &items, &what, move |j| {
            let n = j.xacts.len();
            ledger_rs_lib::parse_text(&s, j);
            j.xacts.len() - n
        }),
        _ => {
            let p = cx.scratch.join("boundary.ledger");
            std::fs::write(&p, &s).unwrap();
            if how == 3 {
                read_case(ch, cx, &items, &what, move |j| j.read(format!("include {}", p.display()).as_bytes()));
                return Ok(());
            }
            read_case(ch, cx, &items, &what, move |j| {
                let n = j.xacts.len();
                ledger_rs_lib::parse_file(p.to_str().unwrap(), j);
                j.xacts.len() - n
            })
        }
    }
    Ok(())
}

fn deliver(how: usize, text: &str, j: &mut Journal, dir: &Path, name: &str) -> usize {
    let before = j.xacts.len();
    let file = |t: &str| {
        let p = dir.join(name);
        std::fs::write(&p, t).unwrap();
        p.to_str().unwrap().to_string()
    };
    match how {
        0 => {
            ledger_rs_lib::parse_text(text, j);
            j.xacts.len() - before
        }
        1 => j.read(text.as_bytes()),
        2 => j.read(Pieces { data: text.as_bytes(), pos: 0, cuts: (1..text.len()).collect(), reads: 0, interrupts: vec![] }),
        3 => {
            let p = file(text);
            ledger_rs_lib::parse_file(&p, j);
            j.xacts.len() - before
        }
        4 => {
            let p = file(text);
            j.read(format!("include {}\n", p).as_bytes())
        }
        5 => {
            file(text);
            j.read(format!("include {}", name).as_bytes())
        }
        _ => {
            std::fs::create_dir_all(dir.join("sub")).unwrap();
            std::fs::write(dir.join("sub").join(name), text).unwrap();
            j.read(format!("; c\n\ninclude ./sub/{}\n\n", name).as_bytes())
        }
    }
}

fn six() -> Vec<Item> {
    let mut t = templates();
    fix_styles(&mut t);
    vec![t[0].clone(), t[7].clone(), t[6].clone(), t[2].clone(), t[3].clone(), t[5].clone()]
}

fn f_sources(ch: &mut Ch, cx: &mut Cx) -> R {
    let items = six();
    let n = items.len();
    let a = ch.choose(n + 1);
    let b = a + ch.choose(n - a + 1);
    let h0 = ch.choose(7);
    ch.shard()?;
    let h1 = ch.choose(7);
    let h2 = ch.choose(7);
    let parts = [render(&items[..a]), render(&items[a..b]), render(&items[b..])];
    let counts: Vec<usize> = [&items[..a], &items[a..b], &items[b..]].iter().map(|p| p.iter().filter(|i| matches!(i, Item::X(_))).count()).collect();
    let what = format!("delivered as {:?} {:?} {:?}: {:?}", h0, h1, h2, parts);
    let dir = cx.scratch.clone();
    read_case(ch, cx, &items, &what, move |j| {
        let mut sum = 0;
        for (i, h) in [h0, h1, h2].iter().enumerate() {
            let n = deliver(*h, &parts[i], j, &dir, &format!("part{}.ledger", i));
            if n != counts[i] {
                panic!("part {} reported {} transactions instead of {}", i, n, counts[i]);
            }
            sum += n;
        }
        sum
    });
    Ok(())
}

fn f_includes(ch: &mut Ch, cx: &mut Cx) -> R {
    let items = six();
    let n = items.len();
    let mode = ch.choose(2);
    let a = ch.choose(n + 1);
    ch.shard()?;
    let b = a + ch.choose(n - a + 1);
    let dir = cx.scratch.clone();
    let abs = ch.flag();
    let via = ch.choose(3);
    let path = |f: &str| if abs { dir.join(f).to_str().unwrap().to_string() } else { f.to_string() };
    // the blank line that ends the transaction before the directive
    let part = |v: &[Item]| -> String {
        let mut s = render(v);
        if matches!(v.last(), Some(Item::X(_))) {
            s += "\n";
        }
        s
    };
    let (main, all): (String, Vec<Item>) = if mode == 0 {
        // main: [..a] + file1, file1: [a..c] + file2 + [d..b], then main [b..]
        let c = a + ch.choose(b - a + 1);
        let d = c + ch.choose(b - c + 1);
        std::fs::write(dir.join("two.ledger"), render(&items[c..d])).unwrap();
        std::fs::write(dir.join("one.ledger"), format!("{}include {}\n{}", part(&items[a..c]), path("two.ledger"), render(&items[d..b]))).unwrap();
        (format!("{}include {}\n{}", part(&items[..a]), path("one.ledger"), render(&items[b..])), items.clone())
    } else {
        // the same file twice
        std::fs::write(dir.join("twice.ledger"), render(&items[a..b])).unwrap();
        let all: Vec<Item> = items[..a].iter().chain(&items[a..b]).chain(&items[b..]).chain(&items[a..b]).cloned().collect();
        (format!("{}include {}\n{}include {}", part(&items[..a]), path("twice.ledger"), part(&items[b..]), path("twice.ledger")), all)
    };
    let what = format!("{} includes: {:?}", if abs { "absolute" } else { "relative" }, main);
    let d2 = dir.clone();
    read_case(ch, cx, &all, &what, move |j| match via {
        0 => j.read(main.as_bytes()),
        1 => deliver(0, &main, j, &d2, "m"),
        _ => deliver(3, &main, j, &d2, "main.ledger"),
    });
    Ok(())
}

fn f_paths(ch: &mut Ch, cx: &mut Cx) -> R {
    const PATHS: [&str; 23] = [
        "plain.ledger", "./dot.ledger", "sub/in.ledger", "sub/../up.ledger", "sub/deeper/still/far.ledger", "sub//double.ledger", "noextension",
        "ünï.ledger", "a;b.ledger", "#hash", "*star", "-dash", "include", "P", "2023-01-01",
        "my file.ledger", "my file", "three short words", "two  spaces.ledger", "sub dir/in.ledger", "sub dir/my file", "2023 (old) [a] 'b' \"c\".ledger", "tab\tin it",
    ];
    let which = ch.choose(PATHS.len() + 1);
    let tail = *ch.pick(&["\n", "   \n", "\r\n", ""]);
    let place = ch.choose(3);
    ch.shard()?;
    let via = ch.choose(3);
    let dir = cx.scratch.join("paths");
    std::fs::create_dir_all(dir.join("sub/deeper/still")).unwrap();
    std::fs::create_dir_all(dir.join("sub dir")).unwrap();
    // files that are named like the beginning or the end of another name
    for decoy in ["my", "file.ledger", "file", "three", "three short", "two", "2023", "tab", "sub dir/my", "dir"] {
        std::fs::write(dir.join(decoy), "2001-01-01 Decoy\n    Decoy  1 EUR\n    Other decoy\n").unwrap();
    }
    let t = six();
    let inner = vec![t[0].clone(), t[1].clone(), t[4].clone()];
    let (path, file) = if which < PATHS.len() {
        (format!("paths/{}", PATHS[which]), dir.join(PATHS[which]))
    } else {
        (dir.join("absolute.ledger").to_str().unwrap().to_string(), dir.join("absolute.ledger"))
    };
    std::fs::write(&file, render(&inner)).unwrap();
    let line = format!("include {}{}", path, tail);
    let (before, after): (Vec<Item>, Vec<Item>) = match place {
        0 => (vec![], vec![t[3].clone()]),
        1 => (vec![t[2].clone()], vec![t[3].clone(), t[5].clone()]),
        _ => (vec![t[2].clone(), t[5].clone()], vec![]),
    };
    if tail.is_empty() && !after.is_empty() {
        return Ok(());
    }
    let mut main = render(&before);
    if !before.is_empty() {
        main += "\n";
    }
    main += &line;
    if !after.is_empty() {
        main += &render(&after);
    }
    let all: Vec<Item> = before.into_iter().chain(inner).chain(after).collect();
    let d = cx.scratch.clone();
    let what = format!("{:?}", main);
    read_case(ch, cx, &all, &what, move |j| match via {
        0 => j.read(main.as_bytes()),
        1 => deliver(0, &main, j, &d, "m"),
        _ => deliver(3, &main, j, &d, "main.ledger"),
    });
    Ok(())
}

/// File names with each character at the start, inside, at the end, around; next to a file named without it.
fn f_path_characters(ch: &mut Ch, cx: &mut Cx) -> R {
    let mut all: Vec<char> = (' '..='~').filter(|c| *c != '/').collect();
    all.extend("\tàßéЖ中🙂\u{a0}\u{200b}\u{feff}".chars());
    let c = *ch.pick(&all);
    ch.shard()?;
    let form = ch.choose(7);
    let base = "na me";
    let name = match form {
        0 => format!("{}{}", c, base),
        1 => format!("na{}me", c),
        2 => format!("{}{}", base, c),
        3 => format!("{}{}{}", c, base, c),
        4 => format!("na {} me", c),
        5 => format!("{}", c),
        _ => format!("{}{}x", c, c),
    };
    // (the space around is layout, the note and the home directory are left open)
    if name.trim() != name || name.contains(" ;") || name.starts_with(['~', '\\', ';']) || name == "." {
        return Ok(());
    }
    let via = ch.choose(2);
    let dir = if via == 0 { cx.scratch.clone() } else { cx.scratch.join("pc") };
    let _ = std::fs::create_dir_all(&dir);
    let t = six();
    let inner = vec![t[0].clone(), t[4].clone()];
    let mut made = vec![];
    for decoy in ["na me", "name", "na", "me", "na  me", "x"] {
        std::fs::write(dir.join(decoy), "2001-01-01 Decoy\n    Decoy  1 EUR\n    Other decoy\n").unwrap();
        made.push(dir.join(decoy));
    }
    std::fs::write(dir.join(&name), render(&inner)).unwrap();
    made.push(dir.join(&name));
    let line = if via == 0 { format!("include {}\n", name) } else { format!("include {}\n", dir.join(&name).to_str().unwrap()) };
    let what = format!("{:?}", line);
    read_case(ch, cx, &inner, &what, move |j| j.read(line.as_bytes()));
    for f in made {
        let _ = std::fs::remove_file(f);
    }
    Ok(())
}

/// An include line names one file: the whole rest of the line, and nothing shorter.
fn f_include_words(ch: &mut Ch, cx: &mut Cx) -> R {
    const W: [&str; 6] = ["a", "b", "b.ledger", "./a", "sub/a", "(1)"];
    const FILES: [&str; 5] = ["a", "a b", "b.ledger", "sub/a", "a b.ledger"];
    let n = 1 + ch.choose(cx.t(3, 4));
    let mut words = vec![];
    for i in 0..n {
        words.push(*ch.pick(&W));
        if i == 0 {
            ch.shard()?;
        }
    }
    let there = ch.choose(1 << FILES.len());
    let dir = cx.scratch.join("words");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(dir.join("sub")).unwrap();
    let t = six();
    for (i, f) in FILES.iter().enumerate() {
        if there >> i & 1 == 1 {
            std::fs::write(dir.join(f), render(&[t[i].clone()])).unwrap();
        }
    }
    let path = words.join(" ");
    let meant = FILES.iter().position(|f| *f == path || format!("./{}", f) == path).filter(|i| there >> i & 1 == 1);
    let line = format!("include words/{}\n", path);
    let what = format!("{:?} with the files {:?}", line, FILES.iter().enumerate().filter(|(i, _)| there >> i & 1 == 1).map(|(_, f)| *f).collect::<Vec<_>>());
    match meant {
        Some(i) => read_case(ch, cx, &[t[i].clone()], &what, move |j| j.read(line.as_bytes())),
        None => must_refuse(ch, cx, what, move || {
            let mut j = Journal::new();
            j.read(line.as_bytes());
            read_so_far(&j)
        }),
    }
    Ok(())
}

fn f_nested(ch: &mut Ch, cx: &mut Cx) -> R {
    let chain = ch.flag();
    let n = 1 + ch.choose(if chain { cx.t(24, 80) } else { cx.t(40, 150) });
    let arrangement = ch.choose(4);
    ch.shard()?;
    let via = ch.choose(2);
    let dir = cx.scratch.clone();
    let t = six();
    let own = |i: usize, last: bool| -> (Vec<Item>, Vec<Item>) {
        let a = t[i % t.len()].clone();
        let b = t[(i + 3) % t.len()].clone();
        match arrangement {
            0 => (vec![a], vec![]),
            1 => (vec![], vec![b]),
            2 => (vec![a], vec![b]),
            _ if last => (vec![a, b], vec![]),
            _ => (vec![], vec![]),
        }
    };
    let part = |v: &[Item]| -> String {
        let mut s = render(v);
        if matches!(v.last(), Some(Item::X(_))) {
            s += "\n";
        }
        s
    };
    let name = |i: usize| format!("nest{}.ledger", i);
    let (mut front, mut back): (Vec<Item>, Vec<Vec<Item>>) = (vec![], vec![]);
    let main;
    if chain {
        for i in 1..=n {
            let (a, b) = own(i, i == n);
            let inc = if i == n { String::new() } else { format!("include {}\n", name(i + 1)) };
            std::fs::write(dir.join(name(i)), format!("{}{}{}", part(&a), inc, render(&b))).unwrap();
            front.extend(a);
            back.push(b);
        }
        main = format!("include {}\n", name(1));
    } else {
        let mut m = String::new();
        for i in 1..=n {
            let (a, b) = own(i, i == n);
            std::fs::write(dir.join(name(i)), format!("{}{}", part(&a), render(&b))).unwrap();
            m += &format!("include {}\n", name(i));
            front.extend(a);
            front.extend(b);
        }
        main = m;
    }
    back.reverse();
    let all: Vec<Item> = front.into_iter().chain(back.into_iter().flatten()).collect();
    let what = format!("{} {} files, arrangement {}: {:?}", if chain { "a chain of" } else { "a row of" }, n, arrangement, main);
    read_case(ch, cx, &all, &what, move |j| match via {
        0 => j.read(main.as_bytes()),
        _ => deliver(3, &main, j, &dir, "main.ledger"),
    });
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C16

#[cfg(ledger_verif)]
fn graph_case(ch: &Ch, cx: &mut Cx, n: usize, recorded: Vec<(usize, usize, String, i128)>) {
    let mut prices: BTreeMap<Key, EPrice> = BTreeMap::new();
    let mut text = String::new();
    for (a, b, d, r) in &recorded {
        text += &format!("P {} {} {} {}\n", d, sym(*a), r, sym(*b));
        prices.insert((sym(*a), sym(*b), format!("{} 00:00:00", d)), EPrice::Exact(Rat::int(*r)));
    }
    cx.count(recorded.len() as u64 + (n * (n - 1)) as u64);
    cx.sample(|| text.clone());
    let m = latest(&prices).unwrap();
    let out = cx.exec(ch, || {
        let mut j = Journal::new();
        let names: Vec<String> = (0..n).map(sym).collect();
        let set: BTreeSet<String> = names.iter().cloned().collect();
        let r = guard(|| {
            let ptrs: Vec<*const Commodity> = names.iter().map(|s| j.commodity_pool.find_or_create(s, None)).collect();
            for (a, b, d, r) in &recorded {
                let when = ledger_rs_lib::parser::parse_datetime(d).unwrap();
                j.commodity_pool.add_price(ptrs[*a], when, Amount::new(Quantity::from(*r as i32), Some(ptrs[*b])));
            }
        });
        if let Err(x) = r {
            return Outcome::Bad(format!("recording the prices failed: {}", x));
        }
        let (syms, _) = Syms::of(&j, &set);
        let before = observe(&j, &set);
        let list: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
        for pass in 0..3 {
            if let Some(x) = lookups(&m, &list, &j, &syms, pass) {
                return Outcome::Bad(x);
            }
        }
        if observe(&j, &set) != before {
            return Outcome::Bad("looking up prices changed the journal".into());
        }
        Outcome::Ok(before.hash64())
    });
    record(ch, cx, out, &text);
}
#[cfg(not(ledger_verif))]
fn graph_case(_: &Ch, cx: &mut Cx, _: usize, _: Vec<(usize, usize, String, i128)>) {
    cx.count(0);
    cx.unspecified();
}

const PRIMES: &[i128] = &[2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107, 109, 113, 127, 131];

fn edges_of(n: usize, mask: usize) -> Vec<(usize, usize)> {
    let mut all = vec![];
    for a in 0..n {
        for b in 0..n {
            if a != b {
                all.push((a, b));
            }
        }
    }
    all.into_iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, e)| e).collect()
}

fn f_graphs(ch: &mut Ch, cx: &mut Cx) -> R {
    let n = 2 + ch.choose(3);
    let mask = ch.choose(1 << (n * (n - 1)));
    ch.shard()?;
    let dates = ch.choose(3);
    let hist = ch.choose(3);
    let rev = ch.flag();
    let edges = edges_of(n, mask);
    if edges.len() < 2 && (dates > 0 || rev) {
        return Ok(());
    }
    let mut rec = vec![];
    for (i, (a, b)) in edges.iter().enumerate() {
        let day = match dates {
            0 => 10 + i,
            1 => 28 - i,
            _ => 15 + (i * 5) % 7,
        };
        let new = (*a, *b, format!("2023-02-{:02}", day.min(28)), PRIMES[i]);
        let old = (*a, *b, format!("2022-{:02}-11", 1 + (i * 7) % 12), 1000 + i as i128);
        match hist {
            0 => rec.push(new),
            1 => rec.extend([old, new]),
            _ => rec.extend([new, old]),
        }
    }
    if rev {
        rec.reverse();
    }
    graph_case(ch, cx, n, rec);
    Ok(())
}

fn f_graphs5(ch: &mut Ch, cx: &mut Cx) -> R {
    let mut mask = 0usize;
    if cx.quick() {
        // up to 5 pairs
        let k = 1 + ch.choose(5);
        let mut from = 0;
        for i in 0..k {
            let left = 20 - from - (k - 1 - i);
            if left == 0 {
                return Ok(());
            }
            let e = from + ch.choose(left);
            mask |= 1 << e;
            from = e + 1;
            if i == 0 {
                ch.shard()?;
            }
        }
    } else {
        let hi = ch.choose(1 << 8);
        ch.shard()?;
        mask = hi << 12 | ch.choose(1 << 12);
    }
    let rec: Vec<_> = edges_of(5, mask)
        .iter()
        .enumerate()
        .map(|(i, (a, b))| (*a, *b, format!("2023-02-{:02}", 1 + (i * 11) % 27), PRIMES[i]))
        .collect();
    graph_case(ch, cx, 5, rec);
    Ok(())
}

/// Prices at different times of the same day.
fn f_moments(ch: &mut Ch, cx: &mut Cx) -> R {
    const AT: [(&str, &str); 5] = [("2021-05-05", ""), ("2021-05-05", "00:00:01"), ("2021-05-05", "23:59:59"), ("2021-05-06", ""), ("2021-05-04", "12:30:15")];
    const PAIR: [(&str, &str); 3] = [("AA", "BB"), ("BB", "CC"), ("AA", "CC")];
    let n = 2 + ch.choose(cx.t(3, 4));
    let mut items = vec![];
    for i in 0..n {
        let k = ch.choose(15);
        if i == 1 {
            ch.shard()?;
        }
        let ((a, b), (d, t)) = (PAIR[k % 3], AT[k / 3]);
        items.push(price(d, t, a, ["1.25", "0.5", "3.001", "0.08", "12"][i], b));
    }
    case(ch, cx, &items);
    Ok(())
}

fn f_rivals(ch: &mut Ch, cx: &mut Cx) -> R {
    let counts = [1usize, 2, 3, 5, 9];
    let la = 1 + ch.choose(5);
    let lb = 1 + ch.choose(5);
    ch.shard()?;
    let (ka, kb) = (*ch.pick(&counts), *ch.pick(&counts));
    let dating = ch.choose(3);
    let rev = ch.flag();
    if la == 1 && lb == 1 {
        return Ok(());
    }
    let mut rec = vec![];
    let mut n = 2;
    for (c, (len, k)) in [(la, ka), (lb, kb)].into_iter().enumerate() {
        let mut at = 0;
        for i in 0..len {
            let to = if i + 1 == len { 1 } else { n };
            for p in 0..k {
                let year = match dating {
                    0 => 2021,
                    1 => 2020 + c,
                    _ => 2022 - c,
                };
                let day = 1 + (p * 3 + i * 2 + c) % 28;
                rec.push((at, to, format!("{}-{:02}-{:02}", year, 1 + (p * 5 + i) % 12, day), [2, 3, 5, 7, 1][(p + i + 2 * c) % 5]));
            }
            if to == n {
                n += 1;
            }
            at = to;
        }
    }
    if rev {
        rec.reverse();
    }
    // one price per pair and moment
    let mut seen = BTreeSet::new();
    rec.retain(|r| seen.insert((r.0, r.1, r.2.clone())));
    graph_case(ch, cx, n, rec);
    Ok(())
}

fn f_chains(ch: &mut Ch, cx: &mut Cx) -> R {
    let n = 3 + ch.choose(14);
    ch.shard()?;
    let kind = ch.choose(4);
    let a = ch.choose(n);
    let b = ch.choose(n);
    let mut rec = vec![];
    let rate = |i: usize| if i % 4 == 0 { 2 } else if i % 4 == 1 { 3 } else { 1 };
    let day = |i: usize| format!("2023-03-{:02}", 1 + (i * 5) % 28);
    for i in 0..n - 1 {
        rec.push((i, i + 1, day(i), rate(i)));
        if kind >= 2 {
            rec.push((i + 1, i, day(i + 3), rate(i + 1)));
        }
    }
    if kind == 1 || kind == 3 {
        rec.push((n - 1, 0, "2023-04-01".into(), 5));
    }
    if a != b {
        rec.retain(|r| !(r.0 == a && r.1 == b));
        rec.push((a, b, "2023-05-01".into(), 7));
    }
    graph_case(ch, cx, n, rec);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C17

const QUANTS: &[&str] = &[
    "0", "1", "-1", "0.1", "-0.1", "2", "-2", "3", "-3", "7", "-7", "0.01", "1.10", "-2.50", "10", "-100", "0.333", "12345.6789", "-99999.99", "0.0000000001", "-0.000001", "123456789012.345",
    "1000000", "0.125", "-0.9", "64",
];

fn f_pairs(ch: &mut Ch, cx: &mut Cx) -> R {
    let qa = *ch.pick(QUANTS);
    let qb = *ch.pick(QUANTS);
    ch.shard()?;
    let ca = ch.choose(3);
    let cb = ch.choose(3);
    pair_of_amounts(ch, cx, qa, qb, ca, cb)
}

/// Numbers of every size: all combinations of the lengths of the whole part and of the fraction.
fn f_lengths(ch: &mut Ch, cx: &mut Cx) -> R {
    let lens = cx.t(vec![1usize, 2, 3, 4, 6, 9, 12], (1..=14).collect());
    let fracs = cx.t(vec![0usize, 1, 2, 3, 5, 7, 9, 12], (0..=14).collect());
    let (w1, f1) = (*ch.pick(&lens), *ch.pick(&fracs));
    ch.shard()?;
    let (w2, f2) = (*ch.pick(&lens), *ch.pick(&fracs));
    let pattern = ch.choose(3);
    let signs = ch.choose(4);
    if w1 + w2 + f1 + f2 > 27 {
        cx.unspecified();
        return Ok(());
    }
    let make = |w: usize, f: usize, neg: bool, from: usize| {
        let d = |i: usize| match pattern {
            0 => '9',
            1 => ['1', '2', '3', '4', '5', '6', '7', '8', '9', '0'][(i + from) % 10],
            _ => if i == 0 { '5' } else { '0' },
        };
        let whole: String = (0..w).map(d).collect();
        let frac: String = (0..f).map(|i| if i + 1 == f { '5' } else { d(w + i) }).collect();
        format!("{}{}{}{}", if neg { "-" } else { "" }, if whole.starts_with('0') { "7".to_string() + &whole[1..] } else { whole.clone() }, if f > 0 { "." } else { "" }, frac)
    };
    let (qa, qb) = (make(w1, f1, signs & 1 == 1, 0), make(w2, f2, signs & 2 == 2, 4));
    pair_of_amounts(ch, cx, &qa, &qb, 1, 1)
}

/// Whole numbers as amounts and back.
fn f_integers(ch: &mut Ch, cx: &mut Cx) -> R {
    let block = ch.choose(64);
    ch.shard()?;
    let text = format!("whole numbers, block {}", block);
    cx.count(200);
    cx.sample(|| text.clone());
    let out = cx.exec(ch, || {
        let v: Vec<i32> = if block < 60 {
            (0..200).map(|i| (block as i32 - 30) * 200 + i).collect()
        } else {
            (0..31).flat_map(|s| [1i32 << s, (1i32 << s) - 1, -(1i32 << s), i32::MAX >> s, i32::MIN >> s, (1i32 << s) + 1]).chain((0..10).flat_map(|s| [10i32.pow(s), -10i32.pow(s), 10i32.pow(s) - 1])).collect()
        };
        for i in v {
            let want = Rat::int(i as i128);
            match guard(|| (Quantity::from(i), Amount::from(i))) {
                Ok((q, a)) => {
                    if rat(&q) != want || rat(&a.quantity) != want || a.get_commodity().is_some() {
                        return Outcome::Bad(format!("{} becomes {} and {:?}", i, q, a));
                    }
                    match guard(|| -> i32 { q.into() }) {
                        Ok(k) if k == i => (),
                        other => return Outcome::Bad(format!("{} comes back as {:?}", i, other)),
                    }
                }
                Err(m) => return Outcome::Bad(format!("{} failed: {}", i, m)),
            }
        }
        Outcome::Ok(hash_of(&block))
    });
    record(ch, cx, out, &text);
    Ok(())
}

fn pair_of_amounts(ch: &mut Ch, cx: &mut Cx, qa: &str, qb: &str, ca: usize, cb: usize) -> R {
    cx.count(16);
    let text = format!("{} {} and {} {}", qa, ["", "AA", "BB"][ca], qb, ["", "AA", "BB"][cb]);
    cx.sample(|| text.clone());
    let out = cx.exec(ch, || {
        let mut j = Journal::new();
        let set: BTreeSet<String> = ["AA".to_string(), "BB".to_string()].into();
        let ptr = |j: &mut Journal, c: usize| if c == 0 { None } else { Some(j.commodity_pool.find_or_create(["", "AA", "BB"][c], None)) };
        let pa = ptr(&mut j, 1);
        let pb = ptr(&mut j, 2);
        let of = |c: usize| [None, pa, pb][c];
        let a = Amount::new(Quantity::from(qa), of(ca));
        let b = Amount::new(Quantity::from(qb), of(cb));
        let (syms, _) = Syms::of(&j, &set);
        let (ra, rb) = (parse_dec(qa).unwrap(), parse_dec(qb).unwrap());
        let names = ["", "AA", "BB"];
        let prod_sym = if ca != 0 { names[ca] } else { names[cb] };
        let same = ca == cb;
        let bad = |what: &str, got: Result<Amount, String>, want: Rat, sym: &str, exact: bool| -> Option<String> {
            match got {
                Ok(g) => {
                    let g = syms.amt(&g);
                    let ok = g.sym_is(sym) && if exact { g.q == want } else { g.q.near(want) };
                    if ok { None } else { Some(format!("{} gives {} instead of {} {}", what, g, want, sym)) }
                }
                Err(m) => Some(format!("{} failed: {}", what, m)),
            }
        };
        let mut errs: Vec<Option<String>> = vec![];
        let add1 = guard(|| a + b);
        let add2 = guard(|| { let mut x = a; x += b; x });
        let add3 = guard(|| { let mut x = a; Amount::add(&mut x, &b); x });
        let sub1 = guard(|| { let mut x = a; x -= b; x });
        if same {
            errs.push(bad("a + b", add1, ra.add(rb), names[ca], true));
            errs.push(bad("a += b", add2, ra.add(rb), names[ca], true));
            errs.push(bad("a.add(b)", add3, ra.add(rb), names[ca], true));
            errs.push(bad("a -= b", sub1, ra.sub(rb), names[ca], true));
        } else {
            for (w, r) in [("a + b", add1), ("a += b", add2), ("a.add(b)", add3), ("a -= b", sub1)] {
                if let Ok(x) = r {
                    errs.push(Some(format!("{} of different commodities gives {}", w, syms.amt(&x))));
                }
            }
        }
        errs.push(bad("a * b", guard(|| a * b), ra.mul(rb), prod_sym, true));
        errs.push(bad("a *= b", guard(|| { let mut x = a; x *= b; x }), ra.mul(rb), prod_sym, true));
        if !rb.is_zero() {
            errs.push(bad("a / b", guard(|| a / b), ra.div(rb), prod_sym, false));
        }
        errs.push(bad("inverse", guard(|| a.inverse()), ra.neg(), names[ca], true));
        errs.push(bad("invert", guard(|| { let mut x = a; x.invert(); x }), ra.neg(), names[ca], true));
        errs.push(bad("invert twice", guard(|| { let mut x = a; x.invert(); x.invert(); x }), ra, names[ca], true));
        errs.push(bad("inverse of the inverse", guard(|| a.inverse().inverse()), ra, names[ca], true));
        errs.push(bad("a + inverse", guard(|| a + a.inverse()), Rat::ZERO, names[ca], true));
        errs.push(bad("abs", guard(|| a.abs()), ra.abs(), names[ca], true));
        errs.push(bad("abs of the inverse", guard(|| a.inverse().abs()), ra.abs(), names[ca], true));
        errs.push(bad("copy", guard(|| Amount::copy_from(&a)), ra, names[ca], true));
        if guard(|| a.is_zero()) != Ok(ra.is_zero()) {
            errs.push(Some("is_zero is wrong".into()));
        }
        // plain quantities
        let (x, y) = (Quantity::from(qa), Quantity::from(qb));
        let q = |what: &str, got: Result<Quantity, String>, want: Rat, exact: bool| -> Option<String> {
            match got {
                Ok(g) if if exact { rat(&g) == want } else { rat(&g).near(want) } => None,
                g => Some(format!("quantities: {} gives {:?} instead of {}", what, g.map(|g| g.to_string()), want)),
            }
        };
        errs.push(q("+", guard(|| x + y), ra.add(rb), true));
        errs.push(q("+=", guard(|| { let mut z = x; z += y; z }), ra.add(rb), true));
        errs.push(q("-=", guard(|| { let mut z = x; z -= y; z }), ra.sub(rb), true));
        errs.push(q("*", guard(|| x * y), ra.mul(rb), true));
        errs.push(q("*=", guard(|| { let mut z = x; z *= y; z }), ra.mul(rb), true));
        if !rb.is_zero() {
            errs.push(q("/", guard(|| x / y), ra.div(rb), false));
        }
        errs.push(q("read", Ok(x), ra, true));
        if guard(|| x == y) != Ok(ra == rb) || guard(|| x < y) != Ok(ra.sub(rb).signum() < 0) {
            errs.push(Some("the comparison of the quantities is wrong".into()));
        }
        match errs.into_iter().flatten().next() {
            Some(m) => Outcome::Bad(m),
            None => Outcome::Ok(hash_of(&(ra, rb, ca, cb))),
        }
    });
    record(ch, cx, out, &text);
    Ok(())
}

#[cfg(ledger_verif)]
const BAL: &[(&str, &str)] = &[("1", "AA"), ("-1", "AA"), ("2.5", "BB"), ("-0.3", ""), ("0", "AA"), ("4", "BB"), ("-2.5", "BB")];

#[cfg(not(ledger_verif))]
fn f_balances(ch: &mut Ch, cx: &mut Cx) -> R {
    ch.shard()?;
    cx.unspecified();
    Ok(())
}
#[cfg(not(ledger_verif))]
fn f_sums(ch: &mut Ch, cx: &mut Cx) -> R {
    ch.shard()?;
    cx.unspecified();
    Ok(())
}

#[cfg(ledger_verif)]
fn bal_matches(got: &[OAmt], want: &BTreeMap<&str, Rat>) -> Option<String> {
    let mut left = want.clone();
    for g in got {
        let s = match &g.sym {
            OSym::None => "",
            OSym::Sym(s) => s.as_str(),
            OSym::Bad => return Some("a commodity outside of the journal".into()),
        };
        match left.remove(s) {
            Some(q) if q == g.q => (),
            Some(q) => return Some(format!("{} instead of {} {}", g, q, s)),
            None if g.q.is_zero() => (),
            None => return Some(format!("{} twice, or never added", g)),
        }
    }
    if let Some((s, q)) = left.iter().find(|(_, q)| !q.is_zero()) {
        return Some(format!("{} {} is missing", q, s));
    }
    None
}

#[cfg(ledger_verif)]
fn f_balances(ch: &mut Ch, cx: &mut Cx) -> R {
    let n = 1 + ch.choose(cx.t(4, 5));
    let mut v = vec![ch.choose(2 * BAL.len())];
    if n > 1 {
        v.push(ch.choose(2 * BAL.len()));
    }
    ch.shard()?;
    while v.len() < n {
        v.push(ch.choose(2 * BAL.len()));
    }
    cx.count(n as u64);
    let text = v.iter().map(|k| format!("{} {} {}", if k % 2 == 0 { "+" } else { "-" }, BAL[k / 2].0, BAL[k / 2].1)).collect::<Vec<_>>().join(", ");
    cx.sample(|| text.clone());
    let out = cx.exec(ch, || {
        let mut j = Journal::new();
        let set: BTreeSet<String> = ["AA".to_string(), "BB".to_string()].into();
        for s in &set {
            j.commodity_pool.find_or_create(s, None);
        }
        let mut want: BTreeMap<&str, Rat> = BTreeMap::new();
        let mut terms = vec![];
        for k in &v {
            let (q, s) = BAL[k / 2];
            let c = if s.is_empty() { None } else { Some(j.commodity_pool.find_or_create(s, None)) };
            terms.push((k % 2 == 0, Amount::new(Quantity::from(q), c)));
            let r = parse_dec(q).unwrap();
            let e = want.entry(s).or_insert(Rat::ZERO);
            *e = if k % 2 == 0 { e.add(r) } else { e.sub(r) };
        }
        let (syms, _) = Syms::of(&j, &set);
        match guard(|| ledger_rs_lib::verif_hooks::balance_of(&terms)) {
            Ok(b) => {
                let got: Vec<OAmt> = b.iter().map(|a| syms.amt(a)).collect();
                match bal_matches(&got, &want) {
                    Some(m) => Outcome::Bad(format!("the balance has {}", m)),
                    None => Outcome::Ok(hash_of(&got)),
                }
            }
            Err(m) => Outcome::Bad(format!("failed: {}", m)),
        }
    });
    record(ch, cx, out, &text);
    Ok(())
}

#[cfg(not(ledger_verif))]
fn f_bal_many(ch: &mut Ch, cx: &mut Cx) -> R {
    ch.shard()?;
    cx.unspecified();
    Ok(())
}

#[cfg(ledger_verif)]
fn f_bal_many(ch: &mut Ch, cx: &mut Cx) -> R {
    let n = 1 + ch.choose(cx.t(40, 150));
    let at = ch.choose(n);
    ch.shard()?;
    let kind = ch.choose(5);
    // one of them without a commodity
    let bare = ch.flag();
    cx.count(n as u64);
    let text = format!("{} commodities, {} at {}{}", n, ["added to", "subtracted from", "cancelled", "summed", "taken out of nothing"][kind], at, if bare { ", the first has no symbol" } else { "" });
    cx.sample(|| text.clone());
    let out = cx.exec(ch, || {
        let mut j = Journal::new();
        let names: Vec<String> = (0..n).map(|i| if bare && i == 0 { String::new() } else { sym(i) }).collect();
        let set: BTreeSet<String> = names.iter().filter(|s| !s.is_empty()).cloned().collect();
        let mut want: BTreeMap<&str, Rat> = BTreeMap::new();
        let mut terms: Vec<(bool, Amount)> = vec![];
        let mut put = |j: &mut Journal, i: usize, plus: bool, q: i128, d: i128| {
            let c = if names[i].is_empty() { None } else { Some(j.commodity_pool.find_or_create(&names[i], None)) };
            let r = Rat::new(q, d);
            let text = if d == 1 { format!("{}", q) } else { format!("{}.25", q / 4) };
            terms.push((plus, Amount::new(Quantity::from(text.as_str()), c)));
            let e = want.entry(&names[i]).or_insert(Rat::ZERO);
            *e = if plus { e.add(r) } else { e.sub(r) };
        };
        for i in 0..n {
            put(&mut j, i, kind != 4, i as i128 + 1, 1);
        }
        match kind {
            0 | 3 => put(&mut j, at, true, 4 * 7 + 1, 4),
            1 => put(&mut j, at, false, 4 * 7 + 1, 4),
            2 => put(&mut j, at, false, at as i128 + 1, 1),
            _ => (),
        }
        let (syms, _) = Syms::of(&j, &set);
        let r = guard(|| {
            if kind == 3 {
                let groups: Vec<Vec<Amount>> = [&terms[..at], &terms[at..], &[][..]].iter().map(|g| g.iter().map(|t| t.1).collect()).collect();
                ledger_rs_lib::verif_hooks::balance_sum(&groups)
            } else {
                ledger_rs_lib::verif_hooks::balance_of(&terms)
            }
        });
        match r {
            Ok(b) => {
                let got: Vec<OAmt> = b.iter().map(|a| syms.amt(a)).collect();
                match bal_matches(&got, &want) {
                    Some(m) => Outcome::Bad(format!("the balance has {}", m)),
                    None => Outcome::Ok(hash_of(&got)),
                }
            }
            Err(m) => Outcome::Bad(format!("failed: {}", m)),
        }
    });
    record(ch, cx, out, &text);
    Ok(())
}

#[cfg(ledger_verif)]
fn f_sums(ch: &mut Ch, cx: &mut Cx) -> R {
    let contents: Vec<Vec<usize>> = vec![
        vec![], vec![0], vec![1], vec![2], vec![3], vec![4], vec![0, 2], vec![2, 0], vec![3, 0], vec![0, 3], vec![5, 6], vec![2, 6], vec![0, 1, 2, 3], vec![3, 3], vec![5, 1],
    ];
    let a = ch.choose(contents.len());
    let b = ch.choose(contents.len());
    ch.shard()?;
    let c = ch.choose(contents.len());
    let v = [a, b, c];
    cx.count(3);
    let text = v.iter().map(|k| format!("{:?}", contents[*k].iter().map(|i| BAL[*i]).collect::<Vec<_>>())).collect::<Vec<_>>().join(" + ");
    cx.sample(|| text.clone());
    let out = cx.exec(ch, || {
        let mut j = Journal::new();
        let set: BTreeSet<String> = ["AA".to_string(), "BB".to_string()].into();
        for s in &set {
            j.commodity_pool.find_or_create(s, None);
        }
        let mut want: BTreeMap<&str, Rat> = BTreeMap::new();
        let mut groups = vec![];
        for k in &v {
            let mut g = vec![];
            for i in &contents[*k] {
                let (q, s) = BAL[*i];
                let c = if s.is_empty() { None } else { Some(j.commodity_pool.find_or_create(s, None)) };
                g.push(Amount::new(Quantity::from(q), c));
                let e = want.entry(s).or_insert(Rat::ZERO);
                *e = e.add(parse_dec(q).unwrap());
            }
            groups.push(g);
        }
        let (syms, _) = Syms::of(&j, &set);
        match guard(|| ledger_rs_lib::verif_hooks::balance_sum(&groups)) {
            Ok(b) => {
                let got: Vec<OAmt> = b.iter().map(|a| syms.amt(a)).collect();
                match bal_matches(&got, &want) {
                    Some(m) => Outcome::Bad(format!("the sum has {}", m)),
                    None => Outcome::Ok(hash_of(&got)),
                }
            }
            Err(m) => Outcome::Bad(format!("failed: {}", m)),
        }
    });
    record(ch, cx, out, &text);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C18

fn f_exchange_api(ch: &mut Ch, cx: &mut Cx) -> R {
    let q = *ch.pick(&["10", "-10", "1", "-1", "2.5", "-0.5", "3", "-7", "0.001", "0", "1000000.5", "-0.0000001", "123456789", "-33.333", "100"]);
    let c = *ch.pick(&["25", "1", "0", "0.3", "100.10", "7", "-25", "1000000", "0.00001", "3.33", "-1"]);
    ch.shard()?;
    let per_unit = ch.flag();
    let lot = ch.choose(7);
    // what else the journal has
    let context = ch.choose(5);
    let (day, seconds) = *ch.pick(&[("2023-01-01", 0u64), ("2020-02-29", 0), ("2022-03-03", 86_399), ("1999-12-31", 43_200), ("2022-01-01", 37_800), ("2022-02-02", 1)]);
    let csym = *ch.pick(&["EUR", "USD", "GBP"]);
    let (rq, rc) = (parse_dec(q).unwrap(), parse_dec(c).unwrap());
    let text = format!("{} VEUR for {} {}{}, lot {}, journal {}, on {} + {} s", q, c, csym, if per_unit { " each" } else { "" }, lot, context, day, seconds);
    cx.count(1);
    cx.sample(|| text.clone());
    // a negative cost: only the parts that are defined
    let out = cx.exec(ch, || {
        let mut j = Journal::new();
        // the lot is known from a posting
        let lot_text = ["", "{20 EUR} ", "[2022-01-01] ", "{20.5 EUR} [2022-01-01] ", "{0 EUR} ", "[2022-02-02] {3 USD} ", "{1,000.25 GBP} "][lot];
        let lot_price: Option<(Rat, &str)> = [None, Some((Rat::int(20), "EUR")), None, Some((Rat::new(41, 2), "EUR")), Some((Rat::ZERO, "EUR")), Some((Rat::int(3), "USD")), Some((Rat::new(4001, 4), "GBP"))][lot];
        let trade = |d: &str, what: &str| format!("{} Trade\n    A  {}\n    B\n\n", d, what);
        let own = trade("2022-03-03", &format!("1 VEUR {}@ 2 EUR", lot_text));
        let own = match context {
            0 => own,
            1 => trade("2022-03-01", "5 VEUR") + &own,
            2 => own + &trade("2022-03-01", "-5 VEUR @ 7 USD") + &trade("2024-03-01", "5 VEUR @@ 8 EUR"),
            3 => trade("2022-03-01", "5 GBP {4 EUR} [2021-01-01] @ 3 EUR") + &own + &trade("2022-03-01", "5 USD {6 EUR} @ 3 EUR"),
            _ => (0..30).map(|i| trade("2022-03-01", &format!("5 {} {{{} EUR}} @ 3 EUR", sym(i), i + 1))).collect::<String>() + &own,
        };
        let t = own + "P 2022-01-01 EUR 1 USD\nP 2022-01-01 GBP 1 USD\n";
        if let Err(m) = guard(|| ledger_rs_lib::parse_text(&t, &mut j)) {
            return Outcome::Bad(format!("the lot was not read: {}", m));
        }
        let mut set: BTreeSet<String> = ["VEUR", "EUR", "USD", "GBP"].iter().map(|s| s.to_string()).collect();
        if context == 4 {
            set.extend((0..30).map(sym));
        }
        let before = observe(&j, &set);
        let v = j.commodity_pool.find_or_create("VEUR", None);
        let e = j.commodity_pool.find_or_create(csym, None);
        let amount = Amount::new(Quantity::from(q), Some(v));
        let cost = Amount::new(Quantity::from(c), Some(e));
        let moment = ledger_rs_lib::parser::parse_datetime(day).unwrap() + std::time::Duration::from_secs(seconds);
        let (b, price) = match guard(|| j.commodity_pool.exchange(&amount, &cost, per_unit, moment)) {
            Ok(x) => x,
            Err(m) => return Outcome::Bad(format!("failed: {}", m)),
        };
        let (syms, _) = Syms::of(&j, &set);
        let fin = if per_unit { rc.mul(rq.abs()) } else { rc };
        let (ba, bf, bb) = (syms.amt(&b.amount), syms.amt(&b.final_cost), syms.amt(&b.basis_cost));
        if !ba.is(rq, "VEUR") {
            return Outcome::Bad(format!("the amount became {}", ba));
        }
        if !bf.is(fin, csym) {
            return Outcome::Bad(format!("the final cost is {} instead of {} {}", bf, fin, csym));
        }
        let (wq, ws) = match lot_price {
            Some((p, s)) => (p.mul(rq), s),
            None => (fin, csym),
        };
        if !bb.is(wq, ws) {
            return Outcome::Bad(format!("the basis cost is {} instead of {} {}", bb, wq, ws));
        }
        let unit = if per_unit { Some(rc.abs()) } else if rq.is_zero() { None } else { Some(rc.div(rq).abs()) };
        if let Some(u) = unit {
            match &price {
                None if u.is_zero() => (),
                Some(p) if !u.is_zero() => {
                    let a = syms.amt(&p.price);
                    if !(a.q.near(u) && a.sym_is(csym)) {
                        return Outcome::Bad(format!("the new price is {} instead of {} {}", a, u, csym));
                    }
                    if p.commodity != v || p.datetime != moment {
                        return Outcome::Bad("the new price is for another commodity or moment".into());
                    }
                }
                p => return Outcome::Bad(format!("the new price is {:?} instead of {}", p.as_ref().map(|p| syms.amt(&p.price).to_string()), u)),
            }
        }
        if observe(&j, &set) != before {
            return Outcome::Bad("the exchange changed the journal".into());
        }
        // recording the price adds exactly that
        #[cfg(ledger_verif)]
        if let Some(p) = price {
            let add = OPrice { from: OSym::Sym("VEUR".into()), to: OSym::Sym(csym.into()), when: moment.to_string(), rate: rat(&p.price.quantity) };
            if let Err(m) = guard(|| j.commodity_pool.add_price_struct(p)) {
                return Outcome::Bad(format!("recording the new price failed: {}", m));
            }
            let mut want = before.clone();
            want.prices.retain(|x| (&x.from, &x.to, &x.when) != (&add.from, &add.to, &add.when));
            want.prices.push(add);
            want.prices.sort_by(|a, b| format!("{:?}", a).cmp(&format!("{:?}", b)));
            let have = observe(&j, &set);
            if have != want {
                return Outcome::Bad(format!("after recording the new price the prices are {:?} instead of {:?}", have.prices, want.prices));
            }
        }
        Outcome::Ok(hash_of(&(rq, rc, per_unit, lot, csym)))
    });
    record(ch, cx, out, &text);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C19

fn cli_files() -> Vec<(&'static str, Vec<Item>)> {
    let mut t = templates();
    fix_styles(&mut t);
    let mut files = plain_files(&t);
    // makes the order of the files visible
    for (i, f) in files.iter_mut().enumerate() {
        f.1.push(Item::X(xact("2023-03-02", "Order", vec![post("Order", Some(amt("1", ["OA", "OB", "OC", "OD"][i]))), post("Order:X", None)])));
    }
    files
}

fn plain_files(t: &[Item]) -> Vec<(&'static str, Vec<Item>)> {
    vec![
        ("a.ledger", vec![t[0].clone(), t[2].clone()]),
        ("b c.ledger", vec![t[7].clone(), t[3].clone(), t[1].clone()]),
        ("it's.dat", vec![t[5].clone(), t[6].clone()]),
        ("b", vec![t[9].clone(), t[10].clone(), Item::X(xact("2023-03-01", "Names", vec![
            post("Liabilities:Cash", Some(amt("4", "EUR"))),
            post("zed:Cash:Cash", Some(amt("-1", "EUR"))),
            post("Älter", Some(amt("-1", "EUR"))),
            post("Assets", None),
        ]))]),
    ]
}

fn quote(s: &str, how: usize) -> String {
    match how {
        1 => format!("\"{}\"", s.chars().map(|c| if "\"\\$`".contains(c) { format!("\\{}", c) } else { c.to_string() }).collect::<String>()),
        2 => s.split('\'').map(|p| format!("'{}'", p)).collect::<Vec<_>>().join("\\'"),
        _ => s.chars().map(|c| if c.is_alphanumeric() || "-./_".contains(c) { c.to_string() } else { format!("\\{}", c) }).collect(),
    }
}

fn f_cli(ch: &mut Ch, cx: &mut Cx) -> R {
    let files = cli_files();
    let cmd = *ch.pick(&["b", "accounts", "bal", "balance"]);
    let n = ch.choose(cx.t(4, 5));
    let mut which = vec![];
    for _ in 0..n {
        which.push(ch.choose(files.len()));
    }
    ch.shard()?;
    let at = ch.choose(n + 1);
    let abs = ch.flag();
    // a list of arguments, one string in three ways of quoting, the executable
    let how = ch.choose(5);
    if n == 4 && how == 4 && abs {
        return Ok(());
    }
    let dir = cx.scratch.clone();
    let mark = dir.join("cli-files");
    if !mark.exists() {
        for (name, items) in &files {
            std::fs::write(dir.join(name), render(items)).unwrap();
        }
        std::fs::write(&mark, "").unwrap();
    }
    let mut args: Vec<String> = vec![];
    for (i, w) in which.iter().enumerate() {
        if i == at {
            args.push(cmd.into());
        }
        args.push("-f".into());
        args.push(if abs { dir.join(files[*w].0).to_str().unwrap().into() } else { files[*w].0.into() });
    }
    if at == n {
        args.push(cmd.into());
    }
    let items: Vec<Item> = which.iter().flat_map(|w| files[*w].1.clone()).collect();
    cli_case(ch, cx, cmd, args, items, how);
    Ok(())
}

/// Any words in any order.
fn f_cli_words(ch: &mut Ch, cx: &mut Cx) -> R {
    const WORDS: [&str; 10] = ["balance", "accounts", "-f", "w1.ledger", "w2.ledger", "register", "-x", "--file", "w0.ledger", "print"];
    let n = ch.choose(cx.t(4, 5) + 1);
    let mut args: Vec<String> = vec![];
    for i in 0..n {
        args.push(ch.pick(&WORDS).to_string());
        if i == 1 {
            ch.shard()?;
        }
    }
    if n < 2 {
        ch.shard()?;
    }
    let how = *ch.pick(&[0, 1, 4]);
    if how == 4 && n > 3 {
        return Ok(());
    }
    // what it means
    let (mut words, mut files, mut bad, mut i) = (vec![], vec![], false, 0);
    while i < n {
        match args[i].as_str() {
            "-f" if i + 1 < n => {
                files.push(args[i + 1].clone());
                i += 1;
            }
            o if o.starts_with('-') => bad = true,
            w => words.push(w.to_string()),
        }
        i += 1;
    }
    let all = cli_files();
    let dir = cx.scratch.clone();
    for (k, w) in ["w1.ledger", "w2.ledger"].iter().enumerate() {
        if !dir.join(w).exists() {
            std::fs::write(dir.join(w), render(&all[k].1)).unwrap();
        }
    }
    let known: Vec<Option<usize>> = files.iter().map(|f| ["w1.ledger", "w2.ledger"].iter().position(|w| w == f)).collect();
    bad = bad || known.iter().any(|k| k.is_none()) || words.is_empty() || !matches!(words[0].as_str(), "balance" | "accounts");
    if bad {
        let what = format!("{:?} given {}", args, ["as a list", "as a string", "", "", "to the executable"][how]);
        let exe = std::env::var("LEDGER_EXE").unwrap_or_default();
        must_refuse(ch, cx, what, move || match how {
            0 => ledger_rs_lib::run(args).join("; "),
            1 => ledger_rs_lib::run_command(&args.join(" ")).join("; "),
            _ => {
                let o = std::process::Command::new(&exe).args(&args).current_dir(&dir).output().expect("harness: the executable runs");
                if !o.status.success() {
                    panic!("refused");
                }
                String::from_utf8_lossy(&o.stdout).to_string()
            }
        });
    } else if words.len() == 1 {
        let items: Vec<Item> = known.iter().flat_map(|k| all[k.unwrap()].1.clone()).collect();
        cli_case(ch, cx, &words[0], args, items, how);
    }
    // (arguments of the commands have no meaning yet)
    Ok(())
}

/// Commands and options there are none of.
fn f_cli_unknown(ch: &mut Ch, cx: &mut Cx) -> R {
    let mut commands: Vec<String> = "ba bala balanc balances balance: Balance BALANCE Bal BAL B bb b: bal: budget bar register reg r print p cleared convert csv draft echo emacs entry equity exec expr generate help lisp org pricemap payees prices pricedb period query reload script select server source stats tags template xact xml commodities Accounts ACCOUNTS count test format parse eval push pop quit 1 . / _ é \u{a0}b"
        .split(' ')
        .map(|s| s.to_string())
        .collect();
    commands.extend((b'c'..=b'z').map(|c| (c as char).to_string()));
    commands.extend((b'A'..=b'Z').map(|c| (c as char).to_string()));
    let options: Vec<String> = (33u8..127).map(|c| c as char).filter(|c| !"f-'\"\\".contains(*c)).map(|c| format!("-{}", c))
        .chain(["-xf", "-fx", "-F", "-file", "--f", "--file", "--files", "--balance", "--help", "--version", "--file=w1.ledger", "--f=w1.ledger"].iter().map(|s| s.to_string())).collect();
    let k = ch.choose(commands.len() + options.len());
    ch.shard()?;
    let form = ch.choose(7);
    let how = ch.choose(2);
    let word = |w: &str| w.to_string();
    let args: Vec<String> = if k < commands.len() {
        let c = commands[k].clone();
        match form {
            0 => vec![c],
            1 => vec![c, word("-f"), word("w1.ledger")],
            2 => vec![word("-f"), word("w1.ledger"), c],
            3 => vec![word("-f"), word("w1.ledger"), c, word("-f"), word("w2.ledger")],
            4 => vec![c, word("balance"), word("-f"), word("w1.ledger")],
            5 => vec![c, word("-f"), word("w1.ledger"), word("accounts")],
            _ => vec![c, word("accounts")],
        }
    } else {
        let o = options[k - commands.len()].clone();
        match form {
            0 => vec![word("balance"), o],
            1 => vec![word("balance"), o, word("w1.ledger")],
            2 => vec![o, word("w1.ledger"), word("accounts")],
            3 => vec![word("balance"), o, word("w1.ledger"), word("-f"), word("w2.ledger")],
            4 => vec![word("accounts"), word("-f"), word("w1.ledger"), o, word("w2.ledger")],
            5 => vec![word("accounts"), word("-f"), word("w1.ledger"), o],
            _ => vec![word("b"), word("-f"), word("w1.ledger"), word("-f"), word("w2.ledger"), o, word("w1.ledger"), word("w2.ledger")],
        }
    };
    let all = cli_files();
    for (k, w) in ["w1.ledger", "w2.ledger"].iter().enumerate() {
        if !cx.scratch.join(w).exists() {
            std::fs::write(cx.scratch.join(w), render(&all[k].1)).unwrap();
        }
    }
    let line = args.iter().map(|a| format!("'{}'", a)).collect::<Vec<_>>().join(" ");
    let what = format!("{} given {}", line, ["as a list", "as a string"][how]);
    must_refuse(ch, cx, what, move || match how {
        0 => ledger_rs_lib::run(args).join("; "),
        _ => ledger_rs_lib::run_command(&line).join("; "),
    });
    Ok(())
}

/// More file options than one would give by hand.
fn f_cli_many(ch: &mut Ch, cx: &mut Cx) -> R {
    let cmd = *ch.pick(&["b", "accounts"]);
    let n = 4 + ch.choose(cx.t(14, 40));
    let pattern = ch.choose(4);
    ch.shard()?;
    let at = ch.choose(n + 1);
    let how = *ch.pick(&[0, 1, 4]);
    if how == 4 && at != 0 && at != n {
        return Ok(());
    }
    let files = cli_files();
    let dir = cx.scratch.clone();
    let mark = dir.join("cli-files");
    if !mark.exists() {
        for (name, items) in &files {
            std::fs::write(dir.join(name), render(items)).unwrap();
        }
        std::fs::write(&mark, "").unwrap();
    }
    let mut args: Vec<String> = vec![];
    let mut items = vec![];
    for i in 0..n {
        if i == at {
            args.push(cmd.into());
        }
        let w = [0, i % 4, (i / 4) % 4, if i + 1 == n { 3 } else { 1 }][pattern];
        args.push("-f".into());
        args.push(files[w].0.into());
        items.extend(files[w].1.clone());
    }
    if at == n {
        args.push(cmd.into());
    }
    cli_case(ch, cx, cmd, args, items, how);
    Ok(())
}

/// Files with unusual names.
fn f_cli_names(ch: &mut Ch, cx: &mut Cx) -> R {
    const NAMES: [&str; 36] = [
        "x", "bal", "accounts", "balance", "a", "-", "-x", "--file", "-f", "-b", "a=b", "f", "ünï.ledger", "帳簿", "a;b", "a#b", "a\"b", "$HOME",
        "*.ledger", "?", "~x", "a\\b", "[x]", "{a,b}", "a&b", "a|b", "(a)", " lead", "trail ", "two  spaces", "1", ".hidden", "x.y.z", "a,b", "@x", "tab\tname",
    ];
    let name = ch.choose(NAMES.len() + 2);
    let cmd = *ch.pick(&["b", "accounts", "bal", "balance"]);
    ch.shard()?;
    let at = ch.choose(3);
    let sub = ch.flag();
    let how = ch.choose(5);
    let name = if name < NAMES.len() { NAMES[name].to_string() } else { "n".repeat([200, 255][name - NAMES.len()]) };
    let files = cli_files();
    let dir = cx.scratch.join("names");
    std::fs::create_dir_all(&dir).unwrap();
    let (one, two) = (files[0].1.clone(), files[1].1.clone());
    let base = cx.scratch.clone();
    let path = if sub { format!("names/{}", name) } else { name.clone() };
    let file = base.join(&path);
    std::fs::write(&file, render(&one)).unwrap();
    std::fs::write(base.join("second.ledger"), render(&two)).unwrap();
    let mut args: Vec<String> = vec!["-f".into(), path, "-f".into(), "second.ledger".into()];
    args.insert(2 * at, cmd.into());
    let items: Vec<Item> = one.into_iter().chain(two).collect();
    cli_case(ch, cx, cmd, args, items, how);
    let _ = std::fs::remove_file(&file);
    Ok(())
}

/// Runs the command and compares it with the report of the journal of these items.
fn cli_case(ch: &Ch, cx: &mut Cx, cmd: &str, args: Vec<String>, items: Vec<Item>, how: usize) {
    let dir = cx.scratch.clone();
    let e = meaning(&items);
    let reference = render(&items);
    cx.count(args.len() as u64);
    let text = format!("{:?} given {}", args, ["as a list", "as a string", "as a string in double quotes", "as a string in single quotes", "to the executable"][how]);
    cx.sample(|| text.clone());
    let exe = std::env::var("LEDGER_EXE").unwrap_or_default();
    if how == 4 && !Path::new(&exe).exists() {
        panic!("the executable was not built");
    }
    let out = cx.exec(ch, || {
        // the report of the journal with these transactions
        let mut j = Journal::new();
        let want = guard(|| {
            ledger_rs_lib::parse_text(&reference, &mut j);
            if cmd == "accounts" {
                vec![]
            } else {
                ledger_rs_lib::report::balance_report(&j)
            }
        });
        let want = match want {
            Ok(w) => w,
            Err(m) => return Outcome::Bad(format!("the journal itself was not read: {}", m)),
        };
        let expected_names = || {
            let mut names: Vec<String> = e.accounts.iter().map(|a| a.rsplit(':').next().unwrap().to_string()).collect();
            names.push("".into());
            names.sort();
            names
        };
        let want = if cmd == "accounts" { expected_names() } else { want };
        if how == 4 {
            let o = match std::process::Command::new(&exe).args(&args).current_dir(&dir).output() {
                Ok(o) => o,
                Err(m) => panic!("{}", m),
            };
            let stdout = String::from_utf8_lossy(&o.stdout).to_string();
            if !o.status.success() {
                return Outcome::Bad(format!("the executable failed: {} {}", stdout, String::from_utf8_lossy(&o.stderr)));
            }
            let line = format!("{:?}", want);
            let joined = want.join("\n");
            if stdout.lines().last() != Some(line.as_str()) && !stdout.trim_end().ends_with(joined.trim_end()) {
                return Outcome::Bad(format!("the executable printed {:?} instead of {:?}", stdout, line));
            }
            return Outcome::Ok(hash_of(&want));
        }
        let got = if how == 0 {
            guard(|| ledger_rs_lib::run(args.clone()))
        } else {
            let line = args.iter().map(|a| quote(a, [0, 0, 1, 2][how])).collect::<Vec<_>>().join(if how == 2 { "  " } else { " " });
            guard(|| ledger_rs_lib::run_command(&line))
        };
        match got {
            Err(m) => Outcome::Bad(format!("failed: {}", m)),
            Ok(g) => {
                if g != want {
                    return Outcome::Bad(format!("gives {:?} instead of {:?}", g, want));
                }
                if cmd != "accounts" {
                    if let Some(m) = report_matches(&e, &g, false) {
                        return Outcome::Bad(m);
                    }
                }
                Outcome::Ok(hash_of(&g))
            }
        }
    });
    record(ch, cx, out, &text);
}


// ---------------------------------------------------------------------------------------------
// C20

fn permutations(n: usize) -> usize {
    (1..=n).product()
}

fn f_orders(ch: &mut Ch, cx: &mut Cx) -> R {
    let names = ["Cash", "Bank", "cash", "Zoo", "Ž", "A", "Bank2"];
    let n = 1 + ch.choose(cx.t(4, 5));
    let mut v: Vec<usize> = vec![];
    for i in 0..n {
        // ascending choices: sets
        let from = v.last().map_or(0, |x| x + 1);
        let left = names.len() - from - (n - 1 - i);
        v.push(from + ch.choose(left));
    }
    let shape = ch.choose(4);
    ch.shard()?;
    let mut items = vec![];
    let syms = ["EUR", "USD", "$", ""];
    for (i, k) in v.iter().enumerate() {
        let a = match shape {
            0 => names[*k].to_string(),
            1 => format!("Top:{}", names[*k]),
            2 => format!("{}:Sub", names[*k]),
            _ => format!("Top:{}:{}", names[*k], names[v[0]]),
        };
        items.push(Item::X(xact(D1, "O", vec![post(&a, Some(amt(&format!("{}.5", i + 1), syms[i % 4]))), post("Equity", None)])));
        items.push(Item::X(xact(D1, "O", vec![post(&a, Some(amt("2", syms[(i + 1) % 4]))), post("Equity", None)])));
    }
    let text = render(&items);
    let e = meaning(&items);
    let seeds: u64 = [8, 16, 48, 260, 1500][n - 1];
    cx.count(0);
    cx.sample(|| text.clone());
    let mut orders: BTreeSet<Vec<String>> = BTreeSet::new();
    let mut first: Option<Vec<String>> = None;
    for seed in 0..seeds {
        cx.count(items.len() as u64);
        let e = &e;
        let text = &text;
        let v = &v;
        let (order, r) = cx.exec_seeded(ch, seed * 7919 + 1, || {
            let mut j = Journal::new();
            if let Err(m) = guard(|| ledger_rs_lib::parse_text(text, &mut j)) {
                return (vec![], Err(format!("was not read: {}", m)));
            }
            // the order of the collection that holds the siblings
            let holder: Vec<String> = {
                let at = tree(&j).into_iter().find(|(p, _)| p == if shape == 1 || shape == 3 { "Top" } else { "" });
                match at {
                    Some((_, a)) => a.accounts.keys().filter(|k| v.iter().any(|i| names[*i] == k.as_str())).cloned().collect(),
                    None => vec![],
                }
            };
            let o = observe(&j, &e.symbols);
            if let Some(m) = judge("C20", e, &o, &mut j) {
                return (holder, Err(m));
            }
            let mut accounts = ledger_rs_lib::report::report_accounts(&j);
            let mut rep = ledger_rs_lib::report::balance_report(&j);
            rep.append(&mut accounts);
            (holder, Ok(rep))
        });
        orders.insert(order);
        match r {
            Err(m) => {
                cx.fail(ch, format!("hash seed {}: {}", seed, m), text);
                return Ok(());
            }
            Ok(rep) => {
                cx.checked();
                cx.state(hash_of(&rep));
                match &first {
                    None => first = Some(rep),
                    Some(f) if *f != rep => {
                        cx.fail(ch, format!("hash seed {}: the report differs: {:?} and {:?}", seed, f, rep), text);
                        return Ok(());
                    }
                    _ => (),
                }
            }
        }
    }
    cx.note("sibling orders possible", permutations(n) as u64);
    cx.note("sibling orders seen", orders.len() as u64);
    Ok(())
}

fn f_alike(ch: &mut Ch, cx: &mut Cx) -> R {
    let n = 1 + ch.choose(cx.t(40, 130));
    let shape = ch.choose(4);
    ch.shard()?;
    let p = "Name".repeat(n / 4 + 1)[..n].to_string();
    let names = if shape % 2 == 0 { vec![format!("{}b", p), format!("{}a", p), format!("{}c", p)] } else { vec![format!("c{}", p), format!("a{}", p), format!("b{}", p)] };
    let items: Vec<Item> = names
        .iter()
        .enumerate()
        .map(|(i, a)| {
            let a = if shape < 2 { a.clone() } else { format!("Top:{}:{}", a, a) };
            Item::X(xact(D1, "O", vec![post(&a, Some(amt(&format!("{}.5", i + 1), "EUR"))), post("Equity", None)]))
        })
        .collect();
    let text = render(&items);
    let e = meaning(&items);
    in_fixed_order(ch, cx, &items, &text, &e, 16)
}

/// Siblings of all pairs of lengths that begin alike.
fn f_sibling_lengths(ch: &mut Ch, cx: &mut Cx) -> R {
    let a = ch.choose(cx.t(56, 140));
    let b = ch.choose(cx.t(56, 140));
    ch.shard()?;
    let start = *ch.pick(&["B ", "B", "", "B-", "9 "]);
    let (c, d) = *ch.pick(&[("a", "x"), ("x", "a"), ("x", "x"), ("Z", "a"), ("9", "10")]);
    let name = |c: &str, n: usize| format!("Top:{}{}", start, c.repeat(n + 1));
    let (x, y) = (name(c, a), name(d, b));
    if x == y {
        return Ok(());
    }
    let items: Vec<Item> = [x, y].iter().map(|n| Item::X(xact(D1, "O", vec![post(n, Some(amt("1", "EUR"))), post("Equity", None)]))).collect();
    let text = render(&items);
    let e = meaning(&items);
    in_fixed_order(ch, cx, &items, &text, &e, 1)
}

/// Siblings that differ in one character.
fn f_character_order(ch: &mut Ch, cx: &mut Cx) -> R {
    let mut all: Vec<char> = (' '..='~').filter(|c| *c != ':' && *c != ';').collect();
    all.extend("ÀàßéñöžŽΩπДя中€ﬁ🙂İ".chars());
    let a = ch.choose(all.len());
    ch.shard()?;
    let b = ch.choose(all.len());
    let place = ch.choose(3);
    // (a name does not begin or end with a space, nor begin like a comment)
    if b <= a || (place != 1 && all[a] == ' ') {
        return Ok(());
    }
    let name = |c: char| match place {
        0 => format!("Top:{}ank", c),
        1 => format!("Top:Ba{}nk", c),
        _ => format!("Top:Bank{}", c),
    };
    let items: Vec<Item> = [b, a]
        .iter()
        .map(|c| Item::X(xact(D1, "O", vec![post(&name(all[*c]), Some(amt("1", "EUR"))), post(&format!("{}:Below", name(all[*c])), Some(amt("2", "EUR"))), post("Equity", None)])))
        .collect();
    let text = render(&items);
    let e = meaning(&items);
    in_fixed_order(ch, cx, &items, &text, &e, 3)
}

/// Reads and reports with several hash seeds: in order, and the same text each time.
fn in_fixed_order(ch: &mut Ch, cx: &mut Cx, items: &[Item], text: &str, e: &Exp, seeds: u64) -> R {
    let mut first: Option<Vec<String>> = None;
    for seed in 0..seeds {
        cx.count(items.len() as u64);
        let (e, text) = (&e, &text);
        let r = cx.exec_seeded(ch, seed * 104729 + 3, || {
            let mut j = Journal::new();
            guard(|| ledger_rs_lib::parse_text(text, &mut j)).map_err(|m| format!("was not read: {}", m))?;
            let o = observe(&j, &e.symbols);
            if let Some(m) = judge("C20", e, &o, &mut j) {
                return Err(m);
            }
            let mut rep = ledger_rs_lib::report::balance_report(&j);
            rep.append(&mut ledger_rs_lib::report::report_accounts(&j));
            Ok(rep)
        });
        match (r, &first) {
            (Err(m), _) => {
                cx.fail(ch, format!("hash seed {}: {}", seed, m), text);
                return Ok(());
            }
            (Ok(rep), Some(f)) if *f != rep => {
                cx.fail(ch, format!("hash seed {}: the report differs: {:?} and {:?}", seed, f, rep), text);
                return Ok(());
            }
            (Ok(rep), _) => {
                cx.checked();
                cx.state(hash_of(&rep));
                first = Some(rep);
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C21

pub fn defects() -> Vec<String> {
    let x = |posts: &str| format!("2023-07-07 Bad\n{}", posts);
    let mut v: Vec<String> = vec![
        // which amount is missing?
        x("    A:B\n    C"),
        x("    A:B\n    C\n    D  5 EUR"),
        x("    A:B  5 EUR\n    C\n    D\n    E"),
        x("    A:B  5 EUR"),
        x("    A:B"),
        x("    A:B  5 EUR\n    C  3 USD\n    D"),
        x("    D\n    A:B  5 EUR\n    C  3"),
        x("    A:B  5 VEUR @ 2 EUR\n    C  3 USD\n    D"),
        x("    A:B  5 VEUR @ 2 EUR\n    C  3 ABC @@ 2 USD\n    D"),
        x("    A:B  1 EUR\n    C  1 USD\n    D  1 GBP\n    E"),
        // cost in the commodity itself
        x("    A:B  5 EUR @ 2 EUR\n    C"),
        x("    A:B  5 EUR @@ 2 EUR\n    C  -5 EUR"),
        x("    A:B  -5 EUR {3 USD} @ 2 EUR\n    C"),
        x("    C  -5 EUR\n    A:B  5 EUR @@ 5 EUR"),
        // unclosed and repeated lots
        x("    A:B  5 VEUR {3 EUR @ 2 EUR\n    C"),
        x("    A:B  5 VEUR [2023-01-01 @ 2 EUR\n    C"),
        x("    A:B  5 VEUR {3 EUR} {4 EUR} @ 2 EUR\n    C"),
        x("    A:B  5 VEUR {3 EUR} [2023-01-01] {3 EUR} @ 2 EUR\n    C"),
        x("    A:B  5 VEUR [2023-01-01] [2023-01-02] @ 2 EUR\n    C"),
        x("    A:B  5 VEUR [2023-01-01] {3 EUR} [2023-01-02]\n    C"),
        x("    A:B  5 VEUR {3 EUR\n    C  -15 EUR"),
        x("    A:B  5 VEUR {}\n    C"),
        // text after the amount
        x("    A:B  5 EUR foo\n    C"),
        x("    A:B  1 000 EUR\n    C"),
        x("    A:B  5 EUR 6 EUR\n    C"),
        x("    A:B  5 VEUR @ 2 EUR foo\n    C"),
        x("    A:B  5 VEUR @ 2 EUR 3\n    C"),
        x("    A:B  5 VEUR {3 EUR} foo\n    C"),
        x("    A:B  5 VEUR @\n    C"),
        x("    A:B  5 VEUR @@\n    C"),
        x("    A:B  5 VEUR {3 EUR foo}\n    C"),
        x("    A:B  5 VEUR {1 000 EUR} @ 2 EUR\n    C"),
        x("    A:B  5 VEUR [2023-01-01 foo] @ 2 EUR\n    C"),
        x("    A:B  5 VEUR []\n    C"),
        x("    A:B  5 VEUR {3 EUR} [ ] @ 2 EUR\n    C"),
        // a lot or a cost of nothing
        x("    A:B  @ 2 EUR\n    C  5 EUR"),
        x("    A:B  @@ 2 EUR\n    C  5 EUR"),
        x("    A:B  {3 EUR}\n    C  5 EUR"),
        x("    A:B  [2023-01-01]\n    C  5 EUR"),
        x("    A:B  {3 EUR} [2023-01-01] @ 2 EUR\n    C  5 EUR"),
        // accounts without a name
        x("    A::B  5 EUR\n    C"),
        x("    C  5 EUR\n    A::B"),
        x("    :A  5 EUR\n    C"),
        x("    A:  5 EUR\n    C"),
        x("    C  5 EUR\n    A:B:"),
        x("    C  5 EUR\n    :"),
        // unknown directives
        "i 2023-03-01 EUR 1 USD".into(),
        "import 2023-03-01 EUR 1 USD".into(),
        "in 2023-03-01 EUR 1 USD".into(),
        "included 2023-03-01 EUR 1 USD".into(),
        "p 2023-03-01 EUR 1 USD".into(),
        "PP 2023-03-01 EUR 1 USD".into(),
        "Price 2023-03-01 EUR 1 USD".into(),
        "account A:B".into(),
        "alias A=B".into(),
        "D 1,000.00 EUR".into(),
        "Y 2023".into(),
        "year 2023".into(),
        "commodity EUR".into(),
        "foo".into(),
        "Assets:Cash  5 EUR".into(),
        "    A:B  5 EUR".into(),
        "    A:B  5 EUR\n    C".into(),
        // prices
        "P 2023-01-01 EUR abc USD".into(),
        "P 2023-01-01 EUR 1.2.3 USD".into(),
        "P 2023-01-01 EUR 1-2 USD".into(),
        "P 2023-01-01 EUR 1,5 USD".into(),
        "P 2023-01-01 EUR".into(),
        "P 2023-01-01 10:00:00 EUR USD".into(),
        "P 2023-02-30 EUR 1.5 USD".into(),
        "P 2023-01-01 EUR 1 000 USD".into(),
        "P 2023-01-01 EUR 1.5 USD foo".into(),
        "P 2023-01-01 10:00:00 EUR 1.5 USD 2".into(),
        "P 2023-01-01 EUR 1.5 USD EUR ; note".into(),
        "P 2023-01-01 EUR ; 1.5 USD".into(),
        "P 2023-01-01 ; EUR 1.5 USD".into(),
        "P 2023-01-01 ; 1.5 USD".into(),
        "P 2023-01-01 10:00 EUR 1.5 USD".into(),
        "P 2023-01-01 24:00:00 EUR 1.5 USD".into(),
        "P".into(),
        "P 2023-13-01 10:00:00 EUR 1.5 USD".into(),
        // files
        "include /nonexistent/file.ledger".into(),
        "include missing.ledger".into(),
        "include ./missing/missing.ledger".into(),
        "include /".into(),
        // dates
        "2023-02-29 Bad\n    A:B  5 EUR\n    C".into(),
        "2023-04-31=2023-04-01 Bad\n    A:B  5 EUR\n    C".into(),
        "2023-04-01=2023-04-31 Bad\n    A:B  5 EUR\n    C".into(),
        "2023-00-10 Bad\n    A:B  5 EUR\n    C".into(),
        "2023-01 Bad\n    A:B  5 EUR\n    C".into(),
        "99 Bad\n    A:B  5 EUR\n    C".into(),
        "2023-01-01-01 Bad\n    A:B  5 EUR\n    C".into(),
        x("    A:B  5 VEUR [2023-02-30] @ 2 EUR\n    C"),
        x("    A:B  5 VEUR {3 EUR} [2023-13-13]\n    C"),
    ];
    // numbers
    for n in ["abc", "1.2.3", "--5", "5-", "1-2", "-", ".", ",", "1,5", "12,34", "1.000,5", ",5", "1,,000", "-,5", "79228162514264337593543950336", "0.00000000000000000000000000001"] {
        v.push(x(&format!("    A:B  {} EUR\n    C", n)));
        v.push(x(&format!("    C  -1 EUR\n    A:B  {}\n    D  1 EUR", n)));
        v.push(x(&format!("    A:B  5 VEUR @ {} EUR\n    C", n)));
        v.push(x(&format!("    A:B  5 VEUR @@ {} EUR\n    C", n)));
        v.push(x(&format!("    A:B  5 VEUR {{{} EUR}} @ 2 EUR\n    C", n)));
    }
    for n in ["EUR", "$", "€"] {
        v.push(x(&format!("    A:B  {}\n    C  5 EUR", n)));
        v.push(x(&format!("    A:B  5 VEUR @ {}\n    C", n)));
        v.push(x(&format!("    A:B  5 VEUR {{{}}}\n    C", n)));
    }
    v
}

fn f_defects(ch: &mut Ch, cx: &mut Cx) -> R {
    let d = defects();
    let mut t = templates();
    fix_styles(&mut t);
    let bad = ch.choose(d.len());
    ch.shard()?;
    let before = ch.choose(t.len() + 1);
    let after = ch.choose(t.len() + 1);
    let mut items = vec![];
    if before > 0 {
        items.push(t[before - 1].clone());
    }
    items.push(Item::Bad(d[bad].clone()));
    if after > 0 {
        items.push(t[after - 1].clone());
    }
    let text = render(&items);
    cx.count(items.len() as u64);
    cx.sample(|| text.clone());
    let entry = (before + after) % 2;
    let out = cx.exec(ch, || {
        let mut j = Journal::new();
        let r = guard(|| {
            if entry == 0 {
                ledger_rs_lib::parse_text(&text, &mut j)
            } else {
                j.read(text.as_bytes());
            }
        });
        match r {
            Err(_) => Outcome::Refused,
            Ok(()) => Outcome::Bad("was read without complaint although it has no defined meaning".into()),
        }
    });
    record(ch, cx, out, &text);
    Ok(())
}

/// Words a line can start with that are no directive of this program.
fn f_unknown(ch: &mut Ch, cx: &mut Cx) -> R {
    let mut words: Vec<String> = "account alias apply assert bucket capture check comment commodity def define end eval expr import payee python tag test value year assets Include INCLUDE includes price prices date time note default format nomarket fixed rate true false print balance bal b accounts register reg equity xact entry A B C D E F N O Y b h i I o O p = ~ ! @ @include !include @account = ~Monthly ~ % & ( ) [ ] { } < > / \\ ? : , . \" ' ` $ ^ _ + € é \u{feff} \u{feff}; Pp PX P: P; P, inc includ include: import: Z z xyzzy 漢 - -- --- -f --file --strict -1 -2023-01-01 -5 -P -include -; -* −1 –x"
        .split(' ')
        .map(|s| s.to_string())
        .collect();
    for c in (33u8..127).map(|c| c as char) {
        if !c.is_ascii_digit() && !";#*|P".contains(c) {
            words.push(c.to_string());
        }
    }
    for a in ('a'..='z').chain('A'..='Z') {
        for b in ["a", "e", "n", "X"] {
            words.push(format!("{}{}", a, b));
        }
    }
    let word = ch.pick(&words).clone();
    ch.shard()?;
    let tail = *ch.pick(&["", " ", " 2023-03-01 EUR 1 USD", " Assets:Cash", " Assets:Cash\n    note something", " tests/basic.ledger", "  5 EUR\n    A:B  5 EUR\n    C", ":", "\t2023-03-01"]);
    let place = ch.choose(4);
    let good = "2023-01-01 Shop\n    A:B  5 EUR\n    C\n";
    let bad = format!("{}{}\n", word, tail);
    let text = match place {
        0 => bad,
        1 => format!("{}\n{}", good, bad),
        2 => format!("{}\n{}", bad, good),
        _ => format!("{}\n{}\n{}", good, bad, good),
    };
    must_refuse(ch, cx, text.clone(), move || {
        let mut j = Journal::new();
        ledger_rs_lib::parse_text(&text, &mut j);
        read_so_far(&j)
    });
    Ok(())
}

fn f_dates(ch: &mut Ch, cx: &mut Cx) -> R {
    let y = *ch.pick(&[2023, 2024, 1900, 2000]);
    let m = ch.choose(14);
    ch.shard()?;
    let d = ch.choose(33);
    let place = ch.choose(4);
    let s = format!("{:04}-{:02}-{:02}", y, m, d);
    let trade = |x: PostT| Item::X(xact(D1, "D", vec![x, post("C", None)]));
    let items = match place {
        0 => vec![Item::X(xact(&s, "D", vec![post("A", Some(amt("1", "EUR"))), post("C", None)]))],
        1 => {
            let mut x = xact(D1, "D", vec![post("A", Some(amt("1", "EUR"))), post("C", None)]);
            x.aux = Some(s.clone());
            vec![Item::X(x)]
        }
        2 => vec![trade(post("A", Some(amt("1", "VEUR"))).lot_price(amt("2", "EUR")).lot_date(&s).cost(true, amt("3", "EUR")))],
        _ => vec![price(&s, "", "EUR", "2", "USD")],
    };
    let text = render(&items);
    let want = valid_date(&s);
    cx.count(1);
    cx.sample(|| text.clone());
    let out = cx.exec(ch, || {
        let mut j = Journal::new();
        match (guard(|| ledger_rs_lib::parse_text(&text, &mut j)), want) {
            (Ok(()), true) => Outcome::Ok(hash_of(&text)),
            (Err(_), false) => Outcome::Refused,
            (Err(_), true) => Outcome::Unspecified,
            (Ok(()), false) => Outcome::Bad(format!("{} is not a date, but was read", s)),
        }
    });
    record(ch, cx, out, &text);
    Ok(())
}

/// Everything that can be written after the account, with or without a meaning.
fn f_lines(ch: &mut Ch, cx: &mut Cx) -> R {
    let atoms = ["5", "-", "EUR", "VEUR", "@", "@@", "{", "}", "[", "]", "2022-01-01", ";"];
    let phrases = ["5 VEUR", "VEUR 5", "{3 EUR}", "[2022-01-01]", "@ 2 EUR", "@@ 2 EUR", "{", "}", "[", "]", "@", "7", "EUR", "; n"];
    let toks: &[&str] = if ch.flag() { &phrases } else { &atoms };
    let n = 1 + ch.choose(cx.t(4, 5));
    let mut v = vec![*ch.pick(toks)];
    if n > 1 {
        v.push(*ch.pick(toks));
    }
    ch.shard()?;
    while v.len() < n {
        v.push(*ch.pick(toks));
    }
    let value = v.join(*ch.pick(&[" ", ""]));
    let counter = if ch.flag() { Some(amt("-10", "EUR")) } else { None };
    let text = format!("2023-01-05 Lines\n    C  {}\n    A:B  {}\n", counter.as_ref().map_or(String::new(), |a| a.text()), value);
    let e = match read_value(&value) {
        None => {
            let mut e = Exp::empty();
            e.worsen(Verdict::Reject);
            e
        }
        Some(mut p) => {
            p.acct = "A:B".into();
            let mut same = false;
            for style in 0..4 {
                for tight in [false, true] {
                    let mut q = p.clone();
                    q.lot.tight = tight;
                    if let Some(a) = &mut q.amt {
                        a.style = style;
                    }
                    same |= q.value_text() == value;
                }
            }
            let mut e = meaning(&[Item::X(xact("2023-01-05", "Lines", vec![post("C", counter), p]))]);
            if !same {
                // the spacing is unusual
                e.worsen(Verdict::If);
            }
            e
        }
    };
    cx.count(1);
    cx.sample(|| text.clone());
    if unclaimed(&cx.prop, &e) {
        cx.unspecified();
        return Ok(());
    }
    let prop = cx.prop.clone();
    let out = cx.exec(ch, || {
        let mut j = Journal::new();
        let r = guard(|| ledger_rs_lib::parse_text(&text, &mut j));
        judge_read(&prop, &e, r, &mut j)
    });
    record(ch, cx, out, &text);
    Ok(())
}

/// Everything that can be written in a price directive.
fn f_price_lines(ch: &mut Ch, cx: &mut Cx) -> R {
    let toks = ["2023-01-01", "2023-02-30", "10:00:00", "EUR", "USD", "1.5", "1.5.2", "-", ";"];
    let n = 1 + ch.choose(cx.t(5, 6));
    let mut v = vec![*ch.pick(&toks)];
    if n > 1 {
        v.push(*ch.pick(&toks));
    }
    ch.shard()?;
    while v.len() < n {
        v.push(*ch.pick(&toks));
    }
    let line = format!("P {}", v.join(*ch.pick(&[" ", "  ", "\t"])));
    let text = format!("{}\n", line);
    let body = v.join(" ");
    let t: Vec<&str> = body.split(';').next().unwrap().split_whitespace().collect();
    let mut e = Exp::empty();
    let parts = match t[..] {
        [d, h, s, q, p] if h == "10:00:00" => Some((d, h, s, q, p)),
        // no commodity of the price
        [d, h, s, q] if h == "10:00:00" => Some((d, h, s, q, "")),
        [d, s, q, p] => Some((d, "", s, q, p)),
        [d, s, q] => Some((d, "", s, q, "")),
        _ => None,
    };
    match parts {
        // odd symbols
        Some((d, _, s, q, p)) if !["EUR", "USD"].contains(&s) || !["EUR", "USD", ""].contains(&p) => {
            e.worsen(if valid_date(d) && num_class(q) != Num::Reject { Verdict::Skip } else { Verdict::Reject })
        }
        Some((d, h, s, q, p)) => e.item(&price(d, h, s, q, p)),
        None => e.worsen(Verdict::Reject),
    }
    if line.contains(';') {
        e.worsen(Verdict::If);
    }
    cx.count(1);
    cx.sample(|| text.clone());
    if unclaimed(&cx.prop, &e) {
        cx.unspecified();
        return Ok(());
    }
    let prop = cx.prop.clone();
    let out = cx.exec(ch, || {
        let mut j = Journal::new();
        let r = guard(|| ledger_rs_lib::parse_text(&text, &mut j));
        judge_read(&prop, &e, r, &mut j)
    });
    record(ch, cx, out, &text);
    Ok(())
}

/// Everything that can be written after the date of a transaction.
fn f_header_lines(ch: &mut Ch, cx: &mut Cx) -> R {
    let toks = [" ", "  ", "=", "2022-12-31", "2022-13-31", "P", "é", ";", "*", "5"];
    let n = ch.choose(cx.t(6, 7));
    let mut v = vec![];
    for _ in 0..n.min(2) {
        v.push(*ch.pick(&toks));
    }
    ch.shard()?;
    while v.len() < n {
        v.push(*ch.pick(&toks));
    }
    header_case(ch, cx, v.concat())
}

/// Every payee and note of a few marks.
fn f_payees(ch: &mut Ch, cx: &mut Cx) -> R {
    let toks = [" ", "=", "2022-12-31", "P", "é", ";", "*", "!", "(", ")", "|", "\"", "@", "5", "-", "/", ".", "#", "[", "{", ":", "  ;"];
    let start = *ch.pick(&[" ", "=2022-12-31 "]);
    let n = 1 + ch.choose(cx.t(4, 5));
    let mut v = vec![start, *ch.pick(&toks)];
    ch.shard()?;
    while v.len() <= n {
        v.push(*ch.pick(&toks));
    }
    header_case(ch, cx, v.concat())
}

fn header_case(ch: &mut Ch, cx: &mut Cx, line: String) -> R {
    let text = format!("2023-01-05{}\n    A:B  1 EUR\n    C\n", line);
    let mut x = xact("2023-01-05", "", vec![post("A:B", Some(amt("1", "EUR"))), post("C", None)]);
    let mut rest: &str = &line;
    let mut verdict = Verdict::Must;
    if let Some(r) = rest.strip_prefix('=') {
        let (a, r) = r.split_at(r.find(' ').unwrap_or(r.len()));
        if a.is_empty() || a.starts_with('=') || (a.len() > 10 && valid_date(a)) {
            // nothing is said about this
            verdict = Verdict::Skip;
        }
        x.aux = Some(a.into());
        rest = r;
    } else if !rest.is_empty() && !rest.starts_with([' ', '=']) {
        verdict = Verdict::Reject;
    }
    match rest.find("  ;") {
        Some(i) => {
            x.payee = rest[..i].trim().into();
            x.note = Some(("  ;".into(), rest[i + 3..].into()));
        }
        None => x.payee = rest.trim().into(),
    }
    if x.payee.contains(" ;") || x.payee.starts_with(';') || x.payee.contains('=') {
        verdict = verdict.max(Verdict::If);
    }
    let mut e = meaning(&[Item::X(x.clone())]);
    e.worsen(verdict);
    if x.payee.starts_with(';') {
        // a payee or a note
        e.worsen(Verdict::Skip);
    }
    cx.count(1);
    cx.sample(|| text.clone());
    if verdict == Verdict::Skip || unclaimed(&cx.prop, &e) {
        cx.unspecified();
        return Ok(());
    }
    let prop = cx.prop.clone();
    let out = cx.exec(ch, || {
        let mut j = Journal::new();
        let r = guard(|| ledger_rs_lib::parse_text(&text, &mut j));
        judge_read(&prop, &e, r, &mut j)
    });
    record(ch, cx, out, &text);
    Ok(())
}

fn f_ambiguous(ch: &mut Ch, cx: &mut Cx) -> R {
    let a = "X";
    let forms = vec![
        post(a, None),
        post(a, Some(amt("10", "EUR"))),
        post(a, Some(amt("-10", "EUR"))),
        post(a, Some(amt("20", "USD"))),
        post(a, Some(amt("7", ""))),
        post(a, Some(amt("2", "VEUR"))).cost(true, amt("5", "EUR")),
        post(a, Some(amt("-2", "VEUR"))).cost(false, amt("5", "USD")),
        post(a, Some(amt("3", "EUR"))).cost(true, amt("5", "EUR")),
        post(a, Some(amt("3", "GBP"))),
    ];
    let mut t = templates();
    fix_styles(&mut t);
    let n = 1 + ch.choose(4);
    let mut v = vec![ch.choose(forms.len())];
    if n > 1 {
        v.push(ch.choose(forms.len()));
    }
    ch.shard()?;
    while v.len() < n {
        v.push(ch.choose(forms.len()));
    }
    let before = ch.choose(if n == 4 { cx.t(2, 14) } else { 14 });
    let names = ["A:B", "C", "A", "D:E"];
    let ps: Vec<PostT> = v.iter().enumerate().map(|(i, f)| {
        let mut p = forms[*f].clone();
        p.acct = names[i].into();
        p
    }).collect();
    let bad = Item::X(xact(D1, "Q", ps));
    let mut items = vec![];
    if before > 0 {
        items.push(t[before - 1].clone());
    }
    items.push(bad);
    if before % 2 == 1 {
        items.push(t[0].clone());
    }
    case(ch, cx, &items);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C22

use std::io::{Error, ErrorKind};

/// All kinds of errors but the interruption.
const ALL_KINDS: &[ErrorKind] = &[
    ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::ConnectionRefused, ErrorKind::ConnectionReset, ErrorKind::HostUnreachable,
    ErrorKind::NetworkUnreachable, ErrorKind::ConnectionAborted, ErrorKind::NotConnected, ErrorKind::AddrInUse, ErrorKind::AddrNotAvailable,
    ErrorKind::NetworkDown, ErrorKind::BrokenPipe, ErrorKind::AlreadyExists, ErrorKind::WouldBlock, ErrorKind::NotADirectory, ErrorKind::IsADirectory,
    ErrorKind::DirectoryNotEmpty, ErrorKind::ReadOnlyFilesystem, ErrorKind::StaleNetworkFileHandle, ErrorKind::InvalidInput, ErrorKind::InvalidData,
    ErrorKind::TimedOut, ErrorKind::WriteZero, ErrorKind::StorageFull, ErrorKind::NotSeekable, ErrorKind::QuotaExceeded, ErrorKind::FileTooLarge,
    ErrorKind::ResourceBusy, ErrorKind::ExecutableFileBusy, ErrorKind::Deadlock, ErrorKind::TooManyLinks, ErrorKind::ArgumentListTooLong,
    ErrorKind::Unsupported, ErrorKind::UnexpectedEof, ErrorKind::OutOfMemory, ErrorKind::Other,
];

/// Every kind of error, made in three ways, and every error of the system.
fn f_kinds(ch: &mut Ch, cx: &mut Cx) -> R {
    let (_, text) = c14_journal(0);
    // at the start, in and between lines, at the end
    let mut ats: Vec<usize> = vec![0, 1, text.len()];
    ats.extend(text.match_indices('\n').flat_map(|(i, _)| [i, i + 1, i + 5]).filter(|i| *i < text.len()));
    let at = *ch.pick(&ats);
    ch.shard()?;
    let which = ch.choose(2 * ALL_KINDS.len() + 133);
    let chunk = *ch.pick(&[1usize, 8192]);
    let then = ch.choose(2);
    let make = move || {
        if which < ALL_KINDS.len() {
            Error::from(ALL_KINDS[which])
        } else if which < 2 * ALL_KINDS.len() {
            Error::new(ALL_KINDS[which - ALL_KINDS.len()], "the source failed")
        } else {
            Error::from_raw_os_error((which - 2 * ALL_KINDS.len() + 1) as i32)
        }
    };
    if make().kind() == ErrorKind::Interrupted {
        cx.unspecified();
        return Ok(());
    }
    let what = format!("{:?} after byte {} in chunks of {} ({}) of {:?}", make(), at, chunk, ["then the end", "then more"][then], text);
    must_refuse(ch, cx, what, move || {
        let mut j = Journal::new();
        let n = j.read(FailingWith { data: text.as_bytes(), pos: 0, chunk, at, make, then, failed: false });
        format!("{} new transactions, {}", n, read_so_far(&j))
    });
    Ok(())
}

struct FailingWith<'a, F: Fn() -> Error> {
    data: &'a [u8],
    pos: usize,
    chunk: usize,
    at: usize,
    make: F,
    then: usize,
    failed: bool,
}
impl<F: Fn() -> Error> Read for FailingWith<'_, F> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.failed && self.then == 0 {
            return Ok(0);
        }
        if self.pos >= self.at && !self.failed {
            self.failed = true;
            return Err((self.make)());
        }
        let end = (self.pos + self.chunk).min(if self.failed { self.data.len() } else { self.at });
        let n = (end - self.pos).min(buf.len());
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

const KINDS: [ErrorKind; 7] = [
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::InvalidData,
    ErrorKind::ConnectionReset,
    ErrorKind::BrokenPipe,
];

/// Delivers chunks and fails once it has delivered a number of bytes.
struct Failing<'a> {
    data: &'a [u8],
    pos: usize,
    chunk: usize,
    at: usize,
    kind: ErrorKind,
    /// 0: the source ends after the failure, 1: goes on, 2: fails again
    then: usize,
    failed: bool,
}
impl Read for Failing<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.failed && self.then == 0 {
            return Ok(0);
        }
        if self.pos >= self.at && (!self.failed || self.then == 2) {
            self.failed = true;
            return Err(Error::from(self.kind));
        }
        let mut end = (self.pos + self.chunk).min(self.data.len());
        if !self.failed {
            end = end.min(self.at);
        }
        let n = (end - self.pos).min(buf.len());
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

fn must_refuse(ch: &Ch, cx: &mut Cx, what: String, f: impl FnOnce() -> String + Send) {
    cx.count(1);
    cx.sample(|| what.clone());
    let out = cx.exec(ch, || match guard(f) {
        Err(_) => Outcome::Refused,
        Ok(got) => Outcome::Bad(format!("was accepted, as {}", got)),
    });
    record(ch, cx, out, &what);
}

fn read_so_far(j: &Journal) -> String {
    format!("{} transactions with {} postings", j.xacts.len(), j.xacts.iter().map(|x| x.posts.len()).sum::<usize>())
}

fn f_failing(ch: &mut Ch, cx: &mut Cx) -> R {
    let k = ch.choose(2);
    let (_, text) = c14_journal(k);
    let at = ch.choose(text.len() + 1);
    ch.shard()?;
    let kind = ch.choose(KINDS.len() + 1);
    let chunk = *ch.pick(&[1usize, 2, 7, 64, 8192]);
    if kind == KINDS.len() {
        // not a failure: the read has to be tried again
        let what = format!("interrupted after byte {} in chunks of {} of {:?}", at, chunk, text);
        let (items, data) = c14_journal(k);
        read_case(ch, cx, &items, &what, move |j| j.read(Failing { data: data.as_bytes(), pos: 0, chunk, at, kind: ErrorKind::Interrupted, then: 1, failed: false }));
        return Ok(());
    }
    let kind = KINDS[kind];
    let then = ch.choose(3);
    let after = ch.flag();
    let what = format!("{:?} after byte {} in chunks of {} ({}{}) of {:?}", kind, at, chunk, ["then the end", "then more", "then again"][then], if after { ", after another source" } else { "" }, text);
    must_refuse(ch, cx, what, move || {
        let mut j = Journal::new();
        if after {
            ledger_rs_lib::parse_text("2023-01-01 First\n    A  1 EUR\n    B\n", &mut j);
        }
        let n = j.read(Failing { data: text.as_bytes(), pos: 0, chunk, at, kind, then, failed: false });
        format!("{} new transactions, {}", n, read_so_far(&j))
    });
    Ok(())
}

/// Delivers bytes, in one of the ways of `deliver`.
fn deliver_bytes(how: usize, bytes: &[u8], dir: &Path, name: &str) -> String {
    let mut j = Journal::new();
    let write = || {
        let p = dir.join(name);
        std::fs::write(&p, bytes).unwrap();
        p.to_str().unwrap().to_string()
    };
    match how {
        0 => {
            j.read(bytes);
        }
        1 => {
            j.read(Pieces::every(bytes, 1));
        }
        2 => {
            j.read(std::io::Cursor::new(bytes.to_vec()));
        }
        3 => ledger_rs_lib::parse_file(&write(), &mut j),
        4 => {
            j.read(format!("include {}\n", write()).as_bytes());
        }
        5 => {
            write();
            let t = format!("2023-01-01 First\n    A  1 EUR\n    B\n\ninclude {}\n\n2023-01-02 Last\n    A  1 EUR\n    B\n", name);
            ledger_rs_lib::parse_text(&t, &mut j)
        }
        _ => {
            let p = write();
            return ledger_rs_lib::run(vec!["balance".into(), "-f".into(), p]).join("; ");
        }
    }
    read_so_far(&j)
}

/// Journals that are refused, and some about which nothing else is said: the same in every delivery.
fn f_everywhere(ch: &mut Ch, cx: &mut Cx) -> R {
    let mut texts: Vec<(bool, String)> = defects().into_iter().map(|d| (true, d)).collect();
    texts.extend((33u8..127).map(|c| (c as char).to_string()).filter(|c| !";#*|-P0123456789".contains(c.as_str())).map(|c| (true, c)));
    for start in ["\u{feff}", "\u{c}", "\u{b}", "\0", "\r", "\u{a0}", "\u{2028}", "\u{85}", "\u{200b}", "\u{1a}", "\t", "- ", "--"] {
        texts.push((false, start.to_string()));
        texts.push((false, format!("{}2023-07-07 Shop\n    A:B  5 EUR\n    C\n", start)));
        texts.push((false, format!("2023-07-07 Shop\n    A:B  5 EUR\n    C\n\n{}", start)));
        texts.push((false, format!("2023-07-07 Shop\n    A:B  5 EUR\n    C\n{}\n2023-07-07 Shop\n    A:B  5 EUR\n    C", start)));
        texts.push((false, format!("2023-07-07 Shop\n    A:B  5 EUR{}\n    C\n", start)));
    }
    let k = ch.choose(texts.len());
    ch.shard()?;
    let (must, text) = texts[k].clone();
    let how = ch.choose(WAYS.len());
    let end = *ch.pick(&["", "\n", "\n\n2023-07-08 After\n    A:B  5 EUR\n    C\n"]);
    if !must && !end.is_empty() {
        return Ok(());
    }
    let text = format!("{}{}", text, end);
    let what = format!("{:?}, {}", text, WAYS[how]);
    cx.count(1);
    cx.sample(|| what.clone());
    let dir = cx.scratch.clone();
    let out = cx.exec(ch, || {
        let plain = guard(|| {
            let mut j = Journal::new();
            ledger_rs_lib::parse_text(&text, &mut j);
            (read_so_far(&j), j.xacts.len(), j.xacts.iter().map(|x| x.posts.len()).sum::<usize>(), ledger_rs_lib::report::balance_report(&j).join("; "))
        });
        let other = guard(|| deliver_bytes(how, text.as_bytes(), &dir, "everywhere.ledger"));
        match (plain, other) {
            (Err(_), Err(_)) => Outcome::Refused,
            (Err(_), Ok(o)) => Outcome::Bad(format!("was accepted, as {}; the text is refused", o)),
            (Ok(p), _) if must => Outcome::Bad(format!("the text was accepted, as {}", p.0)),
            (Ok(p), Err(m)) => Outcome::Bad(format!("was refused ({}); the text is accepted, as {}", m, p.0)),
            (Ok(p), Ok(o)) => {
                let want = match how {
                    5 => format!("{} transactions with {} postings", p.1 + 2, p.2 + 4),
                    6 => p.3,
                    _ => p.0,
                };
                if o == want {
                    Outcome::Ok(hash_of(&o))
                } else {
                    Outcome::Bad(format!("is read as {}, the text as {}", o, want))
                }
            }
        }
    });
    record(ch, cx, out, &what);
    Ok(())
}

const WAYS: [&str; 7] = ["read", "read byte by byte", "read from a cursor", "as a file", "included by absolute path", "included by relative path", "by the balance command"];

fn f_not_text(ch: &mut Ch, cx: &mut Cx) -> R {
    let k = ch.choose(2);
    let (_, text) = c14_journal(k);
    let at = ch.choose(text.len());
    ch.shard()?;
    let bad: &[u8] = *ch.pick(&[&b"\xff"[..], b"\x80", b"\xc3", b"\xe2\x82", b"\xed\xa0\x80", b"\xf8"]);
    let replace = ch.flag();
    let how = ch.choose(WAYS.len());
    let mut bytes = text.as_bytes()[..at].to_vec();
    bytes.extend(bad);
    bytes.extend(&text.as_bytes()[at + replace as usize..]);
    if std::str::from_utf8(&bytes).is_ok() {
        // together with what surrounds it, it is text
        return Ok(());
    }
    let what = format!("{:x?} at byte {} of {:?}, {}", bad, at, text, WAYS[how]);
    let dir = cx.scratch.clone();
    must_refuse(ch, cx, what, move || deliver_bytes(how, &bytes, &dir, "bytes.ledger"));
    Ok(())
}

fn f_cut_characters(ch: &mut Ch, cx: &mut Cx) -> R {
    let k = ch.choose(2);
    let (_, text) = c14_journal(k);
    let at = ch.choose(text.len());
    ch.shard()?;
    let how = ch.choose(WAYS.len());
    let bytes = text.as_bytes()[..at].to_vec();
    if std::str::from_utf8(&bytes).is_ok() {
        return Ok(());
    }
    let what = format!("{:?} ended at byte {}, {}", text, at, WAYS[how]);
    let dir = cx.scratch.clone();
    must_refuse(ch, cx, what, move || deliver_bytes(how, &bytes, &dir, "cut.ledger"));
    Ok(())
}

fn f_late_failures(ch: &mut Ch, cx: &mut Cx) -> R {
    let one = |i: usize| format!("2023-01-{:02} Payee {}\n    Assets:Cash  {}.10 EUR\n    Expenses:Food\n\n", i % 28 + 1, i, i);
    let mode = ch.choose(2);
    let (text, at) = if mode == 0 {
        let n = 1 + ch.choose(cx.t(40, 200));
        let text: String = (0..n).map(one).collect();
        let at = text.len();
        (text, at)
    } else {
        let text: String = (0..400).map(one).collect();
        let b = 1 + ch.choose(2);
        let at = 8192 * b - cx.t(40, 150) + ch.choose(cx.t(80, 300));
        (text, at)
    };
    ch.shard()?;
    let bad = ch.choose(1 + KINDS.len());
    let chunk = *ch.pick(&[1usize, 1000, 8192, 100_000]);
    let then = if bad == 0 { ch.choose(2) } else { ch.choose(3) };
    let what = format!("a journal of {} bytes, {} at byte {} in chunks of {}, then {}", text.len(), if bad == 0 { "a bad byte".to_string() } else { format!("{:?}", KINDS[bad - 1]) }, at, chunk, then);
    must_refuse(ch, cx, what, move || {
        let mut j = Journal::new();
        if bad == 0 {
            let mut bytes = text.as_bytes()[..at].to_vec();
            bytes.push(0xe9);
            if then == 1 {
                bytes.extend(&text.as_bytes()[at..]);
            }
            j.read(Pieces::every(&bytes, chunk));
        } else {
            j.read(Failing { data: text.as_bytes(), pos: 0, chunk, at, kind: KINDS[bad - 1], then, failed: false });
        }
        read_so_far(&j)
    });
    Ok(())
}

fn f_missing_files(ch: &mut Ch, cx: &mut Cx) -> R {
    let n = 1 + ch.choose(3);
    let at = ch.choose(n);
    let which = ch.choose(6);
    ch.shard()?;
    let how = ch.choose(6);
    let cmd = *ch.pick(&["b", "balance", "accounts"]);
    let dir = cx.scratch.clone();
    let good = "2023-01-01 First\n    A  1 EUR\n    B\n";
    std::fs::write(dir.join("good.ledger"), good).unwrap();
    std::fs::write(dir.join("latin1.ledger"), b"2023-01-01 Caf\xe9\n    A  1 EUR\n    B\n").unwrap();
    std::fs::write(dir.join("latin1-end.ledger"), b"2023-01-01 First\n    A  1 EUR\n    B\n\n; caf\xe9").unwrap();
    std::fs::create_dir_all(dir.join("folder.ledger")).unwrap();
    let bad = ["missing.ledger", "folder.ledger", "latin1.ledger", "latin1-end.ledger", "good.ledger/inner.ledger", "good.ledger"][which];
    if how > 1 && cmd != "b" && how < 4 {
        return Ok(());
    }
    let names: Vec<&str> = (0..n).map(|i| if i == at { bad } else { "good.ledger" }).collect();
    let mut args = vec![cmd.to_string()];
    for f in &names {
        args.push("-f".into());
        args.push(f.to_string());
    }
    let exe = std::env::var("LEDGER_EXE").unwrap_or_default();
    let what = format!("{:?} {}", args, ["as a list", "as a string", "as files", "as includes", "as includes of a file", "to the executable"][how]);
    if how == 5 && !Path::new(&exe).exists() {
        panic!("the executable was not built");
    }
    let act = move || match how {
        0 => ledger_rs_lib::run(args).join("; "),
        1 => ledger_rs_lib::run_command(&args.join(" ")).join("; "),
        2 => {
            let mut j = Journal::new();
            for f in &names {
                ledger_rs_lib::parse_file(dir.join(f).to_str().unwrap(), &mut j);
            }
            read_so_far(&j)
        }
        3 => {
            let mut j = Journal::new();
            let text: String = names.iter().map(|f| format!("include {}\n", f)).collect();
            ledger_rs_lib::parse_text(&text, &mut j);
            read_so_far(&j)
        }
        4 => {
            let text: String = names.iter().map(|f| format!("include {}\n", f)).collect();
            std::fs::write(dir.join("main.ledger"), good.to_string() + "\n" + &text).unwrap();
            ledger_rs_lib::run(vec![cmd.to_string(), "-f".into(), "main.ledger".into()]).join("; ")
        }
        _ => {
            let o = std::process::Command::new(&exe).args(&args).current_dir(&dir).output().expect("harness: the executable runs");
            if !o.status.success() {
                panic!("refused");
            }
            String::from_utf8_lossy(&o.stdout).to_string()
        }
    };
    if which == 5 {
        // nothing is wrong with this one
        cx.count(1);
        let out = cx.exec(ch, || match guard(act) {
            Ok(got) if !got.is_empty() => Outcome::Ok(hash_of(&got)),
            r => Outcome::Bad(format!("complete and readable files give {:?}", r)),
        });
        record(ch, cx, out, &what);
    } else {
        must_refuse(ch, cx, what, act);
    }
    Ok(())
}
