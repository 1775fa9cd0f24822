//! Families of journals that (nearly) all properties are decided on.

use crate::model::*;
use crate::props::*;
use crate::rt::*;

pub const D1: &str = "2023-01-05";

pub fn value_options() -> Vec<PostT> {
    let a = "X";
    vec![
        post(a, None),
        post(a, Some(amt("10", "EUR"))),
        post(a, Some(amt("-10", "EUR"))),
        post(a, Some(amt("20", "USD"))),
        post(a, Some(amt("-20", "USD"))),
        post(a, Some(amt("0.1", "EUR"))),
        post(a, Some(amt("-3.335", "EUR"))),
        post(a, Some(amt("7", ""))),
        post(a, Some(amt("-7", ""))),
        post(a, Some(amt("2", "VEUR"))).cost(true, amt("5", "EUR")),
        post(a, Some(amt("-2", "VEUR"))).cost(true, amt("5", "EUR")),
        post(a, Some(amt("2", "VEUR"))).cost(false, amt("11", "EUR")),
        post(a, Some(amt("-2", "VEUR"))).cost(false, amt("11", "EUR")),
        post(a, Some(amt("0", "EUR"))),
        post(a, Some(amt("-3", "VEUR"))).lot_price(amt("4", "EUR")).cost(true, amt("5.5", "EUR")),
        post(a, Some(amt("3", "GBP"))),
        post(a, Some(amt("4", "VEUR"))).cost(true, amt("1.5", "USD")),
    ]
}

/// One transaction: all combinations of n postings out of the value options.
pub fn f_posts(ch: &mut Ch, cx: &mut Cx) -> R {
    let vals = value_options();
    let max = cx.t(4, 5);
    let n = 1 + ch.choose(max);
    let mut first = vec![];
    for _ in 0..n.min(2) {
        first.push(ch.choose(vals.len()));
    }
    ch.shard()?;
    let names = ["Assets:Cash", "Expenses:Food", "Assets:Stocks", "Income", "Assets"];
    let mut posts = vec![];
    for i in 0..n {
        let v = if i < first.len() { first[i] } else { ch.choose(vals.len()) };
        let mut p = vals[v].clone();
        p.acct = names[i].into();
        posts.push(p);
    }
    let items = [Item::X(xact(D1, "Payee", posts))];
    case(ch, cx, &items);
    Ok(())
}

/// One transaction: combinations of postings over few accounts (also repeated ones).
pub fn f_accounts(ch: &mut Ch, cx: &mut Cx) -> R {
    let vals = value_options();
    let vals: Vec<&PostT> = [0usize, 1, 2, 3, 6, 9, 12].iter().map(|i| &vals[*i]).collect();
    let names = ["Assets:Cash", "Assets", "Assets:Bank"];
    let n = 2 + ch.choose(2);
    let a0 = ch.choose(names.len());
    let v0 = ch.choose(vals.len());
    ch.shard()?;
    let mut posts = vec![];
    for i in 0..n {
        let (a, v) = if i == 0 { (a0, v0) } else { (ch.choose(names.len()), ch.choose(vals.len())) };
        let mut p = vals[v].clone();
        p.acct = names[a].into();
        posts.push(p);
    }
    // a transaction before it, so that the accounts have a history
    let before = xact("2023-01-04", "Before", vec![post("Assets:Cash", Some(amt("1.25", "EUR"))), post("Equity", None)]);
    let items = [Item::X(before), Item::X(xact(D1, "Payee", posts))];
    case(ch, cx, &items);
    Ok(())
}

pub fn templates() -> Vec<Item> {
    let x = |d: &str, p: &str, ps: Vec<PostT>| Item::X(xact(d, p, ps));
    let mut with_notes = xact("2023-02-03", "Noted", vec![]);
    with_notes.note = Some(("  ; ".into(), "header note".into()));
    with_notes.aux = Some("2023-02-01".into());
    with_notes.body = vec![
        Body::Comment(" first".into()),
        Body::Post(post("Expenses:Food", Some(amt("3", "EUR")))),
        Body::Comment(" on food".into()),
        Body::Comment("again".into()),
        Body::Post(post("Assets:Cash", None)),
    ];
    vec![
        x("2023-01-10", "Shop", vec![post("Expenses:Food", Some(amt("12.50", "EUR"))), post("Assets:Cash", None)]),
        x("2023-01-11", "", vec![post("Assets:Cash", Some(amt("-3", "EUR"))), post("Expenses:Food", None)]),
        x("2023-01-12", "Exchange", vec![post("Assets:Cash", Some(amt("-10", "EUR"))), post("Assets:Bank", Some(amt("12", "USD")))]),
        x("2023-01-13", "Buy", vec![
            post("Assets:Stocks", Some(amt("10", "VEUR"))).cost(true, amt("12.75", "EUR")),
            post("Assets:Cash", None),
        ]),
        x("2023-01-13", "Sell", vec![
            post("Assets:Stocks", Some(amt("-4", "VEUR"))).lot_price(amt("12.75", "EUR")).lot_date("2023-01-13").cost(true, amt("15", "EUR")),
            post("Income:Gains", Some(amt("10", "EUR"))),
            post("Assets:Cash", None),
        ]),
        x("2023-01-14", "Deep", vec![post("Assets:Bank:Savings:Goal", Some(amt("$5", ""))), post("Assets", None)]),
        Item::X(with_notes),
        price("2023-01-13", "", "VEUR", "13.1", "EUR"),
        price("2023-01-13", "10:30:00", "EUR", "1.1", "USD"),
        x("2023-01-09", "Split", vec![
            post("Expenses:Food", Some(amt("1", "EUR"))),
            post("Expenses", Some(amt("2.50", "EUR"))),
            post("Assets:Cash", Some(amt("-3.50", "EUR"))),
        ]),
        x("2023-01-15", "Plain", vec![post("Time:Work", Some(amt("8", ""))), post("Time", Some(amt("-8", "")))]),
        x("2023-01-16", "Total", vec![
            post("Assets:Stocks", Some(amt("3", "VEUR"))).cost(false, amt("40", "EUR")),
            post("Assets:Cash", Some(amt("-40", "EUR"))),
        ]),
        Item::C("; a comment".into()),
    ]
}

/// `$5`-style amounts of the templates are written symbol first.
pub fn fix_styles(items: &mut [Item]) {
    for it in items {
        if let Item::X(x) = it {
            for b in &mut x.body {
                if let Body::Post(p) = b {
                    if let Some(a) = &mut p.amt {
                        if let Some(n) = a.num.strip_prefix('$') {
                            *a = AmtT { num: n.to_string(), sym: "$".into(), style: 3 };
                        }
                    }
                }
            }
        }
    }
}

/// All histories of directives.
pub fn f_history(ch: &mut Ch, cx: &mut Cx) -> R {
    let t = templates();
    let max = cx.t(4, 5);
    let n = ch.choose(max + 1);
    let mut v = vec![];
    for _ in 0..n.min(2) {
        v.push(ch.choose(t.len()));
    }
    ch.shard()?;
    while v.len() < n {
        v.push(ch.choose(t.len()));
    }
    let mut items: Vec<Item> = v.iter().map(|i| t[*i].clone()).collect();
    fix_styles(&mut items);
    case(ch, cx, &items);
    Ok(())
}

/// A journal that is looked at while it grows: what was seen before changes nothing later.
pub fn f_stepwise(ch: &mut Ch, cx: &mut Cx) -> R {
    let x = |d: &str, p: &str, ps: Vec<PostT>| Item::X(xact(d, p, ps));
    let t = vec![
        x("2023-01-10", "Shop", vec![post("Expenses:Food", Some(amt("12.50", "EUR"))), post("Assets:Cash", None)]),
        x("2023-01-10", "Back", vec![post("Assets:Cash", Some(amt("12.50", "EUR"))), post("Expenses:Food", None)]),
        x("2023-01-12", "Below", vec![post("Assets:Cash:Box", Some(amt("5", "EUR"))), post("Assets", Some(amt("-5", "EUR")))]),
        x("2023-01-13", "Buy", vec![post("Assets:Stocks", Some(amt("10", "VEUR"))).cost(true, amt("12.75", "EUR")), post("Assets:Cash", None)]),
        x("2023-01-08", "Exchange", vec![post("Assets:Cash", Some(amt("-10", "EUR"))), post("Assets:Bank", Some(amt("12", "USD")))]),
        price("2023-01-13", "", "VEUR", "13.1", "EUR"),
        price("2023-02-01", "", "VEUR", "14", "EUR"),
        price("2023-01-20", "10:30:00", "EUR", "1.1", "USD"),
        price("2023-01-21", "", "VEUR", "15", "USD"),
        x("2023-01-14", "Dollars", vec![post("Assets:Cash:Box", Some(amt("5", "USD"))), post("Equity", None)]),
    ];
    let n = 2 + ch.choose(cx.t(3, 4));
    let mut v = vec![ch.choose(t.len()), ch.choose(t.len())];
    ch.shard()?;
    while v.len() < n {
        v.push(ch.choose(t.len()));
    }
    let items: Vec<Item> = v.iter().map(|i| t[*i].clone()).collect();
    step_case(ch, cx, &items);
    Ok(())
}

/// Two journals at the same time, all interleavings of their directives.
pub fn f_side_by_side(ch: &mut Ch, cx: &mut Cx) -> R {
    let x = |d: &str, p: &str, ps: Vec<PostT>| Item::X(xact(d, p, ps));
    let t = vec![
        x("2023-01-10", "Shop", vec![post("Expenses:Food", Some(amt("12.50", "EUR"))), post("Assets:Cash", None)]),
        x("2023-01-12", "Below", vec![post("Assets:Cash:Box", Some(amt("5", "USD"))), post("Assets", Some(amt("-5", "USD")))]),
        x("2023-01-13", "Buy", vec![post("Assets:Stocks", Some(amt("10", "VEUR"))).lot_price(amt("12.75", "EUR")).cost(true, amt("12.75", "EUR")), post("Assets:Cash", None)]),
        x("2023-01-13", "Exchange", vec![post("Assets:Cash", Some(amt("-10", "EUR"))), post("Assets:Bank", Some(amt("12", "USD")))]),
        price("2023-01-13", "", "VEUR", "13.1", "EUR"),
        price("2023-01-13", "", "EUR", "1.1", "USD"),
    ];
    let (na, nb) = *ch.pick(&cx.t(vec![(1, 1), (1, 2), (2, 1), (2, 2)], vec![(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2)]));
    let drop_first = ch.choose(2) == 1;
    let a0 = ch.choose(t.len());
    let b0 = ch.choose(t.len());
    ch.shard()?;
    let mut a = vec![t[a0].clone()];
    let mut b = vec![t[b0].clone()];
    while a.len() < na {
        a.push(t[ch.choose(t.len())].clone());
    }
    while b.len() < nb {
        b.push(t[ch.choose(t.len())].clone());
    }
    let (mut i, mut k) = (0, 0);
    let mut turns = vec![];
    while i < na || k < nb {
        let second = if i == na { 1 } else if k == nb { 0 } else { ch.choose(2) };
        turns.push(second);
        if second == 1 { k += 1 } else { i += 1 }
    }
    pair_case(ch, cx, [&a, &b], &turns, drop_first);
    Ok(())
}

/// A journal after one that was refused.
pub fn f_after_refusal(ch: &mut Ch, cx: &mut Cx) -> R {
    const REFUSED: [&str; 14] = [
        "2023-01-10 Two\n    Expenses:Food\n    Assets:Cash\n",
        "2023-01-10 One\n    Expenses:Food  12.50 EUR\n",
        "2023-01-10 One\n    Assets:Cash\n",
        "2023-01-10 Many\n    Expenses:Food  1 EUR\n    Assets:Cash  1 USD\n    Equity  1 VEUR\n    Assets\n",
        "2023-01-10 Cost\n    Assets:Stocks  10 VEUR @ 2 VEUR\n    Assets:Cash\n",
        "2023-02-30 Date\n    Expenses:Food  12.50 EUR\n    Assets:Cash\n",
        "2023-01-10=2023-02-30 Date\n    Expenses:Food  12.50 EUR\n    Assets:Cash\n",
        "2023-01-10 Number\n    Expenses:Food  EUR\n    Assets:Cash\n",
        "2023-01-10 Lot\n    Expenses:Food  12.50 EUR {\n    Assets:Cash\n",
        "2023-01-10 Part\n    ; a note\n    Expenses:Food  12.50 EUR\n    ; another\n    Assets::Cash  1 USD\n",
        "    Expenses:Food  12.50 EUR\n",
        "P 2023-01-13 VEUR x EUR\n",
        "include /there/is/no/such/file.ledger\n",
        "2023-01-10 Good\n    Expenses:Food  12.50 EUR\n    Assets:Cash\n\nunknown directive\n",
    ];
    let r = *ch.pick(&REFUSED);
    let t = templates();
    let n = 1 + ch.choose(cx.t(2, 3));
    let first = ch.choose(t.len());
    ch.shard()?;
    let mut items = vec![t[first].clone()];
    while items.len() < n {
        items.push(t[ch.choose(t.len())].clone());
    }
    fix_styles(&mut items);
    after_case(ch, cx, r, &items);
    Ok(())
}

/// Histories in which every transaction balances within each commodity.
pub fn f_books(ch: &mut Ch, cx: &mut Cx) -> R {
    let x = |p: &str, ps: Vec<PostT>| Item::X(xact(D1, p, ps));
    let t = vec![
        x("a", vec![post("A:B", Some(amt("0.1", "EUR"))), post("A:C", None)]),
        x("b", vec![post("A:C", None), post("A:B", Some(amt("-7.77", "EUR")))]),
        x("c", vec![post("A", Some(amt("5", "USD"))), post("D", Some(amt("-2", "USD"))), post("A:B:C", Some(amt("-3", "USD")))]),
        x("d", vec![post("A:B", Some(amt("4", "EUR"))), post("A:C", Some(amt("3", "USD"))), post("D", Some(amt("-4", "EUR"))), post("E", Some(amt("-3", "USD")))]),
        x("e", vec![post("D", Some(amt("1", ""))), post("A", None)]),
        x("f", vec![post("A:B", Some(amt("10", "EUR"))), post("A:C", Some(amt("-4", "EUR"))), post("A:B", None), post("A:B", Some(amt("-6", "EUR")))]),
        x("g", vec![post("D", Some(amt("1000", "EUR"))), post("E:F", None), post("D", Some(amt("0.001", "EUR")))]),
        x("h", vec![post("A:B", Some(amt("0", "GBP"))), post("E", None)]),
    ];
    let max = cx.t(4, 6);
    let n = ch.choose(max + 1);
    let mut v = vec![];
    for _ in 0..n.min(2) {
        v.push(ch.choose(t.len()));
    }
    ch.shard()?;
    while v.len() < n {
        v.push(ch.choose(t.len()));
    }
    let items: Vec<Item> = v.iter().map(|i| t[*i].clone()).collect();
    case(ch, cx, &items);
    Ok(())
}

fn sizes(cx: &Cx) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=cx.t(34, 150)).collect();
    v.extend(cx.t(vec![56, 57, 64, 65, 112, 113, 130, 225, 256, 257], vec![192, 224, 225, 255, 256, 257, 449, 512, 513, 700, 897, 1025]));
    v
}

/// One thing many times: growth of every collection.
pub fn f_sizes(ch: &mut Ch, cx: &mut Cx) -> R {
    let kind = ch.choose(21);
    let s = sizes(cx);
    let n = *ch.pick(&s);
    ch.shard()?;
    let mut items = vec![];
    let cash = |a: &str| post("Assets:Cash", Some(amt(a, "EUR")));
    match kind {
        0 | 1 | 2 => {
            // postings in one transaction, with the omitted amount first, in the middle, last
            let mut ps: Vec<PostT> = (0..n).map(|i| post(&format!("E:N{}", i % 7), Some(amt(&format!("{}.{:02}", i, i % 100), "EUR")))).collect();
            let at = [0, n / 2, n][kind];
            ps.insert(at, post("Assets:Cash", None));
            items.push(Item::X(xact(D1, "Many", ps)));
        }
        3 => {
            for i in 0..n {
                items.push(Item::X(xact(D1, &format!("P{}", i), vec![post(&format!("A:N{}", i), Some(amt("1", "EUR"))), cash("-1")])));
            }
        }
        4 => {
            let name = (0..n).map(|i| format!("L{}", i)).collect::<Vec<_>>().join(":");
            items.push(Item::X(xact(D1, "Deep", vec![post(&name, Some(amt("1", "EUR"))), cash("-1")])));
            items.push(Item::X(xact(D1, "Deep", vec![post(&format!("{}:X", name), Some(amt("2", "EUR"))), post("L0", None)])));
        }
        5 => {
            for i in 0..n {
                items.push(Item::X(xact(D1, "C", vec![post("A:B", Some(amt("2", &sym(i)))), post("A:C", None)])));
            }
        }
        6 => {
            for i in 0..n {
                items.push(Item::X(xact(D1, &format!("T{}", i), vec![post("A:B", Some(amt(&format!("{}", i), "EUR"))), post(if i % 2 == 0 { "A:C" } else { "A:D" }, None)])));
            }
        }
        7 => {
            for i in 0..n {
                items.push(price(&format!("20{:02}-{:02}-{:02}", i / 300 % 90 + 10, i / 25 % 12 + 1, i % 25 + 1), "", "EUR", &format!("1.{:04}", i), "USD"));
            }
        }
        8 => {
            for i in 0..n {
                // (the product of the whole chain stays small)
                items.push(price(D1, "", &sym(i), ["2", "4", "0.5", "0.25"][i % 4], &sym(i + 1)));
            }
            items.push(Item::X(xact(D1, "C", vec![post("A:B", Some(amt("2", &sym(0)))), post("A:C", Some(amt("-8", &sym(n))))])));
        }
        9 => {
            // a long note
            let mut x = xact(D1, "Notes", vec![]);
            for i in 0..n {
                x.body.push(Body::Comment(format!(" x{}", i)));
            }
            x.body.push(Body::Post(cash("1")));
            for i in 0..n {
                x.body.push(Body::Comment(format!("p{} ", i)));
            }
            x.body.push(Body::Post(post("B", None)));
            items.push(Item::X(x));
        }
        10 => {
            // long names
            items.push(Item::X(xact(D1, &"p".repeat(n), vec![post(&"a".repeat(n), Some(amt("1", &"S".repeat(n)))), post(&format!("{}:{}", "b".repeat(n), "c".repeat(n)), None)])));
        }
        11 => {
            // trades growing a transaction, at cost
            let mut ps: Vec<PostT> = (0..n).map(|i| post("A:S", Some(amt(&format!("{}", i + 1), "VEUR"))).cost(true, amt(&format!("0.{}", i + 1), "EUR"))).collect();
            ps.push(post("A:Cash", None));
            items.push(Item::X(xact(D1, "Trades", ps)));
        }
        12 => {
            // nested siblings, then all of them again
            for r in 0..2 {
                for i in 0..n {
                    let a = format!("R{}:S{}:T{}", i % 3, i % 5, i);
                    items.push(Item::X(xact(D1, "N", vec![post(&a, Some(amt(if r == 0 { "1" } else { "-3" }, "EUR"))), post("R0", None)])));
                }
            }
        }
        13 => {
            // names that agree in their first n characters, at every depth
            let p = "n".repeat(n);
            for (k, a) in [format!("{}y", p), format!("{}x", p), p.clone(), format!("{0}x:{0}z", p), format!("{0}x:{0}y:{0}b", p), format!("{0}x:{0}y:{0}a", p), format!("{0}x:{0}", p)].iter().enumerate() {
                items.push(Item::X(xact(D1, "N", vec![post(a, Some(amt(&format!("{}", k + 1), "EUR"))), post("Z", None)])));
            }
        }
        14 => {
            // names that agree in their last n characters
            let p = "n".repeat(n);
            for (k, a) in [format!("b{}", p), format!("a{}", p), p.clone(), format!("a{0}:c{0}", p), format!("a{0}:c{0}:d{0}", p), format!("a{0}:c{0}:b{0}", p), format!("a{0}:{0}", p)].iter().enumerate() {
                items.push(Item::X(xact(D1, "N", vec![post(a, Some(amt(&format!("{}", k + 1), "EUR"))), post("Z", None)])));
            }
        }
        15 => {
            // symbols that agree in their first or last n characters, or differ in length only
            let p = "S".repeat(n);
            let all = [format!("{}y", p), format!("{}x", p), p.clone(), format!("y{}", p), format!("x{}", p), format!("{}SS", p)];
            for (k, a) in all.iter().enumerate() {
                items.push(Item::X(xact(D1, "N", vec![post("A:B", Some(amt(&format!("{}", k + 1), a).styled(if k % 2 == 0 { 0 } else { 2 }))), post("Z", None)])));
            }
            items.push(price(D1, "", &all[0], "2", &all[1]));
            items.push(price(D1, "", &all[2], "3", &all[0]));
            items.push(Item::X(xact(D1, "T", vec![post("A:B", Some(amt("2", &all[3]))).cost(true, amt("3", &all[4])), post("Z", None)])));
        }
        16 => {
            // tiny and huge postings to one account
            let mut ps: Vec<PostT> = (0..n).map(|i| post(["T:A", "T:B"][i % 2], Some(amt(["0.0000000000004", "0.000000000000000003", "1234567.5", "-0.0000000007"][i % 4], "EUR")))).collect();
            ps.push(post("Z", None));
            items.push(Item::X(xact(D1, "Tiny", ps)));
        }
        17 => {
            for i in 0..n {
                let ps = vec![post("T:A", Some(amt(["0.0000000000004", "0.05", "-3.0000000000000003"][i % 3], "EUR"))), post("T", Some(amt(["-0.0000000000004", "-0.05", "3.0000000000000003"][i % 3], "EUR")))];
                items.push(Item::X(xact(D1, "Tiny", ps)));
            }
        }
        18 => {
            // many prices of each pair of a chain, then a trade
            for i in 0..n.min(60) {
                for (k, (a, b)) in [("A", "B"), ("B", "C"), ("A", "D"), ("D", "E"), ("E", "C")].iter().enumerate() {
                    if k < 2 && i > 0 {
                        continue;
                    }
                    items.push(price(&format!("2022-{:02}-{:02}", 1 + (i * 5) % 12, 1 + i % 28), "", a, &format!("{}", 2 + (i + k) % 7), b));
                }
            }
        }
        19 => {
            // words of all kinds, n of each
            let mut x = xact(D1, &vec!["word"; n].join(" "), vec![post(&vec!["Acc"; n].join(" "), Some(amt("1", "EUR"))), post(&format!("A:{}", vec!["b"; n].join(" ")), None)]);
            x.note = Some(("  ; ".into(), vec!["note"; n].join(" ")));
            x.body.insert(1, Body::Comment(vec![" c"; n].join(";")));
            items.push(Item::X(x));
        }
        _ => {
            // long spaces: after the date, before the note, around comments
            let sp = " ".repeat(n);
            let mut x = xact(D1, "Spaced", vec![post("A:B", Some(amt("1", "EUR"))).tail(&format!("{}; n", sp)), post("C", None)]);
            x.gap = sp.clone();
            x.note = Some((format!("  {};{}", sp, sp), "note".into()));
            x.body.insert(1, Body::Comment(format!("{}c{}", sp, sp)));
            x.body.insert(0, Body::Comment(format!("{}first{}", sp, sp)));
            items.push(Item::X(x.clone()));
            items.push(Item::C(format!(";{}x", sp)));
            items.push(Item::X(x));
        }
    }
    case(ch, cx, &items);
    Ok(())
}

/// symbols without digits
pub fn sym(i: usize) -> String {
    let mut s = String::from("S");
    let mut i = i;
    loop {
        s.push((b'a' + (i % 26) as u8) as char);
        i /= 26;
        if i == 0 {
            break;
        }
    }
    s
}

pub const NAMES: &[&str] = &[
    "Assets",
    "Assets:Cash",
    "Cash",
    "Assets:Cash:Cash",
    "Cash:Assets",
    "Assets Cash",
    "Assets:Cash Box",
    "assets:cash",
    "Assets:Ca",
    "Asset",
    "Assets:Cash:Box",
    "Račun:Štednja",
    "A:B",
    "B:A",
    "A:B:A:B",
    "A",
    "401k",
    "Assets:Bank-1",
    "Assets:(Old)",
    "X.Y:Z_1",
    "Assets:Cash:Assets:Cash",
    "日本:円",
];

/// Account names that resemble each other.
pub fn f_names(ch: &mut Ch, cx: &mut Cx) -> R {
    let n = cx.t(3, 4);
    let k = 2 + ch.choose(n - 1);
    let a = ch.choose(NAMES.len());
    let b = ch.choose(NAMES.len());
    ch.shard()?;
    let mut v = vec![a, b];
    for _ in 2..k {
        v.push(ch.choose(if k == 4 { 14 } else { NAMES.len() }));
    }
    let mut items = vec![];
    let mut ps: Vec<PostT> = v.iter().enumerate().map(|(i, a)| post(NAMES[*a], Some(amt(&format!("{}", i + 1), "EUR")))).collect();
    let last = ps.len() - 1;
    ps[last].amt = None;
    items.push(Item::X(xact(D1, "N", ps)));
    // and in the other order, in a second transaction
    let ps2 = vec![post(NAMES[v[v.len() - 1]], None), post(NAMES[v[0]], Some(amt("5", "EUR")))];
    items.push(Item::X(xact("2023-01-06", "N", ps2)));
    case(ch, cx, &items);
    Ok(())
}

pub const SYMS: &[&str] = &["EUR", "$", "€", "eur", "EU", "kn", "A.B", "VEUR_AS", "Ω", "EURO", "h", "%", "Eur"];
pub const NUMS: &[&str] = &["1", "-1", "0", "0.5", "-12.50", "1,234.56", "-1,000,000", "100", "-0.001", "7.00"];
pub const TAILS: &[&str] = &["", " ; note", "  ; note 5 USD", " ;note", "  ;  @ 3 EUR", "   "];

/// Notations of amounts: symbol x number x style x what follows x position.
pub fn f_notation(ch: &mut Ch, cx: &mut Cx) -> R {
    let s = *ch.pick(SYMS);
    let n = *ch.pick(NUMS);
    ch.shard()?;
    let style = ch.choose(5);
    let tail = *ch.pick(TAILS);
    let mode = ch.choose(4);
    let a = amt(n, s).styled(style);
    let items = match mode {
        0 => vec![Item::X(xact(D1, "N", vec![post("A:B", Some(a)).tail(tail), post("C", None)]))],
        1 => {
            // (a single space does not end an account name)
            let tail = if tail.starts_with(" ;") { format!(" {}", tail) } else { tail.to_string() };
            vec![Item::X(xact(D1, "N", vec![post("C", None).tail(&tail), post("A:B", Some(a))]))]
        }
        2 => {
            // the same symbol in the usual notation next to it
            vec![Item::X(xact(D1, "N", vec![post("A:B", Some(a)).tail(tail), post("A:B", Some(amt("3", s))), post("C", None)]))]
        }
        _ => {
            // explicit counter amount
            let neg = n.strip_prefix('-').map(|x| x.to_string()).unwrap_or(format!("-{}", n));
            vec![Item::X(xact(D1, "N", vec![post("A:B", Some(a)), post("C", Some(amt(&neg, s).styled((style + 1) % 4))).tail(tail)]))]
        }
    };
    case(ch, cx, &items);
    Ok(())
}

/// Symbols that resemble each other, in one transaction and over transactions.
pub fn f_symbols(ch: &mut Ch, cx: &mut Cx) -> R {
    let a = *ch.pick(SYMS);
    let b = *ch.pick(SYMS);
    ch.shard()?;
    let mode = ch.choose(5);
    let items = match mode {
        0 => vec![Item::X(xact(D1, "N", vec![post("A", Some(amt("2", a))), post("B", Some(amt("-3", b)))]))],
        1 => vec![
            Item::X(xact(D1, "N", vec![post("A", Some(amt("2", a).styled(3))), post("B", None)])),
            Item::X(xact(D1, "N", vec![post("A", Some(amt("5", b).styled(2))), post("B", None)])),
            Item::X(xact(D1, "N", vec![post("B", Some(amt("1", a).styled(1))), post("A", None)])),
        ],
        2 => vec![
            price(D1, "", a, "2", b),
            Item::X(xact(D1, "N", vec![post("A", Some(amt("2", b))), post("B", None)])),
        ],
        3 => vec![Item::X(xact(D1, "N", vec![post("A", Some(amt("2", a))).cost(true, amt("3", b)), post("B", None)]))],
        _ => vec![Item::X(xact(D1, "N", vec![
            post("A", Some(amt("2", a))).lot_price(amt("1", b)).cost(false, amt("8", b)),
            post("B", Some(amt("-8", b))),
        ])),
            Item::X(xact(D1, "N", vec![post("A", Some(amt("2", a))), post("B", None)])),
        ],
    };
    case(ch, cx, &items);
    Ok(())
}

/// A number written at one of the places where numbers stand.
pub fn number_at(place: usize, n: &str) -> Vec<Item> {
    match place {
        0 => vec![Item::X(xact(D1, "N", vec![post("A:B", Some(amt(n, "EUR"))), post("C", None)]))],
        1 => vec![Item::X(xact(D1, "N", vec![post("C", None), post("A:B", Some(amt(n, "EUR").styled(3)))]))],
        2 => vec![Item::X(xact(D1, "N", vec![post("A:B", Some(amt(n, ""))), post("C", None)]))],
        3 => vec![Item::X(xact(D1, "N", vec![post("A:B", Some(amt("2", "VEUR"))).cost(true, amt(n, "EUR")), post("C", None)]))],
        4 => vec![Item::X(xact(D1, "N", vec![post("A:B", Some(amt("2", "VEUR"))).cost(false, amt(n, "EUR")), post("C", None)]))],
        5 => vec![Item::X(xact(D1, "N", vec![post("A:B", Some(amt("2", "VEUR"))).lot_price(amt(n, "EUR")).cost(true, amt("3", "EUR")), post("C", None)]))],
        6 => vec![price(D1, "", "VEUR", n, "EUR")],
        _ => vec![Item::X(xact(D1, "N", vec![post("A:B", Some(amt(n, "EUR").styled(1))), post("C", None)]))],
    }
}

/// All numerals up to a length over 0 1 5 9 . , -
pub fn f_numerals(ch: &mut Ch, cx: &mut Cx) -> R {
    const A: &[u8] = b"150.,-9";
    let max = cx.t(5, 6);
    let len = 1 + ch.choose(max);
    let mut s = String::new();
    s.push(A[ch.choose(A.len())] as char);
    if len > 1 {
        s.push(A[ch.choose(A.len())] as char);
    }
    ch.shard()?;
    while s.len() < len {
        s.push(A[ch.choose(A.len())] as char);
    }
    let places = if len >= 5 { if cx.quick() { 1 } else if len > 5 { 2 } else { 8 } } else { 8 };
    let place = ch.choose(places);
    // with a symbol first, these characters could belong to the symbol
    if place == 1 && (s.starts_with('.') || s.starts_with(',')) {
        return Ok(());
    }
    // a negative price: the direction of the cost is not specified
    if (3..=6).contains(&place) && s.starts_with('-') && !matches!(num_class(&s), Num::Reject) {
        return Ok(());
    }
    case(ch, cx, &number_at(place, &s));
    Ok(())
}

/// Numbers around the capacity: lengths of the whole part and of the fraction.
pub fn f_digits(ch: &mut Ch, cx: &mut Cx) -> R {
    let i = 1 + ch.choose(31);
    let f = ch.choose(31);
    ch.shard()?;
    let pat = ch.choose(4);
    let neg = ch.flag();
    let place = *ch.pick(&[0usize, 2, 4, 7]);
    let d = |k: usize| -> char {
        match pat {
            0 => '9',
            1 => (b'1' + (k % 9) as u8) as char,
            2 => if k == 0 || k + 1 == i + f { '1' } else { '0' },
            _ => if k == 0 { '7' } else { '3' },
        }
    };
    let mut s: String = (0..i).map(d).collect();
    if f > 0 {
        s.push('.');
        s.extend((i..i + f).map(d));
    }
    if neg {
        if place == 4 {
            return Ok(());
        }
        s.insert(0, '-');
    }
    let mut items = number_at(place, &s);
    // the ratio of such a cost to the quantity is not representable in general
    if place == 4 {
        if let Item::X(x) = &mut items[0] {
            if let Body::Post(p) = &mut x.body[0] {
                p.amt = Some(amt("1", "VEUR"));
            }
        }
    }
    case(ch, cx, &items);
    Ok(())
}

pub const PAYEES: &[&str] = &[
    "Payee", "", "A", "Two Words", "With  two spaces", "with;semicolon", "with ; one", "a = b", "=x", "2023-01-01", "* Cleared",
    "! Pending", "(code) Shop", "Đuro Š.", "12345", "50 EUR", "a:b", "@ home", "-", "P", "include", "[x] {y}", "日本語 テスト", "#1", "\"quoted\"",
];
pub const HNOTES: &[&str] = &["", "Note", "a note ; more", "x  ;y", "šđ", "12 EUR", ":tag:", "key: value", "=", "@"];

/// Headers: dates x auxiliary dates x payees x notes.
pub fn f_headers(ch: &mut Ch, cx: &mut Cx) -> R {
    let payee = *ch.pick(PAYEES);
    let note = *ch.pick(HNOTES);
    ch.shard()?;
    let aux = *ch.pick(&["", "2023-01-05", "2022-12-31", "2024-02-29", "2023-10-10"]);
    let gap = *ch.pick(&[" ", "  ", "     "]);
    let sep = if note.is_empty() { ["", "  ;", "  ; "][ch.choose(3)] } else { ["  ; ", "  ;", "    ;   "][ch.choose(3)] };
    let body = ch.choose(2);
    let mut x = xact(D1, payee, vec![post("A:B", Some(amt("1", "EUR"))), post("C", None)]);
    x.gap = gap.into();
    if payee.is_empty() {
        x.gap = "".into();
    }
    if !aux.is_empty() {
        x.aux = Some(aux.into());
    }
    if !sep.is_empty() {
        x.note = Some((sep.into(), note.into()));
    }
    if body == 1 {
        x.body.insert(0, Body::Comment(" c".into()));
    }
    let items = vec![
        Item::X(xact("2023-01-04", "Before", vec![post("A:B", Some(amt("1", "EUR"))), post("C", None)])),
        Item::X(x),
        Item::X(xact("2023-01-03", "After", vec![post("A:B", Some(amt("2", "EUR"))), post("C", None)])),
    ];
    case(ch, cx, &items);
    Ok(())
}

/// Transactions next to each other whose headers agree in some parts.
pub fn f_neighbours(ch: &mut Ch, cx: &mut Cx) -> R {
    const DAYS: [&str; 3] = ["2023-01-05", "2023-01-06", "2023-01-04"];
    let mut items = vec![];
    for i in 0..2 {
        let date = if i == 0 { DAYS[0] } else { DAYS[ch.choose(3)] };
        let aux = ch.choose(4);
        let payee = *ch.pick(&["", "Shop", "Market"]);
        let note = *ch.pick(&["", "Shop", "note"]);
        let comment = *ch.pick(&["", " note"]);
        if i == 0 {
            ch.shard()?;
        }
        let ps = match if i == 0 { 0 } else { ch.choose(4) } {
            0 => vec![post("Shop", Some(amt("2", "EUR"))), post("Cash", None)],
            1 => vec![post("Cash", Some(amt("2", "EUR"))), post("Shop", None)],
            2 => vec![post("Shop", Some(amt("-2", "EUR"))), post("Cash", Some(amt("2", "EUR")))],
            _ => vec![post("Cash", None), post("Shop", Some(amt("2", "USD")))],
        };
        let mut x = xact(date, payee, ps);
        if aux > 0 {
            x.aux = Some(DAYS[aux - 1].into());
        }
        if !note.is_empty() {
            x.note = Some(("  ; ".into(), note.into()));
        }
        if !comment.is_empty() {
            x.body.push(Body::Comment(comment.into()));
        }
        items.push(Item::X(x));
    }
    case(ch, cx, &items);
    Ok(())
}

/// Parts of a transaction that happen to be equal to other parts of it.
pub fn f_coincidences(ch: &mut Ch, cx: &mut Cx) -> R {
    const DAYS: [&str; 2] = ["2023-01-05", "2022-05-01"];
    let date = *ch.pick(&DAYS);
    let aux = ch.choose(3);
    let payee = *ch.pick(&["A", "EUR", "x"]);
    let note = *ch.pick(&["", "A", "x"]);
    ch.shard()?;
    let acct = *ch.pick(&["A", "A:EUR"]);
    let q = *ch.pick(&["5", "-5"]);
    let lot_price = *ch.pick(&["", "5", "20"]);
    let lot_date = ch.choose(3);
    let per = ch.flag();
    let c = *ch.pick(&["5", "20"]);
    let comment = *ch.pick(&["", "A", "x"]);
    let counter = *ch.pick(&["A", "EUR"]);
    let mut p = post(acct, Some(amt(q, "VEUR")));
    if !lot_price.is_empty() {
        p = p.lot_price(amt(lot_price, "EUR"));
    }
    if lot_date > 0 {
        p = p.lot_date(DAYS[lot_date - 1]);
    }
    let mut x = xact(date, payee, vec![p.cost(per, amt(c, "EUR")), post(counter, None)]);
    if aux > 0 {
        x.aux = Some(DAYS[aux - 1].into());
    }
    if !note.is_empty() {
        x.note = Some(("  ; ".into(), note.into()));
    }
    if !comment.is_empty() {
        x.body.insert(1, Body::Comment(comment.into()));
    }
    case(ch, cx, &[price(DAYS[0], "", "VEUR", "20", "EUR"), Item::X(x)]);
    Ok(())
}

/// Texts that repeat another part of the transaction, or of the one before.
pub fn f_echoes(ch: &mut Ch, cx: &mut Cx) -> R {
    const S: [&str; 24] = [
        "2023-01-05", "2023-05-06", "2023-01-05=2023-05-06", "2022-02-02", "Payee", "the note", "first comment", "second comment", "Acct:One", "Acct", "One", "Other", "12", "VEUR", "12 VEUR", "EUR",
        "34 EUR", "{34 EUR}", "[2022-02-02]", "56", "@ 56 EUR", "12 VEUR @ 56 EUR", "Earlier", "Unknown Payee",
    ];
    let slot = ch.choose(7);
    let source = *ch.pick(&S);
    ch.shard()?;
    let form = ch.choose(9);
    let aux = ch.flag();
    let omitted = ch.flag();
    let around = ch.choose(3);
    let t = match form {
        0 => source.to_string(),
        1 => format!("{} x", source),
        2 => format!("x {}", source),
        3 => format!("{}x", source),
        4 => format!("x{}", source),
        5 => format!("{0} {0}", source),
        6 => format!("({})", source),
        7 => format!("{}: x", source),
        _ => format!("x ({})", source),
    };
    if matches!(slot, 4 | 5) && (t.contains("; ") || t.contains(": ") || t.ends_with(':')) {
        return Ok(());
    }
    let full = |payee: &str, slot: usize| -> Item {
        let acct = if slot == 4 { t.clone() } else if slot == 5 { format!("Acct:{}", t) } else { "Acct:One".into() };
        let mut p = post(&acct, Some(amt("12", "VEUR"))).lot_price(amt("34", "EUR")).lot_date("2022-02-02").cost(true, amt("56", "EUR"));
        if slot == 6 {
            p.tail = format!("  ; {}", t);
        }
        let counter = post("Other", if omitted { None } else { Some(amt("-672", "EUR")) });
        let mut x = xact("2023-01-05", if slot == 0 { &t } else { payee }, vec![p, counter]);
        if aux {
            x.aux = Some("2023-05-06".into());
        }
        x.note = Some(("  ; ".into(), if slot == 1 { t.clone() } else { "the note".into() }));
        x.body.insert(1, Body::Comment(if slot == 3 { format!(" {}", t) } else { " second comment".into() }));
        x.body.insert(0, Body::Comment(if slot == 2 { format!(" {}", t) } else { " first comment".into() }));
        Item::X(x)
    };
    let items = match around {
        0 => vec![full("Payee", slot)],
        1 => vec![full("Earlier", 99), full("Payee", slot)],
        _ => vec![full("Payee", slot), full("Payee", 99), full("Payee", slot)],
    };
    case(ch, cx, &items);
    Ok(())
}

/// Every day of the calendar, a month per journal, as the date and as the auxiliary date.
pub fn f_days(ch: &mut Ch, cx: &mut Cx) -> R {
    let years: Vec<i32> = if cx.quick() {
        vec![1900, 1970, 1999, 2000, 2019, 2020, 2021, 2022, 2023, 2024, 2025, 2038, 2100, 9999]
    } else {
        let mut v: Vec<i32> = (1890..=2110).collect();
        v.extend([1000, 1582, 1600, 1700, 1752, 1800, 2200, 2400, 9998, 9999]);
        v
    };
    let y = *ch.pick(&years);
    ch.shard()?;
    let m = 1 + ch.choose(12);
    let aux = ch.choose(3);
    let mut items = vec![];
    for d in 1..=31 {
        let s = format!("{:04}-{:02}-{:02}", y, m, d);
        if !valid_date(&s) {
            continue;
        }
        let mut x = xact(if aux == 1 { D1 } else { &s }, "P", vec![post("A:B", Some(amt("1", "VEUR"))).cost(true, amt(&format!("{}", d), "EUR")), post("C", None)]);
        if aux == 1 {
            x.aux = Some(s.clone());
        }
        if aux == 2 {
            x.payee = "".into();
        }
        items.push(Item::X(x));
        if aux == 0 {
            items.push(price(&s, "23:59:59", "EUR", &format!("{}", d), "USD"));
        }
    }
    case(ch, cx, &items);
    Ok(())
}

/// Comment lines: every placement in a transaction of three postings.
pub fn f_notes(ch: &mut Ch, cx: &mut Cx) -> R {
    let slot: &[&[&str]] = &[
        &[],
        &[" a"],
        &["a b", " c"],
        &["", " x"],
        &[" "],
        &["  šđ;  12 EUR  "],
        &[" one", "two", "", "three  "],
        &[" :tag:", " key: value", ";; x"],
    ];
    let h = ch.choose(3);
    let s0 = ch.choose(slot.len());
    ch.shard()?;
    let (s1, s2, s3) = (ch.choose(slot.len()), ch.choose(slot.len()), ch.choose(slot.len()));
    let mut x = xact(D1, "P", vec![]);
    if h > 0 {
        x.note = Some(("  ; ".into(), if h == 1 { "header".into() } else { "h ; 2".to_string() }));
    }
    let add = |x: &mut XactT, s: usize| {
        for c in slot[s] {
            x.body.push(Body::Comment(c.to_string()));
        }
    };
    add(&mut x, s0);
    x.body.push(Body::Post(post("A:B", Some(amt("1", "EUR")))));
    add(&mut x, s1);
    x.body.push(Body::Post(post("A:C", None)));
    add(&mut x, s2);
    x.body.push(Body::Post(post("A:B", Some(amt("2", "EUR")))));
    add(&mut x, s3);
    let plain = |d: &str| Item::X(xact(d, "Plain", vec![post("A:B", Some(amt("1", "EUR"))), post("C", None)]));
    let items = vec![plain("2023-01-01"), Item::X(x), Item::C("; top".into()), plain("2023-01-02")];
    case(ch, cx, &items);
    Ok(())
}

/// Sequences of price directives and trades.
pub fn f_prices(ch: &mut Ch, cx: &mut Cx) -> R {
    let mut alpha: Vec<Item> = vec![];
    for (a, b) in [("A", "B"), ("B", "A"), ("A", "C")] {
        for (d, t) in [("2023-03-01", ""), ("2023-03-01", "10:00:00"), ("2023-03-02", "")] {
            alpha.push(price(d, t, a, if t.is_empty() { "2.5" } else { "3" }, b));
        }
    }
    alpha.push(price("2023-03-01", "00:00:00", "A", "4", "B"));
    alpha.push(price("2023-03-01", "", "A", "1,000.5", "B"));
    let x = |d: &str, ps: Vec<PostT>| Item::X(xact(d, "T", ps));
    alpha.push(x("2023-03-01", vec![post("S", Some(amt("2", "A"))).cost(true, amt("3", "B")), post("M", None)]));
    alpha.push(x("2023-03-02", vec![post("S", Some(amt("-2", "A"))).cost(false, amt("7", "B")), post("M", Some(amt("7", "B")))]));
    alpha.push(x("2023-03-01", vec![post("S", Some(amt("2", "A"))).cost(true, amt("0", "B")), post("M", None)]));
    alpha.push(x("2023-03-01", vec![post("S", Some(amt("-10", "A"))), post("M", Some(amt("25", "B")))]));
    alpha.push(x("2023-03-02", vec![post("S", Some(amt("3", "B"))), post("M", Some(amt("-10", "A")))]));
    alpha.push(x("2023-03-01", vec![
        post("S", Some(amt("2", "A"))).cost(true, amt("3", "B")),
        post("S", Some(amt("4", "A"))).cost(true, amt("5", "B")),
        post("S", Some(amt("1", "C"))).cost(false, amt("6", "B")),
        post("M", None),
    ]));
    alpha.push(x("2023-03-01", vec![post("S", Some(amt("0", "A"))).cost(true, amt("3", "B")), post("M", Some(amt("0", "B")))]));
    alpha.push(x("2023-03-02", vec![post("S", Some(amt("3", "A"))).lot_price(amt("9", "B")).lot_date("2023-02-02").cost(false, amt("10", "B")), post("M", None)]));
    alpha.push(x("2023-03-02", vec![post("S", Some(amt("3", "A"))), post("M", None)]));
    let max = cx.t(3, 4);
    let n = 1 + ch.choose(max);
    let mut v = vec![ch.choose(alpha.len())];
    if n > 1 {
        v.push(ch.choose(alpha.len()));
    }
    ch.shard()?;
    while v.len() < n {
        v.push(ch.choose(alpha.len()));
    }
    let items: Vec<Item> = v.into_iter().map(|i| alpha[i].clone()).collect();
    case(ch, cx, &items);
    Ok(())
}

/// Cost forms: quantity x price x form x spacing x lots x what follows x counter-posting.
pub fn f_costs(ch: &mut Ch, cx: &mut Cx) -> R {
    let q = *ch.pick(&["10", "-10", "1", "-2.5", "0.001", "1,000", "-3", "0"]);
    let p = *ch.pick(&["25", "0.3", "1,234.56", "1", "0", "7.77"]);
    ch.shard()?;
    let per_unit = !ch.flag();
    let gap = *ch.pick(&[" ", "", "   "]);
    let style = ch.choose(5);
    let lot = ch.choose(7);
    let tail = *ch.pick(&["", " ; note @ 9 USD"]);
    let counter = ch.choose(6);
    let psym = if style == 3 { "$" } else { "EUR" };
    let mut t = post("A:Stocks", Some(amt(q, "VEUR"))).tail(tail);
    t.cost = Some(CostT { per_unit, amt: amt(p, psym).styled(style), gap });
    match lot {
        0 => (),
        1 => t.lot.price = Some(amt("20", psym)),
        2 => t.lot.date = Some("2022-04-01".into()),
        3 => {
            t.lot.price = Some(amt("20", psym));
            t.lot.date = Some("2022-04-01".into());
        }
        4 => {
            t.lot.price = Some(amt("20.5", psym).styled(3));
            t.lot.date = Some("2022-04-01".into());
            t.lot.date_first = true;
        }
        5 => {
            t.lot.price = Some(amt("20", "USD"));
            t.lot.tight = true;
        }
        _ => {
            t.lot.price = Some(amt("20", psym));
            t.lot.date = Some("2022-04-01".into());
            t.lot.tight = true;
        }
    }
    let ps = match counter {
        0 => vec![t, post("A:Cash", None)],
        1 => vec![post("A:Cash", None), t],
        2 => vec![t, post("A:Cash", Some(amt("-5", psym)))],
        3 => vec![t, post("A:Cash", Some(amt("-5", "GBP"))), post("B", Some(amt("5", psym)))],
        4 => vec![t.clone(), t, post("E:Fee", Some(amt("1.1", psym))), post("A:Cash", None)],
        _ => vec![post("B", Some(amt("5", "GBP"))), t],
    };
    case(ch, cx, &[Item::X(xact(D1, "T", ps))]);
    Ok(())
}

/// Exchanges of two commodities without costs.
pub fn f_exchange(ch: &mut Ch, cx: &mut Cx) -> R {
    let vals = ["10", "-10", "3", "-7", "0.01", "-1.5", "0"];
    let n = 2 + ch.choose(cx.t(3, 4));
    let a = ch.choose(vals.len());
    let s = ch.choose(2);
    ch.shard()?;
    let syms = ["EUR", "USD", "GBP"];
    let mut ps = vec![];
    for i in 0..n {
        let (v, s) = if i == 0 { (a, s) } else { (ch.choose(if n > 3 { 5 } else { vals.len() }), ch.choose(if n > 3 { 2 } else { 3 })) };
        ps.push(post(["A:B", "A:C", "D", "A:B", "E"][i], Some(amt(vals[v], syms[s]))));
    }
    case(ch, cx, &[Item::X(xact(D1, "X", ps))]);
    Ok(())
}

/// Every printable character at every position of every kind of text.
pub fn f_characters(ch: &mut Ch, cx: &mut Cx) -> R {
    let mut chars: Vec<char> = (0x20u8..0x7f).map(|b| b as char).collect();
    chars.extend(['é', 'ß', 'İ', 'Ω', '€', '½', '日', '😀', 'ﬁ', '́', '\u{feff}', '\u{200b}']);
    let role = ch.choose(14);
    let c = *ch.pick(&chars);
    ch.shard()?;
    let pos = ch.choose(5);
    let word = match pos {
        0 => format!("{}", c),
        1 => format!("{}bc", c),
        2 => format!("ab{}cd", c),
        3 => format!("ab{}", c),
        _ => format!("a{}{}b", c, c),
    };
    let inner = pos == 2 || pos == 4;
    if c == ' ' && (pos != 2 || (3..=8).contains(&role)) {
        return Ok(());
    }
    let ok = match role {
        0..=2 => {
            c != ';' && c != ':'
        }
        3..=8 => !c.is_ascii_digit() && !c.is_numeric() && !"-@;{}[]()+=".contains(c) && (!".,".contains(c) || inner || pos == 3),
        9 => c != ';' || inner || pos == 3,
        _ => true,
    };
    if !ok {
        return Ok(());
    }
    let w = word.as_str();
    let simple = |p: &str, a: &str, v: AmtT| Item::X(xact(D1, p, vec![post(a, Some(v)), post("Other", None)]));
    let eur = || amt("3", "EUR");
    let two = |i: Item| vec![simple("Before", "Plain", eur()), i.clone(), simple("Between", "Plain", eur()), i];
    let items = match role {
        0 => two(simple("P", w, eur())),
        1 => two(simple("P", &format!("{}:Sub", w), eur())),
        2 => two(simple("P", &format!("Top:{}", w), eur())),
        3 => two(simple("P", "A", amt("3", w))),
        4 => two(simple("P", "A", amt("3", w).styled(2))),
        5 => two(Item::X(xact(D1, "P", vec![post("A", Some(amt("3", "VEUR"))).cost(true, amt("2", w)), post("B", None)]))),
        6 => two(Item::X(xact(D1, "P", vec![post("A", Some(amt("3", "VEUR"))).lot_price(amt("2", w)).cost(true, amt("2", "EUR")), post("B", None)]))),
        7 => two(price(D1, "", w, "2", "EUR")),
        8 => two(price(D1, "10:11:12", "EUR", "2", w)),
        9 => two(simple(w, "A", eur())),
        10 => {
            let mut x = xact(D1, "P", vec![post("A", Some(eur())), post("B", None)]);
            x.note = Some(("  ; ".into(), w.into()));
            two(Item::X(x))
        }
        11 => {
            let mut x = xact(D1, "P", vec![post("A", Some(eur())), post("B", None)]);
            x.body.insert(1, Body::Comment(format!(" {}", w)));
            x.body.push(Body::Comment(w.into()));
            two(Item::X(x))
        }
        12 => {
            let mut x = xact(D1, "P", vec![post("A", Some(eur())), post("B", None)]);
            x.body.insert(0, Body::Comment(format!("{}", w)));
            two(Item::X(x))
        }
        _ => {
            let lead = [";", "#", "*", "|", "; "][ch.choose(5)];
            two(Item::C(format!("{}{}", lead, w)))
        }
    };
    case(ch, cx, &items);
    Ok(())
}

/// One text of each length, of letters, of words, of characters of several bytes.
pub fn f_text_lengths(ch: &mut Ch, cx: &mut Cx) -> R {
    let role = ch.choose(14);
    let fill = ch.choose(3);
    let n = 1 + ch.choose(cx.t(270, 1100));
    ch.shard()?;
    let symbol = matches!(role, 3 | 4 | 5 | 6 | 7);
    let w: String = match fill {
        0 => (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect(),
        1 if symbol => return Ok(()),
        1 => (0..n).map(|i| if i % 5 == 4 && i + 1 < n { ' ' } else { (b'A' + (i % 23) as u8) as char }).collect(),
        _ => (0..n).map(|i| ['é', '日', 'x', '😀', 'ß'][i % 5]).collect(),
    };
    let w = w.as_str();
    let eur = || amt("3", "EUR");
    let simple = |p: &str, a: &str, v: AmtT| Item::X(xact(D1, p, vec![post(a, Some(v)), post("Other", None)]));
    let mut x = xact(D1, "P", vec![post("A", Some(eur())), post("B", None)]);
    let item = match role {
        0 => simple("P", w, eur()),
        1 => simple("P", &format!("{}:Sub", w), eur()),
        2 => simple("P", &format!("Top:{}", w), eur()),
        3 => simple("P", "A", amt("3", w)),
        4 => simple("P", "A", amt("3", w).styled(2)),
        5 => Item::X(xact(D1, "P", vec![post("A", Some(amt("3", "VEUR"))).lot_price(amt("2", "EUR")).cost(true, amt("2", w)), post("B", None)])),
        6 => price(D1, "", w, "2", "EUR"),
        7 => price(D1, "10:11:12", "EUR", "2", w),
        8 => simple(w, "A", eur()),
        9 => {
            x.note = Some(("  ; ".into(), w.into()));
            Item::X(x)
        }
        10 => {
            x.body.insert(0, Body::Comment(format!(" {}", w)));
            Item::X(x)
        }
        11 => {
            x.body.insert(1, Body::Comment(format!(" {}", w)));
            Item::X(x)
        }
        12 => Item::X(xact(D1, "P", vec![post("A", Some(eur())).tail(&format!("  ; {}", w)), post("B", None)])),
        _ => {
            x = xact(D1, w, vec![post("A", Some(eur())), post("B", None)]);
            x.aux = Some("2023-05-06".into());
            x.note = Some(("  ; ".into(), w.into()));
            x.body.push(Body::Comment(w.into()));
            x.body.push(Body::Comment(format!(" {}", w)));
            Item::X(x)
        }
    };
    case(ch, cx, &[simple("Before", "A", eur()), item, simple("After", "A", eur())]);
    Ok(())
}

/// Texts that look like something else, in every place where a text can stand.
pub fn f_phrases(ch: &mut Ch, cx: &mut Cx) -> R {
    const T: [&str; 26] = [
        "(12)", "(ab)", "[ab]", "<ab>", "\"ab\"", "{ab}", "*", "!", "12", "ab", ":ab:", " ", ": ", "=", "|", "@", "#", "%", "~", "2023-01-01", "5 EUR", "P", "$", "'", "/", "é",
    ];
    let place = ch.choose(8);
    // the longest ones where the text matters to the property
    let matters = match cx.prop.as_str() {
        "C11" | "C12" => place < 4,
        "C06" | "C20" | "ALL" => place == 4 || place == 5,
        _ => false,
    };
    let n = 1 + ch.choose(if matters { cx.t(3, 4) } else { cx.t(2, 3) });
    let mut t = String::new();
    for i in 0..n {
        t += *ch.pick(&T);
        if i == 0 {
            ch.shard()?;
        }
    }
    let t = t.trim();
    if t.is_empty() || t.contains("  ") {
        return Ok(());
    }
    if matches!(place, 4 | 5) && t.split(':').any(|p| p.trim() != p || p.is_empty()) {
        // (spaces around a colon are left open)
        return Ok(());
    }
    let plain = |p: &str| Item::X(xact(D1, p, vec![post("A", Some(amt("3", "EUR"))), post("B", None)]));
    let mut x = xact(D1, "P", vec![post("A", Some(amt("3", "EUR"))), post("B", None)]);
    match place {
        0 => x = xact(D1, t, vec![post("A", Some(amt("3", "EUR"))), post("B", None)]),
        1 => x.note = Some(("  ; ".into(), t.into())),
        2 => x.body.insert(0, Body::Comment(format!(" {}", t))),
        3 => x.body.insert(1, Body::Comment(format!(" {}", t))),
        4 => x = xact(D1, "P", vec![post(t, Some(amt("3", "EUR"))), post("B", None)]),
        5 => x = xact(D1, "P", vec![post("A", Some(amt("3", "EUR"))), post(&format!("A:{}", t), None)]),
        6 => {
            let mut p = post("A", Some(amt("3", "EUR")));
            p.tail = format!("  ; {}", t);
            x = xact(D1, "P", vec![p, post("B", None)]);
        }
        _ => (),
    }
    let mut items = vec![plain("Before"), Item::X(x), plain("After")];
    if place == 7 {
        items[1] = Item::C(format!("; {}", t));
    }
    case(ch, cx, &items);
    Ok(())
}

/// A transaction with many features between two plain ones, all combinations of a few departures.
pub fn f_departures(ch: &mut Ch, cx: &mut Cx) -> R {
    let count = [3usize, 2, 4][ch.choose(3)];
    ch.set_budget(cx.t(if count == 4 { 2 } else { 3 }, if count == 4 { 3 } else { 4 }));
    let sharded = std::cell::Cell::new(false);
    let stop = std::cell::Cell::new(false);
    let d = |ch: &mut Ch, n: usize| -> usize {
        if stop.get() {
            return 0;
        }
        let c = ch.deviate(n);
        if c != 0 && !sharded.get() {
            sharded.set(true);
            stop.set(ch.shard().is_err());
        }
        c
    };
    let mut x = xact(["2023-03-10", "2022-12-31", "2024-02-29"][d(ch, 3)], ["Shop", "", "A  b; c", "Čaj"][d(ch, 4)], vec![]);
    x.aux = [None, Some("2023-03-01".to_string())][d(ch, 2)].clone();
    x.note = [None, Some(("  ; ".to_string(), "a note".to_string()))][d(ch, 2)].clone();
    for c in [&[][..], &[" top"][..]][d(ch, 2)] {
        x.body.push(Body::Comment(c.to_string()));
    }
    let defaults: &[(&str, Option<&str>)] = match count {
        2 => &[("Expenses:Food", Some("12.50")), ("Assets:Cash", None)],
        3 => &[("Expenses:Food", Some("12.50")), ("Expenses:Fee", Some("0.75")), ("Assets:Cash", None)],
        _ => &[("Expenses:Food", Some("12.50")), ("Expenses:Fee", Some("0.75")), ("Income", Some("-3")), ("Assets:Cash", Some("-10.25"))],
    };
    for (acct, num) in defaults {
        let a = [*acct, "Assets:Cash", "Expenses", "Assets:Bank:Savings:Goal", "Ž ž:x y", "Expenses:Food:Cheese"][d(ch, 6)];
        let given = num.unwrap_or("-13.25");
        let opts = [*num, Some("-4"), Some("0"), Some("1,234.5"), Some("0.0000001"), if num.is_some() { None } else { Some(given) }];
        let q = opts[d(ch, 6)];
        let mut p = post(a, None);
        let sym = d(ch, 5);
        let style = d(ch, 4);
        let cost = d(ch, 5);
        let lot = d(ch, 4);
        if let Some(q) = q {
            p.amt = Some(amt(q, ["EUR", "USD", "$", "", "VEUR"][sym]).styled(style));
            match cost {
                0 => (),
                1 => p = p.cost(true, amt("2.5", "USD")),
                2 => p = p.cost(false, amt("30", "USD")),
                3 => p = p.cost(true, amt("2", "EUR")),
                _ => p = p.cost(true, amt("1,000.001", "€").styled(3)),
            }
            match lot {
                0 => (),
                1 => p = p.lot_price(amt("2", "USD")),
                2 => p = p.lot_date("2022-02-02"),
                _ => p = p.lot_price(amt("7.5", "EUR")).lot_date("2022-02-02"),
            }
        } else if sym + style + cost + lot > 0 {
            // nothing to vary without an amount
            return Ok(());
        }
        p.tail = ["", "   ; tail 5 EUR", "  "][d(ch, 3)].into();
        x.body.push(Body::Post(p));
        for c in [&[][..], &[" one"][..], &["one", " two ; three"][..]][d(ch, 3)] {
            x.body.push(Body::Comment(c.to_string()));
        }
    }
    if stop.get() {
        return Err(Stop);
    }
    if !sharded.get() {
        ch.shard()?;
    }
    let plain = |d: &str, p: &str| Item::X(xact(d, p, vec![post("Assets:Cash", Some(amt("-1.10", "EUR"))), post("Expenses:Food", None)]));
    let mut items = vec![plain("2023-03-09", "Before"), Item::X(x.clone()), price("2023-03-10", "", "EUR", "1.25", "USD"), plain("2023-03-11", "After")];
    // and once more
    let again = if stop.get() { 0 } else { ch.deviate(5) };
    match again {
        1 => items.push(Item::X(x)),
        2 => {
            x.body.reverse();
            x.date = "2023-03-12".into();
            while matches!(x.body.first(), Some(Body::Comment(_))) {
                x.body.remove(0);
            }
            items.insert(1, Item::X(x));
        }
        3 => {
            // in place of the one before
            items[0] = Item::X(x);
        }
        4 => {
            items.remove(0);
            items.remove(1);
        }
        _ => (),
    }
    case(ch, cx, &items);
    Ok(())
}

/// Quantities and prices with every number of decimals.
pub fn f_fractions(ch: &mut Ch, cx: &mut Cx) -> R {
    let max = cx.t(11, 14);
    let i = ch.choose(max);
    let j = ch.choose(max);
    ch.shard()?;
    let kind = ch.choose(6);
    let neg = ch.flag();
    // digits that no rounding leaves alone
    let num = |w: &str, d: usize| if d == 0 { w.to_string() } else { format!("{}.{}7", w, "0".repeat(d - 1)) };
    let sign = |s: String| if neg { format!("-{}", s) } else { s };
    let ps = match kind {
        0 => vec![post("A:S", Some(amt(&sign(num("3", i)), "VEUR"))).cost(true, amt(&num("2", j), "EUR")), post("C", None)],
        1 => vec![post("C", None), post("A:S", Some(amt(&num("3", i), "VEUR"))).cost(false, amt(&num("6", j), "EUR")), post("F", Some(amt(&sign(num("1", j)), "EUR")))],
        2 => vec![post("A", Some(amt(&num("1", i), "EUR"))), post("B", Some(amt(&sign(num("4", j)), "EUR"))), post("C", None)],
        3 => vec![post("A", Some(amt(&sign(num("5", i)), "EUR"))), post("B", Some(amt(&format!("{}{}", if neg { "" } else { "-" }, num("5", j)), "USD")))],
        4 => vec![
            post("A:S", Some(amt(&sign(num("3", i)), "VEUR"))).lot_price(amt(&num("7", j), "EUR")).cost(true, amt(&num("2", j), "EUR")),
            post("A:S", Some(amt(&num("0", i), "ABC"))).cost(true, amt(&num("1", j), "EUR")),
            post("C", None),
        ],
        _ => vec![post("A", Some(amt(&sign(num("0", 2 * i)), "EUR"))), post("B", None), post("A", Some(amt(&num("0", 2 * j), "EUR")))],
    };
    let mut items = vec![Item::X(xact(D1, "F", ps))];
    if kind == 2 {
        items.push(price(D1, "", "EUR", &num("1", i + i / 2), "USD"));
        items.push(price("2023-01-06", "", "USD", &num("1", j + j / 2), "GBP"));
    }
    case(ch, cx, &items);
    Ok(())
}

/// Thousands separators in numbers of every length.
pub fn f_grouped(ch: &mut Ch, cx: &mut Cx) -> R {
    let i = 1 + ch.choose(28);
    let place = ch.choose(8);
    ch.shard()?;
    let f = *ch.pick(&[0usize, 1, 2, 3, 6]);
    let pat = ch.choose(2);
    let neg = ch.flag();
    if neg && (3..=6).contains(&place) {
        return Ok(());
    }
    let mut s = String::new();
    for k in 0..i {
        if k > 0 && (i - k) % 3 == 0 {
            s.push(',');
        }
        s.push(if pat == 0 { (b'1' + (k % 9) as u8) as char } else if k == 0 { '2' } else { '0' });
    }
    if f > 0 {
        s.push('.');
        s += &"0123456"[7 - f..];
    }
    if neg {
        s.insert(0, '-');
    }
    let mut items = number_at(place, &s);
    if let Item::X(x) = &mut items[0] {
        for b in &mut x.body {
            if let Body::Post(p) = b {
                // (no product or quotient)
                if p.cost.is_some() {
                    p.amt = Some(amt("1", "VEUR"));
                }
            }
        }
    }
    case(ch, cx, &items);
    Ok(())
}

/// Every minute of the day, and every second of a minute of each hour.
pub fn f_times(ch: &mut Ch, cx: &mut Cx) -> R {
    let h = ch.choose(24);
    ch.shard()?;
    let seconds = ch.choose(3);
    let mut items = vec![];
    for i in 0..60 {
        // (not in ascending order)
        let k = (i * 37 + h) % 60;
        let t = match seconds {
            0 => format!("{:02}:{:02}:00", h, k),
            1 => format!("{:02}:{:02}:{:02}", h, 59 - h, k),
            _ => format!("{:02}:{:02}:{:02}", (h + i) % 24, k, (k * 7 + h) % 60),
        };
        items.push(price(D1, &t, "EUR", &format!("{}", i + 1), "USD"));
        if i % 20 == 0 {
            items.push(Item::X(xact(D1, "T", vec![post("A", Some(amt(&format!("{}", i + 1), "USD"))).cost(true, amt("3", "GBP")), post("B", None)])));
        }
    }
    case(ch, cx, &items);
    Ok(())
}

/// Every year.
pub fn f_years(ch: &mut Ch, cx: &mut Cx) -> R {
    let step = 25;
    let block = ch.choose(9999 / step + 1);
    ch.shard()?;
    let aux = ch.flag();
    let mut items = vec![];
    for y in (block * step).max(1)..((block + 1) * step).min(10000) {
        for d in ["01-01", "02-28", "02-29", "12-31"] {
            let s = format!("{:04}-{}", y, d);
            if !valid_date(&s) {
                continue;
            }
            let mut x = xact(&s, "Y", vec![post("A", Some(amt("1", "EUR"))), post("B", None)]);
            if aux {
                x.date = D1.into();
                x.aux = Some(s.clone());
            }
            items.push(Item::X(x));
            if !aux && d == "02-28" {
                items.push(price(&s, "", "EUR", &format!("{}", y), "USD"));
            }
        }
    }
    case(ch, cx, &items);
    Ok(())
}

/// A feature at every position of a transaction of many postings.
pub fn f_positions(ch: &mut Ch, cx: &mut Cx) -> R {
    let n = 2 + ch.choose(cx.t(9, 16));
    let feature = ch.choose(11);
    ch.shard()?;
    let at = ch.choose(n);
    let rest = ch.choose(3);
    let mut ps: Vec<PostT> = (0..n)
        .map(|i| {
            let a = match rest {
                0 => format!("N{}", i),
                1 => "Same:One".to_string(),
                _ => ["A:B", "A", "A:B:C"][i % 3].to_string(),
            };
            post(&a, Some(amt(&format!("{}.{}", i + 1, i), "EUR")))
        })
        .collect();
    let omit = (at + n / 2) % n;
    let mut notes: Vec<&str> = vec![];
    match feature {
        0 => ps[at].amt = None,
        1 => {
            ps[at] = post("S", Some(amt("3", "VEUR"))).cost(true, amt("1.5", "EUR"));
            if omit != at {
                ps[omit].amt = None;
            }
        }
        2 => {
            ps[at] = post("S", Some(amt("-3", "VEUR"))).lot_price(amt("2", "EUR")).lot_date("2022-01-01").cost(true, amt("1.5", "EUR"));
            if omit != at {
                ps[omit].amt = None;
            }
        }
        3 => notes = vec![" a note"],
        4 => {
            notes = vec!["one", "", " two"];
            ps[at].amt = None;
        }
        5 => ps[at].amt = Some(amt("-7", "USD")),
        6 => {
            ps[at].amt = Some(amt("-7", "USD"));
            ps[omit].amt = None;
        }
        7 => ps[at] = post("S", Some(amt("3", "VEUR"))).cost(false, amt("9", "EUR")),
        8 => {
            ps[at] = ps[at].clone().tail("  ; tail 1 USD");
            ps[omit].amt = None;
        }
        9 => {
            ps[at] = post("S", Some(amt("3", "EUR"))).cost(true, amt("9", "EUR"));
        }
        _ => {
            ps[at].amt = None;
            ps[omit].amt = None;
        }
    }
    let mut x = xact(D1, "Positions", ps);
    for (k, t) in notes.iter().enumerate() {
        x.body.insert(at + 1 + k, Body::Comment(t.to_string()));
    }
    case(ch, cx, &[Item::X(x)]);
    Ok(())
}

/// Every kind of directive after many plain ones.
pub fn f_late(ch: &mut Ch, cx: &mut Cx) -> R {
    let mut t = templates();
    fix_styles(&mut t);
    let k = ch.choose(t.len());
    let n = 1 + ch.choose(cx.t(40, 140));
    ch.shard()?;
    let kind = ch.choose(3);
    let mut items = vec![];
    for i in 0..n {
        items.push(match kind {
            0 => Item::X(xact(&format!("2022-{:02}-{:02}", i % 12 + 1, i % 28 + 1), &format!("P{}", i), vec![post("Assets:Cash", Some(amt("-1", "EUR"))), post(&format!("Expenses:E{}", i % 9), None)])),
            1 => price(&format!("2022-{:02}-{:02}", i % 12 + 1, i % 28 + 1), "", "EUR", &format!("1.{}", i), &sym(i % 5)),
            _ => t[(i * 5 + 1) % t.len()].clone(),
        });
    }
    items.push(t[k].clone());
    items.push(t[0].clone());
    case(ch, cx, &items);
    Ok(())
}

/// Every arrangement of lines.
pub fn f_journal_lines(ch: &mut Ch, cx: &mut Cx) -> R {
    let kinds = [
        "2023-01-05 Payee",
        "    A:B  5 EUR",
        "    C",
        "    ; note",
        "",
        "   ",
        "; comment",
        "P 2023-01-06 EUR 1.5 USD",
        "    D:E  -5 EUR",
    ];
    let max = cx.t(6, 7);
    let mut sharded = false;
    // a transaction, a price and a comment around it
    let first = Item::X(xact("2023-01-04", "First", vec![post("C", Some(amt("2", "EUR"))), post("A:B", None)]));
    let last = Item::X(xact("2023-01-07", "Last", vec![post("A:B", Some(amt("3", "EUR"))), post("C", None)]));
    let mut items = vec![first.clone()];
    let mut text = render(&[first]) + "\n";
    let mut verdict = Verdict::Must;
    let mut open: Option<XactT> = None;
    for i in 0..max {
        if i == 3 {
            ch.shard()?;
            sharded = true;
        }
        // (the last one: no more lines)
        let k = ch.choose(kinds.len() + (i > 0) as usize);
        if k == kinds.len() {
            break;
        }
        let line = if k == 3 || k == 6 || k == 0 { format!("{}{}", kinds[k], i) } else { kinds[k].to_string() };
        text += &line;
        text += "\n";
        match k {
            1 | 2 | 8 => match &mut open {
                Some(x) => x.body.push(Body::Post(match k {
                    1 => post("A:B", Some(amt("5", "EUR"))),
                    2 => post("C", None),
                    _ => post("D:E", Some(amt("-5", "EUR"))),
                })),
                // a posting of no transaction
                None => verdict = verdict.max(Verdict::Reject),
            },
            3 => match &mut open {
                Some(x) => x.body.push(Body::Comment(format!(" note{}", i))),
                // a note of nothing: may be refused (and ends the exploration unless it is early)
                None => verdict = verdict.max(if i < 2 { Verdict::If } else { Verdict::Skip }),
            },
            4 | 5 => items.extend(open.take().map(Item::X)),
            _ => {
                if open.is_some() {
                    // without a blank line
                    verdict = verdict.max(if k == 6 { Verdict::Skip } else { Verdict::If });
                    items.extend(open.take().map(Item::X));
                }
                match k {
                    0 => open = Some(xact("2023-01-05", &format!("Payee{}", i), vec![])),
                    6 => items.push(Item::C(line)),
                    _ => items.push(price("2023-01-06", "", "EUR", "1.5", "USD")),
                }
            }
        }
        if verdict >= Verdict::Skip {
            break;
        }
    }
    if !sharded {
        ch.shard()?;
    }
    items.extend(open.take().map(Item::X));
    if ch.flag() {
        text += "\n";
        text += &render(&[last.clone()]);
        items.push(last);
    }
    case_lines(ch, cx, &items, &text, verdict);
    Ok(())
}

/// An account whose postings cancel, among its siblings.
pub fn f_settled(ch: &mut Ch, cx: &mut Cx) -> R {
    let n = 1 + ch.choose(cx.t(8, 16));
    let at = ch.choose(n);
    ch.shard()?;
    let pattern: &[(&str, &str)] = *ch.pick(&[
        &[("0", "EUR")][..],
        &[("5", "EUR"), ("-5", "EUR")],
        &[("2", "EUR"), ("3.00", "EUR"), ("-5", "EUR")],
        &[("5", "EUR"), ("7", "USD"), ("-5", "EUR")],
        &[("5", "EUR"), ("7", "USD"), ("-7", "USD"), ("-5.0", "EUR")],
        &[("0.00", "EUR"), ("0", "USD")],
        &[],
    ]);
    let child = ch.choose(4);
    let top = *ch.pick(&["", "P:", "P:Q:"]);
    let name = |i: usize| format!("{}N{}", top, i);
    let mut items = vec![];
    for i in 0..n {
        if i != at {
            let v = format!("{}", i + 1);
            items.push(Item::X(xact(D1, "Sibling", vec![post(&name(i), Some(amt(&v, "EUR"))), post("Z", None)])));
        }
    }
    for (v, s) in pattern {
        items.push(Item::X(xact(D1, "Own", vec![post(&name(at), Some(amt(v, s))), post("Z", None)])));
    }
    let below = format!("{}:Child", name(at));
    match child {
        1 => items.push(Item::X(xact(D1, "Child", vec![post(&below, Some(amt("4", "EUR"))), post("Z", None)]))),
        2 => {
            items.push(Item::X(xact(D1, "Child", vec![post(&below, Some(amt("4", "USD"))), post("Z", None)])));
            items.push(Item::X(xact(D1, "Child", vec![post("Z", Some(amt("4", "USD"))), post(&below, None)])));
        }
        // what the account has is taken away below it
        3 => items.push(Item::X(xact(D1, "Child", vec![post(&name(at), Some(amt("4", "EUR"))), post(&below, None)]))),
        _ => (),
    }
    case(ch, cx, &items);
    Ok(())
}

pub fn shared() -> Vec<Family> {
    vec![
        Family { name: "postings", bound: "every transaction of 1 to 4 (thorough 5) postings out of 17 amount forms", run: f_posts },
        Family { name: "accounts", bound: "every 2 or 3 postings over 3 accounts x 7 amount forms, after an earlier transaction", run: f_accounts },
        Family { name: "histories", bound: "every history of up to 4 (thorough 5) of 13 directives", run: f_history },
        Family { name: "books", bound: "every history of up to 4 (thorough 6) of 8 balanced transactions", run: f_books },
        Family { name: "side-by-side", bound: "two journals at the same time, 1 to 2 (thorough 3) of 6 directives each, every interleaving, the one that is complete first kept or gone; judged after every step", run: f_side_by_side },
        Family { name: "after-refusal", bound: "1 or 2 (thorough 3) of 13 directives, read after each of 14 other journals was refused", run: f_after_refusal },
        Family { name: "phrases", bound: "every sequence of up to 2 (thorough 3), where the text matters to the property 3 (4), of 26 phrases (brackets, signs, dates, amounts, words) as payee, note, comment, account, sub-account", run: f_phrases },
        Family { name: "stepwise", bound: "every history of 2 to 4 (thorough 5) of 10 directives, read one by one into the same journal, with everything looked up and reported and the property judged after each", run: f_stepwise },
        Family { name: "sizes", bound: "21 collections and lengths grown to each size 1..34 (thorough 150) and sizes around powers of two up to 257 (thorough 1025)", run: f_sizes },
        Family { name: "text-lengths", bound: "14 kinds of text, of letters, of words and of characters of several bytes, of each length 1..270 (thorough 1100)", run: f_text_lengths },
        Family { name: "names", bound: "every pair and triple (thorough quadruple) of 22 similar account names", run: f_names },
        Family { name: "notation", bound: "13 symbols x 10 numbers x 5 notations x 6 tails x 4 positions", run: f_notation },
        Family { name: "symbols", bound: "every ordered pair of 13 similar symbols x 5 uses", run: f_symbols },
        Family { name: "numerals", bound: "every string over 0 1 5 9 . , - up to length 5 (thorough 6), at up to 8 places", run: f_numerals },
        Family { name: "digits", bound: "every whole part of 1..31 and fraction of 0..30 digits x 4 digit patterns x sign x 4 places", run: f_digits },
        Family { name: "headers", bound: "25 payees x 10 notes x 5 auxiliary dates x spacing x following comment", run: f_headers },
        Family { name: "neighbours", bound: "every pair of transactions over 3 dates x 4 auxiliary dates x 3 payees x 3 notes x 2 comments that may agree, the second one in 4 relations to the first", run: f_neighbours },
        Family { name: "coincidences", bound: "a trade after a price, its 12 parts (dates, payee, notes, accounts, quantity, lot, cost) out of 2 or 3 values that may agree", run: f_coincidences },
        Family { name: "echoes", bound: "24 parts of a transaction repeated in each of 7 texts of it in 9 forms, x auxiliary date x omitted amount x 3 surroundings", run: f_echoes },
        Family { name: "days", bound: "every day of 14 (thorough 231) years as date, auxiliary date, price date", run: f_days },
        Family { name: "notes", bound: "8 comment groups at each of 4 places x 3 header notes", run: f_notes },
        Family { name: "prices", bound: "every sequence of up to 3 (thorough 4) of 20 price directives and trades", run: f_prices },
        Family { name: "costs", bound: "8 quantities x 6 prices x 2 forms x 3 gaps x 5 notations x 7 lots x 2 tails x 6 counter-postings", run: f_costs },
        Family { name: "characters", bound: "107 characters at 5 positions of 14 kinds of text", run: f_characters },
        Family { name: "departures", bound: "transactions of 2, 3 and 4 postings with up to 38 points of variation, every combination of at most 3 (4 postings: 2; thorough one more) departures", run: f_departures },
        Family { name: "fractions", bound: "quantities and prices with each of 0..10 (thorough 13) decimals (sums: to 20, 26) x 6 forms x sign", run: f_fractions },
        Family { name: "grouped", bound: "whole parts of 1..28 digits with thousands separators x 5 fractions x 2 patterns x sign x 8 places", run: f_grouped },
        Family { name: "times", bound: "price directives at every minute of the day and every second of a minute of each hour", run: f_times },
        Family { name: "years", bound: "every year from 1 to 9999: first and last day, end of February, as date, auxiliary date and price date", run: f_years },
        Family { name: "positions", bound: "11 features at every position of 2 to 10 (thorough 17) postings x 3 account patterns", run: f_positions },
        Family { name: "settled", bound: "1 to 8 (thorough 16) siblings, one of which has 7 patterns of cancelling postings x 4 contents below it x 3 depths", run: f_settled },
        Family { name: "late", bound: "each of 13 directives after 1..40 (thorough 140) others of 3 kinds", run: f_late },
        Family { name: "journal-lines", bound: "every arrangement of up to 6 (thorough 7) of 9 kinds of lines, at the end of a journal and in it", run: f_journal_lines },
        Family { name: "exchanges", bound: "every transaction of 2 to 4 (thorough 5) plain amounts over 7 values x 3 commodities", run: f_exchange },
    ]
}
