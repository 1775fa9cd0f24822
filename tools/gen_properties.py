#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in step with MANIFEST.json by tools/gen_manifest.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=mech, observe_at=observe, hook_needed=hook)))
def m(*pairs): return [dict(name=a, where=b) for a, b in pairs]

p("C01", "An omitted amount balances its transaction exactly",
  "In every transaction in which exactly one posting has no amount and the remaining postings add up in a single commodity (a posting with a cost counts at its recorded cost instead of its amount), that posting is given exactly the negated total, in that commodity. This holds whatever the number, order, signs and precision of the postings, wherever the incomplete posting stands, also when the total is zero or has no commodity. The postings that were written with an amount keep it. Sums and products that need more than the 28 digits of the decimal type are outside.",
  ["inputs", "histories"], "every transaction with one amount-less posting: every position, number and combination of the other postings, alone and after any history of earlier directives",
  "The tests complete a single positive amount in the second of two postings; they never complete a negative, zero, many-posting or mixed-cost total.",
  ["src/xact.rs", "src/amount.rs", "src/balance.rs"],
  m(("finalize: sum the postings, give the inverse to the null post", "src/xact.rs finalize"), ("inverse / invert", "src/amount.rs Amount"), ("Balance::add", "src/balance.rs")),
  ["amount of every posting after reading"])
p("C02", "Amounts are read exactly as written",
  "For every posting amount in a supported notation (number before or after the symbol, with or without a space between them, negative, with decimals (also without a digit before or after the point, or with leading zeros), with commas as thousands separators, without a commodity, followed by a note) the recorded amount has exactly the written value, sign and symbol, and every posting of a transaction is recorded once, in order. The same holds for reading a bare amount text, which is refused if anything follows the amount. A number that cannot be represented exactly or is not a number is refused; it is never rounded, changed or treated as a missing amount.",
  ["inputs"], "every numeral over the alphabet 0 1 5 9 . , - up to a length, every length of whole and fractional part around the 28-digit capacity, every notation, symbol and position",
  "The tests read about ten fixed amounts; numerals, symbols and notations form an unbounded space, and unreadable numerals are not tried at all.",
  ["src/scanner.rs", "src/parser.rs", "src/amount.rs"],
  m(("scan_post / scan_amount / scan_quantity / scan_symbol", "src/scanner.rs"), ("parse_post / parse_amount_parts", "src/parser.rs"), ("Quantity::from_str", "src/amount.rs")),
  ["amount of every posting", "parse_amount"])
p("C03", "Costs are recorded exactly and never replaced",
  "A posting with a per-unit cost (`@`) gets the cost per-unit price times quantity, with the sign of the quantity, and a posting with a total cost (`@@`) gets the written total, exactly and in the written commodity. This holds with or without space after the sign, with or without lot price and lot date in either order, for every quantity and price, and the posting's own amount is unaffected. A cost that was written is still the posting's cost after the whole transaction was processed, whatever the other postings are. Sums and products that need more than the 28 digits of the decimal type are outside.",
  ["inputs"], "every combination of quantity, price, cost form, spacing, lot annotation, note and surrounding postings",
  "The tests record costs for four fixed trades, each with one counter-posting; transactions where costs meet other commodities are not exercised.",
  ["src/scanner.rs", "src/parser.rs", "src/xact.rs", "src/pool.rs"],
  m(("scan_cost, scan_annotations", "src/scanner.rs"), ("parse_cost", "src/parser.rs"), ("finalize cost section", "src/xact.rs")),
  ["cost of every posting after reading"])
p("C04", "A purchase takes cash out, a sale brings cash in",
  "When the counter-posting of a trade has no amount, it decreases by the cost of what is bought and increases by the cost of what is sold. A posting with a positive quantity and a cost contributes minus the size of its cost to it and a posting with a negative quantity contributes plus the size of its cost, equally for a per-unit and for a total cost, for any number of trades in the transaction.",
  ["inputs"], "every combination of quantity sign, cost form and number of traded postings",
  "No test looks at the amount that a sale leaves in the counter-posting.",
  ["src/xact.rs", "src/parser.rs"],
  m(("parse_cost", "src/parser.rs"), ("finalize", "src/xact.rs")),
  ["amount of the counter-posting"])
p("C05", "An exchange of two commodities gets its cost inferred, nothing else does",
  "When a transaction has all its amounts, no costs, and adds up to exactly two commodities with opposite signs, then every posting in the commodity of the first posting gets a cost in the other commodity, at the ratio of the two totals and with the sign of its amount, so that the transaction balances at cost (to at least 18 decimals). The other postings get no cost. In a transaction with an omitted amount, with a written cost, or with any other number of commodities no cost is inferred, and inference never changes an amount.",
  ["inputs"], "every combination of two to four postings over the amount alphabet and every split of the two totals over the postings",
  "The tests infer one exchange of two postings and do not look at the inferred cost.",
  ["src/xact.rs", "src/balance.rs", "src/amount.rs"],
  m(("finalize: two-commodity section", "src/xact.rs")),
  ["cost of every posting after reading"])
p("C06", "The account tree is exactly the tree of the names used",
  "After any sequence of account registrations and postings the account tree contains each used account name and each of its ancestors exactly once, under its parent, and nothing else. Every account's full name is its path, looking up a full name gives that very account, and looking up any other name (whose parts between the colons are not empty) gives nothing. Lookups never create accounts. A name with an empty part (`A::B`, `:A`, `A:`) is refused in a posting and in a registration.",
  ["inputs", "histories"], "every sequence of names from a set chosen to collide (shared leaves, prefixes, equal parent and child, different case, spaces, non-ASCII), every number of siblings and every depth up to the bound",
  "The tests build trees of at most seven accounts and two levels and look up only names that exist.",
  ["src/account.rs", "src/journal.rs"],
  m(("find_or_create / create_account / fullname / flatten", "src/account.rs"), ("register_account / find_account", "src/journal.rs")),
  ["account tree, full names, lookups"])
p("C07", "Links between accounts, postings and transactions stay true",
  "At any point in the life of a journal, for any number of accounts, postings, transactions and commodities, every posting's account link leads to the account it was written for, every posting's transaction link leads to the transaction that contains it, every account's list of postings is exactly the journal's postings to it in order, every account's parent link leads to the account above it, and every amount's commodity link leads to the commodity in the journal's collection. No link ever leads to storage that is no longer part of the journal. Moving the journal does not change this.",
  ["histories", "inputs"], "every size of every collection up to the bound (all growth points of the containers) and every short sequence of interleaved operations",
  "The tests never have more than four children, four commodities, four postings or four transactions, so no container ever grows and no link can go stale.",
  ["src/account.rs", "src/journal.rs", "src/pool.rs", "src/xact.rs", "src/post.rs", "src/parser.rs"],
  m(("boxed accounts, commodities and posts", "src/account.rs, src/pool.rs, src/xact.rs"), ("add_xact relinks the posts", "src/journal.rs")),
  ["addresses of accounts, posts, transactions and commodities"], "account parent pointer (verif_hooks::account_parent)",
  [dict(name="Account.posts", meaning="pointers to the account's postings", where="src/account.rs"), dict(name="Post.account, Post.xact_ptr", meaning="links of a posting", where="src/post.rs")])
p("C08", "One commodity per symbol; different symbols never mix",
  "However often and in whatever order symbols occur (in amounts, costs, lot prices, price directives and direct requests), a journal has exactly one commodity per distinct symbol, findable by its symbol and by its index, and nothing for a symbol that never occurred. All amounts with a symbol refer to that one commodity and add up together; amounts with different symbols, or with and without a symbol, are never added up.",
  ["inputs", "histories"], "every sequence of symbols from a colliding set (prefixes, case, currency signs, non-ASCII), in every syntactic place, and every number of commodities up to the bound",
  "The tests use at most three symbols in a journal.",
  ["src/pool.rs", "src/commodity.rs", "src/balance.rs", "src/parser.rs", "src/annotate.rs"],
  m(("find_or_create / create / find / find_index", "src/pool.rs"), ("Balance::add", "src/balance.rs")),
  ["commodity collection, amounts, account totals"])
p("C09", "The balance report states the true total of every account",
  "For every journal, the balance report has exactly one line per account (the unnamed top account included), with the account's full name and, for every commodity posted to the account or below it, exactly the sum of those postings' amounts, written so that each can be read off. An account's own amount is the sum of its own postings, and its total is its own amount plus the totals of its children. Sums and products that need more than the 28 digits of the decimal type are outside.",
  ["inputs", "histories"], "every journal over the posting, name, symbol and size alphabets",
  "The tests compare six fixed reports of at most five accounts.",
  ["src/report.rs", "src/account.rs", "src/balance.rs"],
  m(("total / amount", "src/account.rs"), ("balance_report / get_children_lines", "src/report.rs")),
  ["balance report lines, account amounts and totals"])
p("C10", "The books as a whole always balance",
  "If every transaction read so far balances by itself within each commodity (all amounts written and summing to zero, or one amount omitted) then the grand total of all accounts is zero in every commodity, in the account tree and in the balance report. This is so after every transaction of every history. Sums and products that need more than the 28 digits of the decimal type are outside.",
  ["histories"], "every sequence of balanced transactions up to the depth bound, after each of its prefixes",
  "The tests check the grand total for three journals of one or two transactions.",
  ["src/xact.rs", "src/account.rs", "src/balance.rs", "src/report.rs"],
  m(("finalize", "src/xact.rs"), ("total", "src/account.rs")),
  ["grand total of the account tree, first line of the balance report"])
p("C11", "Transaction headers are read faithfully",
  "Every transaction in the source becomes exactly one transaction of the journal, in source order, with the written date, the written auxiliary date if and only if there is one, the written payee without surrounding spaces (`Unknown Payee` if there is none), and the written note if and only if there is one. This holds for every valid date and for any payee text, with or without any of the optional parts.",
  ["inputs"], "every calendar day of several years (leap, century, boundary), every combination of the optional parts, payees over a tricky alphabet, and sequences of transactions",
  "The tests read five fixed headers, one date.",
  ["src/scanner.rs", "src/xact.rs", "src/parser.rs"],
  m(("tokenize_xact_header", "src/scanner.rs"), ("Xact::create", "src/xact.rs"), ("create_xact", "src/parser.rs")),
  ["date, auxiliary date, payee and note of every transaction"])
p("C12", "Notes attach to the item they follow and none is lost",
  "A comment line inside a transaction is added to the transaction's note when no posting precedes it and otherwise to the note of the posting directly before it, without the comment character and surrounding spaces. When there are several (a note in the header counts first), all are kept in order, one per line; empty comments add nothing. Items without comments have no note, and comments never change amounts, accounts or the number of postings.",
  ["inputs"], "every placement of zero to three comments (several texts) in the slots of transactions with up to four postings",
  "The tests place one comment in two places.",
  ["src/parser.rs", "src/xact.rs", "src/post.rs"],
  m(("parse_trailing_note", "src/parser.rs"), ("add_note", "src/xact.rs, src/post.rs")),
  ["note of every transaction and posting"])
p("C13", "Layout and comments between directives do not change the meaning",
  "Two journals that differ only in layout are read identically. Layout is: the number of blank or whitespace-only lines and of comment lines (starting with ; # * |) between directives and at the ends, the depth of indentation by spaces, the width of the gap between account and amount, trailing spaces, Unix or Windows line ends, and whether the last line is terminated.",
  ["inputs"], "every combination of up to two (thorough: three) layout changes at every place of several journals that together use every construct",
  "The tests use one layout, plus one whitespace-only line after a transaction.",
  ["src/parser.rs", "src/scanner.rs"],
  m(("read_next_directive / xact_directive", "src/parser.rs"), ("scan_post, scan_price_directive", "src/scanner.rs")),
  ["everything read from the journal"])
p("C14", "How a journal is delivered does not matter",
  "A journal is read identically however its source delivers the bytes (any sequence of short or interrupted reads, also inside multi-byte characters), whether it comes as text, as a reader or as a file, and whether it is read at once or cut between directives into several sources read one after another into the same journal or included from one another by path (the path is the whole rest of the include line). Each read reports the number of transactions it added.",
  ["inputs", "fault_sequences"], "every one- and two-cut delivery and every fixed chunk size of several journals including ones larger than the read buffer, an interruption before every read, every cut into up to three sources and every way of supplying them",
  "The tests read from complete in-memory buffers or small files and have one two-file case.",
  ["src/parser.rs", "src/lib.rs", "src/journal.rs"],
  m(("Parser::parse, include_directive", "src/parser.rs"), ("parse_file / parse_text", "src/lib.rs"), ("Journal::read", "src/journal.rs")),
  ["everything read from the journal, return value of read"])
p("C15", "The price history holds exactly the prices given and implied",
  "After reading, the recorded prices are exactly: the rate of every price directive at its date and time (midnight if there is no time), and for every posting with a written or inferred cost the positive ratio of cost to quantity at the transaction's date, each for that ordered pair of commodities only. A later price for the same pair and moment replaces the earlier one; prices at other moments and of other pairs are unaffected. A zero ratio records nothing.",
  ["inputs", "histories"], "every sequence of price directives and trades over few commodities, moments and rates up to the depth bound",
  "The tests record one directive and two trades, each in an otherwise empty history; price directives in journal text are not tested.",
  ["src/pool.rs", "src/history.rs", "src/xact.rs", "src/scanner.rs", "src/parser.rs"],
  m(("parse_price_directive / exchange / add_price", "src/pool.rs"), ("CommodityHistory::add_price", "src/history.rs"), ("finalize cost section", "src/xact.rs")),
  ["recorded price points"], "price points (verif_hooks::prices)")
p("C16", "A price is found through the shortest chain of known rates",
  "Looking up the price of one commodity in another gives the most recent recorded direct rate if there is one, otherwise the product of the most recent rates along a chain of the fewest possible steps, and nothing if and only if there is no chain. Its date is the date of the oldest of the rates used, and its commodity is the target. Looking up prices changes nothing, and the answer does not depend on the current time or the order in which the prices were recorded at different moments.",
  ["inputs", "histories"], "every directed rate graph over up to four commodities, with up to three moments per pair in every order",
  "The tests look up one direct and one two-step price, in graphs without alternatives.",
  ["src/history.rs"],
  m(("find_price / calculate_rate / get_direct_price / get_latest_price", "src/history.rs")),
  ["result of a price lookup"], "price lookup (verif_hooks::find_price)")
p("C17", "Amount arithmetic is exact and never mixes commodities",
  "Addition, subtraction, multiplication, negation and absolute value of amounts are exact decimal operations, division is correct to at least 18 decimals, negating twice gives the amount back and an amount plus its negation is zero. Adding or subtracting amounts of different commodities is refused by amounts and kept apart by balances; products and quotients take the left commodity or, if there is none, the right one. A balance holds for every commodity exactly the signed sum of what was added and subtracted, in any order. Amounts made from whole numbers have exactly their value. Sums and products that need more than the 28 digits of the decimal type are outside.",
  ["inputs"], "every pair of amounts over a value set of boundary magnitudes, signs and scales times commodities, every operation, and every sequence of balance operations up to the depth bound",
  "The tests apply each operation to one or two pairs of small positive integers.",
  ["src/amount.rs", "src/balance.rs"],
  m(("operators of Amount and Quantity", "src/amount.rs"), ("Balance", "src/balance.rs")),
  ["results of the operations"], "balance operations (verif_hooks::balance_of, balance_sum)")
p("C18", "The cost breakdown of an exchange is right and has no side effects",
  "Exchanging an amount at a cost reports the amount unchanged, as final cost the given total (or the per-unit cost times the size of the amount), as basis cost the lot price times the amount if the commodity has a lot price and otherwise the final cost, and as new price the positive cost per unit for the commodity at the given moment, or none if it is zero. The exchange itself records no price and creates no commodity; recording the reported price afterwards adds exactly that price at that moment.",
  ["inputs", "configurations"], "every combination of quantity, cost, cost form and lot annotation (none, date only, price, both), before and after other postings of the commodity",
  "One test exchanges one lot and looks at the price only.",
  ["src/pool.rs", "src/annotate.rs", "src/parser.rs"],
  m(("exchange", "src/pool.rs"), ("Annotation::parse", "src/annotate.rs")),
  ["returned breakdown and price, recorded prices"], "price points (verif_hooks::prices)")
p("C19", "A command runs the requested report on the requested files",
  "For every arrangement of a command and any number of `-f FILE` options, before or after the command, the result is the report of the journal that contains the transactions of those files in the order given (a file named twice counts twice). `b`, `bal` and `balance` give the balance report and `accounts` gives one entry per account in sorted order. A command line as one string (with shell quoting), as a list of arguments, and given to the executable gives the same result. A command line without a command, with an unknown option, with a last option that lacks its file name, or with a file that does not exist gives no report, nor does a command that does not exist (`register`, `print`, `Balance`, `balances`; other words that start with `a` are outside).",
  ["inputs", "configurations"], "every arrangement of one command and up to three file options over a set of files, including names with spaces and missing files, and every sequence of words, options and file names",
  "The tests run six fixed command lines, all with the command first.",
  ["src/lib.rs", "src/option.rs", "src/report.rs", "src/main.rs"],
  m(("process_arguments / get_input_options", "src/option.rs"), ("run / run_command / execute_command", "src/lib.rs")),
  ["result of run and run_command, output of the executable"])
p("C20", "Reports are in a fixed order and repeatable",
  "The balance report lists every account before its sub-accounts and siblings in ascending order of their names, with each account's sub-accounts directly after it, and the flattened account tree has the same order. The text depends only on the journal: reading and reporting again, in the same or another process, whatever the internal order of the collections, gives the same text, and reporting does not change the journal.",
  ["inputs", "schedules"], "every journal of the shared families, and every internal iteration order of up to four sibling accounts and commodities",
  "The tests compare single runs with at most two siblings per account.",
  ["src/report.rs", "src/account.rs"],
  m(("sorting in get_children_lines, total and flatten", "src/report.rs, src/account.rs")),
  ["balance report text, flattened tree"])
p("C21", "Input without a single defined meaning is refused, never guessed",
  "Reading never completes normally on a journal with a transaction that has two or more postings without amount, a single posting, a posting without amount where the others leave more than one commodity, a cost in the commodity of the amount itself, an invalid calendar date, a missing or unreadable number in an amount, cost, lot price or price directive, text after the account of a posting that is not of the form AMOUNT [{AMOUNT}] [[DATE]] [@ AMOUNT or @@ AMOUNT] with an optional note (so also an unclosed, empty or repeated lot price or date, or a lot or cost without an amount), text after the price of a price directive, an account name with an empty part (`A::B`), a posting outside a transaction, an unknown directive (also a line that starts with `-`), or with an include of a file that does not exist. This holds wherever in the journal the input stands and whatever surrounds it.",
  ["inputs"], "every listed defect in every position of surrounding valid postings and transactions, every sequence of tokens after the account, after the P and after the date, every arrangement of lines, with every invalid numeral and date of the alphabets",
  "No test reads input that has to be refused.",
  ["src/xact.rs", "src/parser.rs", "src/scanner.rs"],
  m(("finalize", "src/xact.rs"), ("parse_post, parse_date, include_directive", "src/parser.rs"), ("scan_annotations", "src/scanner.rs")),
  ["whether reading returns"])

p("C22", "An incomplete or unreadable source is refused, not taken for a shorter journal",
  "If a source of a journal fails while it is read (any error of a read other than an interruption, after any number of bytes, in chunks of any size, whatever the source would deliver afterwards), contains bytes that are not UTF-8 text (anywhere, also in comments, and also a character cut off at the end), or cannot be opened or read as a file (it is missing, or a directory), then reading does not complete normally, whether it is read directly, as a file, by an include, or by a command with any number of file options. A journal or report that lacks what could not be read is never produced. An interrupted read is no failure and is tried again.",
  ["fault_sequences", "inputs"], "every point of failure, kind of error, chunk size and bad byte position in journals of different shape, by every way of delivery",
  "No test reads from a source that fails or is not text.",
  ["src/parser.rs", "src/lib.rs", "src/journal.rs"],
  m(("Parser::parse and xact_directive: read_line", "src/parser.rs"), ("include_directive", "src/parser.rs"), ("parse_file, session_read_journal_files", "src/lib.rs"), ("Journal::read", "src/journal.rs")),
  ["whether reading returns"])
p("C23", "A lot price and a lot date are recorded as written and kept",
  "After reading, a commodity has lot information if and only if a posting in it was written with a lot price (`{AMOUNT}`) or a lot date (`[DATE]`), and it is that of the first such posting: the price has exactly the written value and symbol and the date is the written one, each if and only if it was written, in either order, with or without a cost and a note. Later lots, postings, prices and exchanges of the commodity do not change it, lots of one commodity do not affect another one, and an exchange of the commodity uses that price as the basis.",
  ["inputs", "histories"], "every sequence of postings with and without lots of several commodities, every date and price of a lot, in every form",
  "One test reads one lot; none reads a second lot, a lot with a date only, or a lot of another commodity.",
  ["src/annotate.rs", "src/pool.rs", "src/parser.rs", "src/scanner.rs"],
  m(("scan_annotations", "src/scanner.rs"), ("Annotation::parse", "src/annotate.rs"), ("find_or_create", "src/pool.rs CommodityPool"), ("parse_post", "src/parser.rs")),
  ["lot of every commodity", "basis cost of an exchange"], "lots (verif_hooks::lots); without it the basis cost only")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
