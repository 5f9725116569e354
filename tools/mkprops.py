import json
P=[]
def p(id,title,st,over,q,why,files,mech,obs=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if obs: d["anchors"]["observe_at"]=obs
    assert len(title)<=80,(id,len(title))
    P.append(d)
I=["inputs"];H=["histories"];IH=["inputs","histories"]
p("C01","Every transaction balances to zero in every currency",
 "Whatever valid ledger is loaded, and whatever sequence of book operations (map, mapccy, move, combine, depreciate, asof, since) or conversion to a base currency is then applied, the postings of every transaction sum to exactly zero in each currency. The total over the whole book is therefore exactly zero in every currency, with no rounding residue.",
 ["inputs","histories"],"All valid ledgers (elided amounts, many currencies, huge and 18-decimal amounts) and all sequences of operations up to any length.",
 "Unit tests accumulate a handful of fixed books and never check balance after operations; the guarantee is over all books and operation sequences.",
 ["book/builder.go","book/book.go","book/book_compact.go","book/book_utils.go","loader/parser.go"],
 [("balance check on transaction change","book/builder.go checkAndClearTransaction"),("paired postings","book/book.go Depreciate, AdjustPost"),("exact rationals","math/big.Rat throughout book")],
 ["Book.Transactions()","goledger export"])
p("C02","Loading a ledger yields exactly what the file says",
 "A file in the supported ledger syntax loads to exactly the transactions and prices it describes: dates, payees, notes, accounts, currencies and amounts (exact at any size and number of decimals, with sign or currency on either side, thousands separators, quoted currencies, elided amounts), with nothing dropped, invented or moved between transactions. Two transactions on the same date with the same payee stay separate (the later ones get ' (2)', ' (3)', ... appended), and postings of one transaction to the same account and currency are summed, with zero results dropped.",
 I,"All ledgers in the supported syntax and all the lexical variants of the same content.",
 "No loader test exists at all; the claim ranges over every spelling of every ledger.",
 ["loader/lexer.go","loader/parser.go","book/builder.go","book/book_compact.go"],
 [("hand written parser","loader/parser.go parseFileLocal"),("number lexer","loader/lexer.go parseAmt"),("payee de-duplication","book/builder.go NewTransaction"),("merge of equal postings","book/book_compact.go compact")],
 ["loader.ParseFile into a custom TransactionLoader","Book.Transactions()","Book.GetPriceList"])
p("C03","A ledger with an unbalanced transaction is refused",
 "If any transaction of the ledger, wherever it stands (first, middle, last, last of an included file) and however small the imbalance, does not sum to zero in some currency, loading reports an error. The command line then exits with a non-zero status, prints no report on standard output and does not crash.",
 I,"All ledgers with at least one unbalanced transaction at any position, in any currency, by any amount.",
 "No test loads an unbalanced ledger; the position and size of the imbalance are unbounded.",
 ["book/builder.go","cmd/app/app.go","loader/parser.go"],
 [("balance check","book/builder.go checkAndClearTransaction"),("panic to error","loader/parser.go parseFileLocal recover"),("load","cmd/app/app.go LoadBook")],
 ["App.LoadBook","exit status and stdout of the goledger binary"])
p("C04","Hostile ledger text gives an error or a balanced book, never a crash",
 "For any bytes in the ledger file or its includes, loading ends with either an error or a book in which every transaction balances and has a valid calendar date; it never crashes, hangs, kills the process or reads text as something else. Text that is not understood (trailing words after a posting, an amount without a currency or a currency without an amount, an impossible date, an unterminated quote, an unknown directive, a posting outside a transaction, a missing or circular include, a NUL byte) is reported as an error, not skipped.",
 I,"All byte strings: random, mutated valid ledgers, truncations at every offset, injected junk.",
 "Tests never feed the loader malformed text; only generation of hostile input against an oracle reaches it.",
 ["loader/lexer.go","loader/parser.go","book/builder.go","cmd/app/app.go"],
 [("recover in the loader","loader/parser.go parseFileLocal"),("stop() on unexpected input","loader/lexer.go")],
 ["App.LoadBook result","exit status of the goledger binary"])
p("C05","Ledger export loads back to the same book",
 "Exporting any loaded book (also after operations, as long as amounts remain finite decimals) in ledger format gives a file that loads without error to a book with the same transactions, notes, exact amounts and prices. This holds for every output language and for payees and currencies that need quoting, and exporting that file again reproduces it, byte for byte but for trailing zeros (and exactly from then on).",
 ["inputs","configurations"],"All loadable books and all language settings.",
 "No export test exists; the round trip has to hold for all books, amounts and locales.",
 ["cmd/export/ledger.go","cmd/app/print.go","loader/parser.go"],
 [("ledger writer","cmd/export/ledger.go ShowLedger"),("number formatting","cmd/app/print.go"),("currency quoting","cmd/export/ledger.go LedgerFormatCurrency")],
 ["stdout of goledger export --type Ledger"])
p("C06","JSON, CSV and Beancount exports describe the same book",
 "The JSON, CSV and Beancount exports are well-formed in their format and contain every transaction and posting of the book exactly once, in book order, with the right date, payee, transaction note, posting note, account, currency and amount (CSV and Beancount exact for finite decimals, JSON the nearest float). The Beancount export also opens every account exactly once on its first date, closes on the day after its last date exactly those accounts whose balance is zero in every currency, and lists every price, in every output language.",
 ["inputs","configurations"],"All loadable books (special characters in payees and notes included) and all languages.",
 "No test covers exports; fidelity is over all books.",
 ["cmd/export/csv.go","cmd/export/beancount.go","cmd/export/export.go","book/posting.go","book/transaction.go"],
 [("CSV writer","cmd/export/csv.go"),("Beancount writer","cmd/export/beancount.go"),("JSON marshalling","book/posting.go MarshalJSON, book/transaction.go MarshalJSON")],
 ["stdout of goledger export --type Json|CSV|Beancount"])
p("C07","map= renames accounts and nothing else",
 "After map=/search/replace/ (optionally with an alternate account), each posting's account is the regular-expression replacement of its old name where it matches, the alternate (if given) where it does not, and unchanged otherwise; dates, payees and notes stay, postings that become equal in account and currency within a transaction are summed, and zero results vanish. The sum per currency over each set of accounts that map to the same name is preserved in every transaction.",
 IH,"All books, regular expressions and replacement strings, also after other operations.",
 "No test exercises account mapping.",
 ["book/book_utils.go","book/book.go","cmd/app/book_op.go"],
 [("RegexAccounts/MapAccount","book/book_utils.go, book/book.go"),("operation parser","cmd/app/book_op.go")],["Book.Transactions()","goledger export map=..."])
p("C08","mapccy= renames currencies in postings, prices and precision alike",
 "After mapccy=/search/replace/, every posting currency and both sides of every price are replaced by the same rule and everything else is unchanged; postings whose currencies become equal are summed, and prices of pairs that become equal are all kept, in date order. The number of decimals shown for the new currency is enough for every amount it now holds.",
 IH,"All books with prices, all regular expressions, including several currencies mapping onto one.",
 "No test exercises currency mapping; collisions and chained renames depend on iteration order.",
 ["book/book_utils.go","book/price.go","cmd/app/book_op.go"],
 [("RegexCCY","book/book_utils.go")],["Book.Transactions(), GetPricePairs, GetPriceList, GetCCYDecimals"])
p("C09","move= transfers exactly the given share of each matching posting",
 "After move=/search/account/factor/, for every posting whose account matches, exactly factor times its amount (the decimal factor as written, no binary rounding) is taken from that account and put into the (captured-group expanded) new account, in the same transaction and currency. All other postings are untouched and every transaction still balances.",
 IH,"All books, regular expressions and decimal factors.",
 "No test exercises move.",
 ["book/book.go","cmd/app/book_op.go"],[("AdjustPost","book/book.go")],["Book.Transactions()","goledger export move=..."])
p("C10","depreciate= spreads an expense evenly and conserves its total",
 "After depreciate=/search/asset/n/, each matching posting of amount a on date d is replaced by n equal parts a/n in the same account and payee, the first on d and the others on the first day of each following month, while the asset account holds exactly the part not yet spread. The total per account and currency over all time is unchanged, the asset account ends at zero, and every transaction balances.",
 IH,"All books, all n >= 1, dates at month and year ends, captured-group asset names.",
 "No test exercises depreciation.",
 ["book/book.go","book/date.go","cmd/app/book_op.go"],[("Depreciate","book/book.go"),("month stepping","book/date.go FloorMonth")],["Book.Transactions()","goledger export depreciate=..."])
p("C11","combine= merges each period into one transaction without losing money",
 "After combine=yearly, quarterly or monthly, there is exactly one transaction per period that had non-cancelling postings, dated on the first day of that calendar period, with an empty payee, and for every account and currency its amount is exactly the sum of that account's postings within the period; combine=none keeps dates. Zero sums are absent and totals over the book are unchanged.",
 IH,"All books spanning any dates and all period types.",
 "Accumulation tests only use one period boundary by hand.",
 ["book/book.go","book/book_compact.go","book/date.go"],[("SplitBy","book/book.go"),("Floor","book/date.go")],["Book.Transactions()","goledger export combine=..."])
p("C12","asof= and since= keep whole transactions on the right side of the date",
 "asof=D keeps exactly the transactions dated before D and since=D exactly those dated on or after D, each whole and unchanged; the two results for the same D partition the book, and applying both gives the half-open window. Running balances afterwards are those of the remaining transactions only.",
 IH,"All books and all dates, on, before and after transaction dates, after any other operations.",
 "No test exercises the date filters.",
 ["book/book_utils.go","book/book.go","cmd/app/book_op.go"],[("FilterByDateSince/Asof","book/book_utils.go"),("FilterTransaction","book/book.go")],["Book.Transactions()","goledger export asof=... since=..."])
p("C13","Running balances are the cumulative sums of the account",
 "Whenever the transactions of a book are read, after loading and after any operations, they are in date order and each posting's running balance equals the exact sum of all postings to the same account and currency up to and including it in that order. The last balance of an account is therefore its total.",
 IH,"All books, all operation sequences.",
 "Tests compare a few final postings and never balances after operations.",
 ["book/book_compact.go","book/book.go"],[("balance calculation","book/book_compact.go compact")],["Posting.GetBalance via Book.Transactions()"])
p("C14","Summary report totals equal the sum of what they contain",
 "In a summarised report every heading shows, for each period, exactly the sum of the converted amounts of all postings in that account and its sub-accounts (converted at that period's price, 1 if none), negated for accounts matching the credit expression. Every posting's own account and currency appears with its own sum (negated for credit), every period keeps its date, payee and note and shows the same set of rows (missing ones as zero), only the hidden account is left out, and headings exist for every account that has sub-accounts diverging below it or holds another currency.",
 ["inputs","configurations"],"All books, base currencies, dividers, credit and hidden settings, any number of periods and any depth.",
 "Seven hand-written accumulation cases cover one or two levels and two currencies.",
 ["book/book_accum.go","cmd/reports/report.go"],[("Accumulate","book/book_accum.go"),("empty account filling","book/book_accum.go addEmptyAccounts")],["Book.Accumulate result","goledger report --sum --type Json"])
p("C15","Summary report rows form a correctly nested, sorted tree",
 "In a summarised report every row's level is its number of enclosing headings and its shown name is the part of the account below the nearest one; each heading is directly followed by all rows below it before any other row. Siblings are ordered by decreasing converted value before the credit sign change (ties by account name; a heading's own amounts come first), whatever the size and sign of the values.",
 I,"All account trees, ties, values from 1e-9 to 1e15 and negative, any divider.",
 "One sort test with three accounts; ties and magnitudes beyond it are not sampled.",
 ["book/book_accum.go","book/posting.go","cmd/reports/text.go"],[("sort key","book/book_accum.go getSortOrder, getSortOrderString"),("levels","book/book_accum.go splitByStrings")],["Book.Accumulate result","goledger report --sum --type Text"])
p("C16","Price lookup is exact, interpolated, or the nearest known price",
 "The price of a unit in a currency on a date is the recorded one if there is one on that date, the linear interpolation by calendar days between the neighbouring ones if it lies between, and the first or last recorded one outside the range; if only the inverse pair is recorded it is the reciprocal, a unit priced in itself is 1, and with no usable price it is 1 and flagged as having none. The result is flagged accordingly (exact, inferred, out of range, none), does not depend on the order prices were added, and the sequential iterator gives the same answers for increasing dates.",
 I,"All price lists (any size, gaps, leap years), dates, and pairs.",
 "Two price tests look up a few dates in short lists.",
 ["book/price.go","book/date.go"],[("binary search and interpolation","book/price.go PriceList.GetPrice"),("iterator","book/price.go PriceIterator"),("inverse","book/price.go getPrice")],["Book.GetPrice","PriceList.GetPrice","PriceIterator.GetPrice"])
p("C17","Conversion values each posting at that date's price and keeps balance",
 "With --convert, report and register replace every posting amount by its exact product with the price of its currency in the base currency on its (period) date, 1 if there is none, all in the base currency; postings of an account that become equal in currency are summed. Without a base currency the command fails with an error instead of printing.",
 ["inputs","configurations"],"All books with any price coverage, periods and base currencies.",
 "No test converts a report.",
 ["cmd/reports/report.go","cmd/register/register.go","book/book.go","book/price.go"],[("MapAmount with GetPrice","cmd/reports/report.go, cmd/register/register.go")],["goledger report --convert --type Json","goledger register --convert --type JSON"])
p("C18","Register entries account for every matching posting exactly",
 "The register has, for every posting whose account matches, entries in book order that sum exactly to that posting; its counter-accounts are the other accounts with the same currency and opposite sign, joined in one entry or, with split, one entry each in proportion to their amounts. The balance is the running sum per currency over all entries, and the base amount is the entry's amount at the exchange rate recorded in the transaction if there is one, otherwise at the price of its currency in the base currency, with the base balance its running sum.",
 I,"All books (multi-currency transactions, many counter-accounts), account expressions and base currencies.",
 "No register test exists.",
 ["book/registry.go","book/transaction.go","book/price.go"],[("ExtractRegister","book/registry.go"),("InferRate","book/transaction.go")],["Book.ExtractRegister","goledger register --type JSON"])
p("C19","Register window, count and order options select the right entries",
 "Register --begin and --asof keep exactly the entries with begin <= date < asof with balances still counted from the start of the book, a positive count keeps the first and a negative count the last that many, and descending order shows the same entries reversed; Text, CSV and JSON all show the same entries. An unparseable date is an error, not an ignored option.",
 ["inputs","configurations"],"All books and all combinations of begin, asof, count, order, combined and type.",
 "No register test exists; combinations of options are unbounded.",
 ["cmd/register/register.go","cmd/register/show_register.go","book/registry.go"],[("FilterByDate","book/registry.go"),("count and order","cmd/register/show_register.go ShowReport")],["stdout of goledger register"])
p("C20","Import turns every added row into exactly one balanced transaction",
 "Each add() of an import script with a non-zero amount and ledger-syntax accounts produces exactly one transaction with the given date, payee and notes, the exact amount (string, integer or float, divided by denom) in the account and its negative in the counter-account, plus the second pair if given; the printed ledger text loads back to exactly those, whatever the precision, currency symbol, punctuation or line breaks in the fields. Invalid calls (no amount, non-finite amount, zero denominator, invalid date, half-given second pair) and script errors make the command fail without a crash and without output of transactions.",
 ["inputs","configurations"],"All CSV/JSON rows, amount types, delimiters and header settings.",
 "No import test exists.",
 ["script/starlark.go","script/convert.go","cmd/importer/import_op.go","cmd/importer/starlark.go","cmd/reports/ledger.go"],
 [("add()","script/starlark.go GetBuilderFunction"),("amount conversion","script/convert.go GetBigRat"),("ledger writer","cmd/reports/ledger.go")],["stdout and exit status of goledger import"])
p("C21","Import de-duplication drops exactly the known transactions",
 "With de-duplication on, an imported transaction is dropped exactly when the main ledger already has one with the same date and payee, and otherwise kept unchanged; with several input files a transaction is also dropped when an earlier file of the run produced the same date and payee, and the rest is written file by file in the given order, each in order of date. Appending the output to the ledger and importing the same file again therefore prints nothing, however many same-day duplicates the file has.",
 IH,"All pairs of main ledgers and import files, including repeated payees and interleaved dates.",
 "No test covers de-duplication; the merge walk depends on the relative order of both books.",
 ["book/book_dedup.go","cmd/importer/import_op.go","cmd/generate/generate.go"],[("merge walk","book/book_dedup.go RemoveDuplicatesOf")],["goledger import output over repeated imports","Book.RemoveDuplicatesOf"])
p("C22","Reclassification picks the usual counter-account of the closest payee",
 "With reclassify, a two-posting imported transaction on the reference account gets the counter-account most often used in the main ledger's two-posting transactions on that account for the most similar payee, if any payee is similar enough; ties are resolved by name so the result never varies. Everything else (amounts, dates, payees, other transactions, the main ledger) is unchanged.",
 I,"All main ledgers and imports, including ties in frequency and similarity.",
 "No test covers reclassification and the result depends on map iteration order.",
 ["book/book_reclassify.go","cmd/importer/import_op.go"],[("ReclassifyByAccount","book/book_reclassify.go")],["Book.ReclassifyByAccount","goledger import --reclassify"])
p("C23","Generation scripts see the exact book and only add what they say",
 "A generate script sees every transaction and posting of the ledger in order with its exact attributes (date, payee, notes, account, currency, amount and running balance as floats), and its since, asof and map calls behave like the operations of that name without changing what de-duplication compares against. Its output is exactly the added transactions not already in the ledger (same date and payee), in a form that loads back.",
 I,"All books and scripts that copy, filter or map them.",
 "No test runs a generate script.",
 ["script/book.go","script/book_op.go","script/starlark.go","cmd/generate/generate.go","cmd/generate/starlark.go"],[("book view","script/book.go"),("bound operations","script/book_op.go")],["goledger generate output"])
p("C24","Same command on same input always prints the same bytes",
 "Running the same goledger command (export, report, register, accts, ccy, import, generate, in any format) on the same files and configuration gives byte-identical standard output and the same exit status every time. The order of unrelated items in the ledger's price list or of equal rows never changes between runs.",
 ["inputs","schedules"],"All ledgers and commands, over the runtime's randomised map iteration order.",
 "A single run cannot show dependence on randomised map order; no command is tested.",
 ["cmd/export/ledger.go","cmd/export/beancount.go","cmd/currencies/currencies.go","book/book.go","book/book_reclassify.go"],[("sorted output","cmd/export, cmd/currencies"),("sorted postings","book/book_compact.go")],["stdout of repeated runs"])
p("C25","Copies and reports never change the original book",
 "Operations applied to a duplicate of a book leave the original's transactions, amounts, balances, prices and decimals exactly as they were, and the other way round. Reading a book (transactions, accounts, prices, register extraction, accumulated report) any number of times in any order changes neither the book nor the results of later or earlier reads.",
 IH,"All books and all interleavings of reads and operations on copies.",
 "No test duplicates a book or reads it twice.",
 ["book/book.go","book/book_accum.go","book/registry.go"],[("Duplicate","book/book.go"),("working copies in reports","book/book_accum.go")],["Book.Duplicate, Accumulate, ExtractRegister, Transactions"])
p("C26","Calendar arithmetic agrees with the Gregorian calendar",
 "For every valid date from year 1 to 9999, conversion to day numbers and back is the identity, differences and additions of days agree with the proleptic Gregorian calendar, and flooring to month, quarter or year with any positive or negative offset gives the first day of that calendar period. Text, year/month and quarter labels and time values name the same day.",
 I,"All 3.6 million valid dates, all offsets.",
 "The date test checks a few dates near 2000.",
 ["book/date.go"],[("AsDays/GetDateFromDays","book/date.go"),("FloorMonth/Quarter/Year","book/date.go")],["book.Date methods"])
p("C27","Date strings parse to the date they name or are rejected",
 "A date string in a supported form (year, year-month, year-month-day with -, / or . or no separator, day-month-year, this/last/next month, quarter or year) gives exactly that calendar date, missing parts being the first of the period. Any string that does not name a real calendar date is rejected as invalid and never yields an impossible date.",
 I,"All strings: all valid dates in all forms, and arbitrary other strings.",
 "No test parses date strings.",
 ["book/date.go","cmd/app/book_op.go","script/starlark.go"],[("DateFromString","book/date.go")],["book.DateFromString","goledger export asof=..."])
p("C28","The internal rate of return makes the cash flows worth zero",
 "For a series of dated cash flows with one outlay followed by receipts, the calculated annual rate makes the net present value zero to within the solver's tolerance, measuring time by actual calendar days. Shifting a flow by days within a month changes the rate accordingly.",
 I,"All conventional cash flow series over dates, sizes and rates between -90% and several hundred percent.",
 "One fixed IRR test with yearly flows.",
 ["book/irr.go","book/date.go"],[("Newton iteration","book/irr.go CalculateIRR"),("AsYears","book/date.go")],["book.CalculateIRR","book.Date.AsYears"])
p("C29","Text tables are aligned and show every cell",
 "Padding any string to a width gives exactly that visible width (escape sequences and unprintable characters not counted, never cut off inside an escape sequence), keeping the text's visible prefix on its justified side. Every line of a text table printed without a terminal has the same visible width, with every cell of every row shown in full under its column. On a terminal that is too narrow only the text columns of a register are cut, each to one width for all rows so that lines fit if they can; dates and numbers stay complete, and a table longer than the screen goes to the pager as a whole.",
 I,"All strings (escapes, control characters, multi-byte runes) and all tables.",
 "One print test with a few fixed strings.",
 ["cmd/app/print.go","cmd/reports/text.go","cmd/register/show_register.go"],[("PadString/Length","cmd/app/print.go"),("PrintColumns","cmd/app/print.go")],["app.PadString, app.Length","BookPrinter.PrintColumns","goledger report/register Text"])
p("C30","HTML reports are well formed and show ledger text literally",
 "The HTML report is well-formed (every element closed, properly nested, balanced for any sequence of indent levels), and payees and account names appear as literal text whatever characters they contain. It shows the same rows, in the same order and with the same amounts, as the JSON form of the same report. Its style sheet is the text, or the text of the file, that was given, or else a default one.",
 I,"All books and report options, payees with markup characters, any nesting shape.",
 "No HTML test exists.",
 ["cmd/reports/html.go"],[("indent boxes","cmd/reports/html.go"),("escaping","cmd/reports/html.go")],["goledger report --type HTML"])
p("C31","The account list is exactly the matching accounts with a balance",
 "accts lists, sorted and without repeats, exactly the accounts of the ledger that match the expression and whose balance is non-zero in at least one currency, or all matching ones with --all. The text and JSON forms list the same accounts, and register without --combined covers exactly these.",
 I,"All books with multi-currency accounts and all expressions.",
 "No test lists accounts.",
 ["book/book.go","cmd/accounts/accounts.go","cmd/register/register.go"],[("Accounts","book/book.go")],["goledger accts","goledger accts --json","Book.Accounts"])
p("C32","Bad arguments end in an error message, not a crash or partial report",
 "For any operation arguments, expressions, dates, report and register options, and scripts given on the command line (malformed operations, invalid regular expressions, recursive or unknown macros, empty results), goledger either completes with exit status 0 or prints an error and exits with status 1; it never crashes or hangs (unless a script itself never ends). When an operation is rejected no report is printed. Missing required options or files are refused.",
 ["inputs","configurations"],"All argument strings over all commands, on empty and non-empty ledgers.",
 "No test runs the command line.",
 ["cmd/app/book_op.go","book/book_utils.go","book/book.go","cmd/reports/report.go","cmd/register/register.go","cmd/accounts/accounts.go"],[("operation parser","cmd/app/book_op.go"),("errors through cobra","cmd/root.go, main.go")],["exit status, stdout, stderr of goledger"])
p("C33","Bank download never loses stored data and merges by id",
 "After a successful Monzo, Starling or Nordigen download, the state file holds every transaction it held before plus every one the bank returned over all pages and accounts, keyed by id with the newest data exactly as served (numbers of any size and precision and, for Monzo, the data of merchants included); repeating the download changes nothing. If any request for the data fails (error status, refused connection, truncated or malformed answer), the pages of the bank make no progress, or the state cannot be written, the command reports an error and the data in the state file is unchanged (a renewed login may be saved).",
 ["fault_sequences","histories"],"All sequences of downloads with growing, updated, paginated data and a fault at any request.",
 "No download test exists; faults at each request are not reachable by sampling the live API.",
 ["cmd/download/monzo.go","cmd/download/starling.go","cmd/download/nordigen.go","cmd/download/net.go"],[("merge by id","cmd/download/*.go"),("save at end","cmd/utils/json.go SaveToFile"),("status handling","cmd/download/net.go fetchFromURL")],["state file contents","requests seen by a stand-in transport"])
p("C34","Saving state is all-or-nothing and failures are reported",
 "Saving a state file (plain or .gz) either succeeds, and loading it gives equal data, or reports an error; a failure or crash at any point of the save leaves the previous file contents intact and loadable; contents are flushed to disk (fsync) before they take the place of the previous ones. Where the state file is a symbolic link, the file it points to is the one that is saved. Loading a missing file leaves the data empty without error; loading a damaged file reports an error.",
 ["crash_points","fault_sequences"],"Every write, close or rename of the save failing (disk full, size limit) or the process being killed there, for all data.",
 "No test saves state; faults at each system call are not reachable by unit tests.",
 ["cmd/utils/json.go"],[("write to temporary file and rename","cmd/utils/json.go SaveToFile"),("gzip by extension","cmd/utils/json.go LoadFromFile")],["state file bytes after injected faults","error result of the save"])
p("C35","Concurrent web requests do not affect one another",
 "Every web request gets exactly the output the same arguments give when run alone, whatever other requests run before or at the same time; options given in one request never leak into another. Concurrent requests involve no data race.",
 ["schedules","histories"],"All interleavings and histories of report, register, accts and ccy requests with any options.",
 "The web package is not even built by the tests; interleavings are unbounded.",
 ["cmd/web/web.go","cmd/app/app.go","cmd/app/print.go"],[("per-request copy of the configuration","cmd/web/web.go Execute"),("printer catalogue","cmd/app/print.go NewBookPrinter")],["responses of concurrent requests","Go race detector"])
p("C36","Configuration acts like the same flags and is never half applied",
 "A value in the configuration file has the same effect as the corresponding command-line flag, a flag given on the command line wins, and a file with an unknown key or invalid syntax is refused with an error. The configuration file written on first use is accepted unchanged by every later run.",
 ["configurations"],"All settings of app, report, register, export, import and generate sections, all file locations, and unknown keys.",
 "No test loads configuration.",
 ["cmd/config.go","cmd/root.go"],[("load","cmd/config.go"),("flag defaults from configuration","cmd/*/ Add")],["goledger with GOLEDGER_CONF / HOME"])
p("C37","Includes and aliases behave as if written in place, with local scope",
 "An include reads the file relative to the including file's directory at that point, as if its text stood there; aliases defined before the include apply inside it, while aliases defined inside it end with it. An alias replaces exactly the account names equal to it in later postings.",
 I,"All include trees, directories, quoting, and alias placements.",
 "No test covers includes or aliases.",
 ["loader/parser.go"],[("recursive parse with copied alias map","loader/parser.go parseFileLocal")],["loader.ParseFile event stream"])
p("C38","Displayed precision is enough for every loaded amount",
 "For every currency in a ledger, the number of decimals goledger reports for it is the smallest that represents every amount in that currency exactly, so no report of plain loaded amounts rounds a digit away. Text amounts are shown with that many decimals, the right sign and digits, grouped in the style of the selected language.",
 ["inputs","configurations"],"All sets of amounts (any mix of integers, quarters, eighths, cents, 18 decimals) and languages.",
 "No test checks the decimals of a loaded book.",
 ["book/builder.go","cmd/app/print.go","cmd/currencies/currencies.go"],[("decimal calculation","book/builder.go Build"),("FormatNumber","cmd/app/print.go")],["goledger ccy","Book.GetCCYDecimals","goledger report --type Text"])
p("C39","Macros and operation lists equal applying their operations in order",
 "Giving several operations applies them strictly left to right, and a macro, nested to any depth, gives exactly the same output as its operations written out in its place. If any operation of the list fails, the command fails and prints no report.",
 ["histories","configurations"],"All operation lists and macro definitions.",
 "No test applies operations.",
 ["cmd/app/book_op.go","cmd/config.go"],[("BookOps","cmd/app/book_op.go")],["stdout of goledger export with macros vs operations"])
p("C40","CSV and JSON import data reaches scripts with every value intact",
 "An import script sees the input file exactly: CSV rows in order as lists of strings (blanks before a field ignored unless the delimiter is blank), or as dictionaries keyed by the header, with the configured delimiter; JSON as the equivalent nested values with every key, element and string, numbers as the nearest float (whole ones beyond its precision exactly) and nulls omitted from dictionaries. Malformed input makes the command fail without output.",
 I,"All CSV and JSON documents.",
 "No test reads import data.",
 ["script/convert.go","cmd/importer/import.go","cmd/utils/cli_config.go"],[("CSV reader","script/convert.go GetReadCSV"),("JSON conversion","script/convert.go jsonToStarlark")],["values printed by a script in goledger import","script.ReadJSON, script.GetReadCSV"])
p("C41","A first login uses exactly what the user granted in that session",
 "A first Monzo login prints a link with the configured client, a return address on the configured port, and a fresh state value, and exchanges a code for a token only if the browser comes back with exactly one code and exactly that state; the token is then saved, everything else in the state file is kept, and the next download works without another login. A first Nordigen run asks only for the institution whose number the user entered, and saves it with the bank's requisition and prints its link. Anything else (foreign, missing or repeated values, a number not on the list, no input, a port in use, a failing bank) fails with a message, without a request for a token or requisition that the user didn't grant, and leaves the state file unchanged.",
 ["inputs","fault_sequences","histories"],"All answers of browser, user and bank in a first login.",
 "No test covers downloads or logins.",
 ["cmd/download/monzo.go","cmd/download/net.go","cmd/download/nordigen.go"],[("CaptureCode","cmd/download/net.go"),("NewMonzoClient","cmd/download/monzo.go"),("Init","cmd/download/nordigen.go")],["requests that reach the bank","the state file","exit status of goledger download"])
p("C42","The message about a refused ledger points at the fault",
 "When a ledger is refused because of the text of a line, the error names the file that line is in (also when it is included, at any depth) and the number of that line, with a column within it; when a file cannot be read or includes itself it names that file; when a transaction does not balance it names its date, payee, a currency that is off and by how much. The same text is on standard error of any command on that ledger.",
 I,"All texts, with includes, faults of any kind anywhere in a line or file.",
 "No test loads a faulty ledger.",
 ["loader/lexer.go","loader/parser.go","book/builder.go"],[("position","loader/lexer.go next, stop"),("wrapping of errors","loader/parser.go parseFileLocal"),("balance check","book/builder.go checkAndClearTransaction")],["error of loader.ParseFile","standard error of goledger"])
p("C43","A command that cannot read all input or write all output fails and says so",
 "If any part of the output of a command cannot be written (no space, an I/O error, at any byte or write), or any read or open of its ledgers, data, script or configuration fails, the command either still does exactly what it does undisturbed or exits with status 1 and an error message, and what it has written by then is only the beginning of its output (nothing, where an input failed). How input arrives (from a file, a pipe, standard input, in pieces of any size) makes no difference.",
 ["fault_sequences","inputs"],"All reports, registers, exports, imports and generations with a fault at any system call on their input or output.",
 "No test runs the command line; faults of system calls are not reachable by unit tests.",
 ["cmd/app/print.go","cmd/app/app.go","cmd/export/export.go","cmd/register/register.go","cmd/accounts/accounts.go","cmd/currencies/currencies.go","loader/lexer.go","cmd/importer/import.go"],[("first error of writing output","cmd/app/print.go output, cmd/app/app.go PersistentPostRunE"),("errors of reading","loader/lexer.go next")],["exit status, stdout, stderr of goledger under limits of file size, on a full device, under injected system call failures"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for d in P: jsonschema.validate(d,s)
print(len(P))
