package props

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"

	"github.com/antzucaro/matchr"

	"verif/harness/frame"
	"verif/harness/gen"
	"verif/harness/ref"
	"verif/harness/sut"
)

func init() {
	frame.Register(&frame.Check{
		ID: "C20", Quick: 8000, Thorough: 300000,
		Rule:      "one evaluation: a random import script (literal calls of add() or a comprehension over generated CSV or JSON) is run by the import command; its output is parsed, loaded and compared exactly with the reference; a third of the cases contain one invalid call or script error and must fail without transactions; non-trivial: at least one transaction or one refused script, distinct by script and data",
		Run:       importCheck,
		MinCounts: map[string]int{"refused scripts": 500, "transactions compared": 5000},
	})
	frame.Register(&frame.Check{
		ID: "C21", Quick: 6000, Thorough: 200000,
		Rule:      "one evaluation: a generated main ledger and one to eight CSV files many of whose rows equal known transactions in date and payee; the output with and without de-duplication is compared with the reference, then appended to the ledger and imported again, which must print nothing; non-trivial: a transaction was dropped and one kept, distinct by data",
		Run:       dedupCheck,
		MinCounts: map[string]int{"dropped": 2000, "kept": 2000},
	})
	frame.Register(&frame.Check{
		ID: "C22", Quick: 6000, Thorough: 200000,
		Rule:        "one evaluation: a generated main ledger with a history of similar payees and an imported file; counter-accounts are compared with the reference (most used counter-account, ties by name, of the payee with the greatest Jaro-Winkler similarity above a half, ties by name); non-trivial: a counter-account changed, distinct by data",
		Assumptions: []string{"payee similarity is matchr.JaroWinkler with long strings, above 0.5"},
		Run:         reclassifyCheck,
		MinCounts:   map[string]int{"reclassified": 2000, "ties of accounts": 50, "not similar": 50},
	})
	frame.Register(&frame.Check{
		ID: "C23", Quick: 6000, Thorough: 200000,
		Rule:      "one evaluation: a generated ledger, a script which prints all it sees (before and after random since, asof and map calls, by iteration and by index) and adds transactions, some of them known; what it saw and what is output are compared with the reference; non-trivial: at least two transactions seen, distinct by ledger and script",
		Run:       generateCheck,
		MinCounts: map[string]int{"postings seen": 10000, "dropped": 500, "kept": 500},
	})
	frame.Register(&frame.Check{
		ID: "C40", Quick: 8000, Thorough: 300000,
		Rule:      "one evaluation: random CSV (delimiter, quoting, header, line ends) or JSON (nesting, escapes, layout), or a damaged one; an import script prints the whole structure with the bytes of every string, which is compared with what was written; damaged input must fail; non-trivial: at least two values or a refused input, distinct by input",
		Run:       importDataCheck,
		MinCounts: map[string]int{"csv values": 10000, "json values": 10000, "damaged refused": 300},
	})
}

// string as Starlark literal
func starStr(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for _, x := range s {
		switch {
		case x == '"' || x == '\\':
			sb.WriteByte('\\')
			sb.WriteRune(x)
		case x == '\n':
			sb.WriteString("\\n")
		case x == '\r':
			sb.WriteString("\\r")
		case x < 32 || x == 127:
			fmt.Fprintf(&sb, "\\x%02x", x)
		default:
			sb.WriteRune(x)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

// text as it can be written in a ledger
func oneLine(s string) string {
	return strings.TrimSpace(strings.Map(func(x rune) rune {
		if x == '\n' || x == 0 {
			return ' '
		}
		return x
	}, s))
}

func onePayee(s string) string {
	s = oneLine(s)
	if strings.ContainsAny(s, ";") || strings.HasPrefix(s, "*") || strings.HasPrefix(s, "\"") {
		s = strings.ReplaceAll(s, "\"", "'")
	}
	return s
}

// one call of add()
type row struct {
	date                     int
	payee, note, lnote       string
	acct, cacct, ccy         string
	amt                      *big.Rat
	lit                      string // amount as Starlark
	denom                    int
	second                   bool
	acct2, ccy2, lit2        string
	amt2                     *big.Rat
	denom2                   int
	setAcct, setCacct, isCCY bool
}

// transactions added by rows, as the book has them before normalising
func rowsBook(rows []row) *ref.Book {
	b := &ref.Book{}
	used := map[string]bool{}
	for _, w := range rows {
		p := onePayee(w.payee)
		n := p
		for i := 2; used[fmt.Sprintf("%d %s", w.date, n)]; i++ {
			n = fmt.Sprintf("(%d)", i)
			if p != "" {
				n = p + " " + n
			}
		}
		used[fmt.Sprintf("%d %s", w.date, n)] = true
		t := ref.Tx{Date: w.date, Payee: n, Notes: []string{oneLine(w.note)}}
		t.Posts = append(t.Posts, ref.Post{Acct: w.acct, CCY: w.ccy, Amt: w.amt, Notes: []string{oneLine(w.lnote)}},
			ref.Post{Acct: w.cacct, CCY: w.ccy, Amt: new(big.Rat).Neg(w.amt), Notes: []string{""}})
		if w.second {
			t.Posts = append(t.Posts, ref.Post{Acct: w.acct2, CCY: w.ccy2, Amt: w.amt2, Notes: []string{""}},
				ref.Post{Acct: w.cacct, CCY: w.ccy2, Amt: new(big.Rat).Neg(w.amt2), Notes: []string{""}})
		}
		b.Txs = append(b.Txs, t)
	}
	return b
}

var importTexts = []string{"line\nbreak", " spaces around ", "cr\rin it", "a \"b\" c", "\"quoted\"", "*star \"x\"", "semi;\"colon\"", "tab\tname", "\n\n", "trailing\n",
	"nul\x00byte", "x ; y", "emoji 🍕", "e\u0301", "\u00a0nbsp\u00a0", "; comment", "*", "\"", "include x", "%s%d", "2020/01/01 * x", "a  ;b", "|"}

var importCCYs = []string{"£", "$", "USD", "EUR", "US$", "VTI 500", "A-B", "3M", "x;y", "a.b", "@x", "Fund,A", " pad ", "=", "B100", "'", "\\", "#", "é"}

// an amount with its Starlark form
func amountLit(r *rand.Rand, zero bool) (string, *big.Rat) {
	v := gen.Amount(r, nil)
	if zero && r.Intn(20) == 0 {
		v = new(big.Rat)
	}
	s := gen.Exact2(v)
	digits := 0
	for _, x := range strings.TrimLeft(s, "-0.") {
		if x != '.' {
			digits++
		}
	}
	switch k := r.Intn(10); {
	case k < 2 && v.IsInt():
		return v.Num().String(), v
	case k < 5 && r.Intn(12) == 0: // whole, as large as floats are exact
		n := 1 + r.Int63n(1<<53)>>r.Intn(30)
		if r.Intn(2) == 0 {
			n = -n
		}
		return fmt.Sprintf("%d.0", n), big.NewRat(n, 1)
	case k < 5 && digits <= 15:
		if !strings.ContainsAny(s, ".") {
			s += ".0"
		}
		return s, v
	case k == 5 && digits <= 15:
		f, _ := v.Float64()
		return "float(" + starStr(strconv.FormatFloat(f, 'e', -1, 64)) + ")", v
	case k == 6:
		e := r.Intn(5)
		n, _ := new(big.Rat).SetString("1e" + fmt.Sprint(e))
		return starStr(gen.Exact2(v) + fmt.Sprintf("e%d", e)), new(big.Rat).Mul(v, n)
	case k == 7:
		return starStr(v.RatString()), v // a fraction
	}
	if v.Sign() > 0 && r.Intn(6) == 0 {
		s = "+" + s
	}
	return starStr(s), v
}

func randomRow(r *rand.Rand, accts, payees []string, dates []int, o rowOpts) row {
	w := row{date: dates[r.Intn(len(dates))], payee: gen.Pick(r, payees), acct: o.acct, cacct: o.cacct, ccy: o.ccy, denom: 1, denom2: 1}
	if r.Intn(3) == 0 {
		w.note = gen.Pick(r, importTexts)
	}
	if r.Intn(3) == 0 {
		w.lnote = gen.Pick(r, importTexts)
	}
	other := func(not string) string {
		for {
			if a := gen.Pick(r, accts); a != not {
				return a
			}
		}
	}
	if r.Intn(4) == 0 {
		w.acct, w.setAcct = other(w.cacct), true
	}
	if r.Intn(4) == 0 {
		w.cacct, w.setCacct = other(w.acct), true
	}
	if r.Intn(3) == 0 {
		w.ccy, w.isCCY = gen.Pick(r, importCCYs), true
	}
	w.lit, w.amt = amountLit(r, false)
	if r.Intn(4) == 0 {
		w.denom = []int{100, 10, 1000, -1, -100, 2, 8, 1000000, 125}[r.Intn(9)]
		w.amt = new(big.Rat).Quo(w.amt, big.NewRat(int64(w.denom), 1))
	}
	if r.Intn(5) == 0 {
		w.second = true
		w.acct2 = other(w.cacct)
		w.ccy2 = o.ccy
		if r.Intn(2) == 0 {
			w.ccy2 = gen.Pick(r, importCCYs)
		}
		w.lit2, w.amt2 = amountLit(r, false)
		if r.Intn(3) == 0 {
			w.denom2 = []int{100, -10, 4}[r.Intn(3)]
			w.amt2 = new(big.Rat).Quo(w.amt2, big.NewRat(int64(w.denom2), 1))
		}
		if w.acct2 == w.acct && w.ccy2 == w.ccy && new(big.Rat).Add(w.amt, w.amt2).Sign() == 0 {
			w.second = false
		}
	}
	return w
}

type rowOpts struct{ acct, cacct, ccy string }

// the call; o are the defaults
func (w row) call(r *rand.Rand, o rowOpts) string {
	d := fmt.Sprintf("%04d-%02d-%02d", w.date/10000, w.date/100%100, w.date%100)
	if r.Intn(2) == 0 {
		d = ref.DateString(w.date)
	}
	args := []string{starStr(d), starStr(w.payee), w.lit}
	if r.Intn(2) == 0 {
		args = []string{"date=" + starStr(d), "desc=" + starStr(w.payee), "amt=" + w.lit}
	}
	var kw []string
	if w.isCCY {
		kw = append(kw, "ccy="+starStr(w.ccy))
	}
	if w.denom != 1 || r.Intn(10) == 0 {
		kw = append(kw, fmt.Sprintf("denom=%d", w.denom))
	}
	if w.setAcct {
		kw = append(kw, "account="+starStr(w.acct))
	}
	if w.setCacct {
		kw = append(kw, "caccount="+starStr(w.cacct))
	}
	if w.note != "" {
		kw = append(kw, "note="+starStr(w.note))
	}
	if w.lnote != "" {
		kw = append(kw, "lnote="+starStr(w.lnote))
	}
	if w.second {
		kw = append(kw, "amt2="+w.lit2, "account2="+starStr(w.acct2))
		if w.ccy2 != o.ccy || r.Intn(2) == 0 {
			kw = append(kw, "ccy2="+starStr(w.ccy2))
		}
		if w.denom2 != 1 {
			kw = append(kw, fmt.Sprintf("denom2=%d", w.denom2))
		}
	}
	r.Shuffle(len(kw), func(i, j int) { kw[i], kw[j] = kw[j], kw[i] })
	return "add(" + strings.Join(append(args, kw...), ", ") + ")"
}

// compare printed ledger text with transactions, by reading and by loading it
func checkPrinted(c *frame.Case, what, out string, want *ref.Book) {
	txs, prices, err := parseLedgerOut(out)
	if err != nil {
		c.Fail("%s: output isn't ledger text: %v\n%s", what, err, out)
	}
	if len(prices) != 0 {
		c.Fail("%s: prices in the output\n%s", what, out)
	}
	if d := diffTxs(txs, want); d != "" {
		c.Fail("%s: output differs: %s\n%s", what, d, out)
	}
	f := c.Write("printed.ledger", out)
	b, err := sut.Load(f)
	if err != nil {
		c.Fail("%s: output doesn't load: %v\n%s", what, err, out)
	}
	if d := diffTxs(sut.Snapshot(b), want); d != "" {
		c.Fail("%s: output loads as something else: %s\n%s", what, d, out)
	}
	c.Count("transactions compared", len(txs))
}

func runImport(c *frame.Case, main string, args ...string) (string, error) {
	out, _, err := runImportFile(c, main, args...)
	return out, err
}

// runImportFile gives the last file on standard input at times; returns how it was called
func runImportFile(c *frame.Case, main string, args ...string) (string, string, error) {
	args = append([]string(nil), args...)
	last := &args[len(args)-1]
	if c.R.Intn(6) == 0 {
		if f, err := os.Open(*last); err == nil {
			defer f.Close()
			old := os.Stdin
			os.Stdin = f
			defer func() { os.Stdin = old }()
			*last = "-"
			c.Count("standard input", 1)
		}
	}
	c.Artefact("arguments", fmt.Sprintf("%q", args))
	out, err := sut.ExecPrint(c.Scratch(".stdout"), main, args...)
	c.Artefact("output", out)
	return out, *last, err
}

func hasTransactions(out string) bool {
	for _, l := range strings.Split(out, "\n") {
		if l != "" && !strings.HasPrefix(l, ";") && !strings.HasPrefix(l, "Error") && !strings.HasPrefix(l, "Usage") {
			return true
		}
	}
	return false
}

func importCheck(c *frame.Case) {
	r := c.R
	accts := gen.Sub(r, gen.AllAccts, 4+r.Intn(8))
	payees := append(gen.Sub(r, gen.AllPayees, 2+r.Intn(6)), gen.Sub(r, importTexts, r.Intn(5))...)
	dates := gen.Dates(r, [2]int{2015, 2022}, 1+r.Intn(5))
	if r.Intn(10) == 0 {
		dates = gen.Dates(r, [2]int{1, 9998}, 1+r.Intn(5))
	}
	o := rowOpts{accts[0], accts[1], gen.Pick(r, importCCYs)}

	// main ledger: empty or something with its own decimals
	main := c.Write("main.ledger", "")
	if r.Intn(2) == 0 {
		l := gen.New(r, gen.Options{Txs: 1 + r.Intn(6), CCYs: gen.Sub(r, importCCYs, 2), Years: [2]int{2023, 2024}})
		main = writeLedger(c, l)
	}
	n := 1 + r.Intn(8)
	var rows []row
	for i := 0; i < n; i++ {
		rows = append(rows, randomRow(r, accts, payees, dates, o))
	}
	args := []string{"import", "-a", o.acct, "--cacct", o.cacct, "--ccy", o.ccy, "--reclassify=false"}
	if r.Intn(2) == 0 {
		args = append(args, "--dedup=false")
	}
	if r.Intn(3) == 0 {
		args = append(args, "--lang", gen.Pick(r, langs))
	}

	var code, data, format string
	var calls []string
	if r.Intn(3) > 0 { // literal calls
		format = []string{"csv", "json"}[r.Intn(2)]
		data = "[]"
		for _, w := range rows {
			calls = append(calls, w.call(r, o))
		}
	} else {
		format, data, code = dataScript(r, rows)
	}

	// one mistake
	bad := ""
	if r.Intn(3) == 0 {
		if calls == nil {
			calls = []string{code}
		}
		bad = badCall(r)
		i := r.Intn(len(calls) + 1)
		calls = append(calls[:i:i], append([]string{bad}, calls[i:]...)...)
	}
	if calls != nil {
		if r.Intn(4) == 0 {
			i := r.Intn(len(calls) + 1)
			calls = append(calls[:i:i], append([]string{"print(" + starStr(gen.Pick(r, []string{"hello", "two\nlines", "2020/01/01 x\n A 1$\n", ""})) + ")"}, calls[i:]...)...)
		}
		code = strings.Join(calls, "\n") + "\n"
	}
	c.Artefact("code", code)
	c.Artefact("data", data)
	file := c.Write("data", data)
	arg := code
	if r.Intn(2) == 0 {
		arg = "file:" + c.Write("code.star", code)
	}
	args = append(args, "--format", format, "--code", arg, file)
	out, err := runImport(c, main, args...)
	if bad != "" {
		if err == nil {
			c.Fail("%s is accepted\n%s", bad, out)
		}
		if hasTransactions(out) {
			c.Fail("the script fails (%v) with output:\n%s", err, out)
		}
		c.Count("refused scripts", 1)
		c.Nontrivial(code, data)
	} else {
		if err != nil {
			c.Fail("import fails: %v\n%s", err, code)
		}
		want := rowsBook(rows)
		checkPrinted(c, "import", out, want.Normalise())
		if len(want.Normalise().Txs) != len(rows) {
			frame.Broken("%d rows make %d transactions", len(rows), len(want.Normalise().Txs))
		}
		c.Nontrivial(code, data)
		c.Sample("%s", cutText(code, 300))
	}
	if c.Index%40 == 0 {
		res := sut.CLI(c.Bin, c.Dir, nil, append(args, "-l", main)...)
		if res.Crashed() || res.Timeout || (res.Exit == 0) != (bad == "") || bad == "" && res.Stdout != out || bad != "" && hasTransactions(res.Stdout) {
			c.Fail("the command with %q: %s\nexpected\n%s", args, res, out)
		}
		c.Count("command runs", 1)
	}
}

// rows as data for a comprehension
func dataScript(r *rand.Rand, rows []row) (format, data, code string) {
	for i := range rows { // all columns given
		if !rows[i].second {
			rows[i].denom2 = 1
		}
	}
	asText := func(w row) []string {
		amt := gen.Exact2(new(big.Rat).Mul(w.amt, big.NewRat(int64(w.denom), 1)))
		return []string{ref.DateString(w.date), w.payee, amt, w.ccy, fmt.Sprint(w.denom), w.acct, w.cacct, w.note, w.lnote}
	}
	names := []string{"date", "desc", "amt", "ccy", "denom", "account", "caccount", "note", "lnote"}
	for i := range rows {
		rows[i].second = false
	}
	if r.Intn(2) == 0 {
		// CSV: blanks before fields are not part of them, nor are \r before \n
		var sb strings.Builder
		for i := range rows {
			w := &rows[i]
			for _, p := range []*string{&w.payee, &w.note, &w.lnote} {
				*p = strings.ReplaceAll(strings.TrimSpace(*p), "\r\n", "\n")
			}
		}
		header := r.Intn(2) == 0
		if header {
			sb.WriteString(strings.Join(names, ",") + "\n")
		}
		for _, w := range rows {
			for j, f := range asText(w) {
				if j > 0 {
					sb.WriteByte(',')
				}
				if j == 3 || strings.ContainsAny(f, ",\"\n\r") || f != strings.TrimSpace(f) || r.Intn(4) == 0 {
					f = "\"" + strings.ReplaceAll(f, "\"", "\"\"") + "\""
				}
				sb.WriteString(f)
			}
			sb.WriteString("\n")
		}
		format = "csv"
		if header {
			format = "csv:header=true"
			code = "[add(date=r['date'], desc=r['desc'], amt=r['amt'], ccy=r['ccy'], denom=int(r['denom']), account=r['account'], caccount=r['caccount'], note=r['note'], lnote=r['lnote']) for r in data]"
		} else {
			code = "[add(r[0], r[1], r[2], ccy=r[3], denom=int(r[4]), account=r[5], caccount=r[6], note=r[7], lnote=r[8]) for r in data]"
		}
		return format, sb.String(), code
	}
	var l []map[string]interface{}
	for _, w := range rows {
		m := map[string]interface{}{}
		for j, f := range asText(w) {
			m[names[j]] = f
		}
		m["denom"] = w.denom
		l = append(l, m)
	}
	b, _ := json.Marshal(map[string]interface{}{"records": l})
	return "json", string(b), "[add(date=r['date'], desc=r['desc'], amt=r['amt'], ccy=r['ccy'], denom=int(r['denom']), account=r['account'], caccount=r['caccount'], note=r['note'], lnote=r['lnote']) for r in data['records']]"
}

func badCall(r *rand.Rand) string {
	l := []string{
		`add("2020/01/01", "bad", None)`,
		`add("2020/01/01", "bad", amt=float("nan"))`,
		`add("2020/01/01", "bad", amt=float("inf"))`,
		`add("2020/01/01", "bad", amt=float("-inf"))`,
		`add("2020/01/01", "bad", amt=1.5, denom=0)`,
		`add("2020/01/01", "bad", 1, amt2=1, account2="A:B", denom2=0)`,
		`add("2020/01/01", "bad", 1, amt2=1)`,
		`add("2020/01/01", "bad", 1, account2="A:B")`,
		`add("2020/01/01", "bad", 1, amt2=float("nan"), account2="A:B")`,
		`add("2020/01/01", "bad", 1, amt2="x", account2="A:B")`,
		`add("2020/02/30", "bad", 1)`,
		`add("2020/13/01", "bad", 1)`,
		`add("2020/00/01", "bad", 1)`,
		`add("2019-02-29", "bad", 1)`,
		`add("", "bad", 1)`,
		`add("yesterday", "bad", 1)`,
		`add("20", "bad", 1)`,
		`add("01/02/2020 12:00", "bad", 1)`,
		`add(20200101, "bad", 1)`,
		`add(None, "bad", 1)`,
		`add("2020/01/01", None, 1)`,
		`add("2020/01/01", "bad")`,
		`add("2020/01/01")`,
		`add()`,
		`add("2020/01/01", "bad", "")`,
		`add("2020/01/01", "bad", "1,5")`,
		`add("2020/01/01", "bad", "one")`,
		`add("2020/01/01", "bad", "1/0")`,
		`add("2020/01/01", "bad", "1 USD")`,
		`add("2020/01/01", "bad", True)`,
		`add("2020/01/01", "bad", [1])`,
		`add("2020/01/01", "bad", {"a": 1})`,
		`add("2020/01/01", "bad", 1, ccy="")`,
		`add("2020/01/01", "bad", 1, ccy=None)`,
		`add("2020/01/01", "bad", 1, amt2=1, account2="A", ccy2="")`,
		`add("2020/01/01", "bad", 1, ccy="a\"b")`,
		`add("2020/01/01", "bad", 1, ccy="a\nb")`,
		`add("2020/01/01", "bad", 1, denom=1.5)`,
		`add("2020/01/01", "bad", 1, denom="100")`,
		`add("2020/01/01", "bad", 1, unknown=3)`,
		`add("2020/01/01", "bad", 1, amt=2)`,
		`error(msg="stop")`, `error("stop\nnow")`, `error()`,
		`fail("stop")`,
		`[][0]`, `{}["x"]`, `1 // 0`, `nosuch`, `data.nosuch`, `"a" + 1`, `(`, `def f(`, `load("x", "y")`,
		"def f(n):\n  return f(n + 1) + 1\nf(1)\n",
	}
	return l[r.Intn(len(l))]
}

// --- de-duplication

func csvField(s string) string { return "\"" + strings.ReplaceAll(s, "\"", "\"\"") + "\"" }

// simple two-posting rows
func simpleRows(r *rand.Rand, n int, dates []int, payees, accts []string, ccys []string) []row {
	var rows []row
	for i := 0; i < n; i++ {
		a := gen.Sub(r, accts, 2)
		v := gen.Amount(r, &gen.Options{SmallAmt: true})
		rows = append(rows, row{date: dates[r.Intn(len(dates))], payee: gen.Pick(r, payees), acct: a[0], cacct: a[1], ccy: gen.Pick(r, ccys), amt: v})
	}
	return rows
}

func rowsCSV(rows []row) string {
	var sb strings.Builder
	for _, w := range rows {
		a2, n2, c2 := "", "", ""
		if w.second {
			a2, n2, c2 = gen.Exact2(w.amt2), w.acct2, w.ccy2
		}
		fmt.Fprintf(&sb, "%s,%s,%s,%s,%s,%s,%s,%s,%s\n", ref.DateString(w.date), csvField(w.payee), gen.Exact2(w.amt), csvField(w.ccy), csvField(w.acct), csvField(w.cacct),
			a2, csvField(n2), csvField(c2))
	}
	return sb.String()
}

const rowsCode = "[add(r[0], r[1], r[2], ccy=r[3], account=r[4], caccount=r[5], amt2=r[6], account2=r[7], ccy2=r[8]) if len(r) > 6 and r[6] else add(r[0], r[1], r[2], ccy=r[3], account=r[4], caccount=r[5]) for r in data]"

// rows as ledger text
func rowsLedger(rows []row) string {
	var sb strings.Builder
	for _, w := range rows {
		p := w.payee
		if strings.Contains(p, ";") || strings.HasPrefix(p, "*") {
			p = "\"" + p + "\""
		}
		v := gen.Exact2(w.amt)
		fmt.Fprintf(&sb, "%s %s\n  %s  \"%s\" %s\n  %s  \"%s\" %s\n", ref.DateString(w.date), p, w.acct, w.ccy, v, w.cacct, w.ccy, gen.Exact2(new(big.Rat).Neg(w.amt)))
		if w.second {
			fmt.Fprintf(&sb, "  %s  \"%s\" %s\n  %s  \"%s\" %s\n", w.acct2, w.ccy2, gen.Exact2(w.amt2), w.cacct, w.ccy2, gen.Exact2(new(big.Rat).Neg(w.amt2)))
		}
		sb.WriteByte('\n')
	}
	return sb.String()
}

func dedupKey(t ref.Tx) string { return fmt.Sprintf("%d %s", t.Date, t.Payee) }

var dedupPayees = []string{"Shop", "Shop (2)", "Shop (3)", "Shop (2) (2)", "", "(2)", "a", "b", "Shop 2", "shop", "SHOP", "Zoo", "é", "*x", "a;b", "Employer", "Shop ", "Sho", "Shops", "10", "2", "A very long payee name which goes on"}

func dedupCheck(c *frame.Case) {
	r := c.R
	accts := gen.Sub(r, gen.AllAccts, 4)
	ccys := gen.Sub(r, importCCYs, 2)
	payees := gen.Sub(r, dedupPayees, 2+r.Intn(6))
	dates := gen.Dates(r, [2]int{2020, 2021}, 1+r.Intn(5))
	known0 := r.Intn(12)
	if r.Intn(40) == 0 { // hundreds, few of them imported
		known0 = 60 + r.Intn(400)
		if r.Intn(2) == 0 {
			dates = dates[:1+r.Intn(len(dates))]
		}
		payees = append(payees, gen.AllPayees...)
		c.Count("hundreds of known transactions", 1)
	}
	second := func(rows []row) []row {
		for i := range rows {
			if r.Intn(6) == 0 {
				w := &rows[i]
				w.second, w.acct2, w.ccy2, w.amt2 = true, w.acct, gen.Pick(r, ccys), w.amt
				if r.Intn(2) == 0 {
					for w.acct2 = w.cacct; w.acct2 == w.cacct; {
						w.acct2 = gen.Pick(r, accts)
					}
				}
			}
		}
		return rows
	}
	mainRows := second(simpleRows(r, known0, dates, payees, accts, ccys))
	mainText := rowsLedger(mainRows)
	main := c.Write("main.ledger", mainText)
	c.Artefact("ledger", mainText)
	var files []string
	var all [][]row
	nfiles := 1 + r.Intn(3)
	if r.Intn(4) == 0 {
		nfiles = 4 + r.Intn(5)
		c.Count("imports of many files", 1)
	}
	for i := nfiles; i > 0; i-- {
		rows := second(simpleRows(r, 1+r.Intn(10), dates, payees, accts, ccys))
		for j := range rows { // exactly the known ones
			if len(mainRows) > 0 && r.Intn(3) == 0 {
				rows[j] = mainRows[r.Intn(len(mainRows))]
			}
		}
		if len(all) > 0 && r.Intn(3) == 0 {
			rows = append(rows, gen.Pick(r, all)...)
		}
		if r.Intn(3) == 0 {
			sort.SliceStable(rows, func(i, j int) bool { return rows[i].date > rows[j].date })
		}
		all = append(all, rows)
		files = append(files, c.Write(fmt.Sprintf("data%d.csv", i), rowsCSV(rows)))
		c.Artefact(fmt.Sprintf("data%d.csv", i), rowsCSV(rows))
	}
	dedup := r.Intn(5) > 0
	known := map[string]bool{}
	mb, err := ref.Parse(main)
	if err != nil {
		frame.Broken("generated ledger: %v", err)
	}
	for _, t := range mb.Normalise().Txs {
		if dedup {
			known[dedupKey(t)] = true
		}
	}
	var want []*ref.Book // of each file
	dropped, kept := 0, 0
	for _, rows := range all {
		b := rowsBook(rows).Normalise()
		w := &ref.Book{}
		want = append(want, w)
		for _, t := range b.Txs {
			if known[dedupKey(t)] {
				dropped++
			} else {
				w.Txs = append(w.Txs, t)
				kept++
			}
		}
		for _, t := range b.Txs {
			known[dedupKey(t)] = true
		}
	}
	args := []string{"import", "-a", accts[0], "-c", accts[1], "--ccy", "USD", "--reclassify=false", "--format", "csv", "--code", rowsCode}
	if !dedup {
		args = append(args, "--dedup=false")
	} else if r.Intn(2) == 0 {
		args = append(args, "-d")
	}
	args = append(args, files...)
	out, err := runImport(c, main, args...)
	if err != nil {
		c.Fail("import fails: %v", err)
	}
	checkFiles(c, out, want)
	c.Count("dropped", dropped)
	c.Count("kept", kept)
	if dedup {
		// append and import again
		c.Write("main.ledger", mainText+"\n"+out)
		again, err := runImport(c, main, args...)
		if err != nil || hasTransactions(again) {
			c.Fail("importing again after appending the output gives (%v):\n%s", err, again)
		}
		// file by file too
		for _, f := range files {
			one := append(append([]string{}, args[:len(args)-len(files)]...), f)
			again, err := runImport(c, main, one...)
			if err != nil || hasTransactions(again) {
				c.Fail("importing %s again after appending the output gives (%v):\n%s", f, err, again)
			}
		}
		c.Count("repeated imports", 1+len(files))
	}
	if dropped > 0 && kept > 0 {
		c.Nontrivial(mainText, fmt.Sprint(all), dedup)
		c.Sample("%d dropped, %d kept, files %d, dedup %v", dropped, kept, len(files), dedup)
	}
}

// several files' output is in order of file, each in order of date
func checkFiles(c *frame.Case, out string, want []*ref.Book) {
	txs, _, err := parseLedgerOut(out)
	if err != nil {
		c.Fail("output isn't ledger text: %v\n%s", err, out)
	}
	n := 0
	for _, w := range want {
		n += len(w.Txs)
	}
	if len(txs) != n {
		c.Fail("output has %d transactions, not %d\n%s", len(txs), n, out)
	}
	c.Count("transactions compared", n)
	for i, w := range want {
		part := txs[:len(w.Txs)]
		txs = txs[len(w.Txs):]
		if !sort.SliceIsSorted(part, func(i, j int) bool { return part[i].Date < part[j].Date }) {
			c.Fail("output of file %d is not in order of date\n%s", i+1, out)
		}
		if d := diffTxs(part, w.Normalise()); d != "" {
			c.Fail("output of file %d differs: %s\n%s", i+1, d, out)
		}
	}
}

// --- reclassification

var similarPayees = []string{"Grocer", "Grocer Ltd", "Grocers", "Grocery Store", "GROCER", "Green Grocer", "Coffee Shop", "Coffee Shack", "Coffee", "Cofee Shop", "Shop", "Shop Coffee",
	"Landlord", "Landlord rent January", "Landlord rent February", "Landlord rent", "Rent", "xyz", "qqq", "Q", "", "1234567", "1234568", "1234-567", "AB", "BA", "ABC", "Zoë's Café", "Zoe's Cafe"}

func reclassify(main, b *ref.Book, acct string) (*ref.Book, int, int, int) {
	use := map[string]map[string]int{}
	counter := func(t ref.Tx) int {
		if len(t.Posts) != 2 {
			return -1
		}
		if t.Posts[0].Acct == acct {
			if t.Posts[1].Acct == acct {
				return -2 // which one is open
			}
			return 1
		}
		if t.Posts[1].Acct == acct {
			return 0
		}
		return -1
	}
	for _, t := range main.Txs {
		i := counter(t)
		if i == -2 {
			i = 1
		}
		if i < 0 {
			continue
		}
		if use[t.Payee] == nil {
			use[t.Payee] = map[string]int{}
		}
		use[t.Payee][t.Posts[i].Acct]++
	}
	var payees []string
	usual := map[string]string{}
	ties := 0
	for p, m := range use {
		payees = append(payees, p)
		var as []string
		for a := range m {
			as = append(as, a)
		}
		sort.Strings(as)
		best := as[0]
		for _, a := range as[1:] {
			if m[a] > m[best] {
				best = a
			} else if m[a] == m[best] {
				ties++
			}
		}
		usual[p] = best
	}
	sort.Strings(payees)
	out := &ref.Book{}
	changed, none := 0, 0
	for _, t := range b.Txs {
		i := counter(t)
		if i >= 0 {
			best, score := "", 0.0
			for _, p := range payees {
				if s := matchr.JaroWinkler(t.Payee, p, true); s > 0.5 && s > score {
					best, score = p, s
				}
			}
			if score > 0 {
				ps := append([]ref.Post(nil), t.Posts...)
				if ps[i].Acct != usual[best] {
					changed++
				}
				ps[i].Acct = usual[best]
				t.Posts = ps
			} else {
				none++
			}
		}
		out.Txs = append(out.Txs, t)
	}
	return out, changed, ties, none
}

func reclassifyCheck(c *frame.Case) {
	r := c.R
	accts := gen.Sub(r, gen.AllAccts, 5+r.Intn(4))
	ref0 := accts[0]
	ccys := gen.Sub(r, []string{"£", "$", "USD"}, 1+r.Intn(2))
	payees := gen.Sub(r, similarPayees, 3+r.Intn(8))
	dates := gen.Dates(r, [2]int{2019, 2020}, 1+r.Intn(20))
	idates := gen.Dates(r, [2]int{2021, 2021}, 1+r.Intn(6))

	// history
	hist := r.Intn(25)
	if r.Intn(6) == 0 { // years of the same few payees
		payees = payees[:1+r.Intn(2)]
		dates = gen.Dates(r, [2]int{2005, 2020}, 30+r.Intn(200))
		accts = accts[:3+r.Intn(2)]
		hist = 10 + r.Intn(300)
		c.Count("long histories", 1)
	}
	mrows := simpleRows(r, hist, dates, payees, accts, ccys)
	for i := range mrows {
		switch r.Intn(4) {
		case 0, 1:
			mrows[i].acct = ref0
		case 2:
			mrows[i].cacct = ref0
		}
		for mrows[i].acct == mrows[i].cacct {
			mrows[i].acct, mrows[i].cacct = ref0, accts[1+r.Intn(len(accts)-1)]
		}
	}
	mainText := rowsLedger(mrows)
	for i := r.Intn(4); i > 0; i-- { // transactions that don't count
		mainText += fmt.Sprintf("2018/0%d/01 %s\n  %s  $10\n  %s  $-7\n  %s  $-3\n\n", 1+i, gen.Pick(r, []string{"Grocer", "Landlord", "Shop"}), ref0, accts[1], accts[2])
	}
	main := c.Write("main.ledger", mainText)
	c.Artefact("ledger", mainText)
	mb, err := ref.Parse(main)
	if err != nil {
		frame.Broken("generated ledger: %v\n%s", err, mainText)
	}

	// imported
	extra := gen.Sub(r, append([]string{"zzzzzz", "0", "&&&", "grocer ltd", "Landlord rent March", "Coffe", "1234569"}, similarPayees...), 4)
	rows := simpleRows(r, 1+r.Intn(10), idates, append(extra, payees...), accts, ccys)
	for i := range rows {
		if r.Intn(3) > 0 {
			rows[i].acct = ref0
		} else if r.Intn(2) == 0 {
			rows[i].cacct = ref0
		}
		for rows[i].acct == rows[i].cacct {
			rows[i].cacct = accts[1+r.Intn(len(accts)-1)]
		}
	}
	b := rowsBook(rows).Normalise()
	want, changed, ties, none := reclassify(mb.Normalise(), b, ref0)
	file := c.Write("data.csv", rowsCSV(rows))
	c.Artefact("data.csv", rowsCSV(rows))
	args := []string{"import", "-a", ref0, "-c", accts[1], "--ccy", "USD", "--format", "csv", "--code", rowsCode}
	on := r.Intn(5) > 0
	switch {
	case !on:
		args = append(args, []string{"-r=false", "--reclassify=false"}[r.Intn(2)])
		want = b
	case r.Intn(2) == 0:
		args = append(args, "-r")
	}
	args = append(args, file)
	before := sut.Dump(load(c, main))
	out, err := runImport(c, main, args...)
	if err != nil {
		c.Fail("import fails: %v", err)
	}
	checkPrinted(c, "import", out, want)
	if sut.Dump(load(c, main)) != before {
		c.Fail("the ledger changed")
	}
	if on {
		c.Count("reclassified", changed)
		c.Count("ties of accounts", ties)
		c.Count("not similar", none)
		if changed > 0 {
			c.Nontrivial(mainText, fmt.Sprint(rows))
			c.Sample("%d of %d reclassified, history of %d", changed, len(rows), len(mrows))
		}
	}
	if r.Intn(10) == 0 { // never varies
		for i := 0; i < 5; i++ {
			if o, err := runImport(c, main, args...); err != nil || o != out {
				c.Fail("the same import varies (%v):\n%s\n---\n%s", err, o, out)
			}
		}
	}
}

// --- generate

const dumpDef = `
def o(s):
  return ",".join([str(x) for x in s.elem_ords()])
def dump(d, idx):
  ts = d.transactions
  print("B %d" % len(ts))
  def tx(t):
    print("T %s|%s|%s|%d" % (o(t.date), o(t.payee), o(t.transaction_note), len(t)))
    def p(x):
      print("P %s|%s|%s|%s|%s|%s|%s|%s" % (o(x.account), o(x.ccy), str(x.amount), str(x.balance), o(x.posting_note), o(x.date), o(x.payee), o(x.transaction_note)))
    if idx:
      for i in range(len(t)):
        p(t[i])
    else:
      for x in t:
        p(x)
  if idx:
    for i in range(len(ts)):
      tx(ts[i])
  else:
    for t in ts:
      tx(t)
`

func unords(s string) string {
	if s == "" {
		return ""
	}
	var b []byte
	for _, f := range strings.Split(s, ",") {
		b = append(b, byte(atoi(f)))
	}
	return string(b)
}

// what the script printed in its n-th dump
func parseDumps(c *frame.Case, out string) (dumps [][]sut.Tx, rest string) {
	var cur *[]sut.Tx
	count := -1
	finish := func() {
		if cur != nil && len(*cur) != count {
			c.Fail("the script sees %d transactions of %d", len(*cur), count)
		}
	}
	for _, l := range strings.SplitAfter(out, "\n") {
		t := strings.TrimSuffix(strings.TrimPrefix(l, "; "), "\n")
		switch {
		case strings.HasPrefix(l, "; B "):
			finish()
			dumps = append(dumps, nil)
			cur = &dumps[len(dumps)-1]
			count = atoi(t[2:])
		case strings.HasPrefix(l, "; T "):
			f := strings.Split(t[2:], "|")
			if len(f) != 4 {
				frame.Broken("dump: %q", l)
			}
			d := unords(f[0])
			n := atoi(strings.ReplaceAll(d, "/", ""))
			if ref.DateString(n) != d {
				c.Fail("the script sees date %q", d)
			}
			if len(*cur) > 0 {
				if last := (*cur)[len(*cur)-1]; len(last.Posts) != cap(last.Posts) {
					c.Fail("the script sees %d postings of %d", len(last.Posts), cap(last.Posts))
				}
			}
			*cur = append(*cur, sut.Tx{Date: n, Payee: unords(f[1]), Note: unords(f[2])})
			(*cur)[len(*cur)-1].Posts = make([]sut.Post, 0, atoi(f[3]))
		case strings.HasPrefix(l, "; P "):
			f := strings.Split(t[2:], "|")
			if len(f) != 8 {
				frame.Broken("dump: %q", l)
			}
			amt, err := strconv.ParseFloat(f[2], 64)
			bal, err2 := strconv.ParseFloat(f[3], 64)
			if err != nil || err2 != nil {
				c.Fail("the script sees amount %q, balance %q", f[2], f[3])
			}
			x := &(*cur)[len(*cur)-1]
			if ref.DateString(x.Date) != unords(f[5]) || x.Payee != unords(f[6]) || x.Note != unords(f[7]) {
				c.Fail("a posting has other attributes than its transaction: %q %q %q in %d %q %q", unords(f[5]), unords(f[6]), unords(f[7]), x.Date, x.Payee, x.Note)
			}
			x.Posts = append(x.Posts, sut.Post{Acct: unords(f[0]), CCY: unords(f[1]), Note: unords(f[4]),
				Amt: new(big.Rat).SetFloat64(amt), Bal: new(big.Rat).SetFloat64(bal)})
		default:
			rest += l
		}
	}
	finish()
	return dumps, rest
}

func asFloats(txs []sut.Tx) []sut.Tx {
	f := func(v *big.Rat) *big.Rat {
		x, _ := v.Float64()
		return new(big.Rat).SetFloat64(x)
	}
	var out []sut.Tx
	for _, t := range txs {
		t.Posts = append([]sut.Post(nil), t.Posts...)
		for i := range t.Posts {
			t.Posts[i].Amt, t.Posts[i].Bal = f(t.Posts[i].Amt), f(t.Posts[i].Bal)
		}
		out = append(out, t)
	}
	return out
}

func generateCheck(c *frame.Case) {
	r := c.R
	o := gen.Options{Txs: 1 + r.Intn(12), NoHuge: true}
	if r.Intn(2) == 0 {
		o.Payees = gen.Sub(r, dedupPayees, 4)
	}
	l := gen.New(r, o)
	var main string
	switch r.Intn(80) {
	case 0: // many postings
		l, main = wideLedger(c, 30+r.Intn(100))
		c.Count("wide transactions", 1)
	case 1: // many transactions
		l = manyLedger(c, 300+r.Intn(500))
		main = writeLedger(c, l)
		c.Count("many transactions", 1)
	default:
		main = writeLedger(c, l)
	}
	code := dumpDef + "dump(data, False)\n"
	cur := l.Book
	stages := []*ref.Book{cur}
	var opTexts [][]string
	opTexts = append(opTexts, nil)
	chain := "data"
	for i := r.Intn(4); i > 0; i-- {
		kind := []string{"since", "asof", "map"}[r.Intn(3)]
		op := gen.RandomOp(r, cur, kind)
		arg := op.Text[strings.IndexByte(op.Text, '=')+1:]
		var call string
		switch kind {
		case "map":
			p := strings.Split(strings.Trim(arg, "/"), "/")
			if len(p) < 2 || len(p) > 3 || "/"+strings.Join(p, "/")+"/" != arg {
				continue
			}
			call = fmt.Sprintf("map(%s, %s)", starStr(p[0]), starStr(p[1]))
			if len(p) == 3 {
				call = fmt.Sprintf("map(**{'from': %s, 'to': %s, 'alt': %s})", starStr(p[0]), starStr(p[1]), starStr(p[2]))
			}
		default:
			call = fmt.Sprintf("%s(%s)", kind, starStr(arg))
		}
		nb := op.Apply(cur)
		cur = nb
		opTexts = append(opTexts, append(append([]string{}, opTexts[len(opTexts)-1]...), op.Text))
		stages = append(stages, cur)
		if r.Intn(2) == 0 {
			code += fmt.Sprintf("data.%s\ndump(data, %s)\n", call, []string{"True", "False"}[r.Intn(2)])
		} else { // returns the book
			code += fmt.Sprintf("dump(%s.%s, %s)\n", chain, call, []string{"True", "False"}[r.Intn(2)])
		}
	}

	// additions
	var rows []row
	accts := append([]string{"A:New", "B:New"}, l.Accounts()...)
	payees := append([]string{}, o.Payees...)
	dates := gen.Dates(r, [2]int{2020, 2021}, 2)
	for _, t := range l.Book.Txs {
		payees = append(payees, t.Payee)
		dates = append(dates, t.Date)
	}
	if len(payees) == 0 {
		payees = []string{"new"}
	}
	for i := r.Intn(8); i > 0; i-- {
		if len(l.Book.Txs) > 0 && r.Intn(2) == 0 {
			t := l.Book.Txs[r.Intn(len(l.Book.Txs))]
			if t.Payee != onePayee(t.Payee) || !validText(t.Payee) {
				continue
			}
			w := simpleRows(r, 1, []int{t.Date}, []string{t.Payee}, accts[:2], importCCYs)[0]
			rows = append(rows, w)
			continue
		}
		p := gen.Pick(r, append(payees, importTexts...))
		if !validText(p) {
			continue
		}
		rows = append(rows, simpleRows(r, 1, dates, []string{p}, accts[:2], importCCYs)...)
	}
	for _, w := range rows {
		code += fmt.Sprintf("add(%s, %s, %s, ccy=%s, account=%s, caccount=%s)\n", starStr(ref.DateString(w.date)), starStr(w.payee), starStr(gen.Exact2(w.amt)),
			starStr(w.ccy), starStr(w.acct), starStr(w.cacct))
	}
	dedup := r.Intn(4) > 0
	args := []string{"generate", "--dedup=" + fmt.Sprint(dedup), "--code", code}
	c.Artefact("code", code)
	out, err := runImport(c, main, args...)
	if err != nil {
		c.Fail("generate fails: %v", err)
	}
	dumps, rest := parseDumps(c, out)
	if len(dumps) != len(stages) {
		c.Fail("%d dumps expected, got %d\n%s", len(stages), len(dumps), out)
	}
	posts := 0
	for i, d := range dumps {
		b := load(c, main)
		for _, t := range opTexts[i] {
			applyOp(c, b, t)
		}
		want := asFloats(sut.Snapshot(b))
		if dd := diffTxs(sut.Snapshot(b), stages[i]); dd != "" {
			c.Fail("%q: %s", opTexts[i], dd)
		}
		if g, w := sut.DumpTxs(d), sut.DumpTxs(want); g != w {
			c.Fail("after %q the script sees something else: %s", opTexts[i], diffLines(strings.Split(g, "\n"), strings.Split(w, "\n")))
		}
		for _, t := range d {
			posts += len(t.Posts)
		}
	}
	want := &ref.Book{}
	known := map[string]bool{}
	for _, t := range l.Book.Txs {
		known[dedupKey(t)] = dedup
	}
	dropped := 0
	for _, t := range rowsBook(rows).Normalise().Txs {
		if known[dedupKey(t)] {
			dropped++
		} else {
			want.Txs = append(want.Txs, t)
		}
	}
	checkPrinted(c, "generate", rest, want.Normalise())
	c.Count("postings seen", posts)
	c.Count("dropped", dropped)
	c.Count("kept", len(want.Txs))
	if len(stages[0].Txs) > 1 {
		c.Nontrivial(l.Text(), code)
		c.Sample("%q, %d postings seen, %d dropped, %d kept", opTexts[len(opTexts)-1], posts, dropped, len(want.Txs))
	}
}

// a ledger of n small transactions on few days
func manyLedger(c *frame.Case, n int) *gen.Ledger {
	r := c.R
	rows := simpleRows(r, n, gen.Dates(r, [2]int{2020, 2021}, 1+r.Intn(40)), dedupPayees, gen.Sub(r, gen.AllAccts, 4), gen.Sub(r, importCCYs, 2))
	l := &gen.Ledger{Files: map[string]string{"main.ledger": rowsLedger(rows)}, Main: "main.ledger", Feat: map[string]int{}}
	raw, err := ref.Parse(writeLedger(c, l))
	if err != nil {
		frame.Broken("generated ledger: %v", err)
	}
	l.Raw, l.Book = raw, raw.Normalise()
	return l
}

func validText(s string) bool { return strings.ToValidUTF8(s, "") == s && len(s) < 2000 }

// --- data

const dumpData = `
def o(s):
  return ",".join([str(x) for x in s.elem_ords()])
def dump(v):
  t = type(v)
  if t == "list":
    print("[")
    for x in v:
      dump(x)
    print("]")
  elif t == "dict":
    print("{")
    for k in v.keys():
      print("k " + o(k))
      dump(v[k])
    print("}")
  elif t == "string":
    print("s " + o(v))
  else:
    print(t[:1] + " " + str(v))
dump(data)
`

func ords(s string) string {
	var l []string
	for i := 0; i < len(s); i++ {
		l = append(l, strconv.Itoa(int(s[i])))
	}
	return strings.Join(l, ",")
}

func importDataCheck(c *frame.Case) {
	r := c.R
	main := c.Write("main.ledger", "")
	var data, format string
	var want []string
	var damaged bool
	if r.Intn(2) == 0 {
		data, format, want, damaged = randomCSV(r)
		c.Count("csv values", len(want))
	} else {
		data, want, damaged = randomJSON(r)
		format = "json"
		c.Count("json values", len(want))
	}
	c.Artefact("data", data)
	file := c.Write("data", data)
	others := []string{}
	if r.Intn(4) == 0 && !damaged {
		for i := 1 + r.Intn(3); i > 0; i-- {
			others = append(others, c.Write(fmt.Sprintf("other%d", i), data))
		}
		c.Count("several files", 1)
	}
	iargs := append([]string{"import", "-a", "A", "-c", "B", "--ccy", "$", "--format", format, "--code", dumpData + "\nprint('file ' + file)\nadd('2020/01/01', 'x', 1)\n"}, others...)
	out, file, err := runImportFile(c, main, append(iargs, file)...)
	if damaged {
		if err == nil {
			c.Fail("%s: damaged input is accepted: %q\n%s", format, data, out)
		}
		if hasTransactions(out) {
			c.Fail("%s: damaged input with output\n%s", format, out)
		}
		c.Count("damaged refused", 1)
		c.Nontrivial(data)
		return
	}
	if err != nil {
		c.Fail("%s: import of %q fails: %v", format, data, err)
	}
	var got []string
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "; ") {
			got = append(got, l[2:])
		}
	}
	values := want
	want = nil
	for _, f := range append(others, file) {
		want = append(append(want, values...), "file "+f)
	}
	norm(got)
	norm(want)
	if len(got) > 0 && len(want) > 2 {
		c.Nontrivial(data)
	}
	if d := diffLines(got, want); d != "" {
		c.Fail("%s: %s\n%q", format, d, data)
	}
	if !hasTransactions(out) {
		c.Fail("no transactions printed\n%s", out)
	}
	c.Sample("%s %q", format, cutText(data, 200))
}

// floats in one form
func norm(l []string) {
	for i, s := range l {
		if strings.HasPrefix(s, "f ") {
			if f, err := strconv.ParseFloat(s[2:], 64); err == nil {
				l[i] = "f " + strconv.FormatFloat(f, 'g', -1, 64)
			}
		}
		l[i] = strings.TrimRight(l[i], " ")
	}
}

func randomField(r *rand.Rand) string {
	if r.Intn(500) == 0 {
		return strings.Repeat(gen.Pick(r, []string{"long ", "é", "0", "x,y;"}), 1+r.Intn(4000)) + "end"
	}
	switch r.Intn(6) {
	case 0:
		return ""
	case 1:
		return gen.Exact2(gen.Amount(r, nil))
	case 2:
		return gen.Pick(r, gen.AllPayees)
	case 3:
		return gen.Pick(r, importTexts)
	}
	n := 1 + r.Intn(12)
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteString([]string{"a", "b", "Z", "0", "9", " ", "\t", ",", ";", "|", "\"", "'", "\n", "é", "日", "🍕", "#", "=", "\\", ".", "-", "\xff", "\x01"}[r.Intn(23)])
	}
	return sb.String()
}

func randomCSV(r *rand.Rand) (data, format string, want []string, damaged bool) {
	delim := []string{",", ",", ";", "\t", "|", ":", " ", "=", "x", "é", "'", "#"}[r.Intn(12)]
	header := r.Intn(2) == 0
	cols := 1 + r.Intn(6)
	nrows := r.Intn(8)
	switch r.Intn(120) {
	case 0:
		cols = 50 + r.Intn(250)
	case 1:
		nrows, cols = 1000+r.Intn(3000), 1+r.Intn(2)
	}
	if header {
		nrows++
	}
	var rows [][]string
	for i := 0; i < nrows; i++ {
		var row []string
		for j := 0; j < cols; j++ {
			f := randomField(r)
			if i == 0 && header {
				f = fmt.Sprintf("%s/%d", f, j) // different names
			}
			f = strings.ReplaceAll(f, "\r\n", "\n")
			f = strings.TrimRight(f, "\r")
			row = append(row, f)
		}
		rows = append(rows, row)
	}
	nl := "\n"
	if r.Intn(4) == 0 {
		nl = "\r\n"
	}
	bad := -1
	if r.Intn(6) == 0 && len(rows) > 0 {
		bad = r.Intn(len(rows))
	}
	var sb strings.Builder
	blankDelim := strings.TrimSpace(delim) == ""
	for i, row := range rows {
		if r.Intn(8) == 0 && !(blankDelim && false) {
			sb.WriteString(nl) // empty lines are skipped
		}
		fields := row
		kind := -1
		if i == bad {
			damaged = true
			kind = r.Intn(4)
			switch kind {
			case 0: // too many
				fields = append(append([]string{}, row...), "extra")
			case 1: // too few
				fields = row[:len(row)-1]
			}
			if (kind == 0 || kind == 1) && len(rows) == 1 || kind == 1 && len(fields) == 0 {
				fields, kind, damaged = row, -1, false
			}
		}
		for j, f := range fields {
			if j > 0 {
				sb.WriteString(delim)
			}
			quote := strings.ContainsAny(f, "\"\n\r"+delim) || strings.Contains(f, delim) || strings.TrimLeft(f, " \t\v\f\u00a0\u0085") != f || f == "" && len(fields) == 1 || r.Intn(5) == 0
			if !blankDelim && r.Intn(6) == 0 && !(f == "" && len(fields) == 1 && !quote) {
				sb.WriteString(strings.Repeat(" ", 1+r.Intn(3))) // blanks before the field
			}
			if kind == 2 && j == len(fields)-1 { // text after the quotes
				sb.WriteString("\"abc\"d")
				continue
			}
			if kind == 3 && j == len(fields)-1 {
				sb.WriteString("ab\"c") // bare quote
				continue
			}
			if quote {
				q := strings.ReplaceAll(f, "\"", "\"\"")
				if nl == "\r\n" && r.Intn(2) == 0 {
					q = strings.ReplaceAll(q, "\n", "\r\n") // read as \n
				}
				sb.WriteString("\"" + q + "\"")
			} else {
				sb.WriteString(f)
			}
		}
		if i < len(rows)-1 || r.Intn(3) > 0 {
			sb.WriteString(nl)
		}
	}
	data = sb.String()
	format = "csv"
	var ps []string
	if delim != "," {
		ps = append(ps, "delim="+delim)
	}
	if header {
		ps = append(ps, []string{"header=true", "header", "header=TRUE", "header=True"}[r.Intn(4)])
	} else if r.Intn(3) == 0 {
		ps = append(ps, "header=false")
	}
	r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
	if len(ps) > 0 {
		format += ":" + strings.Join(ps, ",")
	}
	want = append(want, "[")
	for i, row := range rows {
		if header {
			if i == 0 {
				continue
			}
			want = append(want, "{")
			for j, f := range row {
				want = append(want, "k "+ords(rows[0][j]), "s "+ords(f))
			}
			want = append(want, "}")
			continue
		}
		want = append(want, "[")
		for _, f := range row {
			want = append(want, "s "+ords(f))
		}
		want = append(want, "]")
	}
	want = append(want, "]")
	return
}

// --- JSON

type jsonWriter struct {
	r    *rand.Rand
	sb   strings.Builder
	want []string
}

func (w *jsonWriter) ws() {
	if w.r.Intn(4) == 0 {
		w.sb.WriteString([]string{" ", "\n", "\t", "  ", "\r\n"}[w.r.Intn(5)])
	}
}

func (w *jsonWriter) str(s string) {
	w.sb.WriteByte('"')
	for _, x := range s {
		switch {
		case x == '"' || x == '\\':
			w.sb.WriteByte('\\')
			w.sb.WriteRune(x)
		case x < 32 || w.r.Intn(8) == 0 && x < 0x10000:
			fmt.Fprintf(&w.sb, "\\u%04x", x)
		case x >= 0x10000 && w.r.Intn(2) == 0:
			y := x - 0x10000
			fmt.Fprintf(&w.sb, "\\u%04X\\u%04X", 0xd800+y>>10, 0xdc00+y&0x3ff)
		case x == '/' && w.r.Intn(2) == 0:
			w.sb.WriteString("\\/")
		default:
			w.sb.WriteRune(x)
		}
	}
	w.sb.WriteByte('"')
}

// numbers are floats, but whole ones a float cannot hold are integers
func numberWant(s string) string {
	f, _ := strconv.ParseFloat(s, 64)
	if i, ok := new(big.Int).SetString(s, 10); ok && new(big.Rat).SetInt(i).Cmp(new(big.Rat).SetFloat64(f)) != 0 {
		return "i " + i.String()
	}
	return "f " + strconv.FormatFloat(f, 'g', -1, 64)
}

func (w *jsonWriter) value(depth int, inDict bool, key string) {
	r := w.r
	put := func(s string) {
		if inDict {
			w.want = append(w.want, "k "+ords(key))
		}
		w.want = append(w.want, s)
	}
	k := r.Intn(10)
	if depth == 0 {
		k = 8 + r.Intn(2)
	} else if depth > 4 {
		k = r.Intn(7)
	}
	w.ws()
	switch {
	case k == 0:
		w.sb.WriteString("null")
		if !inDict {
			w.want = append(w.want, "N None")
		}
	case k == 1:
		if r.Intn(2) == 0 {
			w.sb.WriteString("true")
			put("b True")
		} else {
			w.sb.WriteString("false")
			put("b False")
		}
	case k < 4:
		s := gen.Exact2(gen.Amount(r, &gen.Options{MaxDec: 12}))
		if r.Intn(4) == 0 { // identifiers
			s = strings.TrimSuffix(strings.Split(s, ".")[0]+fmt.Sprint(r.Int63()), ".")
			if i, ok := new(big.Int).SetString(s, 10); ok && r.Intn(8) > 0 {
				s = i.String() // no leading zeros
			} else {
				s = []string{"9007199254740993", "-9007199254740993", "9007199254740992", "18446744073709551615", "18446744073709551616", "0", "-0", "100000000000000000000000"}[r.Intn(8)]
			}
			w.sb.WriteString(s)
			put(numberWant(s))
			break
		}
		switch r.Intn(5) {
		case 0:
			s += fmt.Sprintf("e%d", r.Intn(20)-10)
		case 1:
			s += fmt.Sprintf("E+%d", r.Intn(9))
		}
		w.sb.WriteString(s)
		put(numberWant(s))
	case k < 8:
		s := strings.ToValidUTF8(randomField(r), "?")
		w.str(s)
		put("s " + ords(s))
	case k == 8:
		put("[")
		w.sb.WriteByte('[')
		n, d := r.Intn(5), depth+1
		if depth == 0 && r.Intn(100) == 0 {
			n, d = 500+r.Intn(2500), 5 // long, but flat
		}
		for i := 0; i < n; i++ {
			if i > 0 {
				w.sb.WriteByte(',')
			}
			w.value(d, false, "")
		}
		w.ws()
		w.sb.WriteByte(']')
		w.want = append(w.want, "]")
	default:
		put("{")
		w.sb.WriteByte('{')
		// keys come in any order: expect them sorted as written here
		var ks []string
		seen := map[string]bool{}
		n := r.Intn(5)
		if r.Intn(200) == 0 {
			n = 50 + r.Intn(200)
			if depth == 0 {
				depth = 4
			}
		}
		for ; n > 0; n-- {
			s := strings.ToValidUTF8(randomField(r), "?")
			if !seen[s] {
				seen[s] = true
				ks = append(ks, s)
			}
		}
		sort.Strings(ks)
		// written in a random order
		type part struct {
			text string
			want []string
		}
		var parts []part
		for _, s := range ks {
			v := &jsonWriter{r: r}
			v.str(s)
			v.ws()
			v.sb.WriteByte(':')
			v.value(depth+1, true, s)
			parts = append(parts, part{v.sb.String(), v.want})
			w.want = append(w.want, v.want...)
		}
		r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
		for i, p := range parts {
			if i > 0 {
				w.sb.WriteByte(',')
			}
			w.ws()
			w.sb.WriteString(p.text)
		}
		w.ws()
		w.sb.WriteByte('}')
		w.want = append(w.want, "}")
	}
	w.ws()
}

func randomJSON(r *rand.Rand) (string, []string, bool) {
	w := &jsonWriter{r: r}
	depth := 0
	if r.Intn(8) == 0 {
		depth = 1
	}
	w.value(depth, false, "")
	s := w.sb.String()
	if !json.Valid([]byte(s)) {
		frame.Broken("generated JSON is invalid: %s", s)
	}
	if r.Intn(6) > 0 {
		return s, w.want, false
	}
	b := []byte(s)
	switch i := r.Intn(len(b)); r.Intn(5) {
	case 0:
		b = b[:i]
	case 1:
		b = append(b[:i:i], b[i+1:]...)
	case 2:
		b = append(append(b[:i:i], "{}[],:\"x1\x00"[r.Intn(10)]), b[i:]...)
	case 3:
		b = append(b, []string{" {}", "1", "]", ",", "null", "x"}[r.Intn(6)]...)
	default:
		b = nil
	}
	if json.Valid(b) {
		return s, w.want, false
	}
	return string(b), nil, true
}
