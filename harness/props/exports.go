package props

import (
	"fmt"
	"math/big"
	"regexp"
	"sort"
	"strings"

	"verif/harness/frame"
	"verif/harness/gen"
	"verif/harness/ref"
	"verif/harness/sut"
)

var langs = []string{"en", "de", "fr", "nl", "sv", "xx", "ar", "hi", "de-CH", "en-GB", "es-ES", "ru"}

func init() {
	frame.Register(&frame.Check{
		ID: "C05", Quick: 8000, Thorough: 300000,
		Rule: "one evaluation: a generated ledger, sometimes after operations, is exported in ledger format in a random language; the text is read by two independent parsers, loaded again and compared exactly with the book, and exported again; non-trivial: at least two transactions, distinct by text",
		Run:  ledgerExportCheck,
	})
	frame.Register(&frame.Check{
		ID: "C06", Quick: 6000, Thorough: 200000,
		Rule: "one evaluation: a generated ledger, sometimes after operations, is exported as JSON, CSV and Beancount in a random language, each parsed independently and compared entry by entry with the book; non-trivial: at least two transactions, distinct by text",
		Run:  otherExportCheck,
	})
}

func finite(b *ref.Book) bool {
	for _, t := range b.Txs {
		for _, p := range t.Posts {
			if ref.NeededDecimals(p.Amt) < 0 {
				return false
			}
		}
	}
	return true
}

// operations after which the book is still finite
func finiteOps(c *frame.Case, b *ref.Book, kinds ...string) ([]string, *ref.Book) {
	var texts []string
	for i := c.R.Intn(4); i > 0; i-- {
		op := gen.RandomOp(c.R, b, kinds...)
		nb := op.Apply(b)
		if !finite(nb) || len(nb.Txs) > 2000 {
			continue
		}
		b = nb
		texts = append(texts, op.Text)
	}
	c.Artefact("ops", fmt.Sprintf("%q", texts))
	return texts, b
}

func ledgerExportCheck(c *frame.Case) {
	o := gen.Options{Blanks: true, SameDay: true}
	if c.R.Intn(4) == 0 {
		o.NPrices = 10 + c.R.Intn(40)
	}
	if c.R.Intn(6) == 0 { // many same-day duplicates
		o.Txs = 10 + c.R.Intn(30)
		o.Payees = gen.Sub(c.R, []string{"Shop", "Shop (2)", "Shop (3)", "", "(2)", "(2) (2)", "a;b"}, 1+c.R.Intn(4))
	}
	if c.R.Intn(6) == 0 { // awkward currencies
		o.CCYs = gen.Sub(c.R, []string{"=", "=x", "x=", "\u00a0", "a\u00a0b", "A,", ",", "$$", "(", "A'", "<&>", "%d", "1", "1A", "A1", "a@b", "-", "a-b", "a;", " ", " x ", ".", "é", "!", "\\", "|", "#"}, 3)
	}
	l, b := loadGenerated(c, o)
	texts, want := finiteOps(c, l.Book)
	for _, t := range texts {
		applyOp(c, b, t)
	}
	snap := sut.Snapshot(b)
	if d := diffTxs(snap, want); d != "" {
		c.Fail("%q: %s", texts, d)
	}
	exact := sut.ToRef(snap, want.Prices)
	lang, lang2 := gen.Pick(c.R, langs), gen.Pick(c.R, langs)
	args := append([]string{"export", "--type", "Ledger", "--lang", lang}, texts...)
	out, err := sut.Exec(c.Scratch(l.Main), args...)
	if err != nil {
		c.Fail("%q fails: %v", args, err)
	}
	c.Artefact("export", out)
	txs, prices, err := parseLedgerOut(out)
	if err != nil {
		c.Fail("%q: %v\n%s", args, err, out)
	}
	if d := diffTxs(txs, exact); d != "" {
		c.Fail("%q prints something else: %s\n%s", args, d, out)
	}
	if d := diffPrices(prices, want.Prices); d != "" {
		c.Fail("%q prints something else: %s\n%s", args, d, out)
	}
	f := c.Write("exported.ledger", out)
	rb, err := ref.Parse(f)
	if err != nil {
		c.Fail("%q: the export is not a valid ledger: %v\n%s", args, err, out)
	}
	if d := diffTxs(sut.Snapshot(load(c, f)), rb.Normalise()); d != "" {
		c.Fail("%q: the export loads as something else: %s", args, d)
	}
	nb := load(c, f)
	if d := diffTxs(sut.Snapshot(nb), exact); d != "" {
		c.Fail("%q: the export loads as something else: %s\n%s", args, d, out)
	}
	if d := diffPrices(sut.Prices(nb), want.Prices); d != "" {
		c.Fail("%q: the export loads as something else: %s\n%s", args, d, out)
	}
	again, err := sut.Exec(f, "export", "--type", "Ledger", "--lang", lang2)
	if err != nil {
		c.Fail("exporting the export fails: %v", err)
	}
	// the currency may need fewer decimals than when its postings were not yet summed
	if trimZeros(again) != trimZeros(out) {
		c.Fail("%q: exporting the export (in %s) gives something else:\n%s\n---\n%s", args, lang2, again, out)
	}
	f2 := c.Write("exported2.ledger", again)
	third, err := sut.Exec(f2, "export", "--type", "Ledger", "--lang", lang)
	if err != nil || third != again {
		c.Fail("%q: exporting the export of the export (%v) gives something else:\n%s\n---\n%s", args, err, third, again)
	}
	c.Count("transactions compared", len(txs))
	c.Count("prices compared", len(prices))
	if c.Index%40 == 0 {
		r := sut.CLI(c.Bin, c.Dir, nil, append([]string{"export", "-l", c.Scratch(l.Main), "--lang", lang}, texts...)...)
		if r.Exit != 0 || r.Stdout != out {
			c.Fail("command export %q: %s\nexpected\n%s", texts, r, out)
		}
		c.Count("command runs", 1)
	}
	if len(txs) > 1 {
		c.Nontrivial(l.Text(), texts, lang)
		c.Sample("%q: %d transactions, %d prices", args, len(txs), len(prices))
	}
}

var beanHeadRe = regexp.MustCompile(`^(\d{4})/(\d\d)/(\d\d) \* "((?:[^"\\]|\\.)*)"(?:  ; (.*))?$`)
var beanPostRe = regexp.MustCompile(`^  ([^ ]+)  (-?\d+(?:\.\d+)?) (\S+)(?:  ; (.*))?$`)
var beanOpenRe = regexp.MustCompile(`^(\d{4})/(\d\d)/(\d\d) (open|close) (\S+)$`)
var beanPriceRe = regexp.MustCompile(`^(\d{4})/(\d\d)/(\d\d) price (\S+) (-?\d+(?:\.\d+)?) (\S+)$`)

func beanCCY(s string) string { return strings.ToUpper(strings.ReplaceAll(s, " ", "")) }

// upper case the first letter of each word of an (ASCII) account; words are separated by : and other
// characters that are neither letters nor digits nor _
func beanAcct(s string) string {
	out := []byte(s)
	start := true
	for i, ch := range out {
		if start && ch >= 'a' && ch <= 'z' {
			out[i] = ch - 'a' + 'A'
		}
		start = !(ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch >= '0' && ch <= '9' || ch == '_')
	}
	return string(out)
}

func unquoteBean(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) {
			i++
		}
		sb.WriteByte(s[i])
	}
	return sb.String()
}

func otherExportCheck(c *frame.Case) {
	l := gen.New(c.R, gen.Options{NPrices: c.R.Intn(12), SameDay: true})
	if len(l.Book.Txs) > 0 && c.R.Intn(3) == 0 {
		date := gen.Dates(c.R, [2]int{2019, 2024}, 1)[0]
		if c.R.Intn(2) == 0 {
			date = l.Book.Txs[c.R.Intn(len(l.Book.Txs))].Date
		}
		zeroSome(c.R, l, date)
	}
	b := load(c, writeLedger(c, l))
	texts, want := finiteOps(c, l.Book)
	for _, t := range texts {
		applyOp(c, b, t)
	}
	snap := sut.Snapshot(b)
	if d := diffTxs(snap, want); d != "" {
		c.Fail("%q: %s", texts, d)
	}
	lang := gen.Pick(c.R, langs)
	export := func(typ string, more ...string) string {
		args := append([]string{"export", "--type", typ, "--lang", lang}, more...)
		args = append(args, texts...)
		c.Artefact("command", fmt.Sprintf("%q", args))
		out, err := sut.Exec(c.Scratch(l.Main), args...)
		if err != nil {
			c.Fail("%q fails: %v", args, err)
		}
		if c.Index%40 == 0 {
			r := sut.CLI(c.Bin, c.Dir, nil, append(args, "-l", c.Scratch(l.Main))...)
			if r.Exit != 0 || r.Stdout != out {
				c.Fail("command %q: %s\nexpected\n%s", args, r, out)
			}
			c.Count("command runs", 1)
		}
		return out
	}

	// JSON
	var more []string
	if c.R.Intn(2) == 0 {
		more = []string{"--jsonpretty"}
	}
	out := export("Json", more...)
	js, err := parseJSONTxs(out)
	if err != nil {
		c.Fail("JSON export: %v\n%s", err, out)
	}
	if len(js) != len(snap) {
		c.Fail("JSON export has %d transactions, the book %d\n%s", len(js), len(snap), out)
	}
	for i, t := range snap {
		j := js[i]
		d, err := jsonDate(j.Date)
		if err != nil {
			c.Fail("JSON export: %v", err)
		}
		if d != t.Date || j.Payee != t.Payee || j.Note != t.Note || len(j.Posts) != len(t.Posts) {
			c.Fail("JSON export: transaction %d is %+v, expected %s", i, j, sut.DumpTxs(snap[i:i+1]))
		}
		for k, p := range t.Posts {
			q := j.Posts[k]
			f, _ := p.Amt.Float64()
			if q.Account != p.Acct || q.CCY != p.CCY || q.Note != p.Note || *q.Amount != f {
				c.Fail("JSON export: transaction %d: posting %+v (%v), expected %s", i, q, *q.Amount, sut.DumpTxs(snap[i:i+1]))
			}
			c.Count("JSON postings compared", 1)
		}
	}

	// CSV
	out = export("CSV")
	rows, err := parseCSV(out)
	if err != nil {
		c.Fail("CSV export: %v\n%s", err, out)
	}
	if len(rows) == 0 || strings.Join(rows[0], " ") != "date payee transaction_note account currency amount post_note" {
		c.Fail("CSV export: header %q", rows)
	}
	rows = rows[1:]
	n := 0
	for _, t := range snap {
		for _, p := range t.Posts {
			if n >= len(rows) {
				c.Fail("CSV export has only %d rows\n%s", n, out)
			}
			r := rows[n]
			n++
			want := []string{ref.DateString(t.Date), t.Payee, t.Note, p.Acct, p.CCY, "", p.Note}
			amt, ok := new(big.Rat).SetString(r[5])
			if !ok || !plainNumRe.MatchString(r[5]) || amt.Cmp(p.Amt) != 0 {
				c.Fail("CSV export: row %d %q: amount should be %s", n, r, p.Amt.RatString())
			}
			r = append([]string{}, r...)
			r[5] = ""
			if fmt.Sprintf("%q", r) != fmt.Sprintf("%q", want) {
				c.Fail("CSV export: row %d is %q, expected %q", n, r, want)
			}
			c.Count("CSV rows compared", 1)
		}
	}
	if n != len(rows) {
		c.Fail("CSV export has %d rows, expected %d\n%s", len(rows), n, out)
	}

	// Beancount
	more = nil
	if c.R.Intn(2) == 0 {
		more = []string{"--ccy", "USD"}
	}
	out = export("Beancount", more...)
	checkBeancount(c, out, snap, sut.Prices(b), more != nil)
	if len(snap) > 1 {
		c.Nontrivial(l.Text(), texts, lang)
		c.Sample("%q in %s: %d transactions, %d prices", texts, lang, len(snap), len(want.Prices))
	}
}

func checkBeancount(c *frame.Case, out string, snap []sut.Tx, prices []ref.Price, option bool) {
	type open struct{ date, line int }
	opens, closes := map[string]int{}, map[string]int{}
	var gotPrices []string
	var txs []sut.Tx
	opt := 0
	intx := false
	for _, ln := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
		switch {
		case ln == "":
			intx = false
		case strings.HasPrefix(ln, ";"):
		case ln == `option "operating_currency" "USD"`:
			opt++
		case beanOpenRe.MatchString(ln):
			m := beanOpenRe.FindStringSubmatch(ln)
			d, err := dateOf(m)
			if err != nil {
				c.Fail("Beancount export: %v", err)
			}
			t := opens
			if m[4] == "close" {
				t = closes
			}
			if _, ok := t[m[5]]; ok {
				c.Fail("Beancount export: second %s\n%s", ln, out)
			}
			t[m[5]] = d
		case beanHeadRe.MatchString(ln):
			m := beanHeadRe.FindStringSubmatch(ln)
			d, err := dateOf(m)
			if err != nil {
				c.Fail("Beancount export: %v", err)
			}
			txs = append(txs, sut.Tx{Date: d, Payee: unquoteBean(m[4]), Note: m[5]})
			intx = true
		case intx && beanPostRe.MatchString(ln):
			m := beanPostRe.FindStringSubmatch(ln)
			v, _ := new(big.Rat).SetString(m[2])
			t := &txs[len(txs)-1]
			t.Posts = append(t.Posts, sut.Post{Acct: m[1], CCY: m[3], Amt: v, Note: m[4]})
		case beanPriceRe.MatchString(ln):
			m := beanPriceRe.FindStringSubmatch(ln)
			d, err := dateOf(m)
			if err != nil {
				c.Fail("Beancount export: %v", err)
			}
			v, _ := new(big.Rat).SetString(m[5])
			gotPrices = append(gotPrices, fmt.Sprintf("%d %s %s %s", d, m[4], m[6], v.RatString()))
		default:
			c.Fail("Beancount export: line not understood: %q\n%s", ln, out)
		}
	}
	if option != (opt == 1) || opt > 1 {
		c.Fail("Beancount export: %d operating currencies\n%s", opt, out)
	}
	if len(txs) != len(snap) {
		c.Fail("Beancount export: %d transactions, the book has %d\n%s", len(txs), len(snap), out)
	}
	wantOpen, last := map[string]int{}, map[string]int{}
	bals := map[string]map[string]*big.Rat{}
	for i, t := range snap {
		g := txs[i]
		if g.Date != t.Date || g.Payee != t.Payee || g.Note != t.Note || len(g.Posts) != len(t.Posts) {
			c.Fail("Beancount export: transaction %d is %s expected %s\n%s", i, sut.DumpTxs2(g), sut.DumpTxs(snap[i:i+1]), out)
		}
		for k, p := range t.Posts {
			q := g.Posts[k]
			if q.Acct != beanAcct(p.Acct) || q.CCY != beanCCY(p.CCY) || q.Amt.Cmp(p.Amt) != 0 || q.Note != p.Note {
				c.Fail("Beancount export: transaction %d is %s expected %s\n%s", i, sut.DumpTxs2(g), sut.DumpTxs(snap[i:i+1]), out)
			}
			a := q.Acct
			if _, ok := wantOpen[a]; !ok {
				wantOpen[a] = t.Date
				bals[a] = map[string]*big.Rat{}
			}
			last[a] = t.Date
			if bals[a][q.CCY] == nil {
				bals[a][q.CCY] = new(big.Rat)
			}
			bals[a][q.CCY].Add(bals[a][q.CCY], p.Amt)
			c.Count("Beancount postings compared", 1)
		}
	}
	wantClose := map[string]int{}
	for a, m := range bals {
		zero := true
		for _, v := range m {
			zero = zero && v.Sign() == 0
		}
		if zero {
			wantClose[a] = ref.FromTime(ref.Time(last[a]).AddDate(0, 0, 1))
		}
	}
	if g, w := intsString(opens), intsString(wantOpen); g != w {
		c.Fail("Beancount export opens %s, expected %s", g, w)
	}
	if g, w := intsString(closes), intsString(wantClose); g != w {
		c.Fail("Beancount export closes %s, expected %s", g, w)
	}
	c.Count("Beancount closed accounts", len(wantClose))
	var wantPrices []string
	for _, p := range prices {
		wantPrices = append(wantPrices, fmt.Sprintf("%d %s %s %s", p.Date, beanCCY(p.Unit), beanCCY(p.CCY), p.Val.RatString()))
	}
	sort.Strings(wantPrices)
	sort.Strings(gotPrices)
	if d := diffLines(gotPrices, wantPrices); d != "" {
		c.Fail("Beancount export: prices: %s", d)
	}
	c.Count("Beancount prices compared", len(wantPrices))
}

var zerosRe = regexp.MustCompile(`(?m)(\.\d*?)0+($|  ;)`)

// without trailing zeros of amounts
func trimZeros(s string) string {
	s = zerosRe.ReplaceAllString(s, "$1$2")
	return regexp.MustCompile(`(?m)\.($|  ;)`).ReplaceAllString(s, "$1")
}
