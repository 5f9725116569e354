package props

import (
	"encoding/xml"
	"fmt"
	"io"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode"

	"verif/harness/frame"
	"verif/harness/gen"
	"verif/harness/ref"
	"verif/harness/sut"
)

func init() {
	frame.Register(&frame.Check{
		ID: "C14", Quick: 8000, Thorough: 300000,
		Rule: "one evaluation: a summarised JSON report with random period, conversion, credit, hidden account and divider, compared row by row (as a set per period) with the reference; non-trivial: at least one heading, distinct by ledger and arguments",
		Run:  func(c *frame.Case) { sumCheck(c, false) },
	})
	frame.Register(&frame.Check{
		ID: "C15", Quick: 8000, Thorough: 300000,
		Rule: "one evaluation: a summarised report, its JSON and Text forms compared row by row, in order, with levels and names, with the reference tree; non-trivial: at least two headings, distinct by ledger and arguments",
		Run:  func(c *frame.Case) { sumCheck(c, true) },
	})
	frame.Register(&frame.Check{
		ID: "C17", Quick: 8000, Thorough: 300000,
		Rule: "one evaluation: a converted report (and register) compared with the exact conversion at each date's price by the reference; non-trivial: at least one posting converted by a price other than 1, distinct by ledger and arguments",
		Run:  convertCheck,
	})
	frame.Register(&frame.Check{
		ID: "C30", Quick: 6000, Thorough: 200000,
		Rule: "one evaluation: an HTML report, summarised or not, parsed by a strict XML parser, the nesting of its boxes checked, and its rows compared with the JSON form of the same report; non-trivial: at least two rows, distinct by ledger and arguments",
		Run:  htmlCheck,
	})
}

func today() int { return ref.FromTime(time.Now()) }

var plainAccts = []string{"Asset", "Asset:Bank", "Asset:Bank:Sub", "Asset:Bankers", "Asset:Bank_2", "Asset:Bank&Co", "Asset:X:Y:Z", "Asset:X:Y:W", "Expense:Food", "Expense:Food:Out", "Expense:Rent",
	"Income", "Income:Salary", "A", "AB", "A:B", "A:B:C", "A:B:C:D:E:F", "A_B", "A_B_C", "B", "Expense", "Equity:Opening", "Liability:Card", "Z:a", "Z:b", "Z:c:d", "Z:c:e", "Liability", "Trading:FX'1", "a", "a:b"}

// a ledger for reports
func reportLedger(c *frame.Case, o gen.Options) (*gen.Ledger, string) {
	r := c.R
	if r.Intn(3) == 0 {
		o.Accts = gen.Sub(r, plainAccts, 3+r.Intn(14))
		if r.Intn(4) == 0 { // components without a name
			o.Accts = append(o.Accts, gen.Sub(r, []string{"A:", "A::B", ":A", "::", "A::", "Asset:", ":", "Asset:Bank::", "Z:c:"}, 1+r.Intn(4))...)
		}
	} else if r.Intn(8) == 0 { // divided by two characters
		for _, a := range gen.Sub(r, plainAccts, 3+r.Intn(14)) {
			o.Accts = append(o.Accts, strings.ReplaceAll(a, ":", "::"))
		}
		if r.Intn(3) == 0 {
			o.Accts = append(o.Accts, gen.Sub(r, plainAccts, 2)...)
		}
	} else if r.Intn(2) == 0 { // deep tree
		for i := 3 + r.Intn(20); i > 0; i-- {
			n := 1 + r.Intn(5)
			var p []string
			for k := 0; k < n; k++ {
				p = append(p, gen.Pick(r, []string{"A", "B", "C", "Aa"}))
			}
			o.Accts = append(o.Accts, strings.Join(p, ":"))
		}
	}
	if r.Intn(3) == 0 {
		o.NPrices = 1 + r.Intn(25)
	}
	if r.Intn(4) == 0 { // equal values
		o.MaxDec = 1
		o.SmallAmt = true
	}
	l := gen.New(r, o)
	return l, writeLedger(c, l)
}

// hundreds of accounts next to each other, nearly all with different values
func wideLedger(c *frame.Case, n int) (*gen.Ledger, string) {
	r := c.R
	var sb strings.Builder
	up := gen.Pick(r, []string{"Asset", "Expense:Food", "A:B:C", "W"})
	day := 20200101 + r.Intn(28)
	for t := 1 + r.Intn(3); t > 0; t-- {
		fmt.Fprintf(&sb, "%s Wide\n", ref.DateString(day+10000*r.Intn(2)))
		for i := 0; i < n; i++ {
			sub := ""
			if r.Intn(20) == 0 {
				sub = ":Sub"
			}
			fmt.Fprintf(&sb, "  %s:N%d%s  %d USD\n", up, i, sub, r.Intn(100*n)-50*n)
		}
		sb.WriteString("  Equity:Opening\n\n")
	}
	l := &gen.Ledger{Files: map[string]string{"main.ledger": sb.String()}, Main: "main.ledger", Feat: map[string]int{"hundreds of accounts next to each other": 1}}
	main := writeLedger(c, l)
	raw, err := ref.Parse(main)
	if err != nil {
		frame.Broken("reference refuses the ledger: %v", err)
	}
	l.Raw, l.Book = raw, raw.Normalise()
	return l, main
}

type reportArgs struct {
	args    []string
	ops     []string
	by      string
	convert bool
	base    string
	div     string
	credit  string
	hidden  string
	sum     bool
}

func randomReport(c *frame.Case, l *gen.Ledger, sum bool) (reportArgs, *ref.Book) {
	r := c.R
	a := reportArgs{div: ":", sum: sum}
	var rb *ref.Book = l.Book
	for i := r.Intn(3); i > 0; i-- {
		op := gen.RandomOp(r, rb)
		nb := op.Apply(rb)
		if len(nb.Txs) > 300 || ambiguousPrices(nb) {
			continue
		}
		rb = nb
		a.ops = append(a.ops, op.Text)
	}
	a.args = []string{"report"}
	a.by = []string{"", "skip", "none", "yearly", "quarterly", "monthly", "today"}[r.Intn(7)]
	if a.by != "" {
		a.args = append(a.args, "--splitby", a.by)
	}
	ccys := append(gen.CCYs(l.Book), "USD")
	a.base = gen.Pick(r, ccys)
	if sum || r.Intn(2) == 0 {
		a.args = append(a.args, "--ccy", a.base)
		a.convert = r.Intn(3) == 0
	}
	if a.convert {
		a.args = append(a.args, "--convert")
	}
	if sum {
		a.args = append(a.args, "--sum")
		if r.Intn(2) == 0 {
			a.credit = gen.Pick(r, []string{"^(Income|Liability|Equity)", "^A", ":", "^Expense:Food$", "nothing", ".*", "B$", "^Z:c"})
			a.args = append(a.args, "--credit", a.credit)
		}
		if r.Intn(2) == 0 {
			accts := append(gen.Accounts(rb), "Asset", "A:B", "Expense", "Nothing")
			a.hidden = gen.Pick(r, accts)
			a.args = append(a.args, "--hidden", a.hidden)
		}
		divs := []string{"_", "/", "a", "&", "B", ":B", "A:", ":Ba", "et:"}
		double := false
		for _, x := range gen.Accounts(rb) {
			if strings.Contains(x, ":::") { // no telling which two of the three divide
				double = false
				break
			}
			double = double || strings.Contains(x, "::")
		}
		if double {
			divs = []string{"::"}
		}
		if r.Intn(5) == 0 || double && r.Intn(4) > 0 {
			a.div = gen.Pick(r, divs)
			a.args = append(a.args, "--divider", a.div)
		}
	}
	a.args = append(a.args, a.ops...)
	return a, rb
}

// what the report shows
func (a reportArgs) expect(rb *ref.Book, now int) []ref.Period {
	if a.by != "skip" {
		rb = rb.SplitBy(a.by, now)
	}
	if a.convert {
		rb = rb.Convert(a.base)
	}
	if !a.sum {
		return rb.Plain()
	}
	var credit *regexp.Regexp
	if a.credit != "" {
		credit = regexp.MustCompile(a.credit)
	}
	return rb.Sum(a.base, a.div, credit, a.hidden)
}

func (a reportArgs) with(more ...string) []string {
	return append([]string{a.args[0]}, append(more, a.args[1:]...)...)
}

func f64(v *big.Rat) float64 { f, _ := v.Float64(); return f + 0 }

// the JSON report
func jsonReport(c *frame.Case, main string, args []string) []jsonTx {
	out, err := sut.Exec(main, args...)
	if err != nil {
		c.Fail("%q fails: %v", args, err)
	}
	js, err := parseJSONTxs(out)
	if err != nil {
		c.Fail("%q: not the JSON of a report: %v\n%s", args, err, out)
	}
	return js
}

func rowStrings(p ref.Period) []string {
	var out []string
	for _, r := range p.Rows {
		f, _ := r.Amt.Float64()
		out = append(out, fmt.Sprintf("%q %q %v", r.Acct, r.CCY, f+0))
	}
	return out
}

func sumCheck(c *frame.Case, order bool) {
	l, main := reportLedger(c, gen.Options{})
	if c.R.Intn(250) == 0 {
		n := 120 + c.R.Intn(300)
		if c.R.Intn(4) == 0 {
			n = 1001 + c.R.Intn(200)
		}
		l, main = wideLedger(c, n)
	}
	a, rb := randomReport(c, l, true)
	c.Artefact("args", fmt.Sprintf("%q", a.args))
	var js []jsonTx
	now := today()
	js = jsonReport(c, main, a.with("--type", "Json"))
	if now != today() {
		return
	}
	want := a.expect(rb, now)
	if len(js) != len(want) {
		c.Fail("%q: %d periods, expected %d", a.args, len(js), len(want))
	}
	heads := 0
	for i, p := range want {
		d, err := jsonDate(js[i].Date)
		if err != nil || d != p.Date || js[i].Payee != p.Payee {
			c.Fail("%q: period %d is %s %q, expected %d %q", a.args, i, js[i].Date, js[i].Payee, p.Date, p.Payee)
		}
		found := false
		for _, n := range p.Notes {
			found = found || n == js[i].Note
		}
		if !found {
			c.Fail("%q: period %d has note %q, expected one of %q", a.args, i, js[i].Note, p.Notes)
		}
		if js[i].Note != "" {
			c.Count("transaction notes", 1)
		}
		var got []string
		for _, q := range js[i].Posts {
			got = append(got, fmt.Sprintf("%q %q %v", q.Account, q.CCY, *q.Amount+0))
		}
		exp := rowStrings(p)
		if !order {
			sort.Strings(got)
			sort.Strings(exp)
		}
		if df := diffLines(got, exp); df != "" {
			c.Fail("%q: period %d: %s\ngot\n  %s\nexpected\n  %s", a.args, p.Date, df, strings.Join(got, "\n  "), strings.Join(exp, "\n  "))
		}
		c.Count("rows compared", len(got))
		for _, r := range p.Rows {
			if r.Heading {
				heads++
			}
		}
	}
	c.Count("headings", heads)
	if order && len(want) > 0 {
		textReport(c, main, a, want)
	}
	if heads > 1 || heads > 0 && !order {
		c.Nontrivial(l.Text(), a.args)
		c.Sample("%q: %d periods, %d headings", a.args, len(want), heads)
	}
}

// the Text report of these periods
func textReport(c *frame.Case, main string, a reportArgs, want []ref.Period) {
	args := a.with("--type", "Text", "--colour=false")
	now := today()
	out, err := sut.Exec(main, args...)
	if now != today() {
		return
	}
	if err != nil {
		c.Fail("%q fails: %v", args, err)
	}
	lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	head := strings.Fields(lines[0])
	if len(head) != len(want)+1 || head[0] != "Account" {
		c.Fail("%q: header %q for %d periods", args, lines[0], len(want))
	}
	for i, p := range want {
		if head[i+1] != ref.DateString(p.Date) {
			c.Fail("%q: column %d is %s, expected %s", args, i, head[i+1], ref.DateString(p.Date))
		}
	}
	lines = lines[1:]
	last := want[len(want)-1]
	for i, r := range last.Rows {
		if i > 0 && r.Level == 0 {
			if len(lines) == 0 || strings.TrimSpace(lines[0]) != "" {
				c.Fail("%q: no empty line before row %d (%s)\n%s", args, i, r.Acct, out)
			}
			lines = lines[1:]
		}
		if len(lines) == 0 {
			c.Fail("%q: only %d rows of %d\n%s", args, i, len(last.Rows), out)
		}
		ln := lines[0]
		lines = lines[1:]
		prefix := strings.Repeat("  ", r.Level) + r.Term
		if !strings.HasPrefix(ln, prefix) || r.Term != "" && !strings.HasPrefix(ln[len(prefix):], " ") {
			c.Fail("%q: row %d is %q, expected %q (level %d of %s)\n%s", args, i, ln, prefix, r.Level, r.Acct, out)
		}
		rest := ln[len(prefix):]
		for _, p := range want {
			// the same row in this period
			var v *big.Rat
			for _, x := range p.Rows {
				if x.Acct == r.Acct && x.CCY == r.CCY && x.Heading == r.Heading {
					v = x.Amt
				}
			}
			if v == nil {
				frame.Broken("row %v is missing from a period", r)
			}
			rest = strings.TrimLeft(rest, " ")
			if !strings.HasPrefix(rest, r.CCY) {
				c.Fail("%q: row %d (%q): expected an amount in %s, got %q\n%s", args, i, ln, r.CCY, rest, out)
			}
			rest = strings.TrimLeft(rest[len(r.CCY):], " ")
			num := rest
			if k := strings.Index(rest, " "); k >= 0 {
				num = rest[:k]
			}
			rest = rest[len(num):]
			if d := nearText(num, v); d != "" {
				c.Fail("%q: row %d (%q): %s\n%s", args, i, ln, d, out)
			}
			c.Count("cells compared", 1)
		}
		if strings.TrimSpace(rest) != "" {
			c.Fail("%q: row %d: extra text %q\n%s", args, i, rest, out)
		}
	}
	if len(lines) > 0 {
		c.Fail("%q: extra rows %q\n%s", args, lines, out)
	}
}

// is the (English) text this amount, rounded to the decimals it has
func nearText(s string, v *big.Rat) string {
	if !numRe.MatchString(s) && !plainNumRe.MatchString(s) {
		return fmt.Sprintf("%q is not a number", s)
	}
	g, ok := new(big.Rat).SetString(strings.ReplaceAll(s, ",", ""))
	if !ok {
		return fmt.Sprintf("%q is not a number", s)
	}
	dec := 0
	if i := strings.Index(s, "."); i >= 0 {
		dec = len(s) - i - 1
	}
	return near(g, v, dec, s)
}

func near(g, v *big.Rat, dec int, s string) string {
	diff := new(big.Rat).Sub(g, v)
	diff.Abs(diff)
	lim := new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(dec)), nil))
	lim.Mul(lim, big.NewRat(501, 1000))
	// floats have 15 digits
	fl := new(big.Rat).Abs(v)
	fl.Mul(fl, big.NewRat(1, 1e15))
	lim.Add(lim, fl)
	if diff.Cmp(lim) > 0 {
		return fmt.Sprintf("%q is shown for %s (%v)", s, v.RatString(), f64(v))
	}
	return ""
}

func convertCheck(c *frame.Case) {
	r := c.R
	o := gen.Options{NPrices: 1 + r.Intn(30)}
	if r.Intn(4) == 0 {
		o.NPrices = 1
	}
	o.CCYs = gen.Sub(r, gen.AllCCYs, 2+r.Intn(4))
	l, main := reportLedger(c, o)
	a, rb := randomReport(c, l, r.Intn(4) == 0)
	for len(a.args) > 0 && !a.convert {
		a, rb = randomReport(c, l, r.Intn(4) == 0)
	}
	now := today()
	js := jsonReport(c, main, a.with("--type", "Json"))
	if now != today() {
		return
	}
	want := a.expect(rb, now)
	if len(js) != len(want) {
		c.Fail("%q: %d periods, expected %d", a.args, len(js), len(want))
	}
	for i, p := range want {
		var got []string
		for _, q := range js[i].Posts {
			if q.CCY != a.base {
				c.Fail("%q: amount in %s", a.args, q.CCY)
			}
			got = append(got, fmt.Sprintf("%q %q %v", q.Account, q.CCY, *q.Amount+0))
		}
		exp := rowStrings(p)
		sort.Strings(got)
		sort.Strings(exp)
		if df := diffLines(got, exp); df != "" {
			c.Fail("%q: %d: %s", a.args, p.Date, df)
		}
		c.Count("amounts compared", len(got))
	}
	// exact, by the ledger form, where finite: balance to the last digit
	if !a.sum {
		out, err := sut.Exec(main, a.with("--type", "Ledger")...)
		if err != nil {
			c.Fail("%q fails: %v", a.args, err)
		}
		txs, _, err := parseLedgerOut(out)
		if err != nil {
			c.Fail("%q: %v\n%s", a.args, err, out)
		}
		if now == today() {
			if len(txs) != len(want) {
				c.Fail("%q: %d transactions, expected %d", a.args, len(txs), len(want))
			}
			for i, p := range want {
				fin := true
				for k, row := range p.Rows {
					if k >= len(txs[i].Posts) {
						c.Fail("%q: transaction %d has %d postings, expected %d\n%s", a.args, i, len(txs[i].Posts), len(p.Rows), out)
					}
					q := txs[i].Posts[k]
					if ref.NeededDecimals(row.Amt) < 0 {
						fin = false
						continue
					}
					if q.Acct != row.Acct || q.CCY != row.CCY || q.Amt.Cmp(row.Amt) != 0 {
						c.Fail("%q: transaction %d: %s %s %s, expected %s %s %s", a.args, i, q.Acct, q.CCY, q.Amt.RatString(), row.Acct, row.CCY, row.Amt.RatString())
					}
					c.Count("exact amounts compared", 1)
				}
				if fin {
					if d := diffBalanced(txs[i : i+1]); d != "" {
						c.Fail("%q: %s", a.args, d)
					}
					c.Count("balances of converted transactions", 1)
				}
			}
		}
	}
	// register --convert
	rre := gen.Regex(r, gen.Accounts(l.Book))
	cv := l.Book.Convert(a.base)
	checkRegister(c, main, cv, a.base, regArgs{re: rre, combined: true, convert: true, split: r.Intn(2) == 0, typ: "JSON"})

	// no base currency
	for _, args := range [][]string{{"report", "--convert"}, {"report", "--sum"}, {"register", "--convert", "--type", "Text", ".*"}, {"register", "--convert", "--combined", "--type", "CSV", ".*"}} {
		out, err := sut.Exec(main, args...)
		if err == nil {
			c.Fail("%q without a currency succeeds:\n%s", args, out)
		}
		if i := strings.Index(out, "Usage:"); strings.TrimSpace(out) != "" && i != 0 {
			c.Fail("%q without a currency prints:\n%s", args, out)
		}
		c.Count("without currency", 1)
	}
	conv := 0
	for _, t := range l.Book.Txs {
		for _, p := range t.Posts {
			if v, _ := l.Book.Price(t.Date, p.CCY, a.base); v.Cmp(big.NewRat(1, 1)) != 0 {
				conv++
			}
		}
	}
	if conv > 0 {
		c.Nontrivial(l.Text(), a.args)
		c.Sample("%q: %d postings with a price", a.args, conv)
	}
}

type htmlRow struct {
	level     int
	acct, amt string
	class     string
}
type htmlReport struct {
	date, payee string
	rows        []htmlRow
}

var indentRe = regexp.MustCompile(`^post indent(\d+) `)

// parse the HTML report strictly
func parseHTML(out string) ([]htmlReport, error) {
	dec := xml.NewDecoder(strings.NewReader(out))
	dec.Strict = true
	var stack []string
	var reps []htmlReport
	var text strings.Builder
	boxes := 0
	for {
		tok, err := dec.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		switch t := tok.(type) {
		case xml.StartElement:
			cl := ""
			for _, at := range t.Attr {
				if at.Name.Local == "class" {
					cl = at.Value
				}
			}
			name := t.Name.Local
			if cl != "" {
				name = cl
			}
			parent := ""
			if len(stack) > 0 {
				parent = stack[len(stack)-1]
			}
			stack = append(stack, name)
			text.Reset()
			switch {
			case name == "report":
				if parent != "reports" {
					return nil, fmt.Errorf("report within %q", parent)
				}
				reps = append(reps, htmlReport{})
			case name == "posts":
				boxes = 0
			case name == "indentbox":
				if parent != "indentbox" && parent != "posts" {
					return nil, fmt.Errorf("indentbox within %q", parent)
				}
				boxes++
			case indentRe.MatchString(name):
				n, _ := strconv.Atoi(indentRe.FindStringSubmatch(name)[1])
				if n != boxes {
					return nil, fmt.Errorf("post of level %d within %d boxes", n, boxes)
				}
				if parent != "indentbox" && parent != "posts" {
					return nil, fmt.Errorf("post within %q", parent)
				}
				r := &reps[len(reps)-1]
				r.rows = append(r.rows, htmlRow{level: n, class: name})
			}
		case xml.EndElement:
			name := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if len(reps) > 0 {
				r := &reps[len(reps)-1]
				switch {
				case name == "date":
					r.date = text.String()
				case name == "payee":
					r.payee = text.String()
				case name == "indentbox":
					boxes--
				case name == "account":
					r.rows[len(r.rows)-1].acct = text.String()
				case strings.HasPrefix(name, "amount "):
					r.rows[len(r.rows)-1].amt = text.String()
					r.rows[len(r.rows)-1].class += " " + name
				}
			}
			text.Reset()
		case xml.CharData:
			text.Write(t)
			if len(stack) > 0 {
				switch s := stack[len(stack)-1]; {
				case s == "date", s == "payee", s == "account", strings.HasPrefix(s, "amount "), s == "style":
				default:
					if strings.TrimSpace(string(t)) != "" {
						return nil, fmt.Errorf("text %q within %q", t, s)
					}
				}
			}
		case xml.Comment, xml.Directive, xml.ProcInst:
			return nil, fmt.Errorf("unexpected markup")
		}
	}
	if len(stack) > 0 {
		return nil, fmt.Errorf("not closed: %q", stack)
	}
	return reps, nil
}

func htmlCheck(c *frame.Case) {
	r := c.R
	o := gen.Options{Txs: 1 + r.Intn(10)}
	if r.Intn(2) == 0 {
		o.CCYs = gen.Sub(r, append([]string{"<b>", "a&b", "&amp;", "<i>", "'q'", ">", "&#38;"}, gen.AllCCYs...), 3)
		o.Payees = gen.Sub(r, append([]string{"<script>alert(1)</script>", "&lt;", "</div></div>", "]]>", "<!-- x", "a<b>c", "&copy; & co", "'", "%s%d", "<div class=\"post\">"}, gen.AllPayees...), 8)
	}
	l, main := reportLedger(c, o)
	a, rb := randomReport(c, l, r.Intn(2) == 0)
	css := ""
	if r.Intn(3) == 0 {
		css = gen.Pick(r, []string{"div { color: red; }", "", "a", "/* %s %d %% */", "div.report > .account { content: 'file:'; }\n\n.x:after { content: \"\\00a9\"; width: 50% }", "p{color:#é}"})
		arg := css
		if r.Intn(2) == 0 && css != "" {
			arg = "file:" + c.Write("my style.css", css)
		}
		a.args = a.with("--htmlcss", arg)
		c.Count("style sheets given", 1)
	}
	lang := gen.Pick(r, []string{"en", "de", "fr", "en"})
	args := a.with("--type", "HTML", "--lang", lang)
	c.Artefact("args", fmt.Sprintf("%q", args))
	now := today()
	out, err := sut.Exec(main, args...)
	if err != nil {
		c.Fail("%q fails: %v", args, err)
	}
	js := jsonReport(c, main, a.with("--type", "Json"))
	if now != today() {
		return
	}
	reps, err := parseHTML(out)
	if err != nil {
		c.Fail("%q: HTML is not well formed: %v\n%s", args, err, cutText(out, 4000))
	}
	style := ""
	if i, j := strings.Index(out, "<style>"), strings.Index(out, "</style>"); i >= 0 && i < j {
		style = strings.TrimSpace(out[i+len("<style>") : j])
	}
	if css != "" && style != css || style == "" {
		c.Fail("%q: the style sheet is %q", args, style)
	}
	if len(reps) != len(js) {
		c.Fail("%q: %d reports, JSON has %d", args, len(reps), len(js))
	}
	want := a.expect(rb, now)
	n := 0
	for i, j := range js {
		h := reps[i]
		d, err := jsonDate(j.Date)
		if err != nil {
			c.Fail("%q: %v", args, err)
		}
		if h.date != ref.DateString(d) || h.payee != j.Payee {
			c.Fail("%q: report %d is of %q %q, JSON %q %q", args, i, h.date, h.payee, j.Date, j.Payee)
		}
		if len(h.rows) != len(j.Posts) || len(want) != len(js) || len(want[i].Rows) != len(h.rows) {
			c.Fail("%q: report %d has %d rows, JSON has %d", args, i, len(h.rows), len(j.Posts))
		}
		for k, row := range h.rows {
			p := j.Posts[k]
			w := want[i].Rows[k]
			if w.Acct != p.Account || w.CCY != p.CCY {
				// reported by C15; the rows have to be the same here
				frame.Broken("reference differs from JSON in row %d of %q", k, args)
			}
			if row.acct != w.Term || row.level != w.Level {
				c.Fail("%q: report %d: row %d is %q at level %d, expected %q at %d", args, i, k, row.acct, row.level, w.Term, w.Level)
			}
			if !strings.HasPrefix(row.amt, p.CCY) {
				c.Fail("%q: report %d: row %d is %q, JSON has %q %v", args, i, k, row.amt, p.CCY, *p.Amount)
			}
			num := strings.TrimPrefix(strings.TrimPrefix(row.amt, p.CCY), " ")
			v, dec := parseNumber(num, lang)
			if v == nil {
				c.Fail("%q: report %d: row %d: %q is not a number", args, i, k, row.amt)
			}
			f, _ := new(big.Rat).SetString(strconv.FormatFloat(*p.Amount, 'g', -1, 64))
			if d := near(v, f, dec, num); d != "" {
				c.Fail("%q: report %d: row %d: %s", args, i, k, d)
			}
			neg := strings.Contains(row.class, "amount neg")
			if neg != (*p.Amount < 0) {
				c.Fail("%q: report %d: row %d %v has class %q", args, i, k, *p.Amount, row.class)
			}
			n++
		}
	}
	c.Count("rows compared", n)
	if n > 1 {
		c.Nontrivial(l.Text(), args)
		c.Sample("%q: %d reports, %d rows", args, len(reps), n)
	}
}

// number in the style of a language: value and decimals (nil if it isn't one)
func parseNumber(s, lang string) (*big.Rat, int) {
	group, point := ",", "."
	switch lang {
	case "de", "nl":
		group, point = ".", ","
	case "fr":
		group, point = "\u00a0", ","
		if strings.Contains(s, "\u202f") {
			group = "\u202f"
		}
	case "en":
	default:
		return nil, 0
	}
	for _, r := range s {
		if !(r >= '0' && r <= '9' || string(r) == group || string(r) == point || r == '-') || unicode.IsLetter(r) {
			return nil, 0
		}
	}
	parts := strings.Split(s, point)
	if len(parts) > 2 || strings.Contains(parts[len(parts)-1], group) && len(parts) == 2 {
		return nil, 0
	}
	// groups of three
	ip := strings.TrimPrefix(parts[0], "-")
	for i, g := range strings.Split(ip, group) {
		if i > 0 && len(g) != 3 || len(g) == 0 || i == 0 && len(g) > 3 {
			return nil, 0
		}
	}
	t := strings.ReplaceAll(parts[0], group, "")
	dec := 0
	if len(parts) == 2 {
		t += "." + parts[1]
		dec = len(parts[1])
	}
	v, ok := new(big.Rat).SetString(t)
	if !ok {
		return nil, 0
	}
	return v, dec
}

// several prices of a pair on the same date (after mapccy=) leave open which one counts
func ambiguousPrices(b *ref.Book) bool {
	type k struct {
		d    int
		u, c string
	}
	have := map[k]*big.Rat{}
	for _, p := range b.Prices {
		x := k{p.Date, p.Unit, p.CCY}
		if v := have[x]; v != nil && v.Cmp(p.Val) != 0 {
			return true
		}
		have[x] = p.Val
	}
	return false
}
