package props

import (
	"encoding/json"
	"fmt"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"unicode"

	"verif/harness/frame"
	"verif/harness/gen"
	"verif/harness/ref"
	"verif/harness/sut"
)

func init() {
	frame.Register(&frame.Check{
		ID: "C18", Quick: 8000, Thorough: 300000,
		Rule: "one evaluation: a register (joined or split, any base currency, after random operations) compared entry by entry with the reference: in JSON and, exactly, through the exported extraction; non-trivial: at least two entries, distinct by ledger and arguments",
		Run:  registerCheck,
	})
	frame.Register(&frame.Check{
		ID: "C19", Quick: 6000, Thorough: 200000,
		Rule: "one evaluation: a register with random window, count and order in JSON, CSV and Text, combined or per account, all three compared with the reference, and an invalid date; non-trivial: the options drop or reorder at least one entry, distinct by ledger and arguments",
		Run:  registerWindowCheck,
	})
}

type regArgs struct {
	re                       string
	combined, convert, split bool
	typ                      string
	begin, asof              string
	count                    int
	asc, all, nocolour       bool
	lang                     string
	ops                      []string
}

func (a regArgs) args(base string) []string {
	args := []string{"register"}
	if base != "" {
		args = append(args, "--ccy", base)
	}
	for _, f := range []struct {
		on   bool
		flag string
	}{{a.combined, "--combined"}, {a.convert, "--convert"}, {a.split, "--split"}, {a.asc, "--asc"}, {a.all, "--all"}, {a.nocolour, "--colour=false"}} {
		if f.on {
			args = append(args, f.flag)
		}
	}
	for _, f := range [][2]string{{"--type", a.typ}, {"--begin", a.begin}, {"--asof", a.asof}, {"--lang", a.lang}} {
		if f[1] != "" {
			args = append(args, f[0], f[1])
		}
	}
	if a.count != 0 {
		args = append(args, "--count", strconv.Itoa(a.count))
	}
	args = append(args, a.ops...)
	return append(args, a.re)
}

type jsonEntry struct {
	Date           string   `json:"date"`
	Account        string   `json:"account"`
	Payee          string   `json:"payee"`
	CounterAccount string   `json:"counterAccount"`
	Amount         *float64 `json:"amount"`
	CCY            string   `json:"ccy"`
	Balance        *float64 `json:"balance"`
	Note           string   `json:"note"`
	TNote          string   `json:"tnote"`
	BaseCCY        string
	BaseAmount     *float64
	BaseSource     string
	BaseBalance    *float64
}

// sections of a register: per account ("" if combined), the rest of the output is undecoded
type regSection struct {
	acct string
	body []ref.Entry
}

// the entries the options select (min, max are dates or 0)
func (a regArgs) pick(all []ref.Entry, min, max int) []ref.Entry {
	var out []ref.Entry
	for _, e := range all {
		if (min == 0 || e.Date >= min) && (max == 0 || e.Date < max) {
			out = append(out, e)
		}
	}
	if a.count > 0 && len(out) > a.count {
		out = out[:a.count]
	}
	if a.count < 0 && len(out) > -a.count {
		out = out[len(out)+a.count:]
	}
	if !a.asc {
		var rev []ref.Entry
		for i := len(out) - 1; i >= 0; i-- {
			rev = append(rev, out[i])
		}
		out = rev
	}
	return out
}

func (a regArgs) sections(rb *ref.Book, base string, min, max int) []regSection {
	re := regexp.MustCompile(a.re)
	if a.combined {
		return []regSection{{"", a.pick(rb.Register(base, re, a.split), min, max)}}
	}
	var out []regSection
	for _, acct := range rb.AccountList(re, a.all) {
		out = append(out, regSection{acct, a.pick(rb.Register(base, regexp.MustCompile("^"+regexp.QuoteMeta(acct)+"$"), a.split), min, max)})
	}
	return out
}

func sameFloat(f *float64, v *big.Rat) bool {
	if f == nil {
		return false
	}
	w, _ := v.Float64()
	return *f == w
}

// run the register and compare what it prints with the entries of rb, an already converted
// and operated book
func checkRegister(c *frame.Case, main string, rb *ref.Book, base string, a regArgs) {
	checkRegisterWin(c, main, rb, base, a, 0, 0)
}

func checkRegisterWin(c *frame.Case, main string, rb *ref.Book, base string, a regArgs, min, max int) int {
	args := a.args(base)
	c.Artefact("args", fmt.Sprintf("%q", args))
	out, err := sut.Exec(main, args...)
	if err != nil {
		c.Fail("%q fails: %v", args, err)
	}
	return diffRegister(c, args, out, a.sections(rb, base, min, max), base, a)
}

func diffRegister(c *frame.Case, args []string, out string, secs []regSection, base string, a regArgs) int {
	rest := stripAnsi(out)
	if rest != out && a.nocolour {
		c.Fail("%q: escape sequences without colour", args)
	}
	n := 0
	for i, s := range secs {
		if !a.combined {
			head := "\n" + s.acct + "\n"
			if !strings.HasPrefix(rest, head) {
				c.Fail("%q: section %d isn't that of %s: %q", args, i, s.acct, cutText(rest, 300))
			}
			rest = rest[len(head):]
		}
		switch a.typ {
		case "JSON":
			rest = jsonSection(c, args, rest, s.body, base)
		case "CSV":
			rest = csvSection(c, args, rest, s.body)
		case "Text":
			rest = textSection(c, args, rest, s.body, a.combined)
		}
		n += len(s.body)
	}
	if strings.TrimSpace(rest) != "" {
		c.Fail("%q: more than expected: %q", args, cutText(rest, 300))
	}
	c.Count(a.typ+" entries compared", n)
	return n
}

func entryString(e ref.Entry) string {
	return fmt.Sprintf("%d %q %q against %q %s %s, balance %s", e.Date, e.Payee, e.Acct, e.Counter, e.CCY, e.Amt.RatString(), e.Bal.RatString())
}

func jsonSection(c *frame.Case, args []string, rest string, want []ref.Entry, base string) string {
	dec := json.NewDecoder(strings.NewReader(rest))
	dec.DisallowUnknownFields()
	var got []jsonEntry
	if err := dec.Decode(&got); err != nil {
		c.Fail("%q: not the JSON of a register: %v\n%s", args, err, cutText(rest, 2000))
	}
	if got == nil {
		c.Fail("%q: no list: %q", args, cutText(rest, 200))
	}
	for i, w := range want {
		if i >= len(got) {
			c.Fail("%q: only %d entries, next expected %s", args, len(got), entryString(w))
		}
		g := got[i]
		d, err := jsonDate(g.Date)
		if err != nil || d != w.Date || g.Payee != w.Payee || g.Account != w.Acct || g.CounterAccount != w.Counter || g.CCY != w.CCY ||
			!sameFloat(g.Amount, w.Amt) || !sameFloat(g.Balance, w.Bal) {
			c.Fail("%q: entry %d is %+v (amount %v balance %v), expected %s", args, i, g, val(g.Amount), val(g.Balance), entryString(w))
		}
		if !ref.Has(w.Notes, g.Note) || !ref.Has(w.TNotes, g.TNote) {
			c.Fail("%q: entry %d has notes %q and %q, expected %q and %q", args, i, g.Note, g.TNote, w.Notes, w.TNotes)
		}
		ok := false
		for _, r := range w.Rates {
			if g.BaseSource == r.Source && sameFloat(g.BaseAmount, new(big.Rat).Mul(r.Val, w.Amt)) {
				ok = true
			}
		}
		if !ok || g.BaseCCY != base || g.BaseBalance == nil {
			c.Fail("%q: entry %d (%s): base amount %s %v (%s), expected rates %v", args, i, entryString(w), g.BaseCCY, val(g.BaseAmount), g.BaseSource, w.Rates)
		}
	}
	if len(got) > len(want) {
		c.Fail("%q: %d entries, expected %d: %+v", args, len(got), len(want), got[len(want)])
	}
	return rest[dec.InputOffset():]
}

func val(f *float64) interface{} {
	if f == nil {
		return "none"
	}
	return *f
}

func csvSection(c *frame.Case, args []string, rest string, want []ref.Entry) string {
	head := "date,payee,account,counterAccount,ccy,amount,balance\n"
	if !strings.HasPrefix(rest, head) {
		c.Fail("%q: no CSV header: %q", args, cutText(rest, 300))
	}
	rest = rest[len(head):]
	// up to the next section
	body := rest
	if strings.HasPrefix(rest, "\n") {
		body = ""
	} else if i := strings.Index(rest, "\n\n"); i >= 0 {
		body = rest[:i+1]
	}
	rows, err := parseCSV(body)
	if err != nil {
		c.Fail("%q: invalid CSV: %v\n%s", args, err, body)
	}
	for i, w := range want {
		if i >= len(rows) {
			c.Fail("%q: only %d entries, next expected %s", args, len(rows), entryString(w))
		}
		g := rows[i]
		if len(g) != 7 || g[0] != ref.DateString(w.Date) || g[1] != w.Payee || g[2] != w.Acct || g[3] != w.Counter || g[4] != w.CCY {
			c.Fail("%q: entry %d is %q, expected %s", args, i, g, entryString(w))
		}
		for k, v := range []*big.Rat{w.Amt, w.Bal} {
			if strings.Contains(g[5+k], ",") {
				c.Fail("%q: entry %d: number %q", args, i, g[5+k])
			}
			if d := nearText(g[5+k], v); d != "" {
				c.Fail("%q: entry %d: %s", args, i, d)
			}
			if q, ok := new(big.Rat).SetString(g[5+k]); !ok || near(q, v, 6, g[5+k]) != "" { // always up to 6 decimals
				c.Fail("%q: entry %d: %s isn't %s to 6 decimals", args, i, g[5+k], v.RatString())
			}
		}
	}
	if len(rows) > len(want) {
		c.Fail("%q: %d entries, expected %d: %q", args, len(rows), len(want), rows[len(want)])
	}
	return rest[len(body):]
}

// as a table shows a text
func shown(s string) string {
	var sb strings.Builder
	for _, r := range s {
		switch {
		case r == '\t':
			sb.WriteByte(' ')
		case unicode.IsGraphic(r):
			sb.WriteRune(r)
		}
	}
	return strings.Trim(sb.String(), " ")
}

func textSection(c *frame.Case, args []string, rest string, want []ref.Entry, withAcct bool) string {
	line := func() string {
		i := strings.IndexByte(rest, '\n')
		if i < 0 {
			c.Fail("%q: output ends early", args)
		}
		l := rest[:i]
		rest = rest[i+1:]
		return l
	}
	head := strings.Join(strings.Fields(line()), " ")
	wh := "Date Payee Counteraccount Amount Balance"
	if withAcct {
		wh = "Date Payee Account Counteraccount Amount Balance"
	}
	if head != wh {
		c.Fail("%q: header %q", args, head)
	}
	for i, w := range want {
		ln := line()
		s := ln
		need := func(cell string) {
			s = strings.TrimLeft(s, " ")
			if !strings.HasPrefix(s, cell) {
				c.Fail("%q: entry %d %q: expected %q at %q (%s)", args, i, ln, cell, s, entryString(w))
			}
			s = s[len(cell):]
		}
		need(ref.DateString(w.Date))
		need(shown(w.Payee))
		if withAcct {
			need(w.Acct)
		}
		need(w.Counter)
		for _, v := range []*big.Rat{w.Amt, w.Bal} {
			need(shown(w.CCY))
			s = strings.TrimLeft(s, " ")
			num := s
			if k := strings.IndexByte(s, ' '); k >= 0 {
				num = s[:k]
			}
			s = s[len(num):]
			if d := nearText(num, v); d != "" {
				c.Fail("%q: entry %d %q: %s", args, i, ln, d)
			}
		}
		if strings.TrimSpace(s) != "" {
			c.Fail("%q: entry %d %q: extra text %q", args, i, ln, s)
		}
	}
	if rest != "" && !strings.HasPrefix(rest, "\n") {
		c.Fail("%q: more than the expected %d entries: %q", args, len(want), cutText(rest, 300))
	}
	return rest
}

func randomRegister(c *frame.Case, l *gen.Ledger) (regArgs, *ref.Book, string) {
	r := c.R
	rb := l.Book
	a := regArgs{typ: "JSON", asc: r.Intn(2) == 0, split: r.Intn(2) == 0, all: r.Intn(3) == 0, combined: r.Intn(3) > 0, nocolour: r.Intn(2) == 0}
	base := ""
	if r.Intn(4) > 0 {
		base = gen.Pick(r, append(gen.CCYs(l.Book), "USD"))
	}
	if base != "" && r.Intn(5) == 0 && !ambiguousPrices(rb) {
		// before the operations
		a.convert, rb = true, rb.Convert(base)
		c.Count("converted", 1)
	}
	for i := r.Intn(3); i > 0; i-- {
		op := gen.RandomOp(r, rb)
		nb := op.Apply(rb)
		if len(nb.Txs) > 300 || ambiguousPrices(nb) {
			continue
		}
		rb = nb
		a.ops = append(a.ops, op.Text)
	}
	a.re = gen.Regex(r, gen.Accounts(rb))
	if r.Intn(20) == 0 {
		a.re = ""
	}
	return a, rb, base
}

func registerCheck(c *frame.Case) {
	r := c.R
	o := gen.Options{}
	if r.Intn(3) == 0 { // large transactions of few currencies
		o.CCYs = gen.Sub(r, gen.AllCCYs, 1+r.Intn(2))
		if r.Intn(12) == 0 { // a long history
			o.Txs = 60 + r.Intn(140)
		}
	}
	l, main := reportLedger(c, o)
	if r.Intn(25) == 0 { // very many counteraccounts
		for i := 0; i < 200; i++ {
			o.Accts = append(o.Accts, fmt.Sprintf("%s:N%03d", gen.Pick(r, []string{"Asset", "Expense", "Income"}), i))
		}
		o.CCYs = gen.Sub(r, gen.AllCCYs, 1)
		o.Txs = 6 + r.Intn(30)
		l = gen.New(r, o)
		main = writeLedger(c, l)
	}
	wide := r.Intn(160) == 0
	if wide {
		l, main = wideLedger(c, 60+r.Intn(140))
	}
	a, rb, base := randomRegister(c, l)
	if wide {
		a.split = false // very many entries
	}
	n := checkRegisterWin(c, main, rb, base, a, 0, 0)

	if a.convert {
		if n > 1 {
			c.Nontrivial(l.Text(), a.args(base))
		}
		return
	}
	// exactly, through the exported extraction
	b := load(c, main)
	if len(a.ops) > 0 {
		if err := sut.Ops(b, a.ops...); err != nil {
			c.Fail("%q fails: %v", a.ops, err)
		}
	}
	re := regexp.MustCompile(a.re)
	want := rb.Register(base, re, a.split)
	got := sut.Register(b, base, re, a.split)
	if len(got) != len(want) {
		c.Fail("%q: %d entries, expected %d", a.args(base), len(got), len(want))
	}
	sums := map[int]*big.Rat{}
	post := map[int]*big.Rat{}
	total := new(big.Rat)
	for i, w := range want {
		g := got[i]
		if g.Date != w.Date || g.Acct != w.Acct || g.Counter != w.Counter || g.CCY != w.CCY || g.Amt.Cmp(w.Amt) != 0 || g.Bal.Cmp(w.Bal) != 0 {
			c.Fail("%q: entry %d is %d %s %s %s %s %s, expected %s", a.args(base), i, g.Date, g.Acct, g.Counter, g.CCY, g.Amt.RatString(), g.Bal.RatString(), entryString(w))
		}
		if sums[w.Posting] == nil {
			sums[w.Posting] = new(big.Rat)
		}
		sums[w.Posting].Add(sums[w.Posting], g.Amt)
		post[w.Posting] = w.PostAmt
		ok := false
		for _, q := range w.Rates {
			if g.BaseAmt.Cmp(new(big.Rat).Mul(q.Val, w.Amt)) == 0 {
				ok = true
			}
			c.Count("rate: "+q.Source, 1)
		}
		if !ok {
			c.Fail("%q: entry %d (%s): base amount %s, expected rates %v", a.args(base), i, entryString(w), g.BaseAmt.RatString(), w.Rates)
		}
		total.Add(total, g.BaseAmt)
		if total.Cmp(g.BaseBal) != 0 {
			c.Fail("%q: entry %d (%s): base balance %s, the sum of the base amounts is %s", a.args(base), i, entryString(w), g.BaseBal.RatString(), total.RatString())
		}
	}
	for k, v := range sums {
		if v.Cmp(post[k]) != 0 {
			c.Fail("%q: entries of posting %d sum to %s, it is %s", a.args(base), k, v.RatString(), post[k].RatString())
		}
	}
	c.Count("exact entries compared", len(want))
	if n > 1 {
		c.Nontrivial(l.Text(), a.args(base))
		c.Sample("%q: %d entries", a.args(base), n)
	}
}

// a date in one of its forms
func dateForm(c *frame.Case, d int) (string, int) {
	y, m, dd := d/10000, d/100%100, d%100
	switch c.R.Intn(9) {
	case 0:
		return fmt.Sprintf("%04d", y), y*10000 + 101
	case 1:
		return fmt.Sprintf("%04d-%02d", y, m), y*10000 + m*100 + 1
	case 2:
		return fmt.Sprintf("%04d-%02d-%02d", y, m, dd), d
	case 3:
		return fmt.Sprintf("%04d.%02d.%02d", y, m, dd), d
	case 4:
		return fmt.Sprintf("%04d%02d%02d", y, m, dd), d
	case 5:
		return fmt.Sprintf("%02d/%02d/%04d", dd, m, y), d
	}
	return ref.DateString(d), d
}

func registerWindowCheck(c *frame.Case) {
	r := c.R
	l, main := reportLedger(c, gen.Options{})
	a, rb, base := randomRegister(c, l)
	if r.Intn(3) == 0 {
		a.ops, rb = nil, l.Book
		if a.convert {
			rb = rb.Convert(base)
		}
	}
	if r.Intn(3) == 0 {
		a.re = ".*"
	}
	min, max := 0, 0
	if r.Intn(2) == 0 {
		a.begin, min = dateForm(c, gen.RandomDate(r, rb))
	}
	if r.Intn(2) == 0 {
		a.asof, max = dateForm(c, gen.RandomDate(r, rb))
	}
	if r.Intn(2) == 0 {
		a.count = r.Intn(9) - 4
		if r.Intn(4) == 0 {
			a.count *= 50
		}
	}
	n := 0
	for _, typ := range []string{"JSON", "CSV", "Text"} {
		a.typ = typ
		n = checkRegisterWin(c, main, rb, base, a, min, max)
	}
	// an invalid date is an error
	bad := gen.Pick(r, []string{"2021/02/29", "2020-13-01", "yesterday", "2020/00/10", "31/04/2021", "20201301", "2020-1-1-1", "0000", "12", "next week", "2020/01/32", " ", "x2020"})
	x := a
	x.typ = gen.Pick(r, []string{"JSON", "CSV", "Text"})
	if r.Intn(2) == 0 {
		x.begin = bad
	} else {
		x.asof = bad
	}
	if out, err := sut.Exec(main, x.args(base)...); err == nil {
		c.Fail("%q succeeds:\n%s", x.args(base), cutText(out, 1000))
	} else if strings.TrimSpace(out) != "" && !strings.HasPrefix(out, "Usage:") {
		c.Fail("%q fails, but prints:\n%s", x.args(base), cutText(out, 1000))
	}
	c.Count("invalid dates", 1)

	all := 0
	y := a
	y.count = 0
	for _, s := range y.sections(rb, base, 0, 0) {
		all += len(s.body)
	}
	if n < all {
		c.Count("entries left out", all-n)
	}
	if a.asc {
		c.Count("ascending", 1)
	} else {
		c.Count("descending", 1)
	}
	if all > 1 && (n < all || !a.asc) {
		c.Nontrivial(l.Text(), a.args(base))
		c.Sample("%q: %d of %d entries", a.args(base), n, all)
	}
}
