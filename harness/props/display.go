package props

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"regexp"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"verif/harness/frame"
	"verif/harness/gen"
	"verif/harness/ref"
	"verif/harness/sut"
)

func init() {
	frame.Register(&frame.Check{
		ID: "C29", Quick: 8000, Thorough: 300000,
		Rule: "one evaluation: 20 random strings (escape sequences, wide, combining and unprintable characters, invalid UTF-8, tabs) padded to random widths and looked at character by character, and one Text table (report, register or accts) whose lines, cells and columns are measured, or the table the binary prints on a terminal of random size (with or without a pager) compared with the one it prints elsewhere; non-trivial: the table has at least two lines, or is wider than the terminal",
		Run:  tableCheck,
	})
	frame.Register(&frame.Check{
		ID: "C31", Quick: 8000, Thorough: 300000,
		Rule: "one evaluation: accts with a random expression, as Text and JSON, with and without --all, and the sections of the register, compared with the accounts of the reference; non-trivial: some matching account has a zero balance and some a non-zero one",
		Run:  accountsCheck,
	})
	frame.Register(&frame.Check{
		ID: "C38", Quick: 6000, Thorough: 200000,
		Rule: "one evaluation: the decimals reported by ccy compared with those needed by the amounts of the file, and every amount of an HTML report and of a Text register, in a random language, parsed back in the style of that language and compared exactly, with its number of decimals; non-trivial: some currency needs decimals",
		Run:  decimalsCheck,
	})
}

type cell struct {
	r   rune
	esc string // escape sequence
}

// what a terminal shows of a string: visible characters and escape sequences in order
func terminal(s string) []cell {
	var out []cell
	for i := 0; i < len(s); {
		r, w := utf8.DecodeRuneInString(s[i:])
		if r == '\033' {
			j := strings.IndexByte(s[i:], 'm')
			if j < 0 {
				j = len(s) - i - 1
			}
			out = append(out, cell{esc: strings.ToValidUTF8(s[i:i+j+1], "\uFFFD")})
			i += j + 1
			continue
		}
		i += w
		if r == '\t' {
			r = ' '
		}
		if unicode.IsGraphic(r) {
			out = append(out, cell{r: r})
		}
	}
	return out
}

func visible(s string) []rune {
	var out []rune
	for _, c := range terminal(s) {
		if c.esc == "" {
			out = append(out, c.r)
		}
	}
	return out
}

// a character that moves the cursor by an unknown amount, if the string has any outside escape sequences
func control(s string) string {
	esc := false
	for _, x := range s {
		switch {
		case x == '\033':
			esc = true
		case esc:
			esc = x != 'm'
		case unicode.IsControl(x):
			return fmt.Sprintf("%q", x)
		}
	}
	return ""
}

func escapes(s string) string {
	var out []string
	for _, c := range terminal(s) {
		if c.esc != "" {
			out = append(out, c.esc)
		}
	}
	return fmt.Sprintf("%q", out)
}

var pieces = []string{"a", "Z", "é", "日", "\t", " ", "  ", "\033[0;34m", "\033[0m", "\033[4m", "\033[m", "\x00", "\u200b", "\u0301", "\u00a0", "\u202f", "\n", "\r", "😀", "\x7f", "\u00ad", "m", "[", "0;31m", "word", "Asset:Bank", "-1,234.50"}

func randomCell(r *rand.Rand) string {
	var sb strings.Builder
	for i := r.Intn(12); i > 0; i-- {
		sb.WriteString(gen.Pick(r, pieces))
		if r.Intn(60) == 0 {
			sb.WriteString("\xff\xfe")
		}
		if r.Intn(80) == 0 {
			sb.WriteString("\033[38;5;1" + gen.Pick(r, []string{"m", ";m", "\tm", "\u00e9m"}))
		}
	}
	return sb.String()
}

func tableCheck(c *frame.Case) {
	r := c.R
	for i := 0; i < 20; i++ {
		s := randomCell(r)
		if !utf8.ValidString(s) && strings.Contains(s, "\033") {
			s = strings.ToValidUTF8(s, "?") // keep broken characters out of escape sequences
		}
		w := r.Intn(24)
		left := r.Intn(2) == 0
		vis := visible(s)
		if got := sut.Length(s); got != len(vis) {
			c.Fail("visible length of %q is %d, expected %d", s, got, len(vis))
		}
		p := sut.Pad(s, w, left)
		if x := control(p); x != "" {
			c.Fail("%q padded to %d (left %v) is %q: contains %s, which has no certain width", s, w, left, p, x)
		}
		got := visible(p)
		if len(got) != w {
			c.Fail("%q padded to %d (left %v) is %q: visible width %d", s, w, left, p, len(got))
		}
		if escapes(p) != escapes(s) {
			c.Fail("%q padded to %d (left %v) is %q: escape sequences %s, expected %s", s, w, left, p, escapes(p), escapes(s))
		}
		want := string(vis)
		if len(vis) >= w {
			want = string(vis[:w])
		} else if left {
			want += strings.Repeat(" ", w-len(vis))
		} else {
			want = strings.Repeat(" ", w-len(vis)) + want
		}
		if string(got) != want {
			c.Fail("%q padded to %d (left %v) shows %q, expected %q", s, w, left, string(got), want)
		}
		c.Count("strings padded", 1)
	}
	// tables
	o := gen.Options{Txs: 1 + r.Intn(12)}
	if r.Intn(2) == 0 {
		o.Payees = gen.Sub(r, append([]string{"col\033[0;31mour\033[0m", "a\u200bb", "no\u00a0break", "e\u0301", "😀😀", "\u202ertl", "long " + strings.Repeat("x", 60), "tab\tbed"}, gen.AllPayees...), 8)
	}
	l, main := reportLedger(c, o)
	if r.Intn(150) == 0 {
		l = manyLedger(c, 600+r.Intn(700))
		main = writeLedger(c, l)
		c.Count("tables of a thousand lines", 1)
	} else if r.Intn(60) == 0 {
		l, main = wideLedger(c, 60+r.Intn(140))
		c.Count("tables of hundreds of accounts", 1)
	}
	colour := r.Intn(2) == 0
	lang := gen.Pick(r, []string{"en", "de", "fr", "nl"})
	flags := []string{"--lang", lang}
	if !colour {
		flags = append(flags, "--colour=false")
	}
	lines := 0
	if r.Intn(10) == 0 {
		terminalTable(c, l, main, flags)
		return
	}
	switch r.Intn(3) {
	case 0:
		lines = reportTable(c, l, main, flags)
	case 1:
		lines = registerTable(c, l, main, flags)
	case 2:
		args := append([]string{"accts", "--all"}, flags...)
		out, err := sut.Exec(main, args...)
		if err != nil {
			c.Fail("%q fails: %v", args, err)
		}
		t := table(c, args, out)
		want := []string{"Account"}
		want = append(want, l.Book.AccountList(regexp.MustCompile(""), true)...)
		for i, row := range t {
			if i >= len(want) || strings.TrimRight(row, " ") != want[i] {
				c.Fail("%q: line %d is %q, expected one of %q", args, i, row, want)
			}
		}
		if len(t) != len(want) {
			c.Fail("%q: %d lines, expected %d", args, len(t), len(want))
		}
		lines = len(t)
	}
	if lines > 1 {
		c.Nontrivial(l.Text(), flags, lines)
		c.Sample("%d lines, %q", lines, flags)
	}
}

// the visible lines of a table, all of the same width (blank separator lines left out)
func table(c *frame.Case, args []string, out string) []string {
	if !strings.HasSuffix(out, "\n") {
		c.Fail("%q: last line is incomplete", args)
	}
	var rows []string
	for _, ln := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
		if ln == "" {
			continue
		}
		if x := control(ln); x != "" {
			c.Fail("%q: line %q contains %s, which has no certain width", args, ln, x)
		}
		v := string(visible(ln))
		if len(rows) > 0 && utf8.RuneCountInString(v) != utf8.RuneCountInString(rows[0]) {
			c.Fail("%q: line %q is %d wide, the first (%q) %d\n%s", args, v, utf8.RuneCountInString(v), rows[0], utf8.RuneCountInString(rows[0]), out)
		}
		rows = append(rows, v)
	}
	c.Count("table lines", len(rows))
	return rows
}

// reads the cells of a line from left to right and remembers where they were
type reader struct {
	c      *frame.Case
	args   []string
	line   []rune
	pos    int
	starts map[string]int // per column
	ends   map[string]int
}

func (t *reader) skip() {
	for t.pos < len(t.line) && t.line[t.pos] == ' ' {
		t.pos++
	}
}

func (t *reader) bad(format string, a ...interface{}) {
	t.c.Fail("%q: line %q: %s", t.args, string(t.line), fmt.Sprintf(format, a...))
}

// text that starts where all cells of this column start
func (t *reader) left(col, text string) {
	t.skip()
	v := []rune(text)
	if len(v) == 0 {
		return
	}
	if v[0] == ' ' { // its blanks are skipped already
		t.pos -= len(v) - len([]rune(strings.TrimLeft(text, " ")))
	}
	if t.pos < 0 || t.pos+len(v) > len(t.line) || string(t.line[t.pos:t.pos+len(v)]) != text {
		t.bad("%s: expected %q at %d", col, text, t.pos)
	}
	if s, ok := t.starts[col]; ok && s != t.pos {
		t.bad("%s %q starts at %d, other cells of the column at %d", col, text, t.pos, s)
	}
	t.starts[col] = t.pos
	t.pos += len(v)
}

// text that ends where all cells of this column end; empty: up to the next blank
func (t *reader) right(col, text string) string {
	t.skip()
	if text == "" {
		p := t.pos
		for p < len(t.line) && t.line[p] != ' ' {
			p++
		}
		text = string(t.line[t.pos:p])
	}
	v := []rune(text)
	if t.pos+len(v) > len(t.line) || string(t.line[t.pos:t.pos+len(v)]) != text {
		t.bad("%s: expected %q at %d", col, text, t.pos)
	}
	t.pos += len(v)
	if e, ok := t.ends[col]; ok && e != t.pos {
		t.bad("%s %q ends at %d, other cells of the column at %d", col, text, t.pos, e)
	}
	t.ends[col] = t.pos
	return text
}

func (t *reader) next(line string) { t.line, t.pos = []rune(line), 0 }
func (t *reader) end() {
	t.skip()
	if t.pos != len(t.line) {
		t.bad("text after the last cell at %d", t.pos)
	}
}

func (t *reader) money(col, ccy string, v *big.Rat, lang string) {
	t.left(col, strings.TrimRight(string(visible(ccy)), " "))
	n := t.right(col, "")
	g, dec := parseNumber(n, lang)
	if g == nil {
		t.bad("%s: %q is not a number", col, n)
	}
	if d := near(g, v, dec, n); d != "" {
		t.bad("%s: %s", col, d)
	}
	t.c.Count("money cells", 1)
}

func registerTable(c *frame.Case, l *gen.Ledger, main string, flags []string) int {
	a := regArgs{typ: "Text", combined: true, asc: true, re: gen.Regex(c.R, gen.Accounts(l.Book)), split: c.R.Intn(2) == 0}
	args := append(a.args(""), flags...)
	out, err := sut.Exec(main, args...)
	if err != nil {
		c.Fail("%q fails: %v", args, err)
	}
	rows := table(c, args, out)
	want := a.sections(l.Book, "", 0, 0)[0].body
	if len(rows) != len(want)+1 {
		c.Fail("%q: %d lines, expected %d", args, len(rows), len(want)+1)
	}
	t := &reader{c: c, args: args, starts: map[string]int{}, ends: map[string]int{}}
	t.next(rows[0])
	for _, h := range []string{"Date", "Payee", "Account", "Counteraccount"} {
		t.left(h, h)
	}
	t.right("Amount", "Amount")
	t.right("Balance", "Balance")
	t.end()
	for i, e := range want {
		t.next(rows[i+1])
		t.left("Date", ref.DateString(e.Date))
		if v := string(visible(e.Payee)); strings.TrimSpace(v) != "" {
			t.left("Payee", strings.TrimRight(v, " "))
		}
		t.left("Account", e.Acct)
		t.left("Counteraccount", e.Counter)
		t.money("Amount", e.CCY, e.Amt, flags[1])
		t.money("Balance", e.CCY, e.Bal, flags[1])
		t.end()
	}
	return len(rows)
}

func reportTable(c *frame.Case, l *gen.Ledger, main string, flags []string) int {
	a, rb := randomReport(c, l, true)
	now := today()
	want := a.expect(rb, now)
	args := append(a.with("--type", "Text"), flags...)
	out, err := sut.Exec(main, args...)
	if err != nil {
		c.Fail("%q fails: %v", args, err)
	}
	if now != today() || len(want) == 0 {
		return 0
	}
	rows := table(c, args, out)
	last := want[len(want)-1]
	if len(rows) != len(last.Rows)+1 {
		c.Fail("%q: %d lines, expected %d\n%s", args, len(rows), len(last.Rows)+1, out)
	}
	t := &reader{c: c, args: args, starts: map[string]int{}, ends: map[string]int{}}
	t.next(rows[0])
	t.left("Account", "Account")
	col := func(i int) string { return fmt.Sprintf("period %d", i) }
	for i, p := range want {
		t.right(col(i), ref.DateString(p.Date))
	}
	t.end()
	for i, x := range last.Rows {
		t.next(rows[i+1])
		t.left(fmt.Sprintf("level %d", x.Level), x.Term)
		for k, p := range want {
			for _, y := range p.Rows {
				if y.Acct == x.Acct && y.CCY == x.CCY && y.Heading == x.Heading {
					t.money(col(k), x.CCY, y.Amt, flags[1])
				}
			}
		}
		t.end()
	}
	return len(rows)
}

// bring some accounts back to zero, by a further transaction
func zeroSome(r *rand.Rand, l *gen.Ledger, date int) {
	sums := map[[2]string]*big.Rat{}
	for _, t := range l.Book.Txs {
		for _, p := range t.Posts {
			k := [2]string{p.Acct, p.CCY}
			if sums[k] == nil {
				sums[k] = new(big.Rat)
			}
			sums[k].Add(sums[k], p.Amt)
		}
	}
	var keys [][2]string
	for k := range sums {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	text := fmt.Sprintf("\n%s zeroing\n", ref.DateString(date))
	tx := ref.Tx{Date: date, Payee: "zeroing", Notes: []string{""}}
	rest := map[string]*big.Rat{}
	for _, k := range keys {
		if r.Intn(2) == 0 || sums[k].Sign() == 0 {
			continue
		}
		v := new(big.Rat).Neg(sums[k])
		tx.Posts = append(tx.Posts, ref.Post{Acct: k[0], CCY: k[1], Amt: v, Notes: []string{""}})
		if rest[k[1]] == nil {
			rest[k[1]] = new(big.Rat)
		}
		rest[k[1]].Sub(rest[k[1]], v)
	}
	var restCCYs []string
	for ccy := range rest {
		restCCYs = append(restCCYs, ccy)
	}
	sort.Strings(restCCYs)
	for _, ccy := range restCCYs {
		v := rest[ccy]
		tx.Posts = append(tx.Posts, ref.Post{Acct: "Rest:Of:It", CCY: ccy, Amt: v, Notes: []string{""}})
	}
	for _, p := range tx.Posts {
		text += fmt.Sprintf("  %s  \"%s\" %s\n", p.Acct, p.CCY, gen.Exact2(p.Amt))
	}
	l.Files["more.ledger"] = text
	// a file of its own that includes both
	l.Files["all.ledger"] = "include " + l.Main + "\ninclude more.ledger\n"
	l.Main = "all.ledger"
	l.Book.Txs = append(l.Book.Txs, tx)
	l.Book = l.Book.Normalise()
}

func accountsCheck(c *frame.Case) {
	r := c.R
	l, main := reportLedger(c, gen.Options{Txs: 1 + r.Intn(12)})
	// some accounts back to zero
	if r.Intn(2) == 0 && len(l.Book.Txs) > 0 {
		zeroSome(r, l, 20210505)
		main = writeLedger(c, l)
	}
	if r.Intn(80) == 0 {
		l, main = wideLedger(c, 60+r.Intn(200))
		c.Count("hundreds of accounts", 1)
	}
	re := gen.Regex(r, gen.Accounts(l.Book))
	if r.Intn(12) == 0 {
		re = ""
	}
	args := []string{"accts"}
	if r.Intn(5) > 0 {
		args = append(args, re)
	} else {
		re = "^.*$"
	}
	counts := map[bool]int{}
	for _, all := range []bool{false, true} {
		want := l.Book.AccountList(regexp.MustCompile(re), all)
		counts[all] = len(want)
		flags := []string{"--colour=false"}
		if all {
			flags = append(flags, "--all")
		}
		if r.Intn(3) == 0 {
			flags[0] = "--colour=true"
		}
		ta := append(append([]string{}, args...), flags...)
		out, err := sut.Exec(main, ta...)
		if err != nil {
			c.Fail("%q fails: %v", ta, err)
		}
		lines := strings.Split(strings.TrimSuffix(stripAnsi(out), "\n"), "\n")
		for i := range lines {
			lines[i] = strings.TrimRight(lines[i], " ")
		}
		if lines[0] != "Account" {
			c.Fail("%q: header %q", ta, lines[0])
		}
		if d := diffLines(lines[1:], want); d != "" {
			c.Fail("%q: %s", ta, d)
		}
		ja := append(ta, "--json")
		out, err = sut.Exec(main, ja...)
		if err != nil {
			c.Fail("%q fails: %v", ja, err)
		}
		var got []string
		if err := json.Unmarshal([]byte(out), &got); err != nil {
			c.Fail("%q: not JSON: %v\n%s", ja, err, out)
		}
		if got == nil {
			c.Fail("%q: no list: %q", ja, out)
		}
		if d := diffLines(got, want); d != "" {
			c.Fail("%q: %s", ja, d)
		}
		c.Count("accounts listed", 2*len(want))
		// register sections
		typ := gen.Pick(r, []string{"JSON", "Text", "CSV"})
		a := regArgs{re: re, typ: typ, all: all, asc: true}
		checkRegister(c, main, l.Book, "", a)
	}
	if counts[false] > 0 && counts[true] > counts[false] {
		c.Nontrivial(l.Text(), args)
		c.Sample("%q: %d with a balance of %d", args, counts[false], counts[true])
	}
}

func decimalsCheck(c *frame.Case) {
	r := c.R
	l, main := reportLedger(c, gen.Options{})
	decs := l.Raw.Decimals()
	out, err := sut.Exec(main, "ccy")
	if err != nil {
		c.Fail("ccy fails: %v", err)
	}
	var want, got []string
	some := false
	for k, n := range decs {
		want = append(want, fmt.Sprintf("%s => %d decimals", k, n))
		some = some || n > 0
	}
	sort.Strings(want)
	if out != "" {
		got = strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	}
	sort.Strings(got)
	if d := diffLines(got, want); d != "" {
		c.Fail("ccy: %s", d)
	}
	c.Count("currencies", len(want))

	langs := []string{"en", "de", "fr", "nl", "en_GB.UTF-8", "de-DE", "fr_FR", "C", "", "zz"}
	lang := gen.Pick(r, langs)
	style := lang
	if len(lang) >= 2 {
		style = lang[:2]
	}
	if style != "de" && style != "fr" && style != "nl" {
		style = "en"
	}
	cell := func(args []string, ccy, num string, v *big.Rat) {
		g, dec := parseNumber(num, style)
		if g == nil {
			c.Fail("%q: %q is not a number in the style of %s", args, num, style)
		}
		if g.Cmp(v) != 0 {
			c.Fail("%q: %s %q is shown for %s", args, ccy, num, v.RatString())
		}
		if dec != decs[ccy] {
			c.Fail("%q: %s %q has %d decimals, expected %d", args, ccy, num, dec, decs[ccy])
		}
		// groups
		ip := strings.TrimPrefix(num, "-")
		if k := strings.LastIndexAny(ip, ".,"); dec > 0 {
			ip = ip[:k]
		}
		digits := 0
		for _, x := range ip {
			if x >= '0' && x <= '9' {
				digits++
			}
		}
		if digits > 3 && len([]rune(ip)) != digits+(digits-1)/3 {
			c.Fail("%q: %s %q is not grouped", args, ccy, num)
		}
		c.Count("amounts compared", 1)
	}
	args := []string{"report", "--splitby", "skip", "--type", "HTML", "--lang", lang}
	out, err = sut.Exec(main, args...)
	if err != nil {
		c.Fail("%q fails: %v", args, err)
	}
	reps, err := parseHTML(out)
	if err != nil {
		c.Fail("%q: %v", args, err)
	}
	if len(reps) != len(l.Book.Txs) {
		c.Fail("%q: %d transactions, expected %d", args, len(reps), len(l.Book.Txs))
	}
	for i, t := range l.Book.Txs {
		if len(reps[i].rows) != len(t.Posts) {
			c.Fail("%q: transaction %d has %d postings, expected %d", args, i, len(reps[i].rows), len(t.Posts))
		}
		for k, p := range t.Posts {
			row := reps[i].rows[k]
			if row.acct != p.Acct || !strings.HasPrefix(row.amt, p.CCY) {
				c.Fail("%q: transaction %d: row %d is %q %q, expected %s %s", args, i, k, row.acct, row.amt, p.Acct, p.CCY)
			}
			cell(args, p.CCY, strings.TrimPrefix(strings.TrimPrefix(row.amt, p.CCY), " "), p.Amt)
		}
	}
	// a Text register
	a := regArgs{typ: "Text", combined: true, asc: true, re: ".*", lang: lang, nocolour: r.Intn(2) == 0}
	out, err = sut.Exec(main, a.args("")...)
	if err != nil {
		c.Fail("%q fails: %v", a.args(""), err)
	}
	body := a.sections(l.Book, "", 0, 0)[0].body
	lines := strings.Split(strings.TrimSuffix(stripAnsi(out), "\n"), "\n")
	if len(lines) != len(body)+1 {
		c.Fail("%q: %d lines, expected %d", a.args(""), len(lines), len(body)+1)
	}
	for i, e := range body {
		if strings.HasSuffix(e.CCY, "-") {
			continue // can't be told from the sign
		}
		// from the right: balance, its currency, amount
		s := strings.TrimRight(lines[i+1], " ")
		for _, v := range []*big.Rat{e.Bal, e.Amt} {
			k := strings.LastIndex(s, " ")
			num := s[k+1:]
			sym := shown(e.CCY)
			if j := strings.LastIndex(sym, " "); j >= 0 && !isLetterLast(sym) && strings.HasPrefix(num, sym[j+1:]) && strings.HasSuffix(s[:k+1], sym[:j+1]) {
				num = num[len(sym)-j-1:] // a symbol of several words next to its amount
				s = s[:k-j]
			} else if strings.HasPrefix(num, sym) && !isLetterLast(sym) {
				num = num[len(sym):]
				s = s[:k+1]
			} else {
				s = strings.TrimRight(s[:k+1], " ")
				if !strings.HasSuffix(s, sym) {
					c.Fail("%q: line %q: no %q before %q", a.args(""), lines[i+1], sym, num)
				}
				s = s[:len(s)-len(sym)]
			}
			s = strings.TrimRight(s, " ")
			cell(a.args(""), e.CCY, num, v)
		}
	}
	if some {
		c.Nontrivial(l.Text(), lang)
		c.Sample("decimals %v in %q", decs, lang)
	}
}

func isLetterLast(s string) bool {
	r, _ := utf8.DecodeLastRuneInString(s)
	return unicode.IsLetter(r)
}
