// Package gen generates ledgers: the text (with all its lexical variety) together with
// the reference book it describes.
package gen

import (
	"fmt"
	"math/big"
	"math/rand"
	"path"
	"sort"
	"strings"
	"unicode"

	"verif/harness/ref"
)

// Options of a ledger
type Options struct {
	Txs       int      // about how many transactions
	CCYs      []string // currencies to use
	Blanks    bool     // currencies may start or end with blanks
	Accts     []string // accounts to use
	Payees    []string
	Plain     bool // plain lexical form only
	NoPrices  bool
	NPrices   int  // price points (0: a few)
	OnePayee  bool // no same-day duplicates
	SmallAmt  bool // amounts of up to 2 decimals, below 10000
	MaxDec    int  // limit decimals (0: 18)
	NoTrading bool
	Years     [2]int // range of years
	NoHuge    bool   // no huge transactions
	ASCII     bool
	NoNotes   bool
	NoFiles   bool
	NoZero    bool
	SameDay   bool // several prices of a pair on the same date, and prices of zero
}

// Ledger is a generated ledger
type Ledger struct {
	Files map[string]string
	Main  string
	Raw   *ref.Book // as written
	Book  *ref.Book // normalised
	Feat  map[string]int
}

// All text of the ledger
func (l *Ledger) Text() string {
	var names []string
	for n := range l.Files {
		names = append(names, n)
	}
	sort.Strings(names)
	var sb strings.Builder
	for _, n := range names {
		fmt.Fprintf(&sb, "=== %s\n%s\n", n, l.Files[n])
	}
	return sb.String()
}

// Accounts of the loaded book, sorted
func (l *Ledger) Accounts() []string { return Accounts(l.Book) }

// CCYs of the loaded book, sorted
func (l *Ledger) CCYs() []string { return CCYs(l.Book) }

// Accounts of a book, sorted
func Accounts(b *ref.Book) []string {
	m := map[string]bool{}
	for _, t := range b.Txs {
		for _, p := range t.Posts {
			m[p.Acct] = true
		}
	}
	return keys(m)
}

// CCYs of a book, sorted
func CCYs(b *ref.Book) []string {
	m := map[string]bool{}
	for _, t := range b.Txs {
		for _, p := range t.Posts {
			m[p.CCY] = true
		}
	}
	return keys(m)
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Pick one
func Pick[T any](r *rand.Rand, l []T) T { return l[r.Intn(len(l))] }

// AllAccts is a pool of account names
var AllAccts = []string{
	"Asset:Bank", "Asset:Bank:Current", "Asset:Bank:Savings", "Asset:Bank_2", "Asset:Bankers:X", "Asset:Shares:ABC",
	"Asset:Shares:ABC:Sub", "Asset", "A", "AB", "A:B:C:D:E", "A:B", "Expense:Food", "Expense:Food&Drink", "Expense:Food:Out",
	"Expense:Rent", "Expense:Insurance", "Expense:Car:Fuel", "Expense:O'Neil", "Income:Salary", "Income:Interest", "Income",
	"Equity:Opening", "Equity", "Liability:Card", "Liability:Card:Visa", "Trading:FX", "Prepaid:Insurance", "x9", "Zoo:1:2", "a:b",
	"Expense", "Expense:Travel:2020", "Asset:Receivable:O_K",
}

// AllCCYs is a pool of currencies
var AllCCYs = []string{"£", "$", "€", "USD", "GBP", "EUR", "JPY", "BTC", "US$", "AAPL", "kr", "C$", "VTI 500", "A-B", "3M", "x;y", "a.b", "@x", "元", "Ω", "Fund,A", "-", "B100"}

var simpleCCYs = []string{"£", "$", "USD", "GBP", "EUR", "JPY", "BTC"}

// AllPayees is a pool of payees
var AllPayees = []string{
	"Shop", "Grocer & Sons", "Employer Ltd", "Landlord", "Café Zoë", "日本語の店", "Transfer", "Transfer (2)", "Shop (2)", "Bank: fee", "",
	"Joe \"The Man\" Bar", "*Starred", "semi;colon", "Tab\tname", "P 2020/01/01", "include this", "100% off %s %d", "a", "Z", "<b>bold</b> & more",
	"'quoted'", "=eq", "zero\u200bwidth \u00ad\ufeffx", "e\u0301 \u05d0\u05d1 \U0001f468\u200d\U0001f469", "\u0131\u0130\u00df\u1e9e", "(3)", "comma, inc", "back\\slash", "~tilde", "x (2) (2)", "1234", "2020/01/01 x",
}

var asciiPayees = []string{"Shop", "Grocer & Sons", "Employer Ltd", "Landlord", "Transfer", "Transfer (2)", "Bank: fee", "a", "Z", "comma, inc"}

var allNotes = []string{"note", "a note; with semicolon", "ünï", "\"quoted\"", "x @ y = z", "  spaced", "id:1234", "%d %s", "P", "tab\there", "zero\u200bwidth \u00ad\ufeffx", "e\u0301 \u05d0\u05d1 \U0001f468\u200d\U0001f469 \u0131"}

// Amount generates a non-zero amount (unless allowZero)
func Amount(r *rand.Rand, o *Options) *big.Rat {
	dec := 0
	maxd := 18
	if o != nil && o.MaxDec > 0 {
		maxd = o.MaxDec
	}
	var digits int
	small := o != nil && o.SmallAmt
	k := r.Intn(20)
	if small && k >= 12 {
		k = r.Intn(12)
	}
	switch {
	case k < 4:
		digits = 1 + r.Intn(4)
	case k < 12:
		dec = 2
		digits = 1 + r.Intn(6)
	case k < 14:
		dec = 1 + r.Intn(4)
		digits = 1 + r.Intn(8)
	case k < 16:
		dec = r.Intn(19)
		digits = 1 + r.Intn(20)
	case k < 17:
		dec = r.Intn(3)
		digits = 16 + r.Intn(10)
		if maxd == 18 && r.Intn(4) == 0 { // more than any native number holds
			maxd = 60
			dec = 19 + r.Intn(42)
			digits = 1 + r.Intn(dec+20)
		}
	default:
		dec = 2 + r.Intn(3)
		digits = 4 + r.Intn(5)
	}
	if dec > maxd {
		dec = maxd
	}
	n := new(big.Int)
	for i := 0; i < digits; i++ {
		d := int64(r.Intn(10))
		if i == 0 {
			d = int64(1 + r.Intn(9))
		}
		n.Mul(n, big.NewInt(10))
		n.Add(n, big.NewInt(d))
	}
	if r.Intn(8) == 0 { // round numbers
		n.Mul(n, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(r.Intn(3))), nil))
	}
	if r.Intn(2) == 0 {
		n.Neg(n)
	}
	return new(big.Rat).SetFrac(n, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(dec)), nil))
}

// PosDec formats a non-negative finite decimal exactly
func posDec(v *big.Rat, extra int) string {
	n := ref.NeededDecimals(v)
	if n < 0 {
		panic("gen: not a finite decimal")
	}
	return v.FloatString(n + extra)
}

// Exact formats a finite decimal exactly
func Exact(v *big.Rat) string { return posDec(v, 0) }

func group(s string) string {
	end := strings.IndexByte(s, '.')
	if end < 0 {
		end = len(s)
	}
	for i := end - 3; i > 0; i -= 3 {
		s = s[:i] + "," + s[i:]
	}
	return s
}

func (g *g) number(v *big.Rat) string { // non-negative
	extra := 0
	if !g.o.Plain && g.r.Intn(6) == 0 {
		extra = g.r.Intn(4)
	}
	s := posDec(v, extra)
	if g.o.Plain {
		return s
	}
	switch g.r.Intn(10) {
	case 0, 1, 2:
		s = group(s)
		if strings.Contains(s, ",") {
			g.feat("thousands")
		}
	case 3:
		if strings.HasPrefix(s, "0.") {
			s = s[1:]
			g.feat("leading dot")
		}
	case 4:
		s = "0" + s
	case 5:
		if !strings.Contains(s, ".") {
			s += "."
			g.feat("trailing dot")
		}
	}
	return s
}

// does the currency need quotes
func needsQuote(c string) bool {
	for _, x := range c {
		switch {
		case x >= '0' && x <= '9', x == ';', x == '@', x == '-', x == '.', unicode.IsSpace(x), x == ',', x == '=', x == '"':
			return true
		}
	}
	return c == ""
}

func (g *g) ccy(c string) string {
	if needsQuote(c) || (!g.o.Plain && g.r.Intn(8) == 0) {
		g.feat("quoted currency")
		return "\"" + c + "\""
	}
	return c
}

func (g *g) sp() string {
	if g.o.Plain {
		return " "
	}
	if g.r.Intn(60) == 0 {
		return g.rareSpace()
	}
	return []string{"", " ", " ", "  ", "\t"}[g.r.Intn(5)]
}

// everything that is white space but not a new line separates
func (g *g) rareSpace() string {
	if g.o.ASCII {
		return " "
	}
	g.feat("rare white space")
	return []string{"\u00a0", "\u3000", "\v", "\f", " \u2003 ", "\u0085", strings.Repeat(" ", 50+g.r.Intn(50)), "\t\t\t"}[g.r.Intn(8)]
}

func (g *g) sp1() string {
	if g.o.Plain {
		return "  "
	}
	if g.r.Intn(60) == 0 {
		return g.rareSpace()
	}
	return []string{" ", "  ", "    ", "\t", " \t "}[g.r.Intn(5)]
}

// Amount with currency
func (g *g) money(c string, v *big.Rat) string {
	neg := v.Sign() < 0
	num := g.number(new(big.Rat).Abs(v))
	cc := g.ccy(c)
	sign := ""
	if neg {
		sign = "-"
	}
	if g.o.Plain {
		return cc + " " + sign + num
	}
	switch g.r.Intn(4) {
	case 0:
		g.feat("currency first")
		return cc + g.sp() + sign + num
	case 1:
		g.feat("sign before currency")
		return sign + cc + g.sp() + num
	default:
		g.feat("currency last")
		return sign + num + g.sp() + cc
	}
}

type file struct {
	name  string
	sb    strings.Builder
	alias map[string]string
	crlf  bool
}

type g struct {
	r     *rand.Rand
	o     *Options
	files []*file
	out   *Ledger
	used  map[string]bool
	n     int
	dates []int
	hasTx bool
}

func (g *g) feat(f string) { g.out.Feat[f]++ }

func (g *g) cur() *file { return g.files[len(g.files)-1] }

func (g *g) line(s string) {
	f := g.cur()
	f.sb.WriteString(s)
	if f.crlf {
		f.sb.WriteString("\r\n")
	} else {
		f.sb.WriteString("\n")
	}
}

func (g *g) open() {
	g.n++
	name := fmt.Sprintf("inc%d.ledger", g.n)
	rel := name
	dir := path.Dir(g.cur().name)
	switch g.r.Intn(7) {
	case 5:
		rel = "././/" + name
	case 6:
		if dir != "." {
			rel = Pick(g.r, []string{"./../", ".././", "../" + path.Base(dir) + "/../"}) + name
			g.feat("include ../")
		}
	case 0:
		rel = fmt.Sprintf("sub%d/%s", g.n, name)
	case 1:
		rel = "./" + name
	case 2:
		if dir != "." {
			rel = "../" + name
			g.feat("include ../")
		}
	case 3:
		rel = "with space " + name
	}
	full := path.Join(dir, rel)
	word := []string{"include", "include", "INCLUDE", "Include"}[g.r.Intn(4)]
	q := rel
	if g.r.Intn(3) == 0 {
		q = "\"" + rel + "\""
		g.feat("quoted include")
	}
	g.line(word + " " + q)
	nf := &file{name: full, alias: map[string]string{}, crlf: g.r.Intn(8) == 0}
	for k, v := range g.cur().alias {
		nf.alias[k] = v
	}
	if nf.crlf {
		g.feat("crlf")
	}
	g.files = append(g.files, nf)
	g.feat("include")
	if len(g.files) > 3 {
		g.feat("nested include")
	}
}

func (g *g) close() {
	f := g.cur()
	s := f.sb.String()
	if g.r.Intn(5) == 0 {
		s = strings.TrimRight(s, "\r\n") // no newline at the end
		g.feat("no final newline")
	}
	g.out.Files[f.name] = s
	g.files = g.files[:len(g.files)-1]
}

// between lines: comments, blanks, include boundaries, aliases
func (g *g) between(inTx bool) {
	if g.o.Plain {
		if !inTx {
			g.line("")
		}
		return
	}
	if g.r.Intn(3) == 0 {
		g.line([]string{"", "; comment", "   ; indented comment", "\t", ";", "= auto 100", "D $1,000.00", "  ", "; 2020/01/01 not a transaction"}[g.r.Intn(9)])
		g.feat("comment or blank")
	}
	if g.o.NoFiles {
		return
	}
	p := 25
	if inTx {
		p = 100
	}
	if g.r.Intn(p) == 0 && len(g.files) < 6 {
		g.open()
		if inTx {
			g.feat("include inside transaction")
		}
	} else if len(g.files) > 1 && g.r.Intn(p/4) == 0 {
		g.close()
	}
	if g.r.Intn(40) == 0 {
		short := []string{"short", "Asset:Bank", "A", "sh:2", "x9"}[g.r.Intn(5)]
		long := Pick(g.r, g.o.Accts)
		l := "alias " + short + []string{"=", " = ", "= "}[g.r.Intn(3)] + long
		if g.r.Intn(4) == 0 {
			l += " ; why"
		}
		g.line(l)
		g.cur().alias[short] = long
		g.feat("alias")
	}
}

// name written for an account, and what it means
func (g *g) acct() (string, string) {
	w := Pick(g.r, g.o.Accts)
	al := g.cur().alias
	if len(al) > 0 && g.r.Intn(2) == 0 {
		ks := []string{}
		for k := range al {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		w = Pick(g.r, ks)
	}
	m := w
	if l, ok := al[w]; ok {
		m = l
		g.feat("alias used")
	}
	return w, m
}

func (g *g) date() int {
	return g.dates[g.r.Intn(len(g.dates))]
}

func (g *g) dateText(d int) string {
	if g.o.Plain || g.r.Intn(4) > 0 {
		return ref.DateString(d)
	}
	return fmt.Sprintf("%d/%d/%d", d/10000, d/100%100, d%100)
}

func (g *g) note() string {
	if g.o.NoNotes || g.r.Intn(4) > 0 {
		return ""
	}
	n := Pick(g.r, allNotes)
	if g.o.ASCII {
		n = "note"
	}
	if !g.o.Plain && g.r.Intn(60) == 0 {
		n = strings.TrimSpace(strings.Repeat(n+" and ", 1+g.r.Intn(100)))
		g.feat("long note")
		if g.r.Intn(6) == 0 {
			n = strings.TrimSpace(strings.Repeat(n+" ", 1+g.r.Intn(10)))
		}
	}
	return n
}

func (g *g) noteText(n string) string {
	if n == "" {
		if !g.o.Plain && g.r.Intn(10) == 0 {
			return " ;" // empty note
		}
		if !g.o.Plain && g.r.Intn(10) == 0 {
			return "  "
		}
		return ""
	}
	return g.sp1() + ";" + g.sp() + n
}

func (g *g) posting(w, text, note string) {
	ind := g.sp1()
	if !g.o.Plain && g.r.Intn(20) == 0 {
		if g.r.Intn(2) == 0 {
			w = "!" + w
		} else {
			w = "[" + w + "]"
		}
		g.feat("account decoration")
	}
	l := ind + w
	if text != "" {
		l += g.sp1() + text
	}
	if text != "" && !g.o.Plain {
		switch g.r.Intn(20) {
		case 0:
			if g.r.Intn(4) == 0 { // a sign before the currency isn't accepted here
				l += " @ " + g.ccy("USD") + g.sp() + "-" + g.number(big.NewRat(5, 4))
			} else {
				l += " @ " + g.money("USD", Pick(g.r, []*big.Rat{big.NewRat(3, 2), big.NewRat(0, 1), big.NewRat(1000, 1)}))
			}
			g.feat("@ price")
		case 1:
			l += " = $100"
			g.feat("assertion")
			note = ""
		}
	}
	// an assertion runs to the end of the line
	if strings.Contains(l, " = ") {
		g.line(l)
		return
	}
	g.line(l + g.noteText(note))
}

func (g *g) tx() {
	r := g.r
	d := g.date()
	payee := Pick(r, g.o.Payees)
	if !g.o.Plain && r.Intn(150) == 0 {
		payee = strings.Repeat("very long payee é ", 300+r.Intn(300))
		if r.Intn(10) == 0 {
			payee = strings.Repeat("even longer payee é ", 4000)
		}
		g.feat("long line")
	}
	payee = strings.TrimSpace(payee)
	note := strings.TrimSpace(g.note())
	pt := payee
	if strings.ContainsAny(payee, ";") || strings.HasPrefix(payee, "*") || strings.HasPrefix(payee, "\"") {
		pt = "\"" + payee + "\""
		g.feat("quoted payee")
	} else if !g.o.Plain && !strings.Contains(payee, "\"") && r.Intn(10) == 0 {
		pt = "\"" + payee + "\""
		g.feat("quoted payee")
	}
	head := g.dateText(d)
	if !g.o.Plain && r.Intn(3) == 0 {
		head += " *"
		g.feat("star")
	}
	head += " " + pt
	if payee == "" {
		g.feat("empty payee")
	}
	g.line(head + g.noteText(note))
	g.hasTx = true

	tx := ref.Tx{Date: d, Payee: g.unique(d, payee), Notes: []string{note}}
	bals := map[string]*big.Rat{}
	add := func(acct, c string, v *big.Rat, n string) {
		tx.Posts = append(tx.Posts, ref.Post{Acct: acct, CCY: c, Amt: new(big.Rat).Set(v), Notes: []string{n}})
		if bals[c] == nil {
			bals[c] = new(big.Rat)
		}
		bals[c].Add(bals[c], v)
	}
	put := func(c string, v *big.Rat) {
		w, m := g.acct()
		n := strings.TrimSpace(g.note())
		before := g.cur().sb.Len()
		g.posting(w, g.money(c, v), n)
		// the note may have been dropped for an assertion
		if n != "" && strings.Contains(g.cur().sb.String()[before:], " = $100") {
			n = ""
		}
		add(m, c, v, n)
		g.between(true)
	}
	elide := func() {
		w, m := g.acct()
		n := strings.TrimSpace(g.note())
		g.posting(w, "", n)
		cs := []string{}
		for c, v := range bals {
			if v.Sign() != 0 {
				cs = append(cs, c)
			}
		}
		sort.Strings(cs)
		for _, c := range cs {
			add(m, c, new(big.Rat).Neg(bals[c]), n)
		}
		g.feat("elided")
		if len(cs) > 1 {
			g.feat("elided several currencies")
		}
		g.between(true)
	}
	closeAll := func() {
		cs := []string{}
		for c, v := range bals {
			if v.Sign() != 0 {
				cs = append(cs, c)
			}
		}
		sort.Strings(cs)
		for _, c := range cs {
			put(c, new(big.Rat).Neg(bals[c]))
		}
	}
	g.between(true)

	kind := r.Intn(20)
	switch {
	case kind < 8: // two postings
		put(Pick(r, g.o.CCYs), Amount(r, g.o))
		if r.Intn(3) == 0 {
			elide()
		} else {
			closeAll()
		}
	case kind < 10 && !g.o.NoTrading && len(g.o.CCYs) > 1: // currency exchange by a trading account
		a, b := Pick(r, g.o.CCYs), Pick(r, g.o.CCYs)
		x, y := Amount(r, g.o), Amount(r, g.o)
		if x.Sign() == y.Sign() {
			y.Neg(y)
		}
		put(a, x)
		put(b, y)
		w, m := g.acct()
		g.posting(w, g.money(a, new(big.Rat).Neg(x)), "")
		add(m, a, new(big.Rat).Neg(x), "")
		g.posting(w, g.money(b, new(big.Rat).Neg(y)), "")
		add(m, b, new(big.Rat).Neg(y), "")
		closeAll()
		g.feat("exchange")
	default:
		n := 2 + r.Intn(4)
		if !g.o.NoHuge && r.Intn(30) == 0 {
			n = 15 + r.Intn(60)
			if r.Intn(6) == 0 {
				n = 100 + r.Intn(200)
			}
			g.feat("many postings")
		}
		one := r.Intn(2) == 0
		c := Pick(r, g.o.CCYs)
		for i := 0; i < n; i++ {
			if !one {
				c = Pick(r, g.o.CCYs)
			}
			v := Amount(r, g.o)
			if !g.o.NoZero && r.Intn(15) == 0 {
				v = new(big.Rat)
				g.feat("zero amount")
			}
			put(c, v)
			if r.Intn(12) == 0 {
				elide()
			}
		}
		if r.Intn(3) == 0 {
			elide()
		} else {
			closeAll()
		}
		if r.Intn(25) == 0 {
			elide() // nothing left
			g.feat("elided nothing")
		}
	}
	g.out.Raw.Txs = append(g.out.Raw.Txs, tx)
}

func (g *g) unique(d int, payee string) string {
	p := payee
	for i := 2; ; i++ {
		k := fmt.Sprintf("%d %s", d, p)
		if !g.used[k] {
			g.used[k] = true
			if i > 2 {
				g.feat("duplicate payee")
			}
			if i > 10 {
				g.feat("ten duplicate payees")
			}
			return p
		}
		p = strings.TrimPrefix(fmt.Sprintf("%s (%d)", payee, i), " ")
	}
}

func (g *g) price(have map[string]bool) {
	r := g.r
	u, c := Pick(r, g.o.CCYs), Pick(r, g.o.CCYs)
	if u == c {
		return
	}
	d := g.date()
	if last := g.out.Raw.Prices; g.o.SameDay && len(last) > 0 && r.Intn(6) == 0 {
		u, c, d = last[len(last)-1].Unit, last[len(last)-1].CCY, last[len(last)-1].Date
	} else if r.Intn(2) == 0 {
		d = ref.FromTime(ref.Time(d).AddDate(0, 0, r.Intn(60)-30))
		if d < 10101 || d > 99991231 {
			return
		}
	}
	k := fmt.Sprintf("%d %s\x00%s", d, u, c)
	if have[k] {
		if !g.o.SameDay || r.Intn(3) == 0 {
			return
		}
		g.feat("another price on the same date")
	}
	have[k] = true
	v := new(big.Rat).Abs(Amount(r, &Options{SmallAmt: true}))
	if r.Intn(3) == 0 {
		v = new(big.Rat).SetFrac64(int64(1+r.Intn(99999)), 10000)
	}
	if !g.o.SmallAmt && !g.o.Plain && r.Intn(12) == 0 { // extremes
		e := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(4+r.Intn(10))), nil))
		if r.Intn(2) == 0 {
			e.Inv(e)
		}
		v.Mul(v, e)
		g.feat("extreme price")
	}
	if g.o.SameDay && r.Intn(20) == 0 {
		v.SetInt64(0)
		g.feat("price of zero")
	}
	t := []string{"00:00:00", "12:34:56", "1:2:3"}[r.Intn(3)]
	if g.o.Plain {
		t = "00:00:00"
	}
	l := "P" + g.sp1() + g.dateText(d) + " " + t + " " + g.ccy(u) + " " + g.money(c, v)
	g.line(l + g.noteText(""))
	g.out.Raw.Prices = append(g.out.Raw.Prices, ref.Price{Date: d, Unit: u, CCY: c, Val: v})
	g.feat("price")
}

// Fill in defaults
func (o *Options) fill(r *rand.Rand) {
	confuse := false
	if len(o.CCYs) == 0 {
		n := 1 + r.Intn(4)
		pool := AllCCYs
		if o.ASCII || o.Plain {
			pool = simpleCCYs
		} else if r.Intn(3) == 0 {
			n = 1 + r.Intn(9)
		}
		o.CCYs = Sub(r, pool, n)
		if o.Blanks && r.Intn(12) == 0 {
			o.CCYs[r.Intn(len(o.CCYs))] = Pick(r, []string{" lead", "trail  ", " USD", "$ "})
		}
		if !o.ASCII && !o.Plain && r.Intn(30) == 0 {
			o.CCYs[r.Intn(len(o.CCYs))] = longCCY(r)
		}
		confuse = r.Intn(4) == 0
	}
	if len(o.Accts) == 0 {
		o.Accts = Sub(r, AllAccts, 3+r.Intn(12))
		if confuse {
			o.confusable(r)
		}
		if r.Intn(15) == 0 {
			o.deep(r)
		}
		if r.Intn(40) == 0 {
			o.Accts = append(o.Accts, Pick(r, o.Accts)+":"+strings.Repeat("Very", 5+r.Intn(60))+"Long")
		}
	}
	if len(o.Payees) == 0 {
		pool := AllPayees
		if o.ASCII {
			pool = asciiPayees
		}
		o.Payees = Sub(r, pool, 2+r.Intn(8))
		if r.Intn(8) == 0 {
			o.Payees = o.Payees[:1]
		}
	}
	if o.Txs == 0 {
		o.Txs = 1 + r.Intn(25)
	}
	if !o.NoHuge && !o.Plain && r.Intn(500) == 0 {
		o.Txs = 200 + r.Intn(1200)
	}
	if o.Years[0] == 0 {
		y := 2015 + r.Intn(8)
		o.Years = [2]int{y, y + r.Intn(4)}
		switch r.Intn(25) {
		case 0:
			o.Years = [2]int{1, 3}
		case 1:
			o.Years = [2]int{1899, 1904}
		case 2:
			o.Years = [2]int{9990, 9998}
		case 3:
			o.Years = [2]int{1, 9998}
		}
	}
}

// Names that are easily taken for one another: other case, one a prefix of the
// other, the same letters split differently between account and currency
func (o *Options) confusable(r *rand.Rand) {
	c := Pick(r, o.CCYs)
	a := Pick(r, o.Accts)
	switch r.Intn(5) {
	case 0:
		for _, v := range []string{strings.ToLower(c), strings.ToUpper(c), string(unicode.ToUpper([]rune(c)[0])) + strings.ToLower(string([]rune(c)[1:]))} {
			o.addCCY(v)
		}
	case 1:
		o.addCCY(c + "X")
		o.addCCY("X" + c)
	case 2:
		o.addAcct(strings.ToLower(a))
		o.addAcct(strings.ToUpper(a))
	case 3: // Asset:Bank + ABC, Asset:BankA + BC, Asset:BankAB + C
		o.addAcct(a + "A")
		o.addAcct(a + "AB")
		for _, v := range []string{"ABC", "BC", "C", "AC"} {
			o.addCCY(v)
		}
	case 4: // the same with separators one might glue with
		o.addAcct(a + ":" + "USD")
		o.addAcct(a + "_USD")
		o.addCCY("USD")
		if !o.ASCII && !o.Plain {
			o.addCCY("USD:" + c)
			o.addCCY("USD_" + c)
			o.addCCY("USD " + c)
		}
	}
}

// A long currency, with anything that needs quotes anywhere in it, or nowhere
func longCCY(r *rand.Rand) string {
	n := 12 + r.Intn(60)
	if r.Intn(5) == 0 {
		n *= 10
	}
	b := make([]rune, n)
	for i := range b {
		b[i] = 'A' + rune(r.Intn(26))
	}
	if r.Intn(4) > 0 {
		i := r.Intn(n)
		if r.Intn(2) == 0 {
			i = n - 1 - r.Intn(5)
		}
		b[i] = Pick(r, []rune("0 ;@-.,=9é"))
		if i == 0 || i == n-1 {
			b[i] = '5'
		}
	}
	return string(b)
}

// Accounts many levels deep, and many accounts next to each other
func (o *Options) deep(r *rand.Rand) {
	a := Pick(r, o.Accts)
	if r.Intn(3) == 0 {
		for i := 20 + r.Intn(100); i > 0; i-- {
			o.addAcct(fmt.Sprintf("%s:N%d", a, i))
		}
		return
	}
	n, every := 4+r.Intn(12), 2
	if r.Intn(3) == 0 {
		n, every = 14+r.Intn(30), 1
	}
	for i := n; i > 0; i-- {
		a += ":" + Pick(r, []string{"L", "M", "Level", "x", "9"})
		if r.Intn(every) == 0 || i == 1 {
			o.addAcct(a)
			if r.Intn(3) == 0 {
				o.addAcct(a + ":Side")
			}
		}
	}
}

func (o *Options) addCCY(v string) {
	for _, x := range o.CCYs {
		if x == v {
			return
		}
	}
	o.CCYs = append(o.CCYs, v)
}

func (o *Options) addAcct(v string) {
	for _, x := range o.Accts {
		if x == v {
			return
		}
	}
	o.Accts = append(o.Accts, v)
}

// Sub picks a random subset in random order
func Sub(r *rand.Rand, pool []string, n int) []string {
	if n > len(pool) {
		n = len(pool)
	}
	idx := r.Perm(len(pool))[:n]
	out := make([]string, n)
	for i, j := range idx {
		out[i] = pool[j]
	}
	return out
}

// Dates picks dates
func Dates(r *rand.Rand, years [2]int, n int) []int {
	var out []int
	for i := 0; i < n; i++ {
		y := years[0] + r.Intn(years[1]-years[0]+1)
		m := 1 + r.Intn(12)
		d := 1 + r.Intn(28)
		switch r.Intn(8) {
		case 0: // first of a period
			d = 1
		case 1: // last of a month
			for d = 31; !ref.Valid(y, m, d); d-- {
			}
		case 2:
			m, d = 2, 28
			if ref.Valid(y, m, 29) {
				d = 29
			}
		case 3:
			m, d = 12, 31
		}
		out = append(out, y*10000+m*100+d)
	}
	return out
}

// New generates a ledger
func New(r *rand.Rand, o Options) *Ledger {
	o.fill(r)
	gg := &g{r: r, o: &o, used: map[string]bool{}}
	gg.out = &Ledger{Files: map[string]string{}, Main: "main.ledger", Raw: &ref.Book{}, Feat: map[string]int{}}
	gg.files = []*file{{name: "main.ledger", alias: map[string]string{}, crlf: !o.Plain && r.Intn(15) == 0}}
	nd := 1 + o.Txs/2 + r.Intn(6)
	if r.Intn(10) == 0 {
		nd = 1
	}
	if o.OnePayee {
		nd = o.Txs * 3
	}
	gg.dates = Dates(r, o.Years, nd)
	np := o.NPrices
	if np == 0 {
		np = r.Intn(8)
	}
	if o.NoPrices {
		np = 0
	}
	have := map[string]bool{}
	for i := 0; i < o.Txs; i++ {
		gg.between(false)
		for k := 0; k < 1+np/o.Txs && np > 0 && r.Intn(2) == 0; k++ {
			gg.price(have)
		}
		gg.tx()
	}
	for k := len(gg.out.Raw.Prices); k < np && k < 10000; k++ {
		gg.price(have)
	}
	for len(gg.files) > 0 {
		gg.close()
	}
	gg.out.Book = gg.out.Raw.Normalise()
	return gg.out
}

// Exact2 formats any finite decimal exactly
func Exact2(v *big.Rat) string {
	if v.Sign() < 0 {
		return "-" + posDec(new(big.Rat).Neg(v), 0)
	}
	return posDec(v, 0)
}

// Accounts2 are the accounts and two more
func (l *Ledger) Accounts2() []string { return append(l.Accounts(), "Asset:Bank", "Expense:New") }
