package ref

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"
)

// Parse reads a ledger file, line by line, independently of goledger: a line is blank,
// a comment, a price, a header, an include, an alias or an (indented) posting, and
// anything left on it is an error.
func Parse(file string) (b *Book, err error) {
	p := &parser{book: &Book{}, used: map[string]bool{}}
	defer func() {
		if m := recover(); m != nil {
			e, ok := m.(*ParseError)
			if !ok {
				panic(m)
			}
			if e.Kind == "line" {
				e.File, e.Line = p.name, p.row
			}
			b, err = nil, e
		}
	}()
	p.file(file, map[string]string{}, nil)
	p.finish()
	return p.book, nil
}

// ParseError is why a ledger is refused
type ParseError struct {
	Msg  string
	Kind string // line: text of a line; file: a file that can't be read; balance; orphan: a posting without transaction
	File string
	Line int
	Date int // balance
	Who  string
	Off  map[string]*big.Rat
}

func (e *ParseError) Error() string {
	if e.Kind == "line" {
		return fmt.Sprintf("%s:%d: %s", e.File, e.Line, e.Msg)
	}
	return e.Msg
}

func stop(format string, a ...interface{}) {
	panic(&ParseError{Kind: "line", Msg: fmt.Sprintf(format, a...)})
}

func stopFile(name string, format string, a ...interface{}) {
	panic(&ParseError{Kind: "file", File: name, Msg: fmt.Sprintf(format, a...)})
}

type parser struct {
	name string
	row  int
	book *Book
	used map[string]bool
	tx   *Tx
}

// a line being read
type line struct{ r []rune }

func (l *line) ws() int {
	n := 0
	for len(l.r) > 0 && unicode.IsSpace(l.r[0]) {
		l.r = l.r[1:]
		n++
	}
	return n
}

func (l *line) peek() rune {
	if len(l.r) == 0 {
		return -1
	}
	return l.r[0]
}

func (l *line) take(ok func(r rune) bool) string {
	i := 0
	for i < len(l.r) && ok(l.r[i]) {
		i++
	}
	s := string(l.r[:i])
	l.r = l.r[i:]
	return s
}

func (l *line) is(c rune) bool {
	if l.peek() == c {
		l.r = l.r[1:]
		return true
	}
	return false
}

func (l *line) need(c rune) {
	if !l.is(c) {
		stop("expected %c in %q", c, string(l.r))
	}
}

func (l *line) end() {
	l.ws()
	if len(l.r) > 0 {
		stop("extra text %q", string(l.r))
	}
}

func digit(r rune) bool { return r >= '0' && r <= '9' }

func (l *line) int(max int) int {
	s := l.take(digit)
	if len(s) < 1 || len(s) > max {
		stop("bad number %q", s)
	}
	n := 0
	for _, c := range s {
		n = n*10 + int(c-'0')
	}
	return n
}

func (l *line) date() int {
	y := l.int(4)
	l.need('/')
	m := l.int(2)
	l.need('/')
	d := l.int(2)
	if !Valid(y, m, d) {
		stop("bad date %d/%d/%d", y, m, d)
	}
	return y*10000 + m*100 + d
}

func (l *line) quoted() string {
	l.need('"')
	s := l.take(func(r rune) bool { return r != '"' })
	l.need('"')
	return s
}

func ccyRune(c rune) bool {
	return c != ';' && c != '@' && c != '-' && c != '.' && !digit(c) && !unicode.IsSpace(c)
}

func (l *line) ccy() string {
	l.ws()
	if l.peek() == '"' {
		return l.quoted()
	}
	return l.take(ccyRune)
}

func (l *line) amount() *big.Rat {
	l.ws()
	neg := l.is('-')
	point := false
	s := l.take(func(r rune) bool {
		if r == '.' && !point {
			point = true
			return true
		}
		return digit(r) || r == ','
	})
	s = strings.ReplaceAll(s, ",", "")
	if strings.Trim(s, ".") == "" {
		if neg || point {
			stop("no digits")
		}
		return nil
	}
	if strings.HasSuffix(s, ".") {
		s += "0"
	}
	if neg {
		s = "-" + s
	}
	v, ok := new(big.Rat).SetString(s)
	if !ok {
		panic("ref: number " + s)
	}
	return v
}

// currency and amount in either order; nil amount if there is neither
func (l *line) money() (string, *big.Rat) {
	if l.peek() == '"' || len(l.r) > 0 && ccyRune(l.peek()) {
		c := l.ccy()
		v := l.amount()
		if v == nil {
			stop("currency %q without amount", c)
		}
		return c, v
	}
	v := l.amount()
	c := l.ccy()
	if v == nil && c != "" {
		stop("currency %q without amount", c)
	}
	return c, v
}

func (l *line) note() string {
	l.ws()
	if !l.is(';') {
		return ""
	}
	s := strings.TrimSpace(string(l.r))
	l.r = nil
	return s
}

func (l *line) account() string {
	l.ws()
	if !l.is('!') {
		l.is('[')
	}
	s := l.take(func(r rune) bool {
		return r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || digit(r) || strings.ContainsRune("&':_", r)
	})
	l.is(']')
	return s
}

func (p *parser) finish() {
	if p.tx == nil {
		return
	}
	sums := map[string]*big.Rat{}
	for _, x := range p.tx.Posts {
		if sums[x.CCY] == nil {
			sums[x.CCY] = new(big.Rat)
		}
		sums[x.CCY].Add(sums[x.CCY], x.Amt)
	}
	off := map[string]*big.Rat{}
	for c, v := range sums {
		if v.Sign() != 0 {
			off[c] = v
		}
	}
	if len(off) > 0 {
		panic(&ParseError{Kind: "balance", Msg: fmt.Sprintf("transaction %d %q is off by %v", p.tx.Date, p.tx.Payee, off), Date: p.tx.Date, Who: p.tx.Payee, Off: off})
	}
	p.book.Txs = append(p.book.Txs, *p.tx)
	p.tx = nil
}

func (p *parser) file(name string, alias map[string]string, parents []os.FileInfo) {
	info, err := os.Stat(name)
	if err != nil {
		stopFile(name, "%v", err)
	}
	for _, q := range parents {
		if os.SameFile(q, info) {
			stopFile(name, "circular include of %s", name)
		}
	}
	parents = append(append([]os.FileInfo{}, parents...), info)
	content, err := os.ReadFile(name)
	if err != nil {
		stopFile(name, "%v", err)
	}
	local := map[string]string{}
	for k, v := range alias {
		local[k] = v
	}
	// lines, with invalid bytes replaced
	for i, s := range strings.Split(string([]rune(string(content))), "\n") {
		p.name, p.row = name, i+1
		if strings.ContainsRune(s, 0) {
			stop("NUL byte")
		}
		p.line(&line{[]rune(s)}, name, local, parents)
	}
}

func (p *parser) line(l *line, name string, alias map[string]string, parents []os.FileInfo) {
	indent := l.ws() > 0
	c := l.peek()
	switch {
	case c == -1 || c == ';':
	case indent:
		p.posting(l, alias)
	case c == '=' || c == 'D':
	case c == 'P':
		l.is('P')
		l.ws()
		d := l.date()
		l.ws()
		l.int(2)
		l.need(':')
		l.int(2)
		l.need(':')
		l.int(2)
		unit := l.ccy()
		if unit == "" {
			stop("price without unit")
		}
		l.ws()
		ccy, v := l.money()
		if ccy == "" {
			stop("price without currency")
		}
		l.note()
		l.end()
		p.book.Prices = append(p.book.Prices, Price{d, unit, ccy, v})
	case digit(c):
		d := l.date()
		l.ws()
		if l.is('*') {
			l.ws()
		}
		payee := ""
		if l.peek() == '"' {
			payee = l.quoted()
		} else {
			payee = l.take(func(r rune) bool { return r != ';' })
		}
		payee = strings.TrimSpace(payee)
		note := l.note()
		l.end()
		p.finish()
		p.tx = &Tx{Date: d, Payee: p.unique(d, payee), Notes: []string{note}}
	default:
		word := l.take(func(r rune) bool { return unicode.IsDigit(r) || unicode.IsLetter(r) || r == '_' })
		up := ""
		for _, r := range word {
			up += string(unicode.ToUpper(r))
		}
		switch up {
		case "INCLUDE":
			f := strings.TrimSpace(string(l.r))
			if f == "" {
				stop("include of nothing")
			}
			if len(f) > 1 && f[0] == '"' && f[len(f)-1] == '"' {
				f = f[1 : len(f)-1]
			}
			p.file(filepath.Join(filepath.Dir(name), f), alias, parents)
		case "ALIAS":
			short := l.account()
			l.ws()
			l.need('=')
			long := l.account()
			if long == "" {
				stop("alias for nothing")
			}
			l.note()
			l.end()
			alias[short] = long
		default:
			stop("unknown directive %q", word)
		}
	}
}

func (p *parser) unique(d int, payee string) string {
	n := payee
	for i := 2; ; i++ {
		k := fmt.Sprintf("%d %s", d, n)
		if !p.used[k] {
			p.used[k] = true
			return n
		}
		n = fmt.Sprintf("(%d)", i)
		if payee != "" {
			n = payee + " " + n
		}
	}
}

func (p *parser) posting(l *line, alias map[string]string) {
	acct := l.account()
	if acct == "" {
		stop("posting without account: %q", string(l.r))
	}
	if a, ok := alias[acct]; ok {
		acct = a
	}
	l.ws()
	if l.peek() == '=' {
		stop("balance assignment")
	}
	neg := l.is('-')
	ccy, v := l.money()
	l.ws()
	if l.is('@') {
		l.ws()
		l.money()
	}
	if l.peek() == '=' {
		l.r = nil // assertion
	}
	note := l.note()
	l.end()
	if p.tx == nil {
		panic(&ParseError{Kind: "orphan", Msg: "posting outside of a transaction"})
	}
	if ccy == "" {
		if neg {
			stop("- without amount")
		}
		if v != nil && v.Sign() != 0 {
			stop("amount without currency")
		}
		sums := map[string]*big.Rat{}
		var order []string
		for _, x := range p.tx.Posts {
			if sums[x.CCY] == nil {
				sums[x.CCY] = new(big.Rat)
				order = append(order, x.CCY)
			}
			sums[x.CCY].Add(sums[x.CCY], x.Amt)
		}
		sort.Strings(order)
		for _, c := range order {
			if sums[c].Sign() != 0 {
				p.tx.Posts = append(p.tx.Posts, Post{acct, c, new(big.Rat).Neg(sums[c]), []string{note}})
			}
		}
		return
	}
	if neg {
		v = new(big.Rat).Neg(v)
	}
	p.tx.Posts = append(p.tx.Posts, Post{acct, ccy, v, []string{note}})
}
