package props

import (
	"fmt"
	"math/big"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"verif/harness/frame"
	"verif/harness/gen"
	"verif/harness/ref"
	"verif/harness/sut"
)

func init() {
	frame.Register(&frame.Check{
		ID: "C02", Quick: 12000, Thorough: 500000,
		Rule: "one evaluation: a generated ledger (known transactions written in random lexical forms over several files) is loaded and compared exactly with what was written; non-trivial: at least two transactions, distinct by text",
		Run: func(c *frame.Case) {
			o := gen.Options{Blanks: true, SameDay: true}
			if c.R.Intn(10) == 0 {
				o.Txs = 60 + c.R.Intn(200)
			}
			if c.R.Intn(6) == 0 { // many same-day duplicates
				o.Txs = 10 + c.R.Intn(40)
				o.Payees = gen.Sub(c.R, []string{"Shop", "Shop (2)", "Shop (3)", "", "(2)", "(2) (2)"}, 1+c.R.Intn(4))
			}
			l := gen.New(c.R, o)
			main := writeLedger(c, l)
			// the generator and the reference parser must agree
			rb, err := ref.Parse(main)
			if err != nil {
				frame.Broken("reference parser refuses a generated ledger: %v", err)
			}
			if a, b := rb.Normalise().String(), l.Book.String(); a != b {
				frame.Broken("reference parser reads a generated ledger as\n%s\nit is\n%s\n%s", a, b, l.Text())
			}
			b := load(c, main)
			got := sut.Snapshot(b)
			if d := diffTxs(got, l.Book); d != "" {
				c.Fail("%s", d)
			}
			if d := diffPrices(sut.Prices(b), l.Book.Prices); d != "" {
				c.Fail("%s", d)
			}
			if g, w := fmt.Sprint(b.Accounts("", false)), fmt.Sprint(gen.Accounts(l.Book)); g != w {
				c.Fail("accounts %s, expected %s", g, w)
			}
			n, m := bookSize(l.Book)
			c.Count("transactions compared", n)
			c.Count("postings compared", m)
			c.Count("prices compared", len(l.Book.Prices))
			if n > 1 {
				c.Nontrivial(l.Text())
				c.Sample("%d transactions, %d postings, %d prices in %d files", n, m, len(l.Book.Prices), len(l.Files))
			}
		},
	})
	frame.Register(&frame.Check{
		ID: "C03", Quick: 10000, Thorough: 400000,
		Rule:      "one evaluation: one unbalanced transaction (or posting unbalancing an existing one) is put at a random place of a generated ledger that loads without it; loading must fail, and so must every command of the real program, without printing; non-trivial: all cases, distinct by text",
		MinCounts: map[string]int{"command runs": 1000},
		Run:       unbalancedCheck,
	})
	frame.Register(&frame.Check{
		ID: "C42", Quick: 16000, Thorough: 600000,
		Rule:      "one evaluation: a ledger in one or more files with a mutated text or an unbalancing posting that an independent parser refuses; the message must name the file and the number of the line it found the fault in, or the file that can't be read, or the date, payee, currency and imbalance of the transaction; non-trivial: a ledger that is refused, distinct by text",
		MinCounts: map[string]int{"messages": 4000, "messages about: line": 2000, "messages about: balance": 300, "messages about: file": 50, "command runs": 150},
		Run:       messageCheck,
	})
	frame.Register(&frame.Check{
		ID: "C04", Quick: 16000, Thorough: 800000, Timeout: 65 * time.Second,
		Rule:      "one evaluation: mutated or random ledger text is loaded; the result must be that of an independent strict parser (error, or the same balanced book with valid dates); non-trivial: the text was changed, distinct by text; both refused and accepted texts must occur",
		MinCounts: map[string]int{"refused": 1000, "accepted": 1000},
		Run:       hostileCheck,
	})
	frame.Register(&frame.Check{
		ID: "C37", Quick: 8000, Thorough: 300000,
		Rule: "one evaluation: a ledger spread over a random tree of files in nested directories with aliases at every level is loaded and compared with its in-place expansion, a single file without includes and aliases; non-trivial: at least one include and one alias in use, distinct by text",
		Run:  includeCheck,
	})
}

// the start of a posting, up to the end of its account
var acctEndRe = regexp.MustCompile(`^[ \t]+[!\[]?[A-Za-z0-9:_&']+`)

var headLineRe = regexp.MustCompile(`^\d+/`)

// lines of a file, keeping their ends
func splitLines(s string) []string { return strings.SplitAfter(s, "\n") }

func unbalancedCheck(c *frame.Case) {
	l := gen.New(c.R, gen.Options{Blanks: true, Txs: 1 + c.R.Intn(12)})
	r := c.R
	var names []string
	for n := range l.Files {
		names = append(names, n)
	}
	sort.Strings(names)

	ccy := gen.Pick(r, []string{"USD", "£", "EUR", "\"A 1\""})
	off := gen.Pick(r, []string{"0.01", "1", "0.000000000000000001", "1000000", "0.001", ".5", "0.1", "9223372036854775807", "0.00000000000000000000000000001"})
	neg := ""
	if r.Intn(2) == 0 {
		neg = "-"
	}
	// a posting that is off, or a whole transaction
	var text, kind string
	switch k := r.Intn(7); k {
	case 0:
		kind = "extra posting"
		text = fmt.Sprintf("  X:Off  %s %s%s\n", ccy, neg, off)
	case 1:
		kind = "single posting"
		text = fmt.Sprintf("2021/03/04 Unbalanced\n  X:Off  %s %s%s\n", ccy, neg, off)
	case 2:
		kind = "two currencies"
		x := gen.Pick(r, [][2]string{{"USD", "EUR"}, {"GBP", "gbp"}, {"kr", "Kr"}, {"\"A 1\"", "A"}, {"\"a b\"", "ab"}, {"\"A 1\"", "\"A  1\""}, {"US$", "US"}, {"US$", "$"}, {"\"B1\"", "B"}, {"\"B1\"", "\"B01\""}, {"\"1\"", "\"1.0\""},
			{"ß", "SS"}, {"é", "e\u0301"}, {"€", "EUR"}, {"\" A\"", "A"}, {"\"A;\"", "A"}, {"µ", "μ"}, {"K", "\u212a"}})
		if r.Intn(2) == 0 {
			x[0], x[1] = x[1], x[0]
		}
		text = fmt.Sprintf("2021/03/04 Unbalanced\n  X:Off  %s %s%s\n  Y:Off  %s -%s%s\n", x[0], neg, off, x[1], neg, off)
		text = strings.ReplaceAll(text, "--", "")
	case 3:
		kind = "tiny difference"
		a := gen.Amount(r, nil)
		b := new(big.Rat).Neg(a)
		d, _ := new(big.Rat).SetString(off)
		b.Add(b, d)
		if b.Sign() == 0 {
			b.SetInt64(77)
		}
		text = fmt.Sprintf("2021/03/04 Unbalanced\n  X:Off  %s %s\n  Y:Off  %s %s\n", ccy, gen.Exact2(a), ccy, gen.Exact2(b))
	case 4:
		kind = "many postings"
		text = "2021/03/04 Unbalanced\n"
		n := 3 + r.Intn(40)
		sum := new(big.Rat)
		for i := 0; i < n; i++ {
			v := gen.Amount(r, &gen.Options{SmallAmt: true})
			sum.Add(sum, v)
			text += fmt.Sprintf("  X:Off%d  %s %s\n", i, ccy, gen.Exact2(v))
		}
		if sum.Sign() == 0 {
			text += fmt.Sprintf("  X:Off  %s 1\n", ccy)
		}
	case 5:
		kind = "posting after the elided one"
		text = fmt.Sprintf("2021/03/04 Unbalanced\n  X:Off  %s 1\n  Y:Off\n  Z:Off  %s %s%s\n", ccy, ccy, neg, off)
	case 6:
		kind = "one of three currencies"
		text = fmt.Sprintf("2021/03/04 Unbalanced\n  X:Off  A 1\n  X:Off  B 2\n  X:Off  %s %s%s\n  Y:Off  A -1\n  Y:Off  B -2\n", ccy, neg, off)
	}
	isTx := !strings.HasPrefix(text, " ")

	// where
	place := gen.Pick(r, []string{"end", "included end", "before", "before", "before", "only", "deep include"})
	switch place {
	case "only":
		if !isTx {
			text = "2021/03/04 Unbalanced\n" + text
		}
		l.Files = map[string]string{"main.ledger": text}
	case "deep include": // the rest is in another file
		if !isTx {
			text = "2021/03/04 Unbalanced\n" + text
		}
		n := 1 + r.Intn(6)
		for i := 0; i < n; i++ {
			l.Files[fmt.Sprintf("o%d.ledger", i)] = gen.Pick(r, []string{"", "; deeper\n", "\n", "P 2020/01/01 00:00:00 XX 1 YY\n"}) + fmt.Sprintf("include o%d.ledger\n", i+1)
		}
		l.Files["o0.ledger"] = text + l.Files["o0.ledger"]
		l.Files[fmt.Sprintf("o%d.ledger", n)] = "include main.ledger\n"
		l.Main = "o0.ledger"
	case "end", "included end":
		s := l.Files["main.ledger"]
		if s != "" && !strings.HasSuffix(s, "\n") {
			s += "\n"
		}
		s += text
		if r.Intn(3) == 0 {
			s = strings.TrimSuffix(s, "\n")
		}
		l.Files["main.ledger"] = s
		if place == "included end" {
			l.Files["outer.ledger"] = "; outer\ninclude main.ledger\n"
			l.Main = "outer.ledger"
		}
	default:
		// before one of the headers (an elided posting can't follow what is put there)
		type pos struct {
			name string
			i    int
		}
		var heads []pos
		for _, n := range names {
			for i, ln := range splitLines(l.Files[n]) {
				if headLineRe.MatchString(ln) {
					heads = append(heads, pos{n, i})
				}
			}
		}
		p := heads[r.Intn(len(heads))]
		lines := splitLines(l.Files[p.name])
		s := strings.Join(lines[:p.i], "") + text + strings.Join(lines[p.i:], "")
		l.Files[p.name] = s
	}
	main := writeLedger(c, l)
	if _, err := ref.Parse(main); err == nil {
		frame.Broken("reference parser accepts an unbalanced ledger (%s, %s)\n%s", kind, place, l.Text())
	}
	b, err := sut.Load(main)
	if err == nil {
		c.Fail("%s, %s: the ledger loads: %s", kind, place, cutText(sut.DumpTxs(sut.Snapshot(b)), 2000))
	}
	c.Count("unbalanced: "+kind, 1)
	c.Count("place: "+place, 1)
	c.Nontrivial(l.Text())
	c.Sample("%s, %s: %v", kind, place, err)
	if c.Index%8 == 0 {
		args := [][]string{{"report", "--sum", "--ccy", "USD"}, {"report"}, {"export"}, {"export", "--type", "Json"}, {"register", "--type", "Text", ".*"},
			{"accts"}, {"ccy"}, {"export", "--type", "Beancount"}, {"generate", "-"}, {"import", "--format", "csv", "-", c.Write("in.csv", "1\n")}}[r.Intn(10)]
		code := ""
		if args[0] == "generate" || args[0] == "import" {
			code = c.Write("code", "def f():\n  pass\n")
			if args[0] == "generate" {
				args = []string{"generate", "--code", "file:" + code}
			} else {
				args = []string{"import", "--format", "csv:header=false", "--code", "file:" + code, c.Scratch("in.csv")}
			}
		}
		res := sut.CLI(c.Bin, c.Dir, nil, append(args, "-l", main)...)
		if res.Exit == 0 || res.Stdout != "" || res.Crashed() || res.Timeout {
			c.Fail("%s, %s: %q: %s", kind, place, args, res)
		}
		if strings.TrimSpace(res.Stderr) == "" {
			c.Fail("%s, %s: %q: no error message: %s", kind, place, args, res)
		}
		c.Count("command runs", 1)
	}
}

func cutText(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

var soup = []string{"2020/01/01", "2020/02/30", "0/0/0", "12345/1/1", "1/1/1", "P", "P ", "include", "alias", "=", "@", ";", "\"", "-", "--", "$", "USD", "5", "5.", ".5", ".",
	",", "1,000.00", "A", "A:B", ":", "!", "[", "]", "(", ")", "*", "\t", " ", "  ", "\n", "\r\n", "\n  ", "\n", "\x00", "\xff", "é", "元", "\u00a0", "\u0085", "\ufeff", "\u2060", "\u200b", "\u00ad", "]]", "))",
	"00:00:00", "99:99:99", "12:00", "main.ledger", "nothing.ledger", "D", "~", "apply", "00", "9999999999999999999999", "%", "\\", "'", "&", "_", "/", "1e5", "0x1F", "ı", "{", "}"}

func hostileText(c *frame.Case, l *gen.Ledger) string {
	r := c.R
	var names []string
	for n := range l.Files {
		names = append(names, n)
	}
	sort.Strings(names)
	name := gen.Pick(r, names)
	s := l.Files[name]
	kind := ""
	at := func() int {
		if len(s) == 0 {
			return 0
		}
		return r.Intn(len(s) + 1)
	}
	lineOp := func(f func(lines []string, i int) []string) {
		lines := strings.Split(s, "\n")
		i := r.Intn(len(lines))
		s = strings.Join(f(lines, i), "\n")
	}
	ins := func(lines []string, i int, t string) []string {
		return append(append(append([]string{}, lines[:i]...), t), lines[i:]...)
	}
	for k := 1 + r.Intn(3); k > 0; k-- {
		switch r.Intn(19) {
		case 18:
			kind = "after account"
			lineOp(func(l []string, i int) []string {
				if m := acctEndRe.FindString(l[i]); m != "" {
					l[i] = m + gen.Pick(r, []string{")", "]", "]]", "])", "*", "(", "\u200b", "\u2060", "\u00ad", ".", ",", "-", "'", "&", "!", "#", "é", " ]", "[", "%", "{", "\x01", "\x7f", "\ufffd", "]x", "];"}) + l[i][len(m):]
				}
				return l
			})
		case 0:
			kind = "byte"
			if len(s) > 0 {
				b := []byte(s)
				b[r.Intn(len(b))] = byte(r.Intn(256))
				s = string(b)
			}
		case 1:
			kind = "insert token"
			i := at()
			s = s[:i] + gen.Pick(r, soup) + s[i:]
		case 2:
			kind = "delete"
			i := at()
			j := i + r.Intn(6)
			if j > len(s) {
				j = len(s)
			}
			s = s[:i] + s[j:]
		case 3:
			kind = "truncate"
			s = s[:at()]
		case 4:
			kind = "delete line"
			lineOp(func(l []string, i int) []string { return append(append([]string{}, l[:i]...), l[i+1:]...) })
		case 5:
			kind = "duplicate line"
			lineOp(func(l []string, i int) []string { return ins(l, i, l[i]) })
		case 6:
			kind = "swap lines"
			lineOp(func(l []string, i int) []string {
				j := r.Intn(len(l))
				l[i], l[j] = l[j], l[i]
				return l
			})
		case 7:
			kind = "join lines"
			lineOp(func(l []string, i int) []string {
				if i+1 < len(l) {
					l[i] += l[i+1]
					l = append(l[:i+1], l[i+2:]...)
				}
				return l
			})
		case 8:
			kind = "trailing text"
			lineOp(func(l []string, i int) []string {
				l[i] += gen.Pick(r, []string{" extra", " 5", " \"", " @", " = ", " ;", " $", " -", " USD 5", "x"})
				return l
			})
		case 9:
			kind = "indentation"
			lineOp(func(l []string, i int) []string {
				if strings.HasPrefix(l[i], " ") || strings.HasPrefix(l[i], "\t") {
					l[i] = strings.TrimLeft(l[i], " \t")
				} else {
					l[i] = "  " + l[i]
				}
				return l
			})
		case 10:
			kind = "posting"
			lineOp(func(l []string, i int) []string {
				return ins(l, i, gen.Pick(r, []string{"  A", "  A 5", "  A $", "  A $ -", "  A 0", "  A - 0 USD", "  A --5 USD", "  A -$-5", "  A \"\" 5", "  A \"X 5", "  5 USD",
					"  A 5 USD 6", "  A USD 5 USD", "  A =5", "  A = $5", "  A 5 USD @", "  A 5 USD @@ 3 EUR", "  A 5 USD @ EUR", "  A 5 USD = ", "  A 0 USD", "  A \"X\"", "  A 1.2.3 USD",
					"  A 1,,2 USD", "  A ,5", "  A $,5", "  A 5 USD;n", "  A 5USD", "  A USD5", "  A:é 5 USD", "  [A] 0 USD", "  !A 0 USD", "  (A) 0 USD", "  A  0 \"a;b\" ; n", "\u00a0A 0 USD", "  A 5 USD\r", "  A 0 USD @ x 1 = y"}))
			})
		case 11:
			kind = "header"
			lineOp(func(l []string, i int) []string {
				return ins(l, i, gen.Pick(r, []string{"2020/02/30 x", "2019/02/29 x", "2020/13/01 x", "2020/00/10 x", "2020/01/00 x", "0000/01/01 x", "2020/1/1", "2020/1/1x", "20200101 x", "2020-01-01 x",
					"2020/01/01 \"x", "2020/01/01 \"x\" y", "2020/01/01 * \"x\" ; n", "2020/01/01 ** x", "2020/01/01=2020/01/02 x", "2020/001/01 x", "99999/01/01 x", "1900/02/29 x", "2000/02/29 x", "2020/04/31 y", "2020/01/01 ;", "0001/01/01 first"}))
			})
		case 12:
			kind = "price"
			lineOp(func(l []string, i int) []string {
				return ins(l, i, gen.Pick(r, []string{"P", "P 2020/01/01", "P 2020/01/01 00:00:00", "P 2020/01/01 00:00:00 X", "P 2020/01/01 00:00:00 X $", "P 2020/01/01 00:00:00 X 5", "P 2020/01/01 00:00:00 X $5 y",
					"P 2020/02/30 00:00:00 X $5", "P 2020/01/01 X $5", "P 2020/01/01 00:00 X $5", "P 2020/01/01 00:00:00 \"X 1\" $5 ; n", "P2020/01/01 00:00:00X $5", "P 2020/01/01 00:00:00 X -$5", "P 2020/01/01 00:00:00 X $-5",
					"P 2020/01/01 99:99:99 X 5 $", "P 2020/01/01 000:00:00 X 5 $", "Payee", "P 2020/01/01 00:00:00 \"\" $5", "P 2020/01/01 00:00:00 X \"\" 5", "P 2020/01/01 00:00:00 $ $0"}))
			})
		case 13:
			kind = "directive"
			lineOp(func(l []string, i int) []string {
				return ins(l, i, gen.Pick(r, []string{"include", "include ", "include nothing.ledger", "include main.ledger", "include \"main.ledger\"", "include .", "include \"", "include ../../nothing", "include main.ledger ; x",
					"alias", "alias a", "alias a=", "alias a=b c", "alias =b", "alias a b", "alias é=b", "account A", "commodity $", "~ monthly", "year 2020", "apply tag x", "end", "# comment", "% comment", "| x", "* x", "D", "Dx", "= x", "INCLUDE_ x", "includes x", "aliasx a=b", "comment"}))
			})
		case 14:
			kind = "soup"
			var sb strings.Builder
			for n := r.Intn(30); n > 0; n-- {
				sb.WriteString(gen.Pick(r, soup))
				if r.Intn(3) == 0 {
					sb.WriteString(" ")
				}
			}
			s = sb.String()
		case 15:
			kind = "random bytes"
			b := make([]byte, r.Intn(60))
			r.Read(b)
			i := at()
			s = s[:i] + string(b) + s[i:]
		case 16:
			kind = "long"
			lineOp(func(l []string, i int) []string {
				n := 1 + r.Intn(20000)
				return ins(l, i, gen.Pick(r, []string{"; ", "2020/01/01 ", "  A ", "  A USD 0.", "  A USD 0", "include ", "  A \"", "alias a=", "\t", "P 2020/01/01 00:00:00 ", ""})+strings.Repeat(gen.Pick(r, []string{"0", "a", "é", ":", " ", "1", "-", ";", "\""}), n))
			})
		case 17:
			kind = "replace digits"
			lineOp(func(l []string, i int) []string {
				l[i] = strings.Map(func(x rune) rune {
					if x >= '0' && x <= '9' && r.Intn(4) == 0 {
						return rune('0' + r.Intn(10))
					}
					return x
				}, l[i])
				return l
			})
		}
		c.Count("mutation: "+kind, 1)
	}
	l.Files[name] = s
	return kind
}

// C42: what a message about a ledger that is refused has to say
func messageCheck(c *frame.Case) {
	r := c.R
	l := gen.New(r, gen.Options{Blanks: true, Txs: 1 + r.Intn(40), NoHuge: r.Intn(20) > 0})
	if r.Intn(8) == 0 {
		faultyPosting(c, l)
	} else {
		hostileText(c, l)
	}
	main := writeLedger(c, l)
	_, werr := ref.Parse(main)
	e, ok := werr.(*ref.ParseError)
	if !ok {
		c.Count("accepted", 1)
		return
	}
	for _, f := range l.Files {
		if strings.Contains(f, "\x00") { // found before the line it is in is reached
			c.Count("NUL bytes", 1)
			return
		}
	}
	_, gerr := sut.Load(main)
	if gerr == nil {
		return // C04
	}
	msg := gerr.Error()
	if c.Index%25 == 0 {
		args := [][]string{{"export"}, {"report", "--sum", "--ccy", "USD"}, {"accts"}, {"ccy"}, {"register", "--type", "Text", ".*"}}[r.Intn(5)]
		res := sut.CLI(c.Bin, c.Dir, nil, append(args, "-l", main)...)
		msg = res.Stderr
		if res.Exit == 0 {
			c.Fail("%v: exit status 0: %s", werr, res)
		}
		c.Count("command runs", 1)
	}
	c.Count("messages", 1)
	c.Count("messages about: "+e.Kind, 1)
	rel := func(f string) bool { return strings.Contains(msg, filepath.Clean(f)) || strings.Contains(msg, f) }
	lineNo := regexp.MustCompile(`: ?(\d+):(\d+)`)
	switch e.Kind {
	case "line":
		text, _ := os.ReadFile(e.File)
		lines := strings.Split(string([]rune(string(text))), "\n")
		m := lineNo.FindStringSubmatch(strings.ReplaceAll(msg, main, "main"))
		if e.File != main {
			m = lineNo.FindStringSubmatch(strings.ReplaceAll(msg, e.File, "file"))
		}
		if !rel(e.File) || m == nil || m[1] != fmt.Sprint(e.Line) {
			c.Fail("the fault is in line %d of %s (%s): %q, but the message is: %s", e.Line, e.File, e.Msg, cutText(lines[e.Line-1], 300), cutText(msg, 500))
		}
		col := 0
		fmt.Sscan(m[2], &col)
		if n := len([]rune(lines[e.Line-1])); col < 1 || col > n+1 {
			c.Fail("the fault is in line %d of %s, which has %d characters: %s", e.Line, e.File, n, cutText(msg, 500))
		}
	case "file":
		if !rel(e.File) {
			c.Fail("%v, but the message is: %s", werr, cutText(msg, 500))
		}
	case "balance":
		date := strings.Contains(msg, fmt.Sprint(e.Date)) || strings.Contains(msg, fmt.Sprintf("%04d/%02d/%02d", e.Date/10000, e.Date/100%100, e.Date%100))
		named := false
		for k, v := range e.Off {
			if i := strings.LastIndex(msg, k+" "); k != "" && i >= 0 && (strings.Contains(msg[i:], v.String()) || strings.Contains(msg[i:], v.RatString())) {
				named = true
			}
		}
		if !date || !strings.Contains(msg, e.Who) || !named {
			c.Fail("%v, but the message is: %s", werr, cutText(msg, 500))
		}
	}
	c.Nontrivial(l.Text())
	c.Sample("%v: %s", werr, cutText(msg, 300))
}

// one amount is changed
func faultyPosting(c *frame.Case, l *gen.Ledger) {
	var names []string
	for n := range l.Files {
		names = append(names, n)
	}
	sort.Strings(names)
	name := gen.Pick(c.R, names)
	lines := strings.Split(l.Files[name], "\n")
	i := c.R.Intn(len(lines) + 1)
	lines = append(lines[:i:i], append([]string{gen.Pick(c.R, []string{"  Assets:X  1.25 USD", "  Assets:X  -7 EUR", "  Assets:X  $0.000000000001"})}, lines[i:]...)...)
	l.Files[name] = strings.Join(lines, "\n")
}

func hostileCheck(c *frame.Case) {
	r := c.R
	l := gen.New(r, gen.Options{Blanks: true, Txs: 1 + r.Intn(6), NoHuge: true})
	orig := l.Text()
	kinds := hostileText(c, l)
	// includes in circles, sometimes
	switch r.Intn(40) {
	case 0:
		l.Files["a.ledger"] = l.Files["main.ledger"] + "\ninclude b.ledger\n"
		l.Files["b.ledger"] = "; x\ninclude ./sub/../a.ledger\n"
		l.Main = "a.ledger"
		os.MkdirAll(c.Scratch("sub"), 0755)
	case 1: // the same file twice is not a circle
		l.Files["a.ledger"] = "include main.ledger\ninclude main.ledger\n"
		l.Main = "a.ledger"
	case 2: // deep nesting
		n := 50 + r.Intn(100)
		for i := 0; i < n; i++ {
			l.Files[fmt.Sprintf("d%d.ledger", i)] = fmt.Sprintf("include d%d.ledger\n", i+1)
		}
		l.Files[fmt.Sprintf("d%d.ledger", n)] = l.Files["main.ledger"]
		l.Main = "d0.ledger"
	case 3:
		os.MkdirAll(c.Scratch("dir.ledger"), 0755)
		l.Files["main.ledger"] += "\ninclude dir.ledger\n"
	case 4:
		os.Symlink("main.ledger", c.Scratch("link.ledger"))
		l.Files["main.ledger"] += "\ninclude link.ledger\n"
	}
	main := writeLedger(c, l)
	want, werr := ref.Parse(main)
	b, gerr := sut.Load(main)
	if (werr == nil) != (gerr == nil) {
		if gerr == nil {
			c.Fail("%s: text that should be refused (%v) is read as\n%s", kinds, werr, cutText(sut.Dump(b), 3000))
		}
		c.Fail("%s: text is refused (%v), it should be read as\n%s", kinds, gerr, cutText(want.String(), 3000))
	}
	if l.Text() != orig {
		c.Nontrivial(l.Text())
	}
	if gerr != nil {
		c.Count("refused", 1)
		if c.Index%40 == 0 {
			res := sut.CLI(c.Bin, c.Dir, nil, "export", "-l", main)
			if res.Exit != 1 || res.Stdout != "" || res.Crashed() || res.Timeout || strings.TrimSpace(res.Stderr) == "" {
				c.Fail("%s: export: %s", kinds, res)
			}
			c.Count("command runs", 1)
			c.Sample("%s refused: %v", kinds, gerr)
		}
		return
	}
	c.Count("accepted", 1)
	got := sut.Snapshot(b)
	if d := diffTxs(got, want.Normalise()); d != "" {
		c.Fail("%s: %s", kinds, d)
	}
	if d := diffPrices(sut.Prices(b), want.Prices); d != "" {
		c.Fail("%s: %s", kinds, d)
	}
	if d := diffBalanced(got); d != "" {
		c.Fail("%s: %s", kinds, d)
	}
	for _, t := range got {
		if !ref.Valid(t.Date/10000, t.Date/100%100, t.Date%100) {
			c.Fail("%s: impossible date %d", kinds, t.Date)
		}
	}
	c.Count("transactions compared", len(got))
}

// C37: a tree of files and its expansion
func includeCheck(c *frame.Case) {
	r := c.R
	names := []string{"Asset:Bank", "Expense:Food", "Income", "b", "f", "Bank", "Asset", "Long:Name:Here", "x"}
	var flat strings.Builder // what the tree means, without includes and aliases
	files := map[string]*strings.Builder{}
	nIncl, nAlias, nUsed, nFiles := 0, 0, 0, 0
	day := 0

	var write func(name string, alias map[string]string, depth int, inTx *bool, off *[]string)
	write = func(name string, alias map[string]string, depth int, inTx *bool, pend *[]string) {
		nFiles++
		local := map[string]string{}
		for k, v := range alias {
			local[k] = v
		}
		sb := &strings.Builder{}
		nl := "\n"
		if r.Intn(6) == 0 {
			nl = "\r\n"
		}
		files[name] = sb
		acct := func(w string) string {
			if m, ok := local[w]; ok {
				nUsed++
				return m
			}
			return w
		}
		finish := func() {
			if *inTx {
				w := gen.Pick(r, names)
				sb.WriteString("  " + w + nl)
				flat.WriteString("  " + acct(w) + "\n")
				*inTx = false
			}
		}
		for k := 1 + r.Intn(7); k > 0; k-- {
			switch n := r.Intn(12); {
			case n < 3 && depth < 5 && nFiles < 12: // include, possibly in the middle of a transaction
				nIncl++
				dir := path.Dir(name)
				rel := fmt.Sprintf("f%d.ledger", nIncl)
				switch r.Intn(5) {
				case 0:
					rel = fmt.Sprintf("d%d/f.ledger", nIncl)
				case 1:
					if dir != "." {
						rel = gen.Pick(r, []string{"../", "../", "./../", ".././", "../" + path.Base(dir) + "/../"}) + rel
					} else {
						rel = gen.Pick(r, []string{"./", "././", ".//"}) + rel
					}
				case 2:
					rel = fmt.Sprintf("d%d/./x/../y z/f.ledger", nIncl)
					os.MkdirAll(c.Scratch(path.Join(dir, fmt.Sprintf("d%d/x", nIncl))), 0755)
				case 3: // same name as another file in another directory
					rel = fmt.Sprintf("e%d/main.ledger", nIncl)
				}
				q := rel
				if r.Intn(3) == 0 {
					q = "\"" + rel + "\""
				}
				sb.WriteString("include " + q + nl)
				write(path.Join(dir, rel), local, depth+1, inTx, pend)
			case n < 6: // alias
				nAlias++
				short, long := gen.Pick(r, names), gen.Pick(r, names)
				if r.Intn(3) == 0 {
					long = "Full:" + long
				}
				sp := gen.Pick(r, []string{"", " "})
				sb.WriteString("alias " + short + sp + "=" + sp + long + nl)
				local[short] = long // applies once only, not repeatedly
			case n < 9 && *inTx:
				w := gen.Pick(r, names)
				v := 1 + r.Intn(1000)
				cc := gen.Pick(r, []string{"USD", "EUR"})
				sb.WriteString(fmt.Sprintf("  %s  %d %s%s", w, v, cc, nl))
				flat.WriteString(fmt.Sprintf("  %s  %d %s\n", acct(w), v, cc))
			case n < 10:
				u := 1 + r.Intn(1000)
				day++
				ln := fmt.Sprintf("P %s 00:00:00 X%s USD %d", ref.DateString(ref.FromTime(ref.Time(20200101).AddDate(0, 0, day))), gen.Pick(r, []string{"A", "B", "C"}), u)
				sb.WriteString(ln + nl)
				flat.WriteString(ln + "\n")
			default:
				finish()
				d := ref.DateString(ref.FromTime(ref.Time(20200101).AddDate(0, 0, r.Intn(20))))
				p := gen.Pick(r, []string{"Shop", "Other", ""})
				sb.WriteString(d + " " + p + nl)
				flat.WriteString(d + " " + p + "\n")
				*inTx = true
				w, cc := gen.Pick(r, names), gen.Pick(r, []string{"USD", "EUR"})
				v := 1 + r.Intn(1000)
				sb.WriteString(fmt.Sprintf("  %s  %d %s%s", w, v, cc, nl))
				flat.WriteString(fmt.Sprintf("  %s  %d %s\n", acct(w), v, cc))
			}
		}
		if depth == 0 || r.Intn(2) == 0 {
			finish()
		}
		if r.Intn(4) == 0 {
			s := strings.TrimRight(sb.String(), "\r\n")
			sb.Reset()
			sb.WriteString(s)
		}
	}
	inTx := false
	var pend []string
	main := gen.Pick(r, []string{"main.ledger", "top/main.ledger", "a/b c/main.ledger"})
	first, outer := main, map[string]string(nil)
	if r.Intn(10) == 0 {
		// one file including the next, many times; what is included sees the aliases of them all
		outer = map[string]string{}
		dir := path.Dir(main)
		n := 6 + r.Intn(50)
		for i := 0; i < n; i++ {
			sb := &strings.Builder{}
			if r.Intn(3) == 0 {
				short, long := gen.Pick(r, names), gen.Pick(r, names)
				sb.WriteString("alias " + short + " = " + long + "\n")
				outer[short] = long
				nAlias++
			}
			next := fmt.Sprintf("chain%d.ledger", i+1)
			if i == n-1 {
				next = path.Base(main)
			}
			sb.WriteString("include " + next + "\n")
			files[path.Join(dir, fmt.Sprintf("chain%d.ledger", i))] = sb
			nIncl++
		}
		main = path.Join(dir, "chain0.ledger")
		c.Count("long chains of includes", 1)
	}
	write(first, outer, 0, &inTx, &pend)
	var text strings.Builder
	var order []string
	for n := range files {
		order = append(order, n)
	}
	sort.Strings(order)
	for _, n := range order {
		c.Write(n, files[n].String())
		text.WriteString("=== " + n + "\n" + files[n].String() + "\n")
	}
	c.Artefact("tree", text.String())
	c.Artefact("flat", flat.String())
	f := c.Write("zflat.ledger", flat.String())
	want, err := ref.Parse(f)
	if err != nil {
		frame.Broken("reference refuses the flat ledger: %v\n%s", err, flat.String())
	}
	a := load(c, c.Scratch(main))
	b := load(c, f)
	for _, x := range []*sut.Book{a, b} {
		if d := diffTxs(sut.Snapshot(x), want.Normalise()); d != "" {
			c.Fail("%s", d)
		}
		if d := diffPrices(sut.Prices(x), want.Prices); d != "" {
			c.Fail("%s", d)
		}
	}
	// the real command, from another directory
	if c.Index%25 == 0 {
		os.MkdirAll(c.Scratch("cwd"), 0755)
		x := sut.CLI(c.Bin, c.Scratch("cwd"), nil, "export", "-l", path.Join("..", main))
		y := sut.CLI(c.Bin, c.Scratch("cwd"), nil, "export", "-l", "../zflat.ledger")
		if x.Exit != 0 || x.Stdout != y.Stdout {
			c.Fail("export of the tree: %s\nof the flat ledger: %s", x, y)
		}
		c.Count("command runs", 2)
	}
	c.Count("includes", nIncl)
	c.Count("aliases", nAlias)
	c.Count("aliases used", nUsed)
	if nIncl > 0 && nUsed > 0 {
		c.Nontrivial(text.String())
		c.Sample("%d files, %d aliases, %d uses", len(files), nAlias, nUsed)
	}
}
