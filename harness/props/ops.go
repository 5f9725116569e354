package props

import (
	"fmt"
	"math/big"
	"strings"
	"time"

	"verif/harness/frame"
	"verif/harness/gen"
	"verif/harness/ref"
	"verif/harness/sut"
)

// loads a generated ledger (checking nothing else about loading)
func loadGenerated(c *frame.Case, o gen.Options) (*gen.Ledger, *sut.Book) {
	l := gen.New(c.R, o)
	return l, load(c, writeLedger(c, l))
}

func applyOp(c *frame.Case, b *sut.Book, text string) {
	c.Artefact("op", text)
	if err := sut.Ops(b, text); err != nil {
		c.Fail("operation %q fails: %v", text, err)
	}
	c.Count("op: "+strings.SplitN(text, "=", 2)[0], 1)
}

func init() {
	frame.Register(&frame.Check{
		ID: "C01", Quick: 8000, Thorough: 300000,
		Rule: "one evaluation: a generated ledger is loaded and up to 5 random operations and a conversion applied, the exact balance of every transaction and of the book observed after each; non-trivial: at least one operation changed the book, distinct by ledger and operations",
		Run: func(c *frame.Case) {
			l, b := loadGenerated(c, gen.Options{Blanks: true})
			txs := sut.Snapshot(b)
			if d := diffBalanced(txs); d != "" {
				c.Fail("after loading: %s", d)
			}
			n := 1 + c.R.Intn(5)
			cur := sut.Dump(b)
			changed := false
			rb := sut.ToRef(txs, sut.Prices(b))
			var texts []string
			for i := 0; i < n; i++ {
				op := gen.RandomOp(c.R, rb)
				if len(texts) > 2 && op.Kind == "depreciate" {
					continue
				}
				texts = append(texts, op.Text)
				applyOp(c, b, op.Text)
				txs = sut.Snapshot(b)
				if d := diffBalanced(txs); d != "" {
					c.Fail("after %q: %s", texts, d)
				}
				c.Count("transactions checked", len(txs))
				if next := sut.Dump(b); next != cur {
					changed = true
					cur = next
				}
				rb = sut.ToRef(txs, sut.Prices(b))
				if len(txs) > 3000 {
					break
				}
			}
			// conversion through the real command, exact output
			if ccys := gen.CCYs(rb); len(ccys) > 0 {
				base := gen.Pick(c.R, ccys)
				if txs := convertedReport(c, l, rb, base, texts); txs != nil {
					c.Count("converted transactions checked", len(txs))
				}
			}
			if changed {
				c.Nontrivial(l.Text(), texts)
				c.Sample("ops %q on %d transactions", texts, len(txs))
			}
		},
	})

	frame.Register(&frame.Check{
		ID: "C07", Quick: 16000, Thorough: 600000,
		Rule: "one evaluation: a random map= on a generated ledger (sometimes after other operations), compared exactly with the reference; non-trivial: the map changes the book, distinct by ledger and operation",
		Run:  func(c *frame.Case) { opCheck(c, "map") },
	})
	frame.Register(&frame.Check{
		ID: "C08", Quick: 16000, Thorough: 600000,
		Rule: "one evaluation: a random mapccy= on a generated ledger, postings, prices and decimals compared with the reference; non-trivial: the operation changes the book",
		Run:  func(c *frame.Case) { opCheck(c, "mapccy") },
	})
	frame.Register(&frame.Check{
		ID: "C09", Quick: 16000, Thorough: 600000,
		Rule: "one evaluation: a random move= on a generated ledger, compared exactly with the reference; non-trivial: the operation changes the book",
		Run:  func(c *frame.Case) { opCheck(c, "move") },
	})
	frame.Register(&frame.Check{
		ID: "C10", Quick: 8000, Thorough: 300000,
		Rule: "one evaluation: a random depreciate= on a generated ledger, compared exactly with the reference, totals and the asset account checked; non-trivial: the operation changes the book",
		Run:  func(c *frame.Case) { opCheck(c, "depreciate") },
	})
	frame.Register(&frame.Check{
		ID: "C11", Quick: 16000, Thorough: 600000,
		Rule: "one evaluation: a combine= on a generated ledger, compared exactly with the reference; non-trivial: the operation merges or moves transactions",
		Run: func(c *frame.Case) {
			if c.R.Intn(12) == 0 {
				combineTodayCheck(c)
				return
			}
			opCheck(c, "combine")
		},
	})
	frame.Register(&frame.Check{
		ID: "C12", Quick: 16000, Thorough: 600000,
		Rule: "one evaluation: asof= and since= for the same and for different dates, compared exactly with the reference, partition and balances checked (in a sixth of the cases with a date relative to a random time in a random time zone); non-trivial: both sides are non-empty",
		Run:  windowCheck,
	})
	frame.Register(&frame.Check{
		ID: "C13", Quick: 16000, Thorough: 600000,
		Rule: "one evaluation: the running balances observed after loading and after each of up to 5 operations (read at random points in between) equal cumulative sums; non-trivial: some account has at least two postings",
		Run: func(c *frame.Case) {
			l, b := loadGenerated(c, gen.Options{Blanks: true})
			rb := l.Book
			var texts []string
			check := func() {
				txs := sut.Snapshot(b)
				d, n := diffBalances(txs)
				if d != "" {
					c.Fail("after %q: %s", texts, d)
				}
				last := 0
				for _, t := range txs {
					if t.Date < last {
						c.Fail("after %q: transactions not in date order", texts)
					}
					last = t.Date
				}
				if d := diffTxs(txs, rb); d != "" {
					c.Fail("after %q: %s", texts, d)
				}
				c.Count("balances checked", n)
				if _, posts := bookSize(rb); posts > len(gen.Accounts(rb)) {
					c.Nontrivial(l.Text(), texts)
				}
			}
			check()
			for i := c.R.Intn(6); i > 0; i-- {
				op := gen.RandomOp(c.R, rb)
				if len(texts) > 1 && op.Kind == "depreciate" {
					continue
				}
				texts = append(texts, op.Text)
				applyOp(c, b, op.Text)
				rb = op.Apply(rb)
				if c.R.Intn(3) > 0 || i == 1 {
					check()
				}
			}
			check()
		},
	})
	frame.Register(&frame.Check{
		ID: "C39", Quick: 8000, Thorough: 300000,
		Rule: "one evaluation: up to 6 operations given as list, one by one, and as macros nested to depth 6, with equal results equal to the reference; a failing operation at a random place makes all forms fail without output; non-trivial: at least two operations and the result differs from the loaded book",
		Run:  macroCheck,
	})
}

// report --convert --splitby skip --type Ledger loads exactly when amounts are finite; otherwise nothing is checked
func convertedReport(c *frame.Case, l *gen.Ledger, rb *ref.Book, base string, ops []string) []sut.Tx {
	args := append([]string{"report", "--convert", "--ccy", base, "--splitby", "skip", "--type", "Ledger"}, ops...)
	out, err := sut.Exec(c.Scratch(l.Main), args...)
	if err != nil {
		c.Fail("report %q fails: %v", args, err)
	}
	txs, _, err := parseLedgerOut(out)
	if err != nil {
		c.Fail("report %q: output not understood: %v\n%s", args, err, out)
	}
	// exact only if all amounts are finite
	for _, t := range rb.Convert(base).Txs {
		for _, p := range t.Posts {
			if ref.NeededDecimals(p.Amt) < 0 {
				return nil
			}
		}
	}
	if d := diffBalanced(txs); d != "" {
		c.Fail("report %q: %s\n%s", args, d, out)
	}
	return txs
}

func opCheck(c *frame.Case, kind string) {
	o := gen.Options{Blanks: true}
	if kind == "mapccy" {
		o.NPrices = c.R.Intn(20)
	}
	if c.R.Intn(3) == 0 {
		o.Txs = 1 + c.R.Intn(4) // small ones hit corners
	}
	l, b := loadGenerated(c, o)
	before := l.Book
	var texts []string
	if c.R.Intn(3) == 0 {
		pre, nb := gen.RandomOps(c.R, before, 1+c.R.Intn(2))
		for _, op := range pre {
			applyOp(c, b, op.Text)
			texts = append(texts, op.Text)
		}
		before = nb
	}
	decsBefore := copyInts(b.GetCCYDecimals())
	op := gen.RandomOp(c.R, before, kind)
	if kind == "map" && c.R.Intn(12) == 0 {
		// what isn't a group is taken as it is, and $$ is a dollar
		re, rp := gen.Regex(c.R, gen.Accounts(before)), gen.Pick(c.R, []string{"A$$B", "$$1", "${1}$$", "$0$0", "${0}:x", "$9", "$1x", "${nosuch}y", "a b", " x ", "é:ü", "$", "a$", "(b)", "\\1", "&", "."})
		op = gen.Op{Kind: kind, Text: "map=/" + re + "/" + rp + "/", Apply: func(b *ref.Book) *ref.Book { return b.Map(re, rp, "") }}
	}
	texts = append(texts, op.Text)
	applyOp(c, b, op.Text)
	want := op.Apply(before)
	got := sut.Snapshot(b)
	if d := diffTxs(got, want); d != "" {
		c.Fail("%q: %s", texts, d)
	}
	if d := diffPrices(sut.Prices(b), want.Prices); d != "" {
		c.Fail("%q: %s", texts, d)
	}
	if d := diffBalanced(got); d != "" {
		c.Fail("%q: %s", texts, d)
	}
	if d, n := diffBalances(got); d != "" {
		c.Fail("%q: %s", texts, d)
	} else {
		c.Count("postings compared", n)
	}
	switch kind {
	case "map", "move", "depreciate", "combine":
		if kind != "map" {
			if d := sameTotals(before, want, kind, op.Text); d != "" {
				frame.Broken("reference model: %s", d)
			}
		}
		// the decimals are those of before
		if g, w := intsString(b.GetCCYDecimals()), intsString(decsBefore); g != w {
			c.Fail("%q changed the decimals from %s to %s", texts, w, g)
		}
	case "mapccy":
		// enough for every amount it now holds (loaded finite amounts; earlier operations may add digits)
		if len(texts) == 1 {
			decs := b.GetCCYDecimals()
			for _, t := range got {
				for _, p := range t.Posts {
					if n := ref.NeededDecimals(p.Amt); n > decs[p.CCY] {
						c.Fail("%q: %s is shown with %d decimals, but holds %s", texts, p.CCY, decs[p.CCY], p.Amt.RatString())
					}
				}
			}
			c.Count("decimals checked", len(decs))
		}
	}
	if differs(before, want) {
		c.Nontrivial(l.Text(), texts)
		n, m := bookSize(want)
		c.Sample("%q on %d transactions gives %d transactions, %d postings", texts, len(before.Txs), n, m)
	}
}

func copyInts(m map[string]int) map[string]int {
	out := map[string]int{}
	for k, v := range m {
		out[k] = v
	}
	return out
}

// totals over the whole book per currency (and account for combine) are unchanged
func sameTotals(a, b *ref.Book, kind, op string) string {
	tot := func(bk *ref.Book) map[string]*big.Rat {
		m := map[string]*big.Rat{}
		for _, t := range bk.Txs {
			for _, p := range t.Posts {
				k := p.CCY
				if kind == "combine" || kind == "depreciate" {
					k = p.Acct + "|" + p.CCY
				}
				if m[k] == nil {
					m[k] = new(big.Rat)
				}
				m[k].Add(m[k], p.Amt)
			}
		}
		for k, v := range m {
			if v.Sign() == 0 {
				delete(m, k)
			}
		}
		return m
	}
	if x, y := ratMapString(tot(a)), ratMapString(tot(b)); x != y {
		return fmt.Sprintf("%s: totals %s became %s", op, x, y)
	}
	return ""
}

// combine=today: everything in a single transaction of the current day
func combineTodayCheck(c *frame.Case) {
	l := gen.New(c.R, gen.Options{})
	main := writeLedger(c, l)
	atSomeTime(c.R, gen.RandomDate(c.R, l.Book), func(at time.Time) {
		c.Artefact("time", at.String())
		b := load(c, main)
		applyOp(c, b, gen.Pick(c.R, []string{"combine=today", "combine=Today"}))
		got := sut.Snapshot(b)
		if d := diffTxs(got, l.Book.SplitBy("today", ref.FromTime(at))); d != "" {
			c.Fail("combine=today at %v: %s", at, d)
		}
		c.Count("combined to a random time", 1)
		if len(l.Book.Txs) > 1 {
			c.Nontrivial(l.Text(), at)
			c.Sample("%d transactions combined to %d at %v", len(l.Book.Txs), len(got), at)
		}
	})
}

func windowCheck(c *frame.Case) {
	l := gen.New(c.R, gen.Options{})
	main := writeLedger(c, l)
	d1, d2 := gen.RandomDate(c.R, l.Book), gen.RandomDate(c.R, l.Book)
	if c.R.Intn(2) == 0 {
		d2 = d1
	}
	run := func(want *ref.Book, ops ...string) []sut.Tx {
		b := load(c, main)
		for _, op := range ops {
			applyOp(c, b, op)
		}
		got := sut.Snapshot(b)
		if d := diffTxs(got, want); d != "" {
			c.Fail("%q: %s", ops, d)
		}
		if d, n := diffBalances(got); d != "" {
			c.Fail("%q: %s", ops, d)
		} else {
			c.Count("postings compared", n)
		}
		return got
	}
	if c.R.Intn(6) == 0 { // relative to the time
		atSomeTime(c.R, d1, func(at time.Time) {
			c.Artefact("time", at.String())
			s := relativeDate(c.R)
			d := dateMeaning(s, ref.FromTime(at))[0]
			before := run(l.Book.Asof(d), "asof="+s)
			after := run(l.Book.Since(d), "since="+s)
			if len(before)+len(after) != len(l.Book.Txs) {
				c.Fail("asof and since of %q at %v have %d and %d transactions of %d", s, at, len(before), len(after), len(l.Book.Txs))
			}
			c.Count("relative to a random time", 1)
			if len(before) > 0 && len(after) > 0 {
				c.Nontrivial(l.Text(), s, at)
				c.Sample("%d before and %d since %q at %v", len(before), len(after), s, at)
			}
		})
		return
	}
	s1, s2 := ref.DateString(d1), ref.DateString(d2)
	before := run(l.Book.Asof(d1), "asof="+s1)
	after := run(l.Book.Since(d1), "since="+s1)
	if len(before)+len(after) != len(l.Book.Txs) {
		c.Fail("asof and since of %s have %d and %d transactions of %d", s1, len(before), len(after), len(l.Book.Txs))
	}
	run(l.Book.Asof(d1).Since(d2), "asof="+s1, "since="+s2)
	run(l.Book.Since(d2).Asof(d1), "since="+s2, "asof="+s1)
	// after another operation
	op := gen.RandomOp(c.R, l.Book, "map", "move", "combine", "mapccy")
	run(op.Apply(l.Book).Asof(d1), op.Text, "asof="+s1)
	run(op.Apply(l.Book.Since(d1)), "since="+s1, op.Text)
	if len(before) > 0 && len(after) > 0 {
		c.Nontrivial(l.Text(), d1, d2)
		c.Sample("%d before and %d since %s", len(before), len(after), s1)
	}
}

// many operations: without those that add postings each time
func kindsOf(n int) []string {
	if n > 6 {
		return []string{"map", "mapccy", "combine", "asof", "since"}
	}
	return nil
}

func macroCheck(c *frame.Case) {
	l := gen.New(c.R, gen.Options{Txs: 1 + c.R.Intn(15), MaxDec: 6})
	main := writeLedger(c, l)
	nops := 1 + c.R.Intn(6)
	if c.R.Intn(20) == 0 {
		nops = 7 + c.R.Intn(40)
	}
	ops, want := gen.RandomOps(c.R, l.Book, nops, kindsOf(nops)...)
	texts := gen.Texts(ops)
	c.Artefact("ops", strings.Join(texts, "\n"))

	// nest them: each macro has a run of operations, some of them macros
	macros := map[string][]string{}
	n := 0
	var nest func(l []string, depth int) []string
	nest = func(l []string, depth int) []string {
		if len(l) == 0 || depth > 6 || c.R.Intn(4) == 0 {
			return l
		}
		i := c.R.Intn(len(l))
		j := i + 1 + c.R.Intn(len(l)-i)
		n++
		name := []string{"m%d", "macro_%d", "balance sheet %d", "map%d", "X=%d"}[c.R.Intn(5)]
		name = fmt.Sprintf(name, n)
		macros[name] = nest(l[i:j], depth+1)
		out := append([]string{}, nest(l[:i], depth+1)...)
		out = append(out, name)
		return append(out, nest(l[j:], depth+1)...)
	}
	nested := nest(texts, 0)
	deep := 0
	if c.R.Intn(20) == 0 {
		deep = c.R.Intn(40)
	}
	for ; deep > 0; deep-- {
		// very deep
		n++
		name := fmt.Sprintf("deep%d", n)
		macros[name] = nested
		nested = []string{name}
	}
	if c.R.Intn(4) == 0 {
		macros["empty"] = nil
		nested = append(nested, "empty")
	}
	c.Artefact("macros", fmt.Sprintf("%q %q", nested, macros))

	// reference
	b := load(c, main)
	for _, t := range texts {
		applyOp(c, b, t)
	}
	if d := diffTxs(sut.Snapshot(b), want); d != "" {
		c.Fail("%q: %s", texts, d)
	}
	// an export is the same for all forms
	typ := []string{"Ledger", "CSV", "Json", "Beancount"}[c.R.Intn(4)]
	plain, err := sut.Exec(main, append([]string{"export", "--type", typ}, texts...)...)
	if err != nil {
		c.Fail("export %q fails: %v", texts, err)
	}
	viaMacro, err := sut.ExecMacros(main, macros, append([]string{"export", "--type", typ}, nested...)...)
	if err != nil {
		c.Fail("export with macros fails: %v", err)
	}
	if plain != viaMacro {
		c.Fail("export %q with macros %q differs from %q:\n%s\n---\n%s", nested, macros, texts, viaMacro, plain)
	}
	c.Count("macros used", len(macros))
	c.Count("operations", len(texts))

	// one failing operation
	bad := gen.Pick(c.R, []string{"nothing", "map=/a/", "map=/(/b/", "asof=2020/13/01", "move=/a/b/x/", "combine=weekly", "unknown=/a/b/",
		"since=", "depreciate=/a/b/0/", "mapccy=/a//", "", "map", "MAP=/a/b/", "move=/a/b/1.2.3/"})
	i := c.R.Intn(len(texts) + 1)
	withBad := append(append(append([]string{}, texts[:i]...), bad), texts[i:]...)
	c.Artefact("bad", fmt.Sprintf("%q", withBad))
	var forms [][]string
	var ms []map[string][]string
	forms = append(forms, withBad)
	ms = append(ms, nil)
	if bad != "" {
		macros["all"] = withBad
		macros["outer"] = []string{"all"}
		forms = append(forms, []string{"outer"})
		ms = append(ms, macros)
	}
	for k := range forms {
		for _, cmd := range []string{"export", "report"} {
			out, err := sut.ExecMacros(main, ms[k], append([]string{cmd}, forms[k]...)...)
			if err == nil {
				c.Fail("%s %q (macros %q) succeeds although %q is not an operation:\n%s", cmd, forms[k], ms[k], bad, out)
			}
			if usage := strings.Index(out, "Usage:"); usage > 0 && strings.TrimSpace(out[:usage]) != "" || usage < 0 && strings.TrimSpace(out) != "" {
				c.Fail("%s %q fails, but prints a report:\n%s", cmd, forms[k], out)
			}
			c.Count("failing lists", 1)
		}
	}
	// and by the real command, now and then
	if c.R.Intn(20) == 0 {
		conf := "[macros]\n"
		for name, l := range macros {
			conf += fmt.Sprintf("%s = [%s]\n", tomlString(name), tomlList(l))
		}
		c.Write("conf", conf)
		r := sut.CLI(c.Bin, c.Dir, []string{"GOLEDGER_CONF=" + c.Scratch("conf")}, append([]string{"export", "-l", main, "--type", typ}, nested...)...)
		if r.Exit != 0 || r.Stdout != plain {
			c.Fail("command with macros %q: %s\nexpected output %s", nested, r, plain)
		}
		r = sut.CLI(c.Bin, c.Dir, nil, append([]string{"report", "-l", main}, withBad...)...)
		if r.Exit != 1 || r.Stdout != "" || r.Crashed() {
			c.Fail("command with bad operation: %s", r)
		}
		c.Count("command runs", 2)
	}
	if len(texts) > 1 && differs(l.Book, want) {
		c.Nontrivial(l.Text(), texts)
		c.Sample("%q as %q with %q", texts, nested, macros)
	}
}

func tomlString(s string) string {
	s = strings.ReplaceAll(s, "\\", "\\\\")
	s = strings.ReplaceAll(s, "\"", "\\\"")
	s = strings.ReplaceAll(s, "\t", "\\t")
	return "\"" + s + "\""
}

func tomlList(l []string) string {
	var q []string
	for _, s := range l {
		q = append(q, tomlString(s))
	}
	return strings.Join(q, ", ")
}
