package props

import (
	"fmt"
	"math/big"
	"math/rand"
	"regexp"
	"sort"
	"strings"

	"verif/harness/frame"
	"verif/harness/gen"
	"verif/harness/ref"
	"verif/harness/sut"
)

func init() {
	frame.Register(&frame.Check{
		ID: "C16", Quick: 8000, Thorough: 300000,
		Rule: "one evaluation: a price list of up to 60 points per pair (now and then up to 900) loaded in two different orders and looked up on every recorded date, the days around, dates between and outside, in both directions, and through the iterator, compared with the reference; non-trivial: some lookup is interpolated, distinct by prices",
		Run:  priceCheck,
	})
	frame.Register(&frame.Check{
		ID: "C25", Quick: 4000, Thorough: 150000,
		Rule: "one evaluation: a book, its duplicates and their duplicates under a random sequence of operations and reads, each compared after every step with a freshly loaded book that had only its own operations, kept results of earlier reads looked at again; non-trivial: at least one operation changed a book while another copy existed, distinct by ledger and sequence",
		Run:  copyCheck,
	})
}

func nearDate(r *rand.Rand, d int) int {
	t := ref.Time(d).AddDate(0, 0, []int{-1, 1, 0, 2, -2, 30, -30, 365, 1000, -1000}[r.Intn(10)])
	if t.Year() < 1 || t.Year() > 9999 {
		return d
	}
	return ref.FromTime(t)
}

func priceCheck(c *frame.Case) {
	r := c.R
	ccys := gen.Sub(r, []string{"USD", "GBP", "EUR", "ABC", "£"}, 2+r.Intn(3))
	b := &ref.Book{}
	var lines []string
	have := map[string]bool{}
	for i := 1 + r.Intn(3); i > 0; i-- {
		u, k := gen.Pick(r, ccys), gen.Pick(r, ccys)
		if u == k {
			continue
		}
		n := 1 + r.Intn(6)
		if r.Intn(4) == 0 {
			n = 1 + r.Intn(60)
		}
		if r.Intn(60) == 0 && i == 1 {
			n = 300 + r.Intn(600)
			c.Count("long price lists", 1)
		}
		years := [2]int{2015, 2025}
		if r.Intn(4) == 0 {
			years = [2]int{1, 9999}
		} else if r.Intn(3) == 0 {
			years = [2]int{2019, 2020}
		}
		for _, d := range gen.Dates(r, years, n) {
			if r.Intn(3) == 0 {
				d = nearDate(r, d)
			}
			id := fmt.Sprint(d, " ", u, " ", k)
			if have[id] {
				continue
			}
			have[id] = true
			v := big.NewRat(r.Int63n(1000000), []int64{1, 10, 100, 10000, 1000000}[r.Intn(5)])
			switch r.Intn(20) {
			case 0:
				v = new(big.Rat)
			case 1: // very large, very small, very precise
				e := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(4+r.Intn(20))), nil))
				if r.Intn(2) == 0 {
					e.Inv(e)
				}
				v.Mul(v, e)
			case 2:
				v = new(big.Rat).Abs(gen.Amount(r, &gen.Options{}))
			}
			b.Prices = append(b.Prices, ref.Price{Date: d, Unit: u, CCY: k, Val: v})
			lines = append(lines, fmt.Sprintf("P %s 00:00:00 %s %s%s", ref.DateString(d), u, k+" ", gen.Exact(v)))
		}
	}
	if len(lines) == 0 {
		return
	}
	tail := "\n2020/01/01 x\n  A  1 USD\n  B\n"
	r.Shuffle(len(lines), func(i, j int) { lines[i], lines[j] = lines[j], lines[i] })
	one := c.Write("one.ledger", strings.Join(lines, "\n")+tail)
	c.Artefact("ledger", strings.Join(lines, "\n"))
	sort.Strings(lines)
	if r.Intn(2) == 0 {
		r.Shuffle(len(lines), func(i, j int) { lines[i], lines[j] = lines[j], lines[i] })
	}
	two := c.Write("two.ledger", strings.Join(lines, "\n")+tail)
	books := []*sut.Book{load(c, one), load(c, two)}

	var dates []int
	seen := map[int]bool{}
	add := func(d int) {
		if !seen[d] {
			seen[d] = true
			dates = append(dates, d)
		}
	}
	for _, p := range b.Prices {
		add(p.Date)
		add(nearDate(r, p.Date))
		add(nearDate(r, p.Date))
		q := b.Prices[r.Intn(len(b.Prices))]
		if p.Date < q.Date { // between
			add(ref.FromTime(ref.Time(p.Date).AddDate(0, 0, r.Intn(1+ref.Days(q.Date)-ref.Days(p.Date)))))
		}
	}
	add(10101)
	add(99991231)
	interp := 0
	for _, u := range append(ccys, "NONE") {
		for _, k := range append(ccys, "NONE") {
			for _, d := range dates {
				if len(dates) > 800 && r.Intn(len(dates)) > 400 {
					continue
				}
				want, how := b.Price(d, u, k)
				for i, bk := range books {
					got, gh := sut.Price(bk, d, u, k)
					if got.Cmp(want) != 0 || gh != how {
						c.Fail("price of %s in %s on %d is %s (%s), expected %s (%s) (order %d)", u, k, d, got.RatString(), gh, want.RatString(), how, i)
					}
				}
				c.Count("lookup: "+how, 1)
				if how == ref.Inferred {
					interp++
				}
			}
		}
	}
	// the iterator, with repeated dates
	sort.Ints(dates)
	for _, pair := range b.Pairs() {
		l := b.List(pair[0], pair[1])
		it := sut.PriceIter(books[r.Intn(2)], pair[0], pair[1])
		if it == nil {
			c.Fail("no prices of %v", pair)
		}
		for _, d := range dates {
			if r.Intn(3) == 0 {
				continue
			}
			want, how := ref.Lookup(l, d)
			for i := r.Intn(2); i >= 0; i-- {
				got, gh := it(d)
				if got.Cmp(want) != 0 || gh != how {
					c.Fail("iterator: price of %v on %d is %s (%s), expected %s (%s)", pair, d, got.RatString(), gh, want.RatString(), how)
				}
				c.Count("iterator lookups", 1)
			}
		}
	}
	// nothing changed by looking
	if d := diffPrices(sut.Prices(books[0]), b.Prices); d != "" {
		c.Fail("%s", d)
	}
	if interp > 0 {
		c.Nontrivial(strings.Join(lines, "\n"))
		c.Sample("%d prices, %d dates, %d interpolated lookups", len(lines), len(dates), interp)
	}
}

type copyState struct {
	b   *sut.Book
	ops []string
	ref *ref.Book
}

func copyCheck(c *frame.Case) {
	r := c.R
	o := gen.Options{NoHuge: true, NPrices: 1 + r.Intn(10), Txs: 2 + r.Intn(10)}
	l, main := reportLedger(c, o)
	if _, posts := bookSize(l.Book); posts > 300 {
		return
	}
	copies := []*copyState{{b: load(c, main), ref: l.Book}}
	var log []string
	var held []struct {
		h    sut.Held
		text string
	}
	fresh := func(s *copyState) *sut.Book {
		b := load(c, main)
		for _, op := range s.ops {
			if err := sut.Ops(b, op); err != nil {
				c.Fail("%q: %v", op, err)
			}
		}
		return b
	}
	ccys := append(gen.CCYs(l.Book), "USD")
	steps, changes := 4+r.Intn(8), 0
	for i := 0; i < steps; i++ {
		k := r.Intn(len(copies))
		s := copies[k]
		switch x := r.Intn(6); {
		case x == 0 && len(copies) < 4 || x < 3 && len(copies) == 1:
			copies = append(copies, &copyState{sut.Duplicate(s.b), append([]string(nil), s.ops...), s.ref})
			log = append(log, fmt.Sprintf("duplicate %d", k))
		case x < 3:
			op := gen.RandomOp(r, s.ref)
			nb := op.Apply(s.ref)
			if n, p := bookSize(nb); n > 100 || p > 600 {
				continue
			}
			if differs(nb, s.ref) && len(copies) > 1 {
				changes++
			}
			s.ref = nb
			s.ops = append(s.ops, op.Text)
			log = append(log, fmt.Sprintf("%s on %d", op.Text, k))
			if err := sut.Ops(s.b, op.Text); err != nil {
				c.Fail("%q fails: %v", op.Text, err)
			}
			held = nil // results of reading before are gone
		default:
			what := r.Intn(6)
			base := gen.Pick(r, ccys)
			re := regexp.MustCompile(gen.Regex(r, gen.Accounts(s.ref)))
			split := r.Intn(2) == 0
			h := sut.Hold(s.b, what, base, re, split)
			log = append(log, fmt.Sprintf("%s(%s, %s, %v) of %d", h.What, base, re, split, k))
			got := h.Look()
			if want := sut.Hold(fresh(s), what, base, re, split).Look(); got != want {
				c.Fail("after %q: result differs from that of a fresh book:\n%s\nexpected\n%s", log, got, want)
			}
			held = append(held, struct {
				h    sut.Held
				text string
			}{h, got})
			c.Count("read: "+h.What, 1)
		}
		if r.Intn(2) == 0 || i == steps-1 {
			for j, s := range copies {
				if got, want := sut.Dump(s.b), sut.Dump(fresh(s)); got != want {
					c.Fail("after %q: copy %d (operations %q) differs from a fresh book with the same operations:\n%s\nexpected\n%s", log, j, s.ops, got, want)
				}
				c.Count("copies compared", 1)
			}
		}
		for _, h := range held {
			if got := h.h.Look(); got != h.text {
				c.Fail("after %q: the earlier result of %s changed:\n%s\nwas\n%s", log, h.h.What, got, h.text)
			}
			c.Count("earlier results compared", 1)
		}
	}
	if changes > 0 {
		c.Nontrivial(l.Text(), log)
		c.Sample("%q", log)
	}
}
