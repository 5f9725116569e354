// Package props has one check per property.
package props

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"verif/harness/frame"
	"verif/harness/gen"
	"verif/harness/ref"
	"verif/harness/sut"
)

// write the ledger into the scratch directory, returns the main file
func writeLedger(c *frame.Case, l *gen.Ledger) string {
	for name, content := range l.Files {
		c.Write(name, content)
	}
	c.Artefact("ledger", l.Text())
	for f, n := range l.Feat {
		c.Count("ledger: "+f, n)
	}
	return c.Scratch(l.Main)
}

func load(c *frame.Case, main string) *sut.Book {
	b, err := sut.Load(main)
	if err != nil {
		c.Fail("valid ledger is refused: %v", err)
	}
	return b
}

// compare transactions with the reference (which must be normalised); "" if equal.
// Transactions must be in date order; the order within a date is left open, but
// every posting must appear once.
func diffTxs(got []sut.Tx, want *ref.Book) string {
	last := 0
	byKey := map[string]int{}
	for i, t := range got {
		if t.Date < last {
			return fmt.Sprintf("transactions out of order: %d after %d", t.Date, last)
		}
		last = t.Date
		k := fmt.Sprintf("%d %s", t.Date, t.Payee)
		if j, ok := byKey[k]; ok {
			return fmt.Sprintf("transaction %q appears twice (%d, %d)", k, j, i)
		}
		byKey[k] = i
	}
	for _, w := range want.Txs {
		k := fmt.Sprintf("%d %s", w.Date, w.Payee)
		i, ok := byKey[k]
		if !ok {
			return fmt.Sprintf("transaction %q is missing", k)
		}
		if d := diffTx(got[i], w); d != "" {
			return d
		}
		delete(byKey, k)
	}
	for k := range byKey {
		return fmt.Sprintf("unexpected transaction %q", k)
	}
	return ""
}

func diffTx(g sut.Tx, w ref.Tx) string {
	id := fmt.Sprintf("transaction %d %q", w.Date, w.Payee)
	if g.Date != w.Date || g.Payee != w.Payee {
		return fmt.Sprintf("%s: got %d %q", id, g.Date, g.Payee)
	}
	if !ref.Has(w.Notes, g.Note) {
		return fmt.Sprintf("%s: note %q, expected one of %q", id, g.Note, w.Notes)
	}
	if d := diffPosts(id, g.Posts, w.Posts); d != "" {
		return d
	}
	return ""
}

func diffPosts(id string, g []sut.Post, w []ref.Post) string {
	m := map[[2]string]sut.Post{}
	for _, p := range g {
		k := [2]string{p.Acct, p.CCY}
		if _, ok := m[k]; ok {
			return fmt.Sprintf("%s: two postings to %q", id, k)
		}
		m[k] = p
	}
	for _, p := range w {
		k := [2]string{p.Acct, p.CCY}
		q, ok := m[k]
		if !ok {
			return fmt.Sprintf("%s: no posting to %q, expected %s", id, k, p.Amt.RatString())
		}
		if q.Amt.Cmp(p.Amt) != 0 {
			return fmt.Sprintf("%s: posting to %q of %s, expected %s", id, k, q.Amt.RatString(), p.Amt.RatString())
		}
		if !ref.Has(p.Notes, q.Note) {
			return fmt.Sprintf("%s: posting to %q has note %q, expected one of %q", id, k, q.Note, p.Notes)
		}
		delete(m, k)
	}
	for k, p := range m {
		return fmt.Sprintf("%s: unexpected posting to %q of %s", id, k, p.Amt.RatString())
	}
	return ""
}

// running balances are the cumulative sums; returns the number checked
func diffBalances(txs []sut.Tx) (string, int) {
	sums := map[[2]string]*big.Rat{}
	n := 0
	for _, t := range txs {
		for _, p := range t.Posts {
			k := [2]string{p.Acct, p.CCY}
			if sums[k] == nil {
				sums[k] = new(big.Rat)
			}
			sums[k].Add(sums[k], p.Amt)
			n++
			if sums[k].Cmp(p.Bal) != 0 {
				return fmt.Sprintf("transaction %d %q: balance of %q is %s, the sum of its postings so far is %s",
					t.Date, t.Payee, k, p.Bal.RatString(), sums[k].RatString()), n
			}
		}
	}
	return "", n
}

// every transaction balances
func diffBalanced(txs []sut.Tx) string {
	total := map[string]*big.Rat{}
	for _, t := range txs {
		sum := map[string]*big.Rat{}
		for _, p := range t.Posts {
			for _, m := range []map[string]*big.Rat{sum, total} {
				if m[p.CCY] == nil {
					m[p.CCY] = new(big.Rat)
				}
				m[p.CCY].Add(m[p.CCY], p.Amt)
			}
		}
		for ccy, v := range sum {
			if v.Sign() != 0 {
				return fmt.Sprintf("transaction %d %q doesn't balance: %s %s", t.Date, t.Payee, ccy, v.RatString())
			}
		}
	}
	for ccy, v := range total {
		if v.Sign() != 0 {
			return fmt.Sprintf("the book doesn't balance: %s %s", ccy, v.RatString())
		}
	}
	return ""
}

// prices as multisets per pair, each in date order
func diffPrices(got []ref.Price, want []ref.Price) string {
	type pk struct{ u, c string }
	last := map[pk]int{}
	for _, p := range got {
		k := pk{p.Unit, p.CCY}
		if p.Date < last[k] {
			return fmt.Sprintf("prices of %v are not in date order", k)
		}
		last[k] = p.Date
	}
	a, b := priceStrings(got), priceStrings(want)
	if d := diffLines(a, b); d != "" {
		return "prices: " + d
	}
	return ""
}

func priceStrings(l []ref.Price) []string {
	var out []string
	for _, p := range l {
		out = append(out, fmt.Sprintf("%d %q %q %s", p.Date, p.Unit, p.CCY, p.Val.RatString()))
	}
	sort.Strings(out)
	return out
}

// first difference between two lists
func diffLines(got, want []string) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "(nothing)", "(nothing)"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i]
		}
		if g != w {
			return fmt.Sprintf("entry %d: got %s, expected %s", i, g, w)
		}
	}
	return ""
}

func ratMapString(m map[string]*big.Rat) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&sb, "%s=%s ", k, m[k].RatString())
	}
	return sb.String()
}

func bookSize(b *ref.Book) (txs, posts int) {
	for _, t := range b.Txs {
		posts += len(t.Posts)
	}
	return len(b.Txs), posts
}

// does the book change
func differs(a, b *ref.Book) bool { return a.String() != b.String() }

func intsString(m map[string]int) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&sb, "%s=%d ", k, m[k])
	}
	return sb.String()
}
