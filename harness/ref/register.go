package ref

import (
	"math/big"
	"regexp"
	"sort"
	"strings"
)

// Entry of a register
type Entry struct {
	Date                      int
	Payee, Acct, Counter, CCY string
	Notes, TNotes             []string
	Amt, Bal                  *big.Rat
	Rates                     []Rate // acceptable rates into the base currency
	Posting                   int    // running number of the posting it stands for
	PostAmt                   *big.Rat
}

// Rate into the base currency
type Rate struct {
	Val    *big.Rat
	Source string
}

// Trade is the source of a rate recorded in the transaction
const Trade = "Trade"

// rates of unit in base: what an account that holds just these two in opposite directions
// says, otherwise the price. An account with three or more currencies records no
// unambiguous rate: either is accepted.
func (b *Book) rates(t Tx, unit, base string) []Rate {
	if unit == base {
		return []Rate{{big.NewRat(1, 1), Exact}}
	}
	by := map[string]map[string]*big.Rat{}
	var accts []string
	for _, p := range t.Posts {
		if by[p.Acct] == nil {
			by[p.Acct] = map[string]*big.Rat{}
			accts = append(accts, p.Acct)
		}
		by[p.Acct][p.CCY] = p.Amt
	}
	var out []Rate
	sure := false
	for _, a := range accts {
		u, v := by[a][unit], by[a][base]
		if u == nil || v == nil || u.Sign()*v.Sign() >= 0 {
			continue
		}
		r := new(big.Rat).Quo(v, u)
		out = append(out, Rate{r.Neg(r), Trade})
		if len(by[a]) == 2 {
			sure = true
		}
	}
	if !sure {
		v, src := b.Price(t.Date, unit, base)
		out = append(out, Rate{v, src})
	}
	return out
}

// Register of the matching accounts
func (b *Book) Register(base string, re *regexp.Regexp, split bool) []Entry {
	var out []Entry
	bal := map[string]*big.Rat{}
	n := 0
	for _, t := range b.Txs {
		for _, p := range t.Posts {
			if !re.MatchString(p.Acct) {
				continue
			}
			n++
			total := new(big.Rat)
			var others []Post
			for _, q := range t.Posts {
				if q.Acct != p.Acct && q.CCY == p.CCY && q.Amt.Sign() == -p.Amt.Sign() {
					others = append(others, q)
					total.Add(total, q.Amt)
				}
			}
			add := func(counter string, amt *big.Rat) {
				if bal[p.CCY] == nil {
					bal[p.CCY] = new(big.Rat)
				}
				bal[p.CCY] = new(big.Rat).Add(bal[p.CCY], amt)
				out = append(out, Entry{Date: t.Date, Payee: t.Payee, Acct: p.Acct, Counter: counter, CCY: p.CCY, Notes: p.Notes, TNotes: t.Notes,
					Amt: amt, Bal: bal[p.CCY], Rates: b.rates(t, p.CCY, base), Posting: n, PostAmt: p.Amt})
			}
			if split {
				for _, q := range others {
					a := new(big.Rat).Mul(q.Amt, p.Amt)
					add(q.Acct, a.Quo(a, total))
				}
				continue
			}
			var names []string
			for _, q := range others {
				names = append(names, q.Acct)
			}
			add(strings.Join(names, ";"), p.Amt)
		}
	}
	return out
}

// AccountList gives the matching accounts, sorted; only those with a balance unless all
func (b *Book) AccountList(re *regexp.Regexp, all bool) []string {
	sums := map[[2]string]*big.Rat{}
	accts := map[string]bool{}
	for _, t := range b.Txs {
		for _, p := range t.Posts {
			if !re.MatchString(p.Acct) {
				continue
			}
			k := [2]string{p.Acct, p.CCY}
			if sums[k] == nil {
				sums[k] = new(big.Rat)
			}
			sums[k].Add(sums[k], p.Amt)
			if all {
				accts[p.Acct] = true
			}
		}
	}
	for k, v := range sums {
		if v.Sign() != 0 {
			accts[k[0]] = true
		}
	}
	var out []string
	for a := range accts {
		out = append(out, a)
	}
	sort.Strings(out)
	return out
}
