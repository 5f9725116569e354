// Package ref is an independent reference model of a book: transactions with exact
// rational amounts, operations defined directly from the property statements, and a
// calendar built on the time package. It shares no code with goledger.
package ref

import (
	"fmt"
	"math/big"
	"regexp"
	"sort"
	"strings"
	"time"
)

// Post is a posting; Notes are the notes it may carry (several if postings were merged).
type Post struct {
	Acct, CCY string
	Amt       *big.Rat
	Notes     []string
}

// Tx is a transaction; Notes are the transaction notes it may carry.
type Tx struct {
	Date  int
	Payee string
	Notes []string
	Posts []Post
}

// Price of Unit in CCY
type Price struct {
	Date      int
	Unit, CCY string
	Val       *big.Rat
}

// Book is the reference book
type Book struct {
	Txs    []Tx
	Prices []Price
}

func union(a, b []string) []string {
	out := append([]string(nil), a...)
	for _, x := range b {
		found := false
		for _, y := range out {
			found = found || x == y
		}
		if !found {
			out = append(out, x)
		}
	}
	return out
}

// Has tells if the note is one of notes
func Has(notes []string, note string) bool {
	for _, n := range notes {
		if n == note {
			return true
		}
	}
	return false
}

type key struct {
	date  int
	payee string
}

// Normalise merges transactions with equal date and payee and postings of equal account
// and currency, drops zeros and empty transactions, and sorts.
func (b *Book) Normalise() *Book {
	idx := map[key]int{}
	var txs []Tx
	for _, t := range b.Txs {
		k := key{t.Date, t.Payee}
		i, ok := idx[k]
		if !ok {
			i = len(txs)
			idx[k] = i
			txs = append(txs, Tx{Date: t.Date, Payee: t.Payee})
		}
		if len(t.Posts) > 0 {
			txs[i].Notes = union(txs[i].Notes, t.Notes)
		}
		txs[i].Posts = append(txs[i].Posts, t.Posts...)
	}
	var out []Tx
	for _, t := range txs {
		pi := map[[2]string]int{}
		var ps []Post
		for _, p := range t.Posts {
			k := [2]string{p.Acct, p.CCY}
			i, ok := pi[k]
			if !ok {
				pi[k] = len(ps)
				ps = append(ps, Post{p.Acct, p.CCY, new(big.Rat).Set(p.Amt), append([]string(nil), p.Notes...)})
				continue
			}
			ps[i].Amt.Add(ps[i].Amt, p.Amt)
			ps[i].Notes = union(ps[i].Notes, p.Notes)
		}
		var kept []Post
		for _, p := range ps {
			if p.Amt.Sign() != 0 {
				kept = append(kept, p)
			}
		}
		if len(kept) == 0 {
			continue
		}
		sort.Slice(kept, func(i, j int) bool {
			if kept[i].Acct != kept[j].Acct {
				return kept[i].Acct < kept[j].Acct
			}
			return kept[i].CCY < kept[j].CCY
		})
		t.Posts = kept
		out = append(out, t)
	}
	sort.SliceStable(out, func(i, j int) bool {
		if out[i].Date != out[j].Date {
			return out[i].Date < out[j].Date
		}
		return out[i].Payee < out[j].Payee
	})
	return &Book{Txs: out, Prices: append([]Price(nil), b.Prices...)}
}

func (b *Book) eachPost(f func(t *Tx, p Post) []Post) *Book {
	nb := &Book{Prices: b.Prices}
	for _, t := range b.Txs {
		nt := Tx{t.Date, t.Payee, t.Notes, nil}
		for _, p := range t.Posts {
			nt.Posts = append(nt.Posts, f(&t, p)...)
		}
		nb.Txs = append(nb.Txs, nt)
	}
	return nb.Normalise()
}

// Map accounts
func (b *Book) Map(search, replace, alt string) *Book {
	re := regexp.MustCompile(search)
	return b.eachPost(func(t *Tx, p Post) []Post {
		acct := p.Acct
		if re.MatchString(acct) {
			acct = re.ReplaceAllString(acct, replace)
		} else if alt != "" {
			acct = alt
		}
		return []Post{{acct, p.CCY, p.Amt, p.Notes}}
	})
}

// MapCCY maps currencies
func (b *Book) MapCCY(search, replace string) *Book {
	re := regexp.MustCompile(search)
	m := func(c string) string { return re.ReplaceAllString(c, replace) }
	nb := b.eachPost(func(t *Tx, p Post) []Post {
		return []Post{{p.Acct, m(p.CCY), p.Amt, p.Notes}}
	})
	nb.Prices = nil
	for _, p := range b.Prices {
		nb.Prices = append(nb.Prices, Price{p.Date, m(p.Unit), m(p.CCY), p.Val})
	}
	return nb
}

// Move a share of the matching postings
func (b *Book) Move(search, acct string, factor *big.Rat) *Book {
	re := regexp.MustCompile(search)
	return b.eachPost(func(t *Tx, p Post) []Post {
		if !re.MatchString(p.Acct) {
			return []Post{p}
		}
		part := new(big.Rat).Mul(p.Amt, factor)
		rest := new(big.Rat).Sub(p.Amt, part)
		return []Post{{p.Acct, p.CCY, rest, p.Notes}, {re.ReplaceAllString(p.Acct, acct), p.CCY, part, p.Notes}}
	})
}

// Depreciate spreads matching postings over months
func (b *Book) Depreciate(search, asset string, months int) *Book {
	re := regexp.MustCompile(search)
	nb := &Book{Prices: b.Prices}
	for _, t := range b.Txs {
		nt := Tx{t.Date, t.Payee, t.Notes, nil}
		var later []Tx
		for _, p := range t.Posts {
			if !re.MatchString(p.Acct) {
				nt.Posts = append(nt.Posts, p)
				continue
			}
			na := re.ReplaceAllString(p.Acct, asset)
			part := new(big.Rat).Mul(p.Amt, big.NewRat(1, int64(months)))
			remaining := new(big.Rat).Sub(p.Amt, part)
			nt.Posts = append(nt.Posts, Post{p.Acct, p.CCY, part, p.Notes}, Post{na, p.CCY, remaining, p.Notes})
			y, m := t.Date/10000, t.Date/100%100
			for k := 1; k < months; k++ {
				m++
				if m > 12 {
					y, m = y+1, 1
				}
				neg := new(big.Rat).Neg(part)
				later = append(later, Tx{y*10000 + m*100 + 1, t.Payee, t.Notes,
					[]Post{{p.Acct, p.CCY, part, p.Notes}, {na, p.CCY, neg, p.Notes}}})
			}
		}
		nb.Txs = append(nb.Txs, nt)
		nb.Txs = append(nb.Txs, later...)
	}
	return nb.Normalise()
}

// Floor a date to its period
func Floor(date int, by string) int {
	t := Time(date)
	switch by {
	case "yearly":
		t = time.Date(t.Year(), 1, 1, 0, 0, 0, 0, time.UTC)
	case "quarterly":
		t = time.Date(t.Year(), (t.Month()-1)/3*3+1, 1, 0, 0, 0, 0, time.UTC)
	case "monthly":
		t = time.Date(t.Year(), t.Month(), 1, 0, 0, 0, 0, time.UTC)
	case "none", "":
	default:
		panic("ref: unknown period " + by)
	}
	return FromTime(t)
}

// Combine by period
func (b *Book) Combine(by string) *Book {
	nb := &Book{Prices: b.Prices}
	for _, t := range b.Txs {
		nb.Txs = append(nb.Txs, Tx{Floor(t.Date, by), "", t.Notes, t.Posts})
	}
	return nb.Normalise()
}

// Asof keeps transactions before the date
func (b *Book) Asof(d int) *Book { return b.filter(func(x int) bool { return x < d }) }

// Since keeps transactions on or after the date
func (b *Book) Since(d int) *Book { return b.filter(func(x int) bool { return x >= d }) }

func (b *Book) filter(f func(int) bool) *Book {
	nb := &Book{Prices: b.Prices}
	for _, t := range b.Txs {
		if f(t.Date) {
			nb.Txs = append(nb.Txs, t)
		}
	}
	return nb
}

// Convert to base
func (b *Book) Convert(base string) *Book {
	return b.eachPost(func(t *Tx, p Post) []Post {
		r, _ := b.Price(t.Date, p.CCY, base)
		return []Post{{p.Acct, base, new(big.Rat).Mul(p.Amt, r), p.Notes}}
	})
}

// Price types
const (
	OutOfRange = "OutOfRange"
	Inferred   = "Inferred"
	Exact      = "Exact"
	None       = "None"
)

// List returns the prices of a pair by date
func (b *Book) List(unit, ccy string) []Price {
	var l []Price
	for _, p := range b.Prices {
		if p.Unit == unit && p.CCY == ccy {
			l = append(l, p)
		}
	}
	sort.SliceStable(l, func(i, j int) bool { return l[i].Date < l[j].Date })
	return l
}

// Pairs returns all pairs, sorted
func (b *Book) Pairs() [][2]string {
	m := map[[2]string]bool{}
	for _, p := range b.Prices {
		m[[2]string{p.Unit, p.CCY}] = true
	}
	var out [][2]string
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i][0] != out[j][0] {
			return out[i][0] < out[j][0]
		}
		return out[i][1] < out[j][1]
	})
	return out
}

// Lookup a price in a list sorted by date
func Lookup(l []Price, date int) (*big.Rat, string) {
	for i, p := range l {
		if p.Date == date {
			return p.Val, Exact
		}
		if p.Date > date {
			if i == 0 {
				return p.Val, OutOfRange
			}
			q := l[i-1]
			f := big.NewRat(int64(Days(date)-Days(q.Date)), int64(Days(p.Date)-Days(q.Date)))
			v := new(big.Rat).Sub(p.Val, q.Val)
			v.Mul(v, f)
			return v.Add(v, q.Val), Inferred
		}
	}
	return l[len(l)-1].Val, OutOfRange
}

// Price lookup
func (b *Book) Price(date int, unit, ccy string) (*big.Rat, string) {
	one := big.NewRat(1, 1)
	if unit == ccy {
		return one, Exact
	}
	if l := b.List(unit, ccy); len(l) > 0 {
		return Lookup(l, date)
	}
	if l := b.List(ccy, unit); len(l) > 0 {
		v, how := Lookup(l, date)
		if v.Sign() == 0 {
			return one, None
		}
		return new(big.Rat).Inv(v), how
	}
	return one, None
}

// Clone a book deeply
func (b *Book) Clone() *Book {
	nb := &Book{Prices: append([]Price(nil), b.Prices...)}
	for _, t := range b.Txs {
		nt := Tx{t.Date, t.Payee, append([]string(nil), t.Notes...), nil}
		for _, p := range t.Posts {
			nt.Posts = append(nt.Posts, Post{p.Acct, p.CCY, new(big.Rat).Set(p.Amt), append([]string(nil), p.Notes...)})
		}
		nb.Txs = append(nb.Txs, nt)
	}
	return nb
}

// Time of a date
func Time(date int) time.Time {
	return time.Date(date/10000, time.Month(date/100%100), date%100, 0, 0, 0, 0, time.UTC)
}

// FromTime gives the date of a time
func FromTime(t time.Time) int { return t.Year()*10000 + int(t.Month())*100 + t.Day() }

// Days since 0001-01-01
func Days(date int) int {
	// Unix seconds don't overflow as durations do
	return int((Time(date).Unix() - time.Date(1, 1, 1, 0, 0, 0, 0, time.UTC).Unix()) / 86400)
}

// Valid tells if the date is a calendar date
func Valid(y, m, d int) bool {
	if y < 1 || m < 1 || m > 12 || d < 1 {
		return false
	}
	t := time.Date(y, time.Month(m), d, 0, 0, 0, 0, time.UTC)
	return t.Year() == y && int(t.Month()) == m && t.Day() == d
}

// DateString as goledger prints it
func DateString(d int) string { return fmt.Sprintf("%04d/%02d/%02d", d/10000, d/100%100, d%100) }

// NeededDecimals returns the smallest number of decimals representing r exactly, or -1
func NeededDecimals(r *big.Rat) int {
	d := new(big.Int).Set(r.Denom())
	n2, n5 := 0, 0
	two, five, m := big.NewInt(2), big.NewInt(5), new(big.Int)
	q := new(big.Int)
	for {
		if q.QuoRem(d, two, m); m.Sign() != 0 {
			break
		}
		d.Set(q)
		n2++
	}
	for {
		if q.QuoRem(d, five, m); m.Sign() != 0 {
			break
		}
		d.Set(q)
		n5++
	}
	if d.Cmp(big.NewInt(1)) != 0 {
		return -1
	}
	if n2 > n5 {
		return n2
	}
	return n5
}

// Decimals per currency of the (loaded) book
func (b *Book) Decimals() map[string]int {
	m := map[string]int{}
	for _, t := range b.Txs {
		for _, p := range t.Posts {
			n := NeededDecimals(p.Amt)
			if c, ok := m[p.CCY]; !ok || c < n {
				m[p.CCY] = n
			}
		}
	}
	return m
}

func (b *Book) String() string {
	var sb strings.Builder
	for _, t := range b.Txs {
		fmt.Fprintf(&sb, "%d %q notes=%q\n", t.Date, t.Payee, t.Notes)
		for _, p := range t.Posts {
			fmt.Fprintf(&sb, "   %q %q %s notes=%q\n", p.Acct, p.CCY, p.Amt.RatString(), p.Notes)
		}
	}
	for _, p := range b.Prices {
		fmt.Fprintf(&sb, "P %d %q %q %s\n", p.Date, p.Unit, p.CCY, p.Val.RatString())
	}
	return sb.String()
}
