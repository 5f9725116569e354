package ref

import (
	"math/big"
	"regexp"
	"sort"
	"strings"
)

// Row of a report
type Row struct {
	Acct, CCY string
	Amt       *big.Rat // as shown
	Level     int
	Term      string
	Heading   bool
}

// Period is a column of a report
type Period struct {
	Date  int
	Payee string
	Rows  []Row
	Notes []string // transaction notes it may carry
}

// SplitBy merges the transactions of each period
func (b *Book) SplitBy(by string, today int) *Book {
	nb := &Book{Prices: b.Prices}
	for _, t := range b.Txs {
		d := today
		if by != "today" {
			d = Floor(t.Date, by)
		}
		nb.Txs = append(nb.Txs, Tx{d, "", t.Notes, t.Posts})
	}
	return nb.Normalise()
}

type node struct {
	name     string // full account ("" for the root)
	term     string
	level    int
	heading  bool
	children []*node
	posts    []Row    // own
	val      *big.Rat // converted
}

// Sum is the summary report: a tree of headings for every account with a non-base
// currency or with sub-accounts that diverge below it. A heading's own amounts come
// first, then what is below it by decreasing value.
func (b *Book) Sum(base, div string, credit *regexp.Regexp, hidden string) []Period {
	// accounts and what they hold over the whole book
	ccys := map[string]map[string]bool{}
	for _, t := range b.Txs {
		for _, p := range t.Posts {
			if ccys[p.Acct] == nil {
				ccys[p.Acct] = map[string]bool{}
			}
			ccys[p.Acct][p.CCY] = true
		}
	}
	heads := map[string]bool{}
	var accts []string
	for a, m := range ccys {
		accts = append(accts, a)
		for c := range m {
			if c != base {
				heads[a] = true
			}
		}
	}
	sort.Strings(accts)
	for i, a := range accts {
		pa := strings.Split(a, div)
		for _, o := range accts[i+1:] {
			po := strings.Split(o, div)
			n := 0
			for n < len(pa) && n < len(po) && pa[n] == po[n] {
				n++
			}
			if k := strings.Join(pa[:n], div); k != "" {
				heads[k] = true
			}
		}
	}

	var out []Period
	for _, t := range b.Txs {
		amts := map[[2]string]*big.Rat{}
		for _, p := range t.Posts {
			amts[[2]string{p.Acct, p.CCY}] = p.Amt
		}
		nodes := map[string]*node{"": {level: -1, heading: true, val: new(big.Rat)}}
		get := func(name string) *node {
			if nodes[name] == nil {
				nodes[name] = &node{name: name, val: new(big.Rat), heading: heads[name]}
			}
			return nodes[name]
		}
		for h := range heads {
			get(h)
		}
		for _, a := range accts {
			n := get(a)
			for c := range ccys[a] {
				v := amts[[2]string{a, c}]
				if v == nil {
					v = new(big.Rat)
				}
				n.posts = append(n.posts, Row{Acct: a, CCY: c, Amt: v})
			}
			sort.Slice(n.posts, func(i, j int) bool { return n.posts[i].CCY < n.posts[j].CCY })
		}
		// values: everything below, converted
		for _, a := range accts {
			total := new(big.Rat)
			for _, r := range nodes[a].posts {
				p, _ := b.Price(t.Date, r.CCY, base)
				total.Add(total, new(big.Rat).Mul(r.Amt, p))
			}
			parts := strings.Split(a, div)
			for i := 1; i <= len(parts); i++ {
				if n := nodes[strings.Join(parts[:i], div)]; n != nil && n.name != "" {
					n.val.Add(n.val, total)
				}
			}
		}
		// tree: under the nearest heading above
		var names []string
		for n := range nodes {
			if n != "" {
				names = append(names, n)
			}
		}
		sort.Slice(names, func(i, j int) bool {
			if len(names[i]) != len(names[j]) {
				return len(names[i]) < len(names[j])
			}
			return names[i] < names[j]
		})
		for _, name := range names {
			parts := strings.Split(name, div)
			parent, k := nodes[""], 0
			for i := len(parts) - 1; i > 0; i-- {
				up := strings.Join(parts[:i], div)
				if heads[up] && up != "" {
					parent, k = nodes[up], i
					break
				}
			}
			n := nodes[name]
			n.term = strings.Join(parts[k:], div)
			n.level = parent.level + 1
			parent.children = append(parent.children, n)
		}
		var rows []Row
		add := func(r Row) {
			if hidden != "" && r.Acct == hidden {
				return
			}
			if credit != nil && credit.MatchString(r.Acct) {
				r.Amt = new(big.Rat).Neg(r.Amt)
			}
			rows = append(rows, r)
		}
		var walk func(n *node)
		walk = func(n *node) {
			if n.heading && n.name != "" {
				add(Row{n.name, base, n.val, n.level, n.term, true})
			}
			for _, r := range n.posts {
				r.Level, r.Term = n.level, n.term
				if n.heading {
					r.Level, r.Term = n.level+1, ""
				}
				add(r)
			}
			sort.SliceStable(n.children, func(i, j int) bool {
				if c := n.children[i].val.Cmp(n.children[j].val); c != 0 {
					return c > 0
				}
				return n.children[i].name < n.children[j].name
			})
			for _, ch := range n.children {
				walk(ch)
			}
		}
		walk(nodes[""])
		if len(rows) > 0 {
			out = append(out, Period{t.Date, t.Payee, rows, t.Notes})
		}
	}
	return out
}

// Plain is the report without summary
func (b *Book) Plain() []Period {
	var out []Period
	for _, t := range b.Txs {
		p := Period{Date: t.Date, Payee: t.Payee, Notes: t.Notes}
		for _, x := range t.Posts {
			p.Rows = append(p.Rows, Row{Acct: x.Acct, CCY: x.CCY, Amt: x.Amt, Term: x.Acct})
		}
		out = append(out, p)
	}
	return out
}
