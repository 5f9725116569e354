package gen

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"verif/harness/ref"
)

// Op is an operation: its text and its meaning
type Op struct {
	Kind  string
	Text  string
	Apply func(*ref.Book) *ref.Book
}

// Regex gives a regular expression matching some of the accounts (no /)
func Regex(r *rand.Rand, accts []string) string {
	a := "Asset:Bank"
	if len(accts) > 0 {
		a = Pick(r, accts)
	}
	parts := strings.Split(a, ":")
	switch r.Intn(13) {
	case 12: // these match empty text
		return Pick(r, []string{"^", "$", "x*", "e*", "(:?)$", "^(x?)"})
	case 0:
		return "^" + a + "$"
	case 1:
		return "^" + parts[0] + ":.*$"
	case 2:
		if last := parts[len(parts)-1]; last != "" {
			return last
		}
		return a + "$"
	case 3:
		return "^" + parts[0]
	case 4:
		return "^([^:]+):([^:]+).*$"
	case 5:
		return "^(" + parts[0] + "):?(.*)$"
	case 6:
		return ".*"
	case 7:
		return "[aeiou]"
	case 8:
		return "^(Expense|Income)(:.*)?$"
	case 9:
		return "nomatch"
	case 10:
		return ":[^:]*$"
	default:
		return "(?i)" + strings.ToUpper(parts[0])
	}
}

// Repl gives a replacement using groups where there are any
func Repl(r *rand.Rand, re string, accts []string) string {
	if strings.HasPrefix(re, "^([^:]+):([^:]+)") || strings.HasPrefix(re, "^(") && strings.Count(re, "(") >= 2 {
		return []string{"${1}", "$1:Other", "New:$1", "Merged", "${1}_x"}[r.Intn(5)]
	}
	switch r.Intn(5) {
	case 0:
		return "Merged"
	case 1:
		return "New:Sub:Acct"
	case 2:
		if len(accts) > 0 {
			return Pick(r, accts)
		}
	case 3:
		return "Q"
	}
	return "Equity:Opening"
}

// RandomOp generates an operation that makes sense for the book. Kinds limits them.
func RandomOp(r *rand.Rand, b *ref.Book, kinds ...string) Op {
	if len(kinds) == 0 {
		kinds = []string{"map", "mapccy", "move", "combine", "depreciate", "asof", "since"}
	}
	accts, ccys := Accounts(b), CCYs(b)
	switch k := Pick(r, kinds); k {
	case "map":
		re := Regex(r, accts)
		rp := Repl(r, re, accts)
		alt := ""
		if r.Intn(3) == 0 {
			alt = []string{"Alt:Acct", "Merged", "Equity"}[r.Intn(3)]
		}
		t := "map=/" + re + "/" + rp + "/"
		if alt != "" {
			t += alt + "/"
		}
		return Op{k, t, func(b *ref.Book) *ref.Book { return b.Map(re, rp, alt) }}
	case "mapccy":
		c := "USD"
		if len(ccys) > 0 {
			c = Pick(r, ccys)
		}
		re := "^" + quoteMeta(c) + "$"
		rp := "XYZ"
		switch r.Intn(6) {
		case 0:
			if len(ccys) > 0 {
				rp = dollar(Pick(r, ccys))
			}
		case 1:
			re = "^.*$"
		case 2:
			re, rp = "^([A-Z])[A-Z]+$", "${1}X"
		case 3:
			re, rp = "[A-Z]+", "Q Q"
		case 4:
			re, rp = "S", "T5"
		}
		return Op{k, "mapccy=/" + re + "/" + rp + "/", func(b *ref.Book) *ref.Book { return b.MapCCY(re, rp) }}
	case "move":
		re := Regex(r, accts)
		rp := Repl(r, re, accts)
		f := []string{"0.2", "1", "0.5", "0.1", "0.333", "0.07", "2", "0.99", "0", "0.0001", "1.5", ".25", "100", "0.123456789",
			"0.12345678901234567", "0.1234567890123456789012345", "33333333333333333333.3333333333333333333", "007.50", "3."}[r.Intn(19)]
		v, _ := new(big.Rat).SetString(f)
		return Op{k, "move=/" + re + "/" + rp + "/" + f + "/", func(b *ref.Book) *ref.Book { return b.Move(re, rp, v) }}
	case "combine":
		by := []string{"yearly", "quarterly", "monthly", "none"}[r.Intn(4)]
		t := by
		if r.Intn(4) == 0 {
			t = strings.ToUpper(by[:1]) + by[1:]
		} else if r.Intn(6) == 0 {
			i := r.Intn(len(by))
			t = by[:i] + strings.ToUpper(by[i:])
		}
		return Op{k, "combine=" + t, func(b *ref.Book) *ref.Book { return b.Combine(by) }}
	case "depreciate":
		re := Regex(r, accts)
		rp := Repl(r, re, accts)
		n := []int{1, 2, 3, 4, 5, 12, 10, 7, 24, 13}[r.Intn(10)]
		if r.Intn(40) == 0 {
			n = 60
		}
		if r.Intn(25) == 0 && len(b.Txs) < 10 {
			n = []int{36, 100, 121, 240, 366, 500}[r.Intn(6)]
		}
		if r.Intn(100) == 0 && len(b.Txs) < 4 {
			n = []int{599, 600, 601, 1000, 1201, 2500}[r.Intn(6)]
		}
		// keep dates within the calendar
		for _, t := range b.Txs {
			if t.Date > 99900000 || n > 60 && t.Date > 99500000 || n > 500 && t.Date > 97000000 {
				n = 1
			}
		}
		zeros := ""
		if r.Intn(12) == 0 { // decimal all the same
			zeros = "00"[:1+r.Intn(2)]
		}
		return Op{k, fmt.Sprintf("depreciate=/%s/%s/%s%d/", re, rp, zeros, n), func(b *ref.Book) *ref.Book { return b.Depreciate(re, rp, n) }}
	case "asof", "since":
		d := RandomDate(r, b)
		switch r.Intn(8) {
		case 0:
			d -= d%100 - 1
		case 1:
			d -= d%10000 - 101
		}
		s := ref.DateString(d)
		switch r.Intn(4) {
		case 0:
			s = strings.ReplaceAll(s, "/", "-")
		case 1:
			if d%100 == 1 {
				s = fmt.Sprintf("%04d-%02d", d/10000, d/100%100)
			}
		case 2:
			if d%10000 == 101 {
				s = fmt.Sprintf("%04d", d/10000)
			} else if d%100 == 1 {
				s = fmt.Sprintf("%04d-%02d", d/10000, d/100%100)
			}
		}
		if k == "asof" {
			return Op{k, "asof=" + s, func(b *ref.Book) *ref.Book { return b.Asof(d) }}
		}
		return Op{k, "since=" + s, func(b *ref.Book) *ref.Book { return b.Since(d) }}
	}
	panic("gen: unknown kind")
}

// RandomDate near those of the book
func RandomDate(r *rand.Rand, b *ref.Book) int {
	d := 20200101
	if len(b.Txs) > 0 {
		d = b.Txs[r.Intn(len(b.Txs))].Date
	}
	switch r.Intn(5) {
	case 0:
		d = ref.FromTime(ref.Time(d).AddDate(0, 0, 1))
	case 1:
		d = ref.FromTime(ref.Time(d).AddDate(0, 0, -1))
	case 2:
		d = d/100*100 + 1
	case 3:
		d = d/10000*10000 + 101
	}
	if d < 10101 {
		d = 10101
	}
	if d > 99991231 {
		d = 99991231
	}
	return d
}

// RandomOps generates a sequence of operations and the result
func RandomOps(r *rand.Rand, b *ref.Book, n int, kinds ...string) ([]Op, *ref.Book) {
	var ops []Op
	depr := 0
	for i := 0; i < n; i++ {
		op := RandomOp(r, b, kinds...)
		if op.Kind == "depreciate" {
			depr++
			if depr > 2 {
				continue
			}
		}
		b = op.Apply(b)
		ops = append(ops, op)
	}
	return ops, b
}

// Texts of operations
func Texts(ops []Op) []string {
	var out []string
	for _, o := range ops {
		out = append(out, o.Text)
	}
	return out
}

func quoteMeta(s string) string {
	var sb strings.Builder
	for _, c := range s {
		if strings.ContainsRune(`\.+*?()|[]{}^$`, c) {
			sb.WriteByte('\\')
		}
		sb.WriteRune(c)
	}
	return sb.String()
}

func dollar(s string) string { return strings.ReplaceAll(s, "$", "$$") }
