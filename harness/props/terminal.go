package props

import (
	"os"
	"strings"

	"verif/harness/frame"
	"verif/harness/gen"
	"verif/harness/sut"
)

func padded(s string, w int) []rune {
	v := visible(s)
	return append(v, []rune(strings.Repeat(" ", max(0, w-len(v))))...)
}

// A table on a terminal, perhaps with a pager
func terminalTable(c *frame.Case, l *gen.Ledger, main string, flags []string) {
	r := c.R
	a := regArgs{typ: "Text", combined: true, asc: true, re: gen.Pick(r, []string{"", "^Asset", "Bank", "o"}), split: r.Intn(2) == 0}
	args := append(append(a.args(""), "-l", main), flags...)
	register := r.Intn(4) > 0
	if !register {
		args = append([]string{"accts", "--all", "-l", main}, flags...)
		if r.Intn(3) > 0 {
			for args = nil; args == nil || args[0] == "register"; {
				args = randomCommand(c, l, 0, r.Intn(2) == 0)
			}
			args = append(args, "-l", main)
			c.Count("other commands on a terminal", 1)
		}
	}
	full := sut.CLI(c.Bin, c.Dir, nil, args...)
	if full.Exit != 0 && !register {
		c.Count("failing commands", 1)
		return
	}
	if full.Exit != 0 {
		c.Fail("%q: %v", args, full)
	}
	rows := strings.Split(full.Stdout, "\n")
	total := 1
	if register {
		rows = table(c, args, full.Stdout)
		total = len([]rune(rows[0]))
	} else {
		for _, l := range rows {
			total = max(total, len([]rune(l)))
		}
		total = min(total, 300)
	}
	cols := 1 + r.Intn(total+20)
	if r.Intn(4) == 0 {
		cols = max(1, total+r.Intn(5)-2)
	}
	cols = min(cols, 65535) // that's the widest there is
	height := r.Intn(2*len(rows) + 2)
	pager := ""
	if r.Intn(2) == 0 {
		pager = c.Scratch("pager")
		os.Remove(pager)
	}
	res, err := sut.CLITerminal(c.Bin, c.Dir, pager, cols, height, args...)
	if err != nil {
		c.Count("no terminal", 1)
		return
	}
	if res.Exit != 0 || res.Timeout {
		c.Fail("%q on a terminal of %dx%d: %v", args, cols, height, res)
	}
	out := res.Stdout
	if b, err := os.ReadFile(pager); pager != "" && err == nil && len(b) > 0 {
		if out != "" {
			c.Fail("%q on a terminal of %dx%d: written to the terminal itself: %q, and to the pager: %q", args, cols, height, out, b)
		}
		out = string(b)
		c.Count("tables in the pager", 1)
		if register && len(rows) < height-1 {
			c.Fail("%q on a terminal of %dx%d: a table of %d lines is given to the pager", args, cols, height, len(rows))
		}
	} else if pager != "" && register && len(rows) > height {
		c.Fail("%q on a terminal of %dx%d: a table of %d lines isn't given to the pager", args, cols, height, len(rows))
	}
	c.Count("tables on a terminal", 1)
	if out != "" && !register {
		c.Nontrivial(l.Text(), cols, args)
	}
	if !register || total <= cols {
		if out != full.Stdout {
			c.Fail("%q on a terminal of %dx%d:\n%s\nwithout one:\n%s", args, cols, height, out, full.Stdout)
		}
		return
	}
	c.Count("tables wider than the terminal", 1)
	cut := table(c, args, out)
	if len(cut) != len(rows) {
		c.Fail("%q on a terminal of %dx%d: %d lines, %d without:\n%s", args, cols, height, len(cut), len(rows), out)
	}
	// the columns of text
	cells := [][3]string{{"Payee", "Account", "Counteraccount"}}
	for _, e := range a.sections(l.Book, "", 0, 0)[0].body {
		cells = append(cells, [3]string{e.Payee, e.Acct, e.Counter})
	}
	if len(cells) != len(rows) {
		c.Fail("%q: %d lines, expected %d", args, len(rows), len(cells))
	}
	var w [3]int
	for _, x := range cells {
		for i := range w {
			w[i] = max(w[i], len(visible(x[i])))
		}
	}
	date := len("2020/01/01")
	if len(rows) == 1 {
		date = len("Date")
	}
	numbers := total - date - 3 - w[0] - w[1] - w[2] // with the blank before them
	width := len([]rune(cut[0]))
	rest := width - date - 3 - numbers
	if rest < 0 {
		c.Fail("%q on a terminal of %dx%d: %d characters are not enough for dates and numbers:\n%s", args, cols, height, width, out)
	}
	if width > cols && rest > 0 {
		c.Fail("%q on a terminal of %dx%d: the text could be cut by %d more to fit:\n%s", args, cols, height, rest, out)
	}
	if width < cols {
		c.Fail("%q on a terminal of %dx%d: cut to %d characters, more than needed:\n%s", args, cols, height, width, out)
	}
	fits := func(n [3]int) bool {
		for i, x := range cells {
			want := string([]rune(rows[i])[:date])
			for k := range n {
				want += " " + string(padded(x[k], w[k])[:n[k]])
			}
			f := []rune(rows[i])
			want += string(f[len(f)-numbers:])
			if want != cut[i] {
				return false
			}
		}
		return true
	}
	if total > 1000 {
		return
	}
	for i := 0; i <= w[0]; i++ {
		for j := 0; j <= w[1]; j++ {
			if k := rest - i - j; k >= 0 && k <= w[2] && fits([3]int{i, j, k}) {
				c.Nontrivial(l.Text(), cols, args)
				return
			}
		}
	}
	c.Fail("%q on a terminal of %dx%d: not dates, text cut to a width by column and numbers:\n%s\nwithout terminal:\n%s", args, cols, height, out, full.Stdout)
}
