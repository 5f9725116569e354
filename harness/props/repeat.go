package props

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"verif/harness/frame"
	"verif/harness/gen"
	"verif/harness/sut"
)

func init() {
	frame.Register(&frame.Check{
		ID: "C24", Quick: 1500, Thorough: 60000,
		Rule:      "one evaluation: one ledger with many equal items (currencies, prices, same-day transactions, accounts of equal amount) and eight random commands, each run four times in one process and, for every fifth ledger, three times as a process of its own; outputs and success must be equal; non-trivial: at least one command with output of ten lines, distinct by ledger and commands",
		Run:       repeatCheck,
		MinCounts: map[string]int{"commands repeated": 5000, "lines compared": 100000, "process runs": 1000},
	})
	frame.Register(&frame.Check{
		ID: "C36", Quick: 3000, Thorough: 80000,
		Rule:      "one evaluation: a random command with random options, given as flags, in a configuration file at one of the supported places, or in both with different values; the output and exit status must equal that of the same options as flags; or macros and import or generate definitions against their expansion; or a configuration with an error, or none at all; or a first use that fails, is killed, has no space or is made by several processes at once, after which every run must be the same as after an undisturbed one; non-trivial: every run, distinct by configuration and arguments",
		Run:       configCheck,
		MinCounts: map[string]int{"options from the file": 2000, "options overridden": 500, "bad configuration refused": 200, "created configuration": 100, "definitions": 200, "macros": 200, "first use without space": 20},
	})
}

func repeatCheck(c *frame.Case) {
	r := c.R
	o := gen.Options{NoHuge: true}
	if r.Intn(2) == 0 {
		o.CCYs = gen.Sub(r, gen.AllCCYs, 6+r.Intn(12))
	}
	if r.Intn(2) == 0 {
		o.NPrices = 30 + r.Intn(40)
	}
	if r.Intn(3) == 0 {
		o.Txs = 20 + r.Intn(40)
		o.Payees = gen.Sub(r, similarPayees, 6)
	}
	l, main := reportLedger(c, o)
	var cmds [][]string
	for i := 0; i < 8; i++ {
		cmds = append(cmds, randomCommand(c, l, i, false))
	}
	c.Artefact("commands", fmt.Sprintf("%q", cmds))
	lines := 0
	for _, args := range cmds {
		day := today()
		run := func() (string, bool) {
			out, err := sut.ExecPrint(c.Scratch(".stdout"), main, args...)
			return out, err == nil
		}
		first, ok := run()
		for k := 0; k < 3; k++ {
			out, ok2 := run()
			if (out != first || ok != ok2) && day == today() {
				c.Fail("%q varies (success %v, %v): %s", args, ok, ok2, diffLines(strings.Split(out, "\n"), strings.Split(first, "\n")))
			}
		}
		n := strings.Count(first, "\n")
		c.Count("lines compared", 3*n)
		c.Count("commands repeated", 1)
		if !ok {
			c.Count("failing commands repeated", 1)
		}
		lines = max(lines, n)
		if c.Index%5 == 0 {
			r1 := sut.CLI(c.Bin, c.Dir, nil, append(args, "-l", main)...)
			for k := 0; k < 2; k++ {
				r2 := sut.CLI(c.Bin, c.Dir, nil, append(args, "-l", main)...)
				if (r1.Stdout != r2.Stdout || r1.Exit != r2.Exit) && day == today() {
					c.Fail("%q varies between runs: exit %d, %d: %s", args, r1.Exit, r2.Exit, diffLines(strings.Split(r2.Stdout, "\n"), strings.Split(r1.Stdout, "\n")))
				}
			}
			if r1.Crashed() || r1.Timeout {
				c.Fail("%q: %s", args, r1)
			}
			c.Count("process runs", 3)
		}
	}
	if lines >= 10 {
		c.Nontrivial(l.Text(), fmt.Sprint(cmds))
		c.Sample("%d commands on %d transactions, e.g. %q", len(cmds), len(l.Book.Txs), cmds[0])
	}
}

// a random command, with output or failing; the i-th one
func randomCommand(c *frame.Case, l *gen.Ledger, i int, reportsOnly bool) []string {
	r := c.R
	ccys := append(l.CCYs(), "USD", "nosuch")
	var args []string
	k := r.Intn(12)
	if reportsOnly {
		k = 3 + r.Intn(7)
	}
	switch k {
	case 0, 1, 2:
		args = []string{"export", "--type", gen.Pick(r, []string{"Ledger", "Json", "Beancount", "CSV"})}
		ops, _ := finiteOps(c, l.Book)
		args = append(args, ops...)
	case 3, 4, 5:
		a, _ := randomReport(c, l, r.Intn(2) == 0)
		args = append(append([]string{}, a.args[:1]...), "--type", gen.Pick(r, []string{"Text", "Json", "HTML", "Ledger", "Beancount"}))
		args = append(args, a.args[1:]...)
	case 6, 7:
		args = []string{"register", "--ccy", gen.Pick(r, ccys), "--type", gen.Pick(r, []string{"Text", "JSON", "CSV"})}
		for _, f := range []string{"--combined", "--convert", "--split", "--asc", "--all"} {
			if r.Intn(2) == 0 {
				args = append(args, f)
			}
		}
		args = append(args, gen.Regex(r, l.Accounts()))
	case 8:
		args = []string{"accts"}
		for _, f := range []string{"--json", "--all", gen.Regex(r, l.Accounts())} {
			if r.Intn(2) == 0 && !strings.HasPrefix(f, "-x") {
				args = append(args, f)
			}
		}
	case 9:
		args = []string{"ccy"}
	case 10:
		acct := "A"
		if as := l.Accounts(); len(as) > 0 {
			acct = gen.Pick(r, as)
		}
		var sb strings.Builder
		for k := 0; k < 10; k++ {
			fmt.Fprintf(&sb, "%s,%s,%d.00,\"USD\",%s,New\n", "2099/01/01", csvField(gen.Pick(r, append(similarPayees, gen.AllPayees[:6]...))), k+1, csvField(acct))
		}
		args = []string{"import", "-a", acct, "-c", "New", "--ccy", "USD", "--format", "csv", "--code", rowsCode, c.Write(fmt.Sprintf("data%d", i), sb.String())}
	default:
		args = []string{"generate", "--code", "for t in data.transactions:\n  for p in t:\n    add(t.date, t.payee, p.amount, ccy=p.ccy, account=p.account, caccount='Z:Copy', note=t.transaction_note, lnote=p.posting_note)\n", "--dedup=" + fmt.Sprint(r.Intn(2) == 0)}
	}
	if r.Intn(4) == 0 {
		args = append(args, "--lang", gen.Pick(r, langs))
	}
	return args
}

// --- configuration

func tomlStr(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for _, x := range s {
		switch {
		case x == '"' || x == '\\':
			sb.WriteByte('\\')
			sb.WriteRune(x)
		case x < 32 || x == 127:
			fmt.Fprintf(&sb, "\\u%04x", x)
		default:
			sb.WriteRune(x)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

type setting struct {
	section, key, flag string
	kind               string // bool, int, string
	values             []string
}

func (s setting) toml(v string) string {
	if s.kind == "string" {
		v = tomlStr(v)
	}
	return v
}

var boolValues = []string{"true", "false"}

func settings(cmd string, l *gen.Ledger) []setting {
	ccys := append(l.CCYs(), "USD", "nosuch")
	all := []setting{
		{"", "baseccy", "--ccy", "string", ccys}, {"", "divider", "--divider", "string", []string{":", "_", "a"}}, {"", "colour", "--colour", "bool", boolValues},
		{"", "all", "--all", "bool", boolValues}, {"", "lang", "--lang", "string", []string{"en", "de", "fr", "nl", "xx"}}, {"", "verbose", "--verbose", "bool", boolValues},
	}
	switch cmd {
	case "report":
		for i := 0; i < 2; i++ {
			all = append(all, setting{"report", "credit", "--credit", "string", []string{"^A", "^(Income|Equity)", "", "(", ".*"}}, setting{"report", "hidden", "--hidden", "string", append(l.Accounts(), "", "Asset")},
				setting{"report", "convert", "--convert", "bool", boolValues}, setting{"report", "jsonpretty", "--jsonpretty", "bool", boolValues}, setting{"report", "htmlcss", "--htmlcss", "string", []string{"body { color: red }", "", "a"}},
				setting{"report", "sum", "--sum", "bool", boolValues}, setting{"report", "type", "--type", "string", []string{"Text", "Ledger", "Json", "HTML", "Beancount", "text", "JSON", "xml", "Combined text", "Text and more"}},
				setting{"report", "combineby", "--splitby", "string", []string{"yearly", "quarterly", "monthly", "today", "none", "skip", "Yearly", "MONTHLY", "weekly"}})
		}
	case "register":
		for i := 0; i < 2; i++ {
			all = append(all, setting{"register", "begindate", "--begin", "string", []string{"2019", "2016-05", "2018/03/03", "", "x", "2021/02/29"}}, setting{"register", "enddate", "--asof", "string", []string{"2019", "2017/05/01", "", "y"}},
				setting{"register", "count", "--count", "int", []string{"0", "1", "-1", "3", "-3", "-100", "1000"}}, setting{"register", "asc", "--asc", "bool", boolValues},
				setting{"register", "type", "--type", "string", []string{"Text", "JSON", "CSV", "csv", "html", "Comma separated"}}, setting{"register", "combined", "--combined", "bool", boolValues}, setting{"register", "zerostart", "--zero", "bool", boolValues},
				setting{"register", "convert", "--convert", "bool", boolValues}, setting{"register", "split", "--split", "bool", boolValues})
		}
	case "export":
		all = append(all, setting{"export", "type", "--type", "string", []string{"Ledger", "Json", "Beancount", "CSV", "json", "xml"}}, setting{"export", "jsonpretty", "--jsonpretty", "bool", boolValues})
	}
	return all
}

// write a configuration
type conf struct{ sections map[string][]string }

func (t *conf) add(section, line string) {
	if t.sections == nil {
		t.sections = map[string][]string{}
	}
	t.sections[section] = append(t.sections[section], line)
}

func (t *conf) text(r *rand.Rand) string {
	var sb strings.Builder
	if r.Intn(3) == 0 {
		sb.WriteString("# comment\n")
	}
	var names []string
	for n := range t.sections {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		ls := append([]string(nil), t.sections[n]...)
		r.Shuffle(len(ls), func(i, j int) { ls[i], ls[j] = ls[j], ls[i] })
		if n != "" {
			fmt.Fprintf(&sb, "\n[%s]\n", n)
		}
		for _, l := range ls {
			sb.WriteString(l + "\n")
		}
	}
	return sb.String()
}

// where a configuration is read from, in order of precedence
func confPlaces(dir string) [][2]string { // path, environment
	home := filepath.Join(dir, "home")
	return [][2]string{
		{filepath.Join(home, ".config/goledger/goledger.toml"), ""},
		{filepath.Join(home, ".config/goledger/goledger.cfg"), ""},
		{filepath.Join(home, "goledger.toml"), ""}, {filepath.Join(home, "goledger.cfg"), ""},
		{filepath.Join(home, ".goledger.toml"), ""}, {filepath.Join(home, ".goledger.cfg"), ""},
		{filepath.Join(dir, "goledger.toml"), ""}, {filepath.Join(dir, "goledger.cfg"), ""},
	}
}

func configCheck(c *frame.Case) {
	r := c.R
	l := gen.New(r, gen.Options{Txs: 1 + r.Intn(8), NoHuge: true, Years: [2]int{2016, 2019}})
	main := writeLedger(c, l)
	home := c.Scratch("home")
	if err := os.MkdirAll(home, 0755); err != nil {
		frame.Broken("%v", err)
	}
	confFile := c.Scratch("conf dir/my.conf")
	env := []string{"GOLEDGER_CONF=" + confFile, "HOME=" + home}
	put := func(text string) {
		c.Artefact("configuration", text)
		if r.Intn(3) > 0 {
			c.Write("conf dir/my.conf", text)
			if r.Intn(3) == 0 { // not read
				c.Write("home/goledger.toml", "nonsense = [")
				c.Write("goledger.toml", "baseccy = \"WRONG\"\n")
			}
			return
		}
		// the first of the usual places counts
		places := confPlaces(c.Dir)
		i := r.Intn(len(places))
		env = []string{"GOLEDGER_CONF=", "HOME=" + home}
		for j := i; j < len(places); j++ {
			rel, _ := filepath.Rel(c.Dir, places[j][0])
			if j == i {
				c.Write(rel, text)
			} else if r.Intn(6) == 0 {
				c.Write(rel, "nonsense = [")
			}
		}
	}
	plain := func(args ...string) sut.Result { // without configuration
		e := c.Write("empty", "")
		return sut.CLI(c.Bin, c.Dir, []string{"GOLEDGER_CONF=" + e, "HOME=" + home}, args...)
	}
	configured := func(args ...string) sut.Result { return sut.CLI(c.Bin, c.Dir, env, args...) }
	same := func(what string, args, pargs []string, day int) {
		c.Artefact("arguments", fmt.Sprintf("%q", args))
		c.Artefact("as flags", fmt.Sprintf("%q", pargs))
		a, b := configured(args...), plain(pargs...)
		if day != today() {
			return
		}
		if a.Exit != b.Exit || a.Stdout != b.Stdout || a.Crashed() || a.Timeout {
			c.Fail("%s: with the configuration %q gives\n%s\nbut without configuration %q gives\n%s", what, args, a, pargs, b)
		}
		c.Count(what, 1)
		c.Nontrivial(fmt.Sprintf("%q %q", args, pargs), l.Text())
		c.Sample("%s: %q is as %q", what, args, pargs)
	}

	switch k := r.Intn(20); {
	case k < 10: // options
		cmd := gen.Pick(r, []string{"report", "report", "register", "register", "export", "accts", "ccy"})
		var t conf
		args, pargs := []string{cmd}, []string{cmd, "-l", main}
		if r.Intn(2) == 0 {
			t.add("", "ledger = "+tomlStr(main))
		} else {
			args = append(args, "-l", main)
		}
		chosen := map[string]bool{}
		all := settings(cmd, l)
		if cmd == "register" && r.Intn(10) > 0 {
			all = append(all, all[len(all)-5]) // mostly with a type
		}
		for n := 1 + r.Intn(7); n > 0; n-- {
			s := all[r.Intn(len(all))]
			if n == 1 && (cmd == "register" || cmd == "report") {
				for _, x := range all {
					if x.key == "type" {
						s = x
					}
				}
			}
			if chosen[s.section+s.key] {
				continue
			}
			chosen[s.section+s.key] = true
			v := gen.Pick(r, s.values)
			pargs = append(pargs, s.flag+"="+v)
			key := s.key
			if r.Intn(4) == 0 {
				key = strings.ToUpper(key[:1]) + key[1:]
			}
			switch r.Intn(4) {
			case 0: // flag
				args = append(args, s.flag+"="+v)
			case 1: // flag wins
				args = append(args, s.flag+"="+v)
				t.add(s.section, key+" = "+s.toml(gen.Pick(r, s.values)))
				c.Count("options overridden", 1)
			default:
				t.add(s.section, key+" = "+s.toml(v))
				c.Count("options from the file", 1)
			}
		}
		for _, s := range []string{"report", "register", "export"} { // settings of other commands
			if s != cmd && r.Intn(3) == 0 {
				t.add(s, "type = \"Text\"")
			}
		}
		var rest []string
		if cmd == "register" {
			rest = append(rest, gen.Regex(r, l.Accounts()))
		}
		put(t.text(r))
		same("options", append(args, rest...), append(pargs, rest...), today())
	case k < 13: // macros
		var t conf
		var ops []string
		b := l.Book
		for i := 1 + r.Intn(4); i > 0; i-- {
			op := gen.RandomOp(r, b)
			if nb := op.Apply(b); len(nb.Txs) < 300 {
				b = nb
				ops = append(ops, op.Text)
			}
		}
		var qs []string
		for _, o := range ops {
			qs = append(qs, tomlStr(o))
		}
		cut := 0
		if len(qs) > 0 {
			cut = r.Intn(len(qs) + 1)
		}
		t.add("macros", "inner = ["+strings.Join(qs[cut:], ", ")+"]")
		t.add("macros", "outer = ["+strings.Join(append(append([]string{}, qs[:cut]...), "\"inner\""), ",\n")+"]")
		put(t.text(r))
		cmd := []string{gen.Pick(r, []string{"export", "report"}), "-l", main}
		if cmd[0] == "report" {
			cmd = append(cmd, "--type", "Text")
		} else {
			cmd = append(cmd, "--type", "CSV")
		}
		day := today()
		same("macros", append(cmd, "outer"), append(cmd, ops...), day)
	case k < 16: // definitions
		var t conf
		if r.Intn(2) == 0 {
			rows := simpleRows(r, 1+r.Intn(6), gen.Dates(r, [2]int{2016, 2019}, 3), append(similarPayees[:5], "New"), l.Accounts2(), []string{"USD", "£"})
			csv, format := strings.ReplaceAll(rowsCSV(rows), ",", ";"), "csv:delim=;"
			if r.Intn(2) == 0 {
				csv, format = rowsCSV(rows), "csv"
			}
			lines := []string{"configtype = \"csv\"", "params.delim = \";\""}[:1+len(format)/10]
			data := c.Write("data.csv", csv)
			c.Artefact("data", csv)
			dedup, recl := gen.Pick(r, boolValues), gen.Pick(r, boolValues)
			t.add("importdefs.mybank", "description = \"My bank\"")
			t.add("importdefs.mybank", "dedup = "+dedup)
			t.add("importdefs.mybank", "reclassify = "+recl)
			t.add("importdefs.mybank", "ccy = \"EUR\"")
			args, pargs := []string{"import", "mybank", "-l", main}, []string{"import", "-l", main, "--ccy", "EUR"}
			// each of these in the file, as a flag, or not at all
			missing := ""
			for _, x := range []struct {
				flags, lines []string
				wrong        []string
			}{
				{[]string{"--format", format}, lines, nil},
				{[]string{"--code", rowsCode}, []string{"code = " + tomlStr(rowsCode)}, nil},
				{[]string{gen.Pick(r, []string{"-a", "--acct"}), "Asset:Bank"}, []string{"account = \"Asset:Bank\""}, []string{"account = \"Wrong:One\""}},
				{[]string{gen.Pick(r, []string{"-c", "--cacct"}), "Expense:Unknown"}, []string{"counteraccount = \"Expense:Unknown\""}, []string{"counteraccount = \"Wrong:One\""}},
			} {
				switch k := r.Intn(16); {
				case k == 0 && missing == "":
					missing = x.flags[0]
					continue
				case k < 4:
					if x.flags[0] == "--format" && r.Intn(2) == 0 { // the last one counts
						args = append(args, "--format", gen.Pick(r, []string{"json", "csv:delim=|", "csv:delim=|,header=true"}))
						c.Count("formats overridden", 1)
					}
					args = append(args, x.flags...)
				case k < 6 && x.wrong != nil: // flag wins
					args = append(args, x.flags...)
					for _, l := range x.wrong {
						t.add("importdefs.mybank", l)
					}
					c.Count("definitions overridden", 1)
				default:
					for _, l := range x.lines {
						t.add("importdefs.mybank", l)
					}
				}
				pargs = append(pargs, x.flags...)
			}
			if r.Intn(3) == 0 { // another
				t.add("importdefs.other", "description = \"Other\"")
				t.add("importdefs.other", "account = \"Wrong:One\"")
				t.add("importdefs.other", "code = \"fail(1)\"")
			}
			if missing != "" {
				put(t.text(r))
				for _, a := range [][]string{args, append(append([]string{}, pargs...), "--dedup="+dedup)} {
					res := configured(append(a, data)...)
					if res.Exit != 1 || res.Stdout != "" || strings.TrimSpace(res.Stderr) == "" || res.Crashed() || res.Timeout {
						c.Fail("without %s, %q: %s", missing, a, res)
					}
				}
				c.Count("incomplete definitions refused", 1)
				c.Nontrivial(fmt.Sprintf("%q", args), l.Text())
				return
			}
			if r.Intn(3) == 0 { // flag wins
				dedup = gen.Pick(r, boolValues)
				args = append(args, "--dedup="+dedup)
			}
			if r.Intn(3) == 0 {
				recl = gen.Pick(r, boolValues)
				args = append(args, "--reclassify="+recl)
			}
			put(t.text(r))
			same("definitions", append(args, data), append(pargs, "--dedup="+dedup, "--reclassify="+recl, data), today())
		} else {
			code := "for t in data.transactions:\n  for p in t:\n    add(t.date, t.payee" + gen.Pick(r, []string{"", " + ' copy'"}) + ", p.amount, ccy=p.ccy, account=p.account, caccount='Z:Copy')\n"
			dedup := gen.Pick(r, boolValues)
			t.add("generate.copy", "description = \"Copy\"")
			t.add("generate.copy", "code = "+tomlStr(code))
			t.add("generate.copy", "dedup = "+dedup)
			args := []string{"generate", "copy", "-l", main}
			if r.Intn(3) == 0 {
				dedup = gen.Pick(r, boolValues)
				args = append(args, "--dedup="+dedup)
			}
			put(t.text(r))
			same("definitions", args, []string{"generate", "-l", main, "--code", code, "--dedup=" + dedup}, today())
		}
	case k < 18: // errors
		good := "baseccy = \"USD\"\n\n[report]\ntype = \"Text\"\nsum = true\n\n[register]\ncount = 5\ntype = \"CSV\"\n\n[macros]\na = [\"since=2000\"]\n\n[importdefs.x]\nconfigtype = \"csv\"\n[importdefs.x.params]\nheader = \"true\"\n"
		bad := gen.Pick(r, []string{"nosuch = 1\n" + good, good + "nosuch = \"x\"\n[importdefs.x.nosuch]\na = 1\n", strings.Replace(good, "sum =", "summ =", 1), strings.Replace(good, "count = 5", "count = \"5\"", 1),
			strings.Replace(good, "sum = true", "sum = \"yes\"", 1), strings.Replace(good, "[report]", "[reports]", 1), strings.Replace(good, "[report]", "[report", 1), strings.Replace(good, "\"USD\"", "\"USD", 1),
			strings.Replace(good, "\"USD\"", "USD", 1), good + "[report]\nsum = false\n", "baseccy = \"A\"\n" + good, strings.Replace(good, "sum = true", "sum = true\nsum = false", 1), strings.Replace(good, "[\"since=2000\"]", "\"since=2000\"", 1),
			strings.Replace(good, "[\"since=2000\"]", "[1]", 1), good + "[generate.x]\nfoo = 1\n", good + "[download.monzo]\nnosuch = 1\n", good + "=", "output = 1\n", "{", strings.Replace(good, "configtype", "format", 1),
			strings.Replace(good, "count = 5", "count = 5.5", 1), strings.Replace(good, "count = 5", "count = 99999999999999999999", 1)})
		put(bad)
		args := []string{gen.Pick(r, []string{"report", "export", "ccy", "accts"}), "-l", main}
		if r.Intn(3) == 0 {
			args = append(args, "--type", "Text")
		}
		res := configured(args...)
		if res.Exit != 1 || res.Stdout != "" || strings.TrimSpace(res.Stderr) == "" {
			c.Fail("bad configuration\n%s\n%q: %s", bad, args, res)
		}
		// nothing wrong with the correct one
		c.Count("bad configuration refused", 1)
		c.Nontrivial(bad, l.Text())
	default: // first use
		if r.Intn(2) == 0 {
			env = []string{"GOLEDGER_CONF=", "HOME=" + home}
			confFile = filepath.Join(home, ".config/goledger/goledger.toml")
			if r.Intn(2) == 0 {
				env = append(env, "XDG_CONFIG_HOME="+filepath.Join(home, "xdg"))
				confFile = filepath.Join(home, "xdg/goledger/goledger.toml")
			}
		}
		args := []string{gen.Pick(r, []string{"ccy", "accts", "export", "register", "report"}), "-l", main}
		if args[0] == "register" {
			args = append(args, ".*")
		}
		if args[0] == "report" {
			args = append(args, "--ccy", "USD")
		}
		if r.Intn(2) == 0 {
			interruptedFirstUse(c, env, confFile, args)
			return
		}
		day := today()
		first := configured(args...)
		text, err := os.ReadFile(confFile)
		if err != nil || first.Exit != 0 {
			c.Fail("first use (%v): %s", err, first)
		}
		for i := 0; i < 2; i++ {
			next := configured(args...)
			text2, err := os.ReadFile(confFile)
			if err != nil || string(text2) != string(text) {
				c.Fail("the created configuration changed (%v): %q", err, text2)
			}
			if day == today() && (next.Exit != 0 || !strings.HasSuffix(first.Stdout, next.Stdout) || strings.Count(first.Stdout[:len(first.Stdout)-len(next.Stdout)], "\n") != 1) {
				c.Fail("the run after creating the configuration: %s\nfirst\n%s", next, first)
			}
		}
		c.Count("created configuration", 1)
		c.Nontrivial(fmt.Sprint(args), l.Text())
	}
}

// the first use fails, is killed, or happens in several processes at once: no run may see, and none may leave, part of
// a configuration
func interruptedFirstUse(c *frame.Case, env []string, confFile string, args []string) {
	r := c.R
	self, err := os.Executable()
	if err != nil {
		frame.Broken("%v", err)
	}
	// undisturbed
	clean := c.Scratch("clean/goledger.conf")
	res := sut.CLI(c.Bin, c.Dir, []string{"GOLEDGER_CONF=" + clean, "HOME=" + filepath.Dir(clean)}, args...)
	text, err := os.ReadFile(clean)
	next := sut.CLI(c.Bin, c.Dir, []string{"GOLEDGER_CONF=" + clean, "HOME=" + filepath.Dir(clean)}, args...)
	if err != nil || res.Exit != 0 || next.Exit != 0 {
		c.Fail("first use (%v): %s\nnext: %s", err, res, next)
	}
	want := next.Stdout
	day := today()
	right := func(what string, res sut.Result) {
		c.Artefact("disturbance", what)
		if res.Exit != 0 {
			c.Fail("%s: %s", what, res)
		}
		if day == today() && (!strings.HasSuffix(res.Stdout, want) || strings.Count(strings.TrimSuffix(res.Stdout, want), "\n") > 1) {
			c.Fail("%s: %s\nundisturbed:\n%s", what, res, want)
		}
	}
	full := append([]string{"PATH=/usr/bin:/bin", "TZ=" + frame.Zone}, env...)
	trace := c.Scratch("trace")
	start := func(prog string, pargs ...string) *exec.Cmd {
		cmd := exec.Command(prog, append(append(pargs, c.Bin), args...)...)
		cmd.Dir, cmd.Env = c.Dir, full
		var o, e bytes.Buffer
		cmd.Stdout, cmd.Stderr = &o, &e
		if err := cmd.Start(); err != nil {
			frame.Broken("%s: %v", prog, err)
		}
		return cmd
	}
	finish := func(cmd *exec.Cmd) sut.Result {
		t := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
		defer t.Stop()
		cmd.Wait()
		return sut.Result{Stdout: cmd.Stdout.(*bytes.Buffer).String(), Stderr: cmd.Stderr.(*bytes.Buffer).String(), Exit: cmd.ProcessState.ExitCode()}
	}
	call := gen.Pick(r, []string{"write", "write", "write", "renameat,rename,renameat2,link,linkat", "fsync,fdatasync", "close", "openat", "openat", "fchmodat,fchmod,chmod", "mkdirat,mkdir"})
	calls := func() int { // how many there are
		b, err := os.ReadFile(clean)
		if err != nil {
			frame.Broken("%v", err)
		}
		os.Remove(clean)
		cmd := exec.Command("strace", append([]string{"-f", "-qq", "-o", trace, "-e", "trace=" + optional(call), c.Bin}, args...)...)
		cmd.Dir, cmd.Env = c.Dir, []string{"PATH=/usr/bin:/bin", "TZ=" + frame.Zone, "GOLEDGER_CONF=" + clean, "HOME=" + filepath.Dir(clean)}
		if out, err := cmd.CombinedOutput(); err != nil {
			frame.Broken("strace: %v %s", err, out)
		}
		if b2, err := os.ReadFile(clean); err != nil || !bytes.Equal(b, b2) {
			c.Fail("another first use has %q, not %q (%v)", b2, b, err)
		}
		b, _ = os.ReadFile(trace)
		return max(1, bytes.Count(b, []byte("(")))
	}
	kind := r.Intn(4)
	if kind > 0 && !haveStrace(self) {
		c.Count("no strace", 1)
		kind = 0
	}
	what := ""
	switch kind {
	case 0: // no space after some of it
		limit := r.Intn(len(text) + 30)
		what = fmt.Sprintf("limited to %d of %d bytes", limit, len(text))
		res := finish(start(self, "helper", "limit", fmt.Sprint(limit)))
		if res.Exit == 0 {
			right(what, res)
		} else {
			if res.Exit != 1 || strings.TrimSpace(res.Stderr) == "" {
				c.Fail("%s: %s", what, res)
			}
			c.Count("first use without space", 1)
		}
	case 1, 2: // error, or killed
		inj := optional(call) + gen.Pick(r, []string{":error=ENOSPC", ":error=EIO", ":error=EACCES", ":signal=KILL", ":signal=KILL"}) + fmt.Sprintf(":when=%d", 1+r.Intn(calls()))
		what = "first use with " + inj
		res := finish(start("strace", "-f", "-qq", "-o", trace, "-e", "trace="+optional(call), "-e", "inject="+inj))
		b, _ := os.ReadFile(trace)
		c.Artefact("trace", string(b))
		switch {
		case strings.Contains(string(b), "killed by SIGKILL"):
			c.Count("first use killed", 1)
		case strings.Contains(string(b), "INJECTED"):
			c.Count("first use failed", 1)
		default:
			right(what, res)
		}
	default: // several
		delay := fmt.Sprintf(":delay_%s=%d", gen.Pick(r, []string{"enter", "exit"}), 40000+r.Intn(40000))
		inj := optional(call) + delay + fmt.Sprintf(":when=%d+", 1+r.Intn(calls()))
		what = "first uses at once, one with " + inj
		cmds := []*exec.Cmd{start("strace", "-f", "-qq", "-o", trace, "-e", "trace="+optional(call), "-e", "inject="+inj)}
		for i := 0; i < 6; i++ {
			time.Sleep(time.Duration(r.Intn(30000)) * time.Microsecond)
			cmds = append(cmds, start("/usr/bin/env"))
		}
		for _, cmd := range cmds {
			right(what, finish(cmd))
		}
		c.Count("first uses at once", len(cmds))
	}
	for i := 0; i < 2; i++ {
		right("a run after "+what, sut.CLI(c.Bin, c.Dir, env, args...))
		if b, err := os.ReadFile(confFile); err != nil || !bytes.Equal(b, text) {
			c.Fail("after %s (%v), the configuration is %q, not %q", what, err, b, text)
		}
	}
	c.Count("created configuration", 1)
	c.Nontrivial(what, fmt.Sprint(args))
	c.Sample("%s: the next run is as usual", what)
}
