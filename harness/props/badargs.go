package props

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"verif/harness/frame"
	"verif/harness/gen"
	"verif/harness/sut"
)

func init() {
	frame.Register(&frame.Check{
		ID: "C32", Quick: 12000, Thorough: 300000,
		Rule:      "one evaluation: the goledger binary run on a generated (sometimes empty, missing or broken) ledger with a random command, random options with random values, valid, damaged and invalid operations, macros and scripts; it must exit with 0, or with 1, an error message and no report, without crash and within a minute; when an operation or option is known to be invalid it must fail; non-trivial: every run, distinct by arguments and ledger",
		Run:       badArgsCheck,
		MinCounts: map[string]int{"rejected": 3000, "completed": 2000, "invalid operation rejected": 300, "invalid option rejected": 100, "wrong number of arguments rejected": 80},
	})
}

var invalidOps = []string{
	"", "=", "x", "map", "map=", "map=/", "map=//", "map=/a/", "map=/a/b", "map=a/b/", "map=/a/b/c", "map=/a/b/c/d/", "map=/(/b/", "map=/[/b/", "map=/a(?P<x/b/", "map=/*/b/", "map=/a{2,1}/b/", "map=/\\/b/",
	"map=/a{1001}/b/", "mapccy=/(/b/", "mapccy=/a/", "mapccy=/a/b/c/", "mapccy=", "MAP=/a/b/", "nosuch=/a/b/", "move=/a/b/", "move=/a/b/x/", "move=/a/b/-1/", "move=/a/b/1,5/", "move=/a/b/1.2.3/", "move=/a/b/./",
	"move=/(/b/1/", "move=/a/b//", "move=/a/b/1", "asof=", "asof=yesterday", "asof=2020/13/01", "asof=2020/02/30", "asof=2019-02-29", "asof=x", "since=", "since=2020-00-10", "since=2020/1/32", "since=tomorrow morning",
	"since=next", "since=this week", "combine=", "combine=weekly", "combine=month", "combine=/monthly/", "depreciate=", "depreciate=/a/b/", "depreciate=/a/b/0/", "depreciate=/a/b/1.5/", "depreciate=/a/b/x/", "depreciate=/a/b/-3/",
	"depreciate=/a/b/99999999999999999999/", "depreciate=/a/b/100000000/", "depreciate=/(/b/3/", "depreciate=/a/b/.../", "nosuchmacro", "unknown", "=map", "1map=/a/b/", "map =/a/b/", " ", "ma\np=/a/b/", "since =2020",
	"loop", "ring1", "ring2", "deep", "badinside", "emptyname",
}

var macrosConf = `
[macros]
loop = ["loop"]
ring1 = ["ring2"]
ring2 = ["ring3", "since=2000"]
ring3 = ["ring1"]
deep = ["map=/a/b/", "badinside"]
badinside = ["map=/(/b/"]
fine = ["map=/^(.*)$/$1/", "since=1000"]
fine2 = ["fine", "fine"]
nothing = []
`

func mutate(r *rand.Rand, s string) string {
	b := []rune(s)
	for n := 1 + r.Intn(3); n > 0; n-- {
		i := 0
		if len(b) > 0 {
			i = r.Intn(len(b))
		}
		x := []rune("/=()[]{}*+?\\^$.|,;:-_0123456789abcZ é\t\n\"'%&<>@#~`")
		switch r.Intn(4) {
		case 0:
			if len(b) > 0 {
				b = append(b[:i:i], b[i+1:]...)
			}
		case 1, 2:
			b = append(b[:i:i], append([]rune{x[r.Intn(len(x))]}, b[i:]...)...)
		default:
			if len(b) > 0 {
				b = append([]rune{}, b...)
				b[i] = x[r.Intn(len(x))]
			}
		}
	}
	return string(b)
}

func randomText(r *rand.Rand) string {
	switch r.Intn(8) {
	case 0:
		return ""
	case 1:
		return gen.Pick(r, gen.AllPayees)
	case 2:
		return gen.Pick(r, gen.AllAccts)
	case 3:
		return fmt.Sprint(r.Int63() - r.Int63())
	case 4:
		return gen.Pick(r, []string{"(", "[", "*", "\\", "(?i)asset", "^$", ".*", "a{1000}", "(((((((((a+)+)+)+)+)+)+)+)+)b", "$1", "${", "%s%d%n", "\x1b[31m", "日本", strings.Repeat("x", 5000), strings.Repeat("(", 300), "\xff\xfe"})
	case 5:
		return gen.Pick(r, []string{"2020", "2020-01", "2020/02/29", "2021/02/29", "0", "-1", "99999", "9999/12/31", "0001/01/01", "0000/00/00", "today", "this year", "next month", "last quarter", "next  year", "2020-1-1", "2020.01.01", "10000/01/01", "1e9"})
	case 6:
		return gen.Pick(r, []string{"Text", "HTML", "Json", "JSON", "CSV", "Ledger", "Beancount", "yearly", "today", "skip", "true", "false", "file:nosuch", "file:.", "file:", "en", "de"})
	}
	return mutate(r, gen.Pick(r, gen.AllAccts))
}

type flagSpec struct {
	name    string
	good    []string
	bad     []string // certainly refused
	boolean bool
}

var globalFlags = []flagSpec{
	{name: "--all", boolean: true}, {name: "--colour", boolean: true, bad: []string{"maybe", "2", "x"}},
	{name: "--ccy", good: []string{"USD", "£", "nosuch", "", "a b", "1"}},
	{name: "--divider", good: []string{":", "_", "", "::", "é", " "}},
	{name: "--lang", good: []string{"en", "de", "xx", "", "zz-ZZ", "1", "en_US.UTF-8", "C", "not a language"}},
	{name: "--verbose", boolean: true},
}

var commandFlags = map[string][]flagSpec{
	"report": {
		{name: "--convert", boolean: true}, {name: "--sum", boolean: true, bad: []string{"maybe"}}, {name: "--jsonpretty", boolean: true},
		{name: "--credit", good: []string{"^A", "", ".*"}, bad: []string{"(", "[", "*", "a{1001}"}},
		{name: "--hidden", good: []string{"Asset", "", "(", "A:B", ":"}},
		{name: "--htmlcss", good: []string{"", "body {}", "</style>"}},
		{name: "--splitby", good: []string{"yearly", "quarterly", "monthly", "today", "none", "skip"}, bad: []string{"weekly", "", "year", "year ", "month", "yearlyx", "daily"}},
		{name: "--type", good: []string{"Text", "Ledger", "Json", "HTML", "Beancount"}, bad: []string{"XML", "", "CSV", "Ledg", "HTM", "Bean", "Text ", "Textual", "Json,Text", "0"}},
	},
	"register": {
		{name: "--asc", boolean: true}, {name: "--combined", boolean: true}, {name: "--convert", boolean: true}, {name: "--split", boolean: true}, {name: "--zero", boolean: true},
		{name: "--asof", good: []string{"2020", "2020/05/05", "this year", ""}, bad: []string{"never", "2020/13/01", "2021/02/29"}},
		{name: "--begin", good: []string{"2020", "2020-05", "last month", ""}, bad: []string{"once", "2020/00/01"}},
		{name: "--count", good: []string{"0", "1", "-1", "1000000", "-9223372036854775808", "9223372036854775807", "-9223372036854775807"}, bad: []string{"x", "1.5", "", "9223372036854775808"}},
		{name: "--type", good: []string{"Text", "JSON", "CSV"}, bad: []string{"XML", "", "HTML", "CS", "JSO", "Tex", "JSON ", "CSVs", "Ledger"}},
	},
	"accts": {{name: "--json", boolean: true}},
	"ccy":   {},
	"export": {
		{name: "--jsonpretty", boolean: true},
		{name: "--type", good: []string{"Ledger", "Json", "Beancount", "CSV"}, bad: []string{"XML", "Text", "Ledg", "Beancoun", "CSV2", "C", "Json\n", "HTML"}},
	},
	"import": {
		{name: "--dedup", boolean: true}, {name: "--reclassify", boolean: true},
	},
	"generate": {{name: "--dedup", boolean: true}},
}

func badArgsCheck(c *frame.Case) {
	r := c.R
	if r.Intn(40) == 0 {
		badCountCheck(c)
		return
	}
	l := gen.New(r, gen.Options{Txs: 1 + r.Intn(8), NoHuge: true})
	main := writeLedger(c, l)
	broken := false
	switch r.Intn(14) {
	case 0:
		c.Write("main.ledger", "")
	case 1:
		c.Write("main.ledger", "2020/01/01 x\n  A  $5\n  B  $-4\n")
		broken = true
	case 2:
		main, broken = c.Scratch("nosuch.ledger"), true
	case 3:
		main, broken = c.Dir, true
	case 4:
		c.Write("main.ledger", "P 2020/01/01 00:00:00 USD $2\nP 2020/02/01 00:00:00 USD $0\n")
	}
	conf := c.Write("macros.toml", macrosConf)
	args := []string{}
	cmd := []string{"report", "report", "report", "register", "register", "register", "accts", "ccy", "export", "export", "import", "generate", "nosuch", ""}[r.Intn(14)]
	if cmd != "" {
		args = append(args, cmd)
	}
	mustFail := "" // why
	if cmd == "nosuch" {
		mustFail = "invalid command"
	}
	flags := append([]flagSpec{}, globalFlags...)
	for i := 0; i < 3; i++ {
		flags = append(flags, commandFlags[cmd]...)
	}
	if cmd == "register" && r.Intn(8) > 0 {
		args = append(args, "--type", gen.Pick(r, []string{"Text", "JSON", "CSV", "csv"}))
	}
	if cmd == "report" && r.Intn(8) > 0 {
		args = append(args, "--type", gen.Pick(r, []string{"Text", "Json", "HTML", "Ledger", "Beancount", "html"}))
		if r.Intn(2) == 0 {
			args = append(args, "--ccy", gen.Pick(r, append(l.CCYs(), "USD")), "--sum")
		}
	}
	for i := r.Intn(4); i > 0; i-- {
		f := flags[r.Intn(len(flags))]
		switch {
		case r.Intn(6) == 0 && len(f.bad) > 0:
			args = append(args, f.name+"="+gen.Pick(r, f.bad))
			if mustFail == "" && cmd != "" {
				mustFail = "invalid option"
			}
			if f.name == "--credit" && (contains(args, "--sum=false")) {
				mustFail = ""
			}
		case f.boolean:
			args = append(args, f.name+[]string{"", "=true", "=false"}[r.Intn(3)])
		case r.Intn(4) == 0:
			args = append(args, f.name, noNul(randomText(r)))
		case len(f.good) > 0:
			args = append(args, f.name+"="+gen.Pick(r, f.good))
		}
	}
	if r.Intn(30) == 0 {
		args = append(args, gen.Pick(r, []string{"--nosuch", "-z", "--count", "--type", "-l", "--", "-", "--=", "---", "--help", "-h"}))
	}
	credit := false
	for _, a := range args {
		// an expression or end which is not used need not be refused; a repeated flag counts the last time
		for _, f := range []string{"--credit", "--asof", "--begin", "--type", "--splitby", "--colour"} {
			credit = credit || strings.HasPrefix(a, f)
		}
	}
	if credit && mustFail == "invalid option" && !contains(commandsOf(args), cmd) {
		mustFail = ""
	}
	switch cmd {
	case "report", "export", "register":
		for i := r.Intn(4); i > 0; i-- {
			if cmd == "register" && r.Intn(2) == 0 {
				continue
			}
			switch r.Intn(5) {
			case 0, 1:
				args = append(args, gen.RandomOp(r, l.Book).Text)
			case 2:
				args = append(args, mutate(r, gen.RandomOp(r, l.Book).Text))
			case 3:
				args = append(args, gen.Pick(r, []string{"fine", "fine2", "nothing"}))
			default:
				args = append(args, gen.Pick(r, invalidOps))
				if mustFail == "" && args[len(args)-1] != "" {
					mustFail = "invalid operation"
				}
			}
			if strings.HasPrefix(args[len(args)-1], "-") {
				mustFail = ""
			}
		}
		if cmd == "register" {
			switch r.Intn(6) {
			case 0:
				mustFail = ""
			case 1:
				bad := gen.Pick(r, []string{"(", "[", "*", "a{1001}", "\\"})
				args = append(args, bad)
				if mustFail == "" {
					mustFail = "invalid expression"
				}
			case 2, 3:
				args = append(args, gen.Pick(r, append([]string{".*", "", "A"}, gen.Accounts(l.Book)...)))
			default:
				args = append(args, noNul(randomText(r)))
				if strings.HasPrefix(args[len(args)-1], "-") {
					mustFail = ""
				}
			}
		}
	case "accts":
		for i := r.Intn(3); i > 0; i-- {
			args = append(args, noNul(randomText(r)))
		}
	case "ccy":
		if r.Intn(5) == 0 {
			args = append(args, noNul(randomText(r)))
			if a := args[len(args)-1]; mustFail == "" && a != "" && a[0] != '-' {
				mustFail = "argument of ccy"
			}
		}
	case "import", "generate":
		missing := func(what string) {
			if mustFail == "" {
				mustFail = "no " + what
			}
		}
		code := randomScript(r)
		if r.Intn(10) > 0 {
			args = append(args, "--code", code)
		} else {
			missing("code")
		}
		if cmd == "generate" && r.Intn(10) == 0 {
			args = append(args, "extra")
			if mustFail == "" {
				mustFail = "argument of generate"
			}
		}
		if cmd == "import" {
			c.Write("data", gen.Pick(r, []string{"", "[]", "{\"a\": [1, null]}", "a,b\n1,2\n", "a,b\n1\n", "\"", "[1", "\xff"}))
			args = append(args, "--format", gen.Pick(r, []string{"csv", "json", "csv:header=true", "csv:delim=;", "csv:delim=", "csv:delim=ab", "csv:delim=\n", "csv:delim=\"", "csv:header=maybe", "xml", "", ":", "csv:", "csv:a=b=c,d", "json:,,", "csv:header,header=true",
				"csv:delim=\xff", "csv:delim=\ufffd", "csv:header="}))
			if r.Intn(3) == 0 {
				h := gen.Pick(r, []string{"", "true", "TRUE", "False", "t", "fish", "tree", "maybe", "2", "\u00e9", "truefalse", "true ", " "})
				args[len(args)-1] = "csv:" + gen.Pick(r, []string{"", "delim=;,"}) + "header=" + h
				if mustFail == "" && contains([]string{"fish", "tree", "maybe", "2", "\u00e9", "truefalse"}, h) {
					mustFail = "header that is neither true nor false"
				}
			}
			if r.Intn(10) == 0 {
				args = args[:len(args)-2]
				missing("format")
			}
			if r.Intn(10) > 0 {
				args = append(args, "-a", gen.Pick(r, gen.AllAccts))
			} else {
				missing("account")
			}
			if r.Intn(10) > 0 {
				args = append(args, "-c", gen.Pick(r, gen.AllAccts))
			} else {
				missing("counter-account")
			}
			if r.Intn(10) > 0 {
				args = append(args, gen.Pick(r, []string{"data", "data", "data", "-", "nosuch", "."}))
				if f := args[len(args)-1]; f == "nosuch" || f == "." {
					missing("readable file")
				}
			} else {
				missing("file")
			}
		}
	}
	for i, a := range args {
		args[i] = noNul(a)
		if a == "--" || a == "-h" || a == "--help" || (a == "-l" || a == "--count" || a == "--type") && i < len(args)-1 {
			mustFail = "" // what follows means something else
		}
	}
	c.Artefact("arguments", fmt.Sprintf("%q", args))
	if r.Intn(20) > 0 {
		// before the rest, as what follows "--" is no option
		args = append([]string{"-l", main}, args...)
	}
	res := sut.CLIStdin(c.Bin, c.Dir, []string{"GOLEDGER_CONF=" + conf}, "stdin data", args...)
	c.Artefact("result", res.String())
	if res.Timeout {
		c.Fail("%q hangs: %s", args, res)
	}
	if res.Crashed() || res.Exit != 0 && res.Exit != 1 {
		c.Fail("%q crashes: %s", args, res)
	}
	if strings.Contains(res.Stderr, "runtime error") || strings.Contains(res.Stderr, "nil pointer") {
		c.Fail("%q fails with an internal error: %s", args, res)
	}
	if res.Exit == 1 {
		if strings.TrimSpace(res.Stderr) == "" {
			c.Fail("%q fails without a message: %s", args, res)
		}
		if hasTransactions(res.Stdout) {
			c.Fail("%q fails after printing: %s", args, res)
		}
		c.Count("rejected", 1)
	} else {
		c.Count("completed", 1)
	}
	if mustFail != "" {
		if res.Exit == 0 {
			c.Fail("%s in %q is accepted: %s", mustFail, args, res)
		}
		c.Count(mustFail+" rejected", 1)
	}
	if broken && cmd != "" && cmd != "nosuch" && res.Exit == 0 && args[0] == "-l" && !contains(args, "--help") && !contains(args, "-h") && !contains(args, "help") && !contains(args, "-l", 1) {
		c.Fail("%q completes with a ledger that can't be loaded: %s", args, res)
	}
	c.Nontrivial(fmt.Sprintf("%q", args[len(args)-min(len(args), 12):]), l.Text())
	c.Sample("%q: exit %d", args, res.Exit)
}

// Too few or too many arguments: refused before anything is done.
func badCountCheck(c *frame.Case) {
	r := c.R
	l := gen.New(r, gen.Options{Txs: 1 + r.Intn(4), NoHuge: true})
	main := writeLedger(c, l)
	conf := c.Write("macros.toml", macrosConf)
	c.Write("data", "a,b\n1,2\n")
	file := func() string {
		return c.Scratch(fmt.Sprintf("state%d.json", r.Intn(4)) + gen.Pick(r, []string{"", ".gz"}))
	}
	var args []string
	bank := gen.Pick(r, []string{"starling", "monzo", "nordigen"})
	switch r.Intn(9) {
	case 0:
		args = []string{"download", bank}
	case 1, 2:
		args = []string{"download", bank, file(), file()}
		for r.Intn(3) == 0 {
			args = append(args, file())
		}
	case 3:
		args = []string{"download", gen.Pick(r, []string{"nosuchbank", "Starling", "monz", file()})}
	case 4:
		args = []string{"register"}
		if r.Intn(2) == 0 {
			args = append(args, "--type", "JSON")
		}
	case 5:
		args = []string{"accts", gen.Pick(r, append(gen.Accounts(l.Book), "A")), gen.Pick(r, gen.AllAccts)}
	case 6:
		args = []string{"ccy", gen.Pick(r, append(l.CCYs(), "USD"))}
	case 7:
		args = []string{"generate", "--code", "add('2020/01/01', 'x', 1, account='A', caccount='B', ccy='x')", gen.Pick(r, gen.AllAccts)}
	default:
		args = []string{"import", "--format", "csv", "--code", "print(data)", "-a", "A", "-c", "B"}
	}
	if r.Intn(4) == 0 && args[0] != "register" {
		// options take nothing away from the number of arguments
		args = append(args, gen.Pick(r, []string{"--verbose", "--colour=false", "--lang=en"}))
	}
	c.Artefact("arguments", fmt.Sprintf("%q", args))
	res := sut.CLIStdin(c.Bin, c.Dir, []string{"GOLEDGER_CONF=" + conf, "HOME=" + c.Dir}, "", append([]string{"-l", main}, args...)...)
	c.Artefact("result", res.String())
	switch {
	case res.Timeout:
		c.Fail("%q hangs: %s", args, res)
	case res.Crashed() || res.Exit != 0 && res.Exit != 1 || strings.Contains(res.Stderr, "runtime error"):
		c.Fail("%q crashes: %s", args, res)
	case res.Exit == 0:
		c.Fail("wrong number of arguments in %q is accepted: %s", args, res)
	case strings.TrimSpace(res.Stderr) == "":
		c.Fail("%q fails without a message: %s", args, res)
	case hasTransactions(res.Stdout) || strings.Contains(res.Stdout, "token") || strings.Contains(res.Stdout, "http"):
		c.Fail("%q fails after doing something: %s", args, res)
	}
	if names := stateFiles(c.Dir); len(names) > 0 {
		c.Fail("%q is refused, but leaves %q", args, names)
	}
	c.Count("rejected", 1)
	c.Count("wrong number of arguments rejected", 1)
	c.Nontrivial(fmt.Sprintf("%q", args))
	c.Sample("%q: exit %d", args, res.Exit)
}

func stateFiles(dir string) (names []string) {
	filepath.Walk(dir, func(p string, _ os.FileInfo, err error) error {
		if err == nil && strings.HasPrefix(filepath.Base(p), "state") {
			names = append(names, p)
		}
		return nil
	})
	return names
}

// is every option given once, and so certainly used: then the command, otherwise nothing
func commandsOf(args []string) []string {
	seen := map[string]bool{}
	for _, a := range args {
		if strings.HasPrefix(a, "--") {
			n := strings.SplitN(a, "=", 2)[0]
			if seen[n] || n == "--credit" {
				return nil
			}
			seen[n] = true
		}
	}
	return args[:1]
}

func contains(l []string, s string, from ...int) bool {
	if len(from) > 0 {
		l = l[from[0]:]
	}
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func noNul(s string) string { return strings.ReplaceAll(s, "\x00", "") }

func randomScript(r *rand.Rand) string {
	switch r.Intn(6) {
	case 0:
		return badCall(r)
	case 1:
		return mutate(r, badCall(r))
	case 2:
		return gen.Pick(r, []string{"data", "print(data)", "add('2020/01/01', 'x', 1, ccy='x')", "[x for x in data]", "data.transactions[0][0].amount", "data.transactions[99999]", "data.transactions[-1]", "len(data)", "data.since('x')",
			"data.since(1)", "data.since()", "data.map('(', 'x')", "data.map('a')", "data.map('a', 'b', 'c', 'd')", "data.asof(date='2020')", "data.asof('2020').since('2019').transactions", "data.nosuch", "x = data.since\nx('2020')",
			"print(data.transactions, data.transactions[0], data.transactions[0][0])", "{data: 1}", "{data.transactions: 1}", "[t for t in data.transactions if t]", "sorted(data.transactions)", "data.transactions == data.transactions",
			"data.transactions + 1", "dir(data)", "dir(data.transactions[0][0])", "type(add)", "add = 1", "data = 2\nprint(data)", "add.x", "str(error)", "def f():\n  for i in range(10):\n    f()\nf()", "f = lambda n: f(n+1)\nf(0)",
			"[1]*10000000", "'x'*100000000", "range(10000000000)", "1 << 100000", "10 % 0", "1.0 // 0", "\"%d\" % \"x\"", "int('x')", "float('x')", "hash(data)", "set([1])", "while False:\n  pass", "for i in range(3):\n  print(i)", "if True:\n  print(1)",
			"file", "file:nosuch", "for t in data.transactions:\n  for p in t:\n    add(t.date, t.payee + 'x', p.amount, ccy=p.ccy, account=p.account, caccount='Equity')"})
	case 3:
		return "add(" + starStr(validOnly(randomText(r))) + ", " + starStr(validOnly(randomText(r))) + ", " + starStr(validOnly(randomText(r))) + ", ccy=" + starStr(validOnly(randomText(r))) + ", denom=" + gen.Pick(r, []string{"1", "0", "-1", "1<<62", "1<<64", "1.0", "None"}) + ")"
	case 4:
		return randomText(r)
	}
	return "[add('2020/01/01', 'p', r, account=" + starStr(validOnly(randomText(r))) + ") for r in [1, 2.5, '3']]"
}

func validOnly(s string) string { return strings.ToValidUTF8(s, "?") }
