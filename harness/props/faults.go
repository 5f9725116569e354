package props

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif/harness/frame"
	"verif/harness/gen"
	"verif/harness/sut"
)

func init() {
	frame.Register(&frame.Check{
		ID: "C43", Quick: 5000, Thorough: 60000,
		Rule: "one evaluation: a random command on a random ledger is run undisturbed and then three times with a disturbance: its output goes to a file limited to some number of bytes or to a full device, one of its writes, reads or opens fails, or its input comes in random small pieces; " +
			"it must either do exactly as undisturbed or fail with a message, with nothing but the beginning of its output written; non-trivial: a disturbance that took effect, distinct by ledger, command and disturbance",
		Run:       faultCheck,
		MinCounts: map[string]int{"output limited": 1000, "full device": 300, "failed reads": 300, "failed opens": 100, "failed writes": 300, "input in pieces": 300},
	})
}

// run a command with a disturbance; the output to a file
func runSink(c *frame.Case, env []string, stdin *os.File, out string, argv ...string) sut.Result {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, argv[0], argv[1:]...)
	cmd.Dir = c.Dir
	cmd.Env = append([]string{"HOME=" + c.Dir, "PATH=/usr/bin:/bin", "TZ=" + frame.Zone, "GOTRACEBACK=single"}, env...)
	if stdin != nil {
		cmd.Stdin = stdin
	}
	f, err := os.OpenFile(out, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
	if err != nil {
		frame.Broken("%v", err)
	}
	defer f.Close()
	var e bytes.Buffer
	cmd.Stdout, cmd.Stderr = f, &e
	err = cmd.Run()
	r := sut.Result{Stderr: e.String(), Timeout: ctx.Err() != nil}
	if ee, ok := err.(*exec.ExitError); ok {
		r.Exit = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			r.Signal = ws.Signal().String()
		}
	} else if err != nil && !r.Timeout {
		frame.Broken("%q: %v", argv, err)
	}
	if !strings.HasPrefix(out, "/dev/") {
		b, err := os.ReadFile(out)
		if err != nil {
			frame.Broken("%v", err)
		}
		r.Stdout = string(b)
	}
	return r
}

func faultCheck(c *frame.Case) {
	r := c.R
	self, err := os.Executable()
	if err != nil {
		frame.Broken("%v", err)
	}
	o := gen.Options{NoHuge: true}
	if r.Intn(3) == 0 {
		o.Txs = 40 + r.Intn(150)
	}
	l, main := reportLedger(c, o)
	conf := c.Write("conf file", "# configuration\n[macros]\nm = [\"since=2000\"]\n")
	env := []string{"GOLEDGER_CONF=" + conf}
	var args []string
	switch r.Intn(13) {
	case 12:
		args = []string{"shell", "--type", gen.Pick(r, []string{"bash", "zsh", "powershell"})}
	case 0, 1: // everything
		args = []string{"export", "--type", gen.Pick(r, []string{"Ledger", "Json", "Beancount", "CSV"})}
	case 2, 3:
		args = []string{"register", "--type", gen.Pick(r, []string{"Text", "JSON", "CSV"}), "--count=0", ".*"}
		if ccys := l.CCYs(); len(ccys) > 0 {
			args = append(args, "--ccy", gen.Pick(r, ccys))
		}
	case 4:
		args = []string{"accts", "--all"}
		if r.Intn(2) == 0 {
			args = append(args, "--json")
		}
	default:
		args = randomCommand(c, l, 0, false)
	}
	// code of its own
	files := map[string]string{main: "main", conf: "configuration"}
	for i, a := range args {
		if i > 0 && args[i-1] == "--code" && r.Intn(3) == 0 {
			a = gen.Pick(r, []string{a + "\nprint('done')\n", "print('two\\nlines')\n" + a})
			args[i] = a
		}
		if i > 0 && args[i-1] == "--code" && r.Intn(2) == 0 {
			f := c.Write("code.star", a)
			files[f] = "code"
			args[i] = "file:" + f
		}
	}
	data := ""
	if args[0] == "import" {
		for _, a := range args {
			if strings.HasPrefix(a, c.Dir) {
				data = a
				files[data] = "data"
			}
		}
	}
	for f := range l.Files {
		files[c.Scratch(f)] = "ledger"
	}
	if files[main] == "" {
		frame.Broken("no main ledger %s among %v", main, files)
	}
	files[main] = "main"
	args = append(args, "-l", main)
	c.Artefact("arguments", fmt.Sprintf("%q", args))

	day := today()
	out := c.Scratch("stdout of it")
	argv := append([]string{c.Bin}, args...)
	full := runSink(c, env, nil, out, argv...)
	if full.Crashed() || full.Timeout {
		c.Fail("%q: %s", args, full)
	}
	n := len(full.Stdout)
	// as undisturbed, or failed
	check := func(what string, got sut.Result, must bool, prefix bool) {
		c.Artefact("disturbance", what)
		if day != today() {
			return
		}
		if got.Crashed() || got.Timeout || got.Exit != 0 && (got.Exit != 1 || strings.TrimSpace(got.Stderr) == "") {
			c.Fail("%q with %s: %s", args, what, got)
		}
		if must && got.Exit == 0 {
			c.Fail("%q with %s reports success, with %d of %d bytes of output\n%s", args, what, len(got.Stdout), n, got)
		}
		if got.Exit == 0 && (full.Exit != 0 || got.Stdout != full.Stdout) {
			c.Fail("%q with %s reports success, but its output is not the undisturbed one: %s\n%s", args, what, diffLines(strings.Split(got.Stdout, "\n"), strings.Split(full.Stdout, "\n")), got)
		}
		if prefix && !strings.HasPrefix(full.Stdout, got.Stdout) {
			c.Fail("%q with %s writes something else than the beginning of the undisturbed output: %s", args, what, diffLines(strings.Split(got.Stdout, "\n"), strings.Split(full.Stdout, "\n")))
		}
		c.Nontrivial(l.Text(), fmt.Sprintf("%q", args), what)
		c.Sample("%q with %s: exit %d", args, what, got.Exit)
	}
	names := make([]string, 0, len(files))
	for f := range files {
		names = append(names, f)
	}
	sort.Strings(names)
	st := haveStrace(self)
	for i := 0; i < 3; i++ {
		os.Remove(out)
		k := r.Intn(12)
		if !st && k >= 5 && k < 10 {
			c.Count("no strace", 1)
			k = r.Intn(5)
		}
		switch {
		case k < 4: // limited
			limit := r.Intn(n + 1)
			switch r.Intn(6) {
			case 0:
				limit = n
			case 1:
				limit = max(0, n-1-r.Intn(3))
			case 2:
				limit = n + 1 + r.Intn(100)
			}
			got := runSink(c, env, nil, out, append([]string{self, "helper", "limit", fmt.Sprint(limit)}, argv...)...)
			what := fmt.Sprintf("the output limited to %d of %d bytes", limit, n)
			check(what, got, limit < n || full.Exit != 0, true)
			if limit >= n && (got.Exit != full.Exit || got.Stdout != full.Stdout) && day == today() {
				c.Fail("%q with %s: %s", args, what, got)
			}
			c.Count("output limited", 1)
		case k == 4: // full device
			got := runSink(c, env, nil, "/dev/full", argv...)
			if n == 0 {
				got.Stdout = full.Stdout
			} else if got.Exit == 0 {
				c.Fail("%q with the output to a full device reports success: %s", args, got)
			}
			check("the output to a full device", got, n > 0 || full.Exit != 0, false)
			c.Count("full device", 1)
		case k < 7: // a write that fails, later ones do not
			if n == 0 {
				continue
			}
			writes := 1 + r.Intn(3)
			if r.Intn(2) == 0 {
				writes = 1 + r.Intn(strings.Count(full.Stdout, "\n")+1)
			}
			writes = min(writes, 60000) // strace takes no more than 65535
			inj := "write,writev,pwrite64:error=" + gen.Pick(r, []string{"ENOSPC", "EIO", "EDQUOT"}) + fmt.Sprintf(":when=%d", writes)
			got, done := underStrace(c, env, nil, out, out, inj, argv)
			if !done {
				check("no disturbance by "+inj, got, full.Exit != 0, true)
				continue
			}
			check(inj+" for the output", got, false, false)
			c.Count("failed writes", 1)
		case k < 10: // a read or open of an input fails
			f := gen.Pick(r, names)
			size := 0
			if fi, err := os.Stat(f); err == nil {
				size = int(fi.Size())
			}
			inj := "read,pread64:error=" + gen.Pick(r, []string{"EIO", "EIO", "ESTALE", "EACCES", "EISDIR"}) + fmt.Sprintf(":when=%d", 1+r.Intn(2+min(size/4096, 60000)))
			count := "failed reads"
			if r.Intn(4) == 0 {
				inj = "openat,open:error=" + gen.Pick(r, []string{"EIO", "EACCES", "EMFILE", "ENFILE", "ELOOP"}) + ":when=1"
				count = "failed opens"
			} else if files[f] == "configuration" && r.Intn(3) > 0 {
				f = main
			}
			got, done := underStrace(c, env, nil, out, f, inj, argv)
			what := inj + " for the " + files[f]
			if !done {
				check("no disturbance by "+what, got, full.Exit != 0, true)
				continue
			}
			check(what, got, false, true)
			if got.Exit != 0 && full.Exit == 0 && got.Stdout != "" {
				c.Fail("%q with %s fails after it has written %d bytes: %s", args, what, len(got.Stdout), got)
			}
			c.Count(count, 1)
		default: // in pieces
			f := gen.Pick(r, []string{main, main, conf})
			if data != "" && r.Intn(2) == 0 {
				f = data
			}
			if main == f && r.Intn(3) == 0 && data == "" {
				for g, k := range files {
					if k == "code" {
						f = g
					}
				}
			}
			text, err := os.ReadFile(f)
			if err != nil {
				frame.Broken("%v", err)
			}
			var got sut.Result
			p := f + " in pieces"
			if err := syscall.Mkfifo(p, 0600); err != nil {
				frame.Broken("mkfifo %s: %v", p, err)
			}
			env2 := env
			args2 := append([]string{}, argv...)
			for i, a := range args2 {
				if strings.TrimPrefix(a, "file:") == f {
					args2[i] = a + " in pieces"
				}
			}
			if f == conf {
				env2 = []string{"GOLEDGER_CONF=" + p}
			}
			var cuts []int
			for at, most := 0, 1+r.Intn(gen.Pick(r, []int{3, 50, 5000})); at < len(text); {
				k := min(len(text)-at, 1+r.Intn(most))
				if len(cuts) > 300 {
					k = len(text) - at
				}
				at += k
				cuts = append(cuts, at)
			}
			done := make(chan bool)
			go func() {
				defer close(done)
				w, err := os.OpenFile(p, os.O_WRONLY, 0)
				if err != nil {
					return
				}
				defer w.Close()
				at := 0
				for _, to := range cuts {
					if _, err := w.Write(text[at:to]); err != nil {
						return
					}
					at = to
					time.Sleep(20 * time.Microsecond)
				}
			}()
			if f == data && r.Intn(2) == 0 { // standard input
				for i, a := range args2 {
					if a == p {
						args2[i] = "-"
					}
				}
				in, err := os.OpenFile(p, os.O_RDONLY, 0)
				if err != nil {
					frame.Broken("%v", err)
				}
				got = runSink(c, env2, in, out, args2...)
				in.Close()
			} else {
				got = runSink(c, env2, nil, out, args2...)
			}
			// let the writer go where nobody has read
			if rd, err := os.OpenFile(p, os.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil {
				rd.Close()
			}
			<-done
			what := fmt.Sprintf("the %s in %d pieces", files[f], len(cuts))
			c.Artefact("disturbance", what)
			if day == today() && (got.Exit != full.Exit || got.Stdout != full.Stdout) {
				c.Fail("%q with %s: %s\nundisturbed: %s", args, what, got, full)
			}
			os.Remove(p)
			c.Count("input in pieces", 1)
			c.Nontrivial(l.Text(), fmt.Sprintf("%q", args), what)
		}
	}
}

// run a command with a system call that fails for a file; and whether it has
func underStrace(c *frame.Case, env []string, stdin *os.File, out, file, inj string, argv []string) (sut.Result, bool) {
	trace := c.Scratch("trace of it")
	calls := inj[:strings.Index(inj, ":")]
	inj = optional(calls) + inj[len(calls):]
	if rel, err := filepath.EvalSymlinks(file); err == nil && rel != file {
		frame.Broken("%s is %s", file, rel)
	}
	if _, err := os.Stat(file); err != nil {
		os.WriteFile(file, nil, 0644)
	}
	got := runSink(c, env, stdin, out, append([]string{"strace", "-f", "-qq", "-o", trace, "-P", file, "-e", "trace=" + optional(calls), "-e", "inject=" + inj}, argv...)...)
	b, err := os.ReadFile(trace)
	if err != nil {
		frame.Broken("%v: %s %q %s", err, got, argv, file)
	}
	c.Artefact("trace", string(b))
	return got, bytes.Contains(b, []byte("INJECTED"))
}
