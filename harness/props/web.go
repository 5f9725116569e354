//go:build web

package props

import (
	"bytes"
	"fmt"
	"math/rand"
	"net/url"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/frame"
	"verif/harness/gen"
	"verif/harness/sut"
)

func init() {
	frame.Register(&frame.Check{
		ID: "C35", Quick: 150, Thorough: 3000, NoRlimit: true, NoZone: true,
		Rule: "one evaluation: a server with random settings and ledger, and 24 random report, register, accts and ccy requests, also wrong ones, first each alone, then one after another, then 8 at a time with responses written slowly, then over HTTP to one long-lived server; built with the race detector; every response must be the same as alone, and that of the command line with these settings; non-trivial: every run, distinct by ledger and requests",
		Run:  webCheck, RaceIsViolation: true,
		MinCounts: map[string]int{"requests": 10000, "requests at the same time as others": 2000, "HTTP requests": 1000, "compared with the command line": 200, "requests that fail": 100},
	})
}

// a slow writer
type slowWriter struct {
	b bytes.Buffer
	r *rand.Rand
}

func (w *slowWriter) Write(p []byte) (int, error) {
	switch w.r.Intn(60) {
	case 0:
		time.Sleep(time.Duration(w.r.Intn(300)) * time.Microsecond)
	case 1, 2, 3:
		runtime.Gosched()
	}
	return w.b.Write(p)
}

func webCheck(c *frame.Case) {
	r := c.R
	o := gen.Options{NoHuge: true, NPrices: r.Intn(10)}
	l, main := reportLedger(c, o)
	d := sut.WebDefaults{Ledger: main, Lang: gen.Pick(r, []string{"en", "de", "en", "fr"}), ReportType: gen.Pick(r, []string{"Text", "Json", "HTML", "Ledger"}), RegisterType: gen.Pick(r, []string{"Text", "JSON", "CSV"}),
		BaseCCY: gen.Pick(r, append(l.CCYs(), "", "USD")), Macros: map[string][]string{"years": {"since=2000", "before=2090"}, "both": {"years", "move=.*=A_X_B"}}}
	var reqs [][]string
	for i := 0; i < 24; i++ {
		args := randomCommand(c, l, i, true)
		for k := 0; k+1 < len(args); k++ { // with the defaults of the server
			if (args[k] == "--type" || args[k] == "--ccy") && r.Intn(2) == 0 {
				args = append(append([]string{}, args[:k]...), args[k+2:]...)
			}
		}
		if r.Intn(3) == 0 {
			args = append(args, "--lang", gen.Pick(r, langs))
		}
		if r.Intn(8) == 0 {
			args = append(args, gen.Pick(r, []string{"--divider=/", "--all", "--verbose", "--colour"}))
		}
		if args[0] == "report" && r.Intn(4) == 0 {
			args = append(args, gen.Pick(r, []string{"years", "both"}))
		}
		if r.Intn(12) == 0 {
			args = gen.Pick(r, [][]string{{"nosuch"}, {"report", "--nosuch"}, {"report", "-l", c.Scratch("nosuch")}, {"register"}, {"register", "--type", "xml", "A"}, {}, {"report", "--help"}, {"help", "accts"}, append(args, "nosuch=op")})
		}
		reqs = append(reqs, args)
	}
	c.Artefact("settings", fmt.Sprintf("%+v", d))
	c.Artefact("requests", fmt.Sprintf("%q", reqs))
	day := today()
	// at the same time
	type result struct {
		i   int
		got string
	}
	var busy, overlaps int32
	parallel := func(request func(worker, i int, wr *rand.Rand) string) []result {
		var wg sync.WaitGroup
		all := make([][]result, 8)
		start := make(chan bool)
		for k := range all {
			wg.Add(1)
			wr := rand.New(rand.NewSource(r.Int63()))
			order := wr.Perm(len(reqs))
			if k%2 == 0 { // the same one at the same time, too
				order = rand.New(rand.NewSource(int64(c.Index))).Perm(len(reqs))
			}
			go func(k int) {
				defer wg.Done()
				<-start
				for _, i := range order {
					if atomic.AddInt32(&busy, 1) > 1 {
						atomic.AddInt32(&overlaps, 1)
					}
					all[k] = append(all[k], result{i, request(k, i, wr)})
					atomic.AddInt32(&busy, -1)
				}
			}(k)
		}
		close(start)
		wg.Wait()
		var flat []result
		for _, l := range all {
			flat = append(flat, l...)
		}
		return flat
	}
	together := func(w *sut.Web) func(k, i int, wr *rand.Rand) string {
		return func(k, i int, wr *rand.Rand) string {
			sw := &slowWriter{r: wr}
			if err := w.Request(reqs[i], sw); err != nil {
				fmt.Fprintf(&sw.b, "Error: %v\n", err)
			}
			return sw.b.String()
		}
	}
	// at times the first that the process sees of these requests is all of them at once
	var cold []result
	if c.Index%2 == 0 {
		cold = parallel(together(sut.NewWeb(d)))
	}
	// each alone, with an application of its own
	alone := make([]string, len(reqs))
	for i, args := range reqs {
		alone[i] = sut.NewWeb(d).RequestText(args)
		if strings.Contains(alone[i], "Error: ") {
			c.Count("requests that fail", 1)
		}
	}
	for i, args := range reqs { // and as a command
		if (c.Index+i)%8 > 0 || len(args) == 0 {
			continue
		}
		conf := c.Write("conf", fmt.Sprintf("ledger = %s\nlang = %q\nbaseccy = %s\ncolour = false\n\n[report]\ntype = %q\n\n[register]\ntype = %q\n\n[macros]\nyears = [\"since=2000\", \"before=2090\"]\nboth = [\"years\", \"move=.*=A_X_B\"]\n", tomlStr(main), d.Lang, tomlStr(d.BaseCCY), d.ReportType, d.RegisterType))
		if args[0] == "help" || strings.Contains(fmt.Sprint(args), "--help") || strings.Contains(fmt.Sprint(args), "--colour") {
			continue
		}
		res := sut.CLI(c.Bin, c.Dir, []string{"GOLEDGER_CONF=" + conf}, args...)
		if day != today() {
			return
		}
		if res.Exit == 0 && res.Stdout != alone[i] || res.Exit == 1 && !strings.Contains(alone[i], "Error: ") {
			c.Fail("request %q: %s\nbut the command: %s", args, clip(alone[i], 1500), res)
		}
		c.Count("compared with the command line", 1)
	}
	same := func(how string, args []string, got, want string) {
		c.Count("requests", 1)
		if got != want && day == today() {
			c.Fail("%s, %q: %s", how, args, diffLines(strings.Split(got, "\n"), strings.Split(want, "\n")))
		}
	}
	// one after another
	w := sut.NewWeb(d)
	for k := 0; k < 2; k++ {
		for _, i := range r.Perm(len(reqs)) {
			same("one after another", reqs[i], w.RequestText(reqs[i]), alone[i])
		}
	}
	for _, x := range parallel(together(w)) {
		same("at the same time", reqs[x.i], x.got, alone[x.i])
	}
	for _, x := range cold {
		same("at the same time on a new server", reqs[x.i], x.got, alone[x.i])
	}
	// HTTP
	base := sut.WebServer(sut.WebDefaults{Ledger: "nosuch", Lang: "en", ReportType: "Text", RegisterType: "Text"})
	fixed := func(args []string) []string { // settings of this case as arguments
		return append([]string{"-l", main, "--lang", d.Lang, "--ccy", d.BaseCCY}, args...)
	}
	aloneHTTP := make([]string, len(reqs))
	for i, args := range reqs {
		aloneHTTP[i] = sut.NewWeb(sut.WebDefaults{Ledger: "nosuch", Lang: "en", ReportType: "Text", RegisterType: "Text"}).RequestText(fixed(args))
	}
	for _, x := range parallel(func(k, i int, wr *rand.Rand) string {
		v := url.Values{}
		for _, a := range fixed(reqs[i]) {
			v.Add("arg", a)
		}
		code, body, err := sut.Get(base + "/goledger?" + v.Encode())
		if err != nil || code != 200 {
			return fmt.Sprintf("status %d %v", code, err)
		}
		return body
	}) {
		same("over HTTP", fixed(reqs[x.i]), x.got, aloneHTTP[x.i])
		c.Count("HTTP requests", 1)
	}
	c.Count("requests at the same time as others", int(overlaps))
	c.Nontrivial(l.Text(), fmt.Sprint(reqs))
	c.Sample("24 requests such as %q, %d of %d at the same time as another", reqs[0], overlaps, 2*8*24)
}
