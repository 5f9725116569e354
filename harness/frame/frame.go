// Package frame runs the checks: it spreads a fixed list of cases (determined by
// seed and property only, never by time) over sub-processes, watches for crashes and
// hangs, records what was observed and reports violations.
package frame

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Check decides one property.
type Check struct {
	ID          string
	Quick       int // number of cases
	Thorough    int
	NoZone      bool // leave the time zone alone
	Rule        string
	Assumptions []string
	Level       string
	Run         func(c *Case)
	// Cases are run in this process rather than spread (the check does its own concurrency)
	Single bool
	// a data race in goledger is a violation (the process ends at the first)
	RaceIsViolation bool
	// cases per process at most (0: no limit)
	Chunk int
	// MinCounts: events that must have been observed, otherwise the run is inconclusive
	MinCounts map[string]int
	NoRlimit  bool
	Timeout   time.Duration // of a case, if shorter than usual
}

// Case is one execution.
type Case struct {
	Prop     string
	Index    int
	Thorough bool
	Seed     int64
	R        *rand.Rand
	Dir      string // scratch directory of the case
	Bin      string // goledger binary
	Env      map[string]string

	artefacts  []artefact
	stats      *stats
	nontrivial bool
}

type artefact struct {
	Name    string `json:"name"`
	Content string `json:"content"`
}

type stats struct {
	Evaluations int             `json:"evaluations"`
	Distinct    map[uint64]bool `json:"-"`
	Hashes      []uint64        `json:"hashes"`
	Counts      map[string]int  `json:"counts"`
	Samples     []string        `json:"samples"`
	Violations  []violation     `json:"violations"`
	Error       string          `json:"error,omitempty"`
}

type violation struct {
	Property  string     `json:"property"`
	Seed      int64      `json:"seed"`
	Case      int        `json:"case"`
	Tier      string     `json:"tier"`
	Key       string     `json:"key"`
	Message   string     `json:"message"`
	Artefacts []artefact `json:"artefacts,omitempty"`
}

type failure struct{ key, msg string }
type harnessError struct{ msg string }

// Fail reports a violation of the property by this case.
func (c *Case) Fail(format string, a ...interface{}) {
	panic(failure{"", fmt.Sprintf(format, a...)})
}

// FailKey is Fail with a key identifying a known finding.
func (c *Case) FailKey(key, format string, a ...interface{}) {
	panic(failure{key, fmt.Sprintf(format, a...)})
}

// Broken reports a problem of the harness itself (inconclusive).
func Broken(format string, a ...interface{}) {
	panic(harnessError{fmt.Sprintf(format, a...)})
}

// Nontrivial records that the case was non-trivial, identified by the keys.
func (c *Case) Nontrivial(keys ...interface{}) {
	h := fnv.New64a()
	for _, k := range keys {
		fmt.Fprintf(h, "%v\x00", k)
	}
	// a case counts once
	if !c.nontrivial {
		c.stats.Distinct[h.Sum64()] = true
	}
	c.nontrivial = true
}

// Count counts observed events.
func (c *Case) Count(name string, n int) { c.stats.Counts[name] += n }

// Sample records a few actual cases.
func (c *Case) Sample(format string, a ...interface{}) {
	if len(c.stats.Samples) < 3 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}
		c.stats.Samples = append(c.stats.Samples, s)
	}
}

// Artefact keeps something for the replay file, should the case fail.
func (c *Case) Artefact(name, content string) {
	if len(content) > 200000 {
		content = content[:200000] + "...(cut)"
	}
	c.artefacts = append(c.artefacts, artefact{name, content})
}

// Scratch returns a path in the scratch directory.
func (c *Case) Scratch(name string) string { return filepath.Join(c.Dir, name) }

// Write a scratch file (creating directories)
func (c *Case) Write(name, content string) string {
	p := c.Scratch(name)
	if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
		Broken("mkdir: %v", err)
	}
	if err := os.WriteFile(p, []byte(content), 0644); err != nil {
		Broken("write: %v", err)
	}
	return p
}

var checks = map[string]*Check{}

// Register a check
func Register(c *Check) {
	if c.Level == "" {
		c.Level = "exploration"
	}
	checks[c.ID] = c
}

func hash64(s string) int64 {
	h := fnv.New64a()
	io.WriteString(h, s)
	return int64(h.Sum64())
}

func newStats() *stats {
	return &stats{Distinct: map[uint64]bool{}, Counts: map[string]int{}}
}

type options struct {
	prop, tier, scratch, bin, out, progress, evidence, replays, known, replay string
	seed                                                                      int64
	shard, shards, only, jobs                                                 int
}

const caseTimeout = 120 * time.Second

func runCase(ch *Check, o *options, idx int, st *stats) (v *violation) {
	dir := filepath.Join(o.scratch, fmt.Sprintf("c%d", idx))
	if err := os.MkdirAll(dir, 0755); err != nil {
		return &violation{Property: "", Message: "harness: " + err.Error()}
	}
	defer os.RemoveAll(dir)
	src := rand.NewSource(hash64(fmt.Sprintf("%s/%d/%d", ch.ID, o.seed, idx)))
	c := &Case{Prop: ch.ID, Index: idx, Thorough: o.tier == "thorough", Seed: o.seed, R: rand.New(src),
		Dir: dir, Bin: o.bin, stats: st}
	defer func() {
		if m := recover(); m != nil {
			v = &violation{Property: ch.ID, Seed: o.seed, Case: idx, Tier: o.tier, Artefacts: c.artefacts}
			switch f := m.(type) {
			case failure:
				v.Key, v.Message = f.key, f.msg
			case harnessError:
				v.Property, v.Message = "", "harness: "+f.msg
			default:
				stack := string(debug.Stack())
				v.Message = fmt.Sprintf("crash: %v\n%s", m, stack)
				if !sutOnTop(stack) {
					v.Property = ""
				}
			}
		}
	}()
	st.Evaluations++
	if !ch.NoZone {
		setZone(hash64(fmt.Sprintf("zone/%s/%d/%d", ch.ID, o.seed, idx)))
		st.Counts["time zone: "+Zone]++
	}
	ch.Run(c)
	return nil
}

// Zone is the time zone of the current case, for this process (time.Local) and those it starts (TZ)
var Zone = "UTC"

var zones = []string{"UTC", "UTC", "America/Sao_Paulo", "Pacific/Kiritimati", "Pacific/Pago_Pago", "Asia/Kolkata", "Europe/London", "Africa/Cairo"}

func setZone(n int64) {
	name := zones[uint64(n)%uint64(len(zones))]
	loc, err := time.LoadLocation(name)
	if err != nil { // not installed
		name, loc = "UTC", time.UTC
	}
	Zone, time.Local = name, loc
}

// Is the innermost non-library frame below the panic one of goledger's, or one of those that read what goledger has
// (which expect only what any right state or output has)?
func sutOnTop(stack string) bool {
	i := strings.LastIndex(stack, "panic(")
	if i < 0 {
		return false
	}
	for _, l := range strings.Split(stack[i:], "\n") {
		if strings.HasPrefix(l, "github.com/mescanne/goledger") {
			return true
		}
		if strings.HasPrefix(l, "verif/harness/sut.") || strings.HasPrefix(l, "verif/harness/props.") {
			return true
		}
		if strings.HasPrefix(l, "verif/harness") || strings.HasPrefix(l, "main.") {
			return false
		}
	}
	return false
}

func loadKnown(file, prop string) map[string]string {
	known := map[string]string{}
	b, err := os.ReadFile(file)
	if err != nil {
		return known
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+prop+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+prop+" key=")
		p := strings.SplitN(rest, " ", 2)
		if len(p) == 2 {
			known[p[0]] = p[1]
		}
	}
	return known
}

func shardMain(ch *Check, o *options) int {
	if !ch.NoRlimit {
		lim := syscall.Rlimit{Cur: 3 << 30, Max: 3 << 30} // eight of them fit the sandbox
		syscall.Setrlimit(syscall.RLIMIT_DATA, &lim)
	}
	st := newStats()
	n := ch.Quick
	if o.tier == "thorough" {
		n = ch.Thorough
	}
	known := loadKnown(o.known, ch.ID)
	var mu sync.Mutex
	started := time.Now()
	current := -1
	pf, err := os.OpenFile(o.progress, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	timeout := caseTimeout
	if ch.Timeout > 0 {
		timeout = ch.Timeout
	}
	go func() {
		for {
			time.Sleep(time.Second)
			mu.Lock()
			late := current >= 0 && time.Since(started) > timeout
			mu.Unlock()
			if late {
				fmt.Fprintf(os.Stderr, "HANG in case %d\n", current)
				debug.SetTraceback("all")
				os.Exit(97)
			}
		}
	}()
	harnessErrors := 0
	for i := 0; i < n; i++ {
		if o.only >= 0 && i != o.only {
			continue
		}
		if o.only < 0 && i%o.shards != o.shard {
			continue
		}
		mu.Lock()
		current, started = i, time.Now()
		mu.Unlock()
		pf.WriteAt([]byte(fmt.Sprintf("%-12d", i)), 0)
		v := runCase(ch, o, i, st)
		if v == nil {
			continue
		}
		if v.Property == "" {
			st.Error = fmt.Sprintf("case %d: %s", i, v.Message)
			harnessErrors++
			if harnessErrors > 3 {
				break
			}
			continue
		}
		st.Violations = append(st.Violations, *v)
		if _, ok := known[v.Key]; !ok || v.Key == "" {
			break
		}
	}
	for h := range st.Distinct {
		st.Hashes = append(st.Hashes, h)
	}
	b, _ := json.Marshal(st)
	if err := os.WriteFile(o.out, b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	return 0
}

// Running shards. Once there is a violation to report, they get a moment to finish
// what they are doing and are then ended.
var running struct {
	sync.Mutex
	cmds    map[*exec.Cmd]bool
	stopped bool
}

func run(cmd *exec.Cmd) error {
	running.Lock()
	if running.stopped {
		running.Unlock()
		return fmt.Errorf("stopped")
	}
	if err := cmd.Start(); err != nil {
		running.Unlock()
		return err
	}
	running.cmds[cmd] = true
	running.Unlock()
	err := cmd.Wait()
	running.Lock()
	delete(running.cmds, cmd)
	running.Unlock()
	return err
}

func isStopped() bool {
	running.Lock()
	defer running.Unlock()
	return running.stopped
}

func stopAfter(d time.Duration) {
	go func() {
		time.Sleep(d)
		running.Lock()
		defer running.Unlock()
		running.stopped = true
		for cmd := range running.cmds {
			cmd.Process.Kill()
		}
	}()
}

// spawn a shard, returns stats or how it died
func spawn(o *options, shard, shards, only int) (*stats, int, string) {
	self, _ := os.Executable()
	tag := fmt.Sprintf("s%d", shard)
	if only >= 0 {
		tag = fmt.Sprintf("only%d", only)
	}
	scratch := filepath.Join(o.scratch, tag)
	os.MkdirAll(scratch, 0755)
	out := filepath.Join(o.scratch, tag+".json")
	progress := filepath.Join(o.scratch, tag+".progress")
	os.Remove(out)
	args := []string{"-prop", o.prop, "-tier", o.tier, "-seed", fmt.Sprint(o.seed), "-scratch", scratch, "-bin", o.bin,
		"-known", o.known, "-out", out, "-progress", progress,
		"-shard", fmt.Sprint(shard), "-shards", fmt.Sprint(shards), "-only", fmt.Sprint(only),
		"-n", fmt.Sprint(o.jobs)}
	cmd := exec.Command(self, args...)
	errf, err := os.Create(filepath.Join(o.scratch, tag+".stderr"))
	if err != nil {
		return nil, -1, err.Error()
	}
	defer errf.Close()
	devnull, _ := os.Open(os.DevNull)
	defer devnull.Close()
	cmd.Stdin = devnull
	cmd.Stdout = errf // anything printed in-process by the code under test
	cmd.Stderr = errf
	cmd.Env = os.Environ()
	runErr := run(cmd)
	os.RemoveAll(scratch)
	b, err := os.ReadFile(out)
	if err == nil {
		st := newStats()
		if json.Unmarshal(b, st) == nil {
			return st, -1, ""
		}
	}
	pb, _ := os.ReadFile(progress)
	idx, perr := strconv.Atoi(strings.TrimSpace(string(pb)))
	if perr != nil {
		idx = -1
	}
	eb, _ := os.ReadFile(filepath.Join(o.scratch, tag+".stderr"))
	es := string(eb)
	if i := strings.Index(es, "WARNING: DATA RACE"); i >= 0 {
		es = es[i:]
	}
	if len(es) > 6000 {
		es = es[:3000] + "\n...\n" + es[len(es)-3000:]
	}
	return nil, idx, fmt.Sprintf("%v\n%s", runErr, es)
}

// Main is the entry point of the harness binary.
func Main() int {
	o := &options{}
	flag.StringVar(&o.prop, "prop", "", "property")
	flag.StringVar(&o.tier, "tier", "quick", "quick or thorough")
	flag.Int64Var(&o.seed, "seed", 1, "seed")
	flag.StringVar(&o.scratch, "scratch", "", "scratch directory")
	flag.StringVar(&o.bin, "bin", "", "goledger binary")
	flag.StringVar(&o.out, "out", "", "(shard) output")
	flag.StringVar(&o.progress, "progress", "", "(shard) progress")
	flag.StringVar(&o.evidence, "evidence", "", "evidence file")
	flag.StringVar(&o.replays, "replays", "", "directory for replay files")
	flag.StringVar(&o.known, "known", "", "known findings")
	flag.StringVar(&o.replay, "replay", "", "replay file to run again")
	flag.IntVar(&o.shard, "shard", -1, "shard")
	flag.IntVar(&o.shards, "shards", 8, "shards")
	flag.IntVar(&o.only, "only", -1, "run only this case")
	flag.IntVar(&o.jobs, "n", 0, "override the number of cases")
	flag.Parse()

	if o.replay != "" {
		b, err := os.ReadFile(o.replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		var v violation
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		o.prop, o.seed, o.tier, o.only = v.Property, v.Seed, v.Tier, v.Case
	}
	ch, ok := checks[o.prop]
	if !ok {
		ids := []string{}
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Fprintf(os.Stderr, "unknown property %q (have %s)\n", o.prop, strings.Join(ids, " "))
		return 2
	}
	if o.jobs > 0 {
		ch.Quick, ch.Thorough = o.jobs, o.jobs
	}
	if o.shard >= 0 {
		return shardMain(ch, o)
	}
	return parentMain(ch, o)
}

func parentMain(ch *Check, o *options) int {
	start := time.Now()
	shards := o.shards
	if ch.Single {
		shards = 1
	}
	if o.only >= 0 {
		shards = 1
	}
	total := newStats()
	var mu sync.Mutex
	var wg sync.WaitGroup
	var fatal []string
	running.cmds = map[*exec.Cmd]bool{}
	known := loadKnown(o.known, ch.ID)
	violated := func(vs ...violation) {
		for _, v := range vs {
			total.Violations = append(total.Violations, v)
			if _, ok := known[v.Key]; !ok || v.Key == "" {
				stopAfter(10 * time.Second)
			}
		}
	}
	n := ch.Quick
	if o.tier == "thorough" {
		n = ch.Thorough
	}
	slots := make(chan bool, shards)
	if ch.Chunk > 0 && shards > 1 {
		shards = max(shards, (n+ch.Chunk-1)/ch.Chunk)
	}
	for s := 0; s < shards; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			slots <- true
			defer func() { <-slots }()
			st, idx, how := spawn(o, s, shards, o.only)
			if st == nil && isStopped() {
				return
			}
			if st == nil && ch.RaceIsViolation && strings.Contains(how, "WARNING: DATA RACE") && strings.Contains(how, "mescanne/goledger") {
				mu.Lock()
				violated(violation{Property: ch.ID, Seed: o.seed, Case: idx, Tier: o.tier, Message: how})
				mu.Unlock()
				return
			}
			if st == nil {
				// Died: confirm by running the case alone
				if idx >= 0 {
					st2, _, how2 := spawn(o, s, shards, idx)
					if st2 == nil && isStopped() {
						return
					}
					if st2 == nil {
						what := "the process died"
						if strings.Contains(how2, "HANG in case") {
							what = "hang"
						}
						mu.Lock()
						violated(violation{Property: ch.ID, Seed: o.seed, Case: idx, Tier: o.tier,
							Message: fmt.Sprintf("%s (twice): %s", what, how2)})
						mu.Unlock()
						return
					}
					if len(st2.Violations) > 0 {
						mu.Lock()
						violated(st2.Violations...)
						mu.Unlock()
						return
					}
				}
				// Not reproducible: once more as a whole
				st, idx, how = spawn(o, s, shards, o.only)
				if st == nil && isStopped() {
					return
				}
				if st == nil {
					mu.Lock()
					fatal = append(fatal, fmt.Sprintf("shard %d died at case %d: %s", s, idx, how))
					mu.Unlock()
					return
				}
			}
			mu.Lock()
			defer mu.Unlock()
			total.Evaluations += st.Evaluations
			for _, h := range st.Hashes {
				total.Distinct[h] = true
			}
			for k, n := range st.Counts {
				total.Counts[k] += n
			}
			if len(total.Samples) < 4 {
				total.Samples = append(total.Samples, st.Samples...)
			}
			violated(st.Violations...)
			if st.Error != "" {
				fatal = append(fatal, st.Error)
			}
		}(s)
	}
	wg.Wait()
	if len(total.Samples) > 4 {
		total.Samples = total.Samples[:4]
	}

	seen := map[string]bool{}
	nviol := 0
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	sort.Slice(total.Violations, func(i, j int) bool { return total.Violations[i].Case < total.Violations[j].Case })
	for _, v := range total.Violations {
		if txt, ok := known[v.Key]; ok && v.Key != "" {
			if !seen[v.Key] {
				fmt.Fprintf(w, "KNOWN-FINDING: property=%s %s\n", ch.ID, txt)
				seen[v.Key] = true
			}
			continue
		}
		nviol++
		if nviol > 3 {
			continue
		}
		os.MkdirAll(o.replays, 0755)
		path := filepath.Join(o.replays, fmt.Sprintf("%s-%s-%d-%d.json", ch.ID, o.tier, o.seed, v.Case))
		b, _ := json.MarshalIndent(v, "", "  ")
		os.WriteFile(path, b, 0644)
		msg := v.Message
		if len(msg) > 2500 {
			msg = msg[:2500] + "..."
		}
		fmt.Fprintf(w, "%s\n", msg)
		fmt.Fprintf(w, "VIOLATION property=%s replay=%s\n", ch.ID, path)
	}

	counts := map[string]interface{}{}
	keys := []string{}
	for k := range total.Counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		counts[k] = total.Counts[k]
	}
	samples := []interface{}{}
	for _, s := range total.Samples {
		samples = append(samples, s)
	}
	ev := map[string]interface{}{
		"property": ch.ID, "tier": o.tier, "seed": o.seed, "level": ch.Level,
		"coverage": map[string]interface{}{
			"evaluations": total.Evaluations, "distinct_nontrivial": len(total.Distinct),
			"rule": ch.Rule, "samples": samples, "observed": counts,
		},
		"assumptions": ch.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": nviol,
	}
	if ch.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	if o.evidence != "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Dir(o.evidence), 0755)
		if err := os.WriteFile(o.evidence, append(b, '\n'), 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	fmt.Fprintf(w, "%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %.1fs\n", ch.ID, o.tier, o.seed,
		total.Evaluations, len(total.Distinct), nviol, time.Since(start).Seconds())
	for _, k := range keys {
		fmt.Fprintf(w, "  observed %s: %d\n", k, total.Counts[k])
	}
	if nviol > 0 {
		return 1
	}
	if len(fatal) > 0 {
		for _, f := range fatal {
			fmt.Fprintf(w, "INCONCLUSIVE: %s\n", f)
		}
		return 2
	}
	if o.only < 0 && o.jobs == 0 {
		for k, n := range ch.MinCounts {
			if total.Counts[k] < n {
				fmt.Fprintf(w, "INCONCLUSIVE: only %d %s observed, expected at least %d\n", total.Counts[k], k, n)
				return 2
			}
		}
		if len(total.Distinct) == 0 {
			fmt.Fprintf(w, "INCONCLUSIVE: nothing non-trivial observed\n")
			return 2
		}
	}
	return 0
}
