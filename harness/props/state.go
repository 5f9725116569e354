package props

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/harness/frame"
	"verif/harness/gen"
	"verif/harness/sut"
)

func init() {
	frame.Register(&frame.Check{
		ID: "C34", Quick: 6000, Thorough: 60000,
		Rule: "one evaluation: saving random data over a previous state (or none), plain or compressed, new, existing or through a link, (a) with a file size limit at any byte, (b) as a process whose system calls fail (out of space, I/O error, not permitted) or at one of which it is killed, (c) as a process saving again and again until killed at a random moment, or (d) loading a missing, cut or damaged file; " +
			"afterwards the file must hold exactly the old or the new data, as reported; non-trivial: every run, distinct by data and fault",
		Run:       stateCheck,
		MinCounts: map[string]int{"saves": 3000, "failed saves": 500, "size limits": 1000, "kills": 50, "damaged files refused": 500, "missing files": 100},
	})
}

// notPermitted runs f as a user who may not read the file; false if that cannot be
func notPermitted(file string, f func() error) (error, bool) {
	if os.Chmod(file, 0600) != nil {
		return nil, false
	}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	// of this thread only
	syscall.RawSyscall(syscall.SYS_SETFSUID, 65534, 0, 0)
	defer syscall.RawSyscall(syscall.SYS_SETFSUID, uintptr(os.Geteuid()), 0, 0)
	if _, err := os.ReadFile(file); !os.IsPermission(err) {
		return nil, false
	}
	return f(), true
}

// Helper is what the harness runs as a process of its own
func Helper(args []string) int {
	switch args[0] {
	case "save": // file data
		b, err := os.ReadFile(args[2])
		if err != nil {
			return 9
		}
		var v interface{}
		if err := decodeExact(b, &v); err != nil {
			return 9
		}
		if err := sut.SaveState(args[1], &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 1
		}
		return 0
	case "saves": // file size: save versions until killed
		for i := 1; ; i++ {
			if err := sut.SaveState(args[1], versionData(i)); err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 1
			}
			fmt.Println(i)
		}
	case "limit": // bytes command...: run it with a limit of file size
		n, err := strconv.ParseUint(args[1], 10, 64)
		if err != nil {
			return 9
		}
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n}); err != nil {
			return 9
		}
		fmt.Fprintln(os.Stderr, syscall.Exec(args[2], args[2:], os.Environ()))
		return 9
	case "nothing":
		return 0
	}
	return 9
}

func versionData(i int) interface{} {
	r := rand.New(rand.NewSource(int64(i)))
	m := map[string]interface{}{"version": i}
	for k := r.Intn(40) * r.Intn(40); k > 0; k-- {
		m[fmt.Sprint("key ", k)] = strings.Repeat(fmt.Sprint(i, " "), r.Intn(50))
	}
	m["zz"] = i
	return m
}

func loadAny(file string) (interface{}, error) {
	var v interface{}
	err := sut.LoadState(file, &v)
	return v, err
}

func fileData(file string) (string, error) { // as it is, without goledger
	raw, v, err := readState(file)
	if err != nil {
		return "", err
	}
	if raw == nil {
		return "", nil
	}
	return canonJSON(v), nil
}

var straceOnce sync.Once
var straceOK bool

func haveStrace(self string) bool {
	straceOnce.Do(func() {
		out, err := exec.Command("strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=openat", "-e", "inject=openat:error=EIO:when=9999", self, "helper", "nothing").CombinedOutput()
		straceOK = err == nil && len(out) == 0
	})
	return straceOK
}

func stateData(r *rand.Rand) interface{} {
	switch r.Intn(8) {
	case 0:
		return map[string]interface{}{}
	case 1:
		return []interface{}{}
	}
	m := map[string]interface{}{}
	for i := r.Intn(30); i >= 0; i-- {
		m[fmt.Sprint(gen.Pick(r, []string{"tx_", "é", "a b", "\""}), r.Intn(1000))] = randJSON(r, 3)
	}
	if r.Intn(10) == 0 {
		var l []interface{}
		for i := r.Intn(3000); i > 0; i-- {
			l = append(l, r.Float64())
		}
		m["long"] = l
	}
	return m
}

func stateCheck(c *frame.Case) {
	r := c.R
	self, err := os.Executable()
	if err != nil {
		frame.Broken("%v", err)
	}
	name := gen.Pick(r, []string{"state.json", "state.json.gz", "state", "a b.gz", ".hidden", "sub/dir/x.json", "sub/y.json.gz", "state.GZ",
		"bank.tgz", "stategz", "a.gz.json", ".gz", "dir.gz/state", "dir.json/b.gz", "b.gz.gz", "é ü.gz", strings.Repeat("long ", 40) + ".json"})
	file := c.Scratch(name)
	old, data := stateData(r), stateData(r)
	// what there is before
	oldText := ""
	how := "new"
	target := file
	if r.Intn(4) > 0 {
		how = "existing"
		if r.Intn(4) == 0 {
			how = "link"
			target = c.Scratch("elsewhere/" + gen.Pick(r, []string{"real", "real.gz"}))
			os.MkdirAll(filepath.Dir(target), 0755)
			os.MkdirAll(filepath.Dir(file), 0755)
			to := target
			if r.Intn(2) == 0 {
				to, _ = filepath.Rel(filepath.Dir(file), target)
			}
			if err := os.Symlink(to, file); err != nil {
				frame.Broken("%v", err)
			}
		}
		switch {
		case how == "link" && r.Intn(4) > 0:
			// written by something else
			content, err := json.Marshal(old)
			if err != nil {
				frame.Broken("%v", err)
			}
			if strings.HasSuffix(name, ".gz") {
				var z bytes.Buffer
				zw := gzip.NewWriter(&z)
				zw.Write(content)
				zw.Close()
				content = z.Bytes()
			}
			if err := os.WriteFile(target, content, 0600); err != nil {
				frame.Broken("%v", err)
			}
			oldText = canonJSON(old)
			c.Count("links to existing files", 1)
		case how == "link":
			c.Count("links to missing files", 1)
		case r.Intn(4) > 0:
			// written by an earlier save
			if err := sut.SaveState(file, &old); err != nil {
				c.Fail("save to %s (%s): %v", name, how, err)
			}
			oldText = canonJSON(old)
		}
	}
	newText := canonJSON(data)
	linked := func(what string) {
		if how != "link" || strings.Contains(what, "inject") {
			return // a link that cannot be read may well be replaced
		}
		a, err := os.ReadFile(file)
		b, terr := os.ReadFile(target)
		if err == nil && (terr != nil || !bytes.Equal(a, b)) {
			c.Fail("%s is a link to %s, %s: it has %s, the target %s (%v)", name, target, what, clip(string(a), 100), clip(string(b), 100), terr)
		}
	}
	c.Artefact("file", name+" "+how)
	c.Artefact("old", oldText)
	c.Artefact("new", newText)
	check := func(what string, reported error, crashed bool) {
		c.Count("saves", 1)
		if reported != nil {
			c.Count("failed saves", 1)
		}
		got, err := fileData(file)
		state := "damaged"
		switch {
		case err != nil:
		case got == newText && got == oldText:
			state = "same"
		case got == newText:
			state = "new"
		case got == oldText:
			state = "old"
		}
		ok := state == "same" || state == "new" && (reported == nil || crashed) || state == "old" && (reported != nil || crashed)
		if !ok {
			c.Fail("%s (%s), %s: save reports %v (killed: %v) but the file is %s (%v): %s", name, how, what, reported, crashed, state, err, clip(got, 300))
		}
		linked(strings.Replace(what, "?", "inject ?", 1))
		// and goledger agrees
		if got != "" {
			v, err := loadAny(file)
			if err != nil || canonJSON(v) != got {
				c.Fail("%s (%s), %s: loading: %v %s instead of %s", name, how, what, err, clip(canonJSON(v), 300), clip(got, 300))
			}
		}
		// saving works after that
		if r.Intn(3) == 0 || reported != nil {
			if err := sut.SaveState(file, &data); err != nil {
				c.Fail("%s (%s), after %s: %v", name, how, what, err)
			}
			if got, err := fileData(file); err != nil || got != newText {
				c.Fail("%s (%s), after %s: next save is %v %s", name, how, what, err, clip(got, 300))
			}
		}
		c.Nontrivial(name, how, what, oldText, newText)
		c.Sample("%s (%s), %d bytes of data, %s: reported %v, the file is %s", name, how, len(newText), what, reported, state)
	}
	switch k := r.Intn(40); {
	case k < 22: // size limits
		size := len(newText) * 2
		if b, err := json.MarshalIndent(data, "", "  "); err == nil {
			size = len(b)
		}
		limit := r.Intn(size + 40)
		if r.Intn(3) == 0 {
			limit = r.Intn(size/8 + 40)
		}
		if r.Intn(10) == 0 {
			limit = 1 << 30
		}
		var was syscall.Rlimit
		if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &was); err != nil {
			frame.Broken("%v", err)
		}
		lim := was
		lim.Cur = uint64(limit)
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
			frame.Broken("%v", err)
		}
		err := sut.SaveState(file, &data)
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &was); err != nil {
			frame.Broken("%v", err)
		}
		c.Count("size limits", 1)
		check(fmt.Sprintf("size limit %d", limit), err, false)
	case k < 28: // system calls
		if !haveStrace(self) {
			c.Count("no strace", 1)
			return
		}
		df := c.Write("data.txt", newText)
		if k == 22 { // the order of them, for crashes of the machine
			log := c.Scratch("trace")
			cmd := exec.Command("strace", "-f", "-qq", "-y", "-s", "0", "-o", log, "-e", "trace="+optional("write,writev,pwrite64,ftruncate,fsync,fdatasync,rename,renameat,renameat2"), self, "helper", "save", file, df)
			out, err := cmd.CombinedOutput()
			if err != nil {
				c.Fail("save to %s (%s) under strace: %v %s", name, how, err, out)
			}
			b, _ := os.ReadFile(log)
			c.Artefact("trace", string(b))
			replaced, unflushed := flushOrder(string(b), filepath.Base(target))
			if unflushed != "" {
				c.Fail("%s (%s): %s", name, how, unflushed)
			}
			c.Count("orders of system calls", 1)
			c.Count("files replaced", replaced)
			check("trace", nil, false)
			return
		}
		call := gen.Pick(r, []string{"write", "write", "write", "renameat,rename,renameat2", "fsync,fdatasync", "close", "close", "openat", "openat", "fchmodat,fchmod,chmod", "mkdirat,mkdir", "newfstatat,fstat,lstat", "readlinkat,readlink", "unlinkat,unlink", "ftruncate,truncate"})
		// how many are there?
		log := c.Scratch("trace")
		before := c.Scratch("copy/" + filepath.Base(name))
		os.MkdirAll(filepath.Dir(before), 0755)
		if err := exec.Command("strace", "-f", "-qq", "-o", log, "-e", "trace="+optional(call), self, "helper", "save", before, df).Run(); err != nil {
			frame.Broken("strace: %v", err)
		}
		b, _ := os.ReadFile(log)
		n := bytes.Count(b, []byte("(")) // roughly
		when := 1
		if n > 0 {
			when = n + 1 - min(n, r.Intn(7))
		}
		inject := ":error=" + gen.Pick(r, []string{"ENOSPC", "EIO", "EDQUOT", "EPERM", "EACCES"})
		if r.Intn(3) == 0 {
			inject = ":signal=KILL"
		}
		inj := optional(call) + inject + fmt.Sprintf(":when=%d", when)
		if r.Intn(6) == 0 && !strings.Contains(inj, "KILL") {
			inj += "+" // from then on
		}
		cmd := exec.Command("strace", "-f", "-qq", "-o", log, "-e", "trace="+optional(call), "-e", "inject="+inj, self, "helper", "save", file, df)
		out, err := cmd.CombinedOutput()
		code := cmd.ProcessState.ExitCode()
		b, _ = os.ReadFile(log)
		c.Artefact("trace", string(b))
		if bytes.Contains(out, []byte("strace:")) {
			frame.Broken("strace: %s", out)
		}
		hit := strings.Contains(string(b), "INJECTED")
		if hit {
			c.Count("system calls failed", 1)
			c.Count("failed "+strings.Split(call, ",")[0], 1)
		}
		if strings.Contains(string(b), "killed by SIGKILL") {
			c.Count("kills", 1)
			c.Count("kills at a system call", 1)
		}
		switch {
		case code == 0:
			check(inj, nil, false)
		case code == 1:
			check(inj, fmt.Errorf("%s", strings.TrimSpace(string(out))), false)
		case code == 9: // could not even read the data
			check(inj, fmt.Errorf("not started"), false)
		default:
			check(inj, err, true)
		}
	case k < 29: // killed at any moment
		cmd := exec.Command(self, "helper", "saves", file)
		pipe, err := cmd.StdoutPipe()
		if err != nil {
			frame.Broken("%v", err)
		}
		if err := cmd.Start(); err != nil {
			frame.Broken("%v", err)
		}
		go func() {
			time.Sleep(time.Duration(r.Intn(60000)+3000) * time.Microsecond)
			cmd.Process.Kill()
		}()
		acked := 0
		sc := bufio.NewScanner(pipe)
		for sc.Scan() {
			fmt.Sscan(sc.Text(), &acked)
		}
		cmd.Wait()
		c.Count("kills", 1)
		c.Count("saves", acked)
		got, err := fileData(file)
		ok := err == nil && (got == canonJSON(versionData(acked)) || got == canonJSON(versionData(acked+1)))
		if acked == 0 && err == nil && got == oldText {
			ok = true
		}
		if !ok {
			c.Fail("%s (%s): killed after save %d, the file has %s (%v)", name, how, acked, clip(got, 300), err)
		}
		if got != "" {
			if v, err := loadAny(file); err != nil || canonJSON(v) != got {
				c.Fail("%s (%s): killed after save %d, loading gives %v", name, how, acked, err)
			}
		}
		c.Nontrivial(name, how, acked, oldText, newText)
		c.Sample("%s (%s): killed after %d saves", name, how, acked)
	case k < 31: // cannot be written at all
		bad := ""
		switch r.Intn(5) {
		case 4: // not permitted
			dir, err := os.MkdirTemp("", "verif-C34-open-") // the scratch directory is not open to others
			if err != nil {
				frame.Broken("%v", err)
			}
			defer os.RemoveAll(dir)
			if err := os.Chmod(dir, 0755); err != nil {
				frame.Broken("%v", err)
			}
			bad = filepath.Join(dir, "secret.json"+gen.Pick(r, []string{"", ".gz"}))
			if err := sut.SaveState(bad, &data); err != nil {
				c.Fail("save to secret.json: %v", err)
			}
			var v interface{}
			err, ok := notPermitted(bad, func() (err error) { v, err = loadAny(bad); return })
			if !ok {
				c.Count("no way to take permission away", 1)
				return
			}
			if err == nil {
				c.Fail("loading a file this user may not read reports no error but %s", canonJSON(v))
			}
			c.Count("files without permission refused", 1)
			c.Nontrivial(newText)
			return
		case 0:
			bad = c.Scratch("dir.json")
			os.MkdirAll(bad+"/x", 0755)
		case 1:
			bad = c.Write("plain", "x") + "/state.json"
		case 2:
			bad = c.Scratch("n/" + strings.Repeat("x", 300))
		default:
			bad = c.Scratch("loop")
			os.Symlink("loop", bad)
		}
		os.MkdirAll(filepath.Dir(bad), 0755)
		// nor read, which is not the same as missing
		if v, err := loadAny(bad); err == nil {
			c.Fail("loading %s, which cannot be read, reports no error but %s", bad, canonJSON(v))
		}
		c.Count("unreadable files refused", 1)
		if err := sut.SaveState(bad, &data); err == nil {
			v, lerr := loadAny(bad)
			if lerr != nil || canonJSON(v) != newText {
				c.Fail("saving to %s reports no error, but loading gives %v %s", bad, lerr, canonJSON(v))
			}
		} else {
			c.Count("failed saves", 1)
		}
		// not JSON
		if err := sut.SaveState(file, map[string]interface{}{"a": func() {}}); err == nil {
			c.Fail("saving a function reports no error")
		}
		check2, err := fileData(file)
		if err != nil || check2 != oldText {
			c.Fail("%s: a save of what cannot be saved changed the file: %v", name, err)
		}
		c.Nontrivial(bad, newText)
	case k < 36: // damaged
		if err := sut.SaveState(file, &data); err != nil {
			c.Fail("save to %s (%s): %v", name, how, err)
		}
		b, err := os.ReadFile(file)
		if err != nil {
			c.Fail("%v", err)
		}
		gz := strings.HasSuffix(name, ".gz")
		if gz != bytes.HasPrefix(b, []byte{0x1f, 0x8b}) {
			c.Fail("%s: compressed or not? %q", name, b[:min(len(b), 10)])
		}
		what := ""
		switch r.Intn(3) {
		case 0:
			n := r.Intn(len(b))
			b = b[:n]
			what = fmt.Sprintf("cut at %d", n)
		case 1:
			if gz {
				i := 10 + r.Intn(len(b)-10)
				b[i] ^= 1 << r.Intn(8)
				what = fmt.Sprintf("bit of %d", i)
				// does it matter?
				if z, err := gzip.NewReader(bytes.NewReader(b)); err == nil {
					if x, err := io.ReadAll(z); err == nil && json.Valid(x) {
						return
					}
				}
			} else {
				i := r.Intn(len(b))
				b = append(append(append([]byte(nil), b[:i]...), 0), b[i:]...)
				what = fmt.Sprintf("zero at %d", i)
			}
		default:
			b = []byte(gen.Pick(r, []string{"", "garbage", "\x1f\x8b", "{", "[1,", "{\"a\":1}}", strings.Repeat("\x00", 100), "<html>"}))
			what = fmt.Sprintf("%q", b)
		}
		os.WriteFile(file, b, 0644)
		v, err := loadAny(file)
		if err == nil {
			c.Fail("%s: damaged (%s), but loaded as %s", name, what, clip(canonJSON(v), 300))
		}
		after, _ := os.ReadFile(file)
		if !bytes.Equal(b, after) {
			c.Fail("%s: loading changed the file", name)
		}
		c.Count("damaged files refused", 1)
		c.Nontrivial(name, what, newText)
		c.Sample("%s: %s: %v", name, what, err)
	default: // missing
		missing := c.Scratch(gen.Pick(r, []string{"none/", "none/deep/", ""}) + "missing" + gen.Pick(r, []string{"", ".json", ".json.gz"}))
		v := map[string]interface{}{"kept": 1.0}
		if err := sut.LoadState(missing, &v); err != nil || len(v) != 1 {
			c.Fail("loading a missing file: %v %v", err, v)
		}
		if _, err := os.Stat(missing); err == nil {
			c.Fail("loading created the file")
		}
		c.Count("missing files", 1)
		c.Nontrivial(missing, newText)
		check("load first", sut.SaveState(file, &data), false)
	}
}

var traceCall = regexp.MustCompile(`^\d+ +(\w+)\((.*)`)
var traceFd = regexp.MustCompile(`^\d+<([^>]*)>`)
var traceRename = regexp.MustCompile(`"([^"]*)".*?"([^"]*)"`)

// how often the file of that name was replaced by another one by renaming,
// and what is wrong if that was before its contents were known to be on disk
func flushOrder(trace, name string) (int, string) {
	dirty := map[string]string{}
	replaced := 0
	for _, line := range strings.Split(trace, "\n") {
		m := traceCall.FindStringSubmatch(line)
		if m == nil {
			continue
		}
		switch {
		case strings.HasPrefix(m[1], "rename"):
			p := traceRename.FindStringSubmatch(m[2])
			if p == nil || filepath.Base(p[2]) != name {
				continue
			}
			replaced++
			if w := dirty[filepath.Base(p[1])]; w != "" {
				return replaced, "the file is replaced before its new contents are flushed to disk:\n" + w + "\n" + line
			}
		default:
			f := traceFd.FindStringSubmatch(m[2])
			if f == nil {
				continue
			}
			if strings.HasPrefix(m[1], "f") && strings.HasSuffix(m[1], "sync") {
				delete(dirty, filepath.Base(f[1]))
			} else {
				dirty[filepath.Base(f[1])] = line
			}
		}
	}
	return replaced, ""
}

// unknown system calls are not an error for strace
func optional(calls string) string {
	return "?" + strings.ReplaceAll(calls, ",", ",?")
}
