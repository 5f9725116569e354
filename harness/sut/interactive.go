package sut

import (
	"bytes"
	"context"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/harness/frame"
)

// CLITalk is CLIStdin which shows what has been printed so far to f while it runs
func CLITalk(bin, dir string, env []string, stdin string, f func(string), args ...string) Result {
	conf := filepath.Join(dir, ".empty.conf")
	if _, err := os.Stat(conf); err != nil {
		os.WriteFile(conf, nil, 0644)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	cmd.Env = append([]string{"GOLEDGER_CONF=" + conf, "HOME=" + dir, "PATH=/usr/bin:/bin", "TZ=" + frame.Zone, "GOTRACEBACK=single"}, env...)
	cmd.Stdin = strings.NewReader(stdin)
	var e bytes.Buffer
	w := &watched{f: f}
	cmd.Stdout, cmd.Stderr = w, &e
	err := cmd.Run()
	r := Result{Stdout: w.b.String(), Stderr: e.String(), Timeout: ctx.Err() != nil}
	if ee, ok := err.(*exec.ExitError); ok {
		r.Exit = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			r.Signal = ws.Signal().String()
		}
	} else if err != nil && !r.Timeout {
		panic("harness: running " + bin + ": " + err.Error())
	}
	return r
}

type watched struct {
	mu sync.Mutex
	b  bytes.Buffer
	f  func(string)
}

var _ io.Writer = &watched{}

func (w *watched) Write(p []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.b.Write(p)
	w.f(w.b.String())
	return len(p), nil
}
