package sut

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"syscall"
	"time"
	"unsafe"

	"verif/harness/frame"
)

// openPty returns both ends of a new terminal of the size, without any output processing
func openPty(cols, rows int) (master, slave *os.File, err error) {
	master, err = os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, err
	}
	ioctl := func(f *os.File, req uintptr, arg unsafe.Pointer) error {
		c, err := f.SyscallConn()
		if err != nil {
			return err
		}
		var e syscall.Errno
		if err := c.Control(func(fd uintptr) { _, _, e = syscall.Syscall(syscall.SYS_IOCTL, fd, req, uintptr(arg)) }); err != nil {
			return err
		}
		if e != 0 {
			return e
		}
		return nil
	}
	var n uint32
	var zero int32
	if err = ioctl(master, syscall.TIOCGPTN, unsafe.Pointer(&n)); err == nil {
		err = ioctl(master, syscall.TIOCSPTLCK, unsafe.Pointer(&zero))
	}
	if err == nil {
		slave, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	}
	if err != nil {
		master.Close()
		return nil, nil, err
	}
	size := [4]uint16{uint16(rows), uint16(cols), 0, 0}
	var t syscall.Termios
	if err = ioctl(slave, syscall.TIOCSWINSZ, unsafe.Pointer(&size)); err == nil {
		if err = ioctl(slave, syscall.TCGETS, unsafe.Pointer(&t)); err == nil {
			t.Oflag &^= syscall.OPOST
			t.Lflag &^= syscall.ECHO
			err = ioctl(slave, syscall.TCSETS, unsafe.Pointer(&t))
		}
	}
	if err != nil {
		master.Close()
		slave.Close()
		return nil, nil, err
	}
	return master, slave, nil
}

// CLITerminal is CLI with a terminal of that size as standard output. If pager is not
// empty there is a pager, which writes all it is given to that file.
func CLITerminal(bin, dir, pager string, cols, rows int, args ...string) (Result, error) {
	master, slave, err := openPty(cols, rows)
	if err != nil {
		return Result{}, err
	}
	defer master.Close()
	conf := filepath.Join(dir, ".empty.conf")
	if err := os.WriteFile(conf, nil, 0644); err != nil {
		slave.Close()
		return Result{}, err
	}
	path := filepath.Join(dir, "bin")
	os.MkdirAll(path, 0755)
	if pager != "" {
		os.WriteFile(filepath.Join(path, "less"), []byte("#!/bin/sh\n/usr/bin/cat > '"+pager+"'\n"), 0755)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	cmd.Env = []string{"GOLEDGER_CONF=" + conf, "HOME=" + dir, "PATH=" + path, "TZ=" + frame.Zone, "GOTRACEBACK=single"}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = slave, &e
	done := make(chan bool)
	go func() { // until the other end is closed (EIO)
		buf := make([]byte, 65536)
		for {
			n, err := master.Read(buf)
			o.Write(buf[:n])
			if err != nil {
				break
			}
		}
		close(done)
	}()
	err = cmd.Run()
	slave.Close()
	<-done
	r := Result{Stdout: o.String(), Stderr: e.String(), Timeout: ctx.Err() != nil}
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			return r, err
		}
		r.Exit = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			r.Signal = ws.Signal().String()
		}
	}
	return r, nil
}
