//go:build web

package sut

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http"
	"sync"
	"time"

	"github.com/mescanne/goledger/cmd/app"
	"github.com/mescanne/goledger/cmd/register"
	"github.com/mescanne/goledger/cmd/reports"
	"github.com/mescanne/goledger/cmd/web"
	"github.com/spf13/cobra"
)

// WebDefaults are settings of the server
type WebDefaults struct {
	Ledger, Lang, BaseCCY, ReportType, RegisterType string
	Macros                                          map[string][]string
}

// Web is a web application
type Web struct{ a *web.WebApp }

func NewWeb(d WebDefaults) *Web {
	return &Web{&web.WebApp{
		App:      app.App{Ledger: d.Ledger, Lang: d.Lang, Divider: ":", BaseCCY: d.BaseCCY, Macros: d.Macros},
		Report:   &reports.TransactionReport{Type: d.ReportType},
		Register: &register.RegisterReport{Type: d.RegisterType},
	}}
}

// Request serves one request
func (w *Web) Request(args []string, out io.Writer) error { return w.a.Execute(args, out) }

// RequestText serves one request as the server does
func (w *Web) RequestText(args []string) string {
	var b bytes.Buffer
	if err := w.Request(args, &b); err != nil {
		fmt.Fprintf(&b, "Error: %v\n", err)
	}
	return b.String()
}

var serverOnce sync.Once
var serverURL string

// WebServer starts the server (once in this process), and returns its address
func WebServer(d WebDefaults) string {
	serverOnce.Do(func() {
		for try := 0; try < 20; try++ {
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				panic("harness: " + err.Error())
			}
			port := l.Addr().(*net.TCPAddr).Port
			l.Close()
			root := &cobra.Command{Use: "goledger", SilenceErrors: true, SilenceUsage: true}
			web.Add(root, &web.WebConfig{}, NewWeb(d).a)
			root.SetArgs([]string{"web", "--host", "127.0.0.1", "--port", fmt.Sprint(port)})
			failed := make(chan error, 1)
			go func() { failed <- root.Execute() }()
			for i := 0; i < 300; i++ {
				select {
				case err := <-failed:
					panic(fmt.Sprintf("harness: web server: %v", err))
				default:
				}
				if c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port)); err == nil {
					c.Close()
					serverURL = fmt.Sprintf("http://127.0.0.1:%d", port)
					return
				}
				time.Sleep(10 * time.Millisecond)
			}
			panic("harness: web server does not start")
		}
	})
	return serverURL
}

// Get fetches from the server
func Get(url string) (int, string, error) {
	res, err := http.Get(url)
	if err != nil {
		return 0, "", err
	}
	defer res.Body.Close()
	b, err := io.ReadAll(res.Body)
	return res.StatusCode, string(b), err
}
