// Package sut is the only place that touches goledger: its exported API in this
// process, and its real binary as a sub-process.
package sut

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"
	"time"

	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/cmd/accounts"
	"github.com/mescanne/goledger/cmd/app"
	"github.com/mescanne/goledger/cmd/currencies"
	"github.com/mescanne/goledger/cmd/download"
	"github.com/mescanne/goledger/cmd/export"
	"github.com/mescanne/goledger/cmd/generate"
	"github.com/mescanne/goledger/cmd/importer"
	"github.com/mescanne/goledger/cmd/register"
	"github.com/mescanne/goledger/cmd/reports"
	"github.com/mescanne/goledger/cmd/utils"
	"github.com/spf13/cobra"

	"verif/harness/frame"
	"verif/harness/ref"
)

// Book and Date of goledger
type Book = book.Book
type Date = book.Date

// App returns the application as the command line sets it up without configuration
func App(ledger string) *app.App {
	return &app.App{Ledger: ledger, Lang: "en", Divider: ":", Colour: true}
}

// Load a book in this process
func Load(ledger string) (*book.Book, error) {
	return App(ledger).LoadBook()
}

// Ops applies operations
func Ops(b *book.Book, ops ...string) error {
	return App("").BookOps(b, ops...)
}

// Exec runs a command in this process, as the command line without configuration would.
func Exec(ledger string, args ...string) (string, error) {
	return ExecMacros(ledger, nil, args...)
}

// ExecMacros is Exec with macros
func ExecMacros(ledger string, macros map[string][]string, args ...string) (string, error) {
	var out bytes.Buffer
	a := App(ledger)
	a.Output = &out
	a.Macros = macros
	cmd := commands(a)
	cmd.SetArgs(args)
	err := cmd.Execute()
	return out.String(), err
}

func commands(a *app.App) *cobra.Command {
	cmd := a.LoadCommand()
	accounts.Add(cmd, a)
	reports.Add(cmd, a, &reports.TransactionReport{})
	register.Add(cmd, a, &register.RegisterReport{})
	importer.Add(cmd, a, nil)
	generate.Add(cmd, a, nil)
	currencies.Add(cmd, a)
	export.Add(cmd, a, &export.ExportReport{})
	return cmd
}

// Result of running the binary
type Result struct {
	Stdout, Stderr string
	Exit           int // -1: killed by a signal
	Timeout        bool
	Signal         string
}

// Crashed tells if the process crashed rather than reporting an error
func (r Result) Crashed() bool {
	return r.Exit == -1 || r.Exit == 2 && (strings.Contains(r.Stderr, "panic:") || strings.Contains(r.Stderr, "fatal error:") ||
		strings.Contains(r.Stderr, "goroutine ")) || strings.Contains(r.Stderr, "\ngoroutine 1 [")
}

func (r Result) String() string {
	return fmt.Sprintf("exit %d timeout=%v signal=%s\n--- stdout\n%s\n--- stderr\n%s", r.Exit, r.Timeout, r.Signal, cut(r.Stdout), cut(r.Stderr))
}

func cut(s string) string {
	if len(s) > 3000 {
		return s[:1500] + "\n...\n" + s[len(s)-1500:]
	}
	return s
}

// CLI runs the goledger binary in dir with an empty configuration (unless env overrides it)
func CLI(bin, dir string, env []string, args ...string) Result {
	return CLIStdin(bin, dir, env, "", args...)
}

// CLIStdin is CLI with standard input
func CLIStdin(bin, dir string, env []string, stdin string, args ...string) Result {
	conf := filepath.Join(dir, ".empty.conf")
	if _, err := os.Stat(conf); err != nil {
		os.WriteFile(conf, nil, 0644)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	cmd.Env = append([]string{"GOLEDGER_CONF=" + conf, "HOME=" + dir, "PATH=/usr/bin:/bin", "TZ=" + frame.Zone, "GOTRACEBACK=single"}, env...)
	cmd.Stdin = strings.NewReader(stdin)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	r := Result{Stdout: o.String(), Stderr: e.String()}
	if ctx.Err() != nil {
		r.Timeout = true
	}
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			r.Exit = ee.ExitCode()
			if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
				r.Signal = ws.Signal().String()
			}
		} else {
			panic(fmt.Sprintf("harness: running %s: %v", bin, err))
		}
	}
	return r
}

// Post as goledger has it
type Post struct {
	Acct, CCY, Note string
	Amt, Bal        *big.Rat
}

// Tx as goledger has it
type Tx struct {
	Date        int
	Payee, Note string
	Posts       []Post
}

// Snapshot copies the transactions of a book
func Snapshot(b *book.Book) []Tx {
	var out []Tx
	for _, t := range b.Transactions() {
		if len(t) == 0 {
			panic("transaction without postings")
		}
		x := Tx{Date: int(t.GetDate()), Payee: t.GetPayee(), Note: t.GetTransactionNote()}
		for _, p := range t {
			x.Posts = append(x.Posts, Post{p.GetAccount(), p.GetCCY(), p.GetPostNote(),
				new(big.Rat).Set(p.GetAmount()), new(big.Rat).Set(p.GetBalance())})
		}
		out = append(out, x)
	}
	return out
}

// Prices of a book
func Prices(b *book.Book) []ref.Price {
	var out []ref.Price
	for _, pair := range b.GetPricePairs() {
		for _, p := range b.GetPriceList(pair.Unit, pair.CCY) {
			out = append(out, ref.Price{Date: int(p.GetDate()), Unit: pair.Unit, CCY: pair.CCY, Val: new(big.Rat).Set(p.GetPrice())})
		}
	}
	return out
}

// Dump the state of a book as text (to compare)
func Dump(b *book.Book) string {
	var sb strings.Builder
	sb.WriteString(DumpTxs(Snapshot(b)))
	for _, p := range Prices(b) {
		fmt.Fprintf(&sb, "P %d %q %q %s\n", p.Date, p.Unit, p.CCY, p.Val.RatString())
	}
	fmt.Fprintf(&sb, "%v\n", b.GetCCYDecimals())
	return sb.String()
}

// DumpTxs as text
func DumpTxs(txs []Tx) string {
	var sb strings.Builder
	for _, t := range txs {
		fmt.Fprintf(&sb, "%d %q note=%q\n", t.Date, t.Payee, t.Note)
		for _, p := range t.Posts {
			fmt.Fprintf(&sb, "   %q %q %s note=%q bal=%s\n", p.Acct, p.CCY, p.Amt.RatString(), p.Note, p.Bal.RatString())
		}
	}
	return sb.String()
}

// ToRef converts what goledger has into a reference book
func ToRef(txs []Tx, prices []ref.Price) *ref.Book {
	b := &ref.Book{Prices: prices}
	for _, t := range txs {
		x := ref.Tx{Date: t.Date, Payee: t.Payee, Notes: []string{t.Note}}
		for _, p := range t.Posts {
			x.Posts = append(x.Posts, ref.Post{Acct: p.Acct, CCY: p.CCY, Amt: p.Amt, Notes: []string{p.Note}})
		}
		b.Txs = append(b.Txs, x)
	}
	return b
}

// DumpTxs2 dumps a transaction without balances
func DumpTxs2(t Tx) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d %q note=%q\n", t.Date, t.Payee, t.Note)
	for _, p := range t.Posts {
		fmt.Fprintf(&sb, "   %q %q %s note=%q\n", p.Acct, p.CCY, p.Amt.RatString(), p.Note)
	}
	return sb.String()
}

// RegEntry of a register
type RegEntry struct {
	Date                                   int
	Payee, Acct, Counter, CCY, Note, TNote string
	Amt, Bal, BaseAmt, BaseBal             *big.Rat
}

// Register of a book
func Register(b *book.Book, base string, re *regexp.Regexp, split bool) []RegEntry {
	var out []RegEntry
	for _, e := range b.ExtractRegister(base, re, split) {
		out = append(out, RegEntry{int(e.Date), e.Payee, e.Account, e.CounterAccount, e.CCY, e.Note, e.TNote,
			new(big.Rat).Set(e.Amount), new(big.Rat).Set(e.Balance), new(big.Rat).Set(e.BaseAmount), new(big.Rat).Set(e.BaseBalance)})
	}
	return out
}

// Duplicate a book
func Duplicate(b *book.Book) *book.Book { return b.Duplicate() }

// Accounts of a book
func Accounts(b *book.Book, re string, onlyWithBalance bool) []string {
	return b.Accounts(re, onlyWithBalance)
}

// Decimals of a book
func Decimals(b *book.Book) map[string]int {
	m := map[string]int{}
	for k, v := range b.GetCCYDecimals() {
		m[k] = v
	}
	return m
}

// Accumulated summary as text
func Accumulated(b *book.Book, base, div string, credit *regexp.Regexp, hidden string) string {
	return DumpLevels(b.Accumulate(base, div, credit, hidden))
}

// DumpLevels of accumulated transactions
func DumpLevels(txs []book.Transaction) string {
	var sb strings.Builder
	for _, t := range txs {
		fmt.Fprintf(&sb, "%d %q\n", t.GetDate(), t.GetPayee())
		for _, p := range t {
			fmt.Fprintf(&sb, "  %q %q %s %d %q bal=%s\n", p.GetAccount(), p.GetCCY(), p.GetAmount().RatString(), p.GetAccountLevel(), p.GetAccountTerm(), p.GetBalance().RatString())
		}
	}
	return sb.String()
}

// Held is a result of reading a book that is kept, with a function to look at it again
type Held struct {
	What string
	Look func() string
}

// Hold reads the book and keeps what it returns
func Hold(b *book.Book, what int, base string, re *regexp.Regexp, split bool) Held {
	switch what {
	case 0:
		txs := b.Transactions()
		return Held{"Transactions", func() string { return DumpLevels(txs) }}
	case 1:
		rep := b.ExtractRegister(base, re, split)
		return Held{"ExtractRegister", func() string {
			var sb strings.Builder
			for _, e := range rep {
				fmt.Fprintf(&sb, "%d %q %q %q %q %q %q %s %s %s %s %v\n", e.Date, e.Payee, e.Account, e.CounterAccount, e.CCY, e.Note, e.TNote, e.Amount.RatString(), e.Balance.RatString(),
					e.BaseAmount.RatString(), e.BaseBalance.RatString(), e.BaseSource)
			}
			return sb.String()
		}}
	case 2:
		accts := b.Accounts(re.String(), split)
		return Held{"Accounts", func() string { return fmt.Sprintf("%q", accts) }}
	case 3:
		var lists []book.PriceList
		for _, pair := range b.GetPricePairs() {
			lists = append(lists, b.GetPriceList(pair.Unit, pair.CCY))
		}
		return Held{"prices", func() string {
			var sb strings.Builder
			for _, l := range lists {
				for _, p := range l {
					fmt.Fprintf(&sb, "%d %s ", p.GetDate(), p.GetPrice().RatString())
				}
			}
			return sb.String()
		}}
	case 4:
		var vals []*big.Rat
		for _, pair := range b.GetPricePairs() {
			for _, l := range b.GetPriceList(pair.Unit, pair.CCY) {
				v, _ := b.GetPrice(l.GetDate().AddDays(1), pair.Unit, pair.CCY)
				w, _ := b.GetPrice(l.GetDate(), pair.CCY, pair.Unit)
				vals = append(vals, v, w)
			}
		}
		return Held{"GetPrice", func() string { return fmt.Sprint(vals) }}
	default:
		acc := b.Accumulate(base, ":", re, "")
		return Held{"Accumulate", func() string { return DumpLevels(acc) }}
	}
}

// Price of a unit
func Price(b *book.Book, date int, unit, ccy string) (*big.Rat, string) {
	v, how := b.GetPrice(book.Date(date), unit, ccy)
	return new(big.Rat).Set(v), how.String()
}

// PriceIter gives prices for increasing dates (nil if there are none for the pair)
func PriceIter(b *book.Book, unit, ccy string) func(date int) (*big.Rat, string) {
	l := b.GetPriceList(unit, ccy)
	if len(l) == 0 {
		return nil
	}
	it := l.GetIterator()
	return func(date int) (*big.Rat, string) {
		v, how := it.GetPrice(book.Date(date))
		return new(big.Rat).Set(v), how.String()
	}
}

// ParseDate parses a date (0: invalid)
func ParseDate(s string) int { return int(book.DateFromString(s)) }

// IRR of dated cash flows
func IRR(dates []int, flows []float64) float64 {
	var d []book.Date
	for _, x := range dates {
		d = append(d, book.Date(x))
	}
	return book.CalculateIRR(d, flows)
}

// Pad and Length of the text tables
func Pad(s string, width int, left bool) string { return app.PadString(s, width, left) }

// Length is the visible length
func Length(s string) int { return app.Length(s) }

// DayNumber of a date
func DayNumber(d int) int { return book.Date(d).AsDays() }

// DateYears is the date in years
func DateYears(d int) float64 { return book.Date(d).AsYears() }

// DateOfDay is the inverse
func DateOfDay(n int) int { return int(book.GetDateFromDays(n)) }

// ValidDate tells whether it is a calendar date
func ValidDate(d int) bool { return book.Date(d).IsValid() }

// DateText is how a date is shown
func DateText(d int) string { return book.Date(d).String() }

// DateTime is the time of a date
func DateTime(d int) time.Time { return book.Date(d).GetTime() }

// DateLabels are year/month and quarter
func DateLabels(d int) (string, string) {
	return book.Date(d).GetYearMonth(), book.Date(d).GetYearQuarter()
}

// DateJSON of a date
func DateJSON(d int) string {
	b, err := book.Date(d).MarshalJSON()
	if err != nil {
		return err.Error()
	}
	return string(b)
}

// DaysBetween two dates
func DaysBetween(d, since int) int { return book.Date(d).DaysSince(book.Date(since)) }

// AddDays to a date
func AddDays(d, n int) int { return int(book.Date(d).AddDays(n)) }

// FloorDate with an offset
func FloorDate(d int, by string, diff int) int { return int(book.Date(d).FloorDiff(by, diff)) }

// ExecPrint is Exec that also captures what scripts print, in order, in file.
func ExecPrint(file, ledger string, args ...string) (string, error) {
	f, err := os.Create(file)
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.Remove(file)
	defer f.Close()
	old := os.Stdout
	os.Stdout = f
	defer func() { os.Stdout = old }()
	a := App(ledger)
	a.Output = f
	cmd := commands(a)
	cmd.SetArgs(args)
	cmd.SilenceUsage = true
	rerr := cmd.Execute()
	b, err := os.ReadFile(file)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return string(b), rerr
}

// Download runs a download in this process, with the state in file
func Download(kind, file string, args ...string) error {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer null.Close()
	old := os.Stdout
	os.Stdout = null
	defer func() { os.Stdout = old }()
	root := &cobra.Command{Use: "goledger", SilenceErrors: true, SilenceUsage: true}
	download.Add(root, &download.Download{
		Starling: download.StarlingDownload{PersonalAccessToken: "pat"},
		Nordigen: download.NordigenDownload{ClientID: "cid", ClientSecret: "sec"},
	})
	root.SetArgs(append([]string{"download", kind, file}, args...))
	root.SetOut(null)
	root.SetErr(null)
	return root.Execute()
}

// SaveState and LoadState are how downloads keep their state
func SaveState(file string, data interface{}) error { return utils.SaveToFile(file, data) }

// LoadState reads it
func LoadState(file string, data interface{}) error { return utils.LoadFromFile(file, data) }
