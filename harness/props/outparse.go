package props

import (
	"encoding/csv"
	"encoding/json"
	"fmt"
	"math/big"
	"regexp"
	"strconv"
	"strings"

	"verif/harness/ref"
	"verif/harness/sut"
)

// Parsers of what goledger prints, independent of its own loader.

var headRe = regexp.MustCompile(`^(\d{4})/(\d\d)/(\d\d) (.*)$`)
var postRe = regexp.MustCompile(`^  (\S+)  (.*)$`)
var priceRe = regexp.MustCompile(`^P (\d{4})/(\d\d)/(\d\d) 00:00:00 (.*)$`)
var numRe = regexp.MustCompile(`^-?\d{1,3}(,\d{3})*(\.\d+)?$`)
var plainNumRe = regexp.MustCompile(`^-?\d+(\.\d+)?$`)

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

func dateOf(m []string) (int, error) {
	y, mo, d := atoi(m[1]), atoi(m[2]), atoi(m[3])
	if !ref.Valid(y, mo, d) {
		return 0, fmt.Errorf("invalid date %s", m[0])
	}
	return y*10000 + mo*100 + d, nil
}

// leading text that is quoted or runs up to one of stop
func token(s string, stop func(r rune) bool) (string, string, error) {
	if strings.HasPrefix(s, "\"") {
		i := strings.Index(s[1:], "\"")
		if i < 0 {
			return "", "", fmt.Errorf("unterminated quote: %s", s)
		}
		return s[1 : i+1], s[i+2:], nil
	}
	for i, r := range s {
		if stop(r) {
			return s[:i], s[i:], nil
		}
	}
	return s, "", nil
}

func splitNote(s string) (string, string) {
	// outside quotes
	q := false
	for i := 0; i < len(s); i++ {
		if s[i] == '"' && (i == 0 || q) {
			q = !q
		}
		if !q && s[i] == ';' {
			return strings.TrimRight(s[:i], " "), strings.TrimPrefix(s[i+1:], " ")
		}
	}
	return s, ""
}

func parseMoney(s string) (ccy string, amt *big.Rat, rest string, err error) {
	ccy, rest, err = token(s, func(r rune) bool {
		return r >= '0' && r <= '9' || r == '-' || r == '.' || r == ' ' || r == ';' || r == '@'
	})
	if err != nil {
		return
	}
	if ccy == "" {
		return "", nil, "", fmt.Errorf("no currency: %s", s)
	}
	rest = strings.TrimPrefix(rest, " ")
	num := rest
	rest = ""
	if i := strings.IndexByte(num, ' '); i >= 0 {
		num, rest = num[:i], num[i:]
	}
	if !numRe.MatchString(num) && !plainNumRe.MatchString(num) {
		return "", nil, "", fmt.Errorf("not a number: %q in %q", num, s)
	}
	amt, _ = new(big.Rat).SetString(strings.ReplaceAll(num, ",", ""))
	return
}

// Parse ledger output strictly
func parseLedgerOut(out string) ([]sut.Tx, []ref.Price, error) {
	var txs []sut.Tx
	var prices []ref.Price
	if out != "" && !strings.HasSuffix(out, "\n") {
		return nil, nil, fmt.Errorf("last line is incomplete")
	}
	open := false
	for _, l := range strings.Split(out, "\n") {
		if l == "" {
			open = false
			continue
		}
		if strings.HasPrefix(l, ";") {
			continue
		}
		if m := priceRe.FindStringSubmatch(l); m != nil {
			d, err := dateOf(m)
			if err != nil {
				return nil, nil, err
			}
			unit, rest, err := token(m[4], func(r rune) bool { return r == ' ' })
			if err != nil {
				return nil, nil, err
			}
			ccy, v, rest, err := parseMoney(strings.TrimPrefix(rest, " "))
			if err != nil {
				return nil, nil, err
			}
			if rest != "" {
				return nil, nil, fmt.Errorf("extra text: %q", l)
			}
			prices = append(prices, ref.Price{Date: d, Unit: unit, CCY: ccy, Val: v})
			continue
		}
		if m := headRe.FindStringSubmatch(l); m != nil {
			d, err := dateOf(m)
			if err != nil {
				return nil, nil, err
			}
			payee, note := splitNote(m[4])
			if strings.HasPrefix(payee, "\"") {
				if len(payee) < 2 || !strings.HasSuffix(payee, "\"") {
					return nil, nil, fmt.Errorf("bad payee: %q", l)
				}
				payee = payee[1 : len(payee)-1]
			}
			txs = append(txs, sut.Tx{Date: d, Payee: payee, Note: note})
			open = true
			continue
		}
		if m := postRe.FindStringSubmatch(l); m != nil && open {
			ccy, amt, rest, err := parseMoney(m[2])
			if err != nil {
				return nil, nil, err
			}
			rest = strings.TrimLeft(rest, " ")
			note := ""
			if rest != "" {
				if !strings.HasPrefix(rest, ";") {
					return nil, nil, fmt.Errorf("extra text: %q", l)
				}
				note = strings.TrimPrefix(rest[1:], " ")
			}
			t := &txs[len(txs)-1]
			t.Posts = append(t.Posts, sut.Post{Acct: m[1], CCY: ccy, Amt: amt, Note: note})
			continue
		}
		return nil, nil, fmt.Errorf("line not understood: %q", l)
	}
	return txs, prices, nil
}

type jsonPost struct {
	Account string   `json:"account"`
	CCY     string   `json:"ccy"`
	Amount  *float64 `json:"amount"`
	Note    string   `json:"note"`
}

type jsonTx struct {
	Date  string     `json:"date"`
	Payee string     `json:"payee"`
	Note  string     `json:"note"`
	Posts []jsonPost `json:"posts"`
}

func parseJSONTxs(out string) ([]jsonTx, error) {
	dec := json.NewDecoder(strings.NewReader(out))
	dec.DisallowUnknownFields()
	var txs []jsonTx
	if err := dec.Decode(&txs); err != nil {
		return nil, err
	}
	if dec.More() {
		return nil, fmt.Errorf("extra data after JSON")
	}
	if txs == nil {
		return nil, fmt.Errorf("no list: %q", out)
	}
	for _, t := range txs {
		if len(t.Date) < 10 {
			return nil, fmt.Errorf("date %q", t.Date)
		}
		for _, p := range t.Posts {
			if p.Amount == nil {
				return nil, fmt.Errorf("no amount")
			}
		}
	}
	return txs, nil
}

// RFC3339 date at midnight
func jsonDate(s string) (int, error) {
	m := regexp.MustCompile(`^(\d{4})-(\d\d)-(\d\d)T00:00:00Z$`).FindStringSubmatch(s)
	if m == nil {
		return 0, fmt.Errorf("invalid date %q", s)
	}
	return dateOf(m)
}

func parseCSV(out string) ([][]string, error) {
	r := csv.NewReader(strings.NewReader(out))
	return r.ReadAll()
}

var ansiRe = regexp.MustCompile("\033\\[[0-9;]*m")

func stripAnsi(s string) string { return ansiRe.ReplaceAllString(s, "") }
