package props

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/harness/bubble"
	"verif/harness/frame"
	"verif/harness/gen"
	"verif/harness/sut"
)

func init() {
	frame.Register(&frame.Check{
		ID: "C33", Quick: 1600, Thorough: 40000,
		Rule: "one evaluation: a stand-in bank (Monzo, Starling or Nordigen) with random accounts, spaces and transactions, and a history of 3 to 6 downloads from it while it grows and changes, some with a fault at a random request (status, refused connection, cut or malformed answer), either in this process with a clock of its own and a stand-in transport or with the real binary through a TLS proxy; " +
			"after each download the state file must hold exactly what it held before plus the newest of everything served, all of what the bank has must be there, and after a fault it must be unchanged; non-trivial: at least one transaction downloaded, distinct by bank and faults",
		Assumptions: []string{"the stand-in banks follow the public descriptions of the three APIs as the code uses them"},
		Run:         downloadCheck, Chunk: 200,
		MinCounts: map[string]int{"downloads": 1500, "downloads of monzo": 300, "downloads of starling": 300, "downloads of nordigen": 300, "faults": 1000, "requests": 20000, "further pages": 200,
			"transactions stored": 20000, "changed transactions": 500, "repeated downloads": 500, "downloads by the binary": 30, "renewed logins": 50, "restricted history": 20, "downloads without progress": 40},
	})
}

// a stand-in bank
type standin interface {
	// answer a request
	serve(now time.Time, method string, u *url.URL, form url.Values, token string) (int, interface{})
	// things happen at the bank
	evolve(now time.Time)
	// what must be stored after a download (at least)
	all(now time.Time) map[string]string
	// parts of the state: path to value
	flatten(state interface{}) map[string]string
	// the initial state, if there has to be one
	initial(now time.Time) interface{}
	// spoil an answer, so that it's not acceptable
	spoil(path string, answer interface{}) (interface{}, bool)
}

type bankBase struct {
	c       *frame.Case
	r       *rand.Rand
	pending map[string]string // served in this download
	seq     int
	live    bool // number the answers
	next    int
}

func (b *bankBase) id(prefix string) string {
	b.next++
	return fmt.Sprintf("%s%s%d", prefix, gen.Pick(b.r, []string{"_", "-", "x"}), b.next*7919%100003)
}

func (b *bankBase) put(path string, v interface{}) { b.pending[path] = canonJSON(v) }

func canonJSON(v interface{}) string {
	t, err := json.Marshal(v)
	if err != nil {
		frame.Broken("%v", err)
	}
	var x interface{}
	if err := decodeExact(t, &x); err != nil {
		frame.Broken("%v", err)
	}
	t, _ = json.Marshal(exactNumbers(x))
	return string(t)
}

func decodeExact(b []byte, v interface{}) error {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if err := d.Decode(v); err != nil {
		return err
	}
	if _, err := d.Token(); err != io.EOF {
		return errors.New("more than one JSON value")
	}
	return nil
}

// numbers as what they are, however they are written
func exactNumbers(v interface{}) interface{} {
	switch v := v.(type) {
	case json.Number:
		q, ok := new(big.Rat).SetString(string(v))
		if !ok {
			frame.Broken("number %s", v)
		}
		return "number " + q.RatString()
	case []interface{}:
		l := []interface{}{}
		for _, x := range v {
			l = append(l, exactNumbers(x))
		}
		return l
	case map[string]interface{}:
		m := map[string]interface{}{}
		for k, x := range v {
			m[k] = exactNumbers(x)
		}
		return m
	}
	return v
}

func randJSON(r *rand.Rand, depth int) interface{} {
	switch k := r.Intn(9); {
	case k < 2:
		return gen.Pick(r, []string{"", "a b", "é<>&\"\\\n", "2020-01-01T00:00:00Z", "日本", "null", "  ", "\u2028x"})
	case k == 2:
		return gen.Pick(r, []json.Number{"12345678901234567890", "9007199254740993", "-9007199254740993", "0.12345678901234567890123", "1E400", "-2.5e-400", "100.00", "-0", "-0.0", "1e2", "123456789012345678.01"})
	case k < 4:
		return gen.Pick(r, []float64{0, -1, 1234, 0.1, -99.99, 1e15, 123456.789, 1e-7})
	case k == 4:
		return gen.Pick(r, []interface{}{true, false, nil})
	case k < 7 && depth > 0:
		m := map[string]interface{}{}
		for i := r.Intn(4); i > 0; i-- {
			m[gen.Pick(r, []string{"amount", "merchant", "id", "Data", "ID", "notes", "é", ""})] = randJSON(r, depth-1)
		}
		return m
	case depth > 0:
		l := []interface{}{}
		for i := r.Intn(4); i > 0; i-- {
			l = append(l, randJSON(r, depth-1))
		}
		return l
	}
	return "x"
}

func randObj(r *rand.Rand) map[string]interface{} {
	m := map[string]interface{}{}
	for i := r.Intn(5); i > 0; i-- {
		m[gen.Pick(r, []string{"amount", "currency", "merchant", "description", "settled", "metadata", "counterparty", "é"})] = randJSON(r, 2)
	}
	return m
}

func copyObj(m map[string]interface{}) map[string]interface{} {
	n := map[string]interface{}{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

func obj(v interface{}) map[string]interface{} {
	m, _ := v.(map[string]interface{})
	return m
}

func spoilList(r *rand.Rand, list []interface{}, keys ...string) ([]interface{}, bool) {
	if len(list) == 0 {
		return nil, false
	}
	list = append([]interface{}(nil), list...)
	i := r.Intn(len(list))
	switch r.Intn(4) {
	case 0:
		list[i] = nil
	case 1:
		list[i] = "text"
	case 2:
		m := copyObj(obj(list[i]))
		delete(m, gen.Pick(r, keys))
		list[i] = m
	default:
		m := copyObj(obj(list[i]))
		m[gen.Pick(r, keys)] = gen.Pick(r, []interface{}{nil, 5, []string{"a"}, map[string]int{}})
		list[i] = m
	}
	return list, true
}

// --- Monzo

type monzoTx struct {
	account string
	created time.Time
	data    map[string]interface{}
}

type monzo struct {
	bankBase
	accounts          []map[string]interface{}
	txs               []*monzoTx // in order of creation
	access, refresh   string
	expiry            time.Time
	restricted        bool // only 90 days of history
	skip              time.Duration
	inclusive, millis bool
	order             int    // how a page is sorted
	frozen            bool   // doesn't take notice of since
	burst             string // an account with very many transactions at once, for a while
	renewed           int
}

func newMonzo(base bankBase, now time.Time) *monzo {
	b := &monzo{bankBase: base}
	r := b.r
	b.skip = time.Duration(r.Intn(60)) * time.Second
	b.inclusive, b.millis = r.Intn(2) == 0, r.Intn(2) == 0
	b.order = r.Intn(5)
	b.access, b.refresh, b.expiry = "access0", "refresh0", now.Add(time.Duration(r.Intn(72)+1)*time.Hour)
	for i := 1 + r.Intn(3); i > 0; i-- {
		b.addAccount()
	}
	for _, a := range b.accounts {
		n := gen.Pick(r, []int{0, 1, 5, 20, 99, 100, 101, 150, 200, 230, 401})
		at := now.Add(-time.Duration(1+r.Intn(400)) * 24 * time.Hour)
		step := now.Sub(at) / time.Duration(n+1)
		for j := 0; j < n; j++ {
			// at times several within a minute
			if j%40 == 0 || r.Intn(3) == 0 {
				at = at.Add(step/2 + 63*time.Second)
			} else {
				at = at.Add(time.Duration(r.Intn(3000)) * time.Millisecond / 2)
			}
			if at.After(now) {
				break
			}
			b.addTx(a["id"].(string), at)
		}
	}
	b.sort()
	return b
}

func (b *monzo) addAccount() {
	a := randObj(b.r)
	a["id"] = b.id("acc")
	a["created"] = "2015-01-01T00:00:00Z"
	b.accounts = append(b.accounts, a)
}

func (b *monzo) addTx(acct string, at time.Time) {
	t := randObj(b.r)
	t["id"] = b.id("tx")
	f := "2006-01-02T15:04:05.999Z07:00"
	if b.millis {
		f = "2006-01-02T15:04:05.000Z07:00"
	}
	at = at.Truncate(time.Millisecond)
	t["created"] = at.UTC().Format(f)
	t["account_id"] = acct
	b.txs = append(b.txs, &monzoTx{acct, at, t})
}

func (b *monzo) sort() {
	sort.SliceStable(b.txs, func(i, j int) bool { return b.txs[i].created.Before(b.txs[j].created) })
}

func (b *monzo) evolve(now time.Time) {
	r := b.r
	if r.Intn(4) == 0 {
		b.addAccount()
	}
	if r.Intn(3) == 0 {
		gen.Pick(r, b.accounts)["description"] = fmt.Sprint("new ", r.Intn(1000))
	}
	for i := r.Intn(12); i > 0; i-- {
		b.addTx(gen.Pick(r, b.accounts)["id"].(string), now.Add(-time.Duration(r.Intn(60*24))*time.Minute))
	}
	for i := r.Intn(6); i > 0 && len(b.txs) > 0; i-- {
		t := gen.Pick(r, b.txs)
		t.data = copyObj(t.data)
		t.data["settled"] = fmt.Sprint(now.Format(time.RFC3339), r.Intn(1000))
		b.c.Count("changed transactions", 1)
	}
	b.restricted = r.Intn(4) == 0
	b.frozen = r.Intn(16) == 0
	if b.burst != "" {
		var l []*monzoTx
		for _, t := range b.txs {
			if _, ok := t.data["burst"]; !ok {
				l = append(l, t)
			}
		}
		b.txs, b.burst = l, ""
	} else if r.Intn(16) == 0 {
		b.burst = gen.Pick(r, b.accounts)["id"].(string)
		at := now.Add(-time.Duration(1+r.Intn(200)) * time.Minute)
		for i := 250 + r.Intn(100); i > 0; i-- {
			b.addTx(b.burst, at)
			b.txs[len(b.txs)-1].data["burst"] = true
		}
	}
	b.sort()
}

// a download cannot get all there is
func (b *monzo) stuck() bool {
	if b.burst != "" {
		return true
	}
	n := map[string]int{}
	for _, t := range b.txs {
		n[t.account]++
		if b.frozen && n[t.account] >= 100 {
			return true
		}
	}
	return false
}

func (b *monzo) serve(now time.Time, method string, u *url.URL, form url.Values, token string) (int, interface{}) {
	if u.Host != "api.monzo.com" {
		return 404, nil
	}
	if u.Path == "/oauth2/token" {
		if method != "POST" || form.Get("grant_type") != "refresh_token" || form.Get("refresh_token") != b.refresh {
			return 400, map[string]interface{}{"error": "invalid_grant"}
		}
		b.renewed++
		b.access, b.refresh = fmt.Sprint("access", b.renewed), fmt.Sprint("refresh", b.renewed)
		secs := 3600 + b.r.Intn(100000)
		b.expiry = now.Add(time.Duration(secs) * time.Second)
		b.c.Count("renewed logins", 1)
		return 200, map[string]interface{}{"access_token": b.access, "token_type": "Bearer", "refresh_token": b.refresh, "expires_in": secs, "client_id": "me"}
	}
	if method != "GET" {
		return 405, nil
	}
	if token != b.access || now.After(b.expiry) {
		return 401, map[string]interface{}{"code": "unauthorized.bad_access_token"}
	}
	switch u.Path {
	case "/ping/whoami":
		return 200, map[string]interface{}{"authenticated": true, "client_id": "me", "user_id": "u"}
	case "/accounts":
		l := []interface{}{}
		for _, a := range b.accounts {
			l = append(l, a)
			b.put("accounts/"+a["id"].(string), a)
		}
		return 200, map[string]interface{}{"accounts": l}
	case "/transactions":
		q := u.Query()
		limit := 0
		fmt.Sscan(q.Get("limit"), &limit)
		if limit <= 0 || limit > 100 {
			return 400, "limit"
		}
		var since time.Time
		if s := q.Get("since"); s != "" {
			var err error
			if since, err = time.Parse(time.RFC3339, s); err != nil {
				return 400, err.Error()
			}
			since = since.Add(b.skip)
			b.c.Count("further pages", 1)
		}
		if b.restricted && since.Before(now.Add(-90*24*time.Hour)) {
			b.c.Count("restricted history", 1)
			return 403, map[string]interface{}{"code": "forbidden.verification_required"}
		}
		if b.frozen {
			since = time.Time{}
		}
		l := []interface{}{}
		for _, t := range b.txs {
			if t.account != q.Get("account_id") || t.created.Before(since) || (!b.inclusive && t.created.Equal(since)) {
				continue
			}
			if len(l) == limit {
				break
			}
			d := t.data
			if b.live {
				b.seq++
				d = copyObj(d)
				d["seq"] = b.seq
			}
			if m, ok := d["merchant"].(map[string]interface{}); ok && q.Get("expand[]") != "merchant" { // only its id
				d = copyObj(d)
				d["merchant"] = fmt.Sprint("merch_", len(m))
			}
			l = append(l, d)
			b.put("transactions/"+d["id"].(string), d)
		}
		switch b.order { // the documentation promises no order within a page
		case 1:
			for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
				l[i], l[j] = l[j], l[i]
			}
		case 2:
			b.r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		}
		return 200, map[string]interface{}{"transactions": l}
	}
	return 404, nil
}

func (b *monzo) all(now time.Time) map[string]string {
	m := map[string]string{}
	for _, t := range b.txs {
		if !b.restricted || t.created.After(now.Add(-89*24*time.Hour+2*time.Minute)) {
			m["transactions/"+t.data["id"].(string)] = canonJSON(t.data)
		}
	}
	for _, a := range b.accounts {
		m["accounts/"+a["id"].(string)] = canonJSON(a)
	}
	return m
}

func (b *monzo) flatten(state interface{}) map[string]string {
	m := map[string]string{}
	for _, k := range []string{"accounts", "transactions"} {
		for id, v := range obj(obj(state)[k]) {
			m[k+"/"+id] = canonJSON(v)
		}
	}
	return m
}

func (b *monzo) initial(now time.Time) interface{} {
	return map[string]interface{}{"token": map[string]interface{}{"access_token": b.access, "token_type": "Bearer", "refresh_token": b.refresh, "expiry": b.expiry.Format(time.RFC3339Nano)}}
}

func (b *monzo) spoil(path string, answer interface{}) (interface{}, bool) {
	m := copyObj(obj(answer))
	var ok bool
	switch path {
	case "/ping/whoami":
		m["authenticated"] = gen.Pick(b.r, []interface{}{false, "true", 1})
		return m, true
	case "/accounts":
		m["accounts"], ok = spoilList(b.r, m["accounts"].([]interface{}), "id")
	case "/transactions":
		m["transactions"], ok = spoilList(b.r, m["transactions"].([]interface{}), "id", "created")
		if ok && b.r.Intn(3) == 0 {
			l := obj(answer)["transactions"].([]interface{})
			l = append([]interface{}(nil), l...)
			d := copyObj(obj(l[0]))
			d["created"] = gen.Pick(b.r, []string{"", "yesterday", "2020-01-01", "2020-13-01T00:00:00Z"})
			l[0] = d
			m["transactions"] = l
		}
	}
	return m, ok
}

// --- Starling

type feedItem struct {
	account, category string
	updated           time.Time
	data              map[string]interface{}
}

type starling struct {
	bankBase
	accounts []map[string]interface{}
	idents   map[string]interface{}
	spaces   map[string][2][]interface{}
	payees   []interface{}
	items    []*feedItem
	last     time.Time // of the last successful download
	allData  bool      // always asked for all of it
	gone     map[string]time.Time
}

func starTime(r *rand.Rand, t time.Time) string {
	return t.UTC().Format(gen.Pick(r, []string{"2006-01-02T15:04:05.000Z", "2006-01-02T15:04:05.999Z", "2006-01-02T15:04:05.000Z"}))
}

func newStarling(base bankBase, now time.Time) *starling {
	b := &starling{bankBase: base, idents: map[string]interface{}{}, spaces: map[string][2][]interface{}{}, allData: base.r.Intn(3) == 0, gone: map[string]time.Time{}}
	for i := 1 + b.r.Intn(3); i > 0; i-- {
		b.addAccount(now.Add(-400 * 24 * time.Hour))
	}
	for i := b.r.Intn(60); i > 0; i-- {
		b.addItem(now.Add(-time.Duration(b.r.Intn(399*24)) * time.Hour))
	}
	return b
}

func (b *starling) addAccount(at time.Time) {
	r := b.r
	a := randObj(r)
	id := b.id("acct")
	a["accountUid"] = id
	a["defaultCategory"] = b.id("cat")
	a["createdAt"] = starTime(r, at)
	b.accounts = append(b.accounts, a)
	b.idents[id] = randJSON(r, 2)
	b.spaces[id] = [2][]interface{}{{}, {}}
	for i := r.Intn(3); i > 0; i-- {
		b.addSpace(id)
	}
}

func (b *starling) addSpace(acct string) {
	s := b.spaces[acct]
	m := randObj(b.r)
	m["name"] = gen.Pick(b.r, []string{"Holiday", "é", ""})
	k := b.r.Intn(2)
	m[[]string{"savingsGoalUid", "spaceUid"}[k]] = b.id("space")
	s[k] = append(append([]interface{}(nil), s[k]...), m)
	b.spaces[acct] = s
}

func (b *starling) categories(acct map[string]interface{}) []string {
	l := []string{acct["defaultCategory"].(string)}
	s := b.spaces[acct["accountUid"].(string)]
	for k, key := range []string{"savingsGoalUid", "spaceUid"} {
		for _, x := range s[k] {
			l = append(l, obj(x)[key].(string))
		}
	}
	return l
}

func (b *starling) addItem(at time.Time) {
	a := gen.Pick(b.r, b.accounts)
	d := randObj(b.r)
	d["feedItemUid"] = b.id("item")
	d["transactionTime"] = starTime(b.r, at.Add(-time.Hour))
	at = at.Truncate(time.Millisecond)
	if c, _ := time.Parse(time.RFC3339, a["createdAt"].(string)); at.Before(c) {
		at = c
	}
	d["updatedAt"] = starTime(b.r, at)
	b.items = append(b.items, &feedItem{a["accountUid"].(string), gen.Pick(b.r, b.categories(a)), at, d})
}

func (b *starling) evolve(now time.Time) {
	r := b.r
	if r.Intn(4) == 0 {
		b.addAccount(now.Add(-100 * time.Hour))
	}
	if r.Intn(3) == 0 {
		b.addSpace(gen.Pick(r, b.accounts)["accountUid"].(string))
	}
	if r.Intn(3) == 0 { // a space is closed
		id := gen.Pick(r, b.accounts)["accountUid"].(string)
		s := b.spaces[id]
		k := r.Intn(2)
		if len(s[k]) > 0 {
			s[k] = append([]interface{}(nil), s[k][1:]...)
			b.spaces[id] = s
		}
	}
	if r.Intn(3) == 0 {
		b.idents[gen.Pick(r, b.accounts)["accountUid"].(string)] = randJSON(r, 2)
		b.payees = append(b.payees, randJSON(r, 2))
	}
	for i := r.Intn(12); i > 0; i-- {
		at := now
		if !b.last.IsZero() { // some appear late, up to 19 days before the newest one known
			at = b.last.Add(time.Duration(r.Intn(int(now.Sub(b.last)/time.Second)+1)) * time.Second)
		}
		b.addItem(at)
	}
	for i := r.Intn(6); i > 0 && len(b.items) > 0; i-- {
		t := gen.Pick(r, b.items)
		t.data = copyObj(t.data)
		t.data["status"] = fmt.Sprint("changed ", r.Intn(1000))
		t.updated = now.Truncate(time.Millisecond)
		t.data["updatedAt"] = starTime(r, t.updated)
		b.c.Count("changed transactions", 1)
	}
	if r.Intn(3) == 0 { // the bank no longer has some old ones
		var l []*feedItem
		limit := now.Add(-time.Duration(r.Intn(60*24)) * time.Hour)
		for _, t := range b.items {
			if t.updated.After(limit) || r.Intn(4) == 0 {
				l = append(l, t)
			} else {
				b.c.Count("transactions the bank forgets", 1)
				if t.updated.After(b.gone[t.category]) {
					b.gone[t.category] = t.updated
				}
			}
		}
		b.items = l
	}
	// late arrivals
	newest := map[string]time.Time{}
	for k, v := range b.gone {
		newest[k] = v
	}
	for _, t := range b.items {
		if t.updated.After(newest[t.category]) {
			newest[t.category] = t.updated
		}
	}
	for i := r.Intn(3); i > 0; i-- {
		b.addItem(now)
		t := b.items[len(b.items)-1]
		if n := newest[t.category]; !n.IsZero() {
			days := 20
			if b.allData {
				days = 600
			}
			t.updated = n.Add(-time.Duration(r.Intn(days*24*3600-10)) * time.Second).Truncate(time.Millisecond)
			for _, a := range b.accounts {
				if a["accountUid"] == t.account {
					c, _ := time.Parse(time.RFC3339, a["createdAt"].(string))
					if t.updated.Before(c) {
						t.updated = c
					}
				}
			}
			t.data["updatedAt"] = starTime(r, t.updated)
		}
	}
}

func (b *starling) serve(now time.Time, method string, u *url.URL, form url.Values, token string) (int, interface{}) {
	if u.Host != "api.starlingbank.com" || method != "GET" {
		return 404, nil
	}
	if token != "pat" {
		return 403, map[string]interface{}{"error": "invalid_token"}
	}
	if u.Path == "/api/v2/accounts" {
		l := []interface{}{}
		for _, a := range b.accounts {
			l = append(l, a)
			b.put("accounts/"+a["accountUid"].(string)+"/account", a)
		}
		return 200, map[string]interface{}{"accounts": l}
	}
	if u.Path == "/api/v2/payees" {
		if b.payees == nil {
			b.payees = []interface{}{}
		}
		b.put("Payees", b.payees)
		return 200, map[string]interface{}{"payees": b.payees}
	}
	for _, a := range b.accounts {
		id := a["accountUid"].(string)
		switch u.Path {
		case "/api/v2/accounts/" + id + "/identifiers":
			b.put("accounts/"+id+"/identifiers", b.idents[id])
			return 200, b.idents[id]
		case "/api/v2/account/" + id + "/spaces":
			m := map[string]interface{}{"savingsGoals": b.spaces[id][0], "spendingSpaces": b.spaces[id][1]}
			b.put("accounts/"+id+"/spaces", m)
			return 200, m
		}
		for _, cat := range b.categories(a) {
			if u.Path != "/api/v2/feed/account/"+id+"/category/"+cat {
				continue
			}
			since, err := time.Parse(time.RFC3339, u.Query().Get("changesSince"))
			if err != nil {
				return 400, err.Error()
			}
			l := []interface{}{}
			for _, t := range b.items {
				if t.category == cat && !t.updated.Before(since) {
					l = append(l, t.data)
					b.put("accounts/"+id+"/feeditems/"+cat+"/"+t.data["feedItemUid"].(string), t.data)
				}
			}
			b.r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
			return 200, map[string]interface{}{"feedItems": l}
		}
	}
	return 404, nil
}

func (b *starling) all(now time.Time) map[string]string {
	m := map[string]string{}
	open := map[string]bool{}
	for _, a := range b.accounts {
		id := a["accountUid"].(string)
		m["accounts/"+id+"/account"] = canonJSON(a)
		m["accounts/"+id+"/identifiers"] = canonJSON(b.idents[id])
		m["accounts/"+id+"/spaces"] = canonJSON(map[string]interface{}{"savingsGoals": b.spaces[id][0], "spendingSpaces": b.spaces[id][1]})
		for _, c := range b.categories(a) {
			open[c] = true
		}
	}
	m["Payees"] = canonJSON(b.payees)
	for _, t := range b.items {
		if open[t.category] {
			m["accounts/"+t.account+"/feeditems/"+t.category+"/"+t.data["feedItemUid"].(string)] = canonJSON(t.data)
		}
	}
	return m
}

func (b *starling) flatten(state interface{}) map[string]string {
	m := map[string]string{}
	for id, a := range obj(obj(state)["accounts"]) {
		for _, k := range []string{"account", "identifiers", "spaces"} {
			m["accounts/"+id+"/"+k] = canonJSON(obj(a)[k])
		}
		for cat, f := range obj(obj(a)["feeditems"]) {
			for item, v := range obj(f) {
				m["accounts/"+id+"/feeditems/"+cat+"/"+item] = canonJSON(v)
			}
		}
	}
	if p, ok := obj(state)["Payees"]; ok {
		m["Payees"] = canonJSON(p)
	}
	return m
}

func (b *starling) initial(now time.Time) interface{} { return nil }

func (b *starling) spoil(path string, answer interface{}) (interface{}, bool) {
	m := copyObj(obj(answer))
	var ok bool
	switch {
	case path == "/api/v2/accounts":
		m["accounts"], ok = spoilList(b.r, m["accounts"].([]interface{}), "accountUid", "defaultCategory", "createdAt")
	case strings.HasSuffix(path, "/spaces"):
		m["savingsGoals"], ok = spoilList(b.r, m["savingsGoals"].([]interface{}), "savingsGoalUid", "name")
		if !ok {
			m["savingsGoals"] = []interface{}{}
			m["spendingSpaces"], ok = spoilList(b.r, m["spendingSpaces"].([]interface{}), "spaceUid", "name")
		}
	case strings.Contains(path, "/feed/"):
		m["feedItems"], ok = spoilList(b.r, m["feedItems"].([]interface{}), "feedItemUid", "transactionTime", "updatedAt")
	case path == "/api/v2/payees":
		m["payees"], ok = gen.Pick(b.r, []interface{}{"x", 5, map[string]int{"a": 1}}), true
	}
	return m, ok
}

// --- Nordigen

type nordigen struct {
	bankBase
	req      map[string]interface{}
	inst     map[string]interface{}
	accounts []string
	basic    map[string]interface{}
	details  map[string]interface{}
	booked   map[string][]interface{}
	pendings map[string][]interface{}
	tokens   map[string]time.Time
	refresh  string
	ntok     int
	first    interface{}
}

func newNordigen(base bankBase, now time.Time) *nordigen {
	b := &nordigen{bankBase: base, basic: map[string]interface{}{}, details: map[string]interface{}{}, booked: map[string][]interface{}{}, pendings: map[string][]interface{}{}, tokens: map[string]time.Time{}}
	r := b.r
	b.inst = randObj(r)
	b.inst["id"], b.inst["name"] = "BANK_1", "The Bank"
	b.req = randObj(r)
	b.req["id"], b.req["link"], b.req["accounts"] = b.id("req"), "https://ob.nordigen.com/x", []interface{}{}
	tok := map[string]interface{}{"Access": "a0", "AccessExpires": now.Add(time.Duration(r.Intn(48)) * time.Hour).Format(time.RFC3339Nano), "Refresh": "r0", "RefreshExpires": now.Add(time.Duration(r.Intn(96)) * time.Hour).Format(time.RFC3339Nano)}
	b.tokens["a0"], b.refresh = now.Add(1000*24*time.Hour), "r0"
	st := map[string]interface{}{"Institution": b.inst, "Requisition": b.req}
	if r.Intn(2) == 0 {
		st["Token"] = tok
	}
	b.first = st
	for i := 1 + r.Intn(3); i > 0; i-- {
		b.addAccount()
	}
	for i := r.Intn(60); i > 0; i-- {
		b.addTx()
	}
	return b
}

func (b *nordigen) addAccount() {
	id := b.id("na")
	b.accounts = append(b.accounts, id)
	b.basic[id], b.details[id] = randJSON(b.r, 2), randJSON(b.r, 2)
	l := []interface{}{}
	for _, a := range b.accounts {
		l = append(l, a)
	}
	b.req = copyObj(b.req)
	b.req["accounts"] = l
}

func (b *nordigen) addTx() {
	a := gen.Pick(b.r, b.accounts)
	d := randObj(b.r)
	if b.r.Intn(3) == 0 { // not booked yet: often without a number
		if b.r.Intn(2) == 0 {
			d["transactionId"] = b.id("p")
		}
		b.pendings[a] = append(b.pendings[a], d)
		return
	}
	d["transactionId"] = b.id("nt")
	b.booked[a] = append([]interface{}{d}, b.booked[a]...)
}

func (b *nordigen) evolve(now time.Time) {
	r := b.r
	if r.Intn(4) == 0 {
		b.addAccount()
	}
	if r.Intn(3) == 0 {
		id := gen.Pick(r, b.accounts)
		b.basic[id], b.details[id] = randJSON(r, 2), randJSON(r, 2)
		b.pendings[id] = nil
		b.req = copyObj(b.req)
		b.req["status"] = fmt.Sprint("LN", r.Intn(100))
	}
	for i := r.Intn(12); i > 0; i-- {
		b.addTx()
	}
	for i := r.Intn(6); i > 0; i-- {
		a := gen.Pick(r, b.accounts)
		if l := b.booked[a]; len(l) > 0 {
			l = append([]interface{}(nil), l...)
			k := r.Intn(len(l))
			d := copyObj(obj(l[k]))
			d["info"] = fmt.Sprint("changed ", r.Intn(1000))
			l[k] = d
			b.booked[a] = l
			b.c.Count("changed transactions", 1)
		}
	}
	if r.Intn(3) == 0 { // old ones are no longer given
		a := gen.Pick(r, b.accounts)
		if l := b.booked[a]; len(l) > 0 {
			b.booked[a] = l[:r.Intn(len(l))]
		}
	}
}

func (b *nordigen) serve(now time.Time, method string, u *url.URL, form url.Values, token string) (int, interface{}) {
	if u.Host != "ob.nordigen.com" {
		return 404, nil
	}
	newToken := func() (string, int) {
		b.ntok++
		a, secs := fmt.Sprint("a", b.ntok), 3600+b.r.Intn(90000)
		b.tokens[a] = now.Add(time.Duration(secs) * time.Second)
		b.c.Count("renewed logins", 1)
		return a, secs
	}
	switch u.Path {
	case "/api/v2/token/new/":
		if method != "POST" || form.Get("secret_id") != "cid" || form.Get("secret_key") != "sec" {
			return 401, nil
		}
		a, secs := newToken()
		b.refresh = fmt.Sprint("r", b.ntok)
		return 200, map[string]interface{}{"access": a, "access_expires": secs, "refresh": b.refresh, "refresh_expires": secs * 3}
	case "/api/v2/token/refresh/":
		if method != "POST" || !strings.HasPrefix(form.Get("refresh"), "r") {
			return 401, nil
		}
		b.refresh += "x"
		return 201, map[string]interface{}{"refresh": b.refresh, "refresh_expires": 100000}
	}
	if e, ok := b.tokens[token]; !ok || now.After(e) {
		return 401, map[string]interface{}{"detail": "Token is invalid or expired", "status_code": 401}
	}
	if method != "GET" {
		return 405, nil
	}
	if u.Path == "/api/v2/requisitions/"+b.req["id"].(string)+"/" {
		b.put("Requisition", b.req)
		return 200, b.req
	}
	for _, a := range b.accounts {
		p := "/api/v2/accounts/" + a + "/"
		switch u.Path {
		case p:
			b.put("Accounts/"+a+"/Basic", b.basic[a])
			return 200, b.basic[a]
		case p + "details":
			b.put("Accounts/"+a+"/Details", b.details[a])
			return 200, b.details[a]
		case p + "transactions":
			l := []interface{}{}
			for _, t := range b.booked[a] {
				if b.live {
					b.seq++
					d := copyObj(obj(t))
					d["seq"] = b.seq
					t = d
				}
				l = append(l, t)
				b.put("Accounts/"+a+"/Transactions/"+obj(t)["transactionId"].(string), t)
			}
			m := map[string]interface{}{"booked": l}
			if len(b.pendings[a]) > 0 {
				m["pending"] = b.pendings[a]
			}
			return 200, map[string]interface{}{"transactions": m}
		}
	}
	return 404, nil
}

func (b *nordigen) all(now time.Time) map[string]string {
	m := map[string]string{"Requisition": canonJSON(b.req), "Institution": canonJSON(b.inst)}
	for _, a := range b.accounts {
		m["Accounts/"+a+"/Basic"], m["Accounts/"+a+"/Details"] = canonJSON(b.basic[a]), canonJSON(b.details[a])
		for _, t := range b.booked[a] {
			m["Accounts/"+a+"/Transactions/"+obj(t)["transactionId"].(string)] = canonJSON(t)
		}
	}
	return m
}

func (b *nordigen) flatten(state interface{}) map[string]string {
	m := map[string]string{}
	for id, a := range obj(obj(state)["Accounts"]) {
		for _, k := range []string{"Basic", "Details"} {
			m["Accounts/"+id+"/"+k] = canonJSON(obj(a)[k])
		}
		for t, v := range obj(obj(a)["Transactions"]) {
			m["Accounts/"+id+"/Transactions/"+t] = canonJSON(v)
		}
	}
	for _, k := range []string{"Requisition", "Institution"} {
		m[k] = canonJSON(obj(state)[k])
	}
	return m
}

func (b *nordigen) initial(now time.Time) interface{} { return b.first }

func (b *nordigen) spoil(path string, answer interface{}) (interface{}, bool) {
	m := copyObj(obj(answer))
	switch {
	case strings.HasSuffix(path, "/transactions"):
		l, ok := spoilList(b.r, obj(m["transactions"])["booked"].([]interface{}), "transactionId")
		return map[string]interface{}{"transactions": map[string]interface{}{"booked": l}}, ok
	case strings.Contains(path, "/requisitions/"):
		if b.r.Intn(2) == 0 {
			delete(m, gen.Pick(b.r, []string{"id", "link", "accounts"}))
		} else {
			m[gen.Pick(b.r, []string{"id", "link", "accounts"})] = gen.Pick(b.r, []interface{}{5, nil, []interface{}{1}, map[string]int{}})
		}
		return m, true
	}
	return nil, false
}

// --- faults

type fault struct {
	at   int
	kind string
}

type wire struct {
	mu     sync.Mutex
	c      *frame.Case
	r      *rand.Rand
	bank   standin
	base   *bankBase
	now    func() time.Time
	n      int
	flt    fault
	hit    string // the fault that took place
	binary bool
	login  bool // in a request for a login, that may be tried again
	log    []string
	broken string
}

var faultKinds = []string{"status", "status", "refused", "cut", "truncated", "malformed", "spoilt", "spoilt", "empty"}

// answer: status, body, how many bytes of it get through (-1: all), or refused
func (w *wire) answer(method string, u *url.URL, auth string, body []byte) (status int, text string, through int, refused bool) {
	w.mu.Lock()
	defer w.mu.Unlock()
	defer func() {
		if m := recover(); m != nil {
			w.broken = fmt.Sprint(m)
			refused = true
		}
	}()
	n := w.n
	w.n++
	w.c.Count("requests", 1)
	if w.n > 500 {
		return 0, "", 0, true
	}
	form, _ := url.ParseQuery(string(body))
	kind := ""
	if n == w.flt.at || w.flt.at >= 0 && n > w.flt.at && w.flt.kind == "refused" && w.binary { // net/http tries again once
		kind = w.flt.kind
	}
	saved := map[string]string{}
	for k, v := range w.base.pending {
		saved[k] = v
	}
	token := strings.TrimPrefix(auth, "Bearer ")
	isLogin := strings.Contains(u.Path, "/token")
	if kind != "" && isLogin || kind == "status" || kind == "refused" {
		// never gets to the bank
		w.hit = kind
		w.log = append(w.log, fmt.Sprintf("%s %s: %s", method, u.Path, kind))
		if kind == "status" {
			list := []int{400, 401, 404, 429, 500, 502, 503, 403, 503}
			if w.r.Intn(4) == 0 {
				list = []int{202, 203, 206, 206, 206, 206, 206, 304, 202} // not the answer either
			}
			if u.Path == "/transactions" {
				list = list[:7]
			}
			w.login = isLogin
			return gen.Pick(w.r, list), gen.Pick(w.r, []string{"", "{}", "<html>error</html>", "{\"transactions\":[]}", "{\"accounts\":[]}"}), -1, false
		}
		w.login = isLogin
		switch kind {
		case "malformed":
			return 200, "<html>Sorry</html>", -1, false
		case "spoilt":
			return 200, "{\"access\": 5, \"access_token\": 5, \"expires_in\": \"x\", \"refresh\": 5}", -1, false
		}
		return 0, "", 0, true
	}
	st, v := w.bank.serve(w.now(), method, u, form, token)
	indent := w.r.Intn(3) == 0
	marshal := func(v interface{}) string {
		var t []byte
		if indent {
			t, _ = json.MarshalIndent(v, "", "  ")
		} else {
			t, _ = json.Marshal(v)
		}
		return string(t)
	}
	text, through = marshal(v), -1
	if st == 200 && kind != "" {
		switch kind {
		case "cut":
			through = w.r.Intn(len(text))
		case "truncated":
			text = text[:w.r.Intn(len(text))]
			if json.Valid([]byte(text)) {
				text = "{"
			}
		case "malformed":
			text = gen.Pick(w.r, []string{"<html>Sorry</html>", "{", "]", "error", "{\"a\" 1}", "\x00", "{\"x\":tru}"})
		case "empty":
			text = gen.Pick(w.r, []string{"", "\n"})
		case "spoilt":
			if s, ok := w.bank.spoil(u.Path, v); ok {
				text = marshal(s)
			} else {
				text = "<html>"
			}
		}
		w.hit, w.login = kind, isLogin
		for k := range w.base.pending {
			delete(w.base.pending, k)
		}
		for k, x := range saved {
			w.base.pending[k] = x
		}
	}
	w.log = append(w.log, fmt.Sprintf("%s %s?%s: %d %s %s", method, u.Path, u.RawQuery, st, kind, clip(text, 300)))
	return st, text, through, false
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

type cutReader struct{ io.Reader }

func (c cutReader) Read(b []byte) (int, error) {
	n, err := c.Reader.Read(b)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}
func (cutReader) Close() error { return nil }

// RoundTrip makes it a transport of this process
func (w *wire) RoundTrip(req *http.Request) (*http.Response, error) {
	var body []byte
	if req.Body != nil {
		body, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	status, text, through, refused := w.answer(req.Method, req.URL, req.Header.Get("Authorization"), body)
	if refused {
		return nil, errors.New("connection refused")
	}
	res := &http.Response{StatusCode: status, Status: fmt.Sprint(status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"Content-Type": {"application/json"}},
		Request: req, ContentLength: int64(len(text)), Body: io.NopCloser(strings.NewReader(text))}
	if through >= 0 {
		res.Body = cutReader{strings.NewReader(text[:through])}
	}
	return res, nil
}

// --- the same through a TLS proxy

var proxyOnce sync.Once
var proxyCert tls.Certificate
var proxyPEM []byte

func proxySetup() {
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		frame.Broken("%v", err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "verif"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour), IsCA: true, BasicConstraintsValid: true,
		DNSNames: []string{"api.monzo.com", "api.starlingbank.com", "ob.nordigen.com"}, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign}
	der, err := x509.CreateCertificate(crand.Reader, t, t, &key.PublicKey, key)
	if err != nil {
		frame.Broken("%v", err)
	}
	proxyCert = tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
	proxyPEM = pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
}

// serve until the listener is closed
func (w *wire) proxy(l net.Listener) {
	for {
		conn, err := l.Accept()
		if err != nil {
			return
		}
		go func() {
			defer conn.Close()
			br := bufio.NewReader(conn)
			req, err := http.ReadRequest(br)
			if err != nil || req.Method != "CONNECT" {
				return
			}
			host := req.URL.Hostname()
			if host == "" {
				host, _, _ = net.SplitHostPort(req.Host)
			}
			fmt.Fprintf(conn, "HTTP/1.1 200 OK\r\n\r\n")
			tc := tls.Server(conn, &tls.Config{Certificates: []tls.Certificate{proxyCert}, NextProtos: []string{"http/1.1"}})
			tr := bufio.NewReader(tc)
			for {
				req, err := http.ReadRequest(tr)
				if err != nil {
					return
				}
				body, _ := io.ReadAll(req.Body)
				u := *req.URL
				u.Host = host
				status, text, through, refused := w.answer(req.Method, &u, req.Header.Get("Authorization"), body)
				if refused {
					return
				}
				fmt.Fprintf(tc, "HTTP/1.1 %d X\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n", status, len(text))
				if through >= 0 {
					io.WriteString(tc, text[:through])
					return
				}
				io.WriteString(tc, text)
			}
		}()
	}
}

// --- state files

func readState(file string) ([]byte, interface{}, error) {
	raw, err := os.ReadFile(file)
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil, nil
		}
		return nil, nil, err
	}
	b := raw
	if strings.HasSuffix(file, ".gz") {
		z, err := gzip.NewReader(bytes.NewReader(raw))
		if err != nil {
			return raw, nil, err
		}
		if b, err = io.ReadAll(z); err != nil {
			return raw, nil, err
		}
	}
	var v interface{}
	err = decodeExact(b, &v)
	return raw, v, err
}

func writeState(c *frame.Case, file string, v interface{}) {
	b, _ := json.Marshal(v)
	if strings.HasSuffix(file, ".gz") {
		var z bytes.Buffer
		zw := gzip.NewWriter(&z)
		zw.Write(b)
		zw.Close()
		b = z.Bytes()
	}
	rel, _ := filepath.Rel(c.Dir, file)
	c.Write(rel, string(b))
}

func diffMaps(have, want map[string]string) string {
	var l []string
	for k, v := range want {
		if h, ok := have[k]; !ok {
			l = append(l, fmt.Sprintf("missing %s = %s", k, clip(v, 200)))
		} else if h != v {
			l = append(l, fmt.Sprintf("%s is %s, not %s", k, clip(h, 300), clip(v, 300)))
		}
	}
	for k, v := range have {
		if _, ok := want[k]; !ok {
			l = append(l, fmt.Sprintf("unexpected %s = %s", k, clip(v, 200)))
		}
	}
	sort.Strings(l)
	if len(l) > 5 {
		l = append(l[:5], fmt.Sprintf("... %d differences", len(l)))
	}
	return strings.Join(l, "\n")
}

func downloadCheck(c *frame.Case) {
	proxyOnce.Do(proxySetup)
	binary := c.Index%41 == 0 && c.Index < 12000
	if binary {
		downloadHistory(c, true)
		return
	}
	old := http.DefaultTransport
	defer func() { http.DefaultTransport = old }()
	bubble.Run(func() { downloadHistory(c, false) })
}

// when the last bubble ended
var bubbleTime = time.Date(2001, 1, 1, 0, 0, 0, 0, time.UTC)

func downloadHistory(c *frame.Case, binary bool) {
	r := c.R
	kind := gen.Pick(r, []string{"monzo", "starling", "nordigen"})
	if binary {
		kind = []string{"monzo", "starling", "nordigen"}[c.Index/41%3]
	} else {
		// the clock never goes back in this process
		time.Sleep(time.Until(bubbleTime) + time.Hour + time.Duration(r.Intn(10*24*3600))*time.Second)
		defer func() { bubbleTime = time.Now() }()
	}
	jump := time.Duration(0)
	now := func() time.Time { return time.Now().Add(jump) }
	base := bankBase{c: c, r: r, pending: map[string]string{}}
	var bank standin
	var bb *bankBase
	var args []string
	switch kind {
	case "monzo":
		m := newMonzo(base, now())
		bank, bb = m, &m.bankBase
	case "starling":
		m := newStarling(base, now())
		if m.allData {
			args = []string{"--alldata"}
		}
		bank, bb = m, &m.bankBase
	default:
		m := newNordigen(base, now())
		bank, bb = m, &m.bankBase
	}
	file := c.Scratch(gen.Pick(r, []string{"state.json", "state.json.gz", "sub/dir/state.json", "my state"}))
	if init := bank.initial(now()); init != nil {
		writeState(c, file, init)
	}
	var log []string
	run := func(flt fault) (*wire, error) {
		w := &wire{c: c, r: r, bank: bank, base: bb, now: now, flt: flt, binary: binary}
		for k := range bb.pending {
			delete(bb.pending, k)
		}
		c.Count("downloads", 1)
		c.Count("downloads of "+kind, 1)
		if args != nil {
			c.Count("downloads of all data", 1)
		}
		var err error
		if binary {
			c.Count("downloads by the binary", 1)
			l, lerr := net.Listen("tcp", "127.0.0.1:0")
			if lerr != nil {
				frame.Broken("%v", lerr)
			}
			go w.proxy(l)
			c.Write("ca.pem", string(proxyPEM))
			conf := c.Write("conf", "[download.starling]\npersonalAccessToken = \"pat\"\n\n[download.nordigen]\nclientid = \"cid\"\nclientsecret = \"sec\"\n")
			res := sut.CLI(c.Bin, c.Dir, []string{"HTTPS_PROXY=http://" + l.Addr().String(), "SSL_CERT_FILE=" + c.Scratch("ca.pem"), "GOLEDGER_CONF=" + conf}, append([]string{"download", kind, file}, args...)...)
			l.Close()
			if res.Crashed() || res.Timeout {
				c.Artefact("log", strings.Join(append(log, w.log...), "\n"))
				c.Fail("download: %s", res)
			}
			if res.Exit != 0 {
				err = errors.New(res.Stderr)
			}
			w.mu.Lock()
			defer w.mu.Unlock()
		} else {
			http.DefaultTransport = w
			func() {
				defer func() {
					if m := recover(); m != nil {
						c.Artefact("log", strings.Join(append(log, w.log...), "\n"))
						c.Fail("crash in a download of %s: %v", kind, m)
					}
				}()
				if flt.kind == "disk" {
					var was syscall.Rlimit
					syscall.Getrlimit(syscall.RLIMIT_FSIZE, &was)
					lim := was
					lim.Cur = uint64(flt.at)
					syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim)
					defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &was)
					w.flt.at = -1
					w.hit = "disk"
				}
				err = sut.Download(kind, file, args...)
			}()
		}
		if w.broken != "" {
			frame.Broken("stand-in: %s", w.broken)
		}
		log = append(log, fmt.Sprintf("--- download (fault %v): %v", flt, err))
		log = append(log, w.log...)
		if w.n > 500 {
			c.Artefact("log", strings.Join(log, "\n"))
			c.Fail("a download takes more than 500 requests")
		}
		return w, err
	}
	fail := func(format string, a ...interface{}) {
		c.Artefact("log", strings.Join(log, "\n"))
		c.Fail("%s: %s", kind, fmt.Sprintf(format, a...))
	}
	rounds := 3 + r.Intn(4)
	if binary {
		rounds = 3
	}
	last := 5
	stored, faults := 0, ""
	expected := map[string]string{}
	if _, v, err := readState(file); err != nil {
		frame.Broken("%v", err)
	} else if v != nil {
		expected = bank.flatten(v)
	}
	for i := 0; i < rounds; i++ {
		raw, before, err := readState(file)
		if err != nil {
			fail("state before: %v", err)
		}
		bb.live = r.Intn(2) == 0
		flt := fault{-1, ""}
		if r.Intn(2) == 0 {
			flt = fault{r.Intn(last + 1), gen.Pick(r, faultKinds)}
		}
		if r.Intn(8) == 0 && !binary && len(raw) > 0 {
			flt = fault{r.Intn(len(raw)/4 + 1), "disk"}
			if m, ok := bank.(*monzo); ok && now().After(m.expiry.Add(-time.Hour)) {
				flt = fault{-1, ""} // the new login cannot be saved
			}
		}
		w, derr := run(flt)
		raw2, after, err := readState(file)
		if err != nil {
			fail("state after: %v", err)
		}
		if w.hit != "" {
			faults += fmt.Sprintf("%d:%d%s ", i, flt.at, w.hit)
			c.Count("faults", 1)
			c.Count("fault "+w.hit, 1)
			if derr == nil && w.login && kind == "monzo" { // a second try
				for k, v := range bb.pending {
					expected[k] = v
				}
				c.Count("login tried again", 1)
			} else if derr == nil {
				fail("no error although request %d failed (%s): %q", flt.at, w.hit, w.log)
			}
			if derr == nil {
				if d := diffMaps(bank.flatten(after), expected); d != "" {
					fail("state after download %d: %s", i, d)
				}
			} else if kind == "monzo" {
				if d := diffMaps(bank.flatten(after), bank.flatten(before)); d != "" {
					fail("a failed download (%s) changed the state: %s", w.hit, d)
				}
			} else if !bytes.Equal(raw, raw2) {
				fail("a failed download (%s) changed the state: %s", w.hit, diffMaps(bank.flatten(after), bank.flatten(before)))
			}
		} else if m, ok := bank.(*monzo); ok && m.stuck() {
			last = w.n
			c.Count("downloads without progress", 1)
			faults += fmt.Sprintf("%d:stuck ", i)
			if derr == nil {
				fail("no error although only a part of the transactions can be downloaded")
			}
			if d := diffMaps(bank.flatten(after), bank.flatten(before)); d != "" {
				fail("a failed download (no progress) changed the state: %s", d)
			}
		} else {
			last = w.n
			if derr != nil {
				fail("download failed for no reason: %v", derr)
			}
			for k, v := range bb.pending {
				expected[k] = v
			}
			have := bank.flatten(after)
			if d := diffMaps(have, expected); d != "" {
				fail("state after download %d: %s", i, d)
			}
			for k, v := range bank.all(now()) {
				h, ok := have[k]
				if !ok || (!bb.live && h != v) {
					fail("after download %d: %s (%s) is %s", i, k, v, h)
				}
			}
			if s, ok := bank.(*starling); ok {
				s.last = now()
			}
			stored += len(bb.pending)
			c.Count("transactions stored", len(bb.pending))
			if r.Intn(2) == 0 { // again
				bb.live = false
				if w2, err := run(fault{-1, ""}); err != nil || w2.hit != "" {
					fail("repeated download: %v", err)
				}
				_, again, err := readState(file)
				for k, v := range bb.pending {
					expected[k] = v
				}
				if err != nil {
					fail("state after repetition: %v", err)
				}
				if d := diffMaps(bank.flatten(again), expected); d != "" {
					fail("repeated download %d: %s", i, d)
				}
				c.Count("repeated downloads", 1)
			}
		}
		// some time later
		if !binary {
			time.Sleep(time.Duration(1+r.Intn(30*24))*time.Hour + 20*time.Minute + time.Duration(r.Intn(60000))*time.Millisecond)
			if m, ok := bank.(*monzo); ok { // not at the moment the login expires
				if d := m.expiry.Sub(now()); d > -time.Minute && d < 10*time.Minute {
					time.Sleep(12 * time.Minute)
				}
			}
		}
		bank.evolve(now())
	}
	if stored > 0 {
		c.Nontrivial(kind, fmt.Sprint(expected), faults)
		c.Sample("%s: %d downloads, %d items at the end, faults: %s", kind, rounds, len(expected), faults)
	}
}
