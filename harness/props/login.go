package props

import (
	"bytes"
	"fmt"
	"math/rand"
	"net"
	"net/url"
	"regexp"
	"strings"
	"sync"
	"time"

	"verif/harness/frame"
	"verif/harness/gen"
	"verif/harness/sut"
)

func init() {
	frame.Register(&frame.Check{
		ID: "C41", Quick: 1200, Thorough: 12000,
		Rule: "one evaluation: a first login of the real binary with a stand-in bank behind a TLS proxy. Monzo: a browser that returns from the bank with the code and state given, or with a wrong, missing, repeated or foreign one, or an error, or a token request that fails; " +
			"Nordigen: a list of institutions, a country and a choice (or one that is not valid, or nothing) on standard input, with a fault at a request at times; every request that reaches the bank is checked against what the user did in this session, and the state file afterwards; then a download that has to work without another login. " +
			"Non-trivial: the login got as far as the user's answer, distinct by what was answered",
		Assumptions: []string{"the stand-in banks follow the public descriptions of the two APIs as the code uses them"},
		Run:         loginCheck, Chunk: 20,
		MinCounts: map[string]int{"logins accepted": 40, "logins refused": 80, "choices accepted": 40, "choices refused": 30, "downloads after a login": 80, "faults": 30},
	})
}

// a Monzo without a login
type loginMonzo struct {
	*monzo
	mu        sync.Mutex
	code      string // that is good
	forms     []url.Values
	requests  int
	fail      int // status of the request for a token
	text      interface{}
	clientID  string
	secret    string
	approved  bool
	exchanged bool
}

func (b *loginMonzo) serve(now time.Time, method string, u *url.URL, form url.Values, token string) (int, interface{}) {
	b.requests++
	if u.Host == "api.monzo.com" && u.Path == "/oauth2/token" && form.Get("grant_type") == "authorization_code" {
		b.forms = append(b.forms, form)
		if b.fail != 0 {
			return b.fail, b.text
		}
		if method != "POST" || form.Get("code") != b.code || b.exchanged {
			return 400, map[string]interface{}{"error": "invalid_grant"}
		}
		b.exchanged = true
		secs := 3600 * (1 + b.r.Intn(100))
		b.expiry = now.Add(time.Duration(secs) * time.Second)
		return 200, map[string]interface{}{"access_token": b.access, "token_type": "Bearer", "refresh_token": b.refresh, "expires_in": secs, "client_id": "me"}
	}
	return b.monzo.serve(now, method, u, form, token)
}

// a Nordigen without a requisition
type loginNordigen struct {
	*nordigen
	country  string
	list     []interface{}
	forms    []url.Values
	asked    int
	requests int
}

func (b *loginNordigen) serve(now time.Time, method string, u *url.URL, form url.Values, token string) (int, interface{}) {
	b.requests++
	if e, ok := b.tokens[token]; u.Host == "ob.nordigen.com" && ok && !now.After(e) {
		switch strings.TrimSuffix(u.Path, "/") {
		case "/api/v2/institutions":
			b.asked++
			if method != "GET" || u.Query().Get("country") != b.country {
				return 404, nil
			}
			return 200, b.list
		case "/api/v2/requisitions":
			if method != "POST" {
				return 405, nil
			}
			b.forms = append(b.forms, form)
			return gen.Pick(b.r, []int{200, 201}), b.req
		}
	}
	return b.nordigen.serve(now, method, u, form, token)
}

var loginMu sync.Mutex
var statesSeen = map[string]bool{}

func loginCheck(c *frame.Case) {
	proxyOnce.Do(proxySetup)
	if c.R.Intn(5) < 3 {
		loginMonzoCheck(c)
	} else {
		loginNordigenCheck(c)
	}
}

func freePort() int {
	l, err := net.Listen("tcp", ":0")
	if err != nil {
		frame.Broken("%v", err)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

// randomCode is text as banks give it, at times with characters that need escaping
func randomCode(r *rand.Rand) string {
	set := "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_."
	if r.Intn(2) == 0 {
		set += "+/=&%;?# \"'<>é"
	}
	l := []rune(set)
	s := ""
	for i := 8 + r.Intn(40); i > 0; i-- {
		s += string(l[r.Intn(len(l))])
	}
	return s
}

var authURL = regexp.MustCompile(`(https://auth\.monzo\.com/\S*)\n`)

func startWire(c *frame.Case, bank standin, base *bankBase, flt fault) (*wire, []string, func()) {
	w := &wire{c: c, r: c.R, bank: bank, base: base, now: time.Now, flt: flt, binary: true}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		frame.Broken("%v", err)
	}
	go w.proxy(l)
	c.Write("ca.pem", string(proxyPEM))
	env := []string{"HTTPS_PROXY=http://" + l.Addr().String(), "SSL_CERT_FILE=" + c.Scratch("ca.pem")}
	return w, env, func() { l.Close(); w.mu.Lock(); w.mu.Unlock() }
}

func loginMonzoCheck(c *frame.Case) {
	r := c.R
	base := bankBase{c: c, r: r, pending: map[string]string{}}
	m := newMonzo(base, time.Now())
	bank := &loginMonzo{monzo: m, clientID: randomCode(r), secret: randomCode(r)}
	bank.code = randomCode(r)
	file := c.Scratch(gen.Pick(r, []string{"state.json", "state.json.gz", "sub/state.json"}))
	switch r.Intn(4) {
	case 0: // from before, without a login
		bank.put("transactions/tx_old", map[string]interface{}{"id": "tx_old", "created": "2019-01-01T00:00:00Z", "account_id": "x"})
		writeState(c, file, map[string]interface{}{"transactions": map[string]interface{}{"tx_old": map[string]interface{}{"id": "tx_old", "created": "2019-01-01T00:00:00Z", "account_id": "x"}}})
	}
	raw, before, _ := readState(file)

	kind := gen.Pick(r, []string{"good", "good", "good", "state", "state", "no state", "no code", "two states", "two codes", "error", "status", "malformed", "nothing", "bad code", "port"})
	switch kind {
	case "status":
		bank.fail, bank.text = gen.Pick(r, []int{400, 401, 403, 404, 429, 500, 503}), gen.Pick(r, []interface{}{nil, "no", map[string]interface{}{"error": "invalid_grant"}, map[string]interface{}{"access_token": "x", "token_type": "Bearer", "expires_in": 1000}})
	case "malformed":
		bank.fail, bank.text = 200, gen.Pick(r, []interface{}{nil, "no", []int{1}, map[string]interface{}{"access_token": 5}, map[string]interface{}{"token_type": "Bearer", "expires_in": 1000}, map[string]interface{}{"access_token": "", "expires_in": 1000}})
	}
	port := freePort()
	if kind == "port" {
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", port))
		if err != nil {
			frame.Broken("%v", err)
		}
		defer l.Close()
	}
	w, env, stop := startWire(c, bank, &m.bankBase, fault{-1, ""})
	args := []string{"download", "monzo", "--clientid", bank.clientID, "--clientsecret", bank.secret, "-p", fmt.Sprint(port), file}
	if r.Intn(3) == 0 {
		conf := c.Write("conf", fmt.Sprintf("[download.monzo]\nclientid = %q\nclientsecret = %q\nport = %d\n", bank.clientID, bank.secret, port))
		env = append(env, "GOLEDGER_CONF="+conf)
		args = []string{"download", "monzo", file}
	}
	var auth url.Values
	var back string
	var problem string
	var once sync.Once
	done := make(chan bool)
	browser := func(u *url.URL) {
		defer close(done)
		auth = u.Query()
		state := auth.Get("state")
		q := url.Values{"code": {bank.code}, "state": {state}}
		switch kind {
		case "state":
			other := []string{"", "0", "1", "state", state + "0", "0" + state, state + " ", strings.ToUpper(state) + "x", "-" + state, fmt.Sprint(r.Int63()), state[:len(state)-1], state + "\x00", state + "\n"}
			q.Set("state", gen.Pick(r, other))
		case "no state":
			q.Del("state")
		case "no code":
			q.Del("code")
		case "two states":
			q["state"] = gen.Pick(r, [][]string{{state, state}, {state, "1"}, {"1", state}})
		case "two codes":
			q["code"] = gen.Pick(r, [][]string{{bank.code, "x"}, {"x", bank.code}, {bank.code, bank.code}})
		case "error":
			q = url.Values{"error": {"access_denied"}, "state": {state}}
		case "nothing":
			q = url.Values{}
		case "bad code":
			q.Set("code", randomCode(r)+"!")
		}
		if r.Intn(3) == 0 {
			q.Set("scope", "x")
		}
		to, err := url.Parse(auth.Get("redirect_uri"))
		if err != nil || to.Hostname() != "localhost" || to.Port() != fmt.Sprint(port) || to.Scheme != "http" {
			problem = fmt.Sprintf("redirected to %q, port %d", auth.Get("redirect_uri"), port)
			return
		}
		to.Host = fmt.Sprintf("127.0.0.1:%d", port)
		to.RawQuery = q.Encode()
		back = to.String()
		for i := 0; i < 200; i++ {
			// what is answered does not matter
			conn, err := net.Dial("tcp", to.Host)
			if err != nil {
				time.Sleep(50 * time.Millisecond)
				continue
			}
			conn.SetDeadline(time.Now().Add(30 * time.Second))
			fmt.Fprintf(conn, "GET %s HTTP/1.1\r\nHost: localhost\r\n\r\n", to.RequestURI())
			buf := make([]byte, 1000)
			conn.Read(buf)
			conn.Close()
			return
		}
		problem = "nothing listens on the port"
	}
	if kind == "port" {
		close(done)
		once.Do(func() {})
	}
	res := sut.CLITalk(c.Bin, c.Dir, env, "", func(out string) {
		if f := authURL.FindStringSubmatch(out); f != nil {
			once.Do(func() {
				u, err := url.Parse(f[1])
				if err != nil {
					problem = err.Error()
					close(done)
					return
				}
				go browser(u)
			})
		}
	}, args...)
	stop()
	fail := func(f string, a ...interface{}) {
		c.Artefact("log", strings.Join(w.log, "\n"))
		c.Artefact("output", res.String())
		c.Fail("monzo login, %s: %s", kind, fmt.Sprintf(f, a...))
	}
	if w.broken != "" {
		frame.Broken("%s", w.broken)
	}
	if kind != "port" {
		if strings.Contains(res.Stderr, "address already in use") {
			c.Count("port taken by another", 1)
			return
		}
		once.Do(func() { problem = "no link printed"; close(done) })
		<-done
	}
	if res.Crashed() || res.Timeout {
		fail("%v", res)
	}
	if problem != "" {
		fail("%s: %v", problem, res)
	}
	raw2, after, err := readState(file)
	if err != nil {
		fail("state: %v", err)
	}
	if res.Exit == 0 || strings.TrimSpace(res.Stderr) == "" {
		fail("nothing was downloaded, but the exit status is %d: %q", res.Exit, res.Stderr)
	}
	if kind == "port" {
		if w.n > 0 || !bytes.Equal(raw, raw2) {
			fail("the port is not available, but there are %d requests, state %q", w.n, raw2)
		}
		c.Count("logins refused", 1)
		return
	}
	// what was asked for
	state := auth.Get("state")
	loginMu.Lock()
	seen := statesSeen[state]
	statesSeen[state] = true
	loginMu.Unlock()
	if len(state) < 6 || seen {
		fail("state %q is too short, or not new", state)
	}
	if auth.Get("client_id") != bank.clientID || auth.Get("response_type") != "code" {
		fail("asked for %v", auth)
	}
	c.Nontrivial(kind, back)
	for _, f := range bank.forms {
		code := bank.code
		if kind == "bad code" {
			code = f.Get("code")
			if u, _ := url.Parse(back); u.Query().Get("code") != code {
				code = ""
			}
		}
		if f.Get("code") != code || f.Get("redirect_uri") != auth.Get("redirect_uri") {
			fail("asked for a token with %v", f)
		}
	}
	switch kind {
	case "good":
	default:
		c.Count("logins refused", 1)
		c.Count("refused: "+kind, 1)
		if want := kind == "status" || kind == "malformed" || kind == "bad code"; want != (len(bank.forms) > 0) {
			fail("%d requests for a token", len(bank.forms))
		}
		if bank.requests != len(bank.forms) {
			fail("%d other requests", bank.requests-len(bank.forms))
		}
		if !bytes.Equal(raw, raw2) {
			fail("state %q, before %q", raw2, raw)
		}
		if kind == "status" || kind == "malformed" {
			c.Count("faults", 1)
		}
		return
	}
	if !bank.exchanged {
		fail("no token was asked for with the code")
	}
	c.Count("logins accepted", 1)
	if d := diffMaps(bank.flatten(after), bank.flatten(before)); d != "" {
		fail("the login changed more than itself: %s", d)
	}
	tok := obj(obj(after)["token"])
	exp, err := time.Parse(time.RFC3339Nano, fmt.Sprint(tok["expiry"]))
	if tok["access_token"] != bank.access || tok["refresh_token"] != bank.refresh || err != nil || exp.Sub(bank.expiry).Abs() > 2*time.Minute {
		fail("saved %v, the bank gave %s, %s, until %v", tok, bank.access, bank.refresh, bank.expiry)
	}
	if bank.requests != len(bank.forms) {
		fail("%d other requests", bank.requests-len(bank.forms))
	}
	// it has to work without another
	for k := range m.pending {
		if k != "transactions/tx_old" {
			delete(m.pending, k)
		}
	}
	asked := len(bank.forms)
	w2, env2, stop2 := startWire(c, bank, &m.bankBase, fault{-1, ""})
	res = sut.CLI(c.Bin, c.Dir, append(env[2:], env2...), args...)
	stop2()
	w.log = append(w.log, w2.log...)
	if res.Exit != 0 || len(bank.forms) != asked {
		fail("the download after it: %v", res)
	}
	_, after, err = readState(file)
	if err != nil {
		fail("state: %v", err)
	}
	want := bank.all(time.Now())
	for k, v := range bank.flatten(before) {
		want[k] = v
	}
	if d := diffMaps(bank.flatten(after), want); d != "" {
		fail("state after the download: %s", d)
	}
	c.Count("downloads after a login", 1)
	c.Sample("monzo: %s; then %d items", back, len(want))
}

func loginNordigenCheck(c *frame.Case) {
	r := c.R
	base := bankBase{c: c, r: r, pending: map[string]string{}}
	n := newNordigen(base, time.Now())
	n.tokens = map[string]time.Time{}
	bank := &loginNordigen{nordigen: n, country: gen.Pick(r, []string{"GB", "de", "fr", "LT", "XX"})}
	names := map[string]bool{}
	for i := gen.Pick(r, []int{0, 1, 2, 3, 5, 12, 120}); i > 0; i-- {
		o := randObj(r)
		name := fmt.Sprintf("%s %d", gen.Pick(r, []string{"Bank", "Bänk of", "The \"First\" Bank", "Bank"}), r.Intn(50))
		names[name] = true
		o["id"], o["name"] = bank.id("INST"), name
		bank.list = append(bank.list, o)
	}
	if bank.list == nil {
		bank.list = []interface{}{}
	}
	bank.req["link"] = "https://ob.nordigen.com/psd2/start/" + bank.id("link")
	n.req = bank.req
	file := c.Scratch(gen.Pick(r, []string{"state.json", "state.json.gz", "sub/state.json"}))
	if r.Intn(4) == 0 {
		writeState(c, file, map[string]interface{}{"Token": nil})
	}
	raw, _, _ := readState(file)
	var choice string
	pick := -1
	if len(bank.list) > 0 && r.Intn(3) > 0 {
		pick = gen.Pick(r, []int{0, len(bank.list) - 1, r.Intn(len(bank.list))})
		choice = fmt.Sprint(pick)
	} else {
		choice = gen.Pick(r, []string{"-1", fmt.Sprint(len(bank.list)), fmt.Sprint(len(bank.list) + r.Intn(1000)), "x", "", "99999999999999999999", "\x00"})
	}
	input := bank.country + "\n" + choice + "\n"
	if pick < 0 {
		switch r.Intn(6) {
		case 0:
			input = bank.country
		case 1:
			input = ""
		}
	}
	flt := fault{-1, ""}
	if r.Intn(3) == 0 {
		flt = fault{r.Intn(3), gen.Pick(r, faultKinds)}
	}
	w, env, stop := startWire(c, bank, &n.bankBase, flt)
	conf := c.Write("conf", "[download.nordigen]\nclientid = \"cid\"\nclientsecret = \"sec\"\n")
	env = append(env, "GOLEDGER_CONF="+conf)
	args := []string{"download", "nordigen", file}
	res := sut.CLITalk(c.Bin, c.Dir, env, input, func(string) {}, args...)
	stop()
	fail := func(f string, a ...interface{}) {
		c.Artefact("log", strings.Join(w.log, "\n"))
		c.Artefact("output", res.String())
		c.Artefact("input", input)
		c.Fail("nordigen login, %q: %s", input, fmt.Sprintf(f, a...))
	}
	if w.broken != "" {
		frame.Broken("%s", w.broken)
	}
	if res.Crashed() || res.Timeout {
		fail("%v", res)
	}
	raw2, after, err := readState(file)
	if err != nil {
		fail("state: %v", err)
	}
	if w.hit != "" {
		c.Count("faults", 1)
	}
	if w.hit != "" || pick < 0 {
		if res.Exit == 0 || strings.TrimSpace(res.Stderr) == "" {
			fail("fault %q, exit status %d: %q", w.hit, res.Exit, res.Stderr)
		}
		if pick < 0 && len(bank.forms) > 0 {
			fail("a requisition was made: %v", bank.forms)
		}
		if st := obj(after); st["Institution"] != nil || st["Requisition"] != nil || !bytes.Equal(raw, raw2) {
			fail("state %q, before %q", raw2, raw)
		}
		if pick < 0 {
			c.Count("choices refused", 1)
		}
		if bank.asked > 0 {
			c.Nontrivial(input, len(bank.list), w.hit)
		}
		return
	}
	if res.Exit != 0 {
		fail("refused: %v", res)
	}
	c.Count("choices accepted", 1)
	inst := obj(bank.list[pick])
	if len(bank.forms) != 1 || bank.forms[0].Get("institution_id") != inst["id"] || len(bank.forms[0]["institution_id"]) != 1 {
		fail("asked for %v, the institution chosen is %v", bank.forms, inst["id"])
	}
	for i, o := range bank.list {
		if !strings.Contains(res.Stdout, fmt.Sprintf("%d %s\n", i, obj(o)["name"])) {
			fail("institution %d, %v, isn't listed: %v", i, obj(o)["name"], res)
		}
	}
	if !strings.Contains(res.Stdout, bank.req["link"].(string)) {
		fail("no link to continue with: %v", res)
	}
	bank.inst = inst
	want := map[string]string{"Requisition": canonJSON(bank.req), "Institution": canonJSON(inst)}
	if d := diffMaps(bank.flatten(after), want); d != "" {
		fail("state: %s", d)
	}
	c.Nontrivial(input, canonJSON(inst))
	// and then
	asked := bank.asked
	w2, env2, stop2 := startWire(c, bank, &n.bankBase, fault{-1, ""})
	res = sut.CLI(c.Bin, c.Dir, append(env2, "GOLEDGER_CONF="+conf), args...)
	stop2()
	w.log = append(w.log, w2.log...)
	if res.Exit != 0 || bank.asked != asked || len(bank.forms) != 1 {
		fail("the download after it: %v", res)
	}
	_, after, err = readState(file)
	if err != nil {
		fail("state: %v", err)
	}
	if d := diffMaps(bank.flatten(after), bank.all(time.Now())); d != "" {
		fail("state after the download: %s", d)
	}
	c.Count("downloads after a login", 1)
	c.Sample("nordigen: %q of %d; then %d items", input, len(bank.list), len(bank.flatten(after)))
}
