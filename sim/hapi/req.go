package hapi

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/raa0121/GoBCDice/pkg/dicebot/gamesystem/basic"
	"github.com/raa0121/GoBCDice/pkg/dicebot/list"
	"github.com/raa0121/GoBCDice/pkg/version"

	"verifsim/fw"
	"verifsim/hc"
)

// Req is a request.
type Req struct {
	Method string  `json:"method"`
	Path   string  `json:"path"`
	Query  string  `json:"query,omitempty"`
	Old    bool    `json:"old,omitempty"`   // HTTP/1.0
	Close  bool    `json:"close,omitempty"` // the client asks to close
	Body   int     `json:"body,omitempty"`  // bytes of body
	Chunk  bool    `json:"chunk,omitempty"` // chunked body
	Abs    bool    `json:"abs,omitempty"`   // absolute form of the target
	Agent  fw.Text `json:"agent,omitempty"`
	Extra  int     `json:"extra,omitempty"` // more header lines
	Head   []int   `json:"head,omitempty"`  // well-known header lines, by their number
	Host   int     `json:"host,omitempty"`  // the host it is sent to, by its number
}

// hosts are what clients know the server by. The last one: clients of
// HTTP/1.0 do not tell.
var hosts = []string{"api.example", "localhost:4000", "127.0.0.1:4000", "[::1]:4000", "[fe80::1%25eth0]:4000", "API.Example", "api.example.", "other.example:81", "192.168.0.12", "xn--r8jz45g.example", "a_b.example:4000", "0.0.0.0", "", ""}

// addrs are the addresses that requests come from.
var addrs = []net.TCPAddr{{IP: net.IPv4(10, 0, 0, 1)}, {IP: net.IPv4(127, 0, 0, 1)}, {IP: net.IPv4(203, 0, 113, 77)}, {IP: net.IPv6loopback}, {IP: net.ParseIP("2001:db8::7:1")}, {IP: net.ParseIP("fe80::1"), Zone: "eth0"}, {IP: net.ParseIP("::ffff:10.0.0.9")}, {IP: net.IPv4(255, 255, 255, 254)}}

// headLines are header lines that real clients and proxies send. None of them changes the answer.
var headLines = []string{
	"X-HTTP-Method-Override: GET", "X-HTTP-Method-Override: DELETE", "X-HTTP-Method-Override: POST", "X-Method-Override: PUT", "X-HTTP-Method: PATCH",
	"Accept: application/json", "Accept: text/html,application/xhtml+xml;q=0.9", "Accept: image/png", "Accept: */*;q=0.1", "Accept: ", "Accept-Encoding: identity", "Accept-Language: ja,en;q=0.5", "Accept-Charset: shift_jis",
	"Content-Type: application/json", "Content-Type: application/x-www-form-urlencoded", "Content-Type: multipart/form-data; boundary=b", "Content-Type: text/xml", "Content-Type: ;;", "Content-Encoding: br",
	"Range: bytes=0-3", "Range: bytes=-1", "If-None-Match: *", "If-Match: \"x\"", "If-Modified-Since: Fri, 31 Dec 2100 23:59:59 GMT", "If-Unmodified-Since: Sat, 01 Jan 2000 00:00:00 GMT", "If-Range: \"x\"",
	"Authorization: Basic Og==", "Authorization: Bearer x", "Cookie: a=b; session=1", "Cookie: ;;=;", "Origin: http://other.example", "Origin: null", "Access-Control-Request-Method: DELETE", "Referer: http://other.example/v1/names",
	"X-Forwarded-Proto: https", "X-Forwarded-Host: other.example", "X-Forwarded-For: 10.0.0.1, 10.0.0.2", "X-Real-IP: 10.0.0.3", "Forwarded: for=10.0.0.1;proto=https", "X-Original-URL: /v1/names", "X-Rewrite-URL: /v1/version", "X-Forwarded-Prefix: /v1",
	"Cache-Control: no-cache", "Cache-Control: only-if-cached", "Pragma: no-cache", "DNT: 1", "TE: trailers", "X-Requested-With: XMLHttpRequest", "X-Request-ID: 1", "X-CSRF-Token: x", "Sec-Fetch-Site: cross-site", "Upgrade-Insecure-Requests: 1", "Via: 1.0 proxy", "Max-Forwards: 0", "Warning: 299 - x", "From: a@b.example", "Date: Sat, 01 Jan 2000 00:00:00 GMT", "Keep-Alive: timeout=5",
}

var methods = []string{"GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "TRACE"}

func (q *Req) valid() bool {
	ok := false
	for _, m := range methods {
		ok = ok || m == q.Method
	}
	if !ok || q.Path == "" || q.Path[0] != '/' || q.Body < 0 || q.Body > 100000 || q.Extra < 0 || q.Extra > 200 || len(q.Agent) > 50000 {
		return false
	}
	for _, s := range []string{q.Path, q.Query} {
		for i := 0; i < len(s); i++ {
			c := s[i]
			if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("/_-.=&", c) >= 0) {
				return false
			}
		}
	}
	if strings.HasPrefix(q.Path, "//") {
		return false
	}
	for i := 0; i < len(q.Agent); i++ {
		if q.Agent[i] < 0x20 || q.Agent[i] == 0x7f {
			return false
		}
	}
	for _, h := range q.Head {
		if h < 0 || h >= len(headLines) {
			return false
		}
	}
	if q.Host < 0 || q.Host >= len(hosts) {
		return false
	}
	return !(q.Chunk && q.Old) && len(q.Head) < 20
}

func (q *Req) target() string {
	t := q.Path
	if q.Query != "" {
		t += "?" + q.Query
	}
	if q.Abs {
		t = "http://api.example" + t
	}
	return t
}

// bytes are the request as it is sent; head is the length of its header.
func (q *Req) bytes() (b []byte, head int) {
	var w bytes.Buffer
	v := "HTTP/1.1"
	if q.Old {
		v = "HTTP/1.0"
	}
	fmt.Fprintf(&w, "%s %s %s\r\n", q.Method, q.target(), v)
	if q.Host < len(hosts)-1 || !q.Old {
		fmt.Fprintf(&w, "Host: %s\r\n", hosts[q.Host])
	}
	if q.Agent != "" {
		fmt.Fprintf(&w, "User-Agent: %s\r\n", string(q.Agent))
	}
	for _, h := range q.Head {
		w.WriteString(headLines[h] + "\r\n")
	}
	for i := 0; i < q.Extra; i++ {
		fmt.Fprintf(&w, "X-Line-%d: %s\r\n", i, strings.Repeat("v", i%40))
	}
	if q.Close {
		w.WriteString("Connection: close\r\n")
	}
	body := strings.Repeat("b", q.Body)
	switch {
	case q.Chunk:
		w.WriteString("Transfer-Encoding: chunked\r\n\r\n")
		head = w.Len()
		for len(body) > 0 {
			n := min(len(body), 100)
			fmt.Fprintf(&w, "%x\r\n%s\r\n", n, body[:n])
			body = body[n:]
		}
		w.WriteString("0\r\n\r\n")
	default:
		if q.Body > 0 {
			w.WriteString("Content-Length: " + strconv.Itoa(q.Body) + "\r\n")
		}
		w.WriteString("\r\n")
		head = w.Len()
		w.WriteString(body)
	}
	return w.Bytes(), head
}

// closes reports whether the connection ends with the response.
func (q *Req) closes() bool { return q.Close || q.Old }

var routes = []string{"/", "/v1/version", "/v1/systems", "/v1/names"}

// status is the status the request must be answered with.
func (q *Req) status() int {
	for _, p := range routes {
		if p == q.Path {
			if q.Method == "GET" {
				return 200
			}
			return 405
		}
	}
	return 404
}

// data is what a route's 200 response must say.
func data(path string) map[string]any {
	m := map[string]any{"ok": true}
	switch path {
	case "/":
		m["message"] = "Hello. This is GoBCDiceAPI."
	case "/v1/version":
		m["api"], m["bcdice"] = version.API_VERSION, version.BCDICE_VERSION
	case "/v1/systems":
		var l []any
		ids := hc.GameIDs()
		if !hc.Registered {
			ids = list.AvailableGameIDs(true)
		}
		for _, id := range ids {
			l = append(l, id)
		}
		m["systems"] = l
	case "/v1/names":
		b := basic.BasicInfo()
		l := []any{map[string]any{"system": b.GameID, "name": b.GameName, "sort_key": b.SortKey}}
		if hc.Registered {
			gs := append([]*hc.Game{}, hc.Games...)
			sort.Slice(gs, func(i, j int) bool { return gs[i].Key < gs[j].Key })
			for _, g := range gs {
				l = append(l, map[string]any{"system": g.ID, "name": g.Title, "sort_key": g.Key})
			}
		} else {
			l = nil
			for _, g := range list.AvailableGameInfos(true).Name {
				l = append(l, map[string]any{"system": g.System, "name": g.Name, "sort_key": g.SortKey})
			}
		}
		m["names"] = l
	}
	return m
}

// judge compares a response with what the request must get.
func (q *Req) judge(status int, ctype string, body []byte) *fw.Violation {
	what := q.Method + " " + q.target()
	if status != q.status() {
		return fw.V("wrong-status", "%s is answered with status %d, it should be %d (body %q)", what, status, q.status(), hc.Short(string(body)))
	}
	if q.Method == "HEAD" {
		return nil
	}
	var got any
	d := json.NewDecoder(bytes.NewReader(body))
	if err := d.Decode(&got); err != nil {
		return fw.V("bad-body", "%s: the body %q is not JSON: %v", what, hc.Short(string(body)), err)
	}
	if rest, _ := io.ReadAll(io.MultiReader(d.Buffered())); len(bytes.TrimSpace(rest)) > 0 {
		return fw.V("bad-body", "%s: the body %q is more than one JSON value", what, hc.Short(string(body)))
	}
	if !strings.HasPrefix(strings.ToLower(ctype), "application/json") {
		return fw.V("bad-body", "%s is answered with content type %q", what, ctype)
	}
	if status != 200 {
		return nil
	}
	want := data(q.Path)
	if !reflect.DeepEqual(got, any(want)) {
		w, _ := json.Marshal(want)
		return fw.V("wrong-data", "%s is answered with %s, it should be %s", what, hc.Short(string(body)), hc.Short(string(w)))
	}
	return nil
}

// responses splits what a client received into responses to the requests (complete ones
// only) and judges them. bad is the connection's first bytes that are no response.
func responses(b []byte, closed bool, reqs []Req) (n int, rest []byte, v *fw.Violation) {
	for n < len(reqs) && len(b) > 0 {
		br := bufio.NewReader(bytes.NewReader(b))
		resp, err := http.ReadResponse(br, &http.Request{Method: reqs[n].Method})
		if err != nil {
			return n, b, nil
		}
		body, err := io.ReadAll(resp.Body)
		if err != nil {
			return n, b, nil
		}
		if resp.ContentLength < 0 && !closed && reqs[n].Method != "HEAD" && len(resp.TransferEncoding) == 0 {
			return n, b, nil // its end is the end of the connection
		}
		left, _ := io.ReadAll(br)
		b = b[len(b)-len(left):]
		if v := reqs[n].judge(resp.StatusCode, resp.Header.Get("Content-Type"), body); v != nil {
			return n, b, v
		}
		n++
	}
	return n, b, nil
}

func genReq(r *fw.Rand) Req {
	q := Req{Method: "GET", Path: r.Pick(routes...)}
	if r.P(0.2) {
		q.Method = r.Pick(methods...)
	}
	if r.P(0.2) {
		q.Path = r.Pick("/v1", "/v1/", "/v2/names", "/v1/names/", "/v1/Names", "/names", "/version", "/v1/systems/DiceBot", "/v1/v1/names", "/index.html", "/v1/nam", "/v1/name", "/v1/namess", "/v", "/V1/names")
	}
	if r.P(0.2) {
		q.Query = r.Pick("x=1", "a=b&c=d", "q", "system=Alpha")
	}
	q.Old = r.P(0.05)
	q.Close = r.P(0.08)
	if r.P(0.1) {
		q.Body = r.PickInt(1, 10, 300, 5000)
		q.Chunk = !q.Old && r.P(0.5)
	}
	q.Abs = r.P(0.03)
	if r.P(0.3) {
		q.Agent = fw.Text(r.Pick("curl/8.0", "Mozilla/5.0 (X11)", "あ"))
	}
	if r.P(0.15) {
		for n := r.Range(1, 4); n > 0; n-- {
			q.Head = append(q.Head, r.N(len(headLines)))
		}
	}
	if r.P(0.2) {
		q.Host = r.N(len(hosts) - 1)
		if q.Old && r.P(0.5) {
			q.Host = len(hosts) - 1
		}
	}
	if r.P(0.05) {
		q.Extra = r.PickInt(1, 10, 100, 150, 200)
	}
	if r.P(0.02) {
		// a long line
		switch r.N(4) {
		case 0:
			q.Query = "q=" + strings.Repeat("a", r.PickInt(200, 1000, 3000, 9000, 40000))
		case 1:
			q.Path += strings.Repeat("x", r.PickInt(200, 1000, 3000, 9000, 40000))
		case 2:
			q.Path = strings.TrimSuffix(q.Path, "/") + strings.Repeat("/x", r.PickInt(10, 100, 1000))
		default:
			q.Agent = fw.Text(strings.Repeat("u", r.PickInt(200, 1000, 2000, 5000, 40000)))
		}
	}
	if q.Body > 0 && r.P(0.03) {
		q.Body = r.PickInt(20000, 70000)
	}
	return q
}

// garbage is what no request begins with.
var garbage = []string{"\r\n\r\n\x00\x01\x02", "GET\r\n\r\n", "GET / HTTP/9.9\r\nHost: x\r\n\r\n", "GET / HTTP/1.1\r\n\r\n", "POST / HTTP/1.1\r\nHost: x\r\nContent-Length: -1\r\n\r\n", "\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03", "GET / HTTP/1.1\r\nHost: x\r\nBad Header\r\n\r\n", "GET / HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: banana\r\n\r\n", "GET %zz HTTP/1.1\r\nHost: x\r\n\r\n", "hello\n"}
