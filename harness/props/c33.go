package props

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/mc"

	"github.com/keyfuse/tokucore/xrpc"
)

func init() { mc.Register("C33", c33) }

// request33 is what the node saw.
type request33 struct {
	method, path, auth string
	body               []byte
}

// what becomes of the connection after an answer
const (
	keep33 = iota
	close33
	stall33
)

type answer33 func(r request33) (raw []byte, after int)

// node33 is a node on the loopback interface. The executions share one listener (there are not enough ports for one
// each) and tell their requests apart by the user name, unless own is set.
type node33 struct {
	l      net.Listener
	user   string
	mu     sync.Mutex
	seen   []request33
	wg     sync.WaitGroup
	quit   chan struct{}
	own    bool
	split  []int
	answer answer33
}

var shared33 struct {
	once  sync.Once
	l     net.Listener
	mu    sync.Mutex
	next  int
	nodes map[string]*node33
}

func listen33() net.Listener {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic("harness: " + err.Error())
	}
	return l
}

func serve33(c net.Conn, find func(r request33) *node33) {
	defer c.Close()
	rd := bufio.NewReader(c)
	for {
		req, err := http.ReadRequest(rd)
		if err != nil {
			return
		}
		body, _ := io.ReadAll(req.Body)
		r := request33{req.Method, req.URL.Path, req.Header.Get("Authorization"), body}
		n := find(r)
		if n == nil {
			c.Write(http33(401, ""))
			return
		}
		n.mu.Lock()
		n.seen = append(n.seen, r)
		n.mu.Unlock()
		raw, after := n.answer(r)
		done := 0
		for _, cut := range n.split { // in pieces, with time between them
			if cut > done && cut < len(raw) {
				c.Write(raw[done:cut])
				done = cut
				time.Sleep(40 * time.Millisecond)
			}
		}
		c.Write(raw[done:])
		if after == stall33 {
			select {
			case <-n.quit:
			case <-time.After(100 * time.Second):
			}
		}
		if after != keep33 {
			return
		}
	}
}

func accept33(l net.Listener, find func(r request33) *node33) {
	for {
		c, err := l.Accept()
		if err != nil {
			return
		}
		go serve33(c, find)
	}
}

func newNode33(answer answer33) *node33 {
	sh := &shared33
	sh.once.Do(func() {
		if t, ok := http.DefaultTransport.(*http.Transport); ok {
			t.MaxIdleConnsPerHost = 64
		}
		sh.nodes = map[string]*node33{}
		sh.l = listen33()
		go accept33(sh.l, func(r request33) *node33 {
			b, err := base64.StdEncoding.DecodeString(strings.TrimPrefix(r.auth, "Basic "))
			if err != nil {
				return nil
			}
			sh.mu.Lock()
			defer sh.mu.Unlock()
			return sh.nodes[strings.TrimSuffix(string(b), ":p")]
		})
	})
	sh.mu.Lock()
	defer sh.mu.Unlock()
	sh.next++
	n := &node33{l: sh.l, user: fmt.Sprintf("execution%d", sh.next), quit: make(chan struct{}), answer: answer}
	sh.nodes[n.user] = n
	return n
}

// ownNode33 has a listener to itself.
func ownNode33(answer answer33) *node33 {
	n := &node33{l: listen33(), user: "u", quit: make(chan struct{}), answer: answer, own: true}
	go accept33(n.l, func(request33) *node33 { return n })
	return n
}

func (n *node33) client() *xrpc.Client { return xrpc.NewClient(n.addr(), n.user, "p") }

func (n *node33) addr() string { return n.l.Addr().String() }
func (n *node33) close() {
	close(n.quit)
	if n.own {
		n.l.Close()
		return
	}
	shared33.mu.Lock()
	delete(shared33.nodes, n.user)
	shared33.mu.Unlock()
}

func http33(status int, body string) []byte {
	conn := ""
	if status != 200 {
		conn = "Connection: close\r\n"
	}
	return []byte(fmt.Sprintf("HTTP/1.1 %d %s\r\nContent-Type: application/json\r\n%sContent-Length: %d\r\n\r\n%s", status, http.StatusText(status), conn, len(body), body))
}

func after33(status int) int {
	if status == 200 {
		return keep33
	}
	return close33
}

// kv33 is one field of a result: its JSON name, the text of the value, and what is to come out.
type kv33 struct{ name, text, want string }

func str33(name, v string) kv33 { b, _ := json.Marshal(v); return kv33{name, string(b), v} }
func num33(name, v string) kv33 { return kv33{name, v, v} }
func flt33(name, v string) kv33 {
	f, _ := strconv.ParseFloat(v, 64)
	return kv33{name, v, fmt.Sprint(f)}
}

func object33(fs []kv33) string {
	var s []string
	for _, f := range fs {
		if f.text != "" {
			s = append(s, fmt.Sprintf("%q: %s", f.name, f.text))
		}
	}
	return "{" + strings.Join(s, ", ") + "}"
}

const hash33 = "000000000007a88bce05bdbaf6866fe783aa6f3ca506847adb5228a99172195c"
const hash33b = "00000000873e79784647a6c82962c70d228557d24a747ea4d1b8bbe878e12060"

// header33 and block33 are results with field variant v changed to its boundary value w (v < 0: none).
func headerFields33() [][]kv33 {
	return [][]kv33{
		{str33("hash", hash33), str33("hash", ""), str33("hash", "é\"\\\n")},
		{num33("confirmations", "356931"), num33("confirmations", "-1"), num33("confirmations", "9223372036854775807")},
		{num33("height", "151182"), num33("height", "0"), num33("height", "2147483648")},
		{num33("version", "2"), num33("version", "-2147483648"), num33("version", "2147483647"), num33("version", "536870912")},
		{str33("versionHex", "00000002"), str33("versionHex", "ffffffff")},
		{str33("merkleroot", "6a3202aa744496c316b4ff78762da556667edf9372bf1cd86c4c7fa319c7ed57")},
		{num33("time", "1231006505"), num33("time", "0"), num33("time", "4294967295")},
		{num33("mediantime", "1231006504"), num33("mediantime", "0"), num33("mediantime", "4294967295")},
		{num33("nonce", "2083236893"), num33("nonce", "0"), num33("nonce", "4294967295")},
		{str33("bits", "1d00ffff"), str33("bits", "207fffff")},
		{flt33("difficulty", "1"), flt33("difficulty", "4.656542373906925e-10"), flt33("difficulty", "101646843652785.1"), flt33("difficulty", "0.1")},
		{str33("chainwork", "0000000000000000000000000000000000000000000000000000000100010001")},
		{str33("previousblockhash", hash33b), {"previousblockhash", "", ""}, str33("previousblockhash", "0000")},
		{str33("nextblockhash", hash33), {"nextblockhash", "", ""}, str33("nextblockhash", "")},
	}
}

func headerGot33(h *xrpc.BlockHeaderResult) []string {
	return []string{h.Hash, fmt.Sprint(h.Confirmations), fmt.Sprint(h.Height), fmt.Sprint(h.Version), h.VersionHex, h.MerkleRoot,
		fmt.Sprint(h.Time), fmt.Sprint(h.MedianTime), fmt.Sprint(h.Nonce), h.Bits, fmt.Sprint(h.Difficulty), h.ChainWork,
		string(h.PreviousBlockHash), string(h.NextBlockHash)}
}

func blockFields33() [][]kv33 {
	return [][]kv33{
		{str33("hash", hash33), str33("hash", "")},
		{num33("confirmations", "356931"), num33("confirmations", "-1"), num33("confirmations", "0"), num33("confirmations", "4294967296")},
		{num33("strippedsize", "752"), num33("strippedsize", "1000000")},
		{num33("size", "752"), num33("size", "4000000")},
		{num33("weight", "3008"), num33("weight", "4000000")},
		{num33("height", "151182"), num33("height", "0"), num33("height", "2147483648")},
		{num33("version", "2"), num33("version", "-2147483648"), num33("version", "2147483647")},
		{str33("versionHex", "00000002")},
		{str33("merkleroot", "6a3202aa744496c316b4ff78762da556667edf9372bf1cd86c4c7fa319c7ed57")},
		{num33("nTx", "1"), num33("nTx", "4294967295")},
		{num33("time", "1231006505"), num33("time", "4294967295")},
		{num33("nonce", "2083236893"), num33("nonce", "4294967295")},
		{str33("bits", "1d00ffff")},
		{flt33("difficulty", "1"), flt33("difficulty", "101646843652785.1")},
		{str33("chainwork", "0000000000000000000000000000000000000000000000000000000100010001")},
		{str33("previousblockhash", hash33b), {"previousblockhash", "", ""}},
		{str33("nextblockhash", hash33), {"nextblockhash", "", ""}},
	}
}

func blockGot33(b *xrpc.BlockResult) []string {
	return []string{b.Hash, fmt.Sprint(b.Confirmations), fmt.Sprint(b.StrippedSize), fmt.Sprint(b.Size), fmt.Sprint(b.Weight), fmt.Sprint(b.Height),
		fmt.Sprint(b.Version), b.VersionHex, b.MerkleRoot, fmt.Sprint(b.NTx), fmt.Sprint(b.Time), fmt.Sprint(b.Nonce), b.Bits, fmt.Sprint(b.Difficulty),
		b.ChainWork, b.PreviousHash, b.NextHash}
}

func txFields33() [][]kv33 {
	return [][]kv33{
		{str33("hex", "0100"), str33("hex", "")},
		{str33("txid", "5bcf4aaea160fa8e7f58d80006a0f929f7b0a7aeaf259c3f19a7e3b851edc9b6")},
		{num33("version", "1"), num33("version", "2"), num33("version", "-1"), num33("version", "4294967295"), num33("version", "-2147483648")},
		{num33("size", "148"), num33("size", "3999999")},
		{num33("vsize", "148"), num33("vsize", "999999")},
		{num33("weight", "592"), num33("weight", "4000000")},
		{num33("locktime", "0"), num33("locktime", "4294967295")},
	}
}

func txGot33(t *xrpc.TransactionResult) []string {
	return []string{t.Hex, t.Txid, fmt.Sprint(t.Version), fmt.Sprint(t.Size), fmt.Sprint(t.Vsize), fmt.Sprint(t.Weight), fmt.Sprint(t.LockTime)}
}

func vinFields33() [][]kv33 {
	return [][]kv33{
		{{"coinbase", "", ""}, str33("coinbase", "038e4e02")},
		{str33("txid", hash33b)},
		{num33("vout", "1"), num33("vout", "0"), num33("vout", "4294967295")},
		{{"scriptSig", `{"asm": "3044 02aa", "hex": "483044"}`, "3044 02aa|483044"}, {"scriptSig", "", "|"}},
		{num33("sequence", "4294967295"), num33("sequence", "0")},
	}
}

func vinGot33(v *xrpc.Vin) []string {
	return []string{v.Coinbase, v.Txid, fmt.Sprint(v.Vout), v.ScriptSig.Asm + "|" + v.ScriptSig.Hex, fmt.Sprint(v.Sequence)}
}

func voutFields33() [][]kv33 {
	return [][]kv33{
		{flt33("value", "50.00010000"), flt33("value", "0.00000001"), flt33("value", "20999999.97690000"), flt33("value", "0.00000000"), flt33("value", "1e-8")},
		{num33("n", "0"), num33("n", "65536")},
		{{"scriptPubKey", `{"asm": "OP_DUP", "hex": "76", "reqSigs": 1, "type": "pubkeyhash", "addresses": ["mgo", "mgp"]}`, "OP_DUP 76 1 pubkeyhash [mgo mgp]"},
			{"scriptPubKey", `{"asm": "OP_RETURN 00", "hex": "6a0100", "type": "nulldata"}`, "OP_RETURN 00 6a0100 0 nulldata []"},
			{"scriptPubKey", `{"asm": "", "hex": "", "type": "nonstandard", "addresses": []}`, "  0 nonstandard []"}},
	}
}

func voutGot33(v *xrpc.Vout) []string {
	s := v.ScriptPubKey
	return []string{fmt.Sprint(v.Value), fmt.Sprint(v.N), fmt.Sprintf("%s %s %d %s %v", s.Asm, s.Hex, s.ReqSigs, s.Type, s.Addresses)}
}

// variant picks one value per field: at most one field away from its usual value, or all of them.
func variant33(c *mc.Ctx, what string, fs [][]kv33) []kv33 {
	n := 0
	for _, f := range fs {
		n += len(f) - 1
	}
	k := c.Pick(what, n+2)
	out := make([]kv33, len(fs))
	for i, f := range fs {
		out[i] = f[0]
		if k == n+1 {
			out[i] = f[len(f)-1]
		}
	}
	if k > 0 && k <= n {
		k--
		for i, f := range fs {
			if k < len(f)-1 {
				out[i] = f[k+1]
				break
			}
			k -= len(f) - 1
		}
	}
	return out
}

func compare33(c *mc.Ctx, what string, want []kv33, got []string) {
	for i := range want {
		if want[i].want != got[i] {
			c.Fail("value", "%s %q: the node said %s, the caller got %q", what, want[i].name, want[i].text, got[i])
		}
	}
}

// call33 is one of the four calls; it gives the result in a comparable form.
type call33 struct {
	name, rpc string
	arg       func(i int) string // JSON of the first parameter, "" for none
	args      int
	do        func(cl *xrpc.Client, i int) (string, error)
	good      string // a result
	goodWant  string
}

var hashArgs33 = []string{hash33, "", "quote\"back\\slash", "\u2028é\x01", "</script>&", strings.Repeat("f", 3000)}
var heightArgs33 = []int{0, 1, -1, 800000, 1<<31 - 1, 1 << 31, -1 << 31, 1<<53 + 1, 1<<63 - 1, -1 << 63}

func sumHeader33(h *xrpc.BlockHeaderResult) string {
	if h == nil {
		return "nil"
	}
	return strings.Join(headerGot33(h), "|")
}

func sumBlock33(b *xrpc.BlockResult) string {
	if b == nil {
		return "nil"
	}
	s := strings.Join(blockGot33(b), "|")
	for i := range b.Tx {
		s += "\n" + strings.Join(txGot33(&b.Tx[i]), "|")
		for j := range b.Tx[i].Vin {
			s += "\n in " + strings.Join(vinGot33(&b.Tx[i].Vin[j]), "|")
		}
		for j := range b.Tx[i].Vout {
			s += "\n out " + strings.Join(voutGot33(&b.Tx[i].Vout[j]), "|")
		}
	}
	return s
}

func first33(fs [][]kv33) (o []kv33) {
	for _, f := range fs {
		o = append(o, f[0])
	}
	return
}

func wants33(fs []kv33) (o []string) {
	for _, f := range fs {
		o = append(o, f.want)
	}
	return
}

func calls33() []call33 {
	hashArg := func(i int) string { b, _ := json.Marshal(hashArgs33[i]); return string(b) }
	header := first33(headerFields33())
	vin, vout := first33(vinFields33()), first33(voutFields33())
	tx := append(first33(txFields33()), kv33{"vin", "[" + object33(vin) + "]", ""}, kv33{"vout", "[" + object33(vout) + "]", ""})
	block := append(first33(blockFields33()), kv33{"tx", "[" + object33(tx) + "]", ""})
	blockWant := strings.Join(wants33(first33(blockFields33())), "|") + "\n" + strings.Join(wants33(first33(txFields33())), "|") +
		"\n in " + strings.Join(wants33(vin), "|") + "\n out " + strings.Join(wants33(vout), "|")
	return []call33{
		{"GetBlockHash", "getblockhash", func(i int) string { return fmt.Sprint(heightArgs33[i]) }, len(heightArgs33),
			func(cl *xrpc.Client, i int) (string, error) { return cl.GetBlockHash(heightArgs33[i]) }, `"` + hash33 + `"`, hash33},
		{"GetBlockCount", "getblockcount", func(int) string { return "" }, 1,
			func(cl *xrpc.Client, i int) (string, error) { n, err := cl.GetBlockCount(); return fmt.Sprint(n), err }, "812345", "812345"},
		{"GetBlockHeader", "getblockheader", hashArg, len(hashArgs33),
			func(cl *xrpc.Client, i int) (string, error) {
				h, err := cl.GetBlockHeader(hashArgs33[i])
				if err == nil && h == nil {
					return "nil", nil
				}
				return sumHeader33(h), err
			}, object33(header), strings.Join(wants33(header), "|")},
		{"GetBlock", "getblock", hashArg, len(hashArgs33),
			func(cl *xrpc.Client, i int) (string, error) {
				b, err := cl.GetBlock(hashArgs33[i])
				return sumBlock33(b), err
			}, object33(block), blockWant},
	}
}

func c33(r *mc.Run) {
	r.Assume("the node is a server on the loopback interface; the client's own time-out (5 s) is only required to end a call within 60 s")
	calls := calls33()

	// what a call sends
	creds := [][2]string{{"user", "pass"}, {"", ""}, {"user", ""}, {"", "pass"}, {"u", "p:w:"}, {"useré", "päss wörd"}, {"u\"\\", "%41+ &"}, {"__cookie__", strings.Repeat("5e", 40)}}
	r.Explore("requests", mc.Opts{}, func(c *mc.Ctx) {
		cl := calls[c.Pick("call", len(calls))]
		i := c.Pick("argument", cl.args)
		cr := creds[c.Pick("credentials", len(creds))]
		n := ownNode33(func(request33) ([]byte, int) {
			return http33(200, `{"result":`+cl.good+`,"error":null,"id":0}`), keep33
		})
		defer n.close()
		got, err := cl.do(xrpc.NewClient(n.addr(), cr[0], cr[1]), i)
		c.Step(1)
		if err != nil || got != cl.goodWant {
			c.Fail("good", "%s: a good reply gave %q, %v", cl.name, got, err)
			return
		}
		n.mu.Lock()
		defer n.mu.Unlock()
		if len(n.seen) != 1 {
			c.Fail("request", "%s made %d requests", cl.name, len(n.seen))
			return
		}
		q := n.seen[0]
		if q.method != "POST" {
			c.Fail("request", "%s: HTTP method %s", cl.name, q.method)
		}
		if want := "Basic " + base64.StdEncoding.EncodeToString([]byte(cr[0]+":"+cr[1])); q.auth != want && !(cr[0] == "" && cr[1] == "" && q.auth == "") {
			c.Fail("credentials", "%s: Authorization %q, want %q", cl.name, q.auth, want)
		}
		var m struct {
			Method string
			Params []json.RawMessage
		}
		if err := json.Unmarshal(q.body, &m); err != nil {
			c.Fail("request", "%s: body %s: %v", cl.name, hx(q.body), err)
			return
		}
		if m.Method != cl.rpc {
			c.Fail("request", "%s: method %q", cl.name, m.Method)
		}
		if a := cl.arg(i); a == "" {
			c.Check(len(m.Params) == 0, "request", "%s: parameters %s", cl.name, m.Params)
		} else {
			ok := len(m.Params) >= 1
			if ok {
				var x, y interface{}
				d1, d2 := json.NewDecoder(bytes.NewReader(m.Params[0])), json.NewDecoder(strings.NewReader(a))
				d1.UseNumber()
				d2.UseNumber()
				ok = d1.Decode(&x) == nil && d2.Decode(&y) == nil && fmt.Sprintf("%T %v", x, x) == fmt.Sprintf("%T %v", y, y)
			}
			c.Check(ok, "request", "%s(%s): parameters %s", cl.name, a, m.Params)
			// the block has to come with its transactions, the header as an object
			switch cl.name {
			case "GetBlock":
				ok := false
				if len(m.Params) == 2 {
					v, err := strconv.Atoi(string(m.Params[1]))
					ok = err == nil && v >= 2
				}
				c.Check(ok, "request", "%s: parameters %s", cl.name, m.Params)
			case "GetBlockHeader":
				c.Check(len(m.Params) == 1 || string(m.Params[1]) == "true", "request", "%s: parameters %s", cl.name, m.Params)
			default:
				c.Check(len(m.Params) == 1, "request", "%s: parameters %s", cl.name, m.Params)
			}
		}
		c.StateS(fmt.Sprint(cl.name, i, cr))
		c.Valid(1)
	})

	// the shape of the reply
	type shape struct {
		text string
		good bool // has a usable result
	}
	shapesFor := func(cl call33) []shape {
		bad := map[string][]string{
			"GetBlockHash":   {"1", "true", "[]", "{}", `["x"]`},
			"GetBlockCount":  {`"1"`, "true", "[]", "{}", "1.5", "1e99", "99999999999999999999"},
			"GetBlockHeader": {`"x"`, "1", "true", "[]", `{"hash": 1}`, `{"height": "1"}`, `{"nonce": 1.5}`},
			"GetBlock":       {`"x"`, "1", "true", "[]", `{"hash": 1}`, `{"tx": ["txid"]}`, `{"tx": {}}`, `{"tx": [{"vin": "x"}]}`},
		}[cl.name]
		out := []shape{{cl.good, true}, {"", false}, {"null", false}, {"  null ", false}}
		for _, b := range bad {
			out = append(out, shape{b, false})
		}
		return out
	}
	errors := []struct {
		text string
		bad  bool
	}{{"", false}, {"null", false}, {`{"code": -8, "message": "Block height out of range"}`, true}, {`{"code": 0, "message": ""}`, true}, {`{}`, true},
		{`{"code": -32601}`, true}, {`"text"`, true}, {`{"code": "x", "message": 5}`, true}, {"7", true}, {"[]", true}}
	statuses := []int{200, 500, 404, 401, 403, 400, 503, 300, 204, 302}
	type wrap struct {
		pre, post string
		good      bool
	}
	wraps := []wrap{{"", "", true}, {"", "\n", true}, {" \r\n\t", "  \n", true}, {"[", "]", false}, {"", "}", false}, {"", "garbage", false}, {"", `{"result":5}`, false}, {"x", "", false},
		{"\xef\xbb\xbf", "", false}, {`"`, `"`, false}, {"", ",", false}, {"", "\x00", false}}
	type extra struct {
		text string
		good bool
	}
	extras := []extra{{`"id":0`, true}, {`"id":0,"jsonrpc":"1.0","warnings":["w"],"time":{"x":[1,{}]}`, true}, {"", true}, {`"id":null`, true}, {`"id":5`, false}, {`"id":"curltest"`, false}, {`"id":[]`, false}, {`"id":0,"x":`, false}}
	r.Explore("reply shapes", mc.Opts{MaxDev: r.Q(2, 4)}, func(c *mc.Ctx) {
		cl := calls[c.Pick("call", len(calls))]
		shapes := shapesFor(cl)
		sh := shapes[c.Pick("result", len(shapes))]
		er := errors[c.Pick("error", len(errors))]
		st := statuses[c.Dev("status", len(statuses))]
		w := wraps[c.Dev("around the body", len(wraps))]
		ex := extras[c.Dev("other fields", len(extras))]
		order := c.Dev("order", 2)
		var parts []string
		if sh.text != "" {
			parts = append(parts, `"result":`+sh.text)
		}
		if er.text != "" {
			parts = append(parts, `"error":`+er.text)
		}
		if ex.text != "" {
			parts = append(parts, ex.text)
		}
		if order == 1 {
			for i, j := 0, len(parts)-1; i < j; i, j = i+1, j-1 {
				parts[i], parts[j] = parts[j], parts[i]
			}
		}
		body := w.pre + "{" + strings.Join(parts, ",") + "}" + w.post
		check33(c, cl, body, st, sh.good && !er.bad && w.good && ex.good, er.bad, sh.good && ex.text != "" && !ex.good)
	})

	// bodies that are not replies at all
	bodies := []string{"", " ", "\n", "null", "true", "0", `"x"`, "[]", "[null]", "{}", "{", "}", "<html>502 Bad Gateway</html>", "\x00", "\xff\xfe{\x00", "{\"result\"}", "{\"result\":}", "{'result':1}",
		"nul", "[{\"result\":1}]", strings.Repeat("[", 20000), strings.Repeat(`{"result":`, 20000), "{\"result\":" + strings.Repeat("[", 11000)}
	r.Explore("bodies that are no reply", mc.Opts{}, func(c *mc.Ctx) {
		cl := calls[c.Pick("call", len(calls))]
		b := bodies[c.Pick("body", len(bodies))]
		st := statuses[c.Pick("status", len(statuses))]
		check33(c, cl, b, st, false, false, false)
	})

	// the values of the results
	r.Explore("header values", mc.Opts{}, func(c *mc.Ctx) {
		fs := variant33(c, "fields", headerFields33())
		n := ownNode33(func(request33) ([]byte, int) {
			return http33(200, `{"result":`+object33(fs)+`,"error":null,"id":0}`), keep33
		})
		defer n.close()
		h, err := n.client().GetBlockHeader(hash33)
		c.Step(1)
		if err != nil || h == nil {
			c.Fail("value", "GetBlockHeader of %s: %v", object33(fs), err)
			return
		}
		compare33(c, "header", fs, headerGot33(h))
		c.StateS(object33(fs))
		c.Valid(1)
	})
	r.Explore("block values", mc.Opts{}, func(c *mc.Ctx) {
		part := c.Pick("part", 5)
		get := func(i int, what string, fs [][]kv33) []kv33 {
			if i == part {
				return variant33(c, what, fs)
			}
			return first33(fs)
		}
		bf, tf, inf, outf := get(0, "block", blockFields33()), get(1, "transaction", txFields33()), get(2, "input", vinFields33()), get(3, "output", voutFields33())
		ntx, nin, nout := 2, 2, 2
		if part == 4 {
			ntx, nin, nout = c.Pick("transactions", 4), c.Pick("inputs", 4), c.Pick("outputs", 4)
		}
		many := func(n int, s string) string {
			var o []string
			for i := 0; i < n; i++ {
				o = append(o, s)
			}
			return "[" + strings.Join(o, ", ") + "]"
		}
		tx := append(append([]kv33{}, tf...), kv33{"vin", many(nin, object33(inf)), ""}, kv33{"vout", many(nout, object33(outf)), ""})
		obj := object33(append(append([]kv33{}, bf...), kv33{"tx", many(ntx, object33(tx)), ""}))
		n := newNode33(func(request33) ([]byte, int) { return http33(200, `{"result":`+obj+`,"error":null,"id":0}`), keep33 })
		defer n.close()
		b, err := n.client().GetBlock(hash33)
		c.Step(1)
		c.StateS(obj)
		c.Valid(1)
		if err != nil || b == nil {
			c.Fail("value", "GetBlock of %s: %v", short33(obj), err)
			return
		}
		compare33(c, "block", bf, blockGot33(b))
		if len(b.Tx) != ntx {
			c.Fail("value", "%d transactions instead of %d", len(b.Tx), ntx)
			return
		}
		for i := range b.Tx {
			t := &b.Tx[i]
			compare33(c, "transaction", tf, txGot33(t))
			if len(t.Vin) != nin || len(t.Vout) != nout {
				c.Fail("value", "%d inputs and %d outputs instead of %d and %d", len(t.Vin), len(t.Vout), nin, nout)
				return
			}
			for j := range t.Vin {
				compare33(c, "input", inf, vinGot33(&t.Vin[j]))
			}
			for j := range t.Vout {
				compare33(c, "output", outf, voutGot33(&t.Vout[j]))
			}
		}
	})
	scal := []struct {
		call       int
		text, want string
	}{{0, `""`, ""}, {0, `"é\n\"\u0041"`, "é\n\"A"}, {0, `"` + strings.Repeat("ab", 50000) + `"`, strings.Repeat("ab", 50000)},
		{1, "0", "0"}, {1, "-1", "-1"}, {1, "2147483648", "2147483648"}, {1, "9223372036854775807", "9223372036854775807"}}
	r.Explore("scalar values", mc.Opts{}, func(c *mc.Ctx) {
		s := scal[c.Pick("value", len(scal))]
		cl := calls[s.call]
		n := newNode33(func(request33) ([]byte, int) { return http33(200, `{"result":`+s.text+`,"error":null,"id":0}`), keep33 })
		defer n.close()
		got, err := cl.do(n.client(), 0)
		c.Step(1)
		c.StateS(s.text)
		c.Valid(1)
		if err != nil || got != s.want {
			c.Fail("value", "%s of %s: %s, %v", cl.name, short33(s.text), short33(got), err)
		}
	})

	// the connection breaks off after every byte of the reply
	r.Explore("truncation at every byte", mc.Opts{}, func(c *mc.Ctx) {
		cl := calls[c.Pick("call", len(calls))]
		body := `{"result":` + cl.good + `,"error":null,"id":0}`
		framing := c.Pick("framing", 3)
		var raw []byte
		switch framing {
		case 0:
			raw = http33(200, body+"\n")
		case 1: // ended by the close
			raw = []byte("HTTP/1.1 200 OK\r\nConnection: close\r\n\r\n" + body)
		case 2:
			raw = []byte("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n")
			for i := 0; i < len(body); i += 60 {
				j := i + 60
				if j > len(body) {
					j = len(body)
				}
				raw = append(raw, fmt.Sprintf("%x\r\n%s\r\n", j-i, body[i:j])...)
			}
			raw = append(raw, "0\r\n\r\n"...)
		}
		stride := 1
		if r.Quick() && len(raw) > 1000 {
			stride = 3
		}
		cut := len(raw) - stride*c.Pick("cut off", len(raw)/stride+1)
		if cut < 0 {
			cut = 0
		}
		n := newNode33(func(request33) ([]byte, int) { return raw[:cut], close33 })
		defer n.close()
		got, err := cl.do(n.client(), 0)
		c.Step(1)
		c.StateS(fmt.Sprint(cl.name, framing, cut))
		c.Valid(1)
		if cut == len(raw) {
			c.Check(err == nil && got == cl.goodWant, "good", "%s: a good reply gave %q, %v", cl.name, short33(got), err)
			return
		}
		whole := bytes.Contains(raw[:cut], []byte(`"id":0}`)) || framing == 2 && cut > len(raw)-8
		if err == nil && !(whole && got == cl.goodWant) {
			c.Fail("truncated", "%s: the reply broke off after %d of %d bytes and the call gave %q", cl.name, cut, len(raw), short33(got))
		}
	})

	// a good reply that comes in pieces, however large
	r.Explore("replies in pieces", mc.Opts{}, func(c *mc.Ctx) {
		cl := calls[c.Pick("call", len(calls))]
		pad := []int{0, 1, 2000, 70000, 1 << 20, 1<<20 + 7, 5 << 20, 17 << 20}[c.Pick("padding", 8)]
		framing := c.Pick("framing", 3)
		body := `{"result":` + cl.good + strings.Repeat(" ", pad) + `,"error":null,"id":0}`
		if c.Bool("unknown field") {
			body = `{"more":"` + strings.Repeat("x", pad) + `","result":` + cl.good + `,"error":null,"id":0}`
		}
		var raw []byte
		after := keep33
		switch framing {
		case 0:
			raw = http33(200, body)
		case 1:
			raw, after = []byte("HTTP/1.1 200 OK\r\nConnection: close\r\n\r\n"+body), close33
		case 2:
			half := len(body) / 2
			raw = []byte(fmt.Sprintf("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n%x\r\n%s\r\n0\r\n\r\n", half, body[:half], len(body)-half, body[half:]))
		}
		head := bytes.Index(raw, []byte("\r\n\r\n")) + 4
		splits := 9
		if pad > 2<<20 {
			splits = 1
		}
		split := [][]int{nil, {1}, {head - 1}, {head}, {head + 1}, {head, head + 5}, {head + 4, len(raw) / 2}, {len(raw) - 1}, {head, len(raw) - 3}}[c.Pick("split", splits)]
		n := newNode33(func(request33) ([]byte, int) { return raw, after })
		n.split = split
		defer n.close()
		got, err := cl.do(n.client(), 0)
		c.Step(1)
		c.Valid(1)
		c.StateS(fmt.Sprint(cl.name, framing, pad, split))
		c.Check(err == nil && got == cl.goodWant, "pieces", "%s: a good reply of %d bytes in pieces %v gave %q, %v", cl.name, len(raw), split, short33(got), err)
	})

	// there is no node, or it is silent
	r.Explore("no connection, silence", mc.Opts{Timed: 120, Serial: true}, func(c *mc.Ctx) {
		kind := c.Pick("fault", 3)
		type res struct {
			i   int
			got string
			err error
		}
		ch := make(chan res, len(calls))
		for i := range calls {
			i, cl := i, calls[i]
			raw := http33(200, `{"result":`+cl.good+`,"error":null,"id":0}`)
			n := ownNode33(func(request33) ([]byte, int) {
				switch kind {
				case 1:
					return nil, stall33
				default:
					return raw[:len(raw)-12], stall33
				}
			})
			if kind == 0 {
				n.close()
			} else {
				defer n.close()
			}
			go func() {
				got, err := cl.do(n.client(), 0)
				ch <- res{i, got, err}
			}()
		}
		late := time.After(60 * time.Second)
		for range calls {
			select {
			case x := <-ch:
				c.Step(1)
				c.Check(x.err != nil, "fault", "%s: fault %d and no error (%q)", calls[x.i].name, kind, short33(x.got))
			case <-late:
				c.Fail("hang", "a call to a node that is silent did not end within a minute")
				return
			}
		}
		c.StateS(fmt.Sprint(kind))
		c.Valid(1)
	})

	// calls made at the same time on one client: the node answers them in every order
	r.Explore("calls at the same time", mc.Opts{}, func(c *mc.Ctx) {
		k := 3
		perm := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[c.Pick("order of the replies", 6)]
		what := make([]int, k)
		for i := range what {
			what[i] = c.Pick("call", 3)
		}
		fail := c.Pick("which fails", k+1)
		gates := make([]chan struct{}, k)
		for i := range gates {
			gates[i] = make(chan struct{})
		}
		idx := func(q request33) int {
			for i := 0; i < k; i++ {
				if bytes.Contains(q.body, []byte(fmt.Sprintf("77%d", i))) {
					return i
				}
			}
			return -1
		}
		var ready sync.WaitGroup
		ready.Add(k)
		n := newNode33(func(q request33) ([]byte, int) {
			i := idx(q)
			if i < 0 {
				return nil, close33
			}
			ready.Done()
			<-gates[i]
			if i == fail {
				return http33(500, `{"result":null,"error":{"code":-8,"message":"no"},"id":0}`), close33
			}
			name := fmt.Sprintf("reply 77%d", i)
			body := `"` + name + `"`
			if what[i] > 0 {
				body = `{"hash":` + body + `}`
			}
			return http33(200, `{"result":`+body+`,"error":null,"id":0}`), keep33
		})
		defer n.close()
		cl := n.client()
		got := make([]string, k)
		errs := make([]error, k)
		done := make([]chan struct{}, k)
		for i := 0; i < k; i++ {
			i := i
			done[i] = make(chan struct{})
			go func() {
				defer close(done[i])
				switch what[i] {
				case 0:
					got[i], errs[i] = cl.GetBlockHash(770 + i)
				case 1:
					h, err := cl.GetBlockHeader(fmt.Sprintf("77%d", i))
					if errs[i] = err; h != nil {
						got[i] = h.Hash
					}
				case 2:
					b, err := cl.GetBlock(fmt.Sprintf("77%d", i))
					if errs[i] = err; b != nil {
						got[i] = b.Hash
					}
				}
			}()
		}
		ready.Wait()
		for _, i := range perm {
			close(gates[i])
			<-done[i]
			c.Step(1)
		}
		for i := 0; i < k; i++ {
			if i == fail {
				c.Check(errs[i] != nil, "node-error", "the node's error was not reported (%q)", got[i])
			} else if want := fmt.Sprintf("reply 77%d", i); errs[i] != nil || got[i] != want {
				c.Fail("mixed-up", "call %d got %q, %v", i, got[i], errs[i])
			}
		}
		c.StateS(fmt.Sprint(perm, what, fail))
		c.Valid(1)
	})
}

func short33(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

// check33 sends the body as the reply with the HTTP status. good: it is a reply with a result, so that with status 200
// the result has to come back. maybe: the reply has a result but its id is not ours: the result or an error.
func check33(c *mc.Ctx, cl call33, body string, status int, good, nodeErr, maybe bool) {
	n := newNode33(func(request33) ([]byte, int) { return http33(status, body), after33(status) })
	defer n.close()
	got, err := cl.do(n.client(), 0)
	c.Step(1)
	c.StateS(fmt.Sprint(cl.name, status, body))
	c.Valid(1)
	switch {
	case good && status == 200:
		if err != nil || got != cl.goodWant {
			c.Fail("good", "%s: reply %q gave %q, %v", cl.name, short33(body), short33(got), err)
		}
	case err == nil && maybe && status == 200 && !nodeErr && got == cl.goodWant && json.Valid([]byte(body)):
	case err == nil && nodeErr:
		c.Fail("node-error", "%s: HTTP status %d, reply %q: no error, result %q", cl.name, status, short33(body), short33(got))
	case err == nil && status != 200:
		c.Fail("http-status", "%s: HTTP status %d, reply %q: no error, result %q", cl.name, status, short33(body), short33(got))
	case err == nil:
		c.Fail("no-result", "%s: reply %q: no error, result %q", cl.name, short33(body), short33(got))
	}
	c.Outcome(errStr(err))
}
