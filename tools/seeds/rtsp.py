
seed("c34-session-auth","C34",[("net/rtsp/message.go","	if r.Auth != \"\" {\n		buf.WriteString(HeaderAuthorization)","	if r.Auth != \"\" && r.Header[HeaderAuthorization] == \"\" && r.Cseq > 0 {\n		buf.WriteString(HeaderAuthorization)")],
"net/rtsp","""
package rtsp

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, n := range []int{1, 0} {
		r := &Request{Verb: "PLAY", URI: "rtsp://h/", Cseq: n, Auth: "Basic eA==", Session: "1"}
		if s := string(r.Pack()); !strings.Contains(s, "\\r\\nAuthorization: Basic eA==\\r\\n") {
			t.Fatal(s)
		}
	}
}
""","a request whose number is zero","the Authorization header is left out")
seed("c34-session-verb","C34",[("net/rtsp/message.go","r.Session != \"\" && r.Verb != VerbOptions && r.Verb != VerbSetup","r.Session != \"\" && (r.Verb == VerbPlay || r.Verb == VerbPause || r.Verb == VerbTeardown)")],
"net/rtsp","""
package rtsp

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, v := range []string{"PLAY", "PAUSE", "TEARDOWN", "DESCRIBE", "GET_PARAMETER"} {
		r := &Request{Verb: v, URI: "rtsp://h/", Cseq: 2, Session: "1234"}
		if s := string(r.Pack()); !strings.Contains(s, "\\r\\nSession: 1234\\r\\n") {
			t.Fatal(s)
		}
	}
}
""","a DESCRIBE or GET_PARAMETER in an established session","the Session header is left out")
seed("c35-pair-equal","C35",[("net/rtsp/transport.go","	return strconv.Itoa(p.One) + \"-\" + strconv.Itoa(p.Two)","	if p.Two == p.One+1 || p.Two < p.One {\n		return strconv.Itoa(p.One)\n	}\n	return strconv.Itoa(p.One) + \"-\" + strconv.Itoa(p.Two)")],
"net/rtsp","""
package rtsp

import "testing"

func TestDemo(t *testing.T) {
	a := Transport{IsInterleaved: true, IsTCP: true, Interleave: Pair{One: 4, Two: 5}}
	var b Transport
	if err := b.Parse(a.String()); err != nil || a != b {
		t.Fatal(err, a, b)
	}
}
""","a transport whose pair has consecutive or descending numbers","the second number of the pair is lost")
seed("c35-error-order","C35",[("net/rtsp/transport.go","		if err != nil {\n			return\n		}\n	}\n	return\n}\n\n// ParsePair","	}\n	return\n}\n\n// ParsePair")],
"net/rtsp","""
package rtsp

import "testing"

func TestDemo(t *testing.T) {
	for _, s := range []string{"RTP/AVP;ttl=x", "RTP/AVP;ttl=x;append", "RTP/AVP;ttl=x;port=4-5", "RTP/AVP;layers;interleaved=0-1"} {
		var b Transport
		if err := b.Parse(s); err == nil {
			t.Fatal(s)
		}
	}
}
""","a malformed parameter followed by a well-formed numeric one","the error of the first is overwritten and parsing reports success")
seed("c35-pair-second","C35",[("net/rtsp/transport.go","			p.Two = p.One + 1\n		}","			p.Two, err = p.One+1, nil\n		}")],
"net/rtsp","""
package rtsp

import "testing"

func TestDemo(t *testing.T) {
	for _, s := range []string{"RTP/AVP;port=x-5", "RTP/AVP;port=4-x", "RTP/AVP;port=4-"} {
		var b Transport
		if err := b.Parse(s); err == nil {
			t.Fatal(s)
		}
	}
}
""","a pair whose second number is malformed","parsing reports success")
seed("c36-qop-list","C36",[("net/rtsp/digest.go","				if len(vals) > 0 {","				if len(vals) == 1 {")],
"net/rtsp","""
package rtsp

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, q := range []string{"auth", "auth-int", "auth,auth-int"} {
		d, err := NewDigest("rtsp://h/", `Digest realm="r", nonce="n", qop="`+q+`"`)
		if err != nil {
			t.Fatal(err)
		}
		f := d.Authenticate("u", "p")
		if a := f("PLAY", nil); !strings.Contains(a, ", nc=00000001, ") {
			t.Fatal(q, a)
		}
	}
}
""","a challenge that offers more than one quality of protection","the response is computed without qop")
seed("c36-count-width","C36",[("net/rtsp/digest.go","	d.nc = fmt.Sprintf(\"%08x\", d.count)","	d.nc = fmt.Sprintf(\"%08x\", d.count&^1|1)")],
"net/rtsp","""
package rtsp

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	d, _ := NewDigest("rtsp://h/", `Digest realm="r", nonce="n", qop="auth"`)
	f := d.Authenticate("u", "p")
	seen := map[string]bool{}
	for i := 0; i < 6; i++ {
		a := f("PLAY", nil)
		nc := a[strings.Index(a, "nc=")+3:][:8]
		if seen[nc] {
			t.Fatal("repeated", nc)
		}
		seen[nc] = true
	}
}
""","two requests authorized with one challenge","every second nonce count repeats the one before")
seed("c36-sess-order","C36",[("net/rtsp/digest.go","		d.ha2 = md5hex(colonnade(verb, d.uri, md5hex(body)))","		d.ha2 = md5hex(colonnade(verb, d.uri))\n		if len(body) > 0 {\n			d.ha2 = md5hex(colonnade(verb, d.uri, md5hex(body)))\n		}")],
"net/rtsp","""
package rtsp

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, body := range []string{"", "x"} {
		d, _ := NewDigest("rtsp://h/", `Digest realm="r", nonce="n", qop="auth-int"`)
		f := d.Authenticate("u", "p")
		d.cnonce = "abcdefgh"
		a := f("PLAY", []byte(body))
		h := func(s string) string { return md5hex([]byte(s)) }
		want := h(h("u:r:p") + ":n:00000001:abcdefgh:auth-int:" + h("PLAY:rtsp://h/:"+h(body)))
		if !strings.Contains(a, want) {
			t.Fatal(body, a)
		}
	}
}
""","auth-int with an empty body (every request of this client)","the hash of the empty body is left out of HA2")
