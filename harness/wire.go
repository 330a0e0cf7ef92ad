package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

// Requests as bytes on the wire, which no well-behaved client library sends.

// checkWire: args are what is done and an asset's path.
func checkWire(c *Ctx, a []string) bool {
	s := theServer(c)
	if s == nil {
		return true
	}
	what, path := a[0], a[1]
	arg := ""
	if len(a) > 2 {
		arg = a[2]
	}
	n, _ := strconv.Atoi(arg)
	addr := net.JoinHostPort(s.host, fmt.Sprint(s.port))
	k, err := net.DialTimeout("tcp", addr, 10*time.Second)
	if err != nil {
		c.Fail("wire", "%v", err)
		return true
	}
	defer k.Close()
	k.SetDeadline(time.Now().Add(60 * time.Second))
	r := bufio.NewReader(k)
	answer := func(i int) bool {
		rsp, err := http.ReadResponse(r, nil)
		if err != nil {
			c.Fail("wire", "%s %s, request %d: %v", what, path, i+1, err)
			return false
		}
		got, err := io.ReadAll(rsp.Body)
		rsp.Body.Close()
		switch {
		case err != nil:
			c.Fail("wire", "%s %s, request %d: %v", what, path, i+1, err)
		case rsp.StatusCode != 200:
			c.Fail("wire", "%s %s, request %d has status %d", what, path, i+1, rsp.StatusCode)
		case !bytes.Equal(got, assets()[path]):
			c.Fail("wire", "%s %s, request %d: %d bytes which are not the file's %d", what, path, i+1, len(got), len(assets()[path]))
		case !typeFits(path, rsp.Header.Get("Content-Type")):
			c.Fail("type", "%s %s has content type %q", what, path, rsp.Header.Get("Content-Type"))
		default:
			c.Count("wire: " + what)
			return true
		}
		return false
	}
	host := fmt.Sprintf("%s:%d", s.host, s.port)
	switch what {
	case "1.0":
		fmt.Fprintf(k, "GET %s HTTP/1.0\r\n\r\n", path)
		answer(0)
	case "host":
		fmt.Fprintf(k, "GET %s HTTP/1.1\r\nHost: %s\r\nConnection: close\r\n\r\n", path, arg)
		answer(0)
	case "absolute":
		fmt.Fprintf(k, "GET http://%s%s HTTP/1.1\r\nHost: %s\r\nConnection: close\r\n\r\n", arg, path, arg)
		answer(0)
	case "query":
		fmt.Fprintf(k, "GET %s?%s HTTP/1.1\r\nHost: %s\r\nConnection: close\r\n\r\n", path, arg, host)
		answer(0)
	case "headers":
		var sb strings.Builder
		for i := 0; sb.Len() < n; i++ {
			fmt.Fprintf(&sb, "X-Header-%d: %s\r\n", i, strings.Repeat("v", 300))
		}
		fmt.Fprintf(k, "GET %s HTTP/1.1\r\nHost: %s\r\nCookie: a=%s\r\n%sConnection: close\r\n\r\n", path, host, strings.Repeat("c", n/4), sb.String())
		answer(0)
	case "body":
		fmt.Fprintf(k, "GET %s HTTP/1.1\r\nHost: %s\r\nContent-Length: %d\r\nConnection: close\r\n\r\n%s", path, host, n, strings.Repeat("x", n))
		answer(0)
	case "keep":
		for i := 0; i < n; i++ {
			if _, err := fmt.Fprintf(k, "GET %s HTTP/1.1\r\nHost: %s\r\n\r\n", path, host); err != nil {
				c.Fail("wire", "%s %s, request %d: %v", what, path, i+1, err)
				break
			}
			if !answer(i) {
				break
			}
		}
	case "pipeline":
		go k.Write([]byte(strings.Repeat(fmt.Sprintf("GET %s HTTP/1.1\r\nHost: %s\r\n\r\n", path, host), n)))
		for i := 0; i < n; i++ {
			if !answer(i) {
				break
			}
		}
	case "idle", "pause":
		// a client which is slow to ask; pause: in the middle of its request
		req := fmt.Sprintf("GET %s HTTP/1.1\r\nHost: %s\r\nConnection: close\r\n\r\n", path, host)
		i := 0
		if what == "pause" {
			i = len(req) / 2
		}
		io.WriteString(k, req[:i])
		time.Sleep(time.Duration(n) * time.Millisecond)
		io.WriteString(k, req[i:])
		answer(0)
	case "bytes":
		for _, b := range []byte(fmt.Sprintf("GET %s HTTP/1.1\r\nHost: %s\r\nConnection: close\r\n\r\n", path, host)) {
			k.Write([]byte{b})
			time.Sleep(2 * time.Millisecond)
		}
		answer(0)
	case "after garbage":
		for i, g := range []string{"", "\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03", "GET", "GET / HTTP/1.1\r\nHost: x\r\n", "\r\n\r\n\r\n", "GET /\x00 HTTP/1.1\r\n\r\n", "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n",
			"POST / HTTP/1.1\r\nHost: x\r\nContent-Length: 1000000\r\n\r\nx", "GET / HTTP/9.9\r\n\r\n", "GET / HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n", "GET " + strings.Repeat("/a", 5000) + " HTTP/1.1\r\n\r\n",
			"GET / HTTP/1.1\r\nHost: x\r\nRange: bytes=9-1,2-,x\r\n\r\n", "GET / HTTP/1.1\r\nHost: x\r\nX: " + strings.Repeat("y", 1<<16)} {
			j, err := net.DialTimeout("tcp", addr, 10*time.Second)
			if err != nil {
				c.Fail("wire", "after garbage: %v", err)
				return true
			}
			io.WriteString(j, g)
			if i%2 == 0 {
				j.(*net.TCPConn).SetLinger(0)
			}
			j.Close()
		}
		fmt.Fprintf(k, "GET %s HTTP/1.1\r\nHost: %s\r\nConnection: close\r\n\r\n", path, host)
		answer(0)
	default:
		panic(what)
	}
	return true
}

func wireTasks(tier string) (ts []Task) {
	for _, p := range assetPaths() {
		if p == "/index.html" { // which may redirect
			continue
		}
		p := p
		ts = append(ts, Task{"wire", func(c *Ctx) {
			c.Case("wire", "1.0", p)
			for _, h := range []string{"localhost", "127.0.0.1", "LOCALHOST:8080", "example.com", "example.com:80", "[::1]:8080", "xn--bcher-kva.example", "sub.domain.example.org", "127.0.0.1.", "evil.example"} {
				c.Case("wire", "host", p, h)
				c.Case("wire", "absolute", p, h)
			}
			for _, q := range []string{"", "v=1.2.3", "1700000000", "a=b&c=d", "x=../../etc/passwd", "edtf=2004-06%2F2005", "path=/wasm/", "q=" + strings.Repeat("a", 3000)} {
				c.Case("wire", "query", p, q)
			}
			c.Case("wire", "headers", p, "3000")
			c.Case("wire", "headers", p, "32000")
			c.Case("wire", "body", p, "5")
			c.Case("wire", "keep", p, "150")
			c.Case("wire", "pipeline", p, "30")
			c.Case("wire", "bytes", p)
			c.Case("wire", "after garbage", p)
		}}, Task{"wire, slow", func(c *Ctx) {
			ms := 2500
			if p == "/" || c.Thorough() {
				ms = 4000
			}
			c.Case("wire", "idle", p, strconv.Itoa(ms))
			c.Case("wire", "pause", p, strconv.Itoa(ms))
		}})
	}
	return
}

// decoys makes a directory with files of the names which the server has within it.
func decoys(dir string) error {
	for p := range assets() {
		if strings.HasSuffix(p, "/") {
			p += "index.html"
		}
		for _, at := range []string{"", "www", "app/server/www", "static", "public"} {
			f := filepath.Join(dir, at, p)
			if err := os.MkdirAll(filepath.Dir(f), 0o755); err != nil {
				return err
			}
			if err := os.WriteFile(f, []byte("not the server's"), 0o644); err != nil {
				return err
			}
		}
	}
	return nil
}
