package zzverif

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strconv"
	"testing"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/fetcher"
)

// scriptedBody yields content in small pieces, then fails or ends; it counts
// the bytes taken from it.
type scriptedBody struct {
	data  []byte
	piece int
	err   error
	taken int
	shut  bool
}

func (b *scriptedBody) Read(p []byte) (int, error) {
	if len(b.data) == 0 {
		if b.err != nil {
			return 0, b.err
		}
		return 0, io.EOF
	}
	n := min(len(p), b.piece, len(b.data))
	copy(p, b.data[:n])
	b.data = b.data[n:]
	b.taken += n
	return n, nil
}
func (b *scriptedBody) Close() error { b.shut = true; return nil }

type scriptedTransport struct {
	reply func(*http.Request) (*http.Response, error)
	urls  []string
}

func (s *scriptedTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	s.urls = append(s.urls, r.Method+" "+r.URL.String())
	return s.reply(r)
}

func TestC17(t *testing.T) {
	h := start(t, "C17", "the default fetcher over a scripted transport: statuses, absent, accurate, lying and malformed length headers, bodies of every length around the limit, failing reads and failing requests; non-trivial: all")
	defer h.done()
	old := http.DefaultTransport
	defer func() { http.DefaultTransport = old }()
	r := h.rng
	f := &fetcher.DefaultFetcher{}
	statuses := []int{200, 200, 200, 200, 201, 202, 203, 204, 206, 100, 299, 300, 304, 400, 401, 403, 404, 410, 418, 429, 500, 503, 599}
	headers := []string{"", "=", "=", "<", ">", "-1", "0", "99999999999999", "99999999999999999999", "x", "1e3", " 5", "+3"}
	for c := 0; c < h.n(6000) && h.more(); c++ {
		limit := int64(r.Intn(40))
		if r.Intn(10) == 0 {
			limit = int64(4000 + r.Intn(4000))
		}
		n := int(limit) + r.Intn(7) - 3
		if r.Intn(5) == 0 {
			n = r.Intn(int(limit) + 1)
		}
		if r.Intn(12) == 0 {
			n = int(limit)*3 + 5000
		}
		if n < 0 {
			n = 0
		}
		body := make([]byte, n)
		r.Read(body)
		sb := &scriptedBody{data: append([]byte{}, body...), piece: 1 + r.Intn(9)}
		if n > 1000 {
			sb.piece = 1 + r.Intn(3000)
		}
		cut := -1
		if r.Intn(6) == 0 { // the read fails after cut bytes
			cut = r.Intn(n + 1)
			sb.data = sb.data[:cut]
			sb.err = []error{io.ErrUnexpectedEOF, errors.New("connection reset"), &http.MaxBytesError{Limit: 1}}[r.Intn(3)]
		}
		st := statuses[r.Intn(len(statuses))]
		hd := headers[r.Intn(len(headers))]
		switch hd {
		case "=":
			hd = strconv.Itoa(n)
		case "<":
			hd = strconv.Itoa(n / 2)
		case ">":
			hd = strconv.Itoa(n + 1 + r.Intn(3))
		}
		var reqErr error
		if r.Intn(12) == 0 {
			reqErr = errors.New("no route")
		}
		tr := &scriptedTransport{reply: func(q *http.Request) (*http.Response, error) {
			if reqErr != nil {
				return nil, reqErr
			}
			res := &http.Response{StatusCode: st, Status: strconv.Itoa(st), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: sb, ContentLength: -1, Request: q}
			if hd != "" {
				res.Header.Set("Content-Length", hd)
				if v, err := strconv.ParseInt(hd, 10, 64); err == nil {
					res.ContentLength = v
				}
			}
			return res, nil
		}}
		http.DefaultTransport = tr
		url := fmt.Sprintf("http://repo.example/%d/x.json", c)
		desc := js(map[string]any{"limit": limit, "body": n, "status": st, "length header": hd, "read fails after": cut, "request fails": reqErr != nil})
		h.count(desc)
		h.guard("fetch", desc, func() {
			data, err := f.DownloadFile(url, limit, 5*time.Second)
			if err != nil && len(data) != 0 {
				h.fail("content-with-error", "content is returned together with an error", "input", desc)
			}
			if len(tr.urls) != 1 || tr.urls[0] != "GET "+url {
				h.fail("request", fmt.Sprintf("requests sent: %q", tr.urls), "input", desc)
			}
			if int64(sb.taken) > limit+1 {
				h.fail("overread", fmt.Sprintf("%d bytes were read with a limit of %d", sb.taken, limit), "input", desc)
			}
			if err == nil {
				h.stat("content")
				switch {
				case reqErr != nil || cut >= 0 && int64(cut) <= limit:
					h.fail("failure-hidden", "a failing request or read is not reported", "input", desc)
				case st != 200:
					h.fail("status", "content is returned for a status other than 200", "input", desc)
				case int64(len(data)) > limit:
					h.fail("limit", fmt.Sprintf("%d bytes returned with a limit of %d", len(data), limit), "input", desc)
				case !bytes.Equal(data, body):
					h.fail("incomplete", fmt.Sprintf("%d bytes returned of a body of %d", len(data), n), "input", desc)
				}
				if _, perr := strconv.ParseInt(hd, 10, 64); hd != "" && perr != nil {
					h.fail("header", "a malformed length header is not reported", "input", desc)
				}
				return
			}
			if reqErr != nil {
				return
			}
			var he metadata.ErrDownloadHTTP
			if st != 200 && st != 100 {
				if !errors.As(err, &he) || he.StatusCode != st {
					h.fail("status-error", fmt.Sprintf("status %d is reported as %v", st, err), "input", desc)
				}
				return
			}
			if st == 200 && cut < 0 && int64(n) <= limit && (hd == "" || hd == strconv.Itoa(n)) {
				h.fail("refused", fmt.Sprintf("a body within the limit is refused: %v", err), "input", desc)
			}
		})
	}
}
