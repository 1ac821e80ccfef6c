package zzverif

import (
	"errors"
	"fmt"
	"reflect"
	"testing"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
)

func TestC26(t *testing.T) {
	h := start(t, "C26", "every pair of the library's error types, with empty and random messages, plain and wrapped, against the documented families; non-trivial: all")
	defer h.done()
	r := h.rng
	type E = error
	mk := map[string]func(m string) E{
		"Repository":             func(m string) E { return metadata.ErrRepository{Msg: m} },
		"UnsignedMetadata":       func(m string) E { return metadata.ErrUnsignedMetadata{Msg: m} },
		"BadVersionNumber":       func(m string) E { return metadata.ErrBadVersionNumber{Msg: m} },
		"EqualVersionNumber":     func(m string) E { return metadata.ErrEqualVersionNumber{Msg: m} },
		"ExpiredMetadata":        func(m string) E { return metadata.ErrExpiredMetadata{Msg: m} },
		"LengthOrHashMismatch":   func(m string) E { return metadata.ErrLengthOrHashMismatch{Msg: m} },
		"Download":               func(m string) E { return metadata.ErrDownload{Msg: m} },
		"DownloadLengthMismatch": func(m string) E { return metadata.ErrDownloadLengthMismatch{Msg: m} },
		"DownloadHTTP": func(m string) E {
			return metadata.ErrDownloadHTTP{StatusCode: len(m) * 100, URL: m}
		},
		"Value":   func(m string) E { return metadata.ErrValue{Msg: m} },
		"Type":    func(m string) E { return metadata.ErrType{Msg: m} },
		"Runtime": func(m string) E { return metadata.ErrRuntime{Msg: m} },
	}
	family := map[string][]string{
		"UnsignedMetadata":       {"Repository"},
		"BadVersionNumber":       {"Repository"},
		"EqualVersionNumber":     {"Repository", "BadVersionNumber"},
		"ExpiredMetadata":        {"Repository"},
		"LengthOrHashMismatch":   {"Repository"},
		"DownloadLengthMismatch": {"Download"},
		"DownloadHTTP":           {"Download"},
	}
	msgs := []string{"", "x", "repository error: x", "download error: ", "value error: x", "a\x00b"}
	for c := 0; c < 20; c++ {
		msgs = append(msgs, js(r.Int63()))
	}
	for _, a := range sortedKeys(mk) {
		for _, b := range sortedKeys(mk) {
			want := a == b
			for _, f := range family[a] {
				want = want || f == b
			}
			for i, m := range msgs {
				e := mk[a](m)
				if i%3 == 1 {
					e = fmt.Errorf("wrapped: %w", e)
				}
				target := mk[b]("")
				h.count(fmt.Sprintf("%s %q is %s", a, m, b))
				h.guard("is", a+" "+b, func() {
					if got := errors.Is(e, target); got != want {
						h.fail("is/"+a+"/"+b, fmt.Sprintf("errors.Is(%T{%q}, %T{}) = %v", mk[a](""), m, target, got))
					}
					if a != b && errors.Is(e, mk[b](m+"y")) && !want {
						h.fail("is-message/"+a+"/"+b, fmt.Sprintf("%T{%q} recognised as %T{%q}", mk[a](""), m, target, m+"y"))
					}
					if a == b && !errors.Is(e, mk[a](m)) {
						h.fail("itself/"+a, fmt.Sprintf("%T{%q} is not recognised as itself", target, m))
					}
					p := reflect.New(reflect.TypeOf(target))
					if got := errors.As(e, p.Interface()); got != (a == b) {
						h.fail("as/"+a+"/"+b, fmt.Sprintf("errors.As(%T, *%T) = %v", mk[a](""), target, got))
					}
					if e.Error() == "" {
						h.fail("text/"+a, "empty error text")
					}
				})
			}
		}
		for _, o := range []error{errors.New("other"), fmt.Errorf("x")} {
			if errors.Is(mk[a]("m"), o) || errors.Is(o, mk[a]("")) {
				h.fail("foreign/"+a, "a foreign error is recognised as "+a)
			}
		}
	}
}
