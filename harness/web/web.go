// Package web gives harnesses a running preview server and a client for it: real ones on the
// loopback network natively, models of net/http, encoding/json and encoding/gob in the engine
// (models.go).
package web

import (
	"bytes"
	"encoding/gob"
	"encoding/json"
	"io"
	"net"
	"net/http"
	"time"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/imagef"
)

// Reply is the answer to a request: a status code, 0 if the connection broke, and a picture.
type Reply struct {
	Code int
	Img  imagef.Image
}

var addr string

// Serve runs a session with a server of the scene.
func Serve(spec api.Spec, session func()) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	addr = l.Addr().String()
	l.Close()
	go api.Serve(addr, spec)
	for i := 0; ; i++ {
		c, err := net.Dial("tcp", addr)
		if err == nil {
			c.Close()
			break
		}
		if i > 500 {
			panic(err)
		}
		time.Sleep(10 * time.Millisecond)
	}
	session()
}

// Get requests a picture of a view.
func Get(path string, v api.View) Reply {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return Raw(path, string(b))
}

// Raw sends a request.
func Raw(path, body string) Reply {
	t := &http.Transport{DisableKeepAlives: true} // do not repeat requests whose connection breaks
	req, err := http.NewRequest("POST", "http://"+addr+path, bytes.NewReader([]byte(body)))
	if err != nil {
		panic(err)
	}
	resp, err := t.RoundTrip(req)
	if err != nil {
		return Reply{}
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return Reply{}
	}
	r := Reply{Code: resp.StatusCode}
	if r.Code == http.StatusOK && len(b) > 0 {
		if gob.NewDecoder(bytes.NewReader(b)).Decode(&r.Img) != nil {
			return Reply{}
		}
	}
	return r
}

// Fake starts a server that answers requests with the pictures of f, or an error. Requests have a view or not.
func Fake(f func(path string, v api.View, ok bool) (imagef.Image, bool)) string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	go http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, err := io.ReadAll(r.Body)
		if err != nil {
			return
		}
		var v api.View
		ok := len(b) > 0
		if ok && json.Unmarshal(b, &v) != nil {
			http.Error(w, "bad request", http.StatusBadRequest)
			return
		}
		m, good := f(r.URL.Path, v, ok)
		if !good {
			http.Error(w, "error", http.StatusInternalServerError)
			return
		}
		gob.NewEncoder(w).Encode(m)
	}))
	return l.Addr().String()
}
