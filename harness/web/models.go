package web

import (
	"encoding/gob"
	"encoding/json"
	"errors"
	"io"
	"net/http"
	"net/url"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/imagef"
)

// Models, used in the engine only. The engine does not look for data races within this package.

var (
	session  func()
	routes   map[string]http.Handler
	views    []api.View
	pictures []imagef.Image
	decoders map[*json.Decoder]io.Reader
	encoders map[*gob.Encoder]io.Writer
)

// ServeM models Serve.
func ServeM(spec api.Spec, f func()) {
	session = f
	routes = map[string]http.Handler{}
	decoders = map[*json.Decoder]io.Reader{}
	encoders = map[*gob.Encoder]io.Writer{}
	api.Serve("vf", spec)
}

func NewServeMuxM() *http.ServeMux { return new(http.ServeMux) }

func HandleM(m *http.ServeMux, pattern string, h http.Handler) {
	if routes[pattern] != nil {
		panic("http: multiple registrations for " + pattern)
	}
	routes[pattern] = h
}

func HandleFuncM(m *http.ServeMux, pattern string, h func(http.ResponseWriter, *http.Request)) {
	HandleM(m, pattern, http.HandlerFunc(h))
}

func ListenAndServeM(s *http.Server) error {
	session()
	return errors.New("http: Server closed")
}

func ListenAndServeTopM(addr string, h http.Handler) error { return ListenAndServeM(nil) }

// body is a request body.
type body struct {
	b []byte
}

func (b *body) Read(p []byte) (int, error) {
	if len(b.b) == 0 {
		return 0, io.EOF
	}
	n := copy(p, b.b)
	b.b = b.b[n:]
	return n, nil
}

func (b *body) Close() error { return nil }

// recorder is a response.
type recorder struct {
	code int
	b    []byte
}

func (r *recorder) Header() http.Header { return http.Header{} }

func (r *recorder) WriteHeader(code int) {
	if r.code == 0 {
		r.code = code
	}
}

func (r *recorder) Write(p []byte) (int, error) {
	r.WriteHeader(http.StatusOK)
	r.b = append(r.b, p...)
	return len(p), nil
}

func ErrorM(w http.ResponseWriter, msg string, code int) { w.WriteHeader(code) }

// GetM models Get.
func GetM(path string, v api.View) Reply {
	views = append(views, v)
	return RawM(path, "VFV"+string([]byte{byte(len(views) - 1)}))
}

// RawM models Raw; a panic of a handler breaks the connection only.
func RawM(path, b string) (r Reply) {
	h := routes[path]
	if h == nil {
		return Reply{Code: http.StatusNotFound}
	}
	defer func() {
		if recover() != nil {
			r = Reply{}
		}
	}()
	w := &recorder{}
	h.ServeHTTP(w, &http.Request{Method: "POST", URL: &url.URL{Path: path}, Body: &body{[]byte(b)}})
	w.WriteHeader(http.StatusOK)
	r.Code = w.code
	if r.Code == http.StatusOK && len(w.b) > 0 {
		if len(w.b) != 4 || string(w.b[:3]) != "VFG" {
			return Reply{}
		}
		r.Img = pictures[w.b[3]]
	}
	return r
}

func unmarshal(b []byte, v interface{}) error {
	p, ok := v.(*api.View)
	if !ok {
		return errors.New("json: unexpected type")
	}
	if len(b) == 0 {
		return io.EOF
	}
	if len(b) != 4 || string(b[:3]) != "VFV" {
		return errors.New("json: invalid character")
	}
	*p = views[b[3]]
	return nil
}

func UnmarshalM(b []byte, v interface{}) error { return unmarshal(b, v) }

func NewDecoderM(r io.Reader) *json.Decoder {
	d := new(json.Decoder)
	decoders[d] = r
	return d
}

func JSONDecodeM(d *json.Decoder, v interface{}) error {
	b, err := io.ReadAll(decoders[d])
	if err != nil {
		return err
	}
	return unmarshal(b, v)
}

func NewEncoderM(w io.Writer) *gob.Encoder {
	e := new(gob.Encoder)
	encoders[e] = w
	return e
}

func GobEncodeM(e *gob.Encoder, v interface{}) error {
	m, ok := v.(imagef.Image)
	if !ok {
		return errors.New("gob: unexpected type")
	}
	c := make(imagef.Image, len(m))
	for i := range m {
		c[i] = append(c[i], m[i]...)
	}
	pictures = append(pictures, c)
	_, err := encoders[e].Write([]byte{'V', 'F', 'G', byte(len(pictures) - 1)})
	return err
}

// ---- clients

var fake func(path string, v api.View, ok bool) (imagef.Image, bool)
var gobReaders map[*gob.Decoder]io.Reader
var jsonWriters map[*json.Encoder]io.Writer

// FakeM models Fake.
func FakeM(f func(path string, v api.View, ok bool) (imagef.Image, bool)) string {
	fake = f
	gobReaders = map[*gob.Decoder]io.Reader{}
	jsonWriters = map[*json.Encoder]io.Writer{}
	return "vf"
}

func request(u string, b []byte) (*http.Response, error) {
	if len(u) < 10 || u[:10] != "http://vf/" {
		return nil, errors.New("dial: no such host")
	}
	var v api.View
	ok := len(b) > 0
	if ok && unmarshal(b, &v) != nil {
		return &http.Response{StatusCode: http.StatusBadRequest, Body: &body{}}, nil
	}
	m, good := fake(u[9:], v, ok)
	if !good {
		return &http.Response{StatusCode: http.StatusInternalServerError, Body: &body{}}, nil
	}
	pictures = append(pictures, m.Copy())
	return &http.Response{StatusCode: http.StatusOK, Body: &body{[]byte{'V', 'F', 'G', byte(len(pictures) - 1)}}}, nil
}

func HTTPGetM(u string) (*http.Response, error) { return request(u, nil) }

func NewRequestM(method, u string, b io.Reader) (*http.Request, error) {
	r := &http.Request{Method: method, URL: &url.URL{Path: u}}
	if b != nil {
		p, err := io.ReadAll(b)
		if err != nil {
			return nil, err
		}
		r.Body = &body{p}
	}
	return r, nil
}

func DoM(c *http.Client, r *http.Request) (*http.Response, error) {
	var b []byte
	if r.Body != nil {
		b = r.Body.(*body).b
	}
	return request(r.URL.Path, b)
}

func JSONEncoderM(w io.Writer) *json.Encoder {
	e := new(json.Encoder)
	jsonWriters[e] = w
	return e
}

func JSONEncodeM(e *json.Encoder, v interface{}) error {
	x, ok := v.(api.View)
	if !ok {
		return errors.New("json: unexpected type")
	}
	views = append(views, x)
	_, err := jsonWriters[e].Write([]byte("VFV" + string([]byte{byte(len(views) - 1)})))
	return err
}

func GobDecoderM(r io.Reader) *gob.Decoder {
	d := new(gob.Decoder)
	gobReaders[d] = r
	return d
}

func GobDecodeM(d *gob.Decoder, v interface{}) error {
	b, err := io.ReadAll(gobReaders[d])
	if err != nil {
		return err
	}
	if len(b) != 4 || string(b[:3]) != "VFG" {
		return errors.New("gob: bad data")
	}
	p, ok := v.(*imagef.Image)
	if !ok {
		return errors.New("gob: unexpected type")
	}
	*p = pictures[b[3]]
	return nil
}
