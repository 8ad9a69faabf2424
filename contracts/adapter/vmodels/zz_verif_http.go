package vmodels

import (
	"encoding/json"
	"io"
	"net/http"
	"net/url"
	"strings"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vspec"
)

func any_bool() bool               { panic("any") }
func any_int() int                 { panic("any") }
func any_response() *http.Response { panic("any") }
func any_error() error             { panic("any") }
func any_reader() *strings.Reader  { panic("any") }
func any_decoder() *json.Decoder   { panic("any") }
func any_body() io.ReadCloser      { panic("any") }
func any_bytes() []byte            { panic("any") }
func any_header() http.Header      { panic("any") }
func any_url() *url.URL            { panic("any") }
func any_values() url.Values       { panic("any") }

// Err is some error.
func Err() error { return &modelErr{any_string()} }

// What was sent: ghost state.
var (
	ReqErrN int // requests which could not be made
	HTTPn   int // requests sent
	HTTPReq *http.Request
	HTTPRes *http.Response
	HTTPErr error

	ReqURL    map[*http.Request]string
	ReqBody   map[*http.Request]interface{}
	BasicSet  map[*http.Request]bool
	BasicUser map[*http.Request]string
	BasicPass map[*http.Request]string

	Text    map[interface{}]string // content of string readers
	Form    map[string]url.Values  // what an encoded query stands for
	Encoded string                 // the last one
	Closed  map[interface{}]bool

	Source  map[*json.Decoder]interface{}
	DecN    int
	DecVal  interface{}
	DecFrom interface{}
	DecErr  error
)

// Reset begins a contract: nothing has been sent yet.
func Reset() {
	ReqErrN = 0
	HTTPn, HTTPReq, HTTPRes, HTTPErr = 0, nil, nil, nil
	ReqURL = map[*http.Request]string{}
	ReqBody = map[*http.Request]interface{}{}
	BasicSet = map[*http.Request]bool{}
	BasicUser = map[*http.Request]string{}
	BasicPass = map[*http.Request]string{}
	Text = map[interface{}]string{}
	Form = map[string]url.Values{}
	Closed = map[interface{}]bool{}
	Source = map[*json.Decoder]interface{}{}
	DecN, DecVal, DecFrom, DecErr = 0, nil, nil, nil
}

// http.NewRequest: an error, or a request for that method, address and body.
//
//gov:model net/http.NewRequest
func m_NewRequest(method, u string, body io.Reader) (*http.Request, error) {
	if any_bool() {
		ReqErrN++
		return nil, Err()
	}
	if method == "" {
		method = "GET"
	}
	r := &http.Request{Method: method, URL: &url.URL{Path: any_string()}, Header: map[string][]string{}}
	ReqURL[r] = u
	ReqBody[r] = body
	return r, nil
}

// Client.Do: an error (whose response, if any, is already closed) or a
// response with an open body.
//
//gov:model (*net/http.Client).Do
func m_ClientDo(c *http.Client, req *http.Request) (*http.Response, error) {
	vspec.Requires(c != nil && req != nil)
	HTTPn++
	HTTPReq = req
	if any_bool() {
		HTTPRes, HTTPErr = any_response(), Err()
		return HTTPRes, HTTPErr
	}
	b := any_body()
	vspec.Assume(b != nil)
	vspec.Assume(!Closed[b])
	HTTPRes, HTTPErr = &http.Response{StatusCode: any_int(), Header: any_header(), Body: b}, nil
	return HTTPRes, nil
}

//gov:model (io.Closer).Close (io.ReadCloser).Close
func m_Close(c io.Closer) error {
	Closed[c] = true
	return any_error()
}

func Uf_canon(k string) string { panic("uf") }

// spec_canon: header names are canonicalised; the ones the code names already
// are.
func spec_canon(k string) string {
	switch k {
	case "Authorization", "authorization", "AUTHORIZATION":
		return "Authorization"
	case "Content-Type", "content-type":
		return "Content-Type"
	case "X-Filter-Type", "x-filter-type":
		return "X-Filter-Type"
	case "Www-Authenticate", "WWW-Authenticate":
		return "Www-Authenticate"
	case "Location", "location":
		return "Location"
	case "Set-Cookie", "set-cookie":
		return "Set-Cookie"
	case "Cookie", "cookie":
		return "Cookie"
	case "Accept":
		return "Accept"
	}
	return Uf_canon(k)
}

// Spec_header is the first value of a header.
func Spec_header(h http.Header, k string) string {
	v := h[spec_canon(k)]
	if len(v) == 0 {
		return ""
	}
	return v[0]
}

//gov:model (net/http.Header).Set
func m_HeaderSet(h http.Header, k, v string) {
	vspec.Requires(h != nil)
	h[spec_canon(k)] = []string{v}
}

//gov:model (net/http.Header).Add
func m_HeaderAdd(h http.Header, k, v string) {
	vspec.Requires(h != nil)
	h[spec_canon(k)] = append(h[spec_canon(k)], v)
}

//gov:model (net/http.Header).Get
func m_HeaderGet(h http.Header, k string) string { return Spec_header(h, k) }

//gov:model (net/http.Header).Del
func m_HeaderDel(h http.Header, k string) { delete(h, spec_canon(k)) }

func Uf_basic(user, pass string) string { panic("uf") }

//gov:model (*net/http.Request).SetBasicAuth
func m_SetBasicAuth(r *http.Request, user, pass string) {
	vspec.Requires(r != nil && r.Header != nil)
	BasicSet[r], BasicUser[r], BasicPass[r] = true, user, pass
	r.Header["Authorization"] = []string{Uf_basic(user, pass)}
}

//gov:model strings.NewReader
func m_NewReader(s string) *strings.Reader {
	r := new(strings.Reader)
	Text[r] = s
	return r
}

//gov:model (net/url.Values).Set
func m_ValuesSet(v url.Values, k, x string) {
	vspec.Requires(v != nil)
	v[k] = []string{x}
}

//gov:model (net/url.Values).Add
func m_ValuesAdd(v url.Values, k, x string) {
	vspec.Requires(v != nil)
	v[k] = append(v[k], x)
}

// Spec_value is the first value of a form field, Spec_has whether it is there.
func Spec_value(v url.Values, k string) string {
	if s := v[k]; len(s) > 0 {
		return s[0]
	}
	return ""
}
func Spec_has(v url.Values, k string) bool {
	_, ok := v[k]
	return ok
}

//gov:model (net/url.Values).Get
func m_ValuesGet(v url.Values, k string) string { return Spec_value(v, k) }

//gov:model (net/url.Values).Del
func m_ValuesDel(v url.Values, k string) { delete(v, k) }

//gov:model (net/url.Values).Encode
func m_Encode(v url.Values) string {
	s := any_string()
	Form[s] = v
	Encoded = s
	return s
}

//gov:model encoding/json.NewDecoder
func m_NewDecoder(r io.Reader) *json.Decoder {
	d := new(json.Decoder)
	Source[d] = r
	return d
}

// Decode: any content of the target, with or without an error.
//
//gov:model (*encoding/json.Decoder).Decode
func m_Decode(d *json.Decoder, v interface{}) error {
	DecN++
	DecVal = v
	DecFrom = Source[d]
	vspec.Havoc(v)
	DecErr = nil
	if any_bool() {
		DecErr = Err()
	}
	return DecErr
}

// Spec_only: the field is there once, with this value.
func Spec_only(v url.Values, k, x string) bool {
	s := v[k]
	return len(s) == 1 && s[0] == x
}
