package vmodels

import (
	"net/http"
	"net/url"
	"strings"
	"sync"
	"time"

	"github.com/gogo/googleapis/google/rpc"
	"github.com/gogo/protobuf/types"
	policy "istio.io/api/policy/v1beta1"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vspec"
)

// ---- istio status ----

// Packed: what a status detail stands for.
var Packed map[*types.Any]*policy.DirectHttpResponse

//gov:model istio.io/istio/mixer/pkg/status.WithMessage
func m_WithMessage(c rpc.Code, m string) rpc.Status { return rpc.Status{Code: int32(c), Message: m} }

//gov:model istio.io/istio/mixer/pkg/status.New
func m_StatusNew(c rpc.Code) rpc.Status { return rpc.Status{Code: int32(c)} }

//gov:model istio.io/istio/mixer/pkg/status.WithUnauthenticated
func m_WithUnauthenticated(m string) rpc.Status {
	return rpc.Status{Code: int32(rpc.UNAUTHENTICATED), Message: m}
}

//gov:model istio.io/istio/mixer/pkg/status.PackErrorDetail
func m_PackErrorDetail(v interface{}) *types.Any {
	a := new(types.Any)
	if d, ok := v.(*policy.DirectHttpResponse); ok {
		Packed[a] = d
	}
	return a
}

// Spec_direct: the response which the first detail of a status carries.
func Spec_direct(s rpc.Status) *policy.DirectHttpResponse {
	if len(s.Details) == 0 {
		return nil
	}
	return Packed[s.Details[0]]
}

// ---- time: never goes back ----

var Now int64

func cast_int(t time.Time) int64  { panic("cast") }
func cast_time(n int64) time.Time { panic("cast") }

func Spec_time(t time.Time) int64 { return cast_int(t) }

// Spec_at is the time of a number.
func Spec_at(n int64) time.Time { return cast_time(n) }

//gov:model time.Now
func m_Now() time.Time {
	n := any_int64()
	vspec.Assume(n >= Now)
	Now = n
	return cast_time(n)
}

//gov:model (time.Time).Add
func m_TimeAdd(t time.Time, d time.Duration) time.Time { return cast_time(cast_int(t) + int64(d)) }

//gov:model (time.Time).Before
func m_TimeBefore(t, u time.Time) bool { return cast_int(t) < cast_int(u) }

//gov:model (time.Time).After
func m_TimeAfter(t, u time.Time) bool { return cast_int(t) > cast_int(u) }

//gov:model (time.Time).Equal
func m_TimeEqual(t, u time.Time) bool { return cast_int(t) == cast_int(u) }

//gov:model (time.Time).Sub
func m_TimeSub(t, u time.Time) time.Duration { return time.Duration(cast_int(t) - cast_int(u)) }

//gov:model time.Since
func m_Since(t time.Time) time.Duration { return m_Now().Sub(t) }

//gov:model time.Until
func m_Until(t time.Time) time.Duration { return t.Sub(m_Now()) }

//gov:model (time.Time).UTC
func m_UTC(t time.Time) time.Time { return t }

// ---- sync.Map: a map ----

func cast_map(m *sync.Map) map[interface{}]interface{} { panic("cast") }

// Spec_entry is what a sync.Map holds for a key.
func Spec_entry(m *sync.Map, k interface{}) interface{} { return cast_map(m)[k] }

func Spec_holds(m *sync.Map, k interface{}) bool {
	_, ok := cast_map(m)[k]
	return ok
}

//gov:model (*sync.Map).Load
func m_Load(m *sync.Map, k interface{}) (interface{}, bool) {
	vspec.Requires(m != nil)
	v, ok := cast_map(m)[k]
	return v, ok
}

//gov:model (*sync.Map).Store
func m_Store(m *sync.Map, k, v interface{}) {
	vspec.Requires(m != nil)
	cast_map(m)[k] = v
}

//gov:model (*sync.Map).Delete
func m_Delete(m *sync.Map, k interface{}) {
	vspec.Requires(m != nil)
	delete(cast_map(m), k)
}

//gov:model (*sync.Map).LoadOrStore
func m_LoadOrStore(m *sync.Map, k, v interface{}) (interface{}, bool) {
	vspec.Requires(m != nil)
	if o, ok := cast_map(m)[k]; ok {
		return o, true
	}
	cast_map(m)[k] = v
	return v, false
}

//gov:model (*sync.Map).LoadAndDelete
func m_LoadAndDelete(m *sync.Map, k interface{}) (interface{}, bool) {
	vspec.Requires(m != nil)
	v, ok := cast_map(m)[k]
	delete(cast_map(m), k)
	return v, ok
}

// ---- cookies ----

// Uf_cookie: the cookie of that name in a Cookie header.
func Uf_cookie(header, name string) (string, bool) { panic("uf") }

//gov:model (*net/http.Request).Cookie
func m_Cookie(r *http.Request, name string) (*http.Cookie, error) {
	vspec.Requires(r != nil)
	v, ok := Uf_cookie(Spec_header(r.Header, "Cookie"), name)
	if !ok {
		return nil, Err()
	}
	return &http.Cookie{Name: name, Value: v}, nil
}

// CookieOf: what a Set-Cookie text sets.
var CookieOf map[string]http.Cookie

//gov:model (*net/http.Cookie).String
func m_CookieString(c *http.Cookie) string {
	vspec.Requires(c != nil)
	s := any_string()
	CookieOf[s] = *c
	return s
}

// ---- urls ----

func Uf_urlParse(s string) (url.URL, bool) { panic("uf") }

func Uf_urlString(u url.URL) string { panic("uf") }

//gov:model net/url.Parse
func m_UrlParse(s string) (*url.URL, error) {
	u, ok := Uf_urlParse(s)
	if !ok {
		return nil, Err()
	}
	r := new(url.URL)
	*r = u
	return r, nil
}

//gov:model (*net/url.URL).String
func m_URLString(u *url.URL) string {
	vspec.Requires(u != nil)
	return Uf_urlString(*u)
}

// ResetWeb begins a contract of the strategies.
func ResetWeb() {
	Reset()
	Packed = map[*types.Any]*policy.DirectHttpResponse{}
	CookieOf = map[string]http.Cookie{}
	Now = any_int64()
}

// ---- strings ----

// strings.SplitN into at most two or three parts.
//
//gov:model strings.SplitN
func m_SplitN(s, sep string, n int) []string {
	if n != 2 && n != 3 || sep == "" {
		return uf_splitN(s, sep, n)
	}
	i := strings.Index(s, sep)
	if i < 0 {
		return []string{s}
	}
	a, r := s[:i], s[i+len(sep):]
	if n == 2 {
		return []string{a, r}
	}
	j := strings.Index(r, sep)
	if j < 0 {
		return []string{a, r}
	}
	return []string{a, r[:j], r[j+len(sep):]}
}

func uf_splitN(s, sep string, n int) []string { panic("uf") }

//gov:model strings.Index
func m_Index(s, sub string) int { return vspec.IndexOf(s, sub) }

//gov:model strings.Contains
func m_Contains(s, sub string) bool { return vspec.Contains(s, sub) }

//gov:model strings.IndexRune
func m_IndexRune(s string, r rune) int {
	if r != '/' {
		return uf_indexRune(s, r)
	}
	return vspec.IndexOf(s, "/")
}

func uf_indexRune(s string, r rune) int { panic("uf") }

//gov:model strings.IndexByte
func m_IndexByte(s string, c byte) int {
	if c != '/' {
		return uf_indexByte(s, c)
	}
	return vspec.IndexOf(s, "/")
}

func uf_indexByte(s string, c byte) int { panic("uf") }
