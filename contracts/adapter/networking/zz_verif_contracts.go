package networking

import (
	"net/http"
	"time"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vmodels"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vspec"
)

func any_bool() bool { panic("any") }

// which value was asked to validate itself, and its answer
var (
	okN   int
	okVal OK
	okErr error
)

//gov:model (OK).OK
func mw_OK(v OK) error {
	okN++
	okVal = v
	okErr = nil
	if any_bool() {
		okErr = vmodels.Err()
	}
	return okErr
}

//gov:contract (*HTTPClient).Do
//gov:props C23 C27
func vc_Do(c *HTTPClient, req *http.Request, s, f OK) {
	vspec.Requires(c != nil && c.Client != nil && req != nil && req.Header != nil && req.URL != nil)
	vmodels.Reset()
	okN, okVal, okErr = 0, nil, nil
	res, err := c.Do(req, s, f)
	sent := vmodels.HTTPErr == nil
	code := 0
	if sent {
		code = vmodels.HTTPRes.StatusCode
	}
	v := f
	if code >= 200 && code <= 299 {
		v = s
	}
	vspec.Ensures("C23: the request is sent once", vmodels.HTTPn == 1 && vmodels.HTTPReq == req)
	vspec.Ensures("C23: its response is the one returned", !sent || res == vmodels.HTTPRes)
	vspec.Ensures("C23: a transport failure is returned", sent || (err != nil && vmodels.DecN == 0))
	vspec.Ensures("C23: the received body is closed", !sent || vmodels.Closed[vmodels.HTTPRes.Body])
	vspec.Ensures("C23: a 2xx answer is decoded into the success value, others into the failure value",
		!sent || v == nil || (vmodels.DecN == 1 && vmodels.DecVal == v && vspec.Same(vmodels.DecFrom, vmodels.HTTPRes.Body)))
	vspec.Ensures("C23: nothing else is decoded", !sent || v != nil || vmodels.DecN == 0)
	vspec.Ensures("C23: the decoded value is validated", !sent || v == nil || vmodels.DecErr != nil || (okN == 1 && okVal == v))
	vspec.Ensures("C23: a decoding failure is returned", !sent || v == nil || vmodels.DecErr == nil || err != nil)
	vspec.Ensures("C23: a validation failure is returned", !sent || v == nil || vmodels.DecErr != nil || okErr == nil || err != nil)
	vspec.Ensures("C23: success is not an error", !sent || (v != nil && (vmodels.DecErr != nil || okErr != nil)) || err == nil)
}

// New is usable as it is.
//
//gov:contract New
//gov:props C23
func vc_New() {
	c := New()
	vspec.Ensures("C23: a client with a time limit", c != nil && c.Client != nil && c.Client.Timeout > 0)
}

func spec_callErr(fn func() (interface{}, error), i int) interface{} { return vspec.CallRes(fn, i, 1) }

//gov:contract Retry
//gov:props C23 C27
//gov:opt funcs=stateful recursive=1
func vc_Retry(attempts int, sleep time.Duration, fn func() (interface{}, error)) {
	vspec.Requires(fn != nil)
	vspec.Modifies(fn)
	n0 := vspec.Calls(fn)
	r, err := Retry(attempts, sleep, fn)
	n1 := vspec.Calls(fn)
	max := attempts
	if max < 1 {
		max = 1
	}
	vspec.Ensures("C23: called at least once and at most as often as allowed", n1 > n0 && n1-n0 <= max)
	vspec.Ensures("C23: every call before the last failed", vspec.ForAll(n0, n1-1, func(i int) bool { return spec_callErr(fn, i) != nil }))
	vspec.Ensures("C23: a success is that of the last call", err != nil || (spec_callErr(fn, n1-1) == nil && vspec.Same(r, vspec.CallRes(fn, n1-1, 0))))
	vspec.Ensures("C23: a failure is the last error, after all attempts", err == nil ||
		(n1-n0 == max && vspec.Same(spec_callErr(fn, n1-1), interface{}(err))))
}
