package adapter

import (
	"context"
	"strings"

	"istio.io/istio/mixer/pkg/status"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/engine"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/strategy"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vmodels"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vspec"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
)

func spec_complete(r *authnz.HandleAuthnZRequest) bool {
	return r != nil && r.Instance != nil && r.Instance.Target != nil && r.Instance.Request != nil &&
		r.Instance.Request.Params != nil && r.Instance.Request.Headers != nil
}

// spec_trimmed: t is path without trailing slashes (the root stays).
func spec_trimmed(path, t string) bool {
	if path == "/" || !strings.HasSuffix(path, "/") {
		return t == path
	}
	return t == vmodels.Uf_trimRight(path, "/")
}

//gov:contract (*AppidAdapter).HandleAuthnZ
//gov:props C01 C27
func vc_HandleAuthnZ(s *AppidAdapter, ctx context.Context, r *authnz.HandleAuthnZRequest) {
	vspec.Requires(s != nil && s.engine != nil && s.apistrategy != nil && s.webstrategy != nil)
	vspec.Requires(!vspec.Same(s.apistrategy, s.webstrategy))
	vspec.Requires(status.OK.Code == 0)
	vmodels.ResetWeb()
	engine.Reset()
	strategy.Reset()
	ok := spec_complete(r)
	var t authnz.TargetMsg
	if ok {
		t = *r.Instance.Target
	}
	res, err := s.HandleAuthnZ(ctx, r)
	vspec.Ensures("an answer or an error", err == nil || res == nil || strategy.HnN > 0)
	vspec.Ensures("C01: an incomplete request is an error and nothing is asked", ok || err != nil && res == nil && engine.EvN == 0 && strategy.HnN == 0)
	if !ok {
		return
	}
	vspec.Ensures("C01: the policy engine decides", engine.EvN == 1 && vspec.Same(engine.EvSelf, s.engine))
	m := engine.EvMsg
	vspec.Ensures("C01: about this request's service, method and path", m.Namespace == t.Namespace && m.Service == t.Service && m.Method == t.Method && spec_trimmed(t.Path, m.Path))
	vspec.Ensures("C01: an unresolvable policy is an error", engine.EvErr == nil || err != nil && res == nil && strategy.HnN == 0)
	if engine.EvErr != nil || engine.EvRes == nil {
		return
	}
	a := engine.EvRes
	vspec.Ensures("C01: passed unchecked only without a policy", a.Type != policy.NONE || strategy.HnN == 0 && err == nil && res != nil && res.Result != nil && res.Result.Status.Code == 0)
	vspec.Ensures("C01: with a policy its strategy answers", a.Type == policy.NONE || strategy.HnN == 1 && strategy.HnReq == r && strategy.HnAction == a &&
		res == strategy.HnRes && err == strategy.HnErr)
	vspec.Ensures("C01: a JWT policy is the API strategy's", a.Type != policy.JWT || strategy.HnN == 1 && vspec.Same(strategy.HnSelf, s.apistrategy))
	vspec.Ensures("C01: an OIDC policy is the web strategy's", a.Type != policy.OIDC || strategy.HnN == 1 && vspec.Same(strategy.HnSelf, s.webstrategy))
}
