package engine

import (
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vmodels"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vspec"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
)

func any_bool() bool     { panic("any") }
func any_action() Action { panic("any") }

// What the engine was asked, and its answer.
var (
	EvN      int
	EvSelf   PolicyEngine
	EvTarget *authnz.TargetMsg
	EvMsg    authnz.TargetMsg
	EvRes    *Action
	EvErr    error
)

func Reset() { EvN, EvSelf, EvTarget, EvRes, EvErr = 0, nil, nil, nil, nil }

//gov:model (adapter/policy/engine.PolicyEngine).Evaluate
func mw_Evaluate(m PolicyEngine, t *authnz.TargetMsg) (*Action, error) {
	vspec.Requires(t != nil)
	EvN++
	EvSelf, EvTarget, EvMsg, EvRes, EvErr = m, t, *t, nil, nil
	if any_bool() {
		EvErr = vmodels.Err()
		return nil, EvErr
	}
	EvRes = new(Action)
	*EvRes = any_action()
	// C02, C03: the contract of Evaluate
	vspec.Assume(EvRes.Type == policy.NONE || EvRes.Type == policy.JWT && EvRes.KeySet != nil || EvRes.Type == policy.OIDC && EvRes.Client != nil)
	return EvRes, nil
}
