package strategy

import (
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/engine"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vmodels"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
)

func any_bool() bool { panic("any") }

// What a strategy was asked, and its answer.
var (
	HnN      int
	HnSelf   Strategy
	HnReq    *authnz.HandleAuthnZRequest
	HnAction *engine.Action
	HnRes    *authnz.HandleAuthnZResponse
	HnErr    error
)

func Reset() { HnN, HnSelf, HnReq, HnAction, HnRes, HnErr = 0, nil, nil, nil, nil, nil }

//gov:model (adapter/strategy.Strategy).HandleAuthnZRequest
func mw_HandleAuthnZRequest(s Strategy, r *authnz.HandleAuthnZRequest, a *engine.Action) (*authnz.HandleAuthnZResponse, error) {
	HnN++
	HnSelf, HnReq, HnAction = s, r, a
	HnRes, HnErr = nil, nil
	if any_bool() {
		HnErr = vmodels.Err()
		return nil, HnErr
	}
	HnRes = new(authnz.HandleAuthnZResponse)
	return HnRes, nil
}
