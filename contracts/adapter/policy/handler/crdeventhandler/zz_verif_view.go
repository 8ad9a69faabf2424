package crdeventhandler

import (
	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	storepolicy "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/store/policy"
)

// The events handled: what the handlers do is in their own contracts.
var (
	HdN     int
	HdKind  string
	HdStore storepolicy.PolicyStore
	HdKey   string
	HdJwt   *v1.JwtConfig
	HdOidc  *v1.OidcConfig
	HdPol   *v1.Policy
)

func ResetEvents() { HdN, HdKind, HdStore, HdKey, HdJwt, HdOidc, HdPol = 0, "", nil, "", nil, nil, nil }

//gov:model (*adapter/policy/handler/crdeventhandler.JwtConfigAddEventHandler).HandleAddUpdateEvent
func m_JwtAdd(e *JwtConfigAddEventHandler) {
	HdN++
	HdKind, HdStore, HdJwt = "add JwtConfig", e.Store, e.Obj
}

//gov:model (*adapter/policy/handler/crdeventhandler.OidcConfigAddEventHandler).HandleAddUpdateEvent
func m_OidcAdd(e *OidcConfigAddEventHandler) {
	HdN++
	HdKind, HdStore, HdOidc = "add OidcConfig", e.Store, e.Obj
}

//gov:model (*adapter/policy/handler/crdeventhandler.PolicyAddEventHandler).HandleAddUpdateEvent
func m_PolicyAdd(e *PolicyAddEventHandler) {
	HdN++
	HdKind, HdStore, HdPol = "add Policy", e.Store, e.Obj
}

//gov:model (*adapter/policy/handler/crdeventhandler.JwtConfigDeleteEventHandler).HandleDeleteEvent
func m_JwtDelete(e *JwtConfigDeleteEventHandler) {
	HdN++
	HdKind, HdStore, HdKey = "delete JwtConfig", e.Store, e.Key
}

//gov:model (*adapter/policy/handler/crdeventhandler.OidcConfigDeleteEventHandler).HandleDeleteEvent
func m_OidcDelete(e *OidcConfigDeleteEventHandler) {
	HdN++
	HdKind, HdStore, HdKey = "delete OidcConfig", e.Store, e.Key
}

//gov:model (*adapter/policy/handler/crdeventhandler.PolicyDeleteEventHandler).HandleDeleteEvent
func m_PolicyDelete(e *PolicyDeleteEventHandler) {
	HdN++
	HdKind, HdStore, HdKey = "delete Policy", e.Store, e.Key
}
