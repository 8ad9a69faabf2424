package handler

import (
	"k8s.io/client-go/kubernetes"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/handler/crdeventhandler"
	policystore "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/store/policy"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vspec"
)

func spec_event(kind string, store policystore.PolicyStore) bool {
	return crdeventhandler.HdN == 1 && crdeventhandler.HdKind == kind && vspec.Same(crdeventhandler.HdStore, store)
}

// What a handler made for a store does with an object.
//
//gov:contract (*CrdHandler).HandleAddUpdateEvent
//gov:props C17 C27
func vc_HandleAddUpdateEvent(store policystore.PolicyStore, kube kubernetes.Interface, obj interface{}) {
	h := New(store, kube)
	crdeventhandler.ResetEvents()
	h.HandleAddUpdateEvent(obj)
	if o, ok := obj.(*v1.JwtConfig); ok {
		vspec.Ensures("C17: a JwtConfig is set", spec_event("add JwtConfig", store) && crdeventhandler.HdJwt == o)
	} else if o, ok := obj.(*v1.OidcConfig); ok {
		vspec.Ensures("C17: an OidcConfig is set", spec_event("add OidcConfig", store) && crdeventhandler.HdOidc == o)
	} else if o, ok := obj.(*v1.Policy); ok {
		vspec.Ensures("C17: a Policy is set", spec_event("add Policy", store) && crdeventhandler.HdPol == o)
	} else {
		vspec.Ensures("C17: objects of other kinds change nothing", crdeventhandler.HdN == 0)
	}
}

//gov:contract (*CrdHandler).HandleDeleteEvent
//gov:props C17 C27
func vc_HandleDeleteEvent(store policystore.PolicyStore, kube kubernetes.Interface, obj interface{}) {
	h := New(store, kube)
	crdeventhandler.ResetEvents()
	h.HandleDeleteEvent(obj)
	k, ok := obj.(policy.CrdKey)
	kind := spec_kind(k.CrdType)
	if !ok || kind == "" {
		vspec.Ensures("C17: keys of other kinds change nothing", crdeventhandler.HdN == 0)
		return
	}
	vspec.Ensures("C17: the object of that kind and key is deleted", spec_event(kind, store) && crdeventhandler.HdKey == k.Id)
}

func spec_kind(t v1.CrdType) string {
	switch t {
	case v1.JWTCONFIG:
		return "delete JwtConfig"
	case v1.OIDCCONFIG:
		return "delete OidcConfig"
	case v1.POLICY:
		return "delete Policy"
	}
	return ""
}
