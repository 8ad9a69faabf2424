package engine

import (
	policy2 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/store/policy"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vspec"
)

// Spec_on: the engine decides by the entries of that store.
func Spec_on(e PolicyEngine, store policy2.PolicyStore) bool {
	x, ok := e.(*engine)
	return ok && x != nil && vspec.Same(x.store, store)
}

//gov:contract New
//gov:props C01 C02 C27
func vc_New(store policy2.PolicyStore) {
	e, err := New(store)
	vspec.Ensures("an engine on the store given, or an error", (store == nil) == (err != nil) && (store == nil || Spec_on(e, store)))
}
