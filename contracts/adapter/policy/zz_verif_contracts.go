package policy

import "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vspec"

// Spec_method: the method a declared name stands for.
func Spec_method(m string) Method {
	switch m {
	case "GET":
		return GET
	case "PUT":
		return PUT
	case "POST":
		return POST
	case "DELETE":
		return DELETE
	case "PATCH":
		return PATCH
	}
	return ALL
}

//gov:contract NewMethod
//gov:props C18 C02
//gov:use
func vc_NewMethod(m string) {
	r := NewMethod(m)
	vspec.Ensures("the method of that name, otherwise all", r == Spec_method(m))
}

// Spec_type: the kind of policy a declared type stands for.
func Spec_type(t string) Type {
	switch t {
	case "jwt":
		return JWT
	case "oidc":
		return OIDC
	}
	return NONE
}

//gov:contract NewType
//gov:props C01 C07
//gov:use
func vc_NewType(t string) {
	r := NewType(t)
	vspec.Ensures("the type of that name, otherwise none", r == Spec_type(t))
}
