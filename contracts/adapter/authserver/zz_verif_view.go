package authserver

import (
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vspec"
)

// An authorization server seen by its users. Within one request what it shows
// does not change (C21: it only changes from unknown to discovered).

func Uf_keyset(s AuthorizationServerService) keyset.KeySet { panic("uf") }
func Uf_userinfo(s AuthorizationServerService) string      { panic("uf") }
func Uf_authorize(s AuthorizationServerService) string     { panic("uf") }

//gov:model (adapter/authserver.AuthorizationServerService).KeySet
func mw_KeySet(s AuthorizationServerService) keyset.KeySet { return Uf_keyset(s) }

//gov:model (adapter/authserver.AuthorizationServerService).UserInfoEndpoint
func mw_UserInfoEndpoint(s AuthorizationServerService) string { return Uf_userinfo(s) }

//gov:model (adapter/authserver.AuthorizationServerService).AuthorizationEndpoint
func mw_AuthorizationEndpoint(s AuthorizationServerService) string { return Uf_authorize(s) }

func any_server() AuthorizationServerService { panic("any") }
func any_address() string                   { panic("any") }

// The servers made, the address of the keys of the last one asked, and the key
// set given to one.
var (
	AsN      int
	AsURL    string
	AsRes    AuthorizationServerService
	JwN      int
	JwServer AuthorizationServerService
	JwVal    string
	SkN      int
	SkServer AuthorizationServerService
	SkVal    keyset.KeySet
)

func ResetServers() {
	AsN, AsURL, AsRes, JwN, JwServer, JwVal, SkN, SkServer, SkVal = 0, "", nil, 0, nil, "", 0, nil, nil
	KsN, KsURL, KsClient, KsRes = 0, "", nil, nil
}

//gov:model adapter/authserver.New
func m_New(url string) AuthorizationServerService {
	AsN++
	AsURL, AsRes = url, any_server()
	vspec.Assume(AsRes != nil)
	return AsRes
}

//gov:model (adapter/authserver.AuthorizationServerService).JwksEndpoint
func mw_JwksEndpoint(s AuthorizationServerService) string {
	JwN++
	JwServer, JwVal = s, any_address()
	return JwVal
}

//gov:model (adapter/authserver.AuthorizationServerService).SetKeySet
func mw_SetKeySet(s AuthorizationServerService, k keyset.KeySet) {
	SkN++
	SkServer, SkVal = s, k
}
