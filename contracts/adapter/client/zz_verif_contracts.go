package client

import (
	"strings"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver"
	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vmodels"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vspec"
)

func any_bool() bool                       { panic("any") }
func any_tokens() *authserver.TokenResponse { panic("any") }

// Which tokens were asked for, and the answer. GetTokens has its own contract
// (C22); its callers here are checked against its call.
var (
	GtN                                                  int
	GtServer                                             authserver.AuthorizationServerService
	GtMethod, GtID, GtSecret, GtCode, GtURI, GtRefresh string
	GtRes                                                *authserver.TokenResponse
	GtErr                                                error
)

func Reset() {
	GtN, GtServer, GtMethod, GtID, GtSecret, GtCode, GtURI, GtRefresh, GtRes, GtErr = 0, nil, "", "", "", "", "", "", nil, nil
}

//gov:model (adapter/authserver.AuthorizationServerService).GetTokens
func m_GetTokens(s authserver.AuthorizationServerService, method, id, secret, code, uri, refresh string) (*authserver.TokenResponse, error) {
	GtN++
	GtServer, GtMethod, GtID, GtSecret, GtCode, GtURI, GtRefresh = s, method, id, secret, code, uri, refresh
	GtRes, GtErr = nil, nil
	if any_bool() {
		GtErr = vmodels.Err()
		return nil, GtErr
	}
	GtRes = any_tokens()
	vspec.Assume(GtRes != nil && GtRes.AccessToken != "")
	return GtRes, nil
}

func Spec_scopes(s []string) string {
	if len(s) == 0 {
		return "openid profile email"
	}
	return strings.Join(s, " ")
}

// The client shows its own configuration.
//
//gov:contract New
//gov:props C26 C27
func vc_New(cfg v1.OidcConfigSpec, s authserver.AuthorizationServerService) {
	c := New(cfg, s)
	vspec.Ensures("C26: name", c.Name() == cfg.ClientName)
	vspec.Ensures("C26: id", c.ID() == cfg.ClientID)
	vspec.Ensures("C26: secret", c.Secret() == cfg.ClientSecret)
	vspec.Ensures("C26: scopes", c.Scope() == Spec_scopes(cfg.Scopes))
	vspec.Ensures("C26: authorization server", vspec.Same(c.AuthorizationServer(), s))
}

//gov:contract (*remoteClient).ExchangeGrantCode
//gov:props C22 C26 C27
func vc_ExchangeGrantCode(cfg v1.OidcConfigSpec, s authserver.AuthorizationServerService, code, uri string) {
	c := New(cfg, s)
	Reset()
	r, err := c.ExchangeGrantCode(code, uri)
	vspec.Ensures("C22,C26: without a server there is an error", s != nil || (err != nil && r == nil))
	vspec.Ensures("C22,C26: the code is exchanged at the client's server", s == nil || (GtN == 1 && vspec.Same(GtServer, s) &&
		GtCode == code && GtURI == uri && GtRefresh == ""))
	vspec.Ensures("C22,C26: with the client's own credentials and method", s == nil || (GtMethod == cfg.AuthMethod && GtID == cfg.ClientID && GtSecret == cfg.ClientSecret))
	vspec.Ensures("C22,C26: its answer is returned", s == nil || (r == GtRes && err == GtErr))
}

//gov:contract (*remoteClient).RefreshToken
//gov:props C22 C26 C27
func vc_RefreshToken(cfg v1.OidcConfigSpec, s authserver.AuthorizationServerService, refresh string) {
	c := New(cfg, s)
	Reset()
	r, err := c.RefreshToken(refresh)
	vspec.Ensures("C22,C26: without a server there is an error", s != nil || (err != nil && r == nil))
	vspec.Ensures("C22,C26: the token is refreshed at the client's server", s == nil || (GtN == 1 && vspec.Same(GtServer, s) && GtRefresh == refresh))
	vspec.Ensures("C22,C26: with the client's own credentials and method", s == nil || (GtMethod == cfg.AuthMethod && GtID == cfg.ClientID && GtSecret == cfg.ClientSecret))
	vspec.Ensures("C22,C26: its answer is returned", s == nil || (r == GtRes && err == GtErr))
}
