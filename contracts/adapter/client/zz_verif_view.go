package client

import (
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vmodels"
)

// What a client shows, for the code which uses clients: what it was configured
// with (C26 says so of the real client).

func Uf_id(c Client) string                                    { panic("uf") }
func Uf_name(c Client) string                                  { panic("uf") }
func Uf_scope(c Client) string                                 { panic("uf") }
func Uf_server(c Client) authserver.AuthorizationServerService { panic("uf") }

//gov:model (adapter/client.Client).ID
func mw_ID(c Client) string { return Uf_id(c) }

//gov:model (adapter/client.Client).Name
func mw_Name(c Client) string { return Uf_name(c) }

//gov:model (adapter/client.Client).Scope
func mw_Scope(c Client) string { return Uf_scope(c) }

//gov:model (adapter/client.Client).AuthorizationServer
func mw_AuthorizationServer(c Client) authserver.AuthorizationServerService { return Uf_server(c) }

func any_text() string { panic("any") }

func any_flag() bool { panic("any") }

// The tokens asked for by a client.
var (
	XcN, RfN               int
	XcClient, RfClient     Client
	XcCode, XcURI, RfToken string
	XcRes, RfRes           *authserver.TokenResponse
	XcVal, RfVal           authserver.TokenResponse
	XcErr, RfErr           error
)

func ResetCalls() {
	XcN, RfN, XcClient, RfClient, XcCode, XcURI, RfToken = 0, 0, nil, nil, "", "", ""
	XcRes, RfRes, XcErr, RfErr = nil, nil, nil, nil
}

func any_response() authserver.TokenResponse { panic("any") }

//gov:model (adapter/client.Client).ExchangeGrantCode
func mw_ExchangeGrantCode(c Client, code, uri string) (*authserver.TokenResponse, error) {
	XcN++
	XcClient, XcCode, XcURI, XcRes, XcErr = c, code, uri, nil, nil
	if any_flag() {
		XcErr = vmodels.Err()
		return nil, XcErr
	}
	XcRes = new(authserver.TokenResponse)
	XcVal = any_response()
	*XcRes = XcVal
	return XcRes, nil
}

//gov:model (adapter/client.Client).RefreshToken
func mw_RefreshToken(c Client, token string) (*authserver.TokenResponse, error) {
	RfN++
	RfClient, RfToken, RfRes, RfErr = c, token, nil, nil
	if any_flag() {
		RfErr = vmodels.Err()
		return nil, RfErr
	}
	RfRes = new(authserver.TokenResponse)
	RfVal = any_response()
	*RfRes = RfVal
	return RfRes, nil
}
