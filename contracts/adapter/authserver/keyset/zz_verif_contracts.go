package keyset

import (
	"crypto"
	"crypto/rsa"
	"encoding/base64"
	"math/big"
	"strings"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/networking"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vmodels"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/vspec"
)

func forallString(f func(x string) bool) bool { panic("spec") }

// spec_bytes: what a field of a key stands for: base64url, else standard
// base64, with or without padding.
func spec_bytes(s string) ([]byte, bool) {
	if n := len(s) % 4; n > 0 {
		s += strings.Repeat("=", 4-n)
	}
	if b, ok := vmodels.Uf_base64(base64.URLEncoding, s); ok {
		return b, true
	}
	return vmodels.Uf_base64(base64.StdEncoding, s)
}

// spec_natural: the number with at most four big-endian bytes.
func spec_natural(b []byte) int {
	switch len(b) {
	case 0:
		return 0
	case 1:
		return int(b[0])
	case 2:
		return int(b[0])*256 + int(b[1])
	case 3:
		return int(b[0])*65536 + int(b[1])*256 + int(b[2])
	}
	return int(b[0])*16777216 + int(b[1])*65536 + int(b[2])*256 + int(b[3])
}

// rec_decodable: the key is a complete RSA key whose exponent fits.
func rec_decodable(k key) bool {
	n, okn := spec_bytes(k.N)
	e, oke := spec_bytes(k.E)
	_ = n
	return k.Kty == "RSA" && k.N != "" && k.E != "" && okn && oke && len(e) <= 4
}

// spec_denotes: pk is the public key the JWK stands for.
func spec_denotes(k key, pk crypto.PublicKey) bool {
	p, ok := pk.(*rsa.PublicKey)
	if !ok || p == nil || p.N == nil {
		return false
	}
	n, _ := spec_bytes(k.N)
	e, _ := spec_bytes(k.E)
	return vmodels.BigVal[p.N] == vmodels.Uf_bigBytes(n) && p.E == spec_natural(e)
}

// uf_decodedTo: pk is what decoding k returned, hence (by the contract of
// decodePublicKey) the key it denotes.
func uf_decodedTo(k key, pk crypto.PublicKey) bool { panic("uf") }

//gov:contract (*key).decodePublicKey
//gov:props C20 C27
//gov:use
func vc_decodePublicKey(k *key) {
	vspec.Requires(k != nil)
	vspec.Requires(vmodels.BigVal != nil)
	vspec.Modifies(vmodels.BigVal)
	k0 := *k
	pk, err := k.decodePublicKey()
	vspec.Ensures("C19,C20: complete RSA keys whose exponent fits are accepted, others are refused", (err == nil) == rec_decodable(k0))
	vspec.Ensures("C19,C20: the key is the one denoted", err != nil || spec_denotes(k0, pk))
	vspec.Assume(err != nil || uf_decodedTo(k0, pk)) // its definition
	vspec.Ensures("C20: a refused key is not returned", err == nil || pk == nil)
}

func spec_client(c *networking.HTTPClient) bool { return c != nil && c.Client != nil }

func begin() {
	vmodels.Reset()
	vmodels.BigVal = map[*big.Int]int{}
}

// spec_fetched: one successful request for the key set.
func spec_fetched(url string) bool {
	if vmodels.HTTPn != 1 || vmodels.HTTPErr != nil || vmodels.DecN != 1 {
		return false
	}
	_, ok := vmodels.DecVal.(*keySet)
	return vmodels.HTTPRes.StatusCode == 200 && vmodels.DecErr == nil && ok &&
		vmodels.HTTPReq.Method == "GET" && vmodels.ReqURL[vmodels.HTTPReq] == url
}

// spec_published: m holds exactly the decodable, named keys of the response.
func spec_published(m map[string]crypto.PublicKey) bool {
	ks, ok := vmodels.DecVal.(*keySet)
	if !ok || ks == nil || ks.Keys == nil {
		return false
	}
	keys := ks.Keys
	return forallString(func(x string) bool { return spec_keyFor(keys, len(keys), m, x) })
}

func spec_keyFor(keys []key, n int, m map[string]crypto.PublicKey, x string) bool {
	v, ok := m[x]
	if !ok {
		return vspec.ForAll(0, n, func(i int) bool { return x == "" || keys[i].Kid != x || !rec_decodable(keys[i]) })
	}
	return x != "" && vspec.Exists(0, n, func(i int) bool {
		return keys[i].Kid == x && rec_decodable(keys[i]) && uf_decodedTo(keys[i], v)
	})
}

// Before the n-th key the new map holds the first n keys.
func inv_keys(n int, keys []key, m map[string]crypto.PublicKey) bool {
	return forallString(func(x string) bool { return spec_keyFor(keys, n, m, x) })
}

// One refresh.
//
//gov:contract (*RemoteKeySet).updateKeys
//gov:props C19 C23 C27
func vc_updateKeys(s *RemoteKeySet) {
	vspec.Requires(s != nil && spec_client(s.httpClient))
	begin()
	s0 := *s
	snap := vspec.Snapshot()
	_, err := s.updateKeys()
	m := s.publicKeys
	vspec.Ensures("C19: success means that the key set was fetched", err != nil || spec_fetched(s0.publicKeyURL))
	vspec.Ensures("C19: a fetched key set is published", err == nil || !spec_fetched(s0.publicKeyURL) || vmodels.DecVal.(*keySet).Keys == nil)
	vspec.Ensures("C19: exactly the decodable, named keys are published", err != nil || spec_published(m))
	vspec.Ensures("C19: a failed refresh changes nothing", err == nil || (vspec.Same(m, s0.publicKeys) && vspec.Unchanged(snap, m)))
	vspec.Ensures("C19: address and client stay", s.publicKeyURL == s0.publicKeyURL && s.httpClient == s0.httpClient)
}

// spec_refreshed: one refresh was tried: it published what it fetched or
// changed nothing.
func spec_refreshed(s0 RemoteKeySet, m map[string]crypto.PublicKey, snap int) bool {
	if vmodels.HTTPn+vmodels.ReqErrN != 1 {
		return false
	}
	if spec_fetched(s0.publicKeyURL) && vmodels.DecVal.(*keySet).Keys != nil {
		return spec_published(m)
	}
	return vspec.Same(m, s0.publicKeys) && vspec.Unchanged(snap, m)
}

// Looking up a key.
//
//gov:contract (*RemoteKeySet).PublicKey
//gov:props C19 C27
func vc_PublicKey(s *RemoteKeySet, kid string) {
	vspec.Requires(s != nil && spec_client(s.httpClient))
	begin()
	s0 := *s
	held := s.publicKeys[kid]
	snap := vspec.Snapshot()
	k := s.PublicKey(kid)
	m := s.publicKeys
	vspec.Ensures("C19: a key which is held is returned without contacting the server", held == nil ||
		(vspec.Same(k, held) && vmodels.HTTPn == 0 && vspec.Same(m, s0.publicKeys) && vspec.Unchanged(snap, m)))
	vspec.Ensures("C19: otherwise there is one refresh", held != nil || spec_refreshed(s0, m, snap))
	vspec.Ensures("C19: and its result is returned", held != nil || vspec.Same(k, m[kid]))
	vspec.Ensures("C19: address and client stay", s.publicKeyURL == s0.publicKeyURL && s.httpClient == s0.httpClient)
}

//gov:contract New
//gov:props C19 C27
func vc_New(url string, c *networking.HTTPClient) {
	vspec.Requires(c == nil || c.Client != nil)
	begin()
	r := New(url, c)
	s, ok := r.(*RemoteKeySet)
	vspec.Ensures("C19: a key set for that address", ok && s != nil && s.publicKeyURL == url && spec_client(s.httpClient) && (c == nil || s.httpClient == c))
	vspec.Ensures("C19: its keys are loaded once", vmodels.HTTPn+vmodels.ReqErrN == 1)
	vspec.Ensures("C19: it holds exactly the decodable, named keys of the response", !ok ||
		!spec_fetched(url) || vmodels.DecVal.(*keySet).Keys == nil || spec_published(s.publicKeys))
	vspec.Ensures("C19: or none", !ok || (spec_fetched(url) && vmodels.DecVal.(*keySet).Keys != nil) || len(s.publicKeys) == 0)
}

//gov:contract (*RemoteKeySet).PublicKeyURL
//gov:props C19
func vc_PublicKeyURL(s *RemoteKeySet) {
	vspec.Requires(s != nil)
	vspec.Ensures("C19: the address", s.PublicKeyURL() == s.publicKeyURL)
}
