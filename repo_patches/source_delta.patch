From cf843f0a21795de7e144c94e01aa2997901e2407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 01/17] fix: policy lookup falls back to the closest enclosing
 prefix

SetPolicies stored an exact path's actions into the enclosing wildcard entry,
and an entry without the requested method (or a reset one) hid the policies of
the enclosing prefixes, leaving requests unprotected.
---
 adapter/policy/store/pathtrie/pathtrie.go | 37 +++++++++++++--------
 adapter/policy/store/pathtrie/trie.go     |  1 +
 adapter/policy/store/policy/localstore.go | 39 ++++++++++++++++-------
 3 files changed, 52 insertions(+), 25 deletions(-)

diff --git a/adapter/policy/store/pathtrie/pathtrie.go b/adapter/policy/store/pathtrie/pathtrie.go
index 4d99a4b..403d7aa 100644
--- a/adapter/policy/store/pathtrie/pathtrie.go
+++ b/adapter/policy/store/pathtrie/pathtrie.go
@@ -36,29 +36,38 @@ func (trie *PathTrie) Get(key string) interface{} {
 	return node.value
 }
 
-// Get returns the actions stored for the given endpoint.
+// GetActions returns the value stored for the given key or, when there is none,
+// the value of the closest enclosing wildcard ("/*") entry.
 func (trie *PathTrie) GetActions(key string) interface{} {
-	prefix := "/*"
+	return trie.Find(key, func(value interface{}) bool { return value != nil })
+}
+
+// Find returns the accepted value stored at the given key or, when there is none,
+// the accepted value of the closest enclosing wildcard ("/*") entry. It returns nil
+// if none of the matching values is accepted.
+func (trie *PathTrie) Find(key string, accept func(value interface{}) bool) interface{} {
+	const prefix = "/*"
+	var found interface{}
 	node := trie
-	parent := trie.children[prefix]
 	for part, i := trie.segmenter(key, 0); ; part, i = trie.segmenter(key, i) {
+		if wildcard := node.children[prefix]; wildcard != nil && accept(wildcard.value) {
+			found = wildcard.value
+		}
 		node = node.children[part]
-		if node != nil && node.children[prefix] != nil {
-			parent = node.children[prefix]
+		if node == nil {
+			return found
 		}
-		if node == nil || i == -1 {
+		if i == -1 {
 			break
 		}
 	}
-
-	if node == nil || node.value == nil {
-		if parent == nil {
-			return nil
-		} else {
-			return parent.value
-		}
+	if accept(node.value) {
+		return node.value
 	}
-	return node.value
+	if wildcard := node.children[prefix]; wildcard != nil && accept(wildcard.value) {
+		found = wildcard.value
+	}
+	return found
 }
 
 // Put inserts the value into the trie at the given key, replacing any
diff --git a/adapter/policy/store/pathtrie/trie.go b/adapter/policy/store/pathtrie/trie.go
index 7e76676..079df2e 100644
--- a/adapter/policy/store/pathtrie/trie.go
+++ b/adapter/policy/store/pathtrie/trie.go
@@ -4,6 +4,7 @@ package pathtrie
 type Trie interface {
 	Get(key string) interface{}
 	GetActions(key string) interface{}
+	Find(key string, accept func(value interface{}) bool) interface{}
 	Put(key string, value interface{}) bool
 	Delete(key string) bool
 }
diff --git a/adapter/policy/store/policy/localstore.go b/adapter/policy/store/policy/localstore.go
index 483c141..1ea2845 100644
--- a/adapter/policy/store/policy/localstore.go
+++ b/adapter/policy/store/policy/localstore.go
@@ -71,21 +71,38 @@ func (l *LocalStore) DeleteClient(clientName string) {
 
 func (l *LocalStore) GetPolicies(endpoint policy.Endpoint) policy.RoutePolicy {
 	if l.policies != nil && l.policies[endpoint.Service] != nil {
-		actions, ok := (l.policies[endpoint.Service].GetActions(endpoint.Path)).(policy.Actions)
-		if ok {
-			result, present := actions[endpoint.Method]
-			if present { // found actions for method
-				return result
-			}
-			result, present = actions[policy.ALL]
-			if present { // check if actions are set for ALL
-				return result
-			}
+		// closest path with actions configured for the method
+		value := l.policies[endpoint.Service].Find(endpoint.Path, func(value interface{}) bool {
+			_, ok := configuredPolicy(value, endpoint.Method)
+			return ok
+		})
+		if result, ok := configuredPolicy(value, endpoint.Method); ok {
+			return result
 		}
 	}
 	return policy.NewRoutePolicy()
 }
 
+// configuredPolicy returns the policy set for the method or else for ALL methods.
+// Entries which have been reset do not count as configured.
+func configuredPolicy(value interface{}, method policy.Method) (policy.RoutePolicy, bool) {
+	actions, ok := value.(policy.Actions)
+	if !ok {
+		return policy.RoutePolicy{}, false
+	}
+	if result, present := actions[method]; present && isConfigured(result) { // found actions for method
+		return result, true
+	}
+	if result, present := actions[policy.ALL]; present && isConfigured(result) { // check if actions are set for ALL
+		return result, true
+	}
+	return policy.RoutePolicy{}, false
+}
+
+func isConfigured(p policy.RoutePolicy) bool {
+	return p.PolicyReference != "" || len(p.Actions) > 0
+}
+
 func (s *LocalStore) SetPolicies(endpoint policy.Endpoint, actions policy.RoutePolicy) {
 	if s.policies == nil {
 		s.policies = make(map[policy.Service]pathtrie.Trie)
@@ -94,7 +111,7 @@ func (s *LocalStore) SetPolicies(endpoint policy.Endpoint, actions policy.RouteP
 		s.policies[endpoint.Service] = pathtrie.NewPathTrie()
 	}
 
-	if obj, ok := (s.policies[endpoint.Service].GetActions(endpoint.Path)).(policy.Actions); ok {
+	if obj, ok := (s.policies[endpoint.Service].Get(endpoint.Path)).(policy.Actions); ok {
 		obj[endpoint.Method] = actions
 	} else {
 		obj := policy.NewActions()
-- 
2.43.0


From e4ac6e902d4308eb44e09278c4c2f8e654abc0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 02/17] fix: updating a policy releases the endpoints it no
 longer declares

---
 .../policy/handler/crdeventhandler/add_event.go  | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/adapter/policy/handler/crdeventhandler/add_event.go b/adapter/policy/handler/crdeventhandler/add_event.go
index 4498719..d01f6ea 100644
--- a/adapter/policy/handler/crdeventhandler/add_event.go
+++ b/adapter/policy/handler/crdeventhandler/add_event.go
@@ -58,15 +58,31 @@ func (e *OidcConfigAddEventHandler) HandleAddUpdateEvent() {
 func (e *PolicyAddEventHandler) HandleAddUpdateEvent() {
 	zap.L().Debug("Create/Update Policy", zap.String("ID", string(e.Obj.ObjectMeta.UID)), zap.String("name", e.Obj.ObjectMeta.Name), zap.String("namespace", e.Obj.ObjectMeta.Namespace))
 	mappingId := e.Obj.ObjectMeta.Namespace + "/" +e.Obj.ObjectMeta.Name
+	previousPolicies := e.Store.GetPolicyMapping(mappingId)
 	parsedPolicies := ParseTarget(e.Obj.Spec.Target, e.Obj.ObjectMeta.Namespace)
 	for _, policies := range parsedPolicies {
 		zap.S().Debug("Adding policy for endpoint", policies.Endpoint)
 		e.Store.SetPolicies(policies.Endpoint, policy.RoutePolicy{ PolicyReference: mappingId, Actions: policies.Actions})
 	}
+	// reset the endpoints which are no longer declared by the policy
+	for _, previous := range previousPolicies {
+		if !declaresEndpoint(parsedPolicies, previous.Endpoint) && e.Store.GetPolicies(previous.Endpoint).PolicyReference == mappingId {
+			e.Store.SetPolicies(previous.Endpoint, policy.NewRoutePolicy())
+		}
+	}
 	e.Store.AddPolicyMapping(mappingId, parsedPolicies)
 	zap.L().Info("Policy created/updated", zap.String("ID", string(e.Obj.ObjectMeta.UID)))
 }
 
+func declaresEndpoint(mappings []policy.PolicyMapping, endpoint policy.Endpoint) bool {
+	for _, mapping := range mappings {
+		if mapping.Endpoint == endpoint {
+			return true
+		}
+	}
+	return false
+}
+
 func GetClientSecret(crd *v1.OidcConfig, kubeClient kubernetes.Interface) string {
 	// Return kube secret from reference if present, else try clientSecret
 	if crd.Spec.ClientSecretRef.Name != "" && crd.Spec.ClientSecretRef.Key != "" {
-- 
2.43.0


From 404a1e1cf26a68488ba83df0fcabd6318c4673d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 03/17] fix: OIDC configurations recover when discovery was
 unavailable at load time

---
 adapter/policy/handler/crdeventhandler/add_event.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/adapter/policy/handler/crdeventhandler/add_event.go b/adapter/policy/handler/crdeventhandler/add_event.go
index d01f6ea..855f826 100644
--- a/adapter/policy/handler/crdeventhandler/add_event.go
+++ b/adapter/policy/handler/crdeventhandler/add_event.go
@@ -46,8 +46,11 @@ func (e *OidcConfigAddEventHandler) HandleAddUpdateEvent() {
 		e.Obj.Spec.AuthMethod = "client_secret_basic"
 	}
 	authorizationServer := authserver.New(e.Obj.Spec.DiscoveryURL)
-	keySets := keyset.New(authorizationServer.JwksEndpoint(), nil)
-	authorizationServer.SetKeySet(keySets)
+	// The key set address is unknown while discovery is unavailable. In this case the
+	// authorization server creates its key set as soon as discovery has succeeded.
+	if jwksURL := authorizationServer.JwksEndpoint(); jwksURL != "" {
+		authorizationServer.SetKeySet(keyset.New(jwksURL, nil))
+	}
 	e.Obj.Spec.ClientSecret = GetClientSecret(e.Obj, e.KubeClient)
 	// Create and store OIDC Client
 	oidcClient := client.New(e.Obj.Spec, authorizationServer)
-- 
2.43.0


From dde1f81e650334ee45299f59057c3692396b4e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 04/17] fix: JWT policies with ID token rules require an ID
 token

---
 adapter/strategy/api/api.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/adapter/strategy/api/api.go b/adapter/strategy/api/api.go
index f8cb1ac..3996e66 100644
--- a/adapter/strategy/api/api.go
+++ b/adapter/strategy/api/api.go
@@ -14,6 +14,7 @@ import (
 	"istio.io/istio/mixer/pkg/status"
 
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/errors"
+	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
 	adapterPolicy "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/strategy"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/validator"
@@ -63,8 +64,8 @@ func (s *APIStrategy) HandleAuthnZRequest(r *authnz.HandleAuthnZRequest, action
 		return validationError(err, "invalid access token")
 	}
 
-	// Validate ID Value
-	if tokens.ID != "" {
+	// Validate ID Value - it can not be omitted if a rule is about it
+	if tokens.ID != "" || requiresIDToken(action.Rules) {
 		err = s.tokenUtil.Validate(tokens.ID, validator.ID, action.KeySet, action.Rules, "")
 		if err != nil {
 			return validationError(err, "invalid ID token")
@@ -112,6 +113,16 @@ func getAuthTokensFromRequest(r *authnz.HandleAuthnZRequest) (*validator.RawToke
 
 }
 
+// requiresIDToken returns whether any of the rules has to be checked on the ID token
+func requiresIDToken(rules []v1.Rule) bool {
+	for _, rule := range rules {
+		if rule.Source == validator.ID.String() {
+			return true
+		}
+	}
+	return false
+}
+
 // buildErrorResponse creates the rfc specified OAuth 2.0 error result
 func buildErrorResponse(err *errors.OAuthError) *authnz.HandleAuthnZResponse {
 	header := bearer + " realm=\"token\""
-- 
2.43.0


From 62aeea1359dc1d1a4a5f0e143453561763adbf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 05/17] fix: only strip the callback or logout suffix when
 selecting a policy

---
 adapter/policy/engine/engine.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/adapter/policy/engine/engine.go b/adapter/policy/engine/engine.go
index 94931dd..33b59f8 100644
--- a/adapter/policy/engine/engine.go
+++ b/adapter/policy/engine/engine.go
@@ -53,9 +53,9 @@ func (m *engine) Evaluate(target *authnz.TargetMsg) (*Action, error) {
 
 	// Strip custom path components
 	if strings.HasSuffix(target.Path, callbackEndpoint) {
-		target.Path = strings.Split(target.Path, callbackEndpoint)[0]
+		target.Path = strings.TrimSuffix(target.Path, callbackEndpoint)
 	} else if strings.HasSuffix(target.Path, logoutEndpoint) {
-		target.Path = strings.Split(target.Path, logoutEndpoint)[0]
+		target.Path = strings.TrimSuffix(target.Path, logoutEndpoint)
 	}
 
 	// Get All policies protecting target
-- 
2.43.0


From 0f65b97f7ea2d8e4cbc07cddfdf3db4ed7845f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 06/17] fix: do not delete policies when the object lookup
 fails

---
 adapter/policy/controller/controller.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/adapter/policy/controller/controller.go b/adapter/policy/controller/controller.go
index 18f76d8..52aa099 100644
--- a/adapter/policy/controller/controller.go
+++ b/adapter/policy/controller/controller.go
@@ -104,6 +104,8 @@ func (c *Controller) processNextItem() bool {
 			c.Queue.Forget(key)
 			utilruntime.HandleError(err)
 		}
+		// the state of the object is unknown, it must not be handled as deleted
+		return true
 	}
 
 	// if the item doesn't exist then it was deleted and we need to fire off the handler's
-- 
2.43.0


From a1408548ecbb02e35ccdbc33ce693797d77af2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 07/17] fix: publish the discovered configuration before
 marking it initialized

---
 adapter/authserver/authserver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adapter/authserver/authserver.go b/adapter/authserver/authserver.go
index 86746f3..c69d20a 100644
--- a/adapter/authserver/authserver.go
+++ b/adapter/authserver/authserver.go
@@ -210,8 +210,8 @@ func (s *RemoteService) loadDiscoveryEndpoint() (interface{}, error) {
 		return nil, oa2Err
 	}
 
-	s.initialized = true
 	s.DiscoveryConfig = *config
+	s.initialized = true
 
 	return http.StatusOK, nil
 }
-- 
2.43.0


From 67186bcc1aaefccb8442c22ead2685b2e2398a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 08/17] fix: keep the refresh token when none is returned by a
 refresh

---
 adapter/strategy/web/web.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index 81e95cf..994b76b 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -208,6 +208,10 @@ func (w *WebStrategy) handleRefreshTokens(sessionID string, session *authserver.
 		zap.L().Debug("Could not validate Id tokens. Beginning a new session.", zap.String("client_name", c.Name()), zap.String("session_id", sessionID), zap.Error(validationErr))
 		return nil, nil
 	} else {
+		// The authorization server may choose not to issue a new refresh token (RFC 6749 section 6)
+		if tokens.RefreshToken == "" {
+			tokens.RefreshToken = session.RefreshToken
+		}
 		zap.L().Debug("Updated tokens using refresh token", zap.String("client_name", c.Name()), zap.String("session_id", sessionID))
 		cookie := generateSessionIDCookie(c, &sessionID)
 		w.tokenCache.Store(cookie.Value, tokens)
-- 
2.43.0


From d9af668b020cc798b34282765d567108146a273c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 09/17] fix: reject RSA exponents which do not fit instead of
 truncating them

---
 adapter/authserver/keyset/key.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/adapter/authserver/keyset/key.go b/adapter/authserver/keyset/key.go
index 3b1f358..509d055 100644
--- a/adapter/authserver/keyset/key.go
+++ b/adapter/authserver/keyset/key.go
@@ -68,6 +68,9 @@ func (k *key) decodePublicKey() (crypto.PublicKey, error) {
 		if err != nil {
 			return nil, errors.New("malformed JWK RSA key exponent")
 		}
+		if len(data) > 4 {
+			return nil, errors.New("malformed JWK RSA key exponent")
+		}
 		if len(data) < 4 {
 			ndata := make([]byte, 4)
 			copy(ndata[4-len(data):], data)
-- 
2.43.0


From dad12e4a50062db66f8a862e12b1bf9f978764d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 10/17] fix: retain the query of the authorization endpoint

---
 adapter/strategy/web/utils.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/adapter/strategy/web/utils.go b/adapter/strategy/web/utils.go
index d8a0842..03f7cb7 100644
--- a/adapter/strategy/web/utils.go
+++ b/adapter/strategy/web/utils.go
@@ -65,7 +65,11 @@ func generateAuthorizationURL(c client.Client, redirectURI string, state string)
 	}
 
 	// Add Query Parameters to the URL
-	baseUrl.RawQuery = params.Encode() // Escape Query Parameters
+	query := params.Encode() // Escape Query Parameters
+	if baseUrl.RawQuery != "" {
+		query = baseUrl.RawQuery + "&" + query // Retain the query of the endpoint (RFC 6749 section 3.1)
+	}
+	baseUrl.RawQuery = query
 
 	return baseUrl.String()
 }
-- 
2.43.0


From fee21c82aa140c222fb454470db99f531b118eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 11/17] fix: close the body of userinfo responses

---
 adapter/validator/validator.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/adapter/validator/validator.go b/adapter/validator/validator.go
index 37a86a8..6dd3011 100644
--- a/adapter/validator/validator.go
+++ b/adapter/validator/validator.go
@@ -162,6 +162,8 @@ func validateAccessTokenString(userInfoEndpoint string, tokenStr string, rules [
 		return errors.UnauthorizedHTTPException(err.Error(), findRequiredScopes(rules))
 	}
 
+	defer res.Body.Close()
+
 	if res.StatusCode != http.StatusOK {
 		zap.L().Warn("Unauthorized - invalid token", zap.String("token", tokenStr), zap.Int("res.StatusCode", res.StatusCode))
 		return errors.UnauthorizedHTTPException("Unauthorized - invalid token", findRequiredScopes(rules))
-- 
2.43.0


From 7feaf9413edd83f37c8a8f6b91e6aac802aca99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:52 +0000
Subject: [PATCH 12/17] fix: listed option values above 127 can be selected

---
 adapter/config/intoptions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adapter/config/intoptions.go b/adapter/config/intoptions.go
index e8f3d77..29facd7 100644
--- a/adapter/config/intoptions.go
+++ b/adapter/config/intoptions.go
@@ -21,7 +21,7 @@ func (o *IntOptions) String() string {
 
 // Set takes the user input validates it and stores it
 func (o *IntOptions) Set(inp string) error {
-	i, err := strconv.ParseInt(inp, 10, 8)
+	i, err := strconv.ParseInt(inp, 10, 0)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From edd1d6378327cb16b32df87ca83a14fbec778ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:22 +0000
Subject: [PATCH 13/17] fix: an exact path of slashes only is the root

---
 adapter/policy/handler/crdeventhandler/utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/adapter/policy/handler/crdeventhandler/utils.go b/adapter/policy/handler/crdeventhandler/utils.go
index bba848d..187d213 100644
--- a/adapter/policy/handler/crdeventhandler/utils.go
+++ b/adapter/policy/handler/crdeventhandler/utils.go
@@ -35,8 +35,8 @@ func ParseTarget(target []v1.TargetElement, namespace string) []policy.PolicyMap
 				for _, path := range items.Paths {
 					method := policy.NewMethod(path.Method)
 					if path.Exact != "" {
-						if path.Exact != "/" {
-							path.Exact = strings.TrimRight(path.Exact, "/")
+						if path.Exact = strings.TrimRight(path.Exact, "/"); path.Exact == "" {
+							path.Exact = "/"
 						}
 						targets = append(targets, getParsedPolicy(service, method, path.Exact, path.Policies))
 					}
-- 
2.43.0


From 731471c1d8738138f25039e0decb23ffc347e909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:40 +0000
Subject: [PATCH 14/17] fix: a prefix below the literal segment * is not
 applied service-wide

The engine looked up the service-wide path as if it were a request for the path
/*, which also found entries enclosing that path, i.e. the prefix /*/. The
store's own fallback already covers the service-wide entry.
---
 adapter/policy/engine/engine.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/adapter/policy/engine/engine.go b/adapter/policy/engine/engine.go
index 33b59f8..6482bd1 100644
--- a/adapter/policy/engine/engine.go
+++ b/adapter/policy/engine/engine.go
@@ -160,12 +160,12 @@ func createDefaultRules(action Action) []v1.Rule {
 	}
 }
 
-// endpointsToCheck returns the possible endpoints housing the authn/z policies for the given target
+// endpointsToCheck returns the possible endpoints housing the authn/z policies for the given target.
+// The store itself falls back to the enclosing prefixes of a path, up to the service-wide "/*".
 func endpointsToCheck(target *authnz.TargetMsg) []policy.Endpoint {
 	service := policy.Service{Namespace: target.Namespace, Name: target.Service}
 	return []policy.Endpoint{
 		{Service: service, Path: target.Path, Method: policy.NewMethod(target.Method)},
 		{Service: service, Path: target.Path, Method: policy.ALL},
-		{Service: service, Path: "/*", Method: policy.ALL},
 	}
 }
-- 
2.43.0


From d8019242067803537097f0dfb166a07c12f0a1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 15/17] fix: login returns to the original URL also when it
 contains the callback path

---
 adapter/strategy/web/web.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index 994b76b..cac07e7 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -319,11 +319,13 @@ func (w *WebStrategy) handleAuthorizationCodeCallback(code interface{}, request
 
 	zap.L().Debug("OIDC callback: created new active session: ", zap.String("client_name", action.Client.Name()), zap.String("session_id", cookie.Value))
 
+	// Return to the original URL unless configured otherwise
+	redirectURL := strings.TrimSuffix(redirectURI, callbackEndpoint)
 	if action.RedirectUri != "" {
-		redirectURI = action.RedirectUri
+		redirectURL = action.RedirectUri
 	}
 
-	return buildSuccessRedirectResponse(redirectURI, []*http.Cookie{cookie}), nil
+	return buildSuccessRedirectResponse(redirectURL, []*http.Cookie{cookie}), nil
 }
 
 // handleAuthorizationCodeFlow initiates an OAuth 2.0 / OIDC authorization_code grant flow.
@@ -488,7 +490,7 @@ func (w *WebStrategy) parseAndValidateCookie(cookie *http.Cookie) *OidcCookie {
 // to the provided url with the accompanying cookie headers
 func buildSuccessRedirectResponse(redirectURI string, cookies []*http.Cookie) *authnz.HandleAuthnZResponse {
 	headers := make(map[string]string)
-	headers[location] = strings.Split(redirectURI, callbackEndpoint)[0]
+	headers[location] = redirectURI
 	for _, cookie := range cookies {
 		headers[setCookie] = cookie.String()
 		zap.S().Debugf("Appending cookie to response: %s", cookie.String())
-- 
2.43.0


From 515882601e4dddc8ea159af80f31e20550bc992d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 16/17] fix: authenticating again at the callback endpoint
 keeps its address

---
 adapter/strategy/web/web.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index cac07e7..5466177 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -330,7 +330,8 @@ func (w *WebStrategy) handleAuthorizationCodeCallback(code interface{}, request
 
 // handleAuthorizationCodeFlow initiates an OAuth 2.0 / OIDC authorization_code grant flow.
 func (w *WebStrategy) handleAuthorizationCodeFlow(request *authnz.RequestMsg, action *engine.Action) (*authnz.HandleAuthnZResponse, error) {
-	redirectURI := buildRequestURL(request) + callbackEndpoint
+	// A callback which has to authenticate again is its own redirect address
+	redirectURI := strings.TrimSuffix(buildRequestURL(request), callbackEndpoint) + callbackEndpoint
 	// / Build and store session state
 	state, stateCookie, err := w.buildStateParam(action.Client)
 	if err != nil {
-- 
2.43.0


From 68459845e23ae0a582970cf807c0bd4920bd3bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:30 +0000
Subject: [PATCH 17/17] fix: deep copies share rules and scopes with the
 original no more

The generated copies were not regenerated when Rules and Scopes were added: a
copied Policy shared the rules of its actions with the original, a copied
OidcConfig its scopes.
---
 .../apis/policies/v1/zz_generated.deepcopy.go | 39 ++++++++++++++++++-
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/adapter/pkg/apis/policies/v1/zz_generated.deepcopy.go b/adapter/pkg/apis/policies/v1/zz_generated.deepcopy.go
index df10e7a..e3b1dfd 100644
--- a/adapter/pkg/apis/policies/v1/zz_generated.deepcopy.go
+++ b/adapter/pkg/apis/policies/v1/zz_generated.deepcopy.go
@@ -121,7 +121,7 @@ func (in *OidcConfig) DeepCopyInto(out *OidcConfig) {
 	*out = *in
 	out.TypeMeta = in.TypeMeta
 	in.ObjectMeta.DeepCopyInto(&out.ObjectMeta)
-	out.Spec = in.Spec
+	in.Spec.DeepCopyInto(&out.Spec)
 	return
 }
 
@@ -180,6 +180,11 @@ func (in *OidcConfigList) DeepCopyObject() runtime.Object {
 func (in *OidcConfigSpec) DeepCopyInto(out *OidcConfigSpec) {
 	*out = *in
 	out.ClientSecretRef = in.ClientSecretRef
+	if in.Scopes != nil {
+		in, out := &in.Scopes, &out.Scopes
+		*out = make([]string, len(*in))
+		copy(*out, *in)
+	}
 	return
 }
 
@@ -199,7 +204,9 @@ func (in *PathConfig) DeepCopyInto(out *PathConfig) {
 	if in.Policies != nil {
 		in, out := &in.Policies, &out.Policies
 		*out = make([]PathPolicy, len(*in))
-		copy(*out, *in)
+		for i := range *in {
+			(*in)[i].DeepCopyInto(&(*out)[i])
+		}
 	}
 	return
 }
@@ -217,6 +224,13 @@ func (in *PathConfig) DeepCopy() *PathConfig {
 // DeepCopyInto is an autogenerated deepcopy function, copying the receiver, writing into out. in must be non-nil.
 func (in *PathPolicy) DeepCopyInto(out *PathPolicy) {
 	*out = *in
+	if in.Rules != nil {
+		in, out := &in.Rules, &out.Rules
+		*out = make([]Rule, len(*in))
+		for i := range *in {
+			(*in)[i].DeepCopyInto(&(*out)[i])
+		}
+	}
 	return
 }
 
@@ -313,6 +327,27 @@ func (in *PolicySpec) DeepCopy() *PolicySpec {
 	return out
 }
 
+// DeepCopyInto is an autogenerated deepcopy function, copying the receiver, writing into out. in must be non-nil.
+func (in *Rule) DeepCopyInto(out *Rule) {
+	*out = *in
+	if in.Values != nil {
+		in, out := &in.Values, &out.Values
+		*out = make([]string, len(*in))
+		copy(*out, *in)
+	}
+	return
+}
+
+// DeepCopy is an autogenerated deepcopy function, copying the receiver, creating a new Rule.
+func (in *Rule) DeepCopy() *Rule {
+	if in == nil {
+		return nil
+	}
+	out := new(Rule)
+	in.DeepCopyInto(out)
+	return out
+}
+
 // DeepCopyInto is an autogenerated deepcopy function, copying the receiver, writing into out. in must be non-nil.
 func (in *TargetElement) DeepCopyInto(out *TargetElement) {
 	*out = *in
-- 
2.43.0

