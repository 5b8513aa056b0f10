From ff3a8172c27792fb387c4c78566d6bf0fd34019a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:17 +0000
Subject: [PATCH 01/10] fix: do not escape encoded redirect fragment parameters
 twice

---
 oauth2.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/oauth2.go b/oauth2.go
index ce4e4f3..764383c 100644
--- a/oauth2.go
+++ b/oauth2.go
@@ -95,6 +95,9 @@ func WriteRedirect(w http.ResponseWriter, uri string, params map[string]string,
 		return err
 	}
 
+	// prepare encoded fragment
+	var fragment string
+
 	// add params to fragment if requested
 	if useFragment {
 		// prepare fragment
@@ -106,7 +109,9 @@ func WriteRedirect(w http.ResponseWriter, uri string, params map[string]string,
 		}
 
 		// encode fragment
-		redirectURI.Fragment = f.Encode()
+		if len(f) > 0 {
+			fragment = "#" + f.Encode()
+		}
 	} else {
 		// get current query
 		q := redirectURI.Query()
@@ -120,8 +125,8 @@ func WriteRedirect(w http.ResponseWriter, uri string, params map[string]string,
 		redirectURI.RawQuery = q.Encode()
 	}
 
-	// set location
-	w.Header().Add("Location", redirectURI.String())
+	// set location, the fragment is already encoded and must not be escaped again
+	w.Header().Add("Location", redirectURI.String()+fragment)
 
 	// prevent caching
 	w.Header().Set("Cache-Control", "no-store")
-- 
2.43.0


From 0c9d6b1942a91e72092e1a1ff91afa88cc9a76ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:17 +0000
Subject: [PATCH 02/10] fix: retain redirect URI queries that are not form
 encoded

---
 oauth2.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/oauth2.go b/oauth2.go
index 764383c..e0e4df1 100644
--- a/oauth2.go
+++ b/oauth2.go
@@ -113,8 +113,13 @@ func WriteRedirect(w http.ResponseWriter, uri string, params map[string]string,
 			fragment = "#" + f.Encode()
 		}
 	} else {
-		// get current query
-		q := redirectURI.Query()
+		// get current query, a query that is not form encoded is retained as is
+		var prefix string
+		q, err := url.ParseQuery(redirectURI.RawQuery)
+		if err != nil {
+			prefix = redirectURI.RawQuery + "&"
+			q = make(url.Values)
+		}
 
 		// add parameters
 		for k, v := range params {
@@ -122,7 +127,7 @@ func WriteRedirect(w http.ResponseWriter, uri string, params map[string]string,
 		}
 
 		// reset query
-		redirectURI.RawQuery = q.Encode()
+		redirectURI.RawQuery = prefix + q.Encode()
 	}
 
 	// set location, the fragment is already encoded and must not be escaped again
-- 
2.43.0


From a680d719c2eb8943761337425b1ed69a921177c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:18 +0000
Subject: [PATCH 03/10] fix: reject redirect URIs that include a fragment

---
 authorization.go | 5 +++--
 token.go         | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/authorization.go b/authorization.go
index 28e012f..f8e7850 100644
--- a/authorization.go
+++ b/authorization.go
@@ -3,6 +3,7 @@ package oauth2
 import (
 	"net/http"
 	"net/url"
+	"strings"
 )
 
 // A AuthorizationRequest is typically returned by ParseAuthorizationRequest and
@@ -55,8 +56,8 @@ func ParseAuthorizationRequest(r *http.Request) (*AuthorizationRequest, error) {
 	}
 
 	// parse redirect uri
-	redirectURI, err := url.ParseRequestURI(redirectURIString)
-	if err != nil || redirectURI.Fragment != "" {
+	_, err = url.ParseRequestURI(redirectURIString)
+	if err != nil || strings.Contains(redirectURIString, "#") {
 		return nil, InvalidRequest("invalid redirect URI")
 	}
 
diff --git a/token.go b/token.go
index f0a4db9..140ea5f 100644
--- a/token.go
+++ b/token.go
@@ -79,8 +79,8 @@ func ParseTokenRequest(r *http.Request) (*TokenRequest, error) {
 
 	// validate redirect uri if present
 	if redirectURIString != "" {
-		redirectURI, err := url.ParseRequestURI(redirectURIString)
-		if err != nil || redirectURI.Fragment != "" {
+		_, err := url.ParseRequestURI(redirectURIString)
+		if err != nil || strings.Contains(redirectURIString, "#") {
 			return nil, InvalidRequest("invalid redirect URI")
 		}
 	}
-- 
2.43.0


From 2ec2e944e6effea4472660616c6724eadd18c41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:19 +0000
Subject: [PATCH 04/10] fix: keep escapes in redirect URIs that are only form
 encoded

---
 authorization.go |  2 +-
 oauth2.go        | 13 +++++++++++++
 token.go         |  2 +-
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/authorization.go b/authorization.go
index f8e7850..73fc5ea 100644
--- a/authorization.go
+++ b/authorization.go
@@ -50,7 +50,7 @@ func ParseAuthorizationRequest(r *http.Request) (*AuthorizationRequest, error) {
 	}
 
 	// get redirect uri
-	redirectURIString, err := url.QueryUnescape(r.Form.Get("redirect_uri"))
+	redirectURIString, err := unescapeRedirectURI(r.Form.Get("redirect_uri"))
 	if err != nil || redirectURIString == "" {
 		return nil, InvalidRequest("missing redirect URI")
 	}
diff --git a/oauth2.go b/oauth2.go
index e0e4df1..c3dfb34 100644
--- a/oauth2.go
+++ b/oauth2.go
@@ -68,6 +68,19 @@ func KnownTokenType(str string) bool {
 	return false
 }
 
+// unescapeRedirectURI returns the redirect URI carried by the specified request
+// parameter. Some clients, like BuildTokenRequest, escape the URI in addition to
+// the form encoding. As such a value is not a URI by itself, it is unescaped. A
+// value that already is a URI must be kept as its escapes are part of the URI.
+func unescapeRedirectURI(str string) (string, error) {
+	_, err := url.ParseRequestURI(str)
+	if err == nil {
+		return str, nil
+	}
+
+	return url.QueryUnescape(str)
+}
+
 // Write will encode the specified object as json and write a response to the
 // response writer as specified by the OAuth2 spec.
 func Write(w http.ResponseWriter, obj interface{}, status int) error {
diff --git a/token.go b/token.go
index 140ea5f..46e76ba 100644
--- a/token.go
+++ b/token.go
@@ -72,7 +72,7 @@ func ParseTokenRequest(r *http.Request) (*TokenRequest, error) {
 	refreshToken := r.PostForm.Get("refresh_token")
 
 	// get redirect uri
-	redirectURIString, err := url.QueryUnescape(r.PostForm.Get("redirect_uri"))
+	redirectURIString, err := unescapeRedirectURI(r.PostForm.Get("redirect_uri"))
 	if err != nil {
 		return nil, InvalidRequest("invalid redirect URI")
 	}
-- 
2.43.0


From 6ecf495a5ea86d5cd4f2f45b8f57507a5749d1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:20 +0000
Subject: [PATCH 05/10] fix: do not report expired tokens as active

---
 server.go | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/server.go b/server.go
index b926c76..a9e8dd5 100644
--- a/server.go
+++ b/server.go
@@ -553,13 +553,15 @@ func (s *Server) introspectionEndpoint(w http.ResponseWriter, r *http.Request) {
 			return
 		}
 
-		// set response
-		res.Active = true
-		res.Scope = accessToken.Scope
-		res.ClientID = accessToken.ClientID
-		res.Username = accessToken.Username
-		res.TokenType = AccessToken
-		res.ExpiresAt = accessToken.ExpiresAt.Unix()
+		// set response if not expired
+		if !accessToken.ExpiresAt.Before(time.Now()) {
+			res.Active = true
+			res.Scope = accessToken.Scope
+			res.ClientID = accessToken.ClientID
+			res.Username = accessToken.Username
+			res.TokenType = AccessToken
+			res.ExpiresAt = accessToken.ExpiresAt.Unix()
+		}
 	}
 
 	// check refresh token
@@ -570,13 +572,15 @@ func (s *Server) introspectionEndpoint(w http.ResponseWriter, r *http.Request) {
 			return
 		}
 
-		// set response
-		res.Active = true
-		res.Scope = refreshToken.Scope
-		res.ClientID = refreshToken.ClientID
-		res.Username = refreshToken.Username
-		res.TokenType = RefreshToken
-		res.ExpiresAt = refreshToken.ExpiresAt.Unix()
+		// set response if not expired
+		if !refreshToken.ExpiresAt.Before(time.Now()) {
+			res.Active = true
+			res.Scope = refreshToken.Scope
+			res.ClientID = refreshToken.ClientID
+			res.Username = refreshToken.Username
+			res.TokenType = RefreshToken
+			res.ExpiresAt = refreshToken.ExpiresAt.Unix()
+		}
 	}
 
 	// write response
-- 
2.43.0


From 4c83b715c00c83b83258f654ebcbc8d5a647360c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:20 +0000
Subject: [PATCH 06/10] fix: revoke refreshed tokens when their authorization
 code is replayed

---
 server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server.go b/server.go
index a9e8dd5..0e784e4 100644
--- a/server.go
+++ b/server.go
@@ -437,7 +437,7 @@ func (s *Server) handleRefreshTokenGrant(w http.ResponseWriter, rq *TokenRequest
 	}
 
 	// issue tokens
-	r := s.issueTokens(true, rq.Scope, rq.ClientID, storedRefreshToken.Username, "")
+	r := s.issueTokens(true, rq.Scope, rq.ClientID, storedRefreshToken.Username, storedRefreshToken.Code)
 
 	// delete used refresh token
 	delete(s.RefreshTokens, refreshToken.SignatureString())
-- 
2.43.0


From b4a86f52662f02ebb4655bf0c96d3233b05f1760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:21 +0000
Subject: [PATCH 07/10] fix: escape quotes and backslashes in error params

---
 error.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/error.go b/error.go
index 5a0fb03..317164f 100644
--- a/error.go
+++ b/error.go
@@ -87,6 +87,9 @@ func (e *Error) Map() map[string]string {
 	return m
 }
 
+// escapes characters that cannot appear as is in a quoted string
+var quoteEscaper = strings.NewReplacer(`\`, `\\`, `"`, `\"`)
+
 // Params returns a string encoded representation of the error parameters.
 func (e *Error) Params() string {
 	// prepare params
@@ -94,7 +97,7 @@ func (e *Error) Params() string {
 
 	// add all params
 	for k, v := range e.Map() {
-		params = append(params, fmt.Sprintf(`%s="%s"`, k, v))
+		params = append(params, fmt.Sprintf(`%s="%s"`, k, quoteEscaper.Replace(v)))
 	}
 
 	// sort params
-- 
2.43.0


From ef673c8cd2edf60804008d817a9ad72d3f90e38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:22 +0000
Subject: [PATCH 08/10] fix: prevent request values from sharing capacity

---
 introspection.go |  4 ++--
 revocation.go    |  4 ++--
 token.go         | 14 +++++++-------
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/introspection.go b/introspection.go
index 7497713..3995ade 100644
--- a/introspection.go
+++ b/introspection.go
@@ -111,12 +111,12 @@ func IntrospectionRequestValues(r IntrospectionRequest) url.Values {
 
 	// set token if available
 	if r.Token != "" {
-		values["token"] = slice[0:1]
+		values["token"] = slice[0:1:1]
 	}
 
 	// set token type hint if available
 	if len(r.TokenTypeHint) != 0 {
-		values["token_type_hint"] = slice[1:2]
+		values["token_type_hint"] = slice[1:2:2]
 	}
 
 	return values
diff --git a/revocation.go b/revocation.go
index f321679..ddee64e 100644
--- a/revocation.go
+++ b/revocation.go
@@ -66,12 +66,12 @@ func RevocationRequestValues(r RevocationRequest) url.Values {
 
 	// set token if available
 	if r.Token != "" {
-		values["token"] = slice[0:1]
+		values["token"] = slice[0:1:1]
 	}
 
 	// set token type hint if available
 	if len(r.TokenTypeHint) != 0 {
-		values["token_type_hint"] = slice[1:2]
+		values["token_type_hint"] = slice[1:2:2]
 	}
 
 	return values
diff --git a/token.go b/token.go
index 46e76ba..69dd20a 100644
--- a/token.go
+++ b/token.go
@@ -196,37 +196,37 @@ func TokenRequestValues(r TokenRequest) url.Values {
 
 	// set grant type if available
 	if r.GrantType != "" {
-		values["grant_type"] = slice[0:1]
+		values["grant_type"] = slice[0:1:1]
 	}
 
 	// set scope if available
 	if len(r.Scope) != 0 {
-		values["scope"] = slice[1:2]
+		values["scope"] = slice[1:2:2]
 	}
 
 	// set username if available
 	if r.Username != "" {
-		values["username"] = slice[2:3]
+		values["username"] = slice[2:3:3]
 	}
 
 	// set password if available
 	if r.Password != "" {
-		values["password"] = slice[3:4]
+		values["password"] = slice[3:4:4]
 	}
 
 	// set refresh token if available
 	if r.RefreshToken != "" {
-		values["refresh_token"] = slice[4:5]
+		values["refresh_token"] = slice[4:5:5]
 	}
 
 	// set redirect uri if available
 	if r.RedirectURI != "" {
-		values["redirect_uri"] = slice[5:6]
+		values["redirect_uri"] = slice[5:6:6]
 	}
 
 	// set code if available
 	if r.Code != "" {
-		values["code"] = slice[6:7]
+		values["code"] = slice[6:7:7]
 	}
 
 	return values
-- 
2.43.0


From 98dae78bd059c43ca1d94aebb2ffbfd8b6e89ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:46 +0000
Subject: [PATCH 09/10] fix: do not unescape redirect fragment parameters twice
 in the spec

---
 oauth2test/utils.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/oauth2test/utils.go b/oauth2test/utils.go
index ca1fe9e..168373b 100644
--- a/oauth2test/utils.go
+++ b/oauth2test/utils.go
@@ -59,12 +59,14 @@ func jsonFieldFloat(r *httptest.ResponseRecorder, field string) float64 {
 }
 
 func fragment(r *httptest.ResponseRecorder, key string) string {
-	u, err := url.Parse(r.Header().Get("Location"))
-	if err != nil {
-		panic(err)
+	// the parsed fragment of an URL is already unescaped and must not be used
+	// as the parameters would be unescaped twice
+	parts := strings.SplitN(r.Header().Get("Location"), "#", 2)
+	if len(parts) < 2 {
+		return ""
 	}
 
-	f, err := url.ParseQuery(u.Fragment)
+	f, err := url.ParseQuery(parts[1])
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From 8d7386ad4b89fc22eda5ac899cb960fc1cde8991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:42 +0000
Subject: [PATCH 10/10] fix: do not panic on missing challenges in the spec

---
 oauth2test/utils.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/oauth2test/utils.go b/oauth2test/utils.go
index 168373b..8ef6693 100644
--- a/oauth2test/utils.go
+++ b/oauth2test/utils.go
@@ -84,16 +84,19 @@ func query(r *httptest.ResponseRecorder, key string) string {
 }
 
 func auth(r *httptest.ResponseRecorder, key string) string {
-	header := r.Header().Get("WWW-Authenticate")
-	parts := strings.SplitN(header, " ", 2)
-	parts = strings.Split(parts[1], ", ")
+	// a missing challenge has no parameters
+	parts := strings.SplitN(r.Header().Get("WWW-Authenticate"), " ", 2)
+	if len(parts) < 2 {
+		return ""
+	}
 
-	for _, part := range parts {
-		values := strings.SplitN(part, "=", 2)
-		if values[0] != key {
+	// the parameters may be separated with or without spaces
+	for _, part := range strings.Split(parts[1], ",") {
+		values := strings.SplitN(strings.TrimSpace(part), "=", 2)
+		if len(values) < 2 || values[0] != key {
 			continue
 		}
-		return strings.Trim(values[1], "\",")
+		return strings.Trim(values[1], "\"")
 	}
 
 	return ""
-- 
2.43.0

