From 82222600456395ac0ec63636cb1509f9f8e21332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:42 +0000
Subject: [PATCH 01/29] fix: read the CSRF form field from the request

The middleware looked only at http.Request.Form, which nobody had parsed at
that point, so a nonce sent as a form or query parameter was never found and
every HTML form post was denied.
---
 middleware/csrf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/middleware/csrf.go b/middleware/csrf.go
index 8e9dc85..dead3c4 100644
--- a/middleware/csrf.go
+++ b/middleware/csrf.go
@@ -47,7 +47,7 @@ func CSRFPreventionWithCustomParamAndHeaderName(nonceCache cache.Cache, csrfNonc
 			if !skipNonceCheck {
 				previousNonce := mc.R.Header.Get(csrfRestNonceHeaderName)
 				if previousNonce == "" {
-					previousNonce = mc.R.Form.Get(csrfNonceRequestParamName)
+					previousNonce = mc.R.FormValue(csrfNonceRequestParamName)
 				}
 				if previousNonce == "" || !nonceCache.Contains(previousNonce) {
 					return nil, errors.ErrAccessDenied
-- 
2.43.0


From 6305def4bf8f3cf8edaac29fef1f24ead9679d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:12 +0000
Subject: [PATCH 02/29] fix: consume a CSRF nonce at most once under
 concurrency

Contains and Remove are two cache operations: requests presenting the same
nonce at the same time all passed the lookup before any of them removed it.
---
 middleware/csrf.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/middleware/csrf.go b/middleware/csrf.go
index dead3c4..83b6d00 100644
--- a/middleware/csrf.go
+++ b/middleware/csrf.go
@@ -12,6 +12,7 @@ import (
 	"github.com/ixtendio/gofre/response"
 	"net/http"
 	"strings"
+	"sync"
 	"time"
 )
 
@@ -38,6 +39,20 @@ func CSRFPrevention(nonceCache cache.Cache) Middleware {
 
 // CSRFPreventionWithCustomParamAndHeaderName provides basic CSRF protection for a web application using a custom form param name and header name
 func CSRFPreventionWithCustomParamAndHeaderName(nonceCache cache.Cache, csrfNonceRequestParamName string, csrfRestNonceHeaderName string) Middleware {
+	// the nonces which are being consumed right now; the lookup and the removal are two cache operations,
+	// so without it, concurrent requests presenting the same nonce would all be accepted
+	var consuming sync.Map
+	consumeNonce := func(nonce string) bool {
+		if _, found := consuming.LoadOrStore(nonce, struct{}{}); found {
+			return false
+		}
+		defer consuming.Delete(nonce)
+		if !nonceCache.Contains(nonce) {
+			return false
+		}
+		nonceCache.Remove(nonce)
+		return true
+	}
 	return func(handler handler.Handler) handler.Handler {
 		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
 			skipNonceCheck := mc.R.Method == http.MethodGet ||
@@ -49,10 +64,9 @@ func CSRFPreventionWithCustomParamAndHeaderName(nonceCache cache.Cache, csrfNonc
 				if previousNonce == "" {
 					previousNonce = mc.R.FormValue(csrfNonceRequestParamName)
 				}
-				if previousNonce == "" || !nonceCache.Contains(previousNonce) {
+				if previousNonce == "" || !consumeNonce(previousNonce) {
 					return nil, errors.ErrAccessDenied
 				}
-				nonceCache.Remove(previousNonce)
 			}
 
 			newNonce, err := generateNonce()
-- 
2.43.0


From c04106856fe286880c6ea9d357c993be5d931430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:13 +0000
Subject: [PATCH 03/29] fix: send the headers and cookies of a redirect
 response

HttpRedirectResponse accepts headers and cookies but never wrote them, so a
cookie set together with a redirect (a login, for example) was lost.
---
 response/redirect.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/response/redirect.go b/response/redirect.go
index 634adf3..3016e01 100644
--- a/response/redirect.go
+++ b/response/redirect.go
@@ -12,6 +12,26 @@ type HttpRedirectResponse struct {
 }
 
 func (r *HttpRedirectResponse) Write(w http.ResponseWriter, mc path.MatchingContext) error {
+	defer func() {
+		if r.HttpHeaders != nil {
+			r.HttpHeaders.Release()
+		}
+		if r.HttpCookies != nil {
+			r.HttpCookies.Release()
+		}
+	}()
+
+	// Write the cookies
+	for _, cookie := range r.HttpCookies {
+		http.SetCookie(w, cookie)
+	}
+
+	// Write the headers
+	header := w.Header()
+	for k, v := range r.HttpHeaders {
+		header.Set(k, v)
+	}
+
 	http.Redirect(w, mc.R, r.Url, r.HttpStatusCode)
 	return nil
 }
-- 
2.43.0


From c90b48c4452967828392aec683ae107a7d62302b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:17 +0000
Subject: [PATCH 04/29] fix: flush a compressed response through to the client

Flush moved the bytes from the compressor into the underlying writer, whose
buffer was not flushed: events and other streamed data were held back.
---
 response/compress.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/response/compress.go b/response/compress.go
index 9e3c587..f7a40a7 100644
--- a/response/compress.go
+++ b/response/compress.go
@@ -114,4 +114,7 @@ func (c *compressResponseWriter) WriteHeader(statusCode int) {
 
 func (c *compressResponseWriter) Flush() {
 	c.compressWriter.Flush()
+	if flusher, ok := c.origResponseWriter.(http.Flusher); ok {
+		flusher.Flush()
+	}
 }
-- 
2.43.0


From d318c10eadcf5e4eb05c930876a90db5460015b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:49 +0000
Subject: [PATCH 05/29] fix: keep compressed responses consistent with their
 headers

Content-Encoding was set before the response wrote its headers. A response
with a Content-Length was cut at the uncompressed length, a response encoded
by the application was compressed again under the label of its own encoding,
and bodiless responses got a trailer write. Decide when the header is written.
---
 response/compress.go | 50 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 7 deletions(-)

diff --git a/response/compress.go b/response/compress.go
index f7a40a7..ac98c69 100644
--- a/response/compress.go
+++ b/response/compress.go
@@ -51,23 +51,25 @@ func (r *HttpCompressResponse) Write(w http.ResponseWriter, mc path.MatchingCont
 		cw, err := gzip.NewWriterLevel(w, r.compressionLevel)
 		if err == nil {
 			delete(r.Headers(), acceptEncodingHeaderName)
-			w.Header().Set(contentEncodingHeaderName, compressAlg)
-			w = &compressResponseWriter{
+			crw := &compressResponseWriter{
 				origResponseWriter: w,
 				compressWriter:     cw,
+				contentEncoding:    compressAlg,
 			}
-			defer cw.Close()
+			w = crw
+			defer crw.Close()
 		}
 	} else if compressAlg == "deflate" {
 		cw, err := flate.NewWriter(w, r.compressionLevel)
 		if err == nil {
 			delete(r.Headers(), acceptEncodingHeaderName)
-			w.Header().Set(contentEncodingHeaderName, compressAlg)
-			w = &compressResponseWriter{
+			crw := &compressResponseWriter{
 				origResponseWriter: w,
 				compressWriter:     cw,
+				contentEncoding:    compressAlg,
 			}
-			defer cw.Close()
+			w = crw
+			defer crw.Close()
 		}
 	}
 	return r.httpResponse.Write(w, mc)
@@ -93,11 +95,15 @@ func getCompressionAlgorithmFromHeaderValue(acceptEncodingHeaderNameVal string)
 type compressWriter interface {
 	Write(bytes []byte) (int, error)
 	Flush() error
+	Close() error
 }
 
 type compressResponseWriter struct {
 	origResponseWriter http.ResponseWriter
 	compressWriter     compressWriter
+	contentEncoding    string
+	wroteHeader        bool
+	compress           bool
 }
 
 func (c *compressResponseWriter) Header() http.Header {
@@ -105,16 +111,46 @@ func (c *compressResponseWriter) Header() http.Header {
 }
 
 func (c *compressResponseWriter) Write(bytes []byte) (int, error) {
+	if !c.wroteHeader {
+		c.WriteHeader(http.StatusOK)
+	}
+	if !c.compress {
+		return c.origResponseWriter.Write(bytes)
+	}
 	return c.compressWriter.Write(bytes)
 }
 
 func (c *compressResponseWriter) WriteHeader(statusCode int) {
+	if !c.wroteHeader && (statusCode >= 200 || statusCode == http.StatusSwitchingProtocols) {
+		c.wroteHeader = true
+		header := c.Header()
+		bodyAllowed := statusCode >= 200 && statusCode != http.StatusNoContent && statusCode != http.StatusNotModified
+		// a response that has no body or that is already encoded is left as it is
+		if bodyAllowed && header.Get(contentEncodingHeaderName) == "" {
+			c.compress = true
+			header.Set(contentEncodingHeaderName, c.contentEncoding)
+			// the length of the compressed body is not known
+			header.Del("Content-Length")
+		}
+	}
 	c.origResponseWriter.WriteHeader(statusCode)
 }
 
 func (c *compressResponseWriter) Flush() {
-	c.compressWriter.Flush()
+	if !c.wroteHeader {
+		c.WriteHeader(http.StatusOK)
+	}
+	if c.compress {
+		c.compressWriter.Flush()
+	}
 	if flusher, ok := c.origResponseWriter.(http.Flusher); ok {
 		flusher.Flush()
 	}
 }
+
+func (c *compressResponseWriter) Close() error {
+	if !c.compress {
+		return nil
+	}
+	return c.compressWriter.Close()
+}
-- 
2.43.0


From 6f93e94ee40cc846b45ef2917029c462bdd05ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:06 +0000
Subject: [PATCH 06/29] fix: report the failure of finishing a compressed
 response

Small compressed responses reach the connection only when the compressor is
closed; the error of that write was dropped.
---
 response/compress.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/response/compress.go b/response/compress.go
index ac98c69..bc364a4 100644
--- a/response/compress.go
+++ b/response/compress.go
@@ -4,6 +4,7 @@ import (
 	"compress/flate"
 	"compress/gzip"
 	"errors"
+	"fmt"
 	"github.com/ixtendio/gofre/router/path"
 
 	"net/http"
@@ -43,7 +44,7 @@ func (r *HttpCompressResponse) Cookies() HttpCookies {
 	return r.httpResponse.Cookies()
 }
 
-func (r *HttpCompressResponse) Write(w http.ResponseWriter, mc path.MatchingContext) error {
+func (r *HttpCompressResponse) Write(w http.ResponseWriter, mc path.MatchingContext) (writeErr error) {
 	// detect what compression algorithm to use
 	compressAlg := getCompressionAlgorithmFromHeaderValue(mc.R.Header.Get(acceptEncodingHeaderName))
 
@@ -57,7 +58,7 @@ func (r *HttpCompressResponse) Write(w http.ResponseWriter, mc path.MatchingCont
 				contentEncoding:    compressAlg,
 			}
 			w = crw
-			defer crw.Close()
+			defer crw.finish(&writeErr)
 		}
 	} else if compressAlg == "deflate" {
 		cw, err := flate.NewWriter(w, r.compressionLevel)
@@ -69,7 +70,7 @@ func (r *HttpCompressResponse) Write(w http.ResponseWriter, mc path.MatchingCont
 				contentEncoding:    compressAlg,
 			}
 			w = crw
-			defer crw.Close()
+			defer crw.finish(&writeErr)
 		}
 	}
 	return r.httpResponse.Write(w, mc)
@@ -148,9 +149,12 @@ func (c *compressResponseWriter) Flush() {
 	}
 }
 
-func (c *compressResponseWriter) Close() error {
+// finish writes the rest of the compressed response and reports a failure, unless writing the response failed before
+func (c *compressResponseWriter) finish(err *error) {
 	if !c.compress {
-		return nil
+		return
+	}
+	if closeErr := c.compressWriter.Close(); closeErr != nil && *err == nil {
+		*err = fmt.Errorf("failed to finish the compressed response, err: %w", closeErr)
 	}
-	return c.compressWriter.Close()
 }
-- 
2.43.0


From aae077f8dc13001d20c4207a22bbef1f0735a60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:21 +0000
Subject: [PATCH 07/29] fix: let a connection be taken over behind
 CompressResponse

The compressing http.ResponseWriter hid the Hijacker of the original one, so
hijacking failed for every client that accepts compression.
---
 response/compress.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/response/compress.go b/response/compress.go
index bc364a4..23561e8 100644
--- a/response/compress.go
+++ b/response/compress.go
@@ -1,12 +1,14 @@
 package response
 
 import (
+	"bufio"
 	"compress/flate"
 	"compress/gzip"
 	"errors"
 	"fmt"
 	"github.com/ixtendio/gofre/router/path"
 
+	"net"
 	"net/http"
 	"strings"
 )
@@ -149,6 +151,14 @@ func (c *compressResponseWriter) Flush() {
 	}
 }
 
+// Hijack lets the application take over the connection if the original http.ResponseWriter supports it
+func (c *compressResponseWriter) Hijack() (net.Conn, *bufio.ReadWriter, error) {
+	if hj, ok := c.origResponseWriter.(http.Hijacker); ok {
+		return hj.Hijack()
+	}
+	return nil, nil, errors.New("the current http.ResponseWriter doesn't support hijack functionality")
+}
+
 // finish writes the rest of the compressed response and reports a failure, unless writing the response failed before
 func (c *compressResponseWriter) finish(err *error) {
 	if !c.compress {
-- 
2.43.0


From 4beac184b5f6ea57433c1a6e726dc00b9d6b810a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:55 +0000
Subject: [PATCH 08/29] fix: do not panic when a middleware adds headers to a
 hijack response

SecurityHeaders and Cors set headers on every response; those of a hijack
response are nil, so a websocket behind them always panicked.
---
 response/response.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/response/response.go b/response/response.go
index 14c92b4..e598bc0 100644
--- a/response/response.go
+++ b/response/response.go
@@ -24,7 +24,11 @@ var httpHeadersPool = sync.Pool{
 // HttpHeaders is a map with custom headers
 type HttpHeaders map[string]string
 
+// Set adds a header. It does nothing if the HttpHeaders is nil, which is the case for the responses that have no headers
 func (h HttpHeaders) Set(key string, val string) {
+	if h == nil {
+		return
+	}
 	h[key] = val
 }
 
@@ -55,7 +59,11 @@ var httpCookiesPool = sync.Pool{
 // HttpCookies is a map with custom cookies
 type HttpCookies map[string]*http.Cookie
 
+// Add adds cookies. It does nothing if the HttpCookies is nil, which is the case for the responses that have no cookies
 func (c HttpCookies) Add(cookies ...*http.Cookie) {
+	if c == nil {
+		return
+	}
 	for i := 0; i < len(cookies); i++ {
 		cookie := cookies[i]
 		if cookie != nil {
-- 
2.43.0


From db2ac9ac483ad8452aff9f339341d9eca277db8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:03 +0000
Subject: [PATCH 09/29] fix: send the Cache-Control header of an event stream

---
 response/sse.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/response/sse.go b/response/sse.go
index f679c02..c99a415 100644
--- a/response/sse.go
+++ b/response/sse.go
@@ -74,13 +74,12 @@ func (r *HttpSSEResponse) Write(w http.ResponseWriter, mc path.MatchingContext)
 	}
 
 	// write the headers
-	if err := r.HttpHeadersResponse.Write(w, mc); err != nil {
-		return err
-	}
-
 	header := w.Header()
 	header.Set("Cache-Control", "no-cache")
 	header.Set("Connection", "keep-alive")
+	if err := r.HttpHeadersResponse.Write(w, mc); err != nil {
+		return err
+	}
 
 	defer r.flushResponse(w)
 	// get the last event id that was sent
-- 
2.43.0


From c98aee7650810c74f5ee836bb454c86dd202c8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:26 +0000
Subject: [PATCH 10/29] fix: keep line breaks in event data from breaking the
 event stream

---
 response/sse.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/response/sse.go b/response/sse.go
index c99a415..8e2bcf4 100644
--- a/response/sse.go
+++ b/response/sse.go
@@ -13,6 +13,9 @@ import (
 const headerLastEventId = "Last-Event-Id"
 const eventStreamContentType = "text/event-stream"
 
+// lineBreaks normalizes the line breaks that an event stream recognizes
+var lineBreaks = strings.NewReplacer("\r\n", "\n", "\r", "\n")
+
 var ErrNotHttp2Request = errors.New("rejected, not a HTTP/2 request")
 
 // ServerSentEvent defines the server-sent event fields. More about server-sent events can be found here: https://developer.mozilla.org/en-US/docs/Web/API/Server-sent_events/Using_server-sent_events
@@ -36,13 +39,16 @@ func (evt ServerSentEvent) String() string {
 		startDataWithNewLine = true
 	}
 	for _, data := range evt.Data {
-		if !startDataWithNewLine {
-			sb.WriteString("data: ")
-			startDataWithNewLine = true
-		} else {
-			sb.WriteString("\ndata: ")
+		// a line break ends the field, so every line of the data is a field of its own
+		for _, line := range strings.Split(lineBreaks.Replace(data), "\n") {
+			if !startDataWithNewLine {
+				sb.WriteString("data: ")
+				startDataWithNewLine = true
+			} else {
+				sb.WriteString("\ndata: ")
+			}
+			sb.WriteString(line)
 		}
-		sb.WriteString(data)
 	}
 	if evt.Id != "" {
 		sb.WriteString("\nid: ")
-- 
2.43.0


From 29766d0d2b17f9e21b97c7c281150bef8bf34d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:49 +0000
Subject: [PATCH 11/29] fix: end an event stream and its generator when the
 client is gone

---
 response/sse.go | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/response/sse.go b/response/sse.go
index 8e2bcf4..376c869 100644
--- a/response/sse.go
+++ b/response/sse.go
@@ -64,7 +64,8 @@ func (evt ServerSentEvent) String() string {
 	return sb.String()
 }
 
-// The EventGenerator is a function that received a cancellation context.Context and the last event id received by the client and returns a channel of ServerSentEvent objects
+// The EventGenerator is a function that received a cancellation context.Context and the last event id received by the client and returns a channel of ServerSentEvent objects.
+// The context is cancelled when the client is gone. The generator has to close the channel after the last event and when the context is cancelled
 type EventGenerator func(ctx context.Context, lastEventId string) <-chan ServerSentEvent
 
 // HttpSSEResponse implements response.HttpResponse and provides support for SSE
@@ -90,22 +91,39 @@ func (r *HttpSSEResponse) Write(w http.ResponseWriter, mc path.MatchingContext)
 	defer r.flushResponse(w)
 	// get the last event id that was sent
 	lastEventId := mc.R.Header.Get(headerLastEventId)
-	reqCtx := mc.R.Context()
+	// the generator has to stop when the client is gone or when an event cannot be written
+	ctx, cancel := context.WithCancel(mc.R.Context())
+	events := r.EventGenerator(ctx, lastEventId)
+	defer func() {
+		cancel()
+		if events != nil {
+			// release a generator that is blocked sending an event
+			go func() {
+				for range events {
+				}
+			}()
+		}
+	}()
 
 	// read and write the events
-	for evt := range r.EventGenerator(reqCtx, lastEventId) {
+	for {
 		select {
-		case <-reqCtx.Done():
+		case <-ctx.Done():
 			return nil
-		default:
+		case evt, ok := <-events:
+			if !ok {
+				events = nil
+				return nil
+			}
+			if ctx.Err() != nil {
+				return nil
+			}
 			if err := writeTextResponse(w, evt.String()); err != nil {
 				return nil
 			}
 			r.flushResponse(w)
 		}
 	}
-
-	return nil
 }
 
 func (r *HttpSSEResponse) flushResponse(w http.ResponseWriter) {
-- 
2.43.0


From 4b2f9b727670e31d7e2a0722b11a460d34562ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:51 +0000
Subject: [PATCH 12/29] fix: do not write into the configured OAuth scopes when
 a flow is initiated

---
 auth/oauth/github.go | 2 +-
 auth/oauth/google.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/auth/oauth/github.go b/auth/oauth/github.go
index 9eaac47..cf4e836 100644
--- a/auth/oauth/github.go
+++ b/auth/oauth/github.go
@@ -40,7 +40,7 @@ func (p GitHubProvider) Name() string {
 }
 
 func (p GitHubProvider) InitiateUrl(redirectUri string, state string, includeUserInfoProfileScope bool) string {
-	scopes := p.Scopes
+	scopes := append([]string(nil), p.Scopes...)
 	if includeUserInfoProfileScope {
 		scopes = append(scopes, GitHubUserInfoProfileScopes...)
 	}
diff --git a/auth/oauth/google.go b/auth/oauth/google.go
index aadd90f..89ae63a 100644
--- a/auth/oauth/google.go
+++ b/auth/oauth/google.go
@@ -46,7 +46,7 @@ func (p GoogleProvider) Name() string {
 }
 
 func (p GoogleProvider) InitiateUrl(redirectUri string, state string, includeUserInfoProfileScope bool) string {
-	scopes := p.Scopes
+	scopes := append([]string(nil), p.Scopes...)
 	if includeUserInfoProfileScope {
 		//openid email profile
 		scopes = append(scopes, GoogleUserInfoScopes...)
-- 
2.43.0


From 32635d05a13619177579c8cd26b522039734ebe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:42 +0000
Subject: [PATCH 13/29] fix: treat an incomplete answer of an OAuth provider as
 an error

---
 auth/oauth/github.go | 15 +++++++++++----
 auth/oauth/google.go | 15 +++++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/auth/oauth/github.go b/auth/oauth/github.go
index cf4e836..4828ed0 100644
--- a/auth/oauth/github.go
+++ b/auth/oauth/github.go
@@ -83,9 +83,14 @@ func (p GitHubProvider) FetchAccessToken(ctx context.Context, redirectUri string
 	}
 
 	if resp.StatusCode/100 == 2 {
+		token, _ := result["access_token"].(string)
+		tokenType, ok := result["token_type"].(string)
+		if token == "" || !ok {
+			return AccessToken{}, fmt.Errorf("the OAUTH2 access token response from: %s has no access token, err: %v", p.Name(), result["error"])
+		}
 		accessToken := AccessToken{
-			AccessToken: result["access_token"].(string),
-			TokenType:   result["token_type"].(string),
+			AccessToken: token,
+			TokenType:   tokenType,
 		}
 
 		if scope, ok := result["scope"].(string); ok {
@@ -124,10 +129,12 @@ func (p GitHubProvider) FetchAuthenticatedUser(ctx context.Context, accessToken
 	if resp.StatusCode/100 == 2 {
 		var id string
 		var name string
-		if email, ok := result["email"].(string); ok {
+		if email, ok := result["email"].(string); ok && email != "" {
 			id = email
+		} else if login, ok := result["login"].(string); ok && login != "" {
+			id = login
 		} else {
-			id = result["login"].(string)
+			return auth.User{}, fmt.Errorf("the user details response from: %s does not identify the user", p.Name())
 		}
 		if n, ok := result["name"].(string); ok {
 			name = n
diff --git a/auth/oauth/google.go b/auth/oauth/google.go
index 89ae63a..1c6f0b6 100644
--- a/auth/oauth/google.go
+++ b/auth/oauth/google.go
@@ -104,9 +104,14 @@ func (p GoogleProvider) FetchAccessToken(ctx context.Context, redirectUri string
 	}
 
 	if resp.StatusCode/100 == 2 {
+		token, _ := result["access_token"].(string)
+		tokenType, ok := result["token_type"].(string)
+		if token == "" || !ok {
+			return AccessToken{}, fmt.Errorf("the OAUTH2 access token response from: %s has no access token, err: %v", p.Name(), result["error"])
+		}
 		accessToken := AccessToken{
-			AccessToken: result["access_token"].(string),
-			TokenType:   result["token_type"].(string),
+			AccessToken: token,
+			TokenType:   tokenType,
 		}
 
 		if refreshToken, ok := result["refresh_token"].(string); ok {
@@ -153,10 +158,12 @@ func (p GoogleProvider) FetchAuthenticatedUser(ctx context.Context, accessToken
 	if resp.StatusCode/100 == 2 {
 		var id string
 		var name string
-		if email, ok := result["email"].(string); ok {
+		if email, ok := result["email"].(string); ok && email != "" {
 			id = email
+		} else if userId, ok := result["id"].(string); ok && userId != "" {
+			id = userId
 		} else {
-			id = result["id"].(string)
+			return auth.User{}, fmt.Errorf("the user details response from: %s does not identify the user", p.Name())
 		}
 		if n, ok := result["name"].(string); ok {
 			name = n
-- 
2.43.0


From fe408a71565ba47da6642bed50be8157c251ef1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:09 +0000
Subject: [PATCH 14/29] fix: do not read past the end of a segment matched
 against a * pattern

---
 router/path/pattern.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/router/path/pattern.go b/router/path/pattern.go
index a8ac019..80c0fdf 100644
--- a/router/path/pattern.go
+++ b/router/path/pattern.go
@@ -222,6 +222,9 @@ func regexSegmentMatch(urlPathSegment string, patternSegment string, caseInsensi
 			}
 			pIndex = pIndexCheckPoint
 			uIndex = uIndexCheckPoint + 1
+			if uIndex == urlPathSegmentLen {
+				return false
+			}
 		}
 
 		checkPointRestore = false
-- 
2.43.0


From 2d4355d3efdb7321b39eab611205a81b6bbd7fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:04 +0000
Subject: [PATCH 15/29] fix: try the other routes when the most specific one
 does not match the whole path

---
 router/path/matcher.go | 132 ++++++++++++-----------------------------
 1 file changed, 37 insertions(+), 95 deletions(-)

diff --git a/router/path/matcher.go b/router/path/matcher.go
index 2c963d5..725015a 100644
--- a/router/path/matcher.go
+++ b/router/path/matcher.go
@@ -6,11 +6,6 @@ import (
 	"strings"
 )
 
-type stackSegment struct {
-	currentNodeChildren uint16
-	urlSegmentIndex     uint8
-}
-
 type node struct {
 	maxMatchableSegments uint8
 	priority             uint64
@@ -149,103 +144,50 @@ func (m *Matcher) Match(urlPath string, mc *MatchingContext) *Pattern {
 	if len(mc.PathSegments) > MaxPathSegments {
 		return nil
 	}
-	if len(mc.PathSegments) == 0 && m.rootPathMatcher != nil {
+	if len(mc.PathSegments) == 0 {
 		return m.rootPathMatcher
 	}
-	var treeDepth int
-	urlLen := uint8(len(mc.PathSegments))
-	nodeStack := make([]stackSegment, MaxPathSegments)
-	urlSegmentMatchTypeStack := make([]MatchType, MaxPathSegments)
-	currentNode := m.trieRoot
-	var urlSegmentIndex uint8
-	for urlSegmentIndex < urlLen {
-		var matched bool
-		urlSegment := &mc.PathSegments[urlSegmentIndex]
-		//urlSegmentVal := urlPath[urlSegment.startIndex:urlSegment.endIndex]
-		if urlSegmentMatchTypeStack[urlSegmentIndex] != 0 {
-			urlSegment.matchType = urlSegmentMatchTypeStack[urlSegmentIndex]
-		}
+	pattern := m.matchNode(m.trieRoot, urlPath, mc.PathSegments)
+	if pattern != nil {
+		mc.matchedPattern = pattern
+	}
+	return pattern
+}
 
-		children := currentNode.children
-		childrenLen := uint16(len(children))
-		for ci := nodeStack[treeDepth].currentNodeChildren; ci < childrenLen; ci++ {
-			childNode := children[ci]
-			if !childNode.canMatchPathWithLength(urlLen - urlSegmentIndex) {
-				continue
-			}
-			urlSegmentMatchType := childNode.segment.matchUrlPathSegment(urlPath, urlSegment, m.caseInsensitive)
-			if urlSegmentMatchType == MatchTypeMultipleSegments {
-				greedyChildren := childNode.children
-				greedyChildrenLen := len(greedyChildren)
-				if greedyChildrenLen == 0 && childNode.isLeaf() {
-					//fill until the end the remained URL segments with MatchTypeMultipleSegments match type
-					for i := urlSegmentIndex; i < urlLen; i++ {
-						urlSegment := &mc.PathSegments[i]
-						urlSegment.matchType = MatchTypeMultipleSegments
-					}
-					mc.matchedPattern = childNode.pattern
-					return childNode.pattern
-				}
-				for urlSegmentIndex < urlLen {
-					urlSegment := &mc.PathSegments[urlSegmentIndex]
-					urlSegment.matchType = MatchTypeMultipleSegments
-					for gci := 0; gci < greedyChildrenLen; gci++ {
-						greedyChildNode := greedyChildren[gci]
-						if greedyChildNode.segment.matchUrlPathSegment(urlPath, urlSegment, m.caseInsensitive) != MatchTypeUnknown {
-							nodeStack[treeDepth] = stackSegment{
-								currentNodeChildren: ci,
-								urlSegmentIndex:     urlSegmentIndex + 1,
-							}
-							urlSegmentMatchTypeStack[urlSegmentIndex] = MatchTypeMultipleSegments
-							matched = true
-							treeDepth++
-							urlSegmentIndex-- //the urlSegmentIndex should not be increased. We have to decrease it here because will be increased at the end of the main loop
-							currentNode = childNode
-							goto END
-						}
-					}
-					urlSegmentIndex++
-				}
-				return nil
-			} else if urlSegmentMatchType != MatchTypeUnknown {
-				urlSegment.matchType = urlSegmentMatchType
-				if urlSegmentIndex == urlLen-1 {
-					if childNode.isLeaf() {
-						mc.matchedPattern = childNode.pattern
-						return childNode.pattern
-					}
-					goto END
-				}
-				matched = true
-				urlSegment.matchType = urlSegmentMatchType
-				nodeStack[treeDepth] = stackSegment{
-					currentNodeChildren: ci + 1,
-					urlSegmentIndex:     urlSegmentIndex,
+// matchNode returns the pattern of the first leaf under n, in the order of the priorities, that matches all the URL segments
+func (m *Matcher) matchNode(n *node, urlPath string, urlSegments []UrlSegment) *Pattern {
+	urlLen := len(urlSegments)
+	for _, child := range n.children {
+		if !child.canMatchPathWithLength(uint8(urlLen)) {
+			continue
+		}
+		urlSegment := &urlSegments[0]
+		matchType := child.segment.matchUrlPathSegment(urlPath, urlSegment, m.caseInsensitive)
+		if matchType == MatchTypeUnknown {
+			continue
+		}
+		if matchType == MatchTypeMultipleSegments {
+			// the patterns that continue after ** are tried first, and there ** takes as few segments as possible
+			for i := 0; i < urlLen; i++ {
+				if pattern := m.matchNode(child, urlPath, urlSegments[i:]); pattern != nil {
+					return pattern
 				}
-				treeDepth++
-				currentNode = childNode
-				goto END
+				urlSegments[i].matchType = MatchTypeMultipleSegments
 			}
-		}
-
-	END:
-		if matched {
-			if urlSegmentIndex == urlLen-1 && currentNode.isLeaf() {
-				mc.matchedPattern = currentNode.pattern
-				return currentNode.pattern
+			if child.isLeaf() {
+				return child.pattern
 			}
-			urlSegmentIndex++
-		} else {
-			if currentNode.parent != nil {
-				//stack cleanup
-				urlSegmentMatchTypeStack[urlSegmentIndex] = 0
-				nodeStack[treeDepth] = stackSegment{}
-				treeDepth--
-				urlSegmentIndex = nodeStack[treeDepth].urlSegmentIndex
-				currentNode = currentNode.parent
-			} else {
-				break
+			continue
+		}
+		urlSegment.matchType = matchType
+		if urlLen == 1 {
+			if child.isLeaf() {
+				return child.pattern
 			}
+			continue
+		}
+		if pattern := m.matchNode(child, urlPath, urlSegments[1:]); pattern != nil {
+			return pattern
 		}
 	}
 	return nil
-- 
2.43.0


From 9d85858dffb6cccb3439be65ef506be78c34eb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:27 +0000
Subject: [PATCH 16/29] fix: do not truncate the positions of path segments to
 16 bits

---
 router/path/matching_context.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/router/path/matching_context.go b/router/path/matching_context.go
index 065baea..0f0bd16 100644
--- a/router/path/matching_context.go
+++ b/router/path/matching_context.go
@@ -15,8 +15,8 @@ func (cv *CaptureVar) String() string {
 }
 
 type UrlSegment struct {
-	startIndex uint16
-	endIndex   uint16
+	startIndex uint32
+	endIndex   uint32
 	matchType  MatchType
 }
 
@@ -112,8 +112,8 @@ func ParseURLPath(requestUrl *url.URL, mc *MatchingContext) {
 				}
 
 				mc.PathSegments[segmentsIndex] = UrlSegment{
-					startIndex: uint16(startIndex),
-					endIndex:   uint16(endIndex),
+					startIndex: uint32(startIndex),
+					endIndex:   uint32(endIndex),
 				}
 				segmentsIndex++
 			}
-- 
2.43.0


From d9110c9f1db6dcc81c771e56a23cdec7e93928f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:30 +0000
Subject: [PATCH 17/29] fix: answer 404 and not the root route when a path has
 too many segments

---
 router/path/matcher.go          | 2 +-
 router/path/matching_context.go | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/router/path/matcher.go b/router/path/matcher.go
index 725015a..437f0a3 100644
--- a/router/path/matcher.go
+++ b/router/path/matcher.go
@@ -141,7 +141,7 @@ func (m *Matcher) AddPattern(pattern *Pattern) error {
 }
 
 func (m *Matcher) Match(urlPath string, mc *MatchingContext) *Pattern {
-	if len(mc.PathSegments) > MaxPathSegments {
+	if mc.tooManySegments || len(mc.PathSegments) > MaxPathSegments {
 		return nil
 	}
 	if len(mc.PathSegments) == 0 {
diff --git a/router/path/matching_context.go b/router/path/matching_context.go
index 0f0bd16..164c7f1 100644
--- a/router/path/matching_context.go
+++ b/router/path/matching_context.go
@@ -30,6 +30,8 @@ type MatchingContext struct {
 	R              *http.Request
 	matchedPattern *Pattern
 	PathSegments   []UrlSegment
+	// tooManySegments is true if the URL path has more than MaxPathSegments segments
+	tooManySegments bool
 }
 
 func (mc *MatchingContext) Clone() MatchingContext {
@@ -47,6 +49,8 @@ func (mc *MatchingContext) Clone() MatchingContext {
 		R:              mc.R,
 		matchedPattern: mc.matchedPattern,
 		PathSegments:   segments,
+
+		tooManySegments: mc.tooManySegments,
 	}
 }
 
@@ -89,6 +93,7 @@ func (mc *MatchingContext) PathVar(name string) string {
 }
 
 func ParseURLPath(requestUrl *url.URL, mc *MatchingContext) {
+	mc.tooManySegments = false
 	requestPath := requestUrl.Path
 	if len(requestPath) == 0 || requestPath == "/" {
 		mc.PathSegments = nil
@@ -127,6 +132,7 @@ func ParseURLPath(requestUrl *url.URL, mc *MatchingContext) {
 			if segmentStartPos != -1 {
 				if !addSegment(segmentStartPos, pos) {
 					mc.PathSegments = nil
+					mc.tooManySegments = true
 					return
 				}
 			}
@@ -137,6 +143,7 @@ func ParseURLPath(requestUrl *url.URL, mc *MatchingContext) {
 	if segmentStartPos != -1 && segmentStartPos < pathLen {
 		if !addSegment(segmentStartPos, pathLen) {
 			mc.PathSegments = nil
+			mc.tooManySegments = true
 			return
 		}
 	}
-- 
2.43.0


From 72dba5bd4b1937c016e079f4c1388243bc5bd66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:39 +0000
Subject: [PATCH 18/29] fix: nest a path prefix that equals the one of the
 parent

---
 gofre.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gofre.go b/gofre.go
index a971934..1198e2c 100644
--- a/gofre.go
+++ b/gofre.go
@@ -164,7 +164,7 @@ func (m *MuxHandler) Clone() *MuxHandler {
 // RouteUsingPathPrefix creates a new MuxHandler that will inherit all the settings from the parent, excepting the path prefix which will be concatenated to the parent path prefix.
 // One important aspect to the new MuxHandler is that, the new added common middlewares will not be shared with the parent.
 func (m *MuxHandler) RouteUsingPathPrefix(pathPrefix string) *MuxHandler {
-	if len(pathPrefix) == 0 || pathPrefix == m.pathPrefix {
+	if len(pathPrefix) == 0 {
 		return m
 	}
 	return &MuxHandler{
-- 
2.43.0


From e4ad19c39ffea409f7b90f739d5ead1e48a1cc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:55 +0000
Subject: [PATCH 19/29] fix: recognise the same origin when the request URL has
 a port

---
 middleware/cors.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/middleware/cors.go b/middleware/cors.go
index f59d445..4b35b1e 100644
--- a/middleware/cors.go
+++ b/middleware/cors.go
@@ -304,9 +304,10 @@ func isSameOrigin(reqUrl *url.URL, origin string) bool {
 	var sb strings.Builder
 	sb.WriteString(scheme)
 	sb.WriteString("://")
-	sb.WriteString(reqUrl.Host)
 
 	port := reqUrl.Port()
+	// the port is compared separately
+	sb.WriteString(strings.TrimSuffix(reqUrl.Host, ":"+port))
 	if port == "" {
 		if scheme == "https" || scheme == "wss" {
 			port = "443"
-- 
2.43.0


From b2d29045ddd65da4efc5c958e6c29b4c4b890edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:33 +0000
Subject: [PATCH 20/29] fix: make the in-memory cache safe for concurrent
 requests

---
 cache/cache.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index 75c262b..5606f98 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -1,6 +1,9 @@
 package cache
 
-import "time"
+import (
+	"sync"
+	"time"
+)
 
 // The Cache interface defines the methods that a cache implementation should have
 type Cache interface {
@@ -14,6 +17,7 @@ type Cache interface {
 
 // InMemory is a simple Cache implementation used for testing and examples
 type InMemory struct {
+	mu    sync.RWMutex
 	cache map[string]time.Time
 }
 
@@ -22,15 +26,21 @@ func NewInMemory() *InMemory {
 }
 
 func (i *InMemory) Add(key string, expiresIn time.Duration) error {
+	i.mu.Lock()
+	defer i.mu.Unlock()
 	i.cache[key] = time.Now().Add(expiresIn)
 	return nil
 }
 
 func (i *InMemory) Remove(key string) {
+	i.mu.Lock()
+	defer i.mu.Unlock()
 	delete(i.cache, key)
 }
 
 func (i *InMemory) Contains(key string) bool {
+	i.mu.RLock()
+	defer i.mu.RUnlock()
 	t, found := i.cache[key]
 	return found && time.Now().Before(t)
 }
-- 
2.43.0


From 78d697f9f907fb8f6592ade74e9f7715e0e1859e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:46 +0000
Subject: [PATCH 21/29] fix: do not compute the security headers lazily in
 concurrent requests

---
 middleware/security.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/middleware/security.go b/middleware/security.go
index 968f0ce..5339254 100644
--- a/middleware/security.go
+++ b/middleware/security.go
@@ -80,6 +80,9 @@ type SecurityHeadersConfig struct {
 
 // SecurityHeaders provides some security HTTP headers to the response
 func SecurityHeaders(config SecurityHeadersConfig) Middleware {
+	// computed once, because the requests are served concurrently
+	stsHeaderValue := config.STS.getHeaderValue()
+	antiClickJackingHeaderValue := config.ClickJacking.getAntiClickJackingHeaderValue()
 	return func(handler handler.Handler) handler.Handler {
 		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
 			httpResponse, err := handler(ctx, mc)
@@ -90,12 +93,12 @@ func SecurityHeaders(config SecurityHeadersConfig) Middleware {
 			// HSTS
 			isRequestSecure := mc.R.TLS != nil || strings.ToLower(mc.R.URL.Scheme) == "https"
 			if config.STS.Enabled && isRequestSecure {
-				httpResponse.Headers().Set(stsHeaderName, config.STS.getHeaderValue())
+				httpResponse.Headers().Set(stsHeaderName, stsHeaderValue)
 			}
 
 			// anti click-jacking
 			if config.ClickJacking.Enabled {
-				httpResponse.Headers().Set(antiClickJackingHeaderName, config.ClickJacking.getAntiClickJackingHeaderValue())
+				httpResponse.Headers().Set(antiClickJackingHeaderName, antiClickJackingHeaderValue)
 			}
 
 			// Block content type sniffing
-- 
2.43.0


From d14f9ea294be68a96bde5b82be5f0b8b7f2608d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:05 +0000
Subject: [PATCH 22/29] fix: do not corrupt the first character of a JSON error
 text

---
 response/json.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/response/json.go b/response/json.go
index 85a2a28..5e13f34 100644
--- a/response/json.go
+++ b/response/json.go
@@ -7,6 +7,7 @@ import (
 
 	"net/http"
 	"strings"
+	"unicode/utf8"
 )
 
 const jsonContentType = "application/json"
@@ -112,5 +113,7 @@ func errorToString(err error) string {
 		return ""
 	}
 	errMsg := err.Error()
-	return strings.ToUpper(errMsg[0:1]) + errMsg[1:]
+	// the first character can have more than one byte
+	_, size := utf8.DecodeRuneInString(errMsg)
+	return strings.ToUpper(errMsg[:size]) + errMsg[size:]
 }
-- 
2.43.0


From 0b0e4818cf19e75825a2a7a981b08f822ebb4376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:45 +0000
Subject: [PATCH 23/29] fix: recognise same-origin requests by the host and the
 connection they were sent to

---
 middleware/cors.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/middleware/cors.go b/middleware/cors.go
index 4b35b1e..e245cd1 100644
--- a/middleware/cors.go
+++ b/middleware/cors.go
@@ -247,7 +247,7 @@ func getRequestType(r *http.Request) corsRequestType {
 	originHeader := r.Header.Get(requestHeaderOrigin)
 	if !isValidOrigin(originHeader) {
 		return invalidCorsRequestType
-	} else if isSameOrigin(r.URL, originHeader) {
+	} else if isSameOrigin(getRequestURL(r), originHeader) {
 		return notCorsRequestType
 	} else {
 		switch r.Method {
@@ -295,6 +295,19 @@ func isValidOrigin(origin string) bool {
 	return parse.Scheme != ""
 }
 
+// getRequestURL returns the request URL with the scheme and the host to which the request was sent.
+// The URL of a server request has neither of them, unless the request line was in the absolute form
+func getRequestURL(r *http.Request) *url.URL {
+	if r.URL.Scheme != "" || r.URL.Host != "" {
+		return r.URL
+	}
+	scheme := "http"
+	if r.TLS != nil {
+		scheme = "https"
+	}
+	return &url.URL{Scheme: scheme, Host: r.Host}
+}
+
 func isSameOrigin(reqUrl *url.URL, origin string) bool {
 	if reqUrl.Scheme == "" || reqUrl.Host == "" {
 		return false
-- 
2.43.0


From d33004af759427127bba4f9195acde5255f6c145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:10 +0000
Subject: [PATCH 24/29] fix: declare the content type of the GitHub token
 request

---
 auth/oauth/github.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/auth/oauth/github.go b/auth/oauth/github.go
index 4828ed0..ef866c6 100644
--- a/auth/oauth/github.go
+++ b/auth/oauth/github.go
@@ -69,6 +69,7 @@ func (p GitHubProvider) FetchAccessToken(ctx context.Context, redirectUri string
 		return AccessToken{}, fmt.Errorf("failed to create the request to get the OAUTH2 access token from: %s, err: %w", p.Name(), err)
 	}
 
+	req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
 	req.Header.Set("Accept", "application/json")
 	resp, err := HttpClient.Do(req)
 
-- 
2.43.0


From c7b3602eeb509230aafc69fd7e355a66a6d53b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:13 +0000
Subject: [PATCH 25/29] fix: request the GitHub user scope when no other scope
 is configured

---
 auth/oauth/github.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auth/oauth/github.go b/auth/oauth/github.go
index ef866c6..3dd43ec 100644
--- a/auth/oauth/github.go
+++ b/auth/oauth/github.go
@@ -53,7 +53,7 @@ func (p GitHubProvider) InitiateUrl(redirectUri string, state string, includeUse
 	if p.Login != "" {
 		urlValues.Add("login", p.Login)
 	}
-	if len(p.Scopes) > 0 {
+	if len(scopes) > 0 {
 		urlValues.Add("scope", strings.Join(scopes, " "))
 	}
 	return GitHubAuthorizeEndpoint + "?" + urlValues.Encode()
-- 
2.43.0


From a2d077d73972b3d26a28e9cc985f2d9df5943f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:09 +0000
Subject: [PATCH 26/29] fix: a scope does not imply the scopes below it that
 repeat its last level

---
 auth/auth.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/auth/auth.go b/auth/auth.go
index 44a5e4a..444b4c7 100644
--- a/auth/auth.go
+++ b/auth/auth.go
@@ -113,6 +113,9 @@ func (p Permission) Implies(anotherPermission Permission) bool {
 		if j < len(pScopeParts) {
 			s = pScopeParts[j]
 			j++
+		} else if s != "*" {
+			// only a wildcard covers the levels below it
+			return false
 		}
 
 		if s != "*" && s != si {
-- 
2.43.0


From 2ab20b96b2ea852cb2baa9b0a33214099dbae8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:12 +0000
Subject: [PATCH 27/29] fix: a denied access denies the permissions that
 include it

---
 auth/auth.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/auth/auth.go b/auth/auth.go
index 444b4c7..75f45d1 100644
--- a/auth/auth.go
+++ b/auth/auth.go
@@ -141,7 +141,13 @@ type Role struct {
 // HasPermission returns true if the current Role has the Permission
 func (r Role) HasPermission(permission Permission) bool {
 	for i := 0; i < len(r.DeniedPermissions); i++ {
-		if r.DeniedPermissions[i].Implies(permission) {
+		denied := r.DeniedPermissions[i]
+		// denying one of the demanded accesses is enough to deny the permission
+		access := denied.Access & permission.Access
+		if access == 0 && permission.Access != 0 {
+			continue
+		}
+		if denied.Implies(Permission{Scope: permission.Scope, Access: access}) {
 			return false
 		}
 	}
-- 
2.43.0


From 9c3275f8bd51822de14c31635d7a4654d45d73c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:34 +0000
Subject: [PATCH 28/29] fix: generate the OAUTH2 state with a cryptographic
 random generator

---
 gofre.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gofre.go b/gofre.go
index 1198e2c..cd44405 100644
--- a/gofre.go
+++ b/gofre.go
@@ -2,6 +2,7 @@ package gofre
 
 import (
 	"context"
+	"crypto/rand"
 	"expvar"
 	"fmt"
 	"github.com/ixtendio/gofre/auth"
@@ -15,7 +16,7 @@ import (
 	"github.com/ixtendio/gofre/router"
 	"html/template"
 	"log"
-	"math/rand"
+	"math/big"
 	"net/http"
 	"net/http/pprof"
 	"unsafe"
@@ -355,10 +356,16 @@ const randLetters = "abcdefghijklmnopqrstuvwxyz1234567890"
 
 var uniqueIdFunc = generateUniqueId
 
+// generateUniqueId returns an unguessable string, panics if the system's entropy source fails
 func generateUniqueId(length int) string {
 	b := make([]byte, length)
+	lettersCount := big.NewInt(int64(len(randLetters)))
 	for i := range b {
-		b[i] = randLetters[rand.Int63()%int64(len(randLetters))]
+		index, err := rand.Int(rand.Reader, lettersCount)
+		if err != nil {
+			panic(fmt.Sprintf("failed to generate an unique id, err: %v", err))
+		}
+		b[i] = randLetters[index.Int64()]
 	}
 	return *(*string)(unsafe.Pointer(&b))
 }
-- 
2.43.0


From dea01a6f2a350123af407cda92a9594509ca0fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:36 +0000
Subject: [PATCH 29/29] fix: refuse a duplicated pattern that has a constrained
 capture variable

---
 router/path/matcher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router/path/matcher.go b/router/path/matcher.go
index 437f0a3..38c650a 100644
--- a/router/path/matcher.go
+++ b/router/path/matcher.go
@@ -76,7 +76,7 @@ func (m *Matcher) AddPattern(pattern *Pattern) error {
 					child.segment.matchType == MatchTypeMultipleSegments {
 					hasSameVal = true
 				} else if child.segment.matchType == MatchTypeConstraintCaptureVar {
-					hasSameVal = segment.captureVarPattern.String() == child.segment.val
+					hasSameVal = segment.captureVarPattern.String() == child.segment.captureVarPattern.String()
 				} else {
 					if m.caseInsensitive {
 						hasSameVal = strings.EqualFold(segment.val, child.segment.val)
-- 
2.43.0

