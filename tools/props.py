#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import glob, json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, note, hook=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, note=note, hook=hook, na=na))

prop('C01', 'Requests reach a matching, most specific route with their own path variables',
 "For every set of registered routes and every request, exactly one handler runs, it belongs to a route that matches the request's method and path, and no other matching route is more specific segment by segment (literal before constrained variable before variable before * before **); 404 is answered exactly when no route matches or the path goes deeper than 19 segments. A route that matches the same requests as one which is already registered for the method is refused at registration, and every other one is accepted. "
 "The path variables a handler reads are the segments of its own request's path that the variables of its pattern stand for, at any moment until the response is written and, through a cloned matching context, afterwards. "
 "What other requests are being served at the same time, including ones that panic or fail, makes no difference.",
 ['inputs','configurations','schedules','fault_sequences'],
 'every table of distinct routes made of literals, variables, constrained variables, ?/* patterns, * and **, every request path and method, case sensitive or not, every interleaving of requests, and any subset of them panicking or failing',
 'The tests try a few route tables with one request at a time; the routing tables and paths are unbounded and the pooled segment buffers are only at risk when requests overlap.',
 ['router/router.go','router/path/matcher.go','router/path/pattern.go','router/path/matching_context.go'],
 [('priority-ordered trie of path segments','router/path/matcher.go: AddPattern, Match'),('pooled URL segments with copies for later use','router/router.go: ServeHTTP; router/path/matching_context.go: Clone')],
 ['handler invocations','status','PathVar'],
 'Seeded search over route tables, paths and interleavings against a brute-force matcher; where the documentation leaves the order open (? and * inside a segment against variables) nothing is demanded.')
prop('C02', 'Every client gets exactly the response its own handler made',
 "For every response kind (text, HTML, JSON, raw, stream, template, redirect, adapted net/http handler, headers only) the status code, every header and cookie set by the application, the content type and the body that reach a client are exactly those its own handler specified. "
 "Nothing of another request's headers, cookies or body is ever added, lost or mixed in, whatever other requests run, fail, panic or disconnect at the same time.",
 ['inputs','schedules','fault_sequences','histories'],
 'every response value built with the constructors or filled in later, every interleaving of requests sharing the pools of header and cookie maps, with panicking, failing, stalled and disconnected neighbours',
 'The tests write one response at a time to a recorder; leaks through the shared pools need overlapping requests, and the values are unbounded.',
 ['response/response.go','response/headers.go','response/text.go','response/json.go','response/raw.go','response/streaming.go','response/template.go','response/redirect.go','response/adaptor.go'],
 [('release of pooled header and cookie maps after they are written','response/headers.go: Write; response/response.go: Release')],
 ['bytes, headers and cookies received by the client'],
 'Seeded search over response values and interleavings; every delivered response is compared byte for byte with its specification.')
prop('C03', 'Middlewares run in registration order and derived muxes stay independent',
 "For every handler, the common middlewares present in its mux when it was registered run in the order they were added, followed by its own middlewares in the order given, around the handler, nil ones being skipped; each of them sees the context, request and result passed on by its neighbour and may answer or fail instead of the ones after it. "
 "Middlewares added to a mux never affect handlers registered through its parents, siblings, clones or prefixed muxes, nor handlers registered before. "
 "Handlers registered through a prefixed mux are reachable at exactly the concatenation of the non-empty prefixes and the path, joined by one slash.",
 ['programs','inputs','schedules'],
 'every program of Clone, RouteUsingPathPrefix with a non-empty prefix, CommonMiddlewares and Handle calls, and every interleaving of requests to the resulting handlers',
 'The tests build two or three muxes by hand; slices shared between derived muxes only show after particular sequences of registrations.',
 ['gofre.go','middleware/middleware.go'],
 [('copy of the middleware slice on derivation','gofre.go: Clone, RouteUsingPathPrefix'),('wrapping from the last middleware to the first','gofre.go: wrapMiddleware'),('prefix joining','gofre.go: resolvePath')],
 ['the trace of middleware entries and exits of every request','the status'],
 'Seeded search over registration programs and request interleavings against a reference interpreter of the same program.')
prop('C04', 'A panic in a handler costs only its own request',
 "Behind PanicRecover, a panic with any non-nil value in the handler or in a middleware inside it becomes an error of that request: the error middleware outside it answers it, or without one the client gets status 500 and the error log function is called exactly once, and nothing of the panic value or of the abandoned response reaches the client unless an error middleware puts it there. "
 "Without PanicRecover the panic leaves ServeHTTP with its value unchanged. "
 "Either way every other request, running or later, is answered as if the panic had not happened.",
 ['inputs','schedules','fault_sequences'],
 'every panic value, place of the panic within the chain, position of PanicRecover, and every interleaving with other requests',
 'The test recovers from one panic of one handler; that pools and shared state survive panics at arbitrary points of overlapping requests is not tested.',
 ['middleware/panic.go','router/router.go','middleware/errors.go'],
 [('deferred recover turning the panic into an error','middleware/panic.go: PanicRecover'),('deferred return of the pooled segments','router/router.go: ServeHTTP')],
 ['status, body, logged errors, panics leaving ServeHTTP'],
 'Seeded search over panic values, places and interleavings; every response is compared with the one specified.')
prop('C05', 'CSRF protection admits state changes only with a fresh single-use nonce',
 "Behind CSRFPrevention, a handler runs for a method other than GET, HEAD, TRACE and OPTIONS only if the request carries, in the configured header or else form field, a nonce which that middleware handed out, which has not expired and which no other request has used; every other such request is answered with access denied and leaves all outstanding nonces usable. "
 "Every request that is let through gets in its context a new nonce that differs from all others, stored with the configured expiration, and when no nonce can be generated or stored the request fails instead of running unprotected.",
 ['schedules','inputs','histories','fault_sequences'],
 'every sequence of issues, replays, concurrent double submissions, forged and expired nonces, wall clock steps, failing caches and failing random source, over one middleware instance',
 'The tests call the middleware once with a prepared cache; double spending needs concurrent requests and expiry needs time.',
 ['middleware/csrf.go','cache/cache.go'],
 [('nonce lookup and consumption','middleware/csrf.go: CSRFPreventionWithCustomParamAndHeaderName'),('nonce generation','middleware/csrf.go: generateNonce')],
 ['handler invocations, statuses, nonces in the context and in the cache'],
 'Seeded search over interleavings, clock and cache faults; the history of nonces is checked exactly.')
prop('C06', 'A client presenting its fresh CSRF nonce is served',
 "Behind CSRFPrevention, a request that presents a nonce handed out by that middleware and neither used nor expired, in the configured header or in the configured form field of its query, URL-encoded or multipart body, is served, once, whatever other clients do at the same time; when the nonce is in the header or the query, the request's body may be of any kind, or unreadable. "
 "Requests with GET, HEAD, TRACE or OPTIONS are served without a nonce.",
 ['schedules','inputs','histories'],
 'every way to present a nonce, every interleaving with other clients, every waiting time within the expiration and wall clock steps, with a cache that does not fail',
 'The tests present the nonce in one way with a prepared cache and no other client.',
 ['middleware/csrf.go','cache/cache.go'],
 [('reading the nonce from the header or the form','middleware/csrf.go'),('expiration of nonces','cache/cache.go')],
 ['handler invocations and statuses'],
 'Seeded search; requests whose nonce expires within their duration are not judged.')
prop('C07', 'OAuth callbacks are honoured only with a state this application issued',
 "Every initiation redirects with status 302 to the chosen provider with the configured client id, the callback address, the configured options and scopes (and those the user details need) and a fresh unique random state that was stored with the configured expiration before; if it cannot be stored the initiation fails without redirecting. "
 "A callback whose state was never issued or has expired, or which carries an error, is answered unauthorized without contacting the provider and without running the handler, while a callback with an issued unexpired state and a code is served; an unknown or missing provider is a bad request. "
 "Without a cache the state is not checked.",
 ['schedules','inputs','histories','fault_sequences'],
 'every interleaving of initiations and callbacks of several users, forged, foreign, empty and expired states, wall clock steps, cache failures and configurations of scopes and providers',
 'No test of the repository runs the OAuth endpoints.',
 ['gofre.go','auth/oauth/oauth2.go','auth/oauth/github.go','auth/oauth/google.go'],
 [('state generation, storage and check','gofre.go: HandleOAUTH2WithCustomPaths'),('redirect address','auth/oauth/*.go: InitiateUrl')],
 ['redirects, cache contents, provider requests, handler invocations'],
 'Seeded search over flows and faults with simulated providers; that a state is single-use is not claimed because the code does not promise it.')
prop('C08', 'OAuth callbacks deliver only what the provider answered to that very callback',
 "The handler of an OAuth callback runs exactly once, and only if the provider answered the token request (and, when user details are requested, the user request) completely and successfully, with the access token and user of that very callback in its context. "
 "Whatever else a provider does (connection failures, error statuses, truncated, malformed, empty, mistyped or incomplete answers), the callback ends with an error response and never with a panic, another user's data or an empty token. "
 "The token request carries, in a body of the type it declares, that callback's code and the configured client credentials (and, to Google, the redirect address used at initiation).",
 ['schedules','inputs','fault_sequences'],
 'every combination of provider answers and faults at any byte, for concurrent callbacks to both providers',
 'No test of the repository runs the OAuth callbacks.',
 ['gofre.go','auth/oauth/oauth2.go','auth/oauth/github.go','auth/oauth/google.go'],
 [('token and user requests','auth/oauth/*.go: FetchAccessToken, FetchAuthenticatedUser'),('context values','gofre.go: HandleOAUTH2WithCustomPaths')],
 ['provider requests, handler invocations with token and user, statuses'],
 'Seeded search over provider faults; provider and network are stubs behind http.DefaultTransport.')
prop('C09', 'An OAuth callback never hangs on a stalled provider',
 "However a provider stalls (before, within or after its answer's headers, or sending byte by byte), an OAuth callback is answered within ten seconds for each request it makes to the provider plus the time of its handler. "
 "When the client disconnects, the request to the provider is cancelled and the callback ends at once.",
 ['fault_sequences','schedules'],
 'every instant of stall and of disconnect, for concurrent callbacks',
 'It is a statement about time and faults of a remote party; no test runs the OAuth callbacks.',
 ['auth/oauth/oauth2.go','auth/oauth/github.go','auth/oauth/google.go'],
 [('client timeout and request context','auth/oauth/oauth2.go')],
 ['simulated duration of ServeHTTP, cancellation seen by the provider'],
 'Seeded search in simulated time.')
prop('C10', 'Event streams deliver every event once, in order, promptly and intact',
 "A client of a server-sent event stream that keeps reading receives exactly the generated events in order, and a conforming EventSource parser recovers each event's name, id, retry and data lines from the bytes, also when data contains line breaks. "
 "Each event reaches the client without waiting for the next one, compressed or not. "
 "The response has status 200, content type text/event-stream, Cache-Control no-cache and the application's headers and cookies; the generator gets the client's Last-Event-ID; requests which are not HTTP/2 get status 500 and the generator is not started.",
 ['inputs','schedules','histories'],
 'every sequence of events, generator timing and buffering, and every interleaving with other streams',
 'The tests write short sequences to a recorder; promptness needs time, and parsing arbitrary data is not tried.',
 ['response/sse.go','response/compress.go'],
 [('framing','response/sse.go: String'),('flush after each event','response/sse.go: Write')],
 ['bytes and their arrival times at the client'],
 'Seeded search in simulated time; names and ids contain no line breaks.')
prop('C11', 'An ended event stream frees its handler and its generator',
 "When the client of an event stream disconnects or a write fails, the handler returns and the generator's context is cancelled within bounded steps, also when the generator is silent or blocked handing over an event. "
 "Once a generator that closes its channel on cancellation has done so, no goroutine of the stream remains, and after the disconnect nothing more is written.",
 ['schedules','fault_sequences'],
 'every instant of disconnect or write failure relative to the generator waiting, sending or ending, for concurrent streams',
 'The tests cancel one stream at a chosen point; leaks depend on the interleaving.',
 ['response/sse.go'],
 [('context passed to the generator and draining of its channel','response/sse.go: Write')],
 ['return of ServeHTTP, generator context, live goroutines'],
 'Seeded search; goroutines are counted in the simulator.')
prop('C12', 'Compression changes only the encoding of a response',
 "Behind CompressResponse, the response decoded according to its Content-Encoding has the status, headers, cookies and body specified by the handler; it is encoded only if the request accepts that encoding, says so in Content-Encoding, announces no wrong length, and responses that have no body or are already encoded are left alone. "
 "Bytes flushed by the handler can be decoded by the client before the rest arrives. "
 "Concurrent responses never share compression state.",
 ['inputs','schedules','fault_sequences'],
 'every response kind, level, size and chunking, flush points, Accept-Encoding value and interleaving of requests',
 'The tests compress one small body; flush visibility and overlapping requests are not tested.',
 ['response/compress.go','middleware/compress.go'],
 [('compressing response writer','response/compress.go')],
 ['raw and decoded bytes at the client'],
 'Seeded search; the client decodes with the standard library.')
prop('C13', 'A failed delivery is truncated, never corrupted, and always reported',
 "When the connection or the source of a response fails at any byte, what the client has received is a prefix of the specified response (if compressed: what it can decode is), never altered or foreign data. "
 "A failed write, a short write, a failing source and a failure while finishing compression are reported through the error log function exactly once per request; requests that did not fail report nothing. Event streams, whose clients always leave at some time, may end quietly.",
 ['fault_sequences','inputs','schedules'],
 'every byte offset and kind of failure, for each response kind, with and without compression, next to other requests',
 'The tests inject a single write error into some response kinds.',
 ['response/*.go','router/router.go'],
 [('errors returned by Write','response/*.go'),('error log function','router/router.go: ServeHTTP')],
 ['bytes at the client, calls of the error log function'],
 'Seeded search over failure offsets; event streams, whose ends are no errors, are covered by C11.')
prop('C14', 'The in-memory cache is linearizable and honours expirations',
 "Every concurrent history of Add, Remove and Contains on the in-memory cache is equivalent to a sequential one in which Contains tells whether the key was added, not removed since, and added less than its expiration ago in elapsed time. "
 "Steps of the wall clock make no difference, and no schedule makes it panic or deadlock.",
 ['schedules','histories'],
 'every history of operations on shared keys with any expirations, every interleaving, and any wall clock steps',
 'The repository has no test of the cache.',
 ['cache/cache.go'],
 [('expiring map','cache/cache.go')],
 ['results of the calls'],
 'Seeded search, each history decided exactly by a linearizability checker (porcupine).')
prop('C15', 'Concurrent requests never race on shared framework state',
 "With a correct application, serving requests concurrently through one mux, with any of the framework's middlewares, response kinds, caches and OAuth providers, performs no data race inside the framework and never fails with a concurrent map access. ",
 ['schedules','configurations'],
 'every mix of concurrent requests over all middlewares and response kinds and every interleaving',
 'Races depend on the schedule; the tests run one request at a time.',
 ['gofre.go','router/router.go','middleware/security.go','middleware/csrf.go','cache/cache.go','response/response.go'],
 [('immutable configuration after registration, pools and per-request values','middleware/*.go, response/*.go'),('locking of the cache','cache/cache.go')],
 ['reports of the race detector on simulated schedules'],
 'Seeded schedules executed with the Go race detector; its happens-before analysis covers every schedule with the same synchronisation order as the ones executed.')
prop('C16', 'No handler runs without the permissions it demands',
 "Behind SecurityPrincipalSupplier and AuthorizeAll, AuthorizeAny or Authorize, a handler runs exactly if its own request's principal exists and has all, or at least one, of the demanded permissions at that moment; otherwise the request is answered unauthorized, and when the supplier of the principal or of the permissions fails, the request fails with that error and the handler does not run. "
 "The handler sees the principal of its own request and of no other, with the roles it has. "
 "A permission written as text is read as the scope and access it states, or refused.",
 ['schedules','inputs','fault_sequences','configurations'],
 'every principal, permission set, failing or slow supplier, and every interleaving of requests of different principals',
 'The tests decide single requests; isolation between overlapping requests and failing suppliers under load are not tested.',
 ['middleware/auth.go','middleware/authz.go','auth/auth.go'],
 [('principal in the request context','middleware/auth.go'),('permission check before the handler','middleware/authz.go')],
 ['handler invocations, statuses, principals seen'],
 'Seeded search against an independent model of principals and permissions.')
prop('C17', 'Every error becomes exactly one answer with the documented status',
 "An error of a handler or middleware is answered by the innermost error middleware around it with the status of its kind (bad request 400, not found 404, unauthorized 401, wrong credentials or access denied 403, anything else 500) and that very error's text in the JSON body, and is then not logged; without an error middleware the client gets status 500 with an empty body and the error log function is called exactly once with that error. "
 "Requests that succeed, and requests to unknown routes, which get 404, log nothing.",
 ['inputs','schedules','configurations'],
 'every kind of error raised at any place of the chain and every interleaving of failing and succeeding requests',
 'The tests map single errors; that overlapping requests never swap or duplicate errors is not tested.',
 ['middleware/errors.go','errors/errors.go','router/router.go'],
 [('error to status mapping','middleware/errors.go'),('error log function','router/router.go: ServeHTTP')],
 ['status, body, calls of the error log function'],
 'Seeded search; every response is compared with its error.')
prop('C18', 'Each answered request is dumped exactly once, and nothing is changed by it',
 "Behind RequestDumper, the logger is called exactly once for each request whose handler succeeded and never for one that failed, with a JSON record of that request's method, protocol, URI, URL, remote address, host, security, length, headers, form and cookies and of its response's status, headers and cookies, with start and end times around the handler. "
 "The response and error of the handler are passed on unchanged, and records of concurrent requests never mix.",
 ['inputs','schedules','histories'],
 'every request and response value and every interleaving of requests',
 'The test dumps single requests.',
 ['middleware/dump.go'],
 [('record built per request','middleware/dump.go')],
 ['records passed to the logger, responses received'],
 'Seeded search; every record is compared with its request and response.')
prop('C19', 'CORS and security headers follow the configuration for every request on its own',
 "Behind Cors, cross-origin requests from origins, methods or (in preflights) headers which are not allowed are denied, and all others carry exactly the access-control headers the configuration prescribes for that very request's origin and method; behind SecurityHeaders every successful response carries exactly the configured security headers, Strict-Transport-Security only on secure requests. "
 "The decision and the headers depend only on the configuration and the request itself, never on earlier or concurrent requests.",
 ['inputs','configurations','schedules','histories'],
 'every configuration and every history and interleaving of requests with different origins, methods, schemes and headers',
 'The tests decide single requests; state kept between requests is not exercised.',
 ['middleware/cors.go','middleware/security.go'],
 [('decision per request','middleware/cors.go'),('header values computed from the configuration','middleware/security.go')],
 ['statuses and headers received'],
 'Seeded search against an independent model of the decision.')
prop('C20', 'A hijacked connection belongs to the application alone',
 "A hijack response calls its callback exactly once, with the connection if it can be taken over and with an error otherwise, behind any stack of the framework's middlewares. "
 "After that the framework writes nothing to the connection or the response, does not panic, and other requests are not affected.",
 ['configurations','schedules','fault_sequences'],
 'every stack of middlewares, connections which can and cannot be taken over, and every interleaving with other requests',
 'The tests call the response with a recorder and no middleware.',
 ['response/hijack.go','response/compress.go','middleware/*.go'],
 [('pass-through of the takeover','response/compress.go: Hijack'),('responses without headers and cookies','response/hijack.go')],
 ['callback invocations, bytes on the connection'],
 'Seeded search over stacks and interleavings.')
prop('C21', 'A stalled request never delays another one',
 "While any request is stalled in its handler, in its client's reading of the response, in a generator, in a cache or provider call or in a log function, every other request to the same mux completes within its own handler's time. ",
 ['schedules','fault_sequences','configurations'],
 'every point where a request can stall, for any mix of middlewares and other requests, and every interleaving',
 'The tests never overlap requests.',
 ['router/router.go','middleware/csrf.go','response/*.go','cache/cache.go'],
 [('no lock held across application code or I/O','middleware/*.go, response/*.go, cache/cache.go')],
 ['simulated duration of the other requests'],
 'Seeded search in simulated time.')

prop('C22', 'Static resources are served exactly, and only from the assets directory',
 "With a ResourcesConfig, a GET for <context path>/<mapping path>/<name> is answered as net/http's file server answers it for that name in the assets directory: the exact content, type, length, modification time, ranges and conditional answers of a version of the file that existed during the request, the directory's index or listing, a redirect, or 404; hidden and oddly named files are files like any other; names are taken as they are, whatever the case sensitivity of the routes. Names that are not clean (dot segments, doubled slashes) may also be refused with 404. "
 "No file outside the assets directory is ever served. More specific routes of the application below the mapping path win, its other routes are unaffected, and two applications in a process keep their directories apart. "
 "When an operation on the files fails, the client gets an error status or a response it can recognise as cut short, never other content; every opened file is closed, and a stalled file or client delays nobody else.",
 ['inputs','configurations','schedules','fault_sequences','histories'],
 'every file name, range and condition, every context and mapping path, every interleaving of requests with each other and with replacement, creation and removal of files, and every failing, short or stalled open, stat, read, seek and directory read',
 'No test requests a static resource; names are unbounded, and stale or mixed content, leaked handles and stalls need overlapping requests, changing files and failing I/O.',
 ['gofre.go','handler/handler.go','response/adaptor.go','router/router.go'],
 [('file server behind a stripped prefix','gofre.go: NewMuxHandler'),('net/http handlers as responses','handler/handler.go: Handler2Handler; response/adaptor.go')],
 ['status, headers and body received by the client','open file handles','simulated duration of requests'],
 'Differential: every answer is compared with the one net/http\'s own file server gives for a directory state of that moment; the directory is a scratch directory read through a simulated http.Dir.')

prop('C23', "A request's context reaches all its code and ends exactly when the request ends",
 "The context.Context that middlewares, principal and permission suppliers, handlers, OAuth providers and OAuth callback handlers are given carries the values of the server's request context and those that the middlewares outside of them added, for that request and no other; so do the request that handlers and adapted net/http handlers get, the event generator's context and the requests made to OAuth providers with respect to the server's values. "
 "It has not ended, neither while the handler runs nor while the response is written, as long as the client waits and no deadline set by the server or an outer middleware has passed; when the client goes away, a deadline passes or an outer middleware cancels it, it ends at once, whatever the code is doing. "
 "ServeHTTP does not return while the request's handler or response is at work, the context ends with it, and what happens to other requests makes no difference.",
 ['inputs','configurations','schedules','fault_sequences'],
 'every stack of middlewares, every kind of handler and response, and every instant at which the client leaves, a deadline passes or a middleware cancels, relative to every step of this and the other requests',
 'Tests call single middlewares with a background context that never ends; an end that comes too early, too late or from another request shows only at particular instants of an overlapping history.',
 ['router/router.go','middleware/*.go','response/adaptor.go','response/sse.go','response/streaming.go','handler/handler.go','gofre.go','auth/oauth/*.go'],
 [('the request context is handed down','router/router.go: ServeHTTP; middleware/*.go'),('generator context','response/sse.go: HttpSSEResponse.Write'),('OAuth callback','gofre.go: HandleOAUTH2WithCustomPaths'),('provider requests','auth/oauth/github.go, google.go')],
 ['context.Context values, Done and Err at every place that is given one'],
 'Seeded search in simulated time; the ends are injected at instants which coincide with no other event, so early and late are exact.')
prop('C24', 'A request that has ended leaves nothing behind in the server',
 "Once a request has been answered, or has failed, panicked or lost its client, and the code it ran has come to rest, nothing of it stays: however many requests a gofre application has served, whatever their paths, methods, hosts, origins, nonces, states, codes, principals, permissions and errors were, the memory the framework holds and the background tasks it runs do not grow with their number (a store that the application configures, such as cache.InMemory, keeps what it is given), and the body of every answer an OAuth provider gave has been closed. "
 "This holds for every kind of response and with every middleware, and whichever step failed: an unknown route, a refused origin, nonce, state or principal, a store or provider that fails or never answers, an answer that is no JSON or breaks off, a handler that panics, a client that goes away or a connection that is taken over.",
 ['inputs','configurations','schedules','fault_sequences'],
 'every history of requests, of any length, with any mix of kinds, names and faults at any step',
 'Tests send a few requests and look at their answers; what a failing path leaves behind has no effect until a server has run for weeks.',
 ['router/router.go','middleware/*.go','response/*.go','gofre.go','auth/auth.go','auth/oauth/*.go'],
 [('pooled path segments','router/router.go: ServeHTTP'),('nonces being consumed','middleware/csrf.go'),('header and cookie pools','response/response.go'),('generators are drained','response/sse.go: HttpSSEResponse.Write'),('provider bodies are closed','auth/oauth/github.go, google.go')],
 ['live simulated tasks at rest','live objects after a garbage collection','Close of the bodies the provider transport handed out'],
 'Seeded search; the same mix of requests is sent again and again with new names, and what is left must not grow each time. Growth is counted in tasks and objects, so a single long-lived worker or a cache with a limit is no violation.')

prop('C25', 'A request is answered as if it were the only one the server ever got',
 "What a request is answered - status, headers, cookies, body, the events of a stream, what travels over a connection that was taken over -, what its handler and middlewares see of it - path variables, headers, form, principal, context values - and what is logged for its errors are those of a newly built application of the same configuration that serves nothing else. "
 "They depend neither on the requests served before, however many, nor on those served at the same time: not on requests for the same URL with other headers, host, scheme, origin, encoding, method, body, credentials or permissions, not on requests whose paths differ in case, a slash or a segment, and not on requests that fail, panic, stall, are refused or are abandoned. "
 "Excepted are the random nonces and states themselves, and what the application's own stores keep.",
 ['inputs','configurations','schedules','fault_sequences'],
 'every history and overlap of other requests, near-copies of the request among them, with any fault, before and while the request is served',
 'Tests send each request once to a fresh server; what is remembered, reused or shared shows only after particular other requests, or only in their company.',
 ['router/router.go','router/path/*.go','middleware/*.go','response/*.go','handler/handler.go','gofre.go','auth/auth.go','auth/oauth/*.go'],
 [('pooled path segments and matching contexts','router/router.go: ServeHTTP; router/path/matching_context.go'),('header and cookie maps','response/response.go'),('middlewares keep nothing of a request','middleware/*.go'),('routes and mounted applications','gofre.go: RouteUsingPathPrefix, Clone'),('provider requests','auth/oauth/github.go, google.go')],
 ['everything the simulated client receives','everything handlers report to see','ErrLogFunc'],
 'Differential: every probe is first served alone by an application of its own, in the same run, and each later answer is compared with that one in full.')

built = sys.argv[1:] or [f[:-1] for f in os.popen("grep -ho 'Prop: \"C[0-9]*\"' %s/sim/harness/*.go | grep -o 'C[0-9]*' | sort -u" % here)]
if not sys.argv[1:]:
    built = [b.strip() for b in os.popen("grep -ho 'Prop: \"C[0-9]*\"' %s/sim/harness/*.go | grep -o 'C[0-9]*' | sort -u" % here)]
with open(here + '/properties.jsonl', 'w') as f:
    for p in P:
        if p['id'] not in built: continue
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'].strip(),
            quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
            anchors=dict(files=sorted({os.path.relpath(g,'/repo') for f in p['files'] for g in glob.glob('/repo/'+f) if not g.endswith('_test.go')}), mechanism=[dict(name=a, where=b) for a, b in p['mech']], observe_at=p['observe'], hook_needed=p['hook'])), ensure_ascii=False) + '\n')
checks = []
for p in P:
    if p['id'] not in built: continue
    checks.append(dict(property=p['id'], quick_cmd='./check.sh ' + p['id'], thorough_cmd='VERIF_TIER=thorough ./check.sh ' + p['id'],
        evidence_file='evidence/%s.json' % p['id'],
        technique='deterministic simulation with fault injection (seeded schedule and fault search)',
        level='exploration',
        level_note=p['note'] + ' Assurance is that of the runs made, reported in the evidence; trusted: the simulator, the source instrumentation, the net/http stand-in and the reference model.'))
m = dict(version=1, setup_cmd='./setup.sh', hooks=dict(guard='none: no hook is committed in /repo', enable='check.sh builds /repo through a go build overlay in which every statement, lock, clock and random source goes through the simulator', source_commits=[]),
    checks=checks, not_applicable=[dict(property=p['id'], reason=p['na']) for p in P if p['id'] not in built and p['na']],
    notes='Quick checks take about 20 s each, thorough ones 8 minutes. ./check.sh replay FILE re-executes a replay file; ./check.sh selftest checks determinism.')
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks')
