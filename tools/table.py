# Rewrites the table of section 9 of DESIGN.md from seeded/*/meta.json.
import json,os
MISS={ # id -> what the miss led to
'C02-eof-data':'sources that end with their last bytes were added for it',
'C02-empty-read':'sources with empty reads were added for it',
'C13-partial-read':'sources that fail with their last bytes were added for it',
'C16-mask8':'long lists of permissions were added for it',
'C10-data64':'events of many fields were added for it',
'C10-retry16':'long reconnection times were added for it',
'C10-lastid-cut':'long and odd last event ids were added for it',
'C17-format':'texts with a percent sign were added for it',
'C19-header-substring':'names that are parts of allowed ones were added for it',
'C02-json-double-release':'missed first: values that cannot be encoded and templates that fail were added',
'C05-unstored-nonce':'missed first: stores that fail on safe requests were added',
'C06-cache-cap':'missed first: floods of nonces were added',
'C06-header-name':'missed first: header names that are not in canonical form were added',
'C08-status-400':'missed first: complete answers with odd statuses were added',
'C10-skip-last-id':'missed first: repeated event ids were added',
'C13-partial-text':'missed first: writes that report how much they took were added',
'C14-overflow':'missed first: very long lifetimes were added',
'C16-memo':'missed first: permissions that are withdrawn between two uses of one principal',
'C17-log-cancelled':'missed first: clients that are gone before the answer were added',
'C18-pooled-record':'missed first: records are kept as they came and compared at the end',
'C19-vary-prefix':'missed first: Vary values that begin like the ones Cors adds',
'C05-restore-on-error':'missed first: handlers that fail after their nonce was used were added',
'C13-unexpected-eof':'missed by the error values used until then: broken connections and sources now fail with the errors of the standard library',
'C13-broken-pipe':'as C13-unexpected-eof',
}
MISS.update({
'C05-fold-race':'missed first: nonces in the other case of letters are presented',
'C11-batched':'missed first: generators with a long backlog, and a count of the writes after the client left',
'C16-cancelled-supplier':'missed first: suppliers fail with errors of the standard library, wrapped',
'C21-sse-mutex':'missed first: events that are longer than what a connection buffers',
'C24-abandoned-add':'missed first: stores that take their time and clients that leave meanwhile were added',
'C25-connection-principal':'missed first: routes that tell who was recognised without demanding it, and any request from the address of a probe',
'C25-resumed-stream':'missed first: streams without a last event id, and generators that tell which one they got',
'C25-origin-verdict':'missed first: more methods for the routes were added',
})
MISS.update({
'C01-method-alias':'missed first: more methods for routes and requests were added (HEAD, PATCH, OPTIONS, TRACE, PROPFIND)',
'C06-body-first':'missed first: unsafe requests whose body is no form, or no readable one, were added',
'C08-redirect-memo':'missed first: a second pair of endpoints at the same providers was added',
'C13-retry-write':'missed first: a short write after which the connection would go on was added',
'C16-group-index':'missed first: roles that only deny, and more groups, were added',
'C17-status-memo':'missed first: errors of different kinds with equal texts were added',
'C21-global-pool-cap':'missed first: up to 280 requests of one kind stalled at one point; and package-level channels blocked the simulator (section 1, Package state)',
'C22-etag-size':'missed first: requests with known, guessed and wrong entity tags were added',
})
MISS.update({
'C04-slot-leak':'missed first: storms of panicking requests were added',
'C12-double-put':'missed first: clients that lose their connection were added to C12',
'C11-drain-limit':'missed first: generators that notice the end only after their next event were added',
'C20-error-dropped':'missed first: connections that cannot be taken over now fail with varied errors, http.ErrHijacked among them',
'C22-hidden':'missed first: hidden and oddly named files were added',
'C23-shared-call':'missed first: OAuth clients that share a code were added',
'C19-preflight-cache':'caught late at first; near repeats were added',
})
MISS.update({
'C01-hot-regex':'missed first: routes whose segments overlap, and every request again on an application of its own, were added',
'C04-gone-quiet':'missed first: clients that are gone before the answer were added',
'C08-limit-reader':'missed first: complete answers of many shapes, up to 70 KB, were added',
'C16-ctx-memo':'missed first: up to three guards one after the other were added',
'C17-shared-answers':'missed first: an outer middleware that sets headers per request was added',
'C20-fresh-buffer':'missed first: clients that send ahead were added',
'C22-open-limit':'missed first: crowds of slow clients were added',
})
base='/verif/seeded'
rows=[]
for d in sorted(os.listdir(base)):
    m=json.load(open(f'{base}/{d}/meta.json'))
    rows.append((d,m['what_it_breaks'],m.get('caught_by',m['property']),MISS.get(d,'')))
out=['| planted bug | what it breaks | caught by | note |','|---|---|---|---|']
for r in rows: out.append('| %s | %s | %s | %s |'%r)
import re
t='\n'.join(out)
p='/verif/DESIGN.md'; s=open(p).read()
i=s.index('## 9. Planted'); head=s[i:].split('\n')[0]
tail=s[i:].split('\n'); k=[j for j,l in enumerate(tail) if l.startswith('|')]
open(p,'w').write(s[:i]+head+'\n\n'+t+'\n'+'\n'.join(tail[k[-1]+1:]))
