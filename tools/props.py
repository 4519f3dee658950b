#!/usr/bin/env python3
"""Source of properties.jsonl (kept here so that it can be edited comfortably).
Run: python3 tools/props.py > properties.jsonl"""
import json, sys
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("P01", "Cached answers never outlive the lifetime granted upstream",
 "A response served from the cache carries the records of the most recently stored upstream response for that question, with every TTL reduced by the whole seconds it has been cached, and is never served once any of its records (or the configured negative, failure or per-response-code limit) has run out. Truncated, dropped, failed and otherwise uncacheable responses are never served from the cache, and a background refresh that failed, was truncated or would expire sooner never replaces what is already cached.",
 ["histories", "configurations"],
 "All sequences of queries, upstream outcomes and clock advances (including steps onto and just past each expiry instant, and background refreshes) up to the bound, for every combination of negative-TTL, response-code limit, prefetch and NXDOMAIN-hardening settings in the alphabet.",
 "Existing tests check a few fixed response/sleep pairs; expiry is a relation between an arbitrary history of stores, refreshes and clock readings and every later lookup.",
 ["cache.go", "cache-memory.go", "lru-cache.go", "cache-blob.go"],
 [("expiry computation per rcode", "cache.go:storeInCache"), ("ageing and rejection on lookup", "cache.go:ageCachedAnswer"), ("expiry check and eviction", "cache-memory.go:Lookup"), ("background refresh", "cache.go:Resolve")],
 "Responses returned by the cache element and the queries reaching its upstream, under a virtual clock")

prop("P02", "Cache entries are isolated by question, EDNS flags and client subnet",
 "A cached response is only ever given to a query whose name (ignoring case), type, class, DNSSEC-OK flag, checking-disabled flag and client-subnet address and prefix length equal those of the query it was fetched for; every other query goes to the upstream. The response handed out always carries the asking query's own ID and exactly spelled question.",
 ["inputs", "histories", "configurations"],
 "All ordered pairs (and short sequences) of queries from the product alphabet of name, case, type, class, DO, CD and client-subnet variants, on every cache backend, including entries reloaded from a cache file.",
 "Tests compare single pairs of queries; isolation is a statement about every pair in a product of seven independent key components on each backend.",
 ["lru-cache.go", "cache-blob.go", "cache-redis.go", "cache-memory.go", "cache.go"],
 [("memory cache key", "lru-cache.go:lruKeyFromQuery"), ("stored-key comparison", "cache-blob.go:matchesKey"), ("redis key", "cache-redis.go"), ("ID and question restored", "cache.go:ageCachedAnswer")],
 "Responses returned by the cache element and the queries reaching its upstream")

prop("P03", "Cache size stays within capacity and evicts least recently used first",
 "A memory cache with a capacity never holds more entries than that capacity, and when it has to make room it drops exactly the entry that was least recently stored or returned. The reported size always equals the number of entries still retrievable or not yet collected, flushing empties it, and garbage collection removes expired entries only.",
 ["histories", "configurations"],
 "All sequences of store, lookup, flush, expiry and garbage-collection steps up to the bound over a small key set, for each small capacity and unlimited.",
 "Unit tests fill a list once; recency order is a function of the whole operation history, including overwrites, misses, expiries and reloads.",
 ["lru-cache.go", "cache-memory.go", "cache-blob.go"],
 [("recency list and eviction", "lru-cache.go:touch/insert/resize"), ("garbage collection", "cache-memory.go:startGC"), ("flush query", "cache.go:Resolve")],
 "Cache hits and misses seen through the cache element, and the backend's size")

prop("P04", "Concurrent cache use behaves like one operation at a time",
 "However queries, background refreshes, flushes, expiries, garbage collection and saves interleave, every response given out is one that was stored for exactly that question and had not been flushed or replaced before the query began, and no interleaving loses capacity, deadlocks or crashes. A response handed to one client is never affected by what another client or the cache does with theirs.",
 ["schedules"],
 "All interleavings (statement granularity, bounded number of preemptions) of two to three concurrent cache operations on colliding keys, including the garbage collector and the interval save.",
 "The race detector and stress tests sample a handful of schedules; the damaging ones need a preemption between two particular statements.",
 ["cache.go", "cache-memory.go", "lru-cache.go", "cache-blob.go"],
 [("cache lock", "cache-memory.go:mu"), ("save lock", "cache-memory.go:saveMu"), ("immutable stored blob", "cache-blob.go")],
 "Responses and sizes returned to the concurrent callers")

prop("P05", "A crash or failure while saving a file leaves the old or the new content",
 "When the process or machine stops at any point while a cache file or a downloaded list is being saved, or any file operation fails, the file found afterwards is completely the previous or completely the new version, never a mixture, truncation or absence of a version that existed, and it keeps its permissions. The clean-up of leftovers never removes anything but old, regular temporary files of this program, and a save error leaves no temporary file behind.",
 ["crash_points", "fault_sequences"],
 "Every file operation of a save as a crash point, with every torn-write and lost-unsynced-data outcome of the crash, and every single (and pairwise) failing operation, for existing and missing targets and each content size class.",
 "Tests only see saves that run to completion or one injected error; durability is about every prefix of the operation history and every way unsynced data can be lost.",
 ["atomicfile.go", "cache-memory.go", "blocklistloader-http.go"],
 [("write to temp, sync, rename", "atomicfile.go:writeFileAtomic"), ("stale temp sweep", "atomicfile.go:removeStaleTempFiles"), ("save entry point", "cache-memory.go:writeToFile"), ("list cache", "blocklistloader-http.go")],
 "Directory content after each crash point and what a restarted cache or loader reads from it")

prop("P06", "A saved cache reloads to the same answers",
 "After a save and a restart the cache answers every query as it would have without the restart: same responses, same remaining lifetimes, same eviction order, nothing resurrected. A damaged, truncated or foreign cache file never prevents start-up, never crashes, and only ever yields entries that were recorded completely.",
 ["histories", "crash_points", "inputs"],
 "All short histories of stores, lookups, clock advances and flushes followed by save and reload, and every truncation point and single-record damage of the resulting file.",
 "Tests round-trip one fixed entry; the claim covers every reachable cache state and every cut position of its file.",
 ["lru-cache.go", "cache-blob.go", "cache-memory.go"],
 [("serialise and deserialise", "lru-cache.go:serialize/deserialize"), ("load on start", "cache-memory.go:loadFromFile")],
 "Answers from a cache restarted on the saved file compared with the one that kept running")

prop("P07", "Merged duplicate queries get the right answer and nobody waits forever",
 "Identical queries that arrive while one is in flight are answered from that one upstream query, each with its own ID and question and a private copy of the response, and an error or drop reaches all of them. Queries that differ in name, type, class, DNSSEC or checking-disabled flag or client subnet are never merged, a query arriving after the first caller has its response causes a new upstream query, and every caller returns once the upstream does.",
 ["schedules", "inputs", "fault_sequences"],
 "All interleavings of two to three concurrent callers with every upstream outcome (answer, error, drop), and all ordered pairs of queries from the key alphabet in flight together.",
 "The merge window is a few instructions wide; tests only reach the schedule where followers are comfortably waiting.",
 ["request-dedup.go"],
 [("in-flight table", "request-dedup.go:inflight"), ("completion broadcast", "request-dedup.go:Resolve"), ("merge key", "request-dedup.go:dedupKey")],
 "Responses returned to each caller and the queries reaching the upstream")

prop("P08", "Shared upstream connections return each caller its own response",
 "Over a shared upstream connection every query gets exactly the response sent for it, with its own ID and matching question, or an error, in bounded time, no matter how responses are reordered, duplicated, delayed, unsolicited or malformed and when the connection breaks. A broken, refused or idle-closed connection only affects the queries outstanding on it, which fail as soon as the loss is seen: later queries open a new connection and are answered.",
 ["schedules", "fault_sequences"],
 "All interleavings (bounded preemptions) of two to three concurrent queries with every server behaviour from the alphabet (answer in any order, duplicate, wrong ID, wrong question, garbage, close, silence, dial failure, write failure) and timer expiry at every point.",
 "Reconnect, timeout and reply races need a specific interleaving of reader, writer, timers and callers that tests cannot force.",
 ["pipeline.go", "validate.go", "dnsclient.go", "dotclient.go", "dtlsclient.go"],
 [("in-flight queue", "pipeline.go:inFlightQueue"), ("connection life cycle", "pipeline.go:start"), ("response validation", "validate.go"), ("caller wait", "pipeline.go:Resolve")],
 "Results returned to callers and traffic seen on the scripted connections")

prop("P09", "Failover groups answer whenever a member can",
 "A fail-rotate, fail-back, random or load-balance group returns a member's good response whenever at least one member that is in service keeps answering well during the query, trying others only after failures as defined by the failure options, and reports a failure only when all eligible members failed. No combination of concurrent failures and recoveries deadlocks the group, crashes it or makes it lose a member for good.",
 ["schedules", "fault_sequences", "configurations"],
 "All interleavings (bounded preemptions) of one to three concurrent queries with every assignment of outcomes (answer, error, SERVFAIL, REFUSED, NOTIMP, empty, blocked-empty, drop) to members, for two to three members and all failure options, including reset timers firing at any point.",
 "Tests run one query against one failing member; concurrent failure reports and timers interacting with the active-member index are never explored.",
 ["failrotate.go", "failback.go", "random.go", "loadbalance.go", "resolver.go"],
 [("active index with stale-report guard", "failrotate.go:errorFrom"), ("fail-back reset goroutine", "failback.go"), ("temporary removal", "random.go:deactivate"), ("weighted pick without replacement", "loadbalance.go:pick"), ("success predicate", "resolver.go:isSuccessResponse")],
 "Result of each query and the sequence of members it was sent to")

prop("P10", "Groups keep to their documented order of preference",
 "Round-robin sends queries to its members strictly in turn, so any run of consecutive queries is spread evenly, even when they are concurrent. Fail-rotate stays with a member until it fails, fail-back returns to its first member once no failure has been seen for the reset period and not before, random leaves a failed member out for the reset period and brings it back exactly once, and load-balance asks no member twice for the same query.",
 ["schedules", "histories", "configurations"],
 "All interleavings of concurrent queries and all histories of queries, failures and clock advances up to the bound for each group type and two to three members.",
 "Preference is a property of the history of outcomes and timer expiries, not of any one call; timers are real-time in tests and hence barely exercised.",
 ["roundrobin.go", "failrotate.go", "failback.go", "random.go", "loadbalance.go"],
 [("turn counter", "roundrobin.go:Resolve"), ("reset timer", "failback.go"), ("reactivation", "random.go:reactivateLater"), ("remaining set", "loadbalance.go:Resolve")],
 "Sequence of members that receive queries under a virtual clock")

prop("P11", "Parallel groups return the first good response",
 "A group that asks all members at once returns the earliest response that is not an error or server failure, and a failure only after all members failed; it never waits for slower members once a good response arrived and never hangs or leaks a result to another query. When ordering answers by connection speed, the response contains exactly the records the upstream returned, with the address that connected first in front (or all sorted by connection time when waiting for all), and is unchanged when probing fails.",
 ["schedules", "fault_sequences"],
 "All interleavings of two to three member completions with every outcome per member, for one and two concurrent queries; all reachable/unreachable assignments of the returned addresses.",
 "Which response arrives first is a schedule; tests use sleeps that realise one ordering.",
 ["fastest.go", "fastest-tcp.go"],
 [("response collection", "fastest.go:Resolve"), ("probing", "fastest-tcp.go")],
 "Returned response against completion order of the scripted members")

prop("P12", "Queries follow the first matching route",
 "A router sends each query to the resolver of the first route, in configured order, all of whose conditions (types, class, name, source, client subnet, weekday, time of day, path, listener, server name) hold, with an inverted route matching exactly when the plain one would not, and fails the query if no route matches. The chosen resolver's result is returned unchanged.",
 ["inputs", "configurations"],
 "All routers of up to three routes built from the condition alphabet (each condition alone, combined and inverted) and all queries, clients and instants of the input alphabet.",
 "Tests check individual conditions; ordering, conjunction and inversion must hold for every combination of conditions and at every minute of the week.",
 ["router.go", "route.go"],
 [("first match", "router.go:Resolve"), ("condition evaluation", "route.go:match"), ("time of day comparison", "route.go:isBefore/isAfter")],
 "Which scripted resolver received the query, under a virtual clock")

prop("P13", "Name lists match exactly the names their rules describe",
 "A name is matched by a domain list exactly if some rule in it names it (plain rule: that name; leading dot: that name and everything below; leading star: everything below), by a hosts list exactly if it is listed, and by a regular-expression list exactly if an expression matches; case and rule order never change the outcome. Addresses and pointer names returned for spoofed names are exactly those in the list, and combined lists match when any part does.",
 ["inputs", "configurations"],
 "All rule sets up to three rules and all names up to depth four over a two-letter label alphabet in both cases, for every list format; all pairs of lists combined.",
 "Tests check a dozen names; rule interaction in the shared tree (a wider rule inserted before or after a narrower one) needs all rule sets in all orders.",
 ["blocklistdb-domain.go", "blocklistdb-hosts.go", "blocklistdb-regexp.go", "blocklistdb-multi.go", "blocklist.go"],
 [("label tree", "blocklistdb-domain.go"), ("hosts table", "blocklistdb-hosts.go"), ("list combination", "blocklistdb-multi.go")],
 "Whether the blocklist element blocks, spoofs or forwards the query")

prop("P14", "Address lists match exactly the addresses their networks contain",
 "An address matches a network list exactly if it lies within one of the listed networks, for IPv4 and IPv6 and any nesting or order of networks. Client lists decide on the asking client, response lists on the addresses in the response, and blocking, filtering, inverting and redirecting then act on exactly the matching queries or records.",
 ["inputs", "configurations"],
 "All sets of up to three networks from a nested prefix alphabet in all orders with all probe addresses around their boundaries; all small responses over the record alphabet with every list option.",
 "Tests probe a few addresses; nested prefixes inserted in different orders and boundary addresses form a space only enumeration covers.",
 ["cidr-db.go", "ip-blocklist-trie.go", "ip-db-multi.go", "client-blocklist.go", "response-blocklist-ip.go", "response-blocklist-name.go", "mac-db.go", "client-blocklist.go"],
 [("prefix tree", "ip-blocklist-trie.go"), ("family split", "cidr-db.go"), ("response filter", "response-blocklist-ip.go")],
 "Which resolver receives the query and which records remain in the response")

prop("P15", "List refresh is all-or-nothing and never interrupts service",
 "While a list is reloaded, every query is judged entirely by the old or entirely by the new rules, and once a reload has completed by the new ones. A reload that fails (unreadable source, bad rule, network error) keeps the previous rules in force and refreshing continues; optional sources that fail are treated as documented and fall back to their last good copy.",
 ["schedules", "fault_sequences", "histories"],
 "All interleavings of a refresh with one or two queries, for every list element, and all sequences of up to four load outcomes (good, changed, unreadable, bad rule) with and without failure tolerance and a local copy.",
 "The window between loading and publishing is tiny and refresh periods are long; tests never refresh while querying and seldom fail a reload.",
 ["blocklist.go", "client-blocklist.go", "response-blocklist-ip.go", "response-blocklist-name.go", "blocklistloader-local.go", "blocklistloader-http.go"],
 [("reload and publish", "blocklist.go:refreshLoopBlocklist"), ("publish", "client-blocklist.go"), ("publish", "response-blocklist-ip.go"), ("fallback", "blocklistloader-http.go")],
 "Blocking decision for each query relative to the refresh history")

prop("P16", "Rate limits admit exactly the configured number per window",
 "Within each time window at most the configured number of queries from one client network is passed on, and queries up to that number always are; further ones go to the alternative resolver or are dropped. Client networks are told apart by exactly the configured prefix, never affect one another, and counting starts afresh with each window, whatever the concurrency.",
 ["schedules", "histories", "configurations"],
 "All interleavings (bounded preemptions) of up to three concurrent queries around a window boundary, and all sequences of queries from several addresses and clock advances up to the bound, for each prefix length and limit in the alphabet.",
 "Exceeding the limit requires concurrent queries or a window change between two statements; tests are single-threaded within one window.",
 ["rate-limiter.go"],
 [("window and counters", "rate-limiter.go:Resolve"), ("client key", "rate-limiter.go:Resolve")],
 "Number of queries per client network reaching the upstream in each window")

prop("P17", "Queries and responses are private to their request",
 "Resolving a query through any pipeline of routers, groups, caches and modifiers changes neither the configured answers nor a response held for other requests, and the query that alternative branches or an error reply are built from still carries the client's ID, question and flags. Handling the same query again gives the same outcome whether or not the records, options and headers of the first query and response were changed in the meantime.",
 ["inputs", "histories", "configurations"],
 "All single elements, all pairs and a third of the triples of elements chained (thorough: all triples), with every query and upstream response of the shape alphabet, resolved three times with query and result overwritten in between.",
 "Aliasing bugs only show when a particular element combination modifies what another retained; tests check elements alone and once.",
 ["static.go", "static-template.go", "replace.go", "cache.go", "fastest.go", "ecs-modifier.go", "edns0-modifier.go", "dns64.go", "request-dedup.go", "response-blocklist-name.go"],
 [("record copies", "static.go:Resolve"), ("query copy", "replace.go:Resolve"), ("query copy per branch", "fastest.go:Resolve")],
 "Caller-visible query before and after, and first versus second response")

prop("P18", "Every received query ends in one matching reply or a deliberate drop",
 "For every well-formed query and every outcome of resolving it (answer of any shape, error, drop), each listener sends either exactly one reply carrying the query's ID and question or, for a drop, none, and stays in service; a failed resolution, or a response that cannot be encoded, becomes SERVFAIL. No query or upstream response, however odd, terminates the server or disturbs other clients' queries.",
 ["inputs", "fault_sequences", "configurations"],
 "All combinations of listener type (UDP, TCP, TLS, DTLS, HTTPS GET and POST, QUIC), query shape and resolution outcome from the alphabets, each followed by a plain query to confirm continued service.",
 "Tests exercise one happy-path exchange per listener; crashes hide in combinations of listener, query shape and upstream outcome.",
 ["dnslistener.go", "dotlistener.go", "dohlistener.go", "doqlistener.go", "dtlslistener.go", "message.go"],
 [("shared handler", "dnslistener.go:listenHandler"), ("HTTPS handler", "dohlistener.go"), ("QUIC stream handler", "doqlistener.go"), ("error replies", "message.go")],
 "Bytes on the client side of each listener")

prop("P19", "Replies fit the client's limits and are padded only where allowed",
 "A reply sent over a datagram listener never exceeds the size the client advertised (512 bytes if none or smaller), and carries the truncation flag exactly when records were left out here or by the upstream; stream replies are never cut. Padding is added only to replies over encrypted transports for clients that use EDNS0, in the recommended block sizes, never exceeds the client's limit, and is removed when a padded message goes out unencrypted.",
 ["inputs", "configurations"],
 "All combinations of transport, advertised size from the boundary alphabet, response size class (stepping across each boundary) and padding presence in query and response.",
 "Size handling is arithmetic over message length, advertised size and padding; only boundary enumeration across all transports settles it.",
 ["dnslistener.go", "padding.go", "dohlistener.go", "dnsclient.go", "dotclient.go"],
 [("truncation", "dnslistener.go:listenHandler"), ("response padding", "padding.go:padAnswer"), ("query padding", "padding.go:padQuery")],
 "Wire form of replies and upstream queries")

prop("P20", "Only permitted clients are served and identities cannot be forged",
 "A listener restricted to certain networks resolves queries from clients inside them and none from outside, on every transport. The client address used for rules is the transport peer's, except that an HTTP forwarding header is believed only when the peer is a configured proxy, and then only its last entry (unless that names a loopback address).",
 ["inputs", "configurations"],
 "All combinations of transport, allowed-network set, peer address, proxy network and forwarding header from the alphabets.",
 "Tests cover one allowed and one denied client on one transport; the guarantee spans every transport, address form and header combination.",
 ["dnslistener.go", "dohlistener.go", "doqlistener.go", "odohlistener.go", "resolver.go"],
 [("access check", "dnslistener.go:isAllowed"), ("client address from header", "dohlistener.go:extractClientAddress")],
 "Whether the scripted resolver is reached and the client address it is given")

prop("P21", "Response modifiers change exactly what they are configured to change",
 "TTL limits leave every record within the configured bounds and records already within them untouched (after applying the configured selection rule), collapsing keeps exactly the records of the asked type under the asked name, minimising keeps exactly the answer records, name replacement restores the original name in the question and on the answer records that carry the rewritten one in any spelling, and a truncated response is retried once on the alternative. Everything else in the response, and errors and drops, pass through unchanged.",
 ["inputs", "configurations"],
 "All modifiers with every option in the alphabet applied to all responses of up to three records over the record alphabet and every response code.",
 "Tests check one response per modifier; the guarantee ranges over all record combinations, sections and option settings.",
 ["ttl-modifier.go", "response-collapse.go", "response-minimize.go", "replace.go", "truncate-retry.go"],
 [("bounds", "ttl-modifier.go:Resolve"), ("collapse", "response-collapse.go:Resolve"), ("name mapping", "replace.go:Resolve")],
 "Response returned by the modifier compared with a reference transformation")

prop("P22", "EDNS client data leaves only as configured",
 "After the client-subnet element the outgoing query contains no client subnet (delete), exactly the client's or configured address cut to the configured prefix (add), or no more address bits than the configured prefix allows (privacy); other EDNS0 options, the rest of the query and the client's own copy of it are untouched and the result can always be sent. EDNS0 option rules likewise add or remove exactly the configured option codes.",
 ["inputs", "configurations"],
 "All modifier operations and prefix lengths from the alphabet applied to all queries with up to three EDNS0 options (subnets of both families and lengths, other options, none, no EDNS0) and all client addresses.",
 "A privacy leak shows only for particular combinations of existing options, address family and prefix length.",
 ["ecs-modifier.go", "edns0-modifier.go"],
 [("subnet operations", "ecs-modifier.go"), ("option operations", "edns0-modifier.go")],
 "Query received by the scripted upstream")

prop("P23", "IPv6 synthesis maps addresses correctly and only when needed",
 "When a name has IPv6 addresses the client receives those; when it has only IPv4 addresses the client receives exactly one synthesised IPv6 address per prefix and IPv4 address, embedded as standardised for that prefix length, with TTLs no longer than the originals. Synthesised records carry the name of the record they were made from, so alias chains and the truncation flag stay intact, and all other queries and outcomes pass unchanged.",
 ["inputs", "configurations"],
 "All prefix lengths and counts, all IPv4 addresses of a boundary alphabet, all combinations of the two upstream outcomes and other query types.",
 "Embedding differs per prefix length and each outcome combination has its own path; tests cover the common prefix only.",
 ["dns64.go"],
 [("embedding", "dns64.go"), ("fallback query", "dns64.go:Resolve")],
 "Response returned and queries reaching the scripted upstream")

prop("P24", "DNSSEC validation never accepts forged data for a signed zone",
 "When the chain of trust from the configured anchor covers a name, a response about it is passed on as valid only if its answer is the authentic, currently valid signed data or an authentic proof that the name or type does not exist. Whatever mixture of forged, stripped, altered, expired or replayed records the upstream supplies at any step, it is rejected with SERVFAIL instead of being passed on.",
 ["fault_sequences", "inputs", "histories"],
 "All responses an attacker can assemble from a bounded set of authentic and forged signed sets for a small zone tree (secure, insecure and wildcard parts) at each lookup step, for all queried names and types, with keys cached from earlier queries and expiring.",
 "Tests check individual attacks; soundness is over every combination of authentic pieces an attacker can replay.",
 ["dnssec/validator.go", "dnssec/denial.go", "dnssec/denial_existence.go", "dnssec/keystore.go", "dnssec.go"],
 [("chain of trust", "dnssec/validator.go"), ("denial proofs", "dnssec/denial.go"), ("key cache", "dnssec/keystore.go"), ("verdict handling", "dnssec.go:Resolve")],
 "Response returned by the validating element compared with the true zone content")

prop("P25", "DNSSEC validation accepts authentic responses",
 "Authentic responses from correctly signed zones are passed on with the authenticated flag, and responses from zones that are provably unsigned are passed on without it; only DNSSEC records the client did not ask for are removed. This holds in any query order, with keys cached or expired, and whenever the upstream fails a lookup and recovers.",
 ["inputs", "histories", "configurations"],
 "All names and types of the zone tree (existing, missing, empty, wildcard, alias, unsigned child) with both denial methods, all query orders up to the bound and key-cache expiry in between.",
 "Tests use one zone layout and a fresh validator; completeness spans zone shapes, denial methods and key-cache history.",
 ["dnssec/validator.go", "dnssec/denial.go", "dnssec/denial_existence.go", "dnssec/keystore.go", "dnssec.go"],
 [("chain of trust", "dnssec/validator.go"), ("record stripping", "dnssec.go:stripDNSSEC")],
 "Response returned by the validating element")

prop("P26", "Only complete, acyclic configurations start",
 "A configuration starts exactly if every element it references exists, names are unique, every element that needs others to forward to has one and no element depends on itself directly or indirectly; otherwise the program refuses to start and exits with an error. When it starts, each listener's queries are handled by exactly the elements configured, whatever the order in which they are written and in which files.",
 ["configurations"],
 "All dependency graphs of up to three elements with all edges and references to missing elements, in all orders and element kinds of the alphabet, split over one or two files. Naming the same element twice within one group may be accepted or refused.",
 "Tests load hand-written examples; acceptance is a graph property over all small graphs.",
 ["cmd/routedns/main.go", "cmd/routedns/config.go", "cmd/routedns/resolver.go"],
 [("dependency graph", "cmd/routedns/main.go"), ("configuration merge", "cmd/routedns/config.go")],
 "Exit or start of the program and the replies of its listeners")

prop("P27", "Namespace-bound listeners run exactly while their namespace exists",
 "A listener bound to a network namespace is started when the namespace appears, is stopped when it disappears, and is restarted when it is recreated, for every order and timing of appearance, disappearance, start failure and unexpected listener exit. There is never more than one instance running, and none is left running after its namespace has gone.",
 ["histories", "schedules", "fault_sequences"],
 "All sequences of up to four events (five in the thorough tier; appear, disappear, replace, start failure, listener failure, readiness failure) with all orders of concurrent completion.",
 "The supervisor is a state machine driven by asynchronous events; tests walk two paths through it.",
 ["cmd/routedns/main.go", "netns_watch_linux.go"],
 [("supervisor loop", "cmd/routedns/main.go:runNetNSSupervisor"), ("stop", "cmd/routedns/main.go:stopNetNSListener")],
 "Start and stop calls on scripted listeners")

prop("P28", "Scripts are confined and never share an interpreter",
 "A script cannot reach files, processes, the environment or code loading through any global, and a script that errors or returns malformed values yields an error for that query only. However many queries run concurrently, no interpreter instance executes two at once, each query gets its own result, and every query is eventually served.",
 ["schedules", "inputs", "fault_sequences"],
 "All interleavings of up to three concurrent queries over one and two interpreters with each script outcome, and every global name reachable from the script environment.",
 "Sharing an interpreter corrupts state only under a precise interleaving; confinement is a statement about every reachable global.",
 ["lua.go", "lua-script.go", "lua-resolver.go"],
 [("interpreter pool", "lua.go:Resolve"), ("sandbox", "lua-script.go")],
 "Results per query and overlap of script execution")

prop("P29", "Clients accept only genuine answers to their own query",
 "Whatever an upstream server sends back over HTTPS, QUIC, TLS, TCP or UDP (wrong ID or question, several messages, oversized or truncated bodies, error status, early close), the client either returns a well-formed response to exactly the query asked, carrying its ID, or an error, in bounded time. After any such failure the next query is answered normally once the server behaves.",
 ["fault_sequences", "inputs"],
 "All server misbehaviours of the alphabet at each exchange, in sequences of up to two exchanges, for each client transport and method.",
 "Tests talk to well-behaved servers; recovery depends on what state a particular misbehaviour leaves in the client.",
 ["dohclient.go", "doqclient.go", "dotclient.go", "dnsclient.go", "pipeline.go", "message.go", "odohclient.go"],
 [("response validation", "message.go:validateResponseQuestion"), ("connection reuse", "doqclient.go"), ("body limits", "dohclient.go")],
 "Results returned by the client against scripted loopback servers")

prop("P30", "A failing shared cache store never breaks resolution",
 "When the external cache store is unreachable, slow, full of foreign data or fails any operation, every query is still answered from the upstream in bounded time, and what is served from the store obeys the same isolation and lifetime rules as the built-in cache. Failed operations never crash the server or corrupt later answers.",
 ["fault_sequences", "histories", "inputs"],
 "All assignments of a fault (error reply, closed connection, silence, corrupt value, foreign value) to each store operation in histories of up to three queries.",
 "Tests run against a healthy or entirely absent store; each operation failing in each way at each position is a product space.",
 ["cache-redis.go", "cache.go", "cache-blob.go"],
 [("store and lookup", "cache-redis.go"), ("asynchronous write", "cache-redis.go")],
 "Responses given to clients against a scripted store")

prop("P31", "Encrypted peers are authenticated as configured",
 "A resolver using an encrypted transport only sends queries to, and accepts answers from, a server whose certificate is valid, issued by a configured authority and made out to the configured server name, or else to the name in the address, no matter whether a bootstrap or local address is used or which servers were seen at the address before. A listener that requires client certificates only serves clients with a valid certificate of a configured authority, and peers that satisfy the requirements are served. Settings that cannot be honoured (missing, empty or broken certificate files, client certificates required without an authority) keep the program from starting.",
 ["configurations", "inputs", "histories"],
 "All combinations of transport, trusted authorities, address form, server name, local address and peer certificate (right and wrong authority, name, validity, purpose and chain), all listener kinds with all client certificates, all histories of replaced servers up to the bound, and all broken settings.",
 "Tests use one valid set of certificates per transport; a peer that must be refused appears in hardly any of the combinations of transport, name and certificate.",
 ["tls.go", "dtls.go", "dotclient.go", "dtlsclient.go", "dohclient.go", "doqclient.go", "dnsclient.go", "cmd/routedns/resolver.go", "cmd/routedns/main.go"],
 [("client settings", "tls.go:TLSClientConfig"), ("server settings", "tls.go:TLSServerConfig"), ("DTLS settings", "dtls.go"), ("name to verify", "dnsclient.go:Dial"), ("name to verify over QUIC", "doqclient.go:NewDoQClient")],
 "Queries seen by servers and answers given by the running program over loopback")

prop("P32", "Fixed responders answer exactly as configured",
 "A static responder replies to every query with exactly the configured records, response code, truncation flag and extended error, the answer records under the name asked for, and a template responder with the records its templates produce for the query, where a template that fails or produces nothing is left out without affecting the others. Every response can be sent and none is affected by what was done to earlier ones, while the drop element never replies. Broken records and templates are refused at the start.",
 ["configurations", "inputs", "histories"],
 "All combinations of up to two (thorough: three) answer records or templates of an alphabet with authority, additional, response code, truncation and extended error settings, with all queries of an alphabet in sequence.",
 "Tests use one configuration each and look at one section of one response; combinations of sections, failing templates and repeated use are not reached.",
 ["static.go", "static-template.go", "template.go", "edns0ede.go", "drop.go"],
 [("fixed records", "static.go:Resolve"), ("templates", "static-template.go:processRRTemplates"), ("extended error", "edns0ede.go:Apply")],
 "Responses returned by the elements")

prop("P33", "Query logs are complete and change nothing",
 "Every query that passes a query log or syslog element is recorded once, with the client, name, class, type and client subnet (query log) or the request and each answer record selected by the settings (syslog), after whatever the log already contained. Query and response pass unmodified whatever the outcome is, also while the log server is away, and logging resumes when it is back.",
 ["configurations", "inputs", "fault_sequences"],
 "All queries and resolution outcomes of an alphabet through all formats and settings; all sequences up to the bound with the element restarted, or the log server up or down, at each point.",
 "Tests log one query to one server that is up; outcomes such as drops, mixed records or a lost server are not combined with the settings.",
 ["query-log.go", "syslog.go"],
 [("query log", "query-log.go:Resolve"), ("syslog", "syslog.go:Resolve")],
 "Log file content, messages received by a log server, and what the next element and the client see")

prop("P34", "Location and operator lists match exactly the listed identifiers",
 "A list of locations matches an address if and only if the record of the innermost network containing it in the database names a listed continent, country, subdivision or city; a list of operators matches on the listed operator numbers. The client blocklist refuses exactly the matching clients. A refresh uses the new rules and database, leaves the list in use intact, and reports broken or missing input.",
 ["configurations", "inputs", "histories"],
 "All databases of up to three nested networks, all rule lists of up to two (thorough: three) identifiers, all addresses at the edges of networks, before, during and after a refresh.",
 "There are no tests of these lists because no database is available; the check writes its own.",
 ["geoip-db.go", "asn-db.go", "client-blocklist.go"],
 [("location lookup", "geoip-db.go:Match"), ("operator lookup", "asn-db.go:Match"), ("refresh", "geoip-db.go:Reload")],
 "Match results and responses to clients")

prop("P35", "Sockets are handed out and taken over only as permitted",
 "The fd-server hands out exactly the IPv4 and IPv6 TCP and UDP sockets asked for, refuses everything else unless unrestricted, ends only the connection of a malformed request, takes over the path of a stale socket but never that of another file or of a running server, and leaves neither sockets nor files behind. Its clients use a socket only from a well-formed positive response, otherwise the query fails, the next one may succeed and no received socket is leaked. Listening sockets obtained this way are reachable exactly at the configured address and family.",
 ["inputs", "histories", "fault_sequences"],
 "All socket kinds of an alphabet in both modes, all sequences of up to three requests, all kinds of files at the path with all modes, all answers of a misbehaving server to both client transports, all networks and address forms of listeners.",
 "Tests request a few sockets over well-formed exchanges; leaks, malformed exchanges and files in the way have no test.",
 ["xsocketserver_linux.go", "xsocket_linux.go", "netns_linux.go"],
 [("allow-list", "xsocketserver_linux.go:allowedSocket"), ("stale sockets", "xsocketserver_linux.go:listen"), ("client", "xsocket_linux.go:xsocketGetFd"), ("addresses", "xsocket_linux.go:sockaddrFor")],
 "Descriptors and errors received over the Unix socket, open sockets of the process, files at the path, reachability over loopback")

for p in P: print(json.dumps(p, ensure_ascii=False))
