From 98369a7338926f16e0fdad26e083d17b86a84574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:15 +0000
Subject: [PATCH 01/49] fix: rate limiter could exceed the limit at a window
 boundary

The window was determined before taking the lock. A query delayed across
the boundary then reset the counters of the new window.
---
 rate-limiter.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rate-limiter.go b/rate-limiter.go
index 98b56f4..a040ce7 100644
--- a/rate-limiter.go
+++ b/rate-limiter.go
@@ -78,12 +78,14 @@ func (r *RateLimiter) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 	}
 	key := source.String()
 
-	// Calculate the current (fixed) window
-	windowID := time.Now().Unix() / int64(r.Window)
-
 	var reject bool
 	r.mu.Lock()
 
+	// Calculate the current (fixed) window. This has to happen under the lock,
+	// otherwise a query delayed across a window boundary would bring back the
+	// old window and discard the counters of the new one.
+	windowID := time.Now().Unix() / int64(r.Window)
+
 	// If we have moved on to the next window, re-initialize the counters
 	if windowID != r.currWinID {
 		r.currWinID = windowID
-- 
2.43.0


From da2232f01a563656a447cf883dbbcafce4f93d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:23:55 +0000
Subject: [PATCH 02/49] fix: cache answered NXDOMAIN for unrelated names with
 escaped dots

With harden-below-nxdomain the parent names were derived by splitting at
every dot, including dots escaped inside a label.
---
 cache.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cache.go b/cache.go
index 792130d..29a3a6e 100644
--- a/cache.go
+++ b/cache.go
@@ -4,7 +4,6 @@ import (
 	"expvar"
 	"math"
 	"math/rand"
-	"strings"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -303,9 +302,9 @@ func (r *Cache) answerFromCache(q *dns.Msg) (*dns.Msg, bool, bool) {
 	if r.HardenBelowNXDOMAIN {
 		name := q.Question[0].Name
 		newQ := q.Copy()
-		fragments := strings.Split(name, ".")
-		for i := 1; i < len(fragments)-1; i++ {
-			newQ.Question[0].Name = strings.Join(fragments[i:], ".")
+		labels := dns.Split(name) // label offsets, escaped dots don't separate labels
+		for i := 1; i < len(labels); i++ {
+			newQ.Question[0].Name = name[labels[i]:]
 			if a, _, ok := r.backend.Lookup(newQ); ok {
 				if a.Rcode == dns.RcodeNameError {
 					return nxdomain(q), false, true
-- 
2.43.0


From 0cffd4c79500ee204ec93d2c6723ac98af8532ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:29 +0000
Subject: [PATCH 03/49] fix: fail-back group could skip a working resolver when
 reset mid-query

A query being retried picked the group's active resolver again after the
reset timer fired. It then asked a failed resolver twice and gave up without
asking the remaining ones.
---
 failback.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/failback.go b/failback.go
index d66e9e5..05760ea 100644
--- a/failback.go
+++ b/failback.go
@@ -81,8 +81,10 @@ func (r *FailBack) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 		err error
 		a   *dns.Msg
 	)
+	tried := make([]bool, len(r.resolvers))
 	for i := 0; i < len(r.resolvers); i++ {
-		resolver, active := r.current(i)
+		resolver, active := r.current(i, tried)
+		tried[active] = true
 		log.With("resolver", resolver.String()).Debug("forwarding query to resolver")
 		r.metrics.route.Add(resolver.String(), 1)
 		a, err = resolver.Resolve(q, ci)
@@ -103,7 +105,7 @@ func (r *FailBack) String() string {
 }
 
 // Thread-safe method to return the currently active resolver.
-func (r *FailBack) current(attempt int) (Resolver, int) {
+func (r *FailBack) current(attempt int, tried []bool) (Resolver, int) {
 	// With ResetAfter set to 0, simply iterate through the list of
 	// resolvers on a per-request basis.
 	if r.opt.ResetAfter == 0 {
@@ -111,7 +113,13 @@ func (r *FailBack) current(attempt int) (Resolver, int) {
 	}
 	r.mu.RLock()
 	defer r.mu.RUnlock()
-	return r.resolvers[r.active], r.active
+	// The group may have been reset while this request was being retried. Skip
+	// over any resolvers that already failed it.
+	active := r.active
+	for tried[active] {
+		active = (active + 1) % len(r.resolvers)
+	}
+	return r.resolvers[active], active
 }
 
 // Fail over to the next available resolver after receiving an error from i (the active). We
-- 
2.43.0


From 1eaf2b6ecc576fbd42e8ed8b0e40765393fdc0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:29 +0000
Subject: [PATCH 04/49] fix: random group could retry a query forever

A failed resolver that came back while the query was still being retried was
picked again. With a short or zero reset time and slow resolvers the query
never ended.
---
 random.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/random.go b/random.go
index 6d648bb..d603476 100644
--- a/random.go
+++ b/random.go
@@ -3,6 +3,7 @@ package rdns
 import (
 	"errors"
 	"math/rand"
+	"slices"
 	"sync"
 	"time"
 
@@ -49,8 +50,9 @@ func NewRandom(id string, opt RandomOptions, resolvers ...Resolver) *Random {
 // Resolve a DNS query using a random resolver.
 func (r *Random) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 	log := logger(r.id, q, ci)
+	var failed []Resolver
 	for {
-		resolver := r.pick()
+		resolver := r.pick(failed)
 		if resolver == nil {
 			log.Warn("no active resolvers left")
 			return nil, errors.New("no active resolvers left")
@@ -66,6 +68,7 @@ func (r *Random) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 			"error", err)
 		r.metrics.failure.Add(resolver.String(), 1)
 		r.deactivate(resolver)
+		failed = append(failed, resolver)
 	}
 }
 
@@ -73,17 +76,24 @@ func (r *Random) String() string {
 	return r.id
 }
 
-// Pick a random resolver from the list of active ones.
-func (r *Random) pick() Resolver {
+// Pick a random resolver from the list of active ones. Resolvers that already
+// failed the request are not picked again, even if they were re-activated.
+func (r *Random) pick(failed []Resolver) Resolver {
 	r.mu.RLock()
 	defer r.mu.RUnlock()
 	available := len(r.resolvers)
 	r.metrics.available.Set(int64(available))
 	r.metrics.failover.Add(1)
-	if available == 0 {
+	candidates := make([]Resolver, 0, available)
+	for _, resolver := range r.resolvers {
+		if !slices.Contains(failed, resolver) {
+			candidates = append(candidates, resolver)
+		}
+	}
+	if len(candidates) == 0 {
 		return nil
 	}
-	return r.resolvers[rand.Intn(available)]
+	return candidates[rand.Intn(len(candidates))]
 }
 
 // Remove the resolver from the list of active ones and schedule it to
-- 
2.43.0


From 2fc085c4b87118e8f3128da194bfd5eee5d0cd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:57 +0000
Subject: [PATCH 05/49] fix: fastest group copied the query too late

Slow members copied the query in their own goroutine, possibly after the group
had returned and the caller was already changing it.
---
 fastest.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fastest.go b/fastest.go
index 0a2c58c..7165dba 100644
--- a/fastest.go
+++ b/fastest.go
@@ -37,10 +37,12 @@ func (r *Fastest) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 
 	// Send the query to all resolvers. The responses are collected in a buffered channel.
 	// Give each resolver its own copy of the query since modifiers down the chain
-	// modify the message in place, which would race between the branches.
+	// modify the message in place, which would race between the branches. The copy
+	// has to be made before returning since the caller can modify the query then.
 	for _, resolver := range r.resolvers {
+		query := q.Copy()
 		go func() {
-			a, err := resolver.Resolve(q.Copy(), ci)
+			a, err := resolver.Resolve(query, ci)
 			responseCh <- response{resolver, a, err}
 		}()
 	}
-- 
2.43.0


From f25301b5438f8e30eb87a70aa37d6fad56ce86d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:52 +0000
Subject: [PATCH 06/49] fix: fastest-tcp lost an address and duplicated another

Moving the fastest record to the front went on shifting past its original
position unless it was the last one, so the record after it was lost.
---
 fastest-tcp.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fastest-tcp.go b/fastest-tcp.go
index 1cd045e..693e300 100644
--- a/fastest-tcp.go
+++ b/fastest-tcp.go
@@ -149,10 +149,10 @@ func (r *FastestTCP) probeFastest(log queryLogger, rrs []dns.RR) ([]dns.RR, erro
 		rr := res.rr
 		err := res.err
 		for i := range rrs {
-			if rrs[i] == rr {
+			rrs[i], rr = rr, rrs[i]
+			if rr == res.rr {
 				return rrs, err
 			}
-			rrs[i], rr = rr, rrs[i]
 		}
 		return rrs, err
 	case <-ctx.Done():
-- 
2.43.0


From fd043eacb0afe3ba5d92a80fbe77f030a15bb0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:46 +0000
Subject: [PATCH 07/49] fix: domain lists matched unrelated names with escaped
 dots

A dot inside a label was taken for a label separator. A name whose
single label contains a dot was matched by rules for the part after it.
---
 blocklistdb-domain.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/blocklistdb-domain.go b/blocklistdb-domain.go
index e036144..c676570 100644
--- a/blocklistdb-domain.go
+++ b/blocklistdb-domain.go
@@ -184,7 +184,10 @@ func (m *DomainDB) Match(msg *dns.Msg) ([]net.IP, []string, *BlocklistMatch, boo
 	q := msg.Question[0]
 	s := strings.ToLower(strings.TrimSuffix(q.Name, "."))
 	var matched []string
-	parts := strings.Split(s, ".")
+	parts := dns.SplitDomainName(s) // labels can contain escaped dots
+	if len(parts) == 0 {
+		parts = []string{""}
+	}
 	n := m.root
 	for i := len(parts) - 1; i >= 0; i-- {
 		part := parts[i]
-- 
2.43.0


From 673d16dba51d24c482f162e4a2fa15d71ef28d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:46 +0000
Subject: [PATCH 08/49] fix: empty lines in domain lists matched the root name

A blank line was stored as a rule for the root. Queries for the root
were blocked by any list containing a blank line.
---
 blocklistdb-domain.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blocklistdb-domain.go b/blocklistdb-domain.go
index c676570..ecdb379 100644
--- a/blocklistdb-domain.go
+++ b/blocklistdb-domain.go
@@ -69,6 +69,9 @@ func newDomainDB(name string, loader BlocklistLoader, includeSubdomains bool) (*
 	root := make(node)
 	for _, r := range rules {
 		r = strings.TrimSpace(r)
+		if r == "" {
+			continue
+		}
 
 		// Strip trailing . in case the list has FQDN names with . suffixes.
 		r = strings.TrimSuffix(r, ".")
-- 
2.43.0


From 67965103eab0682e0fff4960407fa2b151dcf2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:46 +0000
Subject: [PATCH 09/49] fix: networks in IPv4-mapped notation never matched

The network was added to the IPv4 tree with its 128-bit form. It did
not match its own addresses and could match 0.0.0.0 instead.
---
 cidr-db.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cidr-db.go b/cidr-db.go
index 611a9a0..bd832db 100644
--- a/cidr-db.go
+++ b/cidr-db.go
@@ -41,14 +41,16 @@ func NewCidrDB(name string, loader BlocklistLoader) (*CidrDB, error) {
 				r += "/128"
 			}
 		}
-		ip, n, err := net.ParseCIDR(r)
+		_, n, err := net.ParseCIDR(r)
 		if err != nil {
 			return nil, err
 		}
-		if addr := ip.To4(); addr == nil {
+		if addr := n.IP.To4(); addr == nil {
 			db.ip6.add(n)
 		} else {
-			db.ip4.add(n)
+			// Networks in IPv4-mapped notation have a 128-bit mask
+			ones, bits := n.Mask.Size()
+			db.ip4.add(&net.IPNet{IP: addr, Mask: net.CIDRMask(ones-(bits-32), 32)})
 		}
 	}
 	return db, nil
-- 
2.43.0


From 544b738bd7089c1b8f1fc7260972a8ea920f6791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:46 +0000
Subject: [PATCH 10/49] fix: response filter turned empty answers into NXDOMAIN

A response without answer records was treated like one whose records
were all filtered. A name with only IPv4 addresses then appeared not to
exist when asked for its IPv6 addresses.
---
 response-blocklist-ip.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/response-blocklist-ip.go b/response-blocklist-ip.go
index 698c3a5..d4c2dcd 100644
--- a/response-blocklist-ip.go
+++ b/response-blocklist-ip.go
@@ -148,9 +148,10 @@ func (r *ResponseBlocklistIP) blockIfMatch(query, answer *dns.Msg, ci ClientInfo
 }
 
 func (r *ResponseBlocklistIP) filterMatch(query, answer *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
+	records := len(answer.Answer)
 	answer.Answer = r.filterRR(query, ci, answer.Answer)
 	// If there's nothing left after applying the filter, return NXDOMAIN or send to the alternative resolver
-	if len(answer.Answer) == 0 {
+	if records > 0 && len(answer.Answer) == 0 {
 		log := Log.With("qname", qName(query))
 		if r.BlocklistResolver != nil {
 			log.With(slog.String("resolver", r.BlocklistResolver.String())).Debug("no answers after filtering, forwarding to blocklist-resolver")
-- 
2.43.0


From 8f8d2cac7315931145710af4a0e7e9c0fa49a6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:00 +0000
Subject: [PATCH 11/49] fix: single addresses in IPv4-mapped notation got a /32
 mask

The address was taken for IPv4 because it contains dots. The rule then
covered 2^96 IPv6 addresses instead of one.
---
 cidr-db.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cidr-db.go b/cidr-db.go
index bd832db..76140ae 100644
--- a/cidr-db.go
+++ b/cidr-db.go
@@ -35,10 +35,10 @@ func NewCidrDB(name string, loader BlocklistLoader) (*CidrDB, error) {
 		}
 		// Append a mask suffix if there isn't one already
 		if !strings.Contains(r, "/") {
-			if strings.Contains(r, ".") { // ip4
-				r += "/32"
-			} else if strings.Contains(r, ":") { // ip6
+			if strings.Contains(r, ":") { // ip6, can end in a dotted ip4
 				r += "/128"
+			} else if strings.Contains(r, ".") { // ip4
+				r += "/32"
 			}
 		}
 		_, n, err := net.ParseCIDR(r)
-- 
2.43.0


From 22ca1d82f9ce38d01fc70c75c1f15c2389b72f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:59 +0000
Subject: [PATCH 12/49] fix: response lists judged one response by two rule
 sets

Each record was matched separately, so a list refresh in between could
mix old and new rules. A response blocked by both could pass.
---
 response-blocklist-ip.go   | 83 +++++++++++++++++++++-----------------
 response-blocklist-name.go | 76 +++++++++++++++++-----------------
 2 files changed, 86 insertions(+), 73 deletions(-)

diff --git a/response-blocklist-ip.go b/response-blocklist-ip.go
index d4c2dcd..a363d93 100644
--- a/response-blocklist-ip.go
+++ b/response-blocklist-ip.go
@@ -82,13 +82,30 @@ func (r *ResponseBlocklistIP) String() string {
 	return r.id
 }
 
-// Match the IP against the blocklist while holding the lock. The refresh
-// loop closes the old database after swapping in a new one, so the match
-// must complete under the lock to never use a closed database.
-func (r *ResponseBlocklistIP) match(ip net.IP) (*BlocklistMatch, bool) {
+// Find the first IP in the answer that should be blocked. All records are
+// matched while holding the lock, so they're judged by the same rules. The
+// refresh loop closes the old database after swapping in a new one, so the
+// match must complete under the lock to never use a closed database.
+func (r *ResponseBlocklistIP) match(answer *dns.Msg) (net.IP, *BlocklistMatch, bool) {
 	r.mu.RLock()
 	defer r.mu.RUnlock()
-	return r.BlocklistDB.Match(ip)
+	for _, records := range [][]dns.RR{answer.Answer, answer.Ns, answer.Extra} {
+		for _, rr := range records {
+			var ip net.IP
+			switch r := rr.(type) {
+			case *dns.A:
+				ip = r.A
+			case *dns.AAAA:
+				ip = r.AAAA
+			default:
+				continue
+			}
+			if match, ok := r.BlocklistDB.Match(ip); ok != r.Inverted {
+				return ip, match, true
+			}
+		}
+	}
+	return nil, nil, false
 }
 
 func (r *ResponseBlocklistIP) refreshLoopBlocklist(refresh time.Duration) {
@@ -114,42 +131,35 @@ func (r *ResponseBlocklistIP) refreshLoopBlocklist(refresh time.Duration) {
 }
 
 func (r *ResponseBlocklistIP) blockIfMatch(query, answer *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
-	for _, records := range [][]dns.RR{answer.Answer, answer.Ns, answer.Extra} {
-		for _, rr := range records {
-			var ip net.IP
-			switch r := rr.(type) {
-			case *dns.A:
-				ip = r.A
-			case *dns.AAAA:
-				ip = r.AAAA
-			default:
-				continue
-			}
-			if match, ok := r.match(ip); ok != r.Inverted {
-				log := logger(r.id, query, ci).With(
-					slog.String("list", match.GetList()),
-					slog.String("rule", match.GetRule()),
-					slog.String("ip", ip.String()),
-				)
-				if r.BlocklistResolver != nil {
-					log.With(slog.String("resolver", r.BlocklistResolver.String())).Debug("blocklist match, forwarding to blocklist-resolver")
-					return r.BlocklistResolver.Resolve(query, ci)
-				}
-				log.Debug("blocking response")
-				answer = nxdomain(query)
-				if err := r.EDNS0EDETemplate.Apply(answer, EDNS0EDEInput{query, match}); err != nil {
-					log.Warn("failed to apply edns0ede template", "error", err)
-				}
-				return answer, nil
-			}
-		}
+	ip, match, ok := r.match(answer)
+	if !ok {
+		return answer, nil
+	}
+	log := logger(r.id, query, ci).With(
+		slog.String("list", match.GetList()),
+		slog.String("rule", match.GetRule()),
+		slog.String("ip", ip.String()),
+	)
+	if r.BlocklistResolver != nil {
+		log.With(slog.String("resolver", r.BlocklistResolver.String())).Debug("blocklist match, forwarding to blocklist-resolver")
+		return r.BlocklistResolver.Resolve(query, ci)
+	}
+	log.Debug("blocking response")
+	answer = nxdomain(query)
+	if err := r.EDNS0EDETemplate.Apply(answer, EDNS0EDEInput{query, match}); err != nil {
+		log.Warn("failed to apply edns0ede template", "error", err)
 	}
 	return answer, nil
 }
 
 func (r *ResponseBlocklistIP) filterMatch(query, answer *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 	records := len(answer.Answer)
+	// Filter all sections under one lock, so they're judged by the same rules
+	r.mu.RLock()
 	answer.Answer = r.filterRR(query, ci, answer.Answer)
+	answer.Ns = r.filterRR(query, ci, answer.Ns)
+	answer.Extra = r.filterRR(query, ci, answer.Extra)
+	r.mu.RUnlock()
 	// If there's nothing left after applying the filter, return NXDOMAIN or send to the alternative resolver
 	if records > 0 && len(answer.Answer) == 0 {
 		log := Log.With("qname", qName(query))
@@ -160,11 +170,10 @@ func (r *ResponseBlocklistIP) filterMatch(query, answer *dns.Msg, ci ClientInfo)
 		log.Debug("no answers after filtering, blocking response")
 		return nxdomain(query), nil
 	}
-	answer.Ns = r.filterRR(query, ci, answer.Ns)
-	answer.Extra = r.filterRR(query, ci, answer.Extra)
 	return answer, nil
 }
 
+// Remove the records to be filtered. Must be called with the lock held.
 func (r *ResponseBlocklistIP) filterRR(query *dns.Msg, ci ClientInfo, rrs []dns.RR) []dns.RR {
 	newRRs := make([]dns.RR, 0, len(rrs))
 	for _, rr := range rrs {
@@ -178,7 +187,7 @@ func (r *ResponseBlocklistIP) filterRR(query *dns.Msg, ci ClientInfo, rrs []dns.
 			newRRs = append(newRRs, rr)
 			continue
 		}
-		if match, ok := r.match(ip); ok != r.Inverted {
+		if match, ok := r.BlocklistDB.Match(ip); ok != r.Inverted {
 			log := logger(r.id, query, ci).With(
 				slog.String("list", match.GetList()),
 				slog.String("rule", match.GetRule()),
diff --git a/response-blocklist-name.go b/response-blocklist-name.go
index f656afc..acbd9fb 100644
--- a/response-blocklist-name.go
+++ b/response-blocklist-name.go
@@ -61,32 +61,12 @@ func (r *ResponseBlocklistName) String() string {
 	return r.id
 }
 
-// Match the name against the blocklist while holding the lock to
-// synchronize with the refresh loop swapping the database.
-func (r *ResponseBlocklistName) match(msg *dns.Msg) (*BlocklistMatch, bool) {
+// Find the first record in the answer that should be blocked. All records are
+// matched while holding the lock to synchronize with the refresh loop swapping
+// the database, so they're judged by the same rules.
+func (r *ResponseBlocklistName) match(answer *dns.Msg) (*BlocklistMatch, bool) {
 	r.mu.RLock()
 	defer r.mu.RUnlock()
-	_, _, match, ok := r.BlocklistDB.Match(msg)
-	return match, ok
-}
-
-func (r *ResponseBlocklistName) refreshLoopBlocklist(refresh time.Duration) {
-	for {
-		time.Sleep(refresh)
-		log := Log.With("id", r.id)
-		log.Debug("reloading blocklist")
-		db, err := r.BlocklistDB.Reload()
-		if err != nil {
-			log.Error("failed to load rules", "error", err)
-			continue
-		}
-		r.mu.Lock()
-		r.BlocklistDB = db
-		r.mu.Unlock()
-	}
-}
-
-func (r *ResponseBlocklistName) blockIfMatch(query, answer *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 	for _, records := range [][]dns.RR{answer.Answer, answer.Ns, answer.Extra} {
 		for _, rr := range records {
 			var name string
@@ -114,21 +94,45 @@ func (r *ResponseBlocklistName) blockIfMatch(query, answer *dns.Msg, ci ClientIn
 			}
 			msg := new(dns.Msg)
 			msg.SetQuestion(name, 0)
-			if rule, ok := r.match(msg); ok != r.Inverted {
-				log := logger(r.id, query, ci).With("rule", rule.GetRule())
-				if r.BlocklistResolver != nil {
-					log.Debug("blocklist match, forwarding to blocklist-resolver", "resolver", r.BlocklistResolver)
-					return r.BlocklistResolver.Resolve(query, ci)
-				}
-				log.Debug("blocking response")
-				answer = nxdomain(query)
-				if err := r.EDNS0EDETemplate.Apply(answer, EDNS0EDEInput{query, rule}); err != nil {
-					log.Warn("failed to apply edns0ede template", "error", err)
-				}
-				return answer, nil
+			if _, _, rule, ok := r.BlocklistDB.Match(msg); ok != r.Inverted {
+				return rule, true
 			}
 		}
 	}
+	return nil, false
+}
+
+func (r *ResponseBlocklistName) refreshLoopBlocklist(refresh time.Duration) {
+	for {
+		time.Sleep(refresh)
+		log := Log.With("id", r.id)
+		log.Debug("reloading blocklist")
+		db, err := r.BlocklistDB.Reload()
+		if err != nil {
+			log.Error("failed to load rules", "error", err)
+			continue
+		}
+		r.mu.Lock()
+		r.BlocklistDB = db
+		r.mu.Unlock()
+	}
+}
+
+func (r *ResponseBlocklistName) blockIfMatch(query, answer *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
+	rule, ok := r.match(answer)
+	if !ok {
+		return answer, nil
+	}
+	log := logger(r.id, query, ci).With("rule", rule.GetRule())
+	if r.BlocklistResolver != nil {
+		log.Debug("blocklist match, forwarding to blocklist-resolver", "resolver", r.BlocklistResolver)
+		return r.BlocklistResolver.Resolve(query, ci)
+	}
+	log.Debug("blocking response")
+	answer = nxdomain(query)
+	if err := r.EDNS0EDETemplate.Apply(answer, EDNS0EDEInput{query, rule}); err != nil {
+		log.Warn("failed to apply edns0ede template", "error", err)
+	}
 	return answer, nil
 }
 
-- 
2.43.0


From efad17e848fd11939532327d7ce345ef0dc7d4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:08:54 +0000
Subject: [PATCH 13/49] fix: fail only the query that can't be encoded, not the
 shared connection

A query that can't be packed made the connection writer close the connection.
Every other query in flight on it then failed as well.
---
 pipeline.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pipeline.go b/pipeline.go
index a01a94c..9739433 100644
--- a/pipeline.go
+++ b/pipeline.go
@@ -110,7 +110,17 @@ func (c *Pipeline) start() {
 					}
 					log.With("qname", qName(query)).Debug("sending query")
 					c.metrics.query.Add(1)
-					if err := conn.WriteMsg(query); err != nil {
+					// A query that can't be encoded only fails itself. There's nothing
+					// wrong with the connection, which other queries may be using.
+					b, err := query.Pack()
+					if err != nil {
+						if c.inFlight.get(query) != nil {
+							req.markDone(nil, err)
+						}
+						c.metrics.err.Add("send_query", 1)
+						continue
+					}
+					if _, err := conn.Write(b); err != nil {
 						// Take the request back out of the in-flight queue before
 						// completing it. The reader matches responses by ID and
 						// completes whatever request it finds there; completing a
-- 
2.43.0


From 540876ca28b2f1d915d964a0288ea12fbf36eb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:01 +0000
Subject: [PATCH 14/49] fix: replace didn't restore names that came back in
 another case

DNS names are case-insensitive. A cache or an upstream can return the answer
in the spelling of an earlier query. Records then kept the internal name.
---
 replace.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/replace.go b/replace.go
index 9a42dc3..e6da0d6 100644
--- a/replace.go
+++ b/replace.go
@@ -2,6 +2,7 @@ package rdns
 
 import (
 	"regexp"
+	"strings"
 
 	"github.com/miekg/dns"
 )
@@ -87,7 +88,7 @@ func (r *Replace) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 	// Now put the original name in all answer records that have the
 	// new name
 	for _, answer := range a.Answer {
-		if answer.Header().Name == newName {
+		if strings.EqualFold(answer.Header().Name, newName) {
 			answer.Header().Name = oldName
 		}
 	}
-- 
2.43.0


From 1a30ef343b4fcf577028ede475b7121a66078954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:04 +0000
Subject: [PATCH 15/49] fix: dns64 broke alias chains

Synthesised AAAA records were given the queried name. Behind an alias they
belong to the name of the A record they were made from.
---
 dns64.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dns64.go b/dns64.go
index 7317eb2..0228223 100644
--- a/dns64.go
+++ b/dns64.go
@@ -168,7 +168,7 @@ func (r *DNS64) synthesizeAAAA(aAnswer *dns.Msg, question dns.Question) []dns.RR
 				ipv6 := synthesizeIPv6(prefix, ipv4)
 				aaaa = append(aaaa, &dns.AAAA{
 					Hdr: dns.RR_Header{
-						Name:   question.Name,
+						Name:   rec.Hdr.Name,
 						Rrtype: dns.TypeAAAA,
 						Class:  question.Qclass,
 						Ttl:    rec.Hdr.Ttl,
-- 
2.43.0


From a0772187b4828f32c2256a56491a8f351232e95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:06 +0000
Subject: [PATCH 16/49] fix: dns64 presented truncated answers as complete

The truncation flag of the A response was dropped. Clients did not retry over
TCP and elements such as caches treated the partial answer as complete.
---
 dns64.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dns64.go b/dns64.go
index 0228223..d3fa16e 100644
--- a/dns64.go
+++ b/dns64.go
@@ -139,6 +139,7 @@ func (r *DNS64) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 	resp := new(dns.Msg)
 	resp.SetReply(q)
 	resp.RecursionAvailable = answer.RecursionAvailable
+	resp.Truncated = aAnswer.Truncated
 	resp.Answer = synthesized
 	resp.Ns = aAnswer.Ns
 	resp.Extra = aAnswer.Extra
-- 
2.43.0


From b47a66ef4f50366fc5234ecda455367b7c4624c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:09 +0000
Subject: [PATCH 17/49] fix: ecs add made unencodable queries when the client
 address is unknown

Queries from listeners that don't know the client, such as ODoH, got a subnet
option without an address. They could not be sent and failed.
---
 ecs-modifier.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecs-modifier.go b/ecs-modifier.go
index 1516145..4903f25 100644
--- a/ecs-modifier.go
+++ b/ecs-modifier.go
@@ -78,6 +78,9 @@ func ECSModifierAdd(addr net.IP, prefix4, prefix6 uint8) ECSModifierFunc {
 		if sourceIP == nil {
 			sourceIP = ci.SourceIP
 		}
+		if sourceIP == nil {
+			return // Address of the client isn't known, nothing to add
+		}
 
 		var (
 			family uint16
-- 
2.43.0


From b902ca0d48278091999a27f2588811899e528c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:15 +0000
Subject: [PATCH 18/49] fix: doq listener crashed when a query was dropped

Resolvers return no response for queries that are to be dropped. The DoQ
listener tried to encode it, which ended the whole process.
---
 doqlistener.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/doqlistener.go b/doqlistener.go
index 7c6458e..66b5676 100644
--- a/doqlistener.go
+++ b/doqlistener.go
@@ -268,6 +268,12 @@ func (s *DoQListener) handleStream(stream *quic.Stream, connection *quic.Conn, c
 		a.SetRcode(q, dns.RcodeServerFailure)
 	}
 
+	// A nil response from the resolvers means "drop", close the stream
+	if a == nil {
+		s.metrics.drop.Add(1)
+		return
+	}
+
 	p, err := a.Pack()
 	if err != nil {
 		log.Warn("failed to encode response", "error", err)
-- 
2.43.0


From 7ff19140367716331433d9975291f0ac5f2d666a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:18 +0000
Subject: [PATCH 19/49] fix: udp listeners with an ip-version didn't truncate
 responses

With ip-version set the protocol is udp4 or udp6. The size limit was only
applied to udp, so replies larger than the client accepts were sent.
---
 dnslistener.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dnslistener.go b/dnslistener.go
index b93a6d8..559dbfd 100644
--- a/dnslistener.go
+++ b/dnslistener.go
@@ -37,7 +37,7 @@ func NewDNSListener(id, addr, net string, opt ListenOptions, resolver Resolver)
 		Server: &dns.Server{
 			Addr:    addr,
 			Net:     net,
-			Handler: listenHandler(id, net, addr, resolver, opt.AllowedNet),
+			Handler: listenHandler(id, strings.TrimRight(net, "46"), addr, resolver, opt.AllowedNet),
 		},
 		opt: opt,
 	}
-- 
2.43.0


From 9b238b8838be5f9c113426cec37edc9258a50f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:23 +0000
Subject: [PATCH 20/49] fix: padding from upstream was passed to clients
 without EDNS0

Over DTLS it takes space from records. Those were then left out of replies
that would have fit.
---
 padding.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/padding.go b/padding.go
index f6b6841..19f6854 100644
--- a/padding.go
+++ b/padding.go
@@ -17,6 +17,7 @@ var queryPadBuf [QueryPaddingBlockSize]byte
 func padAnswer(q, a *dns.Msg) {
 	edns0q := q.IsEdns0()
 	if edns0q == nil { // Don't pad if the client does not support EDNS0
+		stripPadding(a)
 		return
 	}
 
-- 
2.43.0


From a0307f0bbe012021f42786f50693198d9c7e7338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:26 +0000
Subject: [PATCH 21/49] fix: no reply when a response can't be encoded

Some responses cannot be encoded, for instance with an extended response code
after the EDNS0 record was removed. Clients were left waiting. They now get
SERVFAIL.
---
 dnslistener.go  |  7 ++++++-
 dohlistener.go  |  2 +-
 doqlistener.go  |  2 +-
 message.go      | 11 +++++++++++
 odohlistener.go |  2 +-
 5 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/dnslistener.go b/dnslistener.go
index 559dbfd..f823dab 100644
--- a/dnslistener.go
+++ b/dnslistener.go
@@ -155,7 +155,12 @@ func listenHandler(id, protocol, addr string, r Resolver, allowedNet []*net.IPNe
 		}
 
 		metrics.response.Add(rCode(a), 1)
-		_ = w.WriteMsg(a)
+		out, err := packResponse(req, a)
+		if err != nil {
+			metrics.err.Add("pack", 1)
+			return
+		}
+		_, _ = w.Write(out)
 	}
 }
 
diff --git a/dohlistener.go b/dohlistener.go
index eb89737..7b1737a 100644
--- a/dohlistener.go
+++ b/dohlistener.go
@@ -384,7 +384,7 @@ func (s *DoHListener) parseAndRespond(b []byte, w http.ResponseWriter, r *http.R
 	padAnswer(q, a)
 
 	s.metrics.response.Add(rCode(a), 1)
-	out, err := a.Pack()
+	out, err := packResponse(q, a)
 	if err != nil {
 		s.metrics.err.Add("pack", 1)
 		http.Error(w, err.Error(), http.StatusInternalServerError)
diff --git a/doqlistener.go b/doqlistener.go
index 66b5676..4b47aba 100644
--- a/doqlistener.go
+++ b/doqlistener.go
@@ -274,7 +274,7 @@ func (s *DoQListener) handleStream(stream *quic.Stream, connection *quic.Conn, c
 		return
 	}
 
-	p, err := a.Pack()
+	p, err := packResponse(q, a)
 	if err != nil {
 		log.Warn("failed to encode response", "error", err)
 		s.metrics.err.Add("encode", 1)
diff --git a/message.go b/message.go
index 8a83fb0..6e5f52b 100644
--- a/message.go
+++ b/message.go
@@ -90,6 +90,17 @@ func responseWithCode(q *dns.Msg, rcode int) *dns.Msg {
 	return a
 }
 
+// Encodes the response to a query. Answers with SERVFAIL if that's not possible,
+// such as when it has an extended response code but no EDNS0 record.
+func packResponse(q, a *dns.Msg) ([]byte, error) {
+	b, err := a.Pack()
+	if err != nil {
+		Log.Warn("failed to encode response", "error", err)
+		return servfail(q).Pack()
+	}
+	return b, nil
+}
+
 // Answers a PTR query with a name
 func ptr(q *dns.Msg, names []string) *dns.Msg {
 	a := new(dns.Msg)
diff --git a/odohlistener.go b/odohlistener.go
index c315081..6db5927 100644
--- a/odohlistener.go
+++ b/odohlistener.go
@@ -249,7 +249,7 @@ func (s *ODoHListener) ODoHqueryHandler(w http.ResponseWriter, r *http.Request)
 		return
 	}
 
-	p, err := a.Pack()
+	p, err := packResponse(q, a)
 	if err != nil {
 		Log.Error("failed to encode response", "error", err)
 		return
-- 
2.43.0


From 71577a6366b104b7477431fed581d1a748e852a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:30 +0000
Subject: [PATCH 22/49] fix: large responses were lost on stream listeners

Responses are sent uncompressed. One that only fits the maximum message size
with compression could not be sent at all. Compress those.
---
 message.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/message.go b/message.go
index 6e5f52b..6547fbe 100644
--- a/message.go
+++ b/message.go
@@ -1,6 +1,7 @@
 package rdns
 
 import (
+	"errors"
 	"fmt"
 	"strconv"
 	"strings"
@@ -93,7 +94,13 @@ func responseWithCode(q *dns.Msg, rcode int) *dns.Msg {
 // Encodes the response to a query. Answers with SERVFAIL if that's not possible,
 // such as when it has an extended response code but no EDNS0 record.
 func packResponse(q, a *dns.Msg) ([]byte, error) {
+	if a.Len() > dns.MaxMsgSize {
+		a.Compress = true
+	}
 	b, err := a.Pack()
+	if err == nil && len(b) > dns.MaxMsgSize {
+		err = errors.New("message too large")
+	}
 	if err != nil {
 		Log.Warn("failed to encode response", "error", err)
 		return servfail(q).Pack()
-- 
2.43.0


From 0c83be0a362bfbcc628fee42c6908acff63075e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:44 +0000
Subject: [PATCH 23/49] fix: odoh listeners ignored allowed-net

Oblivious queries and proxy requests were accepted from any client even when
the listener is restricted to certain networks.
---
 odohlistener.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/odohlistener.go b/odohlistener.go
index 6db5927..4ce8a4b 100644
--- a/odohlistener.go
+++ b/odohlistener.go
@@ -114,6 +114,10 @@ func (s *ODoHListener) ODoHproxyHandler(w http.ResponseWriter, r *http.Request)
 		http.Error(w, "only POST allowed", http.StatusMethodNotAllowed)
 		return
 	}
+	if !isAllowed(s.opt.AllowedNet, s.doh.extractClientAddress(r)) {
+		http.Error(w, http.StatusText(http.StatusForbidden), http.StatusForbidden)
+		return
+	}
 	contentType := r.Header.Get("Content-Type")
 	if contentType == "" || contentType != ODOH_CONTENT_TYPE {
 		http.Error(w, "invalid or missing Content-Type", http.StatusBadRequest)
@@ -199,6 +203,11 @@ func (s *ODoHListener) ODoHqueryHandler(w http.ResponseWriter, r *http.Request)
 		}
 	}
 
+	if !isAllowed(s.opt.AllowedNet, s.doh.extractClientAddress(r)) {
+		http.Error(w, http.StatusText(http.StatusForbidden), http.StatusForbidden)
+		return
+	}
+
 	if qHeader != ODOH_CONTENT_TYPE {
 		http.Error(w, "only contentType oblivious-dns-message allowed", http.StatusMethodNotAllowed)
 		return
-- 
2.43.0


From 94847bfb9dfc93fd4e8aea536480b0d904df76a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:08:35 +0000
Subject: [PATCH 24/49] fix: lua stack leak when a script returns an
 unsupported type

When the second value returned by Resolve() has an unsupported type, the
first one was left on the interpreter's stack. After about 5000 such
queries the stack is full and every later query fails with a registry
overflow. Remove all return values from the stack in all cases.
---
 lua-script.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lua-script.go b/lua-script.go
index eb9c10e..87dd4f3 100644
--- a/lua-script.go
+++ b/lua-script.go
@@ -89,12 +89,14 @@ func (s *LuaScript) Call(fnName string, nret int, params ...any) ([]any, error)
 		return nil, fmt.Errorf("failed to call lua: %w", err)
 	}
 
+	// Take all the return values off the stack, it's not cleared between calls
+	defer s.L.SetTop(s.L.GetTop() - nret)
+
 	// Grab return values from the stack and add them to the result slice
 	// in reverse order
 	ret := make([]any, nret)
 	for i := range slices.Backward(ret) {
-		lv := s.L.Get(-1)
-		s.L.Pop(1)
+		lv := s.L.Get(i - nret)
 
 		var v any
 
-- 
2.43.0


From 39aa216555f782097f715c64d218253875974477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:23:21 +0000
Subject: [PATCH 25/49] fix: DoH and ODoH responses didn't carry the ID of the
 query

---
 dohclient.go  | 3 +++
 odohclient.go | 1 +
 2 files changed, 4 insertions(+)

diff --git a/dohclient.go b/dohclient.go
index 53a4297..e8806ce 100644
--- a/dohclient.go
+++ b/dohclient.go
@@ -309,6 +309,9 @@ func (d *DoHClient) responseFromHTTP(q *dns.Msg, resp *http.Response) (*dns.Msg,
 		d.metrics.err.Add("unpack", 1)
 		return nil, err
 	}
+	// HTTP matches the response to the query, the ID is usually 0 and may be
+	// that of a cached response. Restore it.
+	a.Id = q.Id
 	if err := validateResponseQuestion(q, a); err != nil {
 		d.metrics.err.Add("question", 1)
 		return nil, err
diff --git a/odohclient.go b/odohclient.go
index 8c43b45..9c7d852 100644
--- a/odohclient.go
+++ b/odohclient.go
@@ -132,6 +132,7 @@ func (d *ODoHClient) decodeProxyResponse(q *dns.Msg, resp *http.Response, queryC
 		d.proxy.metrics.err.Add("unpack", 1)
 		return nil, err
 	}
+	a.Id = q.Id
 	if err := validateResponseQuestion(q, a); err != nil {
 		d.proxy.metrics.err.Add("question", 1)
 		return nil, err
-- 
2.43.0


From e57272f746e08d34b62504cd31d9ac31d404caf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:23:23 +0000
Subject: [PATCH 26/49] fix: fetching an ODoH target key could block or crash
 all queries

---
 odohclient.go | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/odohclient.go b/odohclient.go
index 9c7d852..5aef3c1 100644
--- a/odohclient.go
+++ b/odohclient.go
@@ -66,15 +66,15 @@ func NewODoHClient(id, proxy, target, targetConfig string, opt DoHClientOptions)
 
 // Resolve a DNS query.
 func (d *ODoHClient) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
+	ctx, cancel := context.WithTimeout(context.Background(), d.proxy.opt.QueryTimeout)
+	defer cancel()
+
 	// Build the encrypted query. The target key is retrieved on-demand
-	msg, queryContext, err := d.buildTargetQuery(q)
+	msg, queryContext, err := d.buildTargetQuery(ctx, q)
 	if err != nil {
 		return nil, err
 	}
 
-	ctx, cancel := context.WithTimeout(context.Background(), d.proxy.opt.QueryTimeout)
-	defer cancel()
-
 	// Build a regular DoH request. It needs to be modified for a proxy.
 	req, err := d.proxy.buildRequest(ctx, msg.Marshal(), q.Opcode)
 	if err != nil {
@@ -152,8 +152,8 @@ func (d *ODoHClient) customizeRequest(req *http.Request) {
 }
 
 // Marshal and encrypt the original query with the key for the target.
-func (d *ODoHClient) buildTargetQuery(q *dns.Msg) (odoh.ObliviousDNSMessage, odoh.QueryContext, error) {
-	config, err := d.getTargetConfig()
+func (d *ODoHClient) buildTargetQuery(ctx context.Context, q *dns.Msg) (odoh.ObliviousDNSMessage, odoh.QueryContext, error) {
+	config, err := d.getTargetConfig(ctx)
 	if err != nil {
 		return odoh.ObliviousDNSMessage{}, odoh.QueryContext{}, err
 	}
@@ -167,7 +167,7 @@ func (d *ODoHClient) buildTargetQuery(q *dns.Msg) (odoh.ObliviousDNSMessage, odo
 }
 
 // Get the current (cached) target config or refresh it if expired.
-func (d *ODoHClient) getTargetConfig() (*odoh.ObliviousDoHConfig, error) {
+func (d *ODoHClient) getTargetConfig(ctx context.Context) (*odoh.ObliviousDoHConfig, error) {
 	var err error
 	d.mu.Lock()
 	defer d.mu.Unlock()
@@ -182,16 +182,19 @@ func (d *ODoHClient) getTargetConfig() (*odoh.ObliviousDoHConfig, error) {
 		if err != nil {
 			return nil, fmt.Errorf("failed to unmarshal odohConfig: %w", err)
 		}
+		if len(odohConfigs.Configs) < 1 {
+			return nil, errors.New("no supported config in odohConfig")
+		}
 		d.odohConfig = &odohConfigs.Configs[0]
 	} else if d.odohConfig == nil || time.Now().After(d.odohConfigExpiry) {
-		d.odohConfig, d.odohConfigExpiry, err = d.refreshTargetKey()
+		d.odohConfig, d.odohConfigExpiry, err = d.refreshTargetKey(ctx)
 	}
 	return d.odohConfig, err
 }
 
-func (d *ODoHClient) refreshTargetKey() (*odoh.ObliviousDoHConfig, time.Time, error) {
+func (d *ODoHClient) refreshTargetKey(ctx context.Context) (*odoh.ObliviousDoHConfig, time.Time, error) {
 	var url string = "https://" + d.targetName + ":" + d.targetPort + ODOH_CONFIG_PATH
-	req, err := http.NewRequest(http.MethodGet, url, nil)
+	req, err := http.NewRequestWithContext(ctx, http.MethodGet, url, nil)
 	if err != nil {
 		return nil, time.Time{}, err
 	}
@@ -200,6 +203,10 @@ func (d *ODoHClient) refreshTargetKey() (*odoh.ObliviousDoHConfig, time.Time, er
 	if err != nil {
 		return nil, time.Time{}, err
 	}
+	defer resp.Body.Close()
+	if resp.StatusCode < 200 || resp.StatusCode > 299 {
+		return nil, time.Time{}, fmt.Errorf("unexpected status code %d", resp.StatusCode)
+	}
 	bodyBytes, err := readBoundedBody(resp.Body, maxDoHResponseSize)
 	if err != nil {
 		return nil, time.Time{}, err
@@ -207,7 +214,10 @@ func (d *ODoHClient) refreshTargetKey() (*odoh.ObliviousDoHConfig, time.Time, er
 	odohConfigs, err := odoh.UnmarshalObliviousDoHConfigs(bodyBytes)
 	expiry := time.Now().Add(24 * time.Hour)
 
-	if err != nil || len(odohConfigs.Marshal()) < 1 {
+	if err == nil && len(odohConfigs.Configs) < 1 {
+		err = errors.New("no supported ODoH config")
+	}
+	if err != nil {
 		Log.Warn("Could not load the targets ODoH config")
 		return nil, time.Time{}, err
 	}
-- 
2.43.0


From 66cbe90756d9e5f1e2ac8a790c58822a3b552fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:23:52 +0000
Subject: [PATCH 27/49] fix: crash when padding a message with a custom option
 12

---
 padding.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/padding.go b/padding.go
index 19f6854..651af9a 100644
--- a/padding.go
+++ b/padding.go
@@ -31,8 +31,8 @@ func padAnswer(q, a *dns.Msg) {
 	// If the answer has padding, grab that and truncate it before re-calculating the length
 	var paddingOpt *dns.EDNS0_PADDING
 	for _, opt := range edns0a.Option {
-		if opt.Option() == dns.EDNS0PADDING {
-			paddingOpt = opt.(*dns.EDNS0_PADDING)
+		if o, ok := opt.(*dns.EDNS0_PADDING); ok {
+			paddingOpt = o
 			paddingOpt.Padding = nil
 		}
 	}
@@ -68,8 +68,8 @@ func padQuery(q *dns.Msg) {
 	// If the query has padding, grab that and truncate it before re-calculating the length
 	var paddingOpt *dns.EDNS0_PADDING
 	for _, opt := range edns0q.Option {
-		if opt.Option() == dns.EDNS0PADDING {
-			paddingOpt = opt.(*dns.EDNS0_PADDING)
+		if o, ok := opt.(*dns.EDNS0_PADDING); ok {
+			paddingOpt = o
 			paddingOpt.Padding = nil
 		}
 	}
-- 
2.43.0


From 006a50706c8b706300ffe7cd685a817f5170e326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:21 +0000
Subject: [PATCH 28/49] fix: plain DNS clients accepted reflected queries as
 responses

---
 dnsclient.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dnsclient.go b/dnsclient.go
index 3686a39..4d84496 100644
--- a/dnsclient.go
+++ b/dnsclient.go
@@ -2,6 +2,7 @@ package rdns
 
 import (
 	"crypto/tls"
+	"errors"
 	"net"
 	"strings"
 	"time"
@@ -88,7 +89,15 @@ func (d *DNSClient) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 
 	// Remove padding before sending over the wire in plain
 	stripPadding(q)
-	return d.pipeline.Resolve(q)
+	a, err := d.pipeline.Resolve(q)
+	if err != nil {
+		return nil, err
+	}
+	// A query that's reflected back has the right ID and question, but it's no answer
+	if !a.Response {
+		return nil, errors.New("expected answer for " + qName(q) + ", got a query")
+	}
+	return a, nil
 }
 
 func (d *DNSClient) String() string {
-- 
2.43.0


From e86d9432672febef10a5620f4cac9c1314259656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:45:05 +0000
Subject: [PATCH 29/49] fix: queries queued up behind each other's failing QUIC
 handshakes

---
 doqclient.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/doqclient.go b/doqclient.go
index 458b64c..e411fb8 100644
--- a/doqclient.go
+++ b/doqclient.go
@@ -199,7 +199,9 @@ func (d *DoQClient) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 			conn = d.connectionV6
 		}
 	}
-	stream, err := conn.getStream(d.endpoint, isReplayableOpcode(qc.Opcode), d.log)
+	ctx, cancel := context.WithDeadline(context.Background(), deadlineTime)
+	defer cancel()
+	stream, err := conn.getStream(ctx, d.endpoint, isReplayableOpcode(qc.Opcode), d.log)
 	if err != nil {
 		d.metrics.err.Add("getstream", 1)
 		return nil, err
@@ -312,7 +314,9 @@ func newQuicConnection(lAddr net.IP, tlsConfig *tls.Config, config *quic.Config,
 // connection's handshake has completed. That wait holds the lock, so it also
 // stalls other queries on the same connection, but only for as long as the
 // handshake takes, and those queries have nowhere else to go in the meantime.
-func (s *quicConnection) getStream(endpoint string, replaySafe bool, log *slog.Logger) (*quic.Stream, error) {
+// Dialling ends with the context, or queries waiting for the lock would each
+// have to sit through a failing handshake of their own, one after another.
+func (s *quicConnection) getStream(ctx context.Context, endpoint string, replaySafe bool, log *slog.Logger) (*quic.Stream, error) {
 	rAddr, err := net.ResolveUDPAddr("udp", endpoint)
 	if err != nil {
 		return nil, err
@@ -324,7 +328,7 @@ func (s *quicConnection) getStream(endpoint string, replaySafe bool, log *slog.L
 	// If we don't have a connection yet, make one
 	if s.Conn == nil {
 		var err error
-		s.Conn, err = s.dialFunc(context.Background(), rAddr, s.tlsConfig, s.config)
+		s.Conn, err = s.dialFunc(ctx, rAddr, s.tlsConfig, s.config)
 		if err != nil {
 			log.Warn("failed to open connection",
 				"hostname", endpoint,
@@ -341,7 +345,7 @@ func (s *quicConnection) getStream(endpoint string, replaySafe bool, log *slog.L
 		log.Debug("temporary fail when trying to open stream, attempting new connection",
 			"error", err,
 		)
-		if err = s.restart(rAddr); err != nil {
+		if err = s.restart(ctx, rAddr); err != nil {
 			log.Warn("failed to open connection", "hostname", endpoint, "error", err)
 			return nil, err
 		}
@@ -375,14 +379,14 @@ func (s *quicConnection) awaitReplaySafe(replaySafe bool) {
 
 // Try to open a new connection. This function should be called with the mutex
 // locked.
-func (s *quicConnection) restart(rAddr *net.UDPAddr) error {
+func (s *quicConnection) restart(ctx context.Context, rAddr *net.UDPAddr) error {
 	_ = s.Conn.CloseWithError(DOQNoError, "")
 
 	Log.Debug("attempt reconnect", slog.String("protocol", "quic"),
 		slog.String("local", s.lAddr.String()),
 		slog.String("remote", rAddr.String()),
 	)
-	conn, err := s.dialFunc(context.TODO(), rAddr, s.tlsConfig, s.config)
+	conn, err := s.dialFunc(ctx, rAddr, s.tlsConfig, s.config)
 	if err != nil {
 		Log.Warn("couldn't restart quic connection", slog.Group("details", slog.String("protocol", "quic"), slog.String("remote", rAddr.String()), slog.String("local", s.lAddr.String())), "error", err)
 		return err
-- 
2.43.0


From 630b005cee94ae8ad2aefdd909494e061b47b06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:51:42 +0000
Subject: [PATCH 30/49] fix: zones with a combined or a revoked key failed
 DNSSEC validation

---
 dnssec/denial_existence.go |  4 +--
 dnssec/keystore.go         |  5 ++-
 dnssec/validator.go        | 62 +++++++++++++++++++++-----------------
 3 files changed, 39 insertions(+), 32 deletions(-)

diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index 482479d..67173bd 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -82,11 +82,11 @@ func (v *Validator) rrsetSignedFromAncestor(rrset []dns.RR, sigs []*dns.RRSIG, q
 		if !dns.IsSubDomain(signer, qname) {
 			continue
 		}
-		zsk, _, err := v.buildChainOfTrust(signer)
+		keys, err := v.zoneKeys(signer)
 		if err != nil {
 			continue
 		}
-		if verifyRRSIG(sig, zsk, rrset, v.now()) == nil {
+		if verifyRRSIG(sig, keys, rrset, v.now()) == nil {
 			return true
 		}
 	}
diff --git a/dnssec/keystore.go b/dnssec/keystore.go
index f52bd32..41c35a8 100644
--- a/dnssec/keystore.go
+++ b/dnssec/keystore.go
@@ -82,10 +82,9 @@ func (s *keystore) addDNSKEY(name string, keys []*dns.DNSKEY) {
 		if key.Hdr.Ttl < ttl {
 			ttl = key.Hdr.Ttl
 		}
-		switch key.Flags {
-		case 257:
+		if key.Flags&dns.SEP != 0 {
 			ksk = append(ksk, key)
-		case 256:
+		} else {
 			zsk = append(zsk, key)
 		}
 	}
diff --git a/dnssec/validator.go b/dnssec/validator.go
index 10a019e..9173e61 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -145,14 +145,14 @@ func (v *Validator) proveNoDS(zone string) (bool, error) {
 		return false, nil
 	}
 	parent := parentZone(zone)
-	parentZSK, _, err := v.buildChainOfTrust(parent)
+	parentKeys, err := v.zoneKeys(parent)
 	if err != nil {
 		if errors.Is(err, ErrInsecureDelegation) {
 			return true, nil
 		}
 		return false, err
 	}
-	if err := verifyDSDenial(resp, zone, parentZSK, v.now()); err != nil {
+	if err := verifyDSDenial(resp, zone, parentKeys, v.now()); err != nil {
 		return false, err
 	}
 	return true, nil
@@ -178,12 +178,12 @@ func (v *Validator) validateRRset(rrset []dns.RR, sigs []*dns.RRSIG) error {
 			lastErr = fmt.Errorf("%w: %s cannot sign %s", ErrSignerOutOfBailiwick, signer, owner)
 			continue
 		}
-		zsk, _, err := v.buildChainOfTrust(signer)
+		keys, err := v.zoneKeys(signer)
 		if err != nil {
 			lastErr = err
 			continue
 		}
-		if err := verifyRRSIG(sig, zsk, rrset, v.now()); err != nil {
+		if err := verifyRRSIG(sig, keys, rrset, v.now()); err != nil {
 			lastErr = err
 			continue
 		}
@@ -192,6 +192,18 @@ func (v *Validator) validateRRset(rrset []dns.RR, sigs []*dns.RRSIG) error {
 	return lastErr
 }
 
+// zoneKeys returns all validated keys of a zone. Any of them can sign its data:
+// the SEP flag that distinguishes a KSK is only a hint for administrators, and
+// zones with a single combined key have nothing else (RFC 4034 §2.1.1, RFC 6840
+// §6.2).
+func (v *Validator) zoneKeys(zone string) ([]*dns.DNSKEY, error) {
+	zsk, ksk, err := v.buildChainOfTrust(zone)
+	if err != nil {
+		return nil, err
+	}
+	return slices.Concat(zsk, ksk), nil
+}
+
 // buildChainOfTrust recursively builds a DNSSEC chain of trust from
 // the root trust anchor down to the specified zone. It returns the
 // validated ZSK and KSK for the zone.
@@ -204,20 +216,13 @@ func (v *Validator) buildChainOfTrust(zone string) (zsk, ksk []*dns.DNSKEY, err
 	}
 
 	// Fetch DNSKEY records for this zone
-	fetchedZSK, fetchedKSK, dnsSigs, err := v.lookupDNSKEY(zone)
+	fetchedZSK, fetchedKSK, allKeys, dnsSigs, err := v.lookupDNSKEY(zone)
 	if err != nil {
 		return nil, nil, fmt.Errorf("failed to lookup DNSKEY for %s: %w", zone, err)
 	}
-	if len(fetchedKSK) == 0 {
-		return nil, nil, fmt.Errorf("%w: no KSK for %s", ErrNoKey, zone)
-	}
-
-	allKeys := make([]dns.RR, 0, len(fetchedZSK)+len(fetchedKSK))
-	for _, k := range fetchedZSK {
-		allKeys = append(allKeys, k)
-	}
-	for _, k := range fetchedKSK {
-		allKeys = append(allKeys, k)
+	allDNSKEYs := slices.Concat(fetchedZSK, fetchedKSK)
+	if len(allDNSKEYs) == 0 {
+		return nil, nil, fmt.Errorf("%w: no key for %s", ErrNoKey, zone)
 	}
 
 	// Obtain authenticated DS records for this zone — from the configured
@@ -239,13 +244,13 @@ func (v *Validator) buildChainOfTrust(zone string) (zsk, ksk []*dns.DNSKEY, err
 		}
 
 		parent := parentZone(zone)
-		parentZSK, _, err := v.buildChainOfTrust(parent)
+		parentKeys, err := v.zoneKeys(parent)
 		if err != nil {
 			return nil, nil, fmt.Errorf("failed to build chain of trust for parent %s: %w", parent, err)
 		}
 
 		if len(dsRecords) == 0 {
-			if err := verifyDSDenial(dsResp, zone, parentZSK, v.now()); err != nil {
+			if err := verifyDSDenial(dsResp, zone, parentKeys, v.now()); err != nil {
 				return nil, nil, err
 			}
 			return nil, nil, fmt.Errorf("%w: %s", ErrInsecureDelegation, zone)
@@ -260,7 +265,7 @@ func (v *Validator) buildChainOfTrust(zone string) (zsk, ksk []*dns.DNSKEY, err
 		}
 		var verified bool
 		for _, dsSig := range dsSigs {
-			if err := verifyRRSIG(dsSig, parentZSK, dsRRset, v.now()); err == nil {
+			if err := verifyRRSIG(dsSig, parentKeys, dsRRset, v.now()); err == nil {
 				verified = true
 				break
 			}
@@ -273,7 +278,7 @@ func (v *Validator) buildChainOfTrust(zone string) (zsk, ksk []*dns.DNSKEY, err
 	// RFC 4035 §5.2: the DNSKEY RRset must be signed by a key that itself
 	// chains to an authenticated DS. Restrict candidate signing keys to
 	// those matching a DS before accepting the self-signature.
-	trustedKSK := filterKeysByDS(fetchedKSK, dsRecords)
+	trustedKSK := filterKeysByDS(allDNSKEYs, dsRecords)
 	if len(trustedKSK) == 0 {
 		return nil, nil, fmt.Errorf("KSK doesn't match DS for %s: %w", zone, ErrDSMismatch)
 	}
@@ -297,33 +302,36 @@ func (v *Validator) buildChainOfTrust(zone string) (zsk, ksk []*dns.DNSKEY, err
 	}
 
 	// Cache the validated keys
-	allDNSKEYs := slices.Concat(fetchedZSK, fetchedKSK)
 	v.ks.addDNSKEY(zone, allDNSKEYs)
 
 	return fetchedZSK, fetchedKSK, nil
 }
 
 // lookupDNSKEY queries for DNSKEY records for the given zone and returns
-// the ZSKs, KSKs, and RRSIGs from the response.
-func (v *Validator) lookupDNSKEY(name string) (zsk, ksk []*dns.DNSKEY, sigs []*dns.RRSIG, err error) {
+// the ZSKs and KSKs, the whole RRset as it was signed, and the RRSIGs from the
+// response. Keys that can't be used to validate, like revoked ones, are only in
+// the RRset.
+func (v *Validator) lookupDNSKEY(name string) (zsk, ksk []*dns.DNSKEY, rrset []dns.RR, sigs []*dns.RRSIG, err error) {
 	q := new(dns.Msg)
 	q.SetQuestion(dns.CanonicalName(name), dns.TypeDNSKEY)
 	q.SetEdns0(4096, true)
 	q.MsgHdr.CheckingDisabled = true
 	a, err := v.resolver(q)
 	if err != nil {
-		return nil, nil, nil, err
+		return nil, nil, nil, nil, err
 	}
 	if a.Rcode != dns.RcodeSuccess {
-		return nil, nil, nil, fmt.Errorf("DNSKEY lookup for %q failed: rcode %s", name, dns.RcodeToString[a.Rcode])
+		return nil, nil, nil, nil, fmt.Errorf("DNSKEY lookup for %q failed: rcode %s", name, dns.RcodeToString[a.Rcode])
 	}
 	for _, rr := range a.Answer {
 		switch r := rr.(type) {
 		case *dns.DNSKEY:
-			switch r.Flags {
-			case 257:
+			rrset = append(rrset, r)
+			switch {
+			case r.Flags&dns.ZONE == 0 || r.Flags&dns.REVOKE != 0:
+			case r.Flags&dns.SEP != 0:
 				ksk = append(ksk, r)
-			case 256:
+			default:
 				zsk = append(zsk, r)
 			}
 		case *dns.RRSIG:
-- 
2.43.0


From 1e5347eeaa11aa0c2b7f0d05e5670805578066f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:55:40 +0000
Subject: [PATCH 31/49] fix: DNSSEC validation crashed when a key lookup was
 dropped

---
 dnssec/validator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dnssec/validator.go b/dnssec/validator.go
index 9173e61..febc0c7 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -320,6 +320,9 @@ func (v *Validator) lookupDNSKEY(name string) (zsk, ksk []*dns.DNSKEY, rrset []d
 	if err != nil {
 		return nil, nil, nil, nil, err
 	}
+	if a == nil {
+		return nil, nil, nil, nil, fmt.Errorf("DNSKEY lookup for %q failed: no response", name)
+	}
 	if a.Rcode != dns.RcodeSuccess {
 		return nil, nil, nil, nil, fmt.Errorf("DNSKEY lookup for %q failed: rcode %s", name, dns.RcodeToString[a.Rcode])
 	}
@@ -353,6 +356,9 @@ func (v *Validator) lookupDS(name string) ([]*dns.DS, []*dns.RRSIG, *dns.Msg, er
 	if err != nil {
 		return nil, nil, nil, err
 	}
+	if a == nil {
+		return nil, nil, nil, fmt.Errorf("DS lookup for %q failed: no response", name)
+	}
 	var (
 		ds   []*dns.DS
 		sigs []*dns.RRSIG
-- 
2.43.0


From 68261798dd5ad50cc76568084905859dcb0358ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:55:40 +0000
Subject: [PATCH 32/49] fix: DS and DNSKEY records of other zones were used in
 the chain of trust

---
 dnssec/validator.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dnssec/validator.go b/dnssec/validator.go
index febc0c7..ae92834 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -327,6 +327,10 @@ func (v *Validator) lookupDNSKEY(name string) (zsk, ksk []*dns.DNSKEY, rrset []d
 		return nil, nil, nil, nil, fmt.Errorf("DNSKEY lookup for %q failed: rcode %s", name, dns.RcodeToString[a.Rcode])
 	}
 	for _, rr := range a.Answer {
+		// Records of other owners say nothing about this zone.
+		if dns.CanonicalName(rr.Header().Name) != dns.CanonicalName(name) {
+			continue
+		}
 		switch r := rr.(type) {
 		case *dns.DNSKEY:
 			rrset = append(rrset, r)
@@ -365,6 +369,11 @@ func (v *Validator) lookupDS(name string) ([]*dns.DS, []*dns.RRSIG, *dns.Msg, er
 	)
 	if a.Rcode == dns.RcodeSuccess {
 		for _, rr := range a.Answer {
+			// The DS of another zone doesn't authenticate this one's keys,
+			// even if it is properly signed.
+			if dns.CanonicalName(rr.Header().Name) != dns.CanonicalName(name) {
+				continue
+			}
 			switch r := rr.(type) {
 			case *dns.DS:
 				ds = append(ds, r)
-- 
2.43.0


From 303e81c2277cb11209d5edb2408757a3d21e66ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:55:44 +0000
Subject: [PATCH 33/49] fix: the DNSSEC validator passed on the upstream's
 authenticated flag

---
 dnssec.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dnssec.go b/dnssec.go
index 091e3b9..7287ff8 100644
--- a/dnssec.go
+++ b/dnssec.go
@@ -124,6 +124,10 @@ func (r *DNSSECValidator) Resolve(q *dns.Msg, ci ClientInfo) (*dns.Msg, error) {
 		return answer, err
 	}
 
+	// Whatever the upstream says about authenticity, only answers that are
+	// validated here are marked as such.
+	answer.AuthenticatedData = false
+
 	// Only validate successful responses
 	if answer.Rcode != dns.RcodeSuccess && answer.Rcode != dns.RcodeNameError {
 		stripDNSSEC(answer, clientSetDo, clientHadEdns0, qtype)
-- 
2.43.0


From 533a654252ea3efc71bbddae62a5600ccbded34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:55:48 +0000
Subject: [PATCH 34/49] fix: validated keys were used after their signatures
 had expired

---
 dnssec/keystore.go  | 13 +++++++++++--
 dnssec/validator.go |  9 +++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/dnssec/keystore.go b/dnssec/keystore.go
index 41c35a8..fd0e4e6 100644
--- a/dnssec/keystore.go
+++ b/dnssec/keystore.go
@@ -72,7 +72,10 @@ func (s *keystore) addDS(name string, dss ...*dns.DS) {
 	}
 }
 
-func (s *keystore) addDNSKEY(name string, keys []*dns.DNSKEY) {
+// addDNSKEY stores the validated keys of a zone until their TTL runs out, or
+// earlier if one of the signatures they were validated with expires or isn't
+// meant to be kept that long (RFC 4035 §5.3.3).
+func (s *keystore) addDNSKEY(name string, keys []*dns.DNSKEY, sigs ...*dns.RRSIG) {
 	var (
 		ttl uint32 = math.MaxUint32
 		zsk []*dns.DNSKEY
@@ -88,8 +91,14 @@ func (s *keystore) addDNSKEY(name string, keys []*dns.DNSKEY) {
 			zsk = append(zsk, key)
 		}
 	}
+	now := s.now()
+	for _, sig := range sigs {
+		// Serial number arithmetic, see RFC 4034 §3.1.5
+		remaining := max(int32(sig.Expiration-uint32(now.Unix())), 0)
+		ttl = min(ttl, sig.Hdr.Ttl, uint32(remaining))
+	}
 	keyset := &dnskeySet{
-		expiresAt: s.now().Add(time.Duration(ttl) * time.Second),
+		expiresAt: now.Add(time.Duration(ttl) * time.Second),
 		zsk:    zsk,
 		ksk:    ksk,
 	}
diff --git a/dnssec/validator.go b/dnssec/validator.go
index ae92834..c91c334 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -227,7 +227,10 @@ func (v *Validator) buildChainOfTrust(zone string) (zsk, ksk []*dns.DNSKEY, err
 
 	// Obtain authenticated DS records for this zone — from the configured
 	// trust anchor for the root, or by recursing into the parent otherwise.
-	var dsRecords []*dns.DS
+	var (
+		dsRecords []*dns.DS
+		chainSigs []*dns.RRSIG // the signatures the keys' validity depends on
+	)
 	if zone == "." {
 		dsRecords = v.ks.getDS(".")
 		if len(dsRecords) == 0 {
@@ -267,6 +270,7 @@ func (v *Validator) buildChainOfTrust(zone string) (zsk, ksk []*dns.DNSKEY, err
 		for _, dsSig := range dsSigs {
 			if err := verifyRRSIG(dsSig, parentKeys, dsRRset, v.now()); err == nil {
 				verified = true
+				chainSigs = append(chainSigs, dsSig)
 				break
 			}
 		}
@@ -291,6 +295,7 @@ func (v *Validator) buildChainOfTrust(zone string) (zsk, ksk []*dns.DNSKEY, err
 		sigSeen = true
 		if err := verifyRRSIG(sig, trustedKSK, allKeys, v.now()); err == nil {
 			sigVerified = true
+			chainSigs = append(chainSigs, sig)
 			break
 		}
 	}
@@ -302,7 +307,7 @@ func (v *Validator) buildChainOfTrust(zone string) (zsk, ksk []*dns.DNSKEY, err
 	}
 
 	// Cache the validated keys
-	v.ks.addDNSKEY(zone, allDNSKEYs)
+	v.ks.addDNSKEY(zone, allDNSKEYs, chainSigs...)
 
 	return fetchedZSK, fetchedKSK, nil
 }
-- 
2.43.0


From f6b76a0b7b488638e751047435671f9fdbe600e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:58:24 +0000
Subject: [PATCH 35/49] fix: forged denials of existence passed DNSSEC
 validation

Proofs could use records from the parent's side of a zone cut, from different
zones, synthesized from a wildcard, or NSEC3 records matching the denied name.
Empty non-terminals were denied as if they did not exist.
---
 dnssec/denial.go           |  40 ++++-----
 dnssec/denial_existence.go | 165 ++++++++++++++++++++++++++-----------
 dnssec/validator.go        |   2 +-
 3 files changed, 137 insertions(+), 70 deletions(-)

diff --git a/dnssec/denial.go b/dnssec/denial.go
index 28f723e..2887d71 100644
--- a/dnssec/denial.go
+++ b/dnssec/denial.go
@@ -22,26 +22,23 @@ func verifyDSDenial(resp *dns.Msg, name string, parentKeys []*dns.DNSKEY, now ti
 	name = dns.CanonicalName(name)
 	rrsets, sigs := groupRRsByTypeAndName(resp.Ns)
 
+	var verified denialRecords
 	for key, rrset := range rrsets {
 		if key.rrtype != dns.TypeNSEC && key.rrtype != dns.TypeNSEC3 {
 			continue
 		}
-		if !verifyAnyRRSIG(sigs[key], parentKeys, rrset, now) {
-			continue
+		if verifyAnyRRSIG(sigs[key], parentKeys, rrset, now) {
+			verified.add(rrset)
 		}
-		for _, rr := range rrset {
-			switch r := rr.(type) {
-			case *dns.NSEC:
-				if nsecDeniesDS(r, name) {
-					return nil
-				}
-			case *dns.NSEC3:
-				if nsec3DeniesDS(r, name) {
-					return nil
-				}
-			}
+	}
+	for _, r := range verified.nsecs {
+		if nsecDeniesDS(r, name) {
+			return nil
 		}
 	}
+	if nsec3DeniesDS(verified.nsec3s, name) {
+		return nil
+	}
 	return fmt.Errorf("%w for %s", ErrBogusDenial, name)
 }
 
@@ -55,14 +52,17 @@ func nsecDeniesDS(r *dns.NSEC, name string) bool {
 	return bitmapProvesInsecureDelegation(r.TypeBitMap)
 }
 
-// nsec3DeniesDS reports whether the NSEC3 record proves an insecure
-// delegation at name, either by an exact hash match with NS-but-no-DS, or by
-// an opt-out span covering the hashed name (RFC 5155 §6, §8.6).
-func nsec3DeniesDS(r *dns.NSEC3, name string) bool {
-	if r.Match(name) {
-		return bitmapProvesInsecureDelegation(r.TypeBitMap)
+// nsec3DeniesDS reports whether the NSEC3 records prove an insecure delegation
+// at name, either by an exact hash match with NS-but-no-DS, or by an opt-out span
+// covering the next closer name to the closest encloser (RFC 5155 §6, §8.6).
+func nsec3DeniesDS(nsec3s []*dns.NSEC3, name string) bool {
+	for _, r := range nsec3s {
+		if r.Match(name) {
+			return bitmapProvesInsecureDelegation(r.TypeBitMap)
+		}
 	}
-	return r.Flags&1 != 0 && r.Cover(name)
+	_, nextCloser, ok := nsec3ClosestEncloser(nsec3s, name)
+	return ok && nsec3OptOutCovers(nsec3s, nextCloser)
 }
 
 // bitmapProvesInsecureDelegation reports whether an NSEC/NSEC3 type bitmap at
diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index 67173bd..d47f98c 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -27,13 +27,13 @@ func (v *Validator) validateDenial(answer *dns.Msg) error {
 	qname := dns.CanonicalName(q.Name)
 	qtype := q.Qtype
 
-	nsecs, nsec3s := v.collectVerifiedDenialRecords(answer.Ns, qname)
-
-	if nsecProvesDenial(nsecs, qname, qtype, answer.Rcode) {
-		return nil
-	}
-	if nsec3ProvesDenial(nsec3s, qname, qtype, answer.Rcode) {
-		return nil
+	for _, zone := range v.collectVerifiedDenialRecords(answer.Ns, qname) {
+		if nsecProvesDenial(zone.nsecs, qname, qtype, answer.Rcode) {
+			return nil
+		}
+		if nsec3ProvesDenial(zone.nsec3s, qname, qtype, answer.Rcode) {
+			return nil
+		}
 	}
 
 	// No authenticated proof of denial. Determine whether the name is in a
@@ -46,40 +46,57 @@ func (v *Validator) validateDenial(answer *dns.Msg) error {
 	return fmt.Errorf("%w: %s/%s", ErrDenialOfExistence, qname, dns.TypeToString[qtype])
 }
 
+// denialRecords are the authenticated NSEC and NSEC3 records of one zone.
+type denialRecords struct {
+	nsecs  []*dns.NSEC
+	nsec3s []*dns.NSEC3
+}
+
+func (d *denialRecords) add(rrset []dns.RR) {
+	for _, rr := range rrset {
+		switch r := rr.(type) {
+		case *dns.NSEC:
+			d.nsecs = append(d.nsecs, r)
+		case *dns.NSEC3:
+			d.nsec3s = append(d.nsec3s, r)
+		}
+	}
+}
+
 // collectVerifiedDenialRecords returns the NSEC and NSEC3 records from the
 // authority section whose covering RRSIG is signed by a zone at or above qname
-// and chains to the trust anchor. Unsigned or unauthenticated records are
-// discarded so a forged proof cannot be used.
-func (v *Validator) collectVerifiedDenialRecords(ns []dns.RR, qname string) (nsecs []*dns.NSEC, nsec3s []*dns.NSEC3) {
+// and chains to the trust anchor, by zone. Unsigned or unauthenticated records
+// are discarded so a forged proof cannot be used. The records of different
+// zones can't be combined into one proof, they describe different name spaces.
+func (v *Validator) collectVerifiedDenialRecords(ns []dns.RR, qname string) map[string]*denialRecords {
+	zones := make(map[string]*denialRecords)
 	rrsets, sigs := groupRRsByTypeAndName(ns)
 	for key, rrset := range rrsets {
 		if key.rrtype != dns.TypeNSEC && key.rrtype != dns.TypeNSEC3 {
 			continue
 		}
-		if !v.rrsetSignedFromAncestor(rrset, sigs[key], qname) {
+		zone, ok := v.rrsetSignedFromAncestor(rrset, sigs[key], qname)
+		if !ok {
 			continue
 		}
-		for _, rr := range rrset {
-			switch r := rr.(type) {
-			case *dns.NSEC:
-				nsecs = append(nsecs, r)
-			case *dns.NSEC3:
-				nsec3s = append(nsec3s, r)
-			}
+		if zones[zone] == nil {
+			zones[zone] = new(denialRecords)
 		}
+		zones[zone].add(rrset)
 	}
-	return nsecs, nsec3s
+	return zones
 }
 
 // rrsetSignedFromAncestor reports whether any of the supplied RRSIGs
-// authenticates rrset under a signer at or above qname that chains to the trust
-// anchor. An NSEC/NSEC3 from an unrelated zone proves nothing about qname, so
-// the signer-bailiwick check is applied per signature; trying every RRSIG
-// tolerates a key rollover where the set carries more than one.
-func (v *Validator) rrsetSignedFromAncestor(rrset []dns.RR, sigs []*dns.RRSIG, qname string) bool {
+// authenticates the NSEC or NSEC3 rrset under a signer at or above qname that
+// chains to the trust anchor, and returns that signer. An NSEC/NSEC3 from an
+// unrelated zone proves nothing about qname, so the signer-bailiwick check is
+// applied per signature; trying every RRSIG tolerates a key rollover where the
+// set carries more than one.
+func (v *Validator) rrsetSignedFromAncestor(rrset []dns.RR, sigs []*dns.RRSIG, qname string) (string, bool) {
 	for _, sig := range sigs {
 		signer := dns.CanonicalName(sig.SignerName)
-		if !dns.IsSubDomain(signer, qname) {
+		if !dns.IsSubDomain(signer, qname) || wildcardExpanded(rrset, sig) {
 			continue
 		}
 		keys, err := v.zoneKeys(signer)
@@ -87,10 +104,22 @@ func (v *Validator) rrsetSignedFromAncestor(rrset []dns.RR, sigs []*dns.RRSIG, q
 			continue
 		}
 		if verifyRRSIG(sig, keys, rrset, v.now()) == nil {
-			return true
+			return signer, true
 		}
 	}
-	return false
+	return "", false
+}
+
+// wildcardExpanded reports whether the RRset was synthesized from a wildcard
+// according to its signature. An NSEC record that was doesn't own the name it
+// has and must not be used in a proof.
+func wildcardExpanded(rrset []dns.RR, sig *dns.RRSIG) bool {
+	owner := rrset[0].Header().Name
+	labels := dns.CountLabel(owner)
+	if strings.HasPrefix(owner, "*.") {
+		labels--
+	}
+	return int(sig.Labels) < labels
 }
 
 // nsecProvesDenial reports whether the authenticated NSEC records prove the
@@ -118,7 +147,7 @@ func nsecProvesNODATA(nsecs []*dns.NSEC, qname string, qtype uint16) bool {
 		if dns.CanonicalName(n.Hdr.Name) != qname {
 			continue
 		}
-		return !slices.Contains(n.TypeBitMap, qtype) && !slices.Contains(n.TypeBitMap, dns.TypeCNAME)
+		return bitmapDeniesType(n.TypeBitMap, qname, qtype)
 	}
 
 	// Wildcard NODATA: qname has no exact match (an NSEC covers it) but the
@@ -127,17 +156,46 @@ func nsecProvesNODATA(nsecs []*dns.NSEC, qname string, qtype uint16) bool {
 		if !nsecCovers(cover, qname) {
 			continue
 		}
+		// An empty non-terminal: there are names below, but no data.
+		if dns.IsSubDomain(qname, cover.NextDomain) {
+			return true
+		}
 		wildcard := dns.CanonicalName("*." + nsecClosestEncloser(qname, cover))
 		for _, w := range nsecs {
 			if dns.CanonicalName(w.Hdr.Name) != wildcard {
 				continue
 			}
-			return !slices.Contains(w.TypeBitMap, qtype) && !slices.Contains(w.TypeBitMap, dns.TypeCNAME)
+			return bitmapDeniesType(w.TypeBitMap, wildcard, qtype)
 		}
 	}
 	return false
 }
 
+// bitmapDeniesType reports whether the type bitmap of the record matching name
+// proves that there is no data of the given type. The parent's side of a zone
+// cut only speaks for the DS record, everything else is in the child, and the
+// other way around (RFC 6840 §4.1, §4.4).
+func bitmapDeniesType(bitmap []uint16, name string, qtype uint16) bool {
+	if slices.Contains(bitmap, qtype) || slices.Contains(bitmap, dns.TypeCNAME) {
+		return false
+	}
+	soa := slices.Contains(bitmap, dns.TypeSOA)
+	if qtype == dns.TypeDS {
+		return !soa || name == "."
+	}
+	return soa || !slices.Contains(bitmap, dns.TypeNS)
+}
+
+// bitmapSpeaksForSubdomains reports whether the type bitmap is from a name whose
+// zone also has the names below it. That isn't the case at a delegation, and
+// names below a DNAME don't exist but are redirected (RFC 6840 §4.1).
+func bitmapSpeaksForSubdomains(bitmap []uint16) bool {
+	if slices.Contains(bitmap, dns.TypeDNAME) {
+		return false
+	}
+	return !slices.Contains(bitmap, dns.TypeNS) || slices.Contains(bitmap, dns.TypeSOA)
+}
+
 // nsecProvesNXDOMAIN proves that qname does not exist: an NSEC must cover it,
 // and an NSEC must cover the wildcard at the closest encloser (so no wildcard
 // could have synthesized an answer). RFC 4035 §5.4.
@@ -147,7 +205,7 @@ func nsecProvesNXDOMAIN(nsecs []*dns.NSEC, qname string) bool {
 	var ce string
 	covered := false
 	for _, n := range nsecs {
-		if nsecCovers(n, qname) {
+		if nsecDenies(n, qname) {
 			ce = nsecClosestEncloser(qname, n)
 			covered = true
 			break
@@ -164,7 +222,7 @@ func nsecProvesNXDOMAIN(nsecs []*dns.NSEC, qname string) bool {
 		if dns.CanonicalName(n.Hdr.Name) == wildcard {
 			return false
 		}
-		if nsecCovers(n, wildcard) {
+		if nsecDenies(n, wildcard) {
 			return true
 		}
 	}
@@ -181,6 +239,12 @@ func nsecClosestEncloser(qname string, n *dns.NSEC) string {
 	return lastNLabels(qname, labels)
 }
 
+// nsecDenies reports whether the NSEC record proves that name does not exist. A
+// name with others below it does, even if it's covered.
+func nsecDenies(n *dns.NSEC, name string) bool {
+	return nsecCovers(n, name) && !dns.IsSubDomain(name, n.NextDomain)
+}
+
 // nsecCovers reports whether the NSEC record spans qname in canonical order,
 // i.e. owner < qname < next, accounting for the wrap-around at the zone apex
 // where next <= owner. An exact owner match is not "covered".
@@ -191,6 +255,9 @@ func nsecCovers(n *dns.NSEC, qname string) bool {
 	if qname == owner {
 		return false
 	}
+	if dns.IsSubDomain(owner, qname) && !bitmapSpeaksForSubdomains(n.TypeBitMap) {
+		return false
+	}
 	if canonicalNameCmp(owner, next) < 0 {
 		return canonicalNameCmp(owner, qname) < 0 && canonicalNameCmp(qname, next) < 0
 	}
@@ -220,24 +287,25 @@ func nsec3ProvesNODATA(nsec3s []*dns.NSEC3, qname string, qtype uint16) bool {
 	// Direct match with the type (and CNAME) absent.
 	for _, r := range nsec3s {
 		if r.Match(qname) {
-			return !slices.Contains(r.TypeBitMap, qtype) && !slices.Contains(r.TypeBitMap, dns.TypeCNAME)
+			return bitmapDeniesType(r.TypeBitMap, qname, qtype)
 		}
 	}
 
-	// DS NODATA via opt-out: the name is covered by an opt-out NSEC3, proving
-	// no signed DS exists (RFC 5155 §6).
-	if qtype == dns.TypeDS && nsec3OptOutCovers(nsec3s, qname) {
+	ce, nextCloser, ok := nsec3ClosestEncloser(nsec3s, qname)
+
+	// DS NODATA via opt-out: the next closer name is covered by an opt-out
+	// NSEC3, proving no signed DS exists (RFC 5155 §8.6).
+	if qtype == dns.TypeDS && ok && nsec3OptOutCovers(nsec3s, nextCloser) {
 		return true
 	}
 
 	// Wildcard NODATA: closest encloser exists, next closer is covered, and the
 	// wildcard matches with the type absent.
-	ce, nextCloser, ok := nsec3ClosestEncloser(nsec3s, qname)
 	if ok && nsec3CoverAny(nsec3s, nextCloser) {
 		wildcard := "*." + ce
 		for _, r := range nsec3s {
 			if r.Match(wildcard) {
-				return !slices.Contains(r.TypeBitMap, qtype) && !slices.Contains(r.TypeBitMap, dns.TypeCNAME)
+				return bitmapDeniesType(r.TypeBitMap, wildcard, qtype)
 			}
 		}
 	}
@@ -268,31 +336,30 @@ func nsec3ProvesNXDOMAIN(nsec3s []*dns.NSEC3, qname string) bool {
 // nsec3ClosestEncloser finds the longest ancestor of qname matched by an NSEC3
 // record and returns it together with the next closer name (that ancestor with
 // one more label from qname). The closest encloser is always a proper ancestor
-// of qname.
+// of qname, in the same zone.
 func nsec3ClosestEncloser(nsec3s []*dns.NSEC3, qname string) (ce, nextCloser string, ok bool) {
 	qname = dns.CanonicalName(qname)
 	n := dns.CountLabel(qname)
 	for k := n - 1; k >= 0; k-- {
 		candidate := lastNLabels(qname, k)
-		if nsec3MatchAny(nsec3s, candidate) {
-			return candidate, lastNLabels(qname, k+1), true
+		for _, r := range nsec3s {
+			if r.Match(candidate) {
+				return candidate, lastNLabels(qname, k+1), bitmapSpeaksForSubdomains(r.TypeBitMap)
+			}
 		}
 	}
 	return "", "", false
 }
 
-func nsec3MatchAny(nsec3s []*dns.NSEC3, name string) bool {
-	for _, r := range nsec3s {
-		if r.Match(name) {
-			return true
-		}
-	}
-	return false
+// nsec3Covers reports whether the hash of name is in the span of the NSEC3
+// record, excluding the names the span starts and ends with.
+func nsec3Covers(r *dns.NSEC3, name string) bool {
+	return r.Cover(name) && !r.Match(name)
 }
 
 func nsec3CoverAny(nsec3s []*dns.NSEC3, name string) bool {
 	for _, r := range nsec3s {
-		if r.Cover(name) {
+		if nsec3Covers(r, name) {
 			return true
 		}
 	}
@@ -301,7 +368,7 @@ func nsec3CoverAny(nsec3s []*dns.NSEC3, name string) bool {
 
 func nsec3OptOutCovers(nsec3s []*dns.NSEC3, name string) bool {
 	for _, r := range nsec3s {
-		if r.Flags&1 == 1 && r.Cover(name) {
+		if r.Flags&1 == 1 && nsec3Covers(r, name) {
 			return true
 		}
 	}
diff --git a/dnssec/validator.go b/dnssec/validator.go
index c91c334..8dc2005 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -450,7 +450,7 @@ func verifyRRSIG(sig *dns.RRSIG, keys []*dns.DNSKEY, rrset []dns.RR, now time.Ti
 // signature checks out, tolerating multiple RRSIGs from a key rollover.
 func verifyAnyRRSIG(sigs []*dns.RRSIG, keys []*dns.DNSKEY, rrset []dns.RR, now time.Time) bool {
 	for _, sig := range sigs {
-		if verifyRRSIG(sig, keys, rrset, now) == nil {
+		if !wildcardExpanded(rrset, sig) && verifyRRSIG(sig, keys, rrset, now) == nil {
 			return true
 		}
 	}
-- 
2.43.0


From d3086f72f652c55e0f253ae78424ce1e29c3bc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:06 +0000
Subject: [PATCH 36/49] fix: zones delegated more than one label down failed
 DNSSEC validation

---
 dnssec/denial.go    |  14 +++---
 dnssec/validator.go | 106 ++++++++++++++++++++++----------------------
 2 files changed, 61 insertions(+), 59 deletions(-)

diff --git a/dnssec/denial.go b/dnssec/denial.go
index 2887d71..511b3b8 100644
--- a/dnssec/denial.go
+++ b/dnssec/denial.go
@@ -17,8 +17,9 @@ var ErrBogusDenial = errors.New("dnssec: unauthenticated denial of DS")
 
 // verifyDSDenial checks that resp's authority section carries NSEC or NSEC3
 // records, signed by one of the supplied parent-zone keys, that prove no DS
-// RRset exists at name. RFC 4035 §5.2 / RFC 5155 §8.
-func verifyDSDenial(resp *dns.Msg, name string, parentKeys []*dns.DNSKEY, now time.Time) error {
+// RRset exists at name. RFC 4035 §5.2 / RFC 5155 §8. It returns true if name is
+// an insecure delegation, and false if it isn't a delegation at all.
+func verifyDSDenial(resp *dns.Msg, name string, parentKeys []*dns.DNSKEY, now time.Time) (bool, error) {
 	name = dns.CanonicalName(name)
 	rrsets, sigs := groupRRsByTypeAndName(resp.Ns)
 
@@ -33,13 +34,16 @@ func verifyDSDenial(resp *dns.Msg, name string, parentKeys []*dns.DNSKEY, now ti
 	}
 	for _, r := range verified.nsecs {
 		if nsecDeniesDS(r, name) {
-			return nil
+			return true, nil
 		}
 	}
 	if nsec3DeniesDS(verified.nsec3s, name) {
-		return nil
+		return true, nil
 	}
-	return fmt.Errorf("%w for %s", ErrBogusDenial, name)
+	if nsecProvesNODATA(verified.nsecs, name, dns.TypeNS) || nsec3ProvesNODATA(verified.nsec3s, name, dns.TypeNS) {
+		return false, nil
+	}
+	return false, fmt.Errorf("%w for %s", ErrBogusDenial, name)
 }
 
 // nsecDeniesDS reports whether the NSEC record proves an insecure delegation
diff --git a/dnssec/validator.go b/dnssec/validator.go
index 8dc2005..a024ff4 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -118,46 +118,35 @@ func (v *Validator) checkInsecureDelegation(name string) error {
 	if name == "." {
 		return nil
 	}
+	parent := "."
 	labels := dns.SplitDomainName(name)
 	for i := len(labels) - 1; i >= 0; i-- {
 		zone := dns.Fqdn(strings.Join(labels[i:], "."))
-		insecure, err := v.proveNoDS(zone)
+		ds, _, resp, err := v.lookupDS(zone)
+		if err != nil {
+			return err
+		}
+		if len(ds) > 0 {
+			parent = zone
+			continue
+		}
+		parentKeys, err := v.zoneKeys(parent)
+		if err != nil {
+			return err
+		}
+		insecure, err := verifyDSDenial(resp, zone, parentKeys, v.now())
 		if err != nil {
 			return err
 		}
 		if insecure {
 			return fmt.Errorf("%w: %s", ErrInsecureDelegation, zone)
 		}
+		// Not a zone cut, the names below can still be delegated from the
+		// same parent.
 	}
 	return nil
 }
 
-// proveNoDS returns true when zone has no DS RRset and that absence is
-// authenticated by the parent zone's signed NSEC/NSEC3. It returns false when
-// DS records are present, and an error when the absence cannot be
-// authenticated.
-func (v *Validator) proveNoDS(zone string) (bool, error) {
-	ds, _, resp, err := v.lookupDS(zone)
-	if err != nil {
-		return false, err
-	}
-	if len(ds) > 0 {
-		return false, nil
-	}
-	parent := parentZone(zone)
-	parentKeys, err := v.zoneKeys(parent)
-	if err != nil {
-		if errors.Is(err, ErrInsecureDelegation) {
-			return true, nil
-		}
-		return false, err
-	}
-	if err := verifyDSDenial(resp, zone, parentKeys, v.now()); err != nil {
-		return false, err
-	}
-	return true, nil
-}
-
 // validateRRset validates a set of RRs against the provided RRSIGs by building
 // a chain of trust to each signer's DNSKEY. An RRset is accepted as soon as one
 // of its RRSIGs verifies; this tolerates ZSK rollovers, where the set carries
@@ -237,46 +226,27 @@ func (v *Validator) buildChainOfTrust(zone string) (zsk, ksk []*dns.DNSKEY, err
 			return nil, nil, ErrNoTrustAnchor
 		}
 	} else {
-		var (
-			dsSigs []*dns.RRSIG
-			dsResp *dns.Msg
-		)
-		dsRecords, dsSigs, dsResp, err = v.lookupDS(zone)
+		var dsSigs []*dns.RRSIG
+		dsRecords, dsSigs, _, err = v.lookupDS(zone)
 		if err != nil {
 			return nil, nil, fmt.Errorf("failed to lookup DS for %s: %w", zone, err)
 		}
-
-		parent := parentZone(zone)
-		parentKeys, err := v.zoneKeys(parent)
-		if err != nil {
-			return nil, nil, fmt.Errorf("failed to build chain of trust for parent %s: %w", parent, err)
-		}
-
 		if len(dsRecords) == 0 {
-			if err := verifyDSDenial(dsResp, zone, parentKeys, v.now()); err != nil {
+			if err := v.checkInsecureDelegation(zone); err != nil {
 				return nil, nil, err
 			}
-			return nil, nil, fmt.Errorf("%w: %s", ErrInsecureDelegation, zone)
-		}
-		if len(dsSigs) == 0 {
-			return nil, nil, fmt.Errorf("%w: DS for %s", ErrNoSignature, zone)
+			return nil, nil, fmt.Errorf("%w for %s", ErrBogusDenial, zone)
 		}
 
 		dsRRset := make([]dns.RR, len(dsRecords))
 		for i, d := range dsRecords {
 			dsRRset[i] = d
 		}
-		var verified bool
-		for _, dsSig := range dsSigs {
-			if err := verifyRRSIG(dsSig, parentKeys, dsRRset, v.now()); err == nil {
-				verified = true
-				chainSigs = append(chainSigs, dsSig)
-				break
-			}
-		}
-		if !verified {
-			return nil, nil, fmt.Errorf("%w: DS RRSIG for %s", ErrSignatureInvalid, zone)
+		dsSig, err := v.verifyDS(zone, dsRRset, dsSigs)
+		if err != nil {
+			return nil, nil, err
 		}
+		chainSigs = append(chainSigs, dsSig)
 	}
 
 	// RFC 4035 §5.2: the DNSKEY RRset must be signed by a key that itself
@@ -312,6 +282,34 @@ func (v *Validator) buildChainOfTrust(zone string) (zsk, ksk []*dns.DNSKEY, err
 	return fetchedZSK, fetchedKSK, nil
 }
 
+// verifyDS validates the DS RRset of a zone and returns the signature that
+// verified. The signer is the parent zone, which isn't necessarily one label
+// above.
+func (v *Validator) verifyDS(zone string, dsRRset []dns.RR, dsSigs []*dns.RRSIG) (*dns.RRSIG, error) {
+	var signed bool
+	for _, dsSig := range dsSigs {
+		parent := dns.CanonicalName(dsSig.SignerName)
+		if parent == zone || !dns.IsSubDomain(parent, zone) {
+			continue
+		}
+		signed = true
+		parentKeys, err := v.zoneKeys(parent)
+		if err != nil {
+			return nil, fmt.Errorf("failed to build chain of trust for parent %s: %w", parent, err)
+		}
+		if err := verifyRRSIG(dsSig, parentKeys, dsRRset, v.now()); err == nil {
+			return dsSig, nil
+		}
+	}
+	if !signed {
+		if err := v.checkInsecureDelegation(parentZone(zone)); err != nil {
+			return nil, err
+		}
+		return nil, fmt.Errorf("%w: DS for %s", ErrNoSignature, zone)
+	}
+	return nil, fmt.Errorf("%w: DS RRSIG for %s", ErrSignatureInvalid, zone)
+}
+
 // lookupDNSKEY queries for DNSKEY records for the given zone and returns
 // the ZSKs and KSKs, the whole RRset as it was signed, and the RRSIGs from the
 // response. Keys that can't be used to validate, like revoked ones, are only in
-- 
2.43.0


From 55d802c33f29881b9916d9baf5fdf21da223e472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:14:36 +0000
Subject: [PATCH 37/49] fix: DNSSEC validation accepted answers to something
 else than was asked

One record from an unsigned zone also let forged records of signed zones pass.
Answers redirected by a DNAME were rejected.
---
 dnssec/denial_existence.go |   2 +-
 dnssec/validator.go        | 104 +++++++++++++++++++++++++++++++++----
 2 files changed, 95 insertions(+), 11 deletions(-)

diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index d47f98c..569b936 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -40,7 +40,7 @@ func (v *Validator) validateDenial(answer *dns.Msg) error {
 	// signed zone at all: if a parent provably has no DS this is an insecure
 	// delegation and the unsigned negative answer may be passed through.
 	// Otherwise the unproven denial is bogus.
-	if err := v.checkInsecureDelegation(qname); err != nil {
+	if err := v.checkInsecure(qname, qtype); err != nil {
 		return err
 	}
 	return fmt.Errorf("%w: %s/%s", ErrDenialOfExistence, qname, dns.TypeToString[qtype])
diff --git a/dnssec/validator.go b/dnssec/validator.go
index a024ff4..46e472d 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -83,7 +83,10 @@ func (v *Validator) SetAnchor(owner string, tag uint16, alg, digestType uint8, d
 
 // Validate checks the DNSSEC signatures in a DNS response message.
 // It groups the answer section into RRsets, finds covering RRSIGs,
-// and validates each signed RRset against a chain of trust.
+// and validates each signed RRset against a chain of trust. The answer has to
+// lead to the data that was asked for, or to a proof that there isn't any. It
+// returns ErrInsecureDelegation when nothing is wrong with the response but
+// some of it is from a provably unsigned zone.
 func (v *Validator) Validate(answer *dns.Msg) error {
 	if len(answer.Answer) == 0 {
 		return v.validateDenial(answer)
@@ -91,21 +94,102 @@ func (v *Validator) Validate(answer *dns.Msg) error {
 
 	rrsets, sigs := groupRRsByTypeAndName(answer.Answer)
 
+	var insecure error
 	for key, rrset := range rrsets {
-		rrsigs := sigs[key]
-		if len(rrsigs) == 0 {
-			// Check if this is an insecure delegation by looking for DS in parent
-			zone := rrset[0].Header().Name
-			if err := v.checkInsecureDelegation(zone); err != nil {
+		if key.rrtype == dns.TypeCNAME && synthesizedCNAME(rrset, rrsets) {
+			continue
+		}
+		err := v.validateAnswerRRset(key, rrset, sigs[key])
+		if errors.Is(err, ErrInsecureDelegation) {
+			insecure = err
+			continue
+		}
+		if err != nil {
+			return err
+		}
+	}
+
+	if len(answer.Question) > 0 {
+		q := answer.Question[0]
+		name, found := followCNAMEs(q, rrsets, sigs)
+		if !found || answer.Rcode == dns.RcodeNameError {
+			denial := answer.Copy()
+			denial.Question[0].Name = name
+			if err := v.validateDenial(denial); err != nil {
 				return err
 			}
-			return fmt.Errorf("%w: %s/%s", ErrNoSignature, key.name, dns.TypeToString[key.rrtype])
 		}
-		if err := v.validateRRset(rrset, rrsigs); err != nil {
-			return err
+	}
+	return insecure
+}
+
+// validateAnswerRRset validates one of the RRsets in the answer section.
+func (v *Validator) validateAnswerRRset(key rrsetKey, rrset []dns.RR, sigs []*dns.RRSIG) error {
+	if len(sigs) > 0 {
+		return v.validateRRset(rrset, sigs)
+	}
+	// Check if this is an insecure delegation by looking for DS in parent
+	if err := v.checkInsecure(key.name, key.rrtype); err != nil {
+		return err
+	}
+	return fmt.Errorf("%w: %s/%s", ErrNoSignature, key.name, dns.TypeToString[key.rrtype])
+}
+
+// followCNAMEs follows the aliases in the answer and returns the name at the
+// end, and whether there is an RRset with the data asked for at that name.
+func followCNAMEs(q dns.Question, rrsets map[rrsetKey][]dns.RR, sigs map[rrsetKey][]*dns.RRSIG) (string, bool) {
+	name := dns.CanonicalName(q.Name)
+	for range len(rrsets) + 1 {
+		if rrsets[rrsetKey{name, q.Qtype}] != nil {
+			return name, true
+		}
+		for key := range rrsets {
+			if q.Qtype == dns.TypeANY && key.name == name {
+				return name, true
+			}
+		}
+		for key := range sigs {
+			if q.Qtype == dns.TypeRRSIG && key.name == name {
+				return name, true
+			}
+		}
+		cname := rrsets[rrsetKey{name, dns.TypeCNAME}]
+		if len(cname) != 1 {
+			break
 		}
+		name = dns.CanonicalName(cname[0].(*dns.CNAME).Target)
 	}
-	return nil
+	return name, false
+}
+
+// synthesizedCNAME reports whether the CNAME follows from a DNAME in the
+// answer. Such records aren't signed, the DNAME is (RFC 6672 §5.3.1).
+func synthesizedCNAME(cname []dns.RR, rrsets map[rrsetKey][]dns.RR) bool {
+	if len(cname) != 1 {
+		return false
+	}
+	name := dns.CanonicalName(cname[0].Header().Name)
+	target := dns.CanonicalName(cname[0].(*dns.CNAME).Target)
+	for key, rrset := range rrsets {
+		if key.rrtype != dns.TypeDNAME || len(rrset) != 1 || key.name == name || !dns.IsSubDomain(key.name, name) {
+			continue
+		}
+		prefix := strings.TrimSuffix(name, strings.TrimPrefix(key.name, "."))
+		suffix := dns.CanonicalName(rrset[0].(*dns.DNAME).Target)
+		if target == prefix+strings.TrimPrefix(suffix, ".") {
+			return true
+		}
+	}
+	return false
+}
+
+// checkInsecure returns ErrInsecureDelegation if data of the given name and type
+// is provably in an unsigned zone. DS records are in the parent.
+func (v *Validator) checkInsecure(name string, rrtype uint16) error {
+	if rrtype == dns.TypeDS {
+		name = parentZone(name)
+	}
+	return v.checkInsecureDelegation(name)
 }
 
 // checkInsecureDelegation walks the delegation chain from the root toward
-- 
2.43.0


From 616724c9cdb09939ceb3515c59f77139452e7637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:14:39 +0000
Subject: [PATCH 38/49] fix: wildcard answers passed DNSSEC validation for
 names that exist

---
 dnssec/denial_existence.go |  7 +++++++
 dnssec/validator.go        | 21 ++++++++++++++++-----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index 569b936..1b4bf86 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -63,6 +63,13 @@ func (d *denialRecords) add(rrset []dns.RR) {
 	}
 }
 
+// deniesName reports whether the records prove that neither name nor anything
+// below it exists.
+func (d *denialRecords) deniesName(name string) bool {
+	return slices.ContainsFunc(d.nsecs, func(n *dns.NSEC) bool { return nsecDenies(n, name) }) ||
+		nsec3CoverAny(d.nsec3s, name)
+}
+
 // collectVerifiedDenialRecords returns the NSEC and NSEC3 records from the
 // authority section whose covering RRSIG is signed by a zone at or above qname
 // and chains to the trust anchor, by zone. Unsigned or unauthenticated records
diff --git a/dnssec/validator.go b/dnssec/validator.go
index 46e472d..b1eb797 100644
--- a/dnssec/validator.go
+++ b/dnssec/validator.go
@@ -99,7 +99,7 @@ func (v *Validator) Validate(answer *dns.Msg) error {
 		if key.rrtype == dns.TypeCNAME && synthesizedCNAME(rrset, rrsets) {
 			continue
 		}
-		err := v.validateAnswerRRset(key, rrset, sigs[key])
+		err := v.validateAnswerRRset(key, rrset, sigs[key], answer.Ns)
 		if errors.Is(err, ErrInsecureDelegation) {
 			insecure = err
 			continue
@@ -124,9 +124,9 @@ func (v *Validator) Validate(answer *dns.Msg) error {
 }
 
 // validateAnswerRRset validates one of the RRsets in the answer section.
-func (v *Validator) validateAnswerRRset(key rrsetKey, rrset []dns.RR, sigs []*dns.RRSIG) error {
+func (v *Validator) validateAnswerRRset(key rrsetKey, rrset []dns.RR, sigs []*dns.RRSIG, ns []dns.RR) error {
 	if len(sigs) > 0 {
-		return v.validateRRset(rrset, sigs)
+		return v.validateRRset(rrset, sigs, ns)
 	}
 	// Check if this is an insecure delegation by looking for DS in parent
 	if err := v.checkInsecure(key.name, key.rrtype); err != nil {
@@ -235,8 +235,10 @@ func (v *Validator) checkInsecureDelegation(name string) error {
 // a chain of trust to each signer's DNSKEY. An RRset is accepted as soon as one
 // of its RRSIGs verifies; this tolerates ZSK rollovers, where the set carries
 // signatures from both the outgoing and incoming keys and only one is valid
-// against the currently-published DNSKEY RRset.
-func (v *Validator) validateRRset(rrset []dns.RR, sigs []*dns.RRSIG) error {
+// against the currently-published DNSKEY RRset. If the RRset was synthesized
+// from a wildcard, the authority section has to prove that there is no closer
+// match.
+func (v *Validator) validateRRset(rrset []dns.RR, sigs []*dns.RRSIG, ns []dns.RR) error {
 	owner := dns.CanonicalName(rrset[0].Header().Name)
 	var lastErr error
 	for _, sig := range sigs {
@@ -260,6 +262,15 @@ func (v *Validator) validateRRset(rrset []dns.RR, sigs []*dns.RRSIG) error {
 			lastErr = err
 			continue
 		}
+		if wildcardExpanded(rrset, sig) {
+			// RFC 4035 §5.3.4, RFC 5155 §8.8
+			nextCloser := lastNLabels(owner, int(sig.Labels)+1)
+			proof := v.collectVerifiedDenialRecords(ns, owner)[signer]
+			if proof == nil || !proof.deniesName(nextCloser) {
+				lastErr = fmt.Errorf("%w: %s", ErrDenialOfExistence, nextCloser)
+				continue
+			}
+		}
 		return nil
 	}
 	return lastErr
-- 
2.43.0


From 7768452852dbe90c5f32e281f162f1c5a5b87352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:22:42 +0000
Subject: [PATCH 39/49] fix: denials resting on an opt-out span were marked as
 authenticated

---
 dnssec/denial_existence.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dnssec/denial_existence.go b/dnssec/denial_existence.go
index 1b4bf86..374c176 100644
--- a/dnssec/denial_existence.go
+++ b/dnssec/denial_existence.go
@@ -32,6 +32,11 @@ func (v *Validator) validateDenial(answer *dns.Msg) error {
 			return nil
 		}
 		if nsec3ProvesDenial(zone.nsec3s, qname, qtype, answer.Rcode) {
+			// An opt-out span can hide an unsigned delegation, so what it
+			// denies isn't authenticated (RFC 5155 §9.2).
+			if _, nextCloser, ok := nsec3ClosestEncloser(zone.nsec3s, qname); ok && nsec3OptOutCovers(zone.nsec3s, nextCloser) {
+				return fmt.Errorf("%w: %s is in an opt-out span", ErrInsecureDelegation, nextCloser)
+			}
 			return nil
 		}
 	}
-- 
2.43.0


From 3ec4c7e98635156bfab50ac9cbd4712f24cfa8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:59:12 +0000
Subject: [PATCH 40/49] fix: refuse groups without resolvers

A round-robin group with no resolvers was accepted and the first query
crashed the process. The other group types never answered.
Report an error at start instead.
---
 cmd/routedns/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/routedns/main.go b/cmd/routedns/main.go
index 4270abe..e53bfd5 100644
--- a/cmd/routedns/main.go
+++ b/cmd/routedns/main.go
@@ -483,6 +483,12 @@ func instantiateGroup(id string, g group, resolvers map[string]rdns.Resolver) er
 		gr = append(gr, resolver)
 	}
 	switch g.Type {
+	case "round-robin", "fail-rotate", "fail-back", "fastest", "load-balance", "random":
+		if len(gr) == 0 {
+			return fmt.Errorf("type %s requires at least one resolver in '%s'", g.Type, id)
+		}
+	}
+	switch g.Type {
 	case "round-robin":
 		resolvers[id] = rdns.NewRoundRobin(id, gr...)
 	case "fail-rotate":
-- 
2.43.0


From 94207280c85a9a97984932eeed56c83081a355c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:27:13 +0000
Subject: [PATCH 41/49] fix: don't miss a namespace change while subscribing

The current state was determined before the subscriber was registered. A
change in between was neither seen nor reported, leaving the listener down
until the next change.
---
 netns_watch_linux.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/netns_watch_linux.go b/netns_watch_linux.go
index da7abcd..1bf2d07 100644
--- a/netns_watch_linux.go
+++ b/netns_watch_linux.go
@@ -149,10 +149,12 @@ func (w *netnsWatcher) dispatch(name string, state NetNSState) {
 
 func (w *netnsWatcher) subscribe(name string) (<-chan NetNSState, func()) {
 	s := &netnsSubscriber{name: name, ch: make(chan NetNSState, 16)}
-	state := currentNetNSState(name)
 
 	w.mu.Lock()
 	w.subs = append(w.subs, s)
+	// Look while holding the lock so that no change can be dispatched in
+	// between and be missed.
+	state := currentNetNSState(name)
 	// Deliver the current state immediately so the caller learns the
 	// namespace is absent even when /var/run/netns doesn't exist yet and the
 	// inotify watch hasn't been installed.
-- 
2.43.0


From 7d7bbdd3f867dfd1427e4cb16db6c64d3ef1951b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:28:58 +0000
Subject: [PATCH 42/49] fix: always report the latest namespace state

When a namespace came and went many times while its listener was busy, the
last change was dropped and the listener stayed down or up until the next
one.
---
 netns_watch_linux.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/netns_watch_linux.go b/netns_watch_linux.go
index 1bf2d07..1785d3c 100644
--- a/netns_watch_linux.go
+++ b/netns_watch_linux.go
@@ -227,17 +227,23 @@ func currentNetNSState(name string) NetNSState {
 
 // notifyLocked delivers a state change to a subscriber, skipping it if the
 // subscriber's last delivered state is identical. The send is non-blocking; if
-// the channel buffer is full the state is dropped without being recorded, so
-// it is retried on the next event rather than being deduplicated away. Must be
-// called with w.mu held.
+// the channel buffer is full the oldest state makes room so that the subscriber
+// always learns the latest one. Must be called with w.mu held.
 func (w *netnsWatcher) notifyLocked(s *netnsSubscriber, state NetNSState) {
 	if s.hasLast && s.last == state {
 		return
 	}
-	select {
-	case s.ch <- state:
-		s.last = state
-		s.hasLast = true
-	default:
+	for {
+		select {
+		case s.ch <- state:
+			s.last = state
+			s.hasLast = true
+			return
+		default:
+		}
+		select {
+		case <-s.ch:
+		default:
+		}
 	}
 }
-- 
2.43.0


From e62f7796e76ab6e7b2b5f7bff7a50344f357d5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:24:05 +0000
Subject: [PATCH 43/49] fix: use the configured server name over QUIC

The server-name option was replaced with the name in the address for
DNS-over-QUIC and for DNS-over-HTTPS over QUIC.
---
 dohclient.go | 4 +++-
 doqclient.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/dohclient.go b/dohclient.go
index e8806ce..7db3c9b 100644
--- a/dohclient.go
+++ b/dohclient.go
@@ -401,7 +401,9 @@ func dohQuicTransport(endpoint string, opt DoHClientOptions) (http.RoundTripper,
 
 	// enable TLS session caching for session resumption and 0-RTT
 	tlsConfig.ClientSessionCache = tls.NewLRUClientSessionCache(100)
-	tlsConfig.ServerName = u.Hostname()
+	if tlsConfig.ServerName == "" {
+		tlsConfig.ServerName = u.Hostname()
+	}
 
 	quicConfig := &quic.Config{
 		TokenStore: quic.NewLRUTokenStore(10, 10),
diff --git a/doqclient.go b/doqclient.go
index e411fb8..ebde19c 100644
--- a/doqclient.go
+++ b/doqclient.go
@@ -83,7 +83,9 @@ func NewDoQClient(id, endpoint string, opt DoQClientOptions) (*DoQClient, error)
 	}
 
 	// quic-go requires the ServerName be set explicitly
-	tlsConfig.ServerName = host
+	if tlsConfig.ServerName == "" {
+		tlsConfig.ServerName = host
+	}
 
 	// enable TLS session caching for session resumption and 0-RTT
 	if opt.Use0RTT {
-- 
2.43.0


From 4f237bf81cf7b013a93967e88d839cdc0b948068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:24:05 +0000
Subject: [PATCH 44/49] fix: use the configured server name with a bootstrap
 address

The server-name option of DNS-over-TLS resolvers was replaced with the
name in the address when there was a bootstrap address.
---
 dotclient.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dotclient.go b/dotclient.go
index 1892a4c..068baab 100644
--- a/dotclient.go
+++ b/dotclient.go
@@ -69,7 +69,9 @@ func NewDoTClient(id, endpoint string, opt DoTClientOptions) (*DoTClient, error)
 		if err != nil {
 			return nil, errors.Wrapf(err, "failed to parse dot endpoint '%s'", endpoint)
 		}
-		client.TLSConfig.ServerName = host
+		if client.TLSConfig.ServerName == "" {
+			client.TLSConfig.ServerName = host
+		}
 		endpoint = net.JoinHostPort(opt.BootstrapAddr, port)
 	}
 	return &DoTClient{
-- 
2.43.0


From dda4fdd9ebf4259e500bef1d58d5d5494cb1cd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:24:36 +0000
Subject: [PATCH 45/49] fix: verify the server name of DTLS resolvers

The name in the certificate of a DTLS server was only looked at when a
bootstrap address was configured, so any certificate issued by a trusted
authority was accepted. The server-name option was not used either.
---
 cmd/routedns/resolver.go |  1 +
 dtlsclient.go            | 28 ++++++++++++++++++++++++++--
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/cmd/routedns/resolver.go b/cmd/routedns/resolver.go
index 164240c..c8d918a 100644
--- a/cmd/routedns/resolver.go
+++ b/cmd/routedns/resolver.go
@@ -75,6 +75,7 @@ func instantiateResolver(id string, r resolver, resolvers map[string]rdns.Resolv
 		if err != nil {
 			return err
 		}
+		dtlsConfig.ServerName = r.ServerName
 		opt := rdns.DTLSClientOptions{
 			BootstrapAddr: r.BootstrapAddr,
 			LocalAddr:     net.ParseIP(r.LocalAddr),
diff --git a/dtlsclient.go b/dtlsclient.go
index 1cdee6c..15aa6f8 100644
--- a/dtlsclient.go
+++ b/dtlsclient.go
@@ -2,6 +2,7 @@ package rdns
 
 import (
 	"context"
+	"crypto/x509"
 	"fmt"
 	"net"
 	"strconv"
@@ -60,11 +61,34 @@ func NewDTLSClient(id, endpoint string, opt DTLSClientOptions) (*DTLSClient, err
 	if err != nil {
 		return nil, err
 	}
+	// Verify the certificate of the server against the name in the endpoint unless another
+	// name is configured.
+	dtlsConfig := new(dtls.Config)
+	if opt.DTLSConfig != nil {
+		*dtlsConfig = *opt.DTLSConfig
+	}
+	if dtlsConfig.ServerName == "" {
+		dtlsConfig.ServerName = host
+	}
+	// The library doesn't verify IP addresses, that has to be done here.
+	if name := dtlsConfig.ServerName; net.ParseIP(name) != nil && !dtlsConfig.InsecureSkipVerify {
+		next := dtlsConfig.VerifyPeerCertificate
+		dtlsConfig.VerifyPeerCertificate = func(rawCerts [][]byte, verifiedChains [][]*x509.Certificate) error {
+			for _, chain := range verifiedChains {
+				if err := chain[0].VerifyHostname(name); err != nil {
+					return err
+				}
+			}
+			if next != nil {
+				return next(rawCerts, verifiedChains)
+			}
+			return nil
+		}
+	}
 	// If a bootstrap address was provided, we need to use the IP for the connection but the
 	// hostname in the TLS handshake.
 	var ip net.IP
 	if opt.BootstrapAddr != "" {
-		opt.DTLSConfig.ServerName = host
 		ip = net.ParseIP(opt.BootstrapAddr)
 		if ip == nil {
 			return nil, fmt.Errorf("failed to parse bootstrap address '%s'", opt.BootstrapAddr)
@@ -96,7 +120,7 @@ func NewDTLSClient(id, endpoint string, opt DTLSClientOptions) (*DTLSClient, err
 	client := &dtlsDialer{
 		raddr:         addr,
 		laddr:         laddr,
-		dtlsConfig:    opt.DTLSConfig,
+		dtlsConfig:    dtlsConfig,
 		netns:         opt.NetNS,
 		socketOptions: opt.SocketOptions,
 	}
-- 
2.43.0


From e5d07261e04fc4f720f31ce5d7c94f0d6966172e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:25:21 +0000
Subject: [PATCH 46/49] fix: verify the name of DNS-over-TLS servers, not their
 IP

The name in the address was resolved before the TLS handshake, and the
certificate was then verified against the resulting IP.
---
 dnsclient.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dnsclient.go b/dnsclient.go
index 4d84496..ebea031 100644
--- a/dnsclient.go
+++ b/dnsclient.go
@@ -126,6 +126,9 @@ func (d GenericDNSClient) Dial(address string) (*dns.Conn, error) {
 	useTLS := strings.HasPrefix(network, "tcp") && strings.HasSuffix(network, "-tls")
 	network = strings.TrimSuffix(network, "-tls")
 
+	// The name to verify is the one configured, not the IP it resolves to
+	endpoint := address
+
 	dialer := d.Dialer
 	var localAddr net.IP
 	if dialer == nil {
@@ -193,7 +196,7 @@ func (d GenericDNSClient) Dial(address string) (*dns.Conn, error) {
 	}
 
 	if useTLS {
-		hostname, _, err := net.SplitHostPort(address)
+		hostname, _, err := net.SplitHostPort(endpoint)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 5b459279e1e0c3478bce53d9b65a767f6d22cd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:21:34 +0000
Subject: [PATCH 47/49] fix: leave out empty records in static responders

A blank or commented record line, or a template that produces no text,
parses to no record at all. Static responders then crashed on every query,
and responses of template responders could not be sent.
---
 static-template.go | 3 +++
 static.go          | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/static-template.go b/static-template.go
index 077f1cd..a5de17d 100644
--- a/static-template.go
+++ b/static-template.go
@@ -103,6 +103,9 @@ func (r *StaticTemplateResolver) processRRTemplates(q *dns.Msg, ci ClientInfo, t
 			log.Warn("failed to parse template output", "error", err)
 			continue
 		}
+		if rr == nil { // the template produced no record
+			continue
+		}
 		// Update the name of every answer record to match that of the query
 		// rr.Header().Name = qName(q)
 		resp = append(resp, rr)
diff --git a/static.go b/static.go
index 960700c..5f64e93 100644
--- a/static.go
+++ b/static.go
@@ -40,6 +40,9 @@ func NewStaticResolver(id string, opt StaticResolverOptions) (*StaticResolver, e
 		if err != nil {
 			return nil, err
 		}
+		if rr == nil { // blank line or comment
+			continue
+		}
 		r.answer = append(r.answer, rr)
 	}
 	for _, record := range opt.NS {
@@ -47,6 +50,9 @@ func NewStaticResolver(id string, opt StaticResolverOptions) (*StaticResolver, e
 		if err != nil {
 			return nil, err
 		}
+		if rr == nil { // blank line or comment
+			continue
+		}
 		r.ns = append(r.ns, rr)
 	}
 	for _, record := range opt.Extra {
@@ -54,6 +60,9 @@ func NewStaticResolver(id string, opt StaticResolverOptions) (*StaticResolver, e
 		if err != nil {
 			return nil, err
 		}
+		if rr == nil { // blank line or comment
+			continue
+		}
 		r.extra = append(r.extra, rr)
 	}
 	r.rcode = opt.RCode
-- 
2.43.0


From 9e59a4a3c9aba153fa4ec7a994e1990d107d9c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:40:24 +0000
Subject: [PATCH 48/49] fix: only remove stale sockets when the fd-server
 starts

Connecting to a regular file is refused just like connecting to a socket
nobody listens on. The fd-server deleted such a file and took its place.
---
 xsocketserver_linux.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xsocketserver_linux.go b/xsocketserver_linux.go
index 10fc87c..17b2c77 100644
--- a/xsocketserver_linux.go
+++ b/xsocketserver_linux.go
@@ -102,6 +102,10 @@ func (s *XSocketServer) listen() (*net.UnixListener, error) {
 		} else if !errors.Is(derr, syscall.ECONNREFUSED) {
 			return nil, err
 		}
+		// Connecting to any other kind of file is refused as well, leave those alone.
+		if fi, serr := os.Lstat(s.path); serr != nil || fi.Mode()&fs.ModeSocket == 0 {
+			return nil, err
+		}
 		Log.Info("removing stale socket", "socket", s.path)
 		if rerr := os.Remove(s.path); rerr != nil {
 			return nil, err
-- 
2.43.0


From c791f352a162fd164bb0c62a6bc59c9d0ab7db9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:40:24 +0000
Subject: [PATCH 49/49] fix: close sockets received with a malformed xsocket
 response

A socket that came with a short response or a wrong signature stayed open
for as long as the program ran.
---
 xsocket_linux.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/xsocket_linux.go b/xsocket_linux.go
index 747eaef..6d542f9 100644
--- a/xsocket_linux.go
+++ b/xsocket_linux.go
@@ -58,15 +58,8 @@ func xsocketGetFd(path string, domain, typ, proto int) (int, error) {
 	if err != nil {
 		return -1, os.NewSyscallError("recvmsg", err)
 	}
-	if n < len(resp) {
-		return -1, fmt.Errorf("xsocket: short response (%d bytes)", n)
-	}
-	if sig := binary.BigEndian.Uint32(resp[0:]); sig != xsProtocolResponse {
-		return -1, fmt.Errorf("xsocket: invalid response signature %#x", sig)
-	}
-
 	// Always parse any descriptors that came back so we never leak one, even
-	// when the server also reported an error.
+	// when the response is malformed or the server also reported an error.
 	var fds []int
 	if scms, perr := unix.ParseSocketControlMessage(oob[:oobn]); perr == nil {
 		for i := range scms {
@@ -75,10 +68,21 @@ func xsocketGetFd(path string, domain, typ, proto int) (int, error) {
 			}
 		}
 	}
-	if errno := binary.BigEndian.Uint32(resp[4:]); errno != 0 {
+	closeAll := func() {
 		for _, fd := range fds {
 			unix.Close(fd)
 		}
+	}
+	if n < len(resp) {
+		closeAll()
+		return -1, fmt.Errorf("xsocket: short response (%d bytes)", n)
+	}
+	if sig := binary.BigEndian.Uint32(resp[0:]); sig != xsProtocolResponse {
+		closeAll()
+		return -1, fmt.Errorf("xsocket: invalid response signature %#x", sig)
+	}
+	if errno := binary.BigEndian.Uint32(resp[4:]); errno != 0 {
+		closeAll()
 		return -1, fmt.Errorf("xsocket-server returned error: %w", unix.Errno(errno))
 	}
 	if len(fds) == 0 {
-- 
2.43.0

