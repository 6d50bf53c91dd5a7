From 3cff44d117e814ad37b0203c4c34ca587c1118ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 01/30] fix: anchor regexp patterns as a whole, not just their
 first alternative

`/a|/b` was turned into `\A/a|/b`, whose second branch is not anchored and
matched anywhere in the path.
---
 web/regexp_pattern.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/web/regexp_pattern.go b/web/regexp_pattern.go
index 95e7e09..17f8f0f 100644
--- a/web/regexp_pattern.go
+++ b/web/regexp_pattern.go
@@ -86,8 +86,13 @@ func sketchOnRegex(re *regexp.Regexp) (*regexp.Regexp, string) {
 		return re, ""
 	}
 	if p.StartCond()&syntax.EmptyBeginText == 0 {
-		// I hope doing this is always legal...
-		newRe, err := regexp.Compile(`\A` + rawRe)
+		// The group makes the anchor apply to the expression as a
+		// whole, and not just to the first branch of an alternation.
+		newRe, err := regexp.Compile(`\A(?:` + rawRe + `)`)
+		if err != nil {
+			// A trailing \Q without \E would quote our parenthesis.
+			newRe, err = regexp.Compile(`\A(?:` + rawRe + `\E)`)
+		}
 		if err != nil {
 			log.Printf("WARN(web): unable to create a left-"+
 				"anchored regexp from %v. This route might "+
-- 
2.43.0


From 3c3db1d79ac50fb5b8e9766a2ec093fc8c264967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 02/30] fix: do not bind URL parameters while merely matching a
 regexp pattern

Match bound the capturing groups into the request's context, so that a route
which matched the path but not the method polluted the URLParams seen by the
handler that was eventually selected.
---
 web/regexp_pattern.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/regexp_pattern.go b/web/regexp_pattern.go
index 17f8f0f..b04f0c6 100644
--- a/web/regexp_pattern.go
+++ b/web/regexp_pattern.go
@@ -19,7 +19,7 @@ func (p regexpPattern) Prefix() string {
 	return p.prefix
 }
 func (p regexpPattern) Match(r *http.Request, c *C) bool {
-	return p.match(r, c, false)
+	return p.match(r, c, true)
 }
 func (p regexpPattern) Run(r *http.Request, c *C) {
 	p.match(r, c, false)
-- 
2.43.0


From 0146ec60eb31102bef67a8041241259564b23966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 03/30] fix: U+FFFD in a regexp pattern must not become part of
 its prefix

It also matches bytes that are not valid UTF-8, so a route such as
^/\x{FFFD} was never tried for a path it matches.
---
 web/regexp_pattern.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/web/regexp_pattern.go b/web/regexp_pattern.go
index b04f0c6..dbbfdd3 100644
--- a/web/regexp_pattern.go
+++ b/web/regexp_pattern.go
@@ -7,6 +7,7 @@ import (
 	"net/http"
 	"regexp"
 	"regexp/syntax"
+	"unicode/utf8"
 )
 
 type regexpPattern struct {
@@ -124,6 +125,10 @@ Sadness:
 				syntax.Flags(i.Arg)&syntax.FoldCase != 0 {
 				break Sadness
 			}
+			if i.Rune[0] == utf8.RuneError {
+				// Also matches any byte that isn't valid UTF-8.
+				break Sadness
+			}
 			buf.WriteRune(i.Rune[0])
 		default:
 			break Sadness
-- 
2.43.0


From 0e50d5dfcbe4256cfc3293dbf2369d4cfcdcbeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 04/30] fix: RawPattern returns the regexp originally passed

For an expression that was not left-anchored it returned the rewritten one.
---
 web/match.go          | 2 +-
 web/regexp_pattern.go | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/web/match.go b/web/match.go
index 1a44144..2cbcdfa 100644
--- a/web/match.go
+++ b/web/match.go
@@ -42,7 +42,7 @@ func GetMatch(c C) Match {
 func (m Match) RawPattern() PatternType {
 	switch v := m.Pattern.(type) {
 	case regexpPattern:
-		return v.re
+		return v.raw
 	case stringPattern:
 		return v.raw
 	default:
diff --git a/web/regexp_pattern.go b/web/regexp_pattern.go
index dbbfdd3..820a979 100644
--- a/web/regexp_pattern.go
+++ b/web/regexp_pattern.go
@@ -11,6 +11,7 @@ import (
 )
 
 type regexpPattern struct {
+	raw    *regexp.Regexp
 	re     *regexp.Regexp
 	prefix string
 	names  []string
@@ -50,7 +51,7 @@ func (p regexpPattern) String() string {
 }
 
 func (p regexpPattern) Raw() *regexp.Regexp {
-	return p.re
+	return p.raw
 }
 
 /*
@@ -139,8 +140,8 @@ Sadness:
 	return re, buf.String()
 }
 
-func parseRegexpPattern(re *regexp.Regexp) regexpPattern {
-	re, prefix := sketchOnRegex(re)
+func parseRegexpPattern(raw *regexp.Regexp) regexpPattern {
+	re, prefix := sketchOnRegex(raw)
 	rnames := re.SubexpNames()
 	// We have to make our own copy since package regexp forbids us
 	// from scribbling over the slice returned by SubexpNames().
@@ -152,6 +153,7 @@ func parseRegexpPattern(re *regexp.Regexp) regexpPattern {
 		names[i] = rname
 	}
 	return regexpPattern{
+		raw:    raw,
 		re:     re,
 		prefix: prefix,
 		names:  names,
-- 
2.43.0


From 8d548fc151ca41712c10d1622362c925614341f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 05/30] fix: NoCache's Expires header is in UTC whatever the
 local time zone

It was formatted in the process's time zone, giving e.g. 'Wed, 31 Dec 1969
19:00:00 EST' instead of the documented (and valid) UTC date.
---
 web/middleware/nocache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/middleware/nocache.go b/web/middleware/nocache.go
index ae3d260..754d463 100644
--- a/web/middleware/nocache.go
+++ b/web/middleware/nocache.go
@@ -6,7 +6,7 @@ import (
 )
 
 // Unix epoch time
-var epoch = time.Unix(0, 0).Format(time.RFC1123)
+var epoch = time.Unix(0, 0).UTC().Format(time.RFC1123)
 
 // Taken from https://github.com/mytrile/nocache
 var noCacheHeaders = map[string]string{
-- 
2.43.0


From 29f9b9e876604744d4ca3f521a94e19ec7b15627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 06/30] fix: count bytes sent through ReadFrom in BytesWritten

---
 web/mutil/writer_proxy.go       | 4 +++-
 web/mutil/writer_proxy_go1_8.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/web/mutil/writer_proxy.go b/web/mutil/writer_proxy.go
index fb4a08b..00aa565 100644
--- a/web/mutil/writer_proxy.go
+++ b/web/mutil/writer_proxy.go
@@ -130,7 +130,9 @@ func (f *fancyWriter) ReadFrom(r io.Reader) (int64, error) {
 	}
 	rf := f.basicWriter.ResponseWriter.(io.ReaderFrom)
 	f.basicWriter.maybeWriteHeader()
-	return rf.ReadFrom(r)
+	n, err := rf.ReadFrom(r)
+	f.basicWriter.bytes += int(n)
+	return n, err
 }
 
 type flushWriter struct {
diff --git a/web/mutil/writer_proxy_go1_8.go b/web/mutil/writer_proxy_go1_8.go
index 2019c98..af5191b 100644
--- a/web/mutil/writer_proxy_go1_8.go
+++ b/web/mutil/writer_proxy_go1_8.go
@@ -125,7 +125,9 @@ func (f *fancyWriter) ReadFrom(r io.Reader) (int64, error) {
 	}
 	rf := f.basicWriter.ResponseWriter.(io.ReaderFrom)
 	f.basicWriter.maybeWriteHeader()
-	return rf.ReadFrom(r)
+	n, err := rf.ReadFrom(r)
+	f.basicWriter.bytes += int(n)
+	return n, err
 }
 
 var (
-- 
2.43.0


From 22df1b244671b6945f224b5e6710253f7e309644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 07/30] fix: flushing a proxied writer sends its header, so
 record the status

After a Flush the client has received a 200, but Status kept returning 0 and a
later WriteHeader was recorded as if it had been sent.
---
 web/mutil/writer_proxy.go       | 2 ++
 web/mutil/writer_proxy_go1_8.go | 1 +
 2 files changed, 3 insertions(+)

diff --git a/web/mutil/writer_proxy.go b/web/mutil/writer_proxy.go
index 00aa565..37fb036 100644
--- a/web/mutil/writer_proxy.go
+++ b/web/mutil/writer_proxy.go
@@ -115,6 +115,7 @@ func (f *fancyWriter) CloseNotify() <-chan bool {
 }
 
 func (f *fancyWriter) Flush() {
+	f.basicWriter.maybeWriteHeader()
 	fl := f.basicWriter.ResponseWriter.(http.Flusher)
 	fl.Flush()
 }
@@ -140,6 +141,7 @@ type flushWriter struct {
 }
 
 func (f *flushWriter) Flush() {
+	f.basicWriter.maybeWriteHeader()
 	fl := f.basicWriter.ResponseWriter.(http.Flusher)
 	fl.Flush()
 }
diff --git a/web/mutil/writer_proxy_go1_8.go b/web/mutil/writer_proxy_go1_8.go
index af5191b..08eb105 100644
--- a/web/mutil/writer_proxy_go1_8.go
+++ b/web/mutil/writer_proxy_go1_8.go
@@ -110,6 +110,7 @@ func (f *fancyWriter) Push(target string, opts *http.PushOptions) error {
 }
 
 func (f *fancyWriter) Flush() {
+	f.basicWriter.maybeWriteHeader()
 	fl := f.basicWriter.ResponseWriter.(http.Flusher)
 	fl.Flush()
 }
-- 
2.43.0


From 043e94b803a0672caa810d77a45fcf4d46e87606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 08/30] fix: Push on a proxied HTTP/1.1 writer must not panic

The proxy claims to be a http.Pusher even if the proxied writer is not one.
---
 web/mutil/writer_proxy_go1_8.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/web/mutil/writer_proxy_go1_8.go b/web/mutil/writer_proxy_go1_8.go
index 08eb105..054b86c 100644
--- a/web/mutil/writer_proxy_go1_8.go
+++ b/web/mutil/writer_proxy_go1_8.go
@@ -106,7 +106,10 @@ type fancyWriter struct {
 }
 
 func (f *fancyWriter) Push(target string, opts *http.PushOptions) error {
-	return f.basicWriter.ResponseWriter.(http.Pusher).Push(target, opts)
+	if p, ok := f.basicWriter.ResponseWriter.(http.Pusher); ok {
+		return p.Push(target, opts)
+	}
+	return http.ErrNotSupported
 }
 
 func (f *fancyWriter) Flush() {
-- 
2.43.0


From af3fcee2b49c3a2c5288e8a1845a59fce0f455ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 09/30] fix: informational headers do not preclude a proxied
 writer's real status

WriteHeader(103) made the proxy drop the final WriteHeader, so that clients
received a 200 instead of the handler's status.
---
 web/mutil/writer_proxy_go1_8.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/web/mutil/writer_proxy_go1_8.go b/web/mutil/writer_proxy_go1_8.go
index 054b86c..8611614 100644
--- a/web/mutil/writer_proxy_go1_8.go
+++ b/web/mutil/writer_proxy_go1_8.go
@@ -54,6 +54,14 @@ type basicWriter struct {
 }
 
 func (b *basicWriter) WriteHeader(code int) {
+	if code >= 100 && code <= 199 && code != http.StatusSwitchingProtocols {
+		// Informational headers may be followed by others, and are not
+		// the status of the response.
+		if !b.wroteHeader {
+			b.ResponseWriter.WriteHeader(code)
+		}
+		return
+	}
 	if !b.wroteHeader {
 		b.code = code
 		b.wroteHeader = true
-- 
2.43.0


From 66d569628782e26ed7b8740bca9dd00aa9b1cc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 10/30] fix: keep http.Flusher when proxying a writer that only
 adds that

HTTP/2 writers, for instance, are Flushers but not Hijackers; the proxy for Go
1.8 and later (unlike the one for earlier versions) lost Flush for them.
---
 web/mutil/writer_proxy_go1_8.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/web/mutil/writer_proxy_go1_8.go b/web/mutil/writer_proxy_go1_8.go
index 8611614..2bd1416 100644
--- a/web/mutil/writer_proxy_go1_8.go
+++ b/web/mutil/writer_proxy_go1_8.go
@@ -40,6 +40,9 @@ func WrapWriter(w http.ResponseWriter) WriterProxy {
 	if fl && hj && rf {
 		return &fancyWriter{bw}
 	}
+	if fl {
+		return &flushWriter{bw}
+	}
 	return &bw
 }
 
@@ -142,9 +145,20 @@ func (f *fancyWriter) ReadFrom(r io.Reader) (int64, error) {
 	return n, err
 }
 
+type flushWriter struct {
+	basicWriter
+}
+
+func (f *flushWriter) Flush() {
+	f.basicWriter.maybeWriteHeader()
+	fl := f.basicWriter.ResponseWriter.(http.Flusher)
+	fl.Flush()
+}
+
 var (
 	_ http.Pusher   = &fancyWriter{}
 	_ http.Flusher  = &fancyWriter{}
 	_ http.Hijacker = &fancyWriter{}
 	_ io.ReaderFrom = &fancyWriter{}
+	_ http.Flusher  = &flushWriter{}
 )
-- 
2.43.0


From 2130d5665ee0d17a5f972e17a52d69866e14f06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:00 +0000
Subject: [PATCH 11/30] fix: disowning a closed connection must not release it
 a second time

The second release made the shard's wait group panic (negative counter) or,
with other connections open, made Drain return before they had finished. This
happens for instance when a handler hijacks a connection that ShutdownNow has
just closed.
---
 graceful/listener/conn.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graceful/listener/conn.go b/graceful/listener/conn.go
index 7b34b47..71a66ce 100644
--- a/graceful/listener/conn.go
+++ b/graceful/listener/conn.go
@@ -141,6 +141,8 @@ func (c *conn) disown() error {
 
 	if c.disowned {
 		return errAlreadyDisowned
+	} else if c.closed {
+		return errClosing
 	}
 
 	c.shard.disown(c)
-- 
2.43.0


From 2f781f456f15d08c4150e9ddbcafc00f8a87e7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 12/30] fix: DrainAll must not close a connection disowned
 while it runs

It closed every connection in a snapshot of the set of managed connections,
including those disowned after the snapshot was taken.
---
 graceful/listener/conn.go  | 15 +++++++++++++++
 graceful/listener/shard.go |  2 +-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/graceful/listener/conn.go b/graceful/listener/conn.go
index 71a66ce..271b8be 100644
--- a/graceful/listener/conn.go
+++ b/graceful/listener/conn.go
@@ -133,6 +133,21 @@ func (c *conn) closeIfIdle() error {
 	return nil
 }
 
+// Like Close, but leaves connections alone that have been disowned meanwhile.
+func (c *conn) closeIfManaged() error {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
+	if !c.closed && !c.disowned {
+		c.closed = true
+		c.shard.disown(c)
+		defer c.shard.wg.Done()
+		return c.Conn.Close()
+	}
+
+	return nil
+}
+
 var errAlreadyDisowned = errors.New("listener: conn already disowned")
 
 func (c *conn) disown() error {
diff --git a/graceful/listener/shard.go b/graceful/listener/shard.go
index a9addad..cf79484 100644
--- a/graceful/listener/shard.go
+++ b/graceful/listener/shard.go
@@ -86,7 +86,7 @@ func (s *shard) closeConns(all, drain bool) {
 		// happen. (I also expect that most errors returned in this way
 		// are going to be pretty boring)
 		if all {
-			c.Close()
+			c.closeIfManaged()
 		} else {
 			c.closeIfIdle()
 		}
-- 
2.43.0


From 6523d7efed0136e9b05ab45f9eb4ece5ec999951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 13/30] fix: Accept must not add to a wait group that Drain is
 waiting on

A connection accepted just as the last outstanding one of its shard finished
made Drain panic with 'WaitGroup is reused before previous Wait has returned'.
---
 graceful/listener/conn.go  | 3 +--
 graceful/listener/shard.go | 3 +++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/graceful/listener/conn.go b/graceful/listener/conn.go
index 271b8be..72cd2aa 100644
--- a/graceful/listener/conn.go
+++ b/graceful/listener/conn.go
@@ -24,9 +24,8 @@ type conn struct {
 var errClosing = errors.New("use of closed network connection")
 
 func (c *conn) init() error {
-	c.shard.wg.Add(1)
 	if shouldExit := c.shard.track(c); shouldExit {
-		c.Close()
+		c.Conn.Close()
 		return errClosing
 	}
 	return nil
diff --git a/graceful/listener/shard.go b/graceful/listener/shard.go
index cf79484..48d3884 100644
--- a/graceful/listener/shard.go
+++ b/graceful/listener/shard.go
@@ -30,6 +30,9 @@ func (s *shard) track(c *conn) (shouldClose bool) {
 		s.mu.Unlock()
 		return true
 	}
+	// Adding with the lock held ensures that this cannot race with wait,
+	// which is only ever called after drain has been set.
+	s.wg.Add(1)
 	s.all[c] = struct{}{}
 	s.idle[c] = struct{}{}
 	s.mu.Unlock()
-- 
2.43.0


From b67dc83918fc699bc14ecb28a679c0a9396a3737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 14/30] fix: marking a closed or disowned connection idle must
 not track it again

It was put back into the set of idle connections, and never left it.
---
 graceful/listener/conn.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graceful/listener/conn.go b/graceful/listener/conn.go
index 72cd2aa..45b987c 100644
--- a/graceful/listener/conn.go
+++ b/graceful/listener/conn.go
@@ -99,7 +99,10 @@ func (c *conn) markIdle() {
 	}
 	c.busy = false
 
-	if exit := c.shard.markIdle(c); exit && !c.closed && !c.disowned {
+	if c.closed || c.disowned {
+		return
+	}
+	if exit := c.shard.markIdle(c); exit {
 		c.closed = true
 		c.shard.disown(c)
 		defer c.shard.wg.Done()
-- 
2.43.0


From 57bf09a5e8f511100495726963c2865bf482273c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 15/30] fix: Serve must return peacefully if a connection
 arrives during shutdown

Accept fails with a plain error for a connection that was accepted just before
the listener was closed but is tracked only after draining began. Serve passed
it on, and goji.Serve exited fatally instead of finishing requests.
---
 graceful/graceful.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/graceful/graceful.go b/graceful/graceful.go
index 19490e0..d46d13d 100644
--- a/graceful/graceful.go
+++ b/graceful/graceful.go
@@ -46,6 +46,11 @@ func peacefulError(err error) error {
 	if atomic.LoadInt32(&closing) == 0 {
 		return err
 	}
+	// A drained listener returns this error, without a net.OpError around it,
+	// for connections that were accepted just before it was closed.
+	if err != nil && err.Error() == errClosing {
+		return nil
+	}
 	// Unfortunately Go doesn't really give us a better way to select errors
 	// than this, so *shrug*.
 	if oe, ok := err.(*net.OpError); ok {
-- 
2.43.0


From 8df9e640f13b35101b87c873f8ed8c6d6bd296e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 16/30] fix: shutting down must not lose requests that have
 just been read

http.Server.SetKeepAlivesEnabled closes every connection which isn't in
StateActive, and that includes connections whose next request has been read
and is about to be handled: its handler ran but the response was lost.
---
 graceful/serve13.go | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/graceful/serve13.go b/graceful/serve13.go
index 68cac04..e1d1ec7 100644
--- a/graceful/serve13.go
+++ b/graceful/serve13.go
@@ -6,6 +6,7 @@ import (
 	"log"
 	"net"
 	"net/http"
+	"sync/atomic"
 
 	"github.com/zenazn/goji/graceful/listener"
 )
@@ -13,16 +14,37 @@ import (
 // This is a slightly hacky shim to disable keepalives when shutting a server
 // down. We could have added extra functionality in listener or signal.go to
 // deal with this case, but this seems simpler.
+//
+// We can't use http.Server's SetKeepAlivesEnabled for this: in addition to
+// disabling keepalives, it closes every connection that isn't in StateActive,
+// which includes those whose next request has already been read (see
+// connState.Wrap for why this is a problem).
 type gracefulServer struct {
 	net.Listener
-	s *http.Server
+	closing *int32
 }
 
 func (g gracefulServer) Close() error {
-	g.s.SetKeepAlivesEnabled(false)
+	atomic.StoreInt32(g.closing, 1)
 	return g.Listener.Close()
 }
 
+// An http.Handler that asks clients to not reuse their connections once the
+// server is shutting down. Connections that are used nevertheless are closed
+// when they're next marked as idle.
+type closingHandler struct {
+	h       http.Handler
+	closing *int32
+}
+
+func (c closingHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
+	// Leave connection upgrades alone: they don't end with this response
+	if atomic.LoadInt32(c.closing) != 0 && r.Header.Get("Upgrade") == "" {
+		w.Header().Set("Connection", "close")
+	}
+	c.h.ServeHTTP(w, r)
+}
+
 // A chaining http.ConnState wrapper
 type connState func(net.Conn, http.ConnState)
 
@@ -67,7 +89,13 @@ func (srv *Server) Serve(l net.Listener) error {
 	shadow := *(*http.Server)(srv)
 	shadow.ConnState = connState(shadow.ConnState).Wrap
 
-	l = gracefulServer{l, &shadow}
+	var closing int32
+	if shadow.Handler == nil {
+		shadow.Handler = http.DefaultServeMux
+	}
+	shadow.Handler = closingHandler{shadow.Handler, &closing}
+
+	l = gracefulServer{l, &closing}
 	wrap := listener.Wrap(l, listener.Automatic)
 	appendListener(wrap)
 
-- 
2.43.0


From a9767b431146a0acf083a94e89a83623a4f9cb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 17/30] fix: copy the whole tls.Config when serving TLS

The hand-written copy dropped every field added since Go 1.6, so checks such
as VerifyPeerCertificate were silently skipped.
---
 graceful/clone16.go |  2 +-
 graceful/clone18.go | 15 +++++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)
 create mode 100644 graceful/clone18.go

diff --git a/graceful/clone16.go b/graceful/clone16.go
index 810b3a2..18fbbbc 100644
--- a/graceful/clone16.go
+++ b/graceful/clone16.go
@@ -1,4 +1,4 @@
-// +build go1.6
+// +build go1.6,!go1.8
 
 package graceful
 
diff --git a/graceful/clone18.go b/graceful/clone18.go
new file mode 100644
index 0000000..eb6e8c3
--- /dev/null
+++ b/graceful/clone18.go
@@ -0,0 +1,15 @@
+// +build go1.8
+
+package graceful
+
+import "crypto/tls"
+
+// tls.Config objects know how to clone themselves since Go 1.8, and unlike the
+// code in clone16.go they won't miss fields that were added later (some of
+// which, like VerifyPeerCertificate, are security-critical).
+func cloneTLSConfig(cfg *tls.Config) *tls.Config {
+	if cfg == nil {
+		return &tls.Config{}
+	}
+	return cfg.Clone()
+}
-- 
2.43.0


From 37da9799d82b1e7f843a099fde090d39a58049f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:15 +0000
Subject: [PATCH 18/30] fix: NoCache must remove conditional headers whose
 first value is empty

---
 web/middleware/nocache.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/web/middleware/nocache.go b/web/middleware/nocache.go
index 754d463..f392673 100644
--- a/web/middleware/nocache.go
+++ b/web/middleware/nocache.go
@@ -38,9 +38,7 @@ func NoCache(h http.Handler) http.Handler {
 
 		// Delete any ETag headers that may have been set
 		for _, v := range etagHeaders {
-			if r.Header.Get(v) != "" {
-				r.Header.Del(v)
-			}
+			r.Header.Del(v)
 		}
 
 		// Set our NoCache headers
-- 
2.43.0


From 56fcf99daeadb51390a4a23af538e80479bf333b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:15 +0000
Subject: [PATCH 19/30] fix: informational headers must not keep
 AutomaticOptions from answering

---
 web/middleware/options.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/web/middleware/options.go b/web/middleware/options.go
index 4bdce5f..2e0b821 100644
--- a/web/middleware/options.go
+++ b/web/middleware/options.go
@@ -40,6 +40,14 @@ func (p *autoOptionsProxy) Write(buf []byte) (int, error) {
 }
 
 func (p *autoOptionsProxy) WriteHeader(code int) {
+	if code >= 100 && code <= 199 && code != http.StatusSwitchingProtocols {
+		// Informational headers do not decide what the response will be.
+		if p.state == aosInit {
+			p.w.WriteHeader(code)
+		}
+		return
+	}
+
 	methods := getValidMethods(*p.c)
 	switch p.state {
 	case aosInit:
-- 
2.43.0


From 2fc095257c921c1ff295ac0952b5b209d42d4365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:15 +0000
Subject: [PATCH 20/30] fix: AutomaticOptions must not announce the length of a
 body it drops

---
 web/middleware/options.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/web/middleware/options.go b/web/middleware/options.go
index 2e0b821..53ba576 100644
--- a/web/middleware/options.go
+++ b/web/middleware/options.go
@@ -64,6 +64,8 @@ func (p *autoOptionsProxy) WriteHeader(code int) {
 
 	methods = addMethod(methods, "OPTIONS")
 	p.w.Header().Set("Allow", strings.Join(methods, ", "))
+	// The 404's body, which this might describe, is not sent.
+	p.w.Header().Del("Content-Length")
 	p.w.WriteHeader(http.StatusOK)
 }
 
-- 
2.43.0


From 52cd75cd1ba58ed02da33a3d75e0dfb5003d0936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:29 +0000
Subject: [PATCH 21/30] fix: an invalid status code must not keep a proxied
 writer from sending a valid one

---
 web/mutil/writer_proxy.go       | 3 ++-
 web/mutil/writer_proxy_go1_8.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/web/mutil/writer_proxy.go b/web/mutil/writer_proxy.go
index 37fb036..5e9d6c4 100644
--- a/web/mutil/writer_proxy.go
+++ b/web/mutil/writer_proxy.go
@@ -59,9 +59,10 @@ type basicWriter struct {
 
 func (b *basicWriter) WriteHeader(code int) {
 	if !b.wroteHeader {
+		// This panics, and sends nothing, if the code is not a valid one.
+		b.ResponseWriter.WriteHeader(code)
 		b.code = code
 		b.wroteHeader = true
-		b.ResponseWriter.WriteHeader(code)
 	}
 }
 
diff --git a/web/mutil/writer_proxy_go1_8.go b/web/mutil/writer_proxy_go1_8.go
index 2bd1416..7abfa3d 100644
--- a/web/mutil/writer_proxy_go1_8.go
+++ b/web/mutil/writer_proxy_go1_8.go
@@ -66,9 +66,10 @@ func (b *basicWriter) WriteHeader(code int) {
 		return
 	}
 	if !b.wroteHeader {
+		// This panics, and sends nothing, if the code is not a valid one.
+		b.ResponseWriter.WriteHeader(code)
 		b.code = code
 		b.wroteHeader = true
-		b.ResponseWriter.WriteHeader(code)
 	}
 }
 
-- 
2.43.0


From 419ecc4590133de8738639c56ea06d6f07181efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:29 +0000
Subject: [PATCH 22/30] fix: ReadFrom must not send a header when there is
 nothing to send

---
 web/mutil/writer_proxy.go       | 14 ++++++++++++--
 web/mutil/writer_proxy_go1_8.go | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/web/mutil/writer_proxy.go b/web/mutil/writer_proxy.go
index 5e9d6c4..157c335 100644
--- a/web/mutil/writer_proxy.go
+++ b/web/mutil/writer_proxy.go
@@ -130,11 +130,21 @@ func (f *fancyWriter) ReadFrom(r io.Reader) (int64, error) {
 	if f.basicWriter.tee != nil {
 		return io.Copy(&f.basicWriter, r)
 	}
+	var n0 int64
+	if !f.basicWriter.wroteHeader {
+		// Nothing must be sent, not even a header, if there turns out
+		// to be nothing to send.
+		const first = 1
+		var err error
+		n0, err = io.Copy(&f.basicWriter, io.LimitReader(r, first))
+		if err != nil || n0 < first {
+			return n0, err
+		}
+	}
 	rf := f.basicWriter.ResponseWriter.(io.ReaderFrom)
-	f.basicWriter.maybeWriteHeader()
 	n, err := rf.ReadFrom(r)
 	f.basicWriter.bytes += int(n)
-	return n, err
+	return n0 + n, err
 }
 
 type flushWriter struct {
diff --git a/web/mutil/writer_proxy_go1_8.go b/web/mutil/writer_proxy_go1_8.go
index 7abfa3d..ba82530 100644
--- a/web/mutil/writer_proxy_go1_8.go
+++ b/web/mutil/writer_proxy_go1_8.go
@@ -139,11 +139,21 @@ func (f *fancyWriter) ReadFrom(r io.Reader) (int64, error) {
 	if f.basicWriter.tee != nil {
 		return io.Copy(&f.basicWriter, r)
 	}
+	var n0 int64
+	if !f.basicWriter.wroteHeader {
+		// Nothing must be sent, not even a header, if there turns out
+		// to be nothing to send.
+		const first = 1
+		var err error
+		n0, err = io.Copy(&f.basicWriter, io.LimitReader(r, first))
+		if err != nil || n0 < first {
+			return n0, err
+		}
+	}
 	rf := f.basicWriter.ResponseWriter.(io.ReaderFrom)
-	f.basicWriter.maybeWriteHeader()
 	n, err := rf.ReadFrom(r)
 	f.basicWriter.bytes += int(n)
-	return n, err
+	return n0 + n, err
 }
 
 type flushWriter struct {
-- 
2.43.0


From 2cdc8075d16aa9b7b24d42e62f80e38e5437ddb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:14 +0000
Subject: [PATCH 23/30] fix: data read together with an error must not outrun a
 connection's closing

---
 graceful/listener/conn.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/graceful/listener/conn.go b/graceful/listener/conn.go
index 45b987c..d1cf784 100644
--- a/graceful/listener/conn.go
+++ b/graceful/listener/conn.go
@@ -45,9 +45,11 @@ func (c *conn) Read(b []byte) (n int, err error) {
 		// but are mostly trying to prevent a race between a new request
 		// getting read off the wire in one thread while the connection
 		// is being gracefully shut down in another.
-		if c.closed && err == nil {
+		if c.closed {
 			n = 0
-			err = errClosing
+			if err == nil {
+				err = errClosing
+			}
 			return
 		}
 
-- 
2.43.0


From 950f171cb5959ab5e52ef03073e9a460cdf5c9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:41 +0000
Subject: [PATCH 24/30] fix: a negative file descriptor must be reported as an
 error, not panic

---
 bind/bind.go    | 3 +++
 bind/einhorn.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/bind/bind.go b/bind/bind.go
index 43d11dd..25849c3 100644
--- a/bind/bind.go
+++ b/bind/bind.go
@@ -108,6 +108,9 @@ func listenTo(bind string) (net.Listener, error) {
 				bind, err)
 		}
 		f := os.NewFile(uintptr(fd), bind)
+		if f == nil {
+			return nil, fmt.Errorf("invalid file descriptor in %v", bind)
+		}
 		defer f.Close()
 		return net.FileListener(f)
 	} else if strings.HasPrefix(bind, "einhorn@") {
diff --git a/bind/einhorn.go b/bind/einhorn.go
index e695c0e..92eb7b8 100644
--- a/bind/einhorn.go
+++ b/bind/einhorn.go
@@ -65,6 +65,9 @@ func einhornBind(n int) (net.Listener, error) {
 
 	fno := einhornFdMap(n)
 	f := os.NewFile(uintptr(fno), fmt.Sprintf("einhorn@%d", n))
+	if f == nil {
+		return nil, fmt.Errorf("bind: invalid file descriptor for einhorn@%d", n)
+	}
 	defer f.Close()
 	return net.FileListener(f)
 }
-- 
2.43.0


From ed9ba02683856a422c487d6493763e2700d14a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:20 +0000
Subject: [PATCH 25/30] fix: a listener registered once a shutdown has started
 must be closed too

---
 graceful/graceful.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/graceful/graceful.go b/graceful/graceful.go
index d46d13d..6137390 100644
--- a/graceful/graceful.go
+++ b/graceful/graceful.go
@@ -32,9 +32,13 @@ func WrapListener(l net.Listener) net.Listener {
 
 func appendListener(l *listener.T) {
 	mu.Lock()
-	defer mu.Unlock()
-
 	listeners = append(listeners, l)
+	mu.Unlock()
+
+	// A shutdown that has already started may have missed this listener.
+	if atomic.LoadInt32(&closing) != 0 {
+		l.Close()
+	}
 }
 
 const errClosing = "use of closed network connection"
-- 
2.43.0


From 4e1f363f87baffe8de86021b91ec971d5ebe8dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:20 +0000
Subject: [PATCH 26/30] fix: install the shutdown messages before signals can
 arrive

---
 serve.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serve.go b/serve.go
index da73a9b..62625b8 100644
--- a/serve.go
+++ b/serve.go
@@ -49,10 +49,10 @@ func ServeListener(listener net.Listener) {
 
 	log.Println("Starting Goji on", listener.Addr())
 
-	graceful.HandleSignals()
-	bind.Ready()
 	graceful.PreHook(func() { log.Printf("Goji received signal, gracefully stopping") })
 	graceful.PostHook(func() { log.Printf("Goji stopped") })
+	graceful.HandleSignals()
+	bind.Ready()
 
 	err := graceful.Serve(listener, http.DefaultServeMux)
 
-- 
2.43.0


From 3788516268bba4693a6f7d59260e7d1aa970666b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:35 +0000
Subject: [PATCH 27/30] fix: let net/http half-close connections before it
 closes them

The server answers requests it does not want to read to the end (too large
a header, for instance) and then half-closes the connection and waits, so
that the client gets to see the response before the connection is reset.
Wrapped connections hid the method it uses for this.
---
 graceful/listener/conn.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/graceful/listener/conn.go b/graceful/listener/conn.go
index d1cf784..268453b 100644
--- a/graceful/listener/conn.go
+++ b/graceful/listener/conn.go
@@ -23,6 +23,8 @@ type conn struct {
 // This intentionally looks a lot like the one in package net.
 var errClosing = errors.New("use of closed network connection")
 
+var errNoCloseWrite = errors.New("listener: conn does not support CloseWrite")
+
 func (c *conn) init() error {
 	if shouldExit := c.shard.track(c); shouldExit {
 		c.Conn.Close()
@@ -92,6 +94,17 @@ func (c *conn) ReadFrom(r io.Reader) (int64, error) {
 	return io.Copy(c.Conn, r)
 }
 
+// package net/http (among others) looks for this method in order to close
+// connections without resetting them before clients have read the response.
+func (c *conn) CloseWrite() error {
+	if cw, ok := c.Conn.(interface {
+		CloseWrite() error
+	}); ok {
+		return cw.CloseWrite()
+	}
+	return errNoCloseWrite
+}
+
 func (c *conn) markIdle() {
 	c.mu.Lock()
 	defer c.mu.Unlock()
-- 
2.43.0


From 91e250644c18bfa7d0ab899766d913a6062d1538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:43 +0000
Subject: [PATCH 28/30] fix: AddSignal without signals made every signal shut
 the server down

---
 graceful/signal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/graceful/signal.go b/graceful/signal.go
index 55061a5..bc21467 100644
--- a/graceful/signal.go
+++ b/graceful/signal.go
@@ -32,6 +32,10 @@ func HandleSignals() {
 // AddSignal adds the given signal to the set of signals that trigger a graceful
 // shutdown.
 func AddSignal(sig ...os.Signal) {
+	// To package signal, no signals at all means every signal there is
+	if len(sig) == 0 {
+		return
+	}
 	signal.Notify(sigchan, sig...)
 }
 
-- 
2.43.0


From 5d7f5eabde3b62330f8be97a98c7f33f70220da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:11 +0000
Subject: [PATCH 29/30] fix: hooks that use package graceful themselves
 deadlocked the shutdown

---
 graceful/signal.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/graceful/signal.go b/graceful/signal.go
index bc21467..ab3658d 100644
--- a/graceful/signal.go
+++ b/graceful/signal.go
@@ -173,11 +173,7 @@ var preOnce, closeOnce, forceOnce, postOnce, notifyOnce sync.Once
 
 func shutdown(force bool, sig os.Signal) {
 	preOnce.Do(func() {
-		mu.Lock()
-		defer mu.Unlock()
-		for _, f := range prehooks {
-			f(sig)
-		}
+		runHooks(&prehooks, sig)
 	})
 
 	if force {
@@ -191,11 +187,7 @@ func shutdown(force bool, sig os.Signal) {
 	}
 
 	postOnce.Do(func() {
-		mu.Lock()
-		defer mu.Unlock()
-		for _, f := range posthooks {
-			f(sig)
-		}
+		runHooks(&posthooks, sig)
 	})
 
 	notifyOnce.Do(func() {
@@ -203,6 +195,21 @@ func shutdown(force bool, sig os.Signal) {
 	})
 }
 
+// Hooks may themselves use this package (e.g., to register more hooks, or to
+// change the timeout), so the lock can't be held while they run.
+func runHooks(hooks *[]func(os.Signal), sig os.Signal) {
+	for i := 0; ; i++ {
+		mu.Lock()
+		if i >= len(*hooks) {
+			mu.Unlock()
+			return
+		}
+		f := (*hooks)[i]
+		mu.Unlock()
+		f(sig)
+	}
+}
+
 func closeListeners(force bool) {
 	atomic.StoreInt32(&closing, 1)
 
-- 
2.43.0


From 1782468d8ceb1dda05432fb32158709d1a14b406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:14 +0000
Subject: [PATCH 30/30] fix: a shutdown must not cut off pipelined requests

A request that was read together with the one before it is handled without
another read from its connection, which therefore still counted as idle: a
graceful shutdown closed it under the running handler.
---
 graceful/conn113.go           | 35 +++++++++++++++++++++++++++++++++++
 graceful/conn13.go            | 17 +++++++++++++++++
 graceful/listener/conn.go     | 11 +++++++++--
 graceful/listener/listener.go |  6 +++---
 graceful/serve13.go           |  9 +++++++++
 5 files changed, 73 insertions(+), 5 deletions(-)
 create mode 100644 graceful/conn113.go
 create mode 100644 graceful/conn13.go

diff --git a/graceful/conn113.go b/graceful/conn113.go
new file mode 100644
index 0000000..0d0ee53
--- /dev/null
+++ b/graceful/conn113.go
@@ -0,0 +1,35 @@
+// +build go1.13
+
+package graceful
+
+import (
+	"context"
+	"net"
+	"net/http"
+)
+
+type connKey struct{}
+
+// trackConn arranges for requestConn to know srv's connections.
+func trackConn(srv *http.Server) {
+	next := srv.ConnContext
+	srv.ConnContext = func(ctx context.Context, nc net.Conn) context.Context {
+		if next != nil {
+			if ctx = next(ctx, nc); ctx == nil {
+				return nil
+			}
+		}
+		return context.WithValue(ctx, connKey{}, nc)
+	}
+}
+
+// requestConn returns the connection on which a request arrived.
+func requestConn(r *http.Request) net.Conn {
+	nc, _ := r.Context().Value(connKey{}).(net.Conn)
+	return nc
+}
+
+// abortRequest gives up on a request whose connection is closed.
+func abortRequest() {
+	panic(http.ErrAbortHandler)
+}
diff --git a/graceful/conn13.go b/graceful/conn13.go
new file mode 100644
index 0000000..4d7247e
--- /dev/null
+++ b/graceful/conn13.go
@@ -0,0 +1,17 @@
+// +build go1.3,!go1.13
+
+package graceful
+
+import (
+	"net"
+	"net/http"
+)
+
+// Before Go 1.13, net/http doesn't tell which connection a request arrived on.
+func trackConn(srv *http.Server) {}
+
+func requestConn(r *http.Request) net.Conn {
+	return nil
+}
+
+func abortRequest() {}
diff --git a/graceful/listener/conn.go b/graceful/listener/conn.go
index 268453b..3994b12 100644
--- a/graceful/listener/conn.go
+++ b/graceful/listener/conn.go
@@ -126,14 +126,21 @@ func (c *conn) markIdle() {
 	}
 }
 
-func (c *conn) markInUse() {
+func (c *conn) markInUse() error {
 	c.mu.Lock()
 	defer c.mu.Unlock()
 
-	if !c.busy && !c.closed && !c.disowned {
+	if c.disowned {
+		return nil
+	} else if c.closed {
+		return errClosing
+	}
+
+	if !c.busy {
 		c.busy = true
 		c.shard.markInUse(c)
 	}
+	return nil
 }
 
 func (c *conn) closeIfIdle() error {
diff --git a/graceful/listener/listener.go b/graceful/listener/listener.go
index 6c9c477..a9499e9 100644
--- a/graceful/listener/listener.go
+++ b/graceful/listener/listener.go
@@ -168,11 +168,11 @@ func MarkIdle(c net.Conn) error {
 
 // MarkInUse marks this connection as being in use, removing it from the set of
 // connections which are eligible for closing. The passed connection must have
-// been returned by a call to Accept from this listener.
+// been returned by a call to Accept from this listener. If the connection is
+// already closed, which means it is too late for this, an error is returned.
 func MarkInUse(c net.Conn) error {
 	if cn, ok := c.(*conn); ok {
-		cn.markInUse()
-		return nil
+		return cn.markInUse()
 	}
 	return errNotManaged
 }
diff --git a/graceful/serve13.go b/graceful/serve13.go
index e1d1ec7..ac309df 100644
--- a/graceful/serve13.go
+++ b/graceful/serve13.go
@@ -38,6 +38,14 @@ type closingHandler struct {
 }
 
 func (c closingHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
+	// If this request was pipelined, all of it may have been read together
+	// with an earlier one. In this case its connection was marked as idle
+	// before, and nothing has been read from it since.
+	if nc := requestConn(r); nc != nil && listener.MarkInUse(nc) != nil {
+		// There is nobody left to respond to.
+		abortRequest()
+	}
+
 	// Leave connection upgrades alone: they don't end with this response
 	if atomic.LoadInt32(c.closing) != 0 && r.Header.Get("Upgrade") == "" {
 		w.Header().Set("Connection", "close")
@@ -88,6 +96,7 @@ func (srv *Server) Serve(l net.Listener) error {
 	// and it's nice to keep our sketching to ourselves.
 	shadow := *(*http.Server)(srv)
 	shadow.ConnState = connState(shadow.ConnState).Wrap
+	trackConn(&shadow)
 
 	var closing int32
 	if shadow.Handler == nil {
-- 
2.43.0

