From edb8d3bce7140936fbdc0cac1827fcc3d0e5b692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:20 +0000
Subject: [PATCH 1/6] fix: do not shut down a dispatcher which was never
 created

If dropping privileges or creating the connection acceptor failed, the
cleanup code passed NULL to dispatch_shutdown, which dereferences it; spiped
died with SIGSEGV instead of exiting with a failure.
---
 spiped/main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spiped/main.c b/spiped/main.c
index 60110b2..80b3f10 100644
--- a/spiped/main.c
+++ b/spiped/main.c
@@ -391,7 +391,8 @@ main(int argc, char * argv[])
 	exit(0);
 
 err7:
-	dispatch_shutdown(dispatch_cookie);
+	if (dispatch_cookie != NULL)
+		dispatch_shutdown(dispatch_cookie);
 err6:
 	if ((s != -1) && close(s))
 		warnp("close");
-- 
2.43.0


From 463456aebc60d935707d75a20a3525647a4af897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 2/6] fix: keep the network_connect cookie until it is
 cancelled

If a fatal error occurred in a callback (e.g. the next address's socket could
not be registered, or getsockopt(2) failed), the cookie was freed; but the
owner still holds it, and calls network_connect_cancel() during cleanup, which
used and freed it again.
---
 libcperciva/network/network_connect.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/libcperciva/network/network_connect.c b/libcperciva/network/network_connect.c
index 940e7a9..4fb8649 100644
--- a/libcperciva/network/network_connect.c
+++ b/libcperciva/network/network_connect.c
@@ -92,7 +92,9 @@ callback_connect(void * cookie)
 err1:
 	if (close(C->s))
 		warnp("close");
-	free(C);
+
+	/* The cookie will be freed by network_connect_cancel(). */
+	C->s = -1;
 
 	/* Fatal error! */
 	return (-1);
@@ -114,7 +116,10 @@ callback_timeo(void * cookie)
 	return (dofailed(C));
 }
 
-/* Try to launch a connection.  Free the cookie on fatal errors. */
+/*
+ * Try to launch a connection.  On fatal errors, leave the cookie with nothing
+ * pending; it must be freed by the caller or by network_connect_cancel().
+ */
 static int
 tryconnect(struct connect_cookie * C)
 {
@@ -159,10 +164,11 @@ failed:
 err2:
 	if (C->cookie_timeo != NULL)
 		events_timer_cancel(C->cookie_timeo);
+	C->cookie_timeo = NULL;
 err1:
 	if ((C->s != -1) && close(C->s))
 		warnp("close");
-	free(C);
+	C->s = -1;
 
 	/* Fatal error. */
 	return (-1);
@@ -209,11 +215,13 @@ network_connect_internal(struct sock_addr * const * sas,
 
 	/* Try to connect to the first address. */
 	if (tryconnect(C))
-		goto err0;
+		goto err1;
 
 	/* Success! */
 	return (C);
 
+err1:
+	free(C);
 err0:
 	/* Failure! */
 	return (NULL);
@@ -282,8 +290,10 @@ network_connect_cancel(void * cookie)
 {
 	struct connect_cookie * C = cookie;
 
-	/* We should have either an immediate callback or a socket. */
-	assert((C->cookie_immediate != NULL) || (C->s != -1));
+	/*
+	 * We can't have both an immediate callback and a socket.  (We have
+	 * neither if a callback failed with a fatal error.)
+	 */
 	assert((C->cookie_immediate == NULL) || (C->s == -1));
 
 	/* Cancel any timer. */
-- 
2.43.0


From 93082f02fe35c1c177489f0b54df2e2b4f1c23fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:17 +0000
Subject: [PATCH 3/6] fix: undo a dnsthread request which could not be started

If registering the wakeup listener or signalling the condition variable
failed, dnsthread_resolveone returned -1 but left the request with the
thread, and leaked the copy of the address.
---
 lib/dnsthread/dnsthread.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/lib/dnsthread/dnsthread.c b/lib/dnsthread/dnsthread.c
index 1733b6f..e86b212 100644
--- a/lib/dnsthread/dnsthread.c
+++ b/lib/dnsthread/dnsthread.c
@@ -261,6 +261,13 @@ dnsthread_resolveone(DNSTHREAD T, const char * addr,
 	if ((T->addr = strdup(addr)) == NULL)
 		goto err1;
 
+	/* We want a callback when the worker thread pokes us. */
+	if (events_network_register(callback_resolveone, T, T->wakeupsock[1],
+	    EVENTS_NETWORK_OP_READ)) {
+		warnp("Error registering wakeup listener");
+		goto err2;
+	}
+
 	/* Remember what callback we'll need to do eventually. */
 	T->callback = callback;
 	T->cookie = cookie;
@@ -271,14 +278,7 @@ dnsthread_resolveone(DNSTHREAD T, const char * addr,
 	/* Wake up the worker thread. */
 	if ((rc = pthread_cond_signal(&T->cv)) != 0) {
 		warn0("pthread_cond_signal: %s", strerror(rc));
-		goto err1;
-	}
-
-	/* We want a callback when the worker thread pokes us. */
-	if (events_network_register(callback_resolveone, T, T->wakeupsock[1],
-	    EVENTS_NETWORK_OP_READ)) {
-		warnp("Error registering wakeup listener");
-		goto err1;
+		goto err3;
 	}
 
 ealready:
@@ -295,6 +295,11 @@ ealready:
 	/* Success! */
 	return (0);
 
+err3:
+	T->state = THREAD_SLEEPING;
+	events_network_cancel(T->wakeupsock[1], EVENTS_NETWORK_OP_READ);
+err2:
+	free(T->addr);
 err1:
 	pthread_mutex_unlock(&T->mtx);
 err0:
-- 
2.43.0


From 009d73d00e90b55a91f09b57d28c30cfdb6b5178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:17 +0000
Subject: [PATCH 4/6] fix: refuse a dnsthread request until the previous
 callback has run

Between the end of a lookup and its callback, a new request overwrote the
address (leaking it) and the callback of the previous one.
---
 lib/dnsthread/dnsthread.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/dnsthread/dnsthread.c b/lib/dnsthread/dnsthread.c
index e86b212..47caff0 100644
--- a/lib/dnsthread/dnsthread.c
+++ b/lib/dnsthread/dnsthread.c
@@ -26,7 +26,7 @@ struct dnsthread_internal {
 	int wakeupsock[2];	/* Writes to [0], reads from [1]. */
 
 	/* Address resolution variables. */
-	char * addr;		/* Address to be resolved. */
+	char * addr;		/* Address to be resolved, or NULL if idle. */
 	struct sock_addr ** sas;	/* Results. */
 	int res_errno;		/* Errno to be passed back on failure. */
 
@@ -192,8 +192,9 @@ dnsthread_spawn(void)
 		goto err4;
 	}
 
-	/* The thread starts out sleeping. */
+	/* The thread starts out sleeping, with no address to resolve. */
 	T->state = THREAD_SLEEPING;
+	T->addr = NULL;
 
 	/* Create the thread. */
 	if ((rc = pthread_create(&T->thr, NULL, workthread, T)) != 0) {
@@ -251,8 +252,11 @@ dnsthread_resolveone(DNSTHREAD T, const char * addr,
 		goto err0;
 	}
 
-	/* If the resolver is already busy, fail. */
-	if (T->state == THREAD_HASWORK) {
+	/*
+	 * If the resolver is already busy, or has finished but its result has
+	 * not been passed to the callback yet, fail.
+	 */
+	if ((T->state == THREAD_HASWORK) || (T->addr != NULL)) {
 		err = EALREADY;
 		goto ealready;
 	}
@@ -300,6 +304,7 @@ err3:
 	events_network_cancel(T->wakeupsock[1], EVENTS_NETWORK_OP_READ);
 err2:
 	free(T->addr);
+	T->addr = NULL;
 err1:
 	pthread_mutex_unlock(&T->mtx);
 err0:
@@ -333,6 +338,7 @@ callback_resolveone(void * cookie)
 
 	/* Free the (strduped) address which was to be resolved. */
 	free(T->addr);
+	T->addr = NULL;
 
 	/* Grab the result. */
 	sas = T->sas;
-- 
2.43.0


From 050b5be973b635717e493738aa11b55d3676305f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:17 +0000
Subject: [PATCH 5/6] fix: do not drop a connection which has already died

If a callback of the connection fails after having dropped it, the event
loop reports an error and spipe dropped it a second time.
---
 spipe/main.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spipe/main.c b/spipe/main.c
index ba21659..d15d1b5 100644
--- a/spipe/main.c
+++ b/spipe/main.c
@@ -338,7 +338,9 @@ err6:
 	if ((rc = pthread_join(ET.threads[1], NULL)) != 0)
 		warn0("pthread_join: %s", strerror(rc));
 err5:
-	proto_conn_drop(conn_cookie, PROTO_CONN_CANCELLED);
+	/* Unless it has died already, drop the connection. */
+	if (ET.conndone == 0)
+		proto_conn_drop(conn_cookie, PROTO_CONN_CANCELLED);
 err4:
 	if ((s[1] != -1) && close(s[1]))
 		warnp("close");
-- 
2.43.0


From d27c1e7a16010019b9858bacbf9c5a0bec66f627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:12 +0000
Subject: [PATCH 6/6] fix: ipc_sync_done: close the read end if closing the
 write end fails

The two error labels were swapped: if closing the write end failed, the
read end of the pipe stayed open; if closing the read end failed, it was
closed a second time.
---
 libcperciva/util/ipc_sync.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libcperciva/util/ipc_sync.c b/libcperciva/util/ipc_sync.c
index b04a7c8..2b5bc3d 100644
--- a/libcperciva/util/ipc_sync.c
+++ b/libcperciva/util/ipc_sync.c
@@ -217,9 +217,9 @@ ipc_sync_done(struct ipc_sync * IS)
 
 	/* Close any open file descriptors. */
 	if ((IS->fd[W] != -1) && ipc_sync_close(IS->fd[W]))
-		goto err1;
-	if ((IS->fd[R] != -1) && ipc_sync_close(IS->fd[R]))
 		goto err2;
+	if ((IS->fd[R] != -1) && ipc_sync_close(IS->fd[R]))
+		goto err1;
 
 	/* Clean up. */
 	free(IS);
-- 
2.43.0

