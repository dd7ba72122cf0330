From 95ab73dcf4ac99e7573e9d50104e8d419a2fe7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 01/57] fix: account for frames put back in the maximum queue
 size

---
 src/core/buffer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/buffer.c b/src/core/buffer.c
index cbad706..b536ce3 100644
--- a/src/core/buffer.c
+++ b/src/core/buffer.c
@@ -480,6 +480,8 @@ void BUF_putFrame(const struct OPENSKY_RawFrame * frame)
 
 	pthread_mutex_lock(&mutex);
 	LIST_unshift(&queue, LIST_link(currentFrame, list));
+	if (unlikely(LIST_length(&queue) > stats.maxQueueSize))
+		stats.maxQueueSize = LIST_length(&queue);
 	currentFrame = NULL;
 	pthread_mutex_unlock(&mutex);
 }
-- 
2.43.0


From 5e98ac2095a5de6dfed67db8b17d36cbc740e76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 02/57] fix: do not crash with BUFFER.DynamicBacklog or
 BUFFER.GCLevel set to 0

---
 src/core/buffer.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/core/buffer.c b/src/core/buffer.c
index b536ce3..8a73e81 100644
--- a/src/core/buffer.c
+++ b/src/core/buffer.c
@@ -186,6 +186,16 @@ static void cfgFix(const struct CFG_Section * sect)
 		LOG_log(LOG_LEVEL_WARN, PFX, "BUFFER.staticBacklog was increased to 2");
 	}
 
+	if (cfg.dynBacklog < 1) {
+		cfg.dynBacklog = 1;
+		LOG_log(LOG_LEVEL_WARN, PFX, "BUFFER.dynamicBacklog was increased to 1");
+	}
+
+	if (cfg.gcLevel < 1) {
+		cfg.gcLevel = 1;
+		LOG_log(LOG_LEVEL_WARN, PFX, "BUFFER.GCLevel was increased to 1");
+	}
+
 	if (cfg.gc && !cfg.history) {
 		cfg.gc = false;
 		LOG_log(LOG_LEVEL_WARN, PFX, "Ignoring BUFFER.GC because "
-- 
2.43.0


From b9bbb04226b53706d4796a8eafa40e0c99322898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 03/57] fix: do not accept a GPS packet starting with a second
 BOM byte

---
 src/trimble/trimble_parser.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/trimble/trimble_parser.c b/src/trimble/trimble_parser.c
index 5ed506f..6e76876 100644
--- a/src/trimble/trimble_parser.c
+++ b/src/trimble/trimble_parser.c
@@ -109,9 +109,10 @@ decode_frame:
 		/* decode type */
 		if (unlikely(!next(buf)))
 			return false;
-		if (unlikely(*buf == EOM)) {
-			LOG_log(LOG_LEVEL_WARN, PFX, "Out of Sync: got unescaped EOM in "
-				"frame, resynchronizing");
+		if (unlikely(*buf == BOM || *buf == EOM)) {
+			/* a frame can neither start with BOM nor with EOM */
+			LOG_logf(LOG_LEVEL_WARN, PFX, "Out of Sync: got 0x%02" PRIx8
+				" as frame type, resynchronizing", *buf);
 			goto synchronize;
 		}
 		size_t len = bufLen - 1;
-- 
2.43.0


From 3013e91a784d4feaa1a4a872e3e80f634dd9916b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 04/57] fix: do not drop a GPS packet that exactly fills the
 buffer

---
 src/trimble/trimble_parser.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/trimble/trimble_parser.c b/src/trimble/trimble_parser.c
index 6e76876..f8e1a6a 100644
--- a/src/trimble/trimble_parser.c
+++ b/src/trimble/trimble_parser.c
@@ -154,9 +154,9 @@ static inline enum DECODE_STATUS decode(uint8_t * dst, size_t * len)
 				return DECODE_STATUS_CONNFAIL;
 		}
 		/* search BOM in the current buffer end up to remaining destination
-		 * buffer length */
+		 * buffer length; BOM itself does not need any space there */
 		size_t rbuf = bufEnd - bufCur;
-		size_t mlen = rbuf <= dstLen ? rbuf : dstLen;
+		size_t mlen = rbuf <= dstLen ? rbuf : dstLen + 1;
 		uint8_t * bom = memchr(bufCur, BOM, mlen);
 		if (likely(bom)) {
 			/* BOM found: copy buffer up to BOM, if applicable */
@@ -181,24 +181,26 @@ static inline enum DECODE_STATUS decode(uint8_t * dst, size_t * len)
 			}
 			if (likely(*bufCur == BOM)) {
 				/* it's another BOM -> append escaped BOM */
+				++bufCur;
 				if (unlikely(!dstLen))
 					break;
 				*dst++ = BOM;
 				--dstLen;
-				++bufCur;
 			} else {
 				/* synchronization failure */
 				return DECODE_STATUS_RESYNC;
 			}
 		} else {
 			/* no BOM found: copy up to buffer length */
+			if (unlikely(mlen > dstLen))
+				break;
 			memcpy(dst, bufCur, mlen);
 			dst += mlen;
 			bufCur += mlen;
 			dstLen -= mlen;
 		}
-		/* loop as there is still some space in the destination buffer */
-	} while (likely(dstLen));
+		/* loop as long as the frame fits into the destination buffer */
+	} while (true);
 	/* destination buffer is full */
 	return DECODE_STATUS_BUFFER_FULL;
 }
-- 
2.43.0


From 8e36037637c0fe2262e6b833dac831264b899dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:27 +0000
Subject: [PATCH 05/57] fix: keep a pending position request when the GPS
 receiver is reconnected

---
 src/core/gps.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/gps.c b/src/core/gps.c
index 40c79ba..418ea52 100644
--- a/src/core/gps.c
+++ b/src/core/gps.c
@@ -36,11 +36,12 @@ static void sendPositionIfAvail();
 
 static bool sendPosition(const struct GPS_Position * position);
 
-/** Reset current GPS position */
+/** Reset current GPS position
+ * @note a pending request for the position is kept
+ */
 void GPS_reset()
 {
 	pthread_mutex_lock(&posMutex);
-	needPosition = false;
 	hasPosition = false;
 	hasFix = false;
 	pthread_mutex_unlock(&posMutex);
-- 
2.43.0


From 42941e1a7f0369d4a0d6b7f8c7cbd75e6181b3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:27 +0000
Subject: [PATCH 06/57] fix: do not send the position again after it was sent
 with the login

---
 src/core/gps.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/gps.c b/src/core/gps.c
index 418ea52..2f11d20 100644
--- a/src/core/gps.c
+++ b/src/core/gps.c
@@ -157,6 +157,8 @@ bool GPS_sendPosition()
 	} else {
 		/* we have a position: copy it and send it (without the mutex) */
 		memcpy(&pos, &position, sizeof pos);
+		/* this also answers an older request whose sending failed */
+		needPosition = false;
 		pthread_mutex_unlock(&posMutex);
 
 		return sendPosition(&pos);
-- 
2.43.0


From 877210d34d5a839c48a48b2348db2670a99dc2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:13 +0000
Subject: [PATCH 07/57] fix: network: there is no socket before the first
 connection

Sending before the first connection used file descriptor 0.
---
 src/core/network.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/network.c b/src/core/network.c
index 6c38e29..004479a 100644
--- a/src/core/network.c
+++ b/src/core/network.c
@@ -29,9 +29,9 @@ static const char PFX[] = "NET";
 #define RECONNET_INTERVAL 10
 
 /** Networking socket: receiving socket */
-static sock_t recvsock;
+static sock_t recvsock = SOCK_INVALID;
 /** Networking socket: sending socket */
-static sock_t sendsock;
+static sock_t sendsock = SOCK_INVALID;
 
 /** Mutex for all shared variables */
 static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
-- 
2.43.0


From 3f6b2580415393292cdcb527ea44ed9a0136c2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:13 +0000
Subject: [PATCH 08/57] fix: network: do not abort if sending fails while
 disconnected

If both sender and receiver have noticed the failure, a second thread (GPS)
may still try to send before the connection is reestablished.
---
 src/core/network.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/network.c b/src/core/network.c
index 004479a..69e0389 100644
--- a/src/core/network.c
+++ b/src/core/network.c
@@ -308,8 +308,8 @@ static enum ACTION emitDisconnect(enum EMIT_BY by)
 			transState = TRANSIT_NONE;
 		}
 	} else if (connState != CONN_STATE_SHUTDOWN &&
+		transState != TRANSIT_NONE &&
 		transState != (enum TRANSIT_STATE)by) {
-		assert(transState != TRANSIT_NONE);
 		/* we have not been reconnected yet, but the follower has seen the
 		 * failure -> close the stale socket */
 		SOCK_close(*mysock);
-- 
2.43.0


From 867e7cff215a19929bf43add5ccfdaa53e434390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:13 +0000
Subject: [PATCH 09/57] fix: network: close all sockets upon shutdown and
 forget them

If sender and receiver were unsynchronized, the stale socket leaked. The
sender kept the descriptor of the closed socket.
---
 src/core/network.c | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/core/network.c b/src/core/network.c
index 69e0389..240b3a4 100644
--- a/src/core/network.c
+++ b/src/core/network.c
@@ -165,21 +165,15 @@ static bool checkCfg(const struct CFG_Section * sect)
 
 static void cleanupMain()
 {
-	if (connState == CONN_STATE_CONNECTED) {
-		switch (transState) {
-		case TRANSIT_NONE:
-		case TRANSIT_SEND:
-			SOCK_shutdown(recvsock, SHUT_RDWR);
-			SOCK_close(recvsock);
-			recvsock = SOCK_INVALID;
-			break;
-		case TRANSIT_RECV:
-			SOCK_shutdown(sendsock, SHUT_RDWR);
-			SOCK_close(sendsock);
-			sendsock = SOCK_INVALID;
-			break;
-		}
-	}
+	if (connState == CONN_STATE_CONNECTED)
+		SOCK_shutdown(transState == TRANSIT_RECV ? sendsock : recvsock,
+			SHUT_RDWR);
+	/* there are two sockets if sender and receiver are unsynchronized */
+	if (sendsock != SOCK_INVALID && sendsock != recvsock)
+		SOCK_close(sendsock);
+	if (recvsock != SOCK_INVALID)
+		SOCK_close(recvsock);
+	sendsock = recvsock = SOCK_INVALID;
 	connState = CONN_STATE_SHUTDOWN;
 	pthread_mutex_unlock(&mutex);
 }
-- 
2.43.0


From daf89ea6f31929181040a501c727fa672dfc01b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 10/57] fix: network: after a partial transfer, send only the
 rest of the message

---
 src/core/network.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/network.c b/src/core/network.c
index 240b3a4..dbca836 100644
--- a/src/core/network.c
+++ b/src/core/network.c
@@ -362,7 +362,7 @@ static bool trySend(const void * buf, size_t len)
 	const char * end = ptr + len;
 
 	do {
-		ssize_t rc = SOCK_sendCancelable(sendsock, ptr, len, 0);
+		ssize_t rc = SOCK_sendCancelable(sendsock, ptr, end - ptr, 0);
 		if (rc <= 0) {
 			/* report failure */
 #ifdef DEBUG
-- 
2.43.0


From 2dad07b4d7191f0845c8aa06d83de54ea0a588a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:59 +0000
Subject: [PATCH 11/57] fix: network: report the loss of a connection to the
 receiver

If the sender noticed the failure first and the connection was reestablished
already, NET_receive() continued silently with the new connection, and the
dispatcher combined its bytes with a partial packet of the lost one.
---
 src/core/network.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/core/network.c b/src/core/network.c
index dbca836..040e93c 100644
--- a/src/core/network.c
+++ b/src/core/network.c
@@ -402,17 +402,19 @@ bool NET_send(const void * buf, size_t len)
  */
 ssize_t NET_receive(uint8_t * buf, size_t len)
 {
-	do {
-		ssize_t rc = SOCK_recvCancelable(recvsock, buf, len, 0);
-		if (rc > 0) {
-			stats.bytesReceived += rc;
-			return rc;
-		}
+	ssize_t rc = SOCK_recvCancelable(recvsock, buf, len, 0);
+	if (rc > 0) {
+		stats.bytesReceived += rc;
+		return rc;
+	}
 #ifdef DEBUG
-		LOG_logf(LOG_LEVEL_INFO, PFX, "could not receive: %s",
-			rc == 0 ? "Connection lost" : strerror(errno));
+	LOG_logf(LOG_LEVEL_INFO, PFX, "could not receive: %s",
+		rc == 0 ? "Connection lost" : strerror(errno));
 #endif
-	} while (emitDisconnect(EMIT_BY_RECV) == ACTION_RETRY);
+	/* note: even if we are connected again already, the failure has to be
+	 * reported: the caller must not continue with data of the lost connection
+	 */
+	emitDisconnect(EMIT_BY_RECV);
 	return 0;
 }
 
-- 
2.43.0


From f59b81bf7caeded4348d1cff2d5d3541d3d081d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:06 +0000
Subject: [PATCH 12/57] fix: network: a failure of another sender must not hide
 the new connection

If the GPS thread noticed a lost connection before the relay did, the relay
continued to send frames to the next connection without logging in.
---
 src/core/network.c | 18 +++++++++++++++++-
 src/core/network.h |  2 ++
 src/core/relay.c   |  1 +
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/core/network.c b/src/core/network.c
index 040e93c..eb0e5c4 100644
--- a/src/core/network.c
+++ b/src/core/network.c
@@ -39,6 +39,8 @@ static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
 static pthread_cond_t cond = PTHREAD_COND_INITIALIZER;
 /** Mutex for exclusive sending */
 static pthread_mutex_t sendMutex = PTHREAD_MUTEX_INITIALIZER;
+/** Flag: sending failed and the main sender did not synchronize since then */
+static bool sendFailed;
 
 /** Connection status */
 enum CONN_STATE {
@@ -325,6 +327,19 @@ void NET_waitConnected()
 	CLEANUP_POP();
 }
 
+/** Synchronize the sender with the network: allow sending again after a
+ * failure.
+ * There can be several threads which call @NET_send. If one of them fails, all
+ * of them fail until the main sender, which has to log in to the new
+ * connection first, has called this function.
+ */
+void NET_syncSender()
+{
+	CLEANUP_PUSH_LOCK(&sendMutex);
+	sendFailed = false;
+	CLEANUP_POP();
+}
+
 /** Force a reconnection to the network.
  * Must only be called by the thread which normally calls @NET_send.
  */
@@ -390,7 +405,8 @@ bool NET_send(const void * buf, size_t len)
 {
 	bool rc;
 	CLEANUP_PUSH_LOCK(&sendMutex);
-	rc = trySend(buf, len);
+	rc = !sendFailed && trySend(buf, len);
+	sendFailed = !rc;
 	CLEANUP_POP();
 	return rc;
 }
diff --git a/src/core/network.h b/src/core/network.h
index 882bc2a..e8d50b4 100644
--- a/src/core/network.h
+++ b/src/core/network.h
@@ -25,6 +25,8 @@ extern const struct Component NET_comp;
 
 void NET_waitConnected();
 
+void NET_syncSender();
+
 void NET_forceDisconnect();
 
 bool NET_checkConnected();
diff --git a/src/core/relay.c b/src/core/relay.c
index 515440f..8af7362 100644
--- a/src/core/relay.c
+++ b/src/core/relay.c
@@ -77,6 +77,7 @@ static void mainloop()
 	while (true) {
 		/* synchronize with the network (i.e. wait for a connection) */
 		NET_waitConnected();
+		NET_syncSender();
 
 		/* here: we have a new connection to the server */
 
-- 
2.43.0


From b7b5fd7e027e6db8d1fed7d1f47a9001cabb8078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:06 +0000
Subject: [PATCH 13/57] fix: network: do not report a failure twice

If a second thread tried to send while there was no connection, it could
report this failure after the reconnection and break the new connection.
---
 src/core/network.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/network.c b/src/core/network.c
index eb0e5c4..1bba8d5 100644
--- a/src/core/network.c
+++ b/src/core/network.c
@@ -376,8 +376,12 @@ static bool trySend(const void * buf, size_t len)
 	const char * ptr = buf;
 	const char * end = ptr + len;
 
+	sock_t sock = sendsock;
+	if (sock == SOCK_INVALID) /* the failure has been reported already */
+		return false;
+
 	do {
-		ssize_t rc = SOCK_sendCancelable(sendsock, ptr, end - ptr, 0);
+		ssize_t rc = SOCK_sendCancelable(sock, ptr, end - ptr, 0);
 		if (rc <= 0) {
 			/* report failure */
 #ifdef DEBUG
-- 
2.43.0


From b4d671cc7e6a32efe29df0846d91c01ba01d185b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:22 +0000
Subject: [PATCH 14/57] fix: connect: do not use a socket which could not be
 created

---
 src/util/net_common-posix.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/net_common-posix.c b/src/util/net_common-posix.c
index 69ab469..2feb3ee 100644
--- a/src/util/net_common-posix.c
+++ b/src/util/net_common-posix.c
@@ -126,8 +126,10 @@ sock_t NETC_connect(const char * prefix, const char * hostName, uint16_t port)
 		/* create socket */
 		sock = SOCK_socket(host->ai_family, host->ai_socktype | SOCK_CLOEXEC,
 			host->ai_protocol);
-		if (sock == SOCK_INVALID)
+		if (sock == SOCK_INVALID) {
 			LOG_errnet(LOG_LEVEL_ERROR, prefix, "could not create socket");
+			continue;
+		}
 
 		/* connect socket */
 		rc = SOCK_connect(sock, addr, host->ai_addrlen);
-- 
2.43.0


From 1e8ff10aaf203bcba643beab09d2889b465efd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:22 +0000
Subject: [PATCH 15/57] fix: connect: close the socket when cancelled while
 connecting

---
 src/util/net_common-posix.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/util/net_common-posix.c b/src/util/net_common-posix.c
index 2feb3ee..8cfbef9 100644
--- a/src/util/net_common-posix.c
+++ b/src/util/net_common-posix.c
@@ -23,6 +23,8 @@ struct Hosts {
 	struct addrinfo * hosts;
 	/** Pointers into hosts, in random order */
 	struct addrinfo ** shuffled;
+	/** Socket which is being connected */
+	sock_t sock;
 };
 
 /** Cleanup Routine
@@ -31,6 +33,8 @@ struct Hosts {
 static void cleanup(struct Hosts * hosts)
 {
 	if (hosts) {
+		if (hosts->sock != SOCK_INVALID)
+			SOCK_close(hosts->sock);
 		if (hosts->hosts)
 			freeaddrinfo(hosts->hosts);
 		free(hosts->shuffled);
@@ -56,6 +60,7 @@ sock_t NETC_connect(const char * prefix, const char * hostName, uint16_t port)
 		LOG_errno(LOG_LEVEL_EMERG, prefix, "malloc failed");
 	hosts->hosts = NULL;
 	hosts->shuffled = NULL;
+	hosts->sock = SOCK_INVALID;
 
 	hints.ai_family = AF_UNSPEC;
 	hints.ai_socktype = SOCK_STREAM;
@@ -132,10 +137,12 @@ sock_t NETC_connect(const char * prefix, const char * hostName, uint16_t port)
 		}
 
 		/* connect socket */
+		hosts->sock = sock;
 		rc = SOCK_connect(sock, addr, host->ai_addrlen);
 		if (rc == SOCK_ERROR) {
 			LOG_errnet(LOG_LEVEL_WARN, prefix, "Could not connect");
-			SOCK_close(sock);
+			NOC_call(SOCK_close, sock);
+			hosts->sock = SOCK_INVALID;
 		} else {
 			LOG_logf(LOG_LEVEL_INFO, prefix, "connected to '%s'", hostName);
 			break;
@@ -143,6 +150,7 @@ sock_t NETC_connect(const char * prefix, const char * hostName, uint16_t port)
 	}
 	if (i == nHosts)
 		host = NULL;
+	hosts->sock = SOCK_INVALID;
 cleanup:
 	CLEANUP_POP();
 
-- 
2.43.0


From 0a4345d2cc34cf5aa34e03e3009b41f6ad96e2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:24 +0000
Subject: [PATCH 16/57] fix: components: do not join a thread again after a
 deferred stop

---
 src/util/component.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/component.c b/src/util/component.c
index 7094aba..8de55da 100644
--- a/src/util/component.c
+++ b/src/util/component.c
@@ -413,8 +413,9 @@ static bool stopThreaded(const struct ComponentLink * ci, bool deferred)
 					"joined", ci->comp->description);
 			return false;
 		}
-#endif
+#else
 		pthread_join(ci->thread, NULL);
+#endif
 	} else {
 		pthread_cancel(ci->thread);
 #if HAVE_PTHREAD_TIMEDJOIN_NP
-- 
2.43.0


From 98a71c938407039d46999e6dfe5c01dd1176b8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:24 +0000
Subject: [PATCH 17/57] fix: components: list of components which did not stop
 overran its buffer

---
 src/util/component.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/component.c b/src/util/component.c
index 8de55da..f82164a 100644
--- a/src/util/component.c
+++ b/src/util/component.c
@@ -343,7 +343,8 @@ static void stopUntil(struct ComponentLink * end)
 				size_t len = MIN(strlen(ci->comp->description), bend - buf);
 				memcpy(buf, ci->comp->description, len);
 				buf += len;
-				*(buf++) = ' ';
+				if (buf < bend)
+					*(buf++) = ' ';
 			}
 		}
 		if (buf != buffer)
-- 
2.43.0


From 69f7c59f0f1ecd4061c58a90056c225beffb8bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:43 +0000
Subject: [PATCH 18/57] fix: list: wrong tail after prepending to an empty
 single linked list

---
 src/util/list.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/list.h b/src/util/list.h
index a1bd626..10008c8 100644
--- a/src/util/list.h
+++ b/src/util/list.h
@@ -758,7 +758,7 @@ static inline void LIST_concatenateUnshiftS(struct LIST_ListS * __restrict dst,
 	if (likely(!LIST_emptyS(src))) {
 		src->tail->next = dst->head;
 		if (LIST_emptyS(dst))
-			dst->tail = src->head;
+			dst->tail = src->tail;
 		dst->head = src->head;
 
 		LIST_initS(src);
-- 
2.43.0


From 50c17381ec3f5d87a10e33fd23a58c7503b3508b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:43 +0000
Subject: [PATCH 19/57] fix: list: eager separation of a list whose length is
 not known

---
 src/util/list.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/list.h b/src/util/list.h
index 10008c8..b14e892 100644
--- a/src/util/list.h
+++ b/src/util/list.h
@@ -494,6 +494,7 @@ static inline void LIST_separateFromDC(struct LIST_ListDC * __restrict list,
 static inline void LIST_separateFromFixDC(struct LIST_ListDC * __restrict list,
 	struct LIST_ListDC * __restrict newList, struct LIST_LinkD * pivot)
 {
+	LIST_lengthDC(list);
 	LIST_separateFromDC(list, newList, pivot);
 	LIST_lengthDC(newList);
 	list->length -= newList->length;
@@ -539,6 +540,7 @@ static inline void LIST_separateUntilDC(struct LIST_ListDC * __restrict list,
 static inline void LIST_separateUntilFixDC(struct LIST_ListDC * __restrict list,
 	struct LIST_ListDC * __restrict newList, struct LIST_LinkD * pivot)
 {
+	LIST_lengthDC(list);
 	LIST_separateUntilDC(list, newList, pivot);
 	LIST_lengthDC(newList);
 	list->length -= newList->length;
-- 
2.43.0


From 21c6d448d32e7d2ed40626ddcbe5895eddfaec37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:06 +0000
Subject: [PATCH 20/57] fix: accept a final configuration line without '='

---
 src/util/cfgfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 2d60544..62f013e 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -619,7 +619,7 @@ static bool parseOption()
 	bufferInput = n + 1;
 
 	/* sanity check */
-	if (unlikely(n < e)) {
+	if (unlikely(e == NULL || n < e)) {
 		err(LOG_LEVEL_ERROR, "'=' expected before end of line");
 		++bufferLine;
 		return false;
-- 
2.43.0


From 69c68c7d292ea6f16d876563909d007cc8f697ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:06 +0000
Subject: [PATCH 21/57] fix: empty configuration value in a file with CRLF line
 ends

---
 src/util/cfgfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 62f013e..f123576 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -639,7 +639,7 @@ static bool parseOption()
 		size_t valLen = n - value;
 
 		/* eliminate \r at the end of the value */
-		if (value[valLen - 1] == '\r')
+		if (valLen && value[valLen - 1] == '\r')
 			--valLen;
 
 		/* get option by section and key name */
-- 
2.43.0


From 08cdb14701bfef881115845c87961a93bb2cd830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:06 +0000
Subject: [PATCH 22/57] fix: last configuration line without newline

---
 src/util/cfgfile.c | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index f123576..0d929f7 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -356,6 +356,26 @@ static void err(enum LOG_LEVEL logLevel, const char * fmt, ...) {
 		fileName, bufferLine, buf);
 }
 
+/** Get the end of the current line.
+ * @return pointer to next newline or to end-of-file
+ */
+static const char * getEndOfLine()
+{
+	const char * n = memchr(bufferInput, '\n', bufferSize);
+	return n ? n : bufferInput + bufferSize;
+}
+
+/** Advance the parser to the beginning of the next line or to end-of-file.
+ * @param n end of the current line, see getEndOfLine()
+ */
+static void advanceLine(const char * n)
+{
+	if (n != bufferInput + bufferSize)
+		++n;
+	bufferSize -= n - bufferInput;
+	bufferInput = n;
+}
+
 /** Parse a section name.
  * @return section state
  */
@@ -364,9 +384,7 @@ static enum SECTION_STATE parseSection()
 	/* get next ']' terminator */
 	const char * c = memchr(bufferInput, ']', bufferSize);
 	/* get next newline or end-of-file */
-	const char * n = memchr(bufferInput, '\n', bufferSize);
-	if (n == NULL)
-		n = bufferInput + bufferSize - 1;
+	const char * n = getEndOfLine();
 
 	/* sanity checks */
 	if (!c || n < c) {
@@ -383,8 +401,7 @@ static enum SECTION_STATE parseSection()
 	const char * const buf = bufferInput + 1;
 
 	/* advance parser */
-	bufferSize -= n + 1 - bufferInput;
-	bufferInput = n + 1;
+	advanceLine(n);
 	++bufferLine;
 
 	/* search section: check if there is at least one section with that name */
@@ -409,12 +426,9 @@ static enum SECTION_STATE parseSection()
 static void skipComment()
 {
 	/* search for next newline */
-	const char * n = memchr(bufferInput, '\n', bufferSize);
-	if (n == NULL)
-		n = bufferInput + bufferSize - 1;
+	const char * n = getEndOfLine();
 	/* advance parser */
-	bufferSize -= n + 1 - bufferInput;
-	bufferInput = n + 1;
+	advanceLine(n);
 	++bufferLine;
 }
 
@@ -608,15 +622,12 @@ static bool parseOption()
 {
 	/* split option on '='-sign */
 	const char * e = memchr(bufferInput, '=', bufferSize);
-	const char * n = memchr(bufferInput, '\n', bufferSize);
-	if (n == NULL)
-		n = bufferInput + bufferSize - 1;
+	const char * n = getEndOfLine();
 
 	const char * key = bufferInput;
 
 	/* advance buffer */
-	bufferSize -= n + 1 - bufferInput;
-	bufferInput = n + 1;
+	advanceLine(n);
 
 	/* sanity check */
 	if (unlikely(e == NULL || n < e)) {
-- 
2.43.0


From ef77d3317597e2f88ebe306f25c4078289d2e212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:06 +0000
Subject: [PATCH 23/57] fix: fail reading the configuration on invalid values
 if requested

---
 src/util/cfgfile.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 0d929f7..5aa9014 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -711,7 +711,8 @@ static bool readCfg()
 			if (sectionState == SECTION_STATE_NOSECTION && optWarnUnknownOption)
 				LOG_logf(LOG_LEVEL_WARN, PFX, "Line %" PRIuFAST32 ": "
 					"Unexpected option outside any section", bufferLine);
-			parseOption();
+			if (!parseOption() && !optOnErrorUseDefault)
+				return false;
 		}
 	}
 	return true;
-- 
2.43.0


From 670c3e725a08b8c96ed2bb2f270da36e52b75196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:06 +0000
Subject: [PATCH 24/57] fix: reject configuration numbers without digits or out
 of range

---
 src/util/cfgfile.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 5aa9014..831d8ca 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -449,7 +449,15 @@ static inline bool parseInt(const char * value, size_t valLen, uint32_t * ret)
 	buf[valLen] = '\0';
 
 	char * end;
-	unsigned long int n = strtoul(buf, &end, 0);
+	long long int n = strtoll(buf, &end, 0);
+	if (end == buf) {
+		err(LOG_LEVEL_ERROR, "Number expected");
+		return false;
+	}
+	if (n < 0 || n > UINT32_MAX) {
+		err(LOG_LEVEL_ERROR, "Number out of range");
+		return false;
+	}
 	if (*end != '\0')
 		err(LOG_LEVEL_WARN, "Garbage after number ignored");
 	*ret = n;
@@ -539,6 +547,10 @@ static inline bool parseDouble(const char * value, size_t valLen, double * ret)
 
 	char * end;
 	double d = strtod(buf, &end);
+	if (end == buf) {
+		err(LOG_LEVEL_ERROR, "Number expected");
+		return false;
+	}
 	if (*end != '\0')
 		err(LOG_LEVEL_WARN, "Garbage after number ignored");
 	*ret = d;
-- 
2.43.0


From 6c4db666dc8b6a9605b2df04fba0a017bf07c08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:06 +0000
Subject: [PATCH 25/57] fix: terminate string options if default or new value
 is too long

---
 src/util/cfgfile.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 831d8ca..d185262 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -74,6 +74,7 @@ static const char * sectionName;
 static size_t sectionNameLen;
 
 static bool readCfg();
+static void assignString(const struct CFG_Option * opt, const char * value);
 static void fix();
 static void assignOptionFromDefault(const struct CFG_Option * opt);
 
@@ -730,6 +731,17 @@ static bool readCfg()
 	return true;
 }
 
+/** Assign a string to a string option. The value is truncated if it is too long.
+ * @param opt option to be assigned
+ * @param value string to be assigned
+ */
+static void assignString(const struct CFG_Option * opt, const char * value)
+{
+	char * var = opt->var;
+	strncpy(var, value, opt->maxlen);
+	var[opt->maxlen - 1] = '\0';
+}
+
 /** Assign option from its default value.
  * @param opt option to be assigned
  */
@@ -748,7 +760,7 @@ static void assignOptionFromDefault(const struct CFG_Option * opt)
 		break;
 	case CFG_VALUE_TYPE_STRING:
 		if (opt->def.string)
-			strncpy(opt->var, opt->def.string, opt->maxlen);
+			assignString(opt, opt->def.string);
 		else
 			((char*)opt->var)[0] = '\0';
 		break;
@@ -841,7 +853,7 @@ void CFG_setString(const char * section, const char * key, const char * value)
 	const struct CFG_Option * opt = getOptionByString(section, key);
 	if (opt) {
 		assert(opt->type == CFG_VALUE_TYPE_STRING);
-		strncpy(opt->var, value, opt->maxlen);
+		assignString(opt, value);
 	}
 }
 
-- 
2.43.0


From bcc700c454cdc7d36e91872f95039c6c2823aa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:06 +0000
Subject: [PATCH 26/57] fix: release directory entries if configuration path is
 too long

---
 src/util/cfgfile.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index d185262..e835779 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -213,12 +213,15 @@ bool CFG_readDirectory(const char * path, bool warnUnknownSection,
 		return false;
 	}
 
+	bool ret = false;
+	int n;
+
 	/* prepare filename */
 	char filename[PATH_MAX];
 	size_t len = strlen(path);
 	if (len > PATH_MAX - 1) {
 		LOG_logf(LOG_LEVEL_ERROR, PFX, "Path '%s' too long", path);
-		return false;
+		goto ret;
 	}
 	strncpy(filename, path, sizeof filename);
 	filename[len] = '/';
@@ -226,8 +229,6 @@ bool CFG_readDirectory(const char * path, bool warnUnknownSection,
 	len = sizeof filename - (len + 1);
 
 	/* iterate over all files */
-	bool ret = false;
-	int n;
 	for (n = 0; n < s; ++n) {
 		/* build filename */
 		const char * fname = namelist[n]->d_name;
-- 
2.43.0


From dbfcfbdec99cdbfed9ea5b659d5335f28bfb6dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:06 +0000
Subject: [PATCH 27/57] fix: unterminated filename for configuration paths of
 maximum length

---
 src/util/cfgfile.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index e835779..1b0befb 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -233,7 +233,7 @@ bool CFG_readDirectory(const char * path, bool warnUnknownSection,
 		/* build filename */
 		const char * fname = namelist[n]->d_name;
 		size_t flen = strlen(namelist[n]->d_name);
-		if (flen > len) {
+		if (flen >= len) {
 			LOG_logf(LOG_LEVEL_ERROR, PFX, "Path '%s/%s' is too long", path,
 				fname);
 			if (stopOnFirstError)
@@ -303,7 +303,7 @@ bool CFG_readDirectory(const char * path, bool warnUnknownSection,
 		if (flen < 5 || strcmp(fname + flen - 5, ".conf"))
 			continue;
 
-		if (flen > len) {
+		if (flen >= len) {
 			LOG_logf(LOG_LEVEL_ERROR, PFX, "Path '%s\\%s' is too long", path,
 				fname);
 			if (stopOnFirstError)
-- 
2.43.0


From b32e08a84659f05b50160443346b1eda726aa79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:06 +0000
Subject: [PATCH 28/57] fix: report failure if any configuration file could not
 be read

---
 src/util/cfgfile.c | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 1b0befb..50fa161 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -229,6 +229,7 @@ bool CFG_readDirectory(const char * path, bool warnUnknownSection,
 	len = sizeof filename - (len + 1);
 
 	/* iterate over all files */
+	bool success = true;
 	for (n = 0; n < s; ++n) {
 		/* build filename */
 		const char * fname = namelist[n]->d_name;
@@ -236,18 +237,22 @@ bool CFG_readDirectory(const char * path, bool warnUnknownSection,
 		if (flen >= len) {
 			LOG_logf(LOG_LEVEL_ERROR, PFX, "Path '%s/%s' is too long", path,
 				fname);
+			success = false;
 			if (stopOnFirstError)
-				goto ret;
+				break;
 			continue;
 		}
 		strncpy(foffset, fname, len);
 
 		/* read file */
 		if (!CFG_readFile(filename, warnUnknownSection, warnUnknownOption,
-			onErrorUseDefault) && stopOnFirstError)
-			goto ret;
+			onErrorUseDefault)) {
+			success = false;
+			if (stopOnFirstError)
+				break;
+		}
 	}
-	ret = true;
+	ret = success;
 
 ret:
 	/* free filenames */
@@ -293,7 +298,7 @@ bool CFG_readDirectory(const char * path, bool warnUnknownSection,
 	len = sizeof filename - (len + 1);
 
 	/* iterate over all files */
-	bool ret = false;
+	bool success = true;
 	struct dirent * ent;
 	while ((ent = readdir(dir)) != NULL) {
 		/* build filename */
@@ -306,23 +311,25 @@ bool CFG_readDirectory(const char * path, bool warnUnknownSection,
 		if (flen >= len) {
 			LOG_logf(LOG_LEVEL_ERROR, PFX, "Path '%s\\%s' is too long", path,
 				fname);
+			success = false;
 			if (stopOnFirstError)
-				goto ret;
+				break;
 			continue;
 		}
 		strncpy(foffset, fname, len);
 
 		/* read file */
 		if (!CFG_readFile(filename, warnUnknownSection, warnUnknownOption,
-			onErrorUseDefault) && stopOnFirstError)
-			goto ret;
+			onErrorUseDefault)) {
+			success = false;
+			if (stopOnFirstError)
+				break;
+		}
 	}
-	ret = true;
 
-ret:
 	closedir(dir);
 
-	return ret;
+	return success;
 }
 #endif
 
-- 
2.43.0


From d614e6d7247a5af91cf832787bac605c8e3a0aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:06 +0000
Subject: [PATCH 29/57] fix: accept empty configuration files

---
 src/util/port/mmap-posix.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/util/port/mmap-posix.c b/src/util/port/mmap-posix.c
index e10595c..f059799 100644
--- a/src/util/port/mmap-posix.c
+++ b/src/util/port/mmap-posix.c
@@ -35,7 +35,10 @@ struct MMAP * MMAP_open(const char * prefix, const char * file)
 	}
 
 	/* mmap input file and close file descriptor */
-	void * ptr = mmap(NULL, st.st_size, PROT_READ, MAP_SHARED, fd, 0);
+	/* an empty file cannot be mapped */
+	void * ptr = NULL;
+	if (st.st_size != 0)
+		ptr = mmap(NULL, st.st_size, PROT_READ, MAP_SHARED, fd, 0);
 	close(fd);
 	if (ptr == MAP_FAILED) {
 		LOG_errno(LOG_LEVEL_ERROR, prefix, "Could not mmap '%s'", file);
@@ -55,7 +58,8 @@ struct MMAP * MMAP_open(const char * prefix, const char * file)
 void MMAP_close(struct MMAP * map)
 {
 	/* unmap file */
-	munmap(map->ptr, map->len);
+	if (map->len != 0)
+		munmap(map->ptr, map->len);
 
 	free(map);
 }
-- 
2.43.0


From cfa7cbe3a54f554c680de622b601f90d801042c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:06 +0000
Subject: [PATCH 30/57] fix: report errors on writing the configuration file

---
 src/util/cfgfile.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 50fa161..85d8020 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -920,12 +920,14 @@ static bool writeOptions(FILE * file, const struct CFG_Section * section)
 		const union CFG_Value * val = opt->var;
 
 		if (opt->given && !*opt->given && opt->defaultEmpty) {
-			fprintf(file, "; %s = \n", opt->name);
+			if (fprintf(file, "; %s = \n", opt->name) < 0)
+				return false;
 			continue;
 		}
 
 		/* write option name */
-		fprintf(file, "%s = ", opt->name);
+		if (fprintf(file, "%s = ", opt->name) < 0)
+			return false;
 
 		/* write option value, depending on its type */
 		switch (opt->type) {
@@ -1014,7 +1016,8 @@ bool CFG_write(const char * filename)
 
 	bool rc = writeSections(file);
 
-	fclose(file);
+	if (fclose(file))
+		rc = false;
 
 	return rc;
 }
@@ -1036,7 +1039,8 @@ bool CFG_writeSection(const char * filename, const struct CFG_Section * section)
 	bool rc = fprintf(file, "[%s]\n", section->name) >= 0 &&
 		writeOptions(file, section);
 
-	fclose(file);
+	if (fclose(file))
+		rc = false;
 
 	return rc;
 }
-- 
2.43.0


From 2eec5c2e325ba9ed2491827ac67ee124691575c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:53 +0000
Subject: [PATCH 31/57] fix: flags on opening the UARTs

---
 src/radarcape/uart.c             | 2 +-
 src/trimble/trimble_input_uart.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/radarcape/uart.c b/src/radarcape/uart.c
index 75b2b74..7b40940 100644
--- a/src/radarcape/uart.c
+++ b/src/radarcape/uart.c
@@ -74,7 +74,7 @@ static bool doConnect()
 	closeUart();
 
 	/* open uart */
-	fd = open(UART, O_RDWR, O_NONBLOCK | O_NOCTTY | O_CLOEXEC);
+	fd = open(UART, O_RDWR | O_NONBLOCK | O_NOCTTY | O_CLOEXEC);
 	if (fd < 0) {
 		LOG_errno(LOG_LEVEL_WARN, PFX, "Could not open UART at '%s'", UART);
 		fd = -1;
diff --git a/src/trimble/trimble_input_uart.c b/src/trimble/trimble_input_uart.c
index 60044d4..feb36b8 100644
--- a/src/trimble/trimble_input_uart.c
+++ b/src/trimble/trimble_input_uart.c
@@ -78,7 +78,7 @@ static bool doConnect()
 	closeUart();
 
 	/* open uart */
-	fd = open(UART, O_RDWR, O_NONBLOCK | O_NOCTTY | O_CLOEXEC);
+	fd = open(UART, O_RDWR | O_NONBLOCK | O_NOCTTY | O_CLOEXEC);
 	if (fd < 0) {
 		LOG_errno(LOG_LEVEL_WARN, PFX, "Could not open UART at '%s'", UART);
 		fd = -1;
-- 
2.43.0


From f400a046b1c4ed0efacb5d4c365e9a00c720e7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:16 +0000
Subject: [PATCH 32/57] fix: save a serial number that arrives after the login
 gave up

---
 src/dump1090/req-serial.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dump1090/req-serial.c b/src/dump1090/req-serial.c
index be27808..2be4980 100644
--- a/src/dump1090/req-serial.c
+++ b/src/dump1090/req-serial.c
@@ -38,6 +38,8 @@ static pthread_cond_t serialReqCond = PTHREAD_COND_INITIALIZER;
 static bool hasSerial;
 /** Configuration: serial number */
 static uint32_t serialNumber;
+/** Serial number was received, but is not yet saved to the configuration */
+static bool unsavedSerial;
 
 /** Configuration Descriptor */
 static const struct CFG_Section cfgDesc =
@@ -119,12 +121,14 @@ enum SERIAL_RETURN SERIAL_getSerial(uint32_t * serial)
 
 		LOG_logf(LOG_LEVEL_INFO, PFX, "Got a new serial number: %" PRId32,
 			(int32_t)serialNumber);
-
+	}
+	if (unsavedSerial) {
 		/* got a new serial number -> save it */
 		if (!CFG_writeSection(LOCALSTATEDIR "/conf.d/05-serial.conf", &cfgDesc)) {
 			LOG_log(LOG_LEVEL_EMERG, PFX, "Could not write serial number, "
 				"refusing to work");
 		}
+		unsavedSerial = false;
 	}
 	*serial = serialNumber;
 cleanup:
@@ -151,6 +155,7 @@ static void serialResponse(const uint8_t * payload)
 	pthread_mutex_lock(&serialMutex);
 	serialNumber = ENDEC_tou32(payload);
 	hasSerial = true;
+	unsavedSerial = true;
 	pthread_cond_broadcast(&serialReqCond);
 	pthread_mutex_unlock(&serialMutex);
 }
-- 
2.43.0


From 9fe40f4f9d5cede648fdbbe1eb09a83941e68c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:34 +0000
Subject: [PATCH 33/57] fix: terminate the logged command line when its last
 argument is truncated

---
 src/util/proc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/proc.c b/src/util/proc.c
index 70e107c..ceae996 100644
--- a/src/util/proc.c
+++ b/src/util/proc.c
@@ -34,7 +34,8 @@ static void printCmdLine(char * const argv[])
 		ptr[-1] = ' ';
 		ptr = memccpy(ptr, *arg, '\0', end - ptr);
 	}
-	if (*arg && (!ptr || ptr == end))
+	/* !ptr: the last argument was truncated (and is not terminated) */
+	if (!ptr || *arg)
 		strcpy(&end[-4], "...");
 
 	LOG_logf(LOG_LEVEL_INFO, PFX, "Executing%s", buf);
-- 
2.43.0


From 72f6624e1fea3556f631a7909b9e8aba52080e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:35 +0000
Subject: [PATCH 34/57] fix: a command that was not started or awaited has not
 succeeded

---
 src/util/proc.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/util/proc.c b/src/util/proc.c
index ceae996..a006669 100644
--- a/src/util/proc.c
+++ b/src/util/proc.c
@@ -133,10 +133,17 @@ void PROC_forkAndExec(char * const argv[])
 bool PROC_execAndReturn(char * const argv[])
 {
 	pid_t pid = fork();
+	if (pid == -1) {
+		LOG_errno(LOG_LEVEL_WARN, PFX, "fork failed");
+		return false;
+	}
 	if (!pid)
 		PROC_execAndFinalize(argv);
 
 	int status;
-	waitpid(pid, &status, 0);
+	if (waitpid(pid, &status, 0) != pid) {
+		LOG_errno(LOG_LEVEL_WARN, PFX, "waitpid failed");
+		return false;
+	}
 	return WIFEXITED(status) && WEXITSTATUS(status) == 0;
 }
-- 
2.43.0


From 9e57c872ac0d4f7d29ef9a42795590e033eff092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:35 +0000
Subject: [PATCH 35/57] fix: a failed upgrade must not continue as second
 daemon

---
 src/radarcape/tb-misc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/radarcape/tb-misc.c b/src/radarcape/tb-misc.c
index 617cd8d..e9e516a 100644
--- a/src/radarcape/tb-misc.c
+++ b/src/radarcape/tb-misc.c
@@ -6,6 +6,8 @@
 #include <stdbool.h>
 #include <inttypes.h>
 #include <stdio.h>
+#include <stdlib.h>
+#include <unistd.h>
 #include "tb-misc.h"
 #include "fpga.h"
 #include "util/proc.h"
@@ -70,6 +72,8 @@ void TB_upgradeDaemon(const uint8_t * payload)
 		PROC_execAndFinalize(argv2);
 #endif
 	}
+	/* child: must not return into the daemon */
+	_exit(EXIT_SUCCESS);
 }
 #endif
 
-- 
2.43.0


From 594111e0dff3cf0b59617431ac14b51b3f0aabd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:03 +0000
Subject: [PATCH 36/57] fix: don't fork while another thread writes to the log

---
 src/util/log.h       |  4 ++++
 src/util/log_stdio.c | 14 ++++++++++++++
 src/util/proc.c      | 15 +++++++++++++--
 3 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/util/log.h b/src/util/log.h
index f73d1f1..1313226 100644
--- a/src/util/log.h
+++ b/src/util/log.h
@@ -28,6 +28,10 @@ void LOG_log(enum LOG_LEVEL level, const char * prefix, const char * str);
 
 void LOG_flush();
 
+void LOG_lock();
+
+void LOG_unlock();
+
 __attribute__((format(printf, 3, 4)))
 void LOG_errno(enum LOG_LEVEL level, const char * prefix, const char * fmt,
 	...);
diff --git a/src/util/log_stdio.c b/src/util/log_stdio.c
index cec84c1..cfd850f 100644
--- a/src/util/log_stdio.c
+++ b/src/util/log_stdio.c
@@ -227,3 +227,17 @@ void LOG_flush()
 {
 	NOC_call(fflush, stdout);
 }
+
+/** Lock the log: no message is written until LOG_unlock.
+ * @note needed around fork: otherwise, the lock could be held by another
+ *  thread, which does not exist in the child. */
+void LOG_lock()
+{
+	pthread_mutex_lock(&stdioMutex);
+}
+
+/** Unlock the log */
+void LOG_unlock()
+{
+	pthread_mutex_unlock(&stdioMutex);
+}
diff --git a/src/util/proc.c b/src/util/proc.c
index a006669..d52f915 100644
--- a/src/util/proc.c
+++ b/src/util/proc.c
@@ -41,12 +41,23 @@ static void printCmdLine(char * const argv[])
 	LOG_logf(LOG_LEVEL_INFO, PFX, "Executing%s", buf);
 }
 
+/** Fork such that the child is able to use the log
+ * @return like fork()
+ */
+static pid_t forkLocked()
+{
+	LOG_lock();
+	pid_t pid = fork();
+	LOG_unlock();
+	return pid;
+}
+
 /** Fork from parent process.
  * @return true if this is child, false if its the parent (returns twice)
  */
 bool PROC_fork()
 {
-	pid_t childPid = fork();
+	pid_t childPid = forkLocked();
 	if (childPid == -1) {
 		LOG_errno(LOG_LEVEL_WARN, PFX, "fork failed");
 		return false;
@@ -132,7 +143,7 @@ void PROC_forkAndExec(char * const argv[])
  */
 bool PROC_execAndReturn(char * const argv[])
 {
-	pid_t pid = fork();
+	pid_t pid = forkLocked();
 	if (pid == -1) {
 		LOG_errno(LOG_LEVEL_WARN, PFX, "fork failed");
 		return false;
-- 
2.43.0


From 4382deb1ef1d4aea64fa70b327b07b3d77cb1797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:03 +0000
Subject: [PATCH 37/57] fix: close the socket that was used to ask for the MAC
 address

---
 src/util/serial_eth.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/serial_eth.c b/src/util/serial_eth.c
index ad8006c..2cef022 100644
--- a/src/util/serial_eth.c
+++ b/src/util/serial_eth.c
@@ -74,6 +74,7 @@ static bool getMacBySocket(const char * dev, uint8_t mac[IFHWADDRLEN])
 	strncpy(ifr.ifr_name, dev, IFNAMSIZ);
 
 	int ret = NOC_call(ioctl, sock, SIOCGIFHWADDR, &ifr);
+	NOC_call(close, sock);
 
 	if (ret < 0) /* no such device */
 		return false;
-- 
2.43.0


From ee1eba5792f9224b112908ff70852132bd630100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:51 +0000
Subject: [PATCH 38/57] fix: fpga: wait for CONF_DONE instead of waiting while
 it is signalled

---
 src/radarcape/fpga.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/radarcape/fpga.c b/src/radarcape/fpga.c
index f677ea1..6839275 100644
--- a/src/radarcape/fpga.c
+++ b/src/radarcape/fpga.c
@@ -212,7 +212,7 @@ static bool program()
 			continue;
 
 		uint32_t spin = TIMEOUT;
-		while (GPIO_read(fpga->confd) && spin--)
+		while (!GPIO_read(fpga->confd) && spin--)
 			usleep(50);
 		if (!GPIO_read(fpga->confd)) {
 			LOG_log(LOG_LEVEL_WARN, PFX, "could not program: CONF_DONE = 0"
-- 
2.43.0


From c8ad0478c14e677a43730d960fbf21892f2815bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:51 +0000
Subject: [PATCH 39/57] fix: fpga: overflow of the file name buffer

---
 src/radarcape/fpga.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/radarcape/fpga.c b/src/radarcape/fpga.c
index 6839275..1eef87e 100644
--- a/src/radarcape/fpga.c
+++ b/src/radarcape/fpga.c
@@ -12,6 +12,7 @@
 #include <inttypes.h>
 #include <stdint.h>
 #include <stdbool.h>
+#include <stdio.h>
 #include <limits.h>
 #include <string.h>
 #include <assert.h>
@@ -166,12 +167,14 @@ static bool program()
 	char file[PATH_MAX];
 
 	struct stat st;
-	if (cfgFilename[0] == '/' && stat(cfgFilename, &st) == 0) {
-		strncpy(file, cfgFilename, sizeof file);
-	} else {
-		strncpy(file, FWDIR, sizeof file);
-		strncat(file, "/", strlen(file) - sizeof file);
-		strncat(file, cfgFilename, strlen(file) - sizeof file);
+	int len;
+	if (cfgFilename[0] == '/' && stat(cfgFilename, &st) == 0)
+		len = snprintf(file, sizeof file, "%s", cfgFilename);
+	else
+		len = snprintf(file, sizeof file, "%s/%s", FWDIR, cfgFilename);
+	if (len < 0 || (size_t)len >= sizeof file) {
+		LOG_log(LOG_LEVEL_ERROR, PFX, "bitstream file name is too long");
+		return false;
 	}
 
 	/* open input file */
-- 
2.43.0


From ae5384d370208c3a02ef736ab871a9d8777aa5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:51 +0000
Subject: [PATCH 40/57] fix: fpga: unmap the bitstream if programming failed

---
 src/radarcape/fpga.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/radarcape/fpga.c b/src/radarcape/fpga.c
index 1eef87e..5817f37 100644
--- a/src/radarcape/fpga.c
+++ b/src/radarcape/fpga.c
@@ -223,11 +223,12 @@ static bool program()
 			continue;
 		}
 
-		munmap(rfd, st.st_size);
-
 		LOG_log(LOG_LEVEL_INFO, PFX, "done");
 		break;
 	}
+
+	munmap(rfd, st.st_size);
+
 	if (try == retries) {
 		LOG_logf(LOG_LEVEL_ERROR, PFX, "could not program fpga after %" PRIu32
 			" attempts", retries);
-- 
2.43.0


From 2be6e0bce2e273ece13c4a53346887197f217b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:03 +0000
Subject: [PATCH 41/57] fix: watchdog: quit if the GPIO registers cannot be
 mapped

---
 src/radarcape/wd-main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/radarcape/wd-main.c b/src/radarcape/wd-main.c
index 1ffd6c4..b8fbba4 100644
--- a/src/radarcape/wd-main.c
+++ b/src/radarcape/wd-main.c
@@ -34,7 +34,8 @@ int main(int argc, char * argv[])
 	}
 
 	/* initialize GPIO subsystem */
-	GPIO_comp.onConstruct(NULL);
+	if (!GPIO_comp.onConstruct(NULL))
+		return EXIT_FAILURE;
 
 	/* drop privileges */
 	UTIL_dropPrivileges();
-- 
2.43.0


From 2d848b52679e0df6f301348ca81426b3f3a8c5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:13 +0000
Subject: [PATCH 42/57] fix: accept user names of the maximum length

---
 src/dump1090/dump1090.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dump1090/dump1090.c b/src/dump1090/dump1090.c
index e48ef3c..5fc3b7a 100644
--- a/src/dump1090/dump1090.c
+++ b/src/dump1090/dump1090.c
@@ -63,7 +63,7 @@ static struct CFG_Section cfgDesc =
 			.name = "Username",
 			.type = CFG_VALUE_TYPE_STRING,
 			.var = &username,
-			.maxlen = OPENSKY_MAX_USERNAME,
+			.maxlen = sizeof(username),
 		}
 	}
 };
-- 
2.43.0


From 86bfa40963dcc0fb42fd806e932b54e716f0312d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:46 +0000
Subject: [PATCH 43/57] fix: stop sending the position before the network is
 stopped

The position is sent by a component of its own which did not depend on the
network: upon stop, the sockets were closed while it could still be sending.
---
 src/dump1090/position.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dump1090/position.c b/src/dump1090/position.c
index 1e7bedd..78fada5 100644
--- a/src/dump1090/position.c
+++ b/src/dump1090/position.c
@@ -4,6 +4,7 @@
 #include <config.h>
 #endif
 #include "core/gps.h"
+#include "core/network.h"
 #include "util/cfgfile.h"
 #include "util/component.h"
 #include "util/log.h"
@@ -60,7 +61,7 @@ const struct Component GPS_comp = {
 	.description = PFX,
 	.config = &cfgDesc,
 	.main = &setPosition,
-	.dependencies = { NULL }
+	.dependencies = { &NET_comp, NULL }
 };
 
 /** Component entry point: set position */
-- 
2.43.0


From 34d600340b50f94ddc802a1c343611c24e64099e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:58 +0000
Subject: [PATCH 44/57] fix: never send the position before the login is
 complete

A request for the position which was left over from a previous connection
could be answered on a new connection by the thread which sets the position
before the device ID or the serial number was sent.
---
 src/core/gps.c   | 5 ++++-
 src/core/relay.c | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/gps.c b/src/core/gps.c
index 2f11d20..da9a81c 100644
--- a/src/core/gps.c
+++ b/src/core/gps.c
@@ -47,10 +47,13 @@ void GPS_reset()
 	pthread_mutex_unlock(&posMutex);
 }
 
-/** Reset flag whether position is needed */
+/** Reset flag whether position is needed
+ * @note if the position is currently being sent, this waits for it */
 void GPS_resetNeedFlag()
 {
+	CLEANUP_PUSH_LOCK(&posMutex);
 	needPosition = false;
+	CLEANUP_POP();
 }
 
 /** Update current GPS position and fix */
diff --git a/src/core/relay.c b/src/core/relay.c
index 8af7362..9066b3f 100644
--- a/src/core/relay.c
+++ b/src/core/relay.c
@@ -9,6 +9,7 @@
 #include "buffer.h"
 #include "network.h"
 #include "login.h"
+#include "gps.h"
 #include "beast.h"
 #include "util/cfgfile.h"
 #include "util/threads.h"
@@ -77,6 +78,9 @@ static void mainloop()
 	while (true) {
 		/* synchronize with the network (i.e. wait for a connection) */
 		NET_waitConnected();
+		/* forget requests for the position which belong to the previous
+		 * connection: the position must not be sent before the login */
+		GPS_resetNeedFlag();
 		NET_syncSender();
 
 		/* here: we have a new connection to the server */
-- 
2.43.0


From 03c80af56d147c63db9ca2917ede88f90cce5b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:49 +0000
Subject: [PATCH 45/57] fix: radarcape: refuse to start without serial number

The result of SERIAL_ETH_getSerial() was treated as a boolean, but the
failure codes are not zero.
---
 src/radarcape/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/radarcape/main.c b/src/radarcape/main.c
index f166c91..9a7d84f 100644
--- a/src/radarcape/main.c
+++ b/src/radarcape/main.c
@@ -151,7 +151,7 @@ int main(int argc, char * argv[])
 		return EXIT_SUCCESS;
 	}
 
-	if (!SERIAL_ETH_getSerial(NULL))
+	if (SERIAL_ETH_getSerial(NULL) != SERIAL_RETURN_SUCCESS)
 			LOG_log(LOG_LEVEL_EMERG, PFX, "No serial number configured");
 
 #ifdef STANDALONE
-- 
2.43.0


From 6c8682a75f13a9af687cee22dc61f514113b773e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:49 +0000
Subject: [PATCH 46/57] fix: radarcape: report failure if the configuration
 could not be saved

---
 src/radarcape/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/radarcape/main.c b/src/radarcape/main.c
index 9a7d84f..6fab8d7 100644
--- a/src/radarcape/main.c
+++ b/src/radarcape/main.c
@@ -145,10 +145,10 @@ int main(int argc, char * argv[])
 	if (savefile) {
 		LOG_logf(LOG_LEVEL_INFO, PFX, "Writing configuration file '%s'",
 			savefile);
-		CFG_write(savefile);
+		bool saved = CFG_write(savefile);
 		COMP_unregisterAll();
 		CFG_unregisterAll();
-		return EXIT_SUCCESS;
+		return saved ? EXIT_SUCCESS : EXIT_FAILURE;
 	}
 
 	if (SERIAL_ETH_getSerial(NULL) != SERIAL_RETURN_SUCCESS)
-- 
2.43.0


From e743303b38550143c756d7da9b8c91a0ecc0e9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:18 +0000
Subject: [PATCH 47/57] fix: read configuration files on file systems which do
 not tell the type of entries

---
 src/util/cfgfile.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 85d8020..8697cfd 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -161,7 +161,9 @@ bool CFG_readFile(const char * file, bool warnUnknownSection,
  */
 static int filterDirectory(const struct dirent * ent)
 {
-	if (ent->d_type != DT_REG && ent->d_type != DT_LNK)
+	/* not all file systems tell the type */
+	if (ent->d_type != DT_REG && ent->d_type != DT_LNK
+		&& ent->d_type != DT_UNKNOWN)
 		return 0;
 	char first = ent->d_name[0];
 	if (first < '0' || first > '9') /* does not begin with a number */
-- 
2.43.0


From 180e1fafd0eb7f92370fa253e81cca7261a503c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:55 +0000
Subject: [PATCH 48/57] fix: never keep the privileges of root if they cannot
 be dropped

---
 src/util/util.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/util.c b/src/util/util.c
index 17e9395..57c6e18 100644
--- a/src/util/util.c
+++ b/src/util/util.c
@@ -54,9 +54,9 @@ void UTIL_dropPrivileges()
 	if (chdir("/tmp")) {} /* silence gcc */
 	LOG_logf(LOG_LEVEL_INFO, PFX, "Dropping privileges to uid %u and "
 		"gid %u\n", (unsigned)u_nobody, (unsigned)g_nobody);
-	setgroups(0, NULL);
-	if (setgid(g_nobody)) {}
-	if (setuid(u_nobody)) {}
+	/* never go on with the privileges of root */
+	if (setgroups(0, NULL) || setgid(g_nobody) || setuid(u_nobody))
+		LOG_errno(LOG_LEVEL_EMERG, PFX, "Could not drop privileges");
 #endif
 }
 
-- 
2.43.0


From aced9993160ba5019eb7de9a9cf9289d480d8ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:15 +0000
Subject: [PATCH 49/57] fix: dump1090: refuse a position which is not a number

---
 src/dump1090/position.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dump1090/position.c b/src/dump1090/position.c
index 78fada5..2c41423 100644
--- a/src/dump1090/position.c
+++ b/src/dump1090/position.c
@@ -3,6 +3,7 @@
 #ifdef HAVE_CONFIG_H
 #include <config.h>
 #endif
+#include <math.h>
 #include "core/gps.h"
 #include "core/network.h"
 #include "util/cfgfile.h"
@@ -83,13 +84,16 @@ static bool checkCfg(const struct CFG_Section * sect)
 			LOG_logf(LOG_LEVEL_EMERG, PFX, "%s is not configured", opt->name);
 	}
 
-	if (latitude < -90 || latitude > 90)
+	if (!(latitude >= -90 && latitude <= 90))
 		LOG_log(LOG_LEVEL_EMERG, PFX, "Latitude must be given within +/-90 "
 			"degrees");
 
-	if (longitude < -180 || longitude > 180)
+	if (!(longitude >= -180 && longitude <= 180))
 		LOG_log(LOG_LEVEL_EMERG, PFX, "Longitude must be given within +/-180 "
 			"degrees");
 
+	if (!isfinite(altitude))
+		LOG_log(LOG_LEVEL_EMERG, PFX, "Altitude must be a finite number");
+
 	return true;
 }
-- 
2.43.0


From ad30c70ae6beca43f65eccb24f90ef20da535ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:21 +0000
Subject: [PATCH 50/57] fix: debian: do not ask forever if the frontend does
 not ask

With the noninteractive frontend (or a priority threshold) a missing position
was reset and asked for again without end: the installation never finished.
---
 debian/opensky-feeder-donated.config | 10 +++++++++-
 debian/opensky-feeder.config         | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/debian/opensky-feeder-donated.config b/debian/opensky-feeder-donated.config
index 8110340..5b4f45e 100755
--- a/debian/opensky-feeder-donated.config
+++ b/debian/opensky-feeder-donated.config
@@ -32,10 +32,18 @@ while (1) {
 	beginblock();
 	do { input high => "openskyd/$_->{template}format" foreach (@fail) }
 		unless $first;
-	input $_->{priority} => "openskyd/$_->{template}" foreach (@fail);
+	my $asked = 0;
+	foreach (@fail) {
+		my ($rc) = input $_->{priority} => "openskyd/$_->{template}";
+		$asked = 1 if $rc == 0;
+	}
 	endblock();
 	go();
 
+	# nothing can be asked (e.g. noninteractive frontend): another round would
+	# not change anything
+	last unless $first || $asked;
+
 	$first = 0;
 }
 
diff --git a/debian/opensky-feeder.config b/debian/opensky-feeder.config
index d12b890..ccfdaf1 100755
--- a/debian/opensky-feeder.config
+++ b/debian/opensky-feeder.config
@@ -33,10 +33,18 @@ while (1) {
 	beginblock();
 	do { input high => "openskyd/$_->{template}format" foreach (@fail) }
 		unless $first;
-	input $_->{priority} => "openskyd/$_->{template}" foreach (@fail);
+	my $asked = 0;
+	foreach (@fail) {
+		my ($rc) = input $_->{priority} => "openskyd/$_->{template}";
+		$asked = 1 if $rc == 0;
+	}
 	endblock();
 	go();
 
+	# nothing can be asked (e.g. noninteractive frontend): another round would
+	# not change anything
+	last unless $first || $asked;
+
 	$first = 0;
 }
 
-- 
2.43.0


From 528214c45f409f8280958e4a9878085a192becd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:54 +0000
Subject: [PATCH 51/57] fix: debian: accept only numbers which the daemon can
 use

Serial numbers which do not fit were accepted, but ignored by the daemon;
serial and port numbers with leading zeros were used as octal numbers.
---
 debian/opensky-feeder-donated.config | 6 +++---
 debian/opensky-feeder.config         | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/debian/opensky-feeder-donated.config b/debian/opensky-feeder-donated.config
index 5b4f45e..039c018 100755
--- a/debian/opensky-feeder-donated.config
+++ b/debian/opensky-feeder-donated.config
@@ -21,7 +21,7 @@ while (1) {
 		check(critical => 'longitude', (\&notempty, \&rational, &gen_range(-180, 180))),
 		check(critical => 'altitude', (\&notempty, \&rational)),
 		check(high => 'username', (&gen_length(40))),
-		check(high => 'serial', \&integer),
+		check(high => 'serial', (\&integer, &gen_range(-2147483648, 4294967295))),
 		check(high => 'port', (\&integer, &gen_range(1, 65535))),
 		check(high => 'host'),
 	);
@@ -68,11 +68,11 @@ sub rational {
 	return 1;
 }
 
-# check if value is an integer
+# check if value is a decimal integer (leading zeros would be read as octal)
 sub integer {
 	my (undef, $val) = @_;
 	return 1 if $val eq '';
-	return 0 unless $val=~/^[+-]?\d+$/;
+	return 0 unless $val=~/^[+-]?(0|[1-9]\d*)$/;
 	return 1;
 }
 
diff --git a/debian/opensky-feeder.config b/debian/opensky-feeder.config
index ccfdaf1..a5a911b 100755
--- a/debian/opensky-feeder.config
+++ b/debian/opensky-feeder.config
@@ -22,7 +22,7 @@ while (1) {
 		check(critical => 'altitude', (\&notempty, \&rational)),
 		check(high => 'dump1090branch'),
 		check(high => 'username', (&gen_length(40))),
-		check(high => 'serial', \&integer),
+		check(high => 'serial', (\&integer, &gen_range(-2147483648, 4294967295))),
 		check(high => 'port', (\&integer, &gen_range(1, 65535))),
 		check(high => 'host'),
 	);
@@ -69,11 +69,11 @@ sub rational {
 	return 1;
 }
 
-# check if value is an integer
+# check if value is a decimal integer (leading zeros would be read as octal)
 sub integer {
 	my (undef, $val) = @_;
 	return 1 if $val eq '';
-	return 0 unless $val=~/^[+-]?\d+$/;
+	return 0 unless $val=~/^[+-]?(0|[1-9]\d*)$/;
 	return 1;
 }
 
-- 
2.43.0


From be354b5760d1ab7d6cf08c4247980e43236afd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:04 +0000
Subject: [PATCH 52/57] fix: debian: use serial numbers which were entered as
 negative numbers

The daemon logs serial numbers as signed numbers and the package accepts
them, but the daemon ignores negative numbers in its configuration and gets
a new serial number.
---
 debian/opensky-feeder-donated.postinst | 5 +++++
 debian/opensky-feeder-kit.postinst     | 5 +++++
 debian/opensky-feeder.postinst         | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/debian/opensky-feeder-donated.postinst b/debian/opensky-feeder-donated.postinst
index 5fb774f..9fcc788 100644
--- a/debian/opensky-feeder-donated.postinst
+++ b/debian/opensky-feeder-donated.postinst
@@ -53,6 +53,11 @@ case "$1" in
 		HOST="localhost"
 	fi
 
+	# serial numbers are unsigned, but may have been shown as signed numbers
+	case "$SERIAL" in
+		-[1-9]*) SERIAL=$((SERIAL + 4294967296));;
+	esac
+
 	cat > $DAEMON_HOME/conf.d/10-debconf.conf <<EOF
 [GPS]
 Latitude=$LAT
diff --git a/debian/opensky-feeder-kit.postinst b/debian/opensky-feeder-kit.postinst
index ca75eef..07548af 100644
--- a/debian/opensky-feeder-kit.postinst
+++ b/debian/opensky-feeder-kit.postinst
@@ -53,6 +53,11 @@ case "$1" in
 		HOST="localhost"
 	fi
 
+	# serial numbers are unsigned, but may have been shown as signed numbers
+	case "$SERIAL" in
+		-[1-9]*) SERIAL=$((SERIAL + 4294967296));;
+	esac
+
 	cat > $DAEMON_HOME/conf.d/10-debconf.conf <<EOF
 [GPS]
 Latitude=$LAT
diff --git a/debian/opensky-feeder.postinst b/debian/opensky-feeder.postinst
index f9dca46..cf05e3c 100644
--- a/debian/opensky-feeder.postinst
+++ b/debian/opensky-feeder.postinst
@@ -55,6 +55,11 @@ case "$1" in
 		HOST="localhost"
 	fi
 
+	# serial numbers are unsigned, but may have been shown as signed numbers
+	case "$SERIAL" in
+		-[1-9]*) SERIAL=$((SERIAL + 4294967296));;
+	esac
+
 	cat > $DAEMON_HOME/conf.d/10-debconf.conf <<EOF
 [GPS]
 Latitude=$LAT
-- 
2.43.0


From 79e37cdcb59790b746aef604638a966b037360f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:24 +0000
Subject: [PATCH 53/57] fix: debian: do not purge files which another flavour
 of the feeder uses

The flavours share the user and the configuration: purging the remains of
one which was replaced by another removed the user, the configuration and
the serial number of the installed one.
---
 debian/opensky-feeder.postrm | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/debian/opensky-feeder.postrm b/debian/opensky-feeder.postrm
index ccab3c5..36840af 100644
--- a/debian/opensky-feeder.postrm
+++ b/debian/opensky-feeder.postrm
@@ -5,14 +5,17 @@ db_version 2.0
 
 case "$1" in
 	purge)
-	if getent passwd openskyd > /dev/null ; then
-		deluser --system --remove-home openskyd
+	# keep user and files if they are used by another flavour of the feeder
+	if [ ! -e /usr/bin/openskyd-dump1090 ]; then
+		if getent passwd openskyd > /dev/null ; then
+			deluser --system --remove-home openskyd
+		fi
+		if getent group openskyd >/dev/null; then
+			delgroup --system openskyd
+		fi
+
+		rm -rf /var/lib/openskyd
 	fi
-	if getent group openskyd >/dev/null; then
-		delgroup --system openskyd
-	fi
-
-	rm -rf /var/lib/openskyd
 
 	db_purge
 	;;
-- 
2.43.0


From 5903229341a769b7e8032abff6908734cd4ff891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:18 +0000
Subject: [PATCH 54/57] fix: arch: start the daemon on kernels newer than 4.x

They have the device tree, but no longer the messages of the cape manager.
---
 openskyd-arch/openskyd-start.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openskyd-arch/openskyd-start.sh b/openskyd-arch/openskyd-start.sh
index 16e0677..2337fd2 100755
--- a/openskyd-arch/openskyd-start.sh
+++ b/openskyd-arch/openskyd-start.sh
@@ -3,7 +3,7 @@
 KERNEL=$(uname -r)
 KMAJOR=${KERNEL%%.*}
 
-if [ ${KMAJOR} -eq 4 ]; then
+if [ ${KMAJOR} -ge 4 ]; then
   COMPAT=/sys/firmware/devicetree/base/compatible
   if grep "bone-black" ${COMPAT} >/dev/null 2>&1; then
     PARAM="--black"
-- 
2.43.0


From 9f589bcc412596dc418300dc88e083f8e0ebc4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:18 +0000
Subject: [PATCH 55/57] fix: opkg: stop the daemon also if its service is
 disabled

Otherwise an upgrade left the old version running, and a removal a daemon
without its files.
---
 openskyd-opkg/CONTROL/preinst | 7 ++-----
 openskyd-opkg/CONTROL/prerm   | 7 ++-----
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/openskyd-opkg/CONTROL/preinst b/openskyd-opkg/CONTROL/preinst
index 9ff2168..071e76c 100755
--- a/openskyd-opkg/CONTROL/preinst
+++ b/openskyd-opkg/CONTROL/preinst
@@ -1,9 +1,6 @@
 echo "Stopping opensky daemon"
 
 if [ -e /lib/systemd/system/openskyd.service ]; then
-  systemctl is-enabled openskyd.service >/dev/null 2>&1
-  if [ 0 = $? ]; then
-    systemctl stop openskyd.service
-    systemctl disable openskyd.service
-  fi
+  systemctl stop openskyd.service
+  systemctl disable openskyd.service
 fi
diff --git a/openskyd-opkg/CONTROL/prerm b/openskyd-opkg/CONTROL/prerm
index 9ff2168..071e76c 100755
--- a/openskyd-opkg/CONTROL/prerm
+++ b/openskyd-opkg/CONTROL/prerm
@@ -1,9 +1,6 @@
 echo "Stopping opensky daemon"
 
 if [ -e /lib/systemd/system/openskyd.service ]; then
-  systemctl is-enabled openskyd.service >/dev/null 2>&1
-  if [ 0 = $? ]; then
-    systemctl stop openskyd.service
-    systemctl disable openskyd.service
-  fi
+  systemctl stop openskyd.service
+  systemctl disable openskyd.service
 fi
-- 
2.43.0


From bf15be66e85587b41a6e30134f0273bd03f79686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:42 +0000
Subject: [PATCH 56/57] fix: arch: checksum of the start script

The start script was changed (kernels newer than 4.x), so makepkg would
refuse it.
---
 openskyd-arch/PKGBUILD | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openskyd-arch/PKGBUILD b/openskyd-arch/PKGBUILD
index ef968e6..3f77418 100644
--- a/openskyd-arch/PKGBUILD
+++ b/openskyd-arch/PKGBUILD
@@ -13,7 +13,7 @@ source=("${pkgname}-${pkgver}.tar.gz" "${pkgname}.service"
 md5sums=('SKIP'
          'e196ebef4681cd476987b127f21b346b'
          '5ef32f225e19fa044ffd2b1a9b4ba4b2'
-         '4ef13e36a7430467dbc86dc38f3b57b4'
+         '2a27c0efc20fd60b8710725e0f191df6'
          'b4e2362d8cb69d9cdd718134c68f3bfe'
          'fd78b4222eaf1e4f46621ddc17d554e3'
          '50ae4e63bf2e1b79bf372e77c1c6d614')
-- 
2.43.0


From b1e5d2488cac0c2de19724e879b680f6ecd18870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:02 +0000
Subject: [PATCH 57/57] fix: radarcape library: notice at configuration that
 there is no serial number

---
 src/radarcape/lib/opensky.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/radarcape/lib/opensky.cc b/src/radarcape/lib/opensky.cc
index f048306..d182b4a 100644
--- a/src/radarcape/lib/opensky.cc
+++ b/src/radarcape/lib/opensky.cc
@@ -83,7 +83,9 @@ void init()
 
 void configure()
 {
-	if (!SERIAL_ETH_getSerial(NULL)) {
+	/* like LOGIN_login(): other failures are temporary, login will try again */
+	enum SERIAL_RETURN rc = SERIAL_ETH_getSerial(NULL);
+	if (rc == SERIAL_RETURN_FAIL_PERM || rc == SERIAL_RETURN_FAIL_TEMP) {
 		LOG_log(LOG_LEVEL_EMERG, PFX, "No serial number configured");
 	} else {
 		configured = true;
-- 
2.43.0

