#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": anchors})

CRYPT = "lib/proto/proto_crypt.c"; HS = "lib/proto/proto_handshake.c"
CONN = "lib/proto/proto_conn.c"; PIPE = "lib/proto/proto_pipe.c"
DISP = "spiped/dispatch.c"; SPD = "spiped/main.c"; SPE = "spipe/main.c"

prop("C01", "Nothing from an unauthenticated packet is ever used",
 "A received packet is decrypted, releases plaintext and advances the receiver's state only after its complete 32-byte MAC, computed with the receiving direction's key over the complete encrypted body followed by the 64-bit number of the packet expected next, has been compared in full and found equal. On any other packet the decoder reports failure without having written any output, and the connection that carried it is reported broken and writes nothing derived from it.",
 ["inputs", "histories"], "every byte string an attacker can put in the position of a packet, after every history of earlier packets",
 "Tests decode packets made by the encoder plus a few corrupted ones; a gate that is skipped for one packet number, one length or one byte position passes them.",
 [CRYPT, PIPE, "libcperciva/crypto/crypto_verify_bytes.c"],
 [("MAC verified before decryption", "proto_crypt_dec"), ("decode failure breaks the pipe", "callback_pipe_read"), ("full-length comparison", "crypto_verify_bytes")],
 [("packet number", "number of the next packet in this direction", "struct proto_keys.pnum")])

prop("C02", "Packet numbers start at zero, advance by one, and are never reused",
 "In each direction the first packet is number zero, every packet sent and every packet accepted advances the number by exactly one, and nothing else changes it. The number which selects the encryption keystream of a packet is the same number that its MAC covers, so no keystream is used twice under one key and replayed, dropped or reordered packets are rejected.",
 ["histories", "inputs"], "every sequence of packets in a direction of a connection",
 "A reuse or skip that needs a particular count, an error path or a second site writing the counter does not occur in the short transfers the tests make.",
 [CRYPT, "libcperciva/crypto/crypto_aesctr.c"],
 [("number used for cipher and MAC then incremented", "proto_crypt_enc, proto_crypt_dec"), ("first packet is zero", "mkkeypair")],
 [("packet number", "number of the next packet", "struct proto_keys.pnum")])

prop("C03", "Encoder and decoder agree on one fixed-size packet layout",
 "Every packet sent has 1024 bytes of data padded with zeros, then the data length as a 32-bit big-endian integer, both encrypted, then a 32-byte MAC, whatever the length of the data. The decoder reads exactly that layout, accepts exactly the lengths 1 to 1024, and outputs exactly that many bytes of the data.",
 ["inputs"], "all data lengths and contents, all length values an authenticated peer can send",
 "Tests use a few lengths; an off-by-one at 0 or 1024, or padding that leaks earlier buffer contents, passes them.",
 [CRYPT], [("pad, length, encrypt, MAC", "proto_crypt_enc"), ("length check and copy", "proto_crypt_dec")])

prop("C04", "A peer's key-exchange value is admitted only when authenticated and valid",
 "A Diffie-Hellman value received from the peer takes part in a handshake only if it arrived completely, its 32-byte MAC over the whole 256-byte value under the MAC key of the peer's role verifies, it is less than the group modulus, and, when perfect forward secrecy is required, it is not 1. Otherwise the handshake fails, no session keys are derived and nothing further is sent to the peer.",
 ["inputs", "configurations"], "every byte string a peer or attacker can send in the key-exchange messages, with and without the option requiring forward secrecy, in both roles",
 "Tests run honest peers; a value of 1 or of at least the modulus, or a check bypassed for one role or one option, never occurs.",
 [CRYPT, HS, "libcperciva/crypto/crypto_dh.c"],
 [("MAC, range and forward-secrecy checks", "proto_crypt_dh_validate"), ("rejection fails the handshake", "callback_dh_read")])

prop("C05", "Session keys exist only after a complete, ordered handshake",
 "A handshake hands out session keys only after the local nonce was completely sent, the peer's complete nonce received, the local MACed Diffie-Hellman value completely sent, and the peer's completely received and validated; the accepting side sends its Diffie-Hellman value only after it validated the other side's. In every other outcome (short read or write, end of file, error, invalid value) it reports failure, and an end is reported exactly once, never after cancellation.",
 ["schedules", "fault_sequences", "inputs"], "every order in which network reads and writes complete, with every possible failure or truncation of each",
 "Tests over loopback complete the reads and writes in one order and without truncation.",
 [HS], [("event-driven handshake steps", "callback_nonce_read, callback_nonce_write, callback_dh_read, callback_dh_write"), ("single completion", "handshakefail, handshakedone")],
 [("pending operations", "non-null while a network operation is in flight", "struct handshake_cookie.read_cookie/write_cookie")])

prop("C06", "Both ends derive the same keys, with directions matched",
 "The two ends of a connection derive the key-exchange MAC keys and the session keys from the shared secret, the client's nonce, then the server's nonce (then the shared Diffie-Hellman value), in that order whichever role they play. What one end uses to authenticate or encrypt one direction is what the other end uses to verify or decrypt it; the two directions, and encryption and authentication within each, use four disjoint parts of the derived key material.",
 ["configurations", "inputs"], "both roles, both handshake modes, all nonces and secrets",
 "The tests' two ends run the same build, so a derivation that is wrong the same way on both ends (shared keys, swapped roles) still interoperates.",
 [CRYPT, HS, CONN], [("key derivation", "proto_crypt_dhmac, proto_crypt_mkkeys, mkkeypair"), ("direction assignment", "callback_handshake_done, launchpipes")])

prop("C07", "Every handshake uses fresh, complete, checked randomness",
 "Each handshake sends a 32-byte nonce, all of it freshly obtained from the random generator for that handshake, and, unless forward secrecy is disabled, a Diffie-Hellman value made from a private value of 32 bytes freshly obtained from the generator; every modular exponentiation splits its exponent with 32 fresh random bytes. When the generator fails, the handshake fails and nothing made from the unfilled buffer is sent.",
 ["histories", "fault_sequences"], "every handshake in every run, including failures of the generator",
 "Tests cannot observe that bytes are random or fresh, nor make the system entropy source fail.",
 [HS, "libcperciva/crypto/crypto_dh.c", CRYPT],
 [("nonce", "proto_handshake"), ("private value", "crypto_dh_generate"), ("blinding", "blinded_modexp")])

prop("C08", "The random generator is seeded, reseeded and ratcheted as HMAC_DRBG",
 "No output leaves the random generator before it was instantiated from 48 bytes of system entropy, nor after more than 256 requests without mixing in 32 new bytes of system entropy; failure to get entropy makes the request fail. Every output block is the HMAC-SHA256 of the state under the current key, the state and key are replaced through the NIST HMAC_DRBG update function after every request and on every seeding, and a request is filled completely, in pieces of at most 65536 bytes.",
 ["histories", "fault_sequences", "inputs"], "every sequence of requests of every size, including entropy failures",
 "Output looks random with or without these steps; tests never make 256 requests or fail the entropy source.",
 ["libcperciva/crypto/crypto_entropy.c", "libcperciva/util/entropy.c"],
 [("instantiate, reseed, update, generate", "crypto_entropy_read")],
 [("generator state", "Key, V and reseed counter", "drbg"), ("instantiated", "set once seeded", "instantiated")])

prop("C09", "Secret-dependent comparison and exponentiation reveal nothing by control flow",
 "Comparing a MAC reads every byte of both values and its control flow and memory accesses depend on the length only. MACs are compared in no other way, and the key exchange raises to its private exponent only through an exponent that was randomly blinded and whose bit length is fixed.",
 ["inputs"], "all secret values",
 "Functional tests do not observe which branches run or how long they take.",
 ["libcperciva/crypto/crypto_verify_bytes.c", CRYPT, "libcperciva/crypto/crypto_dh.c"],
 [("branch-free comparison", "crypto_verify_bytes"), ("blinded exponentiation", "blinded_modexp")])

prop("C10", "Secret working memory is wiped before it is given up",
 "The shared secret, AES key schedules and CTR streams, hash and HMAC intermediate state of finished computations, the HMAC key pad, random-generator seed material and working state, and the secret big numbers of the key exchange are overwritten before their memory is freed or their stack frame is left on success, and wherever the code frees them on a failure path.",
 ["inputs", "fault_sequences"], "every path through the functions that hold these values",
 "Wiping has no functional effect, so no test observes it.",
 [CRYPT, "libcperciva/alg/sha256.c", "libcperciva/crypto/crypto_aes.c", "libcperciva/crypto/crypto_aesctr.c", "libcperciva/crypto/crypto_entropy.c", "libcperciva/crypto/crypto_dh.c"],
 [("insecure_memzero / BN_clear_free before release", "proto_crypt_secret_free, crypto_aes_key_free, crypto_aesctr_free, SHA256_Final, HMAC_SHA256_Final, update")])

prop("C11", "The shared secret is the hash of the whole key file or nothing",
 "Loading a key file yields the SHA-256 hash of every byte of the file (or of standard input when asked), in order, read up to end of file. If the file cannot be opened or a read error occurs before end of file, no secret is produced and the program exits with a failure instead of running with a partial key.",
 ["inputs", "fault_sequences"], "key files of every size and every read outcome",
 "Tests use small readable files; a large file or read error in the middle is not exercised.",
 [CRYPT, SPD, SPE], [("read loop and end-of-file check", "proto_crypt_secret")])

prop("C12", "Ending a connection releases everything exactly once",
 "Whatever ends a connection (either direction failing, both directions finished, connect failure, handshake failure, a timeout, cancellation by the owner, an internal error) its two sockets are closed once, every pending network operation, timer, handshake and data pipe is cancelled once and never fires later, its keys and memory are freed once, and its owner is told exactly once with the reason. No operation that already completed is cancelled and no freed memory is used.",
 ["schedules", "fault_sequences"], "every order of completion events of one connection and every point at which it can be dropped",
 "Tests drop connections at a few quiet points; most orders of connect, handshake, timer and pipe events never happen.",
 [CONN, PIPE, HS], [("teardown", "proto_conn_drop"), ("event handlers", "callback_connect_done, callback_handshake_done, callback_pipestatus")],
 [("connection state", "cookies of everything pending", "struct conn_state")])

prop("C13", "Connecting and handshaking are always bounded by the configured timeout",
 "Whenever a connection is waiting for its target to accept or for the handshake to finish, a timer for the configured connection timeout is pending whose expiry drops the connection; the timer is cancelled as soon as the step it bounds is over, so it never cuts an established connection.",
 ["schedules", "configurations"], "every connection, both roles, every order of events, every timeout value",
 "A missing or never-cancelled timer shows only with a peer that stalls or a connection that outlives the timeout.",
 [CONN, SPD, SPE], [("timers armed before the step and cancelled after", "proto_conn_create, starthandshake, callback_connect_done, callback_handshake_done")])

prop("C14", "Data is relayed completely, in order, without loss or duplication",
 "In each direction, the bytes consumed from the input are exactly the bytes that were encrypted or decrypted into the output, each once and in order; the output is sent in full before more input is processed, only complete packets are decrypted, and no output exceeds its buffer. If the output cannot be written completely, the connection is reported broken instead of skipping bytes.",
 ["inputs", "schedules", "fault_sequences"], "every segmentation of the input stream and every short or failed write",
 "Tests move small amounts over loopback where reads and writes are never split at unusual places.",
 [PIPE, "libcperciva/netbuf/netbuf_read.c"], [("processing loop", "callback_pipe_read"), ("complete write before next read", "callback_pipe_write"), ("buffered reader", "netbuf_read_wait, netbuf_read_consume")])

prop("C15", "End of file in one direction half-closes, and only both directions end it",
 "When one side stops sending, everything it sent before has been forwarded, then exactly the sending side of the opposite socket is shut down and the other direction keeps flowing; the connection ends normally when both directions have ended. Errors from shutting down that mean the peer is already gone are tolerated, and any other network-caused error breaks only that connection.",
 ["schedules", "fault_sequences"], "every order of end-of-file and errors in the two directions",
 "Tests close connections in a couple of orders over loopback where shutdown never fails.",
 [PIPE, CONN], [("end-of-file handling", "callback_pipe_read"), ("status of both directions", "callback_pipestatus")])

prop("C16", "The daemon never serves more connections than configured, and recovers slots",
 "At most the configured maximum number of connections is open at any time: a new one is accepted only while fewer are open. The count goes up once per accepted connection and down once per ended or failed one, exactly one accept is outstanding whenever there is room and no shutdown was requested, and every connection ended makes room for a new one.",
 ["schedules", "histories", "fault_sequences"], "every sequence of arrivals, endings and failures",
 "Tests open a handful of connections; a leaked slot or missed re-arm appears only after many.",
 [DISP], [("accept gate", "doaccept"), ("accounting", "callback_gotconn, callback_conndied")],
 [("open connections", "number of live connections", "struct accept_state.nconn")])

prop("C17", "A graceful shutdown stops accepting and waits for the open connections",
 "After a termination signal the daemon stops accepting, keeps serving open connections, and finishes its event loop exactly when none is left open (at once if none was). The signal handler does nothing but record the signal, and the record is noticed by a periodic check that stays scheduled until then.",
 ["schedules", "histories"], "the signal arriving at any moment with any number of connections",
 "Tests send the signal at quiet moments with at most one connection.",
 [DISP, SPD, "lib/util/graceful_shutdown.c"], [("shutdown request", "dispatch_request_shutdown"), ("signal check", "graceful_shutdown"), ("done flag", "callback_conndied")])

prop("C18", "A peer or network failure never takes the daemon down",
 "An outcome that a peer or the network can cause (failed or aborted connections, resets, truncated or invalid data, failed handshakes, timeouts, failed shutdowns, interrupted system calls, failed name lookups) ends at most the connection concerned: it never makes an event handler report a fatal error to the event loop, and never raises SIGPIPE.",
 ["fault_sequences", "inputs"], "every errno a network system call can return for peer- or network-caused reasons, at every call",
 "Loopback tests do not produce these errors.",
 [HS, PIPE, CONN, DISP, "libcperciva/network/network_accept.c", "libcperciva/network/network_connect.c", "libcperciva/network/network_read.c", "libcperciva/network/network_write.c"],
 [("error classification", "callback_pipe_read, callback_accept, callback_buf, callback_connect"), ("no SIGPIPE", "network_write")])

prop("C19", "Buffered network reads and writes report exactly what happened",
 "An asynchronous read or write transfers into or from consecutive parts of the caller's buffer, never beyond its end, retries when interrupted or when the socket is not ready, and calls back exactly once: with the number of bytes transferred once at least the requested minimum was, with 0 at end of file, with -1 on error. A cancelled operation never calls back, and its resources are released exactly once either way.",
 ["schedules", "fault_sequences"], "every sequence of partial transfers, errors and cancellations",
 "Tests rarely see partial transfers and never see interruptions.",
 ["libcperciva/network/network_read.c", "libcperciva/network/network_write.c"], [("retry and progress", "callback_buf"), ("registration", "network_read, network_write"), ("cancellation", "network_read_cancel, network_write_cancel")])

prop("C20", "Connecting tries every address and keeps or closes each socket",
 "Connecting tries the addresses in order until one connects, reports success only for a socket whose pending error is clear, and reports failure once all addresses failed; the result is reported exactly once and never synchronously from within the request. Every socket that does not become the result is closed exactly once, and cancelling at any moment leaves no socket, timer or event behind.",
 ["fault_sequences", "schedules"], "every combination of failing and succeeding addresses and every cancellation point",
 "Tests connect to one address that works or refuses at once.",
 ["libcperciva/network/network_connect.c", "libcperciva/util/sock.c"], [("address iteration", "tryconnect, dofailed"), ("completion", "callback_connect, docallback"), ("cancellation", "network_connect_cancel")])

prop("C21", "The event loop delivers each socket event to its registration at most once",
 "A registration for a socket and direction is delivered at most once, only while registered and only to the handler registered for it; registering twice fails, cancelling removes it, and the table handed to the kernel always lists exactly the registered sockets and directions, so a handler may freely register and cancel any socket. A handler's failure stops the loop and is returned, and interrupted waits are retried.",
 ["histories", "schedules"], "every sequence of registrations, cancellations and readiness reports",
 "Tests use a few sockets in simple patterns; table corruption needs removals in the middle or from within handlers.",
 ["libcperciva/events/events.c", "libcperciva/events/events_network.c"], [("table maintenance", "events_network_register, events_network_cancel, events_network_get"), ("dispatch", "events_run_internal, events_spin")],
 [("pollfd table", "one entry per socket with registrations", "fds, nfds"), ("socket list", "handlers per socket and index into the table", "S")])

prop("C22", "Timers fire once, not early, and can always be cancelled",
 "A timer fires at most once, not before its time has come on the monotonic clock, and never after it was cancelled; the wait computed for the event loop never exceeds the time to the earliest timer by a negative or malformed amount. Cancelling or resetting any pending timer acts on that timer and no other, whatever other timers were added, removed or fired in between.",
 ["histories", "schedules"], "every sequence of timer operations",
 "Tests use few timers; a heap whose back-references go stale needs particular shapes.",
 ["libcperciva/events/events_timer.c", "libcperciva/datastruct/timerqueue.c", "libcperciva/datastruct/ptrheap.c"], [("expiry", "events_timer_get, events_timer_min"), ("record cookies", "ptrheap swap/heapify, timerqueue_setreccookie")])

prop("C23", "The name-lookup thread shares its state only under its lock",
 "The lookup thread and the event loop exchange requests, results and the thread's state only while holding the lock, every wait rechecks its condition, the completion is signalled after the result is stored, and each completed lookup calls back exactly once with its own result. Lock acquisition is balanced on every path, the lock is not held during the lookup or the callback, and a stopping thread frees the shared state only when the other side is done with it.",
 ["schedules"], "every interleaving of the two threads",
 "Tests see a few interleavings; races on this state need unlucky timing.",
 ["lib/dnsthread/dnsthread.c"], [("state under mutex", "workthread, dnsthread_resolveone, callback_resolveone, dnsthread_kill")])

prop("C24", "Re-resolving the target never loses a usable address",
 "When periodic resolution of the target succeeds, new connections use the new addresses and the old ones are freed; when it fails, the old addresses stay in use. In both cases the next resolution is scheduled after the configured interval, and connections already being set up keep their own copy of the addresses they started with.",
 ["histories", "fault_sequences"], "every sequence of successful and failing lookups",
 "Tests do not make lookups fail or change after start.",
 [DISP], [("resolution result", "callback_resolve"), ("rescheduling", "callback_resolveagain"), ("private copies", "callback_gotconn")])

prop("C25", "The client pumps its standard streams completely and reports failure",
 "The command-line client copies standard input to the connection and the connection to standard output, each byte read written completely and in order before the next read, retrying interrupted calls, and shuts down the writing side after end of file. It exits 0 only after the connection ended normally or it was asked to stop (SIGTERM); a failed connect, handshake or connection makes it exit with failure, promptly even when standard input stays open.",
 ["inputs", "fault_sequences", "schedules"], "every split of reads and writes and every way the connection can end",
 "Tests check a few transfers and exit codes.",
 ["spipe/pushbits.c", SPE, "libcperciva/util/noeintr.c"], [("copy loop", "workthread"), ("complete writes", "noeintr_write"), ("exit status", "callback_conndied, main")])

prop("C26", "Starting as a daemon reports success only when the child is up",
 "When asked to run in the background, the invoking process reports success only after the background process became a session leader and wrote its process ID file, and reports failure if it died before; the background process never returns into the startup code unless all of that worked.",
 ["fault_sequences", "schedules"], "every failure and death point during startup",
 "Tests start daemons successfully; failures between fork and signal are not injected.",
 ["libcperciva/util/daemonize.c", "libcperciva/util/ipc_sync.c"], [("fork protocol", "daemonize"), ("pipe handshake", "ipc_sync_wait, ipc_sync_signal")])

prop("C27", "Privileges are dropped completely, in order, before any peer is served",
 "When asked to change user, the daemon does so after binding its socket and before it accepts anything; supplementary groups are given up first, then the group, then the user is changed, and if the identity given cannot be resolved or changing the group or user fails, the daemon exits with failure without having served anyone.",
 ["configurations", "fault_sequences"], "every form of the user argument and every failure of the system calls",
 "Tests run as one user; failures of the individual steps are not injected.",
 [SPD, "libcperciva/util/setuidgid.c"], [("drop before accept", "main"), ("group order", "setuidgid")])

prop("C28", "Contradictory, repeated or incomplete options are refused",
 "The daemon and the client refuse to start, with exit status 1, when an option is repeated, an unknown option or missing or extra argument is given, exactly-one or mutually exclusive options are violated (encrypt or decrypt; disable or require forward secrecy), a required option (source, target, key) is missing, or an address or number is invalid. They do so before they resolve, open, bind or connect anything.",
 ["configurations", "inputs"], "every combination of command-line options",
 "Tests try a few invocations out of the exponentially many.",
 [SPD, SPE], [("option loop and sanity checks", "main")])

prop("C29", "Every option reaches the behaviour it documents, at both ends of its path",
 "The role (encrypt or decrypt), the disabling and requiring of forward secrecy, the keep-alive switch, the connection limit, the timeout, the re-resolution interval and switch, the bind address, the secret and the target given on the command line arrive unchanged, and without being exchanged for one another, at the places that act on them, for every connection; omitted ones take the documented defaults (100 connections, 5 seconds, 60 seconds).",
 ["configurations"], "every combination of options",
 "Long lists of same-typed parameters make swaps compile, and tests exercise few options.",
 [SPD, SPE, DISP, CONN, HS], [("parameter passing", "main, dispatch_accept, proto_conn_create, proto_handshake, proto_crypt_dh_validate, network_connect_bind")])

prop("C30", "Addresses are parsed within bounds and only when well-formed",
 "A Unix socket path is accepted only if it fits the system's address structure including its terminator; a bracketed numeric address is accepted only with its closing bracket and a decimal port from 1 to 65535 with nothing after it, and the port and address used are the ones given; a host name is looked up with the text before and after its last colon, and every address found is kept. A bind address given without a port gets port 0 and is otherwise unchanged. Malformed addresses are refused without reading or writing outside the string.",
 ["inputs"], "all address strings",
 "Tests cover a table of strings; boundary lengths and odd shapes are sampled.",
 ["libcperciva/util/sock.c", "libcperciva/util/sock_util.c", "libcperciva/util/parsenum.h"], [("resolution", "sock_resolve, sock_resolve_unix"), ("validation", "sock_addr_validate")])

prop("C31", "Failing operations leak no memory or descriptor and free nothing twice",
 "Every setup operation that fails part-way (creating connections, pipes, readers, handshakes, listeners, sockets, threads, timers, address lists, keys) releases exactly the resources it acquired so far and leaves those of its caller alone; on success nothing but the returned object's resources stays allocated. No resource is released twice on any path.",
 ["fault_sequences"], "every failure of every allocation and system call inside these operations",
 "Allocation and descriptor failures are not injected by the tests.",
 [CONN, PIPE, HS, CRYPT, DISP, "libcperciva/util/sock.c", "libcperciva/util/sock_util.c", "libcperciva/network/network_connect.c", "libcperciva/events/events_timer.c", "lib/dnsthread/dnsthread.c"],
 [("error unwinding", "err labels of each function")])

prop("C32", "A hardware implementation is used only when supported and self-tested",
 "Hardware-accelerated AES and SHA-256 run only on a processor that reports every feature they use, and after a self-test in the same process in which the accelerated code gave the right answer (the portable code's result for SHA-256, the published known answer for AES with a key of that size); otherwise the portable code runs. The processor's random-number instruction is used only where it is reported. Key expansion, encryption, stream processing and freeing of one key always use the same implementation, and which one runs never changes after the first decision.",
 ["configurations"], "every processor feature combination and self-test outcome",
 "Tests run on one processor, so the fallbacks and mismatches are never seen.",
 ["libcperciva/crypto/crypto_aes.c", "libcperciva/crypto/crypto_aesctr.c", "libcperciva/alg/sha256.c", "libcperciva/cpusupport/cpusupport_x86_aesni.c"], [("selection", "hwaccel_init, usesha"), ("dispatch", "crypto_aes_key_expand, crypto_aes_encrypt_block, crypto_aes_key_free")])

prop("C33", "Size computations cannot overflow into undersized memory",
 "Every growing or multi-element allocation (element arrays, heaps, poll table, memory pools, address lists, formatted strings) either checks its size computation against overflow and fails cleanly, or multiplies by nothing caller-controlled; after a failed growth the old contents stay valid and owned.",
 ["inputs", "fault_sequences"], "all element counts and sizes and every allocation failure",
 "Counts near the limits of size_t cannot be reached in a test.",
 ["libcperciva/datastruct/elasticarray.c", "libcperciva/util/imalloc.h", "libcperciva/events/events_network.c", "libcperciva/datastruct/mpool.h"], [("overflow guards", "elasticarray_resize, IMALLOC, growpollfd")])

prop("C34", "AES-CTR streams are positioned exactly at every byte, on every code path",
 "Processing data through one stream in pieces of any sizes gives the same result as in one piece: each byte is combined with keystream byte number equal to its position, a keystream block is generated from the nonce and block number exactly when position crosses a block boundary, and the accelerated and portable paths follow the same rule.",
 ["inputs", "histories"], "every split of the data and every position",
 "Tests compare a few splits; keystream reuse at one boundary or a stale block shows only for unusual lengths.",
 ["libcperciva/crypto/crypto_aesctr.c", "libcperciva/crypto/crypto_aesctr_shared.c", "libcperciva/crypto/crypto_aesctr_aesni.c"], [("block bookkeeping", "crypto_aesctr_stream")])

prop("C35", "Results of SHA-256, HMAC, PBKDF2, AES and modular exponentiation are correct",
 "For all inputs the hash, MAC, key derivation, cipher and exponentiation functions compute the published functions.",
 ["inputs"], "all inputs",
 "Test vectors sample finitely many inputs.",
 ["libcperciva/alg/sha256.c", "libcperciva/crypto/crypto_aes.c", "libcperciva/crypto/crypto_dh.c"], [("compression function", "SHA256_Transform")])

prop("C36", "Open connections make progress while their peers do",
 "If both peers of an open connection keep reading and writing, every byte sent on one end is eventually delivered at the other, and no connection can starve the others forever.",
 ["schedules", "histories"], "all infinite schedules",
 "Liveness over infinite schedules is not observable in a finite test.",
 ["libcperciva/events/events.c", PIPE], [("event loop fairness", "events_run_internal, events_network_get")])

prop("C37", "Events to be run at once run exactly once, in order, before anything else",
 "A handler registered to be run at once runs exactly once unless it is cancelled first: those with smaller priority values before those with larger, and in the order of their registration within one priority. Cancelling removes that one and no other, whatever else is queued, and each record is released. The event loop takes a socket or timer event, or blocks, only after it found no such handler queued since the last handler ran.",
 ["histories", "schedules"], "every sequence of registrations, cancellations and deliveries, including those made from within handlers",
 "Only failed connection attempts and buffered readers use this queue, one event at a time; orders, priorities and cancellations in the middle are not tested.",
 ["libcperciva/events/events_immediate.c", "libcperciva/events/events.c"],
 [("queue by priority", "events_immediate_register, events_immediate_cancel, events_immediate_get"), ("order of dispatch", "events_run_internal")],
 [("queues", "one list per priority and a lower bound of the first non-empty one", "heads, minq")])


out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
