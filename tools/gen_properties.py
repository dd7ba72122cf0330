#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

prop("B01", "Frame buffer: FIFO delivery, and only the oldest frames are ever lost",
 "Frames leave the buffer in exactly the order they were committed, each at most once and byte-identical; a frame put back is the next one delivered, an aborted frame is never delivered, and a frame is dropped only by an explicit flush or as the oldest queued frame when no free frame is left and no further memory may be or can be allocated. "
 "Requesting a frame for production always succeeds, and a timed read returns nothing only if the queue is empty. "
 "The buffer's reported queue length, free frames, maximum queue length, flush count and discard counters (current, worst and overall) always equal what actually happened.",
 ["histories", "configurations", "fault_sequences"],
 "Every sequence of produce/commit/abort, consume/release/put-back, flush, garbage collection and statistics operations, for every small static/dynamic pool configuration, with memory allocation failing at any point.",
 "test_buffer.c walks hand-written sequences on a few pool sizes and never lets malloc fail; a lost, duplicated or reordered frame needs a particular interleaving of overload, put-back, flush and GC.",
 ["src/core/buffer.c", "src/core/buffer.h", "src/util/list.h"],
 [("free list / queue of links; discard of queue head on exhaustion", "src/core/buffer.c getFrameFromPool, BUF_*"), ("history switch", "BUF_flushUnlessHistoryEnabled")],
 [("pool", "unused frames", "src/core/buffer.c"), ("queue", "committed frames", "src/core/buffer.c"), ("newFrame/currentFrame", "frame owned by producer/consumer", "src/core/buffer.c")],
 ["BUF_newFrame/commit/abort/getFrame/getFrameTimeout/release/put/flush, BUFFER_getStatistics"])

prop("B02", "Frame buffer capacity: bounded growth, safe garbage collection, no leaks",
 "Without history the buffer holds exactly its static number of frames; with history it grows, one increment at a time and only when no free frame is left, up to the configured number of increments before any frame is dropped. "
 "Garbage collection never frees or corrupts a frame that is queued, being produced or being consumed, returns every fully unused increment to the system while the static frames stay, and partially collected increments are reused before new memory is taken; the collector's background loop collects only when the queue is shorter than the configured fraction of the dynamic capacity. "
 "Destroying the buffer releases all its memory, it can be constructed again afterwards, and no accepted configuration (including zero-sized values) makes it crash.",
 ["histories", "configurations", "fault_sequences"],
 "Every operation history over all small configurations (static 0..3, increment size 0..2, increments 0..2, history on/off, GC on/off, level 0..2), with allocation failure at any point.",
 "The tests check GC in one or two quiescent situations; use-after-free and stranded frames need GC to run while particular frames are out.",
 ["src/core/buffer.c"],
 [("two stage collect/destroy and uncollect", "src/core/buffer.c collectPools, uncollectPools, destroyUnusedPools"), ("configuration fix-up", "src/core/buffer.c cfgFix"), ("GC loop threshold", "src/core/buffer.c mainloop")],
 [("dynPools", "list of dynamic increments", "src/core/buffer.c")],
 ["BUFFER_getStatistics, heap (malloc/free), BUF_comp callbacks"])

prop("B03", "Frame buffer is safe under concurrent producer, consumer, GC, flush and cancel",
 "With a producer, a consumer, a flushing or garbage collecting thread and a statistics reader running concurrently, under every interleaving the delivered frames are a subsequence of the committed ones in order, unaltered, never delivered twice and lost only as the loss rules allow; access to shared data is always ordered by locking. "
 "A consumer waiting for a frame is always woken by a commit, a timed wait gives up only when its time is over, and no interleaving deadlocks. "
 "Cancelling a waiting consumer at any point leaves the buffer unlocked and usable, with no frame lost.",
 ["schedules"],
 "Every interleaving (at synchronisation operations; and at every shared memory access for race detection) of small thread programs with up to 4 threads and 1-4 operations each, including thread cancellation.",
 "The unit tests are single threaded.",
 ["src/core/buffer.c", "src/util/threads.h"],
 [("mutex and condition variable", "src/core/buffer.c"), ("cleanup handlers", "src/util/threads.h CLEANUP_PUSH_LOCK")],
 [("mutex/cond", "protect pool and queue", "src/core/buffer.c")],
 ["BUF_* API, pthread calls"])

prop("E01", "Outgoing payload escaping is exact and reversible",
 "Encoding any byte string doubles each escape byte 0x1a and copies every other byte unchanged and in order; the reported length is exactly input length plus number of escape bytes, and nothing beyond it (or beyond twice the input length) is written. "
 "Decoding the encoded bytes therefore yields the input again.",
 ["inputs"],
 "All byte strings over {escape, other values} up to length 16, every single and pair of byte values, and all lengths used by the messages.",
 "Tests only see a few escaped frames.",
 ["src/core/beast.c"], [("memchr based copy", "src/core/beast.c BEAST_encode")], (), ["BEAST_encode"])

prop("R01", "Radarcape/Beast stream decoding is exact for every stream and chunking",
 "For any byte stream delivered in any chunk sizes, the decoder yields exactly the well-formed frames (sync, type 1-4, 6 byte timestamp, signal level, 2/7/14/14 byte payload, escape bytes doubled): type, timestamp, signed level, payload length and payload are decoded correctly and the raw copy is the frame's exact (still escaped) bytes. "
 "Garbage, unknown types, truncated frames and an unescaped sync inside a frame are skipped, and decoding resumes at the next unescaped sync; a frame that starts where another one breaks off is not lost. "
 "The result is independent of the chunking, the loss of the connection - and only that - is reported as failure, nothing from before a reconnection is joined with data after it, and no stream makes it read or write outside its buffers.",
 ["inputs"],
 "All streams over a structured alphabet (sync, each type byte, ordinary bytes) up to a bounded length, all single and double faults in multi-frame streams, each under every chunking of a bounded number of cut points and at the 128 byte receive limit.",
 "test_radarcape.c covers selected frames and a few cut points; the parser has several refill points in the middle of escapes.",
 ["src/radarcape/rc-parser.c"],
 [("decode/synchronize/next state machine over a refillable buffer", "src/radarcape/rc-parser.c INPUT_getFrame")],
 [("buf/bufCur/bufEnd", "receive window", "src/radarcape/rc-parser.c")],
 ["INPUT_connect, INPUT_getFrame, RC_INPUT_read"])

prop("R02", "Radarcape receiver is configured as the filter settings demand",
 "On every connection to a directly attached receiver the complete option set is written before any frame is read: binary output, frame filter and CRC check according to the filter configuration, MLAT, GPS timestamps, RTS handshake, error correction according to its setting, no Mode-A/C, and the two indicator options, each as sync, '1', option letter. "
 "If writing any option fails, the connection is made anew and the whole set is sent again; changing the frame filter at run time immediately sends exactly the matching filter option. "
 "Network-attached receivers are never written to.",
 ["configurations", "fault_sequences"],
 "All filter/CRC/FEC settings, every option write failing or being short at any position, repeated up to a bounded number of times.",
 "Tests never fail a write and check one configuration.",
 ["src/radarcape/rc-parser.c"],
 [("option writer and retry loop", "src/radarcape/rc-parser.c configure, INPUT_connect, INPUT_reconfigure")],
 (), ["RC_INPUT_write, RC_INPUT_connect"])

prop("I01", "Receiver connections are re-established without leaking or misusing them",
 "The network and UART inputs (receiver and GPS) keep at most one open connection, retry every 10 seconds until a connection succeeds, deliver exactly the bytes read, report a closed or failing connection as end of input, and never read, write, configure or close a connection that is not open. "
 "A UART read that has no data waits and continues; an input is connected only after it was opened and its line settings were applied (receiver: 3500000 baud 8N1 with hardware handshake; GPS: odd parity, the speed command sent at 9600 and at 115200 baud); serial lines neither become the controlling terminal nor are inherited by executed programs. "
 "Disconnecting (also when the thread is cancelled) closes the connection exactly once.",
 ["fault_sequences", "histories"],
 "Every sequence of environment answers (resolve/connect/open/tcgetattr/tcsetattr success or failure; read returning data, nothing, would-block, error; write full, short, failing) and API calls up to a bounded length.",
 "No test exercises the drivers.",
 ["src/radarcape/network.c", "src/radarcape/uart.c", "src/trimble/trimble_input_network.c", "src/trimble/trimble_input_uart.c"],
 [("reconnect loop", "RC_INPUT_connect, TRIMBLE_INPUT_connect")], [("sock / fd", "current connection", "driver files")],
 ["socket, open, close, read, recv, send system calls"])

prop("T01", "GPS receiver packet framing is exact for every stream and chunking",
 "For any byte stream in any chunk sizes, the GPS packet decoder returns exactly the packets framed by 0x10 ... 0x10 0x03 with doubled 0x10 bytes reduced to one, in order, independent of chunking. "
 "Broken framing, unknown garbage and packets that do not fit the caller's buffer are skipped and decoding resumes at the next packet start; the loss of the connection - and only that - is reported as failure and no data from before a reconnection is used after it. "
 "It never writes beyond the caller's buffer, and on each connection the receiver is first switched to the expected time mode, reconnecting until that write succeeds.",
 ["inputs", "fault_sequences"],
 "All streams over {0x10, 0x03, ordinary bytes} up to a bounded length under every chunking of bounded cut points, all caller buffer sizes 2..8, and failing configuration writes.",
 "There is no test of the GPS parser.",
 ["src/trimble/trimble_parser.c"],
 [("framing state machine", "src/trimble/trimble_parser.c TRIMBLE_PARSER_getFrame, decode, synchronize")],
 [("buf/bufCur/bufEnd", "receive window", "src/trimble/trimble_parser.c")], ["TRIMBLE_PARSER_*, TRIMBLE_INPUT_*"])

prop("T02", "Only trustworthy GPS fixes become the sensor position",
 "A position is taken over exactly from supplemental timing packets of the correct length that report a locked over-determined-clock fix with no critical alarm, no test mode and no self survey in progress; latitude and longitude are converted from radians to degrees, altitude is kept in metres, bit-exactly. "
 "All other packets, whatever their content or length, leave the position untouched. "
 "When the GPS connection is (re-)established the previous position is forgotten, but a position the server is still waiting for is nevertheless delivered once it becomes known.",
 ["inputs", "histories"],
 "All single-field values and pairs of field values of the packet that matter (mode, disciplining mode, each alarm bit, decoding status), all lengths, and sequences of packets and reconnections up to a bounded length.",
 "There is no test of the GPS receiver.",
 ["src/trimble/trimble_recv.c"], [("validity conditions", "src/trimble/trimble_recv.c posFrame")], (), ["GPS_setPositionWithFix, server messages"])

prop("G01", "The sensor position reaches the server once it is known and trusted",
 "When a login asks for the position and it is known and has a fix, exactly one position message with the current latitude, longitude and altitude (big-endian IEEE doubles, escaped) is sent; otherwise the login proceeds and the message is sent as soon as both position and fix become available, repeated on later updates only until one send succeeded. "
 "Updates that nobody asked for send nothing, and a reset forgets position and fix. "
 "Concurrent login and position updates never lose a pending request, mix the coordinates of two positions or deadlock.",
 ["histories", "fault_sequences", "schedules"],
 "All sequences of set/fix/reset/login events with each send succeeding or failing, up to a bounded length, and all interleavings of login with position updates.",
 "test_gps.c covers chosen sequences, single threaded.",
 ["src/core/gps.c"], [("need/has flags under mutex", "src/core/gps.c")],
 [("needPosition, hasPosition, hasFix, position", "deferral state", "src/core/gps.c")], ["NET_send"])

prop("F01", "Frames are filtered exactly as configured, and counted",
 "A frame passes exactly if it is a Mode-S short or long frame, the receiver clock is synchronised or the sync filter is off, and its downlink format is 17 or 18 or the extended-squitter-only filter is off. "
 "Reset or restart makes the clock unsynchronised, run-time changes take effect on the next frame and reconfigure the receiver, and configuration values survive. "
 "The per-type, per-format, filtered, Mode-S filtered and unsynchronised counters equal the number of frames so classified.",
 ["inputs", "histories", "configurations"],
 "All frame types and first bytes (256) in all filter states, and all histories of configuration changes and frames up to a bounded length.",
 "Tests use a few frames in one or two configurations.",
 ["src/core/filter.c"], [("filter decision", "src/core/filter.c FILTER_filter")],
 [("isSynchronized, modeSFilter, FILTER_cfg", "filter state", "src/core/filter.c")], ["FILTER_* API"])

prop("K01", "Server commands are framed exactly and dispatched once, for any chunking",
 "For any command stream cut into any chunks, each complete packet (big-endian type and length including the 4 byte header, up to 128 bytes) whose type is registered and whose payload length matches is handed over exactly once, in order, with exactly its payload; unknown types and wrong lengths are ignored without disturbing the following packets, and an impossible length discards what is buffered. "
 "A partial packet of a broken connection is never combined with bytes of the next connection. "
 "A filter command changes exactly the settings selected by its mask, and no stream makes the dispatcher touch memory outside its buffer.",
 ["inputs", "histories"],
 "All streams of small packets over all types (registered, unregistered, out of range), lengths 0..6 and 127..129, all chunkings of bounded cut points, with connection loss at every byte.",
 "There is no test of the command channel.",
 ["src/core/tb.c", "src/core/network.c"], [("accumulating buffer", "src/core/tb.c mainloop"), ("processor table", "src/core/tb.c processPacket, TB_register")],
 [("buf/bufLen", "bytes of the current connection", "src/core/tb.c")], ["registered callbacks, FILTER_*"])

prop("K02", "Remote commands run exactly the intended program with the intended arguments",
 "A reverse shell command starts the connection client with exactly the address and port (network byte order) from the packet, for every address and port; restart replaces the daemon by itself with its board option preserved, reboot and upgrade run exactly their fixed command lines, upgrade restarting only if it succeeded. "
 "Unless a child process cannot be created the command is always executed. Except for restart, commands run in a child (reverse shell and reboot: detached from the daemon and, where control groups are available, moved out of its control group so that ending the daemon does not end them) with stdin from /dev/null and an empty environment while the daemon continues at once; the child terminates without running daemon code, whatever fails, and never hangs because of what other threads were doing when it was started. "
 "The command line is logged, shortened if it is too long, and logging never overruns its buffer, whatever the length of the arguments.",
 ["inputs", "fault_sequences", "schedules"],
 "All boundary addresses/ports, every fork/daemon/exec/wait outcome, argument vectors of every total length around the log buffer size.",
 "There is no test; the code would execute programs.",
 ["src/util/proc.c", "src/radarcape/tb-misc.c", "src/radarcape/tb-rshell.c"],
 [("fork, daemonize, exec", "src/util/proc.c"), ("argument building", "src/radarcape/tb-rshell.c")], (), ["fork, execve, daemon, waitpid, _Exit calls"])

prop("N01", "Server connection recovers from every failure without deadlock or socket misuse",
 "Whatever order the sender, the receiver and other sending threads notice failures in, each lost connection is reported once to every side, its socket is closed exactly once, and the sensor reconnects (waiting 10 seconds after a failed attempt); no socket leaks, is used after closing or is closed twice, and the process never aborts or deadlocks. "
 "After a failure both sides end up on the same, newest connection, and a failure noticed late on an old connection never disturbs the new one. "
 "Cancelling all threads in any state terminates them, releases the locks and closes the open connection; online state and attempt and disconnect counts match what happened, and waiting for the connection ends only if there is one.",
 ["schedules", "fault_sequences"],
 "All interleavings of the connection thread, sender, receiver and an extra sender, over all placements of connect failures, peer closes, send/receive errors, forced disconnects and cancellation, up to bounded numbers of connections.",
 "There is no test of the network component.",
 ["src/core/network.c"], [("connection and transition state machine", "src/core/network.c emitDisconnect, mainloop")],
 [("connState, transState, recvsock, sendsock", "leader/follower synchronisation", "src/core/network.c")], ["connect/send/recv/shutdown/close calls, NET_* results"])

prop("N02", "Messages to the server are sent whole, in order and never interleaved",
 "A send reports success exactly if all of its bytes, in order and nothing else, were handed to one connection, however the operating system splits the transfer; it reports failure as soon as a transfer fails and sends nothing afterwards. "
 "Messages of concurrent senders are never interleaved, and sending never raises a signal on a closed connection. "
 "Received bytes are passed on exactly once in order, and the byte counters equal the bytes of successful transfers.",
 ["schedules", "fault_sequences", "inputs"],
 "All ways the system can split or fail transfers of messages up to 6 bytes, for one and two concurrent senders.",
 "Tests replace the network by a stub.",
 ["src/core/network.c"], [("send loop under send lock", "src/core/network.c trySend, NET_send")], (), ["send/recv calls"])

prop("N03", "Connecting tries every address of the host exactly once and leaks nothing",
 "Connecting resolves the host, tries each IPv4 or IPv6 address with the configured port in a random order, each exactly once until one succeeds, and returns that connected socket; if none succeeds it reports failure. "
 "Every socket but the returned one is closed, the address list and helper memory are released on every path including cancellation, and addresses of other families are skipped.",
 ["fault_sequences", "inputs"],
 "All address lists up to 4 entries over {IPv4, IPv6, other}, all shuffles, all socket/connect outcomes, cancellation at every blocking call.",
 "There is no test.",
 ["src/util/net_common-posix.c", "src/util/util.c"], [("shuffle and iterate", "src/util/net_common-posix.c NETC_connect")], (), ["getaddrinfo, socket, connect, close calls"])

prop("L01", "Frames go to the server only after login, in order, without loss or duplication",
 "On every new connection the sensor first completes the login and only then sends frames, in buffer order; with history enabled no buffered frame is ever lost by a connection failure (the frame whose transfer failed is sent first after the next login), without history everything buffered before the login completed is discarded. "
 "When no frame arrives within the configured time a keep-alive (0x1a '6') is sent. "
 "A failed login or send leads to waiting for the next connection, and cancelling the thread at any point returns a frame in transit to the buffer.",
 ["schedules", "fault_sequences", "histories"],
 "All sequences of frame arrivals, timeouts, login steps and send failures up to a bounded number of connections and frames, with cancellation at every blocking call, in both history modes.",
 "There is no test of the relay.",
 ["src/core/relay.c", "src/core/login.c", "src/core/buffer.c"], [("relay loop", "src/core/relay.c mainloop"), ("cleanup handler", "src/core/relay.c cleanup")],
 [("frame", "frame in transit", "src/core/relay.c")], ["NET_send, NET_waitConnected, BUF_* API"])

prop("L02", "Login messages carry the right identity, correctly encoded, in the right order",
 "A login sends, in this order, the device id with the software version, the serial number, the position (if available) and the user name (if configured), each as sync, message type and escaped big-endian content; it stops at the first failing step and reports failure. "
 "Every value is encoded correctly even if it contains escape bytes; the user name is sent as a zero-padded 40 byte field, and names longer than 40 characters are not sent at all. "
 "A login never reports success if its serial number could not be obtained because of the network.",
 ["inputs", "fault_sequences"],
 "All device types, serial numbers and user names with escape bytes at every position, all lengths 0..42, and each step failing.",
 "There is no test of the login.",
 ["src/core/login.c"], [("message building", "src/core/login.c")], [("deviceType, user", "identity", "src/core/login.c")], ["NET_send"])

prop("P01", "Every accepted receiver frame is buffered once, unchanged and in order",
 "Each decoded frame that passes the filter is committed to the buffer exactly once, unmodified and in order, and no other frame is; a rejected frame's storage is reused. "
 "A status frame with a non-zero timestamp marks the clock synchronised before it and later frames are filtered, and every (re-)connection of the input resets that state. "
 "Input failure leads to reconnection, and cancellation at any point disconnects the input and returns the frame storage, leaving nothing allocated or locked.",
 ["histories", "fault_sequences"],
 "All sequences of input events (each frame kind with/without timestamp and payload class, failure, reconnect) up to a bounded length in all filter configurations, with cancellation at every input call.",
 "test_recv.c covers selected sequences.",
 ["src/core/recv.c", "src/core/filter.c"], [("receive loop with cleanup handlers", "src/core/recv.c mainloop")],
 [("frame", "frame being filled", "src/core/recv.c")], ["INPUT_*, BUF_*"])

prop("C01", "Components start after and stop before what they depend on, for any graph",
 "For every acyclic dependency graph and registration order, all dependencies are registered automatically, each component is constructed and started exactly once and only after everything it depends on, and stopped and destructed in exactly the reverse order. "
 "If constructing or starting one fails, exactly those already constructed or started are undone in reverse order and failure is reported, disabled components are never touched; a dependency cycle, a duplicate registration or a needed but disabled component stops the program with an error. "
 "A component that cannot be stopped at once is retried as long as others make progress, and start-stop cycles can be repeated.",
 ["configurations", "fault_sequences", "histories"],
 "All dependency graphs on up to 4 components with all registration orders, every construct/start failure point, every pattern of deferred stops, all enabled/start flags on smaller graphs.",
 "There is no test of component management.",
 ["src/util/component.c"], [("sequentialize, stopUntil, destructUntil", "src/util/component.c")], [("components, state", "ordered component list", "src/util/component.c")], ["component callbacks"])

prop("C02", "Component threads are started, cancelled and joined exactly once",
 "A component with a main loop runs in exactly one thread from start to stop; stopping cancels it once and joins it once, waiting at most a second per attempt, and a thread that needs longer is retried and joined later, never cancelled, joined or used again after it was joined. "
 "A stop either leaves the component stopped with its thread gone or still marked as running; thread creation failure is reported as start failure.",
 ["schedules", "fault_sequences"],
 "All interleavings of the stopping thread with up to 3 component threads that finish immediately, late or never, and thread creation failing at any point.",
 "There is no test of component management.",
 ["src/util/component.c"], [("startThreaded/stopThreaded", "src/util/component.c")], (), ["pthread_create/cancel/timedjoin/join calls"])

prop("O01", "Configuration files are parsed exactly; malformed input never crashes",
 "For every file, options in known sections get exactly the values written (names case-insensitive, blanks around '=', comments, blank lines, CRLF line ends and a missing final line end handled; numbers in C notation, whatever follows a number is ignored), later assignments win, and everything else keeps its previous value; an empty value restores the default. "
 "A value that does not parse (number, range of 32 bit integers and 16 bit ports, boolean, length of string) never changes the option to a wrong value: it becomes the default or, if so requested, reading fails; malformed section lines make reading fail (so do lines without '=' if strict reading was requested; otherwise they are skipped) and unknown sections and options are ignored. A successful read calls every section's fix callback once, a failed one none, and the file is closed. "
 "No file content makes the parser crash, hang or access memory outside the file or an option's storage.",
 ["inputs"],
 "All files composed of up to 4 tokens (thorough: 6) from alphabets of section headers, keys, separators, values, blanks, line ends, comments; all strings over the special characters up to 5 (7); combinations of headers, keys, separators, values at and beyond every limit and line ends; every byte at every place of a file.",
 "There is no test of the configuration parser.",
 ["src/util/cfgfile.c"], [("line parser", "src/util/cfgfile.c readCfg, parseSection, parseOption")], [("bufferInput/bufferSize", "parser position", "src/util/cfgfile.c")], ["CFG_readFile, registered option variables"])

prop("O02", "Configuration survives being written and read back",
 "Writing the configuration (all sections, or one) and reading the file back restores every option's value, of every type (floating point numbers to six decimal places; an empty string, like any empty value, stands for the default), including which options without default are unset; sections sharing a name are merged into one section written once. "
 "Setting options programmatically changes exactly the named option and never overruns its storage, and defaults are restored exactly. "
 "Any failure to open, write or close the file is reported, and the configuration check succeeds exactly if every section's check does.",
 ["inputs", "configurations"],
 "All combinations of boundary values of every option type over several sections (also sharing names), string lengths around the limits.",
 "There is no test.",
 ["src/util/cfgfile.c"], [("writer", "src/util/cfgfile.c writeOptions, writeSections"), ("setters", "CFG_set*")], (), ["files written, option variables"])

prop("O03", "Configuration directories are read in numeric order, selecting the right files",
 "Reading a configuration directory reads exactly the regular files or links (or entries whose type the file system does not tell) whose name starts with a digit and ends in .conf, in ascending order of their leading number, so that higher numbered files override lower ones. "
 "With stop-on-error reading ends at the first unreadable or malformed file and reports failure; without it, all remaining files are still read; in either case success is reported only if all of them were read. "
 "Missing directories and over-long paths are reported without crashing, and all memory is released.",
 ["inputs", "fault_sequences"],
 "All directories of up to 4 entries from an alphabet of names, types and contents (good, malformed, unreadable), in every directory order, both error modes, path lengths around the limit.",
 "There is no test.",
 ["src/util/cfgfile.c"], [("scandir filter and comparison", "src/util/cfgfile.c CFG_readDirectory")], (), ["CFG_readDirectory"])

prop("S01", "A missing serial number is requested, awaited, used and persisted",
 "If no serial number is configured, exactly one request (0x1a 'B') is sent per login, and the login waits for the answer, at most a minute, noticing a lost connection within two seconds; without an answer the connection is dropped and the login fails. "
 "An answer, whenever it arrives, is the number used from then on, is stored once in the configuration directory before the number is used in a login, and is never requested again; a configured number is used without any request. "
 "No interleaving of answer, timeout, disconnect and cancellation deadlocks, loses the answer or leaves a lock held.",
 ["schedules", "fault_sequences", "histories"],
 "All interleavings of the login thread with answers, timeouts, connection loss and cancellation over repeated logins.",
 "There is no test.",
 ["src/dump1090/req-serial.c", "src/util/cfgfile.c"], [("condition wait with periodic check", "src/dump1090/req-serial.c SERIAL_getSerial")],
 [("hasSerial, serialNumber", "known serial number", "src/dump1090/req-serial.c")], ["NET_send, CFG_writeSection, NET_forceDisconnect"])

prop("S02", "The hardware serial number is the low 31 bits of the Ethernet MAC address",
 "Without a configured serial number the device identifies itself by the lowest 31 bits of the Ethernet interface's MAC address, read from the interface or, if that is impossible, from the system's device files; if neither works a permanent failure is reported. "
 "A configured number takes precedence, a number once determined is kept without asking again, and no file or socket stays open.",
 ["inputs", "fault_sequences"],
 "All outcomes of every system call in every order of repeated queries, MAC addresses with every byte at its boundary values, malformed device files.",
 "There is no test.",
 ["src/util/serial_eth.c"], [("ioctl, then sysfs", "src/util/serial_eth.c")], [("cachedSerial, serialNo", "cache", "src/util/serial_eth.c")], ["SERIAL_ETH_getSerial, socket/ioctl/fopen/close calls"])

prop("A01", "Feeder library submits exactly the acceptable frames, correctly encoded",
 "A frame handed to the generic feeder library is sent on exactly if the library is configured and enabled, the payload has 7 or 14 bytes, the timestamp is UTC, and the frame passes the filter; it then carries sync, type, timestamp as second of day and nanosecond, signal level and payload, all escaped. "
 "Any other call leaves no trace in the output. "
 "Enable discards what was buffered before, disable stops all activity, both are repeatable in any order, and position or fix updates take effect as for the sensor.",
 ["inputs", "histories"],
 "All call sequences of the public API up to a bounded length; timestamps at every boundary; payloads with escape bytes at every position.",
 "There is no test of the generic library.",
 ["src/gplib/opensky.cc", "src/core/gps.c", "src/core/filter.c", "src/core/buffer.c"], [("submitFrame, enable, disable", "src/gplib/opensky.cc")],
 [("configured, running", "library state", "src/gplib/opensky.cc")], ["bytes sent to the server, buffer contents"])

prop("A02", "Radarcape library forwards exactly the acceptable messages, correctly encoded",
 "A message handed to the radarcape library is sent on exactly if the library is enabled, its type is Mode-A/C, Mode-S short or long, and it passes the filter under the reported GPS time status; it then carries sync, type and the message's 9, 14 or 21 bytes, escaped. "
 "GPS time status controls synchronisation and fix as documented, also across disable and enable, which may be repeated in any order. A library that has no serial number is never enabled: the host process is told so (an emergency) when it is configured.",
 ["inputs", "histories"],
 "All call sequences of the public API up to a bounded length; messages with escape bytes at every position.",
 "test_lib.cc covers selected sequences.",
 ["src/radarcape/lib/opensky.cc"], [("output_message, setGpsTimeStatus, enable, disable", "src/radarcape/lib/opensky.cc")],
 [("configured, running, gpsTimeStatus", "library state", "src/radarcape/lib/opensky.cc")], ["buffer contents, filter state"])

prop("H01", "FPGA programming shifts in the exact bitstream and reports success truthfully",
 "Programming resets the FPGA, waits until it signals readiness, then presents every bit of the file in order, least significant first, on the data pin before a clock pulse, on the pins of the selected board. "
 "It reports success exactly if the device never signalled an error after a byte and signalled completion (which may take up to the documented time after the last byte), otherwise it starts over, at most 3 times, and reports failure. "
 "A relative file name refers to the firmware directory, as does an absolute one that does not exist; missing or unreadable files and names that are too long are reported, and no file or mapping stays open on any path.",
 ["inputs", "fault_sequences", "configurations"],
 "All bitstreams of up to 2 bytes from an alphabet, all status pin answers at every sampling point within bounded attempts, both boards, every system call failing, all file name kinds.",
 "There is no test; it needs hardware.",
 ["src/radarcape/fpga.c"], [("reset, transfer, completion polling", "src/radarcape/fpga.c")], (), ["GPIO_* calls, open/mmap/munmap calls"])

prop("H02", "GPIO operations touch exactly the addressed pin of the right controller",
 "Setting, clearing, reading or changing the direction of any pin accesses exactly that pin's bit in the right register of the right controller and leaves all other pins unchanged; reads return that pin's level. "
 "If mapping any controller fails, everything mapped before is unmapped, the device file is closed and construction fails; destruction unmaps everything. "
 "The watchdog pulses its pin once per 30 second interval, for ever, after configuring it as a cleared output.",
 ["inputs", "fault_sequences"],
 "All 128 pins, all operations, register contents all-zero/all-one/single bit, each mapping failing, several watchdog intervals.",
 "There is no test; it needs hardware.",
 ["src/radarcape/gpio.c", "src/radarcape/watchdog.c"], [("register access", "src/radarcape/gpio.c")], [("controllers", "mapped register blocks", "src/radarcape/gpio.c")], ["register memory, mmap/munmap calls"])

prop("X01", "Linked lists behave as sequences under every operation history",
 "Every history of push, unshift, insert, pop, shift, unlink, concatenate, cut, splice and vector operations on single or doubly linked lists, with or without length counter, yields exactly the sequence an ideal list would, forwards and backwards, with the right length and emptiness. "
 "Elements removed from one list can be put into another without affecting other elements.",
 ["histories"],
 "All histories up to a bounded depth over 2 lists and 4 elements, i.e. all reachable states.",
 "test_list.c tests single operations on fixed lists.",
 ["src/util/list.h"], [("link manipulation", "src/util/list.h")], (), ["LIST_* operations"])

prop("D01", "Statistics report shows the true totals and rates and never disturbs the daemon",
 "At every interval the report shows the current totals of frames by type and format, filtered frames, buffer and network counters exactly, with rates over the whole run time and over the time since the previous report; before anything happened, or without elapsed time, it still completes. "
 "The report is repeated every configured interval with cancellation only taking effect between reports.",
 ["inputs", "histories"],
 "Counter values at boundaries (0, 1, large) in every field, elapsed times 0, 1, day boundaries, sequences of reports.",
 "There is no test.",
 ["src/util/statistics.c"], [("snapshot and difference", "src/util/statistics.c printStatistics")], [("lastSnapshot", "previous report", "src/util/statistics.c")], ["standard output"])

prop("Z01", "The assembled daemon delivers frames and shuts down cleanly from any state",
 "With the receiver, buffer, relay, command channel and connection threads running together, every frame the server receives on a connection follows a complete login on that connection and is a well-formed accepted frame in receive order, and with history no accepted frame is lost unless the buffer overflowed. "
 "Stopping from any state, whatever the threads are waiting for, terminates every thread, closes every connection, leaves no lock held and releases all memory; a subsequent start works again.",
 ["schedules", "fault_sequences"],
 "All interleavings up to a preemption bound of the assembled real components with small inputs, connection failures at every point and stop requested at every point.",
 "No test runs the components together.",
 ["src/core/recv.c", "src/core/buffer.c", "src/core/relay.c", "src/core/tb.c", "src/core/network.c", "src/core/login.c", "src/util/component.c"],
 [("component lifecycle and cancellation handlers", "src/util/component.c, src/core/*.c")], (), ["bytes on each server connection, threads, sockets, heap"])

prop("M01", "The feeder refuses bad configurations, else keeps its identity across crashes",
 "The dump1090 feeder process terminates before it starts a thread or opens a connection if its position is not completely configured, not a number or out of range, a port is zero or its configuration directory cannot be used; in every other case it connects to exactly the configured (or default) receiver and server, and logs in with its build's or the configured device type, its version, the configured position and user name, the system's configuration taking precedence over the local one. "
 "A configured serial number is used; otherwise one is requested, stored before it is used, and used ever after: killed at any point and restarted, the feeder logs in with the same serial number if that number had ever been used, and it refuses to work if it cannot store it. "
 "Once it runs, SIGINT at any point makes it exit with success with all connections closed, threads ended and memory released.",
 ["inputs", "crash_points", "fault_sequences", "schedules"],
 "All value classes of every configuration option in both configuration directories, all states of the directories, kill or SIGINT at every system call followed by a restart, failing allocations, threads, writes and connections.",
 "No test executes main() or the start-up, configuration precedence, restart or crash behaviour of the daemon.",
 ["src/dump1090/dump1090.c", "src/dump1090/position.c", "src/dump1090/devtype.c", "src/dump1090/req-serial.c", "src/radarcape/network.c", "src/radarcape/rc-parser.c", "src/util/cfgfile.c", "src/util/component.c", "src/core/login.c"],
 [("start-up and shutdown sequence", "src/dump1090/dump1090.c main"), ("refusal of an unusable position", "src/dump1090/position.c checkCfg"), ("serial number is stored before it is used", "src/dump1090/req-serial.c SERIAL_getSerial")], [("hasSerial, unsavedSerial", "state of the serial number", "src/dump1090/req-serial.c")], ["files, sockets, exit code"])

prop("M02", "The Radarcape daemon does what its command line and configuration say",
 "The Radarcape daemon, in each variant (UART, network, dummy), ends with failure, without having started a receiver, relay or network thread or opened a connection, if its command line is unknown or incomplete, a configured value is out of range, it has no serial number, or (standalone UART variant) its FPGA cannot be programmed; a missing configuration file stands for the defaults. "
 "With --save it only stores exactly the effective configuration, reports failure if that could not be stored, and a later run with the stored file behaves as if given the original one. "
 "In every other case it works with exactly the configured (or default) input, receiver settings, server and options, programs the FPGA as for the board given on the command line before the receiver is used, serves the watchdog for ever, logs in with its variant's device type, version and serial number, and forwards frames, position and statistics. "
 "Commands from the server do what the variant allows (restart with the same board option, reboot, upgrade, reverse shell, filter) once each and nothing else, and the daemon keeps working after each of them and after each lost connection. "
 "Once it runs, SIGINT at any point makes it exit with success, connections and devices closed, threads ended and memory released.",
 ["inputs", "fault_sequences", "schedules", "histories"],
 "All command lines, all value classes of every configuration option, hardware states, commands of the server, lost connections and SIGINT at every system call, in three build variants.",
 "No test executes main() of the daemon: command line, configuration check, save, start-up order, remote commands or shutdown.",
 ["src/radarcape/main.c", "src/radarcape/tb-misc.c", "src/radarcape/tb-rshell.c", "src/radarcape/rc-parser.c", "src/radarcape/uart.c", "src/radarcape/network.c", "src/radarcape/dummy.c", "src/radarcape/fpga.c", "src/radarcape/watchdog.c", "src/trimble/trimble_recv.c", "src/util/cfgfile.c", "src/util/component.c"],
 [("command line, start-up and shutdown sequence", "src/radarcape/main.c main"), ("restart and upgrade commands", "src/radarcape/tb-misc.c")], [("FPGA_bbwhite, argv of the restart", "what the command line asked for", "src/radarcape/tb-misc.c")], ["devices, files, sockets, executed commands, exit code"])

prop("U01", "Log messages are whole lines; an emergency is written, then ends the process",
 "Every log message, in the daemons and in both libraries, appears exactly once as a complete line with its level, component, exact text and (where given) the error's description and number, whichever threads log at the same time; in the libraries errors go to the error stream and everything else to the message stream the application has set. "
 "A thread cancelled while it logs leaves no partial line and no lock, and nothing is logged while the log is locked. "
 "An emergency message is written and flushed before the process is aborted, no other message ends the process, and the process never goes on after one.",
 ["schedules", "inputs"],
 "All log functions, levels, prefixes, texts (empty, long, with format characters) and errors, alone and concurrently from two threads under every interleaving of the output operations up to the preemption bound, with cancellation at any point.",
 "The tests replace the log by a stub.",
 ["src/util/log_stdio.c", "src/gplib/log_lib.cc", "src/radarcape/lib/log_lib.cc", "src/util/threads.h"],
 [("mutex and disabled cancellation", "src/util/log_stdio.c LOG_log, LOG_logf, logWithErr"), ("choice of the stream", "src/gplib/log_lib.cc getStream")], [("stdioMutex/logMutex", "one thread writes", "src/util/log_stdio.c, log_lib.cc")], ["standard output or the streams, abort()"])

prop("U02", "Privileges are dropped for good; SIGINT ends the wait; fair random numbers",
 "After dropping privileges a process started by root runs, in all its user and group IDs and without supplementary groups, as the user and group nobody of the system (or the well-known IDs if there are none or they cannot be looked up), cannot regain them and has leaked nothing, or it has been ended because the system refused; a process not started by root is not changed. "
 "Waiting for SIGINT ends exactly when SIGINT arrives, also if it arrived at any time after the wait began, or ends the process if waiting is not possible; no other signal is affected and afterwards the signal mask is as before. "
 "Random numbers are below the given limit and equally likely, so that the addresses of the server are shuffled fairly.",
 ["inputs", "fault_sequences", "schedules"],
 "All results of the user and group look-ups, buffer sizes, a failing allocation, and every call refused by the system; SIGINT at any point relative to the wait; every range up to 300 and near the powers of two, with the generator's values at all edges.",
 "No test covers these functions: they need root, a signal, or statistics.",
 ["src/util/util.c", "src/radarcape/wd-main.c", "src/dump1090/dump1090.c", "src/radarcape/main.c"],
 [("order: groups, group, user", "src/util/util.c UTIL_dropPrivileges"), ("block, sigwait, restore", "src/util/util.c UTIL_waitSigInt"), ("rejection", "src/util/util.c UTIL_randInt")], (), ["credentials and signal mask of the process, UTIL_randInt"])

prop("W01", "Debian packages: what is entered at installation is what the feeder uses",
 "The installation dialogue of each feeder package asks every question until its answer is one the daemon can use, shows an error for exactly the answers it refuses, accepts every usable answer and asks for nothing else. "
 "After the installation the package's daemon starts and uses exactly what was entered: position, user name, serial number, host and port of dump1090, and the branch of dump1090 (blank: localhost, 30005, no user name, a number from the server). "
 "With values given beforehand, and front ends that ask nothing or only what is critical, the dialogue ends too, keeps every usable value and makes none up; a daemon whose position is not known refuses to work.",
 ["inputs", "configurations"],
 "Every sequence of answers to each question over an alphabet of edge values, all subsets of questions answered wrongly at first, all front ends with all combinations of missing, usable and unusable values given beforehand, in the three packages.",
 "No test runs the package scripts.",
 ["debian/opensky-feeder.config", "debian/opensky-feeder-donated.config", "debian/opensky-feeder.postinst", "debian/opensky-feeder-kit.postinst", "debian/opensky-feeder-donated.postinst", "debian/opensky-feeder.templates", "src/dump1090/dump1090.c", "src/util/cfgfile.c"],
 [("loop of questions and predicates", "debian/*.config"), ("configuration file from the answers", "debian/*.postinst")], [("debconf database", "answers", "openskyd/*")], ["questions and errors shown, 10-debconf.conf, what the daemon sends and connects to"])

prop("W02", "Debian packages: upgrades keep the sensor's identity; purge removes only its own",
 "Whatever is installed, upgraded, reconfigured, started, removed, reinstalled, replaced by another flavour or purged in any order, the sensor keeps the serial number that was assigned to it (also by older versions, which stored it elsewhere) until the last flavour is purged, and an entered serial number takes precedence over it. "
 "Upgrades ask nothing and change nothing, a changed user name is warned about exactly when it was changed, and an interrupted or failed configuration is completed by the next one with the same result and without losing the number. "
 "The daemon's user can always write its directory and others cannot read it, unless the administrator has chosen otherwise; a purge removes the directory, the accounts and the answers, but nothing that another installed flavour uses.",
 ["histories", "crash_points", "fault_sequences"],
 "All histories of the three packages up to the point where no new state appears, with and without permissions set by the administrator, and an interruption by a kill or a failing command at every command of the scripts.",
 "No test runs the package scripts; losing a number needs a history of several steps.",
 ["debian/opensky-feeder.postinst", "debian/opensky-feeder-kit.postinst", "debian/opensky-feeder-donated.postinst", "debian/opensky-feeder.postrm", "debian/opensky-feeder.config", "debian/opensky-feeder-donated.config", "src/dump1090/req-serial.c", "src/util/cfgfile.c"],
 [("migration, ownership, configuration file", "debian/*.postinst"), ("purge", "debian/*.postrm"), ("storing the number", "src/dump1090/req-serial.c SERIAL_getSerial")], [("10-debconf.conf, 05-serial.conf, 10-serial.conf", "entered and assigned values", "/var/lib/openskyd/conf.d")], ["files, accounts, debconf database, serial number used by the daemon"])

prop("W03", "Radarcape packages: daemon started for its board; service follows the package",
 "The start script starts the daemon exactly once, with the option of the board it runs on, on every kernel, after enabling exactly those extension slots (both UARTs, the board's Radarcape cape) that old kernels have not enabled yet; on an unknown board it touches nothing, starts nothing and reports failure. "
 "The package scripts leave the service enabled after an installation; after an upgrade the new version runs, and after a removal it neither runs nor is enabled, whatever the administrator did with the service before.",
 ["histories", "configurations"],
 "All kernels, device trees, boot messages and states of the slots; all reachable states of the service under installation, upgrade, removal, reboot, start, stop, enable and disable.",
 "No test runs the scripts.",
 ["openskyd-arch/openskyd-start.sh", "openskyd-arch/openskyd.install", "openskyd-arch/openskyd-wd.install", "openskyd-opkg/CONTROL/preinst", "openskyd-opkg/CONTROL/prerm", "openskyd-opkg/CONTROL/postinst"],
 [("board detection", "openskyd-arch/openskyd-start.sh"), ("service", "openskyd-arch/*.install, openskyd-opkg/CONTROL/*")], (), ["started command, written slots, state of the service"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
