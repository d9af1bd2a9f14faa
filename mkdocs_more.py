EDGE = "src/module/stream/sps_stream.cpp"
URLH = "src/io/url/sps_io_url_http.cpp"
prop("C05", "An edge pulls a stream once and relays it faithfully to every player",
     "On a host configured as an edge, any number of players asking for a stream that is not there yet, at the same time or later, cause one single pull from the configured upstream while that pull lasts; every one of them receives the upstream's media like a locally published stream (unaltered, in order, starting with the latest configuration and GOP), and none of them is refused or forgotten while the upstream delivers.",
     ["schedules", "inputs", "fault_sequences"], "any number and timing of players per stream, any delay, segmentation and framing of the upstream's answer",
     "Simultaneous first requests, waiting clients and the moment the pull becomes ready are pure interleaving; no test runs an edge.",
     [EDGE, SS + "sps_stream_handler.cpp", SS + "sps_stream_cache.hpp", URLH],
     [("single pull", "StreamEdge / StreamHandler::edge: waiting on the pull's condition"), ("upstream request", "HttpUrlProtocol::open"), ("fan-out", "StreamCache")],
     "connections the simulated upstream receives per stream, bytes each player receives",
     "A simulated upstream (second party) answers each pull with delays, segmentation and framing chosen by the seed; many players ask at once. The single-pull invariant and the relay model are checked at each idle moment.")
prop("C06", "A failing upstream is contained and recovered from",
     "If the upstream refuses, cannot be resolved, never answers, answers anything but 200 or garbage, stalls, or drops the connection at any byte, every player waiting for that stream gets an answer or is disconnected within the pull timeout plus a small margin, the failed pull leaves nothing behind, other streams and clients are not affected, and a later request for the same stream pulls again and succeeds as soon as the upstream works.",
     ["fault_sequences", "schedules", "histories"], "every upstream failure at every byte offset, repeated and alternating with successes, with any number of players waiting",
     "Needs controlled failures of a second party at chosen instants, waiting tasks and simulated time.",
     [EDGE, SS + "sps_stream_handler.cpp", URLH, "src/sys/st/io/sps_sys_st_io_tcp.cpp"],
     [("pull failure", "StreamEdge::do_cycle / stop"), ("waiters", "StreamHandler wait on edge condition"), ("connect and read timeouts", "HttpUrlProtocol::open, StTcpSocket")],
     "when and how each player is answered; pulls the upstream sees after a failure",
     "The simulated upstream refuses, black-holes, stalls, cuts, resets or sends garbage at seeded byte offsets; after faults stop, a fresh request must be served.")
prop("C07", "The proxy relays each exchange unaltered",
     "A request to a proxied host reaches the configured origin exactly once with its method, path, query, headers and body intact, and the client receives exactly the origin's status, headers and body: the same bytes whether they are delimited by Content-Length, chunked or by the end of the connection, with one unambiguous framing, for answers with and without a body, however the bytes are segmented in either direction.",
     ["inputs", "schedules", "fault_sequences"], "all methods, targets, header sets, statuses, framings and body sizes, all segmentations and client speeds",
     "The combination of framing, segmentation, body length and pace is unbounded; tests have neither origin nor client.",
     [HT + "sps_http_proxy_phase_handler.cpp", HT + "sps_http_socket.cpp", HT + "sps_http_parser.cpp", URLH, "src/io/url/sps_io_url.cpp"],
     [("forwarding", "HttpProxyPhaseHandler::handler"), ("request writing and body reading", "HttpUrlProtocol::open/read"), ("answer framing", "HttpResponseSocket::write_header/write")],
     "requests the simulated origins receive and answers the simulated clients receive",
     "Several simulated origins and clients; every request has a unique target so each exchange is attributed; both directions are compared with what was sent.")
prop("C08", "A cut answer never looks complete; a dead origin does not hold the client",
     "If the origin fails before its answer is complete (refused, unresolved, silent, closed or reset at any byte, invalid head, broken chunking, fewer bytes than announced, announced lengths of many gigabytes), the client never receives something that looks like a complete answer unless it is an error status made by the server; the bytes it did receive are a prefix of the origin's; its connection is ended or answered within the upstream timeout plus a small margin; nothing is left behind.",
     ["fault_sequences", "schedules", "inputs"], "every failure kind at every byte offset of head and body, in every framing",
     "Failures of the second party at arbitrary byte positions.",
     [HT + "sps_http_proxy_phase_handler.cpp", URLH, HT + "sps_http_socket.cpp"],
     [("end of body", "HttpUrlProtocol::read, read_chunked*"), ("result of the relay loop", "HttpProxyPhaseHandler::handler")],
     "completeness of each answer as a strict HTTP client judges it; time until it is decided",
     "Origins fail at seeded byte offsets; a strict client model decides whether what it got is complete.")
prop("C09", "Requests on one connection are answered one by one, in order",
     "On a connection that stays open, whether requests are sent one after another or pipelined, whole or byte by byte, each request is answered exactly once and in order, by the host it names; what belongs to one request or answer (head, body) is never taken for part of another, and bytes behind a head are never lost. A request head that is malformed or larger than the limit is not forwarded and ends the connection.",
     ["inputs", "histories", "schedules"], "any sequence of requests for proxied, unknown and invalid hosts on one connection, any segmentation of the byte stream",
     "Depends on where the byte stream is cut relative to heads and bodies and on the history of the connection.",
     [HT + "sps_http_parser.cpp", HT + "sps_http_phase_handler.cpp", "src/module/server/sps_server.cpp", HT + "sps_http_proxy_phase_handler.cpp"],
     [("head reading", "HttpParser::parse_header(PIReader)"), ("connection loop", "ConnHandler / phase handlers"), ("bodies", "HttpRequestSocket")],
     "order and attribution of answers on each connection",
     "Same world as C07 with long pipelines, bodies that look like requests, heads around the size limit and byte-wise delivery.")
prop("C10", "Requests are routed to the host that matches best",
     "With one server block per port, a request goes to the host whose name equals the one in its Host header (port ignored, header name in any case); failing that to the wildcard host for its parent domain; failing that to the default host; failing that it is answered 404, and no other host ever sees it. Hosts declared globally count in every server, and hosts of a server take part whatever the order of declaration.",
     ["configurations", "inputs", "histories"], "all sets of exact, wildcard, default and global hosts and all requested names, in any order on shared connections",
     "The result depends on the whole set of configured hosts and on what the connection asked before.",
     ["src/module/host/sps_host_router_handler.cpp", "src/module/host/sps_host_module.cpp", "src/module/host/sps_host_global_module.cpp", HT + "sps_http_module.cpp"],
     [("routing", "HostModulesRouter::find_host"), ("registration", "HostModulesRouter::register_host, HttpModule::merge")],
     "which simulated origin receives each request",
     "The seed picks a subset of ten nested hosts, part of them global; every request carries a name from a list built to hit each rule and its neighbours.")
TLSF = "src/sys/st/io/sps_sys_st_io_ssl.cpp"
prop("C16", "HTTPS delivers what HTTP delivers, with the certificate of the named host",
     "On an HTTPS server each connection that names a host having a certificate (exact, wildcard or default match) completes its handshake with that host's certificate, and names without a certificate are refused; over the connection, publishing, playing and proxied exchanges behave as over plain HTTP: every byte arrives unaltered, in order and without anything held back, however TLS records and TCP segments are cut and however many other TLS connections, good or failing, run at the same time.",
     ["inputs", "schedules", "fault_sequences"], "any set of simultaneous TLS clients and names, any segmentation, record size, pace and client speed, with failing handshakes in between",
     "TLS records, partial writes and the per-thread error state of the TLS library are shared by all connections and depend on the interleaving; no test opens a TLS connection to the server.",
     [TLSF, "src/module/server/sps_server.cpp", "src/module/host/sps_host_router_handler.cpp", "src/module/host/sps_host_module.cpp"],
     [("certificate choice", "SNI callback through the host router"), ("timed TLS read and write", "StSSLSocket::read/write/init")],
     "certificate each simulated TLS client is shown; decrypted bytes compared with what was sent",
     "Real OpenSSL on both sides over the simulated network, with seeded randomness so that every byte repeats; the relay model of C01-C04 judges streams and a pattern per request judges proxied exchanges.")
prop("C17", "A stalled or broken TLS peer disturbs no other connection",
     "A peer that never starts its handshake, stops in the middle of it, sends it byte by byte, sends garbage, plain HTTP or corrupted records, or disappears, never delays or breaks another connection: other handshakes complete at once and streams keep flowing. The peer itself is let go within the receive timeout of its last byte.",
     ["fault_sequences", "schedules"], "any number of such peers at any instant, cut at any byte of the handshake or of a record",
     "Depends on which task waits for the handshake and on library state shared between connections; needs hostile peers and a controlled clock.",
     [TLSF, "src/module/server/sps_server.cpp", "src/module/server/sps_server_module.cpp"],
     [("accept without waiting", "Server::listen/accept -> StSSLSocket"), ("handshake under the connection's timeouts", "StSSLSocket::init"), ("error state", "ERR_clear_error before each TLS call")],
     "handshake times of healthy clients, media progress, closing time of the bad peers",
     "Bad peers of each kind, cut at seeded bytes, next to healthy TLS publishers, players and proxied requests.")
SRTF = "src/sys/st/io/sps_sys_st_io_srt.cpp"
TSF = "src/avformat/sps_avformat_ts.cpp"
prop("C18", "SRT players get the published transport stream unaltered",
     "Of a transport stream published over SRT, each SRT player receives the packets of the announced programs (PAT, PMT and elementary streams with payload) exactly as published: each 188-byte packet unaltered, in order, none lost, duplicated or invented, each in a message of its own. A player that joins late first receives the latest PAT, the latest PMT and the packets since the most recent start of a PES packet of any elementary stream, then the live packets without gap or repetition. A packet the server has received is on its way to every player that reads before the server goes idle, and memory held for a stream stays bounded by what a joiner needs.",
     ["inputs", "schedules", "fault_sequences"], "any valid transport stream (any PIDs, tables repeated at any point, PES of any length with or without announced length, adaptation fields), any message size, loss, join instant and reading speed",
     "The start-up cache depends on everything received before; message sizes cut packets anywhere; tests demux one file.",
     [TSF, "src/avformat/sps_avformat_tsdec.cpp", "src/avformat/sps_avformat_cache.cpp", SRTF, SS + "sps_stream.cpp"],
     [("packet cutting and classification", "TsPacket::decode, TsPatProgram, TsPmtProgram, TsPesProgram"), ("start-up cache", "TsCache, MepegtsCacheStream::put"), ("message reading", "StSrtSocket::read / read_fully")],
     "messages each simulated SRT player receives",
     "A generator writes valid transport streams together with a model of what the server relays; packets are unique, so any loss, repetition or mix-up is located.")
prop("C19", "A published transport stream plays as FLV with the same frames",
     "A transport stream with H.264 video and AAC audio published over SRT or HTTP is played by HTTP-FLV players as the same media: every access unit and audio frame appears once and in order with its time stamps (PTS, DTS in ms), its NAL units and AAC payload unaltered, the parameter sets and audio configuration as sequence headers once per change, key frames marked as such; late joiners start with the latest configuration and the current GOP.",
     ["inputs", "schedules", "histories"], "any such transport stream, however the PES are packetised, delivered and cut, any join instant",
     "Frames are assembled from packets spread over reads and interleaved with other streams; PES beyond 64 KiB, tables in the middle and joins at any moment are not in any test.",
     [TSF, "src/avformat/sps_avformat_tsdec.cpp", "src/avformat/sps_avformat_flvenc.cpp", "src/avformat/sps_avformat_cache.cpp"],
     [("PES assembly", "TsPesProgram::decode"), ("H.264 and AAC conversion", "TsDemuxer::on_pes_complete, avcodec parsers"), ("FLV writing", "FlvAVMuxer")],
     "FLV tags each HTTP player receives",
     "The generator's model lists the FLV tags each access unit must become and which byte completes it; the relay oracle of C01 and C02 judges the players.")
prop("C20", "SRT sessions follow the same rules as HTTP ones",
     "An SRT stream id names host, path and mode in any order of its parameters, with publishing as the default; the stream is the same one HTTP clients see. One publisher per stream across both protocols: a second one is turned away and nobody notices. However an SRT publisher ends (close, break, silence beyond the receive timeout, malformed data) its name is free at once; players of a stream that does not exist, unknown hosts and malformed stream ids are closed and get nothing; players that stop reading are dropped after the send timeout, not earlier; nothing a session does delays another, and the listener survives every failed session.",
     ["schedules", "fault_sequences", "inputs"], "any set of SRT and HTTP sessions on a few stream names, any endings, stalls, timeouts and stream ids, failing SRT calls",
     "Races between sessions of two protocols, polling and timeouts of the SRT dispatcher; no test opens an SRT session to the server.",
     [SRTF, "src/module/srt/sps_srt_server_handler.cpp", "src/module/srt/sps_srt_stream_handler.cpp", "src/module/server/sps_server.cpp", SS + "sps_stream_handler.cpp"],
     [("stream id", "SrtPrepareHandler::handler"), ("waiting for SRT events with timeout", "SrtEventCondition, StSrtSocket::read/write"), ("exclusive claim", "StreamHandler::publish")],
     "which sessions are held, refused or closed, and when, on the simulated clock",
     "libsrt is replaced by a simulated one (loss, latency, buffers, breaks, failing calls); the model of C03, C04, C12 and C15 judges the sessions.")
prop("C13", "Everything a connection took is given back when it is over",
     "When a client, session, pull or proxied exchange is over, however it ended and whatever failed meanwhile (including failing system calls), the server has released what it took for it: no connection or SRT session stays open, and the numbers of descriptors, coroutines, condition variables, SRT sockets and heap blocks return to what they were. The same load repeated any number of times leaves the server as large as after the first time.",
     ["histories", "fault_sequences", "schedules"], "any load of publishers, players, proxied requests, hostile peers and upstreams over HTTP, HTTPS and SRT, repeated, with failing system calls",
     "A leak shows only over many histories and on rarely taken exits; the tests never release a server's connections.",
     ["src/module/server/sps_server.cpp", "src/io/sps_io_socket.cpp", SS + "sps_stream.cpp", SS + "sps_stream_handler.cpp", "src/sys/st/io/sps_sys_st_io_srt.cpp", "src/sys/st/io/sps_sys_st_io_tcp.cpp", "src/sys/st/io/sps_sys_st_io_ssl.cpp", "src/sys/st/sps_sys_st_co.cpp"],
     [("connection lifetime", "Server::accept -> ConnHandler coroutine"), ("release of streams and waiters", "StreamHandler, StreamEdge"), ("descriptors", "StTcpSocket, StSSLSocket, StSrtSocket destructors")],
     "resource counts of the simulated process between rounds of the same load",
     "The simulator owns descriptors, coroutines, conditions and SRT sockets and counts the server's heap blocks; identical rounds of mixed and hostile load are compared, with and without failing system calls.")
prop("C14", "Hostile input and failing system calls never take the server down",
     "Whatever bytes clients, publishers, SRT peers and upstreams send, in whatever pieces, and whichever system calls fail (descriptors exhausted, accept, connect, socket options, coroutine creation, name resolution, SRT calls): the server never crashes, reads or writes out of bounds, spins or grows without bound; clients that behave are served correctly all the while; and as soon as the faults stop it accepts and serves publishers, players, pulls and proxied requests over every protocol again.",
     ["inputs", "fault_sequences", "schedules"], "mutated and arbitrary bytes on every port and from every upstream, connection floods, and any sequence of failing system calls",
     "Needs hostile peers in every role at once with healthy ones, and failing calls at chosen instants.",
     [HT + "sps_http_parser.cpp", HT + "sps_http_socket.cpp", "src/avformat/sps_avformat_flvdec.cpp", "src/avformat/sps_avformat_ts.cpp", "src/avformat/sps_avformat_tsdec.cpp", "src/avcodec/sps_avcodec_h264_parser.cpp", "src/module/server/sps_server.cpp", "src/module/srt/sps_srt_server_handler.cpp", URLH],
     [("accept loop", "Server::listen/accept"), ("parsers", "HttpParser, FlvDemuxer, TsDemuxer, SRT stream id"), ("upstream answers", "HttpUrlProtocol")],
     "the simulated process (memory errors, rest, heap), streams of healthy clients, canaries after the faults",
     "The whole server runs under AddressSanitizer; publishers' and players' bytes, TLS handshakes, stream ids and upstream answers are mutated; afterwards canaries use every protocol.")
prop("C21", "The configuration is served as written, or the server refuses to start",
     "Every server block listens on its port with its transport and its own timeouts and serves exactly the hosts written in it plus all global hosts, with the role, upstream and certificate given there; several blocks may share a port and then serve the hosts of all of them; hosts that are not enabled are unknown. Indentation, order, empty lines and comments with any content make no difference, and items the program does not know are skipped. A file that is missing, unreadable or incomplete, or that has unbalanced blocks, lines that do not end, unknown blocks, the same host twice in one server or one port with two transports, and any system call that fails while starting make the process exit with a nonzero status: it never runs while serving only part of what is written.",
     ["configurations", "fault_sequences"], "any configuration of servers, transports, hosts, global hosts and timeouts in any formatting, any single breakage of the text, and any system call failing during startup",
     "The space of configurations, formattings and failing startup calls is unbounded; the tests read one fixed file and never start a server from it.",
     ["src/module/sps_module.cpp", "src/module/sps_module_opt.cpp", "src/module/server/sps_server_module.cpp", "src/module/host/sps_host_module.cpp", "src/module/host/sps_host_router_handler.cpp", "src/module/server/sps_server.cpp", "src/install/sps_install_modules.cpp", "src/main/sps_main_sps.cpp"],
     [("parsing", "IModule::parse, ConfInstance"), ("merging", "ServerModule::merge_hosts, HttpModule merge"), ("listening", "Server::init/listen, StTcp/StSrt listen")],
     "exit status of the simulated process or the sockets it listens on; answers of every server to requests for every host over its transport; when silent connections are dropped",
     "A seeded configuration is written with seeded formatting, optionally broken in one way, and the real main() started on it in the simulator with startup calls failing; probes ask every server for every host name over TCP, TLS and SRT and time its receive timeout.")
UDPF = "src/sys/st/io/sps_sys_st_io_udp.cpp"
prop("C22", "A UDP server gives each peer its own ordered conversation",
     "A UDP server keeps one session per peer address and port. Each session reads exactly the datagrams its peer sent that reached the server, whole, unaltered, in order of arrival, each once, and none of anybody else's; it is offered to accept() once, with its peer's address and the server's own, and what is written to it goes to that peer only. A read that finds nothing waits until a datagram comes or the receive timeout (none: forever) is over, not shorter and not longer; waiting, slow or ended sessions and failing calls do not hold up others. When a session is over, everything it took is given back and the peer's next datagram opens a new one. A UDP client sends to the address it was given, from the port it was bound to, and reads the answers in order with the sender's address.",
     ["schedules", "fault_sequences", "histories"], "any number of peers, sessions, clients, datagram sizes and rates, receive timeouts and endings, with loss, duplication, reordering and failing socket calls",
     "Sessions are told apart, woken, timed out and closed while datagrams of others arrive; the one test sends from a single peer on the local host and reads one session.",
     [UDPF, "src/sys/st/io/sps_sys_st_io_udp.hpp", "src/io/sps_io_socket.cpp", "src/sys/st/sps_sys_st_sync.cpp"],
     [("demultiplexing", "StUdpServerSocket::handler, search_or_create, remove"), ("session queue and wait", "StUdpSessionClientSocket::push/read"), ("addresses", "StUdpClientSocket constructor, read, write")],
     "what every session and client reads and every peer receives, when reads time out, resources after rounds of sessions",
     "A small program on the library's UDP sockets (acceptor, a coroutine per session, clients) runs in the simulated process; the simulated network records what reaches each socket, and the histories of sessions, clients and peers are matched against that.")

RTPD = "src/avformat/sps_avformat_rtpdec"
prop("C23", "An RTP receiver gives out only complete, unaltered units and never stops",
     "An RTP receiver gives out, in the order in which they are completed by what reaches its socket, the units of the stream: for H.264 every slice, IDR and SEI NAL unit (preceded by its length) sent alone, in a STAP-A or in FU-A fragments, with its kind and presentation time, and a sequence header with each SPS; for AAC (RFC 3640 with 13-bit sizes) every access unit; for MPEG-TS (payload type 33, nothing lost) the frames of the stream. A unit comes out as soon as all of it has arrived, if its fragments came one after the other; whatever is lost, repeated or out of order, nothing comes out that is not exactly a unit that was sent. CSRC lists, header extensions, padding and marker bits do not change this. RTCP packets, foreign or malformed datagrams, units beyond 1 MB and failing reads neither end the reception nor touch the units around them; only the receive timeout (none: never) ends a read.",
     ["inputs", "fault_sequences", "schedules"], "any stream, packetization, header layout, starting sequence number and timestamp, foreign and malformed datagrams, with loss, duplication, reordering, jitter, stalls and failing reads",
     "Reassembly depends on which datagrams come, in which order, next to which others; the tests need a sender outside or decode single buffers.",
     [RTPD + ".cpp", RTPD + "_h264_hevc.cpp", RTPD + "_aac.cpp", RTPD + "_ts.cpp", RTPD + "_rtcp.cpp", "src/avformat/sps_avformat_rtp.cpp", "src/avcodec/sps_avcodec_h264_parser.cpp", UDPF],
     [("receive loop", "RtpDemuxer::read_packet"), ("headers", "IRtpDecoder::decode, RtpPayloadHeader::decode"), ("reassembly", "FuRtpDecoder, StapRtpDecoder, AacRtpDecoder, MpegtsRtpDecodder")],
     "the sequence of packets each receiver returns, whether it waits although something is due, when and how reads end",
     "A small program (a coroutine per receiver reading packets in a loop, like the project's RTP tool) runs in the simulated process; simulated senders packetise generated streams; the packets returned are matched at every idle moment against what the delivered datagrams complete.")

SIO = "src/sys/st/io/sps_sys_st_io_"
prop("C24", "Outgoing connections deliver what is sent and fail in time",
     "A connection the library opens, over TCP, TLS or SRT, is reported established exactly if its peer is there and has completed the handshake (TLS: naming the wanted host; SRT: from the port asked for). A closed port, an unknown name, a silent, breaking or nonsensical peer make it fail at the latest one timeout after the peer's last word, nothing left behind. What each side writes the other reads: unaltered, in order, once, whatever the sizes of reads, writes, segments, records and messages, whether reads ask for some or for exactly so many bytes, from one coroutine or two. Nothing waits that could go on; a read or write ends with a timeout only when nothing moved for that long, not later; all that the peer sent before an orderly end is read before the end shows, and all that was written before closing arrives. An HTTP request gets its answer's status and body, which is called complete only if it is. When a connection is over, everything it took is given back.",
     ["schedules", "fault_sequences", "inputs"], "any number of connections, peers that answer, refuse, stay silent, talk nonsense or break at any byte, any sizes, paces, timeouts and endings, with failing system calls and CPU stalls",
     "Handshakes, partial reads and writes, ends and timeouts interleave with the peer's pace; the tests would need servers outside and connect to none.",
     ["src/io/sps_io_socket.cpp", SIO + "tcp.cpp", SIO + "ssl.cpp", SIO + "srt.cpp", "src/io/url/sps_io_url_http.cpp", HT + "sps_http_parser.cpp"],
     [("opening", "ClientSocketFactory::create_ss, st_tcp_connect, st_srt_connect, StSSLSocket::handshake"), ("reading and writing", "StTcpSocket, StSSLSocket, StSrtSocket read/read_fully/write"), ("waiting for SRT", "SrtStDispatch"), ("HTTP client", "HttpUrlProtocol::open/read/eof")],
     "bytes on both sides, outcome and duration of every connect, read and write, waits at idle moments, resources over rounds",
     "A small program on the library's client side runs in the simulated process against simulated peers (real OpenSSL on both sides of TLS, simulated libsrt and TCP below); the simulator knows what reached each end and when.")
