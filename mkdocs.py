#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (development helper; not run by the checks)."""
import json
TECH = "deterministic simulation of the whole server process with fault injection: seeded search over schedules, network behaviour and fault sequences; executable reference model as oracle"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=[observe], **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {})), note=note))
SS = "src/module/stream/"
HT = "src/module/http/"

prop("C01", "Relayed media reaches every player unaltered, complete and in order",
     "For every stream published over HTTP-FLV, each connected player receives exactly the media tags the publisher sent from the moment it joined: each tag's type, timestamp, composition offset and payload unchanged, in publishing order, none lost, duplicated or invented, framed as a valid FLV stream with correct previous-tag sizes. A tag the server has fully received is on its way to every player that keeps reading before the server goes idle. A publisher that keeps sending well-formed media is never dropped.",
     ["inputs", "schedules", "fault_sequences"], "all tag sequences, all ways the network cuts and delays them, all interleavings of publishers and players",
     "The tests sample single demux/mux calls on complete buffers; relaying depends on how tasks interleave, on partial reads and writes and on who joins when.",
     ["src/avformat/sps_avformat_flvdec.cpp", "src/avformat/sps_avformat_flvenc.cpp", SS + "sps_stream.cpp", "src/avformat/sps_avformat_cache.cpp", "src/cache/sps_cache.hpp", "src/io/sps_io_bytes.cpp", HT + "sps_http_socket.cpp"],
     [("tag demuxing", "FlvDemuxer::read_packet"), ("fan-out", "AVGopCacheStream::put / CacheStream::publish"), ("tag muxing", "FlvAVMuxer::write_packet"), ("body framing", "HttpRequestSocket::read")],
     "bytes each simulated player receives, compared with the tags the simulated publisher wrote",
     "Real server code from accept to write under the simulator; publishers use raw, chunked and Content-Length bodies over links with arbitrary segmentation, windows, stalls and CPU pauses. The oracle knows, at each idle moment of the server, which tags it has and therefore the exact bytes every player must have been sent.",
     [("stream cache and player queues", "tags cached for joiners and tags pending per player", "AVGopCacheStream / AVDumpCacheStream")])
prop("C02", "A late joiner starts with the latest configuration and the current GOP",
     "A player that joins a running stream first receives the latest metadata tag, the latest audio configuration and the latest video configuration the publisher has sent (those that exist), then every media frame from the most recent key frame up to the moment of joining in order, and then the live tags with no gap and no repetition at the seam.",
     ["inputs", "histories", "schedules"], "every tag sequence, including configuration changes in mid-stream and streams without video, and every join instant",
     "It depends on the state accumulated over an arbitrary history and on the exact instant of joining relative to the tags in flight.",
     ["src/avformat/sps_avformat_cache.cpp", "src/avformat/sps_avformat_packet.cpp", SS + "sps_stream_cache.hpp", "src/cache/sps_cache.hpp"],
     [("start-up cache", "AVGopCacheStream::put / dump"), ("classification", "AVPacket::is_keyframe, is_video_sequence_header, is_audio_sequence_header, is_script"), ("seam", "StreamCache::get_client_streamcache")],
     "the first tags each player receives", "Same runs as C01 with joins spread over the stream's life; the model recomputes the expected start-up sequence for every admissible join position.")
prop("C03", "Streams are isolated and identified by host and path",
     "A player only ever receives media of the stream whose host and path (without the format suffix, ignoring the query and the port in the Host header) it asked for, and only of one source incarnation. It is answered 404 exactly when that stream has no source at the time of the request, and 200 when it has.",
     ["histories", "inputs", "schedules"], "any set of concurrent streams with similar names on several hosts, started and stopped in any order",
     "Needs several concurrent streams with overlapping names, starts and stops; the tests have no running server.",
     [SS + "sps_stream_handler.cpp", SS + "sps_stream_cache.hpp", "src/cache/sps_cache.hpp", "src/io/url/sps_io_url.cpp", "src/module/host/sps_host_module.cpp"],
     [("stream key", "StreamHandler::get_cache_key"), ("lookup", "StreamCache::get_streamcache"), ("release", "StreamCache::release_av_streamcache")],
     "status and payload each player receives; payloads are unique per source", "Payloads are unique per source, so any leak between streams or from an earlier source of the same name is attributed.")
prop("C04", "One publisher per stream; the name is free as soon as it ends",
     "While a stream has a publisher, any further publisher of the same stream is turned away and neither the first publisher nor its players notice. As soon as the publisher ends, for whatever reason (orderly close, reset, half close, malformed data, silence beyond the timeout), the stream is gone for new players and a new publisher of that name is accepted.",
     ["schedules", "fault_sequences", "histories"], "any number of competing publishers and any way and instant of ending",
     "Races between competing publishers, endings and joins; each ending takes another path through the code.",
     [SS + "sps_stream_handler.cpp", SS + "sps_stream.cpp", SS + "sps_stream_cache.hpp"],
     [("exclusive claim", "StreamHandler::publish"), ("release on every exit", "StreamHandler::publish after StreamDecoder::decode")],
     "which publisher connections are held, refused or released at each idle moment", "Publishers compete for one or two names with every kind of ending; held/refused/released is judged at every idle moment of the server.", [("live streams", "which stream names have a source", "StreamCache")])
prop("C11", "Publishing is allowed only where the configuration says so",
     "A publish request to a host that is not configured as a source, or in a format the host does not accept, is answered 403, creates no stream (later players of that name get 404), and does not disturb anything else. On a source host that accepts the format the publisher is admitted.",
     ["inputs", "configurations", "schedules"], "every host role, accepted-format setting and request format, with other traffic running",
     "The refusal has to leave no trace in shared state whatever arrives before, with and after the refused request.",
     [SS + "sps_stream_handler.cpp", HT + "sps_http_stream_phase_handler.cpp", "src/module/host/sps_host_module.cpp"],
     [("permission check", "StreamHandler::publish"), ("role and format", "HostModule::publish / support_publish")],
     "status of refused publishers, later plays of the same name", "Refused publishers send their body before, with or after the refusal; their name is then played.")
prop("C12", "Receive and send timeouts are enforced, neither early nor late",
     "A connection the server is reading from that delivers no byte for the configured receive timeout is dropped, and a client that takes no byte for the configured send timeout while data is waiting for it is dropped, each within a small margin of the configured time. Neither happens earlier, however slowly but steadily bytes flow, and other connections are unaffected.",
     ["configurations", "schedules", "fault_sequences"], "all timeout values, gaps just below and above them, dripping senders, clients that stop reading and resume",
     "Needs control of the clock and of the instants at which bytes arrive; minutes of waiting per case.",
     ["src/sys/st/io/sps_sys_st_io_tcp.cpp", "src/module/server/sps_server.cpp", "src/module/server/sps_server_module.cpp", "src/io/sps_io_socket.cpp"],
     [("per-connection timeouts", "Server::accept -> set_recv_timeout/set_send_timeout"), ("timed read and write", "StTcpSocket read/write")],
     "the instants at which the server closes connections, on the simulated clock", "The simulator owns the clock; connection closing times are compared with last-byte times.")
prop("C15", "A slow or dead player harms nobody; players outlive their source by 10 s",
     "However slowly a player reads, or if it stops reading altogether, every other player of the stream still gets each tag as soon as the server has it. A player is not dropped while media keeps coming at least every 10 s, and one that has received no media for 10 s is disconnected.",
     ["schedules", "fault_sequences"], "any mix of healthy, slow, stopped and vanished players, any source ending",
     "Blocking of one task by another only shows with several clients and full socket buffers.",
     [SS + "sps_stream.cpp", "src/avformat/sps_avformat_cache.cpp", "src/cache/sps_cache.hpp"],
     [("per-player queue", "AVDumpCacheStream::dump"), ("wake-up", "CacheStream::publish / ICondition::signal")],
     "bytes written to healthy players at each idle moment; closing times of players", "Players with tiny buffers that stall, resume or vanish next to healthy ones.")
NA = []
exec(open(__file__.replace("mkdocs.py", "mkdocs_more.py")).read()) if __import__("os").path.exists(__file__.replace("mkdocs.py", "mkdocs_more.py")) else None
P.sort(key=lambda p: p["id"])
with open("properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k != "note"}) + "\n")
na = {n["property"] for n in NA}
m = dict(version=1, setup_cmd="python3 build.py",
         checks=[dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                      technique=TECH, level="exploration", level_note=p["note"], evidence_file="evidence/%s.json" % p["id"]) for p in P if p["id"] not in na],
         not_applicable=NA, notes="See DESIGN.md. Replays: python3 check.py --replay replays/<file>.")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
