#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one place so that the ids, titles and statements stay in step)."""
import json, os
P = []
NOTEST = "The repository's 11 tests only exercise a handful of bit-buffer sequences; "
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
      why_tests_cant=why, anchors=dict(files=files, state=list(state), mechanism=[dict(name=n, where=w) for n, w in mech],
      observe_at=list(observe), hook_needed=hook)))

D = "src/shared/dns/"
prop("C01", "Decoding arbitrary bytes never crashes, hangs or exhausts memory",
 "For every byte string, decoding it as a DNS message ends quickly with either a message or an error. It never panics, never overflows, never loops forever and never allocates without bound, whatever lengths, counts, compression pointers or record data the bytes claim to have.",
 ["inputs"], "all byte strings: here every truncation, every single-byte and bounded multi-byte deviation of a corpus covering each record type, every record-data length 0..65535 and every compression-pointer target",
 NOTEST + "no test decodes a message, and a sampled input cannot reach every length/pointer/count combination an attacker may send.",
 [D+"message.rs", D+"records.rs", D+"name.rs", D+"questions.rs", D+"header.rs", "src/shared/buffer/buffer.rs"],
 [("pointer jump limit and bounds check", D+"name.rs: Name::from_bytes"), ("bounds-checked reads", "src/shared/buffer/buffer.rs"), ("record data length checks", D+"records.rs: decode_*_data")],
 observe=["Message::decode_from_bytes", "Header::decode_from_bytes"])
prop("C02", "A decoded message says exactly what its bytes say",
 "When decoding succeeds, header fields, questions and records are exactly those the bytes denote under RFC 1035 (names decompressed, record data interpreted per type, records of unknown type skipped and not counted). Every well-formed message made only of supported features is accepted (with at least 15 compression pointers per name), and every message whose structure is malformed (truncated data, record-data length that does not match its contents, dangling or cyclic pointers, reserved label types, over-long names) is rejected.",
 ["inputs"], "all byte strings, compared field by field with an independent RFC 1035 decoder",
 NOTEST + "agreement with the wire format is a statement about all inputs.",
 [D+"message.rs", D+"records.rs", D+"name.rs", D+"questions.rs", D+"header.rs", D+"utils.rs"],
 [("field order and widths", D+"header.rs: decode_from_buf"), ("per-type record data decoding", D+"records.rs: decode_*_data"), ("skipping of unknown types", D+"message.rs: decode_from_bytes")],
 observe=["Message::decode_from_bytes"])
prop("C03", "Encoding is well-formed and loses nothing",
 "For every message made of valid names and supported types, the encoded bytes are a well-formed DNS message that an independent RFC 1035 decoder reads back as the same header, questions and records. Decoding those bytes with this project's decoder gives back the same message.",
 ["inputs"], "all messages built from a bounded alphabet of names, record data, header fields and section sizes",
 NOTEST + "no test encodes a message; the round trip must hold for every record type and boundary value.",
 [D+"message.rs", D+"records.rs", D+"name.rs", D+"questions.rs", D+"header.rs"],
 [("name encoding", D+"name.rs: to_bytes"), ("record data length written before the data", D+"records.rs: encode_*_data")],
 observe=["Message::encode_to_bytes"])
prop("C04", "UDP encoding fits 512 bytes and truncates only whole trailing records",
 "The size-limited encoding of any message is at most 512 bytes, is itself well-formed, and contains the longest prefix of the message's questions and records (in section order) that fits. Its section counts match what is present and its truncation flag is set whenever something was left out, and otherwise is as in the message.",
 ["inputs"], "all messages with bounded section sizes, every record type and every record size around the 512-byte boundary",
 NOTEST + "truncation depends on where the 512-byte limit falls inside each section, which sampling cannot cover.",
 [D+"message.rs"], [("truncating encoder", D+"message.rs: encode_to_bytes_trunc"), ("buffer rewind and truncate", "src/shared/buffer/buffer.rs: set_write_pos, truncate")],
 observe=["Message::encode_to_bytes_trunc"])
prop("C05", "Domain names: valid iff RFC-conformant; zones compared by whole labels",
 "A string or wire sequence is accepted as a domain name exactly when it is absolute, every label has 1 to 63 letters, digits or inner hyphens and the encoded form has at most 255 octets (the root included). Two names are equal, and a name is inside a zone, exactly when their labels match from the right, whole label by whole label and ignoring ASCII case; everything is inside the root zone.",
 ["inputs"], "all strings up to a length bound over an alphabet with every character class, all label/name lengths around the limits, all pairs of names with up to three labels",
 NOTEST + "no test touches names.",
 [D+"name.rs"], [("validation", D+"name.rs: validate_name, validate_label"), ("zone containment", D+"name.rs: is_in_zone, is_only_in_auth_zone, is_in_zone_root"), ("equality and hashing", D+"name.rs: Name")],
 observe=["Name::from_string", "Name::from_bytes", "Name::is_in_zone", "Name::is_only_in_auth_zone", "==", "Hash"])
prop("C06", "The bit buffer behaves like a plain sequence of bits with two cursors",
 "After any sequence of reads, writes, cursor moves and truncations, the buffer's contents, length and cursors are those of a plain bit list on which the same operations were performed. A read beyond the end returns nothing and changes nothing.",
 ["histories", "inputs"], "all operation sequences up to a depth over widths 1..8, unaligned cursors, overwrites and truncations",
 "The existing tests walk a few fixed sequences; overwriting at unaligned positions after truncation and cursor moves needs every sequence.",
 ["src/shared/buffer/buffer.rs"], [("bit masks and byte straddling", "src/shared/buffer/buffer.rs: read_bits, write_bits, truncate")],
 state=[dict(name="last", meaning="length in bits", where="src/shared/buffer/buffer.rs"), dict(name="r_pos/w_pos", meaning="cursors", where="src/shared/buffer/buffer.rs")],
 observe=["BitsBuf public methods"])
prop("C07", "The nameserver answers exactly what the loaded zone dictates",
 "For every supported query: a name outside the zone is REFUSED; a name in a delegated subzone gets a non-authoritative referral with all NS records of that subzone and the addresses the subzone files give for those nameservers; any other name gets an authoritative answer with all and only the records of that name and type. If there are none of that type the name's CNAME record is the answer, and if there is none either the reply is an authoritative name error carrying the zone's SOA.",
 ["inputs", "configurations"], "all queries (name x type) over a bounded name tree against all zone configurations of a bounded family",
 NOTEST + "no test loads a zone or handles a query.",
 ["src/nameserver/handler.rs", "src/nameserver/zones/parser.rs"],
 [("zone selection", "src/nameserver/handler.rs: handle_query"), ("lookup", "src/nameserver/handler.rs: handle_auth_zone, handle_subzone"), ("record store", "src/nameserver/zones/parser.rs: Zone")],
 observe=["reply bytes of NameserverHandler"])
prop("C08", "Loading a zone serves exactly the records written in its files",
 "Whatever legal layout a zone file uses (relative or absolute names, '@', omitted owner, TTL and class in either order or omitted, blanks, comments, parentheses, quoted strings, escapes, $ORIGIN, $INCLUDE with or without origin), the records then served are exactly those written. Relative names are completed with the current origin, an omitted owner is the current origin, an omitted TTL is the previous record's (initially the configured starting TTL), and an included file starts from and does not change the including file's state. (Type and class mnemonics are in upper case, a SOA record names its class, the target of a PTR record is absolute, and the service list of WKS records is not kept.)",
 ["inputs", "configurations"], "all bounded zone documents: each abstract record list rendered in every combination of a bounded set of layouts",
 NOTEST + "no test parses a zone file; layout features interact.",
 ["src/nameserver/zones/tokens.rs", "src/nameserver/zones/utils.rs", "src/nameserver/zones/parser_auth.rs", "src/nameserver/zones/parser_sub.rs"],
 [("tokenizer", "src/nameserver/zones/tokens.rs"), ("parsing state", "src/nameserver/zones/parser_auth.rs: AuthParsingState"), ("sub zones", "src/nameserver/zones/parser_sub.rs")],
 observe=["parse_zone_files followed by queries", "Zone::get"])
prop("C09", "Inconsistent zones are refused at start-up, consistent ones accepted",
 "Loading fails for a zone without a leading SOA at its top node, or with a second one, without NS records, with NS records below its top node, with names outside the zone or inside a delegated subzone, or with a TTL below the zone's minimum; and for a subzone with records other than NS at its top node and A, a nameserver inside any subzone without address records there, or an address of a host that is no mentioned nameserver. Every configuration without such a fault, built from supported records, loads.",
 ["inputs", "configurations"], "all single and double faults injected at every position of a bounded family of consistent zone configurations",
 NOTEST + "no test parses or validates a zone.",
 ["src/nameserver/zones/parser.rs", "src/nameserver/zones/parser_auth.rs", "src/nameserver/zones/parser_sub.rs", "src/nameserver/zones/errors.rs"],
 [("validation", "src/nameserver/zones/parser.rs: validate_auth_zone, validate_subzone"), ("per-record checks", "src/nameserver/zones/errors.rs: ensure_*")],
 observe=["parse_zone_files result"])
prop("C10", "Any zone file loads or is rejected cleanly; what loads can be served",
 "For arbitrary contents of the zone files, loading terminates with a loaded zone or an error; it never panics, hangs or consumes unbounded memory. Whenever loading succeeds, every query for every loaded record produces a well-formed reply.",
 ["inputs"], "all sequences of lexical fragments up to a length bound (including odd whitespace, unbalanced quotes and parentheses, over-long strings and names, self-including files)",
 NOTEST + "no test reads a zone file, and termination must hold for every file.",
 ["src/nameserver/zones/tokens.rs", "src/nameserver/zones/parser_auth.rs", "src/nameserver/zones/parser_sub.rs", "src/nameserver/handler.rs", D+"utils.rs"],
 [("tokenizer progress", "src/nameserver/zones/tokens.rs: next"), ("string limits", D+"utils.rs: is_valid_character_string, encode_character_string")],
 observe=["parse_zone_files", "reply bytes of NameserverHandler"])
prop("C11", "Every request with a readable header gets exactly one proper reply",
 "Both servers send exactly one reply to each request whose header can be decoded, and none to others. (Messages marked as responses, and headers with an unknown operation or response code, may be either answered or ignored.) The reply decodes cleanly, has no reserved bits set, is marked as a response, and carries the request's id, operation code and recursion-desired bit and, if the request was understood, its question; requests that are malformed get a format error, requests for unsupported operations, classes or types get 'not implemented' (or a format error if the type or class is not a known one), and no request ever kills the thread serving it.",
 ["inputs"], "all requests of a bounded message space: every header flag/opcode/count combination, every question type and class, every truncation and single-byte deviation, for nameserver and resolver, over UDP and TCP",
 NOTEST + "no test handles a request.",
 ["src/nameserver/handler.rs", "src/resolver/handler.rs", "src/shared/net/udp_server.rs", "src/shared/net/tcp_server.rs", D+"message.rs"],
 [("error replies", "src/nameserver/handler.rs and src/resolver/handler.rs: handle_decode_err, handle_err"), ("request validation", "validate_dns_request in both handlers"), ("header fallback", "src/shared/net/udp_server.rs, tcp_server.rs: DnsRead::read")],
 observe=["datagrams and TCP bytes sent by the servers"])
prop("C12", "TCP requests and replies are framed correctly under any segmentation or fault",
 "A TCP request is understood identically however its bytes are split into segments, and its reply is one two-byte big-endian length followed by exactly that many bytes of one untruncated message (a reply that does not fit 65535 bytes is replaced by a well-formed truncated one or a server failure). A connection that stalls, closes early or errors produces no reply bytes beyond a prefix of the proper reply and does not stop the server from serving other connections.",
 ["inputs", "fault_sequences", "schedules"], "all segmentations of a request with bounded cuts, all short reads/writes, interruptions, resets, early closes and stalls at every byte, with bounded deviations",
 NOTEST + "no test opens a connection; the split points chosen by a real network are not under a test's control.",
 ["src/shared/net/tcp_server.rs"], [("length prefix", "src/shared/net/tcp_server.rs: TcpRequest::read, TcpResponse::reply"), ("timeouts", "src/shared/net/tcp_server.rs: setup_connection")],
 observe=["bytes on the (virtual) connection"])
prop("C13", "The worker pool runs every job exactly once and survives failing jobs",
 "Every submitted job runs exactly once, in submission order when there is one worker, and up to as many jobs as there are workers can run at the same time. Shutting the pool down waits for all jobs submitted before it and then returns, and a job that panics costs neither another job nor a worker nor the shutdown.",
 ["schedules", "histories"], "all interleavings (bounded preemptions) of 1-3 workers with bounded job sets, including panicking, blocking and mutually waiting jobs",
 NOTEST + "the pool has no test, and its behaviour depends on scheduling.",
 ["src/shared/thread_pool.rs"], [("shared receiver behind a mutex", "src/shared/thread_pool.rs: Worker::new"), ("stop messages queued behind jobs", "src/shared/thread_pool.rs: Drop")],
 state=[dict(name="queue", meaning="jobs accepted but not started", where="src/shared/thread_pool.rs: sender/receiver")],
 observe=["job side effects", "return of drop"])
prop("C14", "Concurrent clients each get their own reply; a slow one blocks nobody",
 "However requests of several UDP and TCP clients interleave, each client receives exactly the reply to its own request and nothing else. While a worker is free, a request is served even if other requests are stuck on slow clients or slow handlers.",
 ["schedules"], "all interleavings (bounded deviations) of 2-3 clients with the UDP and TCP servers and their workers",
 NOTEST + "no test runs a server; cross-talk appears only under particular schedules.",
 ["src/shared/net/udp_server.rs", "src/shared/net/tcp_server.rs", "src/shared/thread_pool.rs", "src/shared/net/setup.rs"],
 [("per-request buffer moved into the job", "src/shared/net/udp_server.rs: start_udp_server"), ("per-connection job", "src/shared/net/tcp_server.rs: start_tcp_server")],
 observe=["datagrams and bytes received by each client"])
prop("C15", "If one listener ends, the whole service stops, whatever the timing",
 "When the UDP or the TCP listener cannot start or ends, the other one is told to stop, finishes the requests it had already taken over (when these need no more than 3 seconds) and ends, and the service returns to its caller within a bounded time (30 seconds). This holds for every relative timing of the two listeners' start-up, requests in progress and the stop signal, and for IPv4 and IPv6 listen addresses.",
 ["schedules", "fault_sequences"], "all interleavings (bounded deviations) of listener start-up, bind failures, queued requests and shutdown",
 NOTEST + "no test starts the servers; the race between binding and the stop signal needs particular schedules.",
 ["src/shared/net/setup.rs", "src/shared/net/udp_server.rs", "src/shared/net/tcp_server.rs"],
 [("stop flag and wake-up", "src/shared/net/setup.rs: start_servers, wake_up_servers"), ("stop check", "start_udp_server, start_tcp_server")],
 observe=["return of start_servers", "listener threads ended", "sockets closed"])
prop("C16", "Against a consistent DNS tree the resolver returns exactly the true data",
 "Whatever was looked up before and however much time passed, a lookup of an existing name and type returns exactly the record set the authoritative servers hold (preceded by the alias records that lead to it) as long as that data fits the servers' UDP responses, and a lookup of a non-existent name reports a name error. Every record in an answer is owned by the queried name or by the target of a preceding alias record in the answer.",
 ["histories", "configurations"], "all sequences of lookups and waits up to a depth over bounded delegation trees (in-zone and out-of-zone nameservers, glue, aliases within and across zones)",
 NOTEST + "resolver code is not tested; cache contents left by earlier lookups and expiries change the path a lookup takes.",
 ["src/resolver/back_end/recursive.rs", "src/resolver/back_end/requests.rs", "src/resolver/back_end/utils.rs", "src/resolver/back_end/cache.rs", "src/resolver/handler.rs"],
 [("iteration over zones", "src/resolver/back_end/recursive.rs: query_nameservers_iteratively"), ("cached delegations", "src/resolver/back_end/recursive.rs: search_nss_in_cache_with_trace"), ("alias handling", "src/resolver/back_end/recursive.rs: handle_cname"), ("response analysis", "src/resolver/back_end/requests.rs: perform_request")],
 state=[dict(name="cache", meaning="record sets with expiry", where="src/resolver/back_end/cache.rs")],
 observe=["reply bytes of ResolverHandler"])
prop("C17", "Every lookup ends within bounded effort whatever upstream servers do",
 "For every behaviour of upstream servers (including hostile delegation chains, delegations without addresses, loops of aliases or zones, names that do not resolve, malformed data and silence) a lookup ends with one reply to the client. It never panics, and the number of upstream queries and the nesting of sub-lookups for one lookup are bounded by a fixed limit (at most 3000 queries), independent of the upstream data.",
 ["inputs", "fault_sequences", "histories"], "all sequences of upstream answers from a hostile menu up to a number of deviations, plus all infinite periodic strategies over that menu, cold and warm cache",
 NOTEST + "no test runs a lookup, and a hostile upstream chooses among unboundedly many response sequences.",
 ["src/resolver/back_end/recursive.rs", "src/resolver/back_end/requests.rs", "src/resolver/back_end/utils.rs", "src/resolver/handler.rs"],
 [("alias limit", "src/resolver/back_end/recursive.rs: perform_inner"), ("loop detection", "src/resolver/back_end/utils.rs: detect_cname_loops, detect_zones_loop"), ("delegations must get closer", "src/resolver/back_end/requests.rs: extract_next_nss_for_subzone")],
 observe=["reply of ResolverHandler", "datagrams sent upstream"])
prop("C18", "Failing nameservers are retried and bypassed up to the configured limits",
 "For each zone step of a lookup at most the configured number of nameservers is asked, each at most the configured number of attempts, each attempt bounded by the configured timeout. The step succeeds if and only if one of those attempts obtains a usable response: silence, undecodable data and mismatched ids are retried, an error response (whatever data it carries), an empty one or a delegation that leads nowhere moves on to the next nameserver, and only when all have failed does the client get a server failure. Nameservers whose address is known come before those whose address must be looked up first.",
 ["fault_sequences", "configurations"], "all assignments of outcomes (good, silent, garbage, wrong id, error code, empty, socket error) to the attempts of up to three nameservers under all small limit settings",
 NOTEST + "no test runs a lookup or injects a network fault.",
 ["src/resolver/back_end/requests.rs", "src/resolver/back_end/recursive.rs", "src/resolver/back_end/utils.rs"],
 [("retry loop", "src/resolver/back_end/requests.rs: send_query_with_retries"), ("nameserver loop", "src/resolver/back_end/recursive.rs: query_nameservers_iteratively")],
 observe=["datagrams sent upstream, their times", "reply of ResolverHandler"])
prop("C19", "A nameserver cannot influence names outside the zone it was asked about",
 "Whatever a nameserver puts into its responses, lookups of names outside the zone for which it was consulted give the same results, during that lookup and afterwards from the cache, as if those responses had been honest. In particular addresses or delegations it volunteers for foreign names are never used or served.",
 ["inputs", "histories"], "all combinations of hostile records in all sections of a malicious zone's responses, followed by all lookups of foreign names, cold and warm cache",
 NOTEST + "no test covers the resolver; cache poisoning needs a multi-step history.",
 ["src/resolver/back_end/requests.rs", "src/resolver/back_end/recursive.rs"],
 [("filtering of delegations and addresses", "src/resolver/back_end/requests.rs: extract_next_nss_for_subzone, extract_next_nss_for_cname"), ("what is cached", "src/resolver/back_end/recursive.rs: save_nss_in_cache, save_records_in_cache")],
 observe=["replies to later lookups", "destinations of upstream datagrams"])
prop("C20", "Only the response to the outstanding query from the asked server is used",
 "A response datagram affects a lookup only if it carries the id of the query just sent and comes from the address that query was sent to. Any other datagram is ignored or leads to a retry, and never contributes data to the answer, the cache or the choice of nameservers.",
 ["inputs", "fault_sequences"], "all arrival orders of genuine and forged datagrams (wrong id, wrong source, both, late replies to earlier attempts) within bounded numbers of attempts",
 NOTEST + "no test covers upstream traffic.",
 ["src/resolver/back_end/requests.rs"], [("id check", "src/resolver/back_end/requests.rs: send_query"), ("one socket per attempt", "src/resolver/back_end/requests.rs: send_udp_packet")],
 observe=["reply of ResolverHandler", "later replies"])
prop("C21", "The cache is a linearizable map whose expired entries do not exist",
 "Under any sequence or interleaving of its operations the cache behaves like a map updated atomically, in which an entry is present from the moment it is set until its lifetime (below 2^32 seconds) has elapsed, it is removed or it is overwritten. Expired entries are never returned or shown to callbacks, and cleaning (manual or periodic) drops exactly the expired ones.",
 ["schedules", "histories"], "all operation sequences up to a depth with waits around expiry instants, and all interleavings (bounded preemptions) of 2-3 threads",
 NOTEST + "the cache has no test; expiry instants and interleavings need enumeration.",
 ["src/resolver/back_end/cache.rs"], [("mutex around the map", "src/resolver/back_end/cache.rs: Cache"), ("expiry test", "src/resolver/back_end/cache.rs: is_expired")],
 state=[dict(name="data", meaning="key -> (expiry, value)", where="src/resolver/back_end/cache.rs")],
 observe=["Cache public methods", "drop of stored values"])
prop("C22", "Cached answers live exactly their TTL and are served with what is left of it",
 "Until the lowest TTL of a record set has elapsed since it was learnt, repeated lookups are answered from the cache without asking upstream for that record set, with TTLs equal to the whole seconds that remain; they never exceed the original TTL. After that the data is never served again without being fetched anew, so changed upstream data becomes visible. The same goes for learnt delegations: while the nameservers of a zone and an address of one of them are alive, names in the zone are not asked of servers of the zones above it (unless an alias pointing to the name came with nameservers to go on with); expired ones are not used.",
 ["histories", "schedules"], "all histories of lookups and waits around the expiry instants of record sets with equal, different, zero and maximal TTLs, including a lookup overlapping another that stores the entry",
 NOTEST + "no test covers time-dependent behaviour.",
 ["src/resolver/back_end/recursive.rs", "src/resolver/back_end/cache.rs"],
 [("TTL normalisation and ageing", "src/resolver/back_end/recursive.rs: save_records_in_cache, search_records_in_cache")],
 observe=["TTLs in replies", "upstream datagrams"])
prop("C23", "Unusable configurations are rejected at start-up, usable ones accepted",
 "A configuration is accepted exactly when its addresses are IP addresses, its thread counts, timeouts and limits are non-zero and its zone names are valid domain names. In particular no accepted configuration makes a server unable to serve requests.",
 ["configurations"], "all combinations of boundary values for all fields, with missing and mistyped fields",
 NOTEST + "no test parses a configuration.",
 ["src/nameserver/conf.rs", "src/resolver/conf.rs"], [("validation", "Conf::validate in both files")],
 observe=["Conf::from_file"])
prop("C24", "Tracing only observes: it never changes what a lookup does or returns",
 "For every lookup, the reply and the upstream traffic are the same for all settings of the tracing options. With tracing silenced nothing is recorded; otherwise the trace mentions every upstream query that was sent, printing it never fails, and with colours disabled the printed trace has no escape sequences.",
 ["configurations", "histories"], "all tracing settings x all lookup scenarios of a bounded family",
 NOTEST + "no test covers tracing.",
 ["src/resolver/back_end/trace.rs", "src/resolver/back_end/recursive.rs"], [("trace collection", "src/resolver/back_end/trace.rs")],
 observe=["reply", "upstream datagrams", "Trace Display"])
prop("C25", "Concurrent lookups sharing a cache give the same results as sequential ones",
 "When several lookups run at the same time on one resolver, under every interleaving each returns what it could return if the lookups ran one after the other in some order, none panics or deadlocks, and the cache remains usable and correct for later lookups.",
 ["schedules"], "all interleavings (bounded preemptions) of two to three lookups of the same or related names and the cache cleaner over a shared cache",
 NOTEST + "no test runs a lookup, let alone two at once.",
 ["src/resolver/back_end/recursive.rs", "src/resolver/back_end/cache.rs", "src/resolver/handler.rs"],
 [("locked cache operations", "src/resolver/back_end/cache.rs"), ("check-then-use of cache entries", "src/resolver/back_end/recursive.rs: search_records_in_cache, search_nss_in_cache_with_trace")],
 observe=["replies of concurrent lookups", "replies of later lookups"])
prop("C26", "Configured parameters take effect in the running programs",
 "A started nameserver or resolver listens on exactly the configured UDP and TCP addresses, uses as many workers per transport as configured, applies the configured read and write timeouts, zone files, TTLs, retry, nameserver, alias, cache-cleaning, trace and log-level settings (an alias chain is followed exactly when it is no longer than the limit), and exits with an error status without serving when its configuration or zones are unusable.",
 ["configurations"], "all configurations of a bounded family, each started in a closed virtual environment",
 NOTEST + "the binaries have no tests.",
 ["src/bin/nameserver.rs", "src/bin/resolver.rs", "src/nameserver/conf.rs", "src/resolver/conf.rs", "src/shared/net/setup.rs"],
 [("wiring", "main in both binaries")],
 observe=["sockets, timeouts and threads requested from the operating system", "replies", "exit status"])

prop("C27", "Upstream queries are proper, go to the name's nameservers and have random ids",
 "Every datagram the resolver sends to a nameserver is a well-formed query: standard operation code, no flag set (in particular recursion is not asked for), one question of class IN and no records. It asks for the looked-up type of the looked-up name, or of the target of an alias met on the way, or for the address of a nameserver the resolver was told of. It goes to port 53 of an address known (built in for the root servers, learnt otherwise) for a nameserver of a zone which contains the asked name, and its id is drawn at random from all 65536 ids, anew for every nameserver asked.",
 ["histories"], "all histories of lookups over variants of a DNS tree with deviations of its servers, names of every shape, all 65536 random values",
 NOTEST + "no test looks at an upstream query.",
 ["src/resolver/back_end/requests.rs", "src/resolver/back_end/recursive.rs", "src/resolver/back_end/utils.rs", "src/shared/dns/header.rs"],
 [("construction of queries", "src/resolver/back_end/requests.rs: build_dns_request, send_udp_packet"), ("choice of servers", "src/resolver/back_end/recursive.rs: query_nameservers_iteratively"), ("random ids", "src/shared/dns/header.rs: Header::default")],
 observe=["upstream datagrams"])

prop("C28", "Serving requests uses up no threads, sockets or memory",
 "What a request or a lookup takes is given back: when requests, lookups or connections of the same kind are repeated, whatever the client or the upstream servers do (stop in the middle, reset, do not read, stay silent, answer wrongly) and whichever operation on them fails, the program holds no more threads, sockets, connections and memory after the last of them, once its time limits have passed, than after the first. With the cleaning routine running, the same holds for lookups of ever different names whose records expire.",
 ["histories", "fault_sequences"], "all repeated histories of one request kind, client behaviour, pair of upstream behaviours and failing operation",
 NOTEST + "no test starts a server, and a leak of one socket or thread in a rare case shows only after a long time.",
 ["src/shared/net/tcp_server.rs", "src/shared/net/udp_server.rs", "src/shared/thread_pool.rs", "src/resolver/back_end/requests.rs", "src/resolver/back_end/cache.rs"],
 [("connections closed when a request ends", "src/shared/net/tcp_server.rs"), ("a socket for each upstream query", "src/resolver/back_end/requests.rs: send_udp_packet"), ("cleaning", "src/resolver/back_end/cache.rs: start_clean_routine")],
 observe=["open sockets and connections", "live threads", "live heap bytes"])

prop("C29", "Rejected zone files are reported with file and line, loaded records shown",
 "A nameserver which refuses to start because of an entry of a zone, subzone or included file reports, at error level, the file and a line which belongs to the faulty entry (for the starting SOA record: the record; for a line whose bytes are no text: that line or the entry before it), whatever comments, empty lines and entries spread over several lines come before it. A missing file is reported with its name or that of the file including it, an inconsistent zone or subzone with its name, and an unusable configuration or command line with some message. With the log level debug, every record loaded is shown with its owner, data and line.",
 ["inputs"], "all single faults of a list at every place of every file of a zone, in every layout of a list",
 NOTEST + "no test loads a zone, let alone a wrong one; line numbers depend on everything before the entry.",
 ["src/nameserver/zones/parser_auth.rs", "src/nameserver/zones/parser_sub.rs", "src/nameserver/zones/tokens.rs", "src/nameserver/zones/parser.rs", "src/bin/nameserver.rs"],
 [("line counting", "src/nameserver/zones/tokens.rs: load_new_line, line"), ("error contexts", "src/nameserver/zones/parser_auth.rs, parser_sub.rs: parse_entries"), ("report", "src/bin/nameserver.rs: main")],
 observe=["log lines of the nameserver program"])

prop("C30", "Logging only observes: at every log level the programs do the same",
 "What the two programs do does not depend on what they log: for every log level, and whatever the tracing options are, the same requests get the same replies at the same times over both transports, the same queries are sent upstream, connections are closed at the same times, the same configurations and zones are accepted or refused and the same zone data is served, the cache gives back the memory of expired entries, and no request or lookup fails because something is written to the log, whatever a client, a nameserver or a zone file contains and whichever operation fails.",
 ["configurations", "inputs", "histories", "fault_sequences"], "all log levels and tracing options x all histories of a family of requests, clients, upstream behaviours, failing operations and zone files",
 NOTEST + "no test starts a program with a log level; a log line which fails or which does something is run only at some levels and for some inputs.",
 ["src/bin/nameserver.rs", "src/bin/resolver.rs", "src/nameserver/handler.rs", "src/resolver/handler.rs", "src/resolver/back_end/cache.rs", "src/nameserver/zones/parser_auth.rs", "src/nameserver/zones/parser_sub.rs", "src/shared/logs.rs"],
 [("log lines of requests", "src/nameserver/handler.rs, src/resolver/handler.rs"), ("log lines of records", "src/nameserver/zones/parser_auth.rs, parser_sub.rs: parse_entries"), ("level", "src/shared/logs.rs: set_max_level")],
 observe=["replies and their times", "upstream queries and their times", "connections", "panics", "exit status"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
