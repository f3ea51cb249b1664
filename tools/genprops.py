#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (the readable source of the property list).
import json, os
P = []

def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = state
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

WIRE = ["messages exchanged with the server on its transport connections"]

p("P01", "Directory content follows publish/unpublish history exactly",
  "At every moment the service listing contains exactly the services that have been successfully published and not since unpublished or expired, each with the generation, properties, TTL and owning client of its latest successful publish. A publish succeeds for a new service id, a higher generation, or the same generation with identical properties and TTL; a lower generation, or the same generation with different content, is refused with the documented reason and changes nothing. Unpublishing removes the service at once, and unpublishing an unknown id is refused with the documented reason.",
  ["histories"], "all histories of connect, publish, republish, unpublish and disconnect by several clients over shared service ids, up to a depth bound",
  "Tests publish a handful of fixed sequences; the guarantee is over every order of generations, contents, owners and disconnects, where stale records and wrong-owner updates only show after specific multi-step histories.",
  ["paf/sd.py", "paf/server.py"],
  [("publish/unpublish rules", "paf/sd.py Client.publish, Client.unpublish, capture_service, remove_service"), ("wire commands", "paf/server.py publish_request, unpublish_request, services_request")],
  ["service database", "per-connection service sets"], WIRE)

p("P02", "Access control: users cannot touch each other's services, ids or streams",
  "A client can republish or unpublish a service only if it acts for the same user as the service's publisher, and can cancel a subscription only if it is the client that created it; every other attempt is refused as permission-denied and has no effect. While a client id is in use, or still owns a service left behind, it cannot be taken over by a connection of another user.",
  ["histories"], "all histories of clients of two users (and several clients of one user) attempting every operation on each other's objects, including after disconnects and ownership transfers",
  "Tests try single refused operations; ownership moves between clients, connections and orphan states, so the refusal must hold in every reachable ownership state.",
  ["paf/sd.py", "paf/server.py"],
  [("service access check", "paf/sd.py Service.check_access"), ("subscription access check", "paf/sd.py Subscription.check_access"), ("client id binding", "paf/sd.py Client.connect, UserIdChanged")],
  ["owner and user of each service", "client id to user binding"], WIRE)

p("P03", "Orphaned services survive exactly their TTL and can be reclaimed",
  "When the connection of an owning client ends for any reason, each of its services stays listed, marked as orphan since that moment, and is removed once its TTL has elapsed since then - never earlier, and not noticeably later. If a client of the same user republishes it before that, the mark is cleared, the pending removal is cancelled, and the same guarantee applies afresh to the new owner's later disconnection, any number of times.",
  ["histories", "schedules"], "all histories of publish, disconnect (orderly, reset or timed out), reconnect, reclaim, take-over and waiting, with several TTLs and client ids",
  "Tests check one orphan/reclaim cycle with real sleeps; the guarantee is over repeated cycles, several services per client, and all positions of the expiry relative to other events.",
  ["paf/sd.py", "paf/server.py", "paf/timer.py"],
  [("orphaning on disconnect", "paf/sd.py Client.disconnect"), ("orphan timers", "paf/sd.py ServiceDiscovery.maintain_orphans, add/remove/update_orphan_timer"), ("reclaim and capture", "paf/sd.py Client.publish, capture_service")],
  ["orphan timers", "inactive connections holding services"], WIRE)

p("P04", "Subscription notifications reconstruct the directory exactly",
  "For every active subscription, applying its notifications in order yields at every quiet moment exactly the listed services that match its filter, with the same generation, properties, TTL, owner and orphan status. Per service, appeared is sent only when it was not matching before, modified only while it matches and something changed, disappeared only after an appeared, and a service removed by expiry was last reported as orphan while one unpublished was last reported as not orphan. Other subscriptions never affect a stream, and nothing arrives after the subscription's completion.",
  ["histories", "schedules"], "all histories of subscribe/unsubscribe (several filters, several clients) interleaved with publishing, modification in and out of the filter, orphaning, reclaim, expiry and disconnects",
  "Tests check a few notification sequences; missed, duplicated or misclassified notifications depend on the order of subscription and change over all histories.",
  ["paf/sd.py", "paf/server.py"],
  [("match classification", "paf/sd.py Subscription.notify"), ("fan-out", "paf/sd.py ServiceDiscovery.service_changed, activate_subscription"), ("wire notification", "paf/server.py subscription_triggered")],
  ["subscription set", "previous/current service generation"], WIRE)

p("P05", "Resource limits are exact and never leak",
  "In every history the number of clients, services and subscriptions of a domain, in total and per user, never exceeds the configured limits, and a request is refused as insufficient-resources exactly when it would exceed one. Every removal (unpublish, unsubscribe, disconnect, expiry) gives its allocation back exactly once, so capacity is neither lost nor gained; a refused request consumes nothing.",
  ["histories", "configurations"], "all histories of clients of one or two users creating and releasing resources at and around each configured limit, including take-over of orphans and duplicate requests",
  "Tests hit each limit once; drift of the accounting shows only after particular sequences of create, transfer, expire and disconnect.",
  ["paf/sd.py", "paf/server.py"],
  [("accounting", "paf/sd.py ResourceManager.allocate/deallocate/check_total, Consumer"), ("callers", "paf/sd.py Client.connect/disconnect/publish/remove_service/create_subscription/remove_subscription")],
  ["per-user allocation counters"], WIRE)

p("P06", "Every request gets one well-formed, correctly ordered transaction response",
  "For every request with an unused transaction id the server sends, under that id and command, exactly the documented sequence: one complete or fail for single-response commands; one fail, or accept, notifications and (for list commands, and for cancelled subscriptions) one complete for multi-response commands. Each message carries exactly the fields documented for its command, type and protocol version, no message is sent under a terminated or never-opened transaction, and an id may be reused once its transaction has ended.",
  ["histories", "inputs"], "all sequences of commands with valid and failing arguments, concurrent and reused transaction ids, in both protocol versions",
  "The client library in the tests always numbers transactions sequentially and only checks the results it waits for; the conformance of every message in every history is not observed.",
  ["paf/server.py", "paf/proto.py"],
  [("transaction state machine", "paf/server.py Transaction"), ("command handlers", "paf/server.py Connection.*_request"), ("message layout", "paf/proto.py TransactionType, Message.to_wire")],
  ["open transactions of a connection"], WIRE)

p("P07", "No client input can stop the server or disturb other clients",
  "Whatever bytes a client sends, at any point of its connection's life, the server keeps running and every other client's connection, services, subscriptions and pending work are unaffected. An input that violates the protocol at worst gets the offending connection closed, with the same consequences as an ordinary disconnect.",
  ["inputs", "histories"], "all single-field and structural mutations of every message type, in every connection state (before, during and after handshake, with open transactions), plus malformed encodings, deep nesting and oversized values",
  "The existing malformed-message tests cover a few cases; any uncaught exception in the single server process is an outage for everybody, so the claim is over all inputs and states.",
  ["paf/server.py", "paf/proto.py", "paf/filter.py", "paf/daemon.py"],
  [("message parsing", "paf/proto.py Message.parse, Field.pull"), ("state checks", "paf/server.py Transaction.message, Connection.process"), ("containment", "paf/server.py Connection.activate; paf/daemon.py run")],
  None, ["server process liveness; a bystander client's view"])

p("P08", "Handshake: version selection, client id exclusivity and command gating",
  "A hello is answered with the highest protocol version lying in both the client's offered range and the domain's configured range, or refused as unsupported when there is none. A client id that is already connected is refused until that connection ends, and no command other than hello takes effect before a successful hello (it fails as no-hello). A rejected connection may retry and succeed, a repeated hello with the same id returns the selected version again, and an attempt to change id is refused without any effect.",
  ["histories", "configurations", "inputs"], "all offered ranges against all configured ranges, and all histories of hello attempts, retries, duplicates, disconnects and premature commands over several connections and client ids",
  "Tests use a few ranges and one retry; the guarantees concern every range pair and the order of competing handshakes and disconnects.",
  ["paf/server.py", "paf/sd.py", "paf/conf.py"],
  [("hello", "paf/server.py hello_request, process"), ("version choice", "paf/conf.py ProtoVersionLimitConf.get_highest_allowed"), ("client id", "paf/sd.py ServiceDiscovery.client_connect, Client.connect")],
  ["handshake state of each connection"], WIRE)

p("P09", "Silent v3 clients are dropped in time, live clients never",
  "A protocol v3 client from which nothing is heard for its maximum idle time (the lowest TTL of its services, bounded by the domain's configured idle range; the upper bound if it has no services) is disconnected within 1.05 times that time, and not before 0.95 times that time unless a rival connection claimed its client id. A tracked client is queried in advance and stays connected as long as it answers or sends anything; a v2 client is never disconnected for being idle. The dead peer detection of the transport (TCP keepalive, on tcp and tls) is left in force for every connection the server does not itself watch over in this way, and switched off once a version 3 handshake has completed.",
  ["schedules", "histories", "configurations"], "all timings (on a grid relative to the idle limit) of client messages, track replies, publications that change the limit, rival handshakes and silence, for extreme random jitter values",
  "Tests need real time and therefore sample one or two timings; the guarantee is over all timings and jitter, including limits changing while a warning is pending.",
  ["paf/sd.py", "paf/server.py"],
  [("idle timers", "paf/sd.py Connection.active, idle_timer_fired, install_idle_*_timer, max_idle_time"), ("query/drop", "paf/server.py check_idle, client_idle"), ("limits", "paf/sd.py IdleLimit"), ("transport keepalive", "paf/server.py configure_tcp_keepalive")],
  ["idle state and timer per connection"], WIRE)

p("P10", "Connection admission is bounded and every waiting client is eventually served",
  "The number of accepted connections of a domain never exceeds its total client limit; connections beyond it wait, and are served once earlier ones end, on whichever of the domain's sockets they arrived. A connection that has sent no hello, or only ones naming a client id nobody is using, is dropped between 2 and about 4 seconds after being accepted unless a hello succeeds, while handshaked ones are not, and a failed accept or a peer vanishing during accept affects nobody else.",
  ["histories", "fault_sequences", "configurations"], "all histories of connecting, handshaking, stalling and leaving on one or two sockets, around the limit, with accept faults injected at every position",
  "Tests exercise one limit scenario on one socket; lost wake-ups (a waiting client never accepted) need particular orders of accept, refusal and disconnect.",
  ["paf/server.py", "paf/eventloop.py"],
  [("accept loop", "paf/server.py Server.sock_activate, update_source, conn_terminated"), ("handshake deadline", "paf/server.py clean_out_connections, schedule_clean_out")],
  ["listening source conditions", "unhandshaked connection set"], WIRE)

p("P11", "Responses are never lost, duplicated or reordered under back-pressure",
  "Whatever the pattern in which a client's connection accepts outgoing data, the client receives exactly the messages it would have received without any back-pressure, complete and in the same order. While more than a bounded backlog is waiting for a slow client the server stops reading its requests, resumes once the backlog drains, and meanwhile serves all other clients normally.",
  ["schedules", "fault_sequences"], "all patterns of blocked and unblocked sends (per message) during listing, subscription and mixed workloads, crossing the internal batch and backlog sizes",
  "The one slow-client test uses whatever kernel buffering happens; EAGAIN at every individual send position is not reachable with real sockets.",
  ["paf/server.py"],
  [("send queue", "paf/server.py Connection.try_send, respond, update_source"), ("flow control", "paf/server.py receivable, SOFT_OUT_WIRE_LIMIT, MAX_SEND_BATCH")],
  ["outgoing queue of each connection"], WIRE)

p("P12", "A departed client leaves nothing behind but its orphans",
  "Once a connection has ended, its subscriptions, its transactions, its client id reservation and its transport resources are released: it is listed nowhere, the id can be used by a new connection, and the socket is closed exactly once. When additionally its last service is unpublished, taken over or expired, no trace at all remains, so the id is free for any user and memory use after any history returns to what it was at the start. Likewise, a request or subscription which has ended leaves nothing behind on a connection that stays.",
  ["histories", "fault_sequences"], "all histories ending in the departure of every client, by orderly close, reset, protocol error, send failure or time-out, at every point",
  "Tests check some listings after a disconnect; leftover state (memory, timers, id bindings) is invisible to them and depends on the history.",
  ["paf/sd.py", "paf/server.py", "paf/eventloop.py"],
  [("disconnect", "paf/sd.py Client.disconnect, remove_connection, remove_service"), ("termination", "paf/server.py Connection.terminate, conn_terminated"), ("unregistration", "paf/eventloop.py EventLoop.remove")],
  ["client table", "inactive connections", "timers", "event sources"], ["wire listings; live transport handles; reachable object graph of the server"])

p("P13", "Timers fire in order, once, on time, and never after cancellation",
  "For every sequence of adding, cancelling and processing timers (including from within handlers), each timer whose time has come fires exactly once in non-decreasing order of expiry, no timer fires early or after cancellation, and the announced next wake-up time is always the earliest pending expiry.",
  ["histories"], "all operation sequences over a few timers with equal and distinct times, relative and absolute, plus handlers that add or cancel timers",
  "The two existing timer tests use random times but only bulk add/expire/remove; equal times, same-handler duplicates and reentrancy are not covered.",
  ["paf/timer.py"],
  [("sorted queue", "paf/timer.py TimerManager.add, remove, process, _allocate_idx"), ("wake-up", "paf/timer.py next_timeout, next_timeout_changed")],
  ["timer queue"], ["handler invocations and wake-up callbacks"])

p("P14", "The event loop dispatches every ready source and only live ones",
  "For every sequence of adding, changing and removing event sources, also from within handlers and with descriptors being closed and reused, each source that stays ready (descriptor, timeout or active flag) has its handler called, a removed source's handler is never called, time-outs are honoured no earlier than requested and without unbounded delay, and the loop stops when told or signalled.",
  ["histories", "schedules"], "all sequences of source operations and readiness events over a few sources, including operations performed inside handlers and reuse of descriptor numbers",
  "There are no event-loop unit tests at all; the dangerous cases are reentrant and order-dependent.",
  ["paf/eventloop.py"],
  [("registration", "paf/eventloop.py EventLoop.add/remove/changed_*"), ("dispatch", "paf/eventloop.py run, handle_fds, fire_timeouts, fire_actives")],
  ["source tables"], ["handler invocations"])

p("P15", "Filter language: grammar is exact and printing round-trips",
  "Every text of the documented filter grammar (composites having at least two operands, equality values being non-empty, nesting within the implementation's limit) is accepted, and every text outside it is refused with a syntax error rather than any other failure. Printing an accepted filter yields a text that is accepted again and denotes the same filter, for all keys and values including special characters.",
  ["inputs"], "all texts up to a length bound over an alphabet of every special character plus representatives of other classes, and all syntax trees up to a size bound",
  "Tests list a dozen good and bad texts; parser errors hide in combinations of escapes, wildcards and truncation.",
  ["paf/filter.py"],
  [("parser", "paf/filter.py parse, _parse*, _parse_str"), ("printer", "paf/filter.py __str__, escape")],
  None, ["parse result, printed text, exceptions"])

p("P16", "Filter evaluation matches the documented meaning on all properties",
  "For every filter and every multi-valued property set, matching yields the documented result: equality compares text (integers by their decimal form), greater/less compare only integer values, presence tests the key, substring patterns match string values as initial/ordered-non-overlapping/final parts whatever characters they contain, and a comparison holds if any value of the key satisfies it. And, or and not combine exactly as boolean operators, and evaluation never fails.",
  ["inputs"], "all filters up to a size bound over small alphabets of keys, values and patterns, against all property sets up to a size bound with string and integer values, including newline and pattern metacharacters",
  "Tests evaluate selected pairs; interactions between pattern pieces, value types and multi-values are combinatorial.",
  ["paf/filter.py"],
  [("evaluation", "paf/filter.py Comparison.match, Equal/GreaterThan/LessThan.compare, Substring, Present, And, Or, Not")],
  None, ["match result"])

p("P17", "Wire messages decode to what was encoded and malformed ones are refused",
  "For every command, message type and protocol version, encoding any valid field values and decoding the result yields the same values, and the encoding is a JSON object with exactly the documented fields and types. A message with a missing, extra, ill-typed or out-of-range field, an unknown command or type, or that is not a JSON object is refused with a protocol error and nothing else.",
  ["inputs"], "all message types in all versions, with all combinations of boundary field values and presence of optional fields, and all single-point corruptions of them",
  "No codec tests exist; both ends use the same code so symmetric errors cancel out in the end-to-end tests.",
  ["paf/proto.py"],
  [("codec", "paf/proto.py Message.parse, Message.to_wire"), ("field types", "paf/proto.py NonNegativeIntField, NonNegativeNumberField, PropsField, StringField")],
  None, ["encoded bytes, decoded message, exceptions"])

p("P18", "Configuration files are applied faithfully or rejected with an error",
  "Every valid configuration yields exactly the described domains (names, sockets, TLS files, protocol version range, idle range), resource limits and log settings, with documented defaults for everything left out, also through legacy key names. Every other configuration (wrong types, out-of-range or contradictory values, missing required keys, a key given together with its alias, text that is not a YAML dictionary) is rejected with a configuration error and never with an internal failure or by silently ignoring it.",
  ["configurations"], "all configuration trees built from every documented key with valid, boundary, ill-typed and missing values, singly and in all pairs",
  "No configuration unit tests run in the stable set; acceptance is decided by pairs of interacting keys.",
  ["paf/conf.py", "paf/sd.py"],
  [("population", "paf/conf.py load, populate, domains_populate, resources_populate, log_populate"), ("validation", "paf/conf.py dict_lookup, ProtoVersionLimitConf, ResourcesClassConf.set_limit; paf/sd.py IdleLimit")],
  None, ["resulting configuration or raised error"])

p("P19", "The server command line overrides the file and never fails internally",
  "For every combination and order of documented options and arguments, the server starts with the options overriding the configuration file, domains given on the command line replacing all those in the file, and one domain per address or per multi-socket group; a client limit of zero means no limit. Every invalid invocation ends with an explanatory message and a failing exit status before any socket is opened.",
  ["configurations", "inputs"], "all combinations of options up to a bound with valid and invalid operands, with and without a configuration file",
  "Tests start the server with a few fixed command lines; option interactions and error paths are not enumerated.",
  ["paf/daemon.py", "paf/conf.py"],
  [("option handling", "paf/daemon.py main"), ("overrides", "paf/conf.py LogConf.set_*, ResourcesClassConf.set_limit/clear_limit, Conf.set_domains")],
  None, ["effective configuration handed to the server, output and exit status"])

p("P20", "Client library delivers each transaction's events faithfully, sync or async",
  "For every server message sequence that conforms to the protocol, each request issued through the client library yields exactly the corresponding accept/notify/complete/fail events, in order, to its own callback, and the blocking variants return the result or raise the transaction error with the server's reason. Any non-conforming, malformed or unexpected message, or loss of the connection, surfaces as a protocol or transport error and never as another kind of failure or a wrong result; queued requests are sent in order whatever the back-pressure.",
  ["schedules", "inputs", "fault_sequences"], "all server reply sequences up to a length bound over all message types, for every request type, with several concurrent transactions, send back-pressure and connection loss at every point",
  "End-to-end tests only see the real server's well-behaved replies; wrong, reordered and failing replies are never produced.",
  ["paf/client.py", "paf/proto.py"],
  [("client transaction state machine", "paf/client.py Transaction.consume_message"), ("calls", "paf/client.py Call, LatencyCall, NotifyCall, CompleteCall"), ("I/O", "paf/client.py Client.try_send, try_receive, process")],
  ["client transaction table"], ["callback invocations, return values and exceptions"])

p("P21", "Domain names resolve to exactly the servers their files describe",
  "Resolving a domain reads its file from the configured directory and yields, in order, each server address with its TLS files and protocol version range, in both the line-based and JSON formats, ignoring blanks and comments. A name with no file, or whose file lists no server, is used as an address itself; connecting uses the first server with precisely its settings, and an impossible version range is refused without leaving a connection open.",
  ["inputs", "configurations"], "all domain files built from up to a few lines or entries of every kind in both formats, with every combination of optional settings, and missing or empty files",
  "Tests use a couple of domain files; the combination of formats, blanks, comments and settings is not enumerated.",
  ["paf/client.py"],
  [("resolution", "paf/client.py domains_dir, read_domain, parse_domain_json, parse_domain_custom, domain_server"), ("connect", "paf/client.py connect, ServerConf, Client.__init__")],
  None, ["returned server list and transport connect parameters"])

p("P22", "Domains are isolated; sockets of one domain are equivalent",
  "Domains served by one process share nothing observable: services, subscriptions, client ids, users' resource accounts and connection limits of one domain never affect another. All sockets of one domain give access to the same directory: what is done through one is visible and enforced identically through any other.",
  ["histories", "configurations"], "all histories of clients spread over two domains, one of them with two sockets, with equal ids and limits in force",
  "Tests use a single domain with one socket except for one smoke test; leakage requires the same ids in both domains in particular orders.",
  ["paf/daemon.py", "paf/server.py", "paf/sd.py"],
  [("one server per domain", "paf/daemon.py run"), ("multi-socket accept", "paf/server.py Server.__init__, sock_activate")],
  ["per-domain state"], WIRE)

p("P23", "Termination is clean: signals stop the server, everything is released",
  "In any state, a termination signal makes the server stop its loop, end every client connection and close every transport socket exactly once, and exit with status zero. A start-up failure (such as an address that cannot be bound) or a fatal internal error ends the process with a failing status and its listening sockets closed, never leaving it hanging.",
  ["histories", "crash_points", "fault_sequences"], "termination after every prefix of histories with handshaked and unhandshaked clients, orphans, subscriptions and blocked output; start-up failure at every socket of multi-domain configurations",
  "Tests kill the server in a fixture without looking at what happens; the state at the time of the signal is what matters.",
  ["paf/daemon.py", "paf/server.py", "paf/eventloop.py"],
  [("signal wake-up", "paf/eventloop.py init_signal_wakeup_fd, check_signal"), ("shutdown", "paf/daemon.py run; paf/server.py Server.terminate")],
  None, ["exit status, live transport handles, peers' connection state"])

p("P24", "Transport binding: errors, attributes and resources map one-to-one",
  "Every transport operation reports exactly what the transport library reported: data unchanged, would-block and failures as errors with the library's error code, end of stream as empty data, attributes with their exact type and value. Attributes given at connect, listen or accept time reach the library unchanged, and every socket and attribute set acquired is released exactly once, on every path including failures.",
  ["inputs", "fault_sequences"], "all binding operations with boundary arguments and each possible failure of each library call, in all short operation sequences",
  "Tests run on the real library's success paths only; failure results and resource release are not observable there.",
  ["paf/xcm.py"],
  [("calls", "paf/xcm.py connect, server, ServerSocket.accept, ConnectionSocket.send/receive, Socket.close/get_attr/set_attr/finish"), ("error mapping", "paf/xcm.py _raise_io_err")],
  ["live handles and attribute maps"], ["calls arriving at the transport library; returned values and exceptions"])

p("P25", "Users are identified by the transport's credentials only",
  "On a TLS connection the user is the peer's certificate subject key identifier, falling back to the peer's IP address only when the transport cannot provide it; on TCP it is the peer's IP address regardless of port, for IPv4 and IPv6; on all other transports it is one common local user. Two connections are treated as the same user exactly when these identities are equal, whatever else differs.",
  ["inputs", "histories"], "all pairs of peers over every transport type, address form, port and key identifier (including unavailable ones), judged by who may change whose service and whose limits are charged",
  "The stable tests never establish a transport connection; identity confusion shows only for pairs of peers.",
  ["paf/server.py"],
  [("identification", "paf/server.py Connection.determine_user_id")],
  None, WIRE)

p("P26", "The clients listing is accurate",
  "The clients listing contains exactly the connections with a completed handshake, including the requester, each with its client id, peer address, whole-second connection time and, in protocol v3, the time since it was last heard from and its negotiated version. A round-trip latency is reported exactly for tracked clients that have answered a query, equal to the time between the latest answered query and its reply.",
  ["histories", "schedules"], "all histories of connecting, failing handshakes, tracking, replying late, staying silent and leaving, with listings by v2 and v3 clients in between",
  "Tests look at one or two listings; idle and latency values depend on timing that tests cannot control.",
  ["paf/server.py", "paf/sd.py"],
  [("listing", "paf/server.py clients_request"), ("activity time", "paf/sd.py Connection.active, last_seen"), ("latency", "paf/server.py track_inform, track_query")],
  ["last-seen time", "track latency"], WIRE)

p("P27", "Client library and server together converge to one shared view",
  "For every interleaving of several library clients' asynchronous operations with delivery delays in both directions, each operation's reported outcome is consistent with one sequential order of all operations at the server that respects each client's issue order, and once traffic stops every subscriber's view equals the directory.",
  ["schedules", "histories"], "all interleavings (per message, in both directions) of small concurrent programs run by two or three library clients against the real server",
  "End-to-end tests run one schedule per execution, determined by the operating system.",
  ["paf/client.py", "paf/server.py", "paf/sd.py"],
  [("client I/O", "paf/client.py process, try_send, try_receive"), ("server I/O", "paf/server.py Connection.activate"), ("directory", "paf/sd.py")],
  None, ["client callbacks; service listing"])

p("P28", "Two-way tracking: every query is answered once, every reply is accounted",
  "In an accepted track transaction each client query gets exactly one reply notification, the server has at most one query outstanding, and it sends one only to a client that has gone quiet. At most one track transaction exists per connection (a second is refused as track-exists), tracking exists only in protocol v3, and an unsolicited reply or unknown track message is a protocol violation that ends that connection only.",
  ["histories", "schedules"], "all sequences of track requests, queries, replies, other commands and silence, up to a depth bound, in both protocol versions",
  "Tests send a few queries in each direction; the accounting of outstanding queries depends on their interleaving with time.",
  ["paf/server.py", "paf/sd.py"],
  [("track handlers", "paf/server.py track_request, track_inform, track_query, is_tracked, has_outstanding_track_query, check_idle")],
  ["outstanding query"], WIRE)

p("P29", "The interactive client executes exactly the command that was typed",
  "Every well-formed interactive command sends exactly the corresponding request: ids in hexadecimal, generation and TTL as given, each property name with exactly the set of values typed, decimal integers as integers and |quoted| or other values (including the empty string) as strings. Malformed commands (a missing or superfluous argument, an id or number that is none, unbalanced quotes) are reported and send nothing; a failed operation is reported with its reason, never as successful, and leaves the client usable; printed listings and notifications show exactly what the server returned. The command-line options -i, -p, -n, -a and -l select client id, protocol version, server and listing as documented.",
  ["inputs"], "all command lines up to a token bound over representative tokens for every command, against every class of server outcome",
  "The interactive client is not unit tested; argument forms combine.",
  ["app/pafc", "paf/props.py"],
  [("argument parsing", "app/pafc parse_props, PafCli.do_*"), ("output", "app/pafc PafCli; paf/props.py to_str")],
  None, ["requests issued through the client library; printed output"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
