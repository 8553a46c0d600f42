HOOKS = {"guard": "verif", "enable": "no hooks: the checks drive the exported API and the command line of an unmodified build", "source_commits": []}
NOT_APPLICABLE = []
NOTE = ("Exploration: every violation is a real execution of the real client against scripted or stateful brokers on loopback TCP; "
        "silence means that none of the seeded cases of the run broke the property. Trusts the harness's own Kafka codec and broker model. ")
PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique, note, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a,
                  "technique": technique, "level_note": NOTE + note})


P("C01", "An answer is only ever delivered to the request it belongs to",
  "Whatever goes wrong on a broker connection (timeouts, late answers, resets, connections dropped in the middle of an answer) and however many goroutines share it, a call either returns the broker's answer to exactly that request or an error. "
  "After a failed exchange the same broker handle works again as soon as the broker does, and without faults no call fails.",
  ["schedules", "fault_sequences", "histories"], "all interleavings of concurrent callers and all sequences of transport faults on one broker connection",
  "the unit tests issue single requests through mocks; late answers and concurrent callers never occur in them",
  ["broker.go", "response.go"], [("request/response exchange under the broker lock, connection closed after a failed exchange", "broker.go: RequestAndGet, Request, Close"), ("frame reading", "response.go: Read, ReadAndParse")],
  "runtime monitor: concurrent callers send uniquely tokened requests through a fault-injecting broker; an online oracle matches the token in every answer with the token asked",
  "Quick runs a few thousand tokened exchanges with drops, delayed answers, truncations and resets.")
P("C02", "Every request on the wire is exactly what the caller asked for",
  "For every API and every version the client implements, a request leaves the client exactly once as one well-formed frame of the Kafka protocol at that version: correct length, header, client id and a fresh correlation id, every field the caller set with the caller's value, nulls as null, and no bytes missing or left over.",
  ["inputs", "configurations"], "all field values (null, empty, long, non-ASCII, many elements) times all implemented versions of all APIs",
  "the tests encode and decode a few fixed requests with the client's own codec, so symmetric mistakes cancel out",
  ["*_request.go", "request.go", "primitive_type_encode.go", "tagged_fields.go"], [("per API encoders", "*_request.go: Encode"), ("request header", "request.go: EncodeTo, headerVersion")],
  "runtime monitor: strict independent protocol decoder in the broker compares every received frame with the request the workload built",
  "27 APIs at randomised versions and field values.")
P("C03", "Every field of a broker's answer reaches the caller unchanged",
  "For every API and every implemented version, a well-formed answer (any number of elements, null and empty values, unknown tagged fields, delivered in any segmentation of the byte stream) is accepted and every field of it that the client's response types expose has the value the broker sent, for every element.",
  ["inputs", "configurations"], "all well-formed answers of all APIs and implemented versions, and all TCP segmentations",
  "the tests decode a handful of fixed answers, mostly produced by the client's own encoders",
  ["*_response.go", "response.go", "primitive_types_decode.go", "tagged_fields.go"], [("per API decoders", "*_response.go"), ("response dispatch", "response.go: Parse")],
  "runtime monitor: answers generated by an independent encoder, decoded by the client, compared field by field through reflection",
  "Fields the response types do not expose are not compared.")
P("C04", "An error code sent by the broker is never reported as success",
  "If a broker's answer carries a non-zero error code anywhere (top level, per topic, per partition, per resource, per group, whichever element it belongs to), the call that received it returns a non-nil error, and if that error identifies a Kafka error code it is one the broker sent.",
  ["inputs"], "all APIs, all implemented versions, all positions of the error code in the answer, all codes",
  "the tests check single error codes in single-element answers",
  ["*_response.go", "errorcode.go", "broker.go"], [("per response error extraction", "*_response.go: Error"), ("error code table", "errorcode.go")],
  "runtime monitor: fault injection of error codes at every error-code position of generated answers, oracle on the returned error",
  "")
P("C05", "The request version is the highest one both sides implement",
  "For each request the client uses the highest protocol version that it implements and that the broker it is talking to advertised on the current connection, also when one request object is sent to several brokers or sent again after a reconnect that changed what the broker supports.",
  ["configurations", "histories"], "all advertised version ranges, per API and broker, and all orders of sends and reconnects",
  "the tests use one advertised range and one broker",
  ["broker.go", "request.go", "apiversions_response.go"], [("version negotiation", "broker.go: getHighestAvailableAPIVersion, createConnAndAuth"), ("header version", "request.go: SetVersion, headerVersion")],
  "runtime monitor: brokers with random advertised ranges check the version of every received frame against the negotiation rule",
  "")
P("C06", "An accepted message is stored exactly once, unchanged and in order",
  "On a cluster without failures, for any number of goroutines sharing a producer (single-partition or keyed), any batch limit, flush interval, compression, acks setting, metadata refresh and any moment of Close: every message whose AddMessage returned nil is in the topic exactly once when Close has returned (with acks=0: when the brokers have read it), with the key and value that were passed (null and empty distinguished); "
  "a message rejected because the producer is closed is stored nowhere; the messages of one goroutine sent through a single-partition producer are stored in the order in which they were sent, and through a keyed producer so are those that go to one partition, keyed and keyless ones each among themselves. AddMessage, Flush and Close return without error.",
  ["schedules", "configurations", "histories"], "all interleavings of concurrent senders, timed and explicit flushes, metadata refreshes and Close, for all batching and compression settings",
  "the tests send a few messages from one goroutine through mocks; races between AddMessage, the flush timer, the refresh of the current partition and Close never occur in them",
  ["simple_producer.go", "producer.go"], [("buffering, flush on full batch, timed flush, flush on Close", "simple_producer.go: AddMessage, Flush, flush, Close"), ("choice and replacement of the current partition", "producer.go: updateCurrentSimpleProducer, getSimpleProducer, AddMessage, Close")],
  "runtime monitor: concurrent senders with uniquely numbered messages against stateful brokers; offline conservation, exactly-once and order checker over the stored partition logs",
  "Quick runs some 2500 producers with 1 to 8 concurrent callers.")
P("C07", "A send reports success only if the broker acknowledged it",
  "With acks 1 or all, a Flush, or an AddMessage that fills the batch, returns nil only if the leader answered the batch without an error code: error codes in the answer, connections that break before or in the middle of the answer, timeouts and unreachable brokers all give an error, and for an error code sent by the broker that code can be recovered from the error. "
  "A failed batch is not sent again behind the caller's back (no message is ever stored twice), and once the broker is healthy again the next send through the same producer succeeds. "
  "A partition whose batch fails does not keep Flush of a producer from sending the batches of the other partitions.",
  ["fault_sequences", "histories"], "all sequences of produce failures (error codes, lost connections, restarts, timeouts) over the life of one producer",
  "the tests have no failing broker behind a producer",
  ["simple_producer.go", "broker.go", "produce_response.go"], [("synchronous send of a batch", "simple_producer.go: flush"), ("error of a produce answer", "produce_response.go: Error"), ("reconnect", "broker.go: RequestAndGet")],
  "runtime monitor: scripted produce faults per round, oracle on the returned error, the acknowledgements actually sent and the stored log",
  "")
P("C08", "Produced batches are valid and contain exactly the messages sent",
  "Every produce request carries one valid record batch (format 2: length, CRC, attributes naming the configured compression, consecutive offset deltas, timestamps of the time of sending, no producer id) for the producer's topic and partition with the configured acks and timeout, holding at most the configured number of messages; "
  "concatenated over the requests, the batches contain exactly the messages that were sent, in order, for any key and value bytes including null, empty, binary and very large ones, with every compression type.",
  ["inputs", "configurations"], "all keys and values, batch sizes and compression types",
  "the tests encode a few short records and decode them with the client's own decoder",
  ["record.go", "record_batch.go", "produce_request.go", "compress.go", "simple_producer.go"], [("record and batch encoding", "record.go, record_batch.go: Encode"), ("compression", "compress.go"), ("request building", "simple_producer.go: flush, createRecordBatch")],
  "runtime monitor: strict independent batch decoder (CRC, lengths, deltas, decompression) on every produce request on the wire, compared with the messages handed to the producer",
  "")
P("C09", "Buffers are never shared between the client and its caller",
  "A caller may overwrite the key and value slices passed to AddMessage as soon as the call returns: what is stored is what the slices contained during the call. A message delivered by a consumer never changes afterwards, whatever the consumer fetches, decodes or decompresses later.",
  ["histories", "schedules"], "all later activity of the producer or consumer that holds the data",
  "the tests do not reuse buffers and do not look at messages again after more have been delivered",
  ["simple_producer.go", "fetch_response_stream_decoder.go", "record.go", "message.go"], [("copy on AddMessage", "simple_producer.go: AddMessage"), ("per response buffers", "fetch_response_stream_decoder.go, record.go")],
  "runtime monitor: workloads scribble over their buffers after every AddMessage and keep every delivered message until the end; both are compared with the partition logs",
  "")
P("C10", "Equal keys always go to the same partition",
  "For a topic whose partition count does not change, all messages with equal keys (byte for byte, including the empty key) are stored in one partition, for all producers, client ids, goroutines, restarts, leader changes and orders in which brokers list the partitions; and over many different keys every partition is used.",
  ["inputs", "histories"], "all keys, partition counts, metadata orders, producers and leader placements",
  "the tests do not check the choice of the partition",
  ["producer.go"], [("choice of the partition", "producer.go: getSimpleProducer"), ("metadata order", "metadata_response.go")],
  "runtime monitor: many keys through several producers with shuffled metadata and moved leaders; checker over the stored logs that the map from key to partition is a function onto the partitions",
  "Which hash is used is not prescribed.")
P("C11", "A consumer delivers each message exactly once, in order and unaltered",
  "From its start offset on, a consumer delivers exactly the data messages of the partition's log in offset order, each once, with the stored key, value, headers, timestamp (of creation, or set by the broker when the message was appended) and offset and the right topic and partition, and keeps up with messages appended later. "
  "This holds for all message formats and compression types, transactional batches (control records are not delivered), compacted and empty batches, fetch sizes smaller than a batch, trailing partial batches, any segmentation of the answer, every fetch version, and through failed fetches: dropped connections in the middle of an answer, error codes, timeouts, leader changes and broker restarts.",
  ["inputs", "fault_sequences", "histories", "configurations"], "all logs, fetch sizes and versions, and all sequences of fetch failures, leader moves and restarts during consumption",
  "the tests decode fixed answers; retries after partial answers, leader changes and format combinations are not covered",
  ["simple_consumer.go", "consumer.go", "fetch_response_stream_decoder.go", "record_batch.go", "message.go"], [("fetch loop, position, error handling", "simple_consumer.go: consumeLoop, consumeMessages, getLeaderBroker"), ("streaming decoder", "fetch_response_stream_decoder.go"), ("formats", "record.go, message.go")],
  "runtime monitor: generated logs of all formats served by stateful brokers with fault injection; online oracle compares every delivered message with the log, end detected by the fetch at the end of the log",
  "")
P("C12", "Consumption starts at the offset that was asked for",
  "An explicit non-negative start offset is used as it is. With -1 (latest) or -2 (earliest), or for consumers configured with from.beginning, a group's committed offset is used if there is one, else the end or the beginning of the log. "
  "If the start offset is outside the log, consumption starts at the beginning when earliest was asked for and at the end otherwise. Lookups (coordinator, committed offset, log offsets, leader) that fail are repeated and never lead to another start position, for simple consumers, multi-topic consumers and group consumers and both offset storages.",
  ["configurations", "fault_sequences", "histories"], "all combinations of requested offset, committed offset, log range and failing lookups",
  "the tests never start a consumer against a log with committed offsets",
  ["simple_consumer.go", "consumer.go", "group_consumer.go"], [("start offset", "simple_consumer.go: Consume, initOffset, getOffset, getCommitedOffet"), ("reset when out of range", "simple_consumer.go: consumeMessages"), ("from.beginning", "consumer.go, group_consumer.go")],
  "runtime monitor: generated log ranges, commits and failing lookups; oracle on the first and all following delivered messages",
  "")
P("C13", "Committed offsets never run ahead of delivery and survive a restart",
  "With a group id, an offset is committed only when all data messages below it have been delivered to the channel; committed offsets are never negative, never beyond the log and never go back. With auto commit, a consumer that is stopped has committed the position after its last delivered message, so that a successor in the group neither repeats nor misses a message, also after commits that failed on the way; "
  "without auto commit nothing is committed except by CommitOffset, which commits the position reached.",
  ["schedules", "fault_sequences", "crash_points", "histories"], "all moments of delivery, timed and explicit commit, commit failure and stop, over successive consumers",
  "the tests do not observe commits together with deliveries",
  ["simple_consumer.go", "group_consumer.go", "consumer.go"], [("position and commit", "simple_consumer.go: consumeMessages, CommitOffset, commitOffset, Stop"), ("commit through the group", "group_consumer.go: commitOffset, stop, awaitClose")],
  "runtime monitor: unbuffered channels gate delivery; an offline checker over the event trace orders every commit accepted by the coordinator against the deliveries, chains of consumers check restart",
  "")
P("C18", "A cut-off answer is an error: no crash, no hang, no made-up result",
  "If an answer ends early, because the connection drops at any byte of it or because its frame is shorter than its content requires, the call returns an error: it does not crash the process, does not block forever, and does not return a result built from missing bytes. "
  "Afterwards the broker handle works again.",
  ["crash_points", "inputs"], "all cut positions in all answers of all APIs and versions",
  "the tests never truncate an answer",
  ["response.go", "broker.go", "primitive_types_decode.go", "*_response.go"], [("malformed answers become errors", "response.go: Parse"), ("bounds in the primitive decoders", "primitive_types_decode.go")],
  "runtime monitor: answers truncated at every kind of position under a crash/hang watchdog, oracle on the returned error and on the next call",
  "Cuts that only remove optional trailing tag buffers are excluded.")
P("C14", "Group assignments are complete, exclusive and balanced, and are followed",
  "In every generation of a consumer group that a healer member leads, every partition of every subscribed topic is assigned to exactly one member that subscribes to the topic, nobody else gets anything, and for each topic the numbers of partitions of its subscribers differ by at most one; the assignments are encoded so that other clients can read them. "
  "Once the group is stable every member consumes exactly the partitions it was assigned. New partitions of a subscribed topic are assigned after the metadata age. A closed consumer is no longer a member, whenever it was closed.",
  ["inputs", "schedules", "histories"], "all group sizes, subscriptions, partition counts and orders, and sequences of joins, leaves, expiries, growth and closes",
  "the tests call the assignment function on a few fixed member lists and never run a group",
  ["assign.go", "group_consumer.go", "sync_group_request.go", "joingroup_response.go"], [("range assignment", "assign.go: rangeAssignmentStrategy.Assign"), ("join, sync and refresh", "group_consumer.go: join, sync, refreshMeta, awaitClose, leave")],
  "runtime monitor: groups of real consumers, some with foreign members, against a coordinator state machine; every completed generation is checked against the topics, and the fetches of the stable group against its assignment",
  "")
P("C15", "A consumer group survives faults and rebalances without losing messages",
  "While the members of a group join, leave, are expelled, lose their connections or their coordinator (restarted or moved), or get errors from it, every message of the topic is delivered to at least one member, unaltered, and each remaining member rejoins, goes on sending heartbeats and consuming. "
  "Heartbeats, syncs and commits carry a membership (member and generation) that the coordinator gave to that consumer. If members only join and leave, no message is delivered twice and the closed group has committed all that was delivered. After Close has returned the consumer sends nothing more.",
  ["fault_sequences", "schedules", "histories"], "all sequences of membership changes and coordinator faults at all moments of join, sync, heartbeat, consume and commit",
  "no test runs a group",
  ["group_consumer.go", "simple_consumer.go", "heartbeat_request.go"], [("membership loop", "group_consumer.go: joinAndSync, heartbeat, restart, stop"), ("resuming at the committed offset", "simple_consumer.go: initOffset")],
  "runtime monitor: groups of real consumers under injected membership changes, coordinator moves, restarts and errors; offline checker over deliveries, commits and group requests (conservation, exactly-once when clean, membership use)",
  "Exactly-once is only demanded of runs without expelled members.")
P("C16", "With SASL configured nothing is sent before authentication succeeded",
  "If SASL is configured, every connection of every component, including every reconnection, authenticates with exactly the configured mechanism, user and password before any request other than the version request; if the broker refuses the mechanism or the credentials, or the mechanism is not one the client implements, the component is not created, the call returns an error and nothing else is sent on that connection. "
  "A failed authentication does not make the broker handle unusable later. Without SASL configured no SASL request is sent.",
  ["configurations", "fault_sequences", "schedules"], "all credentials, components, and connection losses and refusals at all points of the exchange",
  "the tests encode single SASL messages; no test authenticates a component or loses a connection",
  ["broker.go", "sasl_plain.go", "sasl_handshake_request.go", "sasl_authenticate_request.go", "config.go"], [("authentication of a new connection", "broker.go: createConnAndAuth, sendSaslAuthenticate"), ("the PLAIN token", "sasl_plain.go: Encode")],
  "runtime monitor: authenticating brokers; a trace checker over every connection demands handshake, token and acceptance before any other request, with all components, refusals, faults and reconnections",
  "")
P("C17", "Requests reach the brokers responsible for them, and only those",
  "Metadata, coordinator and bootstrap requests succeed if any broker they may go to is up, whatever the other brokers or bootstrap addresses do. Offset requests go to the leaders of the partitions, group deletions to the coordinators of the groups, group listings to all brokers, configuration of a broker to that broker, log directory requests to the replicas with just their partitions, and the other administrative requests to the controller, and to nobody else; "
  "what the caller gets back is what these brokers have, complete and without duplicates. If a responsible broker is up the call succeeds (after reconnecting if needed), if it is down the call fails. Brokers that joined the cluster later are found.",
  ["configurations", "histories", "fault_sequences"], "all cluster layouts (ids, leaders, coordinators, controller), bootstrap lists and sequences of calls, broker stops, restarts and additions",
  "the tests mock single brokers; routing over several brokers is never observed",
  ["brokers.go", "client.go"], [("broker lookup and metadata refresh", "brokers.go: GetBroker, NewBroker, refreshMetadata"), ("routing", "brokers.go: RequestOffsets, findLeader, FindCoordinator, RequestMetaData, Request; client.go: ListGroups, DeleteGroups, DescribeLogDirs, DescribeConfigs")],
  "runtime monitor: clusters of 1 to 7 brokers; every request observed at every broker is compared with the responsibility map, and every result with the state of the cluster",
  "A change of the controller is only exercised together with a new broker; DescribeLogDirs only while all brokers are up.")
P("C23", "With TLS enabled only verified, encrypted connections are used",
  "If TLS is enabled, every component speaks to every broker only through TLS, presents the configured client certificate and verifies the broker's certificate: a broker with an untrusted, expired or differently named certificate (unless a server name or skipping of the verification is configured), a broker without TLS, or a configuration with missing or unreadable files makes the creation fail, and no request or credential is sent. With TLS disabled plain connections work.",
  ["configurations", "histories"], "all combinations of certificates, configurations, components and reconnections",
  "the tests check the configuration struct; no test makes a TLS connection",
  ["broker.go", "config.go"], [("TLS dialling and configuration", "broker.go: newConn, createTLSConfig"), ("validation", "config.go")],
  "runtime monitor: TLS brokers with generated certificates; oracle on component creation, on the client certificate seen and on any byte received outside a verified session",
  "")
P("C19", "Every configured setting takes effect, and nothing else does",
  "Each documented setting of a consumer or producer is observable in its requests and behaviour exactly as configured (client id, group, session timeout, fetch limits and wait, start position, commit mode and interval, acks, request timeout, compression, batch size and flush interval, message format), whether it is given in a struct or by name in a map (numbers and booleans also as strings), and the documented default applies if it is left out; "
  "several components with different settings do not influence each other, the caller's configuration and the defaults stay unchanged, and an invalid configuration is refused with an error before anything is sent.",
  ["configurations", "inputs"], "all combinations of settings, of their spelling and of components at the same time",
  "the tests compare a few parsed structs; no test sees the effect of a setting on the requests",
  ["config.go", "producer.go", "simple_producer.go", "consumer.go", "simple_consumer.go", "group_consumer.go"], [("creating and validating configurations", "config.go: createConsumerConfig, createProducerConfig, getConsumerConfigFromMap, checkValid"), ("use", "simple_consumer.go, group_consumer.go, simple_producer.go, producer.go")],
  "runtime monitor: components created with generated settings in struct and map form, several at a time; the requests seen by the brokers and the observed behaviour are compared with the settings",
  "Timeouts of the connection are the subject of C26.")
P("C20", "No data races in concurrent use",
  "Handles, clients, producers and consumers that the interface lets several goroutines share (calls at the same time as each other, as the background work, as failures and moves of brokers, and as Close), and several components created from the same configuration value at the same time, run without a data race in the library.",
  ["schedules"], "all interleavings of concurrent calls, background refreshes, timers, failures and closes",
  "the test suite runs without the race detector and calls nothing concurrently",
  ["broker.go", "brokers.go", "producer.go", "simple_producer.go", "simple_consumer.go", "consumer.go", "group_consumer.go", "client.go"], [("shared handles and their locks", "broker.go, brokers.go"), ("batches and refreshes of a producer", "producer.go, simple_producer.go"), ("consumers and their partitions", "group_consumer.go, consumer.go, simple_consumer.go")],
  "runtime monitor: Go race detector over stress workloads that share every component between goroutines, with injected faults, and over the workloads of the other properties",
  "A consumer is configured by one goroutine; what the documentation does not offer for sharing is not shared.")
P("C21", "Close leaves nothing behind",
  "When Close, Stop or AwaitClose of a component has returned, or its creation has failed, all its connections are soon closed and all its goroutines ended, whatever it was doing: idle, in the middle of calls, with undelivered messages and nobody receiving, while brokers fail or leaders move. Closing returns, may be repeated, also at the same time, "
  "and a call on a closed component neither crashes nor blocks and leaves nothing behind either.",
  ["schedules", "histories", "crash_points"], "all moments of closing, in all components, with faults at the same time, and all points at which a creation fails",
  "no test looks at goroutines or connections after Close",
  ["producer.go", "simple_producer.go", "consumer.go", "simple_consumer.go", "group_consumer.go", "brokers.go", "broker.go", "client.go"], [("closing", "Close, Stop and AwaitClose of each component"), ("failed creation", "New functions of each component")],
  "runtime monitor: a census of the goroutines and of the connections at the brokers after each close, over generated scenarios of work, faults and failing creations",
  "Soon: within 30 s (90 s when repeated alone).")
P("C26", "A broker that stops responding cannot block the client forever",
  "If a broker keeps its connections open but does not answer, does not even read, or stops in the middle of an answer, calls return (with an error if need be) after the configured timeouts, creating and closing a component returns too, and when the broker responds again, be it only on new connections, the component goes on working without being recreated.",
  ["fault_sequences", "schedules", "configurations"], "all moments at which any of the brokers stops responding, in each of the three ways, for all components",
  "the tests have no broker that is silent",
  ["broker.go", "brokers.go", "simple_producer.go", "producer.go", "simple_consumer.go", "group_consumer.go", "config.go"], [("deadlines of requests and answers", "broker.go: requestStreamingly, readPacket, createConnAndAuth, newConn"), ("recovery", "brokers.go, simple_consumer.go, producer.go")],
  "runtime monitor: brokers that freeze silently, without reading, or within an answer, at generated moments; hang watchdog and work check after they respond again",
  "The limits are generous: 50 s with timeouts of 60 to 160 ms (5.4 s for joining a group).")
P("C22", "Inquiry commands and HTTP calls report the true state of the cluster",
  "Each inquiry of the command line tool and of the HTTP API (metadata, offsets, pending messages, groups, configurations, log directories, ACLs, partition reassignments) asks the brokers responsible for exactly what its arguments name, and prints exactly what these brokers hold, in the documented form, for all names, numbers and spellings of the arguments. "
  "If a broker answers with an error, does not answer or is down, the exit code or HTTP status, or an error code in the output, says so. Arguments that make no sense are refused without a request. No input makes the tool or the server crash, and the server keeps no connection to the brokers once it has answered.",
  ["inputs", "configurations", "fault_sequences"], "all cluster states, arguments, spellings and broker errors",
  "no test runs a command or an HTTP handler against brokers",
  ["command/healer/cmd/get-metadata.go", "command/healer/cmd/get-offsets.go", "command/healer/cmd/get-pending.go", "command/healer/cmd/list-groups.go", "command/healer/cmd/describe-groups.go", "command/healer/cmd/describe-configs.go", "command/healer/cmd/describe-logdirs.go", "command/healer/cmd/describe-acls.go", "command/healer/cmd/list-partition-reassignments.go", "command/healer/cmd/api.go", "command/healer/cmd/apicontrollers"],
  [("commands", "command/healer/cmd/*.go: RunE of each inquiry command"), ("HTTP handlers", "command/healer/cmd/apicontrollers/*.go")],
  "runtime monitor: the real binary and HTTP server run against clusters with generated content and faults; oracle compares output, exit code or status, and the requests seen by each broker with the cluster state",
  "The lag of partitions without a committed offset is not judged, nor is describe-logdirs while brokers are down.")
P("C24", "Changing commands and HTTP calls send exactly the change that was asked for",
  "Each changing operation of the command line tool and of the HTTP API (topics, partitions, replicas, configurations, group deletion, offset reset, ACLs, leader elections, reassignments) sends exactly one change, to the responsible broker, that carries exactly the names, numbers and options given, nothing more and nothing less. "
  "It reports success only if the broker accepted it; otherwise the exit code, the HTTP status or an error code in the output says so. Arguments that make no sense or cannot be read are refused without any change being sent. The server keeps no connection to the brokers once it has answered.",
  ["inputs", "configurations", "fault_sequences"], "all arguments, spellings and orders of them, cluster layouts and broker errors",
  "no test runs a command or an HTTP handler against brokers",
  ["command/healer/cmd/create-topic.go", "command/healer/cmd/delete-topics.go", "command/healer/cmd/create-partitions.go", "command/healer/cmd/alter-configs.go", "command/healer/cmd/delete-groups.go", "command/healer/cmd/reset-offset.go", "command/healer/cmd/create-acls.go", "command/healer/cmd/delete-acls.go", "command/healer/cmd/elect-leaders.go", "command/healer/cmd/alter-partition-assignments.go", "command/healer/cmd/apicontrollers"],
  [("commands", "command/healer/cmd/*.go: RunE of each changing command"), ("HTTP handlers", "command/healer/cmd/apicontrollers/*.go"), ("ACL spellings", "acl_types.go: UnmarshalText")],
  "runtime monitor: the real binary and HTTP server run with generated and malformed arguments; every changing request seen by the brokers is compared with the arguments, and exit code or status with the broker's answer",
  "delete-groups sends one request per coordinator. Requests that are cut off may be sent again.")
P("C25", "The HTTP API serves only requests that carry the configured credentials",
  "If the HTTP API is started with credentials, a request that does not carry exactly this user and password is answered with 401 and reaches no broker, whatever its method, path and headers; a request that carries them is served. With get-allowed, GET, HEAD and OPTIONS need no credentials and all other methods still do. "
  "Credentials that are malformed keep the server from starting, and a server that cannot listen on its address says so by its exit code. With cors the headers are set and OPTIONS is answered.",
  ["inputs", "configurations"], "all credentials, headers, methods and paths",
  "no test starts the server",
  ["command/healer/cmd/api.go"], [("authentication", "command/healer/cmd/api.go: BasicAuth and its registration before the routes")],
  "runtime monitor: real servers with different credentials get requests with generated headers; oracle on the status and on connections that reach the brokers",
  "Lower case 'basic' and garbage after a valid token are not judged.")
P("C27", "Console producers and consumers are faithful pipes",
  "console-producer and simple-producer write exactly the lines of the standard input, in order, without key, to the topic (and partition) given, and exit with 0 only if all lines that were still waiting when the input ended, or filled a batch, were accepted by the broker. simple-consumer, console-consumer and group-consumer print exactly the messages of their partitions, in order, from the offset asked for, up to max-messages or stopoffset, in the text or JSON form asked for. "
  "Successive group-consumer runs, ended by their limit or by an interrupt, together print every message exactly once; none is committed that was not printed, and each has left its group at its end. Arguments or configurations that cannot be read are refused with a non-zero exit code.",
  ["inputs", "configurations", "histories", "fault_sequences"], "all inputs, log contents, options, broker faults and moments of interruption",
  "no test runs these commands",
  ["command/healer/cmd/console-producer.go", "command/healer/cmd/simple-producer.go", "command/healer/cmd/console-consumer.go", "command/healer/cmd/simple-consumer.go", "command/healer/cmd/group-consumer.go", "producer.go", "simple_producer.go", "simple_consumer.go", "group_consumer.go"],
  [("commands", "command/healer/cmd: RunE of the five console commands")],
  "runtime monitor: the real binary run as a pipe against brokers with generated logs and injected faults; oracle compares input, output, exit codes, broker logs and committed offsets",
  "Lines end with a line feed; a carriage return before it is not judged. Batches flushed by the timer in the background are only judged when the brokers accept them.")
P("C28", "Producers and consumer groups follow their topic while leaders move and vanish",
  "When leaders of a topic's partitions move, also to brokers that joined later, brokers that lead nothing stop, brokers restart, or partitions are added, a producer follows within its metadata age without being recreated: sends succeed again, with keys are spread over all partitions including new ones, and one reported as successful is stored exactly once; meanwhile sends to partitions that did not change do not fail. "
  "A partition without a leader (reported as such in the metadata) keeps neither the creation nor the work of a producer or of a consumer group from going on with the other partitions: only messages whose key belongs to it are refused, messages without key go to partitions that have a leader, and members can join and leave and consume the others; it is used again when it has a leader. While metadata requests fail, sends to leaders that are known go on.",
  ["histories", "fault_sequences", "schedules"], "all histories of leader moves, lost leaders, added partitions and brokers, restarts and failing refreshes under a producer or a group",
  "the tests have one fixed metadata answer",
  ["producer.go", "simple_producer.go", "brokers.go", "metadata_response.go", "group_consumer.go"], [("refresh of the producer", "producer.go: updateCurrentSimpleProducer, getSimpleProducer, getLeaderID"), ("leader lookup", "brokers.go: findLeader, NewBroker"), ("metadata for the assignment", "group_consumer.go: getTopicPartitionInfo")],
  "runtime monitor: generated histories of changes of a topic under producers with concurrent callers and under consumer groups; oracle on the outcome of every send after a full refresh, on the stored logs and on the delivered messages",
  "At least one bootstrap address is up. Consume of a Consumer (without a group) waits until every partition has a leader; this is not judged.")
