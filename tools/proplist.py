# (id, title, statement, over, quantifier text, why tests cannot, files, [(mechanism, where)], ...)
M = "common/pkg/fcrmessages/"
GA = "gateway/internal/api/"
PA = "provider/internal/api/"

prop("P01", "Protocol message fields survive encoding and decoding",
 "Every value a caller passes when building a protocol message reaches the wire, and the matching decoder returns that same value, in the same position, from what it received. No field is dropped, swapped with another, replaced by a constant or transformed by only one of the two sides, and what the decoder returns is taken from the message it was given.",
 ["inputs"], "all protocol message kinds, all field values",
 "The unit tests encode and decode one or two sample values per kind, often with equal or zero fields, so a swap, a drop or a constant in any of the ~50 kinds stays invisible.",
 [M], [("one encoder and one decoder per message kind around a JSON body struct", M+"*.go")])

prop("P02", "Message kinds are distinct and decoders refuse foreign kinds",
 "No two kinds of protocol message share a wire type number. A decoder only succeeds on a message of the kind it decodes, and an encoder only produces messages of its own kind, stamped with the currently configured protocol version and supported versions.",
 ["inputs"], "all messages of all kinds, at every decoder",
 "Tests feed each decoder its own kind, and one foreign kind at best; the pairwise condition over all kinds is never enumerated.",
 [M+"type.go", M], [("type constants", M+"type.go"), ("type check at the top of every decoder", M+"*.go")])

prop("P03", "Requests reach the handler and requester written for them",
 "For every request kind a node listens for, the code run is the one that decodes that kind and it answers with the response kind which the requesting side decodes; for every request a node issues, the number and the types of the arguments handed to the requester are the ones it takes apart. Registering, dispatching and calling agree for all kinds.",
 ["inputs", "programs"], "all registered handlers, all requesters, all request call sites",
 "The dispatch is by number and by untyped argument lists, so a mismatch compiles; unit tests exercise single handlers with mocks and never the registration tables.",
 ["gateway/cmd/gateway/main.go", "provider/cmd/provider/main.go", "common/pkg/fcrp2pserver/server.go", "common/pkg/fcrrestserver/server.go", "client/pkg/api/clientapi", "gateway-admin/pkg/api/adminapi", "provider-admin/pkg/api/adminapi"],
 [("AddHandler / AddRequester tables", "gateway/cmd/gateway/main.go, provider/cmd/provider/main.go"), ("dispatch by message type", "common/pkg/fcrp2pserver/server.go, common/pkg/fcrrestserver/server.go")])

prop("P04", "Signatures cover whole messages and offers; verifying means verified",
 "The signature of a message or of an offer is computed over all of its content except the signature itself, and verifying recomputes it over the same content, so that changing any signed field of a signed message or offer makes verification fail. Verification reports success only if the cryptographic comparison with the given key succeeded, and leaves the object it verified unchanged when it succeeds.",
 ["inputs"], "all messages, offers and sub-offers, all keys",
 "Tests verify one honest object and one with a broken signature; they do not alter every field in turn.",
 [M+"fcrmessage.go", "common/pkg/cidoffer", "common/pkg/fcrcrypto/msg_signing.go", "common/pkg/fcrcrypto/keypair_retrieval.go"],
 [("Sign / Verify over the JSON of the whole message", M+"fcrmessage.go"), ("offer digest and signature", "common/pkg/cidoffer")])

prop("P05", "Peer requests are acted on only after authentication",
 "A gateway or provider changes its state, answers with stored data, or contacts others on behalf of a request received on a peer connection only after the request's signature was verified successfully with the key that the register holds for the node which the request names as its sender (and, for a provider or gateway identity, only if that node is registered).",
 ["inputs", "histories"], "all peer requests, all paths through all peer handlers",
 "No unit test drives the peer handlers with forged, re-attributed or unsigned requests; the integration tests only use honest peers.",
 [GA+"gatewayapi", GA+"providerapi", PA+"gatewayapi"],
 [("Verify in each peer handler", GA+"gatewayapi/*.go, "+GA+"providerapi/*.go, "+PA+"gatewayapi/*.go")])

prop("P06", "What is sent is signed, what is used was verified",
 "Every protocol message that a gateway or provider sends, as a request to a peer or as an answer carrying data, is signed with its own retrieval key first. Every answer that a node or a client or admin library receives is verified with the key belonging to the peer it was requested from before any of its content is used or returned to the caller as a success.",
 ["inputs", "histories"], "all answers, all paths through all requesters and handlers",
 "Unit tests mock the transport with correctly signed answers, never with a wrong or absent signature at every requester.",
 [GA, PA, "client/pkg/api/clientapi", "gateway-admin/pkg/api/adminapi", "provider-admin/pkg/api/adminapi"],
 [("Sign before Write / Verify after Read", "all handlers and requesters")])

prop("P07", "An answer is accepted only for the request it belongs to",
 "A requester of the client library that sends a request carrying a nonce, a content identifier, a challenge or the identifier of the gateway asked about reports success only if the answer echoes that same value; where the answer names the node that answers, it is the node asked.",
 ["inputs", "histories"], "all answers, including replays of earlier ones",
 "Tests replay no answers; a mocked transport answers the request it was made for.",
 ["client/pkg/api/clientapi", GA+"gatewayapi", PA+"providerapi"],
 [("nonce / content identifier / challenge comparison after decoding", "requesters")])

prop("P08", "Only provider-signed offers enter a gateway, acknowledged after storing",
 "A gateway stores an offer received from the network only after verifying the offer's own signature with the key registered for the provider which the offer names. It sends a positive acknowledgement for published offers only if every one of them passed that check and was stored.",
 ["inputs", "histories", "fault_sequences"], "all published or listed offers, all failures of verification and of storing",
 "Tests publish valid offers only, and the acknowledgement is never checked against a storage failure.",
 [GA+"providerapi", GA+"gatewayapi/list_dht_offer_requester.go"],
 [("offer.Verify before AddGroupOffer / AddDHTOffer", GA+"providerapi/*.go, "+GA+"gatewayapi/list_dht_offer_requester.go")])

prop("P09", "A client returns only offers it has verified",
 "Every offer that a client's search returns to its caller had its provider signature verified with the key registered for the provider it names, and its inclusion proof verified for the content identifier that was asked for.",
 ["inputs", "histories"], "all offers in all answers of all gateways",
 "Tests use one honest gateway; mixed answers with one forged offer among good ones are never built.",
 ["client/pkg/fcrclient/filecoin_retrieval_client.go"],
 [("Verify and VerifyMerkleProof loop before returning", "client/pkg/fcrclient/filecoin_retrieval_client.go")])

prop("P10", "Expired requests and expired offers are never served",
 "A gateway answers a discovery request that carries a time to live only if that time has not passed. An offer that has expired is never handed out by the offer store.",
 ["inputs", "histories"], "all times to live and expiry dates, all request histories",
 "Tests use offers and requests that are far from expiring.",
 [GA+"clientapi", GA+"gatewayapi", "common/pkg/fcroffermgr"],
 [("TTL comparison at the top of handlers", GA), ("HasExpired filter in every lookup", "common/pkg/fcroffermgr/offer_manager.go")])

prop("P11", "No paid answer without sufficient payment",
 "A gateway includes the result of a paid search (offer digests, offers or other gateways' answers; second version of the discovery requests and all offer requests) in its answer only if the payment received with the channel and voucher named in the request covers the configured price times the quantity requested, without an error from the payment system; otherwise it answers with an error or only that payment is required.",
 ["inputs", "histories"], "all vouchers, channels and request sizes, all failures of the payment manager",
 "No unit test runs a paid handler: they need a payment manager and a chain.",
 [GA+"clientapi", GA+"gatewayapi"],
 [("PaymentMgr.Receive compared with the price", GA+"clientapi/*_v2.go, "+GA+"gatewayapi/*_v2.go, *_discover_offer_handler.go")])

prop("P12", "Payment channel accounting is atomic and follows validation",
 "A voucher increases the amount credited to a channel only after the voucher and the channel were validated, and a voucher once credited is not credited again. Creating, topping up, paying and receiving on the same channel or recipient from several goroutines never loses or duplicates an update: the decision and the update it justifies happen in one critical section.",
 ["schedules", "inputs"], "all interleavings of payment operations, all vouchers",
 "The payment tests need a Lotus node and run no two operations concurrently.",
 ["common/pkg/fcrpaymentmgr/payment_manager.go"],
 [("locks around the channel tables", "common/pkg/fcrpaymentmgr/payment_manager.go")])

prop("P13", "Amounts owned by callers or configuration are never changed",
 "Computing a price, a topup or a payment never modifies an amount that the caller passed in, that belongs to the node's configuration, or that another component keeps; the ledger never shares its amounts with anyone outside it.",
 ["histories"], "all histories of requests and payments",
 "The effect only shows on a later request, when the configured price has silently grown; tests make one request.",
 ["common/pkg/fcrpaymentmgr", GA, "client/pkg/fcrclient"],
 [("fresh big.Int for every result", "common/pkg/fcrpaymentmgr, "+GA+", client/pkg/fcrclient")])

prop("P14", "The offer store loses and invents nothing under concurrency",
 "Adding, looking up and removing offers from several goroutines keeps the indexes of the offer store consistent with each other: the decision that an offer is new and its insertion into every index happen in one critical section, no index is read or written without its lock, and an offer that was refused leaves no trace in any index.",
 ["schedules", "histories"], "all interleavings of add, lookup and expiry",
 "The tests are sequential.",
 ["common/pkg/fcroffermgr"],
 [("RWMutex per table", "common/pkg/fcroffermgr/offer_storage.go, offer_manager.go")])

prop("P15", "Register manager and ring stay consistent under concurrency",
 "Lookups, refreshes and shutdown of the register manager may run concurrently: the tables of known gateways and providers and the ring of gateways are only read under the matching lock and only modified under its exclusive mode, and a gateway enters or leaves the table and the ring together.",
 ["schedules"], "all interleavings of refresh, lookup and shutdown",
 "The tests are sequential, one refresh each.",
 ["common/pkg/fcrregistermgr", "common/pkg/dhtring"],
 [("RWMutex per table", "common/pkg/fcrregistermgr/register_manager.go")])

prop("P16", "Locks are always released and never waited for by their holder",
 "On every path out of every function, including early error returns, each mutex acquired by that function is released exactly once; no goroutine acquires a mutex it already holds, and any two mutexes that are held together are acquired in one global order.",
 ["schedules", "inputs"], "all paths through all functions that lock, all interleavings",
 "A lock leaked on an error path only blocks the next caller; tests rarely take an error path twice.",
 ["common/pkg", "gateway/internal", "provider/internal", "client/pkg"],
 [("explicit Lock/Unlock pairs", "all modules")])

prop("P17", "State shared between goroutines is accessed under its lock",
 "Every mutable field or variable that concurrent requests share is only accessed while holding the lock that protects it, and only modified while holding it exclusively; data handed out to callers is a copy that later modifications do not touch.",
 ["schedules"], "all interleavings of concurrent requests",
 "The suite is not run under the race detector with concurrent requests, and races need a schedule to show.",
 ["common/pkg", "gateway/internal", "provider/internal", "client/pkg"],
 [("lock fields next to the data they protect", "all modules")])

prop("P18", "Malformed network input never crashes a node",
 "No byte sequence, message body, identifier, key, proof or list received from the network makes the receiving node or client panic: pointers that may be nil are checked before use, indexes taken from or compared with received data are within bounds, and unparseable fields are reported as errors by the decoder.",
 ["inputs"], "all received byte sequences and messages",
 "Tests decode well formed messages and a few hand-written malformed ones.",
 ["common/pkg/fcrmessages", "common/pkg/cid", "common/pkg/nodeid", "common/pkg/cidoffer", "common/pkg/fcrcrypto", "common/pkg/fcrmerkletree", "common/pkg/fcrp2pserver", GA, PA, "client/pkg"],
 [("error returns of decoders", "common/pkg"), ("nil checks in handlers", GA+", "+PA)])

prop("P19", "Peer framing is agreed, bounded and loses no bytes",
 "The sender and the receiver of a peer message agree on width, byte order and meaning of the length prefix; a receiver allocates no more than a fixed maximum for a message whatever length the peer announces; a message is written as one unit and read in full before it is handed on. Every read and write is limited by the time the caller allows, and a connection on which a message was left incomplete is not used again.",
 ["inputs", "fault_sequences"], "all announced lengths, all splittings and errors of the stream",
 "Tests send small messages over a local socket.",
 ["common/pkg/fcrp2pserver/tcp_comms.go", "common/pkg/fcrp2pserver/server_reader.go", "common/pkg/fcrp2pserver/server_writer.go"],
 [("length-prefixed frames", "common/pkg/fcrp2pserver/tcp_comms.go")])

prop("P20", "Peer connections are used by one exchange at a time",
 "A pooled peer connection is used only while its exchange lock is held, so that requests and answers of different exchanges never interleave on it; a connection on which an exchange failed is closed and removed from the pool before the lock is given up, and the pool hands out at most one connection per peer.",
 ["schedules", "fault_sequences"], "all interleavings of exchanges with the same peer, all transport errors",
 "Tests exchange one request at a time with healthy peers.",
 ["common/pkg/fcrp2pserver/pool.go", "common/pkg/fcrp2pserver/server.go"],
 [("comm.lock and pool lock", "common/pkg/fcrp2pserver")])

prop("P21", "Client reputation is bounded and updated atomically",
 "A client's reputation always lies between the fixed minimum and maximum, whatever sequence of events or administrator changes is applied to it, and concurrent updates of the same client are not lost. Establishing a client again does not reset its reputation.",
 ["histories", "schedules"], "all sequences and interleavings of reputation updates",
 "Tests apply a few updates sequentially.",
 ["gateway/internal/reputation"],
 [("reputation store with a lock", "gateway/internal/reputation")])

prop("P22", "Secrets never reach logs or unintended messages",
 "Private keys, wallet keys, access tokens and key material of the random generators are never written to a log, an error text or standard output, and never placed in a message other than the administrator's key initialisation.",
 ["inputs", "configurations"], "all executions, all log levels",
 "Nothing in the suite inspects what is logged.",
 ["gateway", "provider", "client", "gateway-admin", "provider-admin", "common/pkg/fcrcrypto"],
 [("logging calls", "all modules")])

prop("P23", "Security-relevant randomness is cryptographic",
 "Keys, challenges, nonces and other values that must be unpredictable are drawn from the cryptographic random generator; a non-cryptographic generator with guessable or constant seed is never their source, and errors of the generator are not ignored.",
 ["inputs", "histories"], "all generated values",
 "Predictability does not show in a unit test.",
 ["common/pkg/fcrcrypto", "common/pkg/challenge", "client/pkg", GA, PA],
 [("fcrcrypto PRNG", "common/pkg/fcrcrypto/prng*.go")])

prop("P24", "Nodes act only once initialised, and initialise all or nothing",
 "A gateway or provider that has not been given its keys refuses requests that need them instead of acting or crashing. The initialisation request installs the keys only after every part of it was decoded and validated, and an initialisation that reports failure leaves the node uninitialised.",
 ["histories", "inputs"], "all orders of initialisation and other requests, all invalid initialisation requests",
 "Tests initialise first and with valid keys.",
 [GA, PA], [("nil check of the retrieval key in each handler", GA+", "+PA)])

prop("P25", "The register stores and returns registrations faithfully",
 "A registration that was accepted is stored under its own node identifier in the table for its own kind and is returned unchanged by the lookup by identifier and by the listing of that kind; a listing holds every readable entry of the table once and nothing that could not be read, a deletion leaves none. An operation reports success only if the store operations it stands for succeeded, answers in the form of its own operation also when the store fails, and gives its connection to the store back. Field names, routes and the request's identifier and body survive the generated code unchanged.",
 ["inputs", "fault_sequences"], "all registrations, all failures of the store",
 "The register's handler tests need a Redis server and do not inject its failures.",
 ["register/internal/handlers", "register/restapi", "register/models"], [("Redis hash per kind", "register/internal/handlers/*.go"), ("handlers installed in configureAPI", "register/restapi/configure_register.go"), ("generated binding, responses and routes", "register/restapi/operations"), ("JSON names", "register/models, common/pkg/register")])

prop("P26", "Configuration reaches the setting it is named after",
 "Each setting of a gateway or provider is filled, on every way the settings are built, from the environment variable of its tag and from no other (advertised addresses: the node's address with the port of that interface). A duration or amount whose whole text is not a duration or number becomes the documented positive default, the same in both nodes, never zero or a prefix of the text; a number that does not fit its setting is reported. The start-up code gives register manager, servers and handlers the settings meant for them (register URL, refresh interval, listening addresses, time limits; client requests on the client address, admin requests on the admin address). A value given to a library's settings builder reaches the setting of that name and its getter, and only that; what is given to a library for a request, or for the initialisation of a node, is sent as the part of that name and meaning (a node gets the key meant for it, in a request signed with the administrator's own), and the payment manager uses the wallet key, Lotus address and token given for it; the logger and the register's database connection use the variables of the same meaning.",
 ["configurations", "inputs"], "all configurations (any text for each variable), all ways through the start-up code",
 "Tests load one configuration and check few fields; no test starts a node from a configuration.",
 ["gateway/config", "gateway/internal/util/settings", "provider/config", "provider/internal/util/settings", "gateway/cmd", "provider/cmd", "client/pkg/fcrclient/builder.go", "gateway-admin/pkg/fcrgatewayadmin/builder.go", "provider-admin/pkg/fcrprovideradmin/builder.go", "common/pkg/logging"],
 [("Map(conf) fills every setting", "gateway/config/config.go, provider/config/config.go"), ("components made in main()", "gateway/cmd/gateway/main.go, provider/cmd/provider/main.go"), ("SettingsBuilder", "*/builder.go")])

prop("P27", "HTTP exchanges are complete, checked and bounded",
 "A client-side HTTP exchange reports success only if the exchange took place, the answer is of a success (2xx) status and, where an answer is handed on, its whole body was read and decoded without error; what is handed on is the answer of this very exchange, never that of an earlier one, a part of it or the empty object left by a failed decoding. The body of every answer is closed on every way, and every exchange is bounded by a time limit. The request goes to the address given, with the method of the operation, the whole encoding of what was given and its content type, on a path the project's servers serve. A server hands a message to a handler (the one kept for its type and the address it came in by) only after the whole request was read and decoded without error.",
 ["inputs", "fault_sequences"], "all answers, statuses and transport errors",
 "Tests use a well-behaved local test server; no test cuts an answer off or counts open connections.",
 ["common/pkg/request/request.go", "common/pkg/fcrrestserver/server.go"], [("HttpCommunicator", "common/pkg/request/request.go"), ("msgRouter", "common/pkg/fcrrestserver/server.go")])

prop("P28", "Failures of storage, network and payment are never reported as success",
 "When an operation that a request, a start-up or a caller depends on (storing an offer, sending, reading, decoding or verifying a message, signing, encoding, paying, contacting the register) fails, no way the code goes on reports success: the failure is returned, or answered with a refusal, or the item it concerns is left out; it is never dropped so that the absent result is used, another operation's outcome is returned in its place, or the same is done as after success (except that one unreachable peer of several is logged and passed over, and that an operation may be tried again). A peer's answer that itself says no (not successful, not received, payment required) is not reported as success either.",
 ["fault_sequences"], "all failures of all fallible operations, all combinations of outcomes of the other operations of the function",
 "Tests inject almost no failures.",
 ["common/pkg", "gateway/internal", "provider/internal", "client/pkg", "gateway-admin/pkg", "provider-admin/pkg", "register/internal", "gateway/cmd", "provider/cmd"],
 [("error returns", "all modules"), ("flags of decoded answers", "*/api/*/*_requester.go")])

prop("P29", "Items kept or sent from a loop are each their own",
 "When a node processes a list and stores, sends, records or starts a goroutine for each element, what is kept for one element is that element and does not change when later elements are processed; lists sent or received together that describe the same items (a gateway and its answer, a content identifier and its price) describe them in the same order.",
 ["inputs", "schedules"], "all lists of two or more elements",
 "Most tests use lists of one element, where the aliasing cannot show.",
 ["common/pkg", "gateway/internal", "provider/internal", "client/pkg"],
 [("per-iteration copies", "all modules")])

prop("P30", "Identifiers are exactly 32 bytes and compare by value",
 "A node identifier or content identifier built from bytes, a hexadecimal string or JSON is accepted only with a length that yields exactly 32 bytes, keeps the bytes it was built from unchanged afterwards, and two identifiers are equal exactly if all their bytes are.",
 ["inputs"], "all byte strings and hexadecimal strings",
 "Tests use a handful of lengths.",
 ["common/pkg/cid", "common/pkg/nodeid"], [("length checks in constructors", "common/pkg/cid/cid.go, common/pkg/nodeid/nodeid.go")])

prop("P31", "A publication is recorded only with a verified, retrievable proof",
 "A provider records that a gateway holds its offers only after verifying the gateway's signature on an acknowledgement for exactly the offers it published to that gateway; it keeps what it recorded, and hands out to clients exactly the recorded acknowledgement and the request it acknowledges. A gateway's acknowledgement is signed by it and signs the publication it received, and a client reports a publication as proven only after verifying both messages, the signature over the publication, and that it is about the identifier asked for.",
 ["inputs", "histories"], "all acknowledgements, all publication histories",
 "Tests publish to no gateway that answers wrongly.",
 [PA+"providerapi", PA+"gatewayapi", PA+"clientapi"], [("acknowledgement map", "provider/internal/core, "+PA)])

prop("P33", "The DHT ring stays linked whatever is inserted and removed",
 "After any sequence of insertions and removals, walking the ring of gateways in either direction visits every inserted and not removed gateway exactly once, and insertion or removal of one gateway never makes another unreachable.",
 ["histories"], "all sequences of insertions and removals",
 "Tests run a few fixed sequences.",
 ["common/pkg/dhtring/dhtring.go"], [("doubly linked ring", "common/pkg/dhtring/dhtring.go")],
 na="heap-shape property of a circular doubly linked list whose insertion and removal positions depend on the numeric order of identifiers: no sound static argument available here (shape analysis over unbounded lists) decides it, and a structural proxy would freeze the present code")

prop("P34", "The SQL offer store returns exactly the offers it was given",
 "For every offer and every failure of the database: values never become part of the text of an SQL statement; every result set, prepared statement and transaction opened is closed, committed or rolled back on every path; an offer and all of its content identifiers are stored in one transaction, completely or not at all, and an operation reports success only if every step succeeded; every stored offer that has not expired is found under its digest, under each of its content identifiers and in every range (ends included) that contains one of them, and comes back with the provider, price, expiry, quality of service, signature and content identifiers (in their order) it was stored with; a result cut short by a failure is not returned as complete.",
 ["inputs", "fault_sequences"], "all offers, all failures of the database",
 "Tests insert a few offers (all with the same price and quality) in a healthy database and look at counts.",
 ["common/pkg/offermgr", "common/pkg/database"], [("insertion and lookups", "common/pkg/offermgr/offer_manager.go"), ("statement wrappers", "common/pkg/database/database.go")])

prop("P35", "Answers repeat the identifiers of their request and tell what was looked up",
 "In every answer of a gateway or provider, each identifier that the request carries too (nonce, content identifier, challenge, client or gateway identifier, payment channel) is the one of that request, and a node or provider identifier the node adds on its own account is its own. Offers, sub-offers, neighbours, reputations, published offers and acknowledgements are looked up by the identifiers, digests, ranges and counts which the request names, all of them and unchanged; offers made on an administrator's request carry the content identifiers, price, expiry and quality of service it names; and requests passed on to other nodes carry the content identifier, the nonce and the ends of the range they are made for. Whether something was found or exists, was refreshed, or what a reputation is, is answered as the lookup said it, and the lists of an answer are not cut short.",
 ["inputs", "histories"], "all requests of all kinds, all ways through all gateway and provider handlers",
 "The handlers have almost no unit tests, and the integration tests use group offers of few identifiers, ask for known content and look at lengths.",
 [GA, PA],
 [("answers encoded in the handlers", GA+", "+PA), ("lookups in the stores", "gateway/internal/reputation, common/pkg/offermgr, common/pkg/fcroffermgr, common/pkg/fcrregistermgr")])

prop("P36", "Nearest-gateway selection returns the true nearest",
 "For every identifier and every number n, the gateways returned as nearest are the n registered gateways with the smallest ring distance to it, each once.",
 ["inputs", "histories"], "all identifiers, all sets of gateways",
 "Tests sample a few rings.",
 ["common/pkg/dhtring", "common/pkg/math", "common/pkg/fcrregistermgr"], [("distance ordering", "common/pkg/dhtring/dhtring.go")],
 na="the result is an ordering of run-time 256-bit distances; no static argument in reach bounds it")

prop("P37", "Channel balances add up to the vouchers exchanged",
 "The amount a channel reports as redeemed always equals the sum of the increments of the vouchers accepted on it and never exceeds its balance.",
 ["histories"], "all payment histories",
 "Tests need a chain and run a single payment.",
 ["common/pkg/fcrpaymentmgr"], [("channel state", "common/pkg/fcrpaymentmgr/payment_manager.go")],
 na="an arithmetic invariant over run-time big integers and the answers of an external Lotus node; the structural clauses (atomicity, validate before credit, no aliasing) are claimed in P12 and P13")

prop("P38", "Merkle inclusion proofs are sound and complete",
 "A proof generated for an element of an offer verifies against the offer's root, and no proof verifies for an element that is not in it.",
 ["inputs"], "all trees and elements",
 "Tests build a few trees.",
 ["common/pkg/fcrmerkletree"], [("merkle tree library", "common/pkg/fcrmerkletree")],
 na="a numeric property of hashing in an external library; that the verdict is consulted before an offer is used is claimed in P09, and that a malformed proof cannot crash the verifier in P18")

prop("P40", "A payment goes to the gateway asked, in the configured amount, and is used once",
 "A request that a client or gateway sends together with a payment carries the channel and the voucher of one and the same payment, which its payment manager made without an error and without asking for a topup. That payment was for the registered address of the gateway the request is sent to, and for exactly the configured price (search price for searches, offer price for offers) times the quantity that this request asks for. No voucher is sent with two requests. A topup is of the configured amount, for the recipient that is paid next. When the gateway answers that payment is required and the payment was already repeated, no success is reported.",
 ["inputs", "histories"], "all requests, quantities, prices, and answers of the gateways",
 "Paying needs a blockchain node, so no test reaches these lines with a payment manager at all.",
 ["client/pkg/fcrclient/filecoin_retrieval_client.go", GA+"clientapi"],
 [("Pay and topupAndPay before each request", "client/pkg/fcrclient/filecoin_retrieval_client.go"), ("one payment per gateway contacted", GA+"clientapi/dht_discover_handler_v2.go")])
