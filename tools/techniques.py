# property -> (deciding technique, what the verdict is relative to)
TECH = {
"P01": ("value-flow analysis over SSA of every encoder/decoder pair and JSON method, composed through the JSON field tags",
        "complete over all message kinds and fields; encoding/json itself and hex/base64 are trusted as inverse pairs"),
"P02": ("constant enumeration over the type-checked program plus must-fact dataflow on each decoder and encoder",
        "complete over all message kinds found through CreateFCRMessage call sites"),
"P03": ("cross-module table join over the type-checked program: registration calls, dispatchers, handlers, requesters and variadic request call sites read from SSA and matched by message type",
        "complete over all registrations and all request call sites; the run-time sequence of registrations (main before listening) is not modelled"),
"P04": ("value-flow and backward-slice analysis over SSA of the sign, verify, digest and canonical-form functions, with must-fact dataflow on every success exit",
        "complete over all paths of the signing and verifying functions; the cryptographic primitives and encoding/json are trusted"),
"P05": ("interprocedural must-fact dataflow on the inlined SSA control-flow graph of every peer handler",
        "complete over all paths of all peer handlers, relative to the effect table and the sender/key provenance rules; message contents and the cryptography itself are not modelled"),
"P30": ("must-fact dataflow and value-flow analysis over SSA of the identifier constructors and comparisons",
        "complete over all constructors of the identifier types; array/slice length facts only"),
"P06": ("interprocedural must-fact dataflow on the inlined SSA control-flow graph of every sender and every receiver of a protocol message",
        "complete over all send and receive sites of gateway, provider and the client and admin libraries, relative to the sender/key provenance rules"),
"P07": ("interprocedural must-fact dataflow: on every success exit of a requester each value carried by the request equals its echo in the answer",
        "complete over all requesters whose request and answer kinds share a field; the equality facts come from comparisons in the source"),
"P08": ("interprocedural must-fact dataflow on the inlined SSA control-flow graph, with facts about all elements of a list derived from complete loops",
        "complete over all sites storing a received offer and all uses of a positive acknowledgement in the gateway"),
"P09": ("interprocedural must-fact dataflow plus a construction walk over every collection a client search returns",
        "complete over all construction sites of the results of exported search functions; signature and proof checks themselves are P04/P38"),
"P10": ("interprocedural must-fact dataflow (time comparisons as order facts) over SSA of every handler with a time to live and every offer lookup, with inspection of the constant SQL texts",
        "complete over all handlers whose request kind carries a ttl and all exported lookups of both offer stores; the clock itself is trusted and SQL texts are matched against accepted forms of the expiry condition"),
"P11": ("interprocedural must-fact dataflow on each paid handler with path-wise tracing of every list in the answer, and a backward data slice of the price",
        "complete over all answers of the six paid request kinds; the payment manager's verdict is trusted here (P12)"),
"P16": ("path-sensitive lock-set dataflow on the inlined SSA control-flow graph, plus the project-wide acquired-while-held relation between lock classes",
        "complete over all functions that lock, all feasible paths by branch conditions evaluated twice; locks are identified by type and field, instances by the syntactic object path"),
"P12": ("path-sensitive lock-set and must-fact dataflow with a stale-decision (check-then-act) analysis on the inlined SSA control-flow graph of the payment manager",
        "complete over all paths of the payment manager's exported operations and all writes to its tables; the actor code, time locks and merges of a voucher are not modelled"),
"P14": ("path-sensitive lock-set dataflow and typestate on the inlined SSA control-flow graph of the in-memory offer store, with guard inference for its fields",
        "complete over all paths of the store's operations and all accesses to its tables; which lock protects which table is inferred from the majority of accesses"),
"P15": ("path-sensitive lock-set dataflow and typestate on the inlined SSA control-flow graph of the register manager and the ring, with guard inference and check-then-act analysis",
        "complete over all paths and accesses of the register manager; blocking of the refresh channel is not modelled"),
"P17": ("guard inference over SSA: every access to a mutable shared field or package variable is joined with the path-sensitive lock set held there, in all callers up to the goroutine roots",
        "complete over all accesses to fields of types reachable from concurrent requests and to package variables; a field is shared if its owner is reachable from a package variable, a handler or a goroutine"),
"P18": ("interprocedural nil, bounds and type-assertion analysis on SSA: must-fact dataflow with order facts between lengths and indexes, path splitting at merges, and summaries of which results may be nil or empty",
        "complete over every dereference, index, slice, assertion, division, allocation and explicit panic reachable from the entry points fed by the network; the stores' own explicit panics (P14, P24), key generation and the payment library internals are opaque"),
"P19": ("value-flow analysis of length prefixes, buffers and byte layouts over the inlined SSA control-flow graph of every sender and receiver, with bounds and must-fact dataflow on their reads, writes and deadlines, and a typestate of the stream over every user of a peer connection",
        "complete over all senders, receivers, handlers, requesters and server loops of gateway and provider; the net, io and bufio packages are trusted"),
"P20": ("path-sensitive lock-set and typestate dataflow over every exchange, forked into its failing and its succeeding outcome, on the inlined SSA control-flow graph of the peer server",
        "complete over all paths of all operations that run an exchange on a pooled connection; blocking and time limits are not modelled"),
"P21": ("interval facts on every way a written value is computed, must-fact dataflow, guard inference and check-then-act analysis on the SSA of the reputation store",
        "complete over all writes to the reputation tables from all exported operations; events of the same client are constants"),
"P23": ("backward provenance analysis over SSA of the whole program for nonces, challenges, key readers and generator state, path analysis of the generator's digests, and must-fact dataflow for generator errors",
        "complete over all request encoders called, all key generations and both generators; whether HMAC-DRBG and the digest construction are cryptographically sound is assumed"),
"P24": ("must-fact dataflow over the inlined SSA control-flow graph of every handler, provenance of the installed values and path analysis between installations, refusals and exits",
        "complete over all registered handlers of gateway and provider; races between initialisation and other requests are P17's (known findings there)"),
"P26": ("value-flow analysis from configuration variables to settings on the SSA of the code that builds them, path-sensitive in the outcome of each parse, and provenance of the arguments of every component the start-up code makes",
        "complete over all settings, builders, getters and component constructions; the meaning of a variable is its mapstructure tag; viper, zerolog and lumberjack are trusted"),
"P34": ("typestate of result sets, statements and transactions and must-fact dataflow of errors over SSA, a taint analysis of statement texts, and a column-by-column value-flow analysis through the parsed SQL texts",
        "complete over all statements and all exported operations of the store; SQL forms other than the accepted ones are reported, sqlite and database/sql are trusted; failures while the tables are created at start-up are outside"),
"P31": ("must-fact dataflow over the inlined SSA control-flow graph of every function that records, hands out, makes or accepts a proof of publication, with provenance of the recorded messages, keys and signatures",
        "complete over all writes to the provider's tables of proofs and holdings, all answers, all acknowledgements gateways make and all client functions that ask for proofs; nonces of acknowledgements are not compared (the signature covers the whole publication)"),
"P25": ("typestate analysis over the inlined SSA control-flow graph of every register handler: answers followed through merges and helper results, store commands matched by table, key and value, and errors required to be nil on every way to a success answer; table comparison of the generated routing, binding and model code with the API description",
        "complete over all operations of the generated API; Redis, go-redis, encoding/json, swag and the go-openapi runtime's routing are trusted; validation of registrations is not part of the property"),
"P13": ("interprocedural ownership and escape analysis of *big.Int values over SSA: the origins of every written operand, of every copy by value and of every amount kept in or leaving the ledger",
        "complete over all calls that write to a big.Int, all copies of one by value and all uses of the ledger's fields in the six modules; outside libraries are assumed to keep no amount they are given and to write only to amounts whose methods say so"),
"P29": ("interprocedural escape and mutation analysis of every object that outlives a loop iteration (variables, lists, tables, structures, captured variables) over SSA: keeping and changing one in a common cycle is an alarm; simultaneous walk over the growth of parallel lists",
        "complete over all loops of the seven modules and all message kinds with parallel lists; the memory of library calls is assumed not to be kept, changes made outside the loop are not part of the property"),
"P28": ("path-sensitive dataflow over SSA: for every call that can fail, all ways on from it with its error known to be non-nil (or its refusal flag known) are walked and matched against what counts as reporting success",
        "complete over all calls with an error result in the seven modules (generated register code and scripts excepted), one function at a time: callers are judged at their own calls; functions that cannot fail are found by summary; writing the final HTTP answer, closing and hashing are taken not to matter"),
"P27": ("interprocedural control-flow graph per exported function that makes an HTTP exchange, with must-facts: reachability of success exits per status code, close-on-all-paths typestate, value provenance of what is handed on, constant tracing of method, address, content type and time limit",
        "complete over all HTTP exchanges of the seven modules; net/http, encoding/json and the routing of go-json-rest are trusted; expressions of the status other than comparisons, quotients, remainders and differences with constants are reported as undecided"),
"P22": ("interprocedural taint propagation over the SSA form of all modules: labels for secrets and for parameters, field-based for structs, object-based for messages, function summaries instantiated at calls; logs, outputs, error texts, answers, messages, files and databases are the sinks",
        "complete over the code of the modules; a secret is known by the field, parameter, variable, generator or message it arises in; numbers other than characters and single bytes at a fixed place are not followed; formatting follows the fields a value of the type shows; other libraries hand on what a list of text, encoding and container packages is given"),
"P35": ("interprocedural value-flow analysis on the inlined SSA control-flow graph of every handler: each echoed, looked-up or forwarded value is traced over all ways to the decoder results of the request, named by the wire field they carry, with must-facts of each way for what the answer claims",
        "complete over all registered handlers of gateway and provider, all their answers and all their lookups in the tables of stores; results of the stores themselves (P14, P21, P34) are trusted, and fields of listed elements are not followed"),
"P40": ("must-fact dataflow over the inlined SSA control-flow graph of every function that sends a paid request: voucher and channel are traced back over all ways to the payments they stem from with the facts of each way, recipient and amount of those payments by provenance and backward slice, reuse by reachability between requests",
        "complete over all requests of the client library and the gateway that carry a voucher; the payment manager's own bookkeeping is P12; prices are recognised by the names of the settings"),
}
