HEAD = r"""
# Design

(Generated by `tools/design.py` from `tools/design_notes.py`, `tools/proplist.py`, `tools/techniques.py`, `known_findings.txt`
and the last evidence files. Edit those, not this file.)

## 1. What is checked, and with what

fc-retrieval is a set of Go programs (gateway, provider, register, and the client / gateway-admin / provider-admin libraries, all
on top of `common`). The guarantees it exists to provide are protocol guarantees: messages are what they say and come from whom
they say, offers are the ones a provider signed, an answer was paid for, a payment is not lost or taken twice, what was published
can be proven, and the nodes keep doing this under concurrency, malformed input and failure. `properties.jsonl` states them, one
property per guarantee; each quantifies over all inputs, interleavings, histories or failures.

All checks are one program, `checker/` (Go, about 33 000 lines, golang.org/x/tools vendored so that it builds offline; `setup.sh`
builds it into `bin/`). On every run it type-checks every module of `/repo` from the current source, builds SSA, and decides the
one property it is asked for: `./run.sh P16`, or `bin/fcrcheck -prop P16 -v` to see every obligation. No code of /repo is run,
no path is handed to a solver. It prints the constructs (function, call site, field, ...) that violate the property and the rule
they violate, writes `replay/<id>.json` with the same list, and `evidence/<id>.json` with the obligations, the rules and samples.
A run takes 1 to 13 s (measured wall time is in each evidence file), so quick and thorough command are the same: the analyses are
exhaustive within their bounds, there is nothing more to explore with more time.

### The shared machinery

* **Inlined control-flow graph** (`graph.go`). An entry point and the project functions it calls (up to a limit, recursion cut,
  interface calls resolved by type, closures, deferred calls and goroutines) become one graph, in which a helper's code appears
  once per call. This makes the analyses indifferent to extracting or inlining a helper.
* **Must-facts** (`gate.go`, `guards.go`). Forward dataflow over sets of facts (call succeeded, value equals/orders to another,
  value is nil / non-nil, all elements of a list satisfy a fact after a complete loop), met at joins, with path splitting where
  facts depend on flags or on several return values. A property such as "stored only after Verify succeeded with the registered
  key" is a required fact at each store.
* **Value provenance** (`graph.go`, `structval.go`, `ident.go`). Backward over SSA, fields, merges, list growth and helper results:
  where a value comes from, on which ways, with which transformations.
* **Lock sets and critical sections** (`locks.go`, `atomic.go`). Path-sensitive propagation of held mutexes (mode, place of
  acquisition, instance), guard inference by majority, acquired-while-held relation, and a check-then-act analysis: an update may
  rest (by data or control dependence) only on what was read in its own critical section.
* **Typestate** (`crash.go`, `sqlrules.go`, `httprules.go`, ...). Resources opened and closed, streams left in step, transactions.
* **Taint** (`secretrules.go`) and **escape/ownership** (`amountrules.go`, `looprules.go`) with function summaries.

### How a verdict is kept honest

* *Anchors fail loudly.* Every check knows the minimum number of instances each rule must have found (`instance_floors` in the
  evidence). A rule that finds fewer (the construct it is about has disappeared or is not recognised any more) is a violation
  `undecided: ...`, not silence. The floors are below the present numbers, so that removing one handler is no alarm.
* *Judging behaviour, not spelling.* Rules name no lines and as few functions as possible: they start from types, from message
  kinds, from library calls with an effect (sql, net, net/http, io, redis, big.Int, crypto, go-state-types) and from what flows
  where. `tools/refactor/*.py` are scripted behaviour-preserving edits of /repo (helpers extracted and inlined, statements
  reordered, loops rewritten, conditions negated, early returns, closures, renamed variables and functions, defer for explicit
  unlock, switch for if chains, ...). All of them leave all checks quiet. Each false alarm they produced was repaired in
  the machinery (section 4).
* *Sensitivity.* `tools/mutants/*.sh` are several hundred one-off mutants written per property during development (run in a
  scratch copy; the counts that matter are in each section), and `seeded/` holds planted bugs with demonstrations.
* Known findings are keyed by rule and construct; any other construct or rule still raises an alarm.

### Trust

The Go type checker and x/tools/go/ssa; the standard library and outside libraries (net, net/http, encoding/json, database/sql,
sqlite, go-redis, go-openapi, go-json-rest, viper, zerolog, the Filecoin actor library and Lotus) do what they document.
Reflection and `unsafe` are not modelled (the modules use neither outside of generated code). Cryptographic primitives are
assumed sound. Go 1.16 semantics of loop variables are used (that is what the go.mod files ask for).

## 2. Commands

`./setup.sh` builds the checker; `./run.sh <id>` runs one check; `tools/runall.sh` runs all claimed ones;
`tools/regress.sh` rebuilds /repo and compares its tests with the baseline; `tools/props.py` regenerates `properties.jsonl` and
`MANIFEST.json`; `tools/mkseed.py SPEC` makes a planted bug from a specification in `tools/seedspecs`; `tools/demos.sh` runs all
demonstrations. There are no hooks in /repo: all commits there are `fix:` commits.
"""

NOTES = {
"P01": r"""
*Oracle:* the codec itself: decoder after encoder must be the identity on every parameter. Transformations are matched against their
inverses (hex, base64, `ToString`/constructor, list maps); anything else on the way is an alarm. Widths are checked (a narrowing
conversion is not lossless).
""",
"P02": r"""Two pairs of kinds share their numbers (205/206) and the repository's own tests fix both numbers: known findings. Other pairs still alarm.""",
"P03": r"""The route tables of the REST listener server are judged like those of the P2P server: registration stores under the address and kind, and the router looks up with the same two keys. Messages carried inside messages (contacted gateways' answers, publish requests and acknowledgements) are joined too: the kinds put into a wire field of a container, on all producing paths, against the decoder applied to what is taken out of that field, also through stored structures. *Limit:* that `main` registers before it listens is not modelled; nor is the run-time order of registrations.""",
"P04": r"""Every success exit of the offer's UnmarshalJSON has set identifiers, tree and root (helpers of the package are followed); the digest depends on the quality of service. 
*Oracle:* what is transmitted. Each field that a JSON form of the type transmits, except the signature, must appear unmodified (and not
narrowed) among the bytes handed to the signing primitive, or be bound to a signed field (a sub-offer's proof is bound by the root).
The library's own signing is followed too: what is signed is the digest that is verified, and a hash that is fed piece by piece must be fed every piece.
""",
"P05": r"""
*Effects* are: changes of node state, reads of the offer store, payments received, peers contacted, data sent. Refusals and errors are not.
HandleGatewayDHTOfferRequest names no sender, so it cannot authenticate without a change of the protocol: known finding.
""",
"P07": r"""The answerer named in an answer is compared with the one asked (`answerer-compared`).""",
"P06": r"""Messages collected in a list that is sent are signed one by one before they are added. Mutants: about 30, all caught. Messages forwarded inside other messages are checked at the place they are used.""",
"P09": r"""Collections are followed through appends, maps, index stores and helper results; each construction site is one obligation, so mixed answers with one forged offer are covered by the must-fact at the append itself.""",
"P10": r"""*Limit:* the clock is trusted; the condition on expiry in SQL texts must have one of the accepted forms.""",
"P11": r"""
Each list in an answer is followed over *all ways it can be built* (per predecessor edge of each merge, with the facts of that way).
The comparison must be `big.Int.Cmp` (or an equivalent order fact) of the amount received with a product that depends on the price
of this kind and on this request's quantity; a negative quantity must be excluded. Where the product can be written out as a polynomial
(constants, `big.Int` arithmetic, lengths, and sums accumulated in a loop over the list asked for), it must equal price times quantity:
a sum that is overwritten instead of added to, or that passes over an item, is reported. What cannot be written out is not judged here.
""",
"P12": r"""
*Limits:* time locks, secrets, extra data and merges of vouchers are not validated by the code and are outside the property; the actor code
is not checked; ID-form and robust-form addresses of one channel are taken as different addresses.
""",
"P13": r"""17 mutants caught; one not ("zero alias": handing out a pointer to a zero that is never changed).""",
"P14": r"""The lock that protects a table is inferred from the majority of accesses, then required of all.""",
"P15": r"""*Limit:* a refresh that races with a shutdown can block for ever on the refresh channel; blocking is not decided.""",
"P16": r"""Locks are identified by type and field, instances by the syntactic path of the object; conditions of branches evaluated twice on a path are taken as equal.""",
"P17": r"""
The eight known findings are the fields of the two `Core` structures written by the key initialisation handlers while other requests may read
them; adding a lock would touch every handler.
""",
"P18": r"""
*Limits:* the stores' own explicit panics (they are P14's and P24's), key generation, the generator and the payment library's internals are
opaque; integer parameters of entry points are assumed not negative; 64-bit integers.
""",
"P19": r"""*Limits:* net, io and bufio are trusted; a bound of up to 1 GiB on a message is accepted; errors of buffered writes may be ignored if the flush is checked.""",
"P20": r"""*Limit:* blocking and time limits are not modelled. Private connections that were never pooled only need to be closed.""",
"P22": r"""
Secrets are recognised by the name of the field, parameter or variable they are kept in, by the type that carries them (KeyPair), by the state
of the generators and by the message that carries them. Messages are tracked per object. Not followed: numbers other than bytes and runes,
single bytes at a constant index (a version byte). About 35 mutants caught. That the generator's state equals its last output is a
weakness of its design and outside the property.
""",
"P23": r"""Whatever replaces the generator state is a digest that covers the previous state (judged in the exported callers of helpers), and each block of output is put where the previous one ended, up to the end of the caller's buffer. *Limits:* a dummy message that is only embedded into another one may carry the constant nonce 0; forwarded nonces are accepted; soundness of HMAC-DRBG is assumed.""",
"P24": r"""*Limits:* races between initialisation and requests are P17's known findings; requesters rely on the checks of their callers.""",
"P25": r"""47 mutants caught; reverting each of the four repairs is reported (3/2/3/8). Every handler of one kind of registration uses one database (rule `one-store`). Entries that cannot be decoded may be skipped by listings.""",
"P26": r"""Also decided: the arguments the client library makes requests with are those of the caller (`request-argument`) and the payment node address and token are not exchanged (`payment-node`). The meaning of a variable is its mapstructure tag. Negative amounts and configured zero or negative durations are accepted (the texts *are* numbers and durations).""",
"P27": r"""A client's time limit of up to one hour is accepted. About 31 mutants caught; reverting 46ccd1c is reported (3).""",
"P28": r"""
*Not failures for this purpose:* closing, writing the final HTTP answer, writes to hashes and buffers, logging, `os.Hostname`, `os.MkdirAll`,
encoding plain data as JSON, PRAGMA statements, one of several peers that cannot be reached, retries, and a verification that is tried again with
another key. Functions that cannot fail are found by summary. About 26 mutants caught; reverts of the six repairs are all reported.
""",
"P29": r"""Parts cut off a list in a loop meet: where one part ends the next begins. *Limits:* changes made outside the loop and items sent twice are not covered. About 27 mutants caught (also lists that grow at opposite ends); a deferred call in a callee ends with it and keeps nothing; reverts of both repairs reported.""",
"P31": r"""The text a digest is decoded from and encoded to is the same encoding on both sides (`digest-text`). About 57 mutants, all but one caught (the outer signature of an acknowledgement list, which P06 covers). Nonces of acknowledgements are not compared: the signature covers the whole publication.""",
"P34": r"""41 mutants caught; reverts of the three repairs reported (15/5/5). SQL forms other than the accepted ones are reported as undecided.""",
"P35": r"""The digest text rule of P31 applies to the answers as well. 
*Oracle:* the wire names. The decoder's results are named by the JSON field they come from (P01's tables), the encoder's parameters by the field they go to; same name, same value. Which lookup takes which part of the request is a table of eleven lookups in `echorules.go`.
*Counted as made of a part of the request:* copies, conversions, identifiers made anew from its text, elements of a list; not: what a store returned for it, and numbers computed from it. The range asked of providers is traced through the goroutines and captured variables that carry it.
*Limits:* which element of a list is used in which round is not compared; a list cut short by anything but leaving the loop or slicing the request's list is not seen. 29 mutants, all caught after the range, a single round and computed numbers were added.
""",
"P40": r"""
The amount of a payment is written out as a polynomial in the same way as for P11. Prices are recognised by the names of the settings (search price, offer price, topup amount). The payment manager's own books are P12.
About 43 mutants, all caught; reverts of the three repairs reported (2/2/2).
""",
}

TAIL = r"""
## 4. False alarms met, and what was done

Every alarm on the unchanged tree was first examined by hand. Those that were the check's fault and their repairs (in the machinery, never by
exempting the construct):

* a lock released by a deferred closure, or a critical section extracted into a helper, looked like a leak: helpers and closures are expanded
  in the caller's graph;
* an unlock in one branch with a flag tested later: branch conditions are remembered along the path;
* verification written as `ok := x.Verify(k) == nil` and tested later, or returned by a helper together with other results: facts are attached to
  flags, and merges are split by predecessor edge;
* loops that verify and loops that store, fused or split: facts about all elements of a list are kept per list;
* numbers from a checked subtraction in the bounds analysis of the merkle proof and the frame reader: order facts between lengths;
* P18 raised alarms on the stores' deliberate panics: those are decisions of P14/P24 and were taken out of P18, stated above;
* P28 first counted a best-effort broadcast as a dropped failure: the statement of the property names the exception;
* P26 demanded that a negative amount be refused: the property was too strong, the text *is* a number;
* P40 first missed ways through merges seen twice (unsound rather than noisy): the set of visited merges is kept per way.

Alarms that turned out to be right are the `fixed:` and `known:` entries of `known_findings.txt`: about seventy repairs in /repo, each a separate
`fix:` commit with the whole suite still passing.

## 5. Planted bugs and which checks catch them

%(seedtable)s

No check reads `/verif/seeded`.

## 6. Not applicable, and what is not covered

P33 (links of the ring), P36 (nearest gateways), P37 (balances add up) and P38 (merkle proofs) are numeric or heap-shape properties over run-time
values; a static rule about them would either be unsound or freeze the present text of the code. Their structural parts are claimed elsewhere:
locking and joint update of ring and table in P15, atomic and validated crediting in P12/P13, use of the proof's verdict in P09 and no crash on
malformed proofs in P18. Two defects in the ring found by reading were repaired all the same (73cb4a2, 238d69b).

Not covered by any property: throughput and fairness, blocking for ever on channels, the shell scripts and container files, the integration tests'
own helpers, and the generated code of the register's client.
"""
import glob as _g, json as _j, os as _o
_rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
_V = _o.path.dirname(_o.path.dirname(_o.path.abspath(_g.__file__ if False else __import__("sys").argv[0])))
for _m in sorted(_g.glob(_V + "/seeded/*/meta.json")):
    _d = _j.load(open(_m))
    _rows.append("| %s | %s | %s | %s |" % (_o.path.basename(_o.path.dirname(_m)), _d["property"], _d["needs"].replace("|", "/"), "P" + _d["property"][1:]))
TAIL = TAIL.replace("%(seedtable)s", "\n".join(_rows))
