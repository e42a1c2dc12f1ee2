# Which test packages decide which property.  pkgs: harness packages with TestPxx_* tests.
def _r(pkg, technique, note, **kw):
    d = dict(pkgs=pkg.split(), level="exploration", technique=technique, note=note, assumptions=[], timeout=500)
    d.update(kw)
    return d

REG = {
    "P10": _r("codec", "property-based testing (rapid): round trip, splice and corruption fuzzing of wire messages",
              "Generated messages over all fields, spliced unknown fields, corrupted/truncated/random bytes, maximal nesting; sampled, not exhaustive."),
    "P11": _r("codec", "property-based testing (rapid): order, inversion and canonicity oracles over related value pairs",
              "Random and boundary values incl. all group-length residues, dirty buffers, trailing bytes, corrupted encodings; sampled."),
    "P12": _r("codec", "property-based testing (rapid) against a reference varint/decimal decoder",
              "Random, boundary and malformed inputs compared with an independent decoder; sampled."),
    "P13": _r("codec", "property-based testing (rapid) against a big-endian counter model",
              "Random keys biased to 0xFF runs and related pairs; sampled."),
    "P26": _r("codec", "property-based testing (rapid): injectivity and prefix-freedom of keys over pairs of named things, decode canonicity",
              "Pairs of named things of all kinds in both key layouts; sampled."),
    "P27": _r("codec", "property-based testing (rapid): deep-copy walker, encode/decode histories, validation oracle",
              "Random descriptions, jobs, diffs and inputs with valid UTF-8 names; sampled."),
    "P01": _r("store", "model-based property testing (rapid) of both providers against a map, with reopens and concurrent goroutines",
              "Histories of up to 30 operations over colliding keys on real badger and leveldb directories; sampled."),
    "P02": _r("store", "property-based testing (rapid) of scans against a sorted-map oracle",
              "Random live sets, prefixes, offsets, directions, early stops and pending writes; sampled."),
    "P03": _r("store", "model-based property testing (rapid): interleaved transactions step by step against a snapshot-isolated reference store; concurrent transfers against conservation invariants",
              "Up to 5 overlapping transactions and 60 steps on badger; a scan counts as reading what it visited, what it only ranged over may or may not conflict; sampled."),
    "P04": _r("store", "fault-injecting property testing (rapid): torn-write crash images and SIGKILLed writer processes against the set of allowed prefix states",
              "Crash images cut the log at any byte the operation in flight wrote; kills are real SIGKILLs at random moments, with 1-4 writer goroutines; power loss is out of scope.", timeout=700),
    "P05": _r("store", "model-based property testing (rapid) on virtual time (testing/synctest) against a map with tags and expiry times",
              "Histories of metadata writes, waits, transactions and reopens on a real badger directory with a simulated clock; expiry is in whole seconds, rounded down."),
    "P06": _r("store", "model-based property testing (rapid) of batches against a map",
              "Small batches among other writes, and batches of up to 25 MB; sampled."),
    "P25": _r("store", "property-based testing (rapid) with injected commit failures, conflicts and small transactions on a reference store",
              "All helpers, with every way to fail; sampled."),
    "P14": _r("structs", "model-based property testing (rapid) of lists against slices, over histories of transactions",
              "Histories of up to 45 operations in committed and discarded transactions, on the reference store and on badger; sampled."),
    "P15": _r("structs", "model-based property testing (rapid) of hashes against sorted maps, over histories of transactions",
              "Histories of up to 45 operations in committed and discarded transactions, on the reference store and on badger; sampled."),
    "P16": _r("structs", "model-based property testing (rapid): mixed kinds under related names in several namespaces",
              "Up to three prefix-free namespaces (namespaces that are prefixes of one another are out of scope); sampled."),
    "P17": _r("seqs", "model-based property testing (rapid): histories of holders, restarts, releases and injected commit failures against a ledger of identifiers; concurrent goroutines",
              "Histories of up to 45 operations on hash and string sequences, up to 3 holders per name; what comes next is only predicted for a holder that was never next to another; sampled."),
    "P18": _r("seqs", "model-based property testing (rapid): histories of holders, restarts, releases and injected commit failures against a ledger of identifiers; concurrent goroutines",
              "Histories of up to 40 operations, up to 3 holders per keyword; sampled."),
    "P07": _r("remote", "differential property testing (rapid): the same generated calls through a network client and on a local twin store",
              "Single client, histories over the reference store, badger and leveldb; scan limits up to and beyond the documented maximum; sampled."),
    "P08": _r("remote", "differential property testing (rapid): remote transactions interleaved with a local twin's, with injected failures and cut connections",
              "Up to 3 open transactions and 40 steps; connections are cut after a transaction's first operation; sampled."),
    "P09": _r("remote", "protocol fuzzing (rapid): generated hostile frames against a live server with an invariant on data and other clients; hostile server against the client",
              "Well-framed malformed bodies, broken frames, random commands and flags, streams in and out of transactions; limits of the framing dependency qrpc are out of scope; sampled."),
    "P28": _r("remote", "property-based testing (rapid) of concurrent client histories, decided by a linearizability checker (porcupine)",
              "Up to 5 clients with single operations and transactions over few keys; sampled."),
    "P29": _r("remote", "property-based testing (rapid): servers stopped at generated moments under generated client load, judged by a ledger of acknowledged writes against the reopened store",
              "Up to 8 busy clients, open transactions, idle connections and requests held inside the store while the server stops, on badger and leveldb; a stop that hangs because the framing dependency qrpc waits for a frame of a transaction is a known finding; sampled."),
    "P19": _r("catalog", "model-based property testing (rapid): catalog histories in committed and discarded transactions against a model",
              "Histories of catalog calls on the reference store and on badger; single calls with a store failure at any operation against a twin without one; sampled."),
    "P20": _r("catalog", "fault-injecting model-based property testing (rapid) on virtual time (testing/synctest): concurrent requests, failing store operations, process deaths and restarts against an exactly-once ledger",
              "Up to 9 requests over up to 3 lives of the process on a reference store that fails or dies at generated operations; AddIndex on an existing collection is a known finding; sampled, goroutine schedules as the runtime picks them."),
    "P23": _r("catalog docs", "property-based testing (rapid): incremental refresh against loading afresh, commit verdicts against a reference rule, concurrent commits and refreshes, running domains on virtual time",
              "Histories of up to a few hundred schema changes, lagging starting points; sampled."),
    "P21": _r("docs", "model-based property testing (rapid): histories of document calls in implicit and explicit transactions with injected store failures against per-collection maps; bulk loads",
              "Histories on the reference store and on badger, several databases and collections; sampled."),
    "P22": _r("docs", "fault-injecting model-based property testing (rapid): concurrent inserts, failed commits, discards and restarts against a ledger of identifiers",
              "Up to 5 goroutines and 3 restarts; concurrent use of the same chosen ids; ids chosen by hand stay away from ids automatic ones will take; sampled."),
    "P24": _r("docs", "model-based property testing (rapid): document and index histories with reopens, closing under load, concurrent index and document operations and injected store failures against a model",
              "Histories on the reference store and on badger; two indexes have the same columns when name and direction agree in any order, direction not counting for a single column; sampled."),
    "P30": _r("docs catalog seqs remote store", "model-based property testing (rapid) of every layer over a reference store that fails at generated operations and counts its open transactions",
              "The histories of P17, P20, P21, P24 and P08 with a count of open transactions; transactions the providers begin inside single calls on a real store are not counted; sampled."),
    "P31": _r("catalog", "fault-injecting model-based property testing (rapid) on virtual time: failed and successful starts over several process lives against a model of schemas and documents",
              "Up to 5 lives with up to 3 failing operations of the starts each, on the reference store; schemas are created one after the other; sampled."),
}
