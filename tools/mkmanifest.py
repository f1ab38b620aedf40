#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
X = "exploration"
F = "fault_enumeration"
PBT = "property-based testing"
CLAIMED = {
    "C01": (X, PBT + ": generated message lengths x stream behaviours, echo/hash oracle on a reference server",
            "Randomised search over message kinds, exact packet lengths (dense around 0, 2^24-1 and 2*(2^24-1)) and stream behaviours (partial reads/writes, spurious pending, write buffering until flush); the reference server reassembles independently."),
    "C02": (X, PBT + ": generated conversations, one altered sequence number per server packet, differential against the clean run",
            "Every packet of each generated conversation (first 24) is altered in turn; wrap-around in long responses."),
    "C03": (X, PBT + ": generated result sets, round trip through an independent text-protocol encoder",
            "All supported column types, both EOF styles, all ways of reading; the encoder is our reading of the protocol documentation."),
    "C04": (X, PBT + ": generated result sets, round trip through an independent binary-protocol encoder",
            "As C03 for prepared statements, with every legal temporal encoding length."),
    "C05": (X, PBT + ": generated parameter lists and repeated executions, decoded by an independent reference server",
            "All bindable value kinds, NULL patterns over every bitmap byte boundary, totals around the long-data threshold."),
    "C06": (X, "model-based " + PBT + ": generated call histories with a token per response, cancellations at every poll, late answers",
            "Histories of up to 9 operations (each up to 4 statement executions); cancellation points are sampled per poll of the future."),
    "C07": (X, PBT + ": generated error packets at every protocol position, exact comparison",
            "All positions (greeting, login, settings, command, prepare, execute, after rows) x all ways of reading; codes, states and messages are sampled."),
    "C08": (X, PBT + ": generated login scenarios against an independent verifying server (own scrambles, RSA-OAEP decryption)",
            "Product of announced/account/forced method, switch, cached/full, secure/insecure, key known/requested, 22 keys, password shapes; sampled."),
    "C09": (F, PBT + " with an enumerated deviation at every server message of each generated login, plus wrong passwords and free-running servers",
            "Every server message of each generated exchange is replaced by each of 15 deviations; exchanges are sampled."),
    "C10": (X, "fuzzing: free-running hostile servers, secrecy oracle over every byte the client writes (plain, masked with any challenge, decryptable with the attacker's key only where permitted)",
            "Random message sequences of up to 5 batches; the oracle knows all challenges and the hostile key."),
    "C11": (X, PBT + ": generated greetings and options, login request decoded by an independent parser",
            "All capability words, versions, names and limits are sampled."),
    "C12": (X, "fuzzing: structured mutation of server packets, free-running noise servers, arbitrary keys and cells; crash, memory, CPU and wedge oracle",
            "Random structured search, not exhaustive. Overflow checks and debug assertions are on in the checked build."),
    "C13": (F, PBT + " with enumerated stalls on a virtual clock, differential against the clean run",
            "Within each generated conversation every stall offset (up to 400 server, 300 client bytes) is enumerated; conversations are sampled. Both builds (with and without the `time` feature)."),
    "C14": (F, PBT + " with enumerated stream faults, prefix oracle against the clean run",
            "Within each generated conversation every cut offset (up to 3000 server, 1500 client bytes) is enumerated; conversations are sampled. One fault per run."),
    "C15": (X, PBT + ": generated Rust and database values, round trip and an exact denotation oracle for all 17 target types and their options",
            "All value kinds x all target types per case, including components no server sends; full chrono ranges."),
    "C16": (X, PBT + ": escaped text embedded in statements and read back by an independent MySQL lexer, exhaustive over single characters",
            "Every Unicode scalar in seven contexts, plus sampled texts; the lexer is our reading of the manual."),
    "C17": (X, PBT + ": printed values read back by an independent MySQL lexer and literal reader, exhaustive over 16-bit integers and byte pairs",
            "All value kinds; default formatting only."),
    "C18": (X, PBT + ": round trip and differential against a reference parser through every entry point, exhaustive over two-byte texts",
            "FromStr, try_from_hex, serde via JSON, bincode, CBOR and RON."),
    "C19": (X, "stateful " + PBT + ": random schedules of requests, polls, creations, failures, cancellations, returns on a controlled executor, with other operations injected inside pool operations (waker clone/wake, creation start/poll/drop), plus real-thread rounds",
            "Invariants after every step: live + being created <= size, one holder per item, nothing discarded, idle items reused. Between two atomic operations only real threads interleave (sampled)."),
    "C20": (X, "stateful " + PBT + ": same schedules; at every quiescent point no request may wait while capacity exists; full capacity is usable afterwards; real-thread rounds with a lost-wake-up monitor",
            "Wake-ups count only for the latest poll's waker. Thread interleavings are sampled."),
    "C21": (X, "model-based " + PBT + " of the buffer pool (contents, capacity, sharing, retention), threads, and interleaved connections with per-connection answers",
            "Process-wide buffers are observed through up to six concurrent connections, interleaved on one thread or on threads."),
    "C22": (X, "model-based " + PBT + ": histories of up/down over generated migration lists against a reference database, with injected statement failures, crashes and concurrent rewrites of the record",
            "Every statement the migrator sends is answered by a reference database; failures and crashes are injected at sampled statements of sampled histories."),
    "C23": (X, "model-based " + PBT + ": histories of up/down against a reference database; the set and order of executed migrations against version tuples",
            "Versions, names and partial histories are sampled; failing record statements included."),
    "C24": (X, "model-based " + PBT + " of generated programs: 80 generated model graphs (400 thorough) x generated instances, against a reference database",
            "Model graphs are generated source compiled against the derive macros (names collide, several references, up to five levels); instances, tables, reading styles are sampled. A generated model that cannot be compiled is a violation."),
    "C25": (X, "model-based " + PBT + " of generated programs: generated field subsets, keys and table contents, exact comparison of the whole database before and after",
            "As C24; includes updates of no row, refused updates, nested inserts, unset fields with and without defaults."),
    "C26": (X, PBT + " of generated programs: generated queries checked for their shape, permuted, extended, thinned out, renamed and decoded against a reference database",
            "As C24; columns in any order, repeated, with foreign columns added, and single columns missing."),
    "C27": (X, PBT + ": generated completion packets, round trip through an independent encoder",
            "All length encodings, both end-of-rows encodings, session-state tails."),
    "C28": (X, PBT + ": metamorphic relation between the two protocols, exhaustive over column types",
            "All 256 column type bytes are walked; values are generated."),
    "C30": (X, "differential " + PBT + ": the same generated tape given to sixteen builds, one for every subset of the optional features",
            "All 16 subsets are built (each also alone, without other users of its dependencies); conversations, faults, stalls, options, pools and values are sampled. A subset that cannot be compiled is a violation."),
    "C29": (X, PBT + ": generated keys and passwords, decryption by an independent server; generated encodings read back; generated malformed keys",
            "Fresh keys of 280-520 bits, 23 stored keys of 384-4096 bits, passwords dense around the limit; all line layouts and both encodings sampled."),
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
NA = {}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        lvl, tech, note = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "technique": tech, "level": lvl, "level_note": note})
    else:
        na.append({"property": i, "reason": NA[i]})
m = {"version": 1, "setup_cmd": "./build.sh && ./build.sh notime && ./models.sh C24 80 && ./features.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything is driven through the public API and a mock Stream. Genuine defects are repaired by the fix: commits listed in known_findings.json."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
