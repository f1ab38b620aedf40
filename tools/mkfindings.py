#!/usr/bin/env python3
"""Writes known_findings.json (hashes are looked up by commit subject)."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = dict((s, h) for h, s in (l.split(" ", 1) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()))
FIXED = [
    ("C01", "flush the stream after writing a packet", "packets stayed in a buffering stream for ever (no flush after a write)"),
    ("C27", "skip the header when parsing EOF packets", "completion data after rows was read from the wrong offset"),
    ("C03", "read the EOF packets of servers without DEPRECATE_EOF", "result sets of servers without DEPRECATE_EOF were read wrongly (also C04, C06, C27)"),
    ("C03", "read the length-encoded strings of column definitions", "column names longer than 250 bytes were cut or misread (also C26)"),
    ("C28", "decode LONGBLOB columns in text result sets", "LONGBLOB columns panicked in plain queries and worked in prepared ones (also C03)"),
    ("C04", "consume the whole length of binary temporal values", "temporal values with an unusual legal length shifted all later columns"),
    ("C07", "handle server errors in the middle of a result set", "an error in the middle of rows left the connection unusable (also C06)"),
    ("C06", "leave no unread rows behind when executing a query that returns rows", "execute_query of a query returning rows left rows that the next command read as its answer"),
    ("C06", "discard further results of a statement before the next command", "further result sets were read as the answer of the next command"),
    ("C06", "refuse commands after a command or response was left incomplete", "after a timeout or a cancelled call later commands got the answers of earlier ones (also C12)"),
    ("C12", "return an error for unsupported column types instead of panicking", "unsupported column types panicked (also C28)"),
    ("C12", "reject fractional seconds with more than six digits instead of panicking", "overflow on long fractional seconds"),
    ("C09", "require an Ok packet after successful fast authentication", "any packet after a successful fast authentication counted as a confirmed login"),
    ("C12", "report a missing nonce instead of dividing by zero", "an empty challenge caused a division by zero"),
    ("C12", "do not panic on unusual greeting packets", "short or odd greetings panicked"),
    ("C11", "recognize MariaDB servers that prefix their version", "MariaDB 5.5.5- prefix was reported as MySQL 5.5.5"),
    ("C07", "report errors that servers send instead of a greeting", "an error instead of a greeting was not reported as a server error (also C12)"),
    ("C12", "reject malformed server keys instead of panicking", "malformed public keys panicked (also C29)"),
    ("C29", "round up the size of the RSA modulus", "keys whose size is not a multiple of 8 gave undecryptable messages"),
    ("C29", "encrypt messages up to the full length that OAEP allows", "the longest passwords that fit were refused"),
    ("C18", "do not panic when parsing hex strings shorter than the prefix", "Hex::try_from_hex panicked on short input"),
    ("C18", "deserialize hex strings that cannot be borrowed from the input", "Hex could not be read from escaped or owned strings"),
    ("C18", "serialize hex strings the way they are deserialized", "Hex written by RON could not be read back"),
    ("C16", "remove all characters of identifiers that consist of spaces only", "an all-space identifier kept trailing spaces"),
    ("C17", "do not overflow when formatting long times", "printing long times overflowed"),
    ("C17", "format empty byte strings as a valid literal", "empty byte strings printed as 0x"),
    ("C17", "format very large and very small floats as floating point literals", "large floats printed as huge decimals"),
    ("C15", "keep the sign of durations of less than one second", "negative durations below one second lost their sign"),
    ("C15", "convert negative numbers to true", "negative integers became false"),
    ("C20", "wake waiting pool requests when an item is returned", "a returned item did not wake waiters"),
    ("C20", "give places of failed and cancelled creations back to the pool", "failed or cancelled creations used up capacity for good"),
    ("C21", "drop the contents of vectors that are returned to the pool", "returned vectors kept their contents"),
    ("C22", "escape the names of migrations", "a quote in a migration name broke its record (also C23)"),
    ("C26", "map rows of models whose table has the name of one of their fields", "columns of a model whose table is named like one of its referenced fields were mixed up"),
    ("C12", "reject oversized server keys", "absurdly large server keys used minutes of CPU time"),
    ("C13", "report the error that ended reading one row", "a timeout while reading one row was reported as another error (originally after twice the timeout)"),
    ("C06", "skip further result sets whose columns cannot be decoded", "a column of unknown type in a further, inaccessible result set made the next command fail"),
    ("C22", "keep the migrator's state in step with the recorded migrations", "after a refused record statement the migrator believed the migration recorded; retrying never recorded it (also C23)"),
    ("C26", "derive FromQueryResult for models that consist of references only", "a model without columns of its own could not be compiled"),
    ("C26", "let raw identifiers name columns without their prefix", "a field named by a raw identifier (r#type) was mapped to a column called r#type (also C24, C25)"),
    ("C08", "ignore an unknown announced auth plugin if the options specify one", "a forced method was not used when the greeting announced a method the client does not know"),
]
FINDINGS = [
    ("C16", "z-escape", "StringEscape writes \\z for U+001A, which MySQL reads as the letter z (an existing test asserts \\z)"),
    ("C15", "duration-beyond-u32-days", "Value::from(Duration) keeps only the low 32 bits of the number of days"),
]
out = {"findings": [{"property": p, "signature": s, "what": w} for p, s, w in FINDINGS],
       "fixed": [f"fixed: property={p} {log['fix: ' + s]} {w}" for p, s, w in FIXED]}
json.dump(out, open(os.path.join(here, "known_findings.json"), "w"), indent=1)
missing = [s for s in log if s.startswith("fix:") and s[5:] not in {x[1] for x in FIXED}]
print(len(FIXED), "fixed;", "not listed:", missing)
