#!/usr/bin/env python3
"""writes /verif/MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
"C01": ("exhaustive bounded exploration of malformed inputs on the real code under ASan/UBSan",
        "every short byte string and every bounded mutation of complete files is parsed by the real code under sanitizers"),
"C02": ("exhaustive exploration of values and encodings against a reference model",
        "every well-formed file within the bounds is decoded by the library and by the model and compared completely"),
"C03": ("exhaustive bounded mutation of files against a reference model of acceptance",
        "every single (and in part double) mutation of files of every message type; what the parser delivers is compared with the model"),
"C04": ("exhaustive checksum corruption of messages against a reference CRC", "all single bit and many double-bit corruptions, both checksums"),
"C05": ('exhaustive enumeration of cut positions and padding against a reference decoder',
        'every cut of every explored file'),
"C06": ('exhaustive enumeration of types, lengths and buffer histories against a reference encoder',
        'all lengths up to the bound and around every power of 16'),
"C07": ("exhaustive exploration of trees written and read back", "writer and reader of the library plus the model on both sides"),
"C08": ("exhaustive exploration of parse-write-parse histories against the model", "every accepted file within the bounds"),
"C09": ('exhaustive enumeration of integer encodings against a reference',
        'all contents of up to 2 (thorough 3) bytes, boundary patterns above'),
"C10": ("exhaustive enumeration of lengths and single-bit changes against a bitwise CRC", "table and algorithm fully covered for one- and two-byte messages, linear basis above"),
"C11": ("exhaustive exploration of byte streams under a controlled read environment", "real sml_transport_read over interposed read/select"),
"C12": ("exhaustive exploration of buffer sizes and canary offsets under a controlled read environment", "guard areas around the caller's buffer"),
"C13": ("exhaustive exploration of stream histories under a controlled read environment", "the real listener, compared with the reference frame reader"),
"C14": ("exhaustive enumeration of write results (short writes, errors) at every call", "the real writer over an interposed write"),
"C15": ("exhaustive exploration of files over a loop of the real writer and the real reader", "closed loop of the real code plus the reference frame reader"),
"C16": ("exhaustive exploration of object life cycles with allocation tracking", "every part of every object set or not, freed at every point"),
"C17": ('exhaustive exploration of value lists against a reference of the workarounds',
        'every serial number near the limits, every order of entries up to a depth'),
"C18": ("stateless model checking of two threads with a preemption bound; exhaustive operation sequences", "controlled scheduler at every basic block and memory access of the library"),
"C19": ("exhaustive enumeration of stored values against exact conversions", "every type and width, boundary patterns of every byte"),
"C20": ("exhaustive enumeration of hex texts against a reference", "all strings over an alphabet up to a length"),
"C21": ("exhaustive exploration of streams through the real tool against a reference printer", "the real main() of the tool, its output compared line by line"),
"C22": ("exhaustive operation sequences on the buffer and list primitives against the model", "every sequence up to a depth"),
"C23": ("exhaustive enumeration of generator outputs and creation histories, both configurations", "interposed generator, descriptor and allocation census"),
"C24": ("exhaustive exploration of the parsers' decision tree over a token alphabet against a reference decoder",
        'every public element parser, every cut'),
"C25": ("exhaustive exploration of input families with the cost of every execution counted", "basic blocks, memory, stack and system calls counted by compiler callbacks and wrapped functions, not timed"),
"C26": ("exhaustive enumeration of printed data against a reference printer", "standard output captured"),
"C27": ("exhaustive exploration of damaged and cut files against a reference decoder", "error flag and position after every explored parse"),
"C29": ("exhaustive exploration of inputs and read results with both standard streams captured", "every line compared with what a reference decoder says was dropped or left unread"),
"C30": ("exhaustive exploration of sequences of writes, rewinds and reads on one buffer", "buffer, position and flag compared with a model tape after every step, under AddressSanitizer"),
"C31": ("stateless model checking of read schedules; every question for input as observation and as crash point", "the real listener and tool; their calls on the descriptor numbered, the output looked at, or the process killed, at each of them"),
"C28": ("exhaustive exploration of object histories with their sources and siblings destroyed", "every object compared before and after, under AddressSanitizer"),
}
na = json.load(open(os.path.join(V, "tools/not_applicable.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if any(n["property"] == i for n in na): continue
    t, n = T[i]
    checks.append(dict(property=i, quick_cmd="python3 run.py %s" % i, thorough_cmd="python3 run.py %s --thorough" % i,
                       evidence_file="evidence/%s.json" % i, technique="model checking: " + t, level="model_checking",
                       level_note=n + "; exhaustive within the bounds listed per scenario in the evidence file; trusts the reference model in mc/, the compilers and the sanitizers"))
m = dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the environment of the code is controlled by link-time interposition and compiler instrumentation. Approach, bounds, defects found and detection matrix: DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
