#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks which exist (mc/checks/src/bin/cNN.rs)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENUM = "exhaustive enumeration of a bounded input space, executed on the real code against an independent oracle"
STATE = "stateless model checking of the real code: exhaustive enumeration of schedules, faults and inputs within bounds under a controlled runtime"
N = {
 "C01": ("exploration", ENUM, "Every decode of the enumerated byte strings ran to an end without panic (integer overflow checks on), within memory and time limits. Inputs outside the stated mutations of the corpus are not covered."),
 "C02": ("exploration", ENUM, "Decoder compared field by field with an independently written RFC 1035 decoder on every enumerated byte string. Trusts that decoder."),
 "C03": ("exploration", ENUM, "Encoder output read back by an independent decoder and by the program's own, for every enumerated message."),
 "C04": ("exploration", ENUM, "Truncated encoding compared with the longest prefix that fits, for every enumerated message; sizes come from the full encoder, which C03 checks."),
 "C05": ("exploration", ENUM, "Validation, encoding, equality, hashing and containment compared with a label-list oracle for every enumerated text, wire form and pair of names."),
 "C06": ("model_checking", "exhaustive exploration of operation sequences of the real buffer in lockstep with a bit-list model", "Every operation sequence up to the depth, with the model compared after every step and all contents at the end."),
 "C07": ("exploration", ENUM, "The nameserver's replies to every query of a bounded name tree compared with a zone model, for every zone configuration of a bounded family."),
 "C08": ("exploration", ENUM, "Every rendering of bounded record lists loaded by the real parser and compared with the list, by queries."),
 "C09": ("exploration", ENUM, "Every fault at every position of bounded configurations must be rejected, every fault-free variant accepted."),
 "C10": ("exploration", ENUM, "Every sequence of lexical fragments up to a bound is loaded in a virtual file system; whatever loads is served and each reply is read by an independent decoder."),
 "C11": ("exploration", STATE, "Every request of a bounded space is sent to the real servers over a virtual network; replies are read by an independent decoder."),
 "C12": ("model_checking", STATE, "Every segmentation and fault of the virtual TCP connection within the stated bounds."),
 "C13": ("model_checking", STATE, "All interleavings of the real pool within the preemption bound."),
 "C14": ("model_checking", STATE, "All interleavings of clients, listeners and workers within the preemption bound."),
 "C15": ("model_checking", STATE, "All interleavings of start-up, failure and stop of the real servers within the bounds, with virtual time."),
 "C16": ("model_checking", STATE, "All histories of lookups and waits up to a depth against a simulated DNS tree which also serves as the oracle."),
 "C17": ("model_checking", STATE, "All strategies of hostile upstream servers within the bounds; every lookup must end within a fixed number of upstream queries."),
 "C18": ("model_checking", STATE, "All assignments of outcomes to upstream attempts within the bounds, compared with a model of the retry rules."),
 "C19": ("model_checking", STATE, "All combinations of hostile records within the bounds; later lookups compared with those after honest responses."),
 "C20": ("model_checking", STATE, "All arrival orders of genuine and forged datagrams within the bounds."),
 "C21": ("model_checking", STATE, "All operation sequences in lockstep with a map model, and all interleavings within the preemption bound checked for linearizability."),
 "C22": ("model_checking", STATE, "All histories of lookups and waits around expiry instants, in virtual time, against a TTL model."),
 "C23": ("exploration", ENUM, "Every combination of the boundary values of the configuration fields."),
 "C24": ("model_checking", STATE, "Every lookup scenario run under all trace settings; replies and upstream traffic compared."),
 "C25": ("model_checking", STATE, "All interleavings of concurrent lookups within the preemption bound."),
 "C27": ("model_checking", STATE, "Every upstream datagram of all histories within the bounds compared with what the resolver was told before; ids compared over runs with chosen random values."),
 "C28": ("model_checking", STATE, "Every repeated history of one request kind, client behaviour, upstream behaviour and failing operation; threads, sockets, connections and heap bytes compared between rounds."),
 "C29": ("exploration", ENUM, "Every fault of a list at every place of every file and layout; the program's reports compared with the lines of the faulty entry."),
 "C30": ("model_checking", STATE, "Every history of the family run twice through the real program, with all logging off and as configured; everything seen from outside is compared, in virtual time."),
 "C26": ("exploration", STATE, "The real main functions run in a virtual environment for every configuration of a bounded family."),
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "mc/checks/src/bin/%s.rs" % i.lower())):
        level, tech, note = N[i]
        checks.append(dict(property=i, quick_cmd="./run.sh %s quick" % i, thorough_cmd="./run.sh %s thorough" % i,
          evidence_file="evidence/%s.json" % i, technique=tech, level=level, level_note=note))
    else:
        na.append(dict(property=i, reason="the check is not built yet"))
m = dict(version=1, setup_cmd="./run.sh setup", checks=checks, not_applicable=na,
  notes="No hooks in /repo: every build copies /repo's current sources into mc/ariadne with the path `std` replaced by `vstd` (mc/vstd), a drop-in whose threads, locks, channels, clock, sockets, files, arguments and exit are controlled by the explorer.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
