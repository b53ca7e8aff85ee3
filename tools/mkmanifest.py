#!/usr/bin/env python3
"""Writes MANIFEST.json. DONE names the properties that have a check."""
import json
DONE = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22".split()
HIST = "bounded exhaustive exploration of command histories on the real shell (process snapshots), every state compared with a reference model; model traces replayed on the unmodified binary"
EVENTS = "explicit-state exploration of all interleavings of child events with commands on the real shell under a virtual process table, compared with a job-table model"
TECH = {c: HIST for c in "C01 C02 C04 C05 C06 C07 C08 C09 C10 C11 C16 C17 C18 C19 C20".split()}
TECH["C03"] = HIST + "; all finishing orders of the stages under the controlled scheduler"
TECH["C12"] = TECH["C13"] = EVENTS
TECH["C14"] = "exhaustive placement of signals at every scheduling point of every line in a set, on the real shell under a virtual signal layer, compared with the model"
TECH["C15"] = "exhaustive single and double fault injection at every fork, pipe, open, dup, chdir and exec call of every line in a set, on the real shell, compared with a containment oracle and the model"
TECH["C21"] = "bounded exhaustive exploration of programs in every invocation mode of the real shell, compared with the reference model and with each other"
TECH["C22"] = "bounded exhaustive enumeration of prefixes and PATH directory contents on the real shell behind a pseudo-terminal, compared with the set of matching names"
TRUST = ("Exhaustive within the alphabets and depths listed in the evidence file (and in mc/src/props.rs); nothing is claimed beyond them. "
         "Trusts the reference model (mc/src/model.rs, parse.rs) as the reading of the property, the interposed process and signal layer (mc/shim), which is cross-checked by running a spread of the same histories on the unmodified binary with real processes, and the kernel. ")
NOTE = {
 "C11": "Lines the grammar leaves undefined are only checked for survival. The plan 'keys at a terminal' drives the unmodified shell through a pseudo-terminal. ",
 "C12": "Events are delivered at the prompt and at every wait of the shell; up to three jobs in full, up to eleven in two shallower plans. ",
 "C13": "The shell's waits are decision points: every order of events of up to three jobs is explored; a second plan types commands and keys at a real terminal. ",
 "C14": "Signals are placed at every libc call boundary and (plan 'allocations') at every allocator call; instants inside straight-line code between those are equivalent for this single-threaded program up to what the handler can observe; the plan 'keys at a terminal' sends real signals to the unmodified shell. ",
 "C15": "One and two failures per line; failure of memory allocation is out of scope. ",
 "C22": "Names and prefixes over a small alphabet; drives the real line editor through a pseudo-terminal. ",
}
allp = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks = [dict(property=p, quick_cmd=f"bash check.sh {p} quick", thorough_cmd=f"bash check.sh {p} thorough", technique=TECH[p], level="model_checking", level_note=NOTE.get(p, "") + TRUST) for p in allp if p in DONE]
m = dict(version=1, setup_cmd="bash check.sh build", checks=checks,
         not_applicable=[dict(property=p, reason="check not built yet") for p in allp if p not in DONE],
         notes="No hooks in /repo: the checks build the unmodified sources and interpose libc at load time (mc/shim/shim.c). See DESIGN.md.")
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1); open("/verif/MANIFEST.json", "a").write("\n")
