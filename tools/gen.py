#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from this one table (run by hand after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "server/src/"
HS, TY, IN, PA, TK = S + "storage/hashmap_storage.rs", S + "storage/types.rs", S + "analysis/interpreter.rs", S + "analysis/parser.rs", S + "analysis/tokenizer.rs"
TCP, TCPA, STR, ERR, AUTH, ST, AS = S + "io/tcp.rs", S + "io/tcp_async.rs", S + "io/stream.rs", S + "error.rs", S + "auth.rs", S + "single_threaded.rs", S + "async.rs"
ML, MC, MA, ME, MX = (S + "multithreaded/" + x for x in ("listener.rs", "coordinator.rs", "analysis.rs", "executor.rs", "expiration.rs"))
TECH = "bounded symbolic execution of the optimised LLVM IR of /repo's code (engine rsym), every branch and assertion decided by Z3; counterexamples and sampled paths replayed on the native build"
ALL = []
def P(id, title, statement, over, text, why, files, mech, observe, note, state=()):
    ALL.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None), _note=note))
exec(open(V + "/tools/properties_text.py").read())
NA = globals().get("NOT_APPLICABLE", [])
with open(V + "/properties.jsonl", "w") as f:
    for p in ALL: f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}, ensure_ascii=False) + "\n")
import sys; sys.path.insert(0, V); import props
claimed = [p for p in ALL if p["id"] in props.PROPS]
assert set(props.PROPS) <= {p["id"] for p in ALL}, set(props.PROPS) - {p["id"] for p in ALL}
NA = NA + [dict(property=p["id"], reason="no check registered yet") for p in ALL if p["id"] not in props.PROPS and p["id"] not in {n["property"] for n in NA}]
json.dump(dict(version=1, setup_cmd="python3 build.py",
    checks=[dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"], technique=TECH, level="model_checking", level_note=p["_note"] + " Bounded: exhaustive over all symbolic values within the bounds listed in the evidence; trusts rustc's compilation of the code to LLVM IR, the engine, Z3, and the models of std's clock, hash map, sockets, threads and of tokio and rand listed in DESIGN.md.") for p in claimed],
    not_applicable=NA,
    notes="No hooks in /repo: the crates are compiled unmodified against a stand-in std/tokio/rand (model/), so no guard is needed. Fix commits are listed in known-findings.txt."), open(V + "/MANIFEST.json", "w"), indent=1)
