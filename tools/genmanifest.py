#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from properties.jsonl and checks/."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python run.py"

REPLAY = ("stateless model checking of the real server: breadth-first "
          "enumeration of all action sequences up to a depth, each executed "
          "against the unmodified code under a controlled clock, event loop "
          "and transport, compared with an executable model")
NOTE = ("Exhaustive within the stated alphabet and depth; trusts the harness "
        "(virtual clock/epoll, in-process libxcm stand-in) and the model of "
        "the documented behaviour in harness/. States are merged by a "
        "canonical form of the whole server heap, checked by replay.")
CASES = ("exhaustive enumeration of a bounded input space on the real code, "
         "compared with an independent reference")
CNOTE = ("Every element of the stated bounded space is executed on the real "
         "code; trusts the independent reference in harness/ or checks/.")
TECH = {
    "P15": (CASES, CNOTE), "P16": (CASES, CNOTE), "P17": (CASES, CNOTE),
    "P18": (CASES, CNOTE), "P19": (CASES, CNOTE), "P21": (CASES, CNOTE),
    "P29": (CASES, CNOTE),
    "P13": ("exhaustive enumeration of operation sequences on the real timer "
            "manager, compared with a model", CNOTE),
    "P14": ("exhaustive enumeration of operation and readiness schedules on "
            "the real event loop, compared with a model", CNOTE),
    "P20": ("stateless model checking of the real client library against a "
            "scripted server: all reply sequences, send faults and connection "
            "losses up to a bound", NOTE),
    "P23": ("enumeration of all crash points (termination signal after every "
            "history up to a depth, start-up fault at every position) on the "
            "real server in a child process", NOTE),
    "P24": ("enumeration of all operation sequences and library call faults "
            "up to a bound on the real binding", CNOTE),
    "P27": ("exhaustive exploration of all message-delivery interleavings of "
            "small client programs on the real client library and server, "
            "checked for linearizability", NOTE),
}
LEVEL = {"P23": "model_checking", "P24": "model_checking"}
PENDING = "no check built yet"

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", pid.lower() + ".py")):
        tech, note = TECH.get(pid, (REPLAY, NOTE))
        checks.append({
            "property": pid,
            "quick_cmd": "%s %s quick" % (PY, pid),
            "thorough_cmd": "%s %s thorough" % (PY, pid),
            "evidence_file": "evidence/%s.json" % pid,
            "technique": tech,
            "level": LEVEL.get(pid, "model_checking"),
            "level_note": note})
    else:
        na.append({"property": pid, "reason": PENDING})
m = {"version": 1,
     "setup_cmd": "/opt/venv/bin/python -B tools/setup.py",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: the harness replaces the clock, "
              "select.epoll/poll, random and libxcm underneath the code."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not applicable")
