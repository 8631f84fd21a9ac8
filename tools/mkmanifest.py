#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/pypyvenv/bin/python"

ROOM = ("seeded search over simulated sessions: what was explored held, nothing is proved beyond it. "
        "Trusts the reference model in sim/model.py and sim/room.py. The engine and renderers are the real code.")
C = {
    "C01": ("simulated poker room, conservation invariants after every call", ROOM),
    "C02": ("simulated poker room with stray bets, reference betting model", ROOM),
    "C03": ("simulated poker room, reference turn and street machine", ROOM),
    "C04": ("simulated poker room with lost, late and repeated messages, progress bounds", ROOM),
    "C05": ("simulated poker room biased to side pots and ties, independent settlement", ROOM),
    "C06": ("simulated poker room with messages after the end, frozen table and twin", ROOM),
    "C07": ("simulated poker room with broke players and re-buys, reference deal", ROOM),
    "C08": ("simulated poker room with stacked decks, card conservation", ROOM),
    "C09": ("simulated poker room with refused calls at any moment, fingerprint and twin", ROOM),
    "C10": ("simulated poker room with hostile receivers, copies of every observation and twin", ROOM),
    "C11": ("recorded simulated sessions re-run after other tables, other hash seeds and clocks; "
            "dealing statistics over seeds", ROOM),
    "C12": ("simulated threads preempted at any statement by a seeded scheduler, compared with solo runs",
            "seeded search over schedules at statement granularity (not inside statements); "
            "global random state is given per thread"),
    "C13": ("simulated poker room, text rendering parsed back and compared with tracked truth", ROOM),
    "C14": ("simulated poker room with looks that fail or are interrupted at any statement, twin without looks",
            ROOM + " Interruptions are injected in front of statements, not inside them."),
    "C15": ("simulated poker room asked at any moment, independent enumeration of boards", ROOM),
    "C22": ("simulated poker room whose table is saved, copied and lost in crashes at seeded points, compared with "
            "the same session without any of it, also in another interpreter",
            ROOM + " Crashes are injected in front of statements, not inside them."),
    "C16": ("calls aborted at seeded crash points followed by a full reset, compared with a new table",
            ROOM + " Interruptions are injected in front of statements, not inside them."),
}
WEB = ("seeded search over simulated start-ups, connections, deaths and browsers: what was explored held. "
       "The viewer, its server function, Flask and flask_socketio are the real code; processes, sockets, "
       "clock, HTTP transport and browsers are simulated (sim/web.py), as documented there.")
W = {
    "C17": ("simulated processes, sockets and clock with start-up faults", WEB),
    "C18": ("simulated processes, update channel and browsers with joins and drops, delivery history checks", WEB),
    "C19": ("simulated processes and ports, close injected at any moment", WEB),
    "C20": ("real page script on simulated delivery histories against a small DOM, compared with a "
            "function of the last state",
            "seeded search over delivery histories; the DOM (sim/page.js) is a small model built from the served page"),
    "C21": ("simulated web view with faults during a game, compared with a twin game without it", WEB),
}
NA = {
    "N01": "A pure function of one input (a set of cards and a deck): no schedule, clock, I/O, fault or history "
           "for a simulator to control. What games depend on is decided through C05 and C15.",
    "N02": "A pure function of a two-character string: nothing nondeterministic to simulate and no fault to inject.",
    "N03": "A pure function of one configuration dictionary: no schedule, clock, I/O, fault or history involved.",
    "N04": "Pure geometry of the generated drawing: no schedule, clock, I/O, fault or history involved.",
}


def main():
    checks = []
    done = dict(C)
    ready = os.path.exists(os.path.join(HERE, "sim", "web.py"))
    na = dict(NA)
    for k, v in W.items():
        if k == "C20" and not os.path.exists(os.path.join(HERE, "sim", "page.js")):
            na[k] = "check under construction"
        elif k != "C20" and not ready:
            na[k] = "check under construction"
        else:
            done[k] = v
    for p in sorted(done):
        tech, note = done[p]
        checks.append({
            "property": p,
            "quick_cmd": "%s run.py %s" % (PY, p),
            "thorough_cmd": "%s run.py %s --tier thorough" % (PY, p),
            "evidence_file": "evidence/%s.json" % p,
            "technique": "deterministic simulation with fault injection: " + tech,
            "level": "exploration",
            "level_note": note,
        })
    doc = {
        "version": 1,
        "setup_cmd": "%s tools/selftest.py" % PY,
        "checks": checks,
        "not_applicable": [{"property": p, "reason": na[p]} for p in sorted(na)],
        "notes": "No hooks in /repo: instrumentation is inserted when the checks load the source. "
                 "Replay a violation with: %s run.py --replay <file>." % PY,
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
