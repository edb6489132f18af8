#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the tables below and the check registry."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
ENC, DEC = "src/codec/edo9300_ocgcore_encode.cpp", "src/codec/edo9300_ocgcore_decode.cpp"
FR, LI = "include/ygopen/client/frame.hpp", "include/ygopen/client/frame_limbo.hpp"
BO, PE, UP = "include/ygopen/client/board.hpp", "include/ygopen/client/parse_event.hpp", "include/ygopen/client/undo_parse_event.hpp"
UN, PQ, RO = "include/ygopen/client/undoable.hpp", "include/ygopen/client/parse_query.hpp", "include/ygopen/server/room.hpp"
BEC, PD, BIT = "include/ygopen/server/basic_encode_context.hpp", "include/ygopen/proto/duel/data.hpp", "include/ygopen/bit.hpp"
TRAITS, QI = "include/ygopen/client/default_card_traits.hpp", "include/ygopen/client/queries.inl"

P = []


def p(pid, title, statement, over, text, why, anchors, na=None):
    P.append((pid, title, statement, over, text, why, anchors, na))


exec(open(os.path.join(ROOT, "tools", "properties.py")).read())


def main():
    from ygv import registry
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for pid, title, st, over, text, why, anchors, na in P:
            assert len(title) <= 80, title
            f.write(json.dumps({"id": pid, "title": title, "statement": st, "quantifier": {"over": over, "text": text},
                                "why_tests_cant": why, "anchors": anchors}) + "\n")
    checks, nas = [], []
    for pid, title, st, over, text, why, anchors, na in P:
        r = registry.PROPS.get(pid)
        if r is None:
            nas.append({"property": pid, "reason": na or "no check has been built for it yet"})
            continue
        checks.append({"property": pid, "quick_cmd": "python3 check.py %s" % pid,
                       "thorough_cmd": "python3 check.py %s thorough" % pid, "technique": r.technique, "level": r.level,
                       "level_note": r.rule + "; assumes: " + "; ".join(r.assumptions)})
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": nas}
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties,", len(checks), "claimed")


main()
