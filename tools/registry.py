#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

G = ["internal/grammar/parser_gen.go", "internal/grammar/aql.peg"]
P = ["parser/parser.go", "parser/validators.go", "parser/ast/ast.go"]
J = ["jsonmatcher/jsonmatcher.go", "jsonmatcher/build_matcher.go", "jsonmatcher/nodes.go", "jsonmatcher/field_expr.go"]
INTERNAL = "The check itself decides it in-process: parser and reference run on every generated case."

props = []

def prop(id, title, statement, over, text, why, files, mechanism, technique, note, level="exploration", state=None, observe=None):
    assert len(title) <= 80, title
    props.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, technique=technique, note=note, level=level, state=state, observe=observe))

exec(open(os.path.join(ROOT, "tools", "table.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in props:
        anchors = {"files": p["files"], "mechanism": p["mechanism"]}
        if p["state"]:
            anchors["state"] = [{"name": n, "meaning": m} for n, m in p["state"]]
        if p["observe"]:
            anchors["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": anchors}, ensure_ascii=False) + "\n")

manifest = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "VERIF_TIER=quick ./check.sh " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"],
        "level": p["level"],
        "level_note": p["note"],
    } for p in props],
    "not_applicable": [],
    "notes": "Every check builds /repo's working tree into one of the binaries of harness/ (or builds the repository's own commands) and runs it under monitors; check.sh ID FILE replays a violation. known-findings.txt lists the defects that were repaired in /repo, which suppress nothing, and three limits that were not repaired, each named by its input; C22, C28 and C29 run those inputs and print a KNOWN-FINDING line for each.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1, ensure_ascii=False)
    f.write("\n")
