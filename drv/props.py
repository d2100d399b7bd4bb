"""Regenerates properties.jsonl and MANIFEST.json (run after editing; not part of any check)"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "drv"))
from spec import CHECKS
from props_text import PROPS, NOT_APPLICABLE

out = []
for p in PROPS:
    a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
    if "observe" in p:
        a["observe_at"] = p["observe"]
    if "hook" in p:
        a["hook_needed"] = p["hook"]
    assert len(p["title"]) <= 80, p["id"]
    out.append(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a))
open(os.path.join(V, "properties.jsonl"), "w").write("".join(json.dumps(o) + "\n" for o in out))
ids = [p["id"] for p in PROPS]
na = dict(NOT_APPLICABLE)
assert set(CHECKS) | set(na) == set(ids) and not set(CHECKS) & set(na), (set(ids) ^ (set(CHECKS) | set(na)))
m = dict(
    version=1,
    setup_cmd="./check build",
    hooks=dict(guard="crofiler_verif", enable="RUSTFLAGS=\"--cfg crofiler_verif\" (set by /verif/check)", source_commits=['1967ff74c24cc25b2d4faf4320766124109d6e93', '8d3be2c91ab659c88477269f0f97fbd35fe2b81a']),
    checks=[
        dict(
            property=i,
            quick_cmd=f"./check {i} quick",
            thorough_cmd=f"./check {i} thorough",
            technique="bounded symbolic execution of the compiled code (LLVM IR) with z3",
            level="model_checking",
            level_note="Every path of the real code within the bounds, decided by z3. Bounds: " + CHECKS[i]["bounds"] + ". Trusts the symbolic executor's reading of LLVM IR (path models are re-run natively), z3, and the small models that stand in for hash functions, hash tables and memchr.",
        )
        for i in ids if i in CHECKS
    ],
    not_applicable=[dict(property=i, reason=na[i]) for i in ids if i in na],
)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
