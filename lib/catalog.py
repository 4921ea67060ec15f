"""The catalogue of properties; writes properties.jsonl and MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CAT = []


def c(pid, title, statement, over, qtext, why, files, mech, observe, state=()):
    CAT.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over.split(), text=qtext), why_tests_cant=why,
                    anchors=dict(files=files.split(), state=[dict(name=a, meaning=b, where=w) for a, b, w in state],
                                 mechanism=[dict(name=a, where=w) for a, w in mech], observe_at=observe.split(";"), hook_needed=None)))


exec(open(os.path.join(ROOT, "lib", "cat_data.py")).read())

if __name__ == "__main__":
    import props
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
        for p in CAT:
            assert len(p["title"]) <= 80, p["title"]
            fh.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in CAT:
        if p["id"] in props.PROPS:
            checks.append(dict(property=p["id"], quick_cmd="./check %s quick" % p["id"], thorough_cmd="./check %s thorough" % p["id"],
                               technique="bounded symbolic execution of the real C sources with CBMC (SAT/SMT), counterexamples replayed natively",
                               level="other",
                               level_note="Solver-decided for every value within the bounds listed per harness in the evidence file; nothing is claimed "
                                          "outside them. Trusts CBMC, the libpari/libc model in model/ and the stubs the evidence lists under assumptions."))
        else:
            na.append(dict(property=p["id"], reason=NA.get(p["id"], "no check has been built for it yet")))
    json.dump(dict(version=1, setup_cmd="sh ./setup.sh", checks=checks, not_applicable=na,
                   notes="Every check recompiles /repo's current sources with goto-cc; no hooks in /repo are needed."),
              open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "claimed", [x["property"] for x in na])
