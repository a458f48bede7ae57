T = "property-based testing: "
BASE = "Exploration of generated cases only; trusts the harness's fork server, the reference model and the LLVM 20 libraries the repository builds against. "


def p(id, title, statement, over, text, why, files, mech, technique, note="", state=(), observe=()):
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                        "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                        "observe_at": list(observe), "hook_needed": None},
            "technique": T + technique, "note": BASE + note}
