"""Shared by the p_*.py property lists."""
def P(id, title, statement, over, qtext, why, files, mech, technique, note, state=(), observe=()):
    return dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                         "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                         "observe_at": list(observe), "hook_needed": None},
                technique=technique, note=note)

NOTE = "Held on the executions counted in the evidence file (seeded workload, deterministic oracle, replayable cases); nothing is claimed about inputs not run. Trusts the monitor's own model and the pinned toolchain. "
RT = NOTE + "The repository's pallets run unmodified, composed as in the production runtime, on the monitor's FRAME/ORML stand-ins (no crates.io sources here); the stand-ins are trusted. "
