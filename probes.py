"""Fixed plans: the histories of known findings and of repaired defects."""
from dst import Plan


def _plan(text, loops=1):
    p = Plan(loops=loops)
    for l in text.strip().split("\n"):
        k, *kv = l.split()
        p.add(k, id=1 if loops > 1 else None, **dict(x.split("=", 1) for x in kv))
    return p


PROBES = {
    "C04": [("copy-leak", _plan("""
pmake desc=z0:3 s=0
pcopy s=0 t=1
vpush s=0
vpush s=1
""" + "\n".join("pdel s=%d" % i for i in range(5)) + "\nvclear\npfree s=0", 7), "copies of a contact")],
    "C13": [("assign-alias", _plan("""
pmake desc=ctq:1 s=0
pmake desc=ctq:1 s=1
passign s=0 t=1
pmut desc=ctq:1:cone~40 s=1 what=6
pcall desc=ctq:1 s=0
"""), "assignment shares the contact model")],
}


PROBES["C13"][0][1].note = "strict"


def plans(prop):
    """(identity or None, plan, note)"""
    return PROBES.get(prop, [])
