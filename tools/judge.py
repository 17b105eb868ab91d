"""Comparison of a recorded trace with the observations a specification behaviour prescribes."""


def steps(s, r):
    """every step's recorded observation has the values the specification gives"""
    obs = r.get("obs", [])
    ops = s["ops"]
    if len(obs) != len(ops):
        return "trace has %d steps, specification %d" % (len(obs), len(ops))
    for i, (op, o) in enumerate(zip(ops, obs)):
        for k, v in op["exp"].items():
            if o.get(k) != v:
                return "step %d %s: %s is %r, specification requires %r" % (i, op["op"], k, o.get(k), v)
    return None


def opkey(s, r, why):
    """classify by the operation at which the trace leaves the specification"""
    if why.startswith("step"):
        p = why.split(":")[0].split()
        return "%s op %s" % (s.get("t", ""), p[2])
    return why.split("\n")[0]
