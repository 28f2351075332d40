"""Runs programs on satyr's Python module: one JSON list of commands per line on stdin, one JSON list of results per line on stdout."""
import array, ctypes, gc, json, pickle, sys

import satyr

out = sys.stdout
sys.stdout = sys.stderr

R = {}


def ref(p):
    """[register, attribute or index...]"""
    o = R[p[0]]
    for k in p[1:]:
        o = o[k] if isinstance(k, int) else getattr(o, k)
    return o


def arg(v):
    if isinstance(v, dict):
        (k, x), = v.items()
        if k == "ref":
            return ref(x)
        if k == "list":
            return [arg(y) for y in x]
        if k == "float":
            return float.fromhex(x)
        if k == "bytes":
            return x.encode()
        if k == "new":
            return object()
    return v


def res(v):
    if v is None or isinstance(v, (bool, int, str)):
        return v
    if isinstance(v, float):
        return {"float": v.hex()}
    if isinstance(v, (list, tuple)):
        return [res(x) for x in v]
    if isinstance(v, dict):
        return {"dict": [[k, res(x)] for k, x in v.items()]}
    return {"obj": type(v).__name__}


FIELDS = json.loads(sys.argv[1])          # class -> attributes


def dump(o, depth=0):
    c = type(o).__name__
    if c == "list":
        return [dump(x, depth + 1) for x in o]
    if c not in FIELDS:
        return res(o)
    d = {"class": c}
    for a in FIELDS[c]:
        try:
            v = getattr(o, a)
        except AttributeError:
            d[a] = "<deleted>"
            continue
        d[a] = dump(v, depth + 1) if depth < 6 else "..."
    return d


def step(c):
    op = c[0]
    if op == "new":
        R[c[1]] = getattr(satyr, c[2])(*[arg(a) for a in c[3]])
        return res(R[c[1]])
    if op == "hold":
        R[c[1]] = ref(c[2])
    elif op == "free":
        R.pop(c[1], None)
    elif op == "get":
        return dump(getattr(ref(c[1]), c[2]))
    elif op == "set":
        setattr(ref(c[1]), c[2], arg(c[3]))
    elif op == "del":
        delattr(ref(c[1]), c[2])
    elif op == "ldel":
        l = ref(c[1])
        del l[c[2]:c[3]]
    elif op == "lins":
        ref(c[1]).insert(c[2], arg(c[3]))
    elif op == "lset":
        ref(c[1])[c[2]] = arg(c[3])
    elif op == "lrev":
        ref(c[1]).reverse()
    elif op == "lrot":
        l = ref(c[1])
        l[:] = l[c[2]:] + l[:c[2]]
    elif op == "call":                  # target register or None, object, method, args, kwargs
        v = getattr(ref(c[2]), c[3])(*[arg(a) for a in c[4]], **{k: arg(a) for k, a in (c[5] if len(c) > 5 else {}).items()})
        if c[1] is not None:
            R[c[1]] = v
        return res(v)
    elif op == "scall":                 # static / class method: class, method, args, kwargs
        v = getattr(getattr(satyr, c[2]), c[3])(*[arg(a) for a in c[4]], **{k: arg(a) for k, a in (c[5] if len(c) > 5 else {}).items()})
        if c[1] is not None:
            R[c[1]] = v
        return res(v)
    elif op == "is":
        return ref(c[1]) is ref(c[2])
    elif op == "str":
        return str(ref(c[1]))
    elif op == "dump":
        return dump(ref(c[1]))
    elif op == "pickle":
        R[c[1]] = pickle.loads(pickle.dumps(ref(c[2])))
    elif op == "fun":
        return res(getattr(satyr, c[1])(*[arg(a) for a in c[2]]))
    elif op == "const":
        return res(getattr(satyr, c[1]))
    else:
        raise SystemError("unknown command " + op)


def run(prog):
    results = []
    for c in prog:
        try:
            results.append(step(c))
        except Exception as e:
            results.append({"exc": type(e).__name__, "msg": str(e)})
            e = None
    R.clear()
    gc.collect()
    return results


live = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
live.restype = ctypes.c_size_t

for line in sys.stdin:
    prog = json.loads(line)
    if prog and prog[0] == "grow":         # bytes that remain after every further run of the program
        results = run(prog[1])
        marks = array.array("Q", [0] * prog[2])
        for i in range(prog[2]):
            run(prog[1])
            marks[i] = live()
        marks = [results, [y - x for x, y in zip(marks, marks[1:])]]
        results = marks
        marks = None
    else:
        results = run(prog)
    prog = None
    out.write(json.dumps(results) + "\n")
    out.flush()
