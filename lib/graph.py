"""Behaviours of a model as sequences of operations: TLC's state graph (each
state carries the operation that led to it) covered by paths."""
import os, re, random
import tlc

_cache = {}


def graph(module, cfgtext):
    """-> (ops per node, successors per node, initial nodes, result)"""
    k = (module, cfgtext)
    if k not in _cache:
        r = tlc.run(module, cfgtext=cfgtext, args=["-dump", "dot", "g.dot"], keep="g.dot")
        if r.rc != 0:
            raise tlc.TlcError("%s: %s" % (module, r.out[-2000:]))
        ops, succ, init, text = {}, {}, [], {}
        for line in r.kept.splitlines():
            m = re.match(r'(-?\d+) -> (-?\d+)', line)
            if m:
                succ.setdefault(m.group(1), []).append(m.group(2))
                continue
            m = re.match(r'(-?\d+) \[label="(.*)"(.*)\]', line)
            if m:
                # (long values are spread over several lines)
                o = re.search(r'op = <<(.*?)>>', re.sub(r'\\n\s+', ' ', m.group(2)))
                ops[m.group(1)] = [x.strip().strip('\\"') for x in o.group(1).split(",")]
                text[m.group(1)] = m.group(2)
                if "style = filled" in m.group(3):
                    init.append(m.group(1))
        # numbered by what they are: TLC's own numbers differ from run to run
        num = {n: i for i, n in enumerate(sorted(text, key=text.get))}
        ops = {num[n]: o for n, o in ops.items()}
        succ = {num[n]: sorted(num[x] for x in v) for n, v in succ.items()}
        _cache[k] = (ops, succ, sorted(num[n] for n in init), r)
    return _cache[k]


def starts(module, cfgtext):
    """what the initial states of a model are about"""
    ops, succ, init, r = graph(module, cfgtext)
    return sorted(ops[n] for n in init)


def behaviours(module, cfgtext, rng, num, depth):
    """random behaviours of a model (TLC -simulate) as lists of operations"""
    r = tlc.run(module, cfgtext=cfgtext, workers=1,
                args=["-simulate", "num=%d,file=behaviour" % num, "-depth", str(depth), "-seed", str(rng.randrange(1 << 31))])
    if r.rc != 0 or len(r.files) < num:
        raise tlc.TlcError("%s: %s" % (module, r.out[-2000:]))
    out = []
    for f in sorted(r.files, key=lambda f: [int(x) for x in re.findall(r"\d+", f)]):
        out.append([[x.strip().strip('"') for x in o.split(",")] for o in re.findall(r"op = <<(.*?)>>", r.files[f])])
    return out


def tours(module, cfgtext, rng, length, limit=None):
    """paths from the initial state that together take every transition (or as
    many as `limit' paths of that length do)"""
    ops, succ, init, r = graph(module, cfgtext)
    todo = {n: list(s) for n, s in succ.items()}
    for n in sorted(todo):
        rng.shuffle(todo[n])
    left = sum(len(s) for s in todo.values())
    total = left
    out = []
    while left and (limit is None or len(out) < limit):
        n = rng.choice(init)
        path, fresh = [ops[n]], 0
        while len(path) < length:
            if not todo.get(n):
                # the shortest way to something new
                way = nearest(n, succ, todo, length - len(path) - 1)
                if not way:
                    break
                path += [ops[x] for x in way]
                n = way[-1]
            n = todo[n].pop()
            left -= 1
            fresh += 1
            path.append(ops[n])
        if not fresh:
            break
        out.append(path)
    return out, {"transitions": total, "taken": total - left, "result": r}


def nearest(n, succ, todo, far):
    """a shortest path (without n) to a node with transitions left, at most `far' steps"""
    prev, level = {n: None}, [n]
    for _ in range(far):
        nxt = []
        for x in level:
            for y in succ.get(x, ()):
                if y not in prev:
                    prev[y] = x
                    if todo.get(y):
                        way = [y]
                        while prev[way[-1]] != n:
                            way.append(prev[way[-1]])
                        return way[::-1]
                    nxt.append(y)
        level = nxt
    return []
