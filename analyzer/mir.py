"""Classic dataflow over one MIR body: loop heads and live locals."""


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [b for _, b in t[2]] + [t[3]]
    if k == 'call':
        return [t[5]] if t[5] is not None else []
    if k == 'assert':
        return [t[5]]
    if k == 'drop':
        return [t[2]]
    return []


def loop_heads(body):
    """Blocks that a back edge of a depth-first walk returns to."""
    if '_heads' in body:
        return body['_heads']
    bl = body['blocks']
    heads, state = set(), {}
    work = [(0, iter(succs(bl[0]['t'])))]
    state[0] = 1
    while work:
        b, it = work[-1]
        for s in it:
            if state.get(s) == 1:
                heads.add(s)
            elif s not in state:
                state[s] = 1
                work.append((s, iter(succs(bl[s]['t']))))
                break
        else:
            state[b] = 2
            work.pop()
    body['_heads'] = frozenset(heads)
    return body['_heads']


def _pl_use(pl, out):
    out.add(pl[0])
    for e in pl[1]:
        if e != '*' and e[0] == 'i':
            out.add(e[1])


def _op_use(o, out):
    if o and o[0] in ('p', 'm'):
        _pl_use(o[1], out)


def _rv_use(r, out):
    k = r[0]
    if k in ('use', 'rep'):
        _op_use(r[1], out)
    elif k in ('ref', 'addr'):
        pl = r[2] if k == 'ref' else r[1]
        if isinstance(pl, (bool, int)):
            pl = r[2]
        _pl_use(pl, out)
    elif k in ('bin', 'cbin'):
        _op_use(r[2], out)
        _op_use(r[3], out)
    elif k in ('un', 'cast'):
        _op_use(r[2], out)
    elif k in ('disc', 'len', 'cfd'):
        _pl_use(r[1], out)
    elif k == 'agg':
        for o in r[4]:
            _op_use(o, out)


def _def(pl, uses, kill):
    if not pl[1]:
        kill.add(pl[0])
    else:
        _pl_use(pl, uses)


def live_in(body):
    """Live locals at the entry of every block (drops do not count: they run no code of ours)."""
    if '_live' in body:
        return body['_live']
    bl = body['blocks']
    gen, kill = [], []
    for b in bl:
        g, k = set(), set()

        def add(us):
            g.update(us - k)
        for s in b['s']:
            u = set()
            if s[0] == '=':
                _rv_use(s[2], u)
                d = set()
                _def(s[1], u, d)
                add(u)
                k |= d
            elif s[0] == 'sd':
                _pl_use(s[1], u)
                add(u)
        t = b['t']
        u, d = set(), set()
        if t[0] == 'switch' or t[0] == 'assert':
            _op_use(t[1], u)
        elif t[0] == 'call':
            _op_use(t[1], u)
            for o in t[3]:
                _op_use(o, u)
            _def(t[4], u, d)
        elif t[0] == 'ret':
            u.add(0)
        add(u)
        k |= d
        gen.append(g)
        kill.append(k)
    live = [set() for _ in bl]
    ch = True
    while ch:
        ch = False
        for i in range(len(bl) - 1, -1, -1):
            out = set()
            for s in succs(bl[i]['t']):
                out |= live[s]
            n = gen[i] | (out - kill[i])
            if n != live[i]:
                live[i] = n
                ch = True
    body['_live'] = live
    return live
