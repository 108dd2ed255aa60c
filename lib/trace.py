"""Case-wise effect summaries of small functions.

The specification supplies cases (facts about the inputs); the function is analysed once per case by the
path-sensitive dataflow and every feasible exit must show exactly the specified calls, stores and result.
How the code branches, names or orders independent steps is irrelevant."""
from flow import *


class Trace(Flow):
    merge = False
    max_states = 4000

    def __init__(self, fn, pre=(), pure=(), model=None, fork=False, visit=None):
        super().__init__(fn)
        self.pre = pre; self.pure = pure; self.model = model; self.fork_alias = fork
        self.accesses = []; self.visit = visit

    def init(s, st):
        st.ts['tr'] = ()
        for p in s.pre:
            k, v = p[0], p[1]
            if k == 'null': ok = s.setfact(st, v, 0, 0)
            elif k == 'nonnull': ok = s.setfact(st, v, nz=True)
            elif k == 'range': ok = s.setfact(st, v, p[2], p[3])
            elif k == 'mem':
                st.mem[v] = Mem(p[2], p[3] if len(p) > 3 else 8, False); ok = True
            elif k == 'true': ok = s.assume(st, v, True)
            elif k == 'false': ok = s.assume(st, v, False)
            else: raise ValueError(k)
            if not ok: raise Infeasible()

    def on_load(s, st, ins, addr):
        s.accesses.append(('r', addr, ins, st.ts.get('tr')))

    def on_store(s, st, ins, addr, val):
        s.accesses.append(('w', addr, ins, st.ts.get('tr')))

    def on_call(s, st, ins, callee, args):
        if callee in s.pure: return None
        if callee is None:
            c = ('ind', s.val(st, ins.d['ind']))
        else: c = callee
        if s.model:
            r = s.model(s, st, ins, c, args)
            if r is not None and r is not NotImplemented: return r
            if r is NotImplemented: return None
        st.ts['tr'] = st.ts['tr'] + ((c, tuple(args), ins.i),)
        return None

    def call_havoc(s, st, ins, callee, args):
        return callee not in s.pure if not s.model else callee is None

    def on_ret(s, st, ins, val):
        s.exits.append((st, ins, val))


def arg(i): return mk('arg', i)


def ld(a, off=0, sz=8, tag=0):
    a = ptradd(a, off)
    return mk('ld', a, tag) if sz == 8 else mk('ld', a, tag, sz)


def isnull(F, st, v):
    return v is NULL or F.fact(st, v)[0:2] == (0, 0)
