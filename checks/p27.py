import itertools, random
from common import *
from sim import *
from par import par
RULE = 'the machine takes the first transition that applies and runs exactly its actions in order; a chain calls its nodes by priority; a pool releases each node once'
EXPLANATION = 'State machines (random hierarchies of states with guards, actions, stacks and exceptions) are followed over the compiled IR for histories of events; for every event all results of every guard, action and exception and the failure of the allocation are followed, and each call is compared with what the machine demands.  Notifier chains and resource pools are followed for every short history, with every combination of results of the callbacks.'
PRE = r'''
#include <bfdev.h>
#include <bfdev/fsm.h>
#include <bfdev/notifier.h>
#include <bfdev/respool.h>
#include <bfdev/callback.h>
#include <bfdev/action.h>
#define O(n, t, m) const unsigned long off_##n = __builtin_offsetof(t, m);
O(ttype, bfdev_fsm_transition_t, type) O(tcond, bfdev_fsm_transition_t, cond) O(tnext, bfdev_fsm_transition_t, next) O(tcross, bfdev_fsm_transition_t, cross) O(tstack, bfdev_fsm_transition_t, stack) O(tguard, bfdev_fsm_transition_t, guard) O(taction, bfdev_fsm_transition_t, action) O(tdata, bfdev_fsm_transition_t, data)
O(senter, bfdev_fsm_state_t, enter) O(sexit, bfdev_fsm_state_t, exit) O(sexc, bfdev_fsm_state_t, exception) O(sdata, bfdev_fsm_state_t, data) O(strans, bfdev_fsm_state_t, trans) O(stnum, bfdev_fsm_state_t, tnum) O(sparent, bfdev_fsm_state_t, parent) O(sentry, bfdev_fsm_state_t, entry)
O(etype, bfdev_fsm_event_t, type) O(stack, bfdev_fsm_t, stack) O(adata, bfdev_array_t, data) O(aindex, bfdev_array_t, index)
const unsigned long off_tsize = sizeof(bfdev_fsm_transition_t), off_ssize = sizeof(bfdev_fsm_state_t), off_fsize = sizeof(bfdev_fsm_t), off_esize = sizeof(bfdev_fsm_event_t),
  off_EINVAL = BFDEV_EINVAL, off_ENOENT = BFDEV_ENOENT, off_EFAULT = BFDEV_EFAULT, off_ENODATA = BFDEV_ENODATA, off_ENOMEM = BFDEV_ENOMEM, off_EOVERFLOW = BFDEV_EOVERFLOW,
  off_CHANGED = BFDEV_FSM_CHANGED, off_NOCHANGE = BFDEV_FSM_NOCHANGE, off_SELFLOOP = BFDEV_FSM_SELFLOOP, off_FINISH = BFDEV_FSM_FINISH;
const unsigned long off_nsize = sizeof(bfdev_notifier_node_t), off_nhead = sizeof(bfdev_notifier_t), off_REMOVE = BFDEV_NOTIFI_RET_REMOVE, off_STOP = BFDEV_NOTIFI_RET_STOP, off_DONE = BFDEV_NOTIFI_RET_DONE;
O(nprio, bfdev_notifier_node_t, priority) O(nentry, bfdev_notifier_node_t, entry) O(npdata, bfdev_notifier_node_t, pdata)
const unsigned long off_rsize = sizeof(bfdev_respool_node_t), off_rhead = sizeof(bfdev_respool_t); O(rrel, bfdev_respool_node_t, release)
O(afunc, bfdev_action_t, func) O(acdata, bfdev_action_t, data) const unsigned long off_acsize = sizeof(bfdev_action_t);
int cb_find(bfdev_respool_node_t *n, void *d);
'''
FA = 'bfdev_fsm_t *f'
LINES = [
    ('bfdev_fsm_init', 'void w_finit(%s, const bfdev_alloc_t *a, const bfdev_fsm_state_t *i, const bfdev_fsm_state_t *e) { bfdev_fsm_init(f, a, i, e); }' % FA),
    ('BFDEV_DEFINE_FSM', 'void w_finit2(%s, const bfdev_alloc_t *a, const bfdev_fsm_state_t *i, const bfdev_fsm_state_t *e) { BFDEV_DEFINE_FSM(x, a, i, e); *f = x; }' % FA),
    ('bfdev_fsm_reset', 'void w_freset(%s, const bfdev_fsm_state_t *i) { bfdev_fsm_reset(f, i); }' % FA),
    ('bfdev_array_release', 'void w_arel(%s) { bfdev_array_release(&f->stack); }' % FA),
    ('bfdev_fsm_curr', 'void *w_fcurr(%s) { return bfdev_fsm_curr(f); }' % FA),
    ('bfdev_fsm_prev', 'void *w_fprev(%s) { return bfdev_fsm_prev(f); }' % FA),
    ('bfdev_fsm_finished', 'int w_ffin(%s) { return bfdev_fsm_finished(f); }' % FA),
    ('bfdev_fsm_handle', 'int w_fhandle(%s, bfdev_fsm_event_t *e) { return bfdev_fsm_handle(f, e); }' % FA),
    ('bfdev_fsm_error', 'int w_ferror(%s, bfdev_fsm_event_t *e) { return bfdev_fsm_error(f, e); }' % FA),
    ('bfdev_notifier_init', 'void w_ninit(bfdev_notifier_t *h) { bfdev_notifier_init(h); }'),
    ('bfdev_notifier_register', 'int w_nreg(bfdev_notifier_t *h, bfdev_notifier_node_t *n) { return bfdev_notifier_register(h, n); }'),
    ('bfdev_notifier_unregister', 'void w_nunreg(bfdev_notifier_t *h, bfdev_notifier_node_t *n) { bfdev_notifier_unregister(h, n); }'),
    ('bfdev_notifier_call', 'int w_ncall(bfdev_notifier_t *h, void *a, unsigned n, unsigned *c) { return bfdev_notifier_call(h, a, n, c); }'),
    ('bfdev_respool_init', 'void w_rinit(bfdev_respool_t *p) { bfdev_respool_init(p); }'),
    ('bfdev_respool_check_empty', 'int w_rempty(bfdev_respool_t *p) { return bfdev_respool_check_empty(p); }'),
    ('bfdev_respool_insert', 'void w_rinsert(bfdev_respool_t *p, bfdev_respool_node_t *n) { bfdev_respool_insert(p, n); }'),
    ('bfdev_respool_remove', 'void w_rremove(bfdev_respool_t *p, bfdev_respool_node_t *n) { bfdev_respool_remove(p, n); }'),
    ('bfdev_respool_release', 'void w_rrelease(bfdev_respool_t *p, bfdev_respool_node_t *n, void *d) { bfdev_respool_release(p, n, d); }'),
    ('bfdev_respool_find', 'void *w_rfind(bfdev_respool_t *p, void *d) { return bfdev_respool_find(p, (bfdev_respool_find_t)cb_find, d); }'),
    ('bfdev_respool_find_remove', 'void *w_rfremove(bfdev_respool_t *p, void *d) { return bfdev_respool_find_remove(p, (bfdev_respool_find_t)cb_find, d); }'),
    ('bfdev_respool_find_release', 'void *w_rfrelease(bfdev_respool_t *p, void *d) { return bfdev_respool_find_release(p, (bfdev_respool_find_t)cb_find, d); }'),
    ('bfdev_respool_release_all', 'void w_rall(bfdev_respool_t *p, void *d) { bfdev_respool_release_all(p, d); }'),
    ('bfdev_action_call', 'int w_acall(bfdev_action_t *a) { return bfdev_action_call(a); }'),
    ('bfdev_action_init', 'void w_ainit(bfdev_action_t *a, void *f, void *d) { bfdev_action_init(a, (bfdev_action_func_t)f, d); }'),
    ('bfdev_action_clear', 'void w_aclear(bfdev_action_t *a) { bfdev_action_clear(a); }'),
    ('bfdev_action_update', 'void w_aupdate(bfdev_action_t *a, void *d) { bfdev_action_update(a, d); }'),
    ('bfdev_dummy_ret0', 'long w_ret0(void) { return ((long (*)(void))bfdev_dummy_ret0)(); }'),
    ('bfdev_dummy_ret1', 'long w_ret1(void) { return ((long (*)(void))bfdev_dummy_ret1)(); }'),
    ('bfdev_dummy_noop', 'void w_noop(void) { ((void (*)(void))bfdev_dummy_noop)(); }'),
]


class Wrong(Exception):
    def __init__(s, api, t): super().__init__(t); s.api = api


class Skip(Exception): pass


def signed(v, bits=32): return v - (1 << bits) if isinstance(v, int) and v >> (bits - 1) & 1 else v


# ---------------------------------------------------------------- state machines
def machine(rnd):
    n = rnd.randint(2, 5); S = []
    for i in range(n):
        S.append(dict(parent=rnd.choice([None] + list(range(i))) if rnd.random() < .5 else None,
                      entry=rnd.randrange(i + 1, n) if i + 1 < n and rnd.random() < .2 else None,
                      enter=rnd.random() < .6, exit=rnd.random() < .6, exc=rnd.random() < .25, trans=[]))
        if rnd.random() < .85:
            for _ in range(rnd.randint(1, 3)):
                cross = rnd.random() < .25
                x = rnd.random()
                if x < .25: S[-1]['trans'].append(dict(type=rnd.choice([1, 1, 2]), next=None, cross=False, stack=rnd.choice([-1, -2, -2, -3]), guard=rnd.random() < .3, action=rnd.random() < .5)); continue
                if x < .55: S[-1]['trans'].append(dict(type=rnd.choice([1, 1, 2]), next=rnd.randrange(n), cross=False, stack=rnd.choice([1, 2]), guard=rnd.random() < .2, action=rnd.random() < .5)); continue
                S[-1]['trans'].append(dict(type=rnd.choice([1, 1, 2]), next=rnd.choice([None] + list(range(n)) * 2), cross=cross, stack=rnd.choice([0, 0, 0, 1, 3, -1, -1, -2]),
                                           guard=rnd.random() < .4, action=cross or rnd.random() < .5))
    return S, rnd.randrange(n), rnd.choice([None] + list(range(n)))


class Fsm(Sim):
    """trace: [(what, where, result)]"""
    def setup(s, K, M, init):
        s.K = K; s.M = M; S, first, error = M; s.trace = []; s.picks = []; s.at = 0; s.arity = []
        s.hist = (first, None); s.kept = []
        for i, st in enumerate(S):
            o = 'S%d' % i; s.new(o, K['ssize'], True); T = 'T%d' % i; s.new(T, max(1, len(st['trans'])) * K['tsize'], True)
            for f, k in (('enter', 'senter'), ('exit', 'sexit'), ('exc', 'sexc')):
                if st[f]: s.put(o, K[k], P(('f', 'cb_%s%d' % (f, i))), 8)
            s.put(o, K['sdata'], 0x1000 + i, 8); s.put(o, K['strans'], P(T) if st['trans'] else 0, 8); s.put(o, K['stnum'], len(st['trans']), 4)
            for f, k in (('parent', 'sparent'), ('entry', 'sentry')):
                if st[f] is not None: s.put(o, K[k], P('S%d' % st[f]), 8)
            for j, t in enumerate(st['trans']):
                b = j * K['tsize']; s.put(T, b + K['ttype'], t['type'], 4); s.put(T, b + K['tcond'], 0x2000 + i * 16 + j, 8); s.put(T, b + K['tdata'], 0x3000 + i * 16 + j, 8)
                if t['next'] is not None: s.put(T, b + K['tnext'], P('S%d' % t['next']), 8)
                s.put(T, b + K['tcross'], int(t['cross']), 1); s.put(T, b + K['tstack'], t['stack'] & 0xffffffff, 4)
                if t['guard']: s.put(T, b + K['tguard'], P(('f', 'cb_guard')), 8)
                if t['action']: s.put(T, b + K['taction'], P(('f', 'cb_action')), 8)
            s.ro |= {o, T}
        s.new('ev', K['esize'], True); s.new('fsm', K['fsize'], False)
        s.do(init, P('fsm'), 0, P('S%d' % first), P('S%d' % error) if error is not None else 0); s.bind()

    def bind(s):
        for i, st in enumerate(s.M[0]):
            for f in ('enter', 'exit'):
                s.handlers['cb_%s%d' % (f, i)] = lambda a, ins, f=f, i=i: s.cb((f, i), a, [('p', 'ev', 0), 0x1000 + i], [0, 5, -7])
            s.handlers['cb_exc%d' % i] = lambda a, ins, i=i: s.cb(('exc', i), a, [('p', 'ev', 0), 0x1000 + i], [0] + [P('T%d' % k, j * s.K['tsize']) for k, st in enumerate(s.M[0]) for j in range(len(st['trans']))][:3])
        s.handlers['cb_guard'] = lambda a, ins: s.cb(('guard', a[1] if len(a) > 1 else None), a, [('p', 'ev', 0), None], [0, 1])
        s.handlers['cb_action'] = lambda a, ins: s.cb(('action',) + tuple(a[1:]), a, [('p', 'ev', 0), None, None, None], [0, 6, -9])

    def cb(s, what, a, want, opts):
        if len(a) != len(want) or any(w is not None and x != w for x, w in zip(a, want)): raise Wrong('handle', 'calls %s with %s' % (what, a))
        if len(s.trace) > 12: raise Skip()
        if s.at < len(s.picks): k = s.picks[s.at]
        else: k = 0; s.picks.append(0)
        if s.at >= len(s.arity): s.arity.append(len(opts))
        s.at += 1; v = opts[k]; s.trace.append((what, v))
        return v & 0xffffffff if isinstance(v, int) else v

    # the machine as the property has it; results of callbacks are taken from the trace
    def model(s, ev, failed):
        S, _, error = s.M; K = s.K; tr = list(s.trace); pos = [0]

        def call(*what):
            if pos[0] >= len(tr): raise Wrong('handle', 'does not call %s' % (what,))
            w, v = tr[pos[0]]; pos[0] += 1
            if w != what: raise Wrong('handle', 'calls %s where %s is due' % (w, what))
            return v

        def enter(i):
            s.hist = (i, s.hist[0])

        def fail():
            r = 0; enter(error)
            if error is not None and S[error]['enter']: r = call('enter', error)
            return r

        def handle():
            cur = s.hist[0]
            if cur is None: return -K['EINVAL']
            while cur is not None:
                st = S[cur]; t = None
                for j, c in enumerate(st['trans']):
                    if c['type'] == ev and (not c['guard'] or call('guard', 0x2000 + cur * 16 + j) == 0): t = (cur, j); break
                else:
                    if st['exc']:
                        v = call('exc', cur)
                        if v != 0: t = (int(v[1][1:]), v[2] // K['tsize'])
                if t is None: cur = st['parent']; continue
                c = S[t[0]]['trans'][t[1]]; nx = c['next']
                if nx is None and c['stack'] < 0:
                    if len(s.kept) < -c['stack']: return -K['EOVERFLOW']
                    nx = s.kept[c['stack']]; del s.kept[c['stack']:]
                if nx is None: return fail() or -K['ENOENT']
                while S[nx]['entry'] is not None: nx = S[nx]['entry']
                if cur != nx and c['stack'] <= 0 and st['exit']:
                    r = call('exit', cur)
                    if r: return r
                if c['action']:
                    r = call('action', 0x3000 + t[0] * 16 + t[1], 0x1000 + cur, 0x1000 + nx)
                    if r: return r
                if cur != nx and c['stack'] >= 0 and S[nx]['enter']:
                    r = call('enter', nx)
                    if r: return r
                enter(nx)
                if nx == error: return -K['EFAULT']
                if nx == cur: return K['SELFLOOP']
                if not S[nx]['trans'] and not S[nx]['exc']: return K['FINISH']
                if c['stack'] > 0:
                    if failed: return -K['ENOMEM']
                    s.kept.append(cur)
                if not c['cross']: return K['CHANGED']
                cur = nx
            return K['NOCHANGE']
        r = handle() if ev is not None else fail()
        if pos[0] < len(tr): raise Wrong('handle', 'calls %s, which is not due' % (tr[pos[0]][0],))
        return r

    def event(s, ev, failat):
        K = s.K; s.trace = []; s.at = 0; s.arity = []; s.put('ev', K['etype'], ev or 0, 4)
        s.failat = {s.nalloc + 1} if failat else None; n = s.nfail
        r = signed(s.do('w_fhandle' if ev is not None else 'w_ferror', P('fsm'), P('ev'))); s.failat = None
        w = s.model(ev, s.nfail > n); api = 'handle' if ev is not None else 'error'
        if r != w: raise Wrong(api, 'gives %s, due is %s' % (r, w))
        s.out = w if ev is not None else 'error'
        s.audit(api)

    def state(s, i): return P('S%d' % i) if i is not None else 0

    def audit(s, api):
        K = s.K; c, p = s.hist
        if s.do('w_fcurr', P('fsm')) != s.state(c): raise Wrong(api, 'the state is not %s' % (c,))
        if p is not None and s.do('w_fprev', P('fsm')) != s.state(p): raise Wrong(api, 'the state before is not %s' % (p,))
        if c is not None and bool(s.do('w_ffin', P('fsm'))) != (not s.M[0][c]['trans'] and not s.M[0][c]['exc']): raise Wrong('finished', 'is wrong in state %d' % c)
        if s.cell('fsm', K['stack'] + K['aindex']) != len(s.kept): raise Wrong(api, 'the stack holds %s states, due are %s' % (s.cell('fsm', K['stack'] + K['aindex']), s.kept))
        if s.kept:
            d = s.cell('fsm', K['stack'] + K['adata'])
            for i, k in enumerate(s.kept):
                if s.cell(d[1], d[2] + 8 * i) != s.state(k): raise Wrong(api, 'the stack holds another state')

    def fork(s):
        c = s.clone(); c.kept = list(s.kept); c.picks = []; c.trace = []; c.bind(); return c


def run(ctx, res):
    quick = ctx.tier == 'quick'

    def say(r, f, api, case, t): r.bad('%s:%s' % (f, api), 'src/%s.c (bfdev_%s_%s)' % (f, f, api), RULE, 'bfdev_%s_%s: %s: %s' % (f, api, case, t))

    def guarded(r, f, case, job):
        try: return job()
        except Wrong as e: say(r, f, e.api, case() if callable(case) else case, str(e))
        except Bad as e: say(r, f, 'handle' if f == 'fsm' else 'call' if f == 'notifier' else 'release_all', case() if callable(case) else case, e.text + (' at %s' % relf(e.ins.where) if e.ins else ''))
        except (Stuck, Bound) as e: r.undecided(f, str(e) or 'does not end')
        return None

    def fsm(r, mods, K, seeds):
        for seed in seeds:
            rnd = random.Random(seed); M = machine(rnd); h = []
            base = Fsm(mods)
            case = lambda: 'machine %s, after events %s' % (M, h)
            def boot(): base.setup(K, M, rnd.choice(['w_finit', 'w_finit2'])); base.audit('init'); return True
            if not guarded(r, 'fsm', case, boot): return
            for step in range(9 if quick else 16):
                ev = None if rnd.random() < .06 else rnd.choice([1, 1, 1, 2, 3]); h.append(ev); done = []; ok = True
                for failat in (0, 1):
                    todo = [[]]; n = 0
                    while todo and n < 150:
                        picks = todo.pop(); b = base.fork(); b.picks = list(picks); n += 1
                        b.made = 0; before = b.nfail
                        try:
                            if not guarded(r, 'fsm', case, lambda: b.event(ev, failat) or True): return
                        except Skip: r.count('skipped'); ok = False; todo = None; break
                        r.count('steps'); r.count('outcome %s' % b.out)
                        for k in range(len(picks), len(b.arity)): todo += [b.picks[:k] + [j] for j in range(1, b.arity[k])]
                        if failat and b.nfail == before: break
                        if not failat: done.append(b)
                    if not ok: break
                if not ok: break
                good = [d for d in done if all(v in (0,) or isp(v) for w, v in d.trace if w[0] != 'guard')] or done
                base = rnd.choice(good if rnd.random() < .85 else done)
                if rnd.random() < .08:
                    i = rnd.randrange(len(M[0])); h.append('reset'); base.hist = (i, None); base.kept = []
                    if not guarded(r, 'fsm', case, lambda: base.do('w_freset', P('fsm'), P('S%d' % i)) or base.audit('reset') or True): return
            base.hist = (0, None); base.kept = []

            def end():
                base.do('w_freset', P('fsm'), P('S0')); base.audit('reset')
                base.do('w_arel', P('fsm'))
                if base.heap: raise Wrong('reset', 'leaves memory that is not the stack')
                return True
            if not guarded(r, 'fsm', case, end): return
            r.count('machines')

    # ---------------------------------------------------------------- notifier chains
    def notifier(r, mods, K, part, parts):
        PR = [5, -3, 5, 0x7fffffff, -0x80000000]

        class Chain(Sim):
            def setup(s):
                s.new('head', K['nhead'], False); s.do('w_ninit', P('head')); s.on = []; s.calls_ = []; s.rets = {}
                for i, p in enumerate(PR):
                    o = 'n%d' % i; s.new(o, K['nsize'], False); s.put(o, K['nprio'], p & 0xffffffff, 4); s.put(o, K['nentry'], P(('f', 'cb_n%d' % i)), 8); s.put(o, K['npdata'], 0x100 + i, 8)
                s.new('bad', K['nsize'], False); s.put('bad', K['nprio'], 0, 4); s.put('bad', K['nentry'], 0, 8); s.new('num', 4, False); s.bind()

            def bind(s):
                for i in range(len(PR)): s.handlers['cb_n%d' % i] = lambda a, ins, i=i: s.cb(i, a)

            def cb(s, i, a):
                if list(a) != [0x77, 0x100 + i]: raise Wrong('call', 'hands %s to a node' % (a,))
                s.calls_.append(i); return s.rets.get(i, 0)

            def fork(s):
                c = s.clone(); c.on = list(s.on); c.rets = {}; c.calls_ = []; c.bind(); return c

            def notify(s, limit, rets, num):
                s.calls_ = []; s.rets = rets; v = K['DONE']; due = []
                if num: s.put('num', 0, 3, 4)
                got = s.do('w_ncall', P('head'), 0x77, limit, P('num') if num else 0)
                for i in list(s.on):
                    if len(due) == limit: break
                    due.append(i); v = rets.get(i, 0)
                    if v & K['REMOVE']: s.on.remove(i); v &= ~K['REMOVE']
                    if v & K['STOP']: break
                order = [PR[i] for i in s.calls_]
                if order != sorted(order): raise Wrong('call', 'does not call by priority: %s' % order)
                if s.calls_ != due: raise Wrong('call', 'calls %s, due are %s' % (s.calls_, due))
                if got != v: raise Wrong('call', 'gives %s, due is %s' % (got, v))
                if num and s.cell('num', 0, 4) != 3 + len(due): raise Wrong('call', 'counts %s calls, %d were made' % (s.cell('num', 0, 4) - 3, len(due)))

        def due_order(s, i):
            # equal priorities: the order is that of the chain; taken from a plain notification
            s.calls_ = []; s.rets = {}; s.do('w_ncall', P('head'), 0x77, 0xffffffff, 0); c = s.calls_
            if sorted(c) != sorted(s.on + [i]): raise Wrong('register', 'the chain holds %s, registered are %s' % (c, s.on + [i]))
            if [x for x in c if x != i] != s.on: raise Wrong('register', 'changes the order of the others')
            return list(c)
        base = Chain(mods)
        if not guarded(r, 'notifier', 'init', lambda: base.setup() or True): return
        for perm in list(itertools.permutations(range(5), 4))[part::parts]:
            h = []; a = base.fork(); case = lambda: 'priorities %s, history %s' % (PR, h)

            def grow(a, i):
                h.append('+%d' % i)
                if a.do('w_nreg', P('head'), P('bad')) != (-K['EINVAL']) & 0xffffffff: raise Wrong('register', 'accepts a node without entry')
                if a.do('w_nreg', P('head'), P('n%d' % i)) != 0: raise Wrong('register', 'fails')
                a.on = due_order(a, i); return True
            for i in perm:
                if not guarded(r, 'notifier', case, lambda: grow(a, i)): return
                b = a.fork(); rnd = random.Random(repr(perm) + str(i)); combos = list(itertools.product(range(4), repeat=len(b.on)))
                for rets in (combos if len(combos) <= 16 or not quick else rnd.sample(combos, 12)):
                    for limit in (0xffffffff, rnd.randrange(len(b.on) + 1)):
                        c = b.fork(); h2 = len(h); h.append('call %s limit %d' % (rets, limit)); r.count('notifications')

                        def one():
                            c.notify(limit, dict(zip(c.on, rets)), True); c.notify(0xffffffff, {}, False)
                            if c.on:
                                j = rnd.choice(c.on); h.append('-%d' % j); c.on.remove(j); c.do('w_nunreg', P('head'), P('n%d' % j)); c.notify(0xffffffff, {}, True)
                                grow(c, j); c.notify(0xffffffff, {}, True)
                            return True
                        if not guarded(r, 'notifier', case, one): return
                        del h[h2:]

    # ---------------------------------------------------------------- resource pools, actions, dummies
    def respool(r, mods, K, note):
        class Pool(Sim):
            def setup(s):
                s.new('pool', K['rhead'], False); s.do('w_rinit', P('pool')); s.on = []; s.rel = []
                for i in range(4): s.new('r%d' % i, K['rsize'], False); s.put('r%d' % i, K['rrel'], P(('f', 'cb_rel')), 8)
                s.bind()

            def bind(s):
                s.handlers['cb_rel'] = lambda a, ins: s.release_(a); s.handlers['cb_find'] = lambda a, ins: 0 if a[0] == P('r%d' % (a[1] - 0x50)) else s.other(a[0], a[1])

            def other(s, n, d):
                # a mismatch may have either sign
                return 1 if (int(n[1][1:]) + d) % 3 == 1 else -1

            def release_(s, a):
                if len(a) != 2 or not isp(a[0]) or a[1] != s.want: raise Wrong('release', 'hands %s to the callback' % (a,))
                i = int(a[0][1][1:])
                if i in s.rel: raise Wrong('release', 'of a node twice')
                s.rel.append(i); s.dead.add('r%d' % i); return 0

            def fork(s): c = s.clone(); c.on = list(s.on); c.rel = list(s.rel); c.bind(); return c

            def audit(s, api):
                if bool(s.do('w_rempty', P('pool'))) != (not s.on): raise Wrong(api, 'the pool says empty=%s, it holds %s' % (not not s.do('w_rempty', P('pool')), s.on))
                for i in range(4):
                    if i in s.rel: continue
                    got = s.do('w_rfind', P('pool'), 0x50 + i)
                    if got != (P('r%d' % i) if i in s.on else 0): raise Wrong('find', 'gives %s, the pool holds %s' % (got, s.on))

            def op(s, op, i):
                s.want = 0x99; before = list(s.rel); N = P('r%d' % i); due = before; nm = {'find_release': 'find_release'}.get(op, op)
                if op == 'insert': s.do('w_rinsert', P('pool'), N); s.on.append(i)
                elif op == 'remove': s.do('w_rremove', P('pool'), N); s.on.remove(i)
                elif op == 'release': s.do('w_rrelease', P('pool'), N, 0x99); s.on.remove(i); due = before + [i]
                elif op in ('find_remove', 'find_release'):
                    s.want = 0x50 + i; got = s.do('w_rf' + op[5:], P('pool'), 0x50 + i); has = i in s.on
                    if got != (N if has else 0): raise Wrong(op, 'gives %s' % (got,))
                    if has:
                        s.on.remove(i)
                        if op == 'find_release': due = before + [i]
                elif op == 'release_all': s.do('w_rall', P('pool'), 0x99); due = before + s.on; s.on = []
                if sorted(due) != sorted(s.rel): raise Wrong(op, 'releases %s, due are %s' % (s.rel[len(before):], due[len(before):]))
                s.audit(op)
        a = Pool(mods)
        if not guarded(r, 'respool', 'init', lambda: a.setup() or a.audit('init') or True): return
        todo = [(a, ())]; seen = set()
        for a, h in todo:
            free = [i for i in range(4) if i not in a.on and i not in a.rel]
            ops = [('insert', i) for i in free] + [(o, i) for i in a.on for o in ('remove', 'release')] + [(o, i) for i in range(4) if i not in a.rel for o in ('find_remove', 'find_release')] + [('release_all', 0)]
            for op in ops:
                b = a.fork(); r.count('pool_operations')
                if not guarded(r, 'respool', '%s%s' % (h + (op,), note), lambda: b.op(*op) or True): return
                k = (tuple(b.on), tuple(sorted(b.rel)))
                if k not in seen: seen.add(k); todo.append((b, h + (op,)))

        def plain():
            s = Sim(mods); s.new('act', K['acsize'], False); s.seen = []
            s.handlers['cb_a'] = lambda a, ins: s.seen.append(list(a)) or 0xfffffff9
            s.do('w_ainit', P('act'), P(('f', 'cb_a')), 0x123)
            if signed(s.do('w_acall', P('act'))) != -7 or s.seen != [[0x123]]: raise Wrong('call', 'of an action is wrong: %s' % s.seen)
            s.do('w_aupdate', P('act'), 0x456)
            if signed(s.do('w_acall', P('act'))) != -7 or s.seen[1:] != [[0x456]]: raise Wrong('call', 'of an updated action is wrong: %s' % s.seen)
            s.do('w_aclear', P('act'))
            if signed(s.do('w_acall', P('act'))) != -K['ENODATA'] or s.seen[2:]: raise Wrong('call', 'of a cleared action is wrong')
            if s.do('w_ret0') != 0 or s.do('w_ret1') != 1: raise Wrong('ret', 'gives another value')
            s.do('w_noop'); r.count('plain'); return True
        guarded(r, 'callback', 'plain', plain)
    jobs = []
    for dbg in (False, True):
        mod = ctx.instantiate('w_p27%s' % ('d' if dbg else ''), PRE, LINES, res, debug=dbg); mods = [mod, ctx.lib(dbg)]; K = offsets(mod)
        nb = (12 if not dbg else 2); per = 100 if quick else 600
        for i in range(nb): jobs.append(lambda r, m=mods, K=K, i=i: fsm(r, m, K, range(i * per, (i + 1) * per)))
        jobs += [lambda r, m=mods, K=K, i=i: notifier(r, m, K, i, 4 if not dbg or not quick else 8) for i in range(4)]; jobs.append(lambda r, m=mods, K=K, t=', with debug checks' if dbg else '': respool(r, m, K, t))
    par(res, jobs, 8)
    res.need('steps', 3000); res.need('machines', 50); res.need('notifications', 400); res.need('pool_operations', 300); res.need('plain', 2)
