"""C02-C05: the life of file objects, for every format."""
import os, json, random
from main import check
import pool
LOOK = ['items', 'attrs', 'keys', 'repr', 'df', 'written']


def setup(ctx, only=None):
    """The samples, and what objects look like that read them in a process of their own"""
    import life, pickle
    S = life.load_samples()
    have = life.classes()
    S = {c: v for c, v in sorted(S.items()) if c in have and (only is None or c in only)}
    life.warm()
    todo = [(c, s) for c in S for s in S[c]]
    res = pool.run(todo, ctx.scratch, func='life.reference', limit=300, chunk=1)
    for (c, s), r in zip(todo, res):
        if not isinstance(r, dict):
            ctx.violate('reference:' + s['id'], '{}: {}: {}'.format(c, s['main'], r), {'func': 'life.reference', 'payload': [c, s]})
            continue
        life._REFS[s['id']] = r
    # a sample that cannot be read is no sample: every file used here is a legal one
    out = {}
    for c in S:
        for s in S[c]:
            r = life._REFS.get(s['id'])
            if r is None:
                continue
            if r[0, 'items'][:1] == ['cannot']:
                ctx.violate('open:' + s['id'], '{} cannot read {}: {}'.format(c, s['main'], r[0, 'items'][1]), {'func': 'life.reference', 'payload': [c, s]})
                continue
            w = r[0, 'written']
            s['can'] = isinstance(w, dict)
            out.setdefault(c, []).append(s)
    ctx.note('{} classes, {} samples, {} of them can be written'.format(len(out), sum(map(len, out.values())), sum(s['can'] for v in out.values() for s in v)))
    missing = sorted(set(have) - set(out))
    ctx.note('formats without samples: ' + ', '.join(missing))
    return out


def histories(ctx, consts, **kw):
    base = dict(Objs='{"A"}', Ops='{}', Kinds='{"df","keys","repr","items"}', Reads='{"p1","p2","m","e"}', Writes='{"w1"}', CanWrite='TRUE', K='2', Last='FALSE', Prelude='"none"')
    base.update(consts)
    b = ctx.model('Lifecycle', base, invs=['TypeOK', 'Rounds'], props=['Independent', 'Pure', 'Untouched'], **kw)
    return b


def pay(c, s1, s2, b, look, cross=None, fork=False, close=False):
    cl = {'A': c, 'B': cross or c}
    return {'cls': cl, 's': [s1, s2], 'h': b['ops'], 'final': b['final'], 'look': look, 'cross': bool(cross), 'fork': fork, 'close': close}


def pairs(ctx, v, k):
    """pairs of different samples; first those of one name"""
    n = len(v)
    al = [(a, b) for a in v for b in v if a is not b]
    ctx.rnd.shuffle(al)
    same = [p for p in al if p[0]['base'] == p[1]['base']]
    rest = [p for p in al if p[0]['base'] != p[1]['base']]
    r = same[:max(1, k // 2)] + rest[:k]
    return r[:k] if r else [(v[0], v[0])]


def uses(b, op):
    return any(x['op'] == op for x in b['ops'])


def go(ctx, P, name, cap):
    """Histories are run one after another in the same processes; those that change objects in place, and those that went
    wrong, each in a process of its own."""
    if len(P) > cap:
        P = ctx.rnd.sample(P, cap)
    for p in P:
        p['fork'] = any(x['op'] == 'poke' for x in p['h'])
    for fork in (False, True):
        Q = [p for p in P if p['fork'] == fork]
        if not Q:
            continue
        if fork:
            ctx.replay(Q, func='life.run', name=name, limit=120)
            continue
        res = pool.run(Q, ctx.scratch, func='life.run', limit=120)
        ctx.replayed += sum(r is None for r in res)
        for p, r in zip(Q, res):
            if r is not None:
                p['fork'] = True


@check('C02')
def c02(ctx):
    S = setup(ctx)
    q = ctx.quick
    H = histories(ctx, dict(Ops='{"new","open","read","again","rewrite","obs","poke"}', Kinds='{"df"}', Reads='{"p1","m","e"}', K='3' if q else '4'))
    H = [h for h in H if any(x.get('res') in ('missing', 'empty', 'nofile') for x in h['ops'])]
    P = []
    for c in S:
        for h in (ctx.rnd.sample(H, min(len(H), 350 if q else 3000))):
            s = ctx.rnd.choice(S[c])
            if not s['can'] and any(x['op'] == 'rewrite' and x.get('res') == 'ok' for x in h['ops']):
                continue
            P.append(pay(c, s, s, h, []))
    go(ctx, P, 'errors', 60000)


@check('C03')
def c03(ctx):
    S = setup(ctx)
    q = ctx.quick
    for can in (True, False):
        for K in ((1, 2, 3) if q else (1, 2, 3, 4)):
            H = histories(ctx, dict(Ops='{"obs","write"}', Writes='{"w1","w2"}', CanWrite=str(can).upper(), K=str(K), Last='TRUE', Prelude='"open"'))
            P = []
            for c in S:
                v = [s for s in S[c] if s['can'] == can]
                if not v:
                    continue
                if K <= 2:
                    for s in v:
                        P += [pay(c, s, s, h, LOOK) for h in H]
                else:
                    for h in ctx.rnd.sample(H, min(len(H), 120 if q else 1200)):
                        s = ctx.rnd.choice(v)
                        P.append(pay(c, s, s, h, LOOK))
            go(ctx, P, 'observe{}{}'.format(K, 'w' if can else ''), 8000 if q else 60000)


@check('C04')
def c04(ctx):
    S = setup(ctx)
    q = ctx.quick
    for can in (True, False):
        cw = str(can).upper()
        # one object that reads one file after another
        H1 = histories(ctx, dict(Ops='{"read","again","obs","poke","change","write"}', Kinds='{"df","repr"}', Reads='{"p1","p2"}', CanWrite=cw, K='3', Last='TRUE', Prelude='"open"'))
        # two objects
        H2 = histories(ctx, dict(Objs='{"A","B"}', Ops='{"open","read","obs","poke","write"}', Kinds='{"df"}', Reads='{"p1","p2"}', Writes='{"w1"}', CanWrite=cw, K='2' if q else '3', Last='TRUE', Prelude='"open"'))
        P = []
        for c in S:
            v = [s for s in S[c] if s['can'] == can]
            if not v:
                continue
            for s1, s2 in pairs(ctx, v, 6 if q else 30):
                same = s1['base'] == s2['base'] and c != 'HAWC2HTCFile'      # whose tables are those of the files it names, when asked
                for H, k in ((H1, 40), (H2, 40)):
                    hs = [h for h in H if same or not uses(h, 'change')]
                    P += [pay(c, s1, s2, h, LOOK) for h in ctx.rnd.sample(hs, min(len(hs), k if q else 10 * k))]
        go(ctx, P, 'reread' + ('w' if can else ''), 12000 if q else 60000)
    # objects of different formats
    H = histories(ctx, dict(Objs='{"A","B"}', Ops='{"open","read","again","obs","poke","write"}', Kinds='{"df"}', K='2', Last='TRUE', Prelude='"two"'), next='CrossNext')
    P = []
    cs = [c for c in S if any(s['can'] for s in S[c])]
    for c in cs:
        for e in cs:
            if c != e:
                s1, s2 = ctx.rnd.choice([s for s in S[c] if s['can']]), ctx.rnd.choice([s for s in S[e] if s['can']])
                P += [pay(c, s1, s2, h, LOOK, cross=e) for h in ctx.rnd.sample(H, min(len(H), 6 if q else 60))]
    go(ctx, P, 'cross', 4000 if q else 30000)


@check('C05')
def c05(ctx):
    S = setup(ctx)
    q = ctx.quick
    import life
    # a format that cannot write says so; one that can, can read what it wrote
    for c in S:
        for s in S[c]:
            r = life._REFS[s['id']]
            for d in (1, 2):
                if s['can'] and r[d, 'items'][:1] == ['cannot']:
                    ctx.violate('back:' + s['id'], '{}: {} is written, but cannot be read back: {}'.format(c, s['main'], r[d, 'items'][1]), {'func': 'life.reference', 'payload': [c, s]})
                    break
    H = histories(ctx, dict(Objs='{"A","B"}', Ops='{"obs","write","open","rewrite","again","read"}', Kinds='{"df","repr"}', Reads='{"w1"}', Writes='{"w1","w2"}', K='3' if q else '4', Last='TRUE', Prelude='"open"'))
    H = [h for h in H if any(v['d'] > 0 for v in h['final'].values())]
    # without anything in between
    plain = [h for h in H if [x['op'] for x in h['ops']] == ['open', 'write', 'open', 'write']]
    P = []
    for c in S:
        v = [s for s in S[c] if s['can']]
        for s in v:
            P += [pay(c, s, s, h, [], close=True) for h in plain[:2]]
            P += [pay(c, s, s, h, [], close=True) for h in ctx.rnd.sample(H, min(len(H), 15 if q else 200))]
    go(ctx, P, 'back', 10000 if q else 60000)
