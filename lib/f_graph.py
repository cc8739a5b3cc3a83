"""C30: processing graphs, consistent and inconsistent ones (spec/Graph.tla)."""
import copy
import itertools
from f_pipeline import Sc, nd, rec, rnd_graph, rnd_seq, rnd_sc


def renumber(chains):
    """every output has a number of its own"""
    s = 0
    for c in chains:
        for n in c:
            if n['k'] == 'rec':
                s += 1
                n['s'] = s
    return chains


def well_placed(chains):
    return all(n['k'] != 'msink' for c in chains for n in c[1:])


def edges(chains):
    return [(c, i) for c in range(len(chains)) for i, n in enumerate(chains[c]) if n['k'] in ('merge', 'split')]


def damage(r, sc):
    """something is changed in the graph; it may still be a consistent one"""
    ch = sc['chains']
    n = len(ch)
    anywhere = lambda: r.choice([r.randrange(1, n + 1), r.randrange(1, n + 1), n + 1, n + 2, 1000000])
    known = lambda: r.randrange(1, n + 1)
    heads = [c for c in ch if c and c[0]['k'] == 'msink']
    es = edges(ch)
    what = r.randrange(15)
    if what == 0 and heads:
        h = r.choice(heads)[0]
        h['x'] = max(1, h['x'] + r.choice([-1, 1, 1, 5]))
    elif what == 1 and heads:
        r.choice(heads).pop(0)
    elif what == 2:
        c = r.choice(ch)
        if not c or c[0]['k'] != 'msink':
            c.insert(0, nd('msink', x=r.choice([1, 1, 2, 3])))
    elif what == 3 and es:
        c, i = r.choice(es)
        ch[c].pop(i)
    elif what in (4, 5):
        c = r.choice(ch)
        at = r.randrange(1 if c and c[0]['k'] == 'msink' else 0, len(c) + 1)
        to = r.choice([anywhere, known])()
        c.insert(at, nd('merge', to=to) if r.random() < 0.5 else nd('split', to=[to] * r.choice([1, 1, 2])))
    elif what in (6, 7) and es:
        c, i = r.choice(es)
        e = ch[c][i]
        if e['k'] == 'merge':
            e['to'] = anywhere()
        elif r.random() < 0.5 and e['to']:
            e['to'][r.randrange(len(e['to']))] = anywhere()
        elif r.random() < 0.5:
            e['to'].append(anywhere())
        elif e['to']:
            e['to'].pop()
    elif what == 8 and es:
        # the other kind of edge
        c, i = r.choice(es)
        e = ch[c][i]
        ch[c][i] = nd('split', to=[e['to']]) if e['k'] == 'merge' else nd('merge', to=(e['to'] or [1])[0])
    elif what == 9:
        ch.pop(r.randrange(len(ch)))
    elif what == 10:
        ch.insert(r.randrange(len(ch) + 1), r.choice([[], [rec(1)], [nd('msink', x=r.choice([1, 2])), rec(1)]]))
    elif what == 11:
        ch.append([rec(1), nd('merge', to=known())])
    elif what == 12:
        sc['nh'] = max(0, sc['nh'] + r.choice([-1, 1, 2]))
    elif what == 13:
        i = r.randrange(len(ch))
        ch[i] = []
    elif what == 14 and heads:
        # one input less, one more
        a, b = r.choice(heads)[0], r.choice(heads)[0]
        a['x'], b['x'] = max(1, a['x'] - 1), b['x'] + 1


def scenarios(ctx):
    r, out, q = ctx.rnd, [], ctx.quick

    def add(sc, nh=None):
        sc['nh'] = len(sc['sources']) if nh is None else nh
        out.append(sc)

    def build(chains, nsrc, rows=None, nh=None):
        b = Sc(r)
        for i in range(nsrc):
            b.source(rows[i] if rows else r.choice([[1], [1, 2], []]))
        add(b.build(renumber(copy.deepcopy(chains))), nh)
    # two chains, one node in each behind a merging one or not
    ones = [[]] + [[nd('merge', to=i)] for i in (1, 2, 3)] + [[nd('split', to=list(t))] for t in [(), (1,), (2,), (3,), (1, 2), (2, 2), (2, 1)]]
    for a, b in itertools.product(ones, repeat=2):
        for x, y in itertools.product([0, 1, 2], repeat=2):
            if q and r.random() > 0.5:
                continue
            ch = [([nd('msink', x=k)] if k else []) + e + [rec(1)] for k, e in ((x, a), (y, b))]
            build(ch, r.choice([1, 2]))
    # numbers of inputs, headers and chains that do not fit
    for n, h, c in itertools.product(range(4), repeat=3):
        build([[rec(1)] for _ in range(c)], n, nh=h)
        build([[nd('msink', x=1), rec(1)] for _ in range(c)], n, nh=h)
    # merges of all sizes that get too few, as many as expected, too many inputs
    for n in (1, 2, 3, 5, 30):
        for x in {1, n - 1, n, n + 1, 2 * n} - {0}:
            build([[nd('merge', to=n + 1)] for _ in range(n)] + [[nd('msink', x=x), rec(1)]], n, [[1, 1]] * n)
            build([[nd('merge', to=n + 1), rec(1)] for _ in range(n)] + [[nd('msink', x=x), rec(1)], [rec(1)]], n)
            build([[nd('split', to=[2] * n), rec(1)], [nd('msink', x=x), rec(1)]], 1, [[1, 2]])
            # inputs that arrive on several ways
            build([[nd('merge', to=n + 1), nd('merge', to=n + 1)] for _ in range(n)] + [[nd('msink', x=2 * x), rec(1)]], n)
            # a merge behind the merge
            build([[nd('merge', to=n + 1)] for _ in range(n)] + [[nd('msink', x=x), nd('merge', to=n + 2)], [nd('msink', x=1), rec(1)]], n)
    # diamonds: two ways into one chain, merging or not
    for last in ([], [nd('msink', x=1)], [nd('msink', x=2)], [nd('msink', x=3)]):
        for way in ('merge', 'split'):
            for way2 in ('merge', 'split'):
                e = [nd('merge', to=4) if w == 'merge' else nd('split', to=[4]) for w in (way, way2)]
                build([[nd('split', to=[2, 3])], [e[0]], [e[1]], last + [rec(1)]], 1, [[1, 1, 2]])
                build([[e[0]], [e[1]], [rec(1)], last + [rec(1)]], 2, [[1, 1, 2], [1]])
    # circles
    for n in (1, 2, 3, 6):
        for x in (0, 1, 2):
            for way in ('merge', 'split'):
                to = lambda c: nd('merge', to=c) if way == 'merge' else nd('split', to=[c])
                ch = [([nd('msink', x=x)] if x else []) + [rec(1), to(c % n + 1)] for c in range(1, n + 1)]
                build(ch, 1, [[1]])
                build([[rec(1), to(2)]] + [([nd('msink', x=x)] if x else []) + [rec(1), to(c % n + 2)] for c in range(1, n + 1)], 1, [[1]])
    # graphs in which something has been changed
    for _ in range(1100 if q else 16000):
        nsrc = r.choice([1, 2, 2, 3, 4])
        b = Sc(r)
        for _ in range(nsrc):
            b.source(rnd_seq(r, 3, 3))
        chains, _ = rnd_graph(r, nsrc, ['rec', 'rec'])
        sc = b.build(chains)
        sc['nh'] = nsrc
        for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3])):
            if sc['chains']:
                damage(r, sc)
        if len(sc['chains']) == 0 or not well_placed(sc['chains']):
            continue
        renumber(sc['chains'])
        out.append(sc)
    return out


def check(ctx):
    ctx.design('GraphDesign', 'GraphDesign.cfg' if ctx.quick else 'GraphDesignT.cfg', workers=4, min_states=100000,
               what='examination of all small graphs in lock step with Graph.tla')
    recs = ctx.execute(scenarios(ctx))
    ran = sum(1 for x in recs if x['ev'][-1].get('r') == 'ok')
    ctx.validate('GraphTrace', recs, what='real runs over consistent and inconsistent graphs')
    return ctx.finish(assumptions=['a merging node is the first node of its chain', 'all inputs have the same header'],
                      extra={'graphs_run': ran, 'graphs_refused': len(recs) - ran})
