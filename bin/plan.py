"""What each check runs. Facets are the differences the property speaks about."""
import os


def known_findings(verif):
    """id -> (property, description) from known_findings.txt; fixed entries suppress nothing"""
    r = {}
    p = os.path.join(verif, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: '):
                # finding: property=C02 id=C02-1 text
                _, prop, kid, text = l.split(' ', 3)
                r[kid.split('=')[1]] = (prop.split('=')[1], text)
    return r


def graph(facets, **kw):
    return dict(scenario='graph', module='GraphTrace', n=16, n_thorough=60, len=60, facets=facets + ['hang'], **kw)


def static(facets, **kw):
    """the same operations on instances of generated classes"""
    return dict(scenario='graph', mode='static', module='GraphTrace', n=12, n_thorough=60, len=60, facets=facets + ['hang'], salt=1, **kw)


def multi(facets, **kw):
    """classes with several super types sharing a root"""
    return dict(scenario='graph', mode='multi', module='GraphTrace', n=10, n_thorough=60, len=60, facets=facets + ['hang'], salt=2, **kw)


QUICK = {'tree': (3, 0, 3), 'single': (3, 1, 3), 'res': (2, 2, 2), 'group': (3, 0, 3), 'chain': (3, 0, 3), 'likes': (2, 0, 2), 'list': (3, 0, 1), 'bag': (1, 0, 1)}
THOROUGH = {'tree': (4, 0, 4), 'single': (4, 0, 4), 'res': (3, 2, 3), 'group': (4, 0, 4), 'chain': (5, 0, 5), 'likes': (3, 0, 2), 'lists': (3, 0, 1), 'bag': (1, 0, 1)}


def graphx(facets, *sets):
    """exhaustive exploration of specification and implementation at the same bound"""
    r = []
    for tier, bounds in (('quick', QUICK), ('thorough', THOROUGH)):
        for s in sets:
            if tier == 'thorough' and s == 'list':
                s = 'lists'
            a, b, c = bounds[s]
            cfg = 'GraphMC_%s_%s.cfg' % (s, tier[0])
            r.append(dict(kind='mc', module='GraphMC', cfg=cfg, tier=tier))
            r.append(dict(scenario='graphx', mode='%s:%d:%d:%d' % (s, a, b, c), module='GraphTrace', n=1, len=1000000,
                          facets=facets + ['hang'], shards=1 if tier == 'quick' and s in ('chain', 'bag', 'list') else 4 if tier == 'quick' else 8,
                          tier=tier, match=cfg, tlc_timeout=840 if tier == 'quick' else 7200, timeout=840 if tier == 'quick' else 7200))
    return r


CODEC = [dict(kind='mc', module='CodecMC', cfg='CodecMC_%s.cfg' % t[0], tier=t) for t in ('quick', 'thorough')]


def codec(fmt, salt, n, ln=120, facets='codec', thorough=12):
    return dict(scenario='codec', mode=fmt, module='CodecTrace', n=n, n_thorough=n * thorough, len=ln, facets=facets.split() + ['hang'], salt=salt)


CHECKS = {
    'C15': dict(parts=CODEC + [codec('xml', 80, 16), codec('xmi', 81, 12)]),
    'C16': dict(parts=CODEC + [codec('binary', 82, 24)]),
    'C17': dict(parts=CODEC + [codec('sql', 83, 16)]),
    'C18': dict(parts=CODEC + [codec(f, 84 + k, 3, 40, 'cut fault') for k, f in enumerate(['xml', 'xmi', 'binary', 'sql'])]),
    'C01': dict(parts=[graph(['ret', 'val']), static(['ret', 'val'])] + [dict(scenario='lists', module='ListTrace', n=10, n_thorough=60, len=60, facets=['ret', 'val', 'hang'])] + graphx(['ret', 'val'], 'list', 'bag')),
    'C02': dict(parts=[graph(['cont']), static(['cont']), multi(['cont'])] + graphx(['cont'], 'tree', 'single', 'res')),
    'C03': dict(parts=[graph(['opp']), static(['opp']), multi(['opp'])] + graphx(['opp'], 'group', 'chain', 'likes', 'single')),
    'C04': dict(parts=[graph(['notes']), static(['notes']), multi(['notes'])] + graphx(['notes'], 'tree', 'chain', 'likes', 'bag')),
    'C06': dict(parts=[graph(['res', 'rlog']), static(['res', 'rlog'])] + graphx(['res', 'rlog'], 'res', 'single')),
    'C05': dict(parts=[dict(scenario='graph', mode=m, module='GraphTrace', n=10, n_thorough=60, len=60, facets=['watch', 'hang'], salt=10 + k)
                       for k, m in enumerate(['watch', 'watchmulti', 'watchstatic'])]),
    'C07': dict(parts=[dict(graph(['ids']), n=8), dict(multi(['ids']), n=5), dict(static(['ids']), n=6)] + [dict(kind='mc', module='IdMC', cfg='IdMC_%s_%s.cfg' % (k, t[0]), tier=t) for t in ('quick', 'thorough') for k in ('auto', 'attr')]
                + [dict(scenario='ids', mode=k, module='IdTrace', n=20, n_thorough=200, len=60, facets=['ids'], salt=20 + n) for n, k in enumerate(['inc', 'uuid', 'ulid', 'attr'])]
                + [dict(scenario='ids', mode=k + ':conc', module='IdTrace', n=25, n_thorough=200, len=8, facets=['ids'], salt=30 + n) for n, k in enumerate(['inc', 'uuid', 'ulid'])]
                + [dict(scenario='ids', mode=k + ':conc', module='IdTrace', n=10, n_thorough=60, len=8, facets=['ids'], salt=40, race=True) for k in ['inc']]
                + [dict(scenario='ids', mode='inc:gc', module='IdTrace', n=1, len=1, facets=['ids'], shards=1)]),
    'C08': dict(parts=[graph(['addr'], mode='keys'), multi(['addr']), static(['addr'])]),
    'C09': dict(parts=[dict(kind='mc', module='ProxyMC', cfg='ProxyMC_%s_%s.cfg' % (k, t[0]), tier=t) for t in ('quick', 'thorough') for k in ('in', 'out')]
                + [dict(scenario='proxy', mode=m, module='ProxyTrace', n=30, n_thorough=300, len=80, facets=['proxy', 'hang'], salt=75 + k) for k, m in enumerate(['dyn', 'static'])]),
    'C10': dict(parts=[dict(scenario='meta', module='MetaTrace', n=20, n_thorough=100, len=80, facets=['meta', 'hang'])]),
    'C22': dict(parts=[dict(kind='mc', module='URIMC', cfg='URIMC_%s.cfg' % t[0], tier=t) for t in ('quick', 'thorough')]
                + [dict(scenario='uri', mode='all', module='URITrace', n=1, len=2, facets=['uri'], tier='quick'),
                   dict(scenario='uri', mode='all', module='URITrace', n=1, len=3, facets=['uri'], tier='thorough', tlc_timeout=3600),
                   dict(scenario='uri', module='URITrace', n=1500, n_thorough=8000, len=1, facets=['uri'], salt=50, tlc_timeout=3600)]),
    'C11': dict(parts=[dict(kind='mc', module='MapMC', cfg='MapMC_%s.cfg' % t[0], tier=t) for t in ('quick', 'thorough')]
                + [dict(scenario='maps', module='MapTrace', n=120, n_thorough=600, len=60, facets=['map', 'hang'])]),
    'C12': dict(parts=[dict(kind='mc', module='CopyMC', cfg='CopyMC_%s.cfg' % t[0], tier=t) for t in ('quick', 'thorough')]
                + [dict(scenario='copy', mode=m, module='CopyTrace', n=16, n_thorough=150, len=60, facets=['copy', 'hang'], salt=60 + k) for k, m in enumerate(['dyn', 'multi', 'static'])]),
    'C13': dict(parts=[dict(kind='mc', module='CopyMC', cfg='CopyMC_%s.cfg' % t[0], tier=t) for t in ('quick', 'thorough')]
                + [dict(scenario='copy', mode=m, module='CopyTrace', n=16, n_thorough=150, len=60, facets=['equal', 'hang'], salt=65 + k) for k, m in enumerate(['dyn', 'multi', 'static'])]),
    'C23': dict(parts=[dict(kind='mc', module='ResSetMC', cfg='ResSetMC_%s_%s.cfg' % (s, t[0]), tier=t) for t in ('quick', 'thorough') for s in ('sets', 'registries')]
                + [dict(scenario='resset', module='ResSetTrace', n=30, n_thorough=300, len=80, facets=['resset', 'hang'], salt=70)]),
    'C19': dict(parts=[dict(scenario='graph', mode=m, module='GraphTrace', n=n, n_thorough=n * 15, len=60, facets=['ret', 'val', 'cont', 'opp', 'notes', 'res', 'kids', 'walk', 'stored', 'hang'], salt=4 + k)
                       for k, (m, n) in enumerate([('estore', 16), ('estoremulti', 10)])]),
    'C20': dict(parts=[dict(kind='mc', module='StoreMC', cfg='StoreMC_%s.cfg' % t[0], tier=t) for t in ('quick', 'thorough')]
                + [dict(scenario='store', mode=m, module='StoreTrace', n=n, n_thorough=n * 15, len=ln, facets=['store', 'hang'], salt=90 + k)
                   for k, (m, n, ln) in enumerate([('', 64, 60), ('', 16, 160), ('mem', 24, 60)])]),
    'C21': dict(parts=[dict(kind='mc', module='StoreSchedMC', cfg='StoreSchedMC_%s.cfg' % t[0], tier=t) for t in ('quick', 'thorough')]
                + [dict(scenario='storeconc', mode=m, module='StoreTrace', n=n, n_thorough=n * 15, len=60, facets=['store', 'order', 'disk', 'hang'], salt=95 + k)
                   for k, (m, n) in enumerate([('', 640), ('disk', 32), ('mem', 80)])]
                + [dict(scenario='storeconc', module='StoreTrace', n=80, n_thorough=1200, len=60, facets=['store', 'order', 'disk', 'hang'], salt=98, race=True)]),
    'C24': dict(parts=[dict(kind='mc', module='StoreCrashMC', cfg='StoreCrashMC_%s.cfg' % t[0], tier=t) for t in ('quick', 'thorough')]
                + [dict(scenario='crash', module='StoreTrace', n=400, n_thorough=6000, len=60, facets=['cut', 'store', 'hang'], salt=99)]),
    'C14': dict(parts=[graph(['kids', 'walk']), static(['kids', 'walk']), multi(['kids', 'walk']),
                       dict(scenario='graph', mode='deep', module='GraphTrace', n=24, n_thorough=200, len=12, facets=['kids', 'walk', 'hang'], salt=3)]),
}
