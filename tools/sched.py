"""Checks that run a scheduled harness over many seeds and validate the recorded traces with TLC."""
import os, json, re
import vk


def seeds(n, salt=0):
    return [vk.SEED * 1000003 + salt * 7919 + i for i in range(n)]


def run_seeds(binary, seeds, prefix, args=(), timeout=120, env=None):
    """-> list of dict(id, rc, out, cf, ev, end)."""
    d = vk.scratch()
    late = []

    def one(s):
        if len(late) >= 8:       # enough of them hang to know
            return None
        f = os.path.join(d, '%s-%d.nd' % (prefix, s))
        root = os.path.join(d, '%s-%d.d' % (prefix, s))
        os.makedirs(root, exist_ok=True)
        e = dict(os.environ)
        e.update(env or {})
        rc, out = vk.sh([binary, str(s), f, root] + [str(a) for a in args], timeout=timeout, cwd=root, env=e)
        if rc == 124:
            late.append(s)
        cf, ev, end = None, [], None
        if os.path.exists(f):
            for line in open(f, errors='replace'):
                try:
                    x = json.loads(line)
                except ValueError:
                    continue
                if isinstance(x, dict):
                    cf = x
                elif x[0] == 'end':
                    end = x[1:]
                else:
                    ev.append(x)
            os.unlink(f)
        vk.shutil.rmtree(root, ignore_errors=True)
        return {'id': '%s-%d' % (prefix, s), 'seed': s, 'rc': rc, 'out': out[-1500:], 'cf': cf, 'ev': ev, 'end': end}
    return [r for r in vk.pmap(one, seeds) if r]


def explain(spec, trace, cfg=None, env=None):
    """The first event the specification refuses."""
    ev = {'DIAG': '1'}
    ev.update(env or {})
    try:
        rej, _, _, outs = vk.validate(spec, [trace], cfg=cfg, env=ev, timeout=40)
    except vk.Broken:
        return 1, ['(too many possibilities to tell where)']
    m = vk.furthest(outs)
    l = m.get(str(trace['id']), 1)
    inv = re.findall(r'Invariant (\w+) is violated', ' '.join(outs))
    return l, inv


def check_traces(c, spec, runs, cfg=None, what='', keyf=None, env=None, okrc=(0,), rerun=None):
    """Validate the runs; report those the specification rejects."""
    bad = [r for r in runs if r['rc'] not in okrc]
    good = [r for r in runs if r['rc'] in okrc and r['cf'] is not None]
    for r in bad:
        why = {124: 'did not end in time', 42: 'deadlock', 43: 'does not come to rest', 139: 'crash', -11: 'crash', 134: 'abort'}.get(r['rc'], 'exit %s' % r['rc'])
        if r['rc'] in (44, 45, 127):
            raise vk.Broken('harness failed: rc=%s %s' % (r['rc'], r['out']))
        if rerun and r['rc'] == 124:
            if rerun(r)['rc'] != 124:
                raise vk.Broken('a run timed out once but not again: %s' % r['id'])
        c.violation((keyf(r, None) if keyf else 'rc'), '%s seed %s: the engine %s\n%s' % (what, r['seed'], why, r['out'][-600:]),
                    {'seed': r['seed'], 'rc': r['rc'], 'cf': r['cf'], 'tail': r['ev'][-40:], 'out': r['out']})
    rej, gen, dist, outs = vk.validate(spec, [{'id': r['id'], 'cf': r['cf'], 'ev': r['ev']} for r in good], cfg=cfg, env=env)
    c.traces(len(good), dist, gen)
    byid = {r['id']: r for r in good}
    for t in rej[:8]:
        r = byid[t['id']]
        l, inv = explain(spec, t, cfg, env)
        e = r['ev'][l - 1] if l <= len(r['ev']) else None
        key = keyf(r, e) if keyf else '%s' % (e[0] if e else 'end')
        c.violation(key, '%s seed %s: event %d %s is not allowed by %s %s; before it: %s' % (what, r['seed'], l, json.dumps(e), spec, inv, json.dumps(r['ev'][max(0, l - 9):l - 1])),
                    {'seed': r['seed'], 'event': l, 'refused': e, 'invariants': inv, 'cf': r['cf'], 'context': r['ev'][max(0, l - 60):l + 5]})
    for t in rej[8:]:
        c.violation('more', '%s %s rejected' % (what, t['id']), {'id': t['id']})
    return good


def event_stats(c, runs, names):
    """How often each event occurs, to see that the runs are not vacuous."""
    tot = {}
    for r in runs:
        for e in r['ev']:
            tot[e[0]] = tot.get(e[0], 0) + 1
    for k, v in names.items():
        c.count('n_' + v, tot.get(k, 0))
    return tot
