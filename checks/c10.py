import vk, sched


def run(c):
    c.add_model(vk.model_check('MC_Health', 'MC_Health.cfg', timeout=300))
    if vk.THOROUGH:
        c.add_model(vk.model_check('MC_Health', 'MC_Health_gps.cfg', timeout=900))
        c.add_model(vk.model_check('MC_Health', 'MC_Health_big.cfg', timeout=1800))
    vk.must_reach('MC_Health', 'NeverBack', cfg='MC_Health_back.cfg')
    if vk.THOROUGH:
        vk.must_reach('MC_Health', 'NeverMoved', cfg='MC_Health_moved.cfg')
    for m in ('inring', 'hasty', 'waitall', 'again'):
        r = vk.tlc('MC_Health', 'MC_Health_%s.cfg' % m, timeout=300)
        if r.done or 'violated' not in r.out:
            raise vk.Broken('the specification accepts MC_Health_' + m)
    for variant, n, args in (('sched', 35, []), ('fine', 240, ['fine'])):
        runs = sched.run_seeds(vk.build('health', variant), sched.seeds(n * 12 if vk.THOROUGH else n, 410 + len(args)), 'health', args=args, timeout=120)
        good = sched.check_traces(c, 'T_Health', runs, what='health records')
        sched.event_stats(c, good, {'d': 'reports', 'o': 'records'})
        c.count('old_values_shown', sum(1 for r in good for e in r['ev'] if e[0] == 'o' for p in e[4] if p and p[2] and not p[1]))
        c.count('records_without_gps', sum(1 for r in good for e in r['ev'] if e[0] == 'o' and e[6]))
        if good and variant == 'sched':
            c.sample({'seed': good[0]['seed'], 'cf': good[0]['cf'], 'first_events': good[0]['ev'][:25]})
