import vk, sched


def run(c):
    for cfg in ('MC_Rays.cfg', 'MC_Rays_excl.cfg') + (('MC_Rays_big.cfg', 'MC_Rays_excl_big.cfg') if vk.THOROUGH else ()):
        c.add_model(vk.model_check('MC_Rays', cfg, timeout=3000))
    for neg in ('NoSplit', 'NoShare', 'NoOrder'):
        vk.must_reach('MC_Rays', neg)
    b = vk.build('moment')
    n = 900 if vk.THOROUGH else 120
    runs = sched.run_seeds(b, sched.seeds(n, 11), 'moment', args=[0])
    runs += sched.run_seeds(vk.build('moment', 'fine'), sched.seeds(n // 3, 12), 'momentf', args=[0])
    runs += sched.run_seeds(b, sched.seeds(24 if vk.THOROUGH else 6, 13), 'momentb', args=[1])
    runs += sched.run_seeds(b, sched.seeds(n // 3, 14), 'momenth', args=[2])
    good = sched.check_traces(c, 'T_Rays', runs, what='moment engine')
    sched.event_stats(c, good, {'F': 'pulses_fed', 'R': 'rays', 'G': 'rays_read', 'V': 'slots_vacated'})
    c.count('n_overflow_runs', sum(1 for r in good if r['ev'][-1][0] == 'E' and r['ev'][-1][2] > 0))
    c.count('n_full_rays', sum(1 for r in good for e in r['ev'] if e[0] == 'R' and e[6] == 2000))
    c.sample({'seed': good[0]['seed'], 'cf': good[0]['cf'], 'first_events': good[0]['ev'][:25]})
