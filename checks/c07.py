import vk, sched


def run(c):
    c.add_model(vk.model_check('MC_Steer', timeout=800))
    for neg in ('NoRhiEnd', 'NoPpiEnd', 'NoOnce'):
        vk.must_reach('MC_Steer', neg)
    if vk.THOROUGH:
        c.add_model(vk.model_check('MC_Steer', 'MC_Steer_big.cfg', timeout=3000))
    b = vk.build('steer', 'plain')
    n = 600 if vk.THOROUGH else 120
    runs = sched.run_seeds(b, sched.seeds(n, 7), 'steer')
    good = sched.check_traces(c, 'T_Steer', runs, what='scan controller')
    sched.event_stats(c, good, {'P': 'position_reports', 'C': 'commands'})
    for f in ('azc', 'elc', 'scan', 'azp'):
        c.count('n_reports_' + f, sum(1 for r in good for e in r['ev'] if e[0] == 'P' and f in e[5]))
    c.sample({'seed': good[0]['seed'], 'cf': good[0]['cf'], 'first_events': good[0]['ev'][:12]})
