import vk, sched


def run(c):
    c.add_model(vk.model_check('MC_Sweeps', 'MC_Sweeps_big.cfg' if vk.THOROUGH else 'MC_Sweeps.cfg', timeout=3000))
    for neg in ('NoTwo', 'NoShared', 'NoAbandoned'):
        vk.must_reach('MC_Sweeps', neg)
    n = 1500 if vk.THOROUGH else 300
    w = ['RKProductBufferAlloc']
    runs = sched.run_seeds(vk.build('sweep', wraps=w), sched.seeds(n, 31), 'sweep')
    runs += sched.run_seeds(vk.build('sweep', 'fine', wraps=w), sched.seeds(n // 4, 32), 'sweepf')
    good = sched.check_traces(c, 'T_Sweeps', runs, what='sweep engine')
    sched.event_stats(c, good, {'R': 'ray_runs_fed', 'O': 'overview_runs', 'W': 'products_written', 'V': 'vacated_runs', 'X': 'flushes', 'E': 'complete_runs'})
    c.sample({'seed': good[0]['seed'], 'cf': good[0]['cf'], 'first_events': good[0]['ev'][:25]})
