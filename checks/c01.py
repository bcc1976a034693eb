import vk, sched


def run(c):
    m = vk.model_check('MC_PulsePipe', 'MC_PulsePipe_big.cfg' if vk.THOROUGH else None, timeout=800)
    c.add_model(m)
    vk.must_reach('MC_PulsePipe', 'NoSkip')
    b = vk.build('pulse')
    n = 1200 if vk.THOROUGH else 160
    runs = sched.run_seeds(vk.build('pulse', 'fine'), sched.seeds(n // 3, 51), 'pulsef')
    runs += sched.run_seeds(b, sched.seeds(n, 1), 'pulse')
    good = sched.check_traces(c, 'T_PulsePipe', runs, what='pulse compressor')
    sched.event_stats(c, good, {'F': 'pulses_fed', 'C': 'compressed', 'S': 'skipped', 'R': 'read', 'V': 'vacated'})
    c.sample({'seed': good[0]['seed'], 'cf': good[0]['cf'], 'first_events': good[0]['ev'][:25]})
