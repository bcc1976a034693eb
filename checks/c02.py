import vk, sched


def run(c):
    c.add_model(vk.model_check('MC_RingFilter', timeout=800))
    b = vk.build('ring')
    n = 1500 if vk.THOROUGH else 300
    runs = sched.run_seeds(vk.build('ring', 'fine'), sched.seeds(n // 3, 52), 'ringf')
    runs += sched.run_seeds(b, sched.seeds(n, 2), 'ring')
    good = sched.check_traces(c, 'T_RingFilter', runs, what='pulse ring filter')
    sched.event_stats(c, good, {'F': 'pulses_fed', 'O': 'pulses_out', 'A': 'filters_set'})
    c.sample({'seed': good[0]['seed'], 'cf': good[0]['cf'], 'first_events': good[0]['ev'][:6]})
