import vk, sched


def run(c):
    c.add_model(vk.model_check('MC_PosTag', 'MC_PosTag_big.cfg' if vk.THOROUGH else 'MC_PosTag.cfg', timeout=3000))
    for neg in ('NoSingle', 'NoGap'):
        vk.must_reach('MC_PosTag', neg)
    n = 600 if vk.THOROUGH else 120
    w = ['RKClockGetTime']
    runs = sched.run_seeds(vk.build('position', wraps=w), sched.seeds(n, 21), 'position')
    runs += sched.run_seeds(vk.build('position', 'fine', wraps=w), sched.seeds(n // 3, 22), 'positionf')
    good = sched.check_traces(c, 'T_PosTag', runs, what='position engine')
    sched.event_stats(c, good, {'P': 'reports', 'F': 'pulses_fed', 'T': 'pulses_tagged', 'C': 'configurations'})
    c.sample({'seed': good[0]['seed'], 'cf': good[0]['cf'], 'first_events': good[0]['ev'][:25]})
