import vk, sched


def run(c):
    c.add_model(vk.model_check('MC_Streams', 'MC_Streams_big.cfg' if vk.THOROUGH else 'MC_Streams.cfg', timeout=3000))
    vk.must_reach('MC_Streams', 'Never9')
    n = 200 if vk.THOROUGH else 24
    runs = sched.run_seeds(vk.build('streams', 'asan'), sched.seeds(n, 201), 'streams')
    good = sched.check_traces(c, 'T_Streams', runs, what='stream request')
    sched.event_stats(c, good, {'p': 'requests_read', 's': 'sets_rendered'})
    c.sample({'seed': good[0]['seed'], 'read': good[0]['ev'][400:412], 'rendered': good[0]['ev'][-12:]})
