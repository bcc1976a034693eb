import vk, sched


def run(c):
    c.add_model(vk.model_check('MC_Slots', 'MC_Slots_big.cfg' if vk.THOROUGH else 'MC_Slots.cfg', timeout=3000))
    vk.must_reach('MC_Slots', 'NeverFull', cfg='MC_Slots_full.cfg')
    for m in ('noahead', 'behind', 'plusone', 'stays'):
        r = vk.tlc('MC_Slots', 'MC_Slots_%s.cfg' % m, timeout=300)
        if r.done or 'violated' not in r.out:
            raise vk.Broken('the specification accepts MC_Slots_' + m)
    runs = sched.run_seeds(vk.build('slots', 'asan'), sched.seeds(1500 if vk.THOROUGH else 120, 191), 'slots')
    good = sched.check_traces(c, 'T_Slots', runs, what='ring')
    sched.event_stats(c, good, {'g': 'requests', 'f': 'positions_finished', 'm': 'marks', 'l': 'latest_lookups', 'n': 'latest_ray_lookups', 'h': 'latest_health_lookups', 'z': 'clearings'})
    c.sample({'seed': good[0]['seed'], 'cf': good[0]['cf'], 'first_events': good[0]['ev'][:20]})
