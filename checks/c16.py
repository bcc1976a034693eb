import vk, sched


def run(c):
    c.add_model(vk.model_check('MC_Pref', 'MC_Pref_big.cfg' if vk.THOROUGH else 'MC_Pref.cfg', timeout=3000))
    vk.must_reach('MC_Pref', 'NeverEnd')
    n = 300 if vk.THOROUGH else 40
    runs = sched.run_seeds(vk.build('pref', 'asan'), sched.seeds(n, 161), 'pref')
    good = sched.check_traces(c, 'T_Pref', runs, what='preference file')
    sched.event_stats(c, good, {'F': 'files_read', 'X': 'files_missing', 'K': 'lookups', 'N': 'counts', 'G': 'values_fetched'})
    c.sample({'seed': good[0]['seed'], 'events': good[0]['ev'][1:12]})
