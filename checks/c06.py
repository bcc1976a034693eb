import vk, sched


def run(c):
    c.add_model(vk.model_check('MC_Config', 'MC_Config_big.cfg' if vk.THOROUGH else 'MC_Config.cfg', timeout=3000))
    vk.must_reach('MC_Config', 'NoWrap')
    if vk.tlc('MC_Config', 'MC_Config_unlocked.cfg', timeout=300).done:
        raise vk.Broken('the specification accepts changes made without the lock')
    n = 3000 if vk.THOROUGH else 300
    runs = sched.run_seeds(vk.build('config'), sched.seeds(n, 61), 'config')
    runs += sched.run_seeds(vk.build('config', 'fine'), sched.seeds(n // 2, 62), 'configf')
    good = sched.check_traces(c, 'T_Config', runs, what='configuration')
    for r in good:
        for e in r['ev']:
            if e[0] == 'P':
                c.count('n_entries', 1)
            if e[0] == 'c':
                for s in e[2]:
                    c.count('n_set_' + s[0], 1)
                    if s[0] in ('wf', 'wd') and s[1] in (0, 5):
                        c.count('n_bad_waveforms', 1)
            if e[0] == 'L':
                c.count('n_lookups', 1)
    c.sample({'seed': good[0]['seed'], 'cf': good[0]['cf'], 'first_events': good[0]['ev'][:12]})
