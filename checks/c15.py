import vk, sched


def run(c):
    c.add_model(vk.model_check('MC_Registry', 'MC_Registry_big.cfg' if vk.THOROUGH else 'MC_Registry.cfg', timeout=3000))
    vk.must_reach('MC_Registry', 'NoFull')
    r = vk.tlc('MC_Registry', 'MC_Registry_unlocked.cfg', timeout=300)
    if r.done:
        raise vk.Broken('the specification accepts an unlocked registry')
    n = 2000 if vk.THOROUGH else 300
    w = ['RKProductBufferAlloc']
    runs = sched.run_seeds(vk.build('registry', wraps=w), sched.seeds(n, 41), 'registry')
    runs += sched.run_seeds(vk.build('registry', 'fine', wraps=w), sched.seeds(n // 2, 42), 'registryf')
    good = sched.check_traces(c, 'T_Registry', runs, what='product registry')
    for r in good:
        for e in r['ev']:
            if e[0] == 'r':
                c.count('n_' + {'D': 'registered', 'U': 'removals', 'G': 'lookups', 'S': 'completions'}[e[2]], 1)
                if e[2] == 'D' and e[3] == 0:
                    c.count('n_refused', 1)
    c.sample({'seed': good[0]['seed'], 'cf': good[0]['cf'], 'first_events': good[0]['ev'][:25]})
