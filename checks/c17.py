import vk, sched


def run(c):
    c.add_model(vk.model_check('MC_Queue', 'MC_Queue_big.cfg' if vk.THOROUGH else 'MC_Queue.cfg', timeout=3000))
    c.add_model(vk.model_check('MC_Queue', 'MC_Queue_wait.cfg', timeout=600))
    vk.must_reach('MC_Queue', 'NeverFull')
    if vk.tlc('MC_Queue', 'MC_Queue_unlocked.cfg', timeout=300).done:
        raise vk.Broken('the specification accepts an unlocked queue')
    n = 3000 if vk.THOROUGH else 250
    runs = sched.run_seeds(vk.build('queue', 'fine'), sched.seeds(n, 171), 'queue')
    good = sched.check_traces(c, 'T_Queue', runs, what='command queue')
    for r in good:
        k = {}
        for e in r['ev']:
            if e[0] == 'c':
                k[e[1]] = e[2]
            elif e[0] == 'r':
                c.count('n_' + ('pushed' if e[2] else 'refused') if k[e[1]] == 'P' else ('n_popped' if e[2] else 'n_empty'), 1)
    c.sample({'seed': good[0]['seed'], 'cf': good[0]['cf'], 'first_events': good[0]['ev'][:25]})
