import vk, sched


def run(c):
    c.add_model(vk.model_check('MC_Tables', 'MC_Tables_big.cfg' if vk.THOROUGH else 'MC_Tables.cfg', timeout=3000))
    vk.must_reach('MC_Tables', 'NoRefused')
    n = 800 if vk.THOROUGH else 100
    runs = sched.run_seeds(vk.build('tables', 'asan'), sched.seeds(n, 211), 'tables')
    good = sched.check_traces(c, 'T_Tables', runs, what='control table')
    sched.event_stats(c, good, {'A': 'additions', 'U': 'updates', 'Z': 'clearings', 'C': 'conclusions', 'D': 'tables_compared', 'J': 'listings'})
    for r in good:
        last = {'C': 0, 'W': 0}
        for e in r['ev']:
            if e[0] == 'A':
                if e[3] == last[e[1]]:
                    c.count('n_refused', 1)
                last[e[1]] = e[3]
            elif e[0] == 'Z':
                last[e[1]] = 0
    c.sample({'seed': good[0]['seed'], 'cf': good[0]['cf'], 'first_events': good[0]['ev'][:12]})
