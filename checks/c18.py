import vk, sched

WRAPS = 'remove unlink rmdir system popen'.split()
ENGINES = ['pulse', 'ring', 'position', 'moment', 'sweep', 'recorder', 'logger', 'health', 'files', 'steer']


def run(c):
    c.add_model(vk.model_check('MC_Lifecycle', 'MC_Lifecycle.cfg', timeout=300))
    if vk.THOROUGH:
        c.add_model(vk.model_check('MC_Lifecycle', 'MC_Lifecycle_big.cfg', timeout=1200))
    vk.must_reach('MC_Lifecycle', 'NeverBusyStop')
    for m in ('toggle', 'nopost', 'nojoin', 'early', 'deaf', 'forgets', 'keeps'):
        r = vk.tlc('MC_Lifecycle', 'MC_Lifecycle_%s.cfg' % m, timeout=300)
        if r.done or 'violated' not in r.out:
            raise vk.Broken('the specification accepts MC_Lifecycle_' + m)
    for variant, n in (('sched', 60), ('fine', 30)):
        b = vk.build('life', variant, wraps=WRAPS)
        runs = []
        for k, e in enumerate(ENGINES):
            runs += sched.run_seeds(b, sched.seeds(n * 12 if vk.THOROUGH else n, 200 + 10 * k + (variant == 'fine')), 'life', args=[str(k)], timeout=120)
        good = sched.check_traces(c, 'T_Lifecycle', runs, what='engines')
        sched.event_stats(c, good, {'s': 'starts', 'p': 'stops', 'W': 'runs_followed_to_the_end_of_the_input', 'x': 'stops_of_a_stopped_engine', 'Q': 'quiet_spells'})
        for k, e in enumerate(ENGINES):
            c.count('starts_' + e, sum(1 for r in good if r['cf']['engine'] == k for ev in r['ev'] if ev[0] == 's'))
        if good and variant == 'sched':
            c.sample({'seed': good[0]['seed'], 'cf': good[0]['cf'], 'first_events': good[0]['ev'][:25]})
