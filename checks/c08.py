import vk, sched

WRAPS = 'remove unlink unlinkat popen rmdir system rename lstat stat'.split()


def run(c):
    c.add_model(vk.model_check('MC_Files', 'MC_Files.cfg', timeout=600))
    c.add_model(vk.model_check('MC_Files', 'MC_Files_logs.cfg', timeout=600))
    if vk.THOROUGH:
        c.add_model(vk.model_check('MC_Files', 'MC_Files_big.cfg', timeout=3000))
    vk.must_reach('MC_Files', 'NeverOldLeft')
    for m in ('skip', 'ring', 'arrival', 'whole', 'atlimit'):
        r = vk.tlc('MC_Files', 'MC_Files_%s.cfg' % m, timeout=300)
        if r.done or 'violated' not in r.out:
            raise vk.Broken('the specification accepts MC_Files_' + m)
    for variant, salt, n in (('sched', 81, 300), ('fine', 82, 150)):
        b = vk.build('files', variant, wraps=WRAPS)
        runs = sched.run_seeds(b, sched.seeds(n * 12 if vk.THOROUGH else n, salt), 'files', timeout=60)
        good = sched.check_traces(c, 'T_Files', runs, what='file manager')
        sched.event_stats(c, good, {'C': 'files_made', 'A': 'files_reported', 'D': 'files_removed', 'F': 'folders_removed', 'v': 'files_gone_otherwise', 'w': 'files_changed', 'L': 'listings', 'S': 'starts', 'P': 'stops', 'B': 'long_lists'})
        if good and variant == 'sched':
            c.sample({'seed': good[0]['seed'], 'cf': good[0]['cf'], 'first_events': good[0]['ev'][:25]})
