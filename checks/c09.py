import vk, sched

WRAPS = 'open close write remove RKFileManagerAddFile'.split()


def run(c):
    c.add_model(vk.model_check('MC_Recorder', 'MC_Recorder.cfg', timeout=600))
    if vk.THOROUGH:
        c.add_model(vk.model_check('MC_Recorder', 'MC_Recorder_big.cfg', timeout=3000))
    for n in ('NeverFull', 'NeverToggle', 'NeverStopOpen'):
        vk.must_reach('MC_Recorder', n)
    for m in ('noflush', 'reread'):
        if vk.tlc('MC_Recorder', 'MC_Recorder_%s.cfg' % m, timeout=300).done:
            raise vk.Broken('the specification accepts MC_Recorder_' + m)
    for variant, salt, n in (('sched', 91, 240), ('fine', 92, 80)):
        b = vk.build('recorder', variant, wraps=WRAPS)
        runs = sched.run_seeds(b, sched.seeds(n * 12 if vk.THOROUGH else n, salt), 'recorder', timeout=60)
        good = sched.check_traces(c, 'T_Recorder', runs, what='raw data recorder')
        sched.event_stats(c, good, {'P': 'pulses_fed', 'X': 'files_read_back', 'A': 'files_reported', 'M': 'pulses_marked', 'R': 'record_toggles', 'T': 'kind_changes', 'Q': 'quiet_points', 'S': 'stops'})
        if good and variant == 'sched':
            c.sample({'seed': good[0]['seed'], 'cf': good[0]['cf'], 'first_events': good[0]['ev'][:25]})
