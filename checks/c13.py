import vk, sched

NET = 'socket bind connect setsockopt gethostbyname gethostbyname2 send sendto sendmsg write writev'.split()


def run(c):
    c.add_model(vk.model_check('MC_Wire', 'MC_Wire_big.cfg' if vk.THOROUGH else 'MC_Wire.cfg', timeout=3000))
    c.add_model(vk.model_check('MC_Frames', 'MC_Frames_big.cfg' if vk.THOROUGH else 'MC_Frames.cfg', timeout=3000))
    vk.must_reach('MC_Wire', 'NeverCut')
    vk.must_reach('MC_Wire', 'NeverResumed')
    vk.must_reach('MC_Frames', 'NeverTwo')
    vk.must_reach('MC_Frames', 'NeverBad')
    for m in ('MC_Wire_unlocked', 'MC_Wire_goeson', 'MC_Frames_forgets'):
        if vk.tlc(m[:m.rindex('_')], m + '.cfg', timeout=300).done:
            raise vk.Broken('the specification accepts ' + m)
    n = 2500 if vk.THOROUGH else 250
    for variant, salt, part in (('sched', 131, 1.0), ('fine', 134, 0.4)):
        b = vk.build('packets', variant, sources=['packets.c', 'vnet.c'], wraps=NET)
        for k, (mode, spec) in enumerate((('send', 'T_Wire'), ('client', 'T_Frames'), ('server', 'T_Frames'))):
            runs = sched.run_seeds(b, sched.seeds(int(n * part), salt + 10 * k), 'packets', args=[mode], timeout=40)
            good = sched.check_traces(c, spec, runs, what='packets (%s)' % mode)
            for r in good:
                for e in r['ev']:
                    if e[0] in ('c', 'w', 'n', 'f', 'p', 'd', 'bad', 'fail'):
                        c.count('n_' + {'c': 'send_calls', 'w': 'pieces_taken', 'n': 'refusals', 'f': 'send_errors', 'p': 'packets_in', 'd': 'packets_delivered', 'bad': 'broken_packets', 'fail': 'failures_reported'}[e[0]], 1)
            if good and variant == "sched":
                c.sample({'mode': mode, 'seed': good[0]['seed'], 'first_events': good[0]['ev'][:15]})
