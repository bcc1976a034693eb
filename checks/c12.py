import vk, sched

NET = 'socket bind connect setsockopt gethostbyname gethostbyname2 send sendto sendmsg write writev'.split()


def run(c):
    c.add_model(vk.model_check('MC_Server', 'MC_Server.cfg', timeout=900))
    if vk.THOROUGH:
        c.add_model(vk.model_check('MC_Server', 'MC_Server_two.cfg', timeout=3000))
    for n in ('NeverBusy', 'NeverFull', 'NeverReused'):
        vk.must_reach('MC_Server', n)
    for m in ('noroom', 'nodrain', 'nojoin'):
        if vk.tlc('MC_Server', 'MC_Server_%s.cfg' % m, timeout=300).done:
            raise vk.Broken('the specification accepts MC_Server_' + m)
    for variant, salt, n in (('sched', 121, 160), ('fine', 122, 60)):
        b = vk.build('server', variant, sources=['server.c', 'vnet.c'], wraps=NET)
        runs = sched.run_seeds(b, sched.seeds(n * 12 if vk.THOROUGH else n, salt), 'server', timeout=60)
        good = sched.check_traces(c, 'T_Server', runs, what='server')
        for r in good:
            for e in r['ev']:
                if e[0] in ('conn', 'busy', 'line', 'b', 't', 'w', 'hang', 'silent', 'settled'):
                    c.count('n_' + {'conn': 'connections', 'busy': 'turned_away', 'line': 'lines_sent', 'b': 'commands_run', 't': 'terminations', 'w': 'welcomes', 'hang': 'hang_ups', 'silent': 'fallen_silent', 'settled': 'quiet_points'}[e[0]], 1)
        if good and variant == 'sched':
            c.sample({'seed': good[0]['seed'], 'first_events': good[0]['ev'][:15]})
