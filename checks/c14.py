import vk, sched

NET = 'socket bind connect setsockopt gethostbyname gethostbyname2 send sendto sendmsg write writev'.split()


def run(c):
    for m in ('', '_two', '_again') + (('_big',) if vk.THOROUGH else ()):
        c.add_model(vk.model_check('MC_Socket', 'MC_Socket%s.cfg' % m, timeout=3000))
    for n in ('NeverFull', 'NeverPart', 'NeverRest'):
        vk.must_reach('MC_Socket', n, cfg='MC_Socket_two.cfg')
    vk.must_reach('MC_Socket', 'NeverAgain', cfg='MC_Socket_again.cfg')
    for m in ('noroom', 'onebuffer', 'oneframe', 'norest'):
        if vk.tlc('MC_Socket', 'MC_Socket_%s.cfg' % m, timeout=300).done:
            raise vk.Broken('the specification accepts MC_Socket_' + m)
    for variant, salt, n in (('sched', 141, 300), ('fine', 142, 100)):
        b = vk.build('websocket', variant, sources=['websocket.c', 'vnet.c'], wraps=NET)
        runs = sched.run_seeds(b, sched.seeds(n * 12 if vk.THOROUGH else n, salt), 'websocket', timeout=60)
        good = sched.check_traces(c, 'T_Socket', runs, what='websocket')
        for r in good:
            for e in r['ev']:
                if e[0] in ('open', 'closed', 'pm', 'd', 'pp', 'pong', 'pc', 'sc', 'rx', 'deny', 'settled'):
                    c.count('n_' + {'open': 'sessions', 'closed': 'sessions_ended', 'pm': 'messages_sent_to_it', 'd': 'messages_delivered', 'pp': 'pings', 'pong': 'pongs', 'pc': 'closes', 'sc': 'submissions', 'rx': 'frames_received', 'deny': 'handshakes_refused', 'settled': 'quiet_points'}[e[0]], 1)
        if good and variant == 'sched':
            c.sample({'seed': good[0]['seed'], 'first_events': good[0]['ev'][:15]})
