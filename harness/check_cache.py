"""L01-L03: cached functions, dictionaries of any key, shared iterators."""
from lib import parallel

SPECS = {'L01': ('lru', 'JudgeLru'), 'L02': ('safe', 'JudgeSafeMap'), 'L03': ('shared', 'JudgeShared')}


def run(chk):
    what, judge = SPECS[chk.prop]
    {'L01': lru, 'L02': safe, 'L03': shared}[chk.prop](chk, what, judge)


def replay(chk, what, cases, seed, **job):
    for out in parallel(*[
        (lambda n=n: chk.driver('drv_cache.py', {'mode': 'replay', 'what': what, 'seed': 0,
                                                 'cases': cases[n::2], **job}, hashseed=seed + n))
            for n in range(2)]):
        for ev in out:
            if 'done' not in ev:
                chk.violation({'what': 'a history differs from the specification', 'event': ev})
    with chk.lock:
        chk.traces += len(cases)
        chk.notes['histories_replayed'] = chk.notes.get('histories_replayed', 0) + len(cases)


def record(chk, what, judge, quick, thorough):
    events = []
    for part in parallel(*[
        (lambda k=k: chk.driver('drv_cache.py', {
            'mode': 'record', 'what': what, 'seed': chk.seed * 100 + k,
            'n': chk.pick(quick, thorough)}, hashseed=chk.seed + 5 + k)) for k in range(2)]):
        events += part
    chk.judge(judge, events)
    chk.notes['histories_recorded'] = len(events)
    chk.sample(events[0])


def safe(chk, what, judge):
    def model(typed):
        depth = chk.pick(5, 6) - typed
        res = chk.tlc('MCSafeMap', f'CONSTANT Depth = {depth}\nCONSTANT Typed = {str(typed).upper()}\n'
                      'SPECIFICATION Spec\nINVARIANT Emit\nINVARIANT KeysDistinct\nPROPERTY Local\n',
                      workers=2)
        cases = [p for p in res.prints if 'ops' in p]
        chk.sample(cases[0])
        replay(chk, what, cases, chk.seed, typed=typed)

    parallel(lambda: model(False), lambda: model(True),
             lambda: record(chk, what, judge, 5000, 30000),
             lambda: pools(chk), lambda: weak_types(chk))
    chk.assumptions.append('keys keep the hash and equality they had when inserted; a key that can be '
                           'hashed is never the same as one that can not')


def pools(chk):
    res = chk.tlc('MCPool', f'CONSTANT Depth = {chk.pick(5, 6)}\nSPECIFICATION Spec\nINVARIANT Emit\nINVARIANT NamesDistinct\n'
                  'INVARIANT AreCleared\nPROPERTY LivesOn\n', workers=2)
    replay(chk, 'pool', [p for p in res.prints if 'ops' in p], chk.seed)
    record(chk, 'pool', 'JudgePool', 1500, 12000)


def weak_types(chk):
    res = chk.tlc('MCWeakTypes', f'CONSTANT Depth = {chk.pick(4, 5)}\nSPECIFICATION Spec\nINVARIANT Emit\nINVARIANT Distinct\n'
                  'INVARIANT Living\nPROPERTY LatestFirst\n', workers=2)
    replay(chk, 'types', [p for p in res.prints if 'ops' in p], chk.seed)
    record(chk, 'types', 'JudgeWeakTypes', 600, 4000)


def lru(chk, what, judge):
    def model(size, typed):
        depth = chk.pick(3, 5)
        res = chk.tlc('MCLru', f'CONSTANT Depth = {depth}\nCONSTANT Max = {99 if size < 0 else size}\n'
                      f'CONSTANT Typed = {str(typed).upper()}\nSPECIFICATION Spec\nINVARIANT Emit\n'
                      'INVARIANT IsBounded\nINVARIANT IsOneEach\nPROPERTY Once\nPROPERTY Counted\n',
                      workers=2)
        # where python may keep equal arguments apart the specification has more than one outcome
        cases = {}
        for p in res.prints:
            if 'ops' in p:
                cases.setdefault(repr(p['ops']), []).append(p)
        several = sum(len(c) > 1 for c in cases.values())
        single = [c[0] for c in cases.values() if len(c) == 1]
        chk.notes['histories_with_several_outcomes'] = \
            chk.notes.get('histories_with_several_outcomes', 0) + several
        if single:
            chk.sample(single[0])
        replay(chk, what, single, chk.seed,
               cfg={'max': size, 'typed': typed, 'safe': True, 'bind': ''})

    sizes = chk.pick([(2, True), (-1, True), (0, False), (1, False)],
                     [(0, True), (1, True), (2, True), (3, True), (-1, True), (1, False), (-1, False)])
    parallel(lambda: [model(*s) for s in sizes], lambda: record(chk, what, judge, 5000, 30000))
    chk.assumptions.append('where python itself may keep equal arguments of different types apart '
                           'both outcomes are accepted')
    chk.assumptions.append('a function that raises TypeError may be run twice, as documented')


def shared(chk, what, judge):
    def model():
        res = chk.tlc('MCShared', f'CONSTANT Depth = {chk.pick(7, 9)}\n'
                      f'CONSTANT Consumers = {chk.pick(2, 3)}\nSPECIFICATION Spec\nINVARIANT Emit\n'
                      'INVARIANT Ordered\nINVARIANT AllGiven\nINVARIANT DrawnOnce\n', workers=4)
        cases = [p for p in res.prints if 'ops' in p]
        chk.sample(cases[0])
        replay(chk, what, cases, chk.seed)

    def threads(k):
        events = chk.driver('drv_threads.py', {'mode': 'shared', 'seed': chk.seed * 10 + k,
                                               'n': chk.pick(3000, 15000)}, hashseed=chk.seed + k)
        runs = sum(ev['runs'] for ev in events if 'runs' in ev)
        chk.judge(judge, [ev for ev in events if 'runs' not in ev])
        with chk.lock:
            chk.traces += runs
            chk.notes['thread_schedules'] = chk.notes.get('thread_schedules', 0) + runs

    parallel(model, lambda: record(chk, what, judge, 1500, 20000), lambda: threads(0), lambda: threads(1))
