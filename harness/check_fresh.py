"""U13: results, elements and defaults share no containers."""
from lib import parallel


def record(chk):
    parts = 4
    events = []
    for part in parallel(*[
        (lambda k=k: chk.driver('drv_fresh.py', {
            'mode': 'record', 'seed': chk.seed * 1000 + k, 'n': chk.pick(20000, 60000) // parts},
            hashseed=chk.seed * 11 + k)) for k in range(parts)]):
        events += part
    events = [ev for ev in events if 'skip' not in ev]
    chk.judge('JudgeFresh', events, workers=8)
    chk.notes['calls_recorded'] = len(events)
    for ev in events[:3]:
        chk.sample({k: v for k, v in ev.items() if k != 'src'})


def model(chk, depth, uses):
    res = chk.tlc('MCFresh', f'CONSTANT Depth = {depth}\nCONSTANT Uses = {uses}\nSPECIFICATION Spec\n'
                  'INVARIANT Emit\nINVARIANT Apart\nINVARIANT Typed\n', workers=4)
    cases = [p for p in res.prints if 'ops' in p]
    chk.sample(cases[0])
    for out in parallel(*[
        (lambda n=n: chk.driver('drv_fresh.py', {'mode': 'replay', 'cases': cases[n::2]}, hashseed=chk.seed + n))
            for n in range(2)]):
        for ev in out:
            if 'done' not in ev:
                chk.violation({'what': 'a history differs from the specification', 'event': ev})
    with chk.lock:
        chk.traces += len(cases)
        chk.notes['histories_replayed'] = chk.notes.get('histories_replayed', 0) + len(cases)


def run(chk):
    parallel(lambda: record(chk), lambda: model(chk, chk.pick(3, 4), 2))
