"""R01: orders by priority and schema registries."""
from lib import parallel


def record(chk):
    parts = 4
    events = []
    for part in parallel(*[
        (lambda k=k: chk.driver('drv_registry.py', {
            'mode': 'record', 'seed': chk.seed * 1000 + k, 'orders': chk.pick(6000, 80000) // parts,
            'registries': chk.pick(1200, 8000) // parts}, hashseed=chk.seed * 11 + k)) for k in range(parts)]):
        events += part
    chk.judge('JudgeOrder', events, workers=8)
    chk.notes['histories_recorded'] = len(events)
    for ev in events[:2] + events[-2:]:
        chk.sample(ev)


def replay(chk, mode, cases, parts=3):
    chk.sample(cases[0])
    for out in parallel(*[
        (lambda n=n: chk.driver('drv_registry.py', {'mode': mode, 'cases': cases[n::parts]},
                                hashseed=chk.seed + n)) for n in range(parts)]):
        for ev in out:
            if 'done' not in ev:
                chk.violation({'what': 'a history differs from the specification', 'event': ev})
    with chk.lock:
        chk.traces += len(cases)
        chk.notes['histories_replayed'] = chk.notes.get('histories_replayed', 0) + len(cases)


LAWS = 'SPECIFICATION Spec\nINVARIANT Emit\nINVARIANT IsDistinct\nINVARIANT NumberLaw\nINVARIANT RelationLaw\n'


def order(chk, depth, size, numbers, deletes):
    res = chk.tlc('MCOrder', f'CONSTANT Depth = {depth}\nCONSTANT Size = {size}\nCONSTANT Numbers = {numbers}\n'
                  f'CONSTANT Deletes = {"TRUE" if deletes else "FALSE"}\n' + LAWS + 'PROPERTY Refused\n', workers=4)
    replay(chk, 'orders', [p for p in res.prints if 'ops' in p])


def registry(chk):
    res = chk.tlc('MCRegistry', f'CONSTANT Depth = {chk.pick(4, 5)}\n' + LAWS + 'INVARIANT Best\n', workers=4)
    cases = [p for p in res.prints if 'ops' in p]
    n = chk.pick(1500, 12000)
    if len(cases) > n:
        cases = chk.rng.sample(sorted(cases, key=str), n)
    replay(chk, 'registries', cases)


def run(chk):
    parallel(lambda: record(chk), lambda: registry(chk),
             lambda: order(chk, 3, 3, 1, True), lambda: order(chk, 2, 3, 2, True),
             *([lambda: order(chk, 4, 3, 1, True), lambda: order(chk, 3, 3, 2, True)] if chk.thorough else []))
