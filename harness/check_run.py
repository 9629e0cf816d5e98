"""C01, C02: entry points."""
from lib import parallel


def record(chk):
    parts = 4
    mode = {'C01': 'values', 'C02': 'steps'}[chk.prop]
    events = []
    for part in parallel(*[
        (lambda k=k: chk.driver('drv_run.py', {
            'mode': mode, 'seed': chk.seed * 1000 + k + (500 if mode == 'steps' else 0),
            'n': chk.pick(1600, 16000) // parts},
            hashseed=chk.seed * 11 + k)) for k in range(parts)]):
        events += part
    events = [ev for ev in events if 'skip' not in ev]
    chk.judge('JudgeRun', events, workers=6)
    runs = [r for ev in events for r in ev['runs']]
    chk.notes['histories_recorded'] = len(events)
    chk.notes['runs_judged'] = len(runs)
    chk.notes['programs_called'] = sum(len(r['out']['calls']) for r in runs)
    for ev in events[:3]:
        chk.sample({k: v for k, v in ev.items() if k != 'src'})


def model(chk):
    what = {'C01': 'values', 'C02': 'steps'}[chk.prop]
    laws = ['IsCalledOnce', 'IsRestored', 'IsHelpOnly', 'IsWritten', 'Precedence']
    cfg = f'CONSTANTS What = "{what}" MaxLine = {chk.pick(2, 3)} Few = {chk.pick("TRUE", "FALSE")}\nSPECIFICATION Spec\n' \
        + ''.join(f'INVARIANT {x}\n' for x in ['Emit', 'EmitWorld', *laws])
    res = chk.tlc('MCRun', cfg, workers=4)
    world = next(p['world'] for p in res.prints if 'world' in p)
    cases = [p for p in res.prints if 'p' in p]
    chk.notes['runs_enumerated'] = len(cases)
    n = chk.pick(2400, 40000)
    if len(cases) > n:
        cases = chk.rng.sample(sorted(cases, key=str), n)
    parts = 4
    events = []
    for part in parallel(*[
        (lambda k=k: chk.driver('drv_run.py', {'mode': 'replay', 'cases': cases[k::parts], 'world': world},
                                hashseed=chk.seed + k)) for k in range(parts)]):
        events += part
    if len(events) < len(cases) and not chk.found:
        raise AssertionError('runs were lost')
    chk.judge('JudgeRun', events, workers=6)
    chk.notes['runs_replayed'] = len(events)
    chk.sample({k: v for k, v in events[0].items() if k != 'src'})


def run(chk):
    parallel(lambda: record(chk), lambda: model(chk))
