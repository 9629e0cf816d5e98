"""U12: concurrent unmarshaling."""
from lib import parallel

CFG = ('SPECIFICATION Spec\nINVARIANT Emit\nINVARIANT AsAlone\nINVARIANT NoLoop\nINVARIANT Closed\n'
       'PROPERTY Ends\nCHECK_DEADLOCK FALSE\n')


def run(chk):
    results = parallel(*[
        (lambda w=w: chk.tlc('Threads', f'CONSTANT Work = {w}\n' + CFG, workers=1)) for w in (1, 2, 3, 4, 5, 6)])
    orders = [[], []]
    for res in results:
        for p in res.prints:
            orders[1 if 3 in p['order'] else 0].append(p['order'])
    if not all(orders):
        raise AssertionError('no interleavings')
    for o in orders:
        o.sort()
        chk.rng.shuffle(o)
    orders = [o[:3000] for o in orders]
    chk.notes['interleavings_of_the_model'] = sum(len(r.prints) for r in results)
    parts = 8
    events = []
    for part in parallel(*[
        (lambda k=k: chk.driver('drv_threads.py', {
            'mode': 'unmarshal', 'seed': chk.seed * 1000 + k, 'n': chk.pick(4800, 50000) // parts,
            'orders': orders}, hashseed=chk.seed * 11 + k)) for k in range(parts)]):
        events += part
    runs = sum(ev['runs'] for ev in events if 'runs' in ev)
    events = [ev for ev in events if 'runs' not in ev]
    chk.judge('JudgeUnmarshal', events, workers=8)
    chk.notes['schedules_run'] = runs
    chk.notes['distinct_outcomes_judged'] = len(events)
    chk.traces += runs
    for ev in events[:3]:
        chk.sample({k: v for k, v in ev.items() if k != 'src'})
    chk.assumptions.append('threads switch at lines (in some schedules at bytecodes) of the code of marsh, never '
                           'inside of the interpreter, typing or other libraries')
