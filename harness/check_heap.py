"""E05: edits never change the elements they start from."""
from lib import parallel


def run(chk):
    def model():
        depth = chk.pick(2, 3)
        res = chk.tlc('MCHeap', f'CONSTANT Depth = {depth}\nSPECIFICATION Spec\n'
                      'PROPERTY Frozen\nINVARIANT Emit\n', workers=4)
        cases = [p for p in res.prints if 'ops' in p]
        chk.sample(cases[0])
        for out in parallel(*[
            (lambda n=n: chk.driver('drv_heap.py', {
                'mode': 'replay', 'seed': chk.seed + n, 'cases': cases[n::2]},
                hashseed=chk.seed + n)) for n in range(2)]):
            for ev in out:
                if 'case' in ev:
                    chk.violation({'what': 'an editing history differs from the specification',
                                   'event': ev})
        chk.traces += len(cases)
        chk.notes['histories_replayed'] = len(cases)

    def recorded():
        events = []
        for part in parallel(*[
            (lambda k=k: chk.driver('drv_heap.py', {
                'mode': 'record', 'seed': chk.seed * 100 + k, 'n': chk.pick(4000, 20000)},
                hashseed=chk.seed + 5 + k)) for k in range(2)]):
            events += part
        chk.judge('JudgeHeap', events)
        chk.notes['histories_recorded'] = len(events)
        chk.sample(events[0])

    parallel(model, recorded)
    chk.assumptions.append('histories of the stated length; elements may share parts and use any '
                           'container type')
