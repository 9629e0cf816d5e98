"""U04: callables get the arguments python itself would bind."""
from lib import parallel


def run(chk):
    def model():
        named = chk.pick(2, 3)
        res = chk.tlc('MCBind', f'CONSTANT MaxNamed = {named}\nCONSTANT MaxSite = 2\nSPECIFICATION Spec\n'
                      'INVARIANT LikePython\nINVARIANT NamedWin\nINVARIANT ItemsWin\n', workers=4)
        sigs = [p for p in res.prints if 'sig' in p]
        total = sum(len(p['cases']) for p in sigs)
        if not total:
            raise AssertionError('nothing enumerated')
        for out in parallel(*[
            (lambda n=n: chk.driver('drv_bind.py', {'mode': 'replay', 'sigs': sigs[n::4]}, hashseed=chk.seed + n))
                for n in range(4)]):
            for ev in out:
                chk.violation({'what': 'the code binds other arguments than the specification', 'event': ev})
        chk.traces += total
        chk.notes['signatures_enumerated'] = len(sigs)
        chk.notes['calls_replayed'] = total

    def recorded():
        events = []
        for part in parallel(*[
            (lambda k=k: chk.driver('drv_bind.py', {
                'mode': 'record', 'seed': chk.seed * 100 + k, 'n': chk.pick(4500, 20000)},
                hashseed=chk.seed + 5 + k)) for k in range(4)]):
            events += part
        events = [ev for ev in events if 'skip' not in ev]
        chk.judge('JudgeUnmarshal', events, workers=4)
        chk.notes['random_calls'] = len(events)
        chk.sample({k: v for k, v in events[0].items() if k != 'src'})

    parallel(model, recorded)
    chk.assumptions.append('parameters that are positional-only may be named by elements and at the call site of a '
                           'schema; call-site values are passed on as they are')
