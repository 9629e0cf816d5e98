"""E01-E04: editing elements."""
from lib import parallel

WHAT = {'E01': 'set', 'E02': 'remove', 'E03': 'merge', 'E04': 'select'}
LAWS = {
    'set': ['SetThenSelect', 'SetCreatesIntermediate', 'SetKeepsRest'],
    'remove': ['RemoveForgets'],
    'merge': ['MergePrecedence', 'MergeAssociative'],
    'select': ['SelectSplit'],
}


def run(chk):
    what = WHAT[chk.prop]

    def model():
        cfg = f'CONSTANTS What = "{what}" MaxSize = {3 if what == "set" else chk.pick(3, 4)} MaxDepth = 3\n' \
              'SPECIFICATION Spec\n' + ''.join(f'INVARIANT {x}\n' for x in LAWS[what])
        res = chk.tlc('MCElement', cfg, workers=4)
        cases = [p for p in res.prints if 'elem' in p]
        head = [p for p in res.prints if 'paths' in p][0]
        chk.sample({'small elements': len(cases), 'first': cases[0]['elem']})
        chunk = 400
        events = []
        total = sum(len(x) if isinstance(x, list) else 1 for c in cases for x in c['res'].values())
        jobs = [cases[i::4] for i in range(4)]
        outs = parallel(*[
            (lambda j=j, n=n: chk.driver('drv_element.py', {
                'mode': 'replay', 'seed': chk.seed + n, 'paths': head['paths'],
                'values': head['values'], 'cases': j}, hashseed=chk.seed * 2 + n))
            for n, j in enumerate(jobs)])
        for out in outs:
            for ev in out:
                if 'what' in ev:
                    chk.violation({'what': f"{ev['what']} of a small element differs from the specification",
                                   'event': ev, 'path': head['paths'], 'values': head['values']})
        chk.traces += total
        chk.notes['small_elements'] = len(cases)
        chk.notes['edits_replayed'] = total

    def random_calls():
        events = []
        n = chk.pick(2500 if chk.prop == "E01" else 9000, 30000)
        for part in parallel(*[
            (lambda k=k: chk.driver('drv_element.py', {
                'mode': 'record', 'what': what, 'seed': chk.seed * 1000 + k, 'n': n // 2},
                hashseed=chk.seed * 7 + k)) for k in range(2)]):
            events += part
        chk.judge('JudgeElement', events, workers=4)
        chk.notes['random_calls'] = len(events)
        for ev in events[:3]:
            chk.sample(ev)

    parallel(model, random_calls)
    chk.assumptions += [
        'TLC evaluates the specification correctly; the specification states the documented meaning',
        'small elements are enumerated exhaustively up to the stated size over the fields '
        'a, 0, "b.", 1, -1; larger ones are sampled with VERIF_SEED',
    ]
