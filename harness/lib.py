"""Shared machinery of the checks: runs TLC, the drivers of the real code and
the judges, and writes the evidence.  Never imports the code under test."""
import json
import os
import pathlib
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = pathlib.Path(__file__).resolve().parent
VERIF = HERE.parent
SPEC = VERIF / 'spec'
REPO = pathlib.Path('/repo')
PY = '/opt/venv/bin/python'
JAR = '/opt/veriftools/tla/tla2tools.jar'
DEPS = '/opt/veriftools/tla/CommunityModules-deps.jar'


class Inconclusive(Exception):
    """The machinery itself failed (not the code under test)."""


class TLCResult:

    def __init__(self, prints, generated, distinct, depth, ok, output):
        self.prints = prints
        self.generated = generated
        self.distinct = distinct
        self.depth = depth
        self.ok = ok
        self.output = output


class Check:

    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get('VERIF_TIER') or 'quick'
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED') or 1) if seed is None else seed
        self.hung = False
        self.rng = random.Random(f'{prop}/{self.seed}/{self.tier}')
        self.start = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.assumptions = []
        self.notes = {}
        self.found = []
        self.tmp = pathlib.Path(tempfile.mkdtemp(prefix=f'verif-{prop}-'))
        self.lock = threading.Lock()
        self.ntlc = 0

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- TLC ---------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=None, timeout=800,
            expect_ok=True, extra=(), count=True, heap=None):
        """Run TLC on spec/<module>.tla.  `cfg` is the text of the model."""
        with self.lock:
            self.ntlc += 1
            number = self.ntlc
        work = self.tmp / f'tlc{number}'
        work.mkdir()
        for f in SPEC.glob('*.tla'):
            shutil.copy(f, work / f.name)
        if cfg is None:
            cfg = (SPEC / f'{module}.cfg').read_text()
        (work / f'{module}.cfg').write_text(cfg)
        cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', f'-Xmx{heap or "3g"}',
               '-Dfile.encoding=UTF-8', '-Dstdout.encoding=UTF-8',
               '-Dsun.jnu.encoding=UTF-8']
        if not self.thorough:
            cmd.append('-XX:TieredStopAtLevel=1')
        cmd += ['-cp', f'{JAR}:{DEPS}', 'tlc2.TLC', '-workers', str(workers or 4),
                '-metadir', str(work / 'states'), '-deadlock', '-nowarning',
                *extra, f'{module}.tla']
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        e['LC_ALL'] = 'C.UTF-8'
        out_path = work / 'out.txt'
        with open(out_path, 'wb') as out:
            try:
                proc = subprocess.run(cmd, cwd=work, env=e, stdout=out,
                                      stderr=subprocess.STDOUT, timeout=timeout,
                                      stdin=subprocess.DEVNULL)
                rc = proc.returncode
            except subprocess.TimeoutExpired:
                raise Inconclusive(f'TLC timed out on {module}')
        text = out_path.read_text(encoding='utf-8', errors='replace')
        prints, rest = [], []
        for line in text.splitlines():
            if line.startswith('"{') or line.startswith('"['):
                try:
                    prints.append(json.loads(json.loads(line, strict=False), strict=False))
                    continue
                except ValueError:
                    pass
            rest.append(line)
        rest_text = '\n'.join(rest)
        m = None
        for m in re.finditer(r'(\d+) states generated.*?(\d+) distinct states found', rest_text):
            pass
        gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        m = re.search(r'depth of the complete state graph search is (\d+)', rest_text)
        depth = int(m.group(1)) if m else 0
        ok = rc == 0
        if count:
            with self.lock:
                self.states += dist
                self.transitions += gen
        shutil.rmtree(work / 'states', ignore_errors=True)
        if expect_ok and not ok:
            raise Inconclusive(f'TLC failed on {module} (rc {rc}):\n' + rest_text[max(0, rest_text.find('Error:')):][:1500])
        return TLCResult(prints, gen, dist, depth, ok, rest_text)

    # -- drivers of the real code -------------------------------------------
    def driver(self, script, job, hashseed=0, timeout=None, env=None):
        """Run harness/<script> in the interpreter of the code under test.

        The driver reads `job` (JSON) and writes one JSON event per line."""
        timeout = timeout or self.pick(300, 600)
        if self.hung:
            # one that does not come back says enough
            raise Inconclusive('a driver hung')
        with self.lock:
            self.ntlc += 1
            number = self.ntlc
        job_path = self.tmp / f'job{number}.json'
        out_path = self.tmp / f'events{number}.ndjson'
        err_path = self.tmp / f'err{number}.txt'
        scratch = self.tmp / f'scratch{number}'
        scratch.mkdir()
        job_path.write_text(json.dumps(job))
        e = {k: v for k, v in os.environ.items() if not k.startswith(('PYTHON', 'MARSH'))}
        e.update({
            'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPATH': f'{REPO}:{HERE}',
            'PYTHONHASHSEED': str(hashseed % 4294967295), 'TZ': 'UTC',
            'PYTHONIOENCODING': 'utf-8', 'LC_ALL': 'C.UTF-8', 'HOME': str(scratch),
        })
        e.update(env or {})
        with open(err_path, 'wb') as err:
            proc = subprocess.Popen(
                [PY, '-X', 'utf8', str(HERE / script), str(job_path), str(out_path)],
                cwd=scratch, env=e, stdout=err, stderr=err, stdin=subprocess.DEVNULL,
                start_new_session=True)
            try:
                rc = proc.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                rc = 'timeout'
                self.hung = True
            finally:
                try:
                    os.killpg(proc.pid, signal.SIGKILL)
                except OSError:
                    pass
                proc.wait()
        events = []
        if out_path.exists():
            for line in out_path.read_text(encoding='utf-8').splitlines():
                try:
                    events.append(json.loads(line))
                except ValueError:
                    pass    # cut off by a crash, reported below
        if rc != 0:
            self.violation({
                'what': 'the driver of the real code ended abnormally',
                'script': script, 'rc': rc, 'events_written': len(events),
                'job': job if len(json.dumps(job)) < 20000 else '(large)',
                'stderr': err_path.read_text(errors='replace')[-4000:],
            })
        return events

    # -- judging -------------------------------------------------------------
    def judge(self, module, events, key=None, timeout=800, workers=4, describe=None, env=None):
        """Let TLC decide every event; report those the specification rejects."""
        if not events:
            raise Inconclusive('no events to judge')
        bad = self.verdicts(module, events, timeout=timeout, workers=workers, env=env)
        with self.lock:
            self.traces += len(events)
        for n, want in bad:
            ev = events[n]
            self.violation({'what': 'the code does not do what the specification says',
                            'module': module, 'event': ev, 'specified': want},
                           key=key(ev) if key else None)
        return bad

    def verdicts(self, module, events, timeout=800, workers=4, env=None, batch=16_000_000):
        """[(number of the event, what the specification says)] of the events that are rejected.

        TLC holds the events it judges in memory, so that many of them are judged in batches."""
        batches, size = [[]], 0
        for n, ev in enumerate(events):
            line = json.dumps(ev, ensure_ascii=False) + '\n'
            if batches[-1] and size + len(line) > batch:
                batches.append([])
                size = 0
            batches[-1].append((n, line))
            size += len(line)
        bad = []
        for part in batches:
            found = self.judged(module, [line for _, line in part], timeout, workers, env)
            bad += [(part[k][0], want) for k, want in found]
        return bad

    def judged(self, module, lines, timeout, workers, env):
        with self.lock:
            self.ntlc += 1
            number = self.ntlc
        path = self.tmp / f'judge{number}.ndjson'
        with open(path, 'w', encoding='utf-8') as f:
            f.writelines(lines)
        chunks = max(1, min(64, len(lines)))
        cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
        res = self.tlc(module, cfg, env={'EVENTS': path, 'CHUNKS': chunks, **(env or {})},
                       timeout=timeout, workers=workers, expect_ok=False)
        path.unlink()
        if not res.ok:
            # an event of a shape the specification knows nothing about
            at = re.findall(r'/\\ chunk = (\d+)\s*/\\ pos = (\d+)', res.output)
            n = int(at[-1][0]) - 1 + int(at[-1][1]) * chunks if at else -1
            memory = any(w in res.output for w in ('OutOfMemory', 'GC overhead', 'heap space', 'Java heap'))
            if not (0 <= n < len(lines)) or memory:
                raise Inconclusive(f'TLC failed on {module}:\n' + res.output[-1500:])
            why = res.output[max(0, res.output.find('Error:')):][:1500]
            return [(n, 'an outcome the specification has no name for: ' + why)]
        if res.distinct != len(lines) + chunks:
            raise Inconclusive(f'{module}: {res.distinct - chunks} of {len(lines)} events judged')
        return sorted(((p['n'] - 1, p['want']) for p in res.prints), key=lambda p: p[0])

    # -- results ---------------------------------------------------------------
    def sample(self, x, limit=6):
        if len(self.samples) < limit:
            self.samples.append(x)

    def violation(self, data, key=None):
        with self.lock:
            self.found.append((key, data))

    def known(self):
        path = VERIF / 'known_findings.json'
        if not path.exists():
            return []
        return [k for k in json.loads(path.read_text())['findings'] if k['property'] == self.prop]

    def finish(self, exhaustive=None):
        known = self.known()
        real, hits = [], {}
        for key, data in self.found:
            match = next((k for k in known if key is not None and k['key'] == key), None)
            if match:
                hits[match['key']] = match
            else:
                real.append((key, data))
        for k in known:
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}", flush=True)
        replay_dir = VERIF / 'evidence' / 'replay'
        replay_dir.mkdir(parents=True, exist_ok=True)
        for old in replay_dir.glob(f'{self.prop}-*.json'):
            old.unlink()
        for n, (key, data) in enumerate(real[:5], 1):
            p = replay_dir / f'{self.prop}-{n}.json'
            p.write_text(json.dumps({'property': self.prop, 'seed': self.seed,
                                     'tier': self.tier, 'key': key, **data},
                                    indent=1, ensure_ascii=False, default=str))
        coverage = {
            'states': self.states, 'transitions': self.transitions,
            'traces_validated_against_impl': self.traces, 'samples': self.samples,
            **self.notes,
        }
        if exhaustive is not None:
            coverage['exhaustive'] = exhaustive
        (VERIF / 'evidence' / f'{self.prop}.json').write_text(json.dumps({
            'property': self.prop, 'tier': self.tier, 'seed': self.seed,
            'level': 'model_checking', 'coverage': coverage,
            'assumptions': self.assumptions, 'wall_s': round(time.time() - self.start, 2),
            'violations': len(real),
        }, indent=1, ensure_ascii=False, default=str))
        shutil.rmtree(self.tmp, ignore_errors=True)
        if real:
            for n in range(1, min(5, len(real)) + 1):
                print(f'VIOLATION property={self.prop} '
                      f'replay=evidence/replay/{self.prop}-{n}.json', flush=True)
            return 1
        print(f'OK property={self.prop} states={self.states} transitions={self.transitions} '
              f'traces={self.traces} wall={time.time() - self.start:.1f}s', flush=True)
        return 0


def parallel(*thunks):
    """Run thunks in threads; re-raise the first exception."""
    results = [None] * len(thunks)
    errors = []

    def run(i, f):
        try:
            results[i] = f()
        except BaseException as err:
            errors.append(err)
    threads = [threading.Thread(target=run, args=(i, f)) for i, f in enumerate(thunks)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    if errors:
        raise errors[0]
    return results
