#!/usr/bin/env python3
"""Nothing to build: checks that the tools are there and that all specification
modules parse."""
import pathlib
import shutil
import subprocess
import sys
import tempfile

ROOT = pathlib.Path(__file__).resolve().parent.parent
JAR = '/opt/veriftools/tla/tla2tools.jar'
DEPS = '/opt/veriftools/tla/CommunityModules-deps.jar'
work = pathlib.Path(tempfile.mkdtemp(prefix='verif-setup-'))
try:
    for f in (ROOT / 'spec').glob('*.tla'):
        shutil.copy(f, work / f.name)
    bad = 0
    mods = sorted(p.name for p in work.glob('*.tla'))
    out = subprocess.run(['java', '-Dfile.encoding=UTF-8', '-cp', f'{JAR}:{DEPS}', 'tla2sany.SANY', *mods],
                         cwd=work, capture_output=True, text=True)
    text = out.stdout + out.stderr
    if out.returncode or 'Abort' in text or '*** Errors' in text:
        print(text[-3000:])
        bad = 1
    print(f'{len(mods)} specification modules parsed')
finally:
    shutil.rmtree(work, ignore_errors=True)
sys.exit(bad)
