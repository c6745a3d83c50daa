"""Shared by all checks: building the MIR dumper, dumping /repo, reporting."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.setrecursionlimit(20000)


class Broken(Exception):
    """the tool chain itself failed (not a statement about the property)"""


def sysroot():
    return subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()


def driver():
    """path of the MIR dumper, built if needed"""
    env = dict(os.environ, CARGO_NET_OFFLINE='true')
    env.pop('RUSTFLAGS', None)
    for tgt in (os.path.join(VERIF, 'driver', 'target'), os.path.join(tempfile.gettempdir(), 'verif-mirdump-target')):
        env['CARGO_TARGET_DIR'] = tgt
        r = subprocess.run(['cargo', '+nightly', 'build', '--offline', '--quiet'],
                           cwd=os.path.join(VERIF, 'driver'), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        exe = os.path.join(tgt, 'debug', 'mirdump')
        if r.returncode == 0 and os.path.exists(exe):
            return exe
    raise Broken('cannot build the MIR dumper:\n' + r.stdout)


def dump(src=None):
    """compile REPO's library with the dumper; -> eng.Prog"""
    import eng
    if os.environ.get('VERIF_DUMP'):
        return eng.Prog(os.environ['VERIF_DUMP'])
    exe = driver()
    sr = sysroot()
    src = src or os.path.join(REPO, 'src', 'lib.rs')
    tmp = tempfile.mkdtemp(prefix='verif-dump-')
    try:
        out = os.path.join(tmp, 'dump.json')
        env = dict(os.environ, LD_LIBRARY_PATH=os.path.join(sr, 'lib'))
        cmd = [exe, out, '--', src, '--crate-name', 'libyaml_safer', '--crate-type', 'lib', '--edition', '2021',
               '-Cdebug-assertions=on', '-Coverflow-checks=on', '-Zmir-opt-level=0', '-Cpanic=abort',
               '--sysroot', sr, '--emit=metadata', '-o', os.path.join(tmp, 'x.rmeta'), '--cap-lints', 'allow']
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or not os.path.exists(out):
            raise Broken('cannot compile %s:\n%s' % (src, r.stdout[-4000:]))
        return eng.Prog(out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def reset():
    """forget all symbols (between independent analyses)"""
    import dom
    import eng
    import match
    dom.reset()
    match.reset()
    eng.Eng.deref_ty.clear()
    eng.Eng.consts.clear()


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.viol = []          # (key, text)
        self.lines = []
        self.obl = {}           # obligation id -> bool / text
        self.undecided = {}
        self.assume = []
        self.notes = {}
        self.rule = ''
        self.fns = {}

    def say(self, s):
        self.lines.append(s)

    def ok(self, key, what=''):
        self.obl.setdefault(key, what)

    def fail(self, key, text):
        """key names the violated construct (no line numbers)"""
        if not any(k == key for k, _ in self.viol):
            self.viol.append((key, text))

    def check(self, cond, key, text=''):
        if cond:
            self.ok(key, text)
        else:
            self.fail(key, text or key)
        return cond

    def undec(self, key, why):
        self.undecided.setdefault(key, why)

    def note(self, k, v):
        self.notes[k] = v

    def analysed(self, fns):
        for f, n in fns.items():
            self.fns[f] = self.fns.get(f, 0) + n


def known():
    p = os.path.join(VERIF, 'known_findings.txt')
    out = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('status') == 'known':
                    out[(d['property'], d['key'])] = d
    return out


def finish(rep, t0, level):
    k = known()
    new = []
    for key, text in rep.viol:
        d = k.get((rep.prop, key))
        if d is not None:
            print('KNOWN-FINDING: property=%s %s' % (rep.prop, d['what']))
        else:
            new.append((key, text))
    rep.obl = {a: b for a, b in rep.obl.items() if a not in dict(rep.viol)}
    ev = {
        'property': rep.prop, 'tier': rep.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': level,
        'coverage': {
            'explanation': rep.rule,
            'obligations': len(rep.obl) + len(rep.viol) + len(rep.undecided),
            'discharged': len(rep.obl),
            'undecided': rep.undecided,
            'samples': sorted(rep.obl)[:40],
            'functions_analysed': len(rep.fns),
            'functions': sorted(rep.fns)[:400],
            'checker_cmd': 'python3 /verif/sa/check.py %s %s' % (rep.prop, rep.tier),
            'trusted_base': 'rustc (MIR construction), /verif/driver (MIR dump), /verif/sa (abstract interpreter '
                            'and models of the standard library)',
            **rep.notes,
        },
        'assumptions': rep.assume,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    if new:
        ev['coverage']['violating'] = [{'key': a, 'text': b} for a, b in new]
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, rep.prop + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(p + '.tmp', p)
    for l in rep.lines:
        print(l)
    print('%s: %d obligations, %d discharged, %d undecided, %d violated; %d functions analysed (%.1f s)' % (
        rep.prop, ev['coverage']['obligations'], len(rep.obl), len(rep.undecided), len(new), len(rep.fns),
        time.time() - t0))
    if new:
        od = os.path.join(VERIF, 'out')
        os.makedirs(od, exist_ok=True)
        rp = os.path.join(od, rep.prop + '.txt')
        with open(rp, 'w') as f:
            for a, b in new:
                f.write('%s\n    %s\n' % (a, b))
        for a, b in new[:20]:
            print('  violated: %s -- %s' % (a, b))
        print('VIOLATION property=%s replay=%s' % (rep.prop, rp))
        return 1
    return 0
