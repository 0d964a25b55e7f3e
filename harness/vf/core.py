"""Common machinery: encoding of values for the TLA+ specification, guarded calls into the code under
test, running TLC, and the verdict of a check."""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from decimal import Decimal
from pathlib import Path

VERIF = Path(__file__).resolve().parents[2]
SPEC = VERIF / 'spec'
REPO = Path(os.environ.get('VF_REPO', '/repo'))
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = max(1, min(8, os.cpu_count() or 1))

# ---------------------------------------------------------------- values

def codes(s):
    return [ord(c) for c in s]


def num(x, exact=False):
    """A number as ["n", neg, digits, exp] - plain decimal digits, normalised only by the specification."""
    if isinstance(x, float) and not exact:
        d = Decimal(repr(x))
    else:
        d = Decimal(x)
    sign, digits, exp = d.as_tuple()
    return ["n", sign, list(digits), exp]


def jval(v, text=codes, exact=False):
    """Encode a plain Python JSON value for the specification (see Json.tla)."""
    try:
        return _jval(v, text, exact)
    except RecursionError:
        return ["x", "bottomless"]      # no JSON value: it contains itself


def _jval(v, text, exact):
    if v is None:
        return ["z"]
    if isinstance(v, bool):
        return ["b", v]
    if isinstance(v, (int, float)):
        return num(v, exact)
    if isinstance(v, str):
        return ["s", text(v)]
    if isinstance(v, (list, tuple)):
        return ["a", [_jval(x, text, exact) for x in v]]
    if isinstance(v, dict):
        return ["o", [text(k) for k in v], [_jval(x, text, exact) for x in v.values()]]
    return ["x", type(v).__name__]


def xval(v):
    """Encode with floats as the exact binary fractions they are."""
    return jval(v, exact=True)


class Tab:
    """Table of the strings occurring in a history, for specifications that treat strings as atoms."""

    def __init__(self):
        self.d = {}

    def __call__(self, s):
        self.d[s] = codes(s)
        return s


# ---------------------------------------------------------------- guarded calls

class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


def mro(e):
    return [c.__name__ for c in type(e).__mro__ if c not in (object, BaseException)]


def attempt(f, *args, enc=None, limit=20, **kwargs):
    """Call f; outcome ["ok", encoded result] or ["err", [exception class names]]."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        r = f(*args, **kwargs)
        return ["ok", enc(r) if enc else 0 if r is None else r]
    except Hang:
        return ["err", ["HANG"]]
    except RecursionError as e:
        return ["err", mro(e)]
    except Exception as e:
        return ["err", mro(e)]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


# ---------------------------------------------------------------- TLC

class TlcError(Exception):
    result = None


class TlcResult:
    def __init__(self):
        self.states = self.distinct = 0
        self.lines = []
        self.out = ''
        self.violated = None
        self.wall = 0.0


_children = []


def run_tlc(module, cfg, env=None, workers=NCPU, heap='6g', timeout=600, simulate=None, depth=None, seed=None,
            extra=(), dump=None):
    """Run TLC on spec/<module>.tla with spec/<cfg>. Raises TlcError on anything but success or a violated
    invariant/property (reported in .violated)."""
    meta = tempfile.mkdtemp(prefix='vf_tlc_')
    try:
        cmd = ['java', '-XX:+UseParallelGC', f'-XX:ParallelGCThreads={max(2, workers)}', f'-Xmx{heap}', '-Xss512m', '-cp', JARS, 'tlc2.TLC',
               '-config', str(SPEC / cfg), '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE',
               '-deadlock', '-nowarning', '-fp', '0', *extra]
        if seed is not None:
            cmd += ['-seed', str(seed)]
        if simulate:
            cmd += ['-simulate', f'num={simulate}']
        if depth:
            cmd += ['-depth', str(depth)]
        if dump:
            cmd += ['-dump', 'dot,actionlabels', dump]
        cmd.append(str(SPEC / f'{module}.tla'))
        e = dict(os.environ)
        e.update(env or {})
        e.pop('JAVA_TOOL_OPTIONS', None)
        t = time.time()
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=meta, text=True, errors='replace')
        _children.append(p)
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            raise TlcError(f'TLC timed out after {timeout}s on {module}/{cfg}')
        r = TlcResult()
        r.wall = time.time() - t
        r.out = out
        for line in out.splitlines():
            m = re.match(r'^"(V[A-Z]+ .*)"$', line)
            if m:
                r.lines.append(m.group(1).replace('\\"', '"').replace('\\\\', '\\'))
        m = re.findall(r'([\d,]+) states generated[^,]*, ([\d,]+) distinct', out)
        if m:
            r.states, r.distinct = (int(x.replace(',', '')) for x in m[-1])
        m = re.search(r'Error: (?:Invariant|Action property|Temporal property|Evaluating invariant|Assumption|Property) ?(.*?)(?: is violated| was violated|failed|is false)', out)
        if m:
            r.violated = m.group(1) or 'property'
        elif p.returncode != 0:
            at = max(out.find('Error:'), 0)
            e = TlcError(f'TLC failed ({p.returncode}) on {module}/{cfg}:\n' + out[at:at + 3000] + '\n...\n' + out[-1000:])
            e.result = r
            raise e
        return r
    finally:
        shutil.rmtree(meta, ignore_errors=True)


# ---------------------------------------------------------------- a check

class Violation:
    def __init__(self, clause, data):
        self.clause = clause
        self.data = data


class Ctx:
    """Collects what a run covered and what it found."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == 'quick'
        self.violations = []
        self.states = self.transitions = 0
        self.traces = self.events = 0
        self.samples = []
        self.notes = {}
        self.t0 = time.time()
        self.tmp = Path(tempfile.mkdtemp(prefix=f'vf_{pid}_'))

    def scale(self, quick, thorough):
        return quick if self.quick else thorough

    # model checking of the specification itself
    def model(self, module, cfg, **kw):
        r = run_tlc(module, cfg, **kw)
        self.states += r.distinct
        self.transitions += r.states
        self.notes.setdefault('models', []).append(
            dict(module=module, cfg=cfg, distinct_states=r.distinct, states_generated=r.states, wall_s=round(r.wall, 1)))
        if r.violated:
            raise TlcError(f'specification {module}/{cfg} violates its own {r.violated}:\n{r.out[-3000:]}')
        return r

    # trace validation
    def validate(self, module, cfg, histories, tag=None, parts=1, heap='6g', timeout=800, env=None):
        """histories: list of dict(ev=[...], info=...). Every history must be accepted by the specification."""
        if not histories:
            return
        slim = []
        for h in histories:
            slim.append({k: v for k, v in h.items() if k != 'info'})
        path = self.tmp / f'{tag or module}.ndjson'
        with open(path, 'w') as f:
            for h in slim:
                f.write(json.dumps(h, separators=(',', ':')) + '\n')
        e = {'VF_TRACE': str(path)}
        e.update(env or {})
        broken = None
        try:
            r = run_tlc(module, cfg, env=e, heap=heap, timeout=timeout)
        except TlcError as x:
            # a history that has gone wrong may take the specification's own state to where it has no answers
            if not x.result or not any(l.startswith('VFAIL ') for l in x.result.lines):
                raise
            r, broken = x.result, x
        if r.violated:
            raise TlcError(f'{module}: unexpected {r.violated}\n{r.out[-3000:]}')
        ended = set()
        failed = set()
        for line in r.lines:
            p = line.split(' ', 3)
            if p[0] == 'VEND':
                ended.add(int(p[1]))
            elif p[0] == 'VFAIL':
                h, l = int(p[1]), int(p[2])
                clause, _, where = p[3].partition(' ')
                failed.add(h)
                H = histories[h - 1]
                self.violations.append(Violation(clause, dict(
                    module=module, history=h, event=l, clause=clause, where=where,
                    event_data=_clip(H['ev'][l - 1]) if l <= len(H['ev']) else None,
                    info=_info(H, l), header={k: _clip(v) for k, v in H.items() if k not in ('ev', 'info', 'tab')},
                    trace=[_clip(x) for x in H['ev'][:l]] if len(H['ev']) <= 60 else None)))
        if broken:
            raise broken
        missing = set(range(1, len(histories) + 1)) - ended - failed
        if missing:
            raise TlcError(f'{module}: histories neither accepted nor rejected: {sorted(missing)[:10]}\n{r.out[-3000:]}')
        self.traces += len(histories)
        n = sum(len(h['ev']) for h in histories)
        self.events += n
        self.states += r.distinct
        self.transitions += r.states
        self.notes.setdefault('validations', []).append(
            dict(module=module, tag=tag, histories=len(histories), events=n, rejected=len(failed), wall_s=round(r.wall, 1)))
        if not self.samples:
            for i in (0, len(histories) // 2, len(histories) - 1):
                H = histories[i]
                self.samples.append(dict(info=_info(H, 1), first_event=_clip(H['ev'][0], 600)))
        path.unlink()

    def fail(self, clause, **data):
        self.violations.append(Violation(clause, dict(data, clause=clause)))


def _clip(v, n=6000):
    try:
        s = json.dumps(v)
    except Exception:
        s = repr(v)
    return v if len(s) <= n else s[:n] + '...'


def _info(H, l):
    i = H.get('info')
    if isinstance(i, list):
        i = i[l - 1] if 0 < l <= len(i) else None
    elif callable(i):
        i = i(l)
    return _clip(i, 4000)


def through_repo(tb):
    for fr in traceback.extract_tb(tb):
        if str(REPO) + '/jschon/' in fr.filename:
            return True
    return False


def load_findings():
    p = VERIF / 'known_findings.jsonl'
    out = []
    if p.exists():
        for line in p.read_text().splitlines():
            line = line.strip()
            if line and not line.startswith('#') and not line.startswith('fixed:'):
                out.append(json.loads(line))
    return out


def finish(ctx, level='model_checking', assumptions=()):
    """Write evidence, print the verdict, return the exit code."""
    findings = [f for f in load_findings() if f['property'] == ctx.pid]
    new, known = [], {}
    for v in ctx.violations:
        blob = json.dumps(v.data, default=repr, sort_keys=True)
        for f in findings:
            if f['clause'] == v.clause and all(m in blob for m in f.get('match', [])):
                known[f['id']] = f
                break
        else:
            new.append(v)
    for f in known.values():
        print(f"KNOWN-FINDING: property={ctx.pid} {f['what']}")
    cov = dict(states=ctx.states, transitions=ctx.transitions, traces_validated_against_impl=ctx.traces,
               events_validated=ctx.events, samples=ctx.samples[:3] or ['(none)'], **ctx.notes)
    ev = dict(property=ctx.pid, tier=ctx.tier, seed=ctx.seed, level=level, coverage=cov,
              assumptions=list(assumptions), wall_s=round(time.time() - ctx.t0, 2), violations=len(new))
    out = Path(os.environ.get('VF_EVIDENCE') or VERIF / 'evidence') / f'{ctx.pid}.json'
    out.parent.mkdir(parents=True, exist_ok=True)
    out.write_text(json.dumps(ev, indent=1, default=repr) + '\n')
    if new:
        rd = out.parent / 'replay'
        rd.mkdir(exist_ok=True)
        seen = {}
        for v in new:
            seen.setdefault(v.clause, []).append(v)
        print(f'{len(new)} violations, clauses: ' + ', '.join(f'{c} x{len(vs)}' for c, vs in sorted(seen.items(), key=lambda x: -len(x[1]))[:12]))
        for c, vs in list(seen.items())[:4]:
            print('  ', json.dumps(min((x.data for x in vs), key=lambda d: len(json.dumps(d, default=repr))), default=repr)[:1500])
        path = rd / f'{ctx.pid}.json'
        path.write_text(json.dumps([v.data for v in new[:50]], indent=1, default=repr) + '\n')
        print(f'VIOLATION property={ctx.pid} replay={path}')
        return 1
    print(f'OK property={ctx.pid} states={ctx.states} traces={ctx.traces} events={ctx.events} wall={ev["wall_s"]}s')
    return 0


def unj(v):
    """The plain Python value of an encoded one (numbers with exp >= 0 become int)."""
    t = v[0]
    if t == 'z':
        return None
    if t == 'b':
        return v[1]
    if t == 'n':
        n = int(''.join(map(str, v[2])) or '0') * (-1 if v[1] else 1)
        return n * 10 ** v[3] if v[3] >= 0 else float(f'{n}e{v[3]}')
    if t == 's':
        return v[1] if isinstance(v[1], str) else ''.join(map(chr, v[1]))
    if t == 'a':
        return [unj(x) for x in v[1]]
    if t == 'o':
        return {(k if isinstance(k, str) else ''.join(map(chr, k))): unj(x) for k, x in zip(v[1], v[2])}
    raise ValueError(v)


def text(c):
    return ''.join(map(chr, c))
