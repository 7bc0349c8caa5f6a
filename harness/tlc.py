"""Running TLC: exhaustive checks, behaviour generation, trace validation."""
import json
import os
import re
import shutil
import subprocess
import tempfile

from harness import tlaval

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TlcError(RuntimeError):
    """TLC itself failed, or the specification violates its own properties."""


def _run(args, cwd, timeout=800, env=None, heap='6g'):
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss16m',
           '-Djava.io.tmpdir=' + cwd, '-cp', CP,
           'tlc2.TLC'] + args
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    if env:
        e.update(env)
    p = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True,
                       timeout=timeout, env=e)
    return p.returncode, p.stdout + p.stderr


def _stage(module, cfg_text, extra_files=()):
    d = tempfile.mkdtemp(prefix='tlc_')
    for f in os.listdir(SPEC):
        if f.endswith('.tla'):
            shutil.copy(os.path.join(SPEC, f), d)
    with open(os.path.join(d, 'M.cfg'), 'w') as f:
        f.write(cfg_text)
    with open(os.path.join(d, 'MC.tla'), 'w') as f:
        f.write('---- MODULE MC ----\nEXTENDS %s\n%s\n====\n' % (
            module, '\n'.join(getattr(cfg_text, 'defs', []))))
    for name, text in extra_files:
        with open(os.path.join(d, name), 'w') as f:
            f.write(text)
    return d


def cfg(spec=None, init=None, next_=None, constants=None, invariants=(),
        properties=(), constraints=(), action_constraints=(), view=None,
        postcondition=None, symmetry=None, deadlock=False):
    out = []
    defs = []
    if spec:
        out.append('SPECIFICATION ' + spec)
    if init:
        out.append('INIT ' + init)
    if next_:
        out.append('NEXT ' + next_)
    for k, v in (constants or {}).items():
        if isinstance(v, str) and v.startswith('<-'):
            out.append('CONSTANT %s %s' % (k, v))
        else:
            defs.append('const_%s == %s' % (k, tla(v)))
            out.append('CONSTANT %s <- const_%s' % (k, k))
    for x in invariants:
        out.append('INVARIANT ' + x)
    for x in properties:
        out.append('PROPERTY ' + x)
    for x in constraints:
        out.append('CONSTRAINT ' + x)
    for x in action_constraints:
        out.append('ACTION_CONSTRAINT ' + x)
    if view:
        out.append('VIEW ' + view)
    if symmetry:
        out.append('SYMMETRY ' + symmetry)
    if postcondition:
        out.append('POSTCONDITION ' + postcondition)
    out.append('CHECK_DEADLOCK %s' % ('TRUE' if deadlock else 'FALSE'))
    res = Cfg('\n'.join(out) + '\n')
    res.defs = defs
    return res


class Cfg(str):
    """Configuration text plus the definitions of its constants."""


class Raw(str):
    """A TLA+ expression given verbatim."""


def tla(v):
    if isinstance(v, Raw):
        return str(v)
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(tla(x) for x in sorted(v, key=repr)) + '}'
    if isinstance(v, (list, tuple)):
        return '<<' + ', '.join(tla(x) for x in v) + '>>'
    if isinstance(v, dict):
        return '[' + ', '.join('%s |-> %s' % (k, tla(x)) for k, x in v.items()) + ']'
    raise TypeError(v)


def errs(out):
    """The informative part of TLC's output."""
    i = out.find('Error:')
    txt = out[i:] if i >= 0 and 'Parsing or semantic' not in out else out[-3000:]
    j = txt.find('The coverage statistics')
    return txt[:j if j > 0 else 5000][:5000]


def _stats(out):
    m = None
    for m in re.finditer(r'([\d,]+) states generated.*?, ([\d,]+) distinct states found', out):
        pass
    if m:
        return int(m.group(1).replace(',', '')), int(m.group(2).replace(',', ''))
    return 0, 0


def coverage_zero(out):
    """Names of actions reported by -coverage as never taken."""
    res = {}
    for m in re.finditer(r'<(\w+) line [^>]*>: (\d+):(\d+)', out):
        res[m.group(1)] = res.get(m.group(1), 0) + int(m.group(3))
    return sorted(k for k, v in res.items() if v == 0)


def check(module, cfg_text, timeout=800, workers='8', extra_files=(), coverage=True,
          allow_unused=('Init',), heap='8g'):
    """Exhaustive TLC run.  Raises TlcError if the spec is not OK."""
    d = _stage(module, cfg_text, extra_files)
    try:
        args = ['-workers', workers, '-config', 'M.cfg', '-metadir',
                os.path.join(d, 'meta'), '-noGenerateSpecTE']
        if coverage:
            args += ['-coverage', '1']
        rc, out = _run(args + ['MC.tla'], d, timeout, heap=heap)
        gen, dist = _stats(out)
        if rc != 0 or 'No error has been found' not in out:
            raise TlcError('TLC on %s failed (rc %d):\n%s' % (module, rc, errs(out)))
        unused = [a for a in coverage_zero(out) if a not in allow_unused] if coverage else []
        return {'transitions': gen, 'states': dist, 'unused_actions': unused}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def dump_states(module, cfg_text, timeout=800, workers='8', extra_files=(), heap='8g'):
    """Exhaustive run; returns (list of state dicts, stats)."""
    d = _stage(module, cfg_text, extra_files)
    try:
        dump = os.path.join(d, 'st')
        rc, out = _run(['-workers', workers, '-config', 'M.cfg', '-metadir',
                        os.path.join(d, 'meta'), '-noGenerateSpecTE',
                        '-dump', dump, 'MC.tla'], d, timeout, heap=heap)
        if rc != 0 or 'No error has been found' not in out:
            raise TlcError('TLC on %s failed (rc %d):\n%s' % (module, rc, errs(out)))
        gen, dist = _stats(out)
        txt = open(dump + '.dump').read()
        states = [tlaval.parse_state(s) for s in
                  re.split(r'(?m)^State \d+:\n', txt)[1:]]
        return states, {'transitions': gen, 'states': dist}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def dump_graph(module, cfg_text, timeout=800, extra_files=(), heap='8g'):
    """Exhaustive run; returns (states{id:dict}, init ids, edges[(a,b)], stats)."""
    d = _stage(module, cfg_text, extra_files)
    try:
        dump = os.path.join(d, 'g')
        rc, out = _run(['-workers', '1', '-config', 'M.cfg', '-metadir',
                        os.path.join(d, 'meta'), '-noGenerateSpecTE',
                        '-dump', 'dot,actionlabels', dump, 'MC.tla'], d, timeout, heap=heap)
        if rc != 0 or 'No error has been found' not in out:
            raise TlcError('TLC on %s failed (rc %d):\n%s' % (module, rc, errs(out)))
        gen, dist = _stats(out)
        states, init, edges = {}, [], []
        for line in open(dump + '.dot'):
            line = line.rstrip('\n')
            m = re.match(r'^(-?\d+) -> (-?\d+) \[label="([^"]*)"', line)
            if m:
                edges.append((m.group(1), m.group(2), m.group(3)))
                continue
            m = re.match(r'^(-?\d+) \[label="(.*)"(,style = filled)?\];?$', line)
            if m:
                t = m.group(2).replace('\\n', '\n').replace('\\"', '"').replace('\\\\', '\\')
                states[m.group(1)] = tlaval.parse_state(t)
                if m.group(3):
                    init.append(m.group(1))
        return states, init, edges, {'transitions': gen, 'states': dist}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def simulate(module, cfg_text, num, depth, seed, timeout=600, extra_files=(), heap='4g'):
    """TLC -simulate; returns a list of behaviours (lists of state dicts)."""
    d = _stage(module, cfg_text, extra_files)
    try:
        rc, out = _run(['-workers', '1', '-config', 'M.cfg', '-metadir',
                        os.path.join(d, 'meta'), '-noGenerateSpecTE',
                        '-seed', str(seed), '-depth', str(depth),
                        '-simulate', 'file=%s/b,num=%d' % (d, num), 'MC.tla'],
                       d, timeout, heap=heap)
        if rc != 0 or 'Error' in out:
            raise TlcError('TLC simulate on %s failed (rc %d):\n%s' % (module, rc, errs(out)))
        res = []
        names = sorted((f for f in os.listdir(d) if re.match(r'b_\d+_\d+$', f)),
                       key=lambda f: [int(x) for x in f.split('_')[1:]])
        for f in names:
            txt = open(os.path.join(d, f)).read()
            beh = []
            for blk in re.split(r'(?m)^STATE_\d+ ==\s*\n', txt)[1:]:
                blk = re.split(r'(?m)^(?:=====|\\\*)', blk)[0]
                beh.append(tlaval.parse_state(blk))
            res.append(beh)
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def validate(module, cfg_text, traces, timeout=800, extra_files=(), heap='6g'):
    """Check recorded traces against a trace specification.

    The module reads traces.ndjson (one trace per line: {"ev": [...], ...}),
    and its POSTCONDITION prints, via PrintT, <<"REACHED", t, l>> for every
    trace t: l is the number of events consumed by some behaviour.
    Returns (reached list, stats).  A trace TLC cannot even evaluate (a value of
    another type than the specification knows) counts as not accepted at all.
    """
    try:
        return _validate(module, cfg_text, traces, timeout, extra_files, heap)
    except TlcError as e:
        if 'Parsing or semantic' in str(e) or 'OutOfMemory' in str(e) or 'rc -9' in str(e):
            raise
        # find the traces at fault (on the tree as committed there are none)
        bad, todo = [], [list(range(len(traces)))]
        while todo and len(bad) < 3:
            part = todo.pop()
            try:
                _validate(module, cfg_text, [traces[i] for i in part], timeout, extra_files, heap)
            except TlcError:
                if len(part) == 1:
                    bad += part
                else:
                    todo += [part[:len(part) // 2], part[len(part) // 2:]]
        if not bad or len(bad) == len(traces):
            raise
        return [0 if i in bad else len(t.get('ev', ())) for i, t in enumerate(traces)], {'transitions': 0, 'states': 0}


def _validate(module, cfg_text, traces, timeout, extra_files, heap):
    lines = '\n'.join(json.dumps(t) for t in traces) + '\n'
    d = _stage(module, cfg_text, list(extra_files) + [('traces.ndjson', lines)])
    try:
        rc, out = _run(['-workers', '1', '-config', 'M.cfg', '-metadir',
                        os.path.join(d, 'meta'), '-noGenerateSpecTE', 'MC.tla'],
                       d, timeout, heap=heap)
        reached = {}
        for m in re.finditer(r'<<"REACHED", (\d+), (\d+)>>', out):
            reached[int(m.group(1))] = int(m.group(2))
        if rc != 0 or len(reached) != len(traces):
            raise TlcError('TLC trace run on %s failed (rc %d, %d/%d):\n%s' % (
                module, rc, len(reached), len(traces), errs(out)))
        gen, dist = _stats(out)
        return [reached[i + 1] for i in range(len(traces))], {'transitions': gen, 'states': dist}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def eval_cases(module, cfg_text, cases, timeout=800, extra_files=(), heap='6g'):
    """Evaluate a spec operator on recorded cases.

    The module reads cases.ndjson and writes out.ndjson (via ndJsonSerialize in
    an ASSUME or POSTCONDITION), one result per case.
    """
    lines = '\n'.join(json.dumps(t) for t in cases) + '\n'
    d = _stage(module, cfg_text, list(extra_files) + [('cases.ndjson', lines)])
    try:
        rc, out = _run(['-workers', '1', '-config', 'M.cfg', '-metadir',
                        os.path.join(d, 'meta'), '-noGenerateSpecTE', 'MC.tla'],
                       d, timeout, heap=heap)
        p = os.path.join(d, 'out.ndjson')
        if rc != 0 or not os.path.exists(p):
            raise TlcError('TLC eval on %s failed (rc %d):\n%s' % (module, rc, errs(out)))
        res = [json.loads(x) for x in open(p) if x.strip()]
        gen, dist = _stats(out)
        return res, {'transitions': gen, 'states': dist}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge(module, cases, op='Ok', defs=(), timeout=800, extra_files=(), heap='4g', jobs=6):
    """Evaluates the operator `op` of a module on every recorded case.

    Returns (indices of the cases it rejects, number of cases evaluated).  The
    module needs no variables; cases are split over several TLC processes.
    """
    import concurrent.futures as cf
    cases = list(cases)
    if not cases:
        return [], 0
    n = max(1, min(jobs, (len(cases) + 199) // 200))
    size = (len(cases) + n - 1) // n
    chunks = [(k, cases[k:k + size]) for k in range(0, len(cases), size)]

    def one(ch):
        k0, cs = ch
        c = Cfg('')
        c.defs = list(defs) + [
            'JCases == JJ!ndJsonDeserialize("cases.ndjson")',
            'ASSUME \\A i \\in DOMAIN JCases : %s(JCases[i]) \\/ JT!PrintT(<<"BAD", i>>)' % op,
            'ASSUME JT!PrintT(<<"JUDGED", JLen(JCases)>>)']
        c.defs.insert(0, 'JJ == INSTANCE Json')
        c.defs.insert(1, 'JT == INSTANCE TLC')
        c.defs.insert(2, 'JS == INSTANCE Sequences')
        c.defs.insert(3, 'JLen(s) == JS!Len(s)')
        d = _stage(module, c, list(extra_files) + [
            ('cases.ndjson', '\n'.join(json.dumps(x) for x in cs) + '\n')])
        try:
            rc, out = _run(['-workers', '1', '-config', 'M.cfg', '-metadir',
                            os.path.join(d, 'meta'), '-noGenerateSpecTE', 'MC.tla'],
                           d, timeout, heap=heap)
            m = re.search(r'<<"JUDGED", (\d+)>>', out)
            if rc != 0 or not m or int(m.group(1)) != len(cs):
                raise TlcError('TLC judge on %s failed (rc %d):\n%s' % (module, rc, errs(out)))
            return [k0 + int(x) - 1 for x in re.findall(r'<<"BAD", (\d+)>>', out)]
        finally:
            shutil.rmtree(d, ignore_errors=True)

    with cf.ThreadPoolExecutor(len(chunks)) as ex:
        bad = [b for r in ex.map(one, chunks) for b in r]
    return bad, len(cases)
