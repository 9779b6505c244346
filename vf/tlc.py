"""Running TLC, collecting the behaviours a specification emits and its state counts."""
import json, os, re, subprocess, tempfile, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TLCError(Exception):
    """TLC did not complete, or reported an error in the specification itself."""


class TLCResult(object):
    def __init__(self):
        self.generated = 0     # states generated = transitions + initial states
        self.distinct = 0
        self.depth = 0
        self.emitted = []      # decoded JSON values, in emission order
        self.violation = None  # name of a violated invariant, if any
        self.trace = ''
        self.coverage = {}
        self.out = ''


def _unescape(s):
    return json.loads(s)


def run(module, cfg, scratch, consts=None, workers=1, simulate=None, depth=None, seed=1,
        heap='6g', timeout=800, env=None, coverage=False, allow_violation=False, deadlock=False):
    """Run TLC on spec/<module>.tla with the given configuration text.

    cfg: list of configuration lines. simulate: number of behaviours to sample (None: exhaustive BFS).
    """
    meta = tempfile.mkdtemp(dir=scratch)
    cfgf = os.path.join(meta, module + '.cfg')
    lines = list(cfg)
    for k, v in (consts or {}).items():
        m = re.match(r'^(\d+)\.\.(\d+)$', v)
        if m:
            v = '{' + ','.join(str(i) for i in range(int(m.group(1)), int(m.group(2)) + 1)) + '}'
        lines.append('CONSTANT {} = {}'.format(k, v))
    with open(cfgf, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-Djava.io.tmpdir=' + meta,
           '-Dtlc2.tool.impl.Tool.cdot=true', '-cp', CP, 'tlc2.TLC',
           '-noGenerateSpecTE', '-metadir', os.path.join(meta, 'states'), '-workers', str(workers),
           '-config', cfgf]
    if not deadlock:
        cmd += ['-deadlock']
    if simulate is not None:
        cmd += ['-simulate', 'num={}'.format(simulate), '-seed', str(seed)]
        if depth:
            cmd += ['-depth', str(depth)]
    if coverage:
        cmd += ['-coverage', '1']
    cmd += [os.path.join(SPEC, module + '.tla')]
    e = dict(os.environ)
    e.update(env or {})
    outf = os.path.join(meta, 'out.txt')
    with open(outf, 'w') as fo:
        try:
            p = subprocess.run(cmd, stdout=fo, stderr=subprocess.STDOUT, cwd=meta, env=e, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise TLCError('TLC timed out on {}'.format(module))
    r = TLCResult()
    other = []
    with open(outf, errors='replace') as f:
        for line in f:
            line = line.rstrip('\n')
            if line.startswith('"{') or line.startswith('"['):
                try:
                    r.emitted.append(json.loads(json.loads(line)))
                    continue
                except ValueError:
                    pass
            other.append(line)
    r.out = '\n'.join(other)
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', r.out)
    if m:
        r.generated, r.distinct = int(m.group(1)), int(m.group(2))
    else:
        m = re.findall(r'The number of states generated: (\d+)', r.out)
        if m:
            r.generated = int(m[-1])
            r.distinct = r.generated
    m = re.search(r'The depth of the complete state graph search is (\d+)', r.out)
    if m:
        r.depth = int(m.group(1))
    m = re.search(r'Invariant (\S+) is violated|Action property (\S+) is violated|Temporal properties were violated', r.out)
    if m:
        r.violation = m.group(1) or m.group(2) or 'temporal'
        r.trace = r.out[m.start():][:4000]
    if coverage:
        for m in re.finditer(r'^<(\w+) line [^>]*>: (\d+):(\d+)', r.out, re.M):
            r.coverage[m.group(1)] = r.coverage.get(m.group(1), 0) + int(m.group(3))
    shutil.rmtree(meta, ignore_errors=True)
    if r.violation and allow_violation:
        return r
    if p.returncode != 0:
        raise TLCError('TLC failed on {} (exit {}):\n{}'.format(module, p.returncode, r.out[-3000:]))
    return r
