"""Runner: TLC design checks, conformance drivers, trace validation, evidence."""
import os, sys, json, time, re, subprocess, tempfile, shutil, signal, random, traceback
import multiprocessing as mp

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = min(8, os.cpu_count() or 1)


class Machinery(Exception):
    pass


class Violation(Exception):
    """Found by the driver itself (a hang, an unusable installation)."""
    def __init__(self, clause, detail):
        Exception.__init__(self, clause)
        self.clause, self.detail = clause, detail


class CaseTimeout(BaseException):
    pass


class Ctx:
    """One run of one check."""
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == 'thorough'
        self.tmp = tempfile.mkdtemp(prefix='vp-%s-' % prop)
        self.states = self.transitions = self.traces = 0
        self.samples, self.bad, self.notes, self.known = [], [], [], []
        self.cover = {}
        self.t0 = time.time()

    def path(self, name):
        return os.path.join(self.tmp, name)

    def rng(self, salt=''):
        return random.Random('%s/%s/%s' % (self.prop, self.seed, salt))

    def count(self, name, n=1):
        self.cover[name] = self.cover.get(name, 0) + n

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, env=None, workers=NPROC, args=(), timeout=3000, heap='8g'):
        meta = tempfile.mkdtemp(prefix='meta', dir=self.tmp)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m',
               '-Djava.io.tmpdir=' + self.tmp, '-cp', JARS, 'tlc2.TLC',
               '-noGenerateSpecTE', '-workers', str(workers), '-metadir', meta,
               '-config', cfg or module + '.cfg'] + list(args) + [module + '.tla']
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Machinery('TLC timed out on %s' % module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = r.stdout
        if os.environ.get('VP_DEBUG'):
            print('  [%.1fs] tlc %s' % (time.time() - self.t0, module))
        return r.returncode, out

    @staticmethod
    def tlc_stats(out):
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        if not m:
            return 0, 0
        return int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))

    def design(self, module, cfg=None, env=None, **kw):
        """Model-check the design; its failure is a failure of the machinery."""
        env = dict(env or {})
        env.setdefault('VP_SCALE', '2' if self.thorough else '1')
        rc, out = self.tlc(module, cfg, env, **kw)
        if rc != 0:
            raise Machinery('design check %s failed:\n%s' % (module, out[-3000:]))
        tr, st = self.tlc_stats(out)
        self.states += st
        self.transitions += tr
        self.cover['design_states_%s' % (cfg or module)] = st
        return out

    # -------------------------------------------------------- driving the code
    def drive(self, fn, cases, chunk=None, per_case=20, init=None):
        """events of all cases, run against the real code in NPROC processes."""
        r = run_cases(fn, cases, chunk, per_case, self)
        if os.environ.get('VP_DEBUG'):
            print('  [%.1fs] driven' % (time.time() - self.t0))
        return r

    # -------------------------------------------------------- trace validation
    def validate(self, module, events, cfg=None, env=None, shards=32, heap='12g', label=''):
        """Check recorded events against the specification, record bad ones."""
        for e in events:
            if e.get('kind') == 'hang':
                self.bad.append(('no answer: ' + e['exc'], e))
        events = [e for e in events if e.get('kind') != 'hang']
        if not events:
            if self.bad:
                return ''
            raise Machinery('no events recorded')
        f = self.path('trace%s.ndjson' % label)
        for i, e in enumerate(events):
            e['id'] = i + 1
        with open(f, 'w') as h:
            for e in events:
                h.write(json.dumps(e) + '\n')
        env = dict(env or {})
        env.update(VP_TRACE=f, VP_PROP=self.prop, VP_SHARDS=min(shards, len(events)))
        rc, out = self.tlc(module, cfg, env, heap=heap)
        done = re.search(r'Model checking completed. No error has been found', out)
        if rc != 0 or not done:
            raise Machinery('trace validation failed to run (%s):\n%s' % (module, out[-4000:]))
        tr, st = self.tlc_stats(out)
        nsh = min(shards, len(events))
        if st != len(events) + nsh:
            raise Machinery('trace not fully consumed: %d states, %d events' % (st, len(events)))
        self.states += st
        self.transitions += tr
        self.traces += len(events)
        self.samples.append({'trace_event': shorten(events[len(events) // 2])})
        byid = {e['id']: e for e in events}
        for m in re.finditer(r'"?VPBAD (\d+) (.*?)"?$', out, re.M):
            self.bad.append((m.group(2).replace('\\"', '"'), byid[int(m.group(1))]))
        return out

    def fail(self, clause, detail):
        self.bad.append((clause, detail))


def shorten(x, n=1500):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + '...'


def from_code(e):
    """was this exception raised inside the code under test?"""
    base = os.path.join(os.path.realpath(os.environ.get('VP_REPO', '/repo')), 'src') + os.sep
    tb, hit = e.__traceback__, False
    while tb is not None:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith(base):
            hit = True
        elif f.startswith(ROOT + os.sep):
            hit = False
        tb = tb.tb_next
    return hit


# ------------------------------------------------------------------ process pool
_fn = None


def _alarm(sig, frame):
    raise CaseTimeout()


def _work(args):
    i, cases, per_case = args
    signal.signal(signal.SIGALRM, _alarm)
    out = []
    for c in cases:
        signal.alarm(per_case)
        try:
            r = _fn(c)
        except CaseTimeout:
            r = {'kind': 'hang', 'case': c, 'exc': 'Timeout'}
        except (Machinery, Violation):
            raise
        except RecursionError as e:
            r = {'kind': 'hang', 'case': c, 'exc': 'RecursionError'}
        except Exception as e:
            if not from_code(e):
                raise
            r = {'kind': 'hang', 'case': c, 'exc': 'unexpected %r' % e}
        finally:
            signal.alarm(0)
        if isinstance(r, list):
            out += r
        elif r is not None:
            out.append(r)
    return i, out


def run_cases(fn, cases, chunk, per_case, ctx):
    global _fn
    cases = list(cases)
    if not cases:
        return []
    _fn = fn
    if chunk is None:
        chunk = max(1, min(200, len(cases) // (NPROC * 4) + 1))
    jobs = [(i, cases[i:i + chunk], per_case) for i in range(0, len(cases), chunk)]
    res = {}
    pool = mp.get_context('fork').Pool(NPROC)
    try:
        it = pool.imap_unordered(_work, jobs)
        for _ in jobs:
            try:
                i, out = it.next(timeout=per_case * chunk + 120)
            except mp.TimeoutError:
                raise Violation('hang', 'a call into the code under test never returned')
            res[i] = out
    finally:
        pool.terminate()
        pool.join()
    events = []
    for i in sorted(res):
        events += res[i]
    return events


# ------------------------------------------------------------------ known findings
def known_findings():
    f = os.path.join(ROOT, 'known_findings.json')
    if os.path.exists(f):
        return json.load(open(f))
    return []


# ------------------------------------------------------------------ entry point
def main(prop, fn):
    tier = os.environ.get('VERIF_TIER', 'quick')
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    ctx = Ctx(prop, tier, seed)
    rc = 2
    try:
        try:
            fn(ctx)
        except Violation as v:
            ctx.fail(v.clause, v.detail)
        rc = finish(ctx)
    except Machinery as e:
        print('MACHINERY property=%s %s' % (prop, e))
    except Exception as e:
        traceback.print_exc()
        if from_code(e):
            ctx.fail('unexpected exception %r' % e, traceback.format_exc()[-3000:])
            rc = finish(ctx)
        else:
            print('MACHINERY property=%s unexpected error' % prop)
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


def finish(ctx):
    ev = os.path.join(ROOT, 'evidence')
    os.makedirs(os.path.join(ev, 'replay'), exist_ok=True)
    wall = time.time() - ctx.t0
    cov = {'states': ctx.states, 'transitions': ctx.transitions,
           'traces_validated_against_impl': ctx.traces,
           'samples': ctx.samples[:6] or [{'note': 'see families'}],
           'families': ctx.cover}
    doc = {'property': ctx.prop, 'tier': ctx.tier, 'seed': ctx.seed,
           'level': 'model_checking', 'coverage': cov,
           'assumptions': ctx.notes, 'wall_s': round(wall, 2),
           'violations': len(ctx.bad)}
    with open(os.path.join(ev, ctx.prop + '.json'), 'w') as f:
        json.dump(doc, f, indent=1)
    for k in ctx.known:
        print('KNOWN-FINDING: property=%s %s' % (ctx.prop, k))
    if not ctx.bad:
        print('OK property=%s states=%d transitions=%d traces=%d wall=%.1fs'
              % (ctx.prop, ctx.states, ctx.transitions, ctx.traces, wall))
        return 0
    # smallest counterexamples first
    ctx.bad.sort(key=lambda b: len(json.dumps(b[1], default=str)))
    rp = os.path.join(ev, 'replay', ctx.prop + '.json')
    with open(rp, 'w') as f:
        json.dump([{'clauses': c, 'event': e} for c, e in ctx.bad[:20]], f, indent=1, default=str)
    for c, e in ctx.bad[:5]:
        print('  failing clause(s): %s  event: %s' % (c, json.dumps(e, default=str)[:600]))
    print('VIOLATION property=%s replay=%s' % (ctx.prop, rp))
    return 1
