"""
Orchestration of one check (parent side; nothing here is patched by detsched).

A check module (checks/<ID>.py) exposes PARTS, a list of Part.  For each part the parent
  1. runs TLC on the design model (specs/<spec>.tla + SeqMC) and collects the explored transitions,
  2. derives operation sequences covering every explored transition,
  3. starts worker processes (lib/worker.py) that drive the real code from VERIF_REPO (default /repo):
     the derived sequences, seeded random histories, and/or explored thread schedules,
  4. hands every recorded trace to TLC (SeqTrace / LinTrace), which decides.
"""
import concurrent.futures as cf
import copy
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPECS = os.path.join(VERIF, 'specs')
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = os.environ.get('VERIF_PY', '/opt/venv/bin/python')
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    pass


class Part:
    """
    name      - unique in the check
    spec      - module in specs/ (defines the operators named in `ops`)
    mode      - 'seq' (recorded call/answer sequences) or 'lin' (concurrent histories)
    prefix    - operators are <prefix>Init, <prefix>Apply, <prefix>Ops, <prefix>Inv, <prefix>Step, <prefix>Cfgs
    depth     - (quick, thorough) depth of the design exploration; None = no design run for this part
    consts    - constants of the spec module for the design run: {name: (quick, thorough)}
    replay    - replay the spec's behaviours into the code (needs an adapter understanding the ops)
    max_paths - (quick, thorough) cap of replayed sequences
    shards    - number of worker processes
    n         - (quick, thorough) number passed to the generator (random traces)
    """

    def __init__(self, name, spec, prefix='', mode='seq', depth=(4, 6), consts=None, replay=True,
                 max_paths=(4000, 40000), shards=(2, 6), n=(300, 5000), design=True, worker_timeout=(240, 3000),
                 final_ops=None, extra_models=(), chunk=2500):
        self.name = name
        self.spec = spec
        self.prefix = prefix
        self.mode = mode
        self.depth = depth
        self.consts = consts or {}
        self.replay = replay and design
        self.max_paths = max_paths
        self.shards = shards
        self.n = n
        self.design = design
        self.worker_timeout = worker_timeout
        self.final_ops = final_ops
        self.extra_models = extra_models
        self.chunk = chunk


def clean(out):
    ls = [l for l in out.splitlines() if l.strip() and not l.startswith('"@@') and not l.startswith(('Parsing', 'Semantic proc', 'TLC2', 'Running', 'Starting', 'Progress', 'Computing', 'Finished'))]
    seen = []
    for l in ls:
        if l not in seen:
            seen.append(l)
    o = '\n'.join(seen)
    return o if len(o) < 1600 else o[:800] + '\n...\n' + o[-800:]


def pick(v, tier):
    if isinstance(v, tuple) and len(v) == 2:
        return v[0] if tier == 'quick' else v[1]
    return v


class Model:
    """a stand-alone TLC model: specs/<module>.tla with specs/<cfg>; expected to pass (or, if fails=<text>, to
    report exactly that: used to show that a defective design is rejected)"""

    def __init__(self, module, cfg=None, tiers=('quick', 'thorough'), fails=None, workers=2, args=(), timeout=1500):
        self.module = module
        self.cfg = cfg or module
        self.tiers = tiers
        self.fails = fails
        self.workers = workers
        self.args = args
        self.timeout = timeout


class Check:
    def __init__(self, prop, tier, seed, mod):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.mod = mod
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.states = 0
        self.transitions = 0
        self.design_states = 0
        self.design_transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.violations = []
        self.known = []
        self.notes = {}
        self.lock = threading.Lock()
        self.corrupt_checked = 0
        self.opcount = {}
        self.known_findings = []
        kf = os.path.join(VERIF, 'known_findings.json')
        if os.path.exists(kf):
            with open(kf) as f:
                self.known_findings = [k for k in json.load(f)['findings'] if k['property'] == prop]

    # ---------------------------------------------------------------- TLC
    def tlc(self, root_dir, root, cfg, env=None, workers=1, timeout=1500, xmx='2g', extra=()):
        meta = tempfile.mkdtemp(prefix='meta', dir=self.tmp)
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        e.update(env or {})
        cmd = ['java', '-Xmx' + xmx, '-Xss16m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-XX:TieredStopAtLevel=%d' % (1 if self.tier == 'quick' else 4),
               '-Djava.io.tmpdir=' + meta, '-DTLA-Library=' + SPECS + ':' + os.path.join(SPECS, 'lib'),
               '-cp', CP, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE',
               '-nowarning', '-lncheck', 'final'] + list(extra) + ['-config', cfg, root]
        p = subprocess.run(cmd, cwd=root_dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           text=True, errors='replace')
        shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, p.stdout

    @staticmethod
    def tlc_counts(out):
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        if not m:
            return 0, 0
        return int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))

    def root(self, part, kind):
        d = tempfile.mkdtemp(prefix='root', dir=self.tmp)
        base = {'mc': 'SeqMC', 'seq': 'SeqTrace', 'lin': 'LinTrace'}[kind]
        name = 'R_%s_%s' % (part.spec, kind)
        with open(os.path.join(d, name + '.tla'), 'w') as f:
            f.write('---- MODULE %s ----\nEXTENDS %s, %s\n====\n' % (name, part.spec, base))
        p = part.prefix
        c = ['CONSTANTS', ' SInit <- %sInit' % p, ' Apply <- %sApply' % p, ' InvP <- %sInv' % p, ' StepP <- %sStep' % p]
        if kind == 'mc':
            c += [' Ops <- %sOps' % p, ' Cfgs <- %sCfgs' % p, ' Depth = %d' % (pick(part.depth, self.tier) + 1)]
        for k, v in part.consts.items():
            c.append(' %s = %s' % (k, pick(v, self.tier)))
        return d, name, c

    def design(self, part):
        d, name, c = self.root(part, 'mc')
        cfg = os.path.join(d, 'mc.cfg')
        with open(cfg, 'w') as f:
            f.write('\n'.join(c) + '\nSPECIFICATION MCSpec\nVIEW MCView\nINVARIANT MCInv\nCONSTRAINT MCDepth\n'
                    'ACTION_CONSTRAINT %s\nCHECK_DEADLOCK FALSE\n' % ('MCExport' if part.replay else 'MCStep'))
        rc, out = self.tlc(d, name, cfg, workers=1, timeout=1700)
        if 'Model checking completed. No error has been found' not in out:
            raise MachineryError('design model of %s/%s does not hold or does not run:\n%s' % (
                self.prop, part.name, clean(out)))
        g, dist = self.tlc_counts(out)
        edges = []
        if part.replay:
            for l in out.splitlines():
                if l.startswith('"@@'):
                    edges.append(json.loads(json.loads(l)[2:]))
        with self.lock:
            self.design_states += dist
            self.design_transitions += g
        return edges

    def model(self, m):
        cfg = os.path.join(SPECS, m.cfg + '.cfg')
        rc, out = self.tlc(SPECS, m.module, cfg, workers=m.workers, timeout=m.timeout, extra=m.args)
        g, dist = self.tlc_counts(out)
        ok = 'Model checking completed. No error has been found' in out
        if m.fails is not None:
            if ok or m.fails not in out:
                raise MachineryError('model %s was expected to fail with %r:\n%s' % (m.cfg, m.fails, clean(out)))
        elif not ok:
            raise MachineryError('model %s does not hold:\n%s' % (m.cfg, clean(out)))
        with self.lock:
            self.design_states += dist
            self.design_transitions += g
            self.notes.setdefault('models', []).append(
                {'cfg': m.cfg, 'states': dist, 'transitions': g, 'expected_failure': m.fails})

    def paths(self, part, edges):
        """operation sequences that together take every explored transition of the design model"""
        key = lambda k, x: json.dumps([k, x], sort_keys=True)
        adj = {}
        order = []
        targets = set()
        for ed in edges:
            f, t = key(ed['k'], ed['f']), key(ed['k'], ed['t'])
            if f not in adj:
                adj[f] = []
                order.append(f)
            adj[f].append((ed['e'], t))
            targets.add(t)
        # roots: TLC prints in BFS order, so the first time a state is seen as a source it is at its BFS level
        parent = {}
        roots = []
        for f in order:
            if f not in parent and f not in targets:
                roots.append(f)
        if not roots and order:
            roots = [order[0]]
        seen_cfg = {json.loads(r)[0] for r in roots}
        for f in order:
            k = json.loads(f)[0]
            if k not in seen_cfg:
                roots.append(f)
                seen_cfg.add(k)
        from collections import deque
        dq = deque()
        for r in roots:
            parent[r] = None
            dq.append(r)
        while dq:
            f = dq.popleft()
            for e, t in adj.get(f, ()):
                if t not in parent:
                    parent[t] = (f, e)
                    dq.append(t)

        def path(n):
            out = []
            while parent[n] is not None:
                n, e = parent[n][0], parent[n][1]
                out.append(e)
            return out[::-1]

        seqs = []
        for f in adj:
            if f not in parent:
                continue
            pre = path(f)
            k = json.loads(f)[0]
            for e, t in adj[f]:
                seqs.append((k, pre + [e]))
        rng = random.Random(self.seed)
        cap = pick(part.max_paths, self.tier)
        total = len(seqs)
        # a sequence that is a prefix of another one is covered by it
        strs = {}
        keep = []
        pref = set()
        for k, q in seqs:
            for j in range(1, len(q)):
                pref.add((k, json.dumps(q[:j], sort_keys=True)))
        for k, q in seqs:
            if (k, json.dumps(q, sort_keys=True)) not in pref:
                keep.append((k, q))
        rng.shuffle(keep)
        keep = keep[:cap]
        # plus random walks over the same graph
        walks = []
        for _ in range(min(cap // 4, 500 if self.tier == 'quick' else 5000)):
            n = rng.choice(roots) if roots else None
            if n is None:
                break
            k = json.loads(n)[0]
            q = []
            for _ in range(rng.randint(4, 14)):
                if not adj.get(n):
                    break
                e, n = rng.choice(adj[n])
                q.append(e)
            if q:
                walks.append((k, q))
        return keep + walks, total

    # ---------------------------------------------------------------- validation
    def validate(self, part, traces, kind=None):
        """TLC decides which traces are behaviours of the specification; returns {index: failing event (1-based)}"""
        kind = kind or part.mode
        if not traces:
            return {}
        d, name, c = self.root(part, kind)
        cfg = os.path.join(d, 't.cfg')
        with open(cfg, 'w') as f:
            f.write('\n'.join(c) + '\nSPECIFICATION ZSpec\nPOSTCONDITION ZPost\nCHECK_DEADLOCK FALSE\n')
        bad = {}
        chunk = part.chunk
        jobs = [(k, traces[k:k + chunk]) for k in range(0, len(traces), chunk)]

        def one(job):
            k, ts = job
            fn = os.path.join(d, 'tr%d.json' % k)
            with open(fn, 'w') as f:
                json.dump(ts, f)
            rc, out = self.tlc(d, name, cfg, env={'VTRACES': fn}, timeout=1700, xmx='3g')
            os.unlink(fn)
            m = [l for l in out.splitlines() if l.startswith('"@@BAD ')]
            if len(m) != 1 or 'Model checking completed. No error has been found' not in out:
                if 'Parsing or semantic analysis failed' in out or 'TLC cannot parse' in out:
                    raise MachineryError('%s does not parse: %s' % (part.spec, clean(out)))
                if len(ts) > 1:
                    return None, k, ts, out
                # a trace TLC cannot even evaluate is not a behaviour of the specification
                return {k: 1}, k, ts, out
            r = json.loads(json.loads(m[0])[len('@@BAD '):])
            g, dist = self.tlc_counts(out)
            with self.lock:
                self.states += dist
                self.transitions += g
            if r['n'] != len(ts):
                raise MachineryError('validator saw %s of %s traces' % (r['n'], len(ts)))
            return {k + j: b for j, b in enumerate(r['bad']) if b}, k, ts, out

        with cf.ThreadPoolExecutor(4) as ex:
            todo = jobs
            rounds, hopeless = 0, False
            while todo:
                nxt = []
                for res, k, ts, out in ex.map(one, todo):
                    if res is None:
                        rounds += 1
                        h = len(ts) // 2
                        nxt += [(k, ts[:h]), (k + h, ts[h:])]
                        if rounds <= 40:
                            self.notes.setdefault('tlc_split', []).append(out[-1500:])
                    else:
                        bad.update(res)
                if rounds > 40 and nxt and not bad:
                    hopeless = True
                if rounds > 40 and bad:  # there are many such traces, and some have been found: they suffice
                    self.notes['not_evaluated'] = sum(len(ts) for _, ts in nxt)
                    break
                # find one of them only
                todo = min((nxt[j:j + 2] for j in range(0, len(nxt), 2)), key=lambda p: len(p[0][1]) + len(p[1][1])) if hopeless and nxt else nxt
            if hopeless and not bad:
                raise MachineryError('TLC cannot evaluate traces of %s/%s:\n%s' % (self.prop, part.name, self.notes['tlc_split'][-1]))
        return bad

    def diagnose(self, part, trace, kind=None):
        kind = kind or part.mode
        d, name, c = self.root(part, kind)
        cfg = os.path.join(d, 't.cfg')
        with open(cfg, 'w') as f:
            f.write('\n'.join(c) + '\nSPECIFICATION ZSpec\nPOSTCONDITION ZPost\nCONSTRAINT ZDiag\nCHECK_DEADLOCK FALSE\n')
        fn = os.path.join(d, 'tr.json')
        with open(fn, 'w') as f:
            json.dump([trace], f)
        rc, out = self.tlc(d, name, cfg, env={'VTRACES': fn}, timeout=300)
        ls = [l for l in out.splitlines() if l.startswith('"@@DIAG')]
        if ls:
            return ls[-1][:3000]
        return out[-1500:]

    # ---------------------------------------------------------------- running one part
    def worker(self, part, shard, nshards, seqfile):
        out = os.path.join(self.tmp, '%s.%d.traces' % (part.name, shard))
        env = dict(os.environ)
        env.update(PYTHONHASHSEED='0', PYTHONPYCACHEPREFIX=os.path.join(self.tmp, 'pyc%d' % shard),
                   PYTHONPATH=REPO + ':' + VERIF, PYTHONWARNINGS='ignore', VERIF_SCRATCH=os.path.join(self.tmp, 'scratch-%s-%d' % (part.name, shard)))
        os.makedirs(env['VERIF_SCRATCH'], exist_ok=True)
        cmd = [PY, os.path.join(HERE, 'worker.py'), self.prop, part.name, self.tier, str(self.seed), str(shard),
               str(nshards), seqfile or '-', out]
        try:
            p = subprocess.run(cmd, env=env, cwd=env['VERIF_SCRATCH'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=pick(part.worker_timeout, self.tier), text=True, errors='replace')
            rc, log = p.returncode, p.stdout
        except subprocess.TimeoutExpired as e:
            rc, log = 'timeout', (e.stdout or b'')[-3000:]
        recs = []
        if os.path.exists(out):
            with open(out) as f:
                for l in f:
                    l = l.strip()
                    if l:
                        try:
                            recs.append(json.loads(l))
                        except ValueError:
                            pass
        done = any(r.get('done') for r in recs)
        if rc != 0 or not done:
            raise MachineryError('worker of %s/%s ended with %s:\n%s' % (self.prop, part.name, rc, log[-4000:]))
        return [r for r in recs if 'ev' in r], [r for r in recs if r.get('done')][0], [r['boom'] for r in recs if 'boom' in r]

    def run_part(self, part):
        t0 = time.time()
        edges = self.design(part) if part.design else []
        seqfile = None
        npaths = 0
        if part.replay:
            seqs, nedges = self.paths(part, edges)
            npaths = len(seqs)
            seqfile = os.path.join(self.tmp, part.name + '.seqs')
            with open(seqfile, 'w') as f:
                json.dump(seqs, f)
        nshards = pick(part.shards, self.tier)
        t1 = time.time()
        with cf.ThreadPoolExecutor(nshards) as ex:
            rs = list(ex.map(lambda k: self.worker(part, k, nshards, seqfile), range(nshards)))
        traces = []
        info = {}
        seen = set()
        execs = 0
        booms = []
        for ts, fin, bs in rs:
            booms += bs
            execs += fin.get('executions', len(ts))
            for t in ts:
                h = json.dumps([t['cfg'], t['ev'], t.get('n')], sort_keys=True)
                if h not in seen:
                    seen.add(h)
                    traces.append(t)
            for k, v in fin.get('info', {}).items():
                info[k] = info.get(k, 0) + v
        t2 = time.time()
        slim = [{k: v for k, v in t.items() if k in ('cfg', 'ev', 'n')} for t in traces]
        # binding self-test: corrupted copies of recorded traces must be rejected
        rng = random.Random(self.seed + 7)
        corrupt = []
        for t in rng.sample(slim, min(len(slim), 6)):
            c = corrupt_trace(t, rng, part.mode)
            if c is not None:
                corrupt.append(c)
        bad = self.validate(part, slim + corrupt)
        accepted_corrupt = [k for k in range(len(slim), len(slim) + len(corrupt)) if k not in bad]
        if accepted_corrupt:
            raise MachineryError('corrupted trace accepted by %s: %s' % (part.name, json.dumps((slim + corrupt)[accepted_corrupt[0]])[:2000]))
        bad = {k: v for k, v in bad.items() if k < len(slim)}
        with self.lock:
            self.traces += len(traces)
            self.events += sum(len(t['ev']) for t in slim)
            self.corrupt_checked += len(corrupt)
            for t in slim:
                for e in t['ev']:
                    o = part.name + '.' + str(e.get('op', e.get('k')))
                    self.opcount[o] = self.opcount.get(o, 0) + 1
            if slim:
                self.samples.append({'part': part.name, 'trace': slim[len(slim) // 2]})
            self.notes.setdefault('parts', {})[part.name] = dict(
                spec=part.spec, mode=part.mode, design_transitions=len(edges), replayed_spec_behaviours=npaths, executions=execs,
                distinct_traces=len(traces), wall_design=round(t1 - t0, 1), wall_drive=round(t2 - t1, 1),
                wall_validate=round(time.time() - t2, 1), **info)
        self.report(part, traces, slim, bad)
        for b in booms[:1]:
            rd = os.path.join(EVID, 'replays')
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, '%s-%s-raised.json' % (self.prop, part.name))
            with open(path, 'w') as f:
                json.dump({'property': self.prop, 'part': part.name, 'spec': part.spec, 'seed': self.seed, 'raised': b.splitlines()}, f, indent=1)
            with self.lock:
                self.violations.append(part.name + ':raised')
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
                print('  part=%s: the code under test failed where no behaviour of the specification fails: %s' % (
                    part.name, b.strip().splitlines()[-1][:300]))
                sys.stdout.flush()

    def report(self, part, traces, slim, bad):
        if not bad:
            return
        shown = 0
        for k in sorted(bad, key=lambda k: len(slim[k]['ev'])):
            sig = self.signature(part, slim[k], bad[k])
            kf = [x for x in self.known_findings if x.get('status') == 'known' and x['signature'] == sig]
            if kf:
                with self.lock:
                    if (kf[0]['signature'],) not in self.known:
                        self.known.append((kf[0]['signature'],))
                        print('KNOWN-FINDING: property=%s %s' % (self.prop, kf[0]['what']))
                continue
            with self.lock:
                n = len(self.violations)
                self.violations.append(sig)
            if shown >= 3:
                continue
            shown += 1
            rd = os.path.join(EVID, 'replays')
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, '%s-%s-%d.json' % (self.prop, part.name, n))
            try:
                diag = self.diagnose(part, slim[k])
            except Exception as e:  # noqa
                diag = repr(e)
            ev = slim[k]['ev']
            with open(path, 'w') as f:
                json.dump({'property': self.prop, 'part': part.name, 'spec': part.spec, 'failing_event_index': bad[k],
                           'failing_event': ev[bad[k] - 1] if bad[k] <= len(ev) else None, 'trace': traces[k],
                           'specification_allowed': diag}, f, indent=1)
            with self.lock:
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
                print('  part=%s spec=%s event %d of %d: %s' % (part.name, part.spec, bad[k], len(ev), json.dumps(ev[bad[k] - 1])[:400]))
                sys.stdout.flush()

    def signature(self, part, trace, idx):
        f = getattr(self.mod, 'signature', None)
        if f is not None:
            return f(part, trace, idx)
        return part.name + ':' + json.dumps([{k: v for k, v in e.items()} for e in trace['ev'][:idx]], sort_keys=True)

    def run(self):
        code = 0
        try:
            jobs = [(lambda p=p: self.run_part(p)) for p in self.mod.PARTS]
            for m in getattr(self.mod, 'MODELS', ()):
                if self.tier in m.tiers:
                    jobs.append(lambda m=m: self.model(m))
            only = os.environ.get('VERIF_PART')
            if only:
                jobs = [(lambda p=p: self.run_part(p)) for p in self.mod.PARTS if p.name in only.split(',')]
            errs = []
            with cf.ThreadPoolExecutor(5) as ex:
                for fu in [ex.submit(j) for j in jobs]:
                    try:
                        fu.result()
                    except Exception as e:  # noqa
                        errs.append(e)
            if self.violations:
                code = 1
            if errs:
                for e in errs:
                    sys.stderr.write('MACHINERY %s: %s\n' % (type(e).__name__, e))
                if not self.violations:
                    code = 2
            self.evidence()
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)
        n = self.notes.get('parts', {})
        print('%s %s: %d design states, %d design transitions, %d traces (%d events) validated, %d violations, %.1fs' % (
            self.prop, self.tier, self.design_states, self.design_transitions, self.traces, self.events, len(self.violations),
            time.time() - self.t0))
        if os.environ.get('VERIF_VERBOSE'):
            print(json.dumps(n, indent=1))
        return code

    def evidence(self):
        os.makedirs(EVID, exist_ok=True)
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
            'coverage': {
                'states': self.design_states + self.states,
                'transitions': self.design_transitions + self.transitions,
                'design_states': self.design_states,
                'design_transitions': self.design_transitions,
                'validation_states': self.states,
                'traces_validated_against_impl': self.traces,
                'events_validated': self.events,
                'corrupted_traces_rejected': self.corrupt_checked,
                'operations': dict(sorted(self.opcount.items())),
                'samples': self.samples[:12],
                'detail': self.notes,
            },
            'assumptions': getattr(self.mod, 'ASSUMPTIONS', []) + [
                'time is virtual and threads are scheduled by /verif/lib/detsched.py; the code under test runs unmodified'],
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(self.violations),
        }
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)


def corrupt_trace(t, rng, mode):
    t = copy.deepcopy(t)
    ev = t['ev']
    if mode == 'lin':
        c = [k for k, e in enumerate(ev) if e['k'] == 'inv' and e['r'][0] != 'pending']
        if not c:
            return None
        k = rng.choice(c)
        ev[k]['r'] = ['corrupt', 0]
        return t
    if not ev:
        return None
    k = rng.randrange(len(ev))
    ev[k]['r'] = ['corrupt', 0]
    return t
