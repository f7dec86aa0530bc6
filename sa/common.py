"""Shared plumbing: extraction of the compiler's IR from /repo, reporting, evidence."""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

from interp import Crate, Interp, Incomplete

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
CACHE = os.path.join(VERIF, '.cache')
CRATES = ['sval', 'sval_ref', 'sval_dynamic', 'sval_json', 'sval_fmt', 'sval_buffer', 'sval_nested',
          'sval_flatten', 'sval_serde', 'sval_test', 'sval_derive', 'sval_corpus']
CONFIGS = {
    'full': ['--features', 'full'],
    'alloc': ['--no-default-features', '--features', 'alloc_only'],
    'core': ['--no-default-features', '--features', 'core_only'],
}
# types deriving `Value`, in a crate of their own: a macro that rejects one of them must not stop the other checks
EXTRA = {'derive': ('derive_corpus', [], ['sval_derive_corpus'])}


class BuildError(Exception):
    pass


def sh_env():
    """environment of /opt/vp/env.sh plus the nightly toolchain"""
    out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'],
                         stdout=subprocess.PIPE, check=True).stdout
    env = dict(x.split('=', 1) for x in out.decode(errors='replace').split('\0') if '=' in x)
    for k in ('PWD', 'OLDPWD', 'SHLVL', '_'):
        env.pop(k, None)
    env['RUSTUP_TOOLCHAIN'] = 'nightly'
    for k in ('RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS'):
        env.pop(k, None)
    return env


def file_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def repo_sources():
    out = []
    for d, dirs, files in os.walk(REPO):
        dirs[:] = [x for x in dirs if x not in ('target', '.git', 'node_modules')]
        for f in files:
            if f.endswith('.rs') or f.endswith('.toml') or f == 'Cargo.lock' or f.endswith('.md'):
                out.append(os.path.join(d, f))
    return out


def run(cmd, env, cwd=None, timeout=800):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode(errors='replace')


def build_driver():
    src = os.path.join(VERIF, 'driver', 'main.rs')
    h = file_hash([src])
    out = os.path.join(CACHE, 'driver-' + h)
    if os.path.exists(out):
        return out
    os.makedirs(CACHE, exist_ok=True)
    env = sh_env()
    tmp = out + '.tmp%d' % os.getpid()
    rc, o = run(['rustc', '--edition', '2021', '-O', '--cap-lints', 'allow', src, '-o', tmp], env)
    if rc != 0:
        raise BuildError('driver does not build:\n' + o[-3000:])
    os.replace(tmp, out)
    return out


def tree_key(corpus_dir='corpus'):
    corpus = []
    for d, dirs, files in os.walk(os.path.join(VERIF, corpus_dir)):
        dirs[:] = [x for x in dirs if x != 'target']
        corpus += [os.path.join(d, f) for f in files]
    return file_hash(repo_sources() + corpus + [os.path.join(VERIF, 'driver', 'main.rs')])


def dumps(config):
    """extract IR of every workspace crate in /repo's current tree for one feature configuration"""
    where, flags, crates = EXTRA.get(config) or ('corpus', CONFIGS[config], CRATES)
    key = tree_key(where)
    out = os.path.join(CACHE, 'dump-%s-%s' % (config, key))
    if os.path.exists(os.path.join(out, 'DONE')):
        return out
    drv = build_driver()
    env = sh_env()
    rc, sysroot = run(['rustc', '--print', 'sysroot'], env)
    for d in os.listdir(CACHE):
        if d.startswith('dump-%s-' % config) or d.startswith('target-%s-' % config):
            shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
    tmp = out + '.tmp%d' % os.getpid()
    tgt = os.path.join(CACHE, 'target-%s-%d' % (config, os.getpid()))
    os.makedirs(tmp)
    env.update({
        'SVCHK_OUT': tmp,
        'SVCHK_CRATES': ','.join(crates),
        'LD_LIBRARY_PATH': sysroot.strip() + '/lib',
        'RUSTC_WRAPPER': drv,
        'RUSTFLAGS': '-Zalways-encode-mir -Zmir-opt-level=0 --cap-lints allow',
        'CARGO_TARGET_DIR': tgt,
        'CARGO_INCREMENTAL': '0',
    })
    rc, o = run(['cargo', 'check', '--offline'] + flags, env, cwd=os.path.join(VERIF, where))
    shutil.rmtree(tgt, ignore_errors=True)
    if rc != 0:
        shutil.rmtree(tmp, ignore_errors=True)
        raise BuildError('cannot extract IR (%s):\n%s' % (config, o[-4000:]))
    open(os.path.join(tmp, 'DONE'), 'w').close()
    if os.path.exists(out):
        shutil.rmtree(tmp, ignore_errors=True)
    else:
        os.replace(tmp, out)
    return out


class Ctx:
    """lazily loaded crates of the tree under analysis"""

    def __init__(self, tier):
        self.tier = tier
        self._c = {}

    def crate(self, name, config='full'):
        k = (name, config)
        if k not in self._c:
            p = os.path.join(dumps(config), name + '.json')
            self._c[k] = Crate(p) if os.path.exists(p) else None
        return self._c[k]

    def configs(self):
        return list(CONFIGS)

    def prepare(self, configs=None):
        """extract the IR for several configurations in parallel"""
        import threading
        build_driver()
        errs = []

        def go(c):
            try:
                dumps(c)
            except Exception as e:  # re-raised below
                errs.append(e)
        ts = [threading.Thread(target=go, args=(c,)) for c in (configs or CONFIGS)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errs:
            raise errs[0]

    def each(self, names, configs=None, chunk=60):
        """(crate, config, functions) work items"""
        self.prepare(configs)
        out = []
        for cfg in (configs or self.configs()):
            for n in names:
                c = self.crate(n, cfg)
                if c is None:
                    continue
                for i in range(0, len(c.roots), chunk):
                    out.append((c, cfg, c.roots[i:i + chunk]))
        return out


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.ok_n = {}
        self.viols = []
        self.incon = []
        self.samples = {}
        self.cfg = 'full'
        self.seen = set()
        self.notes = []
        self.floors = []

    def ok(self, rule, where):
        self.ok_n[rule] = self.ok_n.get(rule, 0) + 1
        s = self.samples.setdefault(rule, [])
        if len(s) < 6:
            s.append(where if self.cfg == 'full' else '%s [%s]' % (where, self.cfg))

    def viol(self, key, rule, where, msg):
        """key: stable identity (no line numbers)"""
        if key in self.seen:
            return
        self.seen.add(key)
        self.viols.append({'key': key, 'rule': rule, 'where': where, 'message': msg, 'config': self.cfg})

    def inconclusive(self, rule, where, why):
        self.incon.append({'rule': rule, 'where': where, 'why': why, 'config': self.cfg})

    def floor(self, rule, n):
        """at least n obligations of this rule must have been found on the tree"""
        self.floors.append((rule, n))

    def total(self, rule):
        return self.ok_n.get(rule, 0) + sum(1 for v in self.viols if v['rule'] == rule) + \
            sum(1 for v in self.incon if v['rule'] == rule)


    def merge(self, o):
        for k, v in o.ok_n.items():
            self.ok_n[k] = self.ok_n.get(k, 0) + v
        for k, v in o.samples.items():
            s = self.samples.setdefault(k, [])
            s.extend(v[:max(0, 6 - len(s))])
        for v in o.viols:
            if v['key'] not in self.seen:
                self.seen.add(v['key'])
                self.viols.append(v)
        self.incon.extend(o.incon)
        self.notes.extend(o.notes)


_JOB = {}


def _worker(i):
    fn, task, prop, cfg = _JOB['fn'], _JOB['tasks'][i], _JOB['prop'], None
    sub = Report(prop)
    fn(task, sub)
    return sub


def pmap(rep, tasks, fn, procs=8):
    """analyse independent tasks in parallel processes and merge their reports"""
    import multiprocessing
    _JOB.update(fn=fn, tasks=tasks, prop=rep.prop)
    if len(tasks) <= 1:
        for t in tasks:
            fn(t, rep)
        return
    import gc
    from concurrent.futures import ProcessPoolExecutor
    from concurrent.futures.process import BrokenProcessPool
    gc.collect()
    gc.freeze()     # keeps the collector from touching, and so un-sharing, the parent's pages in every child
    done = {}
    for n in (min(procs, len(tasks)), 2, 1):
        # a worker that was ended from outside (memory) breaks the pool: what is left is done again with fewer
        try:
            with ProcessPoolExecutor(n, mp_context=multiprocessing.get_context('fork'), initializer=_die_with_parent,
                                     initargs=(os.getpid(),)) as ex:
                futs = {i: ex.submit(_worker, i) for i in range(len(tasks)) if i not in done}
                for i, f in futs.items():
                    done[i] = f.result()
            break
        except BrokenProcessPool:
            if n == 1:
                raise
    gc.unfreeze()
    for i in range(len(tasks)):
        rep.merge(done[i])


def _die_with_parent(parent):
    """a worker does not outlive the check it works for"""
    import ctypes
    import signal
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:
        return
    if os.getppid() != parent:
        os._exit(1)


def fn_where(f):
    return '%s (%s)' % ((f.get('file') or '?').replace(REPO + '/', ''), f['path'])


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))['findings']


def main(prop, fn, tier, seed, meta):
    t0 = time.time()
    rep = Report(prop)
    ctx = Ctx(tier)
    try:
        fn(ctx, rep)
    except BuildError as e:
        print('BUILD-ERROR: %s' % e)
        sys.exit(2)
    for rule, n in rep.floors:
        if rep.total(rule) < n:
            # not a violation by itself: the code may have been restructured beyond what this rule recognises
            rep.inconclusive(rule, '/repo', 'only %d constructs found, at least %d on the tree this was written for' % (
                rep.total(rule), n))
    known = {k['key']: k for k in known_findings() if k['property'] == prop and k.get('status') == 'open'}
    new = [v for v in rep.viols if v['key'] not in known]
    old = [v for v in rep.viols if v['key'] in known]
    ev_dir = os.path.join(VERIF, 'evidence')
    os.makedirs(ev_dir, exist_ok=True)
    n_ok = sum(rep.ok_n.values())
    total = n_ok + len(rep.viols) + len(rep.incon)
    ev = {
        'property': prop,
        'tier': tier,
        'seed': seed,
        'level': meta['level'],
        'coverage': {
            'explanation': meta['explanation'],
            'rules': {k: {'discharged': v, 'samples': rep.samples.get(k, [])} for k, v in sorted(rep.ok_n.items())},
            'obligations': total,
            'discharged': n_ok,
            'inconclusive': rep.incon[:60],
            'inconclusive_count': len(rep.incon),
            'notes': rep.notes[:40],
            'checker_cmd': 'python3 /verif/sa/check.py %s --tier %s' % (prop, tier),
            'trusted_base': ['rustc nightly type checker and MIR construction', 'sa/interp.py abstract interpreter and its std models',
                             'the rules in sa/ for this property'],
        },
        'wall_s': round(time.time() - t0, 2),
        'violations': [{'key': v['key'], 'message': v['message'], 'where': v['where'], 'known': v['key'] in known}
                       for v in rep.viols],
        'assumptions': meta.get('assumptions', []),
    }
    with open(os.path.join(ev_dir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s [%s] obligations=%d discharged=%d inconclusive=%d violations=%d (known %d) %.1fs' % (
        prop, tier, total, n_ok, len(rep.incon), len(rep.viols), len(old), time.time() - t0))
    for k, v in sorted(rep.ok_n.items()):
        print('   rule %-28s %d' % (k, v))
    for i in rep.incon[:10]:
        print('   inconclusive: %s %s: %s' % (i['rule'], i['where'], i['why']))
    for v in old:
        print('KNOWN-FINDING: property=%s %s' % (prop, known[v['key']]['what']))
    if new:
        rp = os.path.join(ev_dir, '%s.violations.json' % prop)
        with open(rp, 'w') as f:
            json.dump(new, f, indent=1)
        for v in new[:40]:
            print('  [%s] %s: %s (key %s)' % (v['rule'], v['where'], v['message'], v['key']))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        sys.exit(1)
    sys.exit(0)


def setup():
    ctx = Ctx('quick')
    ctx.prepare()
    print('setup: extractor built, %s analysed' % ', '.join(ctx.configs()))
