"""Bounded-exhaustive explorer runtime: parallel chunk execution, per-case time limits,
violation / known-finding / replay / evidence reporting.

A check module defines  FAMILIES = {name: function(rep, *chunk_args)}  and
tasks(tier) -> list of (family name, chunk_args).  Every chunk is a finite set of cases; the
union over the chunks is the bounded space the check enumerates.  Nothing is sampled.
"""
import argparse, collections, contextlib, hashlib, json, os, resource, signal, sys, time, traceback
import multiprocessing as mp
import concurrent.futures as cf
import concurrent.futures.process

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class CaseTimeout(BaseException):
    pass


class Violation(Exception):
    """Raised by an oracle: the property does not hold on the current case."""


class StopChunk(BaseException):
    pass


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def _alarm(signum, frame):
    raise CaseTimeout()


CASE_LIMIT = float(os.environ.get('VERIF_CASE_LIMIT', '40'))


class Rep(object):
    """Collects what one chunk explored."""

    def __init__(self, pid, fam, args, known):
        self.pid, self.fam, self.args, self.known = pid, fam, args, known
        self.nstates = 0
        self.state_hashes = set()
        self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.violations = []
        self.knownhits = collections.Counter()
        self.outcomes = collections.Counter()
        self.samples = []
        self.timeouts = 0
        self.only = None
        self.notes = set()

    # -- what was explored -------------------------------------------------
    def state(self, key):
        """Count a state (deduplicated over the whole run by its canonical key). True if new in this chunk."""
        h = key if isinstance(key, int) else hash(key)
        if h in self.state_hashes:
            return False
        self.state_hashes.add(h)
        return True

    def step(self, n=1):
        self.transitions += n

    def outcome(self, o):
        self.outcomes[str(o)] += 1

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(str(s)[:400])

    # -- cases -------------------------------------------------------------
    @contextlib.contextmanager
    def case(self, key, features=None, limit=None):
        """Runs one case; any exception is a violation of the property on that case."""
        self.evals += 1
        f = dict(features or {})
        f.setdefault('family', self.fam)
        signal.setitimer(signal.ITIMER_REAL, limit or CASE_LIMIT, 1.0)
        try:
            yield f
            signal.setitimer(signal.ITIMER_REAL, 0)
            self.traces += 1
        except CaseTimeout:
            signal.setitimer(signal.ITIMER_REAL, 0)
            self.timeouts += 1
            self._viol(key, f, 'no answer within %g s (does not terminate?)' % (limit or CASE_LIMIT), '')
            if self.timeouts >= 2:
                raise StopChunk()
        except StopChunk:
            signal.setitimer(signal.ITIMER_REAL, 0)
            raise
        except Violation as e:
            signal.setitimer(signal.ITIMER_REAL, 0)
            self._viol(key, f, str(e), '')
        except Exception as e:
            signal.setitimer(signal.ITIMER_REAL, 0)
            self._viol(key, f, 'raised %s: %s' % (type(e).__name__, e), traceback.format_exc())
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    def _viol(self, key, feats, msg, tb):
        feats = {k: str(v) for k, v in feats.items()}
        skey = key if isinstance(key, str) else json.dumps(key, default=str)
        for kf in self.known:
            m = kf['match']
            if all((feats.get(k) in v) if isinstance(v, list) else feats.get(k) == v
                   for k, v in m.items() if k not in ('key', 'message')):
                if 'key' in m and skey not in (m['key'] if isinstance(m['key'], list) else [m['key']]):
                    continue
                if 'message' in m and m['message'] not in msg:
                    continue
                self.knownhits[kf['id']] += 1
                return
        if self.only is not None and skey != self.only:
            return
        self.violations.append(dict(family=self.fam, args=self.args, key=skey, features=feats,
                                    message=msg[:2000], traceback=tb[-3000:]))
        if len(self.violations) >= (10**9 if os.environ.get('VERIF_TRIAGE') else 4) and self.only is None:
            raise StopChunk()

    def result(self, wall):
        return dict(fam=self.fam, hashes=self.state_hashes, transitions=self.transitions, traces=self.traces,
                    evals=self.evals, violations=self.violations, known=self.knownhits,
                    outcomes=self.outcomes, samples=self.samples, wall=wall, notes=self.notes)


_CHECK = {}


def _init_worker(pid, module_families, known, only):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    signal.signal(signal.SIGALRM, _alarm)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(dn, 2)
    sys.setrecursionlimit(5000)
    _CHECK.update(pid=pid, fams=module_families, known=known, only=only)


def _run_chunk(task):
    fam, args = task
    t0 = time.time()
    rep = Rep(_CHECK['pid'], fam, args, _CHECK['known'])
    rep.only = _CHECK['only']
    try:
        _CHECK['fams'][fam](rep, *args)
    except StopChunk:
        pass
    except (CaseTimeout, Exception) as e:
        rep.violations.append(dict(family=fam, args=args, key='chunk', features={'family': fam},
                                   message='harness-level exception %s: %s' % (type(e).__name__, e),
                                   traceback=traceback.format_exc()[-3000:]))
    return rep.result(time.time() - t0)


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get('findings', []) if k['property'] == pid]


def main(pid, families, tasks, assumptions=(), exhaustive_note='', argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--family', action='append')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1))
    ap.add_argument('--profile', action='store_true')
    ap.add_argument('--maxviol', type=int, default=int(os.environ.get('VERIF_MAXVIOL', '12')))
    a = ap.parse_args(argv)
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    known = load_known(pid)
    only = None
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        tl = [(r['family'], tuple(_totuple(r['args'])))]
        only = r['key']
        a.jobs = 1
    else:
        tl = list(tasks(a.tier))
        if a.family:
            tl = [t for t in tl if t[0] in a.family]
    # longest-running families first is up to the check; interleave deterministically
    hashes, trans, traces, evals = set(), 0, 0, 0
    viols, knownhits, samples = [], collections.Counter(), []
    fam = collections.OrderedDict()
    outcomes = collections.defaultdict(collections.Counter)
    notes = set()
    stopped = False
    ctx = mp.get_context('fork')
    pool = cf.ProcessPoolExecutor(a.jobs, mp_context=ctx, initializer=_init_worker,
                                  initargs=(pid, families, known, only))
    try:
        futs = {pool.submit(_run_chunk, t): t for t in tl}
        for fu in cf.as_completed(futs):
            try:
                res = fu.result()
            except cf.process.BrokenProcessPool as e:
                viols.append(dict(family=futs[fu][0], args=futs[fu][1], key='worker died', features={},
                                  message='a worker process died while running this or a concurrent chunk: %s' % e,
                                  traceback=''))
                stopped = True
                break
            f = fam.setdefault(res['fam'], dict(chunks=0, states=0, transitions=0, traces=0, cases=0, cpu_s=0.0))
            n0 = len(hashes)
            hashes |= res['hashes']
            f['chunks'] += 1
            f['states'] += len(hashes) - n0
            f['transitions'] += res['transitions']
            f['traces'] += res['traces']
            f['cases'] += res['evals']
            f['cpu_s'] += res['wall']
            trans += res['transitions']
            traces += res['traces']
            evals += res['evals']
            viols += res['violations']
            knownhits.update(res['known'])
            outcomes[res['fam']].update(res['outcomes'])
            notes |= res['notes']
            if f['chunks'] <= 1:
                samples += [res['fam'] + ': ' + s for s in res['samples'][:1]]
            if len(viols) >= a.maxviol and not only and not os.environ.get('VERIF_TRIAGE'):
                stopped = True
                break
    finally:
        procs = list((pool._processes or {}).values())
        manager = pool._executor_manager_thread
        pool.shutdown(wait=False, cancel_futures=True)
        if stopped:
            for pr in procs:
                pr.kill()
        if manager is not None:      # (shutdown forgets the thread, a second shutdown would not wait for it)
            manager.join()
    wall = time.time() - t0
    for f in fam.values():
        f['cpu_s'] = round(f['cpu_s'], 1)
    for n, c in outcomes.items():
        if c and n in fam:
            fam[n]['distinct_outcomes'] = len(c)
            fam[n]['outcomes'] = dict(c.most_common(6))
    rdir = os.path.join(VERIF, 'replays', pid)
    lines = []
    seen = set()
    for v in viols:
        h = hashlib.sha1((v['family'] + v['key']).encode()).hexdigest()[:12]
        if h in seen:
            continue
        seen.add(h)
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, h + '.json')
        v['property'] = pid
        v['replay_cmd'] = '/verif/check %s --replay %s' % (pid, path)
        with open(path, 'w') as fo:
            json.dump(v, fo, indent=1, default=str)
        lines.append((path, v))
    ev = dict(property=pid, tier=a.tier, seed=seed, level='model_checking',
              coverage=dict(states=len(hashes), transitions=trans, traces_validated_against_impl=traces,
                            cases=evals, samples=samples[:12] or ['none'],
                            exhaustive=(not stopped and not only and not a.family),
                            families=fam, bounds=exhaustive_note),
              assumptions=list(assumptions), wall_s=round(wall, 2), violations=len(seen),
              known_findings={k: int(v) for k, v in knownhits.items()})
    if notes:
        ev['coverage']['notes'] = sorted(notes)[:20]
    if not only and not a.family:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        tmp = os.path.join(VERIF, 'evidence', pid + '.json.tmp')
        with open(tmp, 'w') as fo:
            json.dump(ev, fo, indent=1, default=str)
        os.replace(tmp, os.path.join(VERIF, 'evidence', pid + '.json'))
    for n, f in fam.items():
        print('  %-28s chunks=%d states=%d transitions=%d traces=%d cases=%d cpu=%.1fs outcomes=%s' % (
            n, f['chunks'], f['states'], f['transitions'], f['traces'], f['cases'], f['cpu_s'],
            f.get('outcomes', '-')))
    print('property=%s tier=%s states=%d transitions=%d traces=%d cases=%d wall=%.1fs' % (
        pid, a.tier, len(hashes), trans, traces, evals, wall))
    for kf in known:
        if knownhits.get(kf['id']):
            print('KNOWN-FINDING: property=%s %s: %s (%d cases)' % (pid, kf['id'], kf['what'], knownhits[kf['id']]))
    if viols and os.environ.get('VERIF_TRIAGE'):
        grp = collections.OrderedDict()
        for path, v in lines:
            k = tuple(sorted(v['features'].items())) + (v['message'][:60],)
            grp.setdefault(k, []).append(v)
        for k, vs in sorted(grp.items(), key=lambda x: -len(x[1]))[:40]:
            v = min(vs, key=lambda v: len(v['key']))
            print('%6d %s\n       %s\n       %s' % (len(vs), k, v['key'][:300], v['message'][:300]))
            if v['traceback']:
                print('       ' + ' | '.join(l.strip() for l in v['traceback'].strip().splitlines()[-5:]))
        return 1
    if viols:
        for path, v in lines[:20]:
            print('--- %s %s\n    %s' % (v['family'], v['key'][:300], v['message'][:500].replace('\n', ' | ')))
            if a.replay or os.environ.get('VERIF_DEBUG'):
                print(v['traceback'])
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if not tl or evals == 0:
        print('no case was explored')
        return 2
    return 0


def _totuple(x):
    if isinstance(x, list):
        return tuple(_totuple(y) for y in x)
    return x


def chunked(seq, n):
    """n interleaved slices (i, n) descriptors."""
    return [(i, n) for i in range(n)]


def slice_iter(it, i, n):
    for k, x in enumerate(it):
        if k % n == i:
            yield x
