"""Verdict machinery: seeded cases run in a process pool, every oracle decision is an
event of a named monitor, verdicts are violated / held / inconclusive."""
import collections, hashlib, json, linecache, multiprocessing as mp, os, signal, sys, time, traceback

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_KEEP = 5


class CaseTimeout(BaseException):
    pass


class StepBudget(BaseException):
    pass


class Skip(Exception):
    """The case does not satisfy the precondition of the property."""


def jsonable(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return str(o)


class Mon:
    """Monitor store of one case."""

    def __init__(self, case):
        self.case = case
        self.count = collections.Counter()      # monitor -> decisions taken
        self.viol = []                          # (monitor, detail)
        self.known = []                         # (key, detail)
        self.sig = set()                        # distinct non-trivial situations seen
        self.sample = None

    def ok(self, name, cond, detail=None, known=None):
        """One oracle decision. `known`: key of a listed finding this failure is an instance of."""
        self.count[name] += 1
        if not cond:
            d = detail() if callable(detail) else detail
            if known is not None:
                self.known.append((known, name, jsonable(d)))
            else:
                self.viol.append((name, jsonable(d)))
        return bool(cond)

    def seen(self, name, n=1):
        self.count[name] += n

    def distinct(self, *sig):
        self.sig.add(hashlib.md5(repr(sig).encode()).hexdigest()[:12])

    def describe(self, d):
        if self.sample is None:
            self.sample = d


def in_repo_frames(tb):
    out = []
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if os.path.realpath(fn).startswith(os.path.realpath(REPO) + os.sep):
            out.append('%s:%d %s' % (os.path.relpath(os.path.realpath(fn), os.path.realpath(REPO)), tb.tb_lineno, tb.tb_frame.f_code.co_name))
        tb = tb.tb_next
    return out


class StepCounter:
    """Logical clock: counts executed lines of repository code, raises StepBudget over the budget."""

    def __init__(self, budget):
        self.budget, self.n = budget, 0
        self.root = os.path.realpath(REPO) + os.sep

    def _local(self, frame, event, arg):
        if event == 'line':
            self.n += 1
            if self.n > self.budget:
                raise StepBudget('%s:%d' % (frame.f_code.co_filename, frame.f_lineno))
        return self._local

    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.root):
            return self._local
        return None

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)


def _alarm(signum, frame):
    raise CaseTimeout()


def seed_all(prop, seed, idx):
    import numpy as np
    h = int(hashlib.md5(('%s/%s/%s' % (prop, seed, idx)).encode()).hexdigest()[:15], 16)
    np.random.seed(h % (2 ** 32 - 1))
    return np.random.default_rng([h % (2 ** 31), seed, idx])


def run_case(mod, pid, seed, idx, tier):
    mon = Mon(idx)
    for attempt in (0, 1):
        rng = seed_all(pid, seed, idx)
        signal.signal(signal.SIGALRM, _alarm)
        try:
            if attempt == 0:
                signal.setitimer(signal.ITIMER_REAL, getattr(mod, 'CASE_SECONDS', 20))
                mod.case(mon, rng, idx, tier)
            else:
                # The wall clock watchdog fired: decide on logical steps instead
                mon = Mon(idx)
                signal.setitimer(signal.ITIMER_REAL, 150)
                with StepCounter(getattr(mod, 'STEP_BUDGET', 10_000_000)):
                    mod.case(mon, rng, idx, tier)
            signal.setitimer(signal.ITIMER_REAL, 0)
            break
        except Skip as e:
            signal.setitimer(signal.ITIMER_REAL, 0)
            mon.count['skipped: ' + str(e)] += 1
            break
        except CaseTimeout:
            if attempt == 1:
                mon.count['watchdog'] += 1
                return mon, 'watchdog'
            continue
        except StepBudget as e:
            signal.setitimer(signal.ITIMER_REAL, 0)
            mon.viol.append(('termination', {'what': 'no result within %d executed lines of repository code' % getattr(mod, 'STEP_BUDGET', 10_000_000), 'at': str(e)}))
            break
        except Exception as e:
            signal.setitimer(signal.ITIMER_REAL, 0)
            frames = in_repo_frames(e.__traceback__)
            if not frames:
                if isinstance(e, (OSError, MemoryError, ImportError, NameError, SyntaxError)):
                    return mon, 'harness: ' + traceback.format_exc()
                if type(e).__name__ in ('GEOSException', 'TopologicalError'):
                    # Overlay of the reference geometry failed numerically: no verdict on the rest of this case,
                    # unless it happens so often that the regions under test must be malformed
                    mon.count['skipped: overlay failed'] += 1
                    mon.overlay = traceback.format_exc().strip().split('\n')[-6:]
                    break
                # The monitor could not interpret what the code under test returned
                mon.viol.append(('malformed_result', {'exception': type(e).__name__, 'message': str(e)[:300],
                                                      'where': traceback.format_exc().strip().split('\n')[-4:]}))
                break
            key = mod.known_exception(e, frames, mon) if hasattr(mod, 'known_exception') else None
            d = {'exception': type(e).__name__, 'message': str(e)[:300], 'frames': frames[-4:]}
            if key:
                mon.known.append((key, 'no_exception', d))
            else:
                mon.viol.append(('no_exception', d))
            break
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            try:
                import matplotlib.pyplot as plt
                plt.close('all')
            except Exception:
                pass
    return mon, None


_MOD = None
_STOP = None        # shared by the workers: calls that did not come to an end so far
_DEADLINE = None    # no further cases are started after this time


def _work(args):
    pid, seed, idxs, tier = args
    out = []
    for i in idxs:
        if _STOP is not None and (_STOP.value >= 3 or _DEADLINE is not None and time.time() > _DEADLINE):
            break
        mon, err = run_case(_MOD, pid, seed, i, tier)
        if _STOP is not None and (err == 'watchdog' or any(n == 'termination' for n, _ in mon.viol)):
            _STOP.value += 1
        out.append((i, dict(mon.count), mon.viol, mon.known, mon.sig, mon.sample, err))
        if err is None and mon.viol and len(mon.viol) > 200:
            break
    return out


def load_known():
    """known_findings.txt: lines 'finding: property=<id> key=<key> <text>' and 'fixed: ...'."""
    res = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('finding:'):
                kv = line[len('finding:'):].strip().split(' ', 2)
                d = dict(x.split('=', 1) for x in kv[:2])
                res[(d['property'], d['key'])] = kv[2].strip() if len(kv) > 2 else ''
    return res


def run(mod, pid, tier, seed, cases=None, replay=None, jobs=None):
    global _MOD, _STOP, _DEADLINE
    _MOD = mod
    t0 = time.time()
    _STOP = mp.Value('i', 0)
    _DEADLINE = t0 + 600 if tier == 'quick' and not replay else None
    known = load_known()
    n = cases if cases is not None else mod.CASES[tier]
    idxs = list(range(n))
    if replay:
        rp = json.load(open(replay))
        seed, tier, idxs = rp['seed'], rp['tier'], [rp['case']]
    # only keys listed for this property may be used
    listed = {k for (p, k) in known if p == pid}
    jobs = jobs or min(8, os.cpu_count() or 1)
    chunk = max(1, min(50, len(idxs) // (jobs * 6) or 1))
    tasks = [(pid, seed, idxs[i:i + chunk], tier) for i in range(0, len(idxs), chunk)]
    count, sigs, viols, knowns, samples, errs = collections.Counter(), set(), [], [], [], []
    done = 0

    def absorb(out):
        nonlocal done
        for (i, c, v, k, s, sample, err) in out:
            done += 1
            count.update(c)
            sigs.update(s)
            for name, d in v:
                viols.append((i, name, d))
            for key, name, d in k:
                if key in listed:
                    knowns.append((i, key, name, d))
                else:
                    viols.append((i, name, d))
            if sample is not None and len(samples) < 3:
                samples.append({'case': i, **jsonable(sample)})
            if err:
                errs.append((i, err))

    if len(tasks) == 1 or jobs == 1 or replay:
        for t in tasks:
            absorb(_work(t))
    else:
        ctx = mp.get_context('fork')
        with ctx.Pool(jobs) as pool:
            for out in pool.imap_unordered(_work, tasks):
                absorb(out)
    samples.sort(key=lambda s: s['case'])
    viols.sort(key=lambda v: (v[0], v[1]))

    nov = count.get('skipped: overlay failed', 0)
    if nov > max(3, .01 * done):
        viols.append((0, 'malformed_result', {'what': 'overlay of returned regions failed in %d of %d cases' % (nov, done)}))

    # caps on how often a listed finding may occur before it is something else
    evals = sum(v for k, v in count.items() if not k.startswith('skipped'))
    capped = []
    if not replay:
        for key, frac, denom in getattr(mod, 'KNOWN_CAPS', []):
            kn = len({x[0] for x in knowns if x[1] == key})
            lim = max(3, frac * max(1, count.get(denom, 0)))
            if kn > lim:
                capped.append((key, kn, lim))
    for key, kn, lim in capped:
        first = [x for x in knowns if x[1] == key][0]
        viols.append((first[0], 'rate of ' + key, {'occurrences': kn, 'limit': lim, 'example': first[3]}))

    demo_lines = []
    if hasattr(mod, 'known_demos') and not replay:
        try:
            demos = mod.known_demos()
        except Exception:
            demos = []
        for key, fails in demos:
            if key in listed and fails:
                demo_lines.append('KNOWN-FINDING: property=%s %s' % (pid, known[(pid, key)]))

    missing = []
    if not replay and cases is None:
        for name, need in getattr(mod, 'REQUIRED', {}).items():
            need = need if isinstance(need, int) else need[tier]
            if count.get(name, 0) < need:
                missing.append('%s: %d < %d' % (name, count.get(name, 0), need))

    if done < len(idxs) and not viols:
        missing.append('stopped after %d of %d cases' % (done, len(idxs)))
    rc, kind = 0, 'held'
    if viols:
        rc, kind = 1, 'violated'
    elif errs or missing:
        rc, kind = 3, 'inconclusive'

    coverage = {
        'evaluations': int(evals),
        'distinct_nontrivial': len(sigs),
        'rule': mod.RULE,
        'samples': samples or [{'note': 'no sample'}],
        'cases_run': done,
        'monitor_decisions': dict(sorted(count.items())),
        'verdict': kind,
        'known_finding_instances': dict(collections.Counter(k for _, k, _, _ in knowns)),
    }
    ev = {
        'property': pid, 'tier': tier, 'seed': int(seed), 'level': mod.LEVEL,
        'coverage': coverage,
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viols),
    }
    if not replay and VERIF == os.path.dirname(os.path.dirname(os.path.abspath(__file__))):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        s = json.dumps(jsonable(ev), indent=1)
        if len(s) > 60000:
            ev['coverage']['samples'] = [str(x)[:3000] for x in ev['coverage']['samples']]
            s = json.dumps(jsonable(ev), indent=1)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            f.write(s + '\n')

    print('%s tier=%s seed=%s cases=%d decisions=%d distinct=%d wall=%.1fs' % (pid, tier, seed, done, evals, len(sigs), time.time() - t0))
    for k, v in sorted(count.items()):
        print('   %-52s %d' % (k, v))
    for line in sorted(set(demo_lines)):
        print(line)
    if knowns:
        for key, c in collections.Counter(k for _, k, _, _ in knowns).items():
            print('   listed finding %s: %d instances in this run' % (key, c))
    if viols:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        by = collections.Counter(v[1] for v in viols)
        print('   violated monitors: %s' % dict(by))
        shown = {}
        for i, name, d in viols:
            if name in shown:
                continue
            shown[name] = 1
            path = os.path.join(VERIF, 'replays', '%s-%s-%d.json' % (pid, seed, i))
            with open(path, 'w') as f:
                json.dump({'property': pid, 'seed': int(seed), 'tier': tier, 'case': i, 'monitor': name, 'detail': jsonable(d)}, f, indent=1)
            print('   case %d %s: %s' % (i, name, json.dumps(jsonable(d))[:1500]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
            if len(shown) >= MAX_KEEP:
                break
    for i, e in errs[:3]:
        print('ERROR of the check in case %d: %s' % (i, e), file=sys.stderr)
    for m in missing:
        print('INCONCLUSIVE: monitor reached too seldom: ' + m, file=sys.stderr)
    return rc
