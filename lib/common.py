"""Common driver of every check: findings, known findings, evidence, exit code."""
import json, os, sys, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('COFFE_REPO', '/repo')


class Check:
    def __init__(self, pid, level='other'):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.finds = {}            # key -> (message, location)
        self.cov = {}
        self.assumptions = []
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        for a in sys.argv[1:]:
            if a in ('--thorough', 'thorough'):
                self.tier = 'thorough'
        self.obl = 0
        self.oblsamples = []

    def obligation(self, what=None):
        """one decided instance of the rule"""
        self.obl += 1
        if what is not None and (len(self.oblsamples) < 12):
            self.oblsamples.append(what)

    def find(self, key, msg, loc=''):
        """a violation; key identifies the construct (no line numbers), loc is where it is today"""
        self.finds.setdefault(key, (msg, loc))

    def cover(self, **kw): self.cov.update(kw)

    def part(self, name, fn, *args):
        """run one part of a check; a construct it cannot describe leaves that part undecided (recorded), the others still count"""
        from ir import AnalysisBroken
        try:
            return fn(*args)
        except AnalysisBroken as e:
            self.cov.setdefault('undecided', []).append('%s: %s' % (name, e))
        except (KeyError, IndexError, TypeError, AttributeError, ValueError, StopIteration, RecursionError, ZeroDivisionError, AssertionError) as e:
            # a shape of code the part was not written for
            if os.environ.get('COFFE_STRICT'):
                raise
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.cov.setdefault('undecided', []).append('%s: %s %s (%s:%d)' % (name, type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
        return None

    def parallel(self, jobs, workers=8):
        """parts run side by side: [(name, fn, args)]; fn(check, *args)"""
        import multiprocessing as mp
        global _jobs
        _jobs = jobs
        with mp.get_context('fork').Pool(min(workers, len(jobs), os.cpu_count() or 1)) as pool:
            for finds, obl, samples, und in pool.imap(_one, [(self.pid, self.level, n) for n in range(len(jobs))], chunksize=1):
                for k, v in finds.items():
                    self.finds.setdefault(k, v)
                self.obl += obl
                self.oblsamples += samples[:max(0, 12 - len(self.oblsamples))]
                if und:
                    self.cov.setdefault('undecided', []).extend(und)

    def need(self, n, what, minimum=1):
        """an analysis that found fewer instances than the rule is about is broken, not passed"""
        from ir import AnalysisBroken
        if n < minimum:
            raise AnalysisBroken('%s: only %d %s found (expected at least %d)' % (self.pid, n, what, minimum))

    def known(self):
        with open(os.path.join(ROOT, 'known_findings.json')) as f:
            d = json.load(f)
        return {k['key']: k for k in d['known'] if k['property'] == self.pid}

    def finish(self):
        known = self.known()
        new = {k: v for k, v in self.finds.items() if k not in known}
        old = {k: v for k, v in self.finds.items() if k in known}
        ev = {
            'property': self.pid, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick',
            'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': self.level,
            'coverage': dict(self.cov), 'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 3), 'violations': len(new),
        }
        ev['coverage']['instances_decided'] = self.obl
        ev['coverage']['instance_samples'] = self.oblsamples
        ev['coverage']['known_findings_present'] = sorted(old)
        ev['coverage'].setdefault('explanation', 'static rule over the current source; see DESIGN.md')
        d = os.environ.get('COFFE_EVIDENCE') or os.path.join(ROOT, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k in sorted(old):
            print('KNOWN-FINDING: property=%s %s [%s]' % (self.pid, known[k].get('what', old[k][0]), k))
        for k in sorted(set(known) - set(old)):
            print('note: known finding no longer present: %s %s' % (self.pid, k))
        if new:
            rep = os.path.join(d, self.pid + '.violations.txt')
            with open(rep, 'w') as f:
                for k, (m, l) in sorted(new.items()):
                    f.write('%s\n  at %s\n  key %s\n' % (m, l, k))
            for k, (m, l) in sorted(new.items()):
                print('%s: %s [%s]' % (l, m, k))
            print('VIOLATION property=%s replay=%s' % (self.pid, rep))
            return 1
        print('OK property=%s instances=%d known=%d wall=%.1fs' % (self.pid, self.obl, len(old), time.time() - self.t0))
        return 0


def _one(job):
    pid, level, n = job
    name, fn, args = _jobs[n]
    c = Check(pid, level)
    c.part(name, fn, c, *args)
    return c.finds, c.obl, c.oblsamples, c.cov.get('undecided', [])


def other_form(pid):
    """(exit code, evidence, output) of this check on the form of the program with short loops written out"""
    import shutil, subprocess, tempfile
    d = tempfile.mkdtemp(prefix='coffe-form-')
    try:
        env = dict(os.environ, COFFE_FORM='unrolled', COFFE_EVIDENCE=d)
        r = subprocess.run([sys.executable] + sys.argv, env=env, capture_output=True, text=True, timeout=300)
        with open(os.path.join(d, pid + '.json')) as f:
            return r.returncode, json.load(f), r.stdout
    except (OSError, ValueError, subprocess.TimeoutExpired):
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main(pid, fn, level='other'):
    """run fn(check); exit 0 / 1, or 2 when the analysis itself could not be carried out"""
    from ir import AnalysisBroken
    from irbuild import BuildBroken
    c = Check(pid, level)
    broken = None
    try:
        fn(c)
    except (AnalysisBroken, BuildBroken) as e:
        broken = str(e)
    except Exception as e:
        traceback.print_exc()
        broken = 'internal error %r' % e
    new = set(c.finds) - set(c.known())
    if (new or broken or c.cov.get('undecided')) and not os.environ.get('COFFE_FORM'):
        o = other_form(pid)
        if o and o[0] == 0 and not o[1]['coverage'].get('undecided') and o[1]['coverage']['instances_decided'] >= 0.9 * c.obl:
            # the property was established on the other form of the same program
            o[1]['coverage']['form'] = 'the form with short loops written out (the plain form gave: %s)' % \
                str(sorted(new) or broken or c.cov['undecided'])[:400]
            o[1]['wall_s'] = round(time.time() - c.t0, 3)
            d = os.environ.get('COFFE_EVIDENCE') or os.path.join(ROOT, 'evidence')
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, pid + '.json'), 'w') as f:
                json.dump(o[1], f, indent=1)
            print(o[2], end='')
            sys.stdout.flush()
            sys.exit(0)
    if broken:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, broken))
        rc = 2
    else:
        rc = c.finish()
    sys.stdout.flush()
    sys.exit(rc)
