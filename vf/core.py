''' Core of the property-based checking framework: subchecks, cases, violations, CPU budgets. '''
import hashlib
import json
import os
import signal
import sys
import traceback

REPO = os.environ.get('VF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    ''' The property is broken on this case. '''


class HarnessError(Exception):
    ''' The machinery itself is broken. '''


class CpuBudget(BaseException):
    ''' The case used up its CPU budget (a BaseException so that code under test cannot swallow it). '''


class Ctx:
    ''' What a check reports about one case. '''

    def __init__(self):
        self.labels = {}
        self.key = None
        self.is_nontrivial = False

    def label(self, *names):
        for name in names:
            name = str(name)
            self.labels[name] = self.labels.get(name, 0) + 1

    def nontrivial(self, flag=True):
        if flag:
            self.is_nontrivial = True

    def require(self, cond, msg='', **info):
        if not cond:
            raise Violation(msg + (' ' + ' '.join(f'{k}={_short(v)}' for k, v in info.items()) if info else ''))

    def equal(self, a, b, msg=''):
        if not (a == b):
            raise Violation(f'{msg}: {_short(a)} != {_short(b)}')

    def raises(self, exceptions, f, msg=''):
        try:
            r = f()
        except exceptions:
            return
        except Exception as e:  # pylint: disable=broad-except
            raise Violation(f'{msg}: raised {type(e).__name__}({_short(e)}) instead of {exceptions}') from None
        raise Violation(f'{msg}: returned {_short(r)} instead of raising')


def _short(v):
    s = repr(v) if not isinstance(v, str) else v
    return s if len(s) < 400 else s[:380] + '...'


class Sub:
    def __init__(self, name, strategy, check, quick, thorough, budget=30, rule=''):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough, self.budget, self.rule = quick, thorough, budget, rule or (check.__doc__ or '').strip()


class Property:
    def __init__(self, pid, assumptions=()):
        self.pid = pid
        self.subs = {}
        self.assumptions = list(assumptions)

    def sub(self, strategy, quick, thorough=None, budget=60, rule=''):
        ''' quick: how many cases to generate on a quick run; budget: CPU seconds after which a single case counts as not terminating. '''
        def deco(f):
            assert f.__name__ not in self.subs
            self.subs[f.__name__] = Sub(f.__name__, strategy, f, quick, thorough or 20 * quick, budget, rule)
            return f
        return deco


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


def case_hash(name, case):
    return hashlib.sha256((name + '|' + canon(case)).encode()).hexdigest()[:16]


def _on_alarm(signum, frame):
    raise CpuBudget()


def classify(exc):
    ''' Checks never raise on correct code, so every exception means that the code under test misbehaved or handed back something that
    the reference models choke on.  Only HarnessError says otherwise. '''
    return 'harness' if isinstance(exc, HarnessError) else 'violation'


def run_case(sub, case):
    ''' Run one case; return (status, message, ctx), status in ok | violation | harness. '''
    ctx = Ctx()
    old = signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, sub.budget)
    try:
        sub.check(case, ctx)
        return 'ok', '', ctx
    except Violation as e:
        return 'violation', str(e), ctx
    except CpuBudget:
        return 'violation', f'no answer within {sub.budget} s of CPU time', ctx
    except HarnessError as e:
        return 'harness', ''.join(traceback.format_exception(e)), ctx
    except MemoryError:
        return 'violation', 'ran out of memory', ctx
    except Exception as e:  # pylint: disable=broad-except
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if classify(e) == 'violation':
            tb = traceback.extract_tb(e.__traceback__)
            where = '; '.join(f'{os.path.basename(f.filename)}:{f.lineno}:{f.name}' for f in tb[-4:])
            return 'violation', f'unexpected {type(e).__name__}: {_short(str(e))} [{where}]', ctx
        return 'harness', ''.join(traceback.format_exception(e)), ctx
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def import_curver():
    ''' Import curver from the working tree, compiled from source and not from any stale bytecode. '''
    sys.path.insert(0, VERIF)
    import numpy, networkx, sympy, realalg, decorator, pickle, hypothesis  # noqa: F401 pylint: disable=all
    import functools
    import inspect
    if not hasattr(inspect.getfullargspec, 'cache_info'):
        inspect.getfullargspec = functools.lru_cache(maxsize=None)(inspect.getfullargspec)  # Only for speed: decorators.memoize inspects its function on every call.
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join('/nonexistent', 'vf-pycache')
    repo = os.path.realpath(REPO)
    sys.path.insert(0, repo)
    import curver
    if not os.path.realpath(curver.__file__).startswith(repo + os.sep):
        raise HarnessError(f'curver imported from {curver.__file__} rather than {repo}')
    return curver
