"""Runs a range of seeds of one property, or one plan (under Jython)."""
import json
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('IPKG_SIM_REPO', '/repo')
sys.path.insert(0, REPO)

import seams  # noqa
seams.PASSTHROUGH.extend([REPO, HERE])
REAL_OPEN = open
seams.install()

os_getcwd = os.getcwd
os.getcwd = lambda: '/home/user'
import ipkg.cli  # noqa
os.getcwd = os_getcwd
import ipkg  # noqa
import scenario  # noqa
import driver  # noqa
import props  # noqa
import simos  # noqa


def emit(kind, **data):
    data['kind'] = kind
    OUT.write(json.dumps(data) + '\n')
    OUT.flush()


def main(argv):
    global OUT
    OUT = REAL_OPEN(argv[1], 'a') if argv[1] != '-' else sys.stderr.base
    if not os.path.abspath(ipkg.__file__).startswith(REPO + '/'):
        raise SystemExit('not the code under test: %s' % ipkg.__file__)
    if argv[0] == 'replay':
        return replay(argv[2], argv[3:])
    job = json.loads(REAL_OPEN(argv[2]).read())
    prop = props.PROPS[job['property']]()
    known = job.get('known') or ()
    deadline = time.time() + job['seconds']
    totals = driver.Totals()
    classes = {}
    done = 0
    for seed in range(job['first'], job['last'], job['stride']):
        if time.time() > deadline or stopped(job):
            break
        try:
            driver.explore(prop, seed, job['variants'], totals, deadline,
                           known)
        except driver.Found, found:
            violation = found.violation
            if job.get('stop'):
                REAL_OPEN(job['stop'], 'w').close()
            classes[violation.klass] = classes.get(violation.klass, 0) + 1
            if classes[violation.klass] == 1 and len(classes) <= 4:
                plan, smaller, tried = driver.minimise(
                    found.plan, violation, job.get('shrink', 40), known)
                again, digest = driver.execute(plan, known=known)
                emit('violation', seed=seed, klass=smaller.klass,
                     detail=smaller.detail, plan=plan, digest=digest,
                     shrinks=tried, original_ops=len(found.plan['ops']))
            if len(classes) >= 1 and not job.get('all'):
                done += 1
                break
        except BaseException, exc:
            emit('harness', seed=seed, error='%s: %s' % (
                type(exc).__name__, exc), trace=traceback.format_exc())
            break
        done += 1
    emit('totals', totals=totals.as_dict(), done=done, classes=classes,
         complete=not time.time() > deadline)


def stopped(job):
    return job.get('stop') and exists(job['stop'])


def exists(path):
    try:
        REAL_OPEN(path).close()
    except IOError:
        return False
    return True


def replay(path, flags):
    plan = json.loads(REAL_OPEN(path).read())
    trace = [] if '--trace' in flags else None
    violation, digest = driver.execute(plan, trace, plan.get('known') or ())
    if trace is not None:
        sys.stderr.base.write('\n'.join(trace) + '\n')
    emit('replay', klass=violation and violation.klass,
         detail=violation and violation.detail, digest=digest)


if __name__ == '__main__':
    main(sys.argv[1:])
