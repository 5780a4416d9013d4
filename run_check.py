#!/usr/bin/env python3
"""Check one property: seeded search over simulated runs.

    run_check.py PROPERTY [--tier quick|thorough] [--seed N]
    run_check.py --replay FILE [--trace]

The simulated program is ipkg, as it stands in /repo (or $IPKG_SIM_REPO),
under Jython; see DESIGN.md.  Exit status: 0 the property held in everything
explored, 1 it did not (and a line VIOLATION says where the replay file is),
2 the check itself could not work.
"""
import argparse
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, 'sim')
REPO = os.environ.get('IPKG_SIM_REPO', '/repo')
PLANS = json.load(open(os.path.join(HERE, 'plans.json')))
WORKERS = int(os.environ.get('IPKG_SIM_WORKERS') or
              max(2, min(8, os.cpu_count() or 2)))


class Broken(Exception):
    """The check itself does not work."""


class Jython:
    """Starts simulator processes."""

    def __init__(self):
        self.scratch = tempfile.mkdtemp(prefix='ipkg-sim-')
        self.env = {
            'HOME': self.scratch, 'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8',
            'TZ': 'UTC', 'PATH': '/usr/bin:/bin:/usr/sbin:/sbin',
            'IPKG_SIM_REPO': REPO, 'PYTHONDONTWRITEBYTECODE': '1',
        }
        egg = os.path.join(self.scratch, 'egg')
        os.mkdir(egg)
        self.env['JYTHONPATH'] = ':'.join(
            (egg, REPO, '/opt/jy/shim', '/opt/jy/site'))
        proc = subprocess.run(
            self.command() +
            ['setup.py', '-q', 'egg_info', '--egg-base', egg], cwd=REPO,
            env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            timeout=300)
        if proc.returncode:
            raise Broken('cannot build: %s' % proc.stdout.decode()[-2000:])

    def command(self, long=False):
        # the second compiler only pays off in long runs
        return ['java', '-Xss4m', '-Xmx2200m', '-Xshare:auto',
                '-XX:+UseSerialGC', '-XX:CICompilerCount=2' if long else
                '-XX:TieredStopAtLevel=1', '-jar', '/usr/share/java/jython.jar',
                '-Dpython.home=/usr/share/jython',
                '-Dpython.executable=/usr/bin/jython',
                '-Dpython.cachedir.skip=true', '-B']

    def start(self, words, stderr, long=False):
        return subprocess.Popen(
            self.command(long) + [os.path.join(SIM, 'worker.py')] + words,
            cwd=self.scratch, env=self.env, stdin=subprocess.DEVNULL,
            stdout=stderr, stderr=stderr)

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def read_lines(path):
    if not os.path.exists(path):
        return []
    with open(path) as lines:
        return [json.loads(line) for line in lines if line.endswith('\n')]


def run_workers(jython, prop, seed, plan):
    """Returns (messages of each worker, problems)."""
    stop = os.path.join(jython.scratch, 'stop')
    started = time.time()
    first = seed * 1000003
    workers = []
    for number in range(WORKERS):
        job = {'property': prop, 'first': first + number,
               'last': first + plan['seeds'], 'stride': WORKERS,
               'variants': plan['variants'], 'seconds': plan['seconds'],
               'shrink': plan.get('shrink', 45), 'stop': stop,
               'known': known_findings(prop)}
        path = os.path.join(jython.scratch, 'job%d' % number)
        with open(path, 'w') as out:
            json.dump(job, out)
        log = open(path + '.log', 'w')
        workers.append((jython.start(['run', path + '.out', path], log,
                                     plan['seconds'] > 1000),
                        path))
    end = started + plan['seconds'] + 200
    problems = []
    for proc, path in workers:
        try:
            proc.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            problems.append('a worker does not end')
            proc.kill()
            proc.wait()
    outputs = []
    for proc, path in workers:
        lines = read_lines(path + '.out')
        outputs.append(lines)
        if proc.returncode or not [l for l in lines
                                   if l['kind'] == 'totals']:
            with open(path + '.log') as log:
                problems.append('worker: exit status %s\n%s' % (
                    proc.returncode, log.read()[-3000:]))
    return outputs, problems


def replay(jython, path, trace=False):
    out = os.path.join(jython.scratch, 'replay-%s' %
                       hashlib.md5(path.encode()).hexdigest())
    if os.path.exists(out):
        os.unlink(out)
    log = os.path.join(jython.scratch, 'replay.log')
    with open(log, 'w') as stream:
        proc = jython.start(['replay', out, path] +
                            (['--trace'] if trace else []), stream)
        proc.wait(timeout=400)
    if trace:
        with open(log) as stream:
            sys.stdout.write(stream.read())
    lines = read_lines(out)
    if not lines:
        with open(log) as stream:
            raise Broken('cannot replay: %s' % stream.read()[-3000:])
    return lines[-1]


def known_findings(prop):
    path = os.path.join(HERE, 'known_findings.json')
    with open(path) as stream:
        return [entry for entry in json.load(stream)['findings']
                if entry['property'] == prop]


def known_met(jython, prop):
    """Names of the known findings which are still there."""
    names = []
    for entry in known_findings(prop):
        line = replay(jython, os.path.join(HERE, entry['replay']))
        if line['klass'] == entry['klass'] and \
           re.search(entry['detail'], line['detail']):
            names.append(entry['name'])
    return names


def merge(outputs):
    total = {}
    for lines in outputs:
        for line in lines:
            if line['kind'] == 'totals':
                add(total, line['totals'])
    return total


def add(total, more):
    for key, value in more.items():
        if isinstance(value, dict):
            add(total.setdefault(key, {}), value)
        elif isinstance(value, list):
            total.setdefault(key, []).extend(value)
        else:
            total[key] = total.get(key, 0) + value


def check(prop, tier, seed):
    started = time.time()
    plan = dict(PLANS['default'][tier])
    plan.update(PLANS.get(prop, {}).get(tier, {}))
    print('property=%s tier=%s seed=%d: %d seeds x %d variants, %d workers'
          % (prop, tier, seed, plan['seeds'], plan['variants'], WORKERS))
    sys.stdout.flush()
    jython = Jython()
    try:
        outputs, problems = run_workers(jython, prop, seed, plan)
        total = merge(outputs)
        violations = []
        known = known_met(jython, prop)
        for lines in outputs:
            for line in lines:
                if line['kind'] == 'violation':
                    violations.append(line)
                elif line['kind'] == 'harness':
                    problems.append('seed %s: %s\n%s' % (
                        line['seed'], line['error'], line['trace']))
        violations.sort(key=lambda v: (v['seed'], v['klass']))
        confirmed = []
        seen = set()
        for violation in violations:
            if violation['klass'] in seen or len(confirmed) >= 3:
                continue
            path = save(prop, violation, known_findings(prop))
            again = replay(jython, path)
            if (again['klass'], again['digest']) != (violation['klass'],
                                                     violation['digest']):
                problems.append('%s is not reproducible: %s' % (path, again))
                continue
            seen.add(violation['klass'])
            confirmed.append((violation, path))
    finally:
        jython.close()
    wall = time.time() - started
    evidence(prop, tier, seed, plan, total, wall, confirmed, known)
    for name in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, name))
    for violation, path in confirmed:
        print('seed %s: %s: %s' % (violation['seed'], violation['klass'],
                                   violation['detail']))
        for line in violation['plan']['ops']:
            print('    %s' % json.dumps(line, sort_keys=True)[:300])
        print('VIOLATION property=%s replay=%s' % (prop, path))
    for problem in problems:
        print('HARNESS: %s' % problem)
    print('%d runs (%d with faults), %d processes, %d steps, %.0f s '
          'simulated, %d distinct; %.1f s'
          % (total.get('runs', 0), total.get('faulted', 0),
             total.get('processes', 0), total.get('steps', 0),
             total.get('simtime', 0), len(set(total.get('digests', ()))),
             wall))
    if confirmed:
        return 1
    if problems:
        return 2
    if total.get('seeds', 0) < plan['seeds'] / 5 or not total.get('faulted'):
        print('HARNESS: too little was explored')
        return 2
    return 0


def save(prop, violation, known):
    out = os.path.join(HERE, 'out')
    os.makedirs(out, exist_ok=True)
    name = '%s-%s-%s.json' % (prop, re.sub(r'\W+', '_', violation['klass']),
                              violation['seed'])
    path = os.path.join(out, name)
    plan = dict(violation['plan'])
    if known:
        plan['known'] = known
    plan['expected'] = {'klass': violation['klass'],
                        'detail': violation['detail'],
                        'digest': violation['digest']}
    with open(path, 'w') as stream:
        json.dump(plan, stream, indent=1, sort_keys=True)
        stream.write('\n')
    return path


def evidence(prop, tier, seed, plan, total, wall, confirmed, known):
    info = dict(PLANS['common'])
    info.update(PLANS['properties'][prop])
    runs = total.get('runs', 0)
    hours = wall / 3600
    statuses = total.get('statuses', {})
    digests = total.get('digests', [])
    data = {
        'property': prop, 'tier': tier, 'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': runs,
            'distinct_nontrivial': len(set(total.get('hit', ()))),
            'rule': 'one case is one simulated run: a generated world, a '
                    'history of commands, one command with faults or '
                    'preemptions placed in it, recovery commands. '
                    + info['rule'] + ' Non-trivial: at least one fault '
                    'fired or one preemption happened inside a command. '
                    'Distinct: by a hash of every step (system call, '
                    'result, fault) of the run.',
            'samples': total.get('samples', [])[:6] or ['none'],
            'distinct_runs': len(set(digests)),
            'runs_with_faults': total.get('faulted', 0),
            'seeds': total.get('seeds', 0),
            'first_seed': seed * 1000003,
            'variants_per_seed': plan['variants'],
            'runs_per_hour': round(runs / hours),
            'seeds_per_hour': round(total.get('seeds', 0) / hours),
            'simulated_seconds': round(total.get('simtime', 0), 1),
            'simulated_processes': total.get('processes', 0),
            'process_outcomes': statuses,
            'steps': total.get('steps', 0),
            'preemptions': total.get('switches', 0),
            'faults_fired': total.get('kinds', {}),
            'counters': total.get('stats', {}),
            'probes': total.get('probes', {}),
            'workers': WORKERS,
            'real_components': info['real'],
            'stub_components': info['stub'],
            'known_findings': dict((name, total.get('known', {}).get(
                name, 0)) for name in known),
        },
        'assumptions': info['assumptions'],
        'wall_s': round(wall, 1),
        'violations': len(confirmed),
    }
    path = os.path.join(HERE, 'evidence', prop + '.json')
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as stream:
        json.dump(data, stream, indent=1, sort_keys=True)
        stream.write('\n')


def main():
    parser = argparse.ArgumentParser(description=__doc__)
    parser.add_argument('property', nargs='?')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER')
                        or 'quick', choices=('quick', 'thorough'))
    parser.add_argument('--seed', type=int, default=int(
        os.environ.get('VERIF_SEED') or 1))
    parser.add_argument('--replay')
    parser.add_argument('--trace', action='store_true')
    args = parser.parse_args()
    try:
        if args.replay:
            jython = Jython()
            try:
                path = os.path.abspath(args.replay)
                with open(path) as stream:
                    plan = json.load(stream)
                again = replay(jython, path, args.trace)
            finally:
                jython.close()
            print('%s: %s' % (again['klass'], again['detail']))
            expected = plan.get('expected', {})
            print('digest %s (%s)' % (
                again['digest'], 'as recorded' if again['digest'] ==
                expected.get('digest') else 'not the one recorded'))
            if again['klass']:
                print('VIOLATION property=%s replay=%s' % (
                    plan['property'], path))
                return 1
            return 0
        if args.property not in PLANS['properties']:
            parser.error('no such property')
        return check(args.property, args.tier, args.seed)
    except (Broken, subprocess.SubprocessError, OSError) as exc:
        print('HARNESS: %s' % exc)
        return 2


if __name__ == '__main__':
    sys.exit(main())
