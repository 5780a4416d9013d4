"""Search: from a seed to plans, their execution, and their minimisation."""
import json
import rand
import re
import time as _time

import scenario
import simos
import world as W

CLOCK = _time.time


byteify = W.byteify


def copy(obj):
    return byteify(json.loads(json.dumps(obj)))


class Totals(object):
    """What a batch of runs covered."""

    def __init__(self):
        self.runs = 0
        self.faulted = 0
        self.processes = 0
        self.steps = 0
        self.simtime = 0.0
        self.stats = {}
        self.digests = set()
        self.hit = set()
        self.switches = 0
        self.statuses = {}
        self.kinds = {}
        self.samples = []
        self.seeds = 0
        self.probes = {}
        self.known = {}

    def run(self, machine, base, faulted):
        """Account for one run: from ``base`` (counters before) on."""
        self.runs += 1
        if faulted:
            self.faulted += 1
            self.hit.add(machine.digest[:16])
        self.steps += machine.steps - base[0]
        self.simtime += machine.simtime - base[1]
        for name, value in machine.stats.items():
            more = value - base[2].get(name, 0)
            if more:
                self.stats[name] = self.stats.get(name, 0) + more
        self.digests.add(machine.digest[:16])

    def result(self, result):
        self.processes += 1
        self.statuses[result.status] = self.statuses.get(result.status, 0) + 1
        self.switches += getattr(result, 'switches', 0)
        for fired in result.fired:
            self.kinds[fired] = self.kinds.get(fired, 0) + 1

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def as_dict(self):
        return {'runs': self.runs, 'faulted': self.faulted,
                'processes': self.processes, 'steps': self.steps,
                'simtime': self.simtime, 'stats': self.stats,
                'digests': sorted(self.digests), 'hit': sorted(self.hit),
                'switches': self.switches,
                'statuses': self.statuses, 'kinds': self.kinds,
                'samples': self.samples[:2], 'seeds': self.seeds,
                'probes': self.probes, 'known': self.known}


def counters(machine):
    return machine.steps, machine.simtime, dict(machine.stats)


def known_name(known, violation):
    for entry in known:
        if entry['klass'] == violation.klass and \
                re.search(entry['detail'], violation.detail):
            return entry['name']


class Found(Exception):
    def __init__(self, plan, violation):
        self.plan = plan
        self.violation = violation


def explore(prop, seed, variants, totals, deadline=None, known=()):
    """All the runs of one seed. Raises Found.

    ``known``: the findings which are not to be reported again.
    """
    rng = rand.Random(prop.id, seed)
    world = copy(prop.world(rng))
    state = scenario.build(world, seed)
    plan = {'property': prop.id, 'seed': seed, 'world': world, 'ops': []}
    totals.seeds += 1

    def do(state, op, ops):
        op = copy(op)
        ops.append(copy(op))
        result, found = scenario.step(state, op)
        totals.result(result)
        for violation in found:
            if violation.prop == prop.id:
                name = known_name(known, violation)
                if name is not None:
                    totals.known[name] = totals.known.get(name, 0) + 1
                    continue
                raise Found(dict(plan, ops=ops), violation)
        return result

    begin = counters(state.machine)
    ops = []
    for op in prop.history(rng, state):
        do(state, op, ops)
    target = prop.target(rng, state)
    base = state
    if target is None:
        totals.run(state.machine, begin, False)
        return
    target = copy(target)

    # without faults
    state = base.clone()
    tail = list(ops)
    dry = do(state, target, tail)
    for op in prop.after(rng, state, target, dry):
        do(state, op, tail)
    totals.run(state.machine, begin, False)
    start = counters(base.machine)
    for number in range(variants):
        if deadline is not None and CLOCK() > deadline:
            return
        rng = rand.Random(prop.id, seed, number)
        state = base.clone()
        tail = list(ops)
        before = getattr(prop, 'before', None)
        if before is not None:
            for op in before(rng, state, target, dry):
                do(state, op, tail)
        op = prop.inject(rng, copy(target), dry, number)
        result = do(state, op, tail)
        for op in prop.after(rng, state, target, result):
            do(state, op, tail)
        fired = len(result.fired) or result.switches or \
            [o for o in tail[len(ops):] if o['do'] == 'tamper']
        totals.run(state.machine, start, bool(fired))
        if len(totals.samples) < 2 and result.fired and number > 1:
            totals.samples.append({
                'seed': seed, 'variant': number,
                'operations': [brief(o) for o in tail],
                'fired': result.fired, 'outcome': result.brief()[:120]})


def brief(op):
    op = dict(op)
    for key in ('acts', 'parts'):
        if key in op:
            op[key] = [brief(o) for o in op[key]]
    return dict((k, v) for k, v in op.items() if v not in (None, '', []))


def execute(plan, trace=None, known=()):
    """Execute a plan; returns (violation or None, digest)."""
    plan = copy(plan)
    state = scenario.build(plan['world'], plan['seed'])
    if trace is not None:
        state.machine.traces = trace
    for op in plan['ops']:
        shown = json.dumps(brief(op), sort_keys=True)
        result, found = scenario.step(state, op)
        if trace is not None:
            state.machine.traces.append('### %s -> %s' % (
                shown, result.brief()))
        for violation in found:
            if violation.prop == plan['property'] and \
               known_name(known, violation) is None:
                return violation, state.machine.digest
    return None, state.machine.digest


# -- minimisation

def shrinks(plan):
    """Plans a little simpler than this one."""
    ops = plan['ops']
    for i in range(len(ops) - 1, -1, -1):
        if len(ops) > 1:
            yield dict(plan, ops=ops[:i] + ops[i + 1:])
    for i, op in enumerate(ops):
        def with_op(new):
            return dict(plan, ops=ops[:i] + [new] + ops[i + 1:])
        for key in ('faults', 'acts', 'parts', 'lines'):
            items = op.get(key)
            if items:
                for j in range(len(items)):
                    if key == 'parts' and len(items) == 1:
                        continue
                    yield with_op(dict(op, **{key: items[:j] +
                                              items[j + 1:]}))
        for key in ('fates', 'net', 'power'):
            if op.get(key):
                yield with_op(dict((k, v) for k, v in op.items()
                                   if k != key))
        script = (op.get('net') or {}).get('script') or {}
        if len(script) > 1:
            for key in script:
                yield with_op(dict(op, net=dict(op['net'], script=dict(
                    (k, v) for k, v in script.items() if k != key))))
        schedule = op.get('schedule') or {}
        keys = sorted(schedule, key=int)
        size = len(keys)
        while size:
            for j in range(0, len(keys), size):
                drop = set(keys[j:j + size])
                yield with_op(dict(op, schedule=dict(
                    (k, v) for k, v in schedule.items() if k not in drop)))
            size //= 2
        for fault_index, fault in enumerate(op.get('faults') or ()):
            if fault.get('part'):
                new = list(op['faults'])
                new[fault_index] = dict(fault, part=0)
                yield with_op(dict(op, faults=new))
        if op.get('via') == 'cli':
            yield with_op(dict(op, via='api'))
    world = plan['world']

    def with_world(**kw):
        return dict(plan, world=dict(world, **kw))
    universe = world.get('universe') or {}
    for pid in sorted(universe):
        yield with_world(
            universe=dict((k, v) for k, v in universe.items() if k != pid),
            repos=dict((b, [p for p in pids if p != pid])
                       for b, pids in world['repos'].items()),
            paths=dict((k, v) for k, v in world['paths'].items()
                       if v != pid))
    for key, simple in (('clock_jump', 0), ('collide', 0), ('uid', 0),
                        ('shuffle', False), ('bufsize', 65536), ('spelling', None)):
        if world['config'].get(key) != simple:
            yield with_world(config=dict(world['config'], **{key: simple}))
    for prefix, entries in (world.get('user') or {}).items():
        if entries:
            yield with_world(user=dict(world['user'], **{prefix: []}))
    formulas = world.get('formulas') or {}
    for fid in sorted(formulas):
        yield with_world(formulas=dict((k, v) for k, v in formulas.items()
                                       if k != fid))
    for pid, spec in sorted(universe.items()):
        if len(spec['files']) > 1:
            linked = set(e['to'] for e in spec['files'] if e['kind'] == 'h')
            for entry in spec['files']:
                if entry['path'] in linked:
                    continue
                files = [e for e in spec['files'] if e is not entry]
                yield with_world(universe=dict(
                    universe, **{pid: dict(spec, files=files)}))
        if spec['dependencies']:
            yield with_world(universe=dict(
                universe, **{pid: dict(spec, dependencies=[])}))


def minimise(plan, violation, seconds=40, known=()):
    """The simplest plan found which fails the same way."""
    end = CLOCK() + seconds
    tried = 0
    progress = True
    while progress and CLOCK() < end:
        progress = False
        for candidate in shrinks(plan):
            if CLOCK() > end:
                break
            tried += 1
            try:
                found, _ = execute(candidate, known=known)
            except simos.HarnessError:
                raise
            except Exception:
                # not a plan
                continue
            if found is not None and found.klass == violation.klass:
                plan, violation = candidate, found
                progress = True
                break
    return plan, violation, tried
