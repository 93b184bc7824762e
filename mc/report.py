"""Context of one check run: runs scenarios and case families, collects coverage, writes evidence and replays."""
import copy
import json
import os
import sys
import traceback

from mc import boot, explore, sched, seq

_rt = sched._real_monotonic


FINE = 280     # choice points (at the level of lines) up to which a scenario is also explored at the level of byte codes


class Ctx:
    def __init__(self, prop, tier, seed, replay=None):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.replay = replay
        self.t0 = _rt()
        self.parts = []
        self.viol = []          # (scenario, key, [texts])
        self.known_hit = []
        self.samples = []
        self.notes = []
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.replays = 0
        self.divergences = 0
        self.known = load_known(prop)
        self.only = None

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def _skip(self, name):
        return (self.only and self.only not in name) or (self.viol and not self.thorough)

    # -- schedules ------------------------------------------------------------------------------------------
    def explore(self, scn, quick=2, thorough=3, limit=None, stop_at=1, fine=True):
        """
        Explore scn at the level of source lines; then, if it is small enough, with a scheduling point before every byte code that touches
        something shared: bound 1, and 2 where an execution has few choice points.
        """
        r = self._explore(scn, self.pick(quick, thorough), limit, stop_at)
        if not fine or not scn.trace or scn.opcodes:
            return
        scn = copy.copy(scn)
        scn.name += ' (byte codes)'
        scn.opcodes = True
        scn.max_steps *= 4
        size = r.max_choice if r else 0
        if size <= self.pick(FINE, 4 * FINE):
            self._explore(scn, 2 if size <= self.pick(40, 120) else 1, limit, stop_at)

    def _explore(self, scn, bound, limit, stop_at):
        if self.replay is not None:
            if self.replay['scenario'] == scn.name:
                self._replay_schedule(scn)
            return
        if self._skip(scn.name) or bound is None:
            return
        limit = limit or self.pick(150, 3600)
        r = explore.explore(scn, bound=bound, time_limit=limit, stop_at=stop_at + len(self.known))
        if r.divergences:
            self.divergences += len(r.divergences)
            self.notes.append('%s: %d schedules could not be replayed deterministically: %s' %
                              (scn.name, len(r.divergences), r.divergences[:2]))
        d = r.as_dict()
        self.parts.append(d)
        self.states += r.nodes
        self.transitions += r.steps
        self.traces += r.schedules
        self.replays += r.replays
        if len(self.samples) < 6:
            obs = sorted(r.observations.items(), key=lambda x: len(x[1]))[-1:]
            for o, dev in obs:
                self.samples.append(dict(scenario=scn.name, deviations=[list(x) for x in dev], observed=o))
        for dev, texts in r.violations:
            self._violation(scn.name, 'schedule', [list(x) for x in dev], texts)
        self._log(d)
        return r

    def _replay_schedule(self, scn):
        dev = [tuple(x) for x in self.replay['key']]
        os.environ.setdefault('MC_DIR', '/tmp/mc-replay-%d' % os.getpid())
        os.makedirs(os.environ['MC_DIR'], exist_ok=True)
        res = explore.in_child(lambda: explore.execute(scn, dev, record=True))
        if res[0] == 'ok' and res[1]['kind'] == 'run':
            for i, who, where, nxt in res[1]['log'] or ():
                print('  choice %d: %s -> %s at %s' % (i, who, nxt, where))
            print('observed:', res[1]['obs'])
            texts = res[1]['viol']
        else:
            texts = ['%s: %s' % res[:2]]
        for t in texts:
            print('violated:', t)
        if texts:
            self.viol.append((scn.name, dev, texts))

    # -- cases ----------------------------------------------------------------------------------------------
    def cases(self, name, cases, fn, managed=True, batch=1, stop_at=3, limit=None, timeout=60):
        if self.replay is not None:
            if self.replay['scenario'] == name:
                case = self.replay['key']
                for c in cases:
                    if json.dumps(c, default=repr) == json.dumps(case, default=repr):
                        case = c
                        break
                os.environ.setdefault('MC_DIR', '/tmp/mc-replay-%d' % os.getpid())
                os.makedirs(os.environ['MC_DIR'], exist_ok=True)
                res = explore.in_child(lambda: seq.run_one(fn, case, managed), timeout)
                texts = res[1]['viol'] if res[0] == 'ok' else ['%s: %s' % res]
                for t in texts:
                    print('violated:', t)
                if texts:
                    self.viol.append((name, case, texts))
            return
        if self._skip(name):
            return
        limit = limit or self.pick(150, 3600)
        first = []

        def gen():
            for c in cases:
                if len(first) < 1:
                    first.append(c)
                yield c
        r = seq.enumerate_cases(name, gen(), fn, managed, batch, stop_at + len(self.known), limit, timeout=timeout)
        d = r.as_dict()
        self.parts.append(d)
        self.states += len(r.states)
        self.transitions += r.ops
        self.traces += r.cases
        if first and len(self.samples) < 12:
            self.samples.append(dict(family=name, case=jsonable(first[0])))
        for case, texts in r.violations:
            self._violation(name, 'case', case, texts)
        self._log(d)

    def _log(self, d):
        print(json.dumps(d), flush=True)

    def _violation(self, scenario, kind, key, texts):
        left = []
        for t in texts:
            for k in self.known:
                if k['scenario'] == scenario and k['text'] in t:
                    if k['id'] not in [x['id'] for x in self.known_hit]:
                        self.known_hit.append(k)
                    break
            else:
                left.append(t)
        if left:
            self.viol.append((scenario, jsonable(key), left))
            self.kind = kind

    # -- end ------------------------------------------------------------------------------------------------
    def finish(self, level='model_checking', assumptions=()):
        if self.replay is not None:
            print('reproduced' if self.viol else 'not reproduced')
            return 1 if self.viol else 0
        wall = _rt() - self.t0
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces,
                                exhaustive=all(p.get('complete', True) for p in self.parts),
                                schedules_replayed_for_determinism=self.replays, divergences=self.divergences,
                                parts=self.parts, samples=self.samples or [dict(note='nothing explored')], notes=self.notes),
                  assumptions=list(assumptions), wall_s=round(wall, 2), violations=len(self.viol))
        os.makedirs(os.path.join(boot.VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(boot.VERIF, 'evidence', self.prop + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(p + '.tmp', p)
        for n in self.notes:
            print('note:', n)
        for k in self.known_hit:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        if self.viol:
            for i, (scenario, key, texts) in enumerate(self.viol[:3]):
                rd = os.path.join(boot.VERIF, 'replays')
                os.makedirs(rd, exist_ok=True)
                path = os.path.join(rd, '%s-%d.json' % (self.prop, i))
                with open(path, 'w') as f:
                    json.dump(dict(property=self.prop, scenario=scenario, key=key, texts=texts,
                                   how='python3 /verif/run.py %s --replay %s' % (self.prop, path)), f, indent=1)
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
                print('  %s %s' % (scenario, json.dumps(key)))
                for t in texts[:3]:
                    print('    ' + str(t)[-900:].replace('\n', '\n    '))
            sys.stdout.flush()
            return 1
        if not self.traces:
            print('nothing was explored')
            return 2
        print('%s holds: %d executions, %d transitions, %.1f s' % (self.prop, self.traces, self.transitions, wall))
        return 0


def jsonable(x):
    try:
        return json.loads(json.dumps(x, default=repr))
    except Exception:
        return repr(x)


def load_known(prop):
    p = os.path.join(boot.VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):      # lines 'fixed: ...' suppress nothing
                d = json.loads(line)
                if d.get('status') == 'known' and d['property'] == prop:
                    out.append(d)
    return out


def main(argv):
    prop = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    only = None
    args = argv[2:]
    while args:
        a = args.pop(0)
        if a == '--tier':
            tier = args.pop(0)
        elif a == '--replay':
            replay = json.load(open(args.pop(0)))
        elif a == '--only':
            only = args.pop(0)
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = Ctx(prop, tier, seed, replay)
    ctx.only = only
    try:
        boot.load()
        mod = __import__('checks.' + prop.lower(), fromlist=['run'])
    except BaseException:    # the tree under test cannot even be imported
        traceback.print_exc()
        return 2
    mod.run(ctx)
    return ctx.finish(assumptions=getattr(mod, 'ASSUMPTIONS', BASE))


BASE = ['The interpreter executes one bytecode at a time (GIL); scheduling points are primitive operations and source '
        'lines (or opcodes where stated) of the traced files.',
        'Bounds: the deviation bound, the participants and the alphabets listed per part; nothing is claimed beyond them.',
        'Python 3.12 and the standard library behave as installed; clocks are virtual during managed executions.']
