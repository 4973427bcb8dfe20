"""What the checks share."""
import datetime as _dt
import json
import random

from . import gen, model, oracle, prog
from .runner import Outcome

NOW = lambda: _dt.datetime.now(_dt.timezone.utc)      # noqa: E731
EASTERN = {'TZ': 'EST5EDT,M3.2.0,M11.1.0'}
INDIA = {'TZ': 'IST-5:30'}
SLOWBAR = {'PROGRESSBAR_DISABLE_FASTPATH': '1'}


def describe(e):
    return f"{type(e).__name__}: {str(e)[:200]}"


def op_name(op):
    return ' '.join(str(x) for x in (op[:1] + ([op[2]] if op[0] == 'add' else ([op[2]] if op[0] == 'set' else []))))


def features(pr):
    """coarse classes of a program, for the evidence"""
    out = []
    nlf = 0
    kinds = set()
    dts = set()
    lay = set()
    for op in pr['ops']:
        o = op[1] if op[0] == 'bad' else op
        if o[0] == 'lf':
            nlf += 1
        elif o[0] == 'add':
            kinds.add(o[2])
            if o[2] == 'channel' and o[4].get('cast_dtype'):
                out.append('cast')
            if o[4].get('set_name'):
                out.append('named set')
        elif o[0] in ('set', 'setattrs'):
            out.append('later assignment')
        elif o[0] in ('name', 'oref', 'nofmt', 'touch'):
            out.append({'name': 'rename', 'oref': 'origin change', 'nofmt': 'no-format data', 'touch': 'touch'}[o[0]])
        elif o[0] == 'write':
            w = o[1]
            d = w.get('data')
            out.append('data: ' + (d['kind'] if d else 'inline'))
            if w.get('from') is not None or w.get('to') is not None:
                out.append('window')
            if w.get('ichunk'):
                out.append('input chunks')
    for s in specs(pr):
        d = s['dtype']
        if d[:1] == '>':
            out.append('big-endian')
        if s.get('layout', 'C') != 'C':
            out.append('layout')
        if len(s['shape']) > 1:
            out.append('2-D')
    if nlf > 1:
        out.append(f'{min(nlf, 3)}{"+" if nlf >= 3 else ""} logical files')
    if pr.get('hc'):
        out.append('high compatibility')
    return sorted(set(out))


def specs(v):
    from .shrink import specs as s
    return s(v)


def execute(pr, work, keep_inputs=False, name='out.dlis'):
    """-> (Run, None) or (Run, Step)"""
    r = prog.Run(pr, work, name)
    r.keep_inputs = keep_inputs
    try:
        r.run()
    except prog.Step as e:
        return r, e
    return r, None


def refused(e):
    return f"a valid specification was refused: {op_name(e.op)}: {describe(e.exc)}"


class Check:
    """Programs from the generator, written and compared with the model; problems carrying this property's tag count."""
    id = None
    rule = ''
    assumptions = ['the reader, the model and the generator of /verif/vlib state the standard and the documented API correctly']
    profiles = {}          # name -> (cases quick, env, profile)
    factor = 12           # thorough: so many times the cases
    quick = 3              # multiplies the numbers of cases in `profiles`
    exceptions_count = False

    def cap(self, tier):
        return 150 if tier == 'quick' else 700

    def hard(self, tier):
        return 400 if tier == 'quick' else 840

    def setup(self, ctx):
        pass

    def shards(self, tier):
        out = []
        for name, (n, env, prof) in self.profiles.items():
            out.append({'name': name, 'n': n * (self.quick if tier == 'quick' else self.quick * self.factor), 'env': env, 'prof': prof})
        return out

    def case(self, seed, shard):
        if shard['name'] == 'odd':
            return self.odd_case(seed, shard)
        return {'prog': gen.case(seed, shard.get('prof'))}

    def odd_case(self, seed, shard):
        """a program with one or two of the invalidities of C12"""
        from checks import c12
        rnd = random.Random(seed + '/odd')
        pr = gen.case(seed, shard['prof'])
        for _ in range(rnd.choice((1, 1, 2))):
            pr = c12.inject(pr, rnd, [n for n in c12.WAYS if shard['prof'].get('rows') != (1, 2) or n not in c12.C12.DATA])
        return {'prog': pr, 'odd': 1}

    def mine(self, problems):
        return [p.msg for p in problems if self.id in p.tags]

    def run(self, case, ctx):
        if case.get('odd'):
            return self.decodable(case['prog'], ctx)
        return self.run_prog(case['prog'], ctx)

    def interesting(self, pr, m):
        """signature of a non-trivial case, or None"""
        return json.dumps(pr, sort_keys=True)

    def run_prog(self, pr, ctx, labels=()):
        labels = list(labels) + features(pr)
        r, e = execute(pr, ctx.dir)
        try:
            if e is not None:
                if self.exceptions_count:
                    return Outcome([refused(e)], 'refused', labels)
                return Outcome([], None, labels + ['refused: ' + type(e.exc).__name__])
            now = NOW()
            problems = []
            m = model.Model(pr).run(r.status)
            for opts, _, raw in r.writes[-1:]:
                problems += self.mine(self.compare(raw, m, opts, pr.get('hc'), now))
            return Outcome(problems, self.interesting(pr, m), labels)
        finally:
            r.cleanup()

    def decodable(self, pr, ctx):
        """a program of unknown validity: what is written has to decode, refusals are fine"""
        if not pr['ops'] or pr['ops'][-1][0] != 'write':
            return Outcome([], None, [])
        r, e = execute(pr, ctx.dir)
        try:
            if e is not None:
                return Outcome([], None, ['odd: refused'])
            f, ps = oracle.parse_problems(r.writes[-1][2])
            if f is not None:
                ps = list(ps) + list(oracle.structure(f))
            return Outcome(self.mine(ps), json.dumps(pr, sort_keys=True), ['odd: written'])
        finally:
            r.cleanup()

    def compare(self, raw, m, opts, hc=False, now=None):
        try:
            return oracle.compare(raw, m, opts, hc, now)
        except Exception as e:      # the decoded file confuses the oracle: it is certainly not what was specified
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            return [oracle.Problem(oracle.ALL, f"the file could not be compared with the specification: {describe(e)} at {tb.name}")]


FIXED_TIME = {'$dt': '2024-02-29T12:34:56.789000', 'tz': 0}


def fix_time(pr):
    """give every origin a creation time and a file set number (the defaults are the clock and a random number)"""
    for op in pr['ops']:
        op = op[1] if op[0] == 'bad' else op
        if op[0] == 'add' and op[2] == 'origin':
            if unset(op[4].get('creation_time')):
                op[4]['creation_time'] = FIXED_TIME
            if not pr.get('hc') and unset(op[4].get('file_set_number')):
                op[4]['file_set_number'] = 7
    return pr


def unset(v):
    if isinstance(v, dict):
        v = v.get('$setup', v.get('$dict', v))
        return 'value' not in v if v and all(k == 'units' for k in v) else not v
    return v is None
