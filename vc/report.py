"""Check runner: discharges every obligation generated from /repo's current source, replays counter-models on the
real code, runs the (labelled) bounded contract check, writes the evidence file and prints the verdict."""
import os, sys, json, time, traceback, multiprocessing as mp, signal
from . import core
from .core import explore, discharge, Unsupported, Ctx, PathEnd
import z3

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, 'evidence')


class Unit:
    """one function (or lemma) under contract.  run(ctx) executes the real source symbolically and emits obligations.
    functions: the qualified names whose bodies are executed.  exact: no loop invariant / callee contract stands
    between the inputs and the postcondition, so a refutation is definitive over the reals."""

    def __init__(self, name, run, functions=(), exact=True, budget=20, timeout=300, replay=None, lemma=False,
                 feas_timeout=3000, inv_decides=False):
        self.name, self.run, self.functions, self.exact = name, run, list(functions), exact
        self.budget, self.timeout, self.replay, self.lemma = budget, timeout, replay, lemma
        self.feas_timeout = feas_timeout
        self.inv_decides = inv_decides


def default_trust(prop):
    solvers = 'z3 / cvc5 / vc.cas (rational functions) / vc.core (uf, lin, ite)'
    if 'Interp' in vars(prop) and getattr(vars(prop)['Interp'], '__module__', '') == 'vc.cxx':
        return ['clang 18 front end (typed AST of the built source)', solvers, 'vc.cxx, vc.store: symbolic semantics of the C++ subset']
    return ['CPython ast module', solvers, 'vc.py, vc.pynp, vc.pytext: symbolic semantics of the Python subset and documented meaning of the library calls']


class _TO(Exception):
    pass


def _alarm(*a):
    raise _TO()


def run_unit(u, scale=1.0):
    t0 = time.time()
    res = dict(unit=u.name, functions=u.functions, exact=u.exact, obls=[], paths=0, error=None, wall=0.0,
               inlined=[], contracts=[], lemma=u.lemma)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(u.timeout * scale))
    try:
        deadline = t0 + u.timeout * scale
        u.info = {}
        obls, paths = explore(u.name, lambda ctx: u.run(ctx), deadline=deadline, feas_timeout=u.feas_timeout)
        res['paths'] = paths
        # identical obligations from re-executed prefixes are merged
        seen, uniq = set(), []
        for o in obls:
            k = (o.name, o.goal.get_id() if hasattr(o.goal, 'get_id') else str(o.goal), tuple(h.get_id() for h in o.hyps))
            if k not in seen:
                seen.add(k)
                uniq.append(o)
        post = [o for o in uniq if o.kind in ('post', 'inv', 'lemma')]
        if not uniq or not post:
            res['error'] = 'vacuous: no obligations were generated'
        else:
            reach = False
            for o in post[:12]:
                s = z3.Solver()
                s.set('timeout', 4000)
                fs, ex = core.sqrt_elim(o.hyps)
                for h in fs + ex:
                    s.add(h)
                if s.check() != z3.unsat:
                    reach = True
                    break
            if not reach:
                res['error'] = 'vacuous: the precondition admits no execution'
        for o in uniq:
            discharge(o, budget_ms=int(u.budget * 1000 * scale))
            d = dict(name=o.name, kind=o.kind, status=o.status, backend=o.backend, time=round(o.time, 3))
            if o.status == 'refuted':
                try:
                    d['model'] = {str(x): str(o.model[x]) for x in o.model.decls()[:200]} if o.model is not None else None
                except Exception:
                    d['model'] = None
                names = getattr(u, 'inputs', None)
                d['inputs'] = model_inputs(o, names)
            res['obls'].append(d)
        # digits of a flat index: where they do not come out within their extents the index is written in another way than digit by digit
        # (within the block or not is an obligation of its own), and what was read through them shows nothing
        if any(d['kind'] == 'digit' and d['status'] == 'refuted' for d in res['obls']):
            for d in res['obls']:
                if d['kind'] != 'safety' and d['status'] == 'refuted':
                    d['status'] = 'unknown'
    except Unsupported as e:
        res['error'] = 'outside the verified subset: ' + str(e)
    except _TO:
        res['error'] = 'time limit for the unit reached'
    except RecursionError:
        res['error'] = 'outside the verified subset: recursion limit'
    except PathEnd:
        res['error'] = 'vacuous: no path'
    except z3.Z3Exception as e:
        res['error'] = 'outside the verified subset: solver front end: ' + str(e)[:200]
    except Exception as e:
        res['error'] = 'generator error: ' + ''.join(traceback.format_exception(e))[-1800:]
    finally:
        signal.alarm(0)
    res['wall'] = round(time.time() - t0, 2)
    return res


def num(v):
    try:
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return v.numerator_as_long() / v.denominator_as_long()
        if z3.is_algebraic_value(v):
            a = v.approx(30)
            return a.numerator_as_long() / a.denominator_as_long()
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
    except Exception:
        pass
    return None


def model_inputs(o, names):
    """values of the unit's free inputs (constants without '!' in their name) in the counter-model"""
    if o.model is None:
        return {}
    out = {}
    for d in o.model.decls():
        if d.arity() == 0 and '!' not in d.name() and '#' not in d.name():
            v = o.model[d]
            n = num(v) if z3.is_expr(v) else None
            if n is not None:
                out[d.name()] = n
            elif z3.is_expr(v) and z3.is_array(v):
                out[d.name()] = arr_model(v)
        elif d.arity() > 0 and '!' not in d.name():
            fi = o.model[d]
            try:
                ent = {}
                for k in range(fi.num_entries()):
                    e = fi.entry(k)
                    ent[tuple(num(e.arg_value(j)) for j in range(e.num_args()))] = num(e.value())
                ent['else'] = num(fi.else_value())
                out[d.name()] = {str(a): b for a, b in ent.items()}
            except Exception:
                pass
    return out


def arr_model(v):
    ent = {}
    while z3.is_store(v):
        ks = v.children()[1:-1]
        ent.setdefault(str(tuple(num(k) for k in ks)), num(v.children()[-1]))
        v = v.arg(0)
    if z3.is_K(v):
        ent['else'] = num(v.arg(0))
    return ent


def _child(u, scale, conn):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    except Exception:
        pass
    try:
        r = run_unit(u, scale)
    except MemoryError:
        r = dict(unit=u.name, functions=u.functions, exact=u.exact, obls=[], paths=0, error='memory limit', wall=0.0)
    conn.send(r)
    conn.close()


def run_units(units, jobs=7, scale=1.0, total=None):
    t0 = time.time()
    ctx = mp.get_context('fork')
    pend, live, out = list(units), [], []
    while pend or live:
        late = total is not None and time.time() - t0 > total
        if late:
            out += [dict(unit=u.name, functions=u.functions, exact=u.exact, obls=[], paths=0, error='time limit of the check reached', wall=0.0) for u in pend]
            pend = []
        while pend and len(live) < jobs:
            u = pend.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(u, scale, b))
            p.start()
            b.close()
            live.append((u, p, a, time.time()))
        nxt = []
        for u, p, a, t in live:
            if a.poll(0.02):
                try:
                    out.append(a.recv())
                except EOFError:
                    out.append(dict(unit=u.name, functions=u.functions, exact=u.exact, obls=[], paths=0,
                                    error='worker ended', wall=round(time.time() - t, 2)))
                p.join()
            elif late or time.time() - t > u.timeout * scale + 60:
                p.kill()
                p.join()
                out.append(dict(unit=u.name, functions=u.functions, exact=u.exact, obls=[], paths=0,
                                error='time limit for the unit reached', wall=round(time.time() - t, 2)))
            elif not p.is_alive() and not a.poll(0.2):
                out.append(dict(unit=u.name, functions=u.functions, exact=u.exact, obls=[], paths=0,
                                error='worker ended', wall=round(time.time() - t, 2)))
            else:
                nxt.append((u, p, a, t))
        live = nxt
    order = {u.name: i for i, u in enumerate(units)}
    return sorted(out, key=lambda r: order[r['unit']])


def known_findings(pid):
    p = os.path.join(ROOT, 'known_findings.txt')
    out = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: ') and 'property=%s ' % pid in l:
                key = l.split('key=')[1].split()[0]
                out[key] = l.split('key=%s' % key)[1].strip()
    return out


class Bounded:
    """collects the outcome of the concrete contract check"""

    def __init__(self, tier, seed, t_limit, hints=None):
        self.tier, self.seed, self.deadline = tier, seed, time.time() + t_limit
        self.evals, self.distinct, self.samples, self.fail = 0, set(), [], []
        self.hints = hints or []
        self.notes = []
        self.tiny = False

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def time_left(self):
        return self.deadline - time.time()

    def ok(self, key=None, sample=None):
        self.evals += 1
        if key is not None and len(self.distinct) < 200000:
            self.distinct.add(key)
        if sample is not None and len(self.samples) < 5:
            self.samples.append(sample)

    def bad(self, what, inp, key='new'):
        self.fail.append(dict(what=what, input=inp, key=key))


def main(prop, argv=None):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    for a in (argv if argv is not None else sys.argv[1:]):
        if a in ('quick', 'thorough'):
            tier = a
    seed = int(os.environ.get('VERIF_SEED', '1'))
    pid = prop.ID
    os.makedirs(EVID, exist_ok=True)
    lim = getattr(prop, 'LIMITS', {}).get(tier, 40 if tier == 'quick' else 400)
    crash = None
    results = []
    try:
        units = prop.units(tier)
    except Unsupported as e:
        units = []
        crash = 'outside the verified subset: ' + str(e)
    except Exception as e:
        units = []
        crash = 'generator error: ' + ''.join(traceback.format_exception(e))[-1500:]
    if units:
        results = run_units(units, scale=1.0 if tier == 'quick' else 2.0, total=600 if tier == 'quick' else None)
    hints = []
    refuted, undecided = [], []
    nob = ndis = 0
    for r in results:
        if r['error']:
            undecided.append((r['unit'], r['error']))
        for o in r['obls']:
            nob += 1
            if o['status'] == 'proved':
                ndis += 1
            elif o['status'] == 'refuted':
                refuted.append((r, o))
                hints.append(dict(unit=r['unit'], obligation=o['name'], inputs=o.get('inputs') or {}))
            else:
                undecided.append((r['unit'], 'undecided obligation: ' + o['name']))
    if crash:
        undecided.append(('-', crash))
    b = Bounded(tier, seed, lim, hints)
    berr = None
    try:
        prop.bounded(b)
    except Exception as e:
        berr = ''.join(traceback.format_exception(e))[-3000:]
    # a concrete run that cannot even be built or executed any more
    known = known_findings(pid)
    seen_known, new = {}, []
    for f in b.fail:
        if f['key'] in known:
            seen_known[f['key']] = f
        else:
            new.append(f)
    # a refuted obligation is reported; obligations that are merely undecided (time, source outside the subset) are not
    hard = list(refuted)
    verdict, lines = 0, []
    rp = os.path.join(EVID, '%s.replay.json' % pid)
    viol = []
    for k, f in seen_known.items():
        lines.append('KNOWN-FINDING: property=%s %s' % (pid, known[k]))
    kr = getattr(prop, 'KNOWN_OBLIGATIONS', {})
    hard = [(r, o) for r, o in hard if not any(o['name'].startswith(k) and r['unit'] == u2 for (u2, k) in kr)]
    if new:
        verdict = 1
        json.dump(dict(property=pid, kind='failing input on the real code', failures=new[:10],
                       failed_obligations=[dict(unit=r['unit'], **o) for r, o in refuted][:20], undecided=undecided[:20],
                       how='PYTHONPATH=%s /opt/venv/bin/python -m props.%s quick' % (ROOT, pid)),
                  open(rp, 'w'), indent=1, default=str)
        lines.append('VIOLATION property=%s replay=%s' % (pid, rp))
        viol = [f['what'] for f in new[:10]]
    elif hard:
        verdict = 1
        json.dump(dict(property=pid, kind='failed obligation, no failing input found',
                       failed_obligations=[dict(unit=r['unit'], **o) for r, o in hard][:20], undecided=undecided[:20]),
                  open(rp, 'w'), indent=1, default=str)
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
        viol = ['%s: %s' % (r['unit'], o['name']) for r, o in hard[:10]]
    proved_units = [r for r in results if not r['error'] and r['obls'] and all(o['status'] == 'proved' for o in r['obls'])]
    full = bool(results) and len(proved_units) == len(results)
    backends = {}
    stime = 0.0
    for r in results:
        for o in r['obls']:
            stime += o['time']
            if o['status'] == 'proved':
                backends[o['backend']] = backends.get(o['backend'], 0) + 1
    fun_proved = sorted({f for r in proved_units for f in r['functions']} -
                        {f for r in results if r not in proved_units for f in r['functions']})
    fun_not = sorted({f for r in results if r not in proved_units for f in r['functions']})
    level = 'proof' if full and not getattr(prop, 'PARTIAL', None) else 'exploration'
    level = getattr(prop, 'LEVEL', level) if full else 'exploration'
    ev = dict(property=pid, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level=level,
              coverage=dict(
                  obligations=nob, discharged=ndis,
                  checker_cmd='/opt/venv/bin/python -m props.%s %s' % (pid, tier),
                  trusted_base=list(getattr(prop, 'TRUSTED', [])) or default_trust(prop),
                  functions_under_contract=fun_proved, functions_not_proved=fun_not,
                  backends=backends, solver_seconds=round(stime, 1),
                  units=[dict(unit=r['unit'], obligations=len(r['obls']),
                              discharged=sum(o['status'] == 'proved' for o in r['obls']), paths=r['paths'],
                              wall_s=r['wall'], error=r['error']) for r in results],
                  undecided=[list(x) for x in undecided[:30]],
                  evaluations=b.evals, distinct_nontrivial=len(b.distinct),
                  rule=getattr(prop, 'BOUNDED_RULE', 'bounded contract check of the real code on generated inputs'),
                  bounded_only=list(getattr(prop, 'BOUNDED_ONLY', [])),
                  samples=b.samples),
              assumptions=list(getattr(prop, 'ASSUMPTIONS', [])),
              violations=viol, wall_s=round(time.time() - t0, 2))
    if berr:
        ev['coverage']['bounded_error'] = berr
    if hasattr(prop, 'evidence_extra'):
        prop.evidence_extra(ev)
    json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1, default=str)
    print('%s %s: %d obligations, %d discharged (%s), %d units proved of %d, bounded evaluations %d (%d distinct), %.1f s'
          % (pid, tier, nob, ndis, ', '.join('%s %d' % kv for kv in sorted(backends.items())), len(proved_units),
             len(results), b.evals, len(b.distinct), time.time() - t0))
    for u, e in undecided[:12]:
        print('  undecided %s: %s' % (u, e.split('\n')[-2] if e.startswith('generator') and '\n' in e else e[:300]))
    for r, o in refuted[:8]:
        print('  refuted %s: %s %s' % (r['unit'], o['name'], str(o.get('inputs'))[:300]))
    for n in b.notes[:8]:
        print('  note ' + n)
    if berr:
        print('  bounded check error: ' + berr)
        if getattr(prop, 'strict_bounded', False):
            pass
    for f in new[:5]:
        print('  failing input: %s %s' % (f['what'], str(f['input'])[:600]))
    for l in lines:
        print(l)
    sys.stdout.flush()
    return verdict
