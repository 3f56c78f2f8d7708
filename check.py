#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Decide one property of /repo by symbolic execution: compile the code together with the harness that
states the property, lower it to LLVM IR, execute that IR with symbolic inputs and let the SMT solver
settle every branch and assertion.  Exit 0: holds within the bounds.  Exit 1: a counterexample that
the real code reproduces (VIOLATION line).  Anything else: no verdict."""
import fcntl, json, os, random, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.dont_write_bytecode = True
import props

BUILD = os.path.join(HERE, 'build')
MAX_SAMPLES = 120
OUTCOME = {0: 'passes', 10: 'assertion fails', 11: 'panics', 12: 'does not terminate', 77: 'input rejected'}

def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-3000:])
        print('NO VERDICT: %s failed' % os.path.basename(cmd[0]))
        sys.exit(3)

def build(group, run):
    """engine (once), IR and replay programs (always from the current tree), copied into `run`"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        sh([HERE + '/lib/build_engine.sh'])
        if group != 'lex':
            sh([HERE + '/lib/mk_ws.sh'])
        ir, rp = '%s/ir-%s' % (BUILD, group), '%s/replay-%s' % (BUILD, group)
        p = [subprocess.Popen([HERE + '/lib/build_ir.sh', ir, group], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True),
             subprocess.Popen([HERE + '/lib/build_replay.sh', rp, group], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)]
        outs = [x.communicate()[0] for x in p]
        for x, o in zip(p, outs):
            if x.returncode != 0:
                print(o[-3000:])
                print('NO VERDICT: the code under test or the harness does not build')
                sys.exit(3)
        shutil.rmtree(run, ignore_errors=True)
        os.makedirs(run)
        shutil.copy(ir + '/m.ll', run)
        for b in ('dev', 'plain'):
            shutil.copy(rp + '/' + b, run)

def native(run, which, entry, params, vals):
    f = os.path.join(run, 'in.txt')
    with open(f, 'w') as o:
        o.write(' '.join(map(str, params)) + '\n' + ' '.join(map(str, vals)) + '\n')
    try:
        return subprocess.run([run + '/' + which, entry, f], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60).returncode
    except subprocess.TimeoutExpired:
        return 12

def vary(run, l):
    rng = random.Random(1)
    for n in range(600):
        c, v = l[n % len(l)]
        vals = [48 + rng.randrange(10) if 48 <= x <= 57 and rng.random() < 0.8 else x for x in v['vals']]
        if vals == v['vals']:
            continue
        for which in ('dev', 'plain'):
            r = native(run, which, c['func'], c['params'], vals)
            if r in (10, 11, 12) or r < 0:
                return c, dict(v, vals=vals), which, r
    return None

def show(entry, params, vals):
    """the concrete input of a counterexample, readable"""
    at = props.TEMPLATE_AT.get(entry)
    if at is None:
        return 'inputs %s' % vals
    vals = list(vals)
    out = []
    for a in at(params):
        s = ''
        for p in params[a + 1:a + 1 + params[a]]:
            k = p & 0xffffffff
            if p >> 32 == 2:
                a = vals.pop(0) if vals else 0
                w = params[k + 1]
                s += ''.join(map(chr, params[k + 2 + a * w:k + 2 + (a + 1) * w]))
                continue
            c = p if p < 0x110000 else (vals.pop(0) if vals else params[k + 1] >> 32)
            s += chr(c) if not 0xd800 <= c < 0xe000 else '?'
        out.append(json.dumps(s))
    return 'text %s, choices %s' % (' '.join(out), vals)

def known(pid):
    """finding: property=<id> id=<assertion> case=<label> vals=<comma separated>  <description>"""
    out = []
    for l in open(os.path.join(HERE, 'known-findings.txt')):
        w = l.split()
        if len(w) > 4 and w[0] == 'finding:' and w[1] == 'property=' + pid:
            out.append((w[2][3:], w[3][5:], w[4][5:], ' '.join(w[5:])))
    return out

def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    P = props.PROPS[pid]
    run = os.path.join(BUILD, 'run-' + pid)
    ev = os.path.join(HERE, 'evidence', pid + '.json')
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    if os.path.exists(ev):
        os.remove(ev)
    build(P['group'], run)
    t_build = time.time() - t0
    cases = props.build(pid, tier)
    by_label = {l: (e, p) for l, e, p in cases}
    assert len(by_label) == len(cases), 'duplicate case labels'
    with open(run + '/cases', 'w') as f:
        for l, e, p in cases:
            f.write('case %s %s %s\n' % (l, e, ' '.join(map(str, p))))
    deadline = 560 if tier == 'quick' else 6600
    # a wrong tree is told apart from a right one by a handful of counterexamples
    subprocess.run([BUILD + '/engine/release/sx', run + '/m.ll', run + '/cases', run + '/out.json',
                    '--deadline', str(deadline), '--stop-after', '24'])
    try:
        d = json.load(open(run + '/out.json'))
    except (OSError, ValueError):
        print('NO VERDICT: the symbolic executor ended without a result')
        return 3
    # counterexamples against the real code
    bad, unreal, tried = [], [], {}
    for c in d['cases']:
        for v in c['violations']:
            k = (v['kind'], v['id'])
            tried.setdefault(k, []).append((c, v))
    for k, l in sorted(tried.items()):
        hit = None
        for c, v in l[:12]:
            for which in ('dev', 'plain'):
                r = native(run, which, c['func'], c['params'], v['vals'])
                if r in (10, 11, 12) or r < 0:
                    hit = (c, v, which, r)
                    break
            if hit:
                break
        # where a value is abstracted (decimal rounding), the solver's model need not be a case in which
        # the difference shows: try other digits in its place
        hit = hit or vary(run, l)
        if hit:
            bad.append(hit)
        else:
            unreal.append(l[0])
    # some of the completed paths, executed natively: the two must agree
    runs, disagree, shown = 0, [], []
    pool = [(c, s) for i in range(6) for c in d['cases'] for s in c['samples'][i:i + 1]]
    for n, (c, s) in enumerate(pool[:MAX_SAMPLES] if not bad else []):
        which = ('dev', 'plain')[n % 2]
        r = native(run, which, c['func'], c['params'], s)
        runs += 1
        if r != 0:
            disagree.append((c, {'kind': 'sample', 'id': 0, 'msg': 'a path that satisfies the property symbolically fails when run', 'vals': s, 'stack': []}, which, r))
        elif len(shown) < 12 and n % max(1, len(pool) // 12) == 0:
            shown.append('%s: %s' % (c['label'], show(c['func'], c['params'], s)))
    bad += [x for x in disagree if x[3] in (10, 11, 12) or x[3] < 0]
    errors = ['%s: %s' % (c['label'], e) for c in d['cases'] for e in c['errors'] if e != 'deadline']
    # cases the time limit cut short: what was explored counts, the evidence says what was not
    short = ['%s: %d paths explored before the time limit' % (c['label'], c['paths']) for c in d['cases'] if 'deadline' in c['errors']]
    if d['crashed']:
        errors.append('a worker of the symbolic executor crashed')
    if d['unknown']:
        errors.append('%d queries without an answer' % d['unknown'])
    errors += ['not reproduced by the real code: %s %s %s %s' % (v['kind'], v['id'], c['label'], show(c['func'], c['params'], v['vals'])) for c, v in unreal]
    errors += ['symbolic and native execution disagree: %s %s' % (c['label'], v['vals']) for c, v, _, r in disagree if r == 77]
    reach = 0
    for c in d['cases']:
        reach |= c['reach']
    if not bad and not errors:
        missing = [b for b in P['reach'] if not reach >> b & 1]
        if missing:
            errors.append('vacuous: situations never reached: %s' % missing)
        dead = [c['label'] for c in d['cases'] if c['paths'] == 0 and 'deadline' not in c['errors']]
        if dead:
            errors.append('cases without a completed path: %s' % dead[:5])
    # report
    finds = known(pid)
    reported = 0
    replays = os.path.join(BUILD, 'replays')
    for i, (c, v, which, r) in enumerate(bad):
        vals = ','.join(map(str, v['vals']))
        f = [x for x in finds if (x[0], x[1], x[2]) == (str(v['id']), c['label'], vals)]
        if f:
            print('KNOWN-FINDING: property=%s %s' % (pid, f[0][3]))
            continue
        os.makedirs(replays, exist_ok=True)
        path = os.path.join(replays, '%s-%s-%s-%d.txt' % (pid, v['kind'], v['id'], i))
        with open(path, 'w') as o:
            o.write(' '.join(map(str, c['params'])) + '\n' + ' '.join(map(str, v['vals'])) + '\n')
            o.write('# property %s, case %s: %s %s %s\n' % (pid, c['label'], v['kind'], v['id'], v['msg']))
            o.write('# %s\n# the %s build %s\n' % (show(c['func'], c['params'], v['vals']), which, OUTCOME.get(r, 'dies (%d)' % r)))
            o.write('# replay: lib/build_replay.sh build/replay-%s %s && build/replay-%s/%s %s <this file>\n' % (P['group'], P['group'], P['group'], which, c['func']))
        if reported < 5:
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  %s %s %s: %s (%s build %s)' % (v['kind'], v['id'], v['msg'][:100], show(c['func'], c['params'], v['vals']), which, OUTCOME.get(r, r)))
        reported += 1
    if short:
        print('INCOMPLETE: the time limit cut %d of %d cases short, e.g. %s' % (len(short), len(cases), short[0]))
    for e in errors[:8]:
        print('NOTE: ' + e[:600])
    own = [f for f in d['functions'] if any(m in f[0] for m in P['crates'])]
    tot = lambda k: sum(c[k] for c in d['cases'])
    cov = {
        'states': tot('paths') + tot('forks'),
        'transitions': tot('steps'),
        'traces_validated_against_impl': runs,
        'samples': shown or ['(see violations)'],
        'explanation': 'Bounded symbolic execution of the compiled code (LLVM IR of the harness and the crates under test, built from the current tree on this run); every branch and assertion over symbolic inputs is decided by z3 for all values in the bounds.',
        'cases': len(cases), 'paths': tot('paths'), 'forks': tot('forks'), 'instructions': tot('steps'),
        'assertions': tot('asserts'), 'assertions_by_solver': tot('asserts_solver'), 'assertions_constant_on_path': tot('asserts_folded'),
        'paths_outside_property': tot('outside'), 'paths_infeasible': tot('killed'),
        'queries': d['queries'], 'queries_sat': d['sat'], 'queries_unsat': d['unsat'], 'queries_unknown': d['unknown'],
        'interval_decisions': tot('unary'), 'linear_arithmetic_decisions': tot('linear'), 'interval_decisions_confirmed_by_solver': tot('unary_checked'), 'predicate_summaries': tot('summaries'),
        'solver': d['z3'], 'solver_s': d['solver_s'], 'solver_longest_query_s': d['solver_max_s'], 'build_s': round(t_build, 1), 'symbolic_s': d['wall_s'],
        'max_symbolic_inputs': max([c['max_inputs'] for c in d['cases']] or [0]), 'longest_path_instructions': max([c['longest_path'] for c in d['cases']] or [0]),
        'situations_reached': [b for b in range(64) if reach >> b & 1],
        'bounds': P['bounds'], 'outside_bounds': P['outside'],
        'case_list': ['%s: %d paths' % (c['label'], c['paths']) for c in d['cases']],
        'functions_encoded': len(d['functions']), 'ir_lines_encoded': sum(f[1] for f in d['functions']),
        'functions_under_test': sorted('%s (%d IR lines)' % (f[0], f[1]) for f in own),
        'complete': not d['cut'] and not errors and not short,
        'cases_cut_short': short,
    }
    with open(ev, 'w') as f:
        json.dump({'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking', 'coverage': cov,
                   'assumptions': props.ASSUMPTIONS + P.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': reported}, f, indent=1)
        f.write('\n')
    print('%s %s: %d cases, %d paths, %d assertions, %d queries, solver %.1f s, wall %.1f s, %d native runs' %
          (pid, tier, len(cases), tot('paths'), tot('asserts'), d['queries'], d['solver_s'], time.time() - t0, runs))
    shutil.rmtree(run, ignore_errors=True)
    if reported:
        return 1
    if errors:
        print('NO VERDICT')
        return 3
    return 0

if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc(file=sys.stdout)
        print('NO VERDICT: the check itself failed')
        rc = 3
    sys.exit(rc)
