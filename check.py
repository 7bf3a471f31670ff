#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's current working tree.
exit 0: held on everything decided; exit 1: VIOLATION line; anything else: no verdict."""
import json, os, re, shutil, sys, tempfile, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import config
from conc import gen
from kani_engine import Kani

TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
LIMIT = {'quick': 820, 'thorough': 6 * 3600}[TIER]
HARNESS_TIMEOUT = {'quick': 300, 'thorough': 2400}[TIER]


class Outcome:
    def __init__(self, prop):
        self.prop = prop
        self.violations = []      # (what, replay path)
        self.undecided = []       # harness or scenario names
        self.errors = []          # things that make the run worthless
        self.decided = 0
        self.core_total = self.core_decided = 0
        self.functions = {}
        self.queries = 0          # questions put to the solver
        self.obligations = 0      # assertions decided by them
        self.solver_s = 0.0
        self.details = []
        self.assumptions = []
        self.samples = []


def repo_function(name):
    name = re.sub(r'::<[^<>]*(<[^<>]*>[^<>]*)*>', '', name)
    return name


def kani_part(prop, out, scratch, deadline):
    mod, hooks = config.KANI[prop]
    generated = prop in config.GENERATED
    crate = {}
    if generated:
        crate['crate'] = os.path.join(scratch, 'crate')
        gen.generate(crate['crate'])
    k = Kani(prop, mod, hooks, scratch, deadline, solver=config.SOLVER.get(prop), **crate)
    filters = [mod + 'q_'] + ([mod + 't_'] if TIER == 'thorough' else [])
    data, text = k.verify(filters, HARNESS_TIMEOUT)
    if data is None and prop in config.OPTIONAL_HOOKS and k.left() > 400:
        # the rest of the property can be decided without these
        hooks = [h for h in hooks if h not in config.OPTIONAL_HOOKS[prop]]
        k.hooks = hooks
        out.assumptions.append('The hook %s does not compile: what needs it was left out.' % config.OPTIONAL_HOOKS[prop])
        data, text = k.verify(filters, HARNESS_TIMEOUT)
    if data is None:
        out.errors.append('Kani did not run:\n' + text[-4000:])
        return
    stats = {c['harness_id']: c.get('cbmc_stats') or {} for c in data['cbmc']}
    todo = []
    for r in data['verification_results']['results']:
        todo.append((r, None))
    if not todo:
        out.errors.append('no harness was found:\n' + text[-3000:])
        return
    # A loop that runs longer than the bound of its harness, or a harness that ran out of time: try again, together.
    unwinds = {}
    results = [r for r, _ in todo]
    for factor in (2, 6):
        again = [r for r in results if (mod + 'q_') in r['harness_id'].split('::')[-1] and k.classify(r)[0] in ('unwind', 'undecided')]
        if not again or k.left() < 90:
            break
        groups = {}
        for r in again:
            own = config_unwind(mod, r['harness_id'].split('::')[-1])
            u = None if k.classify(r)[0] == 'undecided' or not own else min(200, own * factor)
            groups.setdefault(u, []).append(r['harness_id'])
        for u, names in sorted(groups.items(), key=lambda x: x[0] or 0):
            if k.left() < 90:
                break
            limit = min(HARNESS_TIMEOUT, max(60, int(k.left() / (1 if factor == 6 else 2) - 30)))
            d2, _t = k.verify(names, limit, ['--unwind', str(u)] if u else [], exact=True)
            for r2 in (d2['verification_results']['results'] if d2 else []):
                if k.classify(r2)[0] != 'undecided':
                    results = [r2 if r['harness_id'] == r2['harness_id'] else r for r in results]
                    unwinds[r2['harness_id']] = u
            if d2:
                stats.update({c['harness_id']: c.get('cbmc_stats') or {} for c in d2['cbmc']})
    # the cheapest first, as finding the values of a counterexample takes about as long again
    for r in sorted(results, key=lambda r: r['duration_ms']):
        full, name = r['harness_id'], r['harness_id'].split('::')[-1]
        core = (mod + 'q_') in name
        kind, failed = k.classify(r)
        unwind = unwinds.get(full)
        st = stats.get(full, {})
        out.queries += 1
        out.obligations += int(st.get('vccs_generated') or 0)
        out.solver_s += float(st.get('runtime_decision_procedure_s') or 0)
        for c in r['checks']:
            f = (c.get('location') or {}).get('file') or ''
            if f.startswith('/repo/') or c['function'].startswith('rustyalgebra') or '<rustyalgebra' in c['function'] \
                    or generated and re.match(r'src/(?!c31|nd|vmodel|replay)', f):
                out.functions.setdefault(repo_function(c['function']), set()).add(name)
        out.details.append({'harness': name, 'verdict': kind, 'seconds': round(r['duration_ms'] / 1000, 1),
                            'vccs': st.get('vccs_generated'), 'vccs_after_simplification': st.get('vccs_remaining'),
                            'solver_s': st.get('runtime_decision_procedure_s'),
                            'unwind': unwind or config_unwind(mod, name)})
        if core:
            out.core_total += 1
        if kind == 'pass':
            out.decided += 1
            out.core_decided += core
            continue
        if kind == 'vacuous':
            out.errors.append('harness %s is vacuous' % name)
            continue
        if kind == 'undecided':
            out.undecided.append(name)
            continue
        print('%s: %s: %s' % (prop, name, '; '.join(sorted({c['description'] for c in failed})) or kind), flush=True)
        if len(out.violations) >= (2 if k.left() > 500 else 1):
            continue          # enough to report; this one is in the evidence file
        hang = kind == 'unwind'
        done = False
        # The solver has decided. Its trace of a long run can take many times longer to write out than the verdict took, so for
        # those the failing input is looked for among the small ones first, and in any case if there is no trace.
        tries = (('small', 'trace') if r['duration_ms'] > 100000 else ('trace', 'small')) if not hang else ('trace',)
        for how in tries:
            if done:
                break
            if how == 'trace':
                sets, ptext = k.playback(full, unwind)
                if hang and not sets:
                    sets = [[]]
            else:
                sets = k.small_values(name)
            for vals in sets:
                what, rout = k.replay(name, vals, hang)
                if what:
                    path = save_replay(prop, name, mod, hooks, vals, failed, what, rout)
                    out.violations.append(('%s: %s' % (name, what), path))
                    done = True
                    break
        if not done:
            if hang:
                out.undecided.append(name)
            else:
                out.errors.append('harness %s failed (%s) but no counterexample reproduces natively'
                                  % (name, '; '.join(c['description'] for c in failed)[:300]))


def harness_file(mod):
    p = os.path.join(VERIF, 'kani', 'src', mod + '.rs')
    return p if os.path.exists(p) else os.path.join(VERIF, 'conc', mod + '.rs')


def config_unwind(mod, name):
    src = open(harness_file(mod)).read()
    m = re.search(r'\b%s \[(\d+)\]' % re.escape(name), src)
    return int(m.group(1)) if m else None


def save_replay(prop, name, mod, hooks, vals, failed, what, rout):
    d = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    base = os.path.join(d, '%s-%s' % (prop, name))
    with open(base + '.values', 'w') as f:
        for v in vals:
            f.write(''.join('%02x' % b for b in v) + '\n')
    with open(base + '.txt', 'w') as f:
        f.write('property %s, harness %s (%s)\nreplayed natively: %s\n' % (prop, name, os.path.relpath(harness_file(mod), VERIF), what))
        for c in failed:
            f.write('solver: %s [%s] at %s:%s\n' % (c['description'], c['function'], c['location'].get('file'), c['location'].get('line')))
        f.write('values: %s\n\noutput of the replay:\n%s\n' % (vals, rout[-4000:]))
    flags = ' '.join(['--cfg vk=\\"%s\\"' % mod] + ['--cfg verif_hooks=\\"%s\\"' % h for h in hooks])
    with open(base + '.sh', 'w') as f:
        f.write('#!/bin/bash\n# replays the counterexample against /repo\nhere=$(cd "$(dirname "$0")" && pwd)\n')
        if prop in config.GENERATED:
            f.write('c=$(mktemp -d) && trap \'rm -rf "$c"\' EXIT && python3 "$here/../../conc/gen.py" "$c/crate" && cd "$c/crate" && export RUSTC_BOOTSTRAP=1\n')
        else:
            f.write('cd "$here/../../kani"\n')
        f.write('RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTFLAGS="%s" '
                'cargo run -q --bin replay --target-dir "${TMPDIR:-/tmp}/vk-replay" -- %s "$here/%s.values"\n'
                % (flags, name, os.path.basename(base)))
    os.chmod(base + '.sh', 0o755)
    return base + '.sh'


def main():
    prop = sys.argv[1]
    t0 = time.time()
    deadline = t0 + LIMIT
    out = Outcome(prop)
    root = os.path.join(VERIF, 'target')
    os.makedirs(root, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='%s-' % prop, dir=root)
    try:
        if prop in config.SYM:
            import sym_engine
            sym_engine.part(prop, out, scratch, deadline, TIER)
        if prop in config.KANI and not out.violations:
            kani_part(prop, out, scratch, deadline)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    wall = time.time() - t0

    known = []
    kf = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(kf):
        for l in open(kf):
            m = re.match(r'finding: property=(\S+) match=(\S+) (.*)', l)
            if m and m.group(1) == prop:
                known.append((m.group(2), m.group(3).strip()))
    new = []
    for what, path in out.violations:
        hit = [k for k in known if k[0] in what]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, hit[0][1]))
        else:
            new.append((what, path))

    props = {json.loads(l)['id']: json.loads(l) for l in open(os.path.join(VERIF, 'properties.jsonl'))}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = {
        'property': prop, 'tier': TIER, 'seed': SEED, 'level': 'other',
        'coverage': {
            'explanation': 'Bounded symbolic checking: %d harnesses/scenarios over the real code of /repo were decided by a '
                           'solver for all values within their bounds (%d undecided).' % (out.decided, len(out.undecided)),
            'obligations': out.obligations,
            'solver_queries': out.queries,
            'harnesses_decided': out.decided,
            'undecided': out.undecided,
            'solver_s': round(out.solver_s, 2),
            'functions_encoded': {f: len(v) for f, v in sorted(out.functions.items())},
            'samples': out.samples[:6] or out.details[:3],
            'details': out.details,
        },
        'assumptions': config.assumptions(prop) + out.assumptions,
        'wall_s': round(wall, 1),
        'violations': len(new),
    }
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    print('%s %s: %d decided, %d undecided, %d obligations, solver %.1f s, wall %.1f s'
          % (prop, TIER, out.decided, len(out.undecided), out.obligations, out.solver_s, wall))
    for u in out.undecided:
        print('UNDECIDED %s' % u)
    for what, path in new:
        print('  %s' % what)
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if new:
        return 1
    if out.errors:
        for e in out.errors:
            print('ERROR: %s' % e)
        return 2
    if out.core_decided * 3 < out.core_total or out.decided == 0:
        print('ERROR: too few of the core harnesses were decided (%d of %d)' % (out.core_decided, out.core_total))
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
