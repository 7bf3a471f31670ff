"""Symbolic-coefficient engine: compiles /repo's current source with the crate in sym/, where the coefficient type builds
terms, explores every path of every scenario, and has z3 decide every obligation for all values of the coefficients."""
import concurrent.futures, glob, json, os, re, resource, subprocess, time
import config
from kani_engine import run

VERIF = os.path.dirname(os.path.abspath(__file__))
CRATE = os.path.join(VERIF, 'sym')
SECONDS = {'quick': 150, 'thorough': 3600}
STALE = 75  # a path that takes longer than this is taken to hang
MEMORY = 4 << 30


def flags(mod, hooks, cover):
    return ' '.join(['--cfg vs="%s"' % mod] + ['--cfg verif_hooks="%s"' % h for h in hooks] + (['-Cinstrument-coverage'] if cover else []))


def env_for(mod, hooks, scratch, cover):
    e = dict(os.environ)
    e.update({'CARGO_NET_OFFLINE': 'true', 'RUSTUP_TOOLCHAIN': 'stable', 'RUST_BACKTRACE': '0',
              'RUSTFLAGS': flags(mod, hooks, cover), 'LLVM_PROFILE_FILE': os.path.join(scratch, 'prof', '%p.profraw')})
    e.pop('CARGO_TARGET_DIR', None)
    return e


def build(mod, hooks, scratch, cover, timeout):
    env = env_for(mod, hooks, scratch, cover)
    rc, text = run(['cargo', 'build', '-q', '--offline', '--target-dir', os.path.join(scratch, 'sym')], env, CRATE, timeout)
    binary = os.path.join(scratch, 'sym', 'debug', 'vs')
    return (binary if rc == 0 and os.path.exists(binary) else None), env, text


def limited(cmd, env, timeout, trace=None):
    """(rc, None at the timeout; stdout). With a trace file, also ended when that has not changed for STALE seconds."""
    p = subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, text=True,
                         start_new_session=True, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY)))
    rc, text, end = None, '', time.time() + timeout
    while time.time() < end:
        try:
            text, _ = p.communicate(timeout=min(5, max(0.1, end - time.time())))
            rc = p.returncode
            break
        except subprocess.TimeoutExpired:
            if trace and os.path.exists(trace) and time.time() - os.path.getmtime(trace) > STALE:
                break
    try:
        os.killpg(p.pid, 9)
    except ProcessLookupError:
        pass
    if rc is None:
        text = p.communicate()[0]
    return rc, text or ''


def one(binary, env, name, seconds, scratch):
    """A dict with the verdict of one scenario."""
    trace = os.path.join(scratch, name + '.trace')
    t = time.time()
    rc, text = limited([binary, 'run', name, str(seconds), trace], env, seconds + 60, trace)
    took = round(time.time() - t, 2)
    lines = [l for l in text.splitlines() if l.startswith('{')]
    if lines:
        r = json.loads(lines[-1])
        r['seconds'] = took
        return r
    # The process ended or hung on a path: the trace names it.
    r = {'scenario': name, 'verdict': 'crash' if rc is not None else 'hang', 'seconds': took, 'paths': 0, 'obligations': 0, 'queries': 0,
         'solver_s': 0.0, 'what': 'the process %s' % ('ended with status %s' % rc if rc is not None else 'did not end'), 'sample': '', 'unknown_branches': 0}
    models = []
    if os.path.exists(trace):
        models.append(open(trace).read())
        e = dict(env, VS_MODELS='1')
        os.remove(trace)
        limited([binary, 'run', name, str(seconds), trace], e, min(seconds, 60), trace)
        if os.path.exists(trace):
            models.append(open(trace).read())
    r['models'] = models
    return r


def replay(binary, env, name, model):
    """What happened, or None if the counterexample does not reproduce."""
    rc, text = limited([binary, 'replay', name, model], env, 20)
    said = [l for l in text.splitlines() if l.startswith('REPRODUCED')]
    if rc is None:
        return 'does not terminate', text
    if rc == 101:
        return (said[0][12:] if said else 'panic'), text
    if rc in (77, 79) or rc == 0:
        return None, text
    return 'the process ends with status %s (stack overflow, abort or invalid memory access)' % rc, text


def save(prop, name, mod, hooks, model, what, solver, text):
    d = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    base = os.path.join(d, '%s-%s' % (prop, name))
    with open(base + '.txt', 'w') as f:
        f.write('property %s, scenario %s (sym/src/%s.rs)\nsolver: %s\ncoefficients;keys;choices: %s\nreplayed over exact rationals: %s\n\n%s\n'
                % (prop, name, mod, solver, model, what, text[-4000:]))
    with open(base + '.sh', 'w') as f:
        f.write('#!/bin/bash\n# replays the counterexample against /repo\nhere=$(cd "$(dirname "$0")" && pwd)\n'
                'cd "$here/../../sym" && RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTFLAGS="%s" '
                'cargo run -q --target-dir "${TMPDIR:-/tmp}/vs-replay" -- replay %s "%s"\n'
                % (flags(mod, hooks, False).replace('"', '\\"'), name, model))
    os.chmod(base + '.sh', 0o755)
    return base + '.sh'


def functions(binary, env, scratch):
    """The functions of /repo that were executed symbolically, from the coverage counters."""
    tools = glob.glob(os.path.expanduser('~/.rustup/toolchains/stable-*/lib/rustlib/*/bin/'))
    if not tools:
        root = subprocess.run(['rustc', '--print', 'sysroot'], env=env, capture_output=True, text=True).stdout.strip()
        tools = glob.glob(root + '/lib/rustlib/*/bin/')
    tools = [t for t in tools if os.path.exists(t + 'llvm-cov')]
    raws = glob.glob(os.path.join(scratch, 'prof', '*.profraw'))
    if not tools or not raws:
        return set()
    data = os.path.join(scratch, 'all.profdata')
    if subprocess.run([tools[0] + 'llvm-profdata', 'merge', '-sparse', '-o', data] + raws, capture_output=True).returncode:
        return set()
    r = subprocess.run([tools[0] + 'llvm-cov', 'export', '--instr-profile', data, binary], capture_output=True, text=True)
    found = set()
    try:
        for f in json.loads(r.stdout)['data'][0]['functions']:
            src = f['filenames'][0]
            if f['count'] and src.startswith('/repo/'):
                line = f['regions'][0][0]
                text = open(src).read().splitlines()
                for i in range(line - 1, max(-1, line - 12), -1):
                    m = re.search(r'\bfn (\w+)', text[i]) if i < len(text) else None
                    if m:
                        found.add('%s: %s' % (src[6:], m.group(1)))
                        break
    except (ValueError, KeyError, OSError):
        pass
    return found


def part(prop, out, scratch, deadline, tier):
    mod, hooks = config.SYM[prop]
    os.makedirs(os.path.join(scratch, 'prof'), exist_ok=True)
    binary, env, text = build(mod, hooks, scratch, True, max(60, deadline - time.time()))
    if not binary:
        binary, env, text = build(mod, hooks, scratch, False, max(60, deadline - time.time()))
    if not binary:
        out.errors.append('the symbolic crate does not build:\n' + text[-4000:])
        return
    names = subprocess.run([binary, 'list'], env=env, capture_output=True, text=True).stdout.split()
    names = [n for n in names if n.startswith(mod + 'q_') or (tier == 'thorough' and n.startswith(mod + 't_'))]
    if not names:
        out.errors.append('no scenario was found')
        return
    seconds = min(SECONDS[tier], max(30, deadline - time.time() - 240))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        results = list(ex.map(lambda n: one(binary, env, n, seconds, scratch), names))
    for r in results:
        name, v = r['scenario'], r['verdict']
        core = name.startswith(mod + 'q_')
        out.core_total += core
        out.queries += r['queries']
        out.obligations += r['obligations']
        out.solver_s += r['solver_s']
        if r['sample'] and len(out.samples) < 6:
            out.samples.append('%s: %s' % (name, r['sample'][:600]))
        out.details.append({'scenario': name, 'verdict': v, 'seconds': r['seconds'], 'paths': r['paths'], 'obligations': r['obligations'],
                            'queries': r['queries'], 'solver_s': r['solver_s'], 'what': r['what']})
        if v == 'pass':
            if not r['paths'] or not r['obligations']:
                out.errors.append('scenario %s is vacuous' % name)
                continue
            out.decided += 1
            out.core_decided += core
            continue
        if v == 'undecided':
            out.undecided.append(name)
            continue
        print('%s: %s: %s' % (prop, name, r['what']), flush=True)
        if len(out.violations) >= 5:
            continue
        models = r.get('models') or ([r['model']] if r.get('model') else [])
        for m in models:
            what, text = replay(binary, env, name, m)
            if what:
                out.violations.append(('%s: %s' % (name, what), save(prop, name, mod, hooks, m, what, r['what'], text)))
                break
        else:
            if v == 'hang':
                out.undecided.append(name)
            else:
                out.errors.append('scenario %s: %s, but no counterexample reproduces' % (name, r['what']))
    for f in functions(binary, env, scratch):
        out.functions.setdefault(f, set()).add('sym')
