"""Kani engine: compiles /repo's current source with a harness crate, decides every harness with CBMC's
SAT back end, and replays counterexamples natively."""
import json, os, re, shutil, subprocess, time

VERIF = os.path.dirname(os.path.abspath(__file__))
CRATE = os.path.join(VERIF, 'kani')


def rustflags(mod, hooks):
    return ' '.join(['--cfg vk="%s"' % mod] + ['--cfg verif_hooks="%s"' % h for h in hooks])


def env_for(mod, hooks, toolchain=None):
    e = dict(os.environ)
    e['CARGO_NET_OFFLINE'] = 'true'
    e['RUSTFLAGS'] = rustflags(mod, hooks)
    e.pop('CARGO_TARGET_DIR', None)
    if toolchain:
        e['RUSTUP_TOOLCHAIN'] = toolchain
    else:
        e.pop('RUSTUP_TOOLCHAIN', None)
    e['RUST_BACKTRACE'] = '0'
    if mod == 'c31':
        e['RUSTC_BOOTSTRAP'] = '1'      # conc/vmodel.rs
    return e


def run(cmd, env, cwd, timeout, log=None):
    """Run in its own process group, kill the group at the timeout. Returns (rc or None, output)."""
    import signal, tempfile
    with tempfile.TemporaryFile(mode='w+', errors='replace') as f:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                             start_new_session=True)
        try:
            rc = p.wait(timeout=max(1, timeout))
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        f.seek(0)
        return rc, f.read()


class Kani:
    def __init__(self, prop, mod, hooks, scratch, deadline, jobs=8, log=print, solver=None, crate=CRATE):
        self.prop, self.mod, self.hooks, self.scratch, self.deadline = prop, mod, hooks, scratch, deadline
        self.jobs, self.log = jobs, log
        self.tdir = os.path.join(scratch, 'kani')
        self.bins = {}
        self.crate = crate
        self.solver = ['--solver', solver] if solver else []

    def left(self):
        return self.deadline - time.time()

    def verify(self, filters, harness_timeout, extra=(), jobs=None, exact=False):
        out = os.path.join(self.scratch, 'kani-%d.json' % time.time_ns())
        cmd = ['cargo', 'kani', '-Z', 'unstable-options', '-Z', 'stubbing', '--target-dir', self.tdir, '--lib',
               '--output-format', 'terse', '-j', str(jobs or self.jobs),
               '--harness-timeout', '%ds' % harness_timeout, '--export-json', out]
        for f in filters:
            cmd += ['--harness', f]
        if exact:
            cmd += ['--exact']
        rc, text = run(cmd + self.solver + list(extra), env_for(self.mod, self.hooks), self.crate, self.left())
        if not os.path.exists(out):
            return None, text
        d = json.load(open(out))
        os.remove(out)
        return d, text

    @staticmethod
    def classify(r):
        """('pass' | 'fail' | 'unwind' | 'undecided' | 'vacuous' | 'accepted', failed checks)"""
        name = r['harness_id'].split('::')[-1]
        # not-a-number results are ordinary values here, not failures
        checks = [c for c in r['checks'] if c['category'] != 'NaN']
        nan = any(c['status'] == 'Failure' for c in r['checks'] if c['category'] == 'NaN')
        if not checks:
            return 'undecided', []
        covers = {c['description']: c['status'] for c in checks if c['category'] == 'cover'}
        failed = [c for c in checks if c['status'] == 'Failure']
        if 'never' in covers:            # a refusal harness
            unw = [c for c in failed if c['category'] == 'unwind' or 'unwinding assertion' in c['description']]
            if covers['never'] == 'Satisfied':
                return 'accepted', []
            if unw:
                return 'unwind', unw
            return ('pass' if r['status'] == 'Success' else 'undecided'), []
        if r['status'] == 'Success' or (nan and not failed and all(c['status'] in ('Success', 'Unreachable', 'Satisfied') for c in checks)):
            if covers.get('reached') != 'Satisfied':
                return 'vacuous', []
            return 'pass', []
        unw = [c for c in failed if 'unwind' in c['category'] or 'unwinding assertion' in c['description']
               or 'recursion unwinding' in c['description']]
        other = [c for c in failed if c not in unw]
        if other:
            return 'fail', other
        if unw:
            return 'unwind', unw
        return 'undecided', []

    def playback(self, harness, unwind=None):
        """Concrete values of the counterexamples Kani finds for one harness."""
        cmd = ['cargo', 'kani', '-Z', 'unstable-options', '-Z', 'stubbing', '-Z', 'concrete-playback',
               '--concrete-playback=print', '--target-dir', self.tdir, '--lib', '--harness', harness, '--exact'] + self.solver
        if unwind:
            cmd += ['--unwind', str(unwind)]
        rc, text = run(cmd, env_for(self.mod, self.hooks), self.crate, min(self.left() - 60, 500))
        sets = []
        for m in re.finditer(r'let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];', text, re.S):
            vals = [[int(x) for x in v.split(',') if x.strip()] for v in re.findall(r'vec!\[([^\]]*)\]', m.group(1))]
            if vals not in sets:
                sets.append(vals)
        return sets, text

    def build_replay(self, profile):
        if profile in self.bins:
            return self.bins[profile]
        tdir = os.path.join(self.scratch, 'native')
        cmd = ['cargo', 'build', '--bin', 'replay', '--target-dir', tdir]
        if profile == 'release':
            cmd.append('--release')
        rc, text = run(cmd, env_for(self.mod, self.hooks, 'stable'), self.crate, 300)
        p = os.path.join(tdir, 'release' if profile == 'release' else 'debug', 'replay')
        self.bins[profile] = p if rc == 0 else None
        if rc != 0:
            self.log(text[-3000:])
        return self.bins[profile]

    def small_values(self, name):
        """A set of values on which the harness goes wrong natively: its first input small, its other inputs zero."""
        b = self.build_replay('dev')
        if not b:
            return []
        vf = os.path.join(self.scratch, 'small-%s.txt' % name)
        for v in range(128):
            with open(vf, 'w') as f:
                f.write(v.to_bytes(4, 'little').hex() + '\n')
            rc, out = run([b, name, vf], env_for(self.mod, self.hooks), self.scratch, 10)
            if rc == 78 or self.left() < 60:      # its first input is not of this type
                return []
            if rc is not None and (rc == 101 or rc < 0):
                return [[list(v.to_bytes(4, 'little'))]]
        return []

    def replay(self, name, vals, hang_counts):
        """Run the harness natively on these values. Returns a description if it goes wrong there too."""
        vf = os.path.join(self.scratch, 'values-%s.txt' % name)
        with open(vf, 'w') as f:
            for v in vals:
                f.write(''.join('%02x' % b for b in v) + '\n')
        for profile in ('dev', 'release'):
            b = self.build_replay(profile)
            if not b:
                continue
            rc, out = run([b, name, vf], env_for(self.mod, self.hooks), self.scratch, 60)
            if rc is None:
                if hang_counts:
                    return '%s build: does not terminate within 60 s' % profile, out
                continue
            if rc in (77, 78):
                self.log('  replay (%s): %s' % (profile, out.strip()[-200:]))
                continue
            if rc == 101 or rc < 0:
                return '%s build: exit %d' % (profile, rc), out
        e = env_for(self.mod, self.hooks, 'nightly')
        e['MIRIFLAGS'] = '-Zmiri-disable-isolation -Zmiri-ignore-leaks'
        rc, out = run(['cargo', 'miri', 'run', '--offline', '--bin', 'replay', '--target-dir', os.path.join(self.scratch, 'miri'),
                       '--', name, vf], e, self.crate, 240)
        if rc not in (None, 0, 77, 78) and 'Undefined Behavior' in out:
            return 'miri: undefined behaviour', out[-3000:]
        return None, ''
