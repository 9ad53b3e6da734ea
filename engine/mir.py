"""Client of mirsrv: starts cargo (check mode, nightly) on the `roots` crate with mirsrv as the workspace wrapper and
fetches MIR bodies / types on demand."""
import json, os, re, shutil, socket, subprocess, sys, tempfile, time, functools

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def strip_generics(name):
    """`std::vec::Vec::<T, A>::push` -> `std::vec::Vec::push`; `<std::slice::Iter<'a, T> as X<Y>>::next` ->
    `<std::slice::Iter as X>::next`"""
    out = []
    i = 0
    n = len(name)

    def skip(i):
        d = 0
        while i < n:
            c = name[i]
            if c == '<':
                d += 1
            elif c == '>' and name[i - 1] != '-' and name[i - 1] != '=':
                d -= 1
                if d == 0:
                    return i + 1
            i += 1
        return n
    while i < n:
        c = name[i]
        if c == '<':
            prev = ''.join(out[-2:])
            start = (not out) or out[-1] in ' (&,<' or (out[-1] == '[')
            if start:
                # qualified path / impl header: keep brackets, recurse
                j = skip(i)
                inner = name[i + 1:j - 1]
                out.extend('<' + strip_generics(inner) + '>')
                i = j
                continue
            if prev == '::':
                out.pop(); out.pop()
                # turbofish; an `::<impl X>` segment is kept
                j = skip(i)
                seg = name[i:j]
                if seg.startswith('<impl '):
                    out.extend('::<impl ' + strip_generics(seg[6:-1]) + '>')
                i = j
                continue
            i = skip(i)
            continue
        out.append(c)
        i += 1
    return re.sub(r"&'\w+ ", '&', ''.join(out))


def prepare(crates):
    """compile (check mode) everything the given crates need from /repo's current tree; returns the rustc arguments of
    the roots crate"""
    d = tempfile.mkdtemp(prefix='mirprep')
    env = dict(os.environ)
    build_env(env)
    out = os.path.join(d, 'args')
    env['VERIF_ARGS_OUT'] = out
    cmd = ['cargo', '+nightly', 'check', '--offline', '--locked', '--features', ','.join(sorted(crates))]
    t0 = time.time()
    r = subprocess.run(cmd, cwd=os.path.join(VERIF, 'roots'), env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if not os.path.exists(out):
        raise BuildError(r.stdout[-4000:])
    args = open(out).read().split('\n')
    shutil.rmtree(d, ignore_errors=True)
    return args, time.time() - t0


class Session:
    def __init__(self, args):
        self.dir = tempfile.mkdtemp(prefix='mirsrv')
        sock = os.path.join(self.dir, 's')
        self._ty, self._inst, self._body = {}, {}, {}
        srv = socket.socket(socket.AF_UNIX)
        srv.bind(sock)
        srv.listen(1)
        env = dict(os.environ)
        build_env(env)
        env['VERIF_SOCK'] = sock
        wr = env.pop('RUSTC_WORKSPACE_WRAPPER')
        self.log = open(os.path.join(self.dir, 'log'), 'w')
        self.proc = subprocess.Popen([wr] + args, cwd=os.path.join(VERIF, 'roots'), env=env, stdout=self.log,
                                     stderr=self.log)
        srv.settimeout(1)
        t0 = time.time()
        while True:
            try:
                c, _ = srv.accept()
                break
            except socket.timeout:
                if self.proc.poll() is not None:
                    raise BuildError(open(os.path.join(self.dir, 'log')).read()[-3000:])
                if time.time() - t0 > 300:
                    self.proc.kill()
                    raise BuildError('timeout')
        c.settimeout(None)
        self.f = c.makefile('rw')
        self.sockets = (srv, c)

    def q(self, *a):
        self.f.write('\t'.join(map(str, a)) + '\n')
        self.f.flush()
        return json.loads(self.f.readline())

    def ty(self, i):
        r = self._ty.get(i)
        if r is None:
            r = self.q('ty', i)
            r['id'] = i
            if r['k'] == 'adt':
                r['base'] = strip_generics(r['name'])
            if r.get('inst'):
                self.reg(r['inst'])
            self._ty[i] = r
        return r

    def reg(self, inst):
        if inst['id'] not in self._inst:
            self._inst[inst['id']] = inst
            inst['norm'] = strip_generics(inst['name'])
            inst['dnorm'] = strip_generics(inst['def'])
        return self._inst[inst['id']]

    def body(self, i):
        r = self._body.get(i)
        if r is None:
            r = self.q('body', i)
            self._body[i] = r
        return r

    def fns(self, crate):
        return self.q('fns', crate)

    def root(self, crate, path):
        for n in self.fns(crate):
            if n == path or n == crate + '::' + path:
                r = self.q('root', crate, n)
                if r:
                    return self.reg(r)
        return None

    def close(self):
        try:
            self.f.write('quit\n')
            self.f.flush()
        except Exception:
            pass
        try:
            self.proc.wait(20)
        except Exception:
            self.proc.kill()
        shutil.rmtree(self.dir, ignore_errors=True)


class BuildError(Exception):
    pass


def build_env(env):
    """the cargo environment shared by setup and every check"""
    for k in list(env):
        if k.startswith('CARGO_') or k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER'):
            del env[k]
    env.pop('RUSTUP_TOOLCHAIN', None)
    home = env.get('HOME') or '/root'
    env['HOME'] = home
    env['PATH'] = '/root/.cargo/bin:/usr/local/cargo/bin:' + env.get('PATH', '/usr/bin:/bin')
    tgt = env.get('VERIF_TARGET') or os.path.join(VERIF, 'target')
    env['CARGO_TARGET_DIR'] = os.path.join(tgt, 'mir')
    env['CARGO_NET_OFFLINE'] = 'true'
    env['CARGO_INCREMENTAL'] = '0'
    env['CARGO_PROFILE_DEV_DEBUG'] = '0'
    env['CARGO_PROFILE_DEV_DEBUG_ASSERTIONS'] = 'false'
    env['CARGO_PROFILE_DEV_OVERFLOW_CHECKS'] = 'true'
    env['RUSTFLAGS'] = '-Zalways-encode-mir -Cdebuginfo=0'
    env['CARGO_TERM_COLOR'] = 'never'
    env['RUSTC_WORKSPACE_WRAPPER'] = os.path.join(tgt, 'drv', 'debug', 'mirsrv')
    env['RUSTC_WRAPPER'] = os.path.join(VERIF, 'engine', 'rustc_wrap.sh')
    sr = sysroot(env)
    env['LD_LIBRARY_PATH'] = sr + '/lib'


_SR = None


def sysroot(env):
    global _SR
    if _SR is None:
        _SR = subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True, env=env).strip()
    return _SR


def build_driver():
    env = dict(os.environ)
    build_env(env)
    env.pop('RUSTC_WORKSPACE_WRAPPER')
    tgt = env.get('VERIF_TARGET') or os.path.join(VERIF, 'target')
    env['CARGO_TARGET_DIR'] = os.path.join(tgt, 'drv')
    env['RUSTFLAGS'] = ''
    env['CARGO_PROFILE_DEV_OPT_LEVEL'] = '0'
    r = subprocess.run(['cargo', '+nightly', 'build', '--offline', '--locked'], cwd=os.path.join(VERIF, 'driver'), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(r.stdout[-3000:])
