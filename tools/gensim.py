#!/usr/bin/env python3
"""C19: simulates the world around the code generator (protoc's pipes, disks, clocks, hash seeds, memory, other generator processes).

Every simulated run is decided by a list of choices drawn from (seed, run index). The generator under test is /repo's real code in
real (forked) processes; the simulator owns both ends of its standard streams and moves every byte in lockstep, so that what the generator
sees in each read is decided by the choices and not by the machine.
"""
import base64, errno, fcntl, hashlib, json, os, random, resource, select, shutil, signal, socket, struct, subprocess, sys, tempfile, termios, time
HERE = os.path.dirname(os.path.abspath(__file__))

# ---------------------------------------------------------------------------------------------------------------------- the zygote
# One interpreter per hash seed which has loaded the generator. It forks one child for every simulated generator process.


def no_aslr():
    """Re-executes the interpreter without address randomisation where the sandbox permits, so that a run repeats exactly."""
    if os.environ.get('GENSIM_ASLR'):
        return
    os.environ['GENSIM_ASLR'] = 'tried'
    try:
        import ctypes
        if ctypes.CDLL(None).personality(0x0040000) != -1:
            os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)
    except (OSError, AttributeError):
        pass


WORLD = dict(clock=0, host='build')       # what the process is told about the time and the machine


def shift_world():
    """Replaces every way a Python program asks for the time or the name of the machine, before the generator is loaded."""
    import datetime, platform
    real = {n: getattr(time, n) for n in ('time', 'monotonic', 'perf_counter', 'time_ns', 'localtime', 'gmtime', 'ctime', 'strftime', 'asctime')}

    def now():
        return max(1.0, real['time']() * (-1 if WORLD['clock'] < 0 else 1) + WORLD['clock'])
    time.time = now
    time.time_ns = lambda: int(now() * 1e9)
    for n in ('monotonic', 'perf_counter'):
        setattr(time, n, lambda n=n: real[n]() + abs(WORLD['clock']))
        setattr(time, n + '_ns', lambda n=n: int((real[n]() + abs(WORLD['clock'])) * 1e9))
    for n in ('localtime', 'gmtime', 'ctime'):
        setattr(time, n, lambda secs=None, n=n: real[n](now() if secs is None else secs))
    time.strftime = lambda fmt, *t: real['strftime'](fmt, *(t or (time.localtime(),)))
    time.asctime = lambda *t: real['asctime'](*(t or (time.localtime(),)))
    rd, rdt = datetime.date, datetime.datetime

    class Date(rd):
        @classmethod
        def today(cls):
            return cls.fromtimestamp(now())

    class DateTime(rdt):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(now(), tz)

        @classmethod
        def utcnow(cls):
            return cls.utcfromtimestamp(now())

        @classmethod
        def today(cls):
            return cls.fromtimestamp(now())
    datetime.date, datetime.datetime = Date, DateTime
    socket.gethostname = socket.getfqdn = platform.node = lambda *a: WORLD['host']
    uname = os.uname
    os.uname = lambda: os.uname_result((uname()[0], WORLD['host']) + tuple(uname())[2:])


def child_main(c, gen):
    import builtins, io, gc, traceback
    code = 1
    try:
        os.environ.clear()
        os.environ.update(c['env'])
        os.chdir(c['cwd'])
        # another address for every object
        hold = [bytearray(97 + 16 * (i % 61)) for i in range(c['heap'])]
        hold = hold[::2] + [object() for _ in range(c['heap'] * 3)][::3]
        gc.disable() if c['heap'] & 1 else None
        WORLD.update(clock=c['clock'], host=c['host'])
        time.tzset()
        random.seed(c['rnd'])
        order = random.Random(c['rnd'])
        real_listdir, real_scandir = os.listdir, os.scandir

        def listdir(*a):
            r = real_listdir(*a)
            order.shuffle(r)
            return r
        os.listdir = listdir
        if c['nofile']:
            resource.setrlimit(resource.RLIMIT_NOFILE, (c['nofile'], c['nofile']))
        if c['fsize'] is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (c['fsize'], c['fsize']))
        count = dict(lines=0, opens=0)
        top = os.path.join(gen, 'EmbeddedProto')
        tmpl = os.path.join(top, 'templates')
        if c['open_fail']:
            def hook(ev, args):
                if ev == 'open' and isinstance(args[0], (str, bytes, os.PathLike)) and os.path.abspath(os.fsdecode(args[0])).startswith(tmpl):
                    count['opens'] += 1
                    if count['opens'] == c['open_fail'][0]:
                        raise OSError(c['open_fail'][1], os.strerror(c['open_fail'][1]), args[0])
            sys.addaudithook(hook)
        if c['line_fail'] is not None:
            exc = dict(memory=MemoryError, io=lambda: OSError(errno.EIO, 'Input/output error'), interrupt=KeyboardInterrupt)[c['line_fail'][1]]

            def tr(frame, ev, arg):
                if not frame.f_code.co_filename.startswith(top):
                    return None
                if ev == 'line':
                    count['lines'] += 1
                    if count['lines'] == c['line_fail'][0]:
                        sys.settrace(None)
                        raise exc()
                return tr
        sys.argv = ['protoc-gen-eams']
        from EmbeddedProto.main import main_plugin
        # as a new interpreter finds its streams
        sys.stdin = open(0, 'r', closefd=False) if c['stdin'] != 'closed' else None
        sys.stdout = open(1, 'w', closefd=False) if c['stdout'] != 'closed' else None
        try:
            if c['line_fail'] is not None:
                sys.settrace(tr)
            main_plugin()
            code = 0
        except SystemExit as e:
            code = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
        except BaseException:
            traceback.print_exc()
            code = 1
        finally:
            sys.settrace(None)
        try:
            if sys.stdout is not None:
                sys.stdout.flush()
        except BaseException:
            code = code or 120
        if c['count']:
            os.write(c['count_fd'], json.dumps(count).encode())
    except BaseException as e:
        try:
            os.write(2, ('HARNESS %r\n' % e).encode())
        except OSError:
            pass
        code = 99
    finally:
        os._exit(code & 255)


def zygote(gen):
    no_aslr()
    sys.path.insert(0, gen)
    sys.path = [p for p in sys.path if os.path.abspath(p or '.') != HERE]
    shift_world()
    from EmbeddedProto.main import main_plugin      # noqa: loads everything once
    # jinja2 compiles the same template text to the same code: do that once per interpreter and not once per process
    import jinja2
    real_compile, memo = jinja2.Environment.compile, {}

    def compile_once(env, source, name=None, filename=None, raw=False, defer_init=False):
        if raw or not isinstance(source, str):
            return real_compile(env, source, name, filename, raw, defer_init)
        key = (source, name, filename, defer_init, repr([getattr(env, a, None) for a in ('trim_blocks', 'lstrip_blocks', 'keep_trailing_newline', 'newline_sequence', 'block_start_string', 'block_end_string', 'variable_start_string', 'variable_end_string', 'comment_start_string', 'comment_end_string', 'line_statement_prefix', 'line_comment_prefix', 'optimized', 'is_async')]),
               env.undefined.__name__, env.autoescape if isinstance(env.autoescape, bool) else id(env.autoescape), tuple(sorted(env.filters)), tuple(sorted(env.tests)), tuple(sorted(env.extensions)))
        if key not in memo:
            memo[key] = real_compile(env, source, name, filename, raw, defer_init)
        return memo[key]
    jinja2.Environment.compile = compile_once
    tdir = os.path.join(gen, 'EmbeddedProto', 'templates')
    if os.path.isdir(tdir):
        env = jinja2.Environment(loader=jinja2.FileSystemLoader(searchpath=tdir), trim_blocks=True, lstrip_blocks=True)
        for t in sorted(env.list_templates()):
            try:
                env.get_template(t)
            except jinja2.TemplateError:
                pass
    import gc
    gc.collect()
    gc.freeze()
    s = socket.socket(fileno=3)
    s.send(b'ready')
    kids = {}
    while True:
        data, fds, _, _ = socket.recv_fds(s, 1 << 20, 8)
        if not data:
            os._exit(0)
        c = json.loads(data)
        if c['op'] == 'start':
            pid = os.fork()
            if pid == 0:
                s.close()
                fin, fout, ferr = fds[:3]
                os.dup2(fin, 200); os.dup2(fout, 201); os.dup2(ferr, 202)
                for f in fds:
                    os.close(f)
                os.dup2(200, 0); os.dup2(201, 1); os.dup2(202, 2)
                if c['count']:
                    c['count_fd'] = os.dup2(202, 203)
                for f in (200, 201, 202):
                    os.close(f)
                if c['stdin'] == 'closed':
                    os.close(0)
                if c['stdout'] == 'closed':
                    os.close(1)
                child_main(c, gen)
            for f in fds:
                os.close(f)
            s.send(json.dumps(dict(pid=pid)).encode())
        else:
            _, st = os.waitpid(c['pid'], 0)
            s.send(json.dumps(dict(status=os.waitstatus_to_exitcode(st))).encode())


class Zygote:
    def __init__(self, gen, hashseed):
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        env = dict(PYTHONHASHSEED=str(hashseed), PATH='/usr/bin:/bin', PYTHONDONTWRITEBYTECODE='1')
        self.hashseed = hashseed

        def pre():
            os.dup2(b.fileno(), 3)
        self.p = subprocess.Popen([sys.executable, '-B', os.path.abspath(__file__), 'zygote', gen], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, pass_fds=(3,), preexec_fn=pre)
        b.close()
        self.s = a
        if self.s.recv(100) != b'ready':
            raise Broken('the generator cannot be loaded: ' + self.p.stderr.read().decode('utf8', 'replace')[-1500:])

    def start(self, cmd, fds):
        socket.send_fds(self.s, [json.dumps(dict(cmd, op='start')).encode()], fds)
        return json.loads(self.s.recv(1 << 16))['pid']

    def wait(self, pid):
        self.s.send(json.dumps(dict(op='wait', pid=pid)).encode())
        return json.loads(self.s.recv(1 << 16))['status']


class Zygotes:
    def __init__(self, gen, seeds):
        self.gen, self.seeds, self.made = gen, seeds, {}

    def __len__(self):
        return len(self.seeds)

    def __getitem__(self, i):
        if i not in self.made:
            self.made[i] = Zygote(self.gen, self.seeds[i])
        return self.made[i]


class Broken(Exception):
    """the check itself cannot continue"""


class Violation(Exception):
    pass


# ---------------------------------------------------------------------------------------------------------------------- choices
class Choices:
    """All decisions of a run. Recorded as numbers; replaying or shrinking supplies the numbers."""

    def __init__(self, seed, run, given=None):
        self.r = random.Random('%s/%s' % (seed, run))
        self.given, self.taken = given, []

    def n(self, lo, hi):
        i = len(self.taken)
        if self.given is not None:
            v = self.given[i] if i < len(self.given) else 0
            v = min(v, hi - lo)
        else:
            v = self.r.randrange(hi - lo + 1)
        self.taken.append(v)
        return lo + v

    def chance(self, num, den):
        return self.n(0, den - 1) >= den - num      # 0 (what shrinking tends to) is "no"

    def pick(self, seq):
        return seq[self.n(0, len(seq) - 1)]


# ---------------------------------------------------------------------------------------------------------------------- workload
NAMES = ['Aa', 'Zulu', 'Mid', 'alpha', 'B9', 'Kilo', 'q_x', 'Unit', 'Node', 'Leaf', 'Frame', 'Cfg', 'Xray', 'Echo', 'T1', 'Tango']


def make_request(ch, pools):
    """What protoc sends: either one of the recorded schemas or a random one."""
    from google.protobuf.compiler import plugin_pb2
    from google.protobuf import descriptor_pb2 as d
    import EmbeddedProto.embedded_proto_options_pb2 as opt
    kind = ch.n(0, 9)
    req = plugin_pb2.CodeGeneratorRequest()
    if kind >= 8:
        req.ParseFromString(ch.pick(pools))
        return req, 'recorded'
    req.compiler_version.major, req.compiler_version.minor = 3, ch.n(0, 30)
    nfiles = ch.pick([1, 1, 2, 3])
    known_msgs, known_enums = [], []
    for fi in range(nfiles):
        f = req.proto_file.add()
        f.name = ['f%d.proto', 'dir/f%d.proto', 'a/b/c%d.proto'][ch.n(0, 2)] % fi
        f.syntax = 'proto3'
        f.package = ch.pick(['', 'pk', 'p.q', 'Zz.yy.x%d' % fi])
        pre = '.' + f.package if f.package else ''
        for dep in req.proto_file[:fi]:
            if ch.chance(3, 4):
                f.dependency.append(dep.name)
        visible = [x for x in known_msgs if x[1] in f.dependency]
        enums = [x for x in known_enums if x[1] in f.dependency]
        local, lenum = [], []
        for ei in range(ch.n(0, 2)):
            e = f.enum_type.add(name='E%d%s' % (ei, ch.pick(NAMES)))
            for v in range(ch.n(1, 4)):
                e.value.add(name='%s_%d_%d' % (e.name, fi, v), number=v * ch.n(1, 3))
            lenum.append((pre + '.' + e.name, f.name))
        names = NAMES[:]
        nmsg = ch.n(1, 5)

        def message(name, scope, depth, avail, availe):
            m = d.DescriptorProto(name=name)
            full = scope + '.' + name
            own, owne = list(avail), list(availe)
            if depth < 2:
                for k in range(max(0, ch.n(0, 5 - 2 * depth) - 2)):
                    sub = message(names[(k * 5 + depth * 3 + ch.n(0, 3)) % len(names)] + 'N%d' % k, full, depth + 1, [] if ch.chance(1, 2) else own, owne)
                    m.nested_type.append(sub)
                    own.append((full + '.' + sub.name, f.name))
            if ch.chance(1, 4):
                e = m.enum_type.add(name='Ne')
                e.value.add(name='NE_ZERO', number=0)
                e.value.add(name='NE_B', number=7)
                owne.append((full + '.Ne', f.name))
            no = []
            if ch.chance(1, 3):
                m.oneof_decl.add(name='one')
                no.append(0)
                if ch.chance(1, 3):
                    m.oneof_decl.add(name='two')
                    no.append(1)
            used = set()
            opts = []
            for k in range(ch.n(0, 4) + len(no)):
                num = ch.pick([k + 1, 40 - k, 2000 + 7 * k, k + 1])
                if num in used:
                    continue
                used.add(num)
                fld = m.field.add(name='%s_%d' % (ch.pick(['v', 'data', 'Name', 'zz']), k), number=num, label=1)
                t = ch.n(1, 18)
                fld.type = t if t not in (10, 11, 14) else 5
                w = ch.n(0, 9)
                if w >= 7 and own:
                    fld.type, fld.type_name = 11, own[-1 - ch.n(0, min(len(own), 6) - 1)][0]
                elif w >= 4 and owne:
                    fld.type, fld.type_name = 14, ch.pick(owne)[0]
                if k < len(no) or (no and ch.chance(1, 4)):
                    fld.oneof_index = no[k % len(no)]
                elif ch.chance(1, 4):
                    fld.label = 3
                    if ch.chance(1, 2):
                        fld.options.Extensions[opt.options].maxLength = ch.n(1, 30)
                elif ch.chance(1, 5):
                    opts.append(fld)
                if fld.type in (9, 12) and fld.label != 3 and ch.chance(1, 2):
                    fld.options.Extensions[opt.options].maxLength = ch.n(1, 300)
            for fld in opts:
                fld.proto3_optional = True
                m.oneof_decl.add(name='_' + fld.name)
                fld.oneof_index = len(m.oneof_decl) - 1
            # a oneof without fields cannot come from protoc
            live = {x.oneof_index for x in m.field if x.HasField('oneof_index')}
            if any(i not in live for i in range(len(m.oneof_decl))):
                for x in m.field:
                    x.ClearField('oneof_index')
                    x.proto3_optional = False
                del m.oneof_decl[:]
            return m
        made = []
        for k in range(nmsg):
            nm = names[ch.n(0, len(names) - 1)]
            if any(x.name == nm for x in made):
                continue
            m = message(nm, pre, 0, visible + local, enums + lenum)
            made.append(m)
            local.append((pre + '.' + nm, f.name))
            for sub in m.nested_type:
                if ch.chance(1, 3):
                    local.append((pre + '.' + nm + '.' + sub.name, f.name))
        # in the file the definitions stand in any order
        for k in range(len(made) - 1, 0, -1):
            j = ch.n(0, k)
            made[k], made[j] = made[j], made[k]
        f.message_type.extend(made)
        known_msgs += local
        known_enums += lenum
        req.file_to_generate.append(f.name)
    what = 'random'
    if ch.chance(1, 12):
        what = 'unsupported'
        f = req.proto_file[-1]
        bad = ch.n(0, 3)
        if bad == 0:
            f.syntax = 'proto2'
        elif bad == 1 and len(f.message_type) >= 2:      # a cycle
            pre = '.' + f.package + '.' if f.package else '.'
            for a, b in ((0, 1), (1, 0)):
                f.message_type[a].field.add(name='cyc', number=9000 + a, label=1, type=11, type_name=pre + f.message_type[b].name)
        elif bad == 2:                                    # a type nobody defined
            f.message_type[0].field.add(name='lost', number=9002, label=1, type=11, type_name='.no.where.Msg')
        else:                                             # a message in itself
            pre = '.' + f.package + '.' if f.package else '.'
            f.message_type[0].field.add(name='own', number=9003, label=3, type=11, type_name=pre + f.message_type[0].name)
    return req, what


# ---------------------------------------------------------------------------------------------------------------------- one generator process
PIPE = 4096
STALL = 60      # seconds of real time after which a process is held to be stuck


class Proc:
    """One simulated invocation of the generator and the two pipe ends of its peer."""

    def __init__(self, world, zy, req, plan):
        self.w, self.zy, self.req, self.plan = world, zy, req, plan
        self.out, self.pos, self.state, self.chunk = b'', 0, 'feed', 0
        inp, outp = plan['input'], plan['output']
        data = req[:inp['cut']] if inp['cut'] is not None else req
        self.data = data
        self.rin = self.win = self.rout = None
        fds = []
        if inp['how'] == 'unreadable':
            fi = os.open(os.path.join(world.dir, 'w%d' % world.tick()), os.O_WRONLY | os.O_CREAT, 0o600)
            self.state = 'drain'
        elif inp['how'] == 'file':
            p = os.path.join(world.dir, 'req%d' % world.tick())
            open(p, 'wb').write(data)
            fi = os.open(p, os.O_RDONLY)
            self.state = 'drain'
        else:
            fi, self.win = os.pipe()
            fcntl.fcntl(self.win, 1031, 1 << 20)
            if inp['how'] == 'closed':
                os.close(self.win)
                self.win, self.state = None, 'drain'
        fds.append(fi)
        self.file_out = None
        if outp['how'] == 'full':
            fo = os.open('/dev/full', os.O_WRONLY)
        elif outp['how'] in ('file', 'limit'):
            self.file_out = os.path.join(world.dir, 'out%d' % world.tick())
            fo = os.open(self.file_out, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
        else:
            self.rout, fo = os.pipe()
            fcntl.fcntl(fo, 1031, PIPE)
            if outp['how'] == 'nonblock':
                os.set_blocking(fo, False)
            if outp['how'] == 'gone':
                os.close(self.rout)
                self.rout = None
        fds.append(fo)
        self.err, fe = os.pipe()
        fcntl.fcntl(fe, 1031, 1 << 20)
        os.set_blocking(fe, False)
        os.set_blocking(self.err, False)
        fds.append(fe)
        cmd = dict(plan['proc'], stdin=inp['how'], stdout=outp['how'], fsize=outp.get('limit'))
        self.pid = zy.start(cmd, fds)
        os.close(fi)
        os.close(fo)
        os.close(fe)
        self.status = None

    def alive(self):
        try:
            with open('/proc/%d/stat' % self.pid) as f:
                return f.read().rsplit(')', 1)[1].split()[0] not in 'ZX'
        except OSError:
            return False

    def step(self):
        """One event at one of the two pipes; the scheduler decides whose turn it is."""
        t0 = time.time()
        if self.state == 'feed':
            sizes = self.plan['input']['chunks']
            n = sizes[self.chunk % len(sizes)] if sizes else len(self.data)
            self.chunk += 1
            if self.pos >= len(self.data):
                os.close(self.win)
                self.win, self.state = None, 'drain'
                return 'eof after %d bytes' % self.pos
            part = self.data[self.pos:self.pos + n]
            try:
                os.write(self.win, part)
            except BrokenPipeError:
                os.close(self.win)
                self.win, self.state = None, 'drain'
                return 'input refused'
            self.pos += len(part)
            # lockstep: the generator has taken this piece before anything else happens
            nap = 0.0
            while struct.unpack('i', fcntl.ioctl(self.win, termios.FIONREAD, b'\0' * 4))[0] and self.alive():
                time.sleep(nap)
                nap = min(nap + 0.0002, 0.005)
                if time.time() - t0 > STALL:
                    raise Violation('hang: the generator does not read its request')
            return 'fed %d' % len(part)
        if self.state == 'drain':
            if self.rout is None:
                self.finish()
                return 'end'
            o = self.plan['output']
            n = o['pieces'][self.chunk % len(o['pieces'])]
            self.chunk += 1
            if o['how'] == 'leaves' and len(self.out) + n >= o['after']:
                n = o['after'] - len(self.out)
                if n <= 0:
                    os.close(self.rout)
                    self.rout = None
                    return 'reader left'
            got = b''
            while len(got) < n:
                if not select.select([self.rout], [], [], STALL)[0]:
                    raise Violation('hang: the generator neither writes nor ends')
                b = os.read(self.rout, n - len(got))
                if not b:
                    self.out += got
                    os.close(self.rout)
                    self.rout = None
                    self.finish()
                    return 'end'
                got += b
            self.out += got
            return 'took %d' % len(got)

    def finish(self):
        t0 = time.time()
        while self.alive():
            time.sleep(0.001)
            if time.time() - t0 > STALL:
                os.kill(self.pid, signal.SIGKILL)
                self.zy.wait(self.pid)
                raise Violation('hang: the generator does not end')
        self.status = self.zy.wait(self.pid)
        self.state = 'done'
        if self.file_out:
            self.out = open(self.file_out, 'rb').read()
        raw = b''
        try:
            while True:
                b = os.read(self.err, 1 << 20)
                if not b:
                    break
                raw += b
        except BlockingIOError:
            pass
        os.close(self.err)
        self.err = None
        self.errtext = raw.decode('utf8', 'replace')
        if self.status == 99 or 'HARNESS' in self.errtext:
            raise Broken('simulated process: ' + self.errtext[-800:])

    def kill(self):
        for f in (self.win, self.rout, self.err):
            if f is not None:
                os.close(f)
        if self.state != 'done':
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass
            self.zy.wait(self.pid)


class World:
    def __init__(self, gen, scratch, zygotes, pools):
        self.gen, self.dir, self.zy, self.pools = gen, scratch, zygotes, pools
        self.ticks = 0
        self.refs, self.pts = {}, {}

    def tick(self):
        self.ticks += 1
        return self.ticks

    def plain(self, **kw):
        return dict(dict(env=dict(PATH='/usr/bin:/bin', LC_ALL='C'), cwd=self.dir, heap=0, clock=0, host='build', rnd=1, nofile=0, open_fail=None, line_fail=None, count=False), **kw)

    def undisturbed(self, req, **kw):
        p = Proc(self, self.zy[0], req, dict(proc=self.plain(**kw), input=dict(how='pipe', cut=None, chunks=[]), output=dict(how='pipe', pieces=[65536])))
        while p.state != 'done':
            p.step()
        return p

    def reference(self, req):
        """The answer to a request in an undisturbed world."""
        if req not in self.refs:
            if len(self.refs) > 300:
                self.refs.clear()
            p = self.undisturbed(req)
            self.refs[req] = (p.status, p.out)
        return self.refs[req]

    def points(self, req):
        """How many lines the generator executes and how many templates it opens for a request: the points to disturb."""
        if req not in self.pts:
            if len(self.pts) > 300:
                self.pts.clear()
            q = self.undisturbed(req, count=True, line_fail=[10 ** 9, 'memory'], open_fail=[10 ** 9, 5])
            n = dict(lines=0, opens=0)
            for line in q.errtext.splitlines():
                if line.startswith('{"lines"'):
                    n = json.loads(line)
            self.pts[req] = n
        return self.pts[req]


def is_failure(status, out):
    """For protoc: a failure status, or an answer that carries an error."""
    from google.protobuf.compiler import plugin_pb2
    if status != 0:
        return True
    try:
        r = plugin_pb2.CodeGeneratorResponse.FromString(out)
        return bool(r.error)
    except Exception:
        return False


def parses(data):
    from google.protobuf.compiler import plugin_pb2
    try:
        plugin_pb2.CodeGeneratorRequest.FromString(data)
        return True
    except Exception:
        return False


FAULT_FREE = ('pipe', 'file')


def make_plan(ch, world, req, cnt):
    """Environment, stream behaviour and faults of one invocation."""
    _, ref_out = world.reference(req)
    env = dict(PATH='/usr/bin:/bin')
    k = ch.n(0, 3)
    if k:
        env.update([{}, dict(LC_ALL='C.UTF-8', LANG='de_DE.UTF-8', TZ='Asia/Kathmandu', HOME=world.dir, USER='u%d' % ch.n(0, 9)),
                    dict(LC_ALL='C', TMPDIR=world.dir, SOURCE_DATE_EPOCH='0', TERM='dumb', DEBUG='1', EMBEDDEDPROTO_DEBUG='1'),
                    dict(LANG='tr_TR.UTF-8', PYTHONPATH='/nonexistent', HOME='/nonexistent', COLUMNS='20')][k])
    cwds = ['.', 'sub', 'sub/deeper', 'with space']
    cwd = os.path.join(world.dir, ch.pick(cwds))
    os.makedirs(cwd, exist_ok=True)
    proc = world.plain(env=env, cwd=cwd, heap=ch.n(0, 3) * ch.n(0, 400), clock=ch.pick([0, 86400 * 365 * 20, 3e9, 86400 * 3.3, 0.25]), host=ch.pick(['build', 'ci-runner-7']), rnd=ch.n(1, 1 << 20), nofile=ch.pick([0, 0, 32]))
    inp = dict(how='pipe', cut=None, chunks=[])
    how = ch.n(0, 4)
    if how == 1:
        inp['chunks'] = [max(1, len(req) // ch.n(2, 30))]
    elif how == 2:
        inp['chunks'] = [ch.n(1, 1 + len(req) // 8) + len(req) // 60 for _ in range(ch.n(1, 6))]
    elif how == 3:
        inp['chunks'] = [1 + ch.n(0, 3)] * 12 + [len(req)]
    elif how == 4:
        inp['how'] = 'file'
    out = dict(how=ch.pick(['pipe', 'pipe', 'pipe', 'file', 'nonblock']), pieces=[max(len(ref_out) // 60, ch.pick([65536, 4096, 1000, 3000, 9000]))])
    fault = ch.n(0, 13)
    if fault == 3:
        inp['cut'] = ch.n(0, max(0, len(req) - 1))
        cnt['cut_request'] = cnt.get('cut_request', 0) + 1
    elif fault == 4:
        out = dict(how='full', pieces=[1])
    elif fault == 5:
        out = dict(how='gone', pieces=[1])
    elif fault == 6 and ref_out:
        out = dict(how='limit', limit=ch.n(0, len(ref_out)), pieces=[1])
    elif fault == 7 and ref_out:
        out = dict(how='leaves', after=ch.n(0, len(ref_out)), pieces=[ch.pick([4096, 700, 65536])])
    elif fault == 8:
        out = dict(how='closed', pieces=[65536])
    elif fault == 9:
        inp['how'] = ch.pick(['unreadable', 'closed'])
    elif fault == 10 and world.points(req)['opens']:
        proc['open_fail'] = [ch.n(1, world.points(req)['opens']), ch.pick([errno.EIO, errno.EACCES, errno.EMFILE, errno.ENOMEM])]
    elif fault in (11, 12) and world.points(req)['lines']:
        proc['line_fail'] = [ch.n(1, world.points(req)['lines']), ch.pick(['memory', 'io', 'interrupt'])]
    return dict(proc=proc, input=inp, output=out)


def simulated_run(world, ch, cnt, log):
    """Several invocations, one after the other and at the same time, in one scratch directory."""
    for n in os.listdir(world.dir):
        p = os.path.join(world.dir, n)
        shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
    bump = lambda k: cnt.__setitem__(k, cnt.get(k, 0) + 1)
    reqs = []
    for _ in range(ch.n(1, 2)):
        r, what = make_request(ch, world.pools)
        bump('W' + what)
        reqs.append(r.SerializeToString(deterministic=True))
    todo = ch.n(1, 5)
    live, procs, nontrivial = [], [], False
    try:
        while todo or live:
            if todo and (not live or (len(live) < 3 and ch.chance(1, 6))):
                req = ch.pick(reqs)
                plan = make_plan(ch, world, req, cnt)
                zi = ch.n(0, len(world.zy) - 1)
                p = Proc(world, world.zy[zi], req, plan)
                p.no = len(procs)
                procs.append(p)
                live.append(p)
                todo -= 1
                log('process %d starts: request of %d bytes, hash seed %d, %s' % (p.no, len(req), world.zy[zi].hashseed, json.dumps(dict(plan, proc={k: v for k, v in plan['proc'].items() if v and k not in ('count',)}), sort_keys=True).replace(world.dir, 'DIR')))
                if len(live) > 1:
                    bump('Fconcurrent_processes')
                if world.zy[zi].hashseed:
                    bump('Fhash_seed')
                if plan['proc']['heap']:
                    bump('Fheap_layout')
                if plan['proc']['clock']:
                    bump('Fclock_jump')
                if plan['input']['chunks']:
                    bump('Ffragmented_request')
                for k, name in (('open_fail', 'template_unreadable'), ('line_fail', 'exception_at_line')):
                    if plan['proc'][k]:
                        bump('F' + name)
                if plan['input']['how'] not in FAULT_FREE:
                    bump('Finput_' + plan['input']['how'])
                if plan['output']['how'] not in FAULT_FREE:
                    bump('Foutput_' + plan['output']['how'])
            p = live[ch.n(0, len(live) - 1)] if len(live) > 1 else live[0]
            ev = p.step()
            bump('Ssteps')
            log('%d %s' % (p.no, ev))
            if p.state == 'done':
                live.remove(p)
                log('process %d: status %d, %d bytes %s' % (p.no, p.status, len(p.out), hashlib.sha256(p.out).hexdigest()[:16]))
                nontrivial |= judge(world, p, bump)
    finally:
        for p in live:
            p.kill()
    return nontrivial


def judge(world, p, bump):
    plan = p.plan
    rs, ro = world.reference(p.req)
    failed = is_failure(p.status, p.out)
    inp, out = plan['input'], plan['output']
    desc = 'a request of %d bytes' % len(p.req)
    if inp['how'] in ('unreadable', 'closed'):
        # nothing readable: a request which is only empty may be answered, anything else is a failure
        if inp['how'] == 'unreadable' and not failed:
            raise Violation('read-error-ignored: the request could not be read and the generator ended with status 0')
        if inp['how'] == 'unreadable':
            bump('Pread_error_reported')
        return True
    if inp['cut'] is not None:
        cut = p.req[:inp['cut']]
        if not parses(cut):
            bump('Pcut_inside_a_record')
            if not failed:
                raise Violation('cut-request-accepted: %s was cut off after %d bytes, inside a record, and the generator ended as if it had succeeded' % (desc, inp['cut']))
            return True
        rs, ro = world.reference(cut)
    if plan['proc']['open_fail'] or plan['proc']['line_fail'] is not None:
        bump('Pinternal_fault')
        if not failed and (p.status, p.out) != (rs, ro):
            raise Violation('fault-hidden: after %s the generator ended with status 0 and another answer (%d bytes, undisturbed %d)' % (json.dumps(plan['proc']['open_fail'] or plan['proc']['line_fail']), len(p.out), len(ro)))
        return True
    how = out['how']
    if how in ('full', 'gone', 'closed'):
        if ro and p.status == 0:
            raise Violation('lost-output: the answer to %s could not be delivered (%s) and the generator ended with status 0' % (desc, how))
        bump('Poutput_failure_reported')
        return True
    if how == 'limit':
        if out['limit'] < len(ro) and p.status == 0:
            raise Violation('lost-output: the device was full after %d of %d bytes and the generator ended with status 0' % (out['limit'], len(ro)))
        bump('Pdevice_full_at_byte')
    if how == 'leaves':
        if len(ro) - out['after'] > 2 * PIPE and p.status == 0:
            raise Violation('lost-output: the reader left after %d of %d bytes and the generator ended with status 0' % (out['after'], len(ro)))
        bump('Preader_left_at_byte')
        if not ro.startswith(p.out):
            raise Violation('other-answer: the first %d bytes for %s differ from those of an undisturbed run' % (len(p.out), desc))
        return True
    if p.status == 0 or (how not in ('limit', 'nonblock')):
        if (p.status, p.out) != (rs, ro):
            at = next((i for i, (a, b) in enumerate(zip(p.out, ro)) if a != b), min(len(p.out), len(ro)))
            raise Violation('other-answer: %s got status %d and %d bytes, in an undisturbed run status %d and %d bytes; they differ at byte %d: ...%r... instead of ...%r... %s' % (
                desc, p.status, len(p.out), rs, len(ro), at, p.out[max(0, at - 30):at + 40], ro[max(0, at - 30):at + 40], p.errtext[-200:]))
        bump('Psame_answer')
    return True


# ---------------------------------------------------------------------------------------------------------------------- batches
HASHSEEDS = [0, 1, 2, 3, 5, 17, 42, 99, 1234, 70001, 4294967295]


def open_world(gen, pool_file, worker, scratch_root):
    no_aslr()
    sys.path.insert(0, gen)
    import google.protobuf.compiler.plugin_pb2    # noqa
    pools = [base64.b64decode(x) for x in json.load(open(pool_file))]
    scratch = tempfile.mkdtemp(prefix='gen%d.' % worker, dir=scratch_root)
    seeds = HASHSEEDS[:1] + [h + 11 * worker for h in HASHSEEDS[1:-1]] + HASHSEEDS[-1:]
    return World(gen, scratch, Zygotes(gen, seeds), pools)


def one(world, seed, run, given=None, cnt=None):
    ch = Choices(seed, run, given)
    lines = []
    try:
        nt = simulated_run(world, ch, cnt if cnt is not None else {}, lines.append)
        return None, ch.taken, lines, nt
    except Violation as v:
        return str(v), ch.taken, lines, True


def shrink(world, seed, run, taken, what, budget):
    t0 = time.time()
    cls = what.split(':')[0]

    def fails(g):
        w, t, _, _ = one(world, seed, run, g)
        return w is not None and w.split(':')[0] == cls
    best = list(taken)
    size = max(1, len(best) // 2)
    while size and time.time() - t0 < budget:
        i = 0
        while i < len(best) and time.time() - t0 < budget:
            for g in (best[:i] + best[i + size:], best[:i] + [0] * len(best[i:i + size]) + best[i + size:]):
                if g != best and fails(g):
                    best = g
                    break
            else:
                i += size
        size //= 2
    return best


def work(a):
    world = open_world(a['gen'], a['pools'], a['worker'], a['scratch'])
    cnt, sigs, fails = {}, set(), []
    runs = nont = choices = left = 0
    t0 = time.time()
    try:
        for run in range(a['worker'], a['count'], a['stride']):
            if time.time() - t0 > a['budget']:
                left += 1
                continue
            w, taken, lines, nt = one(world, a['seed'], run, None, cnt)
            runs += 1
            choices += len(taken)
            if nt:
                nont += 1
                sigs.add(hashlib.sha256('\n'.join(lines).encode()).hexdigest()[:16])
            if w:
                g = shrink(world, a['seed'], run, taken, w, 40)
                w2, t2, l2, _ = one(world, a['seed'], run, g)
                if w2 is None:
                    w2, t2, l2, g = w, taken, lines, taken
                f = '%s.w%d.run%d.replay.json' % (a['out'], a['worker'], run)
                json.dump(dict(property='C19', seed=a['seed'], run=run, worker=a['worker'], violation=w2, choices=t2, history=l2), open(f, 'w'), indent=1)
                fails.append([f, w2])
                break
    finally:
        shutil.rmtree(world.dir, ignore_errors=True)
    json.dump(dict(runs=runs, nontrivial=nont, choices=choices, left=left, cnt=cnt, sigs=sorted(sigs), fails=fails, wall=time.time() - t0), open('%s.w%d.stats' % (a['out'], a['worker']), 'w'))


def prepare():
    import check
    dst = os.path.join(check.BUILD, 'gen-' + check.tree_hash('gensim'))
    os.makedirs(check.BUILD, exist_ok=True)
    with open(os.path.join(check.BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(dst, 'ok')):
            import glob
            for old in glob.glob(os.path.join(check.BUILD, 'gen-*')):
                shutil.rmtree(old, ignore_errors=True)
            os.makedirs(dst)
            py, gen, plug = check.prepare_generator(dst)
            # the recorded requests: what protoc really sends for the schemas
            rec = os.path.join(dst, 'recorder')
            with open(rec, 'w') as f:
                f.write('#!%s -B\nimport sys, os\nd = sys.stdin.buffer.read()\nopen(os.environ["REC_TO"], "wb").write(d)\nsys.stdout.buffer.write(bytes([16, 1]))\n' % py)
            os.chmod(rec, 0o755)
            schemas = os.path.join(check.VERIF, 'schemas')
            protos = sorted(os.path.basename(p) for p in glob.glob(os.path.join(schemas, '*.proto')))
            pools = []
            for group in [[p] for p in protos] + [protos]:
                check.sh(['protoc', '-I', schemas, '-I', gen, '--plugin=protoc-gen-rec=' + rec, '--rec_out=' + dst] + group, cwd=schemas, env=dict(check.ENV, REC_TO=os.path.join(dst, 'r')))
                pools.append(base64.b64encode(open(os.path.join(dst, 'r'), 'rb').read()).decode())
            json.dump(pools, open(os.path.join(dst, 'pools.json'), 'w'))
            open(os.path.join(dst, 'py'), 'w').write(py)
            open(os.path.join(dst, 'ok'), 'w').write('')
    return dst, open(os.path.join(dst, 'py')).read()


def child_env():
    return dict(PATH='/usr/bin:/bin', LC_ALL='C', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')


def check(tier, seed):
    import check as C
    t0 = time.time()
    d = os.path.join(C.OUT, 'C19')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    dst, py = prepare()
    count = int((QUICK if tier == 'quick' else QUICK * 25) * C.SCALE)
    procs = []
    for w in range(C.NCPU):
        a = dict(gen=os.path.join(dst, 'generator'), pools=os.path.join(dst, 'pools.json'), worker=w, stride=C.NCPU, count=count, seed=seed, budget=150 if tier == 'quick' else 2400, out=os.path.join(d, tier), scratch=d)
        procs.append(subprocess.Popen([py, '-B', os.path.abspath(__file__), 'work', json.dumps(a)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=child_env()))
    tot = dict(runs=0, nontrivial=0, choices=0, left=0, wall=0.0)
    cnt, sigs, fails = {}, set(), []
    for w, p in enumerate(procs):
        out = p.communicate()[0].decode('utf8', 'replace')
        if p.returncode:
            raise C.CheckError('generator simulation ended with %d: %s' % (p.returncode, out[-3000:]))
        st = json.load(open(os.path.join(d, '%s.w%d.stats' % (tier, w))))
        for k in ('runs', 'nontrivial', 'choices', 'left'):
            tot[k] += st[k]
        tot['wall'] = max(tot['wall'], st['wall'])
        for k, n in st['cnt'].items():
            cnt[k] = cnt.get(k, 0) + n
        sigs |= set(st['sigs'])
        fails += st['fails']
    sample = []
    if not fails:
        for i in range(3):
            r = subprocess.run([py, '-B', os.path.abspath(__file__), 'show', json.dumps(dict(gen=os.path.join(dst, 'generator'), pools=os.path.join(dst, 'pools.json'), worker=i % C.NCPU, seed=seed, run=i, scratch=d))], stdout=subprocess.PIPE, env=child_env())
            sample.append(dict(seed=seed, run=i, history=r.stdout.decode('utf8', 'replace').splitlines()[:30]))
    pick = lambda pre: {k[1:]: n for k, n in sorted(cnt.items()) if k[0] == pre}
    cov = dict(evaluations=tot['runs'], distinct_nontrivial=len(sigs), rule='One evaluation is one simulated run: one to five generator processes, in sequence and at the same time, in one scratch directory; requests, hash seeds, environment, heap layout, clock, the size of every piece read and written and all faults are drawn from (seed, run index). Every run compares complete answers and is non-trivial; runs are distinct when the hashes of their event histories differ.',
               samples=sample or [dict(violation=w, replay=f) for f, w in fails], nontrivial_runs=tot['nontrivial'], seeds=dict(property_seed=seed, run_indexes='0..%d' % (count - 1)), runs_per_hour=int(tot['runs'] * 3600 / max(tot['wall'], 1e-3)), choices_drawn=tot['choices'],
               seam_operations=cnt.get('Ssteps', 0), simulated_seconds=0, faults_injected=pick('F'), conditions_reached=pick('P'), workload=pick('W'), runs_left_out_by_time_cap=tot['left'],
               components_real=['the generator and its templates (/repo/generator), unchanged, in its own processes', 'CPython, protobuf, jinja2 and toposort as installed', 'protoc, which recorded the requests for /verif/schemas'],
               components_simulated=['protoc as the peer of the two pipes', 'disk and device behind standard output', 'clock, random numbers, directory order, heap layout, memory and file errors inside the process', 'the schedule of concurrent generator processes at their pipe operations'])
    C.write_evidence('C19', tier, seed, 'exploration', cov, time.time() - t0, len(fails), ['the answer in an undisturbed process (hash seed 0) is the reference; whether that answer is right is decided by the other properties'])
    for f, w in fails:
        print('C19: ' + w)
        print('VIOLATION property=C19 replay=%s' % f)
    if fails:
        return 1
    print('C19 held on %d simulated runs (%d distinct non-trivial), %.0f s' % (tot['runs'], len(sigs), time.time() - t0))
    return 0


QUICK = 1200


def replay(f):
    import check as C
    dst, py = prepare()
    j = json.load(open(f))
    d = os.path.join(C.OUT, 'C19')
    os.makedirs(d, exist_ok=True)
    a = dict(gen=os.path.join(dst, 'generator'), pools=os.path.join(dst, 'pools.json'), worker=j['worker'], seed=j['seed'], run=j['run'], scratch=d, given=j['choices'])
    r = subprocess.run([py, '-B', os.path.abspath(__file__), 'show', json.dumps(a)], stdout=subprocess.PIPE, env=child_env())
    out = r.stdout.decode('utf8', 'replace')
    print(out)
    if r.returncode not in (0, 1):
        return 3
    if r.returncode == 1:
        print('VIOLATION property=C19 replay=%s' % f)
    return r.returncode


def show(a):
    world = open_world(a['gen'], a['pools'], a['worker'], a['scratch'])
    try:
        w, taken, lines, _ = one(world, a['seed'], a['run'], a.get('given'))
    finally:
        shutil.rmtree(world.dir, ignore_errors=True)
    print('\n'.join(lines))
    if w:
        print(w)
    return 1 if w else 0


if __name__ == '__main__':
    if sys.argv[1] == 'zygote':
        zygote(sys.argv[2])
    elif sys.argv[1] == 'work':
        work(json.loads(sys.argv[2]))
    elif sys.argv[1] == 'show':
        sys.exit(show(json.loads(sys.argv[2])))
