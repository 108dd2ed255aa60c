"""Compile /repo's current working tree to normalised IR (nothing is ever executed from it except
the repository's own build-time table generators, whose output is part of the source)."""
import json, os, shlex, shutil, subprocess, sys, tempfile, atexit, re
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VP_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LLVM = '/usr/lib/llvm-18/bin/'


class AnalysisBroken(Exception):
    pass


def tool(name):
    p = LLVM + name
    return p if os.path.exists(p) else (shutil.which(name) or name)


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode:
        e = AnalysisBroken('command failed: %s\n%s\n%s' % (cmd if isinstance(cmd, str) else ' '.join(cmd), r.stdout[-2000:], r.stderr[-4000:]))
        e.full = r.stderr
        raise e
    return r.stdout


def irdump_bin():
    out = os.path.join(VERIF, 'bin', 'irdump')
    src = os.path.join(VERIF, 'tool', 'irdump.cpp')
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + '.%d' % os.getpid()
    cfg = tool('llvm-config')
    flags = shlex.split(run([cfg, '--cxxflags'])) + ['-std=c++17', '-w']
    libs = shlex.split(run([cfg, '--ldflags', '--libs', '--link-shared']))
    cxx = tool('clang++')
    run([cxx, '-O1'] + flags + [src, '-o', tmp] + libs)
    os.replace(tmp, out)
    return out


GENS = ['gen-crc8', 'gen-crc16', 'gen-crc16be', 'gen-crc32', 'gen-crc32be', 'gen-crc64', 'gen-crc64be']
DEBUGOFF = ['LIST', 'SLIST', 'HLIST', 'ILIST', 'RBTREE', 'HEAP', 'REFCNT', 'MEMALLOC']


class Tree:
    """one configured scratch build of the repository"""

    def __init__(self, debug=True, cmake=()):
        self.dir = tempfile.mkdtemp(prefix='bfv-')
        atexit.register(shutil.rmtree, self.dir, True)
        self.debug = debug
        args = ['cmake', '-S', REPO, '-B', self.dir + '/b', '-G', 'Ninja', '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON',
                '-DCMAKE_C_COMPILER=/usr/bin/gcc', '-DCMAKE_BUILD_TYPE=RelWithDebInfo', '-DBFDEV_STRICT=OFF']
        if not debug:
            args += ['-DBFDEV_DEBUG_%s=OFF' % x for x in DEBUGOFF]
        run(args + list(cmake))
        nin = run(['ninja', '-C', self.dir + '/b', '-t', 'targets', 'all'])
        gens = [g for g in GENS if re.search(r'^%s:' % re.escape(g), nin, re.M)]
        if gens:
            run(['ninja', '-C', self.dir + '/b'] + gens)
        cc = json.load(open(self.dir + '/b/compile_commands.json'))
        self.tus = {}
        for c in cc:
            if 'bfdev_object.dir' not in c.get('output', c['command']):
                continue
            a = shlex.split(c['command'])
            keep = []
            it = iter(a[1:])
            for x in it:
                if x in ('-o', '-c', '-MF', '-MT', '-MQ'):
                    if x != '-c':
                        next(it)
                elif x in ('-I', '-D', '-U', '-include', '-isystem'):
                    keep += [x, next(it)]
                elif x.startswith(('-I', '-D', '-U', '-std', '-fvisibility', '-isystem', '-include', '-fno-strict', '-fshort', '-funsigned', '-fsigned', '-m')):
                    keep.append(x)
            self.tus[os.path.realpath(c['file'])] = keep
        if len(self.tus) < 50:
            raise AnalysisBroken('only %d library translation units found' % len(self.tus))
        self.flags = next(iter(self.tus.values()))

    def cc(self, src, out, flags=None, extra=(), opt='-O0'):
        run([tool('clang'), '-w'] + list(flags or self.flags) + list(extra) + [opt, '-Xclang', '-disable-O0-optnone', '-Xclang', '-disable-llvm-passes',
             '-g', '-fno-discard-value-names', '-emit-llvm', '-c', src, '-o', out])
        return out

    def bitcode(self, files=None, witnesses=()):
        """compile + link; returns path of the linked module"""
        jobs = []
        for i, (f, fl) in enumerate(sorted(self.tus.items())):
            if files is not None and os.path.relpath(f, REPO) not in files:
                continue
            jobs.append((f, '%s/t%d.bc' % (self.dir, i), fl))
        for i, w in enumerate(witnesses):
            jobs.append((w, '%s/w%d.bc' % (self.dir, i), self.flags))
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(lambda j: self.cc(*j), jobs))
        linked = self.dir + '/all.bc'
        run([tool('llvm-link'), '-o', linked] + outs)
        self.ntu = len(outs)
        return linked

    def dump(self, bc, opts=()):
        out = bc + ('.%s' % '_'.join(x.strip('-').replace(',', '+')[:20] for x in opts)) + '.json'
        run([irdump_bin()] + list(opts) + [bc, out])
        return json.load(open(out))
