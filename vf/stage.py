"""Stage /repo's current working tree and build the concrete harness from it.

Nothing is written inside /repo: the project's own install step (which generates
the kernels and the grid table) runs in a scratch copy."""
import os, shutil, subprocess, tempfile, glob, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
ENV = dict(os.environ)
ENV['PATH'] = VERIF + '/harness/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
ENV['PYTHONDONTWRITEBYTECODE'] = '1'
ENV['LANG'] = 'C.UTF-8'


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, text=True, **kw)
    return r.returncode, r.stdout


class Stage:
    def __init__(self):
        self.root = tempfile.mkdtemp(prefix='vf_')
        self.dir = self.root + '/s'
        os.mkdir(self.dir)
        for n in ('src', 'include', 'python', 'install.sh', 'Makefile', 'kernels.mk', 'env.sh'):
            p = REPO + '/' + n
            if os.path.isdir(p):
                shutil.copytree(p, self.dir + '/' + n)
            elif os.path.exists(p):
                shutil.copy(p, self.dir + '/' + n)
        rc, out = sh(['bash', '-e', './install.sh'], cwd=self.dir)
        self.install_out = out
        if rc:
            raise BuildError('install.sh failed: ' + out[-2000:])
        s = self.dir + '/src'
        skip = {'linear.cpp', 'autotune_sa.cpp'}
        self.lib = [f for f in sorted(glob.glob(s + '/*.cpp')) if os.path.basename(f) not in skip]
        self.asm = [f for f in [s + '/kernels/haswell/blis_pack_haswell.cpp'] if os.path.exists(f)]
        self.kern = [s + '/kernels/haswell/dense.cpp', s + '/kernels/haswell/transpose_haswell.cpp']
        kh = open(self.dir + '/include/kernels.h').read()
        shapes = sorted({(int(a), int(b)) for a, b in re.findall(r'cake_sgemm_haswell_(\d+)x(\d+)\s*\(', kh)})
        self.shapes = shapes or [(6, 16)]

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)

    FL = {
        'asan': ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize=alignment', '-fno-sanitize-recover=all'],
        'tsan': ['-O1', '-g', '-fsanitize=thread', '-DVF_TSAN'],
        'plain': ['-O2', '-g'],
    }
    WRAP = ['malloc', 'calloc', 'realloc', 'free', 'posix_memalign', 'aligned_alloc', 'popen', 'pclose', 'fopen', 'fclose']

    def build(self, flavour):
        """Compile library + harness; returns the binary's path."""
        out = '%s/b_%s' % (self.root, flavour)
        exe = out + '/replay'
        if os.path.exists(exe):
            return exe
        os.makedirs(out, exist_ok=True)
        # MR_MIN.. from the generated header: every shape in kernel_map
        mrs = sorted({a for a, _ in self.shapes})
        nrs = sorted({b for _, b in self.shapes})
        base = ['g++', '-w', '-fopenmp', '-D_POSIX_C_SOURCE=200112L', '-I' + self.dir + '/include', '-mavx', '-mfma',
                '-mtune=haswell', '-DUSE_CAKE_HASWELL', '-DUSE_CAKE_PACK'] + self.FL[flavour]
        jobs = []
        for f in self.lib + self.asm + self.kern:
            jobs.append((f, base, out + '/' + os.path.basename(f)[:-4] + '_' + str(len(jobs)) + '.o'))
        jobs.append((VERIF + '/harness/replay.cpp', base + ['-UD_POSIX_C_SOURCE', '-DREPLAY_MRS=' + ','.join(map(str, mrs)), '-DREPLAY_NRS=' + ','.join(map(str, nrs))], out + '/replay.o'))
        if flavour == 'tsan':
            jobs.append((VERIF + '/harness/omp_stub.cpp', base, out + '/omp_stub.o'))
        else:
            jobs.append((VERIF + '/harness/wrap.cpp', base, out + '/wrap.o'))

        def one(j):
            return j[0], sh(j[1] + ['-c', j[0], '-o', j[2]])
        with ThreadPoolExecutor(8) as ex:
            for f, (rc, o) in ex.map(one, jobs):
                if rc:
                    raise BuildError('%s: %s' % (f, o[-3000:]))
        # which kernel is called with which tile: wrappers around the generated kernels
        syms = []
        for j in jobs:
            if '/kernels/' in j[0]:
                for l in sh(['nm', '--defined-only', j[2]])[1].splitlines():
                    m = re.search(r' T (_Z\d+cake_sgemm_haswell_(\d+)x(\d+)PfS_S_iii)$', l)
                    if m:
                        syms.append(m.groups())
        wk = out + '/wrapk.cpp'
        with open(wk, 'w') as f:
            f.write('extern "C" {\nvoid vf_kernel(int, int, int, int);\n')
            for q, a, b in syms:
                f.write('void __real_%s(float*, float*, float*, int, int, int);\nvoid __wrap_%s(float* a, float* b, float* c, int m, int n, int k) { vf_kernel(%s, %s, m, n); __real_%s(a, b, c, m, n, k); }\n' % (q, q, a, b, q))
            f.write('}\n')
        rc, o = sh(base + ['-c', wk, '-o', out + '/wrapk.o'])
        if rc:
            raise BuildError('wrapk: ' + o[-1000:])
        jobs.append((wk, None, out + '/wrapk.o'))
        link = [x for x in base if x != '-fopenmp'] if flavour == 'tsan' else list(base)
        if flavour != 'tsan':
            link += ['-Wl,' + ','.join('--wrap=' + w for w in self.WRAP)]
        link += ['-Wl,--wrap=' + q for q, _a, _b in syms]
        rc, o = sh(link + [j[2] for j in jobs] + ['-lpthread', '-o', exe])
        if rc:
            raise BuildError('link: ' + o[-3000:])
        return exe
