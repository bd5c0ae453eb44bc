"""Coverage-guided campaigns (libFuzzer) over the assembler, with a generated seed corpus and dictionary."""
import os
import random
import re
import subprocess
import tempfile
import time

from .. import build, gen
from ..engine import G
from ..isa import BY_MNEMONIC
from .mutate import MODS, WORDS

DICT_EXTRA = ['.dksh compute', '.type compute', '.num_gprs 1', '.workgroup_size 1 2 3', '.shared_memory 4', '.local_memory 4', 'main:\\n',
              '@P0 ', '@!PT ', '@WAIT 1', '@WB 1', '@RB 1', '@DEP 1', '@Y', 'c[0x1][0x4]', '[R1+0x4]', 'a[0x10]', '-|R1|', ', ', ';\\n',
              'R1', 'RZ', 'P1', '0x1', '1.5', '-INF', 'QNAN']


class Fuzzer:
    def __init__(self, seed, runs, max_time, procs=8, max_len=400):
        self.seed, self.runs, self.max_time, self.procs, self.max_len = seed, runs, max_time, procs, max_len

    def build(self):
        d = build.build('fuzz', targets=('nxas_lib',))
        exe = os.path.join(d, 'fuzz')
        if not os.path.exists(exe):
            flags = build.FLAVOURS['fuzz'][1].replace('fuzzer-no-link', 'fuzzer').split()
            build.run(['clang++', '-std=c++20'] + flags + ['-Wl,--wrap=exit', '-I', os.path.join(build.REPO, 'include'),
                      os.path.join(build.VERIF, 'harness', 'fuzz.cpp'), build.library(d), '-o', exe])
        return exe

    def seeds(self, d):
        rng = random.Random('fuzz-%d' % self.seed)
        rot = {}
        n = 0
        for i in range(600):
            g = G(rng=rng, rot=rot)
            if i < 400:
                text = gen.render(gen.gen_stmt(g).toks) + '\n'
            else:
                prog, tail, _ = gen.gen_program(g, 1, 6, 3)
                text = gen.render_program(prog, tail, g, 2)
                if i % 3 == 0:
                    text = '.dksh compute\n.num_gprs 16\n.workgroup_size 1 2 3\n' + text
            if len(text) <= self.max_len:
                with open(os.path.join(d, 's%04d' % n), 'w') as f:
                    f.write(text)
                n += 1
        return n

    def dictionary(self, path):
        def q(s):
            return '"%s"' % re.sub(r'[^ -!#-\[\]-~]', lambda m: '\\x%02x' % ord(m.group(0)), s)
        with open(path, 'w') as f:
            for w in sorted(BY_MNEMONIC) + MODS + WORDS + [x.replace('\\n', '\n') for x in DICT_EXTRA]:
                f.write(q(w) + '\n')

    def run(self, minimise=True):
        """(corpus contents, crashing inputs, statistics)."""
        exe = self.build()
        base = tempfile.mkdtemp(prefix='fuzz-', dir=build.scratch())
        self.dictionary(os.path.join(base, 'dict'))
        t0 = time.time()
        ps = []
        nseeds = 0
        env = dict(os.environ)
        env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=77'
        env['UBSAN_OPTIONS'] = 'halt_on_error=1:print_stacktrace=0'
        for i in range(self.procs):
            c = os.path.join(base, 'corpus%d' % i)
            a = os.path.join(base, 'art%d' % i)
            os.mkdir(c)
            os.mkdir(a)
            if i % 4 != 3:            # every fourth campaign starts from nothing but the dictionary
                nseeds = self.seeds(c)
            cmd = [exe, c, '-seed=%d' % (self.seed * 1000 + i + 1), '-runs=%d' % (self.runs // self.procs),
                   '-max_total_time=%d' % self.max_time, '-dict=' + os.path.join(base, 'dict'), '-artifact_prefix=' + a + '/',
                   '-max_len=%d' % self.max_len, '-timeout=20', '-rss_limit_mb=3000', '-close_fd_mask=3', '-print_final_stats=1',
                   '-detect_leaks=0', '-reload=0', '-use_value_profile=%d' % (i % 2)]
            ps.append((subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env), c, a))
        execs = 0
        cov = 0
        corpus, crashes = set(), []
        for p, c, a in ps:
            try:
                err = p.communicate(timeout=self.max_time + 120)[1].decode('utf8', 'replace')
            except subprocess.TimeoutExpired:
                p.kill()
                err = p.communicate()[1].decode('utf8', 'replace')
            m = re.search(r'stat::number_of_executed_units: *(\d+)', err)
            if m:
                execs += int(m.group(1))
            for m in re.finditer(r'cov: (\d+)', err):
                cov = max(cov, int(m.group(1)))
            for n in sorted(os.listdir(c)):
                with open(os.path.join(c, n), 'rb') as f:
                    corpus.add(f.read())
            for n in sorted(os.listdir(a)):
                path = os.path.join(a, n)
                with open(path, 'rb') as f:
                    raw = f.read()
                if minimise and n.startswith('crash-'):
                    out = path + '.min'
                    subprocess.run([exe, '-minimize_crash=1', '-runs=20000', '-max_total_time=20', '-exact_artifact_path=' + out, path],
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env)
                    if os.path.exists(out):
                        with open(out, 'rb') as f:
                            crashes.append(f.read())
                crashes.append(raw)
        crashes.sort(key=len)
        stats = {'executions': execs, 'coverage edges': cov, 'corpus': len(corpus), 'seed texts per campaign': nseeds,
                 'campaigns': self.procs, 'fuzzing seconds': round(time.time() - t0, 1)}
        return sorted(corpus), crashes, stats
