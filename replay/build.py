"""Compile a replay program together with the sources of /repo's working tree (exact-rational build), in a
scratch directory of its own.  usage: build.py OUTDIR prog.c [dir ...]"""
import sys, os, subprocess, concurrent.futures as cf
REPO = os.environ.get('VF_REPO', '/repo')
SKIP = {'test_texpr0.c', 'oct_test.c', 'avo_test.c', 'test.c', 'test2.c', 'ap_linearize_aux.c'}


def sources(dirs):
    out = []
    for d in dirs:
        for f in sorted(os.listdir(os.path.join(REPO, d))):
            if f.endswith('.c') and f not in SKIP and not f.endswith('_caml.c') and not f.startswith('test'):
                out.append(os.path.join(REPO, d, f))
    return out


def build(outdir, prog, dirs=('apron', 'itv', 'box', 'octagons'), cc='gcc', extra=('-O1', '-g'), timeout=240):
    """-> (executable or None, log)"""
    inc = ['-I%s/%s' % (REPO, d) for d in ('num', 'itv', 'apron', 'box', 'octagons', 'avoct', 'newpolka')]
    fl = ['-std=gnu99', '-w', '-DNUM_MPQ', '-U__STRICT_ANSI__'] + list(extra) + inc

    with open(os.path.join(outdir, 'ap_version.h'), 'w') as f:
        f.write('#define APRON_VERSION "replay"\n')
    inc.append('-I' + outdir)
    fl = fl + inc[-1:]

    def one(s, o, more=()):
        p = subprocess.run([cc] + fl + list(more) + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode()
    objs, jobs = [], []
    for s in sources(dirs):
        o = os.path.join(outdir, os.path.basename(os.path.dirname(s)) + '_' + os.path.basename(s)[:-2] + '.o')
        # its self-check stops on a recorded finding; h_C16.c does that check
        jobs.append((s, o, ('-DNDEBUG',) if os.path.basename(s) == 'pk_project.c' else ()))
    if 'apron' in dirs:
        # the linearisation helper is compiled once per number type
        s = os.path.join(REPO, 'apron', 'ap_linearize_aux.c')
        for nt, suf in (('NUM_DOUBLE', 'D'), ('NUM_MPFR', 'MPFR')):
            for src in [s] + sources(['itv']):
                o = os.path.join(outdir, 'aux_%s_%s.o' % (os.path.basename(src)[:-2], suf))
                jobs.append((src, o, ('-UNUM_MPQ', '-D' + nt)))
        jobs.append((s, os.path.join(outdir, 'aux_MPQ.o'), ()))
    jobs.append((prog, os.path.join(outdir, 'prog.o'), ()))
    log = ''
    with cf.ThreadPoolExecutor(8) as ex:
        for (s, o, m), (rc, out) in zip(jobs, ex.map(lambda j: one(*j), jobs)):
            objs.append(o)
            if rc:
                return None, log + out
    exe = os.path.join(outdir, 'prog')
    p = subprocess.run([cc] + list(extra) + objs + ['-o', exe, '-lmpfr', '-lgmp', '-lm'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        return None, p.stdout.decode()
    return exe, log


if __name__ == '__main__':
    os.makedirs(sys.argv[1], exist_ok=True)
    exe, log = build(sys.argv[1], sys.argv[2], tuple(sys.argv[3:]) or ('apron', 'itv', 'box', 'octagons'))
    print(exe or log)
    sys.exit(0 if exe else 1)
