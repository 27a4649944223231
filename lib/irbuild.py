"""Compile /repo's current C sources to LLVM IR in a scratch directory (never inside /repo).

Three forms are produced:
  serial : without -fopenmp   (pragmas ignored: plain loops), used by every rule except thread safety
  omp    : with -fopenmp      (parallel regions become outlined functions)
  omp-inline : both of omp and inline
  inline : serial, and calls to functions of the same file are inlined (helper extraction leaves no trace)
Locals are promoted to SSA registers with opt's sroa/mem2reg, so that the rules see what a value is,
not how many temporaries or in which order the source spelled it.
"""
import glob, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('COFFE_REPO', '/repo')
FORM = os.environ.get('COFFE_FORM', '')       # '' or 'unrolled': two faithful forms of the same program
CLANG = '/usr/bin/clang-18'
OPT = '/usr/bin/opt-18'


class BuildBroken(Exception):
    pass


def lib_sources(repo=None):
    """The C translation units the build compiles: from CMakeLists.txt's source list, resolved to files."""
    repo = repo or REPO
    srcs = sorted(glob.glob(os.path.join(repo, 'src', '*.c')))
    if len(srcs) < 10:
        raise BuildBroken('only %d C sources found under %s/src' % (len(srcs), repo))
    return srcs


INC = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'include')


FIRST = re.compile(r'= getelementptr inbounds (%struct\.[\w.]+|\[\d+ x [^\],]+\]), ptr (%[\w.$-]+|%"[^"]+"), (i32|i64) 0, (i32|i64) 0(?=,|$)', re.M)


def hide_first(text):
    kept = {}

    def one(m):
        k = kept.setdefault((m.group(1), m.group(3), m.group(4)), len(kept))
        return '= call ptr @first.member.%d(ptr %s)' % (k, m.group(2))

    text = FIRST.sub(one, text)
    text += ''.join('\ndeclare ptr @first.member.%d(ptr) willreturn nounwind memory(none)\n' % k for k in kept.values())
    return text, {k: t for t, k in kept.items()}


def show_first(text, kept):
    def one(m):
        t, a, b = kept[int(m.group(1))]
        return 'getelementptr inbounds %s, ptr %s, %s 0, %s 0' % (t, m.group(2), a, b)

    text = re.sub(r'(?:tail |notail |musttail )?call ptr @first\.member\.(\d+)\(ptr ([^)]+)\)', one, text)
    return re.sub(r'^declare ptr @first\.member\..*$', '', text, flags=re.M)


def compile_all(mode='serial', repo=None, extra_sources=(), only=None):
    """-> {basename: IR text}"""
    repo = repo or REPO
    tmp = tempfile.mkdtemp(prefix='coffe-ir-')
    try:
        inc = INC
        srcs = lib_sources(repo) if only is None else list(only)
        srcs += list(extra_sources)

        def one(src):
            base = os.path.basename(src)[:-2]
            raw = os.path.join(tmp, base + '.raw.ll')
            out = os.path.join(tmp, base + '.ll')
            lvl = ['-O1', '-Xclang', '-disable-llvm-passes'] + (['-funroll-loops'] if FORM == 'unrolled' else []) if 'inline' in mode else ['-O0', '-Xclang', '-disable-O0-optnone']
            cmd = [CLANG] + lvl + ['-fno-discard-value-names', '-g', '-S',
                   '-emit-llvm', '-std=gnu99', '-ffp-contract=off', '-DNDEBUG', '-DPACKAGE_STRING="coffe"', '-I' + inc,
                   '-I' + os.path.join(repo, 'src'), '-w', '-Wno-error=implicit-function-declaration',
                   '-Wno-error=int-conversion', '-Wno-error=incompatible-function-pointer-types']
            if 'omp' in mode:
                cmd.append('-fopenmp')
            cmd += [src, '-o', raw]
            p = subprocess.run(cmd, capture_output=True, text=True)
            if p.returncode:
                raise BuildBroken('clang failed on %s:\n%s' % (src, p.stderr[-2000:]))
            def opt(passes, a, b):
                p = subprocess.run([OPT, '-S', '-inline-threshold=100000', '-inlinecold-threshold=100000', '-inline-cold-callsite-threshold=100000', '-unroll-full-max-count=12', '-unroll-threshold=100000', '-passes=' + passes, a, '-o', b], capture_output=True, text=True)
                if p.returncode:
                    raise BuildBroken('opt failed on %s:\n%s' % (src, p.stderr[-2000:]))

            if 'inline' in mode:
                # the inliner drops the address computation of first members; they are kept behind a call meanwhile
                opt('sroa,mem2reg', raw, out)
                with open(out) as f:
                    text, kept = hide_first(f.read())
                with open(raw, 'w') as f:
                    f.write(text)
                opt('cgscc(inline)', raw, out)
                with open(out) as f:
                    text = show_first(f.read(), kept)
                with open(raw, 'w') as f:
                    f.write(text)
                # loops of a few rounds (tables of kinds, of populations) leave no trace in the second form
                if FORM == 'unrolled':
                    opt('sroa,mem2reg,function(loop-unroll<O3;no-partial;no-runtime;no-peeling;no-upperbound;full-unroll-max=12>,sccp,sroa,mem2reg)', raw, out)
                    os.replace(out, raw)
            opt('lowerswitch' if FORM == 'unrolled' and 'inline' in mode else 'sroa,mem2reg,lowerswitch', raw, out)
            with open(out) as f:
                return base, f.read()

        with ThreadPoolExecutor(8) as ex:
            return dict(ex.map(one, srcs))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
