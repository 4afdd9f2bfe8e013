"""Compiler driver used as `make CC=...` for generated solvers: instruments the
generated code and links it behind the simulation runtime.  At link time every
CasADi function referenced by the solver is routed through simfn_call()."""
import os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst.build import WRAPFLAGS, TSAN


def main(root, argv):
    lib = os.path.join(root, 'lib')
    if '-c' in argv:
        a = [x for x in argv if not x.startswith('-Werror')]
        os.execvp('gcc', ['gcc', '-g1', '-w'] + TSAN + ['-fno-builtin-malloc'] + a + ['-I' + os.path.join(root, 'include'), '-O1'])
    objs = [x for x in argv if x.endswith('.o') and os.path.exists(x)]
    names = []
    if objs:
        nm = subprocess.run(['nm', '-P', '-g'] + objs, stdout=subprocess.PIPE, text=True).stdout
        syms = set(re.findall(r'^(\w+) T ', nm, re.M))
        und = set(re.findall(r'^(\w+) U', nm, re.M))
        names = sorted(s for s in syms if s + '_n_out' in syms and s + '_sparsity_out' in syms and s in und)
    out = argv[argv.index('-o') + 1] if '-o' in argv else 'a.out'
    cmd = ['gcc'] + argv
    if names:
        w = out + '.simwrap.c'
        with open(w, 'w') as f:
            f.write('typedef int (*casfn)(const double **, double **, int *, double *, int);\n'
                    'typedef struct { const char *name; casfn fn; const int *(*spo)(int); int (*no)(void); unsigned long calls; const int *(*spi)(int); int (*ni)(void); } simfn;\n'
                    'extern int simfn_call(simfn *, const double **, double **, int *, double *, int);\n')
            for n in names:
                f.write(f'extern int __real_{n}(const double **, double **, int *, double *, int); extern const int *{n}_sparsity_out(int); extern int {n}_n_out(void); extern const int *{n}_sparsity_in(int); extern int {n}_n_in(void);\n'
                        f'static simfn d_{n} = {{"{n}", __real_{n}, {n}_sparsity_out, {n}_n_out, 0, {n}_sparsity_in, {n}_n_in}};\n'
                        f'int __wrap_{n}(const double **a, double **r, int *i, double *w, int m) {{ return simfn_call(&d_{n}, a, r, i, w, m); }}\n')
        subprocess.check_call(['gcc', '-c', '-O1', '-fPIC', '-o', out + '.simwrap.o', w])
        cmd += [out + '.simwrap.o'] + ['-Wl,--wrap=' + n for n in names]
    cmd += WRAPFLAGS + ['-L' + lib, '-lsimrt', '-lacados', '-lhpipm', '-lblasfeo', '-lm', '-Wl,-rpath,' + lib]
    r = subprocess.call(cmd)
    for e in ('.simwrap.c', '.simwrap.o'):
        if os.path.exists(out + e):
            os.remove(out + e)
    return r


if __name__ == '__main__':
    sys.exit(main(sys.argv[1], sys.argv[2:]))
