import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tools'))
import vrun, vbuild
def scenarios(c, count):
    r = c.rng('f'); sc = []
    for i in range(count):
        L = []
        for k in range(8):
            op = r.choice(['conv', 'corr', 'rt', 'fft', 'cx', 'sig', 'conv', 'corr', 'rt'])
            n = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 16, 17, 25, 31, 32, 33, 50, 64])
            if op == 'fft': n = r.choice([1, 2, 4])
            if op == 'cx': n = 2
            m = r.choice([1, 3, 16, 40]); sh = r.choice(['any', 'any', 'any', 'delta', 'const', 'zero', 'sparse'])
            def vec():
                if sh == 'delta': v = [0] * n; v[r.randrange(n)] = m; return v
                if sh == 'const': return [m] * n
                if sh == 'zero': return [0] * n
                if sh == 'sparse': return [r.randint(-m, m) if r.random() < .2 else 0 for _ in range(n)]
                return [r.randint(-m, m) for _ in range(n)]
            a = vec(); sh = 'any' if r.random() < .6 else sh; b = vec()
            L.append('%s %d %s %s' % (op, n, ' '.join(map(str, a)), ' '.join(map(str, b))))
        sc.append(('f%d' % i, L))
    return sc
def fn(c):
    b = vbuild.build('fftdrv', vbuild.VERIF + '/drivers/fftdrv.cpp', [], extra=[vbuild.REPO + '/src/trident/utils/fft.cpp'])
    c.model('MCFFT')
    c.bind('fft', b, scenarios(c, 6000 if c.thorough else 400), 'TraceFFT.tla')
    c.assumptions += ['TLC and the JSON bridge', 'inputs are multiples of 1/16 up to 2.5 in magnitude, lengths up to 64']
if __name__ == '__main__': vrun.main('C18', fn)
