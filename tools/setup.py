#!/usr/bin/env python3
"""Nothing is built ahead of a check (they run TLC and the code in /repo directly); this only
confirms that the tools are there and that every specification parses."""
import glob, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
sys.dont_write_bytecode = True
import vt
bad = 0
with tempfile.TemporaryDirectory() as t:
    for f in sorted(glob.glob(os.path.join(V, 'spec', '*.tla'))):
        p = subprocess.run(['java', '-Djava.io.tmpdir=' + t, '-cp', vt.JAR, 'tla2sany.SANY', os.path.basename(f)],
                           cwd=os.path.join(V, 'spec'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ok = p.returncode == 0 and 'error' not in p.stdout.lower().replace('errors: 0', '')
        print(os.path.basename(f), 'ok' if ok else p.stdout[-800:])
        bad += not ok
# the Java overrides of Rat.tla compute what its definitions say
with tempfile.TemporaryDirectory() as t:
    subprocess.run(['javac', '-cp', vt.JAR, '-d', t, os.path.join(V, 'spec', 'Rat.java')], check=True)
    open(os.path.join(t, 'R.cfg'), 'w').write('SPECIFICATION Spec\n')
    outs = []
    for cp in (vt.JAR, vt.JAR + ':' + t):
        p = subprocess.run(['java', '-Djava.io.tmpdir=' + t, '-cp', cp, 'tlc2.TLC', '-metadir', os.path.join(t, 'm'), '-noGenerateSpecTE',
                            '-deadlock', '-config', os.path.join(t, 'R.cfg'), 'RatTest.tla'], cwd=os.path.join(V, 'spec'),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        x = p.stdout
        outs.append((p.returncode, x[x.find('<<'):x.rfind('>>')] if '<<' in x else x))
    same = outs[0] == outs[1] and outs[0][0] == 0
    print('Rat.java against Rat.tla:', 'same' if same else 'DIFFERENT %r' % (outs,))
    bad += not same
p = subprocess.run([vt.PY, '-c', 'import numpy, scipy'])
sys.exit(1 if bad or p.returncode else 0)
