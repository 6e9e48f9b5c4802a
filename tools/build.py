#!/usr/bin/env python3
"""Generates build/build.ninja for the simulators and builds the wanted ones.

One binary per property: simulator core + the scenarios of the property + the QCoro sources of
/repo's working tree they exercise (compiled here, with AddressSanitizer)."""
import glob, os, re, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('QCORO_SRC', '/repo')
BUILD = os.environ.get('SIM_BUILD', os.path.join(VERIF, 'build'))
QTINC = '/usr/include/x86_64-linux-gnu/qt6'
QTVER = '6.4.2'
MOC = '/usr/lib/qt6/libexec/moc'
SIMNET = 'net'

MODULES = {  # QCoro module -> Qt modules
    'core': ['Core'],
    'concurrent': ['Core', 'Concurrent'],
    'network': ['Core', 'Network'],
    'websockets': ['Core', 'Network', 'WebSockets'],
    'dbus': ['Core', 'DBus'],
    'qml': ['Core', 'Qml', 'Network'],
    'test': ['Core', 'Test'],
    'quick': ['Core', 'Gui', 'Qml', 'Network', 'Quick'],
}
PROPS = {}
for p in range(1, 27):
    PROPS['C%02d' % p] = ['core']
for p in ('C13', 'C14', 'C15', 'C16'):
    PROPS[p] = ['core', 'network']
for p in ('C17', 'C18', 'C19'):
    PROPS[p] = ['core', 'network', 'websockets']
PROPS['C23'] = ['core', 'concurrent']
PROPS['C24'] = ['core', 'dbus']
PROPS['C25'] = ['core', 'qml']
PROPS['C26'] = ['core', 'quick']
PROPS['C29'] = ['core', 'test']
FAKENET = {'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19'}
# Everything that races real threads needs scheduling points at Qt's thread-safe entry points.
THREADED = {'C08', 'C09', 'C21', 'C22', 'C23', 'C24', 'C26'}


def has_qobject(path):
    try:
        return re.search(r'\bQ_(OBJECT|GADGET|NAMESPACE)\b', open(path, errors='replace').read()) is not None
    except OSError:
        return False


def generate():
    os.makedirs(BUILD, exist_ok=True)
    out = []
    w = out.append
    base = ['-std=gnu++20', '-fPIC', '-g1', '-O0', '-fcoroutines', '-fsanitize=address', '-fno-omit-frame-pointer',
            '-DQT_FORCE_ASSERTS', '-D_GLIBCXX_ASSERTIONS', '-DQT_USE_QSTRINGBUILDER', '-DQT_NO_KEYWORDS=1', '-w', '-pipe']
    base = [b for b in base if b != '-DQT_NO_KEYWORDS=1']
    w('ninja_required_version = 1.5')
    w('cxx = g++')
    w('flags = ' + ' '.join(base))
    w('rule cxx\n  command = $cxx $flags $inc -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX $out')
    w('rule moc\n  command = %s $inc $in -o $out\n  description = MOC $out' % MOC)
    w('rule link\n  command = $cxx -fsanitize=address -rdynamic $in -o $out $libs\n  description = LINK $out')
    targets = {}

    def incs(qts, private=True):
        r = []
        for d in ['%s/sim/include' % VERIF, '%s/sim/core' % VERIF, '%s/sim/net' % VERIF, BUILD + '/moc', REPO, REPO + '/qcoro']:
            r.append('-I' + d)
        for m in sorted(os.listdir(REPO + '/qcoro')):
            if os.path.isdir(REPO + '/qcoro/' + m) and m not in ('impl',):
                r.append('-I%s/qcoro/%s' % (REPO, m))
        r.append('-isystem ' + QTINC)
        r.append('-isystem /usr/lib/x86_64-linux-gnu/qt6/mkspecs/linux-g++')
        for q in qts:
            r.append('-isystem %s/Qt%s -isystem %s/Qt%s/%s -isystem %s/Qt%s/%s/Qt%s' % (QTINC, q, QTINC, q, QTVER, QTINC, q, QTVER, q))
        return ' '.join(r)

    allinc = incs(['Core', 'Network', 'WebSockets', 'DBus', 'Qml', 'QmlIntegration', 'Gui', 'Quick'])

    done = {}

    def obj(src, qts, tag, yields=False):
        if yields:
            tag += '-y'
        o = '%s/obj/%s/%s.o' % (BUILD, tag, os.path.basename(src).replace('.cpp', ''))
        if o in done:
            return o
        done[o] = 1
        mocs = []
        if has_qobject(src):
            m = '%s/moc/%s.moc' % (BUILD, os.path.basename(src).replace('.cpp', ''))
            if m not in done:
                done[m] = 1
                w('build %s: moc %s\n  inc = %s' % (m, src, moc_inc(qts)))
            mocs.append(m)
        w('build %s: cxx %s%s\n  inc = %s%s' % (o, src, (' | ' + ' '.join(mocs)) if mocs else '', '-fsanitize-coverage=trace-pc ' if yields else '-O2 ' if tag in ('sim', 'net') else '', incs(qts)))
        return o

    def moc_inc(qts):
        return ' '.join(x for x in incs(qts).replace('-isystem ', '-I').split())

    modobjs = {}
    for m, qts in list(MODULES.items()) + [(m + '-y', MODULES[m]) for m in ('core', 'concurrent', 'dbus', 'quick')]:
        y = m.endswith('-y')
        m = m.replace('-y', '')
        objs = []
        d = '%s/qcoro/%s' % (REPO, m)
        for src in sorted(glob.glob(d + '/**/*.cpp', recursive=True)):
            objs.append(obj(src, qts, 'qcoro-' + m, y))
        for h in sorted(glob.glob(d + '/**/*.h', recursive=True)):
            if has_qobject(h):
                c = '%s/moc/moc_%s.cpp' % (BUILD, os.path.basename(h).replace('.h', ''))
                o = '%s/obj/qcoro-%s/moc_%s.o' % (BUILD, m, os.path.basename(h).replace('.h', ''))
                if c not in done:
                    done[c] = 1
                    w('build %s: moc %s\n  inc = %s' % (c, h, moc_inc(qts)))
                    w('build %s: cxx %s\n  inc = %s' % (o, c, incs(qts)))
                objs.append(o)
        if m == 'core':  # sources directly in qcoro/ (none today) belong to core
            for src in sorted(glob.glob(REPO + '/qcoro/*.cpp') + glob.glob(REPO + '/qcoro/impl/*.cpp')):
                objs.append(obj(src, ['Core'], 'qcoro-core', y))
        modobjs[m + '-y' if y else m] = objs

    coreobjs = [obj(s, ['Core'], 'sim') for s in sorted(glob.glob(VERIF + '/sim/core/*.cpp')) if not s.endswith('yields.cpp')]
    for p, mods in PROPS.items():
        srcs = sorted(glob.glob('%s/sim/scenarios/%s_*.cpp' % (VERIF, p.lower())))
        if not srcs:
            continue
        qts = []
        for m in mods:
            for q in MODULES[m]:
                if q not in qts:
                    qts.append(q)
        y = p in THREADED
        objs = coreobjs + [obj(s, qts, 'scen', y) for s in srcs]
        for m in mods:
            objs += modobjs[m + '-y' if y else m]
        if p in FAKENET:
            objs += [obj(s, ['Core', 'Network'], 'net') for s in sorted(glob.glob(VERIF + '/sim/net/*.cpp'))]
        if y:
            objs.append(obj(VERIF + '/sim/core/yields.cpp', ['Core'], 'sim'))
        t = '%s/bin/%s' % (BUILD, p)
        w('build %s: link %s\n  libs = %s -ldl -lpthread' % (t, ' '.join(objs), ' '.join('-lQt6' + q for q in qts)))
        targets[p] = t
    text = '\n'.join(out) + '\n'
    path = BUILD + '/build.ninja'
    if not os.path.exists(path) or open(path).read() != text:
        open(path, 'w').write(text)
    return targets


def build(props, quiet=False):
    targets = generate()
    want = [targets[p] for p in props]
    r = subprocess.run(['ninja', '-C', BUILD, '-j', os.environ.get('SIM_NINJA_J') or str(os.cpu_count() or 8)] + want, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or not quiet:
        print(r.stdout[-6000:])
    return r.returncode == 0


if __name__ == '__main__':
    t = generate()
    props = sys.argv[1:] or sorted(t)
    sys.exit(0 if build(props) else 2)
