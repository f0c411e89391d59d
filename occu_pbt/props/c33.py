"""C33: a run that can not write its results says so."""
import os
import resource

from hypothesis import strategies as st

from .. import clirun, cligen, molgen
from ..core import Test, require

COMPLETE = {'svg': lambda b: b.startswith(b'<?xml') and b.rstrip().endswith(b'</svg>'),
            'png': lambda b: b.startswith(b'\x89PNG\r\n\x1a\n') and b'IEND' in b[-16:],
            'pdf': lambda b: b.startswith(b'%PDF-') and b.rstrip().endswith(b'%%EOF')}


def snapshot(root):
    """Like clirun.snapshot, but links are noted, not followed."""
    out = {}
    for base, dirs, files in os.walk(root):
        for name in dirs + files:
            p = os.path.join(base, name)
            rel = os.path.relpath(p, root)
            if os.path.islink(p):
                out[rel] = ('link', os.readlink(p))
            elif os.path.isdir(p):
                out[rel] = ('directory',)
            else:
                with open(p, 'rb') as fh:
                    out[rel] = ('file', fh.read())
    return out


def limited(limit, call):
    """Files can not grow beyond limit bytes meanwhile, as on a full disk or beyond a quota."""
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    if limit is not None:
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, old[1]))
    try:
        return call()
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, old)


def check(case, rec):
    fault, plot = case['fault'], case['plot']
    with clirun.workdir() as root:
        root = os.path.realpath(root)
        ref, wd = os.path.join(root, 'ref'), os.path.join(root, 'work')
        for d in (ref, wd):
            os.makedirs(d)
            cligen.write(d, case['frames'])
            for name in ('notes.txt', 'in_P.txt', 'out.dat'):
                with open(os.path.join(d, name), 'w') as fh:
                    fh.write('not a result\n')
        prefix = case['prefix'] or 'in'
        good = [a for a in case['args']]
        if case['prefix']:
            good += ['--out_file', case['prefix']]
        # what the run produces when nothing goes wrong
        clirun.run(good, ref, root).ok('without a fault')
        tables = {k: open(os.path.join(ref, f'{prefix}_{k}.dat'), 'rb').read() for k in 'PC'}
        names = {f'{prefix}_{k}.dat' for k in 'PC'} | ({f'{prefix}_{k}.{plot}' for k in 'PC'} if plot else set())
        sizes = {n: os.path.getsize(os.path.join(ref, n)) for n in names}
        largest = max(sizes.values())
        # the fault
        args, limit, impossible, target = list(good), None, True, prefix
        at = os.path.join(wd, sorted(names)[case['at'] % len(names)])
        if fault == 'directory':
            os.mkdir(at)
            if case['at'] % 2:
                with open(os.path.join(at, 'kept'), 'w') as fh:
                    fh.write('kept')
        elif fault == 'device full':
            os.symlink('/dev/full', at)
        elif fault == 'dangling':
            os.symlink(os.path.join('absent', 'file'), at)
        elif fault == 'loop':
            os.symlink(os.path.basename(at), at)
        elif fault in ('no directory', 'file as directory', 'name too long'):
            target = {'no directory': 'absent/' * (1 + case['at'] % 2) + prefix, 'file as directory': os.path.join('notes.txt', prefix),
                      'name too long': 'n' * 255}[fault]
            args = case['args'] + ['--out_file', target]
        elif fault == 'format':
            args = [a for a in good if a != '--plot'] + ['--plot', '--plot_format', case['unknown']]
        elif fault == 'limit':
            tab = max(len(t) for t in tables.values())
            limit = [0, 1, tab // 2, tab - 1, tab * case['part'] // 1000, largest * case['part'] // 1000, 3 * largest + 100000][case['at'] % 7]
            # images differ a little between runs
            impossible = limit < tab or limit < 0.8 * largest
        elif fault == 'none':
            impossible = False
        wanted = {n: target + n[len(prefix):] for n in names}
        if case['old']:
            for n in names:
                p = os.path.join(wd, n)
                if not os.path.lexists(p):
                    with open(p, 'w') as fh:
                        fh.write('older results\n' * 5000)
        before = snapshot(wd)
        res = limited(limit, lambda: clirun.run(args, wd, root))
        after = snapshot(wd)
        what = f'{fault} ({os.path.basename(at) if fault in ("directory", "device full", "dangling", "loop") else limit}): {args}'
        require(not res.hits, '%s: touched %s', what, res.hits[:3])
        changed = {k for k in set(before) | set(after) if before.get(k) != after.get(k)}
        require('in.xyz' not in changed, '%s: the input file was changed', what)
        if res.code == 0:
            # whatever was done about it, the results asked for are there
            require(fault != 'format', '%s: exit status 0', what)
            for n, there in wanted.items():
                p = os.path.join(wd, there)
                require(os.path.isfile(p), '%s: exit status 0, but %s is not there', what, there)
                with open(p, 'rb') as fh:
                    data = fh.read()
                if n.endswith('.dat'):
                    require(data == tables[n[-5]], '%s: exit status 0, but %s is not complete', what, there)
                else:
                    require(COMPLETE[plot](data), '%s: exit status 0, but %s is not a complete image', what, there)
        else:
            require(impossible or fault == 'limit' and limit < 1.5 * largest, '%s: exit status %s, %s %s', what, res.code, res.error, res.err[-200:])
            require(res.error is not None or res.err.strip(), '%s: failed without a message', what)
        stray = {k for k in changed if k not in names and not (res.code == 0 and k.startswith('absent'))}
        require(not stray, '%s: other files were touched: %s', what, sorted(stray))
    rec(fault, 'plot' if plot else 'tables', 'older results' if case['old'] else 'fresh', f'exit status 0: {res.code == 0}',
        nontrivial=impossible)


FAULTS = ['directory', 'device full', 'dangling', 'loop', 'no directory', 'file as directory', 'name too long', 'limit', 'limit', 'limit', 'none']


@st.composite
def base(draw, plots):
    kinds, tokens = draw(cligen.flags(need=''))
    case = draw(molgen.isomer_file(nmax=3, modes=st.integers(1, 3), extras=False, molecules=molgen.molecule(False)))
    case['fault'] = draw(st.sampled_from(FAULTS + (['format'] * 2 if plots else [])))
    case['plot'] = draw(st.sampled_from(['svg', 'png', 'png', 'pdf'])) if plots else None
    case['at'], case['part'] = draw(st.integers(0, 41)), draw(st.integers(1, 999))
    case['unknown'] = draw(st.sampled_from(['xyz', 'dat', 'bmp3', 'vector', 'svg2', 'docx']))
    case['prefix'] = draw(st.sampled_from([None, 'out', 'res.v1']))
    case['old'] = draw(st.booleans())
    options = [cligen.option(draw, '--max_temp', str(draw(st.sampled_from([0, 1, 7, 60, 300, 700]))))]
    if plots:
        options += [['--plot'], cligen.option(draw, '--plot_format', case['plot'])]
    case['args'] = cligen.assemble(draw, 'in.xyz', tokens, options)
    return case


TESTS = [
    Test('tables', lambda: base(False), check, 1000, 20000, rule='every case in which an output can not be written'),
    Test('images', lambda: base(True), check, 200, 3000, rule='every case in which an output can not be written'),
]
