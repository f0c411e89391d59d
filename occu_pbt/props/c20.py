"""C20: the command line writes exactly the files asked for."""
import os

from hypothesis import strategies as st

from .. import clirun, cligen, molgen, xyz
from ..core import Test, Violation, require

MAGIC = {'svg': lambda b: b'<svg' in b[:2000], 'png': lambda b: b[:8] == b'\x89PNG\r\n\x1a\n',
         'pdf': lambda b: b[:5] == b'%PDF-', 'ps': lambda b: b[:4] == b'%!PS', 'eps': lambda b: b[:4] == b'%!PS',
         'jpg': lambda b: b[:3] == b'\xff\xd8\xff', 'tif': lambda b: b[:4] in (b'II*\0', b'MM\0*')}
NAMES = ['in.xyz', 'data.xyz', 'xyz.xyz', 'my.xyz.xyz', 'a.b.xyz', 'dat.xyz', 'run.dat.xyz', 'x y.xyz', 'update.xyz',
         'Pt5_isomers.xyz', '.xyz.d.xyz', 'in_P.dat.xyz', 'a%s{0}.xyz', 'Pt\u2085 \u00fc.xyz', 'a[1]*?.xyz', '~in$HOME.xyz',
         'CAPS.XYZ.xyz', 'long-' * 20 + 'name.xyz', 'l' * 200 + '.xyz', 'tmp_C.xyz', '#1;a&b.xyz',
         'in.XYZ', 'isomers.extxyz', 'v1.2.extxyz', 'isomers', 'xyz', 'dat']
DIRS = ['', '', 'sub', 'run.xyz', 'data', 'a.dat', 'deep/er.xyz.d/dat', '.xyz', 'x y',
        '~', '$HOME', '~', 'd' * 100, '/'.join(['level%d.d' % k for k in range(12)]), '\u00e9t\u00e9 {x}%d']
PREFIXES = ['res', 'res.v1.2', 'data', 'res.dat', 'x.xyz', 'a.svg', 'in', 'dat', 'P_C', 'out_P', 'in_P', 'in_C', 'out_C', 'x y', 'v1.5_run',
            'occupation_probabilities_and_heat_capacities_of_all_isomers', 'p' * 120, 'r.' * 60, 'a%s{0}', '\u00fc', '~run',
            'RES', 'a[1]*?', '_P', '300K', '1e-3', 'None', '0', ' pad ', 'end ', '.', '', '', '$HOME', '%(x)s']


def bare(path):
    """Without the extension of an isomer file, if it has one."""
    for ext in ('.xyz', '.XYZ', '.extxyz'):
        if path.endswith(ext):
            return path[:-len(ext)]
    return path


def place(case):
    """(cwd, argument naming the input, path of the input, argument naming the prefix, prefix path), all relative
    to the case directory; arguments may be absolute (marked by a leading '@')."""
    infile = os.path.join(case['indir'], case['name'])
    cwd = case['cwd']
    arg = '@' + infile if case['absolute'] else os.path.relpath(infile, cwd or '.')
    if case['prefix'] is None:
        return cwd, arg, infile, None, bare(infile)
    prefix = os.path.join(case['outdir'], case['prefix'])
    parg = '@' + prefix if case['absolute'] else os.path.relpath(prefix, cwd or '.') if case['prefix'] not in ('', '.') \
        else os.path.join(os.path.relpath(case['outdir'] or '.', cwd or '.'), case['prefix'])
    return cwd, arg, infile, parg, prefix


def check(case, rec):
    cwd, arg, infile, parg, prefix = place(case)
    with clirun.workdir() as root:
        root = os.path.realpath(root)
        for d in (cwd, case['indir'], case['outdir'], 'other'):
            os.makedirs(os.path.join(root, d), exist_ok=True)

        def full(a):
            return os.path.join(root, a[1:]) if a.startswith('@') else a

        cligen.write(root, case['frames'], infile)
        if case['link']:
            # a symbolic link to the file: results belong beside the name given
            os.makedirs(os.path.join(root, 'store'), exist_ok=True)
            os.rename(os.path.join(root, infile), os.path.join(root, 'store', 'kept.xyz'))
            os.symlink(os.path.join(root, 'store', 'kept.xyz'), os.path.join(root, infile))
        expected = {prefix + '_P.dat', prefix + '_C.dat'}
        images = set()
        ext = case['format'] or 'svg'
        if case['plot']:
            images = {prefix + '_P.' + ext, prefix + '_C.' + ext}
        expected = {os.path.normpath(x) for x in expected}
        images = {os.path.normpath(x) for x in images}
        # other files, some of them with similar names, some older results
        decoys = ['other/in.xyz', 'other/in_P.dat', 'notes.txt', os.path.join(case['indir'], 'in.dat'),
                  os.path.join(case['indir'], bare(case['name']) + '.dat'), os.path.join(case['outdir'], 'P.dat'),
                  os.path.join(case['indir'], 'in_P.xyz')]
        if case['old']:
            decoys += sorted(expected | images)
        for d in decoys:
            path = os.path.join(root, d)
            if os.path.normpath(d) != os.path.normpath(infile) and not os.path.isdir(path):
                with open(path, 'w') as fh:
                    fh.write('old content of ' + d + '\n' + 'padding ' * 4000)
        args = []
        for a in case['args']:
            args.append(full(arg) if a == 'IN' else full(parg) if a == 'PREFIX'
                        else '--out_file=' + full(parg) if a == '--out_file=PREFIX' else a)
        before = clirun.snapshot(root)
        res = clirun.run(args, os.path.join(root, cwd), root)
        if res.hits:
            raise Violation(f'{args} in {cwd!r}: touched files outside: {res.hits[:3]}')
        res.ok(f'{args} in {cwd!r}')
        after = clirun.snapshot(root)
        changed = {k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0)}
        require(changed == expected | images, '%s in %r: files created, changed or removed: %s, expected %s', args, cwd,
                sorted(changed), sorted(expected | images))
        for k in images:
            data = after[k]
            require(MAGIC[ext](data), '%s is not a %s image', k, ext)
        for k in expected:
            clirun.read_table(os.path.join(root, k), k)
        # a repeated run replaces the results by identical ones
        res = clirun.run(args, os.path.join(root, cwd), root).ok(f'{args} repeated')
        again = clirun.snapshot(root)
        require(set(again) == set(after), 'repeated run: files %s', sorted(set(again) ^ set(after)))
        for k in again:
            if k not in images:
                require(again[k] == after[k], 'repeated run: %s differs', k)
            else:
                require(MAGIC[ext](again[k]), 'repeated run: %s is not a %s image', k, ext)
    odd = any('xyz' in x or 'dat' in x or '.' in x for x in (case['indir'], bare(case['name']), case['prefix'] or ''))
    rec('plot' if case['plot'] else 'no plot', 'prefix' if case['prefix'] else 'input name',
        'linked input' if case['link'] else 'plain input', 'absolute' if case['absolute'] else 'relative', 'odd name' if odd else 'plain name',
        'format:' + (ext if case['plot'] else '-'), nontrivial=odd or case['plot'])


@st.composite
def base(draw, plot):
    kinds, tokens = draw(cligen.flags(need=''))
    case = draw(molgen.isomer_file(nmax=3, modes=st.integers(1, 3), extras=False, molecules=molgen.molecule(False)))
    case.update(name=draw(st.sampled_from(NAMES)), indir=draw(st.sampled_from(DIRS)), outdir=draw(st.sampled_from(DIRS)),
                cwd=draw(st.sampled_from(['', '', 'work', 'sub'])), absolute=draw(st.booleans()),
                prefix=draw(st.sampled_from([None] + PREFIXES)), plot=plot, old=draw(st.booleans()), format=None)
    options = []
    if case['prefix'] is not None:
        options.append(draw(st.sampled_from([['--out_file', 'PREFIX'], ['--out_file=PREFIX']])))
    if plot:
        options.append(['--plot'])
        case['format'] = draw(st.sampled_from([None, 'svg', 'png', 'png', 'pdf', 'ps', 'eps', 'jpg', 'tif']))
    fmt = case['format']
    if fmt is not None:
        options.append(cligen.option(draw, '--plot_format', draw(st.sampled_from([fmt, fmt, fmt.upper()]))))
    elif not plot and draw(st.integers(0, 3)) == 0:
        options.append(['--plot_format', 'png'])
    options.append(['--max_temp', str(draw(st.integers(1, 40)))])
    case['kinds'] = kinds
    case['link'] = draw(st.integers(0, 4)) == 0
    case['args'] = cligen.assemble(draw, 'IN', tokens, options)
    return case


TESTS = [
    Test('tables', lambda: base(False), check, 1200, 20000, rule='a name with "xyz", "dat" or dots'),
    Test('tables-and-plots', lambda: base(True), check, 240, 4000, rule='every case: plots requested'),
]
