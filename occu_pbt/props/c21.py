"""C21: plots show the computed data."""
import contextlib
import os
import re
import struct

import numpy as np
from hypothesis import strategies as st

from .. import clirun, cligen, molgen
from ..common import close, quiet
from ..core import Test, require, sut


@contextlib.contextmanager
def captured(into):
    """Records every figure at the moment it is written to a file."""
    from matplotlib.backend_bases import FigureCanvasBase
    original = FigureCanvasBase.print_figure

    def spy(self, filename, *args, **kwargs):
        result = original(self, filename, *args, **kwargs)
        into.append((str(filename), describe(self.figure)))
        return result
    FigureCanvasBase.print_figure = spy
    try:
        yield
    finally:
        FigureCanvasBase.print_figure = original


def describe(fig):
    axes = []
    for ax in fig.axes:
        leg = ax.get_legend()
        entry = {'lines': [(np.array(l.get_xdata(), dtype=float), np.array(l.get_ydata(), dtype=float), l.get_label(),
                            l.get_color(), l.get_visible(), l.get_linestyle()) for l in ax.get_lines()
                           if l.get_transform().contains_branch_seperately(ax.transData)[0]],
                 'xlim': ax.get_xlim(), 'ylim': ax.get_ylim(), 'xscale': ax.get_xscale(), 'yscale': ax.get_yscale(),
                 'legend': None}
        if leg is not None:
            handles = getattr(leg, 'legend_handles', None) or []
            entry['legend'] = ([t.get_text() for t in leg.get_texts()],
                               [h.get_color() if hasattr(h, 'get_color') else None for h in handles])
        axes.append(entry)
    return {'axes': axes, 'size': tuple(map(float, fig.get_size_inches())), 'dpi': fig.dpi}


def curves(fig, temp):
    """The curves drawn over the temperatures; guide lines have other abscissae."""
    found = []
    for ax in fig['axes']:
        for line in ax['lines']:
            if line[4] and len(line[0]) == len(temp) and np.allclose(line[0], temp, rtol=1e-12, atol=1e-12):
                found.append((ax, line))
    return found


def guides_removed(found, count):
    """Guide lines may have the abscissae of a grid of two temperatures; they are dashed, curves are not."""
    solid = [x for x in found if x[1][5] in ('-', 'solid')]
    return solid if len(found) > count and len(found[0][1][0]) <= 2 else found


def verify(fig, temp, rows, size, labels, path, what):
    found = guides_removed(curves(fig, temp), len(rows))
    require(len(found) == len(rows), '%s: %s curves over the temperatures for %s rows', what, len(found), len(rows))
    for k, ((_, line), row) in enumerate(zip(found, rows)):
        close(line[1], row, 1e-9, 1e-15, f'{what}: points of curve {k + 1}')
    ax = found[0][0]
    require(all(a is ax for a, _ in found), '%s: curves in different axes', what)
    close(sorted(ax['xlim']), [temp[0], temp[-1]], 1e-9, 1e-9, f'{what}: temperature axis')
    require(ax['xlim'][0] < ax['xlim'][1] and ax['xscale'] == 'linear', '%s: temperature axis %s', what, ax['xlim'])
    if labels is not None:
        require(ax['legend'] is not None, '%s: no legend', what)
        require(ax['legend'][0] == labels, '%s: legend %s', what, ax['legend'][0])
        colors = [str(line[3]) for _, line in found]
        if len(ax['legend'][1]) == len(labels) and None not in ax['legend'][1]:
            require([str(c) for c in ax['legend'][1]] == colors, '%s: legend entries belong to other curves', what)
        own = [line[2] for _, line in found]      # absent where curves and labels were given to the legend directly
        require(own == labels or all(str(x).startswith('_') for x in own), '%s: labels %s', what, [l[2] for _, l in found])
    close(fig['size'], size, 1e-6, 1e-6, f'{what}: figure size')
    image_size(path, size, what)
    return ax


def image_size(path, size, what):
    with open(path, 'rb') as fh:
        data = fh.read(4000)
    if path.endswith('.png'):
        w, h = struct.unpack('>II', data[16:24])
        # any resolution, but the proportions of the figure
        require(abs(w / size[0] - h / size[1]) <= (2 + 1 / min(size)) * 1.5 / min(size) * 1.0 + 1e-9 + 2,
                '%s: image of %s x %s pixels for %s inches', what, w, h, size)
    elif path.endswith('.svg'):
        m = re.search(rb'<svg[^>]*?\bheight="([\d.]+)pt"[^>]*?\bwidth="([\d.]+)pt"', data, re.S) or \
            re.search(rb'<svg[^>]*?\bwidth="([\d.]+)pt"[^>]*?\bheight="([\d.]+)pt"', data, re.S)
        if m:
            got = sorted(float(x) / 72 for x in m.groups())
            close(got, sorted(size), 1e-3, 1e-3, f'{what}: size in the file')


def check_cli(case, rec):
    frames, n = case['frames'], len(case['frames'])
    figs = []
    with clirun.workdir() as wd:
        cligen.write(wd, frames)
        with captured(figs):
            clirun.run(case['args'], wd).ok(f'{case["args"]}')
        p, c = cligen.tables(os.path.join(wd, 'in'))
        byname = {}
        for name, fig in figs:
            byname.setdefault(os.path.basename(name), []).append(fig)
        ext = case['format'] or 'svg'
        for key, table in (('P', p), ('C', c)):
            name = f'in_{key}.{ext}'
            require(name in byname, 'no figure was written to %s (written: %s)', name, sorted(byname))
            require(len(byname[name]) == 1, '%s was written %s times', name, len(byname[name]))
            temp, rows = table[:, 0], table[:, 1:].T
            labels = [f'Isomer {k + 1}' for k in range(n)] if key == 'P' else None
            ax = verify(byname[name][0], temp, rows, case['size'] or [8.0, 6.0], labels, os.path.join(wd, name),
                        'probability plot' if key == 'P' else 'heat-capacity plot')
            lo, hi = sorted(ax['ylim'])
            if key == 'P':
                require(lo <= 0 and hi >= 1, 'probability plot: value axis %s does not include 0 and 1', ax['ylim'])
            else:
                require(lo <= rows.min() + 1e-9 and hi >= rows.max() - 1e-9,
                        'heat-capacity plot: value axis %s, values from %s to %s', ax['ylim'], rows.min(), rows.max())
    rec(f'isomers:{min(n, 11)}', 'format:' + ext, 'size' if case['size'] else 'default size',
        'steep' if c[:, 1].max() > 100 else 'moderate', nontrivial=n > 1)


@st.composite
def cli_cases(draw):
    kinds, tokens = draw(cligen.flags(need=draw(st.sampled_from(['', '', 'R']))))
    many = draw(st.integers(0, 5)) == 0
    case = draw(molgen.isomer_file(nmin=11 if many else 1, nmax=13 if many else 4, modes=st.sampled_from([1, 3, 9, 40]),
                                   extras=False, molecules=molgen.molecule(False)))
    lo = draw(st.sampled_from([0, 0, 5, 290]))
    hi = lo + draw(st.one_of(st.integers(2, 300), st.integers(2, 300), st.integers(900, 2600), st.just(1)))
    options = [['--plot'], cligen.option(draw, '--max_temp', hi)]
    if lo:
        options.append(cligen.option(draw, '--min_temp', lo))
    case['size'] = draw(st.one_of(st.none(), st.lists(st.integers(8, 40).map(lambda k: k / 4), min_size=2, max_size=2)))
    if case['size']:
        options.append(['--size'] + [str(x) for x in case['size']])
    case['format'] = draw(st.sampled_from([None, 'svg', 'png']))
    if case['format']:
        options.append(cligen.option(draw, '--plot_format', case['format']))
    case['args'] = cligen.assemble(draw, 'in.xyz', tokens, options)
    return case


def check_api(case, rec):
    from occuprob import io as oio
    import matplotlib.pyplot as plt
    temp = np.array(case['T'], dtype=float)
    rows = np.array(case['rows'], dtype=float)
    kept = temp.copy(), rows.copy()
    fmt = dict(case['fmt'])
    figs = []
    with clirun.workdir() as wd:
        path = os.path.join(wd, 'plot.' + case['ext'])
        try:
            with sut('plot_results'), quiet(), clirun.fence(wd), captured(figs):
                oio.plot_results(rows, temp, path, **fmt)
        finally:
            plt.close('all')
        require(os.path.exists(path), 'no image was written')
        require(os.listdir(wd) == ['plot.' + case['ext']], 'files written: %s', os.listdir(wd))
        require(len(figs) == 1, '%s figures written', len(figs))
        ax = verify(figs[0][1], temp, rows, fmt.get('size', (8.0, 6.0)), fmt.get('labels'), path, 'plot')
    require(np.array_equal(temp, kept[0]) and np.array_equal(rows, kept[1]), 'plotting modified the data')
    if fmt.get('ylims'):
        close(ax['ylim'], fmt['ylims'], 1e-9, 1e-9, 'value axis')
    else:
        require(ax['ylim'][0] <= rows.min() and ax['ylim'][1] >= rows.max(), 'value axis %s does not show every value', ax['ylim'])
    rec(f'rows:{min(len(rows), 4)}', *fmt, nontrivial=len(rows) > 1)


@st.composite
def api_cases(draw):
    m, n = draw(st.integers(3, 30)), draw(st.integers(1, 12))
    start = draw(st.integers(0, 400))
    # grids that span less than a kelvin, next to those of whole kelvins
    scale = draw(st.sampled_from([1, 1, 1, 0.5, 0.01]))
    size = draw(st.integers(0, 7))
    if size < 2:
        # grids and lists far longer than a person would type
        if size == 0:
            m = draw(st.integers(100, 5000))
        else:
            n = draw(st.integers(12, 150))
        rng = np.random.default_rng(draw(st.integers(0, 2**32)))
        temp = (start + scale * np.cumsum(rng.integers(1, 20, m))).tolist()
        rows = (rng.integers(-50, 51, (n, m)) / 10).tolist()
    else:
        steps = draw(st.lists(st.integers(1, 20), min_size=m, max_size=m))
        temp = (start + scale * np.cumsum(steps)).tolist()
        rows = [[draw(st.integers(-50, 50)) / 10 for _ in range(m)] for _ in range(n)]
    fmt = {}
    if draw(st.booleans()):
        fmt['labels'] = [f'row {k} of {n}' for k in range(n)]
    if draw(st.booleans()):
        fmt['ylabel'] = 'value'
    if draw(st.booleans()):
        fmt['ylims'] = [-draw(st.integers(51, 90)) / 10, draw(st.integers(51, 90)) / 10]
    if draw(st.booleans()):
        fmt['size'] = [draw(st.integers(8, 40)) / 4, draw(st.integers(8, 40)) / 4]
    if draw(st.booleans()):
        fmt['linewidth'] = draw(st.integers(1, 4))
    if draw(st.booleans()):
        fmt['hline_pos'] = draw(st.lists(st.integers(-2, 2), max_size=3))
    return {'T': temp, 'rows': rows, 'fmt': fmt, 'ext': draw(st.sampled_from(['svg', 'png']))}


TESTS = [
    Test('command-line', cli_cases, check_cli, 240, 4000, rule='two or more isomers'),
    Test('api', api_cases, check_api, 400, 8000, rule='two or more rows'),
]
