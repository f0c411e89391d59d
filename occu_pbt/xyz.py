"""Extended XYZ files written by the checks themselves, so that the listed values are known."""
import numpy as np


def frame_text(frame):
    """frame: symbols, pos (list of rows), pairs (list of [key, value text or None]),
    optional 'decimals'."""
    dec = frame.get('decimals', 9)
    lines = [str(len(frame['symbols']))]
    parts = []
    for key, value in frame['pairs']:
        parts.append(key if value is None else f'{key}={value}')
    lines.append((frame.get('sep') or ' ').join(parts))
    extra = frame.get('columns') or []
    for i, (s, p) in enumerate(zip(frame['symbols'], frame['pos'])):
        row = f'{s:<3s}' + ''.join(f' {x:.{dec}f}' for x in p)
        for name, kind, count in extra:     # per-atom values that play no part in the results
            for j in range(count):
                row += f' {(i * 7 + j * 3) % 11 - 5}' if kind == 'I' else f' {((i * 7 + j * 3) % 23 - 11) / 8:.4f}'
        lines.append(row)
    return '\n'.join(lines) + '\n'


def file_text(frames):
    return ''.join(frame_text(f) for f in frames)


def written_positions(frame):
    dec = frame.get('decimals', 9)
    return np.array([[float(f'{x:.{dec}f}') for x in p] for p in frame['pos']])


def properties(columns):
    return 'species:S:1:pos:R:3' + ''.join(f':{n}:{k}:{c}' for n, k, c in columns)


def freq_value(texts, style='quotes'):
    if style == 'quotes':
        return '"' + ' '.join(texts) + '"'
    if style == 'spaced':
        return '" ' + '  '.join(texts) + ' "'
    if style == 'single':
        return "'" + ' '.join(texts) + "'"
    if style == 'braces':
        return '{' + ' '.join(texts) + '}'
    if style == 'commas':
        return '[' + ', '.join(texts) + ']'
    if style == 'bare' and len(texts) == 1:
        return texts[0]
    return '"' + ' '.join(texts) + '"'


def simple_frame(symbols, pos, energy, mult, freqs, **kw):
    """Values as texts or numbers (repr)."""
    f = {'symbols': list(symbols), 'pos': [list(map(float, p)) for p in pos],
         'pairs': [['Properties', 'species:S:1:pos:R:3'], ['Energy', text(energy)],
                   ['Multiplicity', text(mult)], ['Frequencies', freq_value([text(x) for x in freqs])]]}
    f.update(kw)
    return f


def text(x):
    return x if isinstance(x, str) else repr(x)
