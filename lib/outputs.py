"""Run a program with saving and plotting switched on inside a scratch directory and read back what it wrote."""
import csv, glob, os, shutil, tempfile
import numpy as np
import matplotlib
matplotlib.use('agg')
import matplotlib.pyplot as plt
from harness import require, close, fail


def run(cls, text, want, figures=True):
    """want: {data name: (first column, 2d array)}; returns (object, {figure label: figure})"""
    d = tempfile.mkdtemp(prefix='vpout')
    try:
        a = cls(text + '\nsave_data_to_file = True\ncreate_directory = True\ndirectory = %r\nprefix = "q"\n' % d)
        a.make_all()
        for name, get in want.items():
            rows, data = get(a)
            data = np.asarray(data, float)
            data = data.reshape(len(rows), -1)
            f = glob.glob(os.path.join(d, 'q*', 'q*%s.csv' % name))
            require(len(f) == 1, 'one file for %s, found %s' % (name, f))
            with open(f[0]) as g:
                lines = list(csv.reader(g))
            i = [k for k, l in enumerate(lines) if l and l[0].startswith('idex')]
            require(len(i) == 1, 'heading of %s' % name)
            body = np.array([[float(v) for v in l] for l in lines[i[0] + 1:] if l])
            require(body.shape == (len(rows), data.shape[1] + 2), 'shape of file %s: %s for %d rows of %d values' % (name, body.shape, len(rows), data.shape[1]))
            close(body[:, 0], np.arange(len(rows)), 0, 0, name + ' index')
            close(body[:, 1], rows, 1e-12, 0, name + ' row labels')
            close(body[:, 2:], data, 1e-12, 1e-300, name + ' data')
        figs = {}
        if figures:
            a.produce_plots()
            for f in a._figures:
                figs[f.get_label()] = [[(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for l in ax.get_lines()] for ax in f.axes]
        return a, figs
    finally:
        plt.close('all')
        shutil.rmtree(d)


def has_lines(axes, want, what):
    """every wanted (x, y) is drawn as one line of some axes, in order"""
    for lines in axes:
        if len(lines) >= len(want):
            ok = all(len(a) == len(x) and np.allclose(a, x, rtol=1e-12, atol=0) and np.allclose(b, y, rtol=1e-12, atol=0) for (a, b), (x, y) in zip(lines, want))
            if ok:
                return
    fail('%s: lines %r not drawn; axes hold %r' % (what, want, axes))
