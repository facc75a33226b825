"""Programs with loops over symbolic ranges for the differential self-test: run untransformed with numpy and, transformed like the
code under test, with the parallel loop rule.  Those in DEPENDENT carry state between iterations: the rule has to refuse them."""
def update_loop(np, f, g, x, y):
    for i in range(f.shape[0]):
        if f[i] < g[i]:
            g[i] = f[i]; y[i] = x[i]
    return g, y
def selected(np, x, m, z):
    idx = np.where(m)[0]
    for p, i in enumerate(idx): x[i] = z[i] - x[i] + p
    return x
def compact(np, x, m, z):
    idx = np.where(m)[0]
    out = np.zeros((idx.shape[0], x.shape[1]))
    for p in range(idx.shape[0]): out[p] = x[idx[p]] + z[p % z.shape[0]]
    return out
def nested(np, x, y):
    for i in range(x.shape[0]):
        for j in range(x.shape[1]):
            if x[i, j] > y[i]: x[i, j] = y[i]
            else: x[i, j] = x[i, j] * 2
    return x
def counters(np, n, m):
    for i in range(n.shape[0]):
        if m[i]: n[i] += 2
        else: n[i] = 0
    return n
def rows(np, x, a):
    for i in range(x.shape[0]):
        r = x[i] - x[i].mean()
        x[i] = r * a[i]
        x[i, 0] = 1.
    return x
def columns(np, x, a):
    for j in range(x.shape[1]): x[:, j] = x[:, j] + a[j]
    return x
def argmins(np, x, e):
    out = np.zeros((x.shape[0], x.shape[2]))
    for i in range(x.shape[0]):
        q = e[i].argmin()
        if e[i, q] < 0: out[i] = x[i, q]
    return out
def flags(np, x, m):
    for i in range(m.shape[0]):
        if x[i] > 0: m[i] = not m[i]
    return m
def three_way(np, x, y):
    for i in range(x.shape[0]):
        if x[i] > 1: y[i] = 1
        elif x[i] < -1: y[i] = -1
        else: continue
        x[i] = 0
    return x, y
def shifted_write(np, x, y):
    for i in range(x.shape[0] - 1): y[i + 1] = x[i]
    return y
def two_arrays(np, x, y):
    for i in range(x.shape[0]):
        t = x[i]; x[i] = y[i]; y[i] = t
    return x, y
def zip_rows(np, x, y, f):
    for a, b, i in zip(x, y, range(f.shape[0])):
        if f[i] > 0: a[:] = b
    return x
def reads_whole(np, x, y):
    for i in range(x.shape[0]): y[i] = x.max() - x[i]
    return y
def mask_rows(np, x, m, z):
    for i in range(x.shape[0]):
        x[i, m[i]] = z[i, m[i]]
    return x
# ---- iterations that depend on each other
def prefix_sum(np, x):
    for i in range(x.shape[0]): x[i] = x[i] + x[i - 1]
    return x
def running(np, x):
    s = 0.
    for i in range(x.shape[0]):
        s = s + x[i]; x[i] = s
    return x
def last(np, x, y):
    for i in range(x.shape[0]):
        t = x[i]; y[i] = t
    return y + t
def one_cell(np, x, y):
    for i in range(x.shape[0]): y[0] = x[i]
    return y
def best_so_far(np, x, y):
    for i in range(x.shape[0]):
        if x[i] < y[0]: y[0] = x[i]
    return y
def reads_changed(np, x, y):
    for i in range(x.shape[0]): x[i] = x.max() - x[i]
    return x
def reads_row(np, x):
    for i in range(x.shape[0]):
        for j in range(x.shape[1]): x[i, j] = x[i, j] - x[i].mean()
    return x
def other_row(np, x, y):
    for i in range(x.shape[0]):
        if x[i] > x[0]: x[i] = y[i]
    return x
def scatter(np, x, y, q):
    for i in range(x.shape[0]): y[q[i]] = x[i]
    return y
def breaks(np, x, y):
    for i in range(x.shape[0]):
        if x[i] > 0: break
        y[i] = x[i]
    return y
PARALLEL = [(update_loop, 'f:M g:M x:Md y:Md'), (selected, 'x:Md m:M?b z:Md'), (compact, 'x:Md m:M?b z:3'), (nested, 'x:MN y:M'), (counters, 'n:M?n m:M?b'), (rows, 'x:MN a:M'), (columns, 'x:MN a:N'),
            (argmins, 'x:MNd e:MN'), (flags, 'x:M m:M?b'), (three_way, 'x:M y:M'), (shifted_write, 'x:M y:M'), (two_arrays, 'x:Md y:Md'), (zip_rows, 'x:Md y:Md f:M'), (reads_whole, 'x:M y:M'), (mask_rows, 'x:MN m:MN?b z:MN')]
DEPENDENT = [(prefix_sum, 'x:M'), (running, 'x:M'), (last, 'x:M y:M'), (one_cell, 'x:M y:M'), (best_so_far, 'x:M y:M'), (reads_changed, 'x:M y:M'), (reads_row, 'x:MN'), (other_row, 'x:M y:M'),
             (scatter, 'x:M y:N q:M<N'), (breaks, 'x:M y:M')]
