"""Maximum, minimum, their indices and pooling agree with plaintext semantics."""
from .prog import *
from ..evalq import avg_pool, pool_windows, tup

MINIMUM = 60
METHODS = ("pairwise", "log_reduction", "double_log_reduction", "accelerated_cascade")


def vals(shape, k, ties=False):
    a = np.empty(shape, dtype=object)
    for i in range(a.size):
        h = h64("mx", k, i)
        a.reshape(-1)[i] = Fr(h % 3 - 1) if ties else Fr(h % 4001 - 2000, 8)
    return a


def XX(name, shape, **kw):
    """general values, few distinct values (ties), all equal, decreasing"""
    o = X(name, tuple(v.tolist() for v in (vals(shape, 0), vals(shape, 1, True), np.full(shape, Fr(-3, 2), dtype=object),
                                           (arr(np.array([Fr(-i) for i in range(int(np.prod(shape)))], dtype=object))).reshape(shape))), **kw)
    return o


def red(v, dim, keep, f):
    """reduce along dim (None: all)"""
    if dim is None:
        return arr(f(list(v.reshape(-1))))
    m = np.moveaxis(v, dim, -1)
    out = np.empty(m.shape[:-1], dtype=object)
    for p in np.ndindex(*out.shape):
        out[p] = f(list(m[p]))
    return np.expand_dims(out, dim) if keep else out


def onehot_at(g, v, dim, f):
    g = arr(g)
    if g.shape != v.shape:
        return "position mask of shape %s instead of %s" % (g.shape, v.shape)
    ext = red(v, dim, True, f)
    if dim is None:
        ext = np.broadcast_to(ext, v.shape)
    if any(num(x) not in (0, 1) for x in g.reshape(-1)):
        return "position mask has entry %s" % [str(num(x)) for x in g.reshape(-1) if num(x) not in (0, 1)][0]
    cnt = red(g, dim, False, lambda l: sum(num(x) for x in l))
    if any(num(x) != 1 for x in arr(cnt).reshape(-1)):
        return "%s positions are selected" % num(arr(cnt).reshape(-1)[[i for i, x in enumerate(arr(cnt).reshape(-1)) if num(x) != 1][0]])
    hit = red(np.vectorize(lambda a, b: num(a) * num(b), otypes=[object])(v, g), dim, False, sum)
    if any(num(a) != num(b) for a, b in zip(arr(hit).reshape(-1), red(v, dim, False, f).reshape(-1))):
        return "the selected entry is not an extreme one"
    return None


def index_at(g, v, dim, keep, f):
    g = arr(g)
    want = red(v, dim, keep, f)
    if g.shape != want.shape:
        return "indices of shape %s instead of %s" % (g.shape, want.shape)
    m = v.reshape(-1)[None] if dim is None else np.moveaxis(v, dim, -1).reshape(-1, v.shape[dim])
    for row, i, w in zip(m, g.reshape(-1), want.reshape(-1)):
        i = num(i)
        if i.denominator != 1 or not 0 <= i < len(row):
            return "index %s" % i
        if row[int(i)] != w:
            return "index %s is not the position of an extreme entry" % i
    return None


def extremes(chk):
    out = []
    shapes = {(1,): (None, 0), (2,): (None, 0), (3,): (None, 0, -1), (2, 3): (None, 0, 1, -1, -2), (5, 2): (None, 0, 1), (2, 1, 3): (1, 2, None), (7,): (0, None), (4, 2): (0,)}
    for m in METHODS:
        for sh, dims in shapes.items():
            if m == "accelerated_cascade" and len(sh) > 1 and not chk.thorough and sh != (5, 2):
                continue
            for dim in dims:
                for nm, f in (("max", max), ("min", min)):
                    if nm == "min" and m != "pairwise" and not chk.thorough and sh != (2, 3):
                        continue
                    cf = {"functions.max_method": m}
                    ns = (2,) if m == "pairwise" and sh in ((3,), (2, 3)) and dim in (0, None) else (1,)
                    lab = "%s(%s)%s [%s]" % (nm, "" if dim is None else "dim=%d" % dim, list(sh), m)
                    x = XX("x", sh)
                    if dim is None:
                        out.append(Prog(lab, [x], M(nm), lambda v, f=f: red(v, None, False, f), ns=ns, cfg=cf))
                    else:
                        for keep in (False, True):
                            def jd(g, v, dim=dim, keep=keep, f=f):
                                if len(g) != 2:
                                    return "%d results" % len(g)
                                return same(arr(g[0]), red(v, dim, keep, f)) or onehot_at(g[1], v, dim, f)
                            out.append(Prog(lab + " keepdim=%s" % keep, [x], M(nm, dim=dim, keepdim=keep), None, ns=ns, cfg=cf, judge=jd))

                        def ji(g, v, dim=dim, f=f):
                            return same(arr(g[0]), red(v, dim, False, f)) or index_at(g[1], v, dim, False, f)
                        out.append(Prog(lab + " indices", [x], M(nm, dim=dim, one_hot=False), None, ns=(1,), cfg=cf, judge=ji))
                    al = lab.replace(nm + "(", "arg" + nm + "(")
                    out.append(Prog(al, [x], M("arg" + nm, **({} if dim is None else {"dim": dim})), None, ns=ns, cfg=cf,
                                    judge=lambda g, v, dim=dim, f=f: onehot_at(g, v, dim, f)))
                    for keep in (False, True):
                        if dim is None and keep:
                            continue
                        kw = {"one_hot": False, "keepdim": keep, **({} if dim is None else {"dim": dim})}
                        out.append(Prog(al + " indices keepdim=%s" % keep, [x], M("arg" + nm, **kw), None, ns=(1,), cfg=cf,
                                        judge=lambda g, v, dim=dim, keep=keep, f=f: index_at(g, v, dim, keep, f)))
    return out


def pair(z):
    return z if isinstance(z, tuple) else (z, z)


def pool_cols(v, k, s, p, d, ceil, fill):
    """windows of v: shape lead + (h, w, k0, k1); cells outside the input hold `fill`"""
    k, p, d = pair(k), pair(p), pair(d)
    s = k if s is None else pair(s)
    H, W = v.shape[-2:]
    wh, ww = pool_windows(H, k[0], s[0], p[0], d[0], ceil), pool_windows(W, k[1], s[1], p[1], d[1], ceil)
    out = np.empty(v.shape[:-2] + (len(wh), len(ww)) + k, dtype=object)
    for i, hs in enumerate(wh):
        for j, ws in enumerate(ww):
            for a, h in enumerate(hs):
                for b, w in enumerate(ws):
                    out[..., i, j, a, b] = v[..., h, w] if 0 <= h < H and 0 <= w < W else fill
    return out, wh, ww


LOW = Fr(-256)  # padding cells; the largest entry of a window has to exceed it


def max_pools(chk):
    out = []
    grid = []
    for sh in ((1, 1, 4, 4), (2, 2, 3, 4), (1, 2, 5, 3), (2, 4, 5), (4, 3)):
        for k in (2, (2, 3), 3):
            for s in (None, 1, 2, (2, 1)):
                for p in (0, 1, (1, 0), (0, 1)):
                    for d in (1, 2, (1, 2)):
                        for ceil in (False, True):
                            kk, pp, dd = pair(k), pair(p), pair(d)
                            ss = kk if s is None else pair(s)
                            if any(2 * b > a for a, b in zip(kk, pp)):
                                continue
                            if any(H + 2 * b < e * (a - 1) + 1 for H, a, b, e in zip(sh[-2:], kk, pp, dd)):
                                continue
                            grid.append((sh, k, s, p, d, ceil))
    keep = [g for i, g in enumerate(grid) if chk.thorough or h64("mp", i) % 14 == 0]
    for sh, k, s, p, d, ceil in keep:
        kw = dict(kernel_size=k, stride=s, padding=p, dilation=d, ceil_mode=ceil)
        lab = "max_pool2d(%s)(%s)" % (", ".join("%s=%s" % (a, b) for a, b in kw.items()), list(sh))
        x = X("x", (vals(sh, 0).tolist(), vals(sh, 1, True).tolist()))

        def spec(v, k=k, s=s, p=p, d=d, ceil=ceil):
            c, _, _ = pool_cols(v, k, s, p, d, ceil, LOW)
            return c.reshape(c.shape[:-2] + (-1,)).max(axis=-1)
        out.append(Prog(lab, [x], M("max_pool2d", **kw), spec, ns=(1,)))

        def ji(g, v, k=k, s=s, p=p, d=d, ceil=ceil, spec=spec):
            c, _, _ = pool_cols(v, k, s, p, d, ceil, LOW)
            g0, g1 = arr(g[0]), arr(g[1])
            if g1.shape != c.shape:
                return "position mask of shape %s instead of %s" % (g1.shape, c.shape)
            return same(g0, spec(v)) or onehot_at(g1.reshape(c.shape[:-2] + (-1,)), c.reshape(c.shape[:-2] + (-1,)), c.ndim - 2, max)
        if len(sh) == 4:
            out.append(Prog(lab + " with indices", [x], M("max_pool2d", return_indices=True, **kw), None, ns=(1,), judge=ji))
    return out


def pool_backs(chk):
    """gradient of a window is added at the selected cell"""
    out = []
    for i, (sh, k, s, p, d, ceil) in enumerate((
            ((1, 1, 4, 4), 2, None, 0, 1, False), ((2, 2, 4, 4), (2, 2), (2, 2), (0, 0), (1, 1), False), ((1, 1, 4, 4), 3, 1, 1, 1, False),
            ((1, 2, 3, 4), (2, 3), (1, 2), (1, 0), 1, False), ((1, 1, 3, 4), (2, 3), (1, 2), (0, 1), 1, False),
            ((1, 1, 5, 4), 2, 1, 0, 2, False), ((1, 1, 5, 5), 2, 2, 0, (2, 1), False), ((1, 1, 5, 4), 2, 2, 0, 1, True),
            ((1, 1, 4, 5), 2, 2, 0, 1, True), ((1, 1, 5, 5), 2, (2, 2), 0, (2, 1), True), ((1, 1, 4, 5), 3, 2, 1, 1, True),
            ((1, 1, 5, 4), 3, 2, 1, (1, 1), True), ((1, 1, 5, 3), (2, 1), (3, 2), (1, 0), (1, 1), False))):
        v = vals(sh, i)
        c, wh, ww = pool_cols(v, k, s, p, d, ceil, LOW)
        flat_ = c.reshape(c.shape[:-2] + (-1,))
        sel = np.empty(flat_.shape, dtype=object)
        for q in np.ndindex(*flat_.shape[:-1]):
            l = list(flat_[q])
            for m in range(len(l)):
                sel[q + (m,)] = Fr(int(m == l.index(max(l))))
        sel = sel.reshape(c.shape)
        g = vals(c.shape[:-2], 7)
        want = np.full(sh, Fr(0), dtype=object)
        for q in np.ndindex(*c.shape):
            h, w = wh[q[2]][q[4]], ww[q[3]][q[5]]
            if 0 <= h < sh[2] and 0 <= w < sh[3]:
                want[q[0], q[1], h, w] += g[q[:4]] * sel[q]
        kw = dict(stride=s, padding=p, dilation=d, ceil_mode=ceil)
        lab = "_max_pool2d_backward(kernel_size=%s, %s)(%s)" % (k, ", ".join("%s=%s" % (a, b) for a, b in kw.items()), list(sh))
        out.append(Prog(lab, [X("g", g.tolist()), X("idx", sel.tolist())],
                        (lambda it, gg, ii, k=k, kw=kw, sh=sh: method(it, gg, "_max_pool2d_backward", ii, k, output_size=tuple(sh), **kw)),
                        lambda a, b, want=want: want, ns=(1,)))
    return out


def adaptives(chk):
    out = []
    def win(n, o):
        return [(i * n // o, -(-(i + 1) * n // o)) for i in range(o)]

    def pool(v, o, f):
        wh, ww = win(v.shape[-2], o[0]), win(v.shape[-1], o[1])
        r = np.empty(v.shape[:-2] + (len(wh), len(ww)), dtype=object)
        for q in np.ndindex(*v.shape[:-2]):
            for i, (a, b) in enumerate(wh):
                for j, (e, h) in enumerate(ww):
                    r[q + (i, j)] = f(list(v[q][a:b, e:h].reshape(-1)))
        return r
    cases = [((1, 1, 4, 4), (2, 2)), ((1, 1, 5, 4), (2, 3)), ((2, 1, 3, 5), (3, 2)), ((1, 2, 5, 5), (1, 1)), ((1, 1, 7, 4), (3, 4)), ((1, 1, 4, 6), (4, 4)),
             ((1, 1, 3, 3), (3, 3)), ((1, 1, 5, 3), 2), ((1, 1, 5, 4), (None, 2)), ((1, 1, 4, 5), (2, None)), ((1, 2, 7, 7), (5, 3)), ((2, 5, 4), (2, 2))]
    if chk.thorough:
        cases += [((1, 1, h, w), (a, b)) for h in range(1, 8) for w in (3, 5) for a in range(1, h + 1) for b in (1, 2, 3)]
    for sh, o in cases:
        full = tuple(d if z is None else z for d, z in zip(sh[-2:], pair(o)))
        x = X("x", (vals(sh, 0).tolist(), vals(sh, 1, True).tolist()))
        out.append(Prog("adaptive_max_pool2d(%s)(%s)" % (o, list(sh)), [x], M("adaptive_max_pool2d", o), lambda v, full=full: pool(v, full, max), ns=(1,)))
        out.append(Prog("adaptive_avg_pool2d(%s)(%s)" % (o, list(sh)), [x], M("adaptive_avg_pool2d", o),
                        lambda v, full=full: pool(v, full, lambda l: sum(l) / len(l)), ns=(1,), tol=Fr(1, 2 ** 11)))
    return out


def run(chk):
    chk.rule("R1", "extremes, interpreted over the ring with general, tied, constant and monotone entries, for every shape, dimension, "
                   "keepdim, result form and reduction method")
    chk.rule("R2", "maximum pooling over every combination of kernel, stride, padding, dilation and rounding agrees with the window definition, "
                   "and its indices select an extreme cell of each window")
    chk.rule("R3", "the gradient of maximum pooling is routed to the selected cells")
    chk.rule("R4", "adaptive pooling uses the standard windows")
    prog_obligations(chk, "R1", extremes(chk))
    prog_obligations(chk, "R2", max_pools(chk))
    prog_obligations(chk, "R3", pool_backs(chk))
    prog_obligations(chk, "R4", adaptives(chk))
