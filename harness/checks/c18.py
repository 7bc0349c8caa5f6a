"""C18: top-k and top-p masks keep exactly the intended tokens.

The searches are run for random and extreme thresholds and batches, the masks
for random vectors of all shapes, dtypes, ks and ps (static and traced); every
row is judged by TLC (spec/TopMask.tla); spec/BitSearch.tla is the search.
"""
import random

from harness import pool, tlc
from harness.tlc import cfg, Raw

DEVICES = 1
REPL = -12345.0


def shape(r, n=None):
    return tuple(r.choice([1, 2, 3, 4]) for _ in range(r.randint(0, 3) if n is None else n))


def ints(r, num):
    import jax
    import jax.numpy as jnp
    import numpy as np
    from t5x import binary_search
    out = []
    edge = [0, -1, 1, 2**31 - 1, -2**31, -2**31 + 1, 2**30, -2**30, 2**30 - 1, 2**31 - 2]
    for _ in range(num):
        sh = shape(r)
        n = int(np.prod(sh))
        ts = [r.choice([r.randint(-2**31, 2**31 - 1), r.choice(edge), r.randint(-40, 40)]) for _ in range(n)]
        always = [r.random() < .08 for _ in range(n)]
        t = np.asarray(ts, np.int32).reshape(sh)
        a = np.asarray(always).reshape(sh)
        fn = lambda t, a: binary_search.int32_bsearch(sh, lambda x: (x > t) | a)
        got = np.asarray((jax.jit(fn) if r.random() < .3 else fn)(jnp.asarray(t), jnp.asarray(a)))
        assert got.shape == sh, (got.shape, sh)
        for x, y, z in zip(ts, always, got.ravel()):
            out.append(dict(kind='int', always=y, t=half(x), got=half(int(z))))
    return out


def half(x):
    return dict(hi=x >> 16, lo=x & 0xffff)


def bits(f):
    import numpy as np
    b = int(np.asarray(f, np.float32).view(np.uint32))
    return dict(neg=bool(b >> 31), hi=(b >> 16) & 0x7fff, lo=b & 0xffff)


def floats(r, num):
    import jax
    import jax.numpy as jnp
    import numpy as np
    from t5x import binary_search
    out = []
    edge = [0.0, -0.0, 1.0, -1.0, 3.4028235e38, -3.4028235e38, 1.1754944e-38, -1.1754944e-38, 1e-30, -1e-30,
            0.1, np.nextafter(np.float32(1), np.float32(2)), -1e7]
    for _ in range(num):
        sh = shape(r)
        n = int(np.prod(sh))
        def one():
            c = r.random()
            if c < .3:
                return r.choice(edge)
            if c < .6:
                return r.uniform(-50, 50)
            # any normal number
            b = (r.randint(0, 1) << 31) | (r.randint(1, 254) << 23) | r.randint(0, 2**23 - 1)
            return float(np.asarray(b, np.uint32).view(np.float32))
        t = np.asarray([one() for _ in range(n)], np.float32).reshape(sh)
        fn = lambda t: binary_search.float32_bsearch(sh, lambda x: x > t)
        got = np.asarray((jax.jit(fn) if r.random() < .3 else fn)(jnp.asarray(t)))
        assert got.shape == sh and got.dtype == np.float32, (got.shape, got.dtype)
        for x, z in zip(t.ravel(), got.ravel()):
            out.append(dict(kind='float', t=bits(x), got=bits(z)))
    return out


def rows(x, out, zero, x_in, **kw):
    """One case per row; entries are unchanged, replaced or something else."""
    import numpy as np
    res = []
    for a, o, z, v in zip(x.reshape(-1, x.shape[-1]), out.reshape(-1, x.shape[-1]),
                          zero.reshape(-1, x.shape[-1]), x_in.reshape(-1, x.shape[-1])):
        mark = ['same' if float(p) == float(q) else 'replaced' if float(q) == REPL else 'other'
                for p, q in zip(v, o)]
        res.append(dict(x=[int(i) for i in a], out=mark, zero=[bool(i) for i in z], **kw))
    return res


def topk(r, num):
    import jax
    import jax.numpy as jnp
    import numpy as np
    from t5x import binary_search
    out = []
    for _ in range(num):
        sh = shape(r) + (r.choice([1, 2, 3, 5, 8, 17, 64]),)
        if r.random() < .15:
            sh = shape(r, r.choice([0, 1]))[:1] + (r.choice([130, 300, 600]),)
        spread = r.choice([2, 5, 40, 10**6])
        n = int(np.prod(sh))
        v = np.asarray([r.randint(-spread, spread) for _ in range(n)]).reshape(sh)
        dtype = r.choice([np.float32] * 3 + [jnp.bfloat16]) if spread < 100 else np.float32
        scale = r.choice([1.0, 0.125, -0.5, 1024.0]) if spread < 100 else 1.0
        x = np.asarray(v * scale, np.float32).astype(dtype)
        if scale < 0:
            v = -v
        zero = np.zeros(sh, bool)
        if r.random() < .2:     # entries nothing can be drawn from
            zero = np.asarray([r.random() < .3 for _ in range(n)]).reshape(sh)
            x = np.where(zero, -np.inf, x.astype(np.float32)).astype(dtype)
            v = np.where(zero, -2 * 10**6, v)
        k = r.choice([1, 1, 2, 3, 5, sh[-1], sh[-1] + 3, r.randint(1, sh[-1])])
        fn = binary_search.topk_mask
        style = r.choice(['plain', 'jit', 'traced'])
        if style == 'jit':
            fn = jax.jit(fn, static_argnums=(1,))
        elif style == 'traced':
            fn = jax.jit(fn)
        y = fn(jnp.asarray(x), k, jnp.asarray(REPL, jnp.float32) if r.random() < .5 else REPL)
        assert y.shape == sh and y.dtype == x.dtype, (y.shape, y.dtype)
        xin = np.asarray(jnp.asarray(x, jnp.float32))
        got = np.asarray(jnp.asarray(y, jnp.float32))
        if dtype is not np.float32:
            got = np.where(got == float(jnp.asarray(REPL, jnp.bfloat16)), REPL, got)
        out += rows(v, got, zero, xin, kind='k', k=k)
    return out


def topp(r, num):
    import jax
    import jax.numpy as jnp
    import numpy as np
    from t5x import binary_search
    out = []
    for _ in range(num):
        sh = shape(r) + (r.choice([1, 2, 3, 5, 8, 17]),)
        n = int(np.prod(sh))
        hi = r.choice([1, 2, 4, 30, 1000, 1000])
        lo = lambda: 0 if r.random() < .2 else 1
        w = np.asarray([r.randint(lo(), hi) if r.random() < .7 else r.choice([lo(), hi * 3])
                        for _ in range(n)]).reshape(sh)
        w[..., 0] = np.maximum(w[..., 0], 1)
        shift = r.choice([0.0, 3.0, -20.0])
        with np.errstate(divide='ignore'):
            x = (np.log(w) + shift).astype(np.float32)
        x = np.where(w == 0, r.choice([-np.inf, -1e7]), x).astype(np.float32)
        # p lies strictly between masses that can be reached: odd / (2 * total) for all totals in the batch,
        # so one p per batch is drawn until that holds
        tot = w.sum(-1).ravel()
        den = 2 * int(np.lcm.reduce(tot)) if len(tot) < 4 else 0
        if not 0 < den < 10**5 or den * int(tot.max()) >= 2**31:
            den = 997
        num_ = r.randint(1, den - 1)
        flat = w.reshape(-1, sh[-1])
        def close(num_):
            for row, t in zip(flat, tot):
                sums = set(np.cumsum(sorted(row)[::-1]).tolist())
                if any(abs(s / t - num_ / den) < 1e-5 for s in sums):
                    return True
            return False
        tries = 0
        while close(num_) and tries < 50:
            num_, tries = r.randint(1, den - 1), tries + 1
        if tries == 50:
            continue
        if r.random() < (.5 if hi == 1000 else .1):
            num_ = den           # everything
        fn = binary_search.topp_mask
        style = r.choice(['plain', 'jit', 'traced'])
        if style == 'jit':
            fn = jax.jit(fn, static_argnums=(1,))
        elif style == 'traced':
            fn = jax.jit(fn)
        y = np.asarray(fn(jnp.asarray(x), num_ / den, jnp.asarray(REPL, jnp.float32)))
        assert y.shape == sh, y.shape
        out += rows(w, y, w == 0, x, kind='p', num=num_, den=den)
    return out


def cases(item):
    what, seed, num = item
    return globals()[what](random.Random('%s %d' % (what, seed)), num)


def run(chk):
    for fl, w, e in ((False, chk.n(6, 10), 0), (True, chk.n(6, 9), 2), (True, chk.n(7, 10), 3)):
        st = tlc.check('BitSearch', cfg(spec='Spec', constants=dict(W=w, E=e, Float=fl),
                                        invariants=['Reach', 'Done', 'DoneFinite']))
        chk.spec('BitSearch W=%d E=%d %s' % (w, e, fl), st)
    st = tlc.check('TopMaskMC', cfg(
        spec='Spec', constants=dict(Vals=Raw('0..3'), MaxLen=chk.n(4, 5), Den=7),
        invariants=['SmallestK', 'ThresholdK', 'SmallestP']))
    chk.spec('TopMaskMC', st)
    items = [(w, chk.seed * 100 + j, chk.n(n, 12 * n)) for w, n in (
        ('ints', 40), ('floats', 40), ('topk', 60), ('topp', 80)) for j in range(2)]
    allc = []
    for it, c in zip(items, pool.pmap(chk, 'harness.checks.c18', 'cases', items, procs=8, devices=1)):
        allc += [(it[0], x) for x in c or []]
    bad, n = tlc.judge('TopMask', [c for _, c in allc], op='Ok')
    for b in bad:
        what, c = allc[b]
        chk.violation('%s %s' % (what, b), '%s: %s' % (what, c), c)
    chk.validated(n, allc[-1][1] if allc else None)
    chk.note(cases={w: sum(a == w for a, _ in allc) for w in ('ints', 'floats', 'topk', 'topp')})
