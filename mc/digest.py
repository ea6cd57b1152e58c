"""Executes all histories of a shard and prints one digest per class of histories (see props/c26.py)."""
import hashlib
import sys


def main():
    which, part, nparts, order, warm, tier = sys.argv[1:7]
    part, nparts = int(part), int(nparts)
    from . import explore as X
    from .real import RealWorld, receipt
    from .props.c21 import Config, Logged
    X.preload()

    def world(sc):
        sc.static, sc.views = True, None
        w = RealWorld(sc)
        for op in sc.setup():
            w.apply(op)
        w.relist()
        w.chain.globals.refresh()
        return w

    if warm == 'warm':
        # unrelated work in the same process: another market, other amounts, failures
        sc = Config('w') if which == 'market' else Logged('w', supply=77777, fee=11)
        w = world(sc)
        for op in sc.alphabet(w.spec, 0):
            w.apply(op)
            w.observe()
    if which == 'formula':
        formula(part, nparts, order, tier, warm)
        return
    sc = Logged('d') if which == 'market' else Config('d')
    w = world(sc)
    ch = w.chain
    root = ch.save()
    ops = list(sc.alphabet(w.spec, 0))
    idx = [i for i in range(len(ops)) if i % nparts == part]
    if order == 'reverse':
        idx.reverse()
    for i in idx:
        h = {}
        ch.load(root)
        r = receipt(w.apply(ops[i]))
        mid = ch.save()
        seq = list(range(len(ops)))[::1 if tier == 'thorough' else 3]
        if order == 'reverse':
            seq.reverse()
        for j in seq:
            ch.load(mid)
            r2 = receipt(w.apply(ops[j]))
            kv = hashlib.sha1()
            for k in sorted(ch.kv.d):
                kv.update(k + b'=' + ch.kv.d[k] + b';')
            o = [(X.show(k), X.show(v)) for k, v in w.observe().items()]
            h[j] = hashlib.sha1(repr((r, r2, kv.hexdigest(), o)).encode()).hexdigest()
        d = hashlib.sha1(''.join(h[j] for j in sorted(h)).encode()).hexdigest()
        print('op%d %s %d' % (i, d, len(seq) + 1))


def formula(part, nparts, order, tier, warm):
    from contracts.formula import formula as f
    S = (1, 7, 100, 12345, 10 ** 9, 10 ** 18, 10 ** 24 + 7)
    W = (1, 1000, 100000, 333333, 500000, 900000, 1000000)
    calls = []
    for s in S:
        for b in S:
            for w in W:
                for x in (0, 1, 5, 1000, 10 ** 9, 10 ** 17 + 1):
                    calls.append(('calculate_purchase_return', (s, b, w, x)))
                    calls.append(('calculate_sale_return', (s, b, w, min(x, s))))
                    calls.append(('calculate_cross_connector_return', (s, w, b, 1000000 - w or 5, x)))
    # inputs that differ by next to nothing
    for s, b in ((10 ** 40, 10 ** 36), (10 ** 18, 10 ** 38), (10 ** 36, 10 ** 21 + 1), (10 ** 24, 10 ** 24)):
        for x in (b // 1000, b // 7 * 3, 2 * b):
            for w in (1000, 333333, 500000):
                for y in (x, x + 1, x + b // 10 ** 30, x + b // 10 ** 27, x + b // 10 ** 20, x + b // 10 ** 14):
                    calls.append(('calculate_purchase_return', (s, b, w, y)))
                    calls.append(('calculate_sale_return', (b, s, w, min(y, b - 1))))
                    calls.append(('calculate_cross_connector_return', (b, w, s, 1000000 - w, y)))
    calls = [c for i, c in enumerate(calls) if i // 54 % nparts == part]
    out = {}
    for c in (reversed(calls) if order == 'reverse' else calls):
        try:
            out[c] = getattr(f, c[0])(*c[1])
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except BaseException as e:
            out[c] = type(e).__name__
    step = 50
    for k in range(0, len(calls), step):
        chunk = calls[k:k + step]
        print('calls%d %s %d' % (k, hashlib.sha1(repr([(c, out[c]) for c in chunk]).encode()).hexdigest(), len(chunk)))


if __name__ == '__main__':
    main()
