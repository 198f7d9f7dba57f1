"""C24: block partition helpers cover the range exactly once and align as promised."""
import itertools
import numpy as np
import aspsim.utilities as util
import aspsim.processor as pr
PROP = "C24"
TECH = "exhaustive enumeration of all argument combinations up to a bound on the real functions, checked against the definition"
BOUND = dict(quick="calc_block_sizes: num<=48, block<=20, every start; with buffer: num<=30, buffer<=9, chunk<=9, every index; block iteration: ends<=40, every start, block<=14; Python and numpy integers",
             thorough="num<=160, block<=48; num<=70, buffer<=16, chunk<=16; ends<=110, block<=48")
CHUNK = 4

def cases(tier, seed):
    t = tier == "thorough"
    for np_int in (False, True):
        for b in range(1, 49 if t else 21):
            yield dict(kind="sizes", block=b, num=160 if t else 48, np=np_int)
        for buf in range(0, 17 if t else 10):
            for ch in range(1, 17 if t else 10):
                yield dict(kind="buffer", buf=buf, chunk=ch, num=70 if t else 30, np=np_int)
        for b in range(1, 49 if t else 15):
            yield dict(kind="iter", block=b, end=110 if t else 40, np=np_int)

def run_case(ctx, case):
    I = np.int64 if case["np"] else int
    if case["kind"] == "sizes":
        B = case["block"]
        for num in range(case["num"] + 1):
            for start in range(B):
                partition(ctx, list(util.calc_block_sizes(I(num), I(start), I(B))), num, lambda p: (start + p) % B == 0, B, "sizes", (num, start, B))
    elif case["kind"] == "buffer":
        buf, ch = case["buf"], case["chunk"]
        for num in range(case["num"] + 1):
            for idx in range(buf + ch):
                end = buf + ch - idx
                partition(ctx, list(pr.calc_block_sizes_with_buffer(I(num), I(idx), I(buf), I(ch))), num, lambda p: p >= end and (p - end) % ch == 0, max(ch, end), "buffer", (num, idx, buf, ch))
    else:
        B = case["block"]
        for end in range(case["end"] + 1):
            for start in range(-5 if end > 20 else 0, end + 1):
                ctx.step()
                blocks = [tuple(int(v) for v in x) for x in pr.block_process_until_index(I(start), I(end), I(B))]
                first = int(pr.find_first_index_for_block(I(start), I(end), I(B)))
                a = ("iter", start, end, B)
                ctx.check(start <= first <= end and (end - first) % B == 0 and first - start < B, "first", f"find_first_index_for_block{a[1:]} = {first}")
                ctx.check([y - x for x, y in blocks] == [B] * ((end - start) // B), "block-length", f"{a}: {blocks}")
                ctx.check(all(p[1] == q[0] for p, q in zip(blocks, blocks[1:])), "adjacent", f"{a}: {blocks}")
                if blocks:
                    ctx.check(blocks[-1][1] == end and blocks[0][0] == first and blocks[0][0] >= start, "ends", f"{a}: {blocks}")
                else:
                    ctx.check(first == end, "no-blocks", f"{a}: first {first}")
                ctx.state(a, blocks)
    ctx.trace()

def partition(ctx, sizes, num, boundary, longest, key, args):
    """positive lengths with the sum num, cut exactly at the boundaries inside (0, num)"""
    ctx.step()
    cum = [int(c) for c in np.cumsum(sizes)] if sizes else []
    ctx.check(all(s > 0 for s in sizes) and sum(sizes) == num, key + ":sum", f"{args}: {sizes}")
    want = [p for p in range(1, num) if boundary(p)] + ([num] if num else [])
    ctx.check(cum == want, key + ":boundaries", f"{args}: ends at {cum}, boundaries {want}")
    ctx.state(key, args, cum)
