ASSUMPTIONS = [
    "float64 arithmetic is treated as exact real arithmetic (rounding, overflow, signed zeros and subnormals are outside the claim); differences below a relative 4e-9 are not reported",
    "numpy, scipy, numba, numdifftools and matplotlib are represented by their documented semantics (engine/symnp.py, engine/shims.py); the representation is compared with the real libraries on concrete inputs in every run",
    "sizes (bins, channels, processes, entries, calls) are bounded as listed under bounds; larger sizes are outside the claim",
]
# said of every property's bounds (ctx.widen)
WIDE = "; stated limits of size 300 or more are in fact a thousand times wider and positive lower limits of at most 0.02 a thousand times smaller, unless an assumption restricts them (the evidence lists the ranges used)"
