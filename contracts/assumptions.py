"""Assumptions each check leaves unchecked (written to the evidence files)."""

GENERAL = [
    "jax.make_jaxpr of the real function is the program that runs (XLA's CPU compilation of it is trusted; cross-checked on random inputs on every run)",
    "shape/configuration instances: Python-level branches on shapes, dtypes and static arguments are covered at the listed instances, and for all sizes where a case is marked 'any size'",
    "XLA/CPU: duplicate scatter targets are updated in order (last update wins), sort is stable when asked to be, out-of-range gathers follow the jaxpr's mode",
]
ANYSIZE = [
    "any-size cases: sizes range over 1..2**28 (2**24 for C10/C12; the k-th root of that when k sizes are multiplied); size 0 by instance cases",
    "any-size cases: size arithmetic is 32-bit and, within those limits, does not overflow; a size comparison JAX cannot decide splits the proof into one variant per outcome",
    "any-size cases: while the symbolic shapes are traced, `int`, `len` and `numpy` in the xtructure modules are wrappers that pass symbolic sizes through (identity on numbers)",
]
HASH = [
    "test classes carry their hash: the hash words are fields of the item, so the proof quantifies over every hash function; that the real hash is a deterministic function of content is C09",
    "multiplications in fingerprints and probe mixing are uninterpreted functions (sound: only congruence is used)",
    "precondition: default max_probes, free space for the new contents, no NaN/-0.0 contents, no NaN unique_key; the 'approx' dedupe mode is documented as lossy and excluded",
    "GPU/TPU insert kernels (Pallas/Triton) are not covered: the CPU path is the one under contract",
]
BY_PROPERTY = {
    "C01": ANYSIZE + ["precondition: enqueues stay within max_size, dequeues within size"],
    "C02": ANYSIZE + ["precondition: pushes stay within max_size, pops within size"],
    "C03": ["keys are finite or +inf (no NaN, no -inf); total after insert within the allocated rows", "8-bit float keys stand for all key dtypes in the exhaustive shapes because keys are only compared (f16/f32/bf16 instances are proved as well)",
            "GPU merge back ends enter through C21's equality and bounded runs", "the number of non-empty heap rows is enumerated, not symbolic; rows and row length at the listed shapes"],
    "C04": ["as C03", "values are tagged with concrete ghost identities: the code only moves the value fields (checked by the data-flow of the generated program)"],
    "C05": HASH, "C06": HASH, "C07": HASH, "C08": HASH,
    "C09": ANYSIZE + ["field bytes to words: bit casts are interpreted exactly, the mixing multiplications of the hash are uninterpreted"],
    "C10": ["array lengths: every residue modulo the block of 8/gcd(bits,8) values with a symbolic number of blocks up to 2**24", "the Pallas pack back end is not covered (TPU/GPU only)"],
    "C11": ANYSIZE + ["precondition: values lie within the declared bits of their field"],
    "C12": ANYSIZE + ["precondition: values lie within the declared bits of their field"],
    "C13": ["assumed contract on numpy: np.load returns what np.savez_compressed stored (dtypes npy cannot name come back as raw bytes); every concrete run uses real files in a scratch directory"],
    "C14": ANYSIZE + ["precondition: float keys without NaN (integer keys raise in the current code)", "wide signatures: multiplications uninterpreted"],
    "C15": ANYSIZE, "C16": ANYSIZE + ["precondition: index arrays are 1-D or tuples of arrays of one shape"],
    "C17": ANYSIZE + ["assumed contract on jax.numpy: the reference of each operation is the same-named jnp function on the field (interpreted down to primitives on both sides)"],
    "C18": ANYSIZE + ["rejection of wrong shapes is proved by symbolic execution of the Python bytecode with assumed shape contracts for jnp.shape/asarray", "numpy 64-bit inputs are coerced before validation"],
    "C19": ANYSIZE + ["dtype conversions between floats are uninterpreted functions of (value, dtypes)", "precondition: cond and b broadcast to a's field shapes"],
    "C20": ANYSIZE, "C22": ANYSIZE,
    "C21": ["Pallas kernels: grid instances in sequence; reads outside a block are arbitrary values; default block size 64 by bounded runs only", "jax.default_backend is stubbed to reach the GPU paths; concrete runs use interpret mode"],
}


def of(prop):
    return GENERAL + BY_PROPERTY.get(prop, [])
