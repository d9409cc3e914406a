TECHNIQUE = {
    "*": "symbolic execution of the real Python and of the kernels' LLVM IR, "
         "obligations decided by SMT (z3) and exact polynomial reasoning",
}
NOTE = {
    "*": "Bounded: every value of the symbolic inputs within the sizes "
         "stated in the evidence's bounds; arithmetic is over the reals "
         "(rounding not modelled unless stated); numpy, scipy and "
         "scikit-learn calls are replaced by models of their contract, "
         "each explored path is also replayed on the real build.",
}
NOT_APPLICABLE = {}
NOTES = ("Every check regenerates its encoding from /repo's working tree: "
         "the Python sources are executed on symbolic values, ext/*.cpp is "
         "compiled to LLVM IR by clang and executed symbolically.")
