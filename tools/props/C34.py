from common import p

P = [
 p("C34", "In CUDA sources, rules look at kernels or at other functions as they say",
   "CUDA sources are analysed whatever of host and device they are compiled for. Rules look at functions that are no kernels (host, device or both) and not into kernels, unless they say otherwise: high cyclomatic complexity looks at both, branch divergence only into kernels (__global__), where it reports exactly the if statements with else, once each, at their extents. "
   "This holds for functions in namespaces, extern \"C\", classes (static and friend) and templates as for others.",
   ["inputs"], "all compositions of the generated functions, contexts, attributes and ways to compile",
   "The tests try one kernel and one function at file level, and never the driver; where functions are nested depends on the source, and what is compiled on the command.",
   ["oclint-rules/rules/cuda/CudaBranchDivergenceRule.cpp", "oclint-rules/include/oclint/AbstractASTVisitorRule.h", "oclint-driver/lib/Driver.cpp"],
   [("CudaBranchDivergenceRule", "oclint-rules/rules/cuda/CudaBranchDivergenceRule.cpp"), ("applyCUDA", "oclint-rules/include/oclint/AbstractASTVisitorRule.h"),
    ("getCC1Arguments", "oclint-driver/lib/Driver.cpp")],
   "generated CUDA sources end to end, full violation lists of nine rules with positions against models evaluated on the generated tree",
   "Left open: variables and classes outside functions for rules on kernels only, and methods of classes local to kernels. "),
]
