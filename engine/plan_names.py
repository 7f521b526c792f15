"""Properties with a deductive part, and what the verifier takes on trust (no imports: read by check.py)."""
DECIDED = {'C17', 'C09', 'C18', 'C13', 'C04', 'C08', 'C10', 'C11'}
ASSUMPTIONS = [
    'the verified text is the LLVM IR clang 18 (-O1 -Xclang -disable-llvm-passes, so unoptimised) generates from the current sources (src/*.cpp, and engine/inst.cpp, which only instantiates the templates); clang itself is trusted',
    '64-bit and pointer-sized integer arithmetic is treated as mathematical (no wrap-around); signed 32-bit overflow is an obligation',
    'std::vector, std::pair, std::map, std::string and std algorithms are replaced by the models in engine/stl.py',
    'distinct reference arguments do not alias; memory allocation succeeds',
    'floating-point operations are uninterpreted functions of their operands (AbsFloat) unless a function is listed with real arithmetic (RealFloat)',
    'elements beyond the length of a container are unobservable; destructors run while an exception propagates are not modelled',
    'z3 is trusted; quantified facts are used only through the instances the engine adds',
]
