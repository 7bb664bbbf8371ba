"""Which contracts and which replay harness belong to which property."""
S = "src/"
NET = [S + "PetriEngine/PetriNet.cpp", S + "PetriEngine/SuccessorGenerator.cpp"]
STUB = [S + "PetriEngine/ReducingSuccessorGenerator.cpp", S + "PetriEngine/Stubborn/StubbornSet.cpp"]
PQL = [S + "PetriEngine/PQL/%s.cpp" % x for x in ("Expressions", "Evaluation", "PushNegation", "PredicateCheckers", "Contexts", "PQL", "QueryPrinter")]
SIMP = [S + "PetriEngine/Simplification/%s.cpp" % x for x in ("LinearProgram", "LinearPrograms", "LPCache", "Vector", "MurmurHash2")]

EXPL = [S + "PetriEngine/ExplicitColored/%s.cpp" % x for x in ("ArcCompiler", "ColoredPetriNet", "ExplicitColoredPetriNetBuilder", "ExpressionCompilers/GuardCompiler", "SuccessorGenerator/ColoredSuccessorGenerator")] + [S + "PetriEngine/Colored/%s.cpp" % x for x in ("Colors", "Multiset", "EvaluationVisitor", "EquivalenceVec", "EquivalenceClass")] + [S + "PetriParse/PNMLParser.cpp", S + "PetriParse/AbstractPetriNetBuilder.cpp"]

CTL = [S + "CTL/%s.cpp" % x for x in ("Algorithm/CertainZeroFPA", "Algorithm/LocalFPA", "Algorithm/FixedPointAlgorithm", "DependencyGraph/Configuration", "SearchStrategy/SearchStrategy", "SearchStrategy/RDFSSearch", "SearchStrategy/HeuristicSearch", "PetriNets/OnTheFlyDG")] + [S + "PetriEngine/PQL/FormulaSize.cpp", S + "PetriEngine/Structures/AlignedEncoder.cpp", S + "PetriEngine/Structures/binarywrapper.cpp", S + "PetriEngine/Stubborn/ReachabilityStubbornSet.cpp", S + "PetriEngine/Stubborn/InterestingTransitionVisitor.cpp"]

PROPS = {
    "C01": dict(contracts="c01", harness="C01.cpp", sources=NET, secs=(20, 240)),
    "C02": dict(contracts="c02", harness="C02.cpp", sources=NET + STUB, secs=(30, 240)),
    "C03": dict(contracts="c03", harness="C03.cpp", sources=[S + "PetriEngine/PetriNet.cpp", S + "PetriEngine/Structures/AlignedEncoder.cpp", S + "PetriEngine/Structures/binarywrapper.cpp"], secs=(40, 300)),
    "C04": dict(contracts="c04", harness="C04.cpp", sources=PQL + NET, secs=(25, 240), flags=["-DNDEBUG"], libs=["-lglpk"]),
    "C05": dict(contracts="c05", harness="C05.cpp", sources=PQL + NET, secs=(20, 240), flags=["-DNDEBUG"], libs=["-lglpk"]),
    "C06": dict(contracts="c06", harness="C06.cpp", sources=PQL + NET, secs=(40, 300), flags=["-DNDEBUG"], libs=["-lglpk"]),
    "C07": dict(contracts="c07", harness="C07.cpp", sources=PQL + NET + [S + "PetriEngine/TAR/%s.cpp" % x for x in ("RangeContext", "TraceSet", "Solver", "RangeEvalContext")], secs=(30, 240), flags=["-DNDEBUG"], libs=["-lglpk"]),
    "C08": dict(contracts="c08", harness="C08.cpp", sources=[S + "PetriEngine/Colored/%s.cpp" % x for x in ("GuardRestrictor", "IntervalGenerator", "Colors", "Multiset")] + [], secs=(25, 200), flags=["-DNDEBUG"]),
    "C10": dict(contracts="c10", harness="C10.cpp", sources=PQL + NET + STUB + [S + "PetriEngine/Stubborn/%s.cpp" % x for x in ("ReachabilityStubbornSet", "InterestingTransitionVisitor")], secs=(30, 240), flags=["-DNDEBUG"], libs=["-lglpk"]),
    "C09": dict(contracts="c09", harness="C09.cpp", sources=PQL + NET + [S + "PetriEngine/PQL/Simplifier.cpp"] + SIMP, secs=(30, 240), flags=["-DNDEBUG"], libs=["-lglpk"]),
    "C11": dict(contracts="c11", harness="C11.cpp", sources=[S + "PetriEngine/Structures/binarywrapper.cpp"], secs=(25, 200)),
    "C13": dict(contracts="c13", harness="C13.cpp", sources=PQL + NET + STUB + CTL, secs=(30, 240), flags=["-DNDEBUG"], libs=["-lglpk"]),
    "C14": dict(contracts="c14", harness="C14.cpp", sources=PQL + NET + STUB + CTL + ["src/PetriEngine/Structures/Queue.cpp", "src/PetriEngine/Structures/PotencyQueue.cpp"], secs=(15, 150), flags=["-DNDEBUG"], libs=["-lglpk"]),
    "C12": dict(contracts="c12", harness="C12.cpp", sources=EXPL, secs=(30, 240), flags=["-DNDEBUG"]),
}
