// verification driver: only includes the real translation units
#include "PetriEngine/PQL/Expressions.cpp"
#include "PetriEngine/Simplification/LPCache.h"
#include "PetriEngine/Simplification/LinearPrograms.cpp"
#include "PetriEngine/PQL/Simplifier.cpp"
// make the vtables and inline members that these units do not emit by themselves available
void* vp_use1(const shared_const_string& s) { return new PetriEngine::PQL::IdentifierExpr(s); }
void* vp_use2() { return new PetriEngine::PQL::PathSelectExpr("", PetriEngine::PQL::Expr_ptr()); }
void vp_use3(PetriEngine::Simplification::Member& a, const PetriEngine::Simplification::Member& b) { a += b; a -= b; a *= b; (void)(a == b); (void)(a < b); (void)(a <= b); (void)(a > b); (void)(a >= b); a.isZero(); a.substrationIsZero(b); a.getType(); a.constant(); a.canAnalyze(); }
