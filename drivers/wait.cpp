// C14: waiting lists and work queues
#include "PetriEngine/Structures/Queue.cpp"
#include "PetriEngine/Structures/PotencyQueue.cpp"
#include "PetriEngine/PQL/Expressions.h"
#include "utils/structures/light_deque.h"
#include <cstring>
#include "PetriEngine/Structures/SuccessorQueue.h"
#include "CTL/SearchStrategy/DFSSearch.h"
#include "CTL/SearchStrategy/BFSSearch.h"
#include "CTL/SearchStrategy/RDFSSearch.cpp"
#include "CTL/SearchStrategy/HeuristicSearch.cpp"
namespace vpd {
// gives query->distance a body of its own (a contract, never executed)
struct Q : PetriEngine::PQL::BooleanCondition { Q() : BooleanCondition(false) {} uint32_t distance(PetriEngine::PQL::DistanceContext&) const override { return 0; } };
void* q() { return new Q; }
struct D : SearchStrategy::DFSSearch { size_t n() const { return Wsize(); } void pu(DependencyGraph::Edge* e) { pushToW(e); } DependencyGraph::Edge* po() { return popFromW(); } };
struct B : SearchStrategy::BFSSearch { size_t n() const { return Wsize(); } void pu(DependencyGraph::Edge* e) { pushToW(e); } DependencyGraph::Edge* po() { return popFromW(); } };
void* nd() { return new D; }
void* nb() { return new B; }
size_t use(D* d, B* b, DependencyGraph::Edge* e) { d->pu(e); b->pu(e); d->po(); b->po(); return d->n() + b->n(); }
size_t dq(light_deque<uint32_t>* d, light_deque<uint32_t>* o, uint32_t x, uint32_t i) { d->push_back(x); d->push_back(std::move(x)); d->pop_front(); d->pop_back(); d->clear(); *d = *o; light_deque<uint32_t> nn(i); const auto* c = d; return d->empty() + d->size() + d->front() + c->front() + c->back() + (*c)[i] + d->back() + (*d)[i] + *d->begin() + *(d->end() - 1) + *c->begin() + *(c->end() - 1); }
size_t sq(SuccessorQueue<uint32_t>* s, uint32_t* a, uint32_t n) { SuccessorQueue<uint32_t> x(a, n), y; s->pop(); s->extend_to(a, n); s->append(a, n); s->all_successors(); return x.front() + s->size() + s->empty() + s->valid() + s->has_consumed() + s->last_pop() + y.size(); }
}
