// verification driver: includes the real translation units of the CTL engine's fixed-point algorithms;
// the two classes only give the abstract interfaces a vtable (their members are contracts, never executed)
#include "CTL/Algorithm/CertainZeroFPA.cpp"
#include "CTL/Algorithm/LocalFPA.cpp"
#include "CTL/DependencyGraph/Configuration.cpp"
#include "CTL/SearchStrategy/SearchStrategy.cpp"
namespace vpd {
    struct G : DependencyGraph::BasicDependencyGraph {
        std::vector<DependencyGraph::Edge*> successors(DependencyGraph::Configuration*) override { return {}; }
        DependencyGraph::Configuration* initialConfiguration() override { return nullptr; }
        void release(DependencyGraph::Edge*) override {}
        void cleanUp() override {}
    };
    struct S : ::SearchStrategy::SearchStrategy {
        void flush() override {}
        size_t Wsize() const override { return 0; }
        void pushToW(DependencyGraph::Edge*) override {}
        DependencyGraph::Edge* popFromW() override { return nullptr; }
    };
    void* g() { return new G; }
    void* s() { return new S; }
}
