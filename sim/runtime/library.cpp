// Code of libraries that is not ours to compile but works on the program's own objects: the geometry library's objects that
// keep state between calls, and the links of trees and lists. A call counts as a write of the object, and two threads inside
// one object at once are a violation whatever they do there.
#include "internal.h"
namespace sim {
struct Inside { const void *obj; int tid; };
static Inside g_inside[64];
static int g_ninside;
struct Use {
    bool on;
    int tid = 0;
    const void *obj;
    Use(const void *o, void *pc) : on(g_active && g_cur), obj(o) {
        if (!on) return;
        tid = g_cur->id;
        for (int i = 0; i < g_ninside; ++i)
            if (g_inside[i].obj == o && g_inside[i].tid != tid) {
                char p[160];
                addr_name((uintptr_t) pc, p, sizeof p);
                violation("data-race", "thread %d changes an object of a library at %s while thread %d is changing it", tid, p, g_inside[i].tid);
            }
        if (g_ninside < 64) g_inside[g_ninside++] = {o, tid};
        else on = false;
        for (int i = 0; i < 3; ++i) access((uintptr_t) o, 8, true, pc);
    }
    ~Use() {
        if (!on) return;
        for (int i = g_ninside - 1; i >= 0; --i)
            if (g_inside[i].obj == obj && g_inside[i].tid == tid) { g_inside[i] = g_inside[--g_ninside]; break; }
    }
};
} // namespace sim
using namespace sim;
#define PC __builtin_return_address(0)
// (result, this, ...): a member function that returns a vector takes them in this order
// (the objects are the first argument, or the second where the result is returned through a pointer)
#define S2(name, sym, self)                                                                                                   \
    extern "C" void *real_##name(void *, void *, void *, void *, void *, void *) asm(sym);\
    extern "C" void *sim_s2_##name(void *a, void *b, void *c, void *d, void *e, void *f) {                                     \
        Use u(self, PC);                                                                                                      \
        return real_##name(a, b, c, d, e, f);                                                                                 \
    }
S2(crossing, "_ZN19S2CrossingEdgeQuery16GetCrossingEdgesERK7Vector3IdES3_N11s2shapeutil12CrossingTypeE", b)
S2(crossing_to, "_ZN19S2CrossingEdgeQuery16GetCrossingEdgesERK7Vector3IdES3_N11s2shapeutil12CrossingTypeEPSt6vectorINS4_9ShapeEdgeESaIS7_EE", a)
S2(crossing_of, "_ZN19S2CrossingEdgeQuery16GetCrossingEdgesERK7Vector3IdES3_RK7S2ShapeN11s2shapeutil12CrossingTypeE", b)
S2(crossing_of_to, "_ZN19S2CrossingEdgeQuery16GetCrossingEdgesERK7Vector3IdES3_RK7S2ShapeN11s2shapeutil12CrossingTypeEPSt6vectorINS7_9ShapeEdgeESaISA_EE", a)
S2(candidates, "_ZN19S2CrossingEdgeQuery13GetCandidatesERK7Vector3IdES3_", b)
S2(candidates_to, "_ZN19S2CrossingEdgeQuery13GetCandidatesERK7Vector3IdES3_PSt6vectorIN11s2shapeutil11ShapeEdgeIdESaIS6_EE", a)
S2(candidates_of, "_ZN19S2CrossingEdgeQuery13GetCandidatesERK7Vector3IdES3_RK7S2Shape", b)
S2(candidates_of_to, "_ZN19S2CrossingEdgeQuery13GetCandidatesERK7Vector3IdES3_RK7S2ShapePSt6vectorIN11s2shapeutil11ShapeEdgeIdESaIS9_EE", a)
S2(query_init, "_ZN19S2CrossingEdgeQuery4InitEPK12S2ShapeIndex", a)
S2(index_add, "_ZN19MutableS2ShapeIndex3AddESt10unique_ptrI7S2ShapeSt14default_deleteIS1_EE", a)
S2(covering, "_ZN15S2RegionCoverer15GetFastCoveringERK8S2RegionPSt6vectorI8S2CellIdSaIS4_EE", a)

// the tree's or the list's links: the nodes that change, and the tree as a whole
extern "C" void real_tree_insert(bool, void *, void *, void *) asm("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
extern "C" void sim_tree_insert(bool left, void *x, void *p, void *header) {
    Use u(header, PC);
    if (g_active) {
        access((uintptr_t) p + 8, 24, true, PC);
        access((uintptr_t) x, 32, true, PC);
        access((uintptr_t) header + 8, 24, true, PC);
    }
    real_tree_insert(left, x, p, header);
}
extern "C" void *real_tree_erase(void *, void *) asm("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
extern "C" void *sim_tree_erase(void *z, void *header) {
    Use u(header, PC);
    if (g_active) {
        access((uintptr_t) z, 32, true, PC);
        access((uintptr_t) header + 8, 24, true, PC);
    }
    return real_tree_erase(z, header);
}
extern "C" void real_list_hook(void *, void *) asm("_ZNSt8__detail15_List_node_base7_M_hookEPS0_");
extern "C" void sim_list_hook(void *node, void *pos) {
    Use u(pos, PC);
    if (g_active) access((uintptr_t) node, 16, true, PC), access((uintptr_t) pos + 8, 8, true, PC);
    real_list_hook(node, pos);
}
extern "C" void real_list_unhook(void *) asm("_ZNSt8__detail15_List_node_base9_M_unhookEv");
extern "C" void sim_list_unhook(void *node) {
    Use u(node, PC);
    if (g_active) access((uintptr_t) node, 16, true, PC);
    real_list_unhook(node);
}
extern "C" void real_list_transfer(void *, void *, void *) asm("_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_");
extern "C" void sim_list_transfer(void *pos, void *first, void *last) {
    Use u(pos, PC);
    if (g_active) access((uintptr_t) pos, 16, true, PC), access((uintptr_t) first, 16, true, PC);
    real_list_transfer(pos, first, last);
}
