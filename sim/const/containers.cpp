#include "constops.h"
#include <geomc/Deque.h>
#include <geomc/SmallStorage.h>
#include <geomc/Storage.h>
#include <geomc/Tree.h>
#include <geomc/shape/BinLatticePartition.h>
#include <string>

using namespace constops;

static void put(H& h, int v) { h.add(v); }
static void put(H& h, const std::string& s) { for (char c : s) h.add(c); }
static int make(Args& a, int*) { return a.below(1000); }
static std::string make(Args& a, std::string*) { return "an element too long to be kept inside the object " + std::to_string(a.below(1000)); }

template <typename T, index_t N> static void deque(const char* n, Args& a, std::vector<Op>& ops) {
    typedef Deque<T, N> Q;
    Q init; int k = 4 + a.below(9); for (int i = 0; i < k; ++i) { if (a.below(3)) init.push_back(make(a, (T*)0)); else init.push_front(make(a, (T*)0)); }
    auto s = share(init);
    std::string nm(n);
    CONST_OP(nm + ".iterate", H h; for (index_t i = 0; i < s->size(); ++i) put(h, (*s)[i]); h.add(s->size()); return h.h;);
    CONST_OP(nm + ".index", H h; put(h, (*s)[(index_t)a.below((int)s->size())]); put(h, s->front()); put(h, s->back()); return digest(h.h, s->size(), s->capacity()););
    CONST_OP(nm + ".copy", Q c(*s); c.push_back(make(a, (T*)0)); c.pop_front(); H h; for (index_t i = 0; i < c.size(); ++i) put(h, c[i]); return h.h;);
    CONST_OP(nm + ".assign", Q c; c.push_back(make(a, (T*)0)); c = *s; H h; for (index_t i = 0; i < c.size(); ++i) put(h, c[i]); return h.h;);
    OWN_OP(nm + ".own", Q c; int k = 2 + a.below(9); for (int i = 0; i < k; ++i) { c.push_back(make(a, (T*)0)); c.push_front(make(a, (T*)0)); } c.pop_back(); H h; for (index_t i = 0; i < c.size(); ++i) put(h, c[i]); return h.h;);
}
template <typename T, index_t N> static void small(const char* n, Args& a, std::vector<Op>& ops) {
    typedef SmallStorage<T, N> Q;
    Q init; int k = 2 + a.below(9); for (int i = 0; i < k; ++i) init.push_back(make(a, (T*)0));
    auto s = share(init);
    std::string nm(n);
    CONST_OP(nm + ".iterate", H h; for (auto& x : *s) put(h, x); h.add(s->size()); return h.h;);
    CONST_OP(nm + ".index", H h; put(h, (*s)[(size_t)a.below((int)s->size())]); put(h, *s->begin()); return digest(h.h, s->size(), s->capacity()););
    CONST_OP(nm + ".copy", Q c(*s); c.push_back(make(a, (T*)0)); c.pop_back(); H h; for (auto& x : c) put(h, x); return h.h;);
    CONST_OP(nm + ".assign", Q c; c.push_back(make(a, (T*)0)); c = *s; H h; for (auto& x : c) put(h, x); return h.h;);
    OWN_OP(nm + ".own", Q c; int k = 2 + a.below(9); for (int i = 0; i < k; ++i) c.push_back(make(a, (T*)0)); H h; for (auto& x : c) put(h, x); return h.h;);
}
template <typename S> static void storage(const char* n, size_t len, Args& a, std::vector<Op>& ops) {
    typedef typename std::remove_reference<decltype(*((S*)0)->get())>::type T;
    auto s = share([&] { S x((index_t)len); for (size_t i = 0; i < len; ++i) x.get()[i] = make(a, (T*)0); return x; }());
    std::string nm(n);
    CONST_OP(nm + ".read", H h; const S& x = *s; h.add(x.size()); const T* p = x.get(); for (index_t i = 0; i < (index_t)x.size(); ++i) put(h, p[i]); return h.h;);
    CONST_OP(nm + ".copy", H h; S x(*s); h.add(x.size()); const T* p = x.get(); for (index_t i = 0; i < (index_t)x.size(); ++i) put(h, p[i]); return h.h;);
}

// trees
template <typename N, typename I> static void grow(Subtree<N, I> h, Args& a, int depth) {
    if (depth == 0 || a.below(4) == 0) { int k = a.below(4); for (int i = 0; i < k; ++i) h.insert_item(make(a, (I*)0)); return; }
    int k = 1 + a.below(3);
    for (int i = 0; i < k; ++i) { Subtree<N, I> c = h.insert_child_node(make(a, (N*)0)); grow<N, I>(c, a, depth - 1); }
}
template <typename N, typename I> static void walk(const ConstSubtree<N, I>& h, H& d) {
    put(d, *h); d.add(h.node_count()).add(h.item_count()).add(h.is_root());
    for (auto i = h.items_begin(); i != h.items_end(); ++i) put(d, *i);
    for (auto i = h.begin(); i != h.end(); ++i) { d.add(i.parent() == h); walk<N, I>(i, d); }
}
template <typename N, typename I> static Tree<N, I> make_tree(Args& a) { Tree<N, I> t; *t.root() = make(a, (N*)0); grow<N, I>(t.root(), a, 3); return t; }
template <typename I> static bool visit(const I& s, const int& k) { return (s.item_count() + k) % 3 != 0; }
template <typename N, typename I> static void tree(const char* n, Args& a, std::vector<Op>& ops) {
    typedef Tree<N, I> T; typedef ConstSubtree<N, I> CS;
    auto s = share(make_tree<N, I>(a));
    std::string nm(n);
    auto pick = [](const T& t, Args& a) { CS h = t.root(); for (int d = a.below(4); d > 0 && h.node_count() > 0; --d) { CS k = h.begin(); for (int q = a.below((int)h.node_count()); q > 0; --q) ++k; h = k; } return h; };
    CONST_OP(nm + ".walk", H d; walk<N, I>(s->root(), d); return digest(d.h, s->size(), s->item_count()););
    CONST_OP(nm + ".subtree", H d; CS h = pick(*s, a); walk<N, I>(h, d); return d.h;);
    CONST_OP(nm + ".nodes", H d; CS h = pick(*s, a); for (CS i = h.subtree_begin(); i != h.subtree_end(); ++i) put(d, *i); for (CS i = h.global_begin(); i != h.global_end(); ++i) d.add(i.node_count()); return d.h;);
    CONST_OP(nm + ".begin_end", H d; for (CS i = s->begin(); i != s->end(); ++i) put(d, *i); return d.h;);
    CONST_OP(nm + ".compare", T c(*s); bool e = c == *s; c.root().insert_item(make(a, (I*)0)); return digest(e, c == *s, *s != c, *s == *s););
    CONST_OP(nm + ".copy", T c(*s); H d; walk<N, I>(((const T&)c).root(), d); return d.h;);
    CONST_OP(nm + ".copy_subtree", T c(pick(*s, a)); H d; walk<N, I>(((const T&)c).root(), d); return d.h;);
    CONST_OP(nm + ".find_parent", H d; CS r = s->root(); if (s->item_count() == 0) return 0; auto i = r.items_begin(); for (int q = a.below((int)s->item_count()); q > 0; --q) ++i; CS h = r.find_parent(i); put(d, *h); return digest(d.h, h.item_count()););
    CONST_OP(nm + ".query", H d; int k = a.below(3); auto q = s->root().query(k, visit<CS>, visit<CS>); for (; q != s->root().end(); ++q) put(d, **q); return d.h;);
    OWN_OP(nm + ".own", T c = make_tree<N, I>(a); c.root().insert_item(make(a, (I*)0)); c.root().flatten(); H d; walk<N, I>(((const T&)c).root(), d); return d.h;);
}

static Register r_tree("trees", [](u64 seed, std::vector<Op>& ops) {
    Args a(seed);
    tree<int, std::string>("tree_is", a, ops); tree<std::string, int>("tree_si", a, ops);
});
static Register r_cont("containers", [](u64 seed, std::vector<Op>& ops) {
    Args a(seed);
    deque<int, 2>("deque_int", a, ops); deque<std::string, 4>("deque_string", a, ops);
    small<int, 3>("small_int", a, ops); small<std::string, 4>("small_string", a, ops);
    storage<UniqueStorage<int, 0>>("unique", 6, a, ops);
    storage<SizedStorage<std::string, 0>>("sized", 5, a, ops);
    storage<GenericStorage<int, 4, STORAGE_UNIQUE>>("generic", 4, a, ops);
    storage<Storage<std::string, 3>>("fixed", 3, a, ops);
});
