// C07 / C08: histories over a pool of geom::Tree with allocator, element and callback faults.
#include "core/sim.h"
#include "core/elem.h"
#include "core/ops.h"
#include <algorithm>
#include <list>
#include <geomc/Tree.h>

using namespace sim;
using namespace geom;

enum { NEW_EMPTY, NEW_RANGE, COPY_CTOR, FROM_SUBTREE, MOVE_CTOR,
       INSERT_NODE, INSERT_NODE_END, INSERT_NODE_BAD, INSERT_NODES, INSERT_NODES_BAD,
       INSERT_ITEM, INSERT_ITEM_END, INSERT_ITEM_SELF, INSERT_ITEMS, INSERT_ITEMS_SELF,
       ADOPT, ADOPT_BAD, SPLIT, ERASE_ITEM, ERASE_CHILD, CLEAR, FLATTEN, SET_NODE, SET_ITEM,
       EQUAL, EQUAL_NEAR, FIND_PARENT, FIND_PARENT_BOUND, QUERY, QUERY_ALL, CONVERT, NAVIGATE, OP_COUNT };
static const char* OPS[] = { "new_empty", "new_range", "copy_ctor", "from_subtree", "move_ctor",
       "insert_node", "insert_node_end", "insert_node_bad", "insert_nodes", "insert_nodes_bad",
       "insert_item", "insert_item_end", "insert_item_self", "insert_items", "insert_items_self",
       "adopt", "adopt_bad", "split", "erase_item", "erase_child", "clear", "flatten", "set_node", "set_item",
       "equal", "equal_near", "find_parent", "find_parent_bound", "query", "query_all", "convert", "navigate" };

static const int POOL = 3;
static const size_t MAX_NODES = 70, MAX_ITEMS = 90;

// what the bounding function given to find_parent() knows
static std::vector<const void*> bound_path;   // node values which must be entered
static u64 bound_salt;

static void callback() { if (lib_depth > 0 && faults.hit(F_CALLBACK)) throw SimFault(F_CALLBACK); }

template <int KN, int KL>
struct World {
    typedef Elem<KN> N;
    typedef Elem<KL> L;
    typedef Tree<N, L> T;
    typedef Subtree<N, L> S;
    typedef ConstSubtree<N, L> CS;
    typedef typename S::item_iterator It;
    typedef typename CS::item_iterator CIt;

    struct Item { i64 v; It it; };
    struct Node {
        Node* parent = nullptr; std::vector<Node*> kids; std::vector<Item> items; i64 data = 0; S h;
        ~Node() { for (Node* k : kids) delete k; }
        size_t index() const { return (size_t)(std::find(parent->kids.begin(), parent->kids.end(), this) - parent->kids.begin()); }
    };
    struct Cell { void* mem; T* t; Node* m = nullptr; };
    Cell c[POOL];
    const Trace& t;
    explicit World(const Trace& t) : t(t) {}

    // ------------------------------------------------------------ the model

    static void preorder(Node* n, std::vector<Node*>& out) { out.push_back(n); for (Node* k : n->kids) preorder(k, out); }
    static std::vector<Node*> all(Node* n) { std::vector<Node*> v; preorder(n, v); return v; }
    static void descendants(Node* n, std::vector<Node*>& out) {   // in the documented (sibling-contiguous) order
        for (Node* k : n->kids) out.push_back(k);
        for (Node* k : n->kids) descendants(k, out);
    }
    static void items(Node* n, std::vector<Item*>& out) {
        for (Item& i : n->items) out.push_back(&i);
        for (Node* k : n->kids) items(k, out);
    }
    static std::vector<Item*> items(Node* n) { std::vector<Item*> v; items(n, v); return v; }
    static Node* copy(const Node* n, Node* parent) {
        Node* r = new Node; r->parent = parent; r->data = n->data;
        for (const Item& i : n->items) r->items.push_back({i.v, It()});
        for (Node* k : n->kids) r->kids.push_back(copy(k, r));
        return r;
    }
    static bool same(const Node* a, const Node* b) {
        if (a->data != b->data || a->kids.size() != b->kids.size() || a->items.size() != b->items.size()) return false;
        for (size_t k = 0; k < a->items.size(); ++k) if (a->items[k].v != b->items[k].v) return false;
        for (size_t k = 0; k < a->kids.size(); ++k) if (!same(a->kids[k], b->kids[k])) return false;
        return true;
    }
    // take the handles of a model subtree from the tree (which verify() then checks)
    void rehandle(Node* n, S h) {
        n->h = h;
        if (n->kids.empty()) {
            SIM_REQUIRE("C07", "item-count", (size_t)h.item_count() == n->items.size(), "a leaf holds %lld items, expected %zu", (long long)h.item_count(), n->items.size());
            rec.check();
            It i = h.items_begin();
            for (size_t k = 0; k < n->items.size(); ++k, ++i) n->items[k].it = i;
        } else {
            SIM_REQUIRE("C07", "node-count", (size_t)h.node_count() == n->kids.size(), "a node has %lld children, expected %zu", (long long)h.node_count(), n->kids.size());
            rec.check();
            S k = h.begin();
            for (size_t q = 0; q < n->kids.size(); ++q) { S next = k; ++next; rehandle(n->kids[q], k); k = next; }
        }
    }

    // change one detail of the model of a tree
    static void vary(Node* m, u64 kind, size_t a, size_t b) {
        std::vector<Node*> v = all(m);
        Node* n = v[a % v.size()];
        std::vector<Node*> leaves;
        for (Node* q : v) if (q->kids.empty()) leaves.push_back(q);
        switch (kind % 9) {
        case 0: break;
        case 1: n->data += 1; break;
        case 2: { std::vector<Item*> z = items(m); if (!z.empty()) z[b % z.size()]->v += 1; break; }
        case 3: case 4: {   // an item moves to an adjacent leaf
            if (leaves.size() < 2) break;
            size_t k = b % (leaves.size() - 1); Node* l = leaves[k]; Node* r = leaves[k + 1];
            if (l->items.empty() || (!r->items.empty() && kind % 9 == 4)) { if (r->items.empty()) break; l->items.push_back(r->items.front()); r->items.erase(r->items.begin()); }
            else { r->items.insert(r->items.begin(), l->items.back()); l->items.pop_back(); }
            break;
        }
        case 5: {           // an empty leaf comes or goes
            Node* l = leaves[b % leaves.size()];
            if (l->parent && l->items.empty()) { l->parent->kids.erase(l->parent->kids.begin() + (long)l->index()); delete l; }
            else if (!n->kids.empty()) { Node* k = new Node; k->parent = n; k->data = n->kids.back()->data; n->kids.push_back(k); }
            break;
        }
        case 6: {           // a leaf becomes the last child of the sibling to its left, or of its grandparent
            Node* l = leaves[b % leaves.size()]; Node* q = l->parent; if (!q) break;
            size_t at = l->index();
            Node* to = at > 0 && !q->kids[at - 1]->kids.empty() ? q->kids[at - 1] : at + 1 == q->kids.size() && at > 0 ? q->parent : nullptr;
            if (!to) break;
            size_t pos = to == q->parent ? q->index() + 1 : to->kids.size();
            q->kids.erase(q->kids.begin() + (long)at); l->parent = to; to->kids.insert(to->kids.begin() + (long)pos, l);
            break;
        }
        case 7: if (n->kids.size() > 1) std::swap(n->kids.front(), n->kids.back()); break;
        default: {          // every item belongs to the next leaf
            for (size_t k = leaves.size() - 1; k > 0; --k) leaves[k]->items.swap(leaves[k - 1]->items);
            break;
        }
        }
    }
    static void build(S h, Node* m) {
        (*h).v = m->data;
        for (Item& z : m->items) { L e{z.v}; Lib l; h.insert_item(h.items_end(), e); }
        for (Node* k : m->kids) { S n; { Lib l; n = h.insert_child_node(h.end(), k->data); } build(n, k); }
    }

    // ------------------------------------------------------------ trees

    static void* raw() { void* p = ::operator new(sizeof(T), std::align_val_t(64)); memset(p, 0xA5, sizeof(T)); return p; }
    void make_empty(Cell& x) {
        { Lib l; x.t = new (x.mem) T(); }
        x.m = new Node; x.m->data = DEFAULTED; if (KN == 4) x.m->data = 0; x.m->h = x.t->root();
    }
    void destroy(Cell& x) { { Lib l; x.t->~T(); } x.t = nullptr; delete x.m; x.m = nullptr; rec.check(); }

    // structure seen through handles of type H, against the model
    template <typename H> void verify_node(const H& h, Node* n, const H& tree_end, int i) {
        SIM_REQUIRE("C07", "node-value", peek(*h, "C08") == n->data, "tree %d: a node holds %lld, expected %lld", i, (long long)peek(*h, "C08"), (long long)n->data);
        SIM_REQUIRE("C07", "node-count", (size_t)h.node_count() == n->kids.size(), "tree %d: node %lld has %lld children, expected %zu", i, (long long)n->data, (long long)h.node_count(), n->kids.size());
        rec.check();
        std::vector<Item*> want = items(n);
        SIM_REQUIRE("C07", "item-count", (size_t)h.item_count() == want.size(), "tree %d: node %lld counts %lld items, expected %zu", i, (long long)n->data, (long long)h.item_count(), want.size());
        rec.check();
        auto it = h.items_begin();
        for (size_t k = 0; k < want.size(); ++k, ++it) {
            i64 v = peek(*it, "C08");
            SIM_REQUIRE("C07", "item", v == want[k]->v && &*it == &*want[k]->it, "tree %d: item %zu under node %lld is %lld, expected %lld", i, k, (long long)n->data, (long long)v, (long long)want[k]->v);
            rec.check();
        }
        SIM_REQUIRE("C07", "items-end", it == h.items_end(), "tree %d: items_end() of node %lld is not after its last item", i, (long long)n->data);
        SIM_REQUIRE("C07", "parent", n->parent ? h.parent() == H(n->parent->h) : h.parent() == tree_end, "tree %d: parent() of node %lld is wrong", i, (long long)n->data);
        SIM_REQUIRE("C07", "is-root", h.is_root() == !n->parent, "tree %d: is_root() of node %lld is wrong", i, (long long)n->data);
        H k = h.begin();
        for (size_t q = 0; q < n->kids.size(); ++q, ++k) {
            SIM_REQUIRE("C07", "child", k == H(n->kids[q]->h), "tree %d: child %zu of node %lld is not the expected node", i, q, (long long)n->data);
            rec.check();
        }
        SIM_REQUIRE("C07", "end", k == h.end(), "tree %d: end() of node %lld is not after its last child", i, (long long)n->data);
        rec.check();
        std::vector<Node*> d; descendants(n, d);
        H s = h.subtree_begin();
        for (size_t q = 0; q < d.size(); ++q, ++s) {
            SIM_REQUIRE("C07", "subtree-order", s == H(d[q]->h), "tree %d: node %zu below node %lld is not the expected one", i, q, (long long)n->data);
            rec.check();
        }
        SIM_REQUIRE("C07", "subtree-end", s == h.subtree_end(), "tree %d: subtree_end() of node %lld is not after its last descendant", i, (long long)n->data);
        for (Node* q : n->kids) verify_node<H>(H(q->h), q, tree_end, i);
    }
    void verify(int i) {
        Cell& x = c[i];
        const T& ct = *x.t;
        std::vector<Node*> d; d.push_back(x.m); descendants(x.m, d);
        SIM_REQUIRE("C07", "size", ct.size() == d.size(), "tree %d has %zu nodes, expected %zu", i, ct.size(), d.size());
        SIM_REQUIRE("C07", "tree-item-count", ct.item_count() == items(x.m).size(), "tree %d counts %zu items, expected %zu", i, ct.item_count(), items(x.m).size());
        SIM_REQUIRE("C07", "root", x.t->root() == x.m->h && x.t->begin() == x.m->h && ct.root() == CS(x.m->h) && ct.begin() == ct.root(), "tree %d: root() is not the root", i);
        rec.check();
        S s = x.t->begin();
        for (size_t q = 0; q < d.size(); ++q, ++s) { SIM_REQUIRE("C07", "order", s == d[q]->h, "tree %d: node %zu in tree order is not the expected one", i, q); rec.check(); }
        SIM_REQUIRE("C07", "tree-end", s == x.t->end(), "tree %d: end() is not after the last node", i);
        verify_node<S>(x.m->h, x.m, x.t->end(), i);
        verify_node<CS>(ct.root(), x.m, ct.end(), i);
        rec.check();
    }

    // ------------------------------------------------------------ operations

    S before(Node* p, size_t pos) { return pos < p->kids.size() ? p->kids[pos]->h : p->h.end(); }
    It item_at(Node* n, size_t pos) { return pos < n->items.size() ? n->items[pos].it : n->h.items_end(); }

    // a handle which is not a child or the end-child of n
    bool bad_position(Cell& x, Node* n, size_t k, S* out) {
        std::vector<Node*> v = all(x.m);
        S pick = k < 2 ? x.t->end() : v[k % v.size()]->h;
        if (pick == n->h.end()) return false;
        for (Node* q : n->kids) if (q->h == pick) return false;
        *out = pick;
        return true;
    }
    // model: new first child takes the items of its parent
    Node* add_kid(Node* p, size_t pos, i64 v) {
        Node* k = new Node; k->parent = p; k->data = v;
        if (p->kids.empty()) k->items.swap(p->items);
        p->kids.insert(p->kids.begin() + (long)pos, k);
        return k;
    }
    bool deep = t.get("deep") != 0;      // mostly below the deepest node
    Node* deepest(Cell& x) { Node* r = x.m; int most = -1; for (Node* n : all(x.m)) { int d = 0; for (Node* p = n; p->parent; p = p->parent) ++d; if (d >= most) { most = d; r = n; } } return r; }
    Node* pick_node(Cell& x, i64 a) { if (deep && a % 4) return deepest(x); std::vector<Node*> v = all(x.m); return v[(size_t)a % v.size()]; }
    Node* pick_leaf(Cell& x, i64 a) { if (deep && a % 4) return deepest(x); std::vector<Node*> v; for (Node* n : all(x.m)) if (n->kids.empty()) v.push_back(n); return v[(size_t)a % v.size()]; }
    Node* node_of(Cell& x, Item* it) { for (Node* n : all(x.m)) for (Item& i : n->items) if (&i == it) return n; return nullptr; }

    template <typename F> Outcome rebuild(const Step& s, int i, F mk) {
        destroy(c[i]);
        memset(c[i].mem, 0xA5, sizeof(T));
        Outcome o = attempt(s, "C08", [&] { c[i].t = mk(c[i].mem); });
        if (o == FAILED) make_empty(c[i]);
        return o;
    }
    void unchanged(bool ok, const char* what) { SIM_REQUIRE("C07", "invalid-request-result", ok, "%s with an invalid position or node did not return the documented end", what); }

    struct Cmp { int operator()(const L& a, i64 pivot) const { NoLib nl; int r = a.v < pivot ? -1 : a.v > pivot; lib_depth = nl.d; callback(); return r; } };

    void split(const Step& s, Cell& x, Node* n, i64 pivot, i64 val) {
        bool valid = n->parent && n->kids.empty() && n->items.size() >= 2;
        S got; Outcome o = attempt(s, "C08", [&] { got = n->h.split(Cmp(), pivot, val); });
        if (!valid) { if (o == DONE) unchanged(got == n->h.end(), "split()"); return; }
        std::vector<i64> lo, hi, all_v;
        for (Item& i : n->items) { all_v.push_back(i.v); (i.v < pivot ? lo : hi).push_back(i.v); }
        // the new node, if there is one, precedes this one
        size_t at = n->index();
        S prev = n->h; bool have = false;
        if ((size_t)n->parent->h.node_count() == n->parent->kids.size() + 1) {
            --prev; have = true;
            SIM_REQUIRE("C07", "split-sibling", prev.parent() == n->parent->h && peek(*prev, "C08") == val && prev.node_count() == 0, "split() did not put a new sibling before the node");
            rec.check();
        }
        if (o == DONE) SIM_REQUIRE("C07", "split-result", have && got == prev, "split() did not return the new sibling");
        rec.check();
        if (!have) return;
        SIM_REQUIRE("C08", "split-items", (size_t)(prev.item_count() + n->h.item_count()) == all_v.size(), "split() left %lld + %lld of %zu items", (long long)prev.item_count(), (long long)n->h.item_count(), all_v.size());
        rec.check();
        Node* k = new Node; k->parent = n->parent; k->data = val; k->h = prev;
        n->parent->kids.insert(n->parent->kids.begin() + (long)at, k);
        size_t cnt = n->items.size(); n->items.clear();
        std::vector<i64> now_lo, now_all;
        auto take = [&](Node* to) {
            It it = to->h.items_begin();
            for (index_t q = to->h.item_count(); q > 0; --q, ++it) { i64 v = peek(*it, "C08"); rec.check(); to->items.push_back({v, it}); now_all.push_back(v); if (to == k) now_lo.push_back(v); }
        };
        take(k); take(n); (void)cnt;
        std::sort(now_all.begin(), now_all.end()); std::sort(all_v.begin(), all_v.end());
        SIM_REQUIRE("C08", "split-lost-item", now_all == all_v, "split() lost, duplicated or changed an item");
        if (o == DONE) { std::sort(now_lo.begin(), now_lo.end()); std::sort(lo.begin(), lo.end()); SIM_REQUIRE("C07", "split-partition", now_lo == lo, "split() moved the wrong items to the new node"); }
        else for (i64 v : now_lo) SIM_REQUIRE("C07", "split-partition", v < pivot, "an interrupted split() moved an item that belongs to the right");
        rec.check();
    }

    static bool bounding(const N& n, const L&) {
        { NoLib nl; for (const void* p : bound_path) if (p == &n) { lib_depth = nl.d; callback(); return true; } }
        callback();
        return (mix64(bound_salt ^ (u64)n.v) & 1) != 0;
    }

    void step(const Step& s, int n) {
        rec.cur_step = n;
        int i = (int)s.idx(0, POOL);
        Cell& x = c[i];
        rec.log((u64)s.op * 8 + (u64)i);
        rec.count(OPS[s.op]);
        Node* p = pick_node(x, s.arg(1));
        Node* leaf = pick_leaf(x, s.arg(1));
        size_t n_nodes = all(x.m).size(), n_items = items(x.m).size();
        bool room_n = n_nodes < MAX_NODES, room_i = n_items < MAX_ITEMS;
        i64 val = s.arg(3);
        switch (s.op) {
        case NEW_EMPTY: {
            Outcome o = rebuild(s, i, [&](void* m) { return new (m) T(); });
            if (o == DONE) { x.m = new Node; x.m->data = default_value<KN>(); x.m->h = x.t->root(); }
            break;
        }
        case NEW_RANGE: {
            size_t k = s.idx(2, 9);
            std::vector<L> src; src.reserve(k + 1); for (size_t q = 0; q < k; ++q) src.push_back(L{val + (i64)q});
            Outcome o = rebuild(s, i, [&](void* m) { return new (m) T(src.begin(), src.end()); });
            if (o == DONE) { x.m = new Node; x.m->data = default_value<KN>(); for (size_t q = 0; q < k; ++q) x.m->items.push_back({val + (i64)q, It()}); rehandle(x.m, x.t->root()); }
            break;
        }
        case COPY_CTOR: {
            int j = (int)s.idx(2, POOL); if (i == j) break;
            Node* m = copy(c[j].m, nullptr);
            Outcome o = rebuild(s, i, [&](void* q) { const T& src = *c[j].t; return new (q) T(src); });
            if (o == DONE) {
                x.m = m;
                bool eq = false; { Lib l; eq = *x.t == *c[j].t && !(*x.t != *c[j].t); }
                SIM_REQUIRE("C07", "copy-unequal", eq, "a copy does not compare equal to its source");
                rehandle(m, x.t->root());
            } else delete m;
            break;
        }
        case FROM_SUBTREE: {
            int j = (int)s.idx(2, POOL); if (i == j) break;
            Node* src = pick_node(c[j], s.arg(3));
            Node* m = copy(src, nullptr);
            bool via_const = s.arg(1) & 1;
            Outcome o = rebuild(s, i, [&](void* q) { CS h = via_const ? CS(((const T*)c[j].t)->root()) : CS(src->h); if (via_const) h = CS(src->h); return new (q) T(h); });
            if (o == DONE) { x.m = m; rehandle(m, x.t->root()); } else delete m;
            break;
        }
        case MOVE_CTOR: {
            int j = (int)s.idx(2, POOL); if (i == j) break;
            Node* m = c[j].m; c[j].m = nullptr;
            Outcome o = rebuild(s, i, [&](void* q) { return new (q) T(std::move(*c[j].t)); });
            if (o == DONE) { x.m = m; destroy(c[j]); memset(c[j].mem, 0xA5, sizeof(T)); make_empty(c[j]); rehandle(m, x.t->root()); }
            else c[j].m = m;   // the source keeps its content (checked below)
            break;
        }
        case INSERT_NODE: case INSERT_NODE_END: {
            if (!room_n) break;
            size_t pos = s.op == INSERT_NODE ? s.idx(2, p->kids.size() + 1) : p->kids.size();
            S got; Outcome o;
            if (s.op == INSERT_NODE) { S at = before(p, pos); o = attempt(s, "C08", [&] { got = p->h.insert_child_node(at, val); }); }
            else if (s.arg(2) & 1) { val = p->data; o = attempt(s, "C08", [&] { const N& r = *p->h; got = p->h.insert_child_node(r); }); }
            else { N e{val}; o = attempt(s, "C08", [&] { const N& r = e; got = p->h.insert_child_node(r); }); }
            if (o == DONE) { Node* k = add_kid(p, pos, val); k->h = got; }
            break;
        }
        case INSERT_NODE_BAD: case INSERT_NODES_BAD: {
            S bad, got; if (!bad_position(x, p, (size_t)s.arg(2), &bad)) break;
            i64 vals[2] = {val, val + 1};
            Outcome o = attempt(s, "C08", [&] { got = s.op == INSERT_NODE_BAD ? p->h.insert_child_node(bad, val) : p->h.insert_child_nodes(bad, vals, vals + 2); });
            if (o == DONE) unchanged(got == p->h.end(), "insert_child_node()");
            break;
        }
        case INSERT_NODES: {
            size_t pos = s.idx(2, p->kids.size() + 1), k = s.idx(4, 6);
            if (n_nodes + k > MAX_NODES) break;
            std::vector<i64> vals; for (size_t q = 0; q < k; ++q) vals.push_back(val + (i64)q);
            S at = before(p, pos), got;
            bool at_end = pos == p->kids.size();
            Outcome o = attempt(s, "C08", [&] {
                if (at_end && (s.arg(5) & 1)) got = p->h.insert_child_nodes(vals.begin(), vals.end());
                else got = p->h.insert_child_nodes(at, vals.begin(), vals.end());
            });
            if (o == DONE && k == 0) unchanged(got == p->h.end(), "insert_child_nodes()");
            if (o == DONE && k > 0) {
                for (size_t q = 0; q < k; ++q, ++got) { Node* z = add_kid(p, pos + q, vals[q]); z->h = got; }
            }
            break;
        }
        case INSERT_ITEM: case INSERT_ITEM_END: case INSERT_ITEM_SELF: {
            if (!room_i) break;
            if (s.arg(5) % 4 != 0) p = leaf;
            bool is_leaf = p->kids.empty();
            size_t pos = s.op == INSERT_ITEM_END || !is_leaf ? p->items.size() : s.idx(2, p->items.size() + 1);
            It at = item_at(p, pos), got; Outcome o;
            if (s.op == INSERT_ITEM) o = attempt(s, "C08", [&] { got = p->h.insert_item(at, val); });
            else if (s.op == INSERT_ITEM_SELF) {
                if (n_items == 0) break;
                Item* src = items(x.m)[(size_t)s.arg(4) % n_items]; val = src->v;
                o = attempt(s, "C08", [&] { const L& r = *src->it; got = p->h.insert_item(at, r); });
            }
            else { L e{val}; o = attempt(s, "C08", [&] { const L& r = e; got = p->h.insert_item(r); }); }
            if (o == DONE && !is_leaf) unchanged(got == p->h.items_end(), "insert_item()");
            if (o == DONE && is_leaf) p->items.insert(p->items.begin() + (long)pos, Item{val, got});
            break;
        }
        case INSERT_ITEMS: case INSERT_ITEMS_SELF: {
            if (s.arg(5) % 4 != 0) p = leaf;
            bool is_leaf = p->kids.empty();
            std::vector<i64> vals;
            Node* from = nullptr;
            if (s.op == INSERT_ITEMS) for (size_t q = 0, k = s.idx(4, 7); q < k; ++q) vals.push_back(val + (i64)q);
            else { from = pick_node(x, s.arg(4)); for (Item* z : items(from)) vals.push_back(z->v); }
            if (n_items + vals.size() > MAX_ITEMS) break;
            size_t pos = is_leaf ? s.idx(2, p->items.size() + 1) : p->items.size();
            bool at_end = pos == p->items.size();
            It at = item_at(p, pos), got; index_t count = -1; Outcome o;
            if (from) { It b = from->h.items_begin(), e = from->h.items_end(); o = attempt(s, "C08", [&] { got = p->h.insert_items(at, b, e, &count); }); }
            else {
                std::vector<L> src; src.reserve(vals.size() + 1); for (i64 v : vals) src.push_back(L{v});
                if (at_end && (s.arg(3) & 1)) o = attempt(s, "C08", [&] { got = p->h.insert_items(src.begin(), src.end()); });
                else o = attempt(s, "C08", [&] { got = p->h.insert_items(at, src.begin(), src.end(), (s.arg(3) & 2) ? &count : nullptr); });
            }
            if (o == DONE && (!is_leaf || vals.empty())) unchanged(got == p->h.items_end(), "insert_items()");
            else if (o == DONE) {
                if (count != -1) SIM_REQUIRE("C07", "insert-count", (size_t)count == vals.size(), "insert_items() reported %lld new items of %zu", (long long)count, vals.size());
                for (size_t q = 0; q < vals.size(); ++q, ++got) p->items.insert(p->items.begin() + (long)(pos + q), Item{vals[q], got});
            }
            break;
        }
        case ADOPT: case ADOPT_BAD: {
            Cell& y = c[s.idx(4, POOL)];
            Node* src = pick_node(y, s.arg(5));
            if (n_nodes + all(src).size() > MAX_NODES || n_items + items(src).size() > MAX_ITEMS) break;
            S got;
            if (s.op == ADOPT_BAD) {
                S bad; if (!bad_position(x, p, (size_t)s.arg(2), &bad)) break;
                Outcome o = attempt(s, "C08", [&] { got = p->h.adopt(CS(src->h), bad); });
                if (o == DONE) unchanged(got == p->h.end(), "adopt()");
                break;
            }
            size_t pos = s.idx(2, p->kids.size() + 1);
            S at = before(p, pos);
            Node* m = copy(src, p);
            Outcome o = attempt(s, "C08", [&] { got = p->h.adopt(CS(src->h), at); });
            if (o == FAILED) { delete m; break; }
            if (p->kids.empty()) {   // items of the new parent precede those of the first leaf
                Node* f = m; while (!f->kids.empty()) f = f->kids[0];
                f->items.insert(f->items.begin(), p->items.begin(), p->items.end());
                p->items.clear();
            }
            p->kids.insert(p->kids.begin() + (long)pos, m);
            rehandle(m, got);
            break;
        }
        case SPLIT: split(s, x, s.arg(4) % 5 ? leaf : p, s.arg(2), val); break;
        case ERASE_ITEM: {
            if (n_items == 0) break;
            if (s.arg(5) % 4 != 0) p = leaf;
            Item* z; bool own = !p->items.empty() && s.arg(4) % 5 != 0;
            if (own) z = &p->items[s.idx(2, p->items.size())]; else z = items(x.m)[(size_t)s.arg(2) % n_items];
            Node* owner = node_of(x, z);
            size_t at = (size_t)(z - owner->items.data());
            bool ok = false; It got;
            attempt(s, "C08", [&] { got = p->h.erase(z->it, &ok); });
            bool want = owner == p;
            SIM_REQUIRE("C07", "erase-success", ok == want, "erase(item) reported %d, expected %d", ok, want);
            if (want) {
                p->items.erase(p->items.begin() + (long)at);
                SIM_REQUIRE("C07", "erase-result", got == item_at(p, at), "erase(item) did not return the position after the erased item");
            } else unchanged(got == p->h.items_end(), "erase(item)");
            break;
        }
        case ERASE_CHILD: {
            bool ok = false; S got;
            if (p->kids.empty() || s.arg(4) % 5 == 0) {
                S bad; if (!bad_position(x, p, (size_t)s.arg(2), &bad)) break;
                attempt(s, "C08", [&] { got = p->h.erase(bad, &ok); });
                SIM_REQUIRE("C07", "erase-success", !ok, "erase() of a node that is not a child reported success");
                unchanged(got == p->h.end(), "erase(child)");
                break;
            }
            size_t at = s.idx(2, p->kids.size());
            Node* k = p->kids[at];
            attempt(s, "C08", [&] { got = p->h.erase(k->h, &ok); });
            SIM_REQUIRE("C07", "erase-success", ok, "erase() of a child reported failure");
            p->kids.erase(p->kids.begin() + (long)at); delete k;
            SIM_REQUIRE("C07", "erase-result", got == before(p, at), "erase(child) did not return the node after the erased one");
            break;
        }
        case CLEAR: attempt(s, "C08", [&] { p->h.clear(); }); for (Node* k : p->kids) delete k; p->kids.clear(); p->items.clear(); break;
        case FLATTEN: {
            attempt(s, "C08", [&] { p->h.flatten(); });
            if (p->kids.empty()) break;
            std::vector<Item> all_items; for (Item* z : items(p)) all_items.push_back(*z);
            for (Node* k : p->kids) delete k;
            p->kids.clear(); p->items = all_items;
            break;
        }
        case SET_NODE: (*p->h).v = val; p->data = val; break;
        case SET_ITEM: if (n_items) { Item* z = items(x.m)[(size_t)s.arg(2) % n_items]; z->it->v = val; z->v = val; } break;
        case EQUAL: {
            Cell& y = c[s.idx(2, POOL)];
            bool want = same(x.m, y.m), eq = false, ne = false;
            attempt(Step(), "C08", [&] { const T& a = *x.t; eq = a == *y.t; ne = a != *y.t; });
            SIM_REQUIRE("C07", "equality", eq == want && ne == !want, "comparing trees %d and %d gave %d, expected %d", i, (int)s.idx(2, POOL), eq, want);
            break;
        }
        case EQUAL_NEAR: {   // a tree which differs in one detail only
            Node* m = copy(x.m, nullptr);
            vary(m, (u64)s.arg(2), (size_t)s.arg(4), (size_t)s.arg(5));
            bool want = same(x.m, m), eq = false, ne = false, self = false;
            attempt(Step(), "C08", [&] {
                T y;
                { NoLib nl; build(y.root(), m); }
                const T& a = *x.t; const T& b = y;
                if (s.arg(3) & 1) { eq = a == b; ne = a != b; } else { eq = b == a; ne = b != a; }
                self = b == b;
            });
            SIM_REQUIRE("C07", "equality", eq == want && ne == !want && self, "tree %d = %s compared with %s gave %s, expected %s", i, show(x.m).c_str(), show(m).c_str(), eq ? "equal" : "different", want ? "equal" : "different");
            delete m;
            break;
        }
        case FIND_PARENT: case FIND_PARENT_BOUND: {
            Cell& y = c[s.arg(4) % 5 ? (size_t)i : s.idx(5, POOL)];
            std::vector<Item*> v = items(y.m); if (v.empty()) break;
            Item* z = v[(size_t)s.arg(2) % v.size()];
            Node* owner = node_of(y, z);
            bool inside = false; for (Node* q = owner; q; q = q->parent) if (q == p) inside = true;
            bound_path.clear(); for (Node* q = owner; q; q = q->parent) bound_path.push_back(&*q->h);
            bound_salt = (u64)val;
            S got; CS cgot(x.m->h); Outcome o;
            bool use_const = s.arg(3) & 1;
            if (s.op == FIND_PARENT) o = attempt(s, "C08", [&] { CIt it = z->it; if (use_const) cgot = CS(p->h).find_parent(it); else got = p->h.find_parent(it); });
            else o = attempt(s, "C08", [&] { CIt it = z->it; if (use_const) cgot = CS(p->h).template find_parent<bounding>(it); else got = p->h.template find_parent<bounding>(it); });
            if (o == FAILED) break;
            S want = inside ? owner->h : p->h.end();
            SIM_REQUIRE("C07", "find-parent", use_const ? cgot == CS(want) : got == want, "searching below node %lld for the parent of item %lld found %s", (long long)p->data, (long long)z->v, inside ? "the wrong node" : "a node, although the item is elsewhere");
            break;
        }
        case QUERY: case QUERY_ALL: {
            u64 salt = (u64)val; bool leaves = s.arg(2) & 1; bool every = s.op == QUERY_ALL;
            auto b = [&](i64 v) { return every || (mix64(salt ^ (u64)v) & 3) != 0; };
            auto q = [&](const Node* z) { return every ? (!leaves || z->kids.empty()) : (mix64(salt * 3 ^ (u64)z->data) & 1) != 0; };
            std::vector<const void*> want, got;
            std::vector<Node*> todo(1, p);
            while (!todo.empty()) { Node* z = todo.back(); todo.pop_back(); if (q(z)) want.push_back(&*z->h); if (b(z->data)) for (Node* k : z->kids) todo.push_back(k); }
            size_t limit = n_nodes + 2;
            auto bound = [&](const auto& z, int) { callback(); return every || (mix64(salt ^ (u64)(*z).v) & 3) != 0; };
            auto test  = [&](const auto& z, int) { callback(); return every ? (!leaves || z.node_count() == 0) : (mix64(salt * 3 ^ (u64)(*z).v) & 1) != 0; };
            auto visit = [&](auto root) {
                auto it = root.query(0, bound, test);
                for (; it != root.end() && got.size() < limit; ++it) { NoLib nl; got.push_back(&**it); }
                if (s.arg(5) & 1) {   // start again
                    it = root;
                    for (; it != root.end() && got.size() < 2 * limit; ++it) { NoLib nl; got.push_back(&**it); }
                }
            };
            if (s.arg(5) & 1) { size_t k = want.size(); for (size_t q = 0; q < k; ++q) want.push_back(want[q]); }
            got.reserve(2 * limit + 1);
            Outcome o = attempt(s, "C08", [&] { if (s.arg(4) & 1) visit(CS(p->h)); else visit(p->h); });
            if (o == FAILED) break;
            std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
            SIM_REQUIRE("C07", "query", want == got, "a query below node %lld visited %zu nodes, expected %zu (or other ones)", (long long)p->data, got.size(), want.size());
            break;
        }
        case CONVERT: {
            Cell& y = c[s.idx(2, POOL)];
            Node* z = pick_node(y, s.arg(4));
            CS cs(z->h);
            S got = x.t->subtree(cs);
            SIM_REQUIRE("C07", "convert", got == (&x == &y ? z->h : x.t->end()), "subtree(ConstSubtree) returned the wrong node");
            break;
        }
        case NAVIGATE: {
            S h = p->h;
            SIM_REQUIRE("C07", "global-range", h.global_begin() == x.m->h && h.global_end() == x.t->end() && &h.tree() == x.t, "global_begin(), global_end() or tree() of a node is wrong");
            if (!p->kids.empty()) { S d = h; +d; SIM_REQUIRE("C07", "navigate", d == p->kids[0]->h, "+i is not the first child"); -d; SIM_REQUIRE("C07", "navigate", d == p->h, "-i is not the parent"); }
            if (p->parent) {
                size_t at = p->index(); S d = h;
                if (at + 1 < p->parent->kids.size()) { S old = d++; SIM_REQUIRE("C07", "navigate", old == p->h && d == p->parent->kids[at + 1]->h, "i++ is not the next sibling"); d--; SIM_REQUIRE("C07", "navigate", d == p->h, "i-- is not the previous sibling"); }
            }
            break;
        }
        }
        rec.check();
        for (int q = 0; q < POOL; ++q) verify(q);
        u64 st = (u64)s.op;
        for (int q = 0; q < POOL; ++q) { u64 sh = shape(c[q].m); st = mix64(st ^ sh); rec.log(sh); for (Item* z : items(c[q].m)) rec.log((u64)z->v); }
        rec.state(mix64(st ^ (faults.fired_any ? 1 + (u64)faults.fired_kind : 0)));
        if (rec.verbose) for (int q = 0; q < POOL; ++q) rec.log_text("step %d %s: tree %d = %s", n, OPS[s.op], q, show(c[q].m).c_str());
    }
    static u64 shape(Node* n) { u64 h = 17 + (n->items.empty() ? 0 : 1 + std::min<u64>(n->items.size(), 3)); for (Node* k : n->kids) h = mix64(h * 31 + shape(k)); return h; }
    static std::string show(Node* n) {
        std::string r = std::to_string(n->data);
        if (!n->items.empty()) { r += "["; for (Item& z : n->items) r += std::to_string(z.v) + " "; r.back() = ']'; }
        if (!n->kids.empty()) { r += "("; for (Node* k : n->kids) r += show(k) + " "; r.back() = ')'; }
        return r;
    }

    void run() {
        for (int i = 0; i < POOL; ++i) { c[i].mem = raw(); make_empty(c[i]); }
        int n = 0;
        for (auto& s : t.steps) step(s, n++);
        rec.cur_step = n;
        for (int i = 0; i < POOL; ++i) { destroy(c[i]); ::operator delete(c[i].mem, std::align_val_t(64)); }
        rec.check();
        SIM_REQUIRE("C08", "leaked-element", reg::count() == 0, "%llu item(s) never destroyed", (unsigned long long)reg::count());
        rec.check();
        alloc_check_leaks();
        rec.check();
    }
};

#ifdef SIM_K
#define CAT_(A, B) A##B
#define CAT(A, B) CAT_(A, B)
static constexpr int KNs[] = {0, 1, 2, 0}, KLs[] = {0, 2, 1, 1};
void CAT(run_tree_, SIM_K)(const Trace& t) { World<KNs[SIM_K], KLs[SIM_K]> w(t); w.run(); }
#else
void run_tree_0(const Trace&);
void run_tree_1(const Trace&);
void run_tree_2(const Trace&);
void run_tree_3(const Trace&);

struct TreeScenario : Scenario {
    const char* name() const override { return "tree"; }
    std::vector<const char*> ops() const override { return std::vector<const char*>(OPS, OPS + OP_COUNT); }
    void generate(Rng& r, Trace& t, int tier) override {
        t.cfg["K"] = (i64)r.below(4);
        std::vector<int> kinds; unsigned pct = 0;
        if (!r.chance(1, 3)) {
            for (int k : {F_ALLOC, F_COPY, F_MOVE, F_DEFAULT, F_CALLBACK}) if (r.chance(1, 2)) kinds.push_back(k);
            if (kinds.empty()) kinds.push_back(F_ALLOC);
            pct = (unsigned)r.range(5, 40);
        }
        int n = r.chance(1, 3) ? (int)r.range(1, 8) : (int)r.range(5, tier ? 90 : 40);
        if (r.chance(1, 8)) t.cfg["deep"] = 1;
        if (r.chance(1, 20)) n = (int)r.range(60, 140);
        std::vector<int> w(OP_COUNT);
        for (int k = 0; k < OP_COUNT; ++k) w[k] = r.chance(1, 4) ? 0 : (int)r.range(1, 6);
        // rebuilding and emptying trees too often keeps them small
        for (int k : {NEW_EMPTY, NEW_RANGE, COPY_CTOR, FROM_SUBTREE, MOVE_CTOR, CLEAR, FLATTEN}) if (w[k] > 1 && r.chance(3, 4)) w[k] = 1;
        w[INSERT_NODE] += (int)r.below(12); w[INSERT_ITEM] += (int)r.below(12); w[INSERT_NODES] += (int)r.below(5);
        int tot = 0; for (int k : w) tot += k;
        i64 val = 100;
        unsigned focus = (unsigned)r.below(4);    // how strongly one tree is preferred
        for (int q = 0; q < n; ++q) {
            int z = (int)r.below((u64)tot), op = 0; while (z >= w[op]) z -= w[op++];
            i64 i = r.below(4) < focus ? 0 : (i64)r.below(POOL);
            i64 node = r.chance(1, 4) ? 0 : (i64)r.below(997);
            i64 a2 = r.chance(1, 3) ? 0 : (i64)r.below(640);
            if (op == COPY_CTOR || op == FROM_SUBTREE || op == MOVE_CTOR || op == EQUAL || op == CONVERT) a2 = (i64)r.below(POOL);
            if (op == SPLIT) a2 = val > 100 ? 100 + (i64)r.below((u64)(val - 100) + 20) : 110;
            val += 8;
            i64 a3 = val;
            if (op == FROM_SUBTREE) a3 = (i64)r.below(997);
            // values below some and above other ones, for splits
            if ((op == INSERT_ITEM || op == INSERT_ITEM_END || op == INSERT_ITEMS) && r.chance(1, 2)) a3 = 100 + (i64)r.below((u64)(val - 99));
            if ((op == SET_NODE || op == SET_ITEM) && r.chance(1, 2)) a3 = 100 + (i64)r.below(20);
            add_step(t, op, {i, node, a2, a3, (i64)r.below(997), (i64)r.below(997)});
            if (op != SET_NODE && op != SET_ITEM && op != EQUAL && op != EQUAL_NEAR && op != CONVERT && op != NAVIGATE) maybe_fault(r, t, kinds, pct);
        }
    }
    void execute(const Trace& t) override {
        alloc_prop = "C08"; elem_prop = "C08";
        switch (t.get("K")) { case 0: run_tree_0(t); break; case 1: run_tree_1(t); break; case 2: run_tree_2(t); break; default: run_tree_3(t); }
    }
};
sim::Scenario* sim::make_scenario() { return new TreeScenario; }
#endif
