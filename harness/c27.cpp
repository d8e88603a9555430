// C27: the linked list of integers keeps exactly the elements appended and not removed, in order.
#include "seq.hpp"
#include "ufjfmltk/classifier/int_dll.h"
using namespace vf; using L = mltk::classifier::int_dll;
static bool check(L* head, const std::vector<int>& m, const std::string& ops) { // reading in both directions
    std::vector<int> f, b; L* last = head; for (L* p = head->next; p; last = p, p = p->next) { f.push_back(p->index); if (f.size() > 99) break; } for (L* p = last; p != head && p && b.size() < 99; p = p->prev) b.insert(b.begin(), p->index);
    state(str(m)); return expectf(f == m && b == m && !head->prev, "order", [&] { return "forwards " + str(f) + ", backwards " + str(b) + ", expected " + str(m) + " after " + ops; });
}
static void play(const std::vector<int>& ops) { // op 2k: append after the element at position k-1 (0: head), 2k+1: remove position k
    L* head = new L; std::vector<int> m; std::vector<L*> nodes; std::string s; int next = 1; if (!expect(head->index == -1 && !head->next && !head->prev, "new", "a new node")) return;
    for (int o : ops) { size_t k = o / 2; if (o % 2 == 0) { if (k > m.size()) break; L* at = k ? nodes[k - 1] : head; L* n = L::append(at); transition(); if (!expect(n && n->index == -1, "append", "the node appended")) return; n->index = next; m.insert(m.begin() + k, next++); nodes.insert(nodes.begin() + k, n); s += "append after " + std::to_string(k) + ", "; }
        else { if (k >= m.size()) break; L* n = nodes[k]; L* before = k ? nodes[k - 1] : head; L* r = L::remove(&n); transition(); s += "remove " + std::to_string(k) + ", "; expect(r == before && !n, "remove", "the result of a removal after " + s); m.erase(m.begin() + k); nodes.erase(nodes.begin() + k); L* none = nullptr; expect(!L::remove(&none), "remove", "removing nothing"); }
        if (!check(head, m, s)) return; }
    L* first = head; L* r = L::remove(&first); transition(); expect(!r && !first, "remove-first", "removing the first node of " + str(m) + " gives a node"); if (m.empty()) head = nullptr; else { head = nodes[0]; m.erase(m.begin()); if (!check(head, m, s + "remove the first node")) return; L* n = L::append(head); n->index = 99; m.insert(m.begin(), 99); if (!check(head, m, s + "remove the first node, append")) return; }
    L::free(&head); expect(!head, "free", "the list is not reset"); L::free(&head); expect(!L::append(nullptr), "append", "appending to nothing"); count("histories");
}
void vf::run() {
    int D = thorough() ? 8 : 6, W = 2 * 4; for (int n = 1; n <= D; n++) { if (n < 4) { kase("list", "histories of length " + std::to_string(n), [&] { nontrivial(); product(n, W, play); }); continue; } product(3, W, [&](const std::vector<int>& p) { kase("list", "histories of length " + std::to_string(n) + " starting " + str(p), [&] { nontrivial(); product(n - 3, W, [&](const std::vector<int>& v) { std::vector<int> o = p; o.insert(o.end(), v.begin(), v.end()); play(o); }); }); }); }
    for (int n = 10; n < 60; n++) kase("list", "size " + std::to_string(n), [&] { nontrivial(); for (int s = 1; s < 8; s++) { std::vector<int> o; for (int i = 0; i < n; i++) o.push_back(2 * ((i * s) % (i + 1))); for (int i = n; i > 0; i--) o.push_back(2 * ((i * s) % i) + 1); play(o); } });
}
