// C30: the search structures of AOS: the heap gives the nodes with the largest value first, the hash knows each set of features once.
#include "dset.hpp"
#include "ufjfmltk/Classifier.hpp"
#include "ufjfmltk/FeatureSelection.hpp"
using namespace ds; using namespace vf; using A = mltk::featselect::AOS<double>; using Node = A::select_gamma;
static Node* node(double v, int level, int first, double rg = -1) { auto n = new Node; n->value = v; n->level = level; n->rgamma = rg; n->pgamma = v + 0.5; for (int i = 0; i < level; i++) n->fnames.push_back(first + level - i); return n; }
struct Model { A::Heap h; std::vector<std::pair<double, Node*>> in; size_t ins = 0, re = 0, cutn = 0, mx = 0; std::string hist; std::shared_ptr<A::Hash> hash = std::make_shared<A::Hash>(64, 4000); std::set<std::vector<int>> known; int serial = 0;
    void remember() { std::multiset<std::pair<double, int>> c; for (auto& x : in) c.insert({x.first, x.second->level}); std::string t; for (auto& x : c) t += num(x.first) + "@" + std::to_string(x.second) + " "; state(t); }
    void check(const std::string& key) { transition(); expectf(h.getSize() == in.size(), key + "/size", [&] { return "size " + std::to_string(h.getSize()) + ", " + std::to_string(in.size()) + " nodes are inside after " + hist; }); expectf(h.getContheap() == ins && h.getContheapreins() == re && h.getContprooning() == cutn && h.getMaxheapsize() == mx, key + "/counters", [&] { return "insertions " + std::to_string(h.getContheap()) + " reinsertions " + std::to_string(h.getContheapreins()) + " pruned " + std::to_string(h.getContprooning()) + " largest " + std::to_string(h.getMaxheapsize()) + " after " + hist; }); std::multiset<const void*> a, b; for (size_t i = 1; i <= h.getSize(); i++) a.insert(h.getElements()[i]); for (auto& x : in) b.insert(x.second); expectf(a == b, key + "/contents", [&] { return "other nodes inside than the " + std::to_string(in.size()) + " after " + hist; }); size_t pr = 0; for (auto& x : in) pr += x.second->rgamma < 0; expectf(h.projected() == pr, key + "/projected", [&] { return std::to_string(h.projected()) + " projected nodes after " + hist; }); if (in.size()) { double m = -1e300; for (auto& x : in) m = std::max(m, x.first); expectf(h.getElements()[1]->value == m, key + "/first", [&] { return "the first node has value " + num(h.getElements()[1]->value) + ", the largest is " + num(m) + " after " + hist; }); } }
    void insert(double v, int level, int cont, double rg = -1) { auto n = node(v, level, serial++, rg); hash->add(n); known.insert(n->fnames); in.push_back({v, n}); bool r = h.insert(n, cont); (cont ? ins : re)++; mx = std::max(mx, in.size()); hist += " +" + num(v) + "@" + std::to_string(level); expect(r, "heap/insert", "insertion fails"); check("heap"); }
    Node* pop() { hist += " pop"; double m = -1e300; for (auto& x : in) m = std::max(m, x.first); Node* n = h.pop(); if (in.empty()) { expect(n == nullptr, "heap/pop", "an empty heap gives a node"); return nullptr; } auto it = std::find_if(in.begin(), in.end(), [&](auto& x) { return x.second == n; }); if (!expect(it != in.end(), "heap/pop", "a node which is not inside is given after" + hist)) return nullptr; expectf(n->value == m, "heap/pop", [&] { return "value " + num(n->value) + " is given, the largest is " + num(m) + " after" + hist; }); in.erase(it); check("heap"); return n; }
    void cut(int at, int c, double g) { hist += " cut(" + std::to_string(at) + "," + std::to_string(c) + "," + num(g) + ")"; std::vector<std::vector<int>> gone; for (auto it = in.begin(); it != in.end();) if (it->second->level < at && (it->first < 0.95 * g || at - it->second->level >= c)) { gone.push_back(it->second->fnames); it = in.erase(it); cutn++; } else ++it; h.cut(hash, at, c, g, 0); check("heap/cut");
        for (auto& f : gone) { auto n = new Node; n->fnames = f; n->level = f.size(); n->value = 0.1; n->rgamma = 5; expectf(hash->add(n), "hash/cut", [&] { return "the features " + str(f) + " of a pruned node are still known after" + hist; }); } }
    void drain() { while (in.size()) if (!pop()) break; expect(h.getSize() == 0, "heap/size", "the heap is not empty after" + hist); hist.clear(); }
};
static void hashes(const std::vector<std::vector<int>>& sets, const std::vector<int>& seq, size_t length) {
    A::Hash h(length, 50); std::map<std::vector<int>, Node*> known; std::string hist; int k = 0;
    for (int s : seq) { auto f = sets[s % sets.size()]; int kind = s / sets.size(); auto n = new Node; n->fnames = f; n->level = f.size(); n->value = 1 + (k * 5 + s) % 4; n->pgamma = n->value * 2; n->rgamma = kind ? 3 : -1; double v = n->value, pg = n->pgamma; hist += " " + str(f) + (kind ? "r" : "p") + num(v); auto it = known.find(f); bool want = it == known.end(); double ev = want ? v : it->second->value, ep = want ? pg : it->second->pgamma; if (!want && it->second->rgamma < 0 && ev < v) { ev = v; ep = pg; } bool r = h.add(n); transition(); k++;
        expectf(r == want, "hash/add", [&] { return std::string(r ? "added again" : "not added") + " after" + hist; }); if (want) known[f] = n; if (r != want) return; Node* e = known[f]; expectf(e->value == ev && e->pgamma == ep, "hash/value", [&] { return "the value " + num(e->value) + " is kept, " + num(ev) + " expected after" + hist; }); expect(h.getConthash() == known.size(), "hash/count", std::to_string(h.getConthash()) + " nodes counted after" + hist); }
    expect(!h.add(nullptr), "hash/null", "no node is added"); for (auto& x : known) delete x.second;
}
void vf::run() {
    // histories of insertions, removals and prunings
    static Model* m; auto fresh = [&] { if (!m || m->ins + m->re > 20000) m = new Model; };
    for (int n = 1; n <= (thorough() ? 6 : 5); n++) for (int first = 0; first < 12; first++) kase("history", std::to_string(n) + " operations, first " + std::to_string(first), [&] { nontrivial(); product(n - 1, 12, [&](const std::vector<int>& rest) { fresh(); auto op = [&](int o) { if (o < 8) m->insert(std::vector<double>{0, 1, 1.7, 3}[o % 4], 1 + o / 4, o % 3, o % 2 ? 2 : -1); else if (o == 8) m->pop(); else if (o == 9) m->cut(2, 1, 0); else if (o == 10) m->cut(2, 5, 2); else m->cut(3, 2, 1.5); }; op(first); for (int o : rest) op(o); m->remember(); m->drain(); }); });
    // every order of the values and every choice of old nodes
    for (int n = 2; n <= (thorough() ? 8 : 7); n++) for (int head = 0; head < n; head++) kase("orders", std::to_string(n) + " nodes, the first of rank " + std::to_string(head), [&] { nontrivial(); std::vector<int> o; for (int i = 0; i < n; i++) if (i != head) o.push_back(i); int c = 0; do { for (int mask = 0; mask < 1 << n; mask++) { if (n >= 7 && (mask * 7 + c) % (thorough() ? 5 : 9)) continue; fresh(); m->insert(head, mask & 1 ? 1 : 3, 1); for (int i = 1; i < n; i++) m->insert(o[i - 1], mask >> i & 1 ? 1 : 3, i % 2); m->cut(3, 2, 0); m->drain(); } c++; } while (std::next_permutation(o.begin(), o.end())); });
    for (int n = 10; n <= (thorough() ? 400 : 120); n += 10) kase("size", std::to_string(n) + " nodes", [&] { nontrivial(); for (int pat = 0; pat < 6; pat++) { fresh(); for (int i = 0; i < n; i++) { m->insert(pat == 0 ? i : pat == 1 ? n - i : pat == 2 ? (i * 37) % n : pat == 3 ? i % 3 : pat == 4 ? std::sin(i) + 1 : 1, 1 + i * (pat + 1) % 4, 1); if (i % 7 == pat) m->pop(); if (i % 31 == 30) m->cut(2 + pat % 3, 1 + pat % 2, i % 2); } m->drain(); } });
    std::vector<std::vector<int>> sets{{5}, {4, 3}, {3}, {5, 4, 3}, {1}, {7, 1}, {4, 3, 5}}; for (int n = 1; n <= (thorough() ? 6 : 5); n++) for (int first = 0; first < 14; first++) kase("hash", std::to_string(n) + " nodes, first " + std::to_string(first), [&] { nontrivial(); product(n - 1, 14, [&](const std::vector<int>& r) { std::vector<int> s{first}; s.insert(s.end(), r.begin(), r.end()); if (n == 5 && (r[0] + r[1] * 3 + r[2] * 5) % (thorough() ? 1 : 3)) return; for (size_t len : {1, 5}) hashes(sets, s, len); }); });
}
