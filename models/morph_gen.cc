// Generates the access strings and the distinguishing endings of the reference morphology (observation table, as in
// learning of automata): two strings belong to the same state when every ending seen to matter gives the same class and the
// same cuts near the end. Writes lines "S string" and "E ending".
#include "morph.hh"
#include <cstdio>
#include <cstdlib>
#include <map>
#include <string>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <vector>
using std::string;
typedef unsigned long long u64;
static const char *AL = "abcdefgijklmnoprstuvxyz'";
static u64 h(u64 a, u64 b) { a ^= b + 0x9e3779b97f4a7c15ULL + (a << 6) + (a >> 2); a *= 0xff51afd7ed558ccdULL; return a ^ (a >> 32); }
static u64 one(const string &x, const string &e) {
    string r = morph::ref(x + e);
    size_t k = r.find(" :  ");
    if (k == string::npos) return 1;
    u64 v = 7;
    for (size_t i = 0; i < k; i++) v = h(v, r[i]);
    int pos = 0, from = (int)x.size() - 3;
    for (size_t i = k + 4; i < r.size(); i++) {
        char c = r[i];
        if (c == ' ' || c == '/' || c == '+') {
            if (pos >= from) v = h(v, (u64)(c * 64 + pos - from));
        } else
            pos++;
    }
    return v;
}
static std::vector<string> E;
static u64 sig(const string &x) {
    u64 v = 3;
    for (auto &e : E) v = h(v, one(x, e));
    return v;
}
int main(int argc, char **argv) {
    morph::init();
    int cap = argc > 1 ? atoi(argv[1]) : 20000;
    E = {"", "a", "n", "da", "na", "bla", "rda", "'a"};
    for (int round = 0;; round++) {
        std::vector<string> S{""};
        std::unordered_map<u64, int> idx{{sig(""), 0}};
        std::vector<std::pair<string, int>> drop;
        for (size_t lo = 0; lo < S.size() && (int)S.size() < cap;) {
            size_t hi = S.size();
            std::vector<string> nx;
            for (size_t i = lo; i < hi; i++)
                for (const char *c = AL; *c; c++) nx.push_back(S[i] + *c);
            std::vector<u64> g(nx.size());
            std::vector<std::thread> th;
            for (int t = 0; t < 8; t++)
                th.emplace_back([&, t] { for (size_t i = t; i < nx.size(); i += 8) g[i] = sig(nx[i]); });
            for (auto &t : th) t.join();
            for (size_t i = 0; i < nx.size(); i++) {
                auto it = idx.find(g[i]);
                if (it == idx.end()) idx[g[i]] = S.size(), S.push_back(nx[i]);
                else drop.push_back({nx[i], it->second});
            }
            lo = hi;
        }
        fprintf(stderr, "round %d: %zu endings, %zu states, %zu merged\n", round, E.size(), S.size(), drop.size());
        // merged strings must agree with their state one letter further on
        std::unordered_set<string> have(E.begin(), E.end());
        std::vector<std::vector<string>> add(8);
        std::vector<std::thread> th;
        for (int t = 0; t < 8; t++)
            th.emplace_back([&, t] {
                std::unordered_map<int, std::vector<u64>> cache;
                std::unordered_set<string> mine;
                for (size_t i = 0; i < drop.size(); i++) {
                    if (drop[i].second % 8 != t) continue;
                    const string &x = drop[i].first, &r = S[drop[i].second];
                    auto &cv = cache[drop[i].second];
                    if (cv.empty())
                        for (const char *d = AL; *d; d++) cv.push_back(sig(r + *d));
                    for (int k = 0; AL[k]; k++)
                        if (sig(x + AL[k]) != cv[k])
                            for (auto &e : E)
                                if (one(x + AL[k], e) != one(r + AL[k], e)) {
                                    string n = AL[k] + e;
                                    if (!have.count(n) && mine.insert(n).second) add[t].push_back(n);
                                    break;
                                }
                }
            });
        for (auto &t : th) t.join();
        size_t before = E.size();
        for (auto &a : add)
            for (auto &n : a)
                if (E.size() < before + 12 && have.insert(n).second) E.push_back(n);
        if (E.size() == before) {
            for (auto &s : S) printf("S %s\n", s.c_str());
            for (auto &e : E) printf("E %s\n", e.c_str());
            return 0;
        }
    }
}
