// Earley recogniser: decides membership of token strings in a context-free grammar.
// usage: earley GRAMMAR < lines of token names > one '0' or '1' per line
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>
using namespace std;
int NN, NT, NR;
vector<int> lhs; vector<vector<int>> rhs; vector<vector<int>> by; vector<char> nullable;
unordered_map<string, int> term;
struct Item { int r, d, o; };
int main(int argc, char **argv) {
  ifstream f(argv[1]);
  f >> NN >> NT >> NR;
  vector<string> names(NT);
  for (int i = 0; i < NT; i++) { f >> names[i]; term[names[i]] = i; }
  by.resize(NN);
  vector<int> dotbase;
  int nd = 0;
  for (int i = 0; i < NR; i++) {
    int l, n; f >> l >> n; vector<int> r(n); for (auto &x : r) f >> x;
    lhs.push_back(l); rhs.push_back(r); by[l].push_back(i); dotbase.push_back(nd); nd += n + 1;
  }
  nullable.assign(NN, 0);
  for (bool ch = true; ch;) { ch = false; for (int i = 0; i < NR; i++) if (!nullable[lhs[i]]) {
    bool ok = true; for (int s : rhs[i]) if (s < 0 || !nullable[s]) ok = false;
    if (ok) nullable[lhs[i]] = 1, ch = true; } }
  string line;
  while (getline(cin, line)) {
    istringstream is(line); string w; vector<int> t; bool unk = false;
    while (is >> w) { auto it = term.find(w); if (it == term.end()) { unk = true; break; } t.push_back(it->second); }
    if (unk) { puts("0"); continue; }
    int n = t.size();
    vector<vector<Item>> S(n + 1);
    vector<vector<vector<int>>> wait(n + 1, vector<vector<int>>(NN));
    bool acc = false, dead = false;
    vector<unsigned> seen((size_t)nd * (n + 1), 0);
    for (int k = 0; k <= n && !dead; k++) {
      vector<Item> &Q = S[k];
      vector<char> pred(NN, 0);
      auto add = [&](int r, int d, int o) {
        unsigned &x = seen[(size_t)(dotbase[r] + d) * (n + 1) + o];
        if (x == (unsigned)k + 1) return; x = k + 1; Q.push_back({r, d, o}); };
      if (k == 0) { for (int r : by[0]) add(r, 0, 0); pred[0] = 1; }
      else { for (auto &it : S[k - 1]) if (it.d < (int)rhs[it.r].size() && rhs[it.r][it.d] == -1 - t[k - 1]) add(it.r, it.d + 1, it.o); }
      for (size_t q = 0; q < Q.size(); q++) {
        Item it = Q[q];
        if (it.d == (int)rhs[it.r].size()) {
          int l = lhs[it.r];
          if (k == n && l == 0 && it.o == 0) acc = true;
          if (it.o != k) { auto &W = wait[it.o][l]; for (int idx : W) { Item p = S[it.o][idx]; add(p.r, p.d + 1, p.o); } }
        } else {
          int s = rhs[it.r][it.d];
          if (s >= 0) {
            wait[k][s].push_back(q);
            if (!pred[s]) { pred[s] = 1; for (int r : by[s]) add(r, 0, k); }
            if (nullable[s]) add(it.r, it.d + 1, it.o);
          }
        }
      }
      if (Q.empty()) dead = true;
    }
    puts(acc && !dead ? "1" : "0");
  }
}
