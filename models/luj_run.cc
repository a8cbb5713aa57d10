// Every pair of rafsi that make a lujvo, and triples over representatives: the breakdown the word tool prints against the
// rafsi the word was made of.
// usage: luj_run vlatai scratch rafsi.txt deep
#include "morph.hh"
#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <thread>
using namespace std;
struct R { string r, w; };
static string shape(const string &r) {
    string s;
    for (char c : r) s += morph::V(c) ? 'V' : morph::C(c) ? 'C' : c;
    return s;
}
static bool joinable(char a, const string &b) {
    return morph::perm(a, b[0]) && !morph::triple(a, b[0], b[1]);
}
static string build(const vector<const R *> &v) {
    vector<string> g(v.size());
    for (size_t i = 0; i + 1 < v.size(); i++) {
        const string &a = v[i]->r, &b = v[i + 1]->r;
        if (a.size() == 4 && a[2] != '\'') g[i] = "y";
        else if (morph::C(a.back()) && !joinable(a.back(), b)) g[i] = "y";
    }
    string s = shape(v[0]->r);
    if (s == "CVV" || s == "CV'V") {
        if (!(v.size() == 2 && shape(v[1]->r) == "CCV")) g[0] = v[1]->r[0] == 'r' ? "n" : "r";
    } else if (s == "CVC" && g[0].empty()) {
        string t(1, v[0]->r[2]);
        for (size_t i = 1; i < v.size(); i++) t += v[i]->r + g[i];
        morph::Lujvo l{{t.c_str(), (int)t.size()}, false};
        if (l.kind() == 0) g[0] = "y";
    }
    string w;
    for (size_t i = 0; i < v.size(); i++) w += v[i]->r + g[i];
    return w;
}
static string vlatai, dir;
static atomic<long> total{0}, unknown{0}, diffs{0};
static mutex mu;
static set<string> sampled;
struct Job { vector<pair<string, string>> w; };
static void run(int id, vector<pair<string, string>> &w) {
    if (w.empty()) return;
    string in = dir + "/lj." + to_string(id) + ".in", out = dir + "/lj." + to_string(id) + ".out";
    FILE *f = fopen(in.c_str(), "w");
    for (auto &x : w) fputs((x.first + "\n").c_str(), f);
    fclose(f);
    int rc = system((vlatai + " -el < " + in + " > " + out).c_str());
    ifstream o(out);
    string line;
    char buf[4096];
    for (auto &x : w) {
        bool got = (bool)getline(o, line);
        while (!line.empty() && line.back() == ' ') line.pop_back();
        snprintf(buf, sizeof buf, "%-25s : lujvo :  %s [%s]", x.first.c_str(), x.first.c_str(), x.second.c_str());
        if (!got || line != buf) {
            if (diffs++ < 200) {
                lock_guard<mutex> g(mu);
                printf("diff %s\t%s\t%s\n", x.first.c_str(), buf, got ? line.c_str() : "(no line)");
            }
            if (!got) break;
        }
    }
    if (rc) {
        lock_guard<mutex> g(mu);
        printf("diff (exit)\tstatus 0\tstatus %d\n", rc);
    }
    total += w.size();
    w.clear();
}
int main(int argc, char **argv) {
    morph::init();
    vlatai = argv[1], dir = argv[2];
    bool deep = atoi(argv[4]);
    vector<R> first, last;
    set<string> known;
    ifstream f(argv[3]);
    string line;
    while (getline(f, line)) {
        size_t p = line.find(':');
        string w = line.substr(0, p), r;
        istringstream is(line.substr(p + 1));
        while (is >> r) {
            known.insert(r);
            first.push_back({r, w});
            if (morph::V(r.back())) last.push_back({r, w});
        }
        if (w.size() == 5) {
            if (w.substr(0, 4) != "brod") first.push_back({w.substr(0, 4), w});
            last.push_back({w, w});
        }
    }
    // shapes that stand for no word
    const string C = "bcdfgjklmnprstvxz", V = "aeiou";
    vector<R> ufirst, ulast;
    auto unk = [&](const string &r, bool l) {
        if (known.count(r)) return;
        ufirst.push_back({r, "?"});
        if (l) ulast.push_back({r, "?"});
    };
    for (char a : C)
        for (char b : V) {
            for (char c : C) unk(string() + a + b + c, false);
            for (char c : V) {
                if (morph::dip(b, c)) unk(string() + a + b + c, true);
                unk(string() + a + b + "'" + c, true);
            }
        }
    for (char a : C)
        for (char b : C)
            if (morph::initial(a, b))
                for (char c : V) unk(string() + a + b + c, true);
    // representatives: one rafsi for each shape and outer letters that matter
    map<string, const R *> rf, rl;
    for (auto &x : first) rf.emplace(shape(x.r) + x.r[0] + x.r.back(), &x);
    for (auto &x : last) rl.emplace(shape(x.r) + x.r.substr(0, 2), &x);
    vector<const R *> F, L, LS;
    for (auto &x : rf) F.push_back(x.second);
    for (auto &x : rl) L.push_back(x.second);
    map<string, const R *> ls;
    for (auto &x : last) ls.emplace(shape(x.r) + (shape(x.r)[1] == 'C' ? x.r.substr(0, 2) : x.r.substr(0, 1)), &x);
    for (auto &x : ls) LS.push_back(x.second);
    // four-letter forms of one word are shared by several (only brod is excluded above)
    printf("count first %zu\ncount last %zu\ncount unassigned %zu\ncount first_representatives %zu\ncount last_representatives %zu\n", first.size(), last.size(), ufirst.size(), F.size(), LS.size());
    atomic<size_t> next{0};
    size_t n1 = first.size(), n2 = n1 + ufirst.size(), n3 = n2 + F.size();
    auto work = [&](int id) {
        vector<pair<string, string>> w;
        auto put = [&](const vector<const R *> &v) {
            string e;
            for (auto x : v) e += (e.empty() ? "" : "+") + x->w;
            w.push_back({build(v), e});
            if (w.size() >= 100000) run(id, w);
        };
        for (;;) {
            size_t i = next++;
            if (i >= n3) break;
            if (i < n1) {
                for (auto &z : last) put({&first[i], &z});
                for (auto &z : ulast) put({&first[i], &z});
                // in the middle and at the start of longer words
                for (size_t a = i % 5; a < F.size(); a += deep ? 1 : 5)
                    for (size_t z = i % 3; z < LS.size(); z += deep ? 1 : 3) put({F[a], &first[i], LS[z]});
                for (size_t a = 0; a < F.size(); a += 7)
                    for (size_t z = i % 5; z < LS.size(); z += 5) put({&first[i], F[a], LS[z]});
            } else if (i < n2) {
                const R &u = ufirst[i - n1];
                for (auto z : L) put({&u, z});
                for (size_t a = 0; a < F.size(); a += 3)
                    for (size_t z = 0; z < LS.size(); z += 3) put({F[a], &u, LS[z]});
            } else {
                size_t a = i - n2;
                for (size_t b = 0; b < F.size(); b += deep ? 1 : 3)
                    for (size_t c = (a + b) % 4; c < F.size(); c += 4)
                        for (size_t z = (a + b + c) % (deep ? 24 : 80); z < LS.size(); z += deep ? 24 : 80) put({F[a], F[b], F[c], LS[z]});
            }
        }
        run(id, w);
        remove((dir + "/lj." + to_string(id) + ".in").c_str());
        remove((dir + "/lj." + to_string(id) + ".out").c_str());
    };
    vector<thread> t;
    for (int i = 0; i < 8; i++) t.emplace_back(work, i);
    for (auto &x : t) x.join();
    printf("count words %ld\ncount differences %ld\n", total.load(), diffs.load());
}
