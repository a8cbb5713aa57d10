// Compares the word tool with the reference morphology.
// usage: morph_run VLATAI SCRATCH STATES TWO LEN REPS_OUT
//   TWO    number of endings tried after two letters (all are tried after one letter: every transition of the reference)
//   LEN    all strings of at most this many letters
// Prints "count NAME N" lines and "diff WORD<TAB>expected<TAB>got" lines (at most 200); writes representative words.
#include "morph.hh"
#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <mutex>
#include <set>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <unordered_set>
#include <vector>
using std::string;
static const char *AL = "abcdefgijklmnoprstuvxyz'";
static string vlatai, scratch;
static std::mutex mu;
static std::map<string, unsigned long long> counts;
static std::vector<string> diffs;
static unsigned long long ndiff;
static std::atomic<bool> broken{false};

static string strip(const string &s) {
    if (s.find(',') == string::npos) return s;
    string t;
    for (char c : s)
        if (c != ',') t += c;
    return t;
}
// runs the tool on the words, calls f(word, line after the word)
template <class F> static void tool(const std::vector<string> &words, const string &tag, F f) {
    string in = scratch + "/in." + tag, out = scratch + "/out." + tag;
    FILE *o = fopen(in.c_str(), "w");
    for (auto &w : words) fwrite(w.data(), 1, w.size(), o), putc('\n', o);
    fclose(o);
    string cmd = "timeout 300 " + vlatai + " <" + in + " >" + out + " 2>/dev/null";
    int rc = system(cmd.c_str());
    std::ifstream r(out);
    string line;
    size_t k = 0;
    for (; k < words.size() && std::getline(r, line); k++) {
        size_t n = std::max<size_t>(25, words[k].size());
        string got = line.size() >= n + 3 && line.compare(0, words[k].size(), words[k]) == 0 ? strip(line.substr(n + 3)) : "?" + line;
        f(words[k], got);
    }
    if (rc || k < words.size()) f(k < words.size() ? words[k] : "", "no answer, status " + std::to_string(rc));
    unlink(in.c_str()), unlink(out.c_str());
}
static string expect(const string &w) {
    return strip(morph::ref(w));
}
struct Feeder {
    string name, tag;
    std::vector<string> buf;
    unsigned long long n = 0;
    std::map<string, unsigned long long> cls;
    Feeder(string a, int t) : name(a), tag(std::to_string(t)) {}
    void add(const string &w) {
        buf.push_back(w);
        if (buf.size() >= 400000) flush();
    }
    void flush() {
        if (buf.empty() || broken) {
            buf.clear();
            return;
        }
        n += buf.size();
        tool(buf, tag, [&](const string &w, const string &got) {
            string e = expect(w);
            cls[e.substr(0, e.find(" : "))]++;
            if (e == got) return;
            std::lock_guard<std::mutex> g(mu);
            if (++ndiff <= 200) diffs.push_back(w + "\t" + e + "\t" + got);
            if (ndiff > 100000) broken = true;
        });
        buf.clear();
    }
    ~Feeder() {
        flush();
        std::lock_guard<std::mutex> g(mu);
        counts[name] += n;
        for (auto &c : cls) counts["class:" + c.first] += c.second;
    }
};
template <class F> static void parallel(F f) {
    std::vector<std::thread> th;
    for (int t = 0; t < 8; t++) th.emplace_back(f, t);
    for (auto &t : th) t.join();
}
static string kind(const string &r) { return r.substr(0, r.find(" : ")); }

int main(int argc, char **argv) {
    if (argc < 7) return 2;
    morph::init();
    vlatai = argv[1], scratch = argv[2];
    std::ifstream st(argv[3]);
    int two = atoi(argv[4]), len = atoi(argv[5]);
    std::vector<string> S, E;
    string line;
    while (std::getline(st, line)) (line[0] == 'S' ? S : E).push_back(line.substr(2));

    // 1. every transition of the reference, told apart by every ending
    for (int dep = 1; dep <= 2; dep++) parallel([&](int t) {
        Feeder f(dep == 1 ? "transition_endings" : "two_step_endings", t);
        std::vector<string> mid{""};
        for (int d = 0; d < dep; d++) {
            std::vector<string> m2;
            for (auto &m : mid)
                for (const char *c = AL; *c; c++) m2.push_back(m + *c);
            mid = m2;
        }
        for (size_t i = t; i < S.size() && !broken; i += 8)
            for (auto &m : mid)
                for (size_t k = 0; k < E.size() && (dep == 1 || (int)k < two); k++) f.add(S[i] + m + E[k]);
    });
    // 2. every short string
    parallel([&](int t) {
        Feeder f("short_strings", t);
        for (int n = 1; n <= len && !broken; n++) {
            unsigned long long tot = 1;
            for (int i = 0; i < n; i++) tot *= 24;
            for (unsigned long long k = t; k < tot && !broken; k += 8) {
                string w;
                unsigned long long x = k;
                for (int i = 0; i < n; i++) w += AL[x % 24], x /= 24;
                f.add(w);
            }
        }
    });
    // 3. one word per state and class; with a comma, a capital or another character at each position; pieces on their own
    std::vector<string> reps;
    for (auto &s : S) {
        std::set<string> seen;
        for (auto &e : E) {
            if ((s + e).empty()) continue;
            if (seen.insert(kind(morph::ref(s + e))).second) reps.push_back(s + e);
        }
    }
    std::sort(reps.begin(), reps.end());
    reps.erase(std::unique(reps.begin(), reps.end()), reps.end());
    parallel([&](int t) {
        Feeder f("decorated_words", t);
        for (size_t i = t; i < reps.size() && !broken; i += 8) {
            const string &w = reps[i];
            if (kind(morph::ref(w)) == "UNMATCHED") continue;
            string all;
            for (size_t p = 0; p < w.size(); p++) {
                string x = w;
                if (x[p] != '\'') x[p] -= 32;
                f.add(x);
                if (p) f.add(w.substr(0, p) + "," + w.substr(p));
                all += w[p] == '\'' ? w[p] : (char)(w[p] - 32);
                for (char c : {'h', 'q', 'w', '-', '"', '`', '\xe9'}) f.add(w.substr(0, p) + c + w.substr(p + 1));
            }
            f.add(all);
            f.add(w + ",");
            string cm;
            for (char c : w) cm += c, cm += ",,";
            f.add(cm);
        }
    });
    // 4. the same words behind a long row of cmavo
    parallel([&](int t) {
        Feeder f("long_words", t);
        string row, row2;
        for (int k = 0; k < 70; k++) row += "le", row2 += "pa're", row2 += "mai";
        for (size_t i = t; i < reps.size() && !broken; i += 8) {
            const string &w = reps[i];
            string k = kind(morph::ref(w));
            if (k == "UNMATCHED") continue;
            f.add(row + w);
            if (i % 4 == 0) f.add(row2 + w);
        }
    });
    unsigned long long npieces = 0;
    {
        std::vector<string> words;
        std::vector<std::pair<size_t, string>> origin;  // index into reps, expected class
        for (size_t i = 0; i < reps.size(); i++) {
            string r = expect(reps[i]), k = kind(r);
            size_t p = r.find(" :  ");
            if (p == string::npos || k.compare(0, 3, "bad") == 0 || k.compare(0, 3, "Bad") == 0) continue;
            std::vector<string> parts{""};
            for (size_t j = p + 4; j < r.size(); j++) {
                if (r[j] == ' ') parts.push_back("");
                else if (r[j] != '/') parts.back() += r[j];
            }
            if (parts.size() < 2) continue;
            for (size_t j = 0; j < parts.size(); j++) {
                words.push_back(parts[j]);
                origin.push_back({i, (j + 1 < parts.size() ? "cmavo(s)" : k) + " :  " + parts[j]});
            }
        }
        size_t at = 0;
        tool(words, "p", [&](const string &w, const string &got) {
            string g;
            for (char c : got)
                if (c != '/') g += c;
            if (at < origin.size() && g != origin[at].second && ++ndiff <= 200)
                diffs.push_back(reps[origin[at].first] + "\tits piece " + w + " is: " + origin[at].second + "\t" + got);
            at++;
        });
        npieces = words.size();
    }
    std::ofstream ro(argv[6]);
    for (auto &w : reps) ro << w << '\t' << morph::ref(w) << '\n';
    printf("count states %zu\ncount endings %zu\ncount transitions %zu\ncount pieces %llu\ncount representatives %zu\n", S.size(), E.size(),
           S.size() * 24, npieces, reps.size());
    for (auto &c : counts) printf("count %s %llu\n", c.first.c_str(), c.second);
    printf("count differences %llu\n", ndiff);
    for (auto &d : diffs) printf("diff %s\n", d.c_str());
    return 0;
}
