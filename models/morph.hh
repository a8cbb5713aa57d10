// Reference morphology of Lojban, written from the rules (reference grammar ch. 4 and the notes on fu'ivla in the
// documentation), not from the automaton: a word is looked at as a whole and cut into rafsi, consonant groups, cmavo ...
// ref(word) gives the text that the word tool should print for the word: class and cuts.
#pragma once
#include <cstring>
#include <string>
#include <vector>

namespace morph {
static const char *const INITIAL =
    " bl br cf ck cl cm cn cp cr ct dj dr dz fl fr gl gr jb jd jg jm jv kl kr ml mr pl pr sf sk sl sm sn sp sr st tc tr ts vl "
    "vr xl xr zb zd zg zm zv ";
static bool T_init = false, T_cons[256], T_vow[256], T_initial[256][256], T_perm[256][256];
static inline bool V(char c) { return T_vow[(unsigned char)c]; }
static inline bool C(char c) { return T_cons[(unsigned char)c]; }
static inline bool initial(char a, char b) { return T_initial[(unsigned char)a][(unsigned char)b]; }
static inline bool perm(char a, char b) { return T_perm[(unsigned char)a][(unsigned char)b]; }
static inline bool syl(char c) { return c == 'l' || c == 'm' || c == 'n' || c == 'r'; }
static inline bool triple(char a, char b, char c) {  // a forbidden triple
    return a == 'n' && ((b == 't' && (c == 'c' || c == 's')) || (b == 'd' && (c == 'j' || c == 'z')));
}
static inline bool dip(char a, char b) {  // diphthongs allowed in every word
    return (b == 'i' && (a == 'a' || a == 'e' || a == 'o')) || (a == 'a' && b == 'u');
}
static void init() {
    if (T_init) return;
    for (const char *p = "bcdfgjklmnprstvxz"; *p; p++) T_cons[(unsigned char)*p] = true;
    for (const char *p = "aeiou"; *p; p++) T_vow[(unsigned char)*p] = true;
    for (const char *p = INITIAL; p[1]; p += 3) T_initial[(unsigned char)p[1]][(unsigned char)p[2]] = true;
    for (const char *a = "bcdfgjklmnprstvxz"; *a; a++)
        for (const char *b = "bcdfgjklmnprstvxz"; *b; b++) {
            bool va = strchr("bdgvjz", *a), vb = strchr("bdgvjz", *b), ua = strchr("ptkfcsx", *a), ub = strchr("ptkfcsx", *b);
            bool ok = *a != *b && !(va && ub) && !(ua && vb) && !(strchr("cjsz", *a) && strchr("cjsz", *b));
            char p[3] = {*a, *b, 0};
            for (const char *x : {"cx", "kx", "xc", "xk", "mz"})
                if (!strcmp(p, x)) ok = false;
            T_perm[(unsigned char)*a][(unsigned char)*b] = ok;
        }
    T_init = true;
}

// A word with guards: at(i) is 0 outside.
struct W {
    const char *s;
    int n;
    char at(int i) const { return i >= 0 && i < n ? s[i] : 0; }
};

// ---------------------------------------------------------------------------------------------------------- lujvo
enum { CVC, CVV, CCV, LONG };  // shapes of a rafsi that is not the last (LONG: four letters or more, always followed by y)
struct Lujvo {
    W w;
    bool cultural;

    bool vv(int i) const { return V(w.at(i)) && V(w.at(i + 1)) && dip(w.at(i), w.at(i + 1)); }
    bool vav(int i) const { return V(w.at(i)) && w.at(i + 1) == '\'' && V(w.at(i + 2)); }
    bool cc(int i) const { return C(w.at(i)) && C(w.at(i + 1)) && initial(w.at(i), w.at(i + 1)); }
    // the rafsi at i that can end the word there
    bool last(int i, bool noccv = false, bool onlyccv = false) const {
        int k = w.n - i;
        const char *p = w.s + i;
        bool ccv = k == 3 && cc(i) && V(p[2]);
        if (onlyccv) return ccv;
        if (ccv) return !noccv;
        if (!C(w.at(i))) return false;
        if (k == 3) return vv(i + 1);
        if (k == 4) return vav(i + 1);
        if (k == 5)
            return (cc(i) && V(p[2]) && C(p[3]) && V(p[4])) || (V(p[1]) && C(p[2]) && C(p[3]) && perm(p[2], p[3]) && V(p[4]));
        return false;
    }
    // the forms of rafsi at i, not the last: calls f(shape, end)
    template <class F> bool rafsi(int i, F f) const {
        char a = w.at(i), b = w.at(i + 1), c = w.at(i + 2), d = w.at(i + 3);
        if (!C(a)) return false;
        if (V(b) && C(c) && f(CVC, i + 3)) return true;
        if (vv(i + 1) && f(CVV, i + 3)) return true;
        if (vav(i + 1) && f(CVV, i + 4)) return true;
        if (cc(i) && V(c)) {
            if (f(CCV, i + 3)) return true;
            if (C(d) && f(LONG, i + 4)) return true;
            if (cultural) {
                if (vv(i + 2) && C(w.at(i + 4)) && f(LONG, i + 5)) return true;
                if (vav(i + 2) && C(w.at(i + 5)) && f(LONG, i + 6)) return true;
            }
        }
        if (V(b) && C(c) && C(d) && perm(c, d) && f(LONG, i + 4)) return true;
        return false;
    }
    // y between a CVC rafsi ending before i and what follows it is needed: returns 1 needed, 0 not
    static bool need_y(char c, char n1, char n2) { return !perm(c, n1) || triple(c, n1, n2); }
    // the rest of the word from i (not its first rafsi), given what was before
    bool rest(int i) const {
        if (last(i)) return true;
        return rafsi(i, [&](int sh, int e) { return glue(sh, e); });
    }
    // after a rafsi (not the first) of this shape ending at e
    bool glue(int sh, int e) const {
        switch (sh) {
        case CVC: {
            char c = w.at(e - 1);
            if (w.at(e) == 'y') return C(w.at(e + 1)) && need_y(c, w.at(e + 1), w.at(e + 2)) && rest(e + 1);
            return C(w.at(e)) && !need_y(c, w.at(e), w.at(e + 1)) && rest(e);
        }
        case LONG: return w.at(e) == 'y' && rest(e + 1);
        default: return rest(e);
        }
    }
    // kind: -1 no lujvo, 0 starts with a cluster, 1 starts CV, 2 starts CV and its first y stands where it is only allowed to
    // keep the first syllable from falling off
    int kind() const {
        int k = -1;
        rafsi(0, [&](int sh, int e) {
            if (sh == CVV) {
                if (last(e, false, true)) return k = 1, true;
                char h = w.at(e), x = w.at(e + 1);
                if (C(x) && ((h == 'r' && x != 'r') || (h == 'n' && x == 'r')) &&
                    (last(e + 1, true) || rafsi(e + 1, [&](int s2, int e2) { return glue(s2, e2); })))
                    return k = 1, true;
                return false;
            }
            if (sh == CVC && w.at(e) == 'y') {
                char c = w.at(e - 1), x = w.at(e + 1);
                if (!C(x) || !rest(e + 1)) return false;
                if (need_y(c, x, w.at(e + 2))) return k = 1, true;
                if (initial(c, x)) return k = 2, true;
                return false;
            }
            if (!glue(sh, e)) return false;
            k = C(w.at(0)) && C(w.at(1)) ? 0 : 1;
            return true;
        });
        return k;
    }
};
// is the y after the first CVC needed: without it the word would fall apart into a cmavo and a lujvo
static bool tosmabru(const W &w, bool cultural) {
    std::string t(w.s, w.n);
    t.erase(3, 1);
    Lujvo l{{t.c_str() + 2, (int)t.size() - 2}, cultural};
    return l.kind() == 0;
}

// -------------------------------------------------------------------------------------------------------- fu'ivla
// l s g: three letters in a row; s and g consonants, g may follow s within a consonant group
static inline bool pair_ok(char l, char s, char g) { return perm(s, g) && !triple(l, s, g); }
// s is a syllabic consonant between two others, as in a rafsi + hyphen + rest
static inline bool hyph(char l, char s, char g) {
    if (!C(l) || !C(g)) return false;
    if (s == 'l') return (l == 'r' && g == 'n') || (l == 'n' && g == 'r');
    if (s == 'r') return l != 'r' && g != 'r';
    if (s == 'n') return l == 'r' ? g != 'n' : (l != 'n' && g == 'r');
    return false;
}
struct Fuivla {
    W w;
    // a consonant group starting at i (inside the word): state after letter k of it: 1,2,3: so many non-syllabic in a row, 4
    // a syllabic one. Returns false when a letter cannot follow. `st` in/out.
    bool step(int &st, int i) const {
        if (!pair_ok(i >= 2 ? w.at(i - 2) : 0, w.at(i - 1), w.at(i))) return false;
        bool y = syl(w.at(i));
        switch (st) {
        case 1: st = y ? 4 : 2; return true;
        case 2: st = y ? 4 : 3; return true;
        case 3: if (!y) return false; st = 5; return true;
        case 5: st = y ? 4 : 1; return true;
        case 4: st = y ? 4 : 1; return true;
        }
        return false;
    }
    static bool can_end(int st) { return st != 5; }
    // vowels from i: end of the run; multi: more than one syllable
    int vowels(int i, bool &multi) const {
        int e = i, nv = 0, ap = 0;
        while (V(w.at(e)) || (w.at(e) == '\'' && e > i && V(w.at(e - 1)) && V(w.at(e + 1)))) {
            if (w.at(e) == '\'') ap++;
            else nv++;
            e++;
        }
        multi = ap || nv > 2;
        return e;
    }
    // in the middle of a consonant group whose last letter is at i-1, with state st: rest of the word
    bool from_cons(int i, int st) const {
        while (C(w.at(i))) {
            if (!step(st, i)) return false;
            i++;
        }
        return can_end(st) && V(w.at(i)) && from_vowels(i);
    }
    bool from_vowels(int i) const {
        bool m;
        int e = vowels(i, m);
        if (e == w.n) return true;
        return C(w.at(e)) && from_cons(e + 1, 1);
    }
    // up to max vowels from i, then a cluster (at least two consonants)
    bool then_cluster(int i, int max) const {
        int k = 0;
        while (V(w.at(i))) {
            if (++k > max) return false;
            i++;
            if (w.at(i) == '\'' && V(w.at(i + 1))) i++;
        }
        return k && C(w.at(i)) && C(w.at(i + 1)) && from_cons(i + 1, 1);
    }
    bool start_v() const { return V(w.at(0)) && then_cluster(0, 3); }
    bool start_cv() const { return C(w.at(0)) && then_cluster(1, 2); }
    bool start_cc() const {
        int k = 0;
        while (C(w.at(k))) k++;
        if (k < 2 || k > 5) return false;
        char x[5] = {w.at(0), w.at(1), w.at(2), w.at(3), w.at(4)};
        for (int i = 1; i < k; i++) {
            if (!initial(x[i - 1], x[i]) || triple(x[i - 2 < 0 ? 0 : i - 2], x[i - 1], x[i])) return false;
        }
        bool s1 = syl(x[1]), s2 = syl(x[2]), s3 = syl(x[3]), s4 = syl(x[4]);
        if (k == 3 && s1) return false;
        if (k == 4 && (s1 || !s2 || !s3)) return false;
        if (k == 5 && (s1 || s2 || !s3 || !s4)) return false;
        bool m;
        int e = vowels(k, m);
        if (e == k) return false;
        if (e == w.n) return m;
        return C(w.at(e)) && from_cons(e + 1, 1);
    }
    // a word that turns into a lujvo when a CV cmavo stands before it
    bool slinkui() const {
        std::string t = "ma" + std::string(w.s, w.n);
        Lujvo l{{t.c_str(), (int)t.size()}, false};
        return l.need_y(t[2], t[3], t[4]) ? false : C(t[2]) && C(t[3]) && l.rest(3);
    }
    // rafsi + hyphen + rest: hyphen at h, preceded by a rafsi
    bool hyphen_tail(int h) const {
        char l = w.at(h - 1), s = w.at(h), g = w.at(h + 1);
        if (!C(l) || !syl(s) || !pair_ok(w.at(h - 2), l, s) || !hyph(l, s, g)) return false;
        return from_cons(h + 2, syl(g) ? 4 : 1);
    }
    bool ccvc(int i) const { return C(w.at(i)) && C(w.at(i + 1)) && initial(w.at(i), w.at(i + 1)) && V(w.at(i + 2)) && C(w.at(i + 3)); }
    bool cvcc(int i) const { return C(w.at(i)) && V(w.at(i + 1)) && C(w.at(i + 2)) && C(w.at(i + 3)) && perm(w.at(i + 2), w.at(i + 3)); }
    bool cvc(int i) const { return C(w.at(i)) && V(w.at(i + 1)) && C(w.at(i + 2)); }
    bool stage3_short() const { return cvc(0) && hyphen_tail(3); }
    bool stage3_long() const { return (ccvc(0) || cvcc(0)) && hyphen_tail(4); }
    // several rafsi before the hyphen; i: start of a rafsi that is not the first
    void xrest(int i, int &h3, int &h4) const {
        char a = w.at(i), b = w.at(i + 1), c = w.at(i + 2), d = w.at(i + 3);
        if (!C(a)) return;
        if (cvc(i)) {
            if (i + 3 > h3 && hyphen_tail(i + 3)) h3 = i + 3;
            if (C(d) && pair_ok(b, c, d)) {
                if (i + 4 > h4 && hyphen_tail(i + 4)) h4 = i + 4;
                xrest(i + 3, h3, h4);
            }
        }
        if (V(b) && V(c) && dip(b, c)) xrest(i + 3, h3, h4);
        if (C(b) && initial(a, b) && !triple(w.at(i - 1), a, b) && V(c) && C(d)) {
            if (i + 4 > h4 && hyphen_tail(i + 4)) h4 = i + 4;
            xrest(i + 3, h3, h4);
        }
    }
    void xstage3(int &h3, int &h4) const {
        h3 = h4 = -1;
        char a = w.at(0), b = w.at(1), c = w.at(2), d = w.at(3);
        if (!C(a)) return;
        if (C(b) && initial(a, b) && V(c) && C(d)) xrest(3, h3, h4);
        if (V(b)) {
            int e = 0;
            if (V(c) && dip(b, c)) e = 3;
            else if (c == '\'' && V(d)) e = 4;
            if (e) {
                char r = w.at(e), x = w.at(e + 1);
                if (C(x) && ((r == 'r' && x != 'r') || (r == 'n' && x == 'r'))) xrest(e + 1, h3, h4);
            }
            if (C(c) && C(d) && perm(c, d) && !initial(c, d)) xrest(3, h3, h4);
        }
    }
    // consonant structure of a lujvo made of short rafsi without y, vowel pairs of any kind
    bool any_vv(int i) const { return V(w.at(i)) && V(w.at(i + 1)); }
    bool any_vav(int i) const { return V(w.at(i)) && w.at(i + 1) == '\'' && V(w.at(i + 2)); }
    bool shape_rest(int i, char prev) const {  // prev: consonant ending the rafsi before, or 0
        char a = w.at(i), b = w.at(i + 1), c = w.at(i + 2);
        if (!C(a) || (prev && !perm(prev, a))) return false;
        for (int l : {3, 4})
            if (l == 3 ? any_vv(i + 1) : any_vav(i + 1))
                if (i + l == w.n || shape_rest(i + l, 0)) return true;
        if (C(b) && initial(a, b) && V(c) && !(prev && triple(prev, a, b)))
            if (i + 3 == w.n || shape_rest(i + 3, 0)) return true;
        return V(b) && C(c) && shape_rest(i + 3, c);
    }
    bool lujvo_shape() const {
        char a = w.at(0), b = w.at(1), c = w.at(2);
        if (!C(a)) return false;
        for (int l : {3, 4})
            if (l == 3 ? any_vv(1) : any_vav(1)) {
                char r = w.at(l), x = w.at(l + 1);
                if (w.n == l + 3 && C(r) && C(x) && initial(r, x) && V(w.at(l + 2))) return true;
                if (r == 'r' && C(x) && x != 'r' && shape_rest(l + 1, 0)) return true;
                if (r == 'n' && x == 'r' && V(w.at(l + 2)) && shape_rest(l + 1, 0)) return true;
            }
        if (C(b) && initial(a, b) && V(c) && shape_rest(3, 0)) return true;
        return V(b) && C(c) && shape_rest(3, c);
    }
};

// ------------------------------------------------------------------------------------------------------------ cmavo
// cuts[i]: the letters before i are a row of cmavo that a word may follow
static void prefixes(const W &w, std::vector<char> &ok) {
    ok.assign(w.n + 1, 0);
    int i = 0;
    if (w.n >= 2 && (w.at(0) == 'i' || w.at(0) == 'u') && V(w.at(1))) {
        ok[2] = 1;
        i = 2;
        if (!C(w.at(2))) return;
    }
    while (i < w.n) {
        if (C(w.at(i))) i++;
        else if (i) return;
        for (;;) {  // vowels: single ones and diphthongs joined by '
            if (!V(w.at(i))) return;
            ok[++i] = 1;
            if (V(w.at(i))) {
                if (!dip(w.at(i - 1), w.at(i))) return;
                ok[++i] = 1;
            }
            if (w.at(i) != '\'') break;
            i++;
        }
    }
}

// ------------------------------------------------------------------------------------------------------------ names
static bool name(const W &w) {
    if (!w.n || !C(w.at(w.n - 1))) return false;
    for (int i = 0; i < w.n; i++) {
        char p = w.at(i - 1), c = w.at(i), n = w.at(i + 1);
        if (C(c)) {
            if (C(p) && (!perm(p, c) || triple(w.at(i - 2), p, c))) return false;
        } else if (V(c)) {
            if (p == 'y') return false;
        } else if (c == '\'') {
            if (!(V(p) || p == 'y') || !(V(n) || n == 'y')) return false;
            if (i == 1 && p == 'y') return false;  // a leading y stands right before a consonant
        } else if (c == 'y') {
            if (i == 0) {
                if (!C(n)) return false;
            } else if (V(p)) {
                if ((p != 'i' && p != 'u') || n == 'y') return false;
            } else if (p == '\'') {
                if (n == 'y') return false;
            }
        } else
            return false;
    }
    return true;
}
// la, lai, la'i or doi inside a name. 0 none, 1 the name can be divided at a and b, 2 it cannot
static int bad_name(const W &w, int &a, int &b) {
    int bestb = w.n + 1, res = 0;
    for (int i = 0; i < w.n; i++) {
        if (i) {
            char p = w.at(i - 1);
            if (!V(p) && p != 'y') continue;
        }
        int e = 0;
        if (w.at(i) == 'l' && w.at(i + 1) == 'a') {
            e = i + 2;
            if (w.at(e) == 'i' && (C(w.at(e + 1)) || w.at(e + 1) == '\'')) e++;
        } else if (w.at(i) == 'd' && w.at(i + 1) == 'o' && w.at(i + 2) == 'i')
            e = i + 3;
        if (!e || !(C(w.at(e)) || w.at(e) == '\'')) continue;
        if (e < bestb) {
            bestb = e;
            a = i, b = e;
            // after consonant + y it cannot be divided
            int j = i - 1;
            while (j > 0 && w.at(j) == 'y' && w.at(j - 1) == 'y') j--;
            res = i && w.at(j) == 'y' && (j == 0 || C(w.at(j - 1))) ? 2 : 1;
        }
    }
    return res;
}

// ---------------------------------------------------------------------------------------------------------- the word
// Text printed for the word `raw` after "word : ", commas removed.
static std::string ref(const std::string &raw) {
    init();
    std::string s;
    bool upper = false, alien = false;
    std::string orig;
    for (char c : raw) {
        if (c == ',') continue;
        orig += c;
        if (c >= 'A' && c <= 'Z') upper = true, c += 32;
        if (!C(c) && !V(c) && c != 'y' && c != '\'') alien = true;
        s += c;
    }
    const std::string un = "UNMATCHED : " + orig;
    W w{s.c_str(), (int)s.size()};
    if (alien || !w.n) return un;

    auto name_or_cmavo = [&](std::vector<char> &ok) -> std::string {
        if (name(w)) {
            int a = 0, b = 0, r = bad_name(w, a, b);
            if (r == 1) {
                std::string t;
                for (int i = 0; i < w.n; i++) {
                    if ((i == a && i) || i == b) t += '+';
                    t += orig[i];
                }
                return "bad cmene (breaks up) :  " + t;
            }
            return std::string(r ? "bad cmene (doesn't break up)" : "cmene") + " :  " + orig;
        }
        bool cm = ok[w.n];
        std::vector<char> cut(w.n + 1, 0);
        if (!cm && s.find_first_not_of('y') == std::string::npos) cm = true;
        if (!cm && s == "y'y") cm = true;
        int e = w.n;  // Cy Cy ... at the end
        while (!cm && e >= 2 && w.at(e - 1) == 'y' && C(w.at(e - 2))) {
            e -= 2;
            cut[e] = 1;
            if (e == 0 || ok[e]) cm = true;
        }
        if (!cm) return un;
        std::string t;
        for (int i = 0; i < w.n; i++) {
            if (C(w.at(i)) && i && (cut[i] || i < e || ok[w.n])) t += ' ';
            t += orig[i];
        }
        return std::string("cmavo(s)") + (upper ? " (contains invalid uppercase)" : "") + " :  " + t;
    };
    std::vector<char> ok;
    prefixes(w, ok);
    ok[0] = 1;

    int best = 99, start = 0, h = -1;
    std::string cls;
    auto take = [&](int prio, const char *c, int i, int hy = -1) {
        if (prio < best) best = prio, cls = c, start = i, h = hy;
    };
    bool f0 = false, f1 = false, sl = false;
    int f0i = 0, f1i = 0;
    bool s3l = false, s3s = false, x3 = false, x4 = false, shape = false;
    int h3 = -1, h4 = -1;
    for (int i = 0; i < w.n; i++) {
        if (!ok[i]) continue;
        W b{w.s + i, w.n - i};
        if (!C(b.at(0)) && i) continue;
        Fuivla f{b};
        if (C(b.at(0))) {
            char c0 = b.at(0), c1 = b.at(1), c2 = b.at(2), c3 = b.at(3), c4 = b.at(4);
            if (b.n == 5 && C(c1) && initial(c0, c1) && V(c2) && C(c3) && V(c4)) take(0, "gismu", i);
            if (b.n == 5 && V(c1) && C(c2) && C(c3) && perm(c2, c3) && V(c4)) take(0, "gismu", i);
            for (int cult = 0; cult < 2; cult++) {
                Lujvo l{b, (bool)cult};
                int k = l.kind(), o = cult * 4;
                if (k == 0) take(1 + o, cult ? "lujvo (with cultural rafsi)" : "lujvo", i);
                if (k == 1) take(2 + o, cult ? "lujvo (with cultural rafsi)" : "lujvo", i);
                if (k == 2) {
                    if (tosmabru(b, cult)) take(3 + o, cult ? "lujvo (with cultural rafsi)" : "lujvo", i);
                    else take(4 + o, cult ? "Bad lujvo (y hyphen not required, with cultural rafsi)" : "Bad lujvo (y hyphen not required)", i);
                }
            }
            if (f.start_cc()) {
                f0 = true, f0i = i;
                sl = f.slinkui();
            }
            if (f.start_cv()) f1 = true, f1i = i;
        } else if (f.start_v())
            f1 = true, f1i = i;
        if (C(b.at(0))) {
            if (f.stage3_long()) s3l = true, h4 = i + 4;
            if (f.stage3_short()) s3s = true, h3 = i + 3;
            int a3, a4;
            f.xstage3(a3, a4);
            if (a3 >= 0) x3 = true, h3 = i + a3;
            if (a4 >= 0) x4 = true, h4 = i + a4;
            if (f.lujvo_shape()) shape = true;
        }
    }
    if (best > 8 && (f0 || f1)) {
        if (f0 && sl && !f1) take(20, "Bad fu'ivla (fails slinku'i test)", f0i);
        else {
            bool zero = f0 && !sl;
            int at = zero ? f0i : f1i;
            if (s3l) take(21, "fu'ivla (stage-3)", at, h4);
            else if (s3s && !zero) take(21, "fu'ivla (stage-3 short rafsi)", at, h3);
            else if (x4) take(21, "fu'ivla (multi-stage-3)", at, h4);
            else if (x3) take(21, "fu'ivla (multi-stage-3, final short rafsi)", at, h3);
            else if (!shape) take(21, "fu'ivla (stage-4)", at);
        }
    }
    if (best == 99) return name_or_cmavo(ok);
    std::string t;
    for (int i = 0; i < w.n; i++) {
        if (i && i <= start && C(w.at(i))) t += ' ';
        if (i == h) t += '/';
        t += orig[i];
        if (i == h) t += '/';
    }
    return cls + (upper ? " (contains invalid uppercase)" : "") + " :  " + t;
}
}  // namespace morph
