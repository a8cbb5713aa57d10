// The reference morphology as a shared library for the Python checks.
#include "morph.hh"
extern "C" {
int lujvo_kind(const char *s) {
    morph::init();
    morph::Lujvo l{{s, (int)strlen(s)}, false};
    return l.kind();
}
const char *morph_ref(const char *s) {
    static std::string r;
    r = morph::ref(s);
    return r.c_str();
}
}
