// decimal numerals, by their grammar
#pragma once
#include <cstdlib>
#include <string>
static bool dig(char c) { return c >= '0' && c <= '9'; }
static bool blank(char c) { return c == ' ' || (c >= 9 && c <= 13); }
// end of the decimal numeral at p (p itself if there is none); partial: it ends in an incomplete exponent
static const char* decimal(const char* p, bool& partial) {
    const char* s = p;
    partial = false;
    if (*p == '+' || *p == '-') ++p;
    size_t d = 0;
    for (; dig(*p); ++p) ++d;
    if (*p == '.') { ++p; for (; dig(*p); ++p) ++d; }
    if (!d) return s;
    if (*p == 'e' || *p == 'E') {
        const char* q = p + 1;
        if (*q == '+' || *q == '-') ++q;
        if (dig(*q)) { while (dig(*q)) ++q; p = q; }
        else partial = true;
    }
    return p;
}
// 1: s starts with a number, stored in *v; 0: it does not; -1: not specified
static inline int leading(const std::string& s, double* v) {
    const char* p = s.c_str();
    while (blank(*p)) ++p;
    bool partial;
    const char* e = decimal(p, partial);
    if (e == p) return 0;
    if (partial) return -1;
    *v = strtod(std::string(p, e - p).c_str(), 0);
    if (*v > 1e300 || *v < -1e300) return -1;
    return 1;
}
