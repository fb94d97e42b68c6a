// Native runtime behind symex.h: runs a harness on one recorded assignment against the real library, real libstdc++ and
// libc under AddressSanitizer/UBSan. Used to confirm violations and to validate sampled paths of the model.
// usage: replay FILE   exit: 0 ran to the end, 10 assertion failed, 77 assumption does not hold, other: crash/sanitizer
#include "symex.h"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <iostream>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>

struct Rec { bool choose; std::string name; std::vector<unsigned char> bytes; unsigned long val; };
static std::vector<Rec>* recs;
static size_t cursor;
static int outFd = 1, memFd = -1;
static bool counting;
static int inRt;
static long live;
static char capture[1 << 16];
struct Quiet { Quiet() { ++inRt; } ~Quiet() { --inRt; } };
static void onMalloc(const volatile void* p, size_t) { if (counting && !inRt && p) ++live; }
static void onFree(const volatile void* p) { if (counting && !inRt && p) --live; }
static void say(const std::string& s) { (void)!write(outFd, s.data(), s.size()); }
static std::string hex(const void* p, size_t n) { static const char* d = "0123456789abcdef"; std::string s; for (size_t i = 0; i < n; ++i) { s += d[((const unsigned char*)p)[i] >> 4]; s += d[((const unsigned char*)p)[i] & 15]; } return s; }
extern "C" {
void symex_on_exit(int) __attribute__((weak));
void symex_make(void* p, size_t n, const char* name) {
    Quiet q;
    memset(p, 0, n);
    if (cursor < recs->size()) {
        Rec& r = (*recs)[cursor++];
        if (r.choose || r.name != name) { say(std::string("REPLAY MISMATCH: wanted ") + name + ", recorded " + r.name + "\n"); _exit(78); }
        if (n) memcpy(p, r.bytes.data(), std::min(n, r.bytes.size()));
    }
}
unsigned symex_choose(unsigned, const char* name) {
    Quiet q;
    if (cursor >= recs->size()) return 0;
    Rec& r = (*recs)[cursor++];
    if (!r.choose || r.name != name) { say(std::string("REPLAY MISMATCH: wanted ") + name + ", recorded " + r.name + "\n"); _exit(78); }
    return (unsigned)r.val;
}
void symex_assume(int c) { if (!c) { say("ASSUMPTION DOES NOT HOLD\n"); _exit(77); } }
void symex_assert(int c, const char* m) { if (!c) { Quiet q; say(std::string("ASSERTION FAILED: ") + m + "\n"); _exit(10); } }
void symex_cover(const char*) {}
void symex_observe(const char* t, const void* p, size_t n) { Quiet q; say(std::string("obs ") + t + " " + hex(p, n) + "\n"); }
size_t symex_live(void) { return (size_t)live; }
const char* symex_stdout(size_t* n) {
    Quiet q;
    std::cout.flush();
    fflush(stdout);
    ssize_t k = pread(memFd, capture, sizeof capture, 0);
    *n = k < 0 ? 0 : (size_t)k;
    return capture;
}
}
static bool finished;
static void atExit(int st, void*) {
    if (finished) return;
    finished = true;
    if (symex_on_exit) symex_on_exit(st);
    say("EXIT " + std::to_string(st) + "\n");
    _exit(symex_on_exit ? 0 : 11);
}
static void onTerminate() { say("TERMINATE: uncaught exception or std::terminate\n"); _exit(12); }
int main(int argc, char** argv) {
    if (argc < 2) return 2;
    recs = new std::vector<Rec>;
    FILE* f = fopen(argv[1], "r");
    if (!f) return 2;
    char* line = 0;
    size_t cap = 0;
    while (getline(&line, &cap, f) > 0) {
        std::string l = line;
        while (!l.empty() && l.back() == '\n') l.pop_back();
        if (l.compare(0, 5, "make ") && l.compare(0, 7, "choose ")) continue;
        size_t a = l.find(' '), b = l.rfind(' ');
        Rec r;
        r.choose = l[0] == 'c';
        r.name = l.substr(a + 1, b - a - 1);
        std::string v = l.substr(b + 1);
        r.val = 0;
        if (r.choose) r.val = strtoul(v.c_str(), 0, 10);
        else for (size_t i = 0; i + 1 < v.size(); i += 2) r.bytes.push_back((unsigned char)strtoul(v.substr(i, 2).c_str(), 0, 16));
        recs->push_back(r);
    }
    fclose(f);
    outFd = dup(1);
    memFd = memfd_create("out", 0);
    dup2(memFd, 1);
    setvbuf(stdout, 0, _IONBF, 0);
    std::cout << std::flush;
    on_exit(atExit, 0);
    std::set_terminate(onTerminate);
    __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
    counting = true;
    symex_main();
    counting = false;
    finished = true;
    say("END\n");
    _exit(0);
}
