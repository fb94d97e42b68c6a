// Harness interface, implemented by the symbolic executor and, for replays, by replay.cpp.
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void symex_make(void* p, size_t n, const char* name);          // n arbitrary bytes
unsigned symex_choose(unsigned n, const char* name);           // an arbitrary value below n
void symex_assume(int c);
void symex_assert(int c, const char* msg);                     // holds for every input reaching this point, or is a violation
void symex_cover(const char* label);                           // reachability witness
void symex_observe(const char* tag, const void* p, size_t n);  // value compared between the model and the native run
size_t symex_live(void);                                       // live heap objects
const char* symex_stdout(size_t* n);                           // what was written to standard output so far
void symex_on_exit(int status);                                // defined by a harness that expects exit()
void symex_main(void);
#ifdef __cplusplus
}
#endif
