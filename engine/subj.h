// Table of the functions under test.  It is compiled together with the libraries of /repo
// (subj.cpp) into one shared object per build variant and loaded by the harness with dlopen.
#pragma once
#include <cstdint>

typedef long double X; // carrier: every float, double and long double is exactly representable

enum Lang { CPP = 0, CLANG = 1, FORT = 2 };
enum Prec { P32 = 0, P64 = 1, P80 = 2 };
enum Kind { K_R = 0, K_C = 1, K_NR = 2, K_NC = 3 }; // f(x), f(z), f(n,x), f(n,z)
enum Family { LI = 0, CL = 1, SL = 2 };

struct Subject {
   const char* name;
   int family, kind, lang, prec;
   int n; // order of the dedicated functions, 0 for K_NR, K_NC
   /// in[0], in[1] = re, im (or x).  out[0], out[1] = result;  out[2], out[3] = the argument
   /// variables after the call (for functions that take their argument by reference).
   void (*call)(int64_t n, const X* in, X* out);
   void* raw; // plain function pointer (float(float)) of the real single precision functions
};

struct SubjectTable {
   int count;
   const Subject* s;
};
extern "C" const SubjectTable* verif_subjects();

// ---- tracing variant -----------------------------------------------------------------------
struct CmpRec {
   uint64_t pc;
   double d;       // a - b (saturated)
   double a, b;
   int64_t ia, ib; // for integer comparisons
   int8_t sgn;     // -1, 0, 1; 2: unordered
   int8_t kind;    // 0: float, 1: double, 2: integer, 3: switch
};
struct TraceBuf {
   int active;
   int ncmp;
   uint64_t calls;    // basic blocks executed
   uint64_t blockset; // hash of the set of executed blocks
   CmpRec cmp[512];
};
