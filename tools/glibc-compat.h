/* Force-included (extra-cflags) in every Avian C++ source.  glibc 2.28+
   declares narrowing functions fadd, fsub, fmul and fdiv in <math.h> (g++
   always defines _GNU_SOURCE), which clash with Avian's opcode enum in
   src/avian/constants.h.  Give glibc's declarations other names; nothing in
   Avian uses them. */
#define fadd glibc_fadd
#define fsub glibc_fsub
#define fmul glibc_fmul
#define fdiv glibc_fdiv
#include <math.h>
#undef fadd
#undef fsub
#undef fmul
#undef fdiv
