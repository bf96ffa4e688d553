/* Setting scalar and then vector sensitivity tolerances must not lose memory: create and release the solver over and over. */
#include <stdio.h>
#include <malloc.h>
#include <cvodes/cvodes.h>
#include <nvector/nvector_serial.h>

static int rhs(realtype t, N_Vector y, N_Vector yd, void *u) { NV_Ith_S(yd, 0) = -0.5 * NV_Ith_S(y, 0); return 0; }
static int srhs(int Ns, realtype t, N_Vector y, N_Vector yd, N_Vector *yS, N_Vector *ySd, void *u, N_Vector a, N_Vector b) { return 0; }

static void cycle(SUNContext cx, N_Vector y, N_Vector *s)
{
  double a[64] = {0};
  void *m = CVodeCreate(CV_BDF, cx);
  CVodeInit(m, rhs, 0.0, y);
  CVodeSensInit(m, 64, CV_STAGGERED, srhs, s);
  CVodeSensSStolerances(m, 1e-8, a);
  CVodeSensSVtolerances(m, 1e-8, s);
  CVodeFree(&m);
}

int main()
{
  SUNContext cx; SUNContext_Create(NULL, &cx);
  N_Vector y = N_VNew_Serial(1, cx), s[64];
  for (int i = 0; i < 64; i++) { s[i] = N_VNew_Serial(1, cx); NV_Ith_S(s[i], 0) = 1; }
  NV_Ith_S(y, 0) = 1;
  mallopt(M_MMAP_THRESHOLD, 1 << 30);
  for (int i = 0; i < 20; i++) cycle(cx, y, s);
  size_t before = mallinfo2().uordblks;
  for (int i = 0; i < 100; i++) cycle(cx, y, s);
  long lost = (long)(mallinfo2().uordblks - before);
  printf("bytes lost in 100 cycles: %ld\n", lost);
  return lost > 1000;
}
