/* A refused restart of the sensitivities (no initial values given) must leave the problem in progress as it was. */
#include <stdio.h>
#include <cvodes/cvodes.h>
#include <nvector/nvector_serial.h>
#include <sunmatrix/sunmatrix_dense.h>
#include <sunlinsol/sunlinsol_dense.h>

static int rhs(realtype t, N_Vector y, N_Vector yd, void *u) { NV_Ith_S(yd, 0) = -0.5 * NV_Ith_S(y, 0); return 0; }
static int srhs(int Ns, realtype t, N_Vector y, N_Vector yd, N_Vector *yS, N_Vector *ySd, void *u, N_Vector a, N_Vector b)
{ NV_Ith_S(ySd[0], 0) = -0.5 * NV_Ith_S(yS[0], 0); return 0; }

int main()
{
  SUNContext cx; SUNContext_Create(NULL, &cx);
  N_Vector y = N_VNew_Serial(1, cx), s = N_VNew_Serial(1, cx);
  NV_Ith_S(y, 0) = 1; NV_Ith_S(s, 0) = 1;
  void *m = CVodeCreate(CV_BDF, cx);
  CVodeInit(m, rhs, 0.0, y);
  CVodeSStolerances(m, 1e-8, 1e-10);
  SUNMatrix A = SUNDenseMatrix(1, 1, cx);
  CVodeSetLinearSolver(m, SUNLinSol_Dense(y, A, cx), A);
  CVodeSensInit(m, 1, CV_STAGGERED, srhs, &s);
  CVodeSensEEtolerances(m);
  double t; int r = CVode(m, 1.0, y, &t, CV_NORMAL);
  int q = CVodeSensReInit(m, CV_SIMULTANEOUS, NULL);
  printf("first call %d, refused restart %d\n", r, q); fflush(stdout);
  r = CVode(m, 2.0, y, &t, CV_NORMAL);
  printf("next call %d, y(%g) = %.8f\n", r, t, NV_Ith_S(y, 0));
  return !(q == CV_ILL_INPUT && r == 0);
}
