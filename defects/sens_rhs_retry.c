/* A right-hand side that asks for a retry (returns 1) once, right after the state correction of a step with staggered
   sensitivities has converged, must not change the solution: the step is to be repeated from the restored history. */
#include <stdio.h>
#include <math.h>
#include <string.h>
#include <cvodes/cvodes.h>
#include <nvector/nvector_serial.h>
#include <sunmatrix/sunmatrix_dense.h>
#include <sunlinsol/sunlinsol_dense.h>
#include "cvodes_impl.h"

static CVodeMem M;
static int refuse, done;

static int rhs(realtype t, N_Vector y, N_Vector yd, void *u)
{
  /* the iteration count goes up when the correction of the state has converged: the evaluation after that is the one at the corrected state */
  static long nni = -1;
  if (M && !done && M->cv_nst == 60 && refuse) {
    if (nni < 0) nni = M->cv_nni;
    else if (M->cv_nni != nni) { done = 1; nni = -1; return 1; }
  }
  NV_Ith_S(yd, 0) = cos(3 * t) - 0.5 * NV_Ith_S(y, 0);
  return 0;
}

static int jac(realtype t, N_Vector y, N_Vector fy, SUNMatrix J, void *u, N_Vector a, N_Vector b, N_Vector c)
{ SM_ELEMENT_D(J, 0, 0) = -0.5; return 0; }

static int srhs(int Ns, realtype t, N_Vector y, N_Vector yd, N_Vector *yS, N_Vector *ySd, void *u, N_Vector a, N_Vector b)
{
  NV_Ith_S(ySd[0], 0) = -0.5 * NV_Ith_S(yS[0], 0);
  return 0;
}

static double run(int r, double *sens)
{
  SUNContext cx; SUNContext_Create(NULL, &cx);
  N_Vector y = N_VNew_Serial(1, cx), s = N_VNew_Serial(1, cx);
  NV_Ith_S(y, 0) = 1; NV_Ith_S(s, 0) = 1;
  void *m = CVodeCreate(CV_BDF, cx);
  M = 0; refuse = r; done = 0;
  CVodeInit(m, rhs, 0.0, y);
  CVodeSStolerances(m, 1e-8, 1e-10);
  SUNMatrix A = SUNDenseMatrix(1, 1, cx);
  SUNLinearSolver L = SUNLinSol_Dense(y, A, cx);
  CVodeSetLinearSolver(m, L, A);
  CVodeSetJacFn(m, jac);
  CVodeSensInit(m, 1, CV_STAGGERED, srhs, &s);
  double p = 1; CVodeSetSensParams(m, NULL, &p, NULL);
  CVodeSensEEtolerances(m);
  CVodeSetMaxNumSteps(m, 100000);
  M = (CVodeMem) m;
  realtype t;
  int st = CVode(m, 4.0, y, &t, CV_NORMAL);
  double v = st < 0 ? -1e9 : NV_Ith_S(y, 0);
  CVodeGetSens(m, &t, &s);
  *sens = NV_Ith_S(s, 0);
  return v;
}

int main(void)
{
  double s0, s1, a = run(0, &s0), b = run(1, &s1);
  double c = (0.5 * cos(12.) + 3 * sin(12.)) / 9.25, ex = c + (1 - 0.5 / 9.25) * exp(-2.);
  printf("exact %.10f plain %.10f retried %.10f (retried: %d)  sensitivity %.10f %.10f %.10f\n", ex, a, b, done, exp(-2.), s0, s1);
  return !(done && fabs(b - ex) < 1e-5 && fabs(s1 - exp(-2.)) < 1e-5);
}
