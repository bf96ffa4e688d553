/* a refused change of the root functions leaves a solver that dereferences NULL */
#include <stdio.h>
#include <cvodes/cvodes.h>
#include <nvector/nvector_serial.h>
#include <sunmatrix/sunmatrix_dense.h>
#include <sunlinsol/sunlinsol_dense.h>
static int f(realtype t,N_Vector y,N_Vector yd,void*u){ NV_Ith_S(yd,0)=1; return 0;}
static int g(realtype t,N_Vector y,realtype*o,void*u){ o[0]=NV_Ith_S(y,0)-0.3; return 0;}
int main(int n,char**v){ SUNContext c; SUNContext_Create(NULL,&c);
  N_Vector y=N_VNew_Serial(1,c); NV_Ith_S(y,0)=0;
  void*m=CVodeCreate(CV_BDF,c); CVodeInit(m,f,0,y); CVodeSStolerances(m,1e-6,1e-9);
  SUNMatrix A=SUNDenseMatrix(1,1,c); SUNLinearSolver L=SUNLinSol_Dense(y,A,c); CVodeSetLinearSolver(m,L,A);
  if(n>1) CVodeRootInit(m,1,g);
  printf("refused: %d\n",CVodeRootInit(m,1,NULL));
  double t; int r=CVode(m,2.0,y,&t,CV_NORMAL); printf("%d at %g\n",r,t); return 0;}
