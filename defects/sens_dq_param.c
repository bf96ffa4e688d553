#include <stdio.h>
#include <cvodes/cvodes.h>
#include <nvector/nvector_serial.h>
#include <sunmatrix/sunmatrix_dense.h>
#include <sunlinsol/sunlinsol_dense.h>
static double p[1]={0.5}; static int fails, seen, bad;
static int f(realtype t,N_Vector y,N_Vector yd,void*u){
  if(p[0]!=0.5){ if(t>0 && !fails){fails=1; return 1;} }
  else seen++;
  NV_Ith_S(yd,0)=-p[0]*NV_Ith_S(y,0); return 0;}
int main(){ SUNContext c; SUNContext_Create(NULL,&c);
  N_Vector y=N_VNew_Serial(1,c); NV_Ith_S(y,0)=1; N_Vector *yS=N_VCloneVectorArray(1,y); N_VConst(0,yS[0]);
  void*m=CVodeCreate(CV_BDF,c); CVodeInit(m,f,0,y); CVodeSStolerances(m,1e-6,1e-9);
  SUNMatrix A=SUNDenseMatrix(1,1,c); SUNLinearSolver L=SUNLinSol_Dense(y,A,c); CVodeSetLinearSolver(m,L,A);
  CVodeSensInit(m,1,CV_STAGGERED,NULL,yS); CVodeSetSensParams(m,p,p,NULL); CVodeSensEEtolerances(m);
  double t; int r=CVode(m,2.0,y,&t,CV_NORMAL); printf("r %d y %.9f (exp(-1)=0.367879441) p %.17g\n",r,NV_Ith_S(y,0),p[0]); return 0;}
