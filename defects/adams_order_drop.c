/* Adams order decrease (q = 4 to 3): the reduced history polynomial must keep the slopes at the past points t_{n-1}, t_{n-2}.
   build: gcc -w -I/repo/lib/sundials-6.1.1/include -I/repo/lib/sundials-6.1.1/src/cvodes -I/repo/lib/sundials-6.1.1/src/sundials adams_order_drop.c \
          /repo/_build/lib/sundials-6.1.1/libsundials.a -lm */
#include "/repo/lib/sundials-6.1.1/src/cvodes/cvodes.c"
#include <nvector/nvector_serial.h>
static int f(realtype t, N_Vector y, N_Vector yd, void *u){ N_VConst(0., yd); return 0; }
int main(void){
  SUNContext cx; int j, i, bad = 0; double xi, o, w; double z[5] = {1., .5, -.3, .2, .7}, tau[4] = {0, .1, .13, .08};
  SUNContext_Create(NULL, &cx); N_Vector y = N_VNew_Serial(1, cx); N_VConst(1., y);
  CVodeMem m = (CVodeMem) CVodeCreate(CV_ADAMS, cx); CVodeInit(m, f, 0., y);
  m->cv_q = 4; m->cv_L = 5; m->cv_h = m->cv_hscale = .1;
  for (j = 0; j < 5; j++) N_VConst(z[j], m->cv_zn[j]);
  for (j = 1; j < 4; j++) m->cv_tau[j] = tau[j];
  cvAdjustOrder(m, -1);
  for (j = 1, xi = 0.; j <= 2; j++) {
    xi += tau[j] / m->cv_hscale;
    for (o = w = 0., i = 4; i >= 1; i--) { o = o*(-xi) + i*z[i]; w = w*(-xi) + (i < 4 ? i*NV_Ith_S(m->cv_zn[i], 0) : 0.); }
    printf("slope %d steps back: before %.12g after %.12g\n", j, o, w);
    if (fabs(o - w) > 1e-12) bad = 1;
  }
  return bad;
}
