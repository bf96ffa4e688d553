From 555c72ba3a755ff219790125d007cc320e2668c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:11 +0000
Subject: [PATCH 01/28] fix: a neutral constant operand returned the operand
 itself but re-tagged its propagation rule

x+0, 0+x, x-0, x*1, 1*x, x/1 and hypot with a zero constant return the
existing variable; set_chain must only be applied to a newly recorded node.
---
 src/add.F90   | 4 ++--
 src/div.F90   | 2 +-
 src/hypot.F90 | 4 ++--
 src/mul.F90   | 4 ++--
 src/sub.F90   | 2 +-
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/add.F90 b/src/add.F90
index 036db38..0bfcc1e 100644
--- a/src/add.F90
+++ b/src/add.F90
@@ -46,10 +46,10 @@ contains
     type(var) :: s
     if ( v2 .ne. 0.d0 ) then
        s = var(v1%val() + v2, [v1])
+       call s%set_chain(chain_add_vd)
     else
        s = v1
     end if
-    call s%set_chain(chain_add_vd)
   end function add_vd
 
   impure elemental function add_dv(v1, v2) result(s)
@@ -58,10 +58,10 @@ contains
     type(var) :: s
     if ( v1 .ne. 0.d0 ) then
        s = var(v1 + v2%val(), [v2])
+       call s%set_chain(chain_add_vd)
     else
        s = v2
     end if
-    call s%set_chain(chain_add_vd)
   end function add_dv
 
   impure elemental function pos(v) result(s)
diff --git a/src/div.F90 b/src/div.F90
index 8085ea0..2b2e180 100644
--- a/src/div.F90
+++ b/src/div.F90
@@ -47,10 +47,10 @@ contains
     type(var) :: s
     if ( d .ne. 1.d0 ) then
        s = var(v%val() / d, [v], [d])
+       call s%set_chain(chain_div_vd)
     else
        s = v
     end if
-    call s%set_chain(chain_div_vd)
   end function div_vd
 
   subroutine chain_div_dv(this)
diff --git a/src/hypot.F90 b/src/hypot.F90
index 84da526..2a53372 100644
--- a/src/hypot.F90
+++ b/src/hypot.F90
@@ -32,10 +32,10 @@ contains
     type(var) :: s
     if ( v2 .ne. 0.d0 ) then
        s = var(hypot(v1%val(), v2), [v1])
+       call s%set_chain(chain_hypot)
     else
        s = abs(v1)
     end if
-    call s%set_chain(chain_hypot)
   end function hypot_vd
 
   impure elemental function hypot_dv(v1, v2) result(s)
@@ -44,10 +44,10 @@ contains
     type(var) :: s
     if ( v1 .ne. 0.d0 ) then
        s = var(hypot(v2%val(), v1), [v2])
+       call s%set_chain(chain_hypot)
     else
        s = v2
     end if
-    call s%set_chain(chain_hypot)
   end function hypot_dv
 
 end module fazang_hypot_v_mod
diff --git a/src/mul.F90 b/src/mul.F90
index 159f36f..5c38b92 100644
--- a/src/mul.F90
+++ b/src/mul.F90
@@ -46,10 +46,10 @@ contains
     type(var) :: s
     if ( d .ne. 1.d0 ) then
        s = var(v%val() * d, [v], [d])
+       call s%set_chain(chain_mul_vd)
     else
        s = v
     end if
-    call s%set_chain(chain_mul_vd)
   end function mul_vd
 
   impure elemental function mul_dv(d, v) result(s)
@@ -58,10 +58,10 @@ contains
     type(var) :: s
     if ( d .ne. 1.d0 ) then
        s = var(v%val() * d, [v], [d])
+       call s%set_chain(chain_mul_vd)
     else
        s = v
     end if
-    call s%set_chain(chain_mul_vd)
   end function mul_dv
 
 end module fazang_mul_mod
diff --git a/src/sub.F90 b/src/sub.F90
index b7e4add..678f00b 100644
--- a/src/sub.F90
+++ b/src/sub.F90
@@ -45,10 +45,10 @@ contains
     type(var) :: s
     if ( v2 .ne. 0.d0 ) then
        s = var(v1%val() - v2, [v1])
+       call s%set_chain(chain_sub_vd)
     else
        s = v1
     end if
-    call s%set_chain(chain_sub_vd)
   end function sub_vd
 
   subroutine chain_sub_dv(this)
-- 
2.43.0


From 61b2fc0f590ca809844e7165426529b00461cf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:11 +0000
Subject: [PATCH 02/28] fix: hypot(0, x) is abs(x), not x

---
 src/hypot.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypot.F90 b/src/hypot.F90
index 2a53372..e543101 100644
--- a/src/hypot.F90
+++ b/src/hypot.F90
@@ -46,7 +46,7 @@ contains
        s = var(hypot(v2%val(), v1), [v2])
        call s%set_chain(chain_hypot)
     else
-       s = v2
+       s = abs(v2)
     end if
   end function hypot_dv
 
-- 
2.43.0


From 944fd5ff2412bd0ec1cf3d971a8c2ce628da1f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:11 +0000
Subject: [PATCH 03/28] fix: inv_square computed (1/x)*x

---
 src/inv_square.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inv_square.F90 b/src/inv_square.F90
index 98bb5c4..268111b 100644
--- a/src/inv_square.F90
+++ b/src/inv_square.F90
@@ -22,7 +22,7 @@ contains
   impure elemental function inv_square(v) result(s)
     type(var), intent(in) :: v
     type(var) :: s
-    s = var(1.d0 / v%val() * v%val(), [v])
+    s = var(1.d0 / (v%val() * v%val()), [v])
     call s%set_chain(chain_isq)
   end function inv_square
 
-- 
2.43.0


From a41abe5daec2b23a398c7c24e4077f4176da60a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:11 +0000
Subject: [PATCH 04/28] fix: comparisons with the real on the left used swapped
 operands

---
 src/relational.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/relational.F90 b/src/relational.F90
index 4a23c58..5908c06 100644
--- a/src/relational.F90
+++ b/src/relational.F90
@@ -24,7 +24,7 @@ contains
 
 #define FUNC_REL_OP_VV(S, F) elemental function F (a, b) result(r); type(var), intent(in) :: a, b; logical :: r; r = a%val() S b%val(); end function F
 #define FUNC_REL_OP_VD(S, F) elemental function F (a, b) result(r); type(var), intent(in) :: a; real(rk), intent(in) :: b; logical :: r; r = a%val() S b; end function F
-#define FUNC_REL_OP_DV(S, F) elemental function F (a, b) result(r); real(rk), intent(in) :: a; type(var), intent(in) :: b; logical :: r; r = b%val() S a; end function F
+#define FUNC_REL_OP_DV(S, F) elemental function F (a, b) result(r); real(rk), intent(in) :: a; type(var), intent(in) :: b; logical :: r; r = a S b%val(); end function F
 
   FUNC_REL_OP_VV(==, var_eq)
   FUNC_REL_OP_VD(==, vd_eq)
-- 
2.43.0


From ee21bc359661a5167a193ef7fa5f3915ce7d8c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:11 +0000
Subject: [PATCH 05/28] fix: unary minus is elemental like the other operators

---
 src/sub.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sub.F90 b/src/sub.F90
index 678f00b..96b1ff6 100644
--- a/src/sub.F90
+++ b/src/sub.F90
@@ -66,7 +66,7 @@ contains
     call s%set_chain(chain_sub_dv)
   end function sub_dv
 
-  function neg(v) result(s)
+  impure elemental function neg(v) result(s)
     type(var), intent(in) :: v
     type(var) :: s
     s = var(-v%val(), [v])
-- 
2.43.0


From f4087fc150becf3a367cd0c548208b4a2dc41ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:11 +0000
Subject: [PATCH 06/28] fix: record_len read the operand list instead of the
 data operand count

---
 src/tape.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tape.F90 b/src/tape.F90
index 5678336..67bcddc 100644
--- a/src/tape.F90
+++ b/src/tape.F90
@@ -349,7 +349,7 @@ contains
     class(tape), target, intent(in) :: this
     integer(ik), intent(in) :: i
     integer(ik) :: j
-    j = min_rec_size + this%storage(i + 4) + 2 * this%storage(i + 5)
+    j = min_rec_size + this%storage(i + 4) + 2 * this%storage(i + 5 + this%storage(i + 4))
   end function record_len
 
   pure function n_data_operand(this, i) result(d)
-- 
2.43.0


From 3a37bd3a659f3c83267acebfe846208c77f7d331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:16 +0000
Subject: [PATCH 07/28] fix: adj_curr returned the value instead of the adjoint

---
 src/tape.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tape.F90 b/src/tape.F90
index 67bcddc..7ec653a 100644
--- a/src/tape.F90
+++ b/src/tape.F90
@@ -190,7 +190,7 @@ contains
   pure function adj_curr (this) result(d)
     real(rk) :: d
     class(tape), target, intent(in) :: this
-    d = this%val_at(this%head)
+    d = this%adj_at(this%head)
   end function adj_curr
 
   ! op: operands index
-- 
2.43.0


From b7d9630d7aa5770e43282e50512d320aa3201e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:16 +0000
Subject: [PATCH 08/28] fix: end_nested cleared one cell beyond the recorded
 tape

With a full or not yet allocated tape that cell does not exist.
---
 src/nested.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nested.F90 b/src/nested.F90
index 5f50ba8..956ce4f 100644
--- a/src/nested.F90
+++ b/src/nested.F90
@@ -32,7 +32,7 @@ contains
   subroutine end_nested()
     integer :: i
     if ( nest_level > 0 ) then
-       do i = callstack % stack % head, nested_tape_head(nest_level), -1
+       do i = callstack % stack % head - 1, nested_tape_head(nest_level), -1
           callstack % stack % storage(i) = 0
        end do
        callstack % stack % head = nested_tape_head(nest_level)
-- 
2.43.0


From 5ff321fe0f0282ba655dee60ffd8947468c0d598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:16 +0000
Subject: [PATCH 09/28] fix: a reused vari slot kept the propagation rule of
 its previous owner

After end_nested the slots are handed out again; a leaf recorded in such a
slot ran the old rule on its own record (out-of-bounds reads with matmul).
---
 src/vari.F90 | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vari.F90 b/src/vari.F90
index 626f696..8d89a35 100644
--- a/src/vari.F90
+++ b/src/vari.F90
@@ -119,6 +119,7 @@ contains
     integer(ik) :: vp
     call callstack % alloc_vari_stack()
     callstack%varis(callstack%head)%i = callstack % stack % push(d)
+    callstack%varis(callstack%head)%chain => chain_dummy
     vp = callstack%head
     call incr1(callstack%head)
   end function new_vari_val
@@ -135,6 +136,7 @@ contains
     integer(ik) :: vp
     call callstack % alloc_vari_stack()
     callstack%varis(callstack%head)%i = callstack % stack % push(d, op)
+    callstack%varis(callstack%head)%chain => chain_dummy
     vp = callstack%head
     call incr1(callstack%head)
   end function new_vari_val_op
@@ -145,6 +147,7 @@ contains
     integer(ik) :: vp
     call callstack % alloc_vari_stack()
     callstack%varis(callstack%head)%i = callstack % stack % push(d, dop)
+    callstack%varis(callstack%head)%chain => chain_dummy
     vp = callstack%head
     call incr1(callstack%head)
   end function new_vari_val_dop
@@ -157,6 +160,7 @@ contains
     call callstack % alloc_vari_stack()
     callstack%varis(callstack%head)%i = callstack % stack % push(d,&
          & op, dop)
+    callstack%varis(callstack%head)%chain => chain_dummy
     vp = callstack%head
     call incr1(callstack%head)
   end function new_vari_val_op_dop
-- 
2.43.0


From 366d68c76740bc102698b81e410c7d3298c56001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:16 +0000
Subject: [PATCH 10/28] fix: outside any nested scope the nested sweep and
 reset cover the whole tape

They used index 0 of the nested stack and of the vari array.
---
 src/nested.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nested.F90 b/src/nested.F90
index 956ce4f..f8da441 100644
--- a/src/nested.F90
+++ b/src/nested.F90
@@ -16,7 +16,7 @@ module fazang_nested_tape_mod
 contains
   subroutine set_zero_nested_adj ()
     integer i
-    do i = callstack % head - 1, nested_vari_head(nest_level), -1
+    do i = callstack % head - 1, curr_nested_vari_head(), -1
        call callstack % stack % set_adj(callstack%varis(i)%i, 0.0d0)
     end do
   end subroutine set_zero_nested_adj
@@ -44,7 +44,7 @@ contains
   end subroutine end_nested
 
   integer(ik) function curr_nested_vari_head()
-    curr_nested_vari_head = 0
+    curr_nested_vari_head = 1
     if (nest_level > 0) then
        curr_nested_vari_head = nested_vari_head(nest_level)
     end if
-- 
2.43.0


From e4b9511614a970b3f8ae2fb75a8f4b190c81b33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:16 +0000
Subject: [PATCH 11/28] fix: begin_nested wrote beyond the nested stack at the
 eleventh level

---
 src/nested.F90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nested.F90 b/src/nested.F90
index f8da441..10af812 100644
--- a/src/nested.F90
+++ b/src/nested.F90
@@ -24,6 +24,7 @@ contains
   ! we can't use OOP like FINAL because gfortran has implementation
   ! gap of standard 2018
   subroutine begin_nested()
+    if ( nest_level >= max_nested_stack ) error stop 'begin_nested: too many nested scopes'
     nest_level = nest_level + 1
     nested_vari_head(nest_level) = callstack % head
     nested_tape_head(nest_level) = callstack % stack % head
-- 
2.43.0


From 12830c07ee07b35d33beb94dde605e6bc95362c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:16 +0000
Subject: [PATCH 12/28] fix: gradient and jacobian swept the enclosing tape
 again

Adjoints already present outside the local scope were propagated a second time.
---
 src/grad.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grad.F90 b/src/grad.F90
index 8a829b2..6df8ad5 100644
--- a/src/grad.F90
+++ b/src/grad.F90
@@ -38,7 +38,7 @@ contains
     x_var = var(x)
     f_var = f(x_var)
     f_df(1) = f_var%val()
-    call f_var%grad()
+    call f_var%grad_nested()
     f_df(2:(1+size(x))) = x_var%adj()
 
     call end_nested()
@@ -59,7 +59,7 @@ contains
 
     do i = 1, n
        call set_zero_nested_adj()
-       call f_var(i)%grad()
+       call f_var(i)%grad_nested()
        f_df(i, 2:(1 + size(x))) = x_var%adj()
     end do
 
-- 
2.43.0


From 6109b6b2393489a2add60d930826c097b0749325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:16 +0000
Subject: [PATCH 13/28] fix: log_sum_exp of all -inf is -inf, not NaN

---
 src/log_sum_exp.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log_sum_exp.F90 b/src/log_sum_exp.F90
index 891ffe7..f3ccc9c 100644
--- a/src/log_sum_exp.F90
+++ b/src/log_sum_exp.F90
@@ -30,7 +30,7 @@ contains
     real(rk), intent(in) :: d(:)
     real(rk) :: s, max_d
     max_d = maxval(d)
-    if ( is_inf(max_d) ) then
+    if ( is_inf(max_d) .or. is_neg_inf(max_d) ) then
        s = max_d
     else
        s = max_d + log(sum(exp(d - max_d)))
-- 
2.43.0


From 603b05117a23b666c4085ad770d0ffb78709c56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:16 +0000
Subject: [PATCH 14/28] fix: acosh(1) is defined

---
 src/acosh.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acosh.F90 b/src/acosh.F90
index 406686d..14ad644 100644
--- a/src/acosh.F90
+++ b/src/acosh.F90
@@ -29,7 +29,7 @@ contains
     type(var) :: s
     if ( is_nan(v) ) then
        s = v
-    elseif ( v <= 1.d0 ) then
+    elseif ( v < 1.d0 ) then
        error stop
     else
        s = var(acosh(v%val()), [v])
-- 
2.43.0


From d690a104c5a6682696bbb1872b93510940bbf1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:16 +0000
Subject: [PATCH 15/28] fix: the umbrella module exports abs

---
 src/fazang.F90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fazang.F90 b/src/fazang.F90
index 79b4222..5532fd6 100644
--- a/src/fazang.F90
+++ b/src/fazang.F90
@@ -14,6 +14,7 @@ module fazang
   use fazang_grad_mod
 
   ! op 1
+  use fazang_abs_mod
   use fazang_sin_mod
   use fazang_cos_mod
   use fazang_tan_mod
-- 
2.43.0


From ea9c7cd89289df83e702414f78c4c5d1aa6a7cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:55 +0000
Subject: [PATCH 16/28] fix: the sensitivity right-hand side was limited to
 three parameters

---
 src/cvodes_model.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cvodes_model.F90 b/src/cvodes_model.F90
index 87f1ffe..895e9c0 100755
--- a/src/cvodes_model.F90
+++ b/src/cvodes_model.F90
@@ -175,7 +175,7 @@ contains
     type(N_Vector), pointer :: yiSdot
     real(c_double), pointer :: yiSdotvec(:)
     logical :: par_is_var
-    type(var) :: pvar(3)
+    type(var) :: pvar(merge(ode % ns - n, ode % ns, ode % ys))
     integer m               ! # of var params
 
     m = merge(ode % ns - n, ode % ns, ode % ys)
-- 
2.43.0


From f06e0d3e0aca0bf9ca9d48571835814301420038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:55 +0000
Subject: [PATCH 17/28] fix: memory handed to CVODES must outlive the call that
 hands it over

A non-contiguous y was passed through a temporary that was gone before the
first step; yval and pval are pointed to and need the target attribute.
---
 src/cvodes.F90 | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/cvodes.F90 b/src/cvodes.F90
index f645264..67e0601 100644
--- a/src/cvodes.F90
+++ b/src/cvodes.F90
@@ -54,7 +54,7 @@ contains
     integer :: ierr, is
     integer, intent(in) :: cv_method
     real(c_double) :: t0
-    real(c_double), intent(inout) :: y(:)
+    real(c_double), contiguous, target, intent(inout) :: y(:)
     type(cvs_rhs), target, intent(in) :: ode
     type(N_Vector), pointer :: yiS
     real(c_double), pointer :: yiSvec(:)
@@ -133,7 +133,7 @@ contains
     procedure(cvs_rhs_func) :: rhs
     real(c_double), intent(in) :: ts(:), t
     class(cvodes_options), intent(in) :: cvs_options
-    real(c_double), intent(inout) :: y(:)
+    real(c_double), contiguous, target, intent(inout) :: y(:)
     real(c_double) :: yt(size(y), size(ts))
     real(c_double) :: tcur(1)
     type(cvs_rhs), target :: ode
@@ -172,7 +172,8 @@ contains
     type(cvodes_service) :: serv
     integer :: ierr, outstep, nout, is
     integer(c_long) :: i
-    real(rk) :: yval(size(y)), g(size(y))
+    real(rk), target :: yval(size(y))
+    real(rk) :: g(size(y))
     type(N_Vector), pointer :: yiS
     real(c_double), pointer :: yiSvec(:)
 
@@ -215,7 +216,7 @@ contains
     procedure(cvs_rhs_func_pvar) :: rhs_pvar
     real(c_double), intent(in) :: ts(:), t
     class(cvodes_options), intent(in) :: cvs_options
-    real(rk), intent(inout) :: y(:)
+    real(rk), contiguous, target, intent(inout) :: y(:)
     type(var), target, intent(in) :: param(:)
 
     type(var) :: yt(size(y), size(ts))
@@ -226,7 +227,8 @@ contains
     type(cvodes_service) :: serv
     integer :: ierr, outstep, nout, is
     integer(c_long) :: i
-    real(rk) :: g(size(param)), pval(size(param))
+    real(rk) :: g(size(param))
+    real(rk), target :: pval(size(param))
     type(N_Vector), pointer :: yiS
     real(c_double), pointer :: yiSvec(:)
 
-- 
2.43.0


From 72bad5bd9a6d5ebb86f4804ac4479d51fa277a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:53 +0000
Subject: [PATCH 18/28] fix: views of CVODES vectors had length one

FN_VGetArrayPointer returns a pointer of size 1, so a right-hand side saw
size(y) == 1 and whole-array expressions in it set one component only.
---
 src/cvodes.F90       | 10 +++++-----
 src/cvodes_model.F90 | 23 ++++++++++++++++-------
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/cvodes.F90 b/src/cvodes.F90
index 67e0601..8c7c345 100644
--- a/src/cvodes.F90
+++ b/src/cvodes.F90
@@ -99,7 +99,7 @@ contains
        serv % yS = FN_VCloneVectorArray(ode % ns, serv % sunvec_y) 
        do is = 0, ode % ns - 1
           yiS => FN_VGetVecAtIndexVectorArray(serv % yS, is)
-          yiSvec => FN_VGetArrayPointer(yiS)
+          yiSvec => nvector_data(yiS)
           call FN_VConst(0.d0, yiS)
           if (ode % ys .and. is < serv % neq) then
              yiSvec(is + 1) = 1.0;
@@ -200,10 +200,10 @@ contains
           g = 0.d0
           do is = 0, ode % ns - 1
              yiS => FN_VGetVecAtIndexVectorArray(serv % yS, is)
-             yiSvec => FN_VGetArrayPointer(yiS)
+             yiSvec => nvector_data(yiS)
              g(is + 1) = yiSvec(i)
           end do
-          yiSvec => FN_VGetArrayPointer(serv % sunvec_y)
+          yiSvec => nvector_data(serv % sunvec_y)
           yt(i, outstep) = var_with_partials(yiSvec(i), y, g)
        enddo
     enddo
@@ -255,10 +255,10 @@ contains
           g = 0.d0
           do is = 0, ode % ns - 1
              yiS => FN_VGetVecAtIndexVectorArray(serv % yS, is)
-             yiSvec => FN_VGetArrayPointer(yiS)
+             yiSvec => nvector_data(yiS)
              g(is + 1) = yiSvec(i)
           end do
-          yiSvec => FN_VGetArrayPointer(serv % sunvec_y)          
+          yiSvec => nvector_data(serv % sunvec_y)          
           yt(i, outstep) = var_with_partials(yiSvec(i), param, g)
        enddo
     enddo
diff --git a/src/cvodes_model.F90 b/src/cvodes_model.F90
index 895e9c0..8e2b74c 100755
--- a/src/cvodes_model.F90
+++ b/src/cvodes_model.F90
@@ -49,6 +49,15 @@ module fazang_cvodes_model_mod
   end interface cvs_rhs
 contains
 
+  ! All elements of a vector: FN_VGetArrayPointer gives a pointer of
+  ! size 1 only.
+  function nvector_data(v) result(d)
+    type(N_Vector), target, intent(inout) :: v
+    real(c_double), pointer :: d(:)
+    d => FN_VGetArrayPointer(v)
+    call c_f_pointer(c_loc(d(1)), d, [FN_VGetLength(v)])
+  end function nvector_data
+
   function new_cvs_rhs(func) result(rhs)
     procedure(cvs_rhs_func) :: func
     type(cvs_rhs), target :: rhs
@@ -116,8 +125,8 @@ contains
     call c_f_pointer(user_data, ode)
 
     ! get data arrays from SUNDIALS vectors
-    yvec => FN_VGetArrayPointer(sunvec_y)
-    fvec => FN_VGetArrayPointer(sunvec_f)
+    yvec => nvector_data(sunvec_y)
+    fvec => nvector_data(sunvec_f)
 
     ! fill RHS vector
     call ode % f(tn, yvec, fvec)
@@ -197,15 +206,15 @@ contains
        do j = 1, ode % ns
           yiS => FN_VGetVecAtIndexVectorArray(yS, j - 1)
           yiSdot => FN_VGetVecAtIndexVectorArray(ySdot, j - 1)
-          yiSvec => FN_VGetArrayPointer(yiS)
-          yiSdotvec => FN_VGetArrayPointer(yiSdot)
+          yiSvec => nvector_data(yiS)
+          yiSdotvec => nvector_data(yiSdot)
           yiSdotvec(i) = dot_product(yvar%adj(), yiSvec)
        end do
        
        if ( par_is_var ) then
           do j = 1, m
              yiSdot => FN_VGetVecAtIndexVectorArray(ySdot, ode % ns - m + j - 1)
-             yiSdotvec => FN_VGetArrayPointer(yiSdot)
+             yiSdotvec => nvector_data(yiSdot)
              yiSdotvec(i) = yiSdotvec(i) + pvar(j) % adj();
           enddo
        end if
@@ -243,8 +252,8 @@ contains
     call c_f_pointer(user_data, ode)
 
     ! get data arrays from SUNDIALS vectors
-    yvec => FN_VGetArrayPointer(y)
-    fvec => FN_VGetArrayPointer(f)
+    yvec => nvector_data(y)
+    fvec => nvector_data(f)
     n = int(FN_VGetLength(y), kind=int32)
     call set_sens_rhs(n, t, yvec, fvec, yS, ySdot, ode)
     ierr = 0
-- 
2.43.0


From 9fd3370fbd4fe121c5091d56caed7d379acad4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:27 +0000
Subject: [PATCH 19/28] fix: errors reported by CVODES setup calls were ignored

---
 src/cvodes.F90         | 24 +++++++++++++++++++++++-
 src/cvodes_options.F90 |  8 ++++++++
 2 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/cvodes.F90 b/src/cvodes.F90
index 8c7c345..e69acfd 100644
--- a/src/cvodes.F90
+++ b/src/cvodes.F90
@@ -18,6 +18,8 @@ module fazang_cvodes_mod
 
   implicit none
 
+  private :: check_flag
+
   type :: cvodes_service
      ! local variables
      integer(c_long) :: neq         
@@ -48,6 +50,15 @@ module fazang_cvodes_mod
   end interface cvodes_sol
 
 contains
+  subroutine check_flag(ierr, what)
+    integer, intent(in) :: ierr
+    character(*), intent(in) :: what
+    if (ierr /= 0) then
+       print *, 'Error in ', what, ', ierr = ', ierr, '; halting'
+       stop 1
+    end if
+  end subroutine check_flag
+
   function new_cvodes_service(t0, y, ode, cv_method) result(serv)
     implicit none
     type(cvodes_service) :: serv
@@ -60,6 +71,7 @@ contains
     real(c_double), pointer :: yiSvec(:)
 
     ierr = FSUNContext_Create(c_null_ptr, serv%ctx)
+    call check_flag(ierr, 'FSUNContext_Create')
 
     ! create SUNDIALS N_Vector
     serv % neq = size(y)
@@ -71,9 +83,11 @@ contains
 
     serv % sunmat_A => FSUNDenseMatrix(serv % neq, &
          serv % neq, serv % ctx)
+    if (.not. associated(serv % sunmat_A)) call check_flag(-1, 'FSUNDenseMatrix')
 
     serv % sunlinsol_LS => FSUNLinSol_Dense(serv % sunvec_y,&
          serv % sunmat_A, serv % ctx)
+    if (.not. associated(serv % sunlinsol_LS)) call check_flag(-1, 'FSUNLinSol_Dense')
 
     ! create CVode memory
     serv % mem = FCVodeCreate(cv_method, serv % ctx)
@@ -89,14 +103,17 @@ contains
     endif
 
     ierr = FCVodeSetUserData(serv % mem, c_loc(ode))
+    call check_flag(ierr, 'FCVodeSetUserData')
 
     ierr = FCVodeSetLinearSolver(serv % mem, serv % sunlinsol_LS, &
          serv % sunmat_A)
+    call check_flag(ierr, 'FCVodeSetLinearSolver')
 
     ! need sensitivity ?
     if ( ode % ns > 0 ) then
        serv % sens = ode % ns
        serv % yS = FN_VCloneVectorArray(ode % ns, serv % sunvec_y) 
+       if (.not. c_associated(serv % yS)) call check_flag(-1, 'FN_VCloneVectorArray')
        do is = 0, ode % ns - 1
           yiS => FN_VGetVecAtIndexVectorArray(serv % yS, is)
           yiSvec => nvector_data(yiS)
@@ -107,6 +124,7 @@ contains
        end do
        ierr = FCVodeSensInit(serv % mem, ode % ns, CV_STAGGERED, &
             c_funloc(ode % cvs_sens), serv % yS)
+       call check_flag(ierr, 'FCVodeSensInit')
     end if
 
   end function new_cvodes_service
@@ -183,7 +201,8 @@ contains
     yval = y%val()
     serv = new_cvodes_service(t, yval, ode, cvs_options % cv_method)
 
-    ierr = FCVodeSensEEtolerances(serv % mem)       
+    ierr = FCVodeSensEEtolerances(serv % mem)
+    call check_flag(ierr, 'FCVodeSensEEtolerances')
 
     call cvs_options % set(serv % mem)
 
@@ -196,6 +215,7 @@ contains
           stop 1
        endif
        ierr = FCVodeGetSens(serv % mem, tcur, serv % yS)
+       call check_flag(ierr, 'FCVodeGetSens')
        do i = 1, serv % neq
           g = 0.d0
           do is = 0, ode % ns - 1
@@ -239,6 +259,7 @@ contains
     serv = new_cvodes_service(t, y, ode, cvs_options % cv_method)
 
     ierr = FCVodeSensEEtolerances(serv % mem)
+    call check_flag(ierr, 'FCVodeSensEEtolerances')
 
     call cvs_options % set(serv % mem)
 
@@ -251,6 +272,7 @@ contains
           stop 1
        endif
        ierr = FCVodeGetSens(serv % mem, tcur, serv % yS)
+       call check_flag(ierr, 'FCVodeGetSens')
        do i = 1, serv % neq
           g = 0.d0
           do is = 0, ode % ns - 1
diff --git a/src/cvodes_options.F90 b/src/cvodes_options.F90
index 1dc9049..43bcfa7 100644
--- a/src/cvodes_options.F90
+++ b/src/cvodes_options.F90
@@ -42,7 +42,15 @@ contains
     type(c_ptr), intent(inout) :: mem ! CVODES memory
     integer :: ierr
     ierr = FCVodeSStolerances(mem, this % rtol, this % atol)
+    if (ierr /= 0) then
+       print *, 'Error in FCVodeSStolerances, ierr = ', ierr, '; halting'
+       stop 1
+    end if
     ierr = FCVodeSetMaxNumSteps(mem, this % max_nstep)
+    if (ierr /= 0) then
+       print *, 'Error in FCVodeSetMaxNumSteps, ierr = ', ierr, '; halting'
+       stop 1
+    end if
   end subroutine set
 
 end module fazang_cvodes_options_mod
-- 
2.43.0


From 1171752ddb4ed022f26cad339b6ba93254235484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:43 +0000
Subject: [PATCH 20/28] fix: digamma used the VAX machine constants for IEEE
 doubles

---
 src/digamma.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/digamma.F90 b/src/digamma.F90
index 922cab7..b4127ee 100644
--- a/src/digamma.F90
+++ b/src/digamma.F90
@@ -137,8 +137,8 @@ module fazang_digamma_mod
   real(real64), parameter :: X01 =187.0D0, X01D = 128.0D0, X02 = 6.9464496836234126266D-04
 
   !  Machine-dependent constants
-  real(real64), parameter :: XINF=1.70D+38, XMIN1=5.89D-39, XMAX1=3.60D+16
-  real(real64), parameter :: XSMALL=2.05D-09, XLARGE=2.04D+15
+  real(real64), parameter :: XINF=1.79D+308, XMIN1=2.23D-308, XMAX1=4.50D+15
+  real(real64), parameter :: XSMALL=5.80D-09, XLARGE=2.71D+14
 
 contains
   elemental function digamma(xx) result(psi)
-- 
2.43.0


From 93ffad2c29bef3ded41cd329011e782cd17e238f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:13 +0000
Subject: [PATCH 21/28] fix: store the extent of a real vector on the tape
 (array_in_tape)

---
 src/array_in_tape.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array_in_tape.F90 b/src/array_in_tape.F90
index 34cd669..8e90f4b 100644
--- a/src/array_in_tape.F90
+++ b/src/array_in_tape.F90
@@ -53,7 +53,7 @@ contains
     integer(ik) :: i
     s%tape_ptr => t
     s%rank = 1
-    s%loc = s%tape_ptr%push(size(a))
+    s%loc = s%tape_ptr%push([size(a)])
     i = s%tape_ptr%push(a)
   end function data_1d_array_in_tape
 
-- 
2.43.0


From 8d7095fd93e5b8a5c0d2deea77811a6c2ef87f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:16 +0000
Subject: [PATCH 22/28] fix: integrate the Adams order-decrease polynomial
 without overwriting its coefficients

---
 lib/sundials-6.1.1/src/cvodes/cvodes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodes.c b/lib/sundials-6.1.1/src/cvodes/cvodes.c
index d4c64e2..68162e7 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodes.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodes.c
@@ -5760,7 +5760,7 @@ static void cvAdjustAdams(CVodeMem cv_mem, int deltaq)
       cv_mem->cv_l[i] = cv_mem->cv_l[i]*xi + cv_mem->cv_l[i-1];
   }
 
-  for (j=1; j <= cv_mem->cv_q-2; j++)
+  for (j=cv_mem->cv_q-2; j >= 1; j--)
     cv_mem->cv_l[j+1] = cv_mem->cv_q * (cv_mem->cv_l[j] / (j+1));
 
   if (cv_mem->cv_q > 2) {
-- 
2.43.0


From 29cd653edca7152a17544790727fba0720a1e4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:36 +0000
Subject: [PATCH 23/28] fix: restore the history when the right-hand side asks
 for a retry after the state correction

---
 lib/sundials-6.1.1/src/cvodes/cvodes.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodes.c b/lib/sundials-6.1.1/src/cvodes/cvodes.c
index 68162e7..38684d7 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodes.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodes.c
@@ -5536,8 +5536,11 @@ static int cvStep(CVodeMem cv_mem)
       cv_mem->cv_nfe++;
       if (retval < 0) return(CV_RHSFUNC_FAIL);
       if (retval > 0) {
-        nflag = PREV_CONV_FAIL;
-        continue;
+        nflag = RHSFUNC_RECVR;
+        kflag = cvHandleNFlag(cv_mem, &nflag, saved_t, &ncfS,
+                              &(cv_mem->cv_ncfnS));
+        if (kflag == PREDICT_AGAIN) continue;
+        return(kflag);
       }
 
       if (do_sensi_stg) {
-- 
2.43.0


From 0d38b1b677973c023a2d86edaa21982492f98245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:45 +0000
Subject: [PATCH 24/28] fix: a refused sensitivity restart no longer changes
 the correction method

---
 lib/sundials-6.1.1/src/cvodes/cvodes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodes.c b/lib/sundials-6.1.1/src/cvodes/cvodes.c
index 38684d7..2105a24 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodes.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodes.c
@@ -1912,7 +1912,6 @@ int CVodeSensReInit(void *cvode_mem, int ism, N_Vector *yS0)
                    "CVodeSensReInit", MSGCV_BAD_ISM);
     return(CV_ILL_INPUT);
   }
-  cv_mem->cv_ism = ism;
 
   /* Check if yS0 is non-null */
 
@@ -1921,6 +1920,7 @@ int CVodeSensReInit(void *cvode_mem, int ism, N_Vector *yS0)
                    "CVodeSensReInit", MSGCV_NULL_YS0);
     return(CV_ILL_INPUT);
   }
+  cv_mem->cv_ism = ism;
 
   /* Allocate ncfS1, ncfnS1, and nniS1 if needed */
 
-- 
2.43.0


From 7e976a0c024077f075da6871bec7e99e5d37eae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:52 +0000
Subject: [PATCH 25/28] fix: changing the kind of sensitivity tolerances no
 longer leaks the zero-tolerance flags

---
 lib/sundials-6.1.1/src/cvodes/cvodes.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodes.c b/lib/sundials-6.1.1/src/cvodes/cvodes.c
index 2105a24..b721d60 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodes.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodes.c
@@ -2106,7 +2106,8 @@ int CVodeSensSStolerances(void *cvode_mem, realtype reltolS, realtype *abstolS)
   if ( !(cv_mem->cv_SabstolSMallocDone) ) {
     cv_mem->cv_SabstolS = NULL;
     cv_mem->cv_SabstolS = (realtype *)malloc(cv_mem->cv_Ns*sizeof(realtype));
-    cv_mem->cv_atolSmin0 = (booleantype *)malloc(cv_mem->cv_Ns*sizeof(booleantype));
+    if (cv_mem->cv_atolSmin0 == NULL)
+      cv_mem->cv_atolSmin0 = (booleantype *)malloc(cv_mem->cv_Ns*sizeof(booleantype));
     cv_mem->cv_lrw += cv_mem->cv_Ns;
     cv_mem->cv_SabstolSMallocDone = SUNTRUE;
   }
@@ -2179,7 +2180,8 @@ int CVodeSensSVtolerances(void *cvode_mem,  realtype reltolS, N_Vector *abstolS)
 
   if ( !(cv_mem->cv_VabstolSMallocDone) ) {
     cv_mem->cv_VabstolS = N_VCloneVectorArray(cv_mem->cv_Ns, cv_mem->cv_tempv);
-    cv_mem->cv_atolSmin0 = (booleantype *)malloc(cv_mem->cv_Ns*sizeof(booleantype));
+    if (cv_mem->cv_atolSmin0 == NULL)
+      cv_mem->cv_atolSmin0 = (booleantype *)malloc(cv_mem->cv_Ns*sizeof(booleantype));
     cv_mem->cv_lrw += cv_mem->cv_Ns*cv_mem->cv_lrw1;
     cv_mem->cv_liw += cv_mem->cv_Ns*cv_mem->cv_liw1;
     cv_mem->cv_VabstolSMallocDone = SUNTRUE;
@@ -2450,7 +2452,8 @@ int CVodeQuadSensSStolerances(void *cvode_mem, realtype reltolQS, realtype *abst
   if ( !(cv_mem->cv_SabstolQSMallocDone) ) {
     cv_mem->cv_SabstolQS = NULL;
     cv_mem->cv_SabstolQS = (realtype *)malloc(cv_mem->cv_Ns*sizeof(realtype));
-    cv_mem->cv_atolQSmin0 = (booleantype *)malloc(cv_mem->cv_Ns*sizeof(booleantype));
+    if (cv_mem->cv_atolQSmin0 == NULL)
+      cv_mem->cv_atolQSmin0 = (booleantype *)malloc(cv_mem->cv_Ns*sizeof(booleantype));
     cv_mem->cv_lrw += cv_mem->cv_Ns;
     cv_mem->cv_SabstolQSMallocDone = SUNTRUE;
   }
@@ -2531,7 +2534,8 @@ int CVodeQuadSensSVtolerances(void *cvode_mem,  realtype reltolQS, N_Vector *abs
 
   if ( !(cv_mem->cv_VabstolQSMallocDone) ) {
     cv_mem->cv_VabstolQS = N_VCloneVectorArray(cv_mem->cv_Ns, cv_mem->cv_tempvQ);
-    cv_mem->cv_atolQSmin0 = (booleantype *)malloc(cv_mem->cv_Ns*sizeof(booleantype));
+    if (cv_mem->cv_atolQSmin0 == NULL)
+      cv_mem->cv_atolQSmin0 = (booleantype *)malloc(cv_mem->cv_Ns*sizeof(booleantype));
     cv_mem->cv_lrw += cv_mem->cv_Ns*cv_mem->cv_lrw1Q;
     cv_mem->cv_liw += cv_mem->cv_Ns*cv_mem->cv_liw1Q;
     cv_mem->cv_VabstolQSMallocDone = SUNTRUE;
-- 
2.43.0


From 7a43f8fd20df28ee002b8c7ca873e66f99eabf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:02 +0000
Subject: [PATCH 26/28] fix: a failed difference quotient no longer leaves the
 perturbed sensitivity parameter behind

---
 lib/sundials-6.1.1/src/cvodes/cvodes.c | 55 ++++++++++++++++++++------
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodes.c b/lib/sundials-6.1.1/src/cvodes/cvodes.c
index b721d60..5c7a8fb 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodes.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodes.c
@@ -8870,14 +8870,20 @@ int cvSensRhs1InternalDQ(int Ns, realtype t,
 
     retval = cv_mem->cv_f(t, ytemp, ySdot, cv_mem->cv_user_data);
     nfel++;
-    if (retval != 0) return(retval);
+    if (retval != 0) {
+      cv_mem->cv_p[which] = psave;
+      return(retval);
+    }
 
     N_VLinearSum(ONE,y,-Delta,yS,ytemp);
     cv_mem->cv_p[which] = psave - Delta;
 
     retval = cv_mem->cv_f(t, ytemp, ftemp, cv_mem->cv_user_data);
     nfel++;
-    if (retval != 0) return(retval);
+    if (retval != 0) {
+      cv_mem->cv_p[which] = psave;
+      return(retval);
+    }
 
     N_VLinearSum(r2Delta,ySdot,-r2Delta,ftemp,ySdot);
 
@@ -8905,12 +8911,18 @@ int cvSensRhs1InternalDQ(int Ns, realtype t,
     cv_mem->cv_p[which] = psave + Deltap;
     retval = cv_mem->cv_f(t, y, ytemp, cv_mem->cv_user_data);
     nfel++;
-    if (retval != 0) return(retval);
+    if (retval != 0) {
+      cv_mem->cv_p[which] = psave;
+      return(retval);
+    }
 
     cv_mem->cv_p[which] = psave - Deltap;
     retval = cv_mem->cv_f(t, y, ftemp, cv_mem->cv_user_data);
     nfel++;
-    if (retval != 0) return(retval);
+    if (retval != 0) {
+      cv_mem->cv_p[which] = psave;
+      return(retval);
+    }
 
     /* ySdot = ySdot + r2Deltap * ytemp - r2Deltap * ftemp */
     cvals[0] = ONE;        Xvecs[0] = ySdot;
@@ -8918,7 +8930,10 @@ int cvSensRhs1InternalDQ(int Ns, realtype t,
     cvals[2] = -r2Deltap;  Xvecs[2] = ftemp;
 
     retval = N_VLinearCombination(3, cvals, Xvecs, ySdot);
-    if (retval != CV_SUCCESS) return (CV_VECTOROP_ERR);
+    if (retval != CV_SUCCESS) {
+      cv_mem->cv_p[which] = psave;
+      return (CV_VECTOROP_ERR);
+    }
 
     break;
 
@@ -8932,7 +8947,10 @@ int cvSensRhs1InternalDQ(int Ns, realtype t,
 
     retval = cv_mem->cv_f(t, ytemp, ySdot, cv_mem->cv_user_data);
     nfel++;
-    if (retval != 0) return(retval);
+    if (retval != 0) {
+      cv_mem->cv_p[which] = psave;
+      return(retval);
+    }
 
     N_VLinearSum(rDelta,ySdot,-rDelta,ydot,ySdot);
 
@@ -8951,7 +8969,10 @@ int cvSensRhs1InternalDQ(int Ns, realtype t,
     cv_mem->cv_p[which] = psave + Deltap;
     retval = cv_mem->cv_f(t, y, ytemp, cv_mem->cv_user_data);
     nfel++;
-    if (retval != 0) return(retval);
+    if (retval != 0) {
+      cv_mem->cv_p[which] = psave;
+      return(retval);
+    }
 
     /* ySdot = ySdot + rDeltap * ytemp - rDeltap * ydot */
     cvals[0] = ONE;       Xvecs[0] = ySdot;
@@ -8959,7 +8980,10 @@ int cvSensRhs1InternalDQ(int Ns, realtype t,
     cvals[2] = -rDeltap;  Xvecs[2] = ydot;
 
     retval = N_VLinearCombination(3, cvals, Xvecs, ySdot);
-    if (retval != CV_SUCCESS) return (CV_VECTOROP_ERR);
+    if (retval != CV_SUCCESS) {
+      cv_mem->cv_p[which] = psave;
+      return (CV_VECTOROP_ERR);
+    }
 
     break;
 
@@ -9047,14 +9071,20 @@ static int cvQuadSensRhs1InternalDQ(CVodeMem cv_mem, int is, realtype t,
 
     retval = cv_mem->cv_fQ(t, tmp, yQSdot, cv_mem->cv_user_data);
     nfel++;
-    if (retval != 0) return(retval);
+    if (retval != 0) {
+      cv_mem->cv_p[which] = psave;
+      return(retval);
+    }
 
     N_VLinearSum(ONE, y, -Delta, yS, tmp);
     cv_mem->cv_p[which] = psave - Delta;
 
     retval = cv_mem->cv_fQ(t, tmp, tmpQ, cv_mem->cv_user_data);
     nfel++;
-    if (retval != 0) return(retval);
+    if (retval != 0) {
+      cv_mem->cv_p[which] = psave;
+      return(retval);
+    }
 
     N_VLinearSum(r2Delta, yQSdot, -r2Delta, tmpQ, yQSdot);
 
@@ -9070,7 +9100,10 @@ static int cvQuadSensRhs1InternalDQ(CVodeMem cv_mem, int is, realtype t,
 
     retval = cv_mem->cv_fQ(t, tmp, yQSdot, cv_mem->cv_user_data);
     nfel++;
-    if (retval != 0) return(retval);
+    if (retval != 0) {
+      cv_mem->cv_p[which] = psave;
+      return(retval);
+    }
 
     N_VLinearSum(rDelta, yQSdot, -rDelta, yQdot, yQSdot);
 
-- 
2.43.0


From b951930c5f13c687f0bdb7065404c4744bc25e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:44 +0000
Subject: [PATCH 27/28] fix: root functions left inactive by an earlier problem
 take part again after a restart

---
 lib/sundials-6.1.1/src/cvodes/cvodes.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodes.c b/lib/sundials-6.1.1/src/cvodes/cvodes.c
index 5c7a8fb..2c6bc3e 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodes.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodes.c
@@ -7835,7 +7835,10 @@ static int cvRcheck1(CVodeMem cv_mem)
   realtype smallh, hratio, tplus;
   booleantype zroot;
 
-  for (i = 0; i < cv_mem->cv_nrtfn; i++) cv_mem->cv_iroots[i] = 0;
+  for (i = 0; i < cv_mem->cv_nrtfn; i++) {
+    cv_mem->cv_iroots[i] = 0;
+    cv_mem->cv_gactive[i] = SUNTRUE;  /* an earlier problem may have left it inactive */
+  }
   cv_mem->cv_tlo = cv_mem->cv_tn;
   cv_mem->cv_ttol = (SUNRabs(cv_mem->cv_tn) + SUNRabs(cv_mem->cv_h)) *
     cv_mem->cv_uround*HUNDRED;
-- 
2.43.0


From 92a47ffc7be95aa3eb008175f7ef15c5b1ea8ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:44 +0000
Subject: [PATCH 28/28] fix: a refused CVodeRootInit leaves the root functions
 in force unchanged

---
 lib/sundials-6.1.1/src/cvodes/cvodes.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodes.c b/lib/sundials-6.1.1/src/cvodes/cvodes.c
index 2c6bc3e..c75a120 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodes.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodes.c
@@ -2641,6 +2641,13 @@ int CVodeRootInit(void *cvode_mem, int nrtfn, CVRootFn g)
 
   nrt = (nrtfn < 0) ? 0 : nrtfn;
 
+  /* Refuse a missing root function before anything is changed */
+  if ((nrt > 0) && (g == NULL)) {
+    cvProcessError(cv_mem, CV_ILL_INPUT, "CVODES", "CVodeRootInit",
+                   MSGCV_NULL_G);
+    return(CV_ILL_INPUT);
+  }
+
   /* If rerunning CVodeRootInit() with a different number of root
      functions (changing number of gfun components), then free
      currently held memory resources */
-- 
2.43.0

