From 9536320b1ff50ca6dac5ed2abb47c7b5946fa760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 001/140] fix: allow literal constants in checked input text on
 python >= 3.8

Since python 3.8 ast.parse yields ast.Constant for every literal, so
SyntaxChecker.allow_ast rejected any input text containing a number or a
string.
---
 geotecha/inputoutput/inputoutput.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index 3d4fc92..45259cb 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -280,6 +280,9 @@ class SyntaxChecker(ast.NodeVisitor):
             #py34_addtional
             Bytes NameConstant #Nonlocal Starred Try YieldFrom arg
             withitem
+
+            #py38_additional (replaces Num, Str, Bytes, NameConstant, Ellipsis)
+            Constant
             """)
 
         for v in [a for a in s.split() if not a.startswith('#')]:
-- 
2.43.0


From 0cb86717275f9deeffde60d406af91c89515a258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 002/140] fix: index with a tuple of slices in gk_quad and
 gl_quad

numpy no longer accepts a list as a multidimensional index.
---
 geotecha/mathematics/quadrature.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/mathematics/quadrature.py b/geotecha/mathematics/quadrature.py
index 0f56169..06d0424 100644
--- a/geotecha/mathematics/quadrature.py
+++ b/geotecha/mathematics/quadrature.py
@@ -1248,7 +1248,7 @@ def gk_quad(f, a, b, args=(), n=10, sum_intervals=False):
     #get shape of output with scalar argument and form a slice that will ensure
     #any extra dims are appended to the args.
     extra = np.array(f(xij.flat[0], *args))
-    gen_slice = [slice(None)] * xij.ndim + [None] * extra.ndim
+    gen_slice = tuple([slice(None)] * xij.ndim + [None] * extra.ndim)
 
     fij = f(xij[gen_slice], *args)
 
@@ -1332,7 +1332,7 @@ def gl_quad(f, a, b, args=(), n=10, shanks_ind=False, sum_intervals=False):
     #get shape of output with scalar argument and form a slice that will ensure
     #any extra dims are appended to the args.
     extra = np.array(f(xij.flat[0], *args))
-    gen_slice = [slice(None)] * xij.ndim + [None] * extra.ndim
+    gen_slice = tuple([slice(None)] * xij.ndim + [None] * extra.ndim)
 
     fij = f(xij[gen_slice], *args)
 
-- 
2.43.0


From 71c55c3f1ff003c8d73e99eddf8323e21dd46b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 003/140] fix: index with a tuple of slices in
 row_major_order_reverse_map

numpy no longer accepts a list as a multidimensional index.
---
 geotecha/plotting/one_d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/plotting/one_d.py b/geotecha/plotting/one_d.py
index aeb02c2..2dee22a 100644
--- a/geotecha/plotting/one_d.py
+++ b/geotecha/plotting/one_d.py
@@ -978,8 +978,8 @@ def row_major_order_reverse_map(shape, index_steps=None, transpose=False):
 
 
     pos=np.arange(np.product(shape)).reshape(shape)
-    a=[slice(None,None,i) for i in index_steps]
-    pos[...]=pos[a]
+    a=tuple(slice(None,None,i) for i in index_steps)
+    pos[...]=pos[a].copy()
 
     if transpose:
         return pos.T.flatten()
-- 
2.43.0


From d5787f2524ae9463b5c0d45d93ca32e031940dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:22 +0000
Subject: [PATCH 004/140] fix: use callable() in ntransform;
 collections.Callable was removed in python 3.10

---
 geotecha/mathematics/multi_transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/mathematics/multi_transform.py b/geotecha/mathematics/multi_transform.py
index 5afff1e..0daa2d3 100644
--- a/geotecha/mathematics/multi_transform.py
+++ b/geotecha/mathematics/multi_transform.py
@@ -148,7 +148,7 @@ def ntransform(func, transforms, transvars, args=None, opts=None):
     if isinstance(opts, dict):
         opts = [opts] * depth
     else:
-        opts = [opt if isinstance(opt, collections.Callable) else
+        opts = [opt if callable(opt) else
                 _OptFunc(opt) for opt in opts]
 
     return _NTransform(func, transforms,
-- 
2.43.0


From e69a037870a0296bf3bcf3047b97435b65501174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:22 +0000
Subject: [PATCH 005/140] fix: pass an integer number of points to linspace in
 layer_coords

---
 geotecha/piecewise/piecewise_linear_1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index 7a2e869..3a890a1 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -2919,7 +2919,7 @@ def layer_coords(h, segs, min_segs=1):
     z2 = np.cumsum(h)
     z1 = z2 - h
     dx = np.sum(h) / segs
-    num = [max(height//dx, min_segs) for height in h]
+    num = [int(max(height//dx, min_segs)) for height in h]
 
     zlist = [np.linspace(z1_, z2_, num_, endpoint=False) for (z1_, z2_, num_) in zip(z1, z2, num)]
     zlist.append([z2[-1]])
-- 
2.43.0


From 6a0f3db73a751e94da2f988606cd5063d13e4369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:22 +0000
Subject: [PATCH 006/140] fix: use Legend.set_draggable; Legend.draggable was
 removed from matplotlib

---
 geotecha/beam_on_foundation/dingetal2012.py   |  2 +-
 geotecha/beam_on_foundation/specbeam.py       | 68 +++++++++----------
 geotecha/consolidation/dengetal2013and2014.py |  8 +--
 geotecha/consolidation/luetal2010.py          |  2 +-
 geotecha/consolidation/shanetal2012.py        |  4 +-
 geotecha/consolidation/xieandleo2004.py       | 10 +--
 geotecha/constitutive_models/swcc.py          |  4 +-
 .../constitutive_models/void_ratio_stress.py  |  2 +-
 geotecha/plotting/one_d.py                    |  6 +-
 .../speccon/speccon1d_unsat_interactive.py    |  6 +-
 10 files changed, 56 insertions(+), 56 deletions(-)

diff --git a/geotecha/beam_on_foundation/dingetal2012.py b/geotecha/beam_on_foundation/dingetal2012.py
index 09a7b20..8eebbd7 100644
--- a/geotecha/beam_on_foundation/dingetal2012.py
+++ b/geotecha/beam_on_foundation/dingetal2012.py
@@ -481,7 +481,7 @@ def dingetal_figure_8():
             f.write("Run time={}".format(str(timedelta(seconds=elapsed_time))) + os.linesep)
         
         leg = ax.legend()
-        leg.draggable()
+        leg.set_draggable(True)
           
         end_time0 = time.time()
         elapsed_time = (end_time0 - start_time0); print("Total run time={}".format(str(timedelta(seconds=elapsed_time))))
diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 6c155bc..f31847c 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -1256,7 +1256,7 @@ class SpecBeam(object):
             ax.set_ylabel("w")
 
         leg = ax.legend()
-        leg.draggable()
+        leg.set_draggable(True)
 
 
         return ax
@@ -1842,7 +1842,7 @@ class MovingPointLoads(object):
         ax.set_ylabel("magnitude")
         leg = ax.legend(title ="$i,\\omega,\\phi$",
                         labelspacing=0)
-        leg.draggable(0)
+        leg.set_draggable(False)
 
         return ax
 
@@ -2353,7 +2353,7 @@ def dingetal_figure_8(v_nterms=(50,75,150,200)):
             f.write("Run time={}".format(str(timedelta(seconds=elapsed_time))) + os.linesep)
 
         leg = ax.legend()
-        leg.draggable()
+        leg.set_draggable(True)
 
         end_time0 = time.time()
         elapsed_time = (end_time0 - start_time0); print("Total run time={}".format(str(timedelta(seconds=elapsed_time))))
@@ -2544,7 +2544,7 @@ def SpecBeam_const_mat_midpoint_defl_runme_analytical_play():
                 color='red', marker='s', ms=4, ls=':')
 
         leg = ax.legend(loc='upper left')
-        leg.draggable()
+        leg.set_draggable(True)
 
         plt.show()
 
@@ -2909,7 +2909,7 @@ def FIGURE_verify_against_DingEtAl2012_fig8(v_nterms=(50,75,150,200), saveas=Non
 
 
 #        leg = ax.legend()
-#        leg.draggable()
+#        leg.set_draggable(True)
 
         end_time0 = time.time()
         elapsed_time = (end_time0 - start_time0); print("Total run time={}".format(str(timedelta(seconds=elapsed_time))))
@@ -3022,7 +3022,7 @@ def FIGURE_convergence_step_change(v_nterms=(50,75,150,200),saveas=None):
 
 
 #        leg = ax.legend()
-#        leg.draggable()
+#        leg.set_draggable(True)
 
         end_time0 = time.time()
         elapsed_time = (end_time0 - start_time0); print("Total run time={}".format(str(timedelta(seconds=elapsed_time))))
@@ -3154,7 +3154,7 @@ def FIGURE_defl_envelope_vary_velocity(velocities_norm=(0.01165,),saveas=None,nt
                         handlelength=2,
                         fontsize=8
                         )
-        leg.draggable()
+        leg.set_draggable(True)
 
         ax.xaxis.labelpad = -1
         ax.yaxis.labelpad = 0
@@ -3163,7 +3163,7 @@ def FIGURE_defl_envelope_vary_velocity(velocities_norm=(0.01165,),saveas=None,nt
 
 
 #        leg = ax.legend()
-#        leg.draggable()
+#        leg.set_draggable(True)
 
         end_time0 = time.time()
         elapsed_time = (end_time0 - start_time0); print("Total run time={}".format(str(timedelta(seconds=elapsed_time))))
@@ -3367,7 +3367,7 @@ def FIGURE_DAF_constant_prop(saveas=None,nterms=100,force_calc=True,prefix="",
                         handlelength=2,
                         fontsize=8
                         )
-        leg.draggable()
+        leg.set_draggable(True)
 
         ax.xaxis.labelpad = -1
         ax.yaxis.labelpad = 0
@@ -3519,7 +3519,7 @@ def FIGURE_DAF_transition_length(saveas=None,k_ratio=4,beta=0.1,nterms=100,force
 #                        handlelength=2,
 #                        fontsize=8
 #                        )
-#        leg.draggable()
+#        leg.set_draggable(True)
 
         ax.xaxis.labelpad = -1
         ax.yaxis.labelpad = 0
@@ -3703,7 +3703,7 @@ def FIGURE_DAF_transition_length_esveld(saveas=None,k_ratio=4,beta=0.1,nterms=10
                         handlelength=2,
                         fontsize=8
                         )
-        leg.draggable()
+        leg.set_draggable(True)
 
         ax.xaxis.labelpad = -1
         ax.yaxis.labelpad = 0
@@ -3883,7 +3883,7 @@ def FIGURE_DAFwrtinf_transition_length(saveas=None,k_ratio=4,beta=0.1,nterms=100
                         handlelength=2,
                         fontsize=8
                         )
-        leg.draggable()
+        leg.set_draggable(True)
         ax2.xaxis.labelpad = -1
         ax2.yaxis.labelpad = 0
         fig2.subplots_adjust(**adjust)
@@ -3910,7 +3910,7 @@ def FIGURE_DAFwrtinf_transition_length(saveas=None,k_ratio=4,beta=0.1,nterms=100
                         handlelength=2,
                         fontsize=8
                         )
-        leg.draggable()
+        leg.set_draggable(True)
 
         ax.xaxis.labelpad = -1
         ax.yaxis.labelpad = 0
@@ -4092,7 +4092,7 @@ def FIGURE_DAFwrtinf_transition_lengthrev(saveas=None,k_ratio=4,beta=0.1,nterms=
                         handlelength=2,
                         fontsize=8
                         )
-        leg.draggable()
+        leg.set_draggable(True)
         ax2.xaxis.labelpad = -1
         ax2.yaxis.labelpad = 0
         fig2.subplots_adjust(**adjust)
@@ -4119,7 +4119,7 @@ def FIGURE_DAFwrtinf_transition_lengthrev(saveas=None,k_ratio=4,beta=0.1,nterms=
                         handlelength=2,
                         fontsize=8
                         )
-        leg.draggable()
+        leg.set_draggable(True)
 
         ax.xaxis.labelpad = -1
         ax.yaxis.labelpad = 0
@@ -4320,7 +4320,7 @@ def FIGURE_DAFwrtinf_transition_length_betaconst(saveas=None,k_ratio=4,beta=0.1,
                         handlelength=2,
                         fontsize=8
                         )
-        leg.draggable()
+        leg.set_draggable(True)
         ax2.xaxis.labelpad = -1
         ax2.yaxis.labelpad = 0
         fig2.subplots_adjust(**adjust)
@@ -4347,7 +4347,7 @@ def FIGURE_DAFwrtinf_transition_length_betaconst(saveas=None,k_ratio=4,beta=0.1,
                         handlelength=2,
                         fontsize=8
                         )
-        leg.draggable()
+        leg.set_draggable(True)
 
         ax.xaxis.labelpad = -1
         ax.yaxis.labelpad = 0
@@ -4498,7 +4498,7 @@ def esveld_fig6p18():
             DAF[i] = mx
         ax.plot(alpha, DAF, label="$\\beta=" + str(bet) + "$")
     leg = ax.legend()
-    leg.draggable()
+    leg.set_draggable(True)
     ax.set_ylim([0,4])
     ax.set_xlim([0,3])
     ax.grid()
@@ -7024,13 +7024,13 @@ def case_study_PaixaoEtAl2014(
 #                        handlelength=2,
 #                        fontsize=8
 #                        )
-#        leg.draggable()
+#        leg.set_draggable(True)
         ax.xaxis.labelpad = -1
         ax.yaxis.labelpad = 0
         ax.set_xlim(50, -5)
         leg = ax.legend(fontsize=8,
                         loc='upper left')
-        leg.draggable()
+        leg.set_draggable(True)
         fig.subplots_adjust(top=0.95, bottom=0.13, left=0.19, right=0.9)
         ####################
         #Kplot
@@ -7048,12 +7048,12 @@ def case_study_PaixaoEtAl2014(
 
             leg = axs[i].legend(fontsize=8,
                     loc='lower left')
-            leg.draggable()
+            leg.set_draggable(True)
 
         leg = ax2.legend(fontsize=8,
                         loc='upper left',
                         numpoints=1)
-        leg.draggable()
+        leg.set_draggable(True)
 
         #displacemetn vs tiem at points plot
         ###################
@@ -7068,7 +7068,7 @@ def case_study_PaixaoEtAl2014(
                         handlelength=2,
                         fontsize=8
                         )
-#        leg.draggable()
+#        leg.set_draggable(True)
         ax3.xaxis.labelpad = -1
         ax3.yaxis.labelpad = 0
 
@@ -7340,7 +7340,7 @@ def transition_DAF1_at_specific_alp(saveas=None,
         elapsed_time = (end_time1 - start_time1); print("Run time={}".format(str(timedelta(seconds=elapsed_time))))
 
     leg = ax.legend()
-    leg.draggable()
+    leg.set_draggable(True)
     leg = ax.legend(
 #                    title="$\\beta$",
 #                    loc="upper center",
@@ -7937,7 +7937,7 @@ def transition_zones1(
                     fontsize=8,
                     numpoints=1,
                         )
-    leg.draggable()
+    leg.set_draggable(True)
 
     ax2.xaxis.labelpad = -1
     ax2.yaxis.labelpad = 0
@@ -7960,7 +7960,7 @@ def transition_zones1(
                     fontsize=8,
                     numpoints=1,
                     loc="center left",)
-        leg.draggable()
+        leg.set_draggable(True)
 
     ax5.set_xlabel('$Time (s)$')
     ax5.set_ylabel('$w/w_{static1}$')
@@ -7972,7 +7972,7 @@ def transition_zones1(
                 numpoints=1,
                 loc="lower right",)
 
-    leg.draggable()
+    leg.set_draggable(True)
     fig5.subplots_adjust(top=0.95, bottom=0.13, left=0.15, right=0.95)
     if not saveas is None:
 
@@ -8407,7 +8407,7 @@ def transition_zones2(animateme=False,
                     fontsize=8,
                     numpoints=1,
                         )
-    leg.draggable()
+    leg.set_draggable(True)
 
     ax2.xaxis.labelpad = -1
     ax2.yaxis.labelpad = 0
@@ -8427,7 +8427,7 @@ def transition_zones2(animateme=False,
                     handlelength=2,
                     fontsize=8,
                     numpoints=1)
-        leg.draggable()
+        leg.set_draggable(True)
 
     ax5.set_xlabel('$time$')
     ax5.set_ylabel('$w/w_{static1}$')
@@ -8438,7 +8438,7 @@ def transition_zones2(animateme=False,
                 fontsize=8,
                 numpoints=1)
 
-    leg.draggable()
+    leg.set_draggable(True)
 
 
     for i, alp in enumerate(alphas):
@@ -8501,7 +8501,7 @@ def transition_zones2(animateme=False,
                      handletextpad=0.1,
                      borderpad=0.2,
                      columnspacing=0.2)
-    leg.draggable()
+    leg.set_draggable(True)
 #        for k, Lt_Lcs in enumerate(Lt_Lcs):
     fig6.subplots_adjust(top=0.98, bottom=0.15, left=0.18, right=0.98)
 
@@ -8817,7 +8817,7 @@ def FIG_DAF_envelope_vary_beta(ax=None, betas=None, alphas=None,
                     fontsize=8,
                     numpoints=1,
                         )
-    leg.draggable()
+    leg.set_draggable(True)
 
     ax.xaxis.labelpad = -1
     ax.yaxis.labelpad = 0
@@ -8975,7 +8975,7 @@ def specbeam_vs_analytical_single_static_load():
     ax.set_title('Single static load at beam midpoint')
 
     leg = ax.legend()
-    leg.draggable()
+    leg.set_draggable(True)
 
     mytimer.finish(0)
     plt.show()
@@ -9600,7 +9600,7 @@ if __name__ == "__main__":
                 f.write("Run time={}".format(str(timedelta(seconds=elapsed_time))) + os.linesep)
 
             leg = ax.legend()
-            leg.draggable()
+            leg.set_draggable(True)
 
             end_time0 = time.time()
             elapsed_time = (end_time0 - start_time0); print("Total run time={}".format(str(timedelta(seconds=elapsed_time))))
diff --git a/geotecha/consolidation/dengetal2013and2014.py b/geotecha/consolidation/dengetal2013and2014.py
index 0f5107c..089da9d 100644
--- a/geotecha/consolidation/dengetal2013and2014.py
+++ b/geotecha/consolidation/dengetal2013and2014.py
@@ -371,7 +371,7 @@ if __name__ == "__main__":
             plt.plot(x,y, label=key, marker='s', linestyle='None')
 
         leg = plt.legend(loc=3 )
-        leg.draggable()
+        leg.set_draggable(True)
         plt.gca().set_xlabel('Pore pressure')
         plt.gca().set_ylabel('Depth')
         plt.gca().invert_yaxis()
@@ -456,7 +456,7 @@ if __name__ == "__main__":
             plt.plot(x,y, label=key, marker='s', linestyle='None')
 
         leg = plt.legend(loc=3 )
-        leg.draggable()
+        leg.set_draggable(True)
         plt.gca().set_xlabel('Pore pressure')
         plt.gca().set_ylabel('Depth')
         plt.gca().invert_yaxis()
@@ -519,7 +519,7 @@ if __name__ == "__main__":
             plt.plot(x,y, label=key, marker='s', linestyle='None')
 
         leg = plt.legend(loc=3 )
-        leg.draggable()
+        leg.set_draggable(True)
         plt.gca().set_xlabel('Pore pressure')
         plt.gca().set_ylabel('Depth')
         plt.gca().invert_yaxis()
@@ -671,7 +671,7 @@ if __name__ == "__main__":
             plt.plot(x,y, label=key, marker='s', linestyle='None', markersize=7)
 
         leg = plt.legend(loc=3 )
-        leg.draggable()
+        leg.set_draggable(True)
         plt.gca().set_xlabel('Pore pressure')
         plt.gca().set_ylabel('Depth')
         plt.gca().invert_yaxis()
diff --git a/geotecha/consolidation/luetal2010.py b/geotecha/consolidation/luetal2010.py
index ec9215e..6515481 100644
--- a/geotecha/consolidation/luetal2010.py
+++ b/geotecha/consolidation/luetal2010.py
@@ -238,7 +238,7 @@ if __name__ == '__main__':
         ax.set_xlim(0,1)
         ax.grid()
         leg = plt.legend(loc=3 )
-        leg.draggable()
+        leg.set_draggable(True)
 
     fig=plt.figure()
     ax = fig.add_subplot(1,1,1)
diff --git a/geotecha/consolidation/shanetal2012.py b/geotecha/consolidation/shanetal2012.py
index 9733f67..e3e5cc1 100644
--- a/geotecha/consolidation/shanetal2012.py
+++ b/geotecha/consolidation/shanetal2012.py
@@ -566,7 +566,7 @@ if __name__ == '__main__':
         ax.grid()
         ax.set_title(title)
         leg = plt.legend(loc=3 )
-        leg.draggable()
+        leg.set_draggable(True)
 
 
 
@@ -581,7 +581,7 @@ if __name__ == '__main__':
     ax.grid()
     ax.set_title(title)
     leg = plt.legend(loc=3 )
-    leg.draggable()
+    leg.set_draggable(True)
 
 
 
diff --git a/geotecha/consolidation/xieandleo2004.py b/geotecha/consolidation/xieandleo2004.py
index b6faeec..09e72c3 100644
--- a/geotecha/consolidation/xieandleo2004.py
+++ b/geotecha/consolidation/xieandleo2004.py
@@ -978,7 +978,7 @@ class XieAndLeo2004(object):
         ax.set_xscale('log')
         ax.grid()
         leg = plt.legend(loc=3 )
-        leg.draggable()
+        leg.set_draggable(True)
 
         #u vs depth
         ax = fig.add_subplot(2,4,2)
@@ -1005,7 +1005,7 @@ class XieAndLeo2004(object):
                          ncol=len(t))
 
 
-        leg.draggable()
+        leg.set_draggable(True)
 
         #total pore pressure vs depth
         ax = fig.add_subplot(2,4,6)
@@ -1191,7 +1191,7 @@ def xie_and_leo_2004_figure_4(ax=None):
         label='$U_s={Us:6.3g},\hspace{{0.5}}T_v={Tv:6.3g},\hspace{{0.5}}'
          't={t:6.3g}$'.format(Tv=obj.dTv*t_, t=t_, Us=Us_))
     leg = ax.legend(loc=1, labelspacing=0.0, fontsize=11)
-    leg.draggable()
+    leg.set_draggable(True)
     return
 
 
@@ -1248,7 +1248,7 @@ def xie_and_leo_2004_figure_5(ax=None):
         label='$U_s={Us:6.3g},\hspace{{0.5}}T_v={Tv:6.3g},\hspace{{0.5}}'
          't={t:6.3g}$'.format(Tv=obj.dTv*t_, t=t_, Us=Us_))
     leg = ax.legend(loc=1, labelspacing=0.0, fontsize=11)
-    leg.draggable()
+    leg.set_draggable(True)
     return
 
 
@@ -1344,7 +1344,7 @@ def xie_and_leo_2004_figure_6(ax=None):
 
 
     leg = ax.legend(lines, labels,loc=1, labelspacing=0.0, fontsize=12)
-    leg.draggable()
+    leg.set_draggable(True)
 
 
 
diff --git a/geotecha/constitutive_models/swcc.py b/geotecha/constitutive_models/swcc.py
index ed8d9d6..56ab512 100644
--- a/geotecha/constitutive_models/swcc.py
+++ b/geotecha/constitutive_models/swcc.py
@@ -223,7 +223,7 @@ class SWCC_FredlundAndXing1994(SWCC):
             ax.set_xlabel('$\\psi$')
             ax.set_ylabel('$dw/d\\psi$')
         leg = ax.legend(loc=4)
-        leg.draggable()
+        leg.set_draggable(True)
 #            print(np.isclose(slope_a, slope_n))
 #            print(slope_a-slope_n)
         plt.show()
@@ -595,7 +595,7 @@ class SWCC_PhamAndFredlund2008(SWCC):
             ax.set_xlabel('$\\psi$')
             ax.set_ylabel('$dw/d\\psi$')
         leg = ax.legend(loc=4)
-        leg.draggable()
+        leg.set_draggable(True)
 #            print(np.isclose(slope_a, slope_n))
 #            print(slope_a-slope_n)
         plt.show()
diff --git a/geotecha/constitutive_models/void_ratio_stress.py b/geotecha/constitutive_models/void_ratio_stress.py
index a914f02..413b1d3 100644
--- a/geotecha/constitutive_models/void_ratio_stress.py
+++ b/geotecha/constitutive_models/void_ratio_stress.py
@@ -2083,5 +2083,5 @@ if __name__ == '__main__':
         plt.plot(estress, e, label='step', marker='o', ms=2)
         plt.gca().set_xscale('log')
         leg = plt.gca().legend()
-        leg.draggable()
+        leg.set_draggable(True)
         plt.show()
\ No newline at end of file
diff --git a/geotecha/plotting/one_d.py b/geotecha/plotting/one_d.py
index 2dee22a..d896d4e 100644
--- a/geotecha/plotting/one_d.py
+++ b/geotecha/plotting/one_d.py
@@ -1443,7 +1443,7 @@ def plot_generic_loads(load_triples, load_names, ylabels=None,
 
         if has_legend:
             leg = ax1[-1].legend(**legend_prop)
-            leg.draggable(True)
+            leg.set_draggable(True)
             plt.setp(leg.get_title(),fontsize=legend_prop['fontsize'])
         #load_vs_depth plot stuff
 
@@ -1586,7 +1586,7 @@ def plot_vs_time(t, y, line_labels=None, prop_dict={}):
 
     if has_legend:
         leg = fig.gca().legend(**legend_prop)
-        leg.draggable(True)
+        leg.set_draggable(True)
         plt.setp(leg.get_title(),fontsize=legend_prop['fontsize'])
     return fig
 
@@ -1962,7 +1962,7 @@ def plot_vs_depth(x, z, line_labels=None, H = 1.0, RLzero=None,
 
     if has_legend:
         leg = fig.gca().legend(**legend_prop)
-        leg.draggable(True)
+        leg.set_draggable(True)
         plt.setp(leg.get_title(),fontsize=legend_prop['fontsize'])
     return fig
 
diff --git a/geotecha/speccon/speccon1d_unsat_interactive.py b/geotecha/speccon/speccon1d_unsat_interactive.py
index 141d476..cce28d5 100644
--- a/geotecha/speccon/speccon1d_unsat_interactive.py
+++ b/geotecha/speccon/speccon1d_unsat_interactive.py
@@ -222,7 +222,7 @@ figure_ext='.png'
         ax.set_xlim(0)
         ax.grid()
         leg = plt.legend(loc=3 )
-        leg.draggable()
+        leg.set_draggable(True)
 
         fig = plt.figure()
         ax=fig.add_subplot('111')
@@ -234,7 +234,7 @@ figure_ext='.png'
         ax.set_xlim(0)
         ax.grid()
         leg = plt.legend(loc=3 )
-        leg.draggable()
+        leg.set_draggable(True)
 
 
         fig = plt.figure()
@@ -247,7 +247,7 @@ figure_ext='.png'
         ax.set_xlim(0)
         ax.grid()
         leg = plt.legend(loc=3 )
-        leg.draggable()
+        leg.set_draggable(True)
         plt.show()
 
 
-- 
2.43.0


From b15ef57d2c29cd4f7a425beb216b3426ac59986d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 007/140] fix: is_initially_increasing with repeated leading
 values

The index of the first change was compared with zero instead of the change
itself, so e.g. [1, 1, 0] was reported as initially increasing.
---
 geotecha/piecewise/piecewise_linear_1d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index 3a890a1..1d1beef 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -72,8 +72,8 @@ def is_initially_increasing(x):
     # until x[i+1]!=x[i]
     if x[1] != x[0]:
         return x[1] > x[0]
-    x = np.asarray(x)
-    return np.where(np.diff(x) != 0)[0][0] > 0
+    dx = np.diff(np.asarray(x))
+    return dx[np.where(dx != 0)[0][0]] > 0
 
 
 #used info from http://stackoverflow.com/questions/4983258/python-how-to-check-list-monotonicity
-- 
2.43.0


From 7bff555a19bb9a48482ac235759619d2a729bc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 008/140] fix: adding a number to, or subtracting one from, a
 PolyLine altered the PolyLine

The in-place operator changed the y values of the operand as well.
---
 geotecha/piecewise/piecewise_linear_1d.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index 1d1beef..f0a7973 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -2468,9 +2468,6 @@ class PolyLine(object):
     def _add_substract(self, other, op = operator.add):
         """Addition or subtraction of PolyLine objects"""
 
-        mp = {operator.add: operator.iadd, operator.sub: operator.isub}
-        iop = mp[op]
-
         if isinstance(other, PolyLine):
 
             if ((not (non_increasing(self.x) or non_decreasing(self.x))) or
@@ -2552,7 +2549,7 @@ class PolyLine(object):
 
 
         try:
-            return PolyLine(self.x, iop(self.y, other))
+            return PolyLine(self.x, op(self.y, other))
 #            a = copy.deepcopy(self)
 #            #a._xy[:,1] += other
 #
-- 
2.43.0


From d43528dbd99560bf267773095be1a552a9b6a44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 009/140] fix: force_strictly_increasing altered the caller's
 array

Integer x data was not adjusted at all.
---
 geotecha/piecewise/piecewise_linear_1d.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index f0a7973..5eac557 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -285,6 +285,7 @@ def force_strictly_increasing(x, y = None, keep_end_points = True, eps = 1e-15):
         d = 1
         dx = np.arange(1, len(steps) + 1) * f
 
+    x = np.array(x, dtype=float)
     x[steps + d] = x[steps + d] + dx
     return x, y
 
-- 
2.43.0


From fc090884d530f558145aece3aeaca3852e26d4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 010/140] fix: assigning to a name whitelisted it as an
 attribute in SyntaxChecker

'__class__ = 1' made '(1).__class__' pass the checker.
---
 geotecha/inputoutput/inputoutput.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index 45259cb..6c012fa 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -159,6 +159,7 @@ class SyntaxChecker(ast.NodeVisitor):
         self.allowed_functions = dict()
         self.allowed_node_types = dict()
         self.allowed_attributes = set()
+        self.assigned_names = set()
         self.safe_names = {'True': True, 'False': False, 'None': None}#dict()
         self.print_each_node = False
         for v in allow:
@@ -192,9 +193,9 @@ class SyntaxChecker(ast.NodeVisitor):
             print('NAME: ', ast.dump(node))
 
         if type(node.ctx).__name__=='Store':
-            self.allowed_attributes.add(node.id)
+            self.assigned_names.add(node.id)
         elif type(node.ctx).__name__=='Load':
-            if node.id not in self.safe_names and node.id not in self.allowed_functions and node.id not in self.allowed_attributes:
+            if node.id not in self.safe_names and node.id not in self.allowed_functions and node.id not in self.allowed_attributes and node.id not in self.assigned_names:
                 raise SyntaxError("cannot use {} as name, function, or attribute!".format(node.id))
                 sys.exit(0)
         ast.NodeVisitor.generic_visit(self, node)#
-- 
2.43.0


From f7de530aa82ab7ac74ebced43c0e12e27b32a2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 011/140] fix: error messages of the subdivide functions raised
 TypeError instead of ValueError

A string and an array were concatenated.
---
 geotecha/piecewise/piecewise_linear_1d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index 5eac557..7db33a5 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -2720,13 +2720,13 @@ def subdivide_x_y_into_segments(x, y, dx=None, min_segments = 2,
         x[np.abs(x) <= (atol + rtol * np.abs(x))] = logxzero
         if np.any(x<0):
             raise ValueError('When logx=True cannot have negative '
-                                'x values, x=' + x)
+                                'x values, x={}'.format(x))
         x = np.log10(x)
     if logy:
         y[np.abs(y) <= (atol + rtol * np.abs(y))] = logyzero
         if np.any(y<0):
             raise ValueError('When logy=True cannot have negative '
-                                'y values, y=' + x)
+                                'y values, y={}'.format(y))
         y = np.log10(y)
 
 
@@ -2839,7 +2839,7 @@ def subdivide_x_into_segments(x, dx=None, min_segments=2,
         x[np.abs(x) <= (atol + rtol * np.abs(x))] = logxzero
         if np.any(x<0):
             raise ValueError('When logx=True cannot have negative '
-                                'x values, x=' + x)
+                                'x values, x={}'.format(x))
         x = np.log10(x)
 
 
-- 
2.43.0


From e2e235b1916f2862fb844df17c853bffa67c9dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 012/140] fix: subdivide functions replaced zeros in the
 caller's array when logx or logy

---
 geotecha/piecewise/piecewise_linear_1d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index 7db33a5..58057bf 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -2709,8 +2709,8 @@ def subdivide_x_y_into_segments(x, y, dx=None, min_segments = 2,
     """
 
 
-    x = np.asarray(x, dtype=float)
-    y = np.asarray(y, dtype=float)
+    x = np.array(x, dtype=float)
+    y = np.array(y, dtype=float)
 
 
     if len(x)!=len(y):
@@ -2831,7 +2831,7 @@ def subdivide_x_into_segments(x, dx=None, min_segments=2,
     """
 
 
-    x = np.asarray(x, dtype=float)
+    x = np.array(x, dtype=float)
 
 
 
-- 
2.43.0


From 3624d0ed0563757f0f187b571eecee4124a91692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 013/140] fix: start indices of constants and steps were wrong
 with coincident points

np.delete was given indexes into x instead of positions in the array of
indexes, so a wrong index was removed, or IndexError raised, whenever two
consecutive points were identical.
---
 geotecha/piecewise/piecewise_linear_1d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index 58057bf..a1f0f35 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -370,7 +370,7 @@ def start_index_of_constants(x, y):
     y = np.asarray(y)
 
 
-    return np.delete(np.where(np.diff(y)==0)[0], np.where((np.diff(x)==0) & (np.diff(y)==0))[0])
+    return np.where((np.diff(y)==0) & (np.diff(x)!=0))[0]
 
 
 def start_index_of_steps(x, y):
@@ -398,7 +398,7 @@ def start_index_of_steps(x, y):
     y = np.asarray(y)
 
 
-    return np.delete(np.where(np.diff(x)==0)[0], np.where((np.diff(x)==0) & (np.diff(y)==0))[0])
+    return np.where((np.diff(x)==0) & (np.diff(y)!=0))[0]
 
 
 def segment_containing_xi(x, xi, subset=None, choose_max=False):
-- 
2.43.0


From c52e5e536809e7585f36efa0b6528fcacaab20c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 014/140] fix: adding PolyLines and making x common failed
 where a value was interpolated

A one element array was stored among numbers; numpy no longer makes an array
of such a list.
---
 geotecha/piecewise/piecewise_linear_1d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index a1f0f35..146477b 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -2526,7 +2526,7 @@ class PolyLine(object):
                     y1 = data[j[0], 1]
                     y1_= data[j[-1],1]
                 else: #interpolate
-                    y1 = interp_x_y(xa, ya, x, choose_max=False)
+                    y1 = interp_x_y(xa, ya, x, choose_max=False)[0]
                     y1_= y1
 
                 j = np.where((ind) & (data[:, 2] == 1))[0]
@@ -2535,7 +2535,7 @@ class PolyLine(object):
                     y2 = data[j[0], 1]
                     y2_= data[j[-1],1]
                 else: #interpolate
-                    y2 = interp_x_y(xb, yb, x, choose_max=False)
+                    y2 = interp_x_y(xb, yb, x, choose_max=False)[0]
                     y2_= y2
 
                 y = op(y1, y2)
@@ -2634,7 +2634,7 @@ def polyline_make_x_common(*p_lines):
                 y1 = data[j[0], 1]
                 y1_= data[j[-1],1]
             else: #interpolate
-                y1 = interp_x_y(xa[k], ya[k], x, choose_max=False)
+                y1 = interp_x_y(xa[k], ya[k], x, choose_max=False)[0]
                 y1_= y1
             pnts[k].append([x,y1])
             if abs(y1 - y1_)> (atol + rtol * abs(y1_)):
-- 
2.43.0


From 3c50d7f70867586dc3af2005e54a162a4b9ae9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 015/140] fix: repeated eigenvalues in speccon1d_vr/vrw must
 not become complex pairs

---
 geotecha/speccon/speccon1d_vr.py  | 5 +++++
 geotecha/speccon/speccon1d_vrw.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/geotecha/speccon/speccon1d_vr.py b/geotecha/speccon/speccon1d_vr.py
index 207475b..147b4c0 100644
--- a/geotecha/speccon/speccon1d_vr.py
+++ b/geotecha/speccon/speccon1d_vr.py
@@ -26,6 +26,7 @@ from __future__ import division, print_function
 import geotecha.plotting.one_d #import MarkersDashesColors as MarkersDashesColors
 import time
 import numpy as np
+import scipy.linalg
 import matplotlib
 import matplotlib.pyplot as plt
 
@@ -812,6 +813,10 @@ class Speccon1dVR(speccon1d.Speccon1d):
         Igam_psi = np.dot(np.linalg.inv(self.gam), self.psi)
 
         self.eigs, self.v = np.linalg.eig(Igam_psi)
+        if np.iscomplexobj(self.eigs):
+            #gam and psi are symmetric so the eigenvalues are real; round off
+            #can make repeated eigenvalues come out as complex pairs.
+            self.eigs, self.v = scipy.linalg.eigh(self.psi, self.gam)
 
         self.Igamv = np.linalg.inv(np.dot(self.gam, self.v))
         return
diff --git a/geotecha/speccon/speccon1d_vrw.py b/geotecha/speccon/speccon1d_vrw.py
index 6025bd2..bcf1bf2 100644
--- a/geotecha/speccon/speccon1d_vrw.py
+++ b/geotecha/speccon/speccon1d_vrw.py
@@ -25,6 +25,7 @@ from __future__ import division, print_function
 import geotecha.plotting.one_d #import MarkersDashesColors as MarkersDashesColors
 import time
 import numpy as np
+import scipy.linalg
 import matplotlib
 import matplotlib.pyplot as plt
 
@@ -856,6 +857,10 @@ class Speccon1dVRW(speccon1d.Speccon1d):
         Igam_psi = np.dot(np.linalg.inv(self.gam), self.psi)
 
         self.eigs, self.v = np.linalg.eig(Igam_psi)
+        if np.iscomplexobj(self.eigs):
+            #gam and psi are symmetric so the eigenvalues are real; round off
+            #can make repeated eigenvalues come out as complex pairs.
+            self.eigs, self.v = scipy.linalg.eigh(self.psi, self.gam)
 
         self.v = np.asarray(self.v)
         self.Igamv = np.linalg.inv(np.dot(self.gam, self.v))
-- 
2.43.0


From 9bfadccd66fef8592ce3d18682cc2a421f1d3436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 016/140] fix: boundary homogenising term must take the value
 after a step like the rest of the solution

---
 geotecha/speccon/speccon1d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/speccon/speccon1d.py b/geotecha/speccon/speccon1d.py
index 9cf48ea..6032fec 100644
--- a/geotecha/speccon/speccon1d.py
+++ b/geotecha/speccon/speccon1d.py
@@ -2134,7 +2134,7 @@ def dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(drn,
             if not theta_zero_indexes is None:
                 theta[theta_zero_indexes] = 0.0
             for top_vs_t, om_ph in zip(top_vs_time, top_omega_phase):
-                E = pwise.pinterp_x_y(top_vs_t, tvals)
+                E = pwise.pinterp_x_y(top_vs_t, tvals, choose_max=True)
                 if not om_ph is None:
                     omega, phase = om_ph
                     E*= np.cos(omega * tvals + phase)
@@ -2148,7 +2148,7 @@ def dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(drn,
             if not theta_zero_indexes is None:
                 theta[theta_zero_indexes] = 0.0
             for bot_vs_t, om_ph in zip(bot_vs_time, bot_omega_phase):
-                E = pwise.pinterp_x_y(bot_vs_t, tvals)
+                E = pwise.pinterp_x_y(bot_vs_t, tvals, choose_max=True)
                 if not om_ph is None:
                     omega, phase = om_ph
                     E*= np.cos(omega * tvals + phase)
-- 
2.43.0


From 9ad06f120a96542a06070849366853deb6aa1f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 017/140] fix: drain pore pressure uses the normalised bottom
 boundary and dT scaled permeability

---
 geotecha/speccon/speccon1d_vrw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/speccon/speccon1d_vrw.py b/geotecha/speccon/speccon1d_vrw.py
index bcf1bf2..ff32392 100644
--- a/geotecha/speccon/speccon1d_vrw.py
+++ b/geotecha/speccon/speccon1d_vrw.py
@@ -1099,7 +1099,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
                             self.v_E_Igamv_the[:, self.ppress_z_tval_indexes])
         self.porwell = speccon1d.dim1sin_f(self.m, self.ppress_z, tvals,
                                v_E_Igamv_the, self.drn,
-                               self.top_vs_time, self.bot_vs_time,
+                               self.top_vs_time, bot_vs_time,
                                self.top_omega_phase, self.bot_omega_phase)
 
 
@@ -1111,7 +1111,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
 
         #TODO: not entirely sure about dTw.  I think it is needed for the
         # theta cv part.
-        self.porwell += self.dTw * speccon1d.dim1sin_f(self.m, self.ppress_z,
+        self.porwell += self.dTw / self.dT * speccon1d.dim1sin_f(self.m, self.ppress_z,
                                             tvals, v_E_Igamv_the, self.drn)
         return
 
-- 
2.43.0


From c4f9aa1dbd98444f507c880668e0a175b2a9f0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 018/140] fix: stone column boundary terms follow the coupled
 flow equations

---
 geotecha/speccon/speccon1d_vrc.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/geotecha/speccon/speccon1d_vrc.py b/geotecha/speccon/speccon1d_vrc.py
index acd25b2..dc9128b 100644
--- a/geotecha/speccon/speccon1d_vrc.py
+++ b/geotecha/speccon/speccon1d_vrc.py
@@ -1035,7 +1035,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
                 self.E_Igamv_the_BC += (self.dTvc *
                     speccon1d.dim1sin_E_Igamv_the_BC_D_aDf_linear(
                         self.drn, self.m, self.eigs, self.tvals,
-                        self.Igamv.dot(np.identity(self.neig, dtype=float)-G),
+                        self.Igamv.dot(G),
                         self.kvc, self.top_vs_time,
                         bot_vs_time, self.top_omega_phase,
                         self.bot_omega_phase, self.dT,
@@ -1090,7 +1090,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
                     self.kvc, self.top_vs_time, bot_vs_time,
                     self.top_omega_phase, self.bot_omega_phase)
             self.pors += speccon1d.dim1sin_f(self.m, self.ppress_z,
-                                             tvals, a+b, self.drn)
+                                             tvals, a-b, self.drn)
 
         #column pore pressure at depth
         self.porc = speccon1d.dim1sin_f(self.m, self.ppress_z,
@@ -1112,7 +1112,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
                     self.kvc, self.top_vs_time, bot_vs_time,
                     self.top_omega_phase, self.bot_omega_phase)
             self.porc += speccon1d.dim1sin_f(self.m, self.ppress_z,
-                                             tvals, a+b, self.drn)
+                                             tvals, a-b, self.drn)
         return
 
 
@@ -1163,7 +1163,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
                     self.kvc, self.top_vs_time, bot_vs_time,
                     self.top_omega_phase, self.bot_omega_phase)
             self.avps += speccon1d.dim1sin_avgf(self.m, self.avg_ppress_z_pairs,
-                                             tvals, a+b, self.drn)
+                                             tvals, a-b, self.drn)
 
         #column pore pressure at depth
         self.avpc = speccon1d.dim1sin_avgf(self.m, self.avg_ppress_z_pairs,
@@ -1185,7 +1185,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
                     self.kvc, self.top_vs_time, bot_vs_time,
                     self.top_omega_phase, self.bot_omega_phase)
             self.avpc += speccon1d.dim1sin_avgf(self.m, self.avg_ppress_z_pairs,
-                                             tvals, a+b, self.drn)
+                                             tvals, a-b, self.drn)
 
 
         return
-- 
2.43.0


From ec677dca76a7553bb5ee074afd8e8a52a0028582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:27 +0000
Subject: [PATCH 019/140] fix: scale the stone column boundary terms in
 pors/porc/avps/avpc by dT

---
 geotecha/speccon/speccon1d_vrc.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/geotecha/speccon/speccon1d_vrc.py b/geotecha/speccon/speccon1d_vrc.py
index dc9128b..e65a3a7 100644
--- a/geotecha/speccon/speccon1d_vrc.py
+++ b/geotecha/speccon/speccon1d_vrc.py
@@ -1077,13 +1077,13 @@ class Speccon1dVRC(speccon1d.Speccon1d):
             self.drn, self.top_vs_time, bot_vs_time,
             self.top_omega_phase, self.bot_omega_phase)
         if not self.top_vs_time is None or not self.bot_vs_time is None:
-            a = self.dTv * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
+            a = self.dTv / self.dT * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
                     self.drn, self.m, self.eigs,
                     tvals,
                     (self.bet01 + self.alp * self.bet02),
                     self.kv, self.top_vs_time, bot_vs_time,
                     self.top_omega_phase, self.bot_omega_phase)
-            b = self.dTvc * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
+            b = self.dTvc / self.dT * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
                     self.drn, self.m, self.eigs,
                     tvals,
                     (self.bet01 + self.alp * self.bet02),
@@ -1099,13 +1099,13 @@ class Speccon1dVRC(speccon1d.Speccon1d):
             self.drn, self.top_vs_time, bot_vs_time,
             self.top_omega_phase, self.bot_omega_phase)
         if not self.top_vs_time is None or not self.bot_vs_time is None:
-            a = self.dTv * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
+            a = self.dTv / self.dT * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
                     self.drn, self.m, self.eigs,
                     tvals,
                     (self.bet11 + self.alp * self.bet12),
                     self.kv, self.top_vs_time, bot_vs_time,
                     self.top_omega_phase, self.bot_omega_phase)
-            b = self.dTvc * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
+            b = self.dTvc / self.dT * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
                     self.drn, self.m, self.eigs,
                     tvals,
                     (self.bet11 + self.alp * self.bet12),
@@ -1150,13 +1150,13 @@ class Speccon1dVRC(speccon1d.Speccon1d):
             self.drn, self.top_vs_time, bot_vs_time,
             self.top_omega_phase, self.bot_omega_phase)
         if not self.top_vs_time is None or not self.bot_vs_time is None:
-            a = self.dTv * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
+            a = self.dTv / self.dT * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
                     self.drn, self.m, self.eigs,
                     tvals,
                     (self.bet01 + self.alp * self.bet02),
                     self.kv, self.top_vs_time, bot_vs_time,
                     self.top_omega_phase, self.bot_omega_phase)
-            b = self.dTvc * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
+            b = self.dTvc / self.dT * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
                     self.drn, self.m, self.eigs,
                     tvals,
                     (self.bet01 + self.alp * self.bet02),
@@ -1172,13 +1172,13 @@ class Speccon1dVRC(speccon1d.Speccon1d):
             self.drn, self.top_vs_time, bot_vs_time,
             self.top_omega_phase, self.bot_omega_phase)
         if not self.top_vs_time is None or not self.bot_vs_time is None:
-            a = self.dTv * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
+            a = self.dTv / self.dT * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
                     self.drn, self.m, self.eigs,
                     tvals,
                     (self.bet11 + self.alp * self.bet12),
                     self.kv, self.top_vs_time, bot_vs_time,
                     self.top_omega_phase, self.bot_omega_phase)
-            b = self.dTvc * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
+            b = self.dTvc / self.dT * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
                     self.drn, self.m, self.eigs,
                     tvals,
                     (self.bet11 + self.alp * self.bet12),
-- 
2.43.0


From 3f77cfbc7fa8745247d05a56ff8cf75385f4603e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:46 +0000
Subject: [PATCH 020/140] fix: air phase settlement must hold the water
 pressure part of the air phase strain

---
 geotecha/speccon/speccon1d_unsat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/speccon/speccon1d_unsat.py b/geotecha/speccon/speccon1d_unsat.py
index 9e4caab..71f24ab 100644
--- a/geotecha/speccon/speccon1d_unsat.py
+++ b/geotecha/speccon/speccon1d_unsat.py
@@ -1244,7 +1244,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
                      self.atop_vs_time, abot_vs_time,
                      self.atop_omega_phase, self.abot_omega_phase)
         # seta uw part
-        self.setw -= speccon1d.dim1sin_integrate_af(self.m,
+        self.seta -= speccon1d.dim1sin_integrate_af(self.m,
                      self.settlement_z_pairs,
                      self.tvals[self.settlement_z_pairs_tval_indexes],
                      self.v_E_Igamv_the[:self.neig ,self.settlement_z_pairs_tval_indexes],
-- 
2.43.0


From 8f2a94fbd35a5df05e17d49c8f6daf4974748006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 021/140] fix: unsaturated boundary conditions must count when
 all four are given

---
 geotecha/speccon/speccon1d_unsat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/speccon/speccon1d_unsat.py b/geotecha/speccon/speccon1d_unsat.py
index 71f24ab..b676081 100644
--- a/geotecha/speccon/speccon1d_unsat.py
+++ b/geotecha/speccon/speccon1d_unsat.py
@@ -917,7 +917,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
         if sum(v is None for v in[self.atop_vs_time,
                                   self.abot_vs_time,
                                   self.wtop_vs_time,
-                                  self.wbot_vs_time])!=0:
+                                  self.wbot_vs_time])<4:
             self._make_E_Igamv_the_BC()
             self.E_Igamv_the += self.E_Igamv_the_BC
 
-- 
2.43.0


From 468efa16a788f1eb2da2c4fbb010de89514b6e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:10 +0000
Subject: [PATCH 022/140] fix: parabolic smear zone was nan where kap =
 s**2/(2s-1)

---
 geotecha/consolidation/smear_zones.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/geotecha/consolidation/smear_zones.py b/geotecha/consolidation/smear_zones.py
index 4a80d35..18068b8 100644
--- a/geotecha/consolidation/smear_zones.py
+++ b/geotecha/consolidation/smear_zones.py
@@ -742,8 +742,15 @@ def mu_parabolic(n, s, kap):
 
 
 
+    # A==B, i.e. kap = s**2 / (2 * s - 1), is a removable singularity; mu
+    # varies smoothly with kap so use the mean of the values on either side.
+    singular = np.isclose(kap * (2 * s - 1), s**2, rtol=1e-6) & ~ideal
+    normal = ~(ideal | singular)
+
     mu[ideal] = mu_ideal(n[ideal])
-    mu[~ideal] = mu_p(n[~ideal], s[~ideal], kap[~ideal])
+    mu[normal] = mu_p(n[normal], s[normal], kap[normal])
+    mu[singular] = 0.5 * sum(mu_p(n[singular], s[singular], kap[singular] * f)
+                             for f in [1 - 2e-5, 1 + 2e-5])
 
 
     if is_array:
@@ -2158,6 +2165,12 @@ def u_parabolic(n, s, kap, si, uavg=1, uw=0, muw=0):
 
 
 
+    if np.isclose(kap * (2 * s - 1), s**2, rtol=1e-6):
+        # A==B is a removable singularity; u varies smoothly with kap so use
+        # the mean of the values on either side.
+        return 0.5 * sum(u_parabolic(n, s, kap * f, si, uavg, uw, muw)
+                         for f in [1 - 2e-5, 1 + 2e-5])
+
     mu = mu_parabolic(n, s, kap)
     term1 = (uavg - uw) / (mu + muw)
     term2 = np.empty_like(si, dtype=float)
-- 
2.43.0


From bcd7aa43a65ff7a2dfc03596739a9708cbab14a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:30 +0000
Subject: [PATCH 023/140] fix: linear smear zones that just touch (s == n) were
 rejected

---
 geotecha/consolidation/smear_zones.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/consolidation/smear_zones.py b/geotecha/consolidation/smear_zones.py
index 18068b8..83248b5 100644
--- a/geotecha/consolidation/smear_zones.py
+++ b/geotecha/consolidation/smear_zones.py
@@ -515,7 +515,7 @@ def mu_linear(n, s, kap):
         raise ValueError('kap must be greater than 0. You have kap = '
                 '{}'.format(', '.join([str(v) for v in np.atleast_1d(kap)])))
 
-    if np.any(s>=n):
+    if np.any(s>n):
         raise ValueError('s must be less than n. You have s = '
                 '{} and n = {}'.format(
                 ', '.join([str(v) for v in np.atleast_1d(s)]),
-- 
2.43.0


From 9c8ff1d663bbe762cce8d14adbb1a79f887162df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 024/140] fix: array arguments to the non-Darcian drain series
 failed for nterms > 21

---
 geotecha/consolidation/smear_zones.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/consolidation/smear_zones.py b/geotecha/consolidation/smear_zones.py
index 83248b5..b314f89 100644
--- a/geotecha/consolidation/smear_zones.py
+++ b/geotecha/consolidation/smear_zones.py
@@ -2899,7 +2899,7 @@ def _g(r_rw, re_rw, nflow=1.0001, nterms=20):
         for j in range(nterms):
 
             term2 = special.poch(-1.0 / nflow, j)
-            term3 = np.math.factorial(j)
+            term3 = special.factorial(j)
             term4 = (2 * j + 1) * nflow - 1
             term5 = (r_rw / re_rw)**(2 * j)
             g += term2 / term3 / term4 * term5
@@ -3067,7 +3067,7 @@ def _gbar(r_rw, re_rw, nflow=1.0001, nterms=20):
         for j in range(nterms):
 
             term2 = special.poch(-1.0 / nflow, j)
-            term3 = np.math.factorial(j)
+            term3 = special.factorial(j)
             term4 = (2 * j + 1) * nflow - 1
             term4a = (2 * j + 3) * nflow - 1
             term5 = (r_rw/re_rw)**(2*j)
-- 
2.43.0


From d2283857ec44bb04c663859336632fdbdac728b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:41 +0000
Subject: [PATCH 025/140] fix: cosenzaandkorosak2014 ignored tpor

---
 geotecha/consolidation/cosenzaandkorosak2014.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/geotecha/consolidation/cosenzaandkorosak2014.py b/geotecha/consolidation/cosenzaandkorosak2014.py
index 8065f0c..5ec89ce 100644
--- a/geotecha/consolidation/cosenzaandkorosak2014.py
+++ b/geotecha/consolidation/cosenzaandkorosak2014.py
@@ -165,7 +165,7 @@ def cosenzaandkorosak2014(z, t, theta, v, tpor=None, L = 1, kv = 1, mv = 0.1, ga
     if tpor is None:
         tpor=t
     else:
-        tpor = np.atleast_1d(t)
+        tpor = np.atleast_1d(tpor)
 
 
     M = ((2 * np.arange(nterms) + 1) * np.pi)
@@ -187,7 +187,8 @@ def cosenzaandkorosak2014(z, t, theta, v, tpor=None, L = 1, kv = 1, mv = 0.1, ga
     for j, lam in enumerate(M):
         Bn[:, j] = np.array(a(tpor, args=(v, theta, M[j])), dtype=float)
 
-    if np.allclose(tpor, t): #reuse Bn for Doc
+    same_t = tpor.shape == t.shape and np.allclose(tpor, t)
+    if same_t: #reuse Bn for Doc
         Bn_ = Bn.copy()
 
     Bn = Bn[np.newaxis, :, :]
@@ -197,7 +198,7 @@ def cosenzaandkorosak2014(z, t, theta, v, tpor=None, L = 1, kv = 1, mv = 0.1, ga
 
     #degree of consolidation
     An = 2*2**2/M[np.newaxis, :]**2
-    if np.allclose(tpor, t):
+    if same_t:
         Bn = Bn_
     else:
         Bn = np.zeros((len(t), nterms), dtype=float)
-- 
2.43.0


From a5522f574e1bbf52514541253d73e43ef799b4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:41 +0000
Subject: [PATCH 026/140] fix: cosenzaandkorosak2014 ignored the soil
 properties and drainage length in its decay rates

---
 geotecha/consolidation/cosenzaandkorosak2014.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geotecha/consolidation/cosenzaandkorosak2014.py b/geotecha/consolidation/cosenzaandkorosak2014.py
index 5ec89ce..c498f3d 100644
--- a/geotecha/consolidation/cosenzaandkorosak2014.py
+++ b/geotecha/consolidation/cosenzaandkorosak2014.py
@@ -184,8 +184,8 @@ def cosenzaandkorosak2014(z, t, theta, v, tpor=None, L = 1, kv = 1, mv = 0.1, ga
     a = Talbot(F, n=24, shift=0.0)
 
     Bn = np.zeros((len(tpor), nterms), dtype=float)
-    for j, lam in enumerate(M):
-        Bn[:, j] = np.array(a(tpor, args=(v, theta, M[j])), dtype=float)
+    for j, lam in enumerate(lamda_n):
+        Bn[:, j] = np.array(a(tpor, args=(v, theta, lam)), dtype=float)
 
     same_t = tpor.shape == t.shape and np.allclose(tpor, t)
     if same_t: #reuse Bn for Doc
@@ -202,8 +202,8 @@ def cosenzaandkorosak2014(z, t, theta, v, tpor=None, L = 1, kv = 1, mv = 0.1, ga
         Bn = Bn_
     else:
         Bn = np.zeros((len(t), nterms), dtype=float)
-        for j, lam in enumerate(M):
-            Bn[:, j] = np.array(a(t, args=(v, theta, M[j])), dtype=float)
+        for j, lam in enumerate(lamda_n):
+            Bn[:, j] = np.array(a(t, args=(v, theta, lam)), dtype=float)
 
     doc = 1 - np.sum(An*Bn, axis = 1)
 
-- 
2.43.0


From 17248b288de19f248253132eecd869e21ffa644b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:41 +0000
Subject: [PATCH 027/140] fix: cosenzaandkorosak2014 pore pressure was half of
 its initial value

---
 geotecha/consolidation/cosenzaandkorosak2014.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/consolidation/cosenzaandkorosak2014.py b/geotecha/consolidation/cosenzaandkorosak2014.py
index c498f3d..addf1f2 100644
--- a/geotecha/consolidation/cosenzaandkorosak2014.py
+++ b/geotecha/consolidation/cosenzaandkorosak2014.py
@@ -192,7 +192,7 @@ def cosenzaandkorosak2014(z, t, theta, v, tpor=None, L = 1, kv = 1, mv = 0.1, ga
         Bn_ = Bn.copy()
 
     Bn = Bn[np.newaxis, :, :]
-    An = 2/M[np.newaxis, :] * np.sin(M[np.newaxis, :] * Z[:, np.newaxis])
+    An = 4/M[np.newaxis, :] * np.sin(M[np.newaxis, :] * Z[:, np.newaxis])
     An = An[:, np.newaxis, :]
     por = np.sum(An*Bn, axis=2)*ui
 
-- 
2.43.0


From e683e67d2fee07fdd89f63640954b203da96ed1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:46 +0000
Subject: [PATCH 028/140] fix: impeded boundaries of SchiffmanAndStein1970
 raised NameError

---
 geotecha/consolidation/schiffmanandstein1970.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/geotecha/consolidation/schiffmanandstein1970.py b/geotecha/consolidation/schiffmanandstein1970.py
index 13f3c4a..a5090a3 100644
--- a/geotecha/consolidation/schiffmanandstein1970.py
+++ b/geotecha/consolidation/schiffmanandstein1970.py
@@ -246,10 +246,10 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
             self.atop = 1
             self.btop = 0
         elif self.bctop == 3:
-            self.atop = h[0]
-            self.btop = ktop * h[0] / (kv[0] * htop)
+            self.atop = self.h[0]
+            self.btop = self.ktop * self.h[0] / (self.kv[0] * self.htop)
         else:
-            raise ValueError('bctop must be 0, 1, or 2. you have bctop = {}'.foramt(self.bctop))
+            raise ValueError('bctop must be 0, 1, or 2. you have bctop = {}'.format(self.bctop))
 
         if self.bcbot == 0:
             self.abot = 0
@@ -258,8 +258,8 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
             self.abot = 1
             self.bbot = 0
         elif self.bcbot == 3:
-            self.abot = h[-1]
-            self.bbot = kbot * h[-1] / (kv[-1] * hbot)
+            self.abot = self.h[-1]
+            self.bbot = self.kbot * self.h[-1] / (self.kv[-1] * self.hbot)
         else:
             raise ValueError('bctop must be 0, 1, or 2. you have bctop = {}'.format(self.bctop))
 
-- 
2.43.0


From 85d868de335bc2eb2df6568dcb21ef809cb31404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:46 +0000
Subject: [PATCH 029/140] fix: settlement data of SchiffmanAndStein1970 and
 NogamiAndLi2003 held the average pore pressure

---
 geotecha/consolidation/nogamiandli2003.py       | 2 +-
 geotecha/consolidation/schiffmanandstein1970.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/consolidation/nogamiandli2003.py b/geotecha/consolidation/nogamiandli2003.py
index 327ee9d..8ff8583 100644
--- a/geotecha/consolidation/nogamiandli2003.py
+++ b/geotecha/consolidation/nogamiandli2003.py
@@ -743,7 +743,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
 
             labels = ['{:.3g} to {:.3g}'.format(0, sum(self.h))]
             d = {'name': '_data_set',
-                 'data': self.avp.T,
+                 'data': self.set.T,
                  'row_labels': self.t,
                  'row_labels_label': 'Time',
                  'column_labels': labels,
diff --git a/geotecha/consolidation/schiffmanandstein1970.py b/geotecha/consolidation/schiffmanandstein1970.py
index a5090a3..c05d91d 100644
--- a/geotecha/consolidation/schiffmanandstein1970.py
+++ b/geotecha/consolidation/schiffmanandstein1970.py
@@ -419,7 +419,7 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
 
             labels = ['{:.3g} to {:.3g}'.format(0, sum(self.h))]
             d = {'name': '_data_set',
-                 'data': self.avp.T,
+                 'data': self.set.T,
                  'row_labels': self.t,
                  'row_labels_label': 'Time',
                  'column_labels': labels,
-- 
2.43.0


From 504a07c64281ba4828859656ed4b99c4c6170c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:46 +0000
Subject: [PATCH 030/140] fix: eigenvalue plots use an integer subplot
 position; strings were removed from matplotlib

---
 geotecha/consolidation/nogamiandli2003.py       | 2 +-
 geotecha/consolidation/schiffmanandstein1970.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/consolidation/nogamiandli2003.py b/geotecha/consolidation/nogamiandli2003.py
index 8ff8583..2010415 100644
--- a/geotecha/consolidation/nogamiandli2003.py
+++ b/geotecha/consolidation/nogamiandli2003.py
@@ -1012,7 +1012,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
         """
 
         fig = plt.figure(figsize=(40, 8))
-        ax = fig.add_subplot('111')
+        ax = fig.add_subplot(111)
         for i in range(self.nh):
             s = self._sn[i]
 #            amin=self._alp_min()[i]
diff --git a/geotecha/consolidation/schiffmanandstein1970.py b/geotecha/consolidation/schiffmanandstein1970.py
index c05d91d..d61d059 100644
--- a/geotecha/consolidation/schiffmanandstein1970.py
+++ b/geotecha/consolidation/schiffmanandstein1970.py
@@ -534,7 +534,7 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
             y[i]=self._characteristic_eqn(x[i])
 #        plt.gcf().clear()
         fig = plt.figure(figsize=(30,5))
-        ax = fig.add_subplot('111')
+        ax = fig.add_subplot(111)
         ax.plot(x ,y,'-', marker='.', markersize=3)
         ax.plot(self._beta0, np.zeros_like(self._beta0),'ro', markersize=6)
         ax.set_ylabel('det(A)')
-- 
2.43.0


From 7729b2476a80dacb56bb2124c14c9f067fdb0674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:46 +0000
Subject: [PATCH 031/140] fix: settlement at the time of a load step must use
 the load after the step

---
 geotecha/consolidation/nogamiandli2003.py       | 2 +-
 geotecha/consolidation/schiffmanandstein1970.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/consolidation/nogamiandli2003.py b/geotecha/consolidation/nogamiandli2003.py
index 2010415..5a9bc0b 100644
--- a/geotecha/consolidation/nogamiandli2003.py
+++ b/geotecha/consolidation/nogamiandli2003.py
@@ -983,7 +983,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
                     alp = self._alp[i, j]
                     Tm = self._calc_Tm(alp, t)
 
-                    load = pwise.pinterp_x_y(self.surcharge_vs_time, t)
+                    load = pwise.pinterp_x_y(self.surcharge_vs_time, t, choose_max=True)
                     for layer, h in enumerate(self.h):
 #                        layer = z_in_layer[k]
 #                        zlay = z - (self.zlayer[layer] - self.h[layer])
diff --git a/geotecha/consolidation/schiffmanandstein1970.py b/geotecha/consolidation/schiffmanandstein1970.py
index d61d059..6381e7a 100644
--- a/geotecha/consolidation/schiffmanandstein1970.py
+++ b/geotecha/consolidation/schiffmanandstein1970.py
@@ -727,7 +727,7 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
         for j, t in enumerate(self.t):
             settle=0
             avp = 0
-            q = pwise.pinterp_x_y(self.surcharge_vs_time, t)[0]
+            q = pwise.pinterp_x_y(self.surcharge_vs_time, t, choose_max=True)[0]
             settle = np.sum(self.mv * self.h) * q
 
 
-- 
2.43.0


From 3cf1fbfa5e55e52f7f66adca3ac396be336cf7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:45 +0000
Subject: [PATCH 032/140] fix: SchiffmanAndStein1970 failed with an impervious
 top where the last sine coefficient is zero

---
 geotecha/consolidation/schiffmanandstein1970.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/geotecha/consolidation/schiffmanandstein1970.py b/geotecha/consolidation/schiffmanandstein1970.py
index 6381e7a..d405306 100644
--- a/geotecha/consolidation/schiffmanandstein1970.py
+++ b/geotecha/consolidation/schiffmanandstein1970.py
@@ -551,18 +551,17 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
 
         self._beta = np.zeros((self.n, self.nlayers), dtype=float)
 
-        self._Cm[:, -1] = 1.0
         for i, beta in enumerate(self._beta0):
             self._beta[i, :] = self._make_BC(beta)
             self.BC[np.abs(self.BC)<1e-10]=0
             if self._debug and i==0:
                 print('BC for beta0')
                 print(self.BC)
-            b = -self.BC[:-1, -1]
-            a = self.BC[:-1, :-1]
-            x = np.linalg.solve(a, b)
+            # mode shape is the null vector of BC.  (Any one coefficient may be
+            # zero so cannot be used to scale the others).
+            x = np.linalg.svd(self.BC)[2][-1]
             self._Bm[i, :] = x[::2]
-            self._Cm[i, :-1] = x[1::2]
+            self._Cm[i, :] = x[1::2]
 
     def _Tm_integrations(self):
         """symbolic integration of the Tm coefficient
-- 
2.43.0


From 7ce0bd4d47112cdf7aa05b15791b461a43842176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:37 +0000
Subject: [PATCH 033/140] fix: find_n_roots could loop for ever, or return
 points that are not roots, skipped or repeated roots

---
 geotecha/mathematics/root_finding.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/geotecha/mathematics/root_finding.py b/geotecha/mathematics/root_finding.py
index c74598e..aa925e7 100644
--- a/geotecha/mathematics/root_finding.py
+++ b/geotecha/mathematics/root_finding.py
@@ -162,9 +162,15 @@ def find_n_roots(func, args=(), n=1, x0=0.001, dx=0.001, p=1.0, max_iter=2000,
             else:
                 xguess = x0 - y0 * (x1-x0)/(y1-y0)
 
-            xr, = scipy.optimize.fsolve(func, xguess, args, **fsolve_kwargs)
+            (xr,), infodict, ier, mesg = scipy.optimize.fsolve(func, xguess, args,
+                                    **dict(fsolve_kwargs, full_output=True))
 
-            if root_number==0:
+            if (ier != 1 or not x0 <= xr <= x1 or
+                    abs(func(xr, *args)) > 1e-6 * max(abs(y0), abs(y1))):
+                #fsolve failed or left the interval containing the root
+                xr = scipy.optimize.brentq(func, x0, x1, args)
+
+            if root_number > 0:
                 if np.allclose(xr, roots[root_number-1], atol=atol, rtol=rtol):
                     #found same root
                     if debug:
@@ -199,7 +205,10 @@ def find_n_roots(func, args=(), n=1, x0=0.001, dx=0.001, p=1.0, max_iter=2000,
             #move right
             if not np.allclose(xr, x1, atol=atol, rtol=rtol):
                 x1 = xr+(x1-xr) * 0.1
-                y1 = func(x1, *args)
+            else:
+                #step off the root so that it is not found again
+                x1 = max(x1, xr) + dx * 0.1
+            y1 = func(x1, *args)
             x00 = x1
 
             #reset iters for next root
@@ -287,7 +296,7 @@ def fixed_point_no_accel(func, x0, args=(), xtol=1e-8, maxiter=500):
 #            p = where(d == 0, p2, p0 - (p1 - p0)*(p1 - p0) / d)
             p = p1
             relerr = np.where(p0 == 0, p, (p-p0)/p0)
-            if all(abs(relerr) < xtol):
+            if np.all(abs(relerr) < xtol):
                 return p
             p0 = p
     else:
-- 
2.43.0


From e82f759134b6eab7f0fea387e5b488b7cb202b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:55 +0000
Subject: [PATCH 034/140] fix: NogamiAndLi2003 gave nan where a vertical wave
 number is exactly zero

---
 geotecha/consolidation/nogamiandli2003.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/geotecha/consolidation/nogamiandli2003.py b/geotecha/consolidation/nogamiandli2003.py
index 5a9bc0b..c7384d9 100644
--- a/geotecha/consolidation/nogamiandli2003.py
+++ b/geotecha/consolidation/nogamiandli2003.py
@@ -458,7 +458,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
                     h = self.h[k]
                     beta = self._betamn[i, j, k]
                     if cmath.polar(beta)[0]==0:
-                        phib = np.array([phia[0],0], dtype=complex)
+                        phib = np.array([phia[0] + h*phia[1], phia[1]], dtype=complex)
 #                        phib[0] = phia[0]
 #                        phib[1] = 0+0j
                     else:
@@ -506,7 +506,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
 #        print('alp=', alp)
         for i, h in enumerate(self.h):
             if cmath.polar(beta[i])[0]==0:
-                phib = np.array([phia[0], 0], dtype=complex)
+                phib = np.array([phia[0] + h*phia[1], phia[1]], dtype=complex)
 #                phib[0] = phia[0]
 #                phib[1] = 0+0j
             else:
@@ -600,8 +600,9 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
                     phi_a_dot = self._phidota[i, j, k]
 
                     if cmath.polar(bet)[0]==0:
-                        self._Amn[i,j,k] = h*phi_a
-                        self._Bmn[i,j,k] = h*phi_a**2
+                        self._Amn[i,j,k] = h*phi_a + h**2*phi_a_dot/2
+                        self._Bmn[i,j,k] = (h*phi_a**2 +
+                            h**2*phi_a*phi_a_dot + h**3*phi_a_dot**2/3)
                     else:
                         self._Amn[i,j,k] = (phi_a*sin(bet*h)/bet -
                             phi_a_dot*cos(bet*h)/bet**2 + phi_a_dot/bet**2)
@@ -953,8 +954,11 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
                         Cmn = self._Cmn[i, j].real
                         phi_a = self._phia[i, j, layer]
                         phi_a_dot = self._phidota[i, j, layer]
-                        phi = (cos(bet * zlay) * phi_a +
-                            sin(bet * zlay)/bet * phi_a_dot)
+                        if bet == 0:
+                            phi = phi_a + zlay * phi_a_dot
+                        else:
+                            phi = (cos(bet * zlay) * phi_a +
+                                sin(bet * zlay)/bet * phi_a_dot)
                         self.por[k, p] += Cmn * un * phi.real * Tm
 
 
@@ -992,7 +996,10 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
                         Cmn = self._Cmn[i, j].real
                         phi_a = self._phia[i, j, layer]
                         phi_a_dot = self._phidota[i, j, layer]
-                        phi = (sin(bet * h) / bet * phi_a +
+                        if bet == 0:
+                            phi = h * phi_a + h**2 / 2 * phi_a_dot
+                        else:
+                            phi = (sin(bet * h) / bet * phi_a +
                                 (1-cos(bet * h))/bet**2*phi_a_dot)
                         self.avp[0, p] += Cmn * un * phi.real / h_all * Tm
                         self.set[0, p] += self.mv[layer] * (load * h /self.nh/self.nv - Cmn *
-- 
2.43.0


From 2ae027bc573d216bdaf7c9b19064a16c0ab4d75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:13 +0000
Subject: [PATCH 035/140] fix: tangandonitsuka2000 settlement at the time of a
 load step must use the load after the step

---
 geotecha/consolidation/tangandonitsuka2000.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/consolidation/tangandonitsuka2000.py b/geotecha/consolidation/tangandonitsuka2000.py
index d478aae..2ba1277 100644
--- a/geotecha/consolidation/tangandonitsuka2000.py
+++ b/geotecha/consolidation/tangandonitsuka2000.py
@@ -233,7 +233,7 @@ def tangandonitsuka2000(z, t, kv, kh, ks, kw, mv, gamw, rw, rs, re, H,
 
 
     #settle
-    load = pwise.pinterp_x_y(surcharge_vs_time, t)
+    load = pwise.pinterp_x_y(surcharge_vs_time, t, choose_max=True)
     settle = H * mv * (load - avp)
 
     return por, avp, settle
-- 
2.43.0


From 7ce8066d55719da1bf772c08c5adc8b0323ce686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:47 +0000
Subject: [PATCH 036/140] fix: tangandonitsuka2000 failed for scalar depth or
 time and truncated integer depths below mid-height

---
 geotecha/consolidation/tangandonitsuka2000.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geotecha/consolidation/tangandonitsuka2000.py b/geotecha/consolidation/tangandonitsuka2000.py
index 2ba1277..a40fd7f 100644
--- a/geotecha/consolidation/tangandonitsuka2000.py
+++ b/geotecha/consolidation/tangandonitsuka2000.py
@@ -161,13 +161,13 @@ def tangandonitsuka2000(z, t, kv, kh, ks, kw, mv, gamw, rw, rs, re, H,
 
 
 
-    z= np.asarray(z)
-    t = np.asarray(t)
+    z = np.atleast_1d(np.asarray(z, dtype=float))
+    t = np.atleast_1d(t)
 
     if tpor is None:
         tpor = t
     else:
-        tpor = np.asarray(tpor)
+        tpor = np.atleast_1d(tpor)
 
 
 
-- 
2.43.0


From e6a40fab5d0c1b111744cfc07880aef32dedb1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:04 +0000
Subject: [PATCH 037/140] fix: integer subplot positions in the remaining
 plotting code; strings were removed from matplotlib

---
 geotecha/beam_on_foundation/specbeam.py         | 4 ++--
 geotecha/consolidation/shanetal2012.py          | 2 +-
 geotecha/consolidation/zhuandyin2012.py         | 6 +++---
 geotecha/constitutive_models/swcc.py            | 8 ++++----
 geotecha/mathematics/hankel.py                  | 2 +-
 geotecha/speccon/speccon1d_unsat_interactive.py | 6 +++---
 6 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index f31847c..06b5b19 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -7645,7 +7645,7 @@ def transition_zones1(
         fig4, ax4 = plt.subplots() # deflection vs time at point
 
     fig5 = plt.figure(figsize=(3.54, 3.54))
-    ax5 = fig5.add_subplot('111')
+    ax5 = fig5.add_subplot(111)
 
 
     pdict = OrderedDict(
@@ -8099,7 +8099,7 @@ def transition_zones2(animateme=False,
 
 
     fig6 = plt.figure(figsize=(3.54,3.54))
-    ax6 = fig6.add_subplot('111')
+    ax6 = fig6.add_subplot(111)
 
     pdict = OrderedDict(
                 E = 6.998*1e9, #Pa
diff --git a/geotecha/consolidation/shanetal2012.py b/geotecha/consolidation/shanetal2012.py
index e3e5cc1..6d53f06 100644
--- a/geotecha/consolidation/shanetal2012.py
+++ b/geotecha/consolidation/shanetal2012.py
@@ -571,7 +571,7 @@ if __name__ == '__main__':
 
 
     fig = plt.figure()
-    ax=fig.add_subplot('111')
+    ax=fig.add_subplot(111)
     ax.plot(t, porw[len(z)//2], 'bs', ls='-', ms=3,label='water')
     ax.plot(t, pora[len(z)//2], 'g*', ls='-', ms=3,label='air')
     ax.set_xlabel('Time')
diff --git a/geotecha/consolidation/zhuandyin2012.py b/geotecha/consolidation/zhuandyin2012.py
index 04f2b37..c379670 100644
--- a/geotecha/consolidation/zhuandyin2012.py
+++ b/geotecha/consolidation/zhuandyin2012.py
@@ -170,7 +170,7 @@ def zhuandyin2012(z, t, alpha, p, q, drn=0, tpor=None, H = 1, kv0 = 1, mv0 = 0.1
         etam = find_n_roots(Zmu, args=(nu, nu, b), n = nterms, p=1.01)
         if plot_eigs:
             fig=plt.figure(figsize=(20,5))
-            ax = fig.add_subplot('111')
+            ax = fig.add_subplot(111)
             x = np.linspace(0.01,etam[-1],1000)
             y = Zmu(x, nu, nu, b)
             ax.plot(x, y, marker='.', markersize=3, ls='-')
@@ -185,7 +185,7 @@ def zhuandyin2012(z, t, alpha, p, q, drn=0, tpor=None, H = 1, kv0 = 1, mv0 = 0.1
         etam = find_n_roots(drn1root, args=(nu, nu, b, p, n), n = nterms, p=1.01)
         if plot_eigs:
             fig=plt.figure(figsize=(20,5))
-            ax = fig.add_subplot('111')
+            ax = fig.add_subplot(111)
             x = np.linspace(0.01,etam[-1],1000)
             y = drn1root(x, nu, nu, b, p, n)
             ax.plot(x, y, marker='.', markersize=3, ls='-')
@@ -346,7 +346,7 @@ if __name__ == '__main__':
 #        print('kv', repr(kv))
 #        print('mv', repr(mv))
         fig=plt.figure()
-        ax= fig.add_subplot('111')
+        ax= fig.add_subplot(111)
         ax.plot(kv, x, label='kv', ls='-')
         ax.plot(mv, x, label='mv', ls='-')
         ax.legend()
diff --git a/geotecha/constitutive_models/swcc.py b/geotecha/constitutive_models/swcc.py
index 56ab512..6e491cc 100644
--- a/geotecha/constitutive_models/swcc.py
+++ b/geotecha/constitutive_models/swcc.py
@@ -961,7 +961,7 @@ if __name__ == "__main__":
         k = b.k_from_psi(x, aev=1)
 
         fig = plt.figure()
-        ax = fig.add_subplot('211')
+        ax = fig.add_subplot(211)
         ax.plot(x, y)
         ax.set_xlabel('$psi$')
         ax.set_ylabel('w')
@@ -969,7 +969,7 @@ if __name__ == "__main__":
         ax.grid(which='major', linestyle='-')
         ax.grid(which='minor', linestyle='--')
 
-        ax = fig.add_subplot('212', sharex=ax)
+        ax = fig.add_subplot(212, sharex=ax)
         ax.plot(x, k)
         ax.set_xlabel('$psi$')
         ax.set_ylabel('$k/k_{sat}$')
@@ -1020,7 +1020,7 @@ if __name__ == "__main__":
         k = b.k_from_psi(x, aev=1)
 
         fig = plt.figure()
-        ax = fig.add_subplot('211')
+        ax = fig.add_subplot(211)
         ax.plot(x, y)
         ax.set_xlabel('$psi$')
         ax.set_ylabel('w')
@@ -1028,7 +1028,7 @@ if __name__ == "__main__":
         ax.grid(which='major', linestyle='-')
         ax.grid(which='minor', linestyle='--')
 
-        ax = fig.add_subplot('212', sharex=ax)
+        ax = fig.add_subplot(212, sharex=ax)
         ax.plot(x, k)
         ax.set_xlabel('$psi$')
         ax.set_ylabel('$k/k_{sat}$')
diff --git a/geotecha/mathematics/hankel.py b/geotecha/mathematics/hankel.py
index 63f36f6..68c3de5 100644
--- a/geotecha/mathematics/hankel.py
+++ b/geotecha/mathematics/hankel.py
@@ -239,7 +239,7 @@ class HankelTransform(object):
         y = integrand(x, *self.args)
 
         fig = plt.figure()
-        ax = fig.add_subplot('111')
+        ax = fig.add_subplot(111)
         ax.plot(x,y, '-')
         ax.plot(zeros, np.zeros_like(zeros), 'ro', ms=5)
 #        ax.plot(x, x*jn(self.order, r*x), label='rJn(r*s)')
diff --git a/geotecha/speccon/speccon1d_unsat_interactive.py b/geotecha/speccon/speccon1d_unsat_interactive.py
index cce28d5..1459f87 100644
--- a/geotecha/speccon/speccon1d_unsat_interactive.py
+++ b/geotecha/speccon/speccon1d_unsat_interactive.py
@@ -211,7 +211,7 @@ figure_ext='.png'
     if 1:
         #only use this if there is one z interval
         fig = plt.figure()
-        ax=fig.add_subplot('111')
+        ax=fig.add_subplot(111)
         ax.plot(a.tvals, a.set[0], 'ro', ls='-', label='combined')
         ax.plot(a.tvals, a.setw[0], 'bs', ls='-', label='water')
         ax.plot(a.tvals, a.seta[0], 'g*', ls='-', label='air')
@@ -225,7 +225,7 @@ figure_ext='.png'
         leg.set_draggable(True)
 
         fig = plt.figure()
-        ax=fig.add_subplot('111')
+        ax=fig.add_subplot(111)
         ax.plot(a.tvals, a.avpw[0], 'bs', ls='-', label='water')
         ax.plot(a.tvals, a.avpa[0], 'g*', ls='-', label='air')
         ax.set_xlabel('Time')
@@ -238,7 +238,7 @@ figure_ext='.png'
 
 
         fig = plt.figure()
-        ax=fig.add_subplot('111')
+        ax=fig.add_subplot(111)
         ax.plot(a.tvals, a.porw[len(a.ppress_z)//2], 'bs', ls='-', label='water')
         ax.plot(a.tvals, a.pora[len(a.ppress_z)//2], 'g*', ls='-', label='air')
         ax.set_xlabel('Time')
-- 
2.43.0


From f512d0baa7d29b677757b523b84485ab559c4724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:30 +0000
Subject: [PATCH 038/140] fix: zhuandyin2012 divided by zero where q = -1

---
 geotecha/consolidation/zhuandyin2012.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/geotecha/consolidation/zhuandyin2012.py b/geotecha/consolidation/zhuandyin2012.py
index c379670..db2f64d 100644
--- a/geotecha/consolidation/zhuandyin2012.py
+++ b/geotecha/consolidation/zhuandyin2012.py
@@ -261,7 +261,6 @@ def zhuandyin2012(z, t, alpha, p, q, drn=0, tpor=None, H = 1, kv0 = 1, mv0 = 0.1
 
             Cm = numer/denom
         else:
-            print('got here')
             numer = (2 - np.pi * etam * b**(1+nu) * Zmu(etam, 1 + nu, nu, b))**2
             denom = etam**2 * ((b * np.pi * etam * Zmu(etam, 1 + nu, nu, b))**2-4)
 
@@ -274,13 +273,19 @@ def zhuandyin2012(z, t, alpha, p, q, drn=0, tpor=None, H = 1, kv0 = 1, mv0 = 0.1
 
     doc = np.sum(Cm*Tm,axis=1)
 
+    # integral of (1+alpha*Z)**q from Z=0 to Z=1, multiplied by alpha
+    if q == -1:
+        mvint = math.log(1 + alpha)
+    else:
+        mvint = ((1+alpha)**(1 + q) - 1) / (1 + q)
+
     if drn==0:
-        numer = 4*(1+q)
+        numer = 4
 #        numer_settle = 4
     elif drn==1:
-        numer = 16*(1+q)
+        numer = 16
 #        numer_settle = 16
-    denom = (2 - n) * ((1+alpha)**(1 + q) - 1)
+    denom = (2 - n) * mvint
 #    denom_settle = (2 - n)
 
 #    settle = mv0*ui*(1 - (H/alpha*numer_settle / denom_settle) * doc)
@@ -289,7 +294,7 @@ def zhuandyin2012(z, t, alpha, p, q, drn=0, tpor=None, H = 1, kv0 = 1, mv0 = 0.1
     doc*= -fr
     doc += 1
 
-    settle = doc * ui* mv0*((1+alpha)**(1 + q) - 1)/(1+q)*H/alpha
+    settle = doc * ui* mv0*mvint*H/alpha
 
 #    print(",".join(['{:.3g}']*4).format((1 - p) / (2 - n), nu, t[0], doc[0]))
     return por, doc, settle
-- 
2.43.0


From 255b989e53bdc937a18198ede0224e2e1a5600cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:59 +0000
Subject: [PATCH 039/140] fix: XieAndLeo2004 effective and total stress raised
 NameError (qu is self.qu)

---
 geotecha/consolidation/xieandleo2004.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geotecha/consolidation/xieandleo2004.py b/geotecha/consolidation/xieandleo2004.py
index 09e72c3..1b52dfa 100644
--- a/geotecha/consolidation/xieandleo2004.py
+++ b/geotecha/consolidation/xieandleo2004.py
@@ -495,7 +495,7 @@ class XieAndLeo2004(object):
         u = self.u_PTIB(a,t)
         sig_0 = self.initial_effective_stress(a)[:, None]
 
-        sig_ = sig_0 + qu - u
+        sig_ = sig_0 + self.qu - u
 
         return sig_
 
@@ -519,7 +519,7 @@ class XieAndLeo2004(object):
         u = self.u_PTPB(a,t)
         sig_0 = self.initial_effective_stress(a)[:, None]
 
-        sig_ = sig_0 + qu - u
+        sig_ = sig_0 + self.qu - u
 
         return sig_
 
@@ -546,7 +546,7 @@ class XieAndLeo2004(object):
         sig_0 = self.initial_effective_stress(a)[:, None]
         a = a[:, None]
 
-        sig = sig_0 + qu + gamw * (Hw + a + S)
+        sig = sig_0 + self.qu + gamw * (Hw + a + S)
 
         return sig
 
@@ -573,7 +573,7 @@ class XieAndLeo2004(object):
         sig_0 = self.initial_effective_stress(a)[:, None]
         a = a[:, None]
 
-        sig = sig_0 + qu + gamw * (Hw + a + S)
+        sig = sig_0 + self.qu + gamw * (Hw + a + S)
 
         return sig
 
-- 
2.43.0


From 285022299a53b8d5e80844d55b3aabbbdeda913a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 040/140] fix: fluid velocities of XieAndLeo2004 did not
 balance the solid velocities

---
 geotecha/consolidation/xieandleo2004.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/consolidation/xieandleo2004.py b/geotecha/consolidation/xieandleo2004.py
index 1b52dfa..1be9668 100644
--- a/geotecha/consolidation/xieandleo2004.py
+++ b/geotecha/consolidation/xieandleo2004.py
@@ -793,7 +793,7 @@ class XieAndLeo2004(object):
         f = np.sum(f, axis=2)
         f *= 1 - np.exp(-mvl * qu)
         f *= 2 * cv0 / H
-        f /=e
+        f /= -e
 
         return f
 
@@ -837,7 +837,7 @@ class XieAndLeo2004(object):
         f2 = (1 + np.cos(2 * M * a)) * np.exp(-4 * M**2 * Tv)
         f2 = np.sum(f2, axis=2)
         f2 *= 1 - np.exp(-mvl * qu)
-        f2 *= 2 * cv0/H
+        f2 *= 4 * cv0/H
         f2 /=e
 
         return f1-f2
-- 
2.43.0


From 4aba26292be5d4ede87090badda2808c73b2442f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:51 +0000
Subject: [PATCH 041/140] fix: dengetal2013 gave nan at the surface or with
 A1=A2, and None for A2<0

---
 geotecha/consolidation/dengetal2013and2014.py | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/geotecha/consolidation/dengetal2013and2014.py b/geotecha/consolidation/dengetal2013and2014.py
index 089da9d..d9c87c9 100644
--- a/geotecha/consolidation/dengetal2013and2014.py
+++ b/geotecha/consolidation/dengetal2013and2014.py
@@ -22,6 +22,7 @@ the discharge capacity varies with depth and time".
 from __future__ import print_function, division
 
 import numpy as np
+from scipy import special
 from matplotlib import pyplot as plt
 
 import geotecha.consolidation.smear_zones as smear_zones
@@ -130,9 +131,9 @@ def dengetal2013(z, t, rw, re, A1=1, A2=0, A3=0, H=1, rs=None, ks=None,
         por = ui * np.exp(-8 * Th[None, :] / mus[:, None])
         return por
 
-    if A3 == 0 and A2 > 0:
+    if A3 == 0 and A2 != 0:
         # qw varies with depth
-        mu1 = A2 * z / H + (A1 - A2)*np.log(1 - A2 / A1 * z / H)
+        mu1 = A2 * z / H + special.xlogy(A1 - A2, 1 - A2 / A1 * z / H)
         mu1 *= 2 * np.pi * kh * H**2 / (qw0 * A2**2)
         mu1 += mu0
         por = ui * np.exp(-8 * Th[None, :] / mu1[:, None])
@@ -141,18 +142,20 @@ def dengetal2013(z, t, rw, re, A1=1, A2=0, A3=0, H=1, rs=None, ks=None,
     if A3 > 0 and A2 == 0:
         # qw varies with time
         a3 = A3 * 4 * re**2 / ch
-        alp0 = qw0 * A1 * mu0 / (np.pi * kh * (2*H*z - z**2))
-        por = (ui * ((1+alp0[:, None] * np.exp(-a3 * Th[None, :])) /
-              (1+alp0[:, None])) ** (8/(a3 * mu0)))
+        # reciprocal of alpha0, which is infinite at z=0
+        ralp0 = (np.pi * kh * (2*H*z - z**2)) / (qw0 * A1 * mu0)
+        por = (ui * ((ralp0[:, None] + np.exp(-a3 * Th[None, :])) /
+              (ralp0[:, None] + 1)) ** (8/(a3 * mu0)))
         return por
 
-    if A3 > 0 and A2 > 0:
+    if A3 > 0 and A2 != 0:
         # qw varies with depth and time:
         a3 = A3 * 4 * re**2 / ch
-        alp = mu0 * qw0 * A2**2 / (2 * np.pi * H**2 * kh)
-        alp /= A2* z / H + (A1 - A2) * np.log(1 - A2 / A1 * z / H)
-        por = (ui * ((1+alp[:, None] * np.exp(-a3 * Th[None, :])) /
-              (1+alp[:, None])) ** (8/(a3 * mu0)))
+        # reciprocal of alpha, which is infinite at z=0
+        ralp = A2* z / H + special.xlogy(A1 - A2, 1 - A2 / A1 * z / H)
+        ralp *= (2 * np.pi * H**2 * kh) / (mu0 * qw0 * A2**2)
+        por = (ui * ((ralp[:, None] + np.exp(-a3 * Th[None, :])) /
+              (ralp[:, None] + 1)) ** (8/(a3 * mu0)))
         return por
 
 
-- 
2.43.0


From 2a263012ce8ff2f4ac013459a0acd95f5b2bf1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:03 +0000
Subject: [PATCH 042/140] fix: dengetal2014 did not dissipate pore pressure
 with the default A3=0

---
 geotecha/consolidation/dengetal2013and2014.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/geotecha/consolidation/dengetal2013and2014.py b/geotecha/consolidation/dengetal2013and2014.py
index d9c87c9..cc047df 100644
--- a/geotecha/consolidation/dengetal2013and2014.py
+++ b/geotecha/consolidation/dengetal2013and2014.py
@@ -263,8 +263,12 @@ def dengetal2014(z, t, rw, re, A3=0, H=1, rs=None, ks=None,
     C0 = C0[np.newaxis, np.newaxis, :]
     Z = (z / H)[:, np.newaxis, np.newaxis]
 
-    por = (2 / M * np.sin(M * Z) * ((1+C0 * np.exp(-a3 * Th))/
-          (1 + C0))**(8 / (a3 * mu0)))
+    if A3 == 0:
+        decay = np.exp(-8 * Th / mu0 * C0 / (1 + C0))
+    else:
+        decay = ((1+C0 * np.exp(-a3 * Th))/ (1 + C0))**(8 / (a3 * mu0))
+
+    por = 2 / M * np.sin(M * Z) * decay
     por = ui * np.sum(por, axis=2)
 
     return por
-- 
2.43.0


From 7fe6be3cab826c0566200a1bd41e907261bd5727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:03 +0000
Subject: [PATCH 043/140] fix: luetal2010 divided by zero when soil and column
 permeability are equal (the default)

---
 geotecha/consolidation/luetal2010.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/geotecha/consolidation/luetal2010.py b/geotecha/consolidation/luetal2010.py
index 6515481..105d938 100644
--- a/geotecha/consolidation/luetal2010.py
+++ b/geotecha/consolidation/luetal2010.py
@@ -129,14 +129,13 @@ def luetal2010(z, t, rc, re, H=1, rs=None, ks=None,
 
     betm = betm_numer / betm_denom
 
-    C = re**2 * mu0 / 2 / kh
-    C += rc**2 * (n**2 - 1)/ 8 / khc
-    C *= gamw * ((n**2 - 1)*kvc + kv) * mvs
-    C /= (n**2 - 1 + Y) * (kvc - kv)
+    # R = (soil minus column pressure) / (gamw * flow rate out of the soil)
+    R = re**2 * mu0 / 2 / kh
+    R += rc**2 * (n**2 - 1)/ 8 / khc
 
-    D = re**2 * mu0 / 2 / kh
-    D += rc**2 * (n**2 - 1)/ 8 / khc
-    D *= kv * kvc / (kvc - kv)
+    # soil minus column pressure as a fraction of the overall pressure
+    diff = gamw * mvs * n**2 / (n**2 - 1 + Y) * betm - kv * M**2 / H**2
+    diff *= R / (1 + R * kv * M**2 / H**2 / n**2)
 
     minus1 = np.ones_like(M)
     minus1[1::2] = -1
@@ -146,11 +145,9 @@ def luetal2010(z, t, rc, re, H=1, rs=None, ks=None,
             np.sin(M[None, None, :] * z[:, None, None]/H) *
             np.exp(-betm[None, None, :] * t[None, :, None]))
 
-    pors = por * (1 + (C * H**2 * betm[None, None, :] - D * M[None, None, :]**2) /
-            (H**2 * (n**2 - 1)))
+    pors = por * (1 + diff[None, None, :] / n**2)
 
-    porc = por * (1 - C * betm[None, None, :]
-                    + D * M[None, None, :]**2 / H**2)
+    porc = por * (1 - diff[None, None, :] * (n**2 - 1) / n**2)
 
     por = np.sum(por, axis=2)
     pors = np.sum(pors, axis=2)
-- 
2.43.0


From b0fa3613dfc1ee822294b1d6b9b0508e3aabe6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:05 +0000
Subject: [PATCH 044/140] fix: shanetal2012 failed for scalar or list depth and
 time

---
 geotecha/consolidation/shanetal2012.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geotecha/consolidation/shanetal2012.py b/geotecha/consolidation/shanetal2012.py
index 6d53f06..3eaf8ff 100644
--- a/geotecha/consolidation/shanetal2012.py
+++ b/geotecha/consolidation/shanetal2012.py
@@ -230,6 +230,9 @@ def shanetal2012(z, t, H, Cw, Cvw, Ca, Cva, drn=1, Csw=0, Csa=0,
         return (-(q0*(-omega*exp(eigs*M**2*t)+eigs*M**2*sin(omega*t)+
                 omega*cos(omega*t)))/(eigs**2*M**4+omega**2))
 
+    z = np.atleast_1d(z)
+    t = np.atleast_1d(t)
+
     permitted_loads = ['exp', 'sin']
     permitted_parameters={'exp': ['q0','b'],
                           'sin': ['q0', 'omega']}
-- 
2.43.0


From b3a8c9e410f887b57f4f9702c1aa97adca7f2fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:26 +0000
Subject: [PATCH 045/140] fix: PwiseLinearSoilModel.av_from_stress used the
 overall slope at the first point

---
 geotecha/constitutive_models/void_ratio_stress.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/constitutive_models/void_ratio_stress.py b/geotecha/constitutive_models/void_ratio_stress.py
index 413b1d3..2471308 100644
--- a/geotecha/constitutive_models/void_ratio_stress.py
+++ b/geotecha/constitutive_models/void_ratio_stress.py
@@ -969,7 +969,7 @@ class PwiseLinearSoilModel(OneDimensionalVoidRatioEffectiveStress):
             ea = self.ea[self.siga_slice]
 
         # interval at preconsolidatio stress
-        i = np.searchsorted(siga, max_past)
+        i = np.clip(np.searchsorted(siga, max_past), 1, len(siga) - 1)
         Cc = (ea[i - 1] - ea[i]) / (siga[i] - siga[i - 1])
         # void ratio at preconsolidation pressure
         e = ea[i-1] - Cc * (max_past - siga[i - 1])
-- 
2.43.0


From 7ce4a2a1cb5fb54d728523549b96440c8045a711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:39 +0000
Subject: [PATCH 046/140] fix: plotting points of void ratio models outside the
 range or ignoring xmin and xmax

---
 geotecha/constitutive_models/void_ratio_stress.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/geotecha/constitutive_models/void_ratio_stress.py b/geotecha/constitutive_models/void_ratio_stress.py
index 2471308..f32817e 100644
--- a/geotecha/constitutive_models/void_ratio_stress.py
+++ b/geotecha/constitutive_models/void_ratio_stress.py
@@ -345,8 +345,9 @@ class CcCrSoilModel(OneDimensionalVoidRatioEffectiveStress):
 
         x = np.linspace(xmin, xmax, npts)
         pstress = kwargs.get('pstress', x)
-        i = np.searchsorted(x, pstress)
-        x[i] = pstress
+        if np.all((pstress >= x[0]) & (pstress <= x[-1])):
+            i = np.searchsorted(x, pstress)
+            x[i] = pstress
         y = self.e_from_stress(x, pstress=pstress)
 
         return x, y
@@ -814,7 +815,8 @@ class PwiseLinearSoilModel(OneDimensionalVoidRatioEffectiveStress):
         """
 
         npts = kwargs.get('npts', 100)
-        xmin, xmax = np.min(self.siga), np.max(self.siga)
+        xmin = kwargs.get('xmin', np.min(self.siga))
+        xmax = kwargs.get('xmax', np.max(self.siga))
 
         x = np.linspace(xmin, xmax, npts)
         pstress = kwargs.get('pstress', x)
-- 
2.43.0


From a9d60e4e84f90b49b701c7a11559624c8c13cc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:44 +0000
Subject: [PATCH 047/140] fix: plotting points of constant permeability raised
 ValueError, those of PwiseLinearPermeabilityModel ignored xmin and xmax

---
 .../constitutive_models/void_ratio_permeability.py    | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/geotecha/constitutive_models/void_ratio_permeability.py b/geotecha/constitutive_models/void_ratio_permeability.py
index 87d7440..1c315fa 100644
--- a/geotecha/constitutive_models/void_ratio_permeability.py
+++ b/geotecha/constitutive_models/void_ratio_permeability.py
@@ -216,8 +216,8 @@ class ConstantPermeabilityModel(PermeabilityVoidRatioRelationship):
         npts : int, optional
             Number of points to return.  Default npts=100
         xmin, xmax : float, optional
-            Range of x (i.e. effective stress) values from which
-            to return points. Default xmin=1, xmax=100.
+            Range of y (i.e. void ratio) values from which to return
+            points, permeability being constant. Default xmin=1, xmax=100.
 
         Returns
         -------
@@ -230,8 +230,8 @@ class ConstantPermeabilityModel(PermeabilityVoidRatioRelationship):
         npts = kwargs.get('npts', 100)
         xmin, xmax = kwargs.get('xmin', 1.0), kwargs.get('xmax', 100)
 
-        x = np.linspace(xmin, xmax, npts)
-        y = self.e_from_k(x)
+        y = np.linspace(xmin, xmax, npts)
+        x = self.k_from_e(y)
         return x, y
 
 
@@ -471,7 +471,8 @@ class PwiseLinearPermeabilityModel(PermeabilityVoidRatioRelationship):
         """
 
         npts = kwargs.get('npts', 100)
-        xmin, xmax = np.min(self.ka), np.max(self.ka)
+        xmin = kwargs.get('xmin', np.min(self.ka))
+        xmax = kwargs.get('xmax', np.max(self.ka))
 
         x = np.linspace(xmin, xmax, npts)
 
-- 
2.43.0


From faca5762667f0fd018d486f4703ee4740052ac1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:32 +0000
Subject: [PATCH 048/140] fix: HansboNonDarcianFlowModel with kstar, n=1 or
 iL=0 had no klinear (AttributeError)

---
 geotecha/constitutive_models/velocity_hydraulic_gradient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/constitutive_models/velocity_hydraulic_gradient.py b/geotecha/constitutive_models/velocity_hydraulic_gradient.py
index a641235..c504124 100644
--- a/geotecha/constitutive_models/velocity_hydraulic_gradient.py
+++ b/geotecha/constitutive_models/velocity_hydraulic_gradient.py
@@ -418,7 +418,7 @@ class HansboNonDarcianFlowModel(OneDimensionalFlowRelationship):
                 self.n = 1
                 self.iL = 0
                 self.i0 = 0
-                self.k_linear = kstar
+                self.klinear = kstar
             else:
                 self.kstar = kstar
                 self.n = n
-- 
2.43.0


From 6c19225ebdab805c67fe5a1249928346f3abd2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:32 +0000
Subject: [PATCH 049/140] fix: HansboNonDarcianFlowModel from kstar, klinear
 and iL or i0 failed to converge for small gradients

---
 .../velocity_hydraulic_gradient.py            | 35 +++++++++++++++----
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/geotecha/constitutive_models/velocity_hydraulic_gradient.py b/geotecha/constitutive_models/velocity_hydraulic_gradient.py
index c504124..7bb0e84 100644
--- a/geotecha/constitutive_models/velocity_hydraulic_gradient.py
+++ b/geotecha/constitutive_models/velocity_hydraulic_gradient.py
@@ -24,6 +24,7 @@ from numpy import (isscalar, asarray)
 import matplotlib.pyplot as plt
 import matplotlib
 import scipy.optimize
+import scipy.special
 from collections import OrderedDict
 
 from geotecha.mathematics import root_finding
@@ -485,9 +486,17 @@ class HansboNonDarcianFlowModel(OneDimensionalFlowRelationship):
                 # note as at 20151106 scipy.optimize.fixed_point may not
                 # converge for this function because convergence acceleration
                 # is used.  Use my modified version instead:
-                self.n = root_finding.fixed_point_no_accel(fn,
-                                                           1.00001,
-                                                           args=(klinear, kstar, iL))
+                # The iteration diverges where n * log(iL) < 1.  For iL >= 1
+                # there is a single n to find, between 1 and klinear/kstar.
+                if iL >= 1 and klinear >= kstar:
+                    self.n = scipy.optimize.brentq(
+                        lambda _n: (np.log(_n) + (_n - 1) * np.log(iL)
+                                    - np.log(klinear / kstar)),
+                        1, klinear / kstar, xtol=1e-14)
+                else:
+                    self.n = root_finding.fixed_point_no_accel(fn,
+                                                               1.00001,
+                                                               args=(klinear, kstar, iL))
 
 #                self.n = klinear / kstar / iL**(n - 1)
                 self.iL = iL
@@ -515,9 +524,23 @@ class HansboNonDarcianFlowModel(OneDimensionalFlowRelationship):
                 # note as at 20151106 scipy.optimize.fixed_point may not
                 # converge for this function because convergence acceleration
                 # is used.  Use my modified version instead:
-                self.n = root_finding.fixed_point_no_accel(fn,
-                                                           1.00001,
-                                                           args=(klinear, kstar, i0))
+                # The iteration does not converge for all parameters.  There is
+                # a single n such that iL >= 1.
+                def gn(_n):
+                    return (_n * np.log(_n) + (_n - 1) * np.log(i0)
+                            - scipy.special.xlogy(_n - 1, _n - 1)
+                            - np.log(klinear / kstar))
+
+                nmax = klinear / kstar
+                if i0 < 1:
+                    nmax = min(nmax, 1 / (1 - i0))
+
+                if klinear >= kstar and gn(nmax) >= 0:
+                    self.n = scipy.optimize.brentq(gn, 1, nmax, xtol=1e-14)
+                else:
+                    self.n = root_finding.fixed_point_no_accel(fn,
+                                                               1.00001,
+                                                               args=(klinear, kstar, i0))
 
                 self.iL = i0 * self.n / (self.n - 1)
                 self.i0 = i0
-- 
2.43.0


From 6a431f333d509a680164c75ed2102c20af7791d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:27 +0000
Subject: [PATCH 050/140] fix: HansboNonDarcianFlowModel with iL=i0=0 and
 klinear divided by zero instead of reducing to Darcy flow

---
 .../velocity_hydraulic_gradient.py              | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/geotecha/constitutive_models/velocity_hydraulic_gradient.py b/geotecha/constitutive_models/velocity_hydraulic_gradient.py
index 7bb0e84..897893a 100644
--- a/geotecha/constitutive_models/velocity_hydraulic_gradient.py
+++ b/geotecha/constitutive_models/velocity_hydraulic_gradient.py
@@ -575,11 +575,18 @@ class HansboNonDarcianFlowModel(OneDimensionalFlowRelationship):
                 self.klinear = klinear
                 self.kstar = klinear / (self.n * self.iL**(self.n - 1))
         elif len([v for v in (iL, i0, klinear) if not v is None]) == 3:
-            self.n = iL / (iL - i0)
-            self.iL = iL
-            self.i0 = i0
-            self.klinear = klinear
-            self.kstar = klinear / (self.n * iL**(self.n - 1))
+            if iL == 0 and i0 == 0:
+                self.n = 1
+                self.iL = 0
+                self.i0 = 0
+                self.klinear = klinear
+                self.kstar = klinear
+            else:
+                self.n = iL / (iL - i0)
+                self.iL = iL
+                self.i0 = i0
+                self.klinear = klinear
+                self.kstar = klinear / (self.n * iL**(self.n - 1))
 
 
         if self.iL < self.i0:
-- 
2.43.0


From 3c2019ca7a8331e36e0051c9781fa195a061e47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:53 +0000
Subject: [PATCH 051/140] fix: YinAndGrahamSoilModel did not creep with time
 under constant effective stress

---
 .../constitutive_models/void_ratio_stress.py  | 27 ++++---------------
 1 file changed, 5 insertions(+), 22 deletions(-)

diff --git a/geotecha/constitutive_models/void_ratio_stress.py b/geotecha/constitutive_models/void_ratio_stress.py
index f32817e..d32eaa3 100644
--- a/geotecha/constitutive_models/void_ratio_stress.py
+++ b/geotecha/constitutive_models/void_ratio_stress.py
@@ -1302,7 +1302,7 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
                     {\\bigtriangleup t}}{\\sigma^{\\prime}_0}}\\right)^\\alpha\\,dt}
            =
            \\frac{1}{t_0}\\bigtriangleup t
-           \\left({\\frac{\\sigma^{\\prime}_{t}}{\\sigma^{\\prime}_0}}\\right)^{\\alpha+1}
+           \\left({\\frac{\\sigma^{\\prime}_{t}}{\\sigma^{\\prime}_0}}\\right)^{\\alpha}
 
         The value of the integral and the effective stress is stored
         within the YinAndGrahamSoilModel object and updated after each call
@@ -1641,27 +1641,10 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
         self._inc *= ((estress / self.estress0) ** (self._alpha + 1)
                       - (self._estress / self.estress0) ** (self._alpha + 1))
 
-        nans = np.isnan(self._inc)
-
-        # Following expression gives errors when t0, estress0 or _estress are
-        # not arrays so I did it differently (may be slower):
-        # self._inc[nans] = dt / self.t0[nans] * (self._estress[nans] / self.estress0[nans]) ** (self._alpha + 1)
-        if np.isscalar(self._estress):
-            self._inc[nans] = self._estress
-        else:
-            self._inc[nans] = self._estress[nans]
-
-        if np.isscalar(self.estress0):
-            self._inc[nans] /= self.estress0
-        else:
-            self._inc[nans] /= self.estress0[nans]
-
-        np.power(self._inc[nans],(self._alpha + 1),out=self._inc[nans])
-
-        if np.isscalar(self.t0):
-            self._inc[nans] /= self.t0
-        else:
-            self._inc[nans] /= self.t0[nans]
+        # stress does not change, except for rounding, during the increment
+        same = np.abs(estress - self._estress) <= 1e-8 * self._estress
+        self._inc[same] = (dt / self.t0 * (self._estress / self.estress0)
+                            ** self._alpha * np.ones_like(self._inc))[same]
 
         return self._inc
 
-- 
2.43.0


From 17e6c31fddd35efd69b7e07cec4a046e23ce0150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:42 +0000
Subject: [PATCH 052/140] fix: YinAndGrahamSoilModel.stress_from_e returned its
 work array, later calls changed earlier results

---
 geotecha/constitutive_models/void_ratio_stress.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/constitutive_models/void_ratio_stress.py b/geotecha/constitutive_models/void_ratio_stress.py
index d32eaa3..90cbe1e 100644
--- a/geotecha/constitutive_models/void_ratio_stress.py
+++ b/geotecha/constitutive_models/void_ratio_stress.py
@@ -1713,7 +1713,7 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
         self._igral += self._inc
         self._estress[:] = self._es
 
-        return  self._es
+        return self._es.copy()
 
 
 #    def e_and_stress_for_plotting(self, **kwargs):
-- 
2.43.0


From c0f3e0446f00c04daa138248bd9142b2bdf41328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:42 +0000
Subject: [PATCH 053/140] fix: CRSN and CRSS simulations started from, and left
 behind, the stress of an earlier simulation

---
 .../constitutive_models/void_ratio_stress.py     | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/geotecha/constitutive_models/void_ratio_stress.py b/geotecha/constitutive_models/void_ratio_stress.py
index 90cbe1e..0ca8723 100644
--- a/geotecha/constitutive_models/void_ratio_stress.py
+++ b/geotecha/constitutive_models/void_ratio_stress.py
@@ -1854,7 +1854,9 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
 
         """
 
-        igral0 = self._igral # remember _igral value before CRSN simulation
+        # remember state before CRSN simulation, which is from initial conditions
+        igral0, estress_ = self._igral, self._estress.copy()
+        self._reset_to_initial_conditions()
 
         method = kwargs.pop('method', 'step').lower()
         kwargs['dx']= kwargs.get('dx', (tvals[-1]  -tvals[0]) / 200)
@@ -1912,7 +1914,9 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
             for i, dt_ in enumerate(dt):
                 estress[i + 1] = self.stress_from_e(e[i+1], dt=dt_)
 
-        self._igral = igral0 # reset _igral to value before CRSN
+        # reset state to that before CRSN
+        self._igral = igral0
+        self._estress[:] = estress_
 
         return tvals_, estress, e, edot_
 
@@ -1966,7 +1970,9 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
 
         """
 
-        igral0 = self._igral # remember _igral value before CRSS simulation
+        # remember state before CRSS simulation, which is from initial conditions
+        igral0, estress_ = self._igral, self._estress.copy()
+        self._reset_to_initial_conditions()
 
         method = kwargs.pop('method', 'step').lower()
         kwargs['dx']= kwargs.get('dx', (tvals[-1]  -tvals[0]) / 200)
@@ -2022,7 +2028,9 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
             for i, dt_ in enumerate(dt):
                 e[i + 1] = self.e_from_stress(estress[i+1], dt=dt_)
 
-        self._igral = igral0 # reset _igral to value before CRSS
+        # reset state to that before CRSS
+        self._igral = igral0
+        self._estress[:] = estress_
 
         return tvals_, estress, e, estressdot_
 
-- 
2.43.0


From 63aef0fbe077fcddebaaa0f7f4afdbdc062ecaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:42 +0000
Subject: [PATCH 054/140] fix: new initial conditions of YinAndGrahamSoilModel
 kept the creep of the old ones

---
 geotecha/constitutive_models/void_ratio_stress.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geotecha/constitutive_models/void_ratio_stress.py b/geotecha/constitutive_models/void_ratio_stress.py
index 0ca8723..c56d3ff 100644
--- a/geotecha/constitutive_models/void_ratio_stress.py
+++ b/geotecha/constitutive_models/void_ratio_stress.py
@@ -1514,6 +1514,7 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
                       + kap * np.log(OCR))
 
             #make some temp arrays to speed calcs
+            self._igral = 0
             self._inc = np.zeros_like(estress0, dtype=float)
             self._es = np.zeros_like(estress0, dtype=float)
             self._estress = np.zeros_like(estress0, dtype=float)
-- 
2.43.0


From a9566aa993beef64c83fe3283606fc008175a8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:12 +0000
Subject: [PATCH 055/140] fix: odeint method of CRSN and CRSS gave nan when the
 solver stepped past the last time

---
 geotecha/constitutive_models/void_ratio_stress.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geotecha/constitutive_models/void_ratio_stress.py b/geotecha/constitutive_models/void_ratio_stress.py
index c56d3ff..cebdb1d 100644
--- a/geotecha/constitutive_models/void_ratio_stress.py
+++ b/geotecha/constitutive_models/void_ratio_stress.py
@@ -1897,7 +1897,8 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
                     ))
 
 
-            estress = odeint(func, self.estress0, tvals_)[:,0]
+            estress = odeint(func, self.estress0, tvals_,
+                             tcrit=np.unique(tvals)[1:])[:,0]
             edot_ = np.interp(tvals_, tvals, edot)
             e = self.e0 + pwise.integrate_x_y_between_xi_xj(tvals, edot, np.zeros_like(tvals_), tvals_)
 
@@ -2011,7 +2012,8 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
                         *(estressvalue / self.siga)**(self.lam / self.psi))
 
 
-            e = odeint(func, self.e0, tvals_)[:,0]
+            e = odeint(func, self.e0, tvals_,
+                       tcrit=np.unique(tvals)[1:])[:,0]
             estressdot_ = np.interp(tvals_, tvals, estressdot)
             estress = self.estress0 + pwise.integrate_x_y_between_xi_xj(tvals, estressdot, np.zeros_like(tvals_), tvals_)
 
-- 
2.43.0


From 907b052da706ffced99325be45b2d82d4cebf2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:41 +0000
Subject: [PATCH 056/140] fix: scalar EPUS.Drying overwrote the volume of pores
 that have just emptied

---
 geotecha/constitutive_models/epus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/constitutive_models/epus.py b/geotecha/constitutive_models/epus.py
index b1a5900..e1aa0fe 100644
--- a/geotecha/constitutive_models/epus.py
+++ b/geotecha/constitutive_models/epus.py
@@ -594,7 +594,7 @@ class EPUS(object):
                     if Stress + ss_new > f.YieldSt[i]:
                         f.YieldSt[i] = Stress + ss_new
 
-                f.RVC[i] = Changevolume(f.RV[i], f.YieldSt[i], Stress + ss_new, f.Ccp[i], f.Csp[i])
+                    f.RVC[i] = Changevolume(f.RV[i], f.YieldSt[i], Stress + ss_new, f.Ccp[i], f.Csp[i])
 
             else:
                 # Do not care about the pore that is already dried
-- 
2.43.0


From 494936266222b5e6bac9abc7e4f052685e64ad0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:50 +0000
Subject: [PATCH 057/140] fix: scalar EPUS.Wetting used the reference
 saturation of the previous suction

---
 geotecha/constitutive_models/epus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/constitutive_models/epus.py b/geotecha/constitutive_models/epus.py
index e1aa0fe..08e656e 100644
--- a/geotecha/constitutive_models/epus.py
+++ b/geotecha/constitutive_models/epus.py
@@ -616,7 +616,6 @@ class EPUS(object):
         f = self.f
         Stress = self.Stress
         Assumption = self.Assumption
-        RefSr = self.RefSr
         pm = self.pm
 
         if self.Curveon==1:
@@ -634,6 +633,7 @@ class EPUS(object):
         elif self.Curveon==3:
             self.Curveon = 3
             self.RefSr = RfSr_value(3, ss_new)
+        RefSr = self.RefSr
 
         for i in range(f.Npoint):
             s = 10 ** f.WEV[i]
-- 
2.43.0


From 5aa236537b20171712e0dc03d2a23049f1a88cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:50 +0000
Subject: [PATCH 058/140] fix: StressPath steps without a name raised TypeError

---
 geotecha/constitutive_models/epus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/constitutive_models/epus.py b/geotecha/constitutive_models/epus.py
index 08e656e..9e8a82c 100644
--- a/geotecha/constitutive_models/epus.py
+++ b/geotecha/constitutive_models/epus.py
@@ -1261,12 +1261,12 @@ class StressPath(object):
             else:
                 if self.ist[i]:
                     name = ("Step #{:s}, stress change to "
-                            "{:g} kPa.".format(str[i].zfill(3),
+                            "{:g} kPa.".format(str(i).zfill(3),
                                           self.vl[i]))
 
                 else:
                     name = ("Step #{:s}, suction change to "
-                            "{:g} kPa.".format(str[i].zfill(3),
+                            "{:g} kPa.".format(str(i).zfill(3),
                                           self.vl[i]))
                 self.name.append(name)
 
-- 
2.43.0


From 53c3e2b1d1cb2194aa6f8ebcbb927bf315ecab4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:09 +0000
Subject: [PATCH 059/140] fix: EpusProfile ignored Npoint_refine and npp_refine

---
 geotecha/constitutive_models/epus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/constitutive_models/epus.py b/geotecha/constitutive_models/epus.py
index 9e8a82c..f10e3b8 100644
--- a/geotecha/constitutive_models/epus.py
+++ b/geotecha/constitutive_models/epus.py
@@ -1665,8 +1665,8 @@ class EpusProfile(object):
                                       self.npp_refine):
 
             self._nz = int(fnz * self.nz)
-            self._Npoint = int(fnz * self.Npoint)
-            self._npp = int(fnz * self.npp)
+            self._Npoint = int(fNpoint * self.Npoint)
+            self._npp = int(fnpp * self.npp)
 
 
             new_profile = self._blank_profile(nz=self._nz)
-- 
2.43.0


From d49dcc89d17e88dfc34d69bb978fb7c7a5895c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:09 +0000
Subject: [PATCH 060/140] fix: EpusProfile never reported that max_iter was
 reached

---
 geotecha/constitutive_models/epus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/constitutive_models/epus.py b/geotecha/constitutive_models/epus.py
index f10e3b8..1ddf3e3 100644
--- a/geotecha/constitutive_models/epus.py
+++ b/geotecha/constitutive_models/epus.py
@@ -1698,7 +1698,7 @@ class EpusProfile(object):
                     break
 
 
-            if j>=self.max_iter:
+            else:
                 raise ValueError("Maximum iterations reached while nz={}".format(self._nz))
             self.niter.append(j+1)
 
-- 
2.43.0


From 77b4e0d7c997fe6cc5ae8cd2f8d3e5be39e45611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:09 +0000
Subject: [PATCH 061/140] fix: epus_ext read past the end of SrDry and SrWet at
 the maximum suction

---
 geotecha/constitutive_models/epus_ext.f95 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/constitutive_models/epus_ext.f95 b/geotecha/constitutive_models/epus_ext.f95
index 7f8152c..9c68a85 100644
--- a/geotecha/constitutive_models/epus_ext.f95
+++ b/geotecha/constitutive_models/epus_ext.f95
@@ -787,11 +787,11 @@
 
           If (curvetype .EQ. 1) Then
             RfSr_value = Srdry(int((Log10(ssvalue) - MinSuction) &
-                / ((MaxSuction - MinSuction) / NumSr)) + 1)
+                / ((MaxSuction - MinSuction) / (NumSr - 1))) + 1)
           End If
           If (curvetype .EQ. 3) Then
             RfSr_value = Srwet(int((Log10(ssvalue) - MinSuction) &
-                / ((MaxSuction - MinSuction) / NumSr)) + 1)
+                / ((MaxSuction - MinSuction) / (NumSr - 1))) + 1)
           End If
         !'A-88
 
-- 
2.43.0


From dad30147161f3ee344fb320d67d722a33295715e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:54 +0000
Subject: [PATCH 062/140] fix: EpusProfile.compression_indexes applied a zero
 or negative suction where uw equals dpsi

---
 geotecha/constitutive_models/epus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/constitutive_models/epus.py b/geotecha/constitutive_models/epus.py
index 1ddf3e3..04e074b 100644
--- a/geotecha/constitutive_models/epus.py
+++ b/geotecha/constitutive_models/epus.py
@@ -1888,7 +1888,7 @@ class EpusProfile(object):
                 stp.append(dict(ist=False, npp=self._npp, vl=ss+dpsi,
                                 name="3. uw decrease--> suction increase"))
             else:
-                if uw - dpsi >= (10 ** self.epus_object.MinSuction):
+                if dpsi - uw <= (10 ** self.epus_object.MinSuction):
                     #uw starts saturated and ends in saturated
                     #increase stress by dpsi
                     stp.append(dict(ist=True, npp=self._npp, vl=st+dpsi,
-- 
2.43.0


From 43ce4f80b15cd652cecda629f346add0fbdcd81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:59 +0000
Subject: [PATCH 063/140] fix: shanks truncated the extrapolation of integer
 sequences

---
 geotecha/mathematics/quadrature.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geotecha/mathematics/quadrature.py b/geotecha/mathematics/quadrature.py
index 06d0424..1f1f277 100644
--- a/geotecha/mathematics/quadrature.py
+++ b/geotecha/mathematics/quadrature.py
@@ -1170,6 +1170,8 @@ def shanks(seq, ind=0):
     """
 
     seq = np.atleast_1d(seq)
+    if not np.issubdtype(seq.dtype, np.inexact):
+        seq = seq.astype(float)
 
     if ind is None:
         return +seq[..., -1]
-- 
2.43.0


From 1f86c7df64c184625823dcb211c731ece54e91bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:32 +0000
Subject: [PATCH 064/140] fix: polygon_area was nan for clockwise 2D polygons
 and negative when the normal was mostly along y

---
 geotecha/mathematics/geometry.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/geotecha/mathematics/geometry.py b/geotecha/mathematics/geometry.py
index 2627763..3444a05 100644
--- a/geotecha/mathematics/geometry.py
+++ b/geotecha/mathematics/geometry.py
@@ -236,10 +236,9 @@ def polygon_area(pts):
     x, y, z = xyz_from_pts(pts,True)
     n, d = eqn_of_plane(pts)
 
-    i = np.argmax(n) #project polygon onto plane that is perpendicular to this direction, then integrate the area
+    i = np.argmax(np.abs(n)) #project polygon onto plane that is perpendicular to this direction, then integrate the area
 
-    j = list(range(3))
-    j.pop(i) #remaining directions
+    j = [(i + 1) % 3, (i + 2) % 3] #remaining directions, cyclic order keeps the sign
     e = (x, y, z)
     def if1dxdy(x, y):
         """integrate f=1 over polygon of x,y points"""
-- 
2.43.0


From 372095c05821929ccd7dfe32d0236f22d26c24bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:32 +0000
Subject: [PATCH 065/140] fix: polygon_centroid ignored the offset of axis
 aligned planes and was inaccurate for nearly aligned ones

---
 geotecha/mathematics/geometry.py | 38 +++++++++-----------------------
 1 file changed, 10 insertions(+), 28 deletions(-)

diff --git a/geotecha/mathematics/geometry.py b/geotecha/mathematics/geometry.py
index 3444a05..b63f34e 100644
--- a/geotecha/mathematics/geometry.py
+++ b/geotecha/mathematics/geometry.py
@@ -281,36 +281,18 @@ def polygon_centroid(pts):
     a = polygon_area(pts)
 
 
-    xc=0.0
-    yc=0.0
-    zc=0.0
-
-    calcd = [False,False,False]
-
+    #project on the plane most perpendicular to the normal, e.g. xy
+    k = np.argmax(np.abs(n))
+    i, j = (k + 1) % 3, (k + 2) % 3
+    e = (x, y, z)
 
-    if n[0]!=0:#project on yz plane
-        if not calcd[1]:
-            yc = ifxdxdy(y, z)/ (n[0] * a)
-            calcd[1]= True
-        if not calcd[2]:
-            zc = ifydxdy(y, z)/ (n[0] * a)
-            calcd[2]= True
-    if n[1]!=0: #project on zx plane
-        if not calcd[2]:
-            zc = ifxdxdy(z, x)/ (n[1] * a)
-            calcd[2]= True
-        if not calcd[0]:
-            xc = ifydxdy(z, x)/ (n[1] * a)
-            calcd[0]= True
-    if n[2]!=0: #project on xy plane
-        if not calcd[0]:
-            xc = ifxdxdy(x, y)/ (n[2] * a)
-            calcd[0]= True
-        if not calcd[1]:
-            yc = ifydxdy(x, y)/ (n[2] * a)
-            calcd[1]= True
+    c = np.zeros(3, dtype=float)
+    c[i] = ifxdxdy(e[i], e[j]) / (n[k] * a)
+    c[j] = ifydxdy(e[i], e[j]) / (n[k] * a)
+    #centroid is on the plane of the polygon
+    c[k] = -(n[i] * c[i] + n[j] * c[j] + d) / n[k]
 
-    return np.array([xc, yc, zc])
+    return c
 
 
 def polygon_2nd_moment_of_area(pts):
-- 
2.43.0


From e316ef92616c7d41ea6efbff81168c005fa69714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:32 +0000
Subject: [PATCH 066/140] fix: polygon_2nd_moment_of_area was wrong for
 polygons in planes nearly perpendicular to an axis

---
 geotecha/mathematics/geometry.py | 53 +++++++++++++-------------------
 1 file changed, 21 insertions(+), 32 deletions(-)

diff --git a/geotecha/mathematics/geometry.py b/geotecha/mathematics/geometry.py
index b63f34e..db2f8ef 100644
--- a/geotecha/mathematics/geometry.py
+++ b/geotecha/mathematics/geometry.py
@@ -326,44 +326,33 @@ def polygon_2nd_moment_of_area(pts):
             x[1:]*y[:-1]*y[1:]/6 - x[1:]*y[:-1]*yc/3 + x[1:]*y[1:]**2/4 -
             2*x[1:]*y[1:]*yc/3 + x[1:]*yc**2/2))
 
+    def ifxydxdy(x,y,xc,yc):
+        """integrate f = (x - xc)*(y - yc) over polygon of x,y points"""
+        x0, x1, y0, y1 = x[:-1] - xc, x[1:] - xc, y[:-1] - yc, y[1:] - yc
+        return np.sum((y1 - y0)*(x0**2*(3*y0 + y1) + 2*x0*x1*(y0 + y1) +
+            x1**2*(y0 + 3*y1)))/24
+
 
     pts = np.asarray(pts)
     x, y, z = xyz_from_pts(pts, True)
     n, d = eqn_of_plane(pts)
     a = polygon_area(pts)
 
-    xc,yc,zc = polygon_centroid(pts)
-
-    ixx=0.0
-    iyy=0.0
-    izz=0.0
-
-    calcd = [False, False, False]
-
-
-    if n[0]!=0:#project on yz plane
-        if not calcd[1]:
-            iyy = ifx2dxdy(y, z, yc)/ (n[0] * a)
-            calcd[1]= True
-        if not calcd[2]:
-            izz = ify2dxdy(y, z, zc)/ (n[0] * a)
-            calcd[2]= True
-    if n[1]!=0: #project on zx plane
-        if not calcd[2]:
-            izz = ifx2dxdy(z, x, zc)/ (n[1] * a)
-            calcd[2]= True
-        if not calcd[0]:
-            ixx = ify2dxdy(z, x, xc)/ (n[1] * a)
-            calcd[0]= True
-    if n[2]!=0: #project on xy plane
-        if not calcd[0]:
-            ixx = ifx2dxdy(x, y, xc)/ (n[2] * a)
-            calcd[0]= True
-        if not calcd[1]:
-            iyy = ify2dxdy(x, y, yc)/ (n[2] * a)
-            calcd[1]= True
-
-    return np.array([ixx, iyy, izz])
+    c = polygon_centroid(pts)
+
+    #project on the plane most perpendicular to the normal, e.g. xy
+    k = np.argmax(np.abs(n))
+    i, j = (k + 1) % 3, (k + 2) % 3
+    e = (x, y, z)
+
+    ii = np.zeros(3, dtype=float)
+    ii[i] = ifx2dxdy(e[i], e[j], c[i]) / (n[k] * a)
+    ii[j] = ify2dxdy(e[i], e[j], c[j]) / (n[k] * a)
+    iij = ifxydxdy(e[i], e[j], c[i], c[j]) / (n[k] * a)
+    #distance in direction k follows from the plane of the polygon
+    ii[k] = (n[i]**2 * ii[i] + 2 * n[i] * n[j] * iij + n[j]**2 * ii[j]) / n[k]**2
+
+    return ii
 
 def polyhedron_volume(faces):
     """Volume of polyhedron defined by faces defined py pts
-- 
2.43.0


From b415bb2f866cf2b5531e8177f79200699af44f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:32 +0000
Subject: [PATCH 067/140] fix: polyhedron_volume was wrong when rounding gave a
 tiny x component of a face normal

---
 geotecha/mathematics/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/mathematics/geometry.py b/geotecha/mathematics/geometry.py
index db2f8ef..7db54cc 100644
--- a/geotecha/mathematics/geometry.py
+++ b/geotecha/mathematics/geometry.py
@@ -381,7 +381,7 @@ def polyhedron_volume(faces):
         pts = np.asarray(pts)
         x, y, z = xyz_from_pts(pts,True)
         (n1,n2,n3),d = eqn_of_plane(pts)
-        if n1==0:
+        if abs(n1) < 1e-8: #no contribution, and n1 is not accurate
             continue
         #generate code with integrate_f_over_polyhedra_code(1)
         v += np.sum((-z[:-1] + z[1:])*((-2*d*y[:-1] - n2*y[:-1]**2 -
-- 
2.43.0


From adde7026fc30b21b0ced324a6862632ebd185d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:19 +0000
Subject: [PATCH 068/140] fix: FourierTransform of an imaginary function
 without symmetry had the wrong sign for the odd part

---
 geotecha/mathematics/fourier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/mathematics/fourier.py b/geotecha/mathematics/fourier.py
index aa91207..b1b00e7 100644
--- a/geotecha/mathematics/fourier.py
+++ b/geotecha/mathematics/fourier.py
@@ -463,11 +463,11 @@ class FourierTransform(object):
                 # real transform result [-inf, 0]
                 ig, er = [self.inv_const * self.inv_sign * v for v in
                         sine_transform(self.mfo, s, a=self.a, b=self.b)]
-                igral -= ig; err += er
+                igral += ig; err += er
                 # real transform result [0, inf]
                 ig, er = [self.inv_const * self.inv_sign * v for v in
                         sine_transform(self.func, s, self.args, a=self.a, b=self.b)]
-                igral -= ig; err += er
+                igral += ig; err += er
 
                 return igral, err
 
-- 
2.43.0


From 459807090aa056e8db4eafce52b1580cddc479f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:19 +0000
Subject: [PATCH 069/140] fix: FourierTransform of complex functions ignored
 imag_part_odd and lost the real part with imag_part_even or real_part_odd

---
 geotecha/mathematics/fourier.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/geotecha/mathematics/fourier.py b/geotecha/mathematics/fourier.py
index b1b00e7..cb5328e 100644
--- a/geotecha/mathematics/fourier.py
+++ b/geotecha/mathematics/fourier.py
@@ -505,12 +505,12 @@ class FourierTransform(object):
 
 
         if self.imag_part_even:
-            igral, err = [2.j * self.inv_const * v for v in
-                        cosine_transform(self.func, s, self.args, a=self.a, b=self.b)]
+            ig, er = [2.j * self.inv_const * v for v in
+                        cosine_transform(self.imag_func, s, a=self.a, b=self.b)]
             igral += ig; err += er
-        elif self.real_part_odd:
-            igral, err = [2 * self.inv_const * self.inv_sign * v for v in
-                        sine_transform(self.func, s, self.args, a=self.a, b=self.b)]
+        elif self.imag_part_odd:
+            ig, er = [2 * self.inv_const * self.inv_sign * v for v in
+                        sine_transform(self.imag_func, s, a=self.a, b=self.b)]
             igral += ig; err += er
         else:
             #imag part of function exhibits no symmetry
-- 
2.43.0


From 120e87da6a000fc45ddd925d2e8a0a0092a8495c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:19 +0000
Subject: [PATCH 070/140] fix: error estimates of FourierTransform were complex
 or negative

---
 geotecha/mathematics/fourier.py | 48 ++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/geotecha/mathematics/fourier.py b/geotecha/mathematics/fourier.py
index cb5328e..04cdfe7 100644
--- a/geotecha/mathematics/fourier.py
+++ b/geotecha/mathematics/fourier.py
@@ -409,11 +409,11 @@ class FourierTransform(object):
                 igral, err = [2 * self.inv_const * v for v in
                         cosine_transform(self.func, s, self.args,
                                          a=self.a, b=self.b)]
-                return igral, err
+                return igral, abs(err)
             elif self.real_part_odd:
                 igral, err = [2.j * self.inv_const * self.inv_sign * v for v in
                         sine_transform(self.func, s, self.args, a=self.a, b=self.b)]
-                return -igral, err
+                return -igral, abs(err)
 
             else:
                 #func is real and exhibits no symmetry.
@@ -423,30 +423,30 @@ class FourierTransform(object):
                 # real transform result [-inf, 0]
                 ig, er = [self.inv_const * v for v in
                         cosine_transform(self.mfe, s, a=self.a, b=self.b)]
-                igral += ig; err += er
+                igral += ig; err += abs(er)
                 # real transform result [-, inf]
                 ig, er = [self.inv_const * v for v in
                         cosine_transform(self.func, s, self.args, a=self.a, b=self.b)]
-                igral += ig; err += er
+                igral += ig; err += abs(er)
                 # imag transform result [0, inf]
                 ig, er = [1.j * self.inv_const * self.inv_sign * v for v in
                         sine_transform(self.mfo, s, a=self.a, b=self.b)]
-                igral -= ig; err += er
+                igral -= ig; err += abs(er)
                 # imag transform result [-inf, 0]
                 ig, er = [1.j * self.inv_const * self.inv_sign * v for v in
                         sine_transform(self.func, s, self.args, a=self.a, b=self.b)]
-                igral -= ig; err += er
+                igral -= ig; err += abs(er)
                 return igral, err
 
         if self.func_is_imag:
             if self.imag_part_even:
                 igral, err = [2.j * self.inv_const * v for v in
                         cosine_transform(self.func, s, self.args, a=self.a, b=self.b)]
-                return igral, err
+                return igral, abs(err)
             elif self.imag_part_odd:
                 igral, err =  [2 * self.inv_const * self.inv_sign * v for v in
                         sine_transform(self.func, s, self.args, a=self.a, b=self.b)]
-                return igral, err
+                return igral, abs(err)
             else:
                 #func is imaginary and ehibits non symmetry
                 igral = 0
@@ -455,19 +455,19 @@ class FourierTransform(object):
                 # imag transform result [-inf, 0]
                 ig, er = [1.j * self.inv_const * v for v in
                         cosine_transform(self.mfe, s, a=self.a, b=self.b)]
-                igral += ig; err += er
+                igral += ig; err += abs(er)
                 # imag transform result [0, inf]
                 ig,er = [1.j * self.inv_const * v for v in
                         cosine_transform(self.func, s, self.args, a=self.a, b=self.b)]
-                igral += ig; err += er
+                igral += ig; err += abs(er)
                 # real transform result [-inf, 0]
                 ig, er = [self.inv_const * self.inv_sign * v for v in
                         sine_transform(self.mfo, s, a=self.a, b=self.b)]
-                igral += ig; err += er
+                igral += ig; err += abs(er)
                 # real transform result [0, inf]
                 ig, er = [self.inv_const * self.inv_sign * v for v in
                         sine_transform(self.func, s, self.args, a=self.a, b=self.b)]
-                igral += ig; err += er
+                igral += ig; err += abs(er)
 
                 return igral, err
 
@@ -478,58 +478,58 @@ class FourierTransform(object):
         if self.real_part_even:
             ig, er = [2 * self.inv_const * v for v in
                         cosine_transform(self.real_func, s, a=self.a, b=self.b)]
-            igral += ig; err += er
+            igral += ig; err += abs(er)
         elif self.real_part_odd:
             # 2 * I(real_func * sin(s*x), 0, +inf)
             ig, er = [2.j * self.inv_const * self.inv_sign * v for v in
                         sine_transform(self.real_func, s, a=self.a, b=self.b)]
-            igral -= ig; err += er
+            igral -= ig; err += abs(er)
         else:
             #real part of function exhibits no symmetry
             # real transform result [-inf, 0]
             ig, er = [self.inv_const * v for v in
                         cosine_transform(self.mfre, s, a=self.a, b=self.b)]
-            igral += ig; err += er
+            igral += ig; err += abs(er)
             # real transform result [0, inf]
             ig, er = [self.inv_const * v for v in
                         cosine_transform(self.real_func, s, a=self.a, b=self.b)]
-            igral += ig; err += er
+            igral += ig; err += abs(er)
             # imag transform result [-inf, 0]
             ig, er = [1.j * self.inv_const * self.inv_sign * v for v in
                         sine_transform(self.mfro, s, a=self.a, b=self.b)]
-            igral -= ig; err += er
+            igral -= ig; err += abs(er)
             # imag transform result [0, inf]
             ig, er = [1.j * self.inv_const * self.inv_sign * v for v in
                         sine_transform(self.real_func, s, a=self.a, b=self.b)]
-            igral -= ig; err += er
+            igral -= ig; err += abs(er)
 
 
         if self.imag_part_even:
             ig, er = [2.j * self.inv_const * v for v in
                         cosine_transform(self.imag_func, s, a=self.a, b=self.b)]
-            igral += ig; err += er
+            igral += ig; err += abs(er)
         elif self.imag_part_odd:
             ig, er = [2 * self.inv_const * self.inv_sign * v for v in
                         sine_transform(self.imag_func, s, a=self.a, b=self.b)]
-            igral += ig; err += er
+            igral += ig; err += abs(er)
         else:
             #imag part of function exhibits no symmetry
             # imag transform result [-inf, 0]
             ig, er = [1.j * self.inv_const * v for v in
                         cosine_transform(self.mfie, s, a=self.a, b=self.b)]
-            igral += ig; err += er
+            igral += ig; err += abs(er)
             # imag transform result [0, inf]
             ig, er = [1.j * self.inv_const * v for v in
                         cosine_transform(self.imag_func, s, a=self.a, b=self.b)]
-            igral += ig; err += er
+            igral += ig; err += abs(er)
             # real transform result [-inf, 0]
             ig, er = [self.inv_const * self.inv_sign * v for v in
                         sine_transform(self.mfio, s, a=self.a, b=self.b)]
-            igral += ig; err += er
+            igral += ig; err += abs(er)
             # real transform result [0, inf]
             ig, er = [self.inv_const * self.inv_sign * v for v in
                         sine_transform(self.imag_func, s, a=self.a, b=self.b)]
-            igral += ig; err += er
+            igral += ig; err += abs(er)
         return igral, err
 
 
-- 
2.43.0


From 895d5ac47ebf35c0544d8a09b664570663b9dfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:31 +0000
Subject: [PATCH 071/140] fix: vectorised transforms altered the array returned
 by the function and failed for integer valued functions

---
 geotecha/mathematics/fourier.py | 5 ++---
 geotecha/mathematics/hankel.py  | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/geotecha/mathematics/fourier.py b/geotecha/mathematics/fourier.py
index 04cdfe7..01d0e34 100644
--- a/geotecha/mathematics/fourier.py
+++ b/geotecha/mathematics/fourier.py
@@ -618,7 +618,7 @@ def vcosine_transform(f, s, args=(), m=20, ng=20, shanks_ind=None):
     xijk = bma * xk_ + bpa # xj_ are in [-1, 1] so need to transform to [a, b]
 
     fijk = f(xijk, *args)
-    fijk *= np.cos(si * xijk)
+    fijk = fijk * np.cos(si * xijk)
 #    fijk *= xijk
 
     igral = bma[:,:,0] * np.sum(fijk * wk, axis=2)
@@ -734,8 +734,7 @@ def v2dcosine_transform(f, s1, s2, args=(), m=20, ng=20, shanks_ind=None):
     xlmn = bmalm * xn_ + bpalm
 
     fijklmn=f(xijk, xlmn, *args)
-    fijklmn*=np.cos(si*xijk)
-    fijklmn*=np.cos(sl*xlmn)
+    fijklmn = fijklmn * (np.cos(si*xijk) * np.cos(sl*xlmn))
 
     fijklmn*=wk
     fijklmn*=wn
diff --git a/geotecha/mathematics/hankel.py b/geotecha/mathematics/hankel.py
index 68c3de5..a599a1d 100644
--- a/geotecha/mathematics/hankel.py
+++ b/geotecha/mathematics/hankel.py
@@ -351,7 +351,7 @@ def vhankel_transform(f, r, args=(), order=0, m=20, ng=20, shanks_ind=None):
     xijk = bma * xk_ + bpa # xj_ are in [-1, 1] so need to transform to [a, b]
 
     fijk = f(xijk, *args)
-    fijk *= jn(order, ri * xijk)
+    fijk = fijk * jn(order, ri * xijk)
     fijk *= xijk
 
     igral = bma[:,:,0] * np.sum(fijk * wk, axis=2)
-- 
2.43.0


From 50c86c372457f929699d4e2c194220b01eeb1737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:20 +0000
Subject: [PATCH 072/140] fix: ntransform failed when one dict of options was
 given for all transforms

---
 geotecha/mathematics/multi_transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geotecha/mathematics/multi_transform.py b/geotecha/mathematics/multi_transform.py
index 0daa2d3..c90c5aa 100644
--- a/geotecha/mathematics/multi_transform.py
+++ b/geotecha/mathematics/multi_transform.py
@@ -147,9 +147,9 @@ def ntransform(func, transforms, transvars, args=None, opts=None):
 
     if isinstance(opts, dict):
         opts = [opts] * depth
-    else:
-        opts = [opt if callable(opt) else
-                _OptFunc(opt) for opt in opts]
+
+    opts = [opt if callable(opt) else
+            _OptFunc(opt) for opt in opts]
 
     return _NTransform(func, transforms,
                        transvars, opts).integral_transform(*args)
-- 
2.43.0


From 991770d70dcfedf608804bb2ac13e15f403ad7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:21 +0000
Subject: [PATCH 073/140] fix: ntransform of two or more inverse Laplace
 transforms dropped the imaginary part of the inner inverses

---
 geotecha/mathematics/laplace.py         | 13 ++++++++++---
 geotecha/mathematics/multi_transform.py |  5 ++++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/geotecha/mathematics/laplace.py b/geotecha/mathematics/laplace.py
index be691b4..31de1a8 100644
--- a/geotecha/mathematics/laplace.py
+++ b/geotecha/mathematics/laplace.py
@@ -115,7 +115,7 @@ class Talbot(object):
         self.shift = shift
         self.vectorized = vectorized
 
-    def __call__(self, t, args=()):
+    def __call__(self, t, args=(), real=True):
         """Numerical inverse laplace transform of F at various time t.
 
         Parameters
@@ -124,6 +124,10 @@ class Talbot(object):
             Time values to evaluate inverse laplace at.
         args : tuple, optional
             Additional arguments to pass to F. Default args=()
+        real : True/False, optional
+            If True then the inverse is a real function of time and only
+            its real part is returned.  Use False when the inverse is complex,
+            e.g. when `args` are complex. Default real=True.
 
         Returns
         -------
@@ -156,10 +160,13 @@ class Talbot(object):
 
         inv_laplace *= h / (2j * np.pi)
 
+        if real:
+            inv_laplace = inv_laplace.real
+
         if len(inv_laplace)==1:
-            return inv_laplace[0].real
+            return inv_laplace[0]
         else:
-            return inv_laplace.real
+            return inv_laplace
 
 if __name__ == '__main__':
     import nose
diff --git a/geotecha/mathematics/multi_transform.py b/geotecha/mathematics/multi_transform.py
index c90c5aa..24f219d 100644
--- a/geotecha/mathematics/multi_transform.py
+++ b/geotecha/mathematics/multi_transform.py
@@ -218,7 +218,10 @@ class _NTransform(object):
         return val, err
     def laplace_inverse(self, f, tvar, args, **opt):
         ilt = Talbot(f, **opt)
-        val = ilt(tvar, args)
+        # variables of an outer inverse Laplace transform are complex and so
+        # is the inverse with respect to this variable.
+        val = ilt(tvar, args,
+                  real=not any(np.iscomplexobj(v) for v in args))
         return val, 0.0
 
     def integral_transform(self, *args, **kwargs):
-- 
2.43.0


From ef963b1ae113189a4a596d3f43588f7110c5e905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:53 +0000
Subject: [PATCH 074/140] fix: SyntaxChecker let text use any builtin after
 assigning to its name

---
 geotecha/inputoutput/inputoutput.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index 6c012fa..12a9a0e 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -195,11 +195,36 @@ class SyntaxChecker(ast.NodeVisitor):
         if type(node.ctx).__name__=='Store':
             self.assigned_names.add(node.id)
         elif type(node.ctx).__name__=='Load':
+            if self._is_forbidden_name(node.id):
+                raise SyntaxError("cannot use {} as name, function, or attribute!".format(node.id))
             if node.id not in self.safe_names and node.id not in self.allowed_functions and node.id not in self.allowed_attributes and node.id not in self.assigned_names:
                 raise SyntaxError("cannot use {} as name, function, or attribute!".format(node.id))
                 sys.exit(0)
         ast.NodeVisitor.generic_visit(self, node)#
 
+    def _is_forbidden_name(self, name):
+        """True if `name` can give access to something that is not allowed
+
+        Builtins and double underscore names exist before anything is
+        assigned to them.  Assigning to them (perhaps in code that is never
+        run) does not make them safe.
+
+        """
+
+        if (name in self.safe_names or name in self.allowed_functions or
+                name in self.allowed_attributes):
+            return False
+        return (hasattr(__builtin__, name) or
+                (name.startswith('__') and name.endswith('__')))
+
+    def visit_AugAssign(self, node):
+        """Custom visit an 'AugAssign' node, the target is read and stored"""
+
+        if (type(node.target).__name__=='Name' and
+                self._is_forbidden_name(node.target.id)):
+            raise SyntaxError("cannot use {} as name, function, or attribute!".format(node.target.id))
+        self.generic_visit(node)
+
     def visit_Attribute(self, node):
         """Custom visit an 'Attribute' node"""
 
-- 
2.43.0


From 47944925f1a0e458bacf4111ab25dee97ea33e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:53 +0000
Subject: [PATCH 075/140] fix: SyntaxChecker rejected every comprehension and
 lambda that used its own variable

---
 geotecha/inputoutput/inputoutput.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index 12a9a0e..8ec7733 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -202,6 +202,26 @@ class SyntaxChecker(ast.NodeVisitor):
                 sys.exit(0)
         ast.NodeVisitor.generic_visit(self, node)#
 
+    def _visit_comprehension(self, node):
+        """Custom visit a comprehension: its variables are assigned first"""
+
+        if type(node).__name__ not in self.allowed_node_types:
+            raise SyntaxError("{} is not allowed!".format(type(node).__name__))
+        for v in node.generators:
+            self.visit(v)
+        self.generic_visit(node)
+
+    visit_ListComp = _visit_comprehension
+    visit_SetComp = _visit_comprehension
+    visit_DictComp = _visit_comprehension
+    visit_GeneratorExp = _visit_comprehension
+
+    def visit_arg(self, node):
+        """Custom visit an argument of a lambda or function definition"""
+
+        self.assigned_names.add(node.arg)
+        self.generic_visit(node)
+
     def _is_forbidden_name(self, name):
         """True if `name` can give access to something that is not allowed
 
-- 
2.43.0


From de41252edc151f49f1901667153ffe272723b158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:53 +0000
Subject: [PATCH 076/140] fix: a reused SyntaxChecker allowed names that were
 assigned only in earlier text

---
 geotecha/inputoutput/inputoutput.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index 8ec7733..42171fb 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -669,6 +669,7 @@ def make_module_from_text(reader, syntax_checker=None):
         raise TypeError('syntax_checker should be a SyntaxChecker instance.')
 
     tree = ast.parse(reader, mode='exec')
+    syntax_checker.assigned_names = set() #names assigned in any earlier text
     syntax_checker.visit(tree)
     compiled = compile(tree, '<string>', "exec")
     mymodule.__dict__.update(syntax_checker.allowed_functions)
-- 
2.43.0


From 52c6dec19a7288188367215d412319392b850a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:17 +0000
Subject: [PATCH 077/140] fix: next_output_stem treated the prefix as a regular
 expression

---
 geotecha/inputoutput/inputoutput.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index 42171fb..189bdf8 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -1736,7 +1736,7 @@ def next_output_stem(prefix, path=None, start=1, inc=1, zfill=3,
         cwd = path
 
 
-    pattern = re.compile(prefix + "(?P<x>\d+).*")
+    pattern = re.compile(re.escape(prefix) + r"(?P<x>\d+).*")
 
     nums = []
     for nm in os.listdir(cwd):
-- 
2.43.0


From f477d4052dd1e959470c2412a65c1be4a49672cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:47 +0000
Subject: [PATCH 078/140] fix: SyntaxChecker did not check that Name, Call and
 Attribute nodes are allowed

---
 geotecha/inputoutput/inputoutput.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index 189bdf8..5c49fa2 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -171,12 +171,19 @@ class SyntaxChecker(ast.NodeVisitor):
             "'{0}'. i.e. '{1}' is not a valid member "
             "of the allow list".format(s,v))
 
+    def _check_node_type(self, node):
+        """Raise SyntaxError if type of node is not allowed"""
+
+        if type(node).__name__ not in self.allowed_node_types:
+            raise SyntaxError("{} is not allowed!".format(type(node).__name__))
+
     def visit_Call(self, node):
         """Custom visit a 'Call' node"""
 
         if self.print_each_node:
             print('CALL:', ast.dump(node))
 
+        self._check_node_type(node)
         if hasattr(node.func,'id'):
             if node.func.id not in self.allowed_functions:
                 raise SyntaxError("{} is not an allowed function!".format(node.func.id))
@@ -192,6 +199,7 @@ class SyntaxChecker(ast.NodeVisitor):
         if self.print_each_node:
             print('NAME: ', ast.dump(node))
 
+        self._check_node_type(node)
         if type(node.ctx).__name__=='Store':
             self.assigned_names.add(node.id)
         elif type(node.ctx).__name__=='Load':
@@ -205,8 +213,7 @@ class SyntaxChecker(ast.NodeVisitor):
     def _visit_comprehension(self, node):
         """Custom visit a comprehension: its variables are assigned first"""
 
-        if type(node).__name__ not in self.allowed_node_types:
-            raise SyntaxError("{} is not allowed!".format(type(node).__name__))
+        self._check_node_type(node)
         for v in node.generators:
             self.visit(v)
         self.generic_visit(node)
@@ -251,6 +258,7 @@ class SyntaxChecker(ast.NodeVisitor):
         if self.print_each_node:
             print('ATTRIBUTE:', ast.dump(node))
 
+        self._check_node_type(node)
         if node.attr not in self.allowed_functions and node.attr not in self.allowed_attributes:
             raise SyntaxError("{} is not an allowed attribute!".format(node.attr))
             sys.exit(0)
-- 
2.43.0


From c0b4ea90fa12bad4ce8913e3622471121dc26502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:11 +0000
Subject: [PATCH 079/140] fix: string_of_object_attributes gave text that did
 not recreate PolyLines, nested, long or precise arrays and strings with
 quotes

---
 geotecha/inputoutput/inputoutput.py | 57 +++++++++++++++--------------
 1 file changed, 29 insertions(+), 28 deletions(-)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index 5c49fa2..af0a269 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -1614,36 +1614,37 @@ def string_of_object_attributes(obj, attributes=[], none_at_bottom=True,
 
     """
 
-    def f(v):
-        if isinstance(v, str):
-            return "'"
+    prefix = '' if numpy_array_prefix is None else numpy_array_prefix
+
+    def array_repr(arr):
+        """repr with prefix that can be pasted into python"""
+        return prefix + re.sub(r"dtype=(\w+)\)$", r"dtype='\1')",
+                               np.array_repr(arr))
+
+    def line(v):
+        return '{0} = {1!r}'.format(v, getattr(obj, v, None))
+
+    # also applies to arrays within lists, PolyLines etc.  All elements with
+    # all digits so that the output gives the same arrays.
+    options = np.get_printoptions()
+    np.set_printoptions(threshold=sys.maxsize, floatmode='unique',
+                        suppress=False)
+    np.set_string_function(array_repr, repr=True)
+    try:
+        writer = ""
+        if none_at_bottom:
+            writer+='\n'.join([line(v) for v in attributes
+                               if not getattr(obj, v, None) is None])
+            writer+='\n\n\n'
+            writer+='\n'.join([line(v) for v in attributes
+                               if getattr(obj, v, None) is None])
         else:
-            return ""
-
-    if not numpy_array_prefix is None:
-        a = PrefixNumpyArrayString(numpy_array_prefix)
-    else:
-        a = PrefixNumpyArrayString('')
-    a.turn_on()
-
+            writer+='\n'.join([line(v) for v in attributes])
 
-
-    writer = ""
-    if none_at_bottom:
-        writer+='\n'.join(['{0} = {1}{2}{1}'.format(v, f(getattr(obj, v, None)),
-            getattr(obj, v, None))
-            for v in attributes if not getattr(obj, v, None) is None])
-        writer+='\n\n\n'
-        writer+='\n'.join(['{0} = {1}{2}{1}'.format(v, f(getattr(obj, v, None)),
-            getattr(obj, v, None))
-            for v in attributes if getattr(obj, v, None) is None])
-    else:
-        writer+='\n'.join(['{0} = {1}{2}{1}'.format(v, f(getattr(obj, v, None)),
-            getattr(obj, v, None))
-            for v in attributes])
-
-    writer+='\n'
-    a.turn_off()
+        writer+='\n'
+    finally:
+        np.set_string_function(None, repr=True)
+        np.set_printoptions(**options)
     return writer
 
 
-- 
2.43.0


From 0c6df062f5613a232abb5ca4a8b482daac74b280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:24 +0000
Subject: [PATCH 080/140] fix: save_grid_data_to_file removed the data from the
 dicts it was given

---
 geotecha/inputoutput/inputoutput.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index af0a269..4ae4e5a 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -1890,13 +1890,14 @@ def save_grid_data_to_file(data_dicts, directory=None, file_stem='out_000',
 
 
     for d in data_dicts:
+        d = d.copy() #leave the users dict as it is
         data = d.pop('data', None)
         name = d.pop('name',"")
         row_labels = d.pop('row_labels', None)
         row_labels_label = d.pop('row_labels_label', 'item')
         column_labels = d.pop('column_labels', None)
         header = d.pop('header', None)
-        df_kwargs = d.pop('df_kwargs',{})
+        df_kwargs = dict(d.pop('df_kwargs',{}))
 
         if data is None:
             continue
-- 
2.43.0


From c1e1f8cd396f2b80b0ad8945661b1013e993f61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:39 +0000
Subject: [PATCH 081/140] fix: saving a single figure that is not in a list
 failed

---
 geotecha/inputoutput/inputoutput.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index 4ae4e5a..1e4267f 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -1459,7 +1459,7 @@ class InputFileLoaderCheckerSaver(object):
 #        create_directory = getattr(self, 'create_directory', True)
 
 
-        for i,fig in enumerate(self._figures):
+        for i,fig in enumerate(figures):
             if len(fig.get_label()) > 0:
                 figname = fig.get_label()
             else:
-- 
2.43.0


From 9a2e46a011478bd996d32cc2f064562f02370fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:39 +0000
Subject: [PATCH 082/140] fix: code_for_explicit_attribute_initialization gave
 invalid code for strings with quotes or escapes

---
 geotecha/inputoutput/inputoutput.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index 1e4267f..1a18852 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -1134,7 +1134,7 @@ def code_for_explicit_attribute_initialization(attributes=[],
         for v in attributes:
             v2 = defaults.get(v, not_found_value)
             if isinstance(v2, str):
-                v2 = "'{0}'".format(v2)
+                v2 = repr(v2)
 
             out+='{0} = {1}\n'.format('.'.join([object_name,v]), v2)
     else:
@@ -1142,7 +1142,7 @@ def code_for_explicit_attribute_initialization(attributes=[],
             if v in list(defaults.keys()):
                 v2 = not_found_value
                 if isinstance(v2, str):
-                    v2 = "'{0}'".format(v2)
+                    v2 = repr(v2)
                 out+='{0} = {1}.get({2}, {3})\n'.format('.'.join([object_name, v]),
                     '.'.join([object_name, defaults_name]),
                      "'{}'".format(v),
@@ -1150,7 +1150,7 @@ def code_for_explicit_attribute_initialization(attributes=[],
             else:
                 v2 = not_found_value
                 if isinstance(v2, str):
-                    v2 = "'{0}'".format(v2)
+                    v2 = repr(v2)
                 out+='{0} = {1}\n'.format('.'.join([object_name,v]), v2)
     return out
 
-- 
2.43.0


From 15f16c4b7aecb50446607bd35592b08197ba7816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:39 +0000
Subject: [PATCH 083/140] fix: force_attribute_same_len_if_none failed when the
 first attribute was an array

---
 geotecha/inputoutput/inputoutput.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index 1a18852..cf2db09 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -1039,7 +1039,7 @@ def force_attribute_same_len_if_none(obj, same_len_attributes=[], value=None):
 
     for group in same_len_attributes:
         a1 =getattr(obj, group[0])
-        if a1!=None:
+        if a1 is not None:
             for v in group[1:]:
                 if getattr(obj, v) is None:
                     setattr(obj, v, [value] * len(a1))
-- 
2.43.0


From 9ec5e71ca773b7d14b67ed35e3a86255e102bb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:35 +0000
Subject: [PATCH 084/140] fix: GenericInputFileArgParser processed the script
 itself and skipped input files called inputoutput.py

---
 geotecha/inputoutput/inputoutput.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index cf2db09..5f19dc4 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -2105,13 +2105,15 @@ class GenericInputFileArgParser(object):
         if (not ns.directory is None) and (not ns.pattern is None):
             #find all files that match pattern
             filenames=[]
+            script = os.path.abspath(sys.argv[0])
             for i,d in enumerate(ns.directory):
                 if not os.path.isdir(d):
                     parser.error('directory #{0} in command line is not a '
                     'valid directory: {1}'.format(i, d))
 
                 [filenames.append(os.path.join(os.path.abspath(d), v)) for v in
-                    fnmatch.filter(os.listdir(d), ns.pattern) if v!=os.path.basename(__file__)]
+                    fnmatch.filter(os.listdir(d), ns.pattern)
+                    if os.path.join(os.path.abspath(d), v) != script]
 
             if len(filenames)==0:
                 raise IOError("no files that match '{0}' can be found in the "
-- 
2.43.0


From bb4f6117a9389727a468b8d488ea8dbfd7bbc3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:35 +0000
Subject: [PATCH 085/140] fix: hms_string gave 60.00 seconds for times just
 below a full minute

---
 geotecha/inputoutput/inputoutput.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index 5f19dc4..03e72f2 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -1928,6 +1928,7 @@ def hms_string(sec_elapsed):
 
     """
 
+    sec_elapsed = round(sec_elapsed, 2) #otherwise 59.999 would give 60.00
     h = int(sec_elapsed / (60 * 60))
     m = int((sec_elapsed % (60 * 60)) / 60)
     s = sec_elapsed % 60.
-- 
2.43.0


From 8bb9de2159ed1008334e7a28c1694dcf92052c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:58 +0000
Subject: [PATCH 086/140] fix: timeout stopped functions that finished in time
 with a large result

---
 geotecha/inputoutput/timeout.py | 35 +++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/geotecha/inputoutput/timeout.py b/geotecha/inputoutput/timeout.py
index 1d20f5e..64f3033 100644
--- a/geotecha/inputoutput/timeout.py
+++ b/geotecha/inputoutput/timeout.py
@@ -72,6 +72,12 @@ idea though.
 import multiprocessing
 import time
 import logging
+try:
+    #py27
+    from Queue import Empty
+except ImportError:
+    #py34
+    from queue import Empty
 #logger = multiprocessing.log_to_stderr()
 #logger.setLevel(logging.INFO)
 
@@ -96,8 +102,8 @@ class RunableProcessing(multiprocessing.Process):
     def done(self):
         return self.queue.full()
 
-    def result(self):
-        return self.queue.get()
+    def result(self, seconds=None):
+        return self.queue.get(timeout=seconds)
 
 
 def timeout(seconds, force_kill=True):
@@ -106,14 +112,23 @@ def timeout(seconds, force_kill=True):
             now = time.time()
             proc = RunableProcessing(function, *args, **kwargs)
             proc.start()
-            proc.join(seconds)
-            if proc.is_alive():
-                if force_kill:
-                    proc.terminate()
-                runtime = int(time.time() - now)
-                raise TimeoutException('timed out after {0} seconds'.format(runtime))
-            assert proc.done()
-            success, result = proc.result()
+            # get the result before joining: a process with a large result
+            # does not end until the result has been read.
+            result = None
+            while result is None:
+                alive = proc.is_alive()
+                remaining = now + seconds - time.time()
+                try:
+                    result = proc.result(min(max(remaining, 0), 0.1))
+                except Empty:
+                    assert alive, 'ended without a result'
+                    if remaining <= 0:
+                        if force_kill:
+                            proc.terminate()
+                        runtime = int(time.time() - now)
+                        raise TimeoutException('timed out after {0} seconds'.format(runtime))
+            proc.join(max(now + seconds - time.time(), 0))
+            success, result = result
             if success:
                 return result
             else:
-- 
2.43.0


From d5bde9733c72d5ae1c087d6b855c2b04e9d8bc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:37 +0000
Subject: [PATCH 087/140] fix: plot_data_in_grid shares axes when asked to

---
 geotecha/plotting/one_d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/plotting/one_d.py b/geotecha/plotting/one_d.py
index d896d4e..0e29bfe 100644
--- a/geotecha/plotting/one_d.py
+++ b/geotecha/plotting/one_d.py
@@ -1138,7 +1138,7 @@ def plot_data_in_grid(fig, data, gs,
         else:
             shy=ax[sharey[i]]
 
-        ax.append(fig.add_subplot(gs[j]))
+        ax.append(fig.add_subplot(gs[j], sharex=shx, sharey=shy))
 
         for j, xy_etc in enumerate(subplot_data):
             #xy_etc is a single [x,y,dict] to send to plt.plot, or plt.plot_type
-- 
2.43.0


From d363861cb63a59e7164226883d4a3e5563b6b90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:37 +0000
Subject: [PATCH 088/140] fix: pleasing_defaults sets the colour cycle through
 prop_cycle

---
 geotecha/plotting/one_d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/plotting/one_d.py b/geotecha/plotting/one_d.py
index 0e29bfe..a68a9b8 100644
--- a/geotecha/plotting/one_d.py
+++ b/geotecha/plotting/one_d.py
@@ -790,7 +790,7 @@ def pleasing_defaults():
     # Another ColorBrewer scale. This one has nice "traditional" colors like
     # reds and blues
     set1 = brewer2mpl.get_map('Set1', 'qualitative', 9).mpl_colors
-    mpl.rcParams['axes.color_cycle'] = set2
+    mpl.rcParams['axes.prop_cycle'] = mpl.cycler(color=set2)
 
     # Set some commonly used colors
     almost_black = '#262626'
-- 
2.43.0


From cebe73c2f660e512941ac36091c9fc960111096d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:37 +0000
Subject: [PATCH 089/140] fix: plot_generic_loads works out the time range for
 (time, load) tuples and missing load_vs_time

---
 geotecha/plotting/one_d.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/geotecha/plotting/one_d.py b/geotecha/plotting/one_d.py
index a68a9b8..46fa7ee 100644
--- a/geotecha/plotting/one_d.py
+++ b/geotecha/plotting/one_d.py
@@ -1324,14 +1324,17 @@ def plot_generic_loads(load_triples, load_names, ylabels=None,
 
     #determine tmax, tmin
     if trange is None:
-        for i, (triples, name, ylabel)  in enumerate(zip(load_triples, load_names, ylabels)):
-            for j, (vs_time, vs_depth, omega_phase) in enumerate(triples):
-                if i==0 and j==0:
-                    tmin = np.min(vs_time.x)
-                    tmax = np.max(vs_time.x)
-                else:
-                    tmin = min(tmin, np.min(vs_time.x))
-                    tmax = max(tmax, np.max(vs_time.x))
+        t_all = []
+        for triples in load_triples:
+            for vs_time, vs_depth, omega_phase in triples:
+                if isinstance(vs_time, PolyLine):
+                    t_all.extend(vs_time.x)
+                elif not vs_time is None:
+                    t_all.extend(vs_time[0])
+        if len(t_all) == 0:
+            t_all = [0.0, 1.0]
+        tmin = np.min(t_all)
+        tmax = np.max(t_all)
     else:
         tmin, tmax = trange
 
-- 
2.43.0


From 60a90710e8f5106ce5fbbb0ce1e650e704b21aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:50 +0000
Subject: [PATCH 090/140] fix: plot_generic_loads accepts zero angular
 frequency

---
 geotecha/plotting/one_d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geotecha/plotting/one_d.py b/geotecha/plotting/one_d.py
index 46fa7ee..987e71b 100644
--- a/geotecha/plotting/one_d.py
+++ b/geotecha/plotting/one_d.py
@@ -1372,7 +1372,8 @@ def plot_generic_loads(load_triples, load_names, ylabels=None,
 
             if not omega_phase is None:
                 omega, phase = omega_phase
-                dx = min(dx, 1/(omega/(2*np.pi))/40)
+                if omega != 0:
+                    dx = min(dx, abs(1/(omega/(2*np.pi))/40))
 
 
 #                print(dx, omega)
-- 
2.43.0


From a46c71becfe262d9f335d6990fc00341f3299a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:50 +0000
Subject: [PATCH 091/140] fix: plot_generic_loads depth axis points down for
 any number of loads

---
 geotecha/plotting/one_d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geotecha/plotting/one_d.py b/geotecha/plotting/one_d.py
index 987e71b..408ab84 100644
--- a/geotecha/plotting/one_d.py
+++ b/geotecha/plotting/one_d.py
@@ -1455,7 +1455,8 @@ def plot_generic_loads(load_triples, load_names, ylabels=None,
             ax2[-1].set_xlabel(xlabel2)
 
         if RLzero is None:
-            ax2[-1].invert_yaxis()
+            if i == 0: # depth axes are shared
+                ax2[-1].invert_yaxis()
             ylabel = prop_dict.get('depth_axis_label', 'Depth, z')
         else:
             ylabel = prop_dict.get('depth_axis_label', 'RL')
-- 
2.43.0


From 4ca9532f719b2e7c2630eddb36199ab3594ad4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:50 +0000
Subject: [PATCH 092/140] fix: plot_generic_loads depth_axis_label is for the
 depth axis only

---
 geotecha/plotting/one_d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/plotting/one_d.py b/geotecha/plotting/one_d.py
index 408ab84..0ffe10d 100644
--- a/geotecha/plotting/one_d.py
+++ b/geotecha/plotting/one_d.py
@@ -1311,7 +1311,7 @@ def plot_generic_loads(load_triples, load_names, ylabels=None,
 
     has_legend = prop_dict.get('has_legend', True)
     xlabel1 = prop_dict.get('time_axis_label', 'Time')
-    xlabel2 = prop_dict.get('depth_axis_label', 'Load factor')
+    xlabel2 = 'Load factor'
     n = len(load_triples)
 
     gs = mpl.gridspec.GridSpec(n,2, width_ratios=[5,1])
-- 
2.43.0


From 99ded6b9d5677ea74aaa030b89e8ae4acc485386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:06 +0000
Subject: [PATCH 093/140] fix: DingEtAl2012 nquad=None integrates with scipy
 quad as documented

---
 geotecha/beam_on_foundation/dingetal2012.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/beam_on_foundation/dingetal2012.py b/geotecha/beam_on_foundation/dingetal2012.py
index 8eebbd7..1c64b6a 100644
--- a/geotecha/beam_on_foundation/dingetal2012.py
+++ b/geotecha/beam_on_foundation/dingetal2012.py
@@ -319,7 +319,7 @@ class DingEtAl2012(object):
             self.vsvdot[self.nterms + i] += self.BC_coeff * self.Fz_norm * self.phi(self.v_norm * tnow, self.beta[i])
 
 
-            if 1:
+            if not self.nquad is None:
                 # DIY quadrature
                 Fj = np.sum(q[:,None] * self.phi(self.xj[None, :], self.beta[:,None]), axis=0)**3
                 y = np.sum(self.Ij * Fj * self.phi(self.xj, self.beta[i]))
-- 
2.43.0


From aeb7da237540cc2a33d5fa67ad1cf1a6c9c0fb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:06 +0000
Subject: [PATCH 094/140] fix: DingEtAl2012.wofx normalise_w=False scales by
 beam length, True does not

---
 geotecha/beam_on_foundation/dingetal2012.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/beam_on_foundation/dingetal2012.py b/geotecha/beam_on_foundation/dingetal2012.py
index 1c64b6a..064d778 100644
--- a/geotecha/beam_on_foundation/dingetal2012.py
+++ b/geotecha/beam_on_foundation/dingetal2012.py
@@ -412,7 +412,7 @@ class DingEtAl2012(object):
             for j, qq in enumerate(self.qsol[tslice, :self.nterms]):
                 v[i, j] = self.w(qq, xx)
         
-        if not normalise_w is None:
+        if not normalise_w:
             v *= self.L
             
         if len(x_norm)==1:
-- 
2.43.0


From e2a4b65ae45c211e4717665e554ea6ddf266cf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:06 +0000
Subject: [PATCH 095/140] fix: DingEtAl2012 quadrature points for CC and FF
 span the beam

---
 geotecha/beam_on_foundation/dingetal2012.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geotecha/beam_on_foundation/dingetal2012.py b/geotecha/beam_on_foundation/dingetal2012.py
index 064d778..0342b37 100644
--- a/geotecha/beam_on_foundation/dingetal2012.py
+++ b/geotecha/beam_on_foundation/dingetal2012.py
@@ -211,11 +211,11 @@ class DingEtAl2012(object):
             self.beta = find_n_roots(_f, n=self.nterms, x0=0.001, dx=3.14159 / 10, p=1.1)
             
             if not self.nquad is None:
-                self.xj = 0.5*(1 - np.cos(np.pi * np.arange(self.nquad)/(self.nquad - 3)))
+                self.xj = 0.5*(1 - np.cos(np.pi * (np.arange(self.nquad) - 1)/(self.nquad - 3)))
                 self.xj[0] = 0
                 self.xj[1] = 0.0001
-                self.xj[-2] = 0.0001
-                self.xj[-1] = 0
+                self.xj[-2] = 1 - 0.0001
+                self.xj[-1] = 1
             
             self.BC_coeff = 1 # Coefficeint to multiply Fz(vt) and k3*Integral terms by
             if self.BC == "CC":
-- 
2.43.0


From 4b98f05f04b741c0073a3756acb6e9480fd2062e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:06 +0000
Subject: [PATCH 096/140] fix: DingEtAl2012 quadrature weights from well
 conditioned Chebyshev moments

---
 geotecha/beam_on_foundation/dingetal2012.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/geotecha/beam_on_foundation/dingetal2012.py b/geotecha/beam_on_foundation/dingetal2012.py
index 0342b37..b35774e 100644
--- a/geotecha/beam_on_foundation/dingetal2012.py
+++ b/geotecha/beam_on_foundation/dingetal2012.py
@@ -232,8 +232,12 @@ class DingEtAl2012(object):
 
         # quadrature weighting 
         if not self.nquad is None:  
-            rhs = np.reciprocal(np.arange(self.nquad, dtype=float) + 1)
-            lhs = self.xj[np.newaxis, :] ** np.arange(self.nquad)[:, np.newaxis]
+            # integrate the Chebyshev polynomials T_k(2 * x - 1) exactly;
+            # using powers of x instead is too ill conditioned.
+            k = np.arange(self.nquad)[:, np.newaxis]
+            rhs = np.zeros(self.nquad, dtype=float)
+            rhs[::2] = 1 / (1 - k[::2, 0]**2.0)
+            lhs = np.cos(k * np.arccos(2 * self.xj[np.newaxis, :] - 1))
     
             self.Ij = np.linalg.solve(lhs, rhs)
         
-- 
2.43.0


From d6d7bbffe9cb50feef0858bbdc55041f00a1aefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:06 +0000
Subject: [PATCH 097/140] fix: DingEtAl2012 clamped and free trial functions do
 not lose all precision for large beta

---
 geotecha/beam_on_foundation/dingetal2012.py | 27 +++++++++++++--------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/geotecha/beam_on_foundation/dingetal2012.py b/geotecha/beam_on_foundation/dingetal2012.py
index b35774e..680ab91 100644
--- a/geotecha/beam_on_foundation/dingetal2012.py
+++ b/geotecha/beam_on_foundation/dingetal2012.py
@@ -248,26 +248,33 @@ class DingEtAl2012(object):
         return np.sin(beta * x)
 
 
+    def _xi_minus_1(self, beta):
+        """(cosh(b) - cos(b)) / (sinh(b) - sin(b)) - 1"""
+        return ((np.exp(-beta) - np.cos(beta) + np.sin(beta)) /
+                (np.sinh(beta) - np.sin(beta)))
+
+
     def phiCC(self, x, beta):
 
-        def _xi(beta):
-            return (np.cosh(beta) - np.cos(beta))/(np.sinh(beta) - np.sin(beta))
+        xi_minus_1 = self._xi_minus_1(beta)
 
-        return (np.cosh(beta * x)
+        # cosh(beta*x) - xi*sinh(beta*x) suffers cancellation, so use
+        # exp(-beta*x) - (xi - 1)*sinh(beta*x).
+        return (np.exp(-beta * x)
+                - xi_minus_1 * np.sinh(beta * x)
                 - np.cos(beta * x)
-                + _xi(beta) * (np.sin(beta * x) - np.sinh(beta * x))
+                + (1 + xi_minus_1) * np.sin(beta * x)
                 )
 
 
     def phiFF(self, x, beta):
 
-        def _xi(beta):
-
-            return (-(np.cos(beta) - np.cosh(beta))/(np.sin(beta) - np.sinh(beta)))
+        xi_minus_1 = self._xi_minus_1(beta)
 
-        return (np.cos(beta * x)
-                + np.cosh(beta * x)
-                + _xi(beta) * (np.sin(beta * x) + np.sinh(beta * x))
+        return (np.exp(-beta * x)
+                - xi_minus_1 * np.sinh(beta * x)
+                + np.cos(beta * x)
+                - (1 + xi_minus_1) * np.sin(beta * x)
                 )
 
 
-- 
2.43.0


From 2df776e5d3a57fe11855b8cacd4f39d3c5eb7d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:23 +0000
Subject: [PATCH 098/140] fix: DingEtAl2012 FF rigid translation term is finite

---
 geotecha/beam_on_foundation/dingetal2012.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/geotecha/beam_on_foundation/dingetal2012.py b/geotecha/beam_on_foundation/dingetal2012.py
index 680ab91..621f547 100644
--- a/geotecha/beam_on_foundation/dingetal2012.py
+++ b/geotecha/beam_on_foundation/dingetal2012.py
@@ -269,13 +269,18 @@ class DingEtAl2012(object):
 
     def phiFF(self, x, beta):
 
+        # beta = 0 is the rigid translation of the beam.
+        rigid = np.equal(beta, 0)
+        beta = np.where(rigid, 1.0, beta)
+
         xi_minus_1 = self._xi_minus_1(beta)
 
-        return (np.exp(-beta * x)
+        phi = (np.exp(-beta * x)
                 - xi_minus_1 * np.sinh(beta * x)
                 + np.cos(beta * x)
                 - (1 + xi_minus_1) * np.sin(beta * x)
                 )
+        return np.where(rigid, 1.0, phi)
 
 
     def w(self, qk, x):
-- 
2.43.0


From b9e6ebbca7fa4403e9abd6fb0e47b75c495e3f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:23 +0000
Subject: [PATCH 099/140] fix: DingEtAl2012 load acts only while it is on the
 beam

---
 geotecha/beam_on_foundation/dingetal2012.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geotecha/beam_on_foundation/dingetal2012.py b/geotecha/beam_on_foundation/dingetal2012.py
index 621f547..9767dc7 100644
--- a/geotecha/beam_on_foundation/dingetal2012.py
+++ b/geotecha/beam_on_foundation/dingetal2012.py
@@ -332,7 +332,8 @@ class DingEtAl2012(object):
 
             self.vsvdot[self.nterms + i] -= (self.k1_norm + self.kf**2 * self.beta[i]**4) * q[i]
 
-            self.vsvdot[self.nterms + i] += self.BC_coeff * self.Fz_norm * self.phi(self.v_norm * tnow, self.beta[i])
+            if 0 <= self.v_norm * tnow <= 1:
+                self.vsvdot[self.nterms + i] += self.BC_coeff * self.Fz_norm * self.phi(self.v_norm * tnow, self.beta[i])
 
 
             if not self.nquad is None:
-- 
2.43.0


From 2586e0b1461cf38e9740cb70d7ca9d087c528d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:01 +0000
Subject: [PATCH 100/140] fix: MovingPointLoads.point_loads_on_beam uses start
 time t0 and, for negative velocity, start position x0

---
 geotecha/beam_on_foundation/specbeam.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 06b5b19..967465b 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -1696,9 +1696,11 @@ class MovingPointLoads(object):
         """
 
         if self.v >= 0:
-            self.xnow[:] = self.axle_positions(t=t, v0=self.v, x0=self.x0)
+            self.xnow[:] = self.axle_positions(t=t, v0=self.v, t0=self.t0,
+                                               x0=self.x0)
         else:
-            self.xnow[:] = self.axle_positions(t=t, v0=self.v, x0=self.L)
+            self.xnow[:] = self.axle_positions(t=t, v0=self.v, t0=self.t0,
+                                               x0=self.L + self.x0)
 
         self.pnow[:] = self.p
 
-- 
2.43.0


From 4b0b82fb662d8caf2575e37c6576aac0be3390b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:01 +0000
Subject: [PATCH 101/140] fix: MovingPointLoads axle positions do not alias an
 internal buffer

---
 geotecha/beam_on_foundation/specbeam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 967465b..7f19f9e 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -1705,7 +1705,7 @@ class MovingPointLoads(object):
         self.pnow[:] = self.p
 
         self.pnow[((t< self.start_time) | (t>self.end_time))] = 0
-        return self.xnow, self.pnow
+        return self.xnow.copy(), self.pnow.copy()
 
 
     def convert_to_specbeam(self, v=None, L=None, t0=None, x0=None):
@@ -1876,7 +1876,7 @@ class MovingPointLoads(object):
 
         self.xnow+= x0 + v0*(t-t0)
 
-        return self.xnow
+        return self.xnow.copy()
 
     def plotme(self, ax=None,t=0, v0=0, t0=0, x0=0, xlim=None, ylim=None):
         """Plot the load at time t
-- 
2.43.0


From edd30a4c73f5fbbc9f2ad7f2496582d830eb7bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:01 +0000
Subject: [PATCH 102/140] fix: MovingPointLoads velocity can be given without
 beam length L

---
 geotecha/beam_on_foundation/specbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 7f19f9e..8967096 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -1647,7 +1647,7 @@ class MovingPointLoads(object):
         """Set the vehicle's velocity, then calc start_time and end_time when
         vehicle's axles enter and leave the beam"""
         self._v = v
-        if not v is None:
+        if not v is None and not self.L is None:
             if v > 0:
                 self.start_time = self.t0 + (0 - self.xt) / v
                 self.end_time = self.t0 + (self.L - self.xt) / v
-- 
2.43.0


From f2b650013f556530e787063a9735b79e07b46743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:01 +0000
Subject: [PATCH 103/140] fix: plot_specbeam_PolyLines uses the start time it
 is given

---
 geotecha/beam_on_foundation/specbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 8967096..705e13c 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -1826,7 +1826,7 @@ class MovingPointLoads(object):
 
         """
 
-        plines, omega_phases = self.convert_to_specbeam(v=v, L=L, t0=0, x0=x0)
+        plines, omega_phases = self.convert_to_specbeam(v=v, L=L, t0=t0, x0=x0)
 
         if ax is None:
             fig, ax = plt.subplots()
-- 
2.43.0


From a78469d5b472dc3c5f0bf2712b783853c7b8c88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:01 +0000
Subject: [PATCH 104/140] fix: tanhtran is centred on the transition position a

---
 geotecha/beam_on_foundation/specbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 705e13c..7b8337a 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -8542,7 +8542,7 @@ def tanhtran(x, a, b):
     tanhtranib : get smoothing factor from speccific x,y
 
     """
-    return 0.5+0.5*np.tanh((x-0.5)/b)
+    return 0.5+0.5*np.tanh((x-a)/b)
 
 
 def tanhtrani(y, a, b):
-- 
2.43.0


From 1ef9dc60ed7789488894f69d8c3ae85891a41e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:01 +0000
Subject: [PATCH 105/140] fix: reverse_curve_transition does not truncate for
 integer x

---
 geotecha/beam_on_foundation/specbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 7b8337a..d56a8c0 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -9017,7 +9017,7 @@ def reverse_curve_transition(x, x1, y1, x2, y2):
     """
 
     x = np.atleast_1d(x)
-    y = np.empty_like(x)
+    y = np.empty_like(x, dtype=float)
 
     if y1 == y2:
         #no transition --> horizontal line
-- 
2.43.0


From a4e37c4439f83c786d9820fbf6333bec4a9ee0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:58 +0000
Subject: [PATCH 106/140] fix: SpecBeam cyclic stationary load keeps its phase
 when normalised

---
 geotecha/beam_on_foundation/specbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index d56a8c0..fae72ff 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -598,7 +598,7 @@ class SpecBeam(object):
                 else:
                     #only omega is effected, phase remains unchanged
                     self.stationary_loads_omega_phase_norm = (
-                        [(v[0] * self.L / np.sqrt(self.E / self.rho),v[1]/ (self.E * self.A))
+                        [(v[0] * self.L / np.sqrt(self.E / self.rho),v[1])
                             if not v is None else None for v in self.stationary_loads_omega_phase])
 
 
-- 
2.43.0


From b13fe68e20315630cf03572738751fe7f7c38bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:58 +0000
Subject: [PATCH 107/140] fix: SpecBeam non-linear stiffness varies with k3bar
 not k1bar

---
 geotecha/beam_on_foundation/specbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index fae72ff..72ba79a 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -856,7 +856,7 @@ class SpecBeam(object):
                                             a=self.mubar,
                                             implementation=self.implementation)
 
-        self.k3barj = pwise.pinterp_x_y(self.k1bar, self.xj)
+        self.k3barj = pwise.pinterp_x_y(self.k3bar, self.xj)
 
 
     def wofx(self, x=None, x_norm=None, tslice=slice(None, None, None), normalise_w=True):
-- 
2.43.0


From 9b2b97f72d9d24a48b4f4a2663693aad0a5aa12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:58 +0000
Subject: [PATCH 108/140] fix: SpecBeam analytical solution accepts zero k3
 given in only one form

---
 geotecha/beam_on_foundation/specbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 72ba79a..4d14de5 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -443,7 +443,7 @@ class SpecBeam(object):
             self.k3_norm=0
 
         if (((self.BC.upper() in ["CC","FF"]) or
-            (sum([v==0 for v in [self.k3, self.k3_norm]]) != 2))
+            not all([v is None or v==0 for v in [self.k3, self.k3_norm]]))
             and self.use_analytical):
             raise ValueError ("If use_analytical=True, cannot have BC='CC, BC='FF', or either k3!=None or k3_norm!=None")
 
-- 
2.43.0


From 4a19daee26b5d6f6fee30d96ec223c8cdf703f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:58 +0000
Subject: [PATCH 109/140] fix: SpecBeam quadrature weights from well
 conditioned Chebyshev moments

---
 geotecha/beam_on_foundation/specbeam.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 4d14de5..56c85e7 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -662,8 +662,12 @@ class SpecBeam(object):
 
         # quadrature weighting
         if not self.nquad is None:
-            rhs = np.reciprocal(np.arange(self.nquad, dtype=float) + 1)
-            lhs = self.xj[np.newaxis, :] ** np.arange(self.nquad)[:, np.newaxis]
+            # integrate the Chebyshev polynomials T_k(2 * x - 1) exactly;
+            # using powers of x instead is too ill conditioned.
+            k = np.arange(self.nquad)[:, np.newaxis]
+            rhs = np.zeros(self.nquad, dtype=float)
+            rhs[::2] = 1 / (1 - k[::2, 0]**2.0)
+            lhs = np.cos(k * np.arccos(2 * self.xj[np.newaxis, :] - 1))
 
             self.Ij = np.linalg.solve(lhs, rhs)
 
-- 
2.43.0


From 07ee0dd6532e9d50506b9849e89714136ae55249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:58 +0000
Subject: [PATCH 110/140] fix: SpecBeam nquad=None integrates with scipy quad
 as documented

---
 geotecha/beam_on_foundation/specbeam.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 56c85e7..5d2d36b 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -775,14 +775,13 @@ class SpecBeam(object):
                     else:
                         omega,phase = omega_phase
                         self.vsvdot[self.nterms + i] += self.BC_coeff * mag*np.sin(x*self.beta[i])*np.cos(omega*tnow+phase)
-            if 1:
+            if not self.nquad is None:
                 # DIY quadrature
 
 
                 Fj = np.sum(q[:,None] * self.phi(self.xj[None, :], self.beta[:,None]), axis=0)**3
                 y = np.sum(self.Ij * Fj * self.k3barj * self.phi(self.xj, self.beta[i]))
             else:
-                raise ValueError("Haven't checked this yet")
                 # scipy
 #                print("yquad = {:12.2g}".format(y))
                 y, err = integrate.quad(self.w_cubed_wi, 0, 1, args=(q,i))
@@ -797,7 +796,8 @@ class SpecBeam(object):
     def w_cubed_wi(self, x, q, i):
         """Non-linear cube term for numerical integration"""
 
-        return self.w(q, x)**3 * self.phi(x, self.beta[i])
+        return (self.w(q, x)**3 * pwise.pinterp_x_y(self.k3bar, x)[0] *
+                self.phi(x, self.beta[i]))
 
 
     def calulate_qk(self, t=None, t_norm=None, **odeint_kwargs):
@@ -860,7 +860,8 @@ class SpecBeam(object):
                                             a=self.mubar,
                                             implementation=self.implementation)
 
-        self.k3barj = pwise.pinterp_x_y(self.k3bar, self.xj)
+        if not self.nquad is None:
+            self.k3barj = pwise.pinterp_x_y(self.k3bar, self.xj)
 
 
     def wofx(self, x=None, x_norm=None, tslice=slice(None, None, None), normalise_w=True):
-- 
2.43.0


From f412dc517a70303efe26c715f046b20c19c06808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:14 +0000
Subject: [PATCH 111/140] fix: SpecBeam.wofx returns one value for each time of
 the last solution

---
 geotecha/beam_on_foundation/specbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 5d2d36b..0ddcf63 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -895,7 +895,7 @@ class SpecBeam(object):
 
         x_norm = np.atleast_1d(x_norm)
 
-        v = np.zeros((len(x_norm), len(self.tvals_norm[tslice])))
+        v = np.zeros((len(x_norm), len(self.qsol[tslice])))
 
         for i, xx in enumerate(x_norm):
             for j, qq in enumerate(self.qsol[tslice, :self.nterms]):
-- 
2.43.0


From bb76f6fd5bd84e605368282b8a163d4551146ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:14 +0000
Subject: [PATCH 112/140] fix: SpecBeam dimensional moving loads travel over
 the same part of the beam as the normalised ones

---
 geotecha/beam_on_foundation/specbeam.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 0ddcf63..3f82bc7 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -545,13 +545,16 @@ class SpecBeam(object):
                                                        offset=offv,
                                                        v=vv,
                                                        t0=t0v,
-                                                       L=self.L)
-                                        for xv,pv,offv,vv,t0v in
+                                                       L=Lv,
+                                                       x0=x0v)
+                                        for xv,pv,offv,vv,t0v,Lv,x0v in
                                         zip(self.moving_loads_x,
                                             self.moving_loads_Fz,
                                             self.moving_loads_offset,
                                             self.moving_loads_v,
-                                            self.moving_loads_t0)]
+                                            self.moving_loads_t0,
+                                            self.moving_loads_L,
+                                            self.moving_loads_x0)]
 
 
 
-- 
2.43.0


From 49050d3c9f31869ac45628b600ad59a40f8da91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:14 +0000
Subject: [PATCH 113/140] fix: SpecBeam.animateme norm=False shows dimensional
 stationary loads

---
 geotecha/beam_on_foundation/specbeam.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 3f82bc7..fc92cad 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -1320,9 +1320,9 @@ class SpecBeam(object):
             if self.has_moving_loads:
                 moving_loads = self.moving_loads
             if self.has_stationary_loads:
-                stationary_loads_x = self.stationary_loads_x_norm
-                stationary_loads_vs_t = self.stationary_loads_vs_t_norm
-                stationary_loads_omega_phase = self.stationary_loads_omega_phase_norm
+                stationary_loads_x = self.stationary_loads_x
+                stationary_loads_vs_t = self.stationary_loads_vs_t
+                stationary_loads_omega_phase = self.stationary_loads_omega_phase
             ax.set_xlabel("x")
             ax.set_ylabel("w")
             ax2.set_ylabel("Fz")
-- 
2.43.0


From 831855d28fe2698516cefaf91b209a5a5822b23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:17 +0000
Subject: [PATCH 114/140] fix: SpecBeam numerical solution does not step over
 loads arriving or leaving

---
 geotecha/beam_on_foundation/specbeam.py | 36 +++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index fc92cad..3589e20 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -834,11 +834,43 @@ class SpecBeam(object):
 
         self.time_independant_matrices()
 
-        self.qsol = odeint(self.vectorfield,
+        # Start afresh each time a load arrives, leaves or changes slope,
+        # otherwise the adaptive time steps may step right over it.
+        tvals = np.atleast_1d(self.t_norm)
+        changes = self.load_change_times()
+        changes = changes[(changes > tvals[0]) & (changes < tvals[-1])]
+        edges = np.concatenate((tvals[:1], changes, tvals[-1:]))
+
+        self.qsol = np.zeros((len(tvals), 2*self.nterms))
+        for ta, tb in zip(edges[:-1], edges[1:]):
+            inside = (tvals > ta) & (tvals <= tb)
+            sol = odeint(self.vectorfield,
                       vsv0,
-                      self.t_norm,
+                      np.concatenate(([ta], tvals[inside], [tb])),
                       args=(),
+                      tcrit=[tb],
                       **odeint_kwargs)
+            self.qsol[inside] = sol[1:-1]
+            vsv0 = sol[-1]
+
+    def load_change_times(self):
+        """Normalised times when point loads arrive, leave or change slope
+
+        Returns
+        -------
+        times : 1d array of float
+            Sorted, unique, normalised times.
+
+        """
+
+        times = [np.array([], dtype=float)]
+        if self.has_moving_loads:
+            for mvl in self.moving_loads_norm:
+                times.extend([mvl.start_time, mvl.end_time])
+        if self.has_stationary_loads:
+            times.extend([v.x for v in self.stationary_loads_vs_t_norm])
+
+        return np.unique(np.concatenate(times))
 
     def time_independant_matrices(self):
         """Make all time independent matrices"""
-- 
2.43.0


From 6260152097d8aa94d9c76c830209631dcdd4747e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:17 +0000
Subject: [PATCH 115/140] fix: SpecBeam numerical solution has an absolute
 tolerance in proportion to the loads

---
 geotecha/beam_on_foundation/specbeam.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 3589e20..cdc6180 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -834,6 +834,17 @@ class SpecBeam(object):
 
         self.time_independant_matrices()
 
+        # odeint's default absolute tolerance swamps the response to small
+        # normalised loads.
+        size = 0.0
+        if self.has_moving_loads:
+            size += sum(np.sum(np.abs(v.p)) for v in self.moving_loads_norm)
+        if self.has_stationary_loads:
+            size += sum(np.max(np.abs(v.y))
+                        for v in self.stationary_loads_vs_t_norm)
+        if 0 < size < 1:
+            odeint_kwargs.setdefault('atol', 1.49012e-8 * size)
+
         # Start afresh each time a load arrives, leaves or changes slope,
         # otherwise the adaptive time steps may step right over it.
         tvals = np.atleast_1d(self.t_norm)
-- 
2.43.0


From 8d57a46376328c64a1e8b21135de694b97320389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:25 +0000
Subject: [PATCH 116/140] fix: Eload_coslinear accepts complex eigs like the
 other un-differentiated loads

---
 geotecha/speccon/integrals.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/geotecha/speccon/integrals.py b/geotecha/speccon/integrals.py
index b590d99..5fedfdb 100644
--- a/geotecha/speccon/integrals.py
+++ b/geotecha/speccon/integrals.py
@@ -3209,9 +3209,11 @@ def Eload_coslinear(loadtim, loadmag, omega, phase, eigs, tvals, dT=1.0, impleme
     if implementation == 'scalar':
         sin = math.sin
         cos = math.cos
-        exp = math.exp
+        exp = np.exp
+        #note that math module doesn't like complex numbers
 
-        A = np.zeros([len(tvals), len(eigs)])
+        A = np.zeros([len(tvals), len(eigs)],
+                     dtype=np.result_type(float, eigs))
 
         (ramps_less_than_t, constants_less_than_t, steps_less_than_t,
             ramps_containing_t, constants_containing_t) = segment_containing_also_segments_less_than_xi(loadtim, loadmag, tvals, steps_or_equal_to = True)
@@ -3756,7 +3758,8 @@ def Eload_coslinear(loadtim, loadmag, omega, phase, eigs, tvals, dT=1.0, impleme
                         2*omega**2*loadtim[k + 1]/(dT*eig) + 2*omega**2*loadtim[k]/(dT*eig) -
                         omega**4*loadtim[k + 1]/(dT**3*eig**3) +
                         omega**4*loadtim[k]/(dT**3*eig**3))**(-1)*loadmag[k]/(dT**2*eig**2))/(dT*eig))
-    elif implementation == 'fortran':
+    elif implementation == 'fortran' and not np.iscomplexobj(eigs):
+        #the fortran subroutine is for real eigs only.
         #note than all fortran subroutines are lowercase.
         if MUST_TRY_FORTRAN:
             from geotecha.speccon.ext_integrals import eload_coslinear as fn
@@ -3771,7 +3774,8 @@ def Eload_coslinear(loadtim, loadmag, omega, phase, eigs, tvals, dT=1.0, impleme
         cos = np.cos
         exp = np.exp
 
-        A = np.zeros([len(tvals), len(eigs)])
+        A = np.zeros([len(tvals), len(eigs)],
+                     dtype=np.result_type(float, eigs))
 
         (ramps_less_than_t, constants_less_than_t, steps_less_than_t,
             ramps_containing_t, constants_containing_t) = segment_containing_also_segments_less_than_xi(loadtim, loadmag, tvals, steps_or_equal_to = True)
-- 
2.43.0


From 670667bbcbb7145092d524e4c828588a622ef862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:46 +0000
Subject: [PATCH 117/140] fix: SpecBeam check on imaginary parts is relative to
 the size of the response

---
 geotecha/beam_on_foundation/specbeam.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index cdc6180..cb65881 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -1178,7 +1178,8 @@ class SpecBeam(object):
         self.defl_norm = np.atleast_2d(self.defl_norm)
 
         #check if complex part is small
-        if np.allclose(np.imag(self.defl_norm),0,atol=1e-12):
+        size = max(1.0, np.max(np.abs(self.v_E_Igamv_the)))
+        if np.allclose(np.imag(self.defl_norm),0,atol=1e-12*size):
             self.defl_norm = np.real(self.defl_norm)
         else:
             raise ValueError('Imaginary parts of self.defl are > 1e-12')
-- 
2.43.0


From 38d6ec7cb86785346fcdddb90d5b4b3ec6023b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:58 +0000
Subject: [PATCH 118/140] fix: SpecBeam numerical solution is not cut off after
 500 time steps between output times

---
 geotecha/beam_on_foundation/specbeam.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index cb65881..b8e9dcf 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -834,6 +834,9 @@ class SpecBeam(object):
 
         self.time_independant_matrices()
 
+        # odeint gives up (values are then meaningless) after 500 steps.
+        odeint_kwargs.setdefault('mxstep', 1000000)
+
         # odeint's default absolute tolerance swamps the response to small
         # normalised loads.
         size = 0.0
-- 
2.43.0


From 831e8ad0019a3f0ceafd44e180bb165ed6a0c056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:36 +0000
Subject: [PATCH 119/140] fix: name the program speccon1d_vrw in its data files

---
 geotecha/speccon/speccon1d_vrw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/speccon/speccon1d_vrw.py b/geotecha/speccon/speccon1d_vrw.py
index ff32392..700659c 100644
--- a/geotecha/speccon/speccon1d_vrw.py
+++ b/geotecha/speccon/speccon1d_vrw.py
@@ -676,7 +676,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
     def make_output(self):
         """make all output"""
 
-        header1 = "program: speccon1d_vr; geotecha version: {}; author: {}; date: {}\n".format(self.version, self.author, time.strftime('%Y/%m/%d %H:%M:%S'))
+        header1 = "program: speccon1d_vrw; geotecha version: {}; author: {}; date: {}\n".format(self.version, self.author, time.strftime('%Y/%m/%d %H:%M:%S'))
         if not self.title is None:
             header1+= "{}\n".format(self.title)
 
-- 
2.43.0


From 510a09116c774ffb61c1680e3d9e8b7e011383b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:36 +0000
Subject: [PATCH 120/140] fix: plot_vs_depth accepts depths given as a list,
 e.g. a list of ppress_z

---
 geotecha/plotting/one_d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/plotting/one_d.py b/geotecha/plotting/one_d.py
index 0ffe10d..4d80d78 100644
--- a/geotecha/plotting/one_d.py
+++ b/geotecha/plotting/one_d.py
@@ -1912,7 +1912,7 @@ def plot_vs_depth(x, z, line_labels=None, H = 1.0, RLzero=None,
 
 
 
-    z = transformations.depth_to_reduced_level(z, H, RLzero)
+    z = transformations.depth_to_reduced_level(np.asarray(z), H, RLzero)
 
     fig = plt.figure(**fig_prop)
     plt.plot(x, z)
-- 
2.43.0


From c0d1b4be920b3e9534a5df602db6d5d42a71eeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:28 +0000
Subject: [PATCH 121/140] fix: plotting leaves the user's plot_properties in
 place for the next figure

---
 geotecha/consolidation/nogamiandli2003.py      |  6 +++---
 .../consolidation/schiffmanandstein1970.py     |  6 +++---
 geotecha/speccon/speccon1d_unsat.py            | 18 +++++++++---------
 geotecha/speccon/speccon1d_vr.py               | 10 +++++-----
 geotecha/speccon/speccon1d_vrc.py              | 18 +++++++++---------
 geotecha/speccon/speccon1d_vrw.py              | 12 ++++++------
 6 files changed, 35 insertions(+), 35 deletions(-)

diff --git a/geotecha/consolidation/nogamiandli2003.py b/geotecha/consolidation/nogamiandli2003.py
index c7384d9..669dfe5 100644
--- a/geotecha/consolidation/nogamiandli2003.py
+++ b/geotecha/consolidation/nogamiandli2003.py
@@ -806,7 +806,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
 
         t = self.tpor
         line_labels = ['{:.3g}'.format(v) for v in t]
-        por_prop = self.plot_properties.pop('por', dict())
+        por_prop = dict(self.plot_properties.get('por', {}))
         if not 'xlabel' in por_prop:
             por_prop['xlabel'] = 'Pore pressure'+extra
 
@@ -827,7 +827,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
         t = self.t
         line_labels = ['{:.3g} to {:.3g}'.format(0, sum(self.h))]
 
-        avp_prop = self.plot_properties.pop('avp', dict())
+        avp_prop = dict(self.plot_properties.get('avp', {}))
         if not 'ylabel' in avp_prop:
             avp_prop['ylabel'] = 'Average pore pressure'+extra
         fig_avp = geotecha.plotting.one_d.plot_vs_time(t, self.avp.T,
@@ -846,7 +846,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
         t = self.t
         line_labels = ['{:.3g} to {:.3g}'.format(0, sum(self.h))]
 
-        set_prop = self.plot_properties.pop('set', dict())
+        set_prop = dict(self.plot_properties.get('set', {}))
         if not 'ylabel' in set_prop:
             set_prop['ylabel'] = 'surface settlement'+extra
         fig_set = geotecha.plotting.one_d.plot_vs_time(t, self.set.T,
diff --git a/geotecha/consolidation/schiffmanandstein1970.py b/geotecha/consolidation/schiffmanandstein1970.py
index d405306..1e6e0af 100644
--- a/geotecha/consolidation/schiffmanandstein1970.py
+++ b/geotecha/consolidation/schiffmanandstein1970.py
@@ -313,7 +313,7 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
 
         t = self.tpor
         line_labels = ['{:.3g}'.format(v) for v in t]
-        por_prop = self.plot_properties.pop('por', dict())
+        por_prop = dict(self.plot_properties.get('por', {}))
         if not 'xlabel' in por_prop:
             por_prop['xlabel'] = 'Pore pressure'
 
@@ -330,7 +330,7 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
         t = self.t
         line_labels = ['{:.3g} to {:.3g}'.format(0, sum(self.h))]
 
-        avp_prop = self.plot_properties.pop('avp', dict())
+        avp_prop = dict(self.plot_properties.get('avp', {}))
         if not 'ylabel' in avp_prop:
             avp_prop['ylabel'] = 'Average pore pressure'
         fig_avp = geotecha.plotting.one_d.plot_vs_time(t, self.avp.T,
@@ -346,7 +346,7 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
         t = self.t
         line_labels = ['{:.3g} to {:.3g}'.format(0, sum(self.h))]
 
-        set_prop = self.plot_properties.pop('set', dict())
+        set_prop = dict(self.plot_properties.get('set', {}))
         if not 'ylabel' in set_prop:
             set_prop['ylabel'] = 'surface settlement'
         fig_set = geotecha.plotting.one_d.plot_vs_time(t, self.set.T,
diff --git a/geotecha/speccon/speccon1d_unsat.py b/geotecha/speccon/speccon1d_unsat.py
index b676081..3585c3d 100644
--- a/geotecha/speccon/speccon1d_unsat.py
+++ b/geotecha/speccon/speccon1d_unsat.py
@@ -1285,7 +1285,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
         """
         t = self.tvals[self.ppress_z_tval_indexes]
         line_labels = ['{:.3g}'.format(v) for v in t]
-        porw_prop = self.plot_properties.pop('porw', dict())
+        porw_prop = dict(self.plot_properties.get('porw', {}))
         if not 'xlabel' in porw_prop:
             porw_prop['xlabel'] = 'Pore water pressure'
 
@@ -1302,7 +1302,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
         """
         t = self.tvals[self.ppress_z_tval_indexes]
         line_labels = ['{:.3g}'.format(v) for v in t]
-        pora_prop = self.plot_properties.pop('pora', dict())
+        pora_prop = dict(self.plot_properties.get('pora', {}))
         if not 'xlabel' in pora_prop:
             pora_prop['xlabel'] = 'Pore air pressure'
 
@@ -1325,7 +1325,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
             np.asarray(self.avg_ppress_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        avpw_prop = self.plot_properties.pop('avpw', dict())
+        avpw_prop = dict(self.plot_properties.get('avpw', {}))
         if not 'ylabel' in avpw_prop:
             avpw_prop['ylabel'] = 'Average pore water pressure'
         fig_avpw = geotecha.plotting.one_d.plot_vs_time(t, self.avpw.T,
@@ -1344,7 +1344,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
             np.asarray(self.avg_ppress_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        avpa_prop = self.plot_properties.pop('avpa', dict())
+        avpa_prop = dict(self.plot_properties.get('avpa', {}))
         if not 'ylabel' in avpa_prop:
             avpa_prop['ylabel'] = 'Average pore air pressure'
         fig_avpa = geotecha.plotting.one_d.plot_vs_time(t, self.avpa.T,
@@ -1363,7 +1363,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
             np.asarray(self.settlement_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        set_prop = self.plot_properties.pop('set', dict())
+        set_prop = dict(self.plot_properties.get('set', {}))
         if not 'ylabel' in set_prop:
             set_prop['ylabel'] = 'Settlement'
         fig_set = geotecha.plotting.one_d.plot_vs_time(t, self.set.T,
@@ -1383,7 +1383,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
             np.asarray(self.settlement_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        set_prop = self.plot_properties.pop('setw', dict())
+        set_prop = dict(self.plot_properties.get('setw', {}))
         if not 'ylabel' in set_prop:
             set_prop['ylabel'] = 'Water settlement'
         fig_set = geotecha.plotting.one_d.plot_vs_time(t, self.setw.T,
@@ -1403,7 +1403,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
             np.asarray(self.settlement_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        set_prop = self.plot_properties.pop('seta', dict())
+        set_prop = dict(self.plot_properties.get('seta', {}))
         if not 'ylabel' in set_prop:
             set_prop['ylabel'] = 'Air settlement'
         fig_set = geotecha.plotting.one_d.plot_vs_time(t, self.seta.T,
@@ -1489,7 +1489,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
 
     def _plot_materials(self):
 
-        material_prop = self.plot_properties.pop('material', dict())
+        material_prop = dict(self.plot_properties.get('material', {}))
 
         z_x=[]
         xlabels=[]
@@ -1526,7 +1526,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
 
         """
 
-        load_prop = self.plot_properties.pop('load', dict())
+        load_prop = dict(self.plot_properties.get('load', {}))
         load_triples=[]
         load_names = []
         ylabels=[]
diff --git a/geotecha/speccon/speccon1d_vr.py b/geotecha/speccon/speccon1d_vr.py
index 147b4c0..4e4917d 100644
--- a/geotecha/speccon/speccon1d_vr.py
+++ b/geotecha/speccon/speccon1d_vr.py
@@ -1212,7 +1212,7 @@ class Speccon1dVR(speccon1d.Speccon1d):
         """
         t = self.tvals[self.ppress_z_tval_indexes]
         line_labels = ['{:.3g}'.format(v) for v in t]
-        por_prop = self.plot_properties.pop('por', dict())
+        por_prop = dict(self.plot_properties.get('por', {}))
         if not 'xlabel' in por_prop:
             por_prop['xlabel'] = 'Pore pressure'
 
@@ -1234,7 +1234,7 @@ class Speccon1dVR(speccon1d.Speccon1d):
             np.asarray(self.avg_ppress_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        avp_prop = self.plot_properties.pop('avp', dict())
+        avp_prop = dict(self.plot_properties.get('avp', {}))
         if not 'ylabel' in avp_prop:
             avp_prop['ylabel'] = 'Average pore pressure'
         fig_avp = geotecha.plotting.one_d.plot_vs_time(t, self.avp.T,
@@ -1252,7 +1252,7 @@ class Speccon1dVR(speccon1d.Speccon1d):
             np.asarray(self.settlement_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        set_prop = self.plot_properties.pop('set', dict())
+        set_prop = dict(self.plot_properties.get('set', {}))
         if not 'ylabel' in set_prop:
             set_prop['ylabel'] = 'Settlement'
         fig_set = geotecha.plotting.one_d.plot_vs_time(t, self.set.T,
@@ -1312,7 +1312,7 @@ class Speccon1dVR(speccon1d.Speccon1d):
 
     def _plot_materials(self):
         """Prepare material property plots"""
-        material_prop = self.plot_properties.pop('material', dict())
+        material_prop = dict(self.plot_properties.get('material', {}))
 
         z_x=[]
         xlabels=[]
@@ -1338,7 +1338,7 @@ class Speccon1dVR(speccon1d.Speccon1d):
     def _plot_loads(self):
         """Prepare plots of loading."""
 
-        load_prop = self.plot_properties.pop('load', dict())
+        load_prop = dict(self.plot_properties.get('load', {}))
         load_triples=[]
         load_names = []
         ylabels=[]
diff --git a/geotecha/speccon/speccon1d_vrc.py b/geotecha/speccon/speccon1d_vrc.py
index e65a3a7..01adf96 100644
--- a/geotecha/speccon/speccon1d_vrc.py
+++ b/geotecha/speccon/speccon1d_vrc.py
@@ -1239,7 +1239,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
         """
         t = self.tvals[self.ppress_z_tval_indexes]
         line_labels = ['{:.3g}'.format(v) for v in t]
-        por_prop = self.plot_properties.pop('pors', dict())
+        por_prop = dict(self.plot_properties.get('pors', {}))
         if not 'xlabel' in por_prop:
             por_prop['xlabel'] = 'Soil pore pressure'
 
@@ -1256,7 +1256,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
         """
         t = self.tvals[self.ppress_z_tval_indexes]
         line_labels = ['{:.3g}'.format(v) for v in t]
-        porc_prop = self.plot_properties.pop('porc', dict())
+        porc_prop = dict(self.plot_properties.get('porc', {}))
         if not 'xlabel' in porc_prop:
             porc_prop['xlabel'] = 'Column pore pressure'
 
@@ -1274,7 +1274,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
         """
         t = self.tvals[self.ppress_z_tval_indexes]
         line_labels = ['{:.3g}'.format(v) for v in t]
-        por_prop = self.plot_properties.pop('por', dict())
+        por_prop = dict(self.plot_properties.get('por', {}))
         if not 'xlabel' in por_prop:
             por_prop['xlabel'] = 'Pore pressure'
 
@@ -1296,7 +1296,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
             np.asarray(self.avg_ppress_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        avp_prop = self.plot_properties.pop('avp', dict())
+        avp_prop = dict(self.plot_properties.get('avp', {}))
         if not 'ylabel' in avp_prop:
             avp_prop['ylabel'] = 'Average pore pressure'
         fig_avp = geotecha.plotting.one_d.plot_vs_time(t, self.avp.T,
@@ -1314,7 +1314,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
             np.asarray(self.avg_ppress_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        avp_prop = self.plot_properties.pop('avps', dict())
+        avp_prop = dict(self.plot_properties.get('avps', {}))
         if not 'ylabel' in avp_prop:
             avp_prop['ylabel'] = 'Average soil pore pressure'
         fig_avp = geotecha.plotting.one_d.plot_vs_time(t, self.avps.T,
@@ -1332,7 +1332,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
             np.asarray(self.avg_ppress_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        avp_prop = self.plot_properties.pop('avpc', dict())
+        avp_prop = dict(self.plot_properties.get('avpc', {}))
         if not 'ylabel' in avp_prop:
             avp_prop['ylabel'] = 'Average column pore pressure'
         fig_avp = geotecha.plotting.one_d.plot_vs_time(t, self.avpc.T,
@@ -1350,7 +1350,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
             np.asarray(self.settlement_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        set_prop = self.plot_properties.pop('set', dict())
+        set_prop = dict(self.plot_properties.get('set', {}))
         if not 'ylabel' in set_prop:
             set_prop['ylabel'] = 'Settlement'
         fig_set = geotecha.plotting.one_d.plot_vs_time(t, self.set.T,
@@ -1434,7 +1434,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
 
     def _plot_materials(self):
 
-        material_prop = self.plot_properties.pop('material', dict())
+        material_prop = dict(self.plot_properties.get('material', {}))
 
         z_x=[]
         xlabels=[]
@@ -1467,7 +1467,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
 
         """
 
-        load_prop = self.plot_properties.pop('load', dict())
+        load_prop = dict(self.plot_properties.get('load', {}))
         load_triples=[]
         load_names = []
         ylabels=[]
diff --git a/geotecha/speccon/speccon1d_vrw.py b/geotecha/speccon/speccon1d_vrw.py
index 700659c..4bef57a 100644
--- a/geotecha/speccon/speccon1d_vrw.py
+++ b/geotecha/speccon/speccon1d_vrw.py
@@ -1181,7 +1181,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
         """
         t = self.tvals[self.ppress_z_tval_indexes]
         line_labels = ['{:.3g}'.format(v) for v in t]
-        por_prop = self.plot_properties.pop('porwell', dict())
+        por_prop = dict(self.plot_properties.get('porwell', {}))
         if not 'xlabel' in por_prop:
             por_prop['xlabel'] = 'Drain Pore pressure'
 
@@ -1200,7 +1200,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
         """
         t = self.tvals[self.ppress_z_tval_indexes]
         line_labels = ['{:.3g}'.format(v) for v in t]
-        por_prop = self.plot_properties.pop('por', dict())
+        por_prop = dict(self.plot_properties.get('por', {}))
         if not 'xlabel' in por_prop:
             por_prop['xlabel'] = 'Pore pressure'
 
@@ -1222,7 +1222,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
             np.asarray(self.avg_ppress_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        avp_prop = self.plot_properties.pop('avp', dict())
+        avp_prop = dict(self.plot_properties.get('avp', {}))
         if not 'ylabel' in avp_prop:
             avp_prop['ylabel'] = 'Average pore pressure'
         fig_avp = geotecha.plotting.one_d.plot_vs_time(t, self.avp.T,
@@ -1240,7 +1240,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
             np.asarray(self.settlement_z_pairs), self.H, self.RLzero)
         line_labels = ['{:.3g} to {:.3g}'.format(z1, z2) for z1, z2 in z_pairs]
 
-        set_prop = self.plot_properties.pop('set', dict())
+        set_prop = dict(self.plot_properties.get('set', {}))
         if not 'ylabel' in set_prop:
             set_prop['ylabel'] = 'Settlement'
         fig_set = geotecha.plotting.one_d.plot_vs_time(t, self.set.T,
@@ -1306,7 +1306,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
 
     def _plot_materials(self):
 
-        material_prop = self.plot_properties.pop('material', dict())
+        material_prop = dict(self.plot_properties.get('material', {}))
 
         z_x=[]
         xlabels=[]
@@ -1336,7 +1336,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
 
         """
 
-        load_prop = self.plot_properties.pop('load', dict())
+        load_prop = dict(self.plot_properties.get('load', {}))
         load_triples=[]
         load_names = []
         ylabels=[]
-- 
2.43.0


From 26e739a588720de4c9c0c7b8091f045170151bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:48 +0000
Subject: [PATCH 122/140] fix: speccon1d_vrw reads kwref from the input

---
 geotecha/speccon/speccon1d_vrw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/speccon/speccon1d_vrw.py b/geotecha/speccon/speccon1d_vrw.py
index 4bef57a..eb7e263 100644
--- a/geotecha/speccon/speccon1d_vrw.py
+++ b/geotecha/speccon/speccon1d_vrw.py
@@ -511,7 +511,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
     def _setup(self):
 
         self._attributes = (
-            'H drn dT neig mvref kvref khref etref dTh dTv dTw '
+            'H drn dT neig mvref kvref khref etref kwref dTh dTv dTw '
             'mv kh kv kw et '
             'surcharge_vs_depth surcharge_vs_time '
             'top_vs_time bot_vs_time '
-- 
2.43.0


From 9977ce203e33fe9a63a6fe03236ca51de15a2495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:35 +0000
Subject: [PATCH 123/140] fix: generated between-depth integrals start with def

---
 geotecha/speccon/integrals_generate_code.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/speccon/integrals_generate_code.py b/geotecha/speccon/integrals_generate_code.py
index bd30156..b9b27c6 100644
--- a/geotecha/speccon/integrals_generate_code.py
+++ b/geotecha/speccon/integrals_generate_code.py
@@ -3080,7 +3080,7 @@ def dim1sin_a_linear_between():
     z2_only = z2_only.subs(v.map_to_add_index)
 
 
-    text = """dim1sin_a_linear_between(m, at, ab, zt, zb, z):
+    text = """def dim1sin_a_linear_between(m, at, ab, zt, zb, z):
     #import numpy as np #import this globally
     #import math #import this globally
 
@@ -3287,7 +3287,7 @@ def dim1_ab_linear_between():
 #    return A"""
 
 
-    text = """integrate_x1a_x2a_y1a_y2a_multiply_x1b_x2b_y1b_y2b_between(x1a, x2a,
+    text = """def integrate_x1a_x2a_y1a_y2a_multiply_x1b_x2b_y1b_y2b_between(x1a, x2a,
                                                                y1a, y2a,
                                                                x1b, x2b,
                                                                y1b, y2b,
-- 
2.43.0


From 30e1e5e587e55893ba446c0e07a83f9f5a8c1526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:43 +0000
Subject: [PATCH 124/140] fix: dengetal2013 lost all digits for slight
 variation of drain permeability with depth

---
 geotecha/consolidation/dengetal2013and2014.py | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/geotecha/consolidation/dengetal2013and2014.py b/geotecha/consolidation/dengetal2013and2014.py
index cc047df..bd6cd3a 100644
--- a/geotecha/consolidation/dengetal2013and2014.py
+++ b/geotecha/consolidation/dengetal2013and2014.py
@@ -27,6 +27,19 @@ from matplotlib import pyplot as plt
 
 import geotecha.consolidation.smear_zones as smear_zones
 
+def _depth_integral(x, a):
+    """Integral of (1 - y) / (1 - a * y) with respect to y, from 0 to x
+
+    The closed form loses all its digits when `a` is small.
+
+    """
+
+    if abs(a) < 0.01:
+        series = sum(a**k * x**(k + 2) / (k + 2) for k in range(8))
+        return x - (1 - a) * series
+    return (a * x + special.xlog1py(1 - a, -a * x)) / a**2
+
+
 def dengetal2013(z, t, rw, re, A1=1, A2=0, A3=0, H=1, rs=None, ks=None,
                  kw0=1e10, kh=1, mv=0.1, gamw=10, ui=1):
     """Radial consolidation with depth and time dependent well resistance
@@ -133,8 +146,8 @@ def dengetal2013(z, t, rw, re, A1=1, A2=0, A3=0, H=1, rs=None, ks=None,
 
     if A3 == 0 and A2 != 0:
         # qw varies with depth
-        mu1 = A2 * z / H + special.xlogy(A1 - A2, 1 - A2 / A1 * z / H)
-        mu1 *= 2 * np.pi * kh * H**2 / (qw0 * A2**2)
+        mu1 = _depth_integral(z / H, A2 / A1)
+        mu1 *= 2 * np.pi * kh * H**2 / (qw0 * A1)
         mu1 += mu0
         por = ui * np.exp(-8 * Th[None, :] / mu1[:, None])
         return por
@@ -152,8 +165,8 @@ def dengetal2013(z, t, rw, re, A1=1, A2=0, A3=0, H=1, rs=None, ks=None,
         # qw varies with depth and time:
         a3 = A3 * 4 * re**2 / ch
         # reciprocal of alpha, which is infinite at z=0
-        ralp = A2* z / H + special.xlogy(A1 - A2, 1 - A2 / A1 * z / H)
-        ralp *= (2 * np.pi * H**2 * kh) / (mu0 * qw0 * A2**2)
+        ralp = _depth_integral(z / H, A2 / A1)
+        ralp *= (2 * np.pi * H**2 * kh) / (mu0 * qw0 * A1)
         por = (ui * ((ralp[:, None] + np.exp(-a3 * Th[None, :])) /
               (ralp[:, None] + 1)) ** (8/(a3 * mu0)))
         return por
-- 
2.43.0


From 471373520c8acd0b8e3a5c0e29ada757e96154d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:26 +0000
Subject: [PATCH 125/140] fix: Deng drain solutions lost digits for slow
 permeability decline and were zero for fast decline

---
 geotecha/consolidation/dengetal2013and2014.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/geotecha/consolidation/dengetal2013and2014.py b/geotecha/consolidation/dengetal2013and2014.py
index bd6cd3a..bbd16e0 100644
--- a/geotecha/consolidation/dengetal2013and2014.py
+++ b/geotecha/consolidation/dengetal2013and2014.py
@@ -40,6 +40,15 @@ def _depth_integral(x, a):
     return (a * x + special.xlog1py(1 - a, -a * x)) / a**2
 
 
+def _log_decay(r, x):
+    """Natural logarithm of (r + exp(-x)) / (r + 1), for small x too"""
+
+    with np.errstate(divide='ignore'):
+        return np.where(x < 0.1,
+                        np.log1p(np.expm1(-x) / (r + 1)),
+                        np.logaddexp(np.log(r), -x) - np.log1p(r))
+
+
 def dengetal2013(z, t, rw, re, A1=1, A2=0, A3=0, H=1, rs=None, ks=None,
                  kw0=1e10, kh=1, mv=0.1, gamw=10, ui=1):
     """Radial consolidation with depth and time dependent well resistance
@@ -157,8 +166,8 @@ def dengetal2013(z, t, rw, re, A1=1, A2=0, A3=0, H=1, rs=None, ks=None,
         a3 = A3 * 4 * re**2 / ch
         # reciprocal of alpha0, which is infinite at z=0
         ralp0 = (np.pi * kh * (2*H*z - z**2)) / (qw0 * A1 * mu0)
-        por = (ui * ((ralp0[:, None] + np.exp(-a3 * Th[None, :])) /
-              (ralp0[:, None] + 1)) ** (8/(a3 * mu0)))
+        por = ui * np.exp(8 / (a3 * mu0) *
+                          _log_decay(ralp0[:, None], a3 * Th[None, :]))
         return por
 
     if A3 > 0 and A2 != 0:
@@ -167,8 +176,8 @@ def dengetal2013(z, t, rw, re, A1=1, A2=0, A3=0, H=1, rs=None, ks=None,
         # reciprocal of alpha, which is infinite at z=0
         ralp = _depth_integral(z / H, A2 / A1)
         ralp *= (2 * np.pi * H**2 * kh) / (mu0 * qw0 * A1)
-        por = (ui * ((ralp[:, None] + np.exp(-a3 * Th[None, :])) /
-              (ralp[:, None] + 1)) ** (8/(a3 * mu0)))
+        por = ui * np.exp(8 / (a3 * mu0) *
+                          _log_decay(ralp[:, None], a3 * Th[None, :]))
         return por
 
 
@@ -279,7 +288,7 @@ def dengetal2014(z, t, rw, re, A3=0, H=1, rs=None, ks=None,
     if A3 == 0:
         decay = np.exp(-8 * Th / mu0 * C0 / (1 + C0))
     else:
-        decay = ((1+C0 * np.exp(-a3 * Th))/ (1 + C0))**(8 / (a3 * mu0))
+        decay = np.exp(8 / (a3 * mu0) * _log_decay(1 / C0, a3 * Th))
 
     por = 2 / M * np.sin(M * Z) * decay
     por = ui * np.sum(por, axis=2)
-- 
2.43.0


From 5ed83d987be27b75dd72727e8812260a3ceb8114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:33 +0000
Subject: [PATCH 126/140] fix: cosenzaandkorosak2014 reused results of nearly
 equal times

---
 geotecha/consolidation/cosenzaandkorosak2014.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/consolidation/cosenzaandkorosak2014.py b/geotecha/consolidation/cosenzaandkorosak2014.py
index addf1f2..858153a 100644
--- a/geotecha/consolidation/cosenzaandkorosak2014.py
+++ b/geotecha/consolidation/cosenzaandkorosak2014.py
@@ -187,7 +187,7 @@ def cosenzaandkorosak2014(z, t, theta, v, tpor=None, L = 1, kv = 1, mv = 0.1, ga
     for j, lam in enumerate(lamda_n):
         Bn[:, j] = np.array(a(tpor, args=(v, theta, lam)), dtype=float)
 
-    same_t = tpor.shape == t.shape and np.allclose(tpor, t)
+    same_t = np.array_equal(tpor, t)
     if same_t: #reuse Bn for Doc
         Bn_ = Bn.copy()
 
-- 
2.43.0


From e5f1f9bad722999b63ee87402a8bddbb807ae9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:45 +0000
Subject: [PATCH 127/140] fix: PolyLine addition and polyline_make_x_common
 dropped steps and points of lines with small x or y values

---
 geotecha/piecewise/piecewise_linear_1d.py | 37 ++++++++++++++++++-----
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index 146477b..ee67c1d 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -1207,6 +1207,24 @@ def remove_superfluous_from_x_y(x, y, atol=1e-08):
     return x[ikeep], y[ikeep]
 
 
+def _tidy_small_x_y(x, y):
+    """remove_superfluous_from_x_y but with the threshold in proportion when
+    x or y have ranges smaller than unity
+
+    Scaling is by powers of two so x and y values are not altered.
+
+    """
+
+    dx, dy = 1.0, 1.0
+    xrange_, ysize = np.max(x) - np.min(x), np.max(np.abs(y))
+    if 0 < xrange_ < 1:
+        dx = 2.0**np.floor(np.log2(xrange_))
+    if 0 < ysize < 1:
+        dy = 2.0**np.floor(np.log2(ysize))
+    x, y = remove_superfluous_from_x_y(x / dx, y / dy)
+    return x * dx, y * dy
+
+
 def pinterp_xa_ya_multipy_x1b_x2b_y1b_y2b(a, b, xai, xbi, **kwargs):
     """Interpolate a composite function made of two PolyLines; wrapper for
     interp_xa_ya_multipy_x1b_x2b_y1b_y2b.
@@ -2491,8 +2509,8 @@ class PolyLine(object):
                 xb = other.x[:]
                 yb = other.y[:]
 
-            xa, ya = remove_superfluous_from_x_y(xa, ya)
-            xb, yb = remove_superfluous_from_x_y(xb, yb)
+            xa, ya = _tidy_small_x_y(xa, ya)
+            xb, yb = _tidy_small_x_y(xb, yb)
 
 
 
@@ -2514,11 +2532,15 @@ class PolyLine(object):
             start = 0
             stop = 0
 
+            #tolerances, in proportion when x or y have small ranges
+            xtol = self.atol * min(1.0, data[-1, 0] - data[0, 0])
+            ytol = self.atol * min(1.0, np.max(np.abs(data[:, 1])))
+
             i=0
             while i < len(data):
                 x = data[i, 0]
                 #ind = np.where(np.abs(data[:,0] - xnow) < (self.atol + self.rtol * np.abs(xnow)))[0]
-                ind = abs(data[:,0] - x) < (self.atol + self.rtol * abs(x))
+                ind = abs(data[:,0] - x) <= (xtol + self.rtol * abs(x))
 
                 j = np.where((ind) & (data[:, 2] == 0))[0]
                 if len(j) > 0:
@@ -2541,7 +2563,7 @@ class PolyLine(object):
                 y = op(y1, y2)
                 y_ = op(y1_, y2_)
                 pnts.append([x, y])
-                if abs(y - y_)> (self.atol + self.rtol * abs(y_)):
+                if abs(y - y_)> (ytol + self.rtol * abs(y_)):
                     pnts.append([x, y_])
 
                 i= np.nonzero(ind)[0][-1]+1
@@ -2618,14 +2640,15 @@ def polyline_make_x_common(*p_lines):
     start = 0
     stop = 0
 
-    atol = p_lines[0].atol
     rtol = p_lines[0].rtol
+    #tolerance, in proportion when x has a small range
+    xtol = p_lines[0].atol * min(1.0, data[-1, 0] - data[0, 0])
 
     i=0
     while i < len(data):
         x = data[i, 0]
         #ind = np.where(np.abs(data[:,0] - xnow) < (self.atol + self.rtol * np.abs(xnow)))[0]
-        ind = abs(data[:,0] - x) < (atol + rtol * abs(x))# find all x values close to current x
+        ind = abs(data[:,0] - x) <= (xtol + rtol * abs(x))# find all x values close to current x
         for k in range(len(xa)):
 
             j = np.where((ind) & (data[:, 2] == k))[0]
@@ -2637,7 +2660,7 @@ def polyline_make_x_common(*p_lines):
                 y1 = interp_x_y(xa[k], ya[k], x, choose_max=False)[0]
                 y1_= y1
             pnts[k].append([x,y1])
-            if abs(y1 - y1_)> (atol + rtol * abs(y1_)):
+            if y1 != y1_:
                 pnts[k].append([x, y1_])
 
         i = np.nonzero(ind)[0][-1]+1
-- 
2.43.0


From dcd931703f169e457f0f2406eac383d8fa93e274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:45 +0000
Subject: [PATCH 128/140] fix: spectral programs zeroed matrix entries smaller
 than a fixed 1e-8, wrong results when time is in seconds or mv is small

---
 geotecha/speccon/speccon1d.py       | 24 ++++++++++++++++++++++++
 geotecha/speccon/speccon1d_unsat.py |  2 +-
 geotecha/speccon/speccon1d_vr.py    |  4 ++--
 geotecha/speccon/speccon1d_vrc.py   |  4 ++--
 geotecha/speccon/speccon1d_vrw.py   |  4 ++--
 5 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/geotecha/speccon/speccon1d.py b/geotecha/speccon/speccon1d.py
index 6032fec..4cadaa5 100644
--- a/geotecha/speccon/speccon1d.py
+++ b/geotecha/speccon/speccon1d.py
@@ -2287,6 +2287,30 @@ def dim1sin_E_Igamv_the_mvpl(m,
 
 
 
+def zero_negligible(a, rtol=1e-12):
+    """Set entries of a matrix that are just round-off to zero
+
+    Entries are compared with the size of the other entries in the same row
+    and column rather than with a fixed value.  So the outcome does not
+    depend on the units chosen for the matrix entries.
+
+    Parameters
+    ----------
+    a : 2d numpy.array of float
+        Square matrix.  `a` is modified in-place.
+    rtol : float, optional
+        Entries with absolute value less than
+        rtol * sqrt(row maximum * column maximum) are made zero.
+        Default rtol=1e-12.
+
+    """
+
+    size = np.sqrt(np.abs(a).max(axis=1))[:, np.newaxis]
+    size = size * np.sqrt(np.abs(a).max(axis=0))[np.newaxis, :]
+    a[np.abs(a) < rtol * size] = 0.0
+    return
+
+
 if __name__ == '__main__':
     import nose
     nose.runmodule(argv=['nose', '--verbosity=3', '--with-doctest'])
diff --git a/geotecha/speccon/speccon1d_unsat.py b/geotecha/speccon/speccon1d_unsat.py
index 3585c3d..28f43cf 100644
--- a/geotecha/speccon/speccon1d_unsat.py
+++ b/geotecha/speccon/speccon1d_unsat.py
@@ -821,7 +821,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
                                                   + gam_sn)
 
 
-        self.gam[np.abs(self.gam)<1e-8] = 0.0
+        speccon1d.zero_negligible(self.gam)
 
 
         return
diff --git a/geotecha/speccon/speccon1d_vr.py b/geotecha/speccon/speccon1d_vr.py
index 4e4917d..a0e4000 100644
--- a/geotecha/speccon/speccon1d_vr.py
+++ b/geotecha/speccon/speccon1d_vr.py
@@ -747,7 +747,7 @@ class Speccon1dVR(speccon1d.Speccon1d):
 
         self.gam = integ.pdim1sin_af_linear(
             self.m,self.mv, implementation=self.implementation)
-        self.gam[np.abs(self.gam) < 1e-8] = 0.0
+        speccon1d.zero_negligible(self.gam)
         return
 
     def _make_psi(self):
@@ -785,7 +785,7 @@ class Speccon1dVR(speccon1d.Speccon1d):
                 np.sin(self.m[:, np.newaxis] * zfixed) *
                 np.sin(self.m[np.newaxis, :] * zfixed))
 
-        self.psi[np.abs(self.psi) < 1e-8]=0.0
+        speccon1d.zero_negligible(self.psi)
         return
 
     def _make_eigs_and_v(self):
diff --git a/geotecha/speccon/speccon1d_vrc.py b/geotecha/speccon/speccon1d_vrc.py
index 01adf96..95645e4 100644
--- a/geotecha/speccon/speccon1d_vrc.py
+++ b/geotecha/speccon/speccon1d_vrc.py
@@ -797,7 +797,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
 
         self.gam = integ.pdim1sin_af_linear(
                         self.m, self.mv, implementation=self.implementation)
-        self.gam[np.abs(self.gam)<1e-8] = 0.0
+        speccon1d.zero_negligible(self.gam)
 
         return
 
@@ -896,7 +896,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
 
         """
 
-        self.psi[np.abs(self.psi) < 1e-8] = 0.0
+        speccon1d.zero_negligible(self.psi)
         Igam_psi = np.dot(np.linalg.inv(self.gam), self.psi)
         self.eigs, self.v = np.linalg.eig(Igam_psi)
         self.v = np.asarray(self.v)
diff --git a/geotecha/speccon/speccon1d_vrw.py b/geotecha/speccon/speccon1d_vrw.py
index eb7e263..785fe8c 100644
--- a/geotecha/speccon/speccon1d_vrw.py
+++ b/geotecha/speccon/speccon1d_vrw.py
@@ -776,7 +776,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
         """
 
         self.gam = integ.pdim1sin_af_linear(self.m,self.mv, implementation=self.implementation)
-        self.gam[np.abs(self.gam)<1e-8]=0.0
+        speccon1d.zero_negligible(self.gam)
         return
 
     def _make_psi_w(self):
@@ -852,7 +852,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
         self.Ipsi_w = np.linalg.inv(self.psi_w)
         self.psi_s_Ipsi_w = np.dot(self.psi_s, self.Ipsi_w)
         self.psi -= np.dot(self.psi_s_Ipsi_w, self.psi_s)
-        self.psi[np.abs(self.psi) < 1e-8]=0.0
+        speccon1d.zero_negligible(self.psi)
 
         Igam_psi = np.dot(np.linalg.inv(self.gam), self.psi)
 
-- 
2.43.0


From a3c87f604c005b0248325c32ce7d1e9a04f4f3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:57 +0000
Subject: [PATCH 129/140] fix: schiffmanandstein1970 missed the first roots for
 thin layers and large property contrasts

---
 geotecha/consolidation/schiffmanandstein1970.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/geotecha/consolidation/schiffmanandstein1970.py b/geotecha/consolidation/schiffmanandstein1970.py
index 1e6e0af..234eed0 100644
--- a/geotecha/consolidation/schiffmanandstein1970.py
+++ b/geotecha/consolidation/schiffmanandstein1970.py
@@ -445,7 +445,17 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
 
         H = self.zlayer[-1]
 
-        x0 = 0.1 / H**2
+        # The slowest possible decay is when all the water (storage) drains
+        # through all of the soil and any impeding layers (resistance).
+        storage = np.sum(self.mv * self.h)
+        resistance = np.sum(self.h / self.kv)
+        if self.bctop==3:
+            resistance += self.htop / self.ktop
+        if self.bcbot==3:
+            resistance += self.hbot / self.kbot
+        slowest = math.sqrt(self.mv[0] / self.kv[0] / (storage * resistance))
+
+        x0 = 0.1 * min(1 / H**2, slowest)
         self._beta0 = np.empty(self.n, dtype=float)
 
         self._beta0[:] = find_n_roots(self._characteristic_eqn, n=self.n,
-- 
2.43.0


From 79675a22cf0611c955b9d31cf5cb51c7093943b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:57 +0000
Subject: [PATCH 130/140] fix: schiffmanandstein1970 zeroed boundary condition
 terms below a fixed 1e-10

---
 geotecha/consolidation/schiffmanandstein1970.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geotecha/consolidation/schiffmanandstein1970.py b/geotecha/consolidation/schiffmanandstein1970.py
index 234eed0..cca55bb 100644
--- a/geotecha/consolidation/schiffmanandstein1970.py
+++ b/geotecha/consolidation/schiffmanandstein1970.py
@@ -563,7 +563,9 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
 
         for i, beta in enumerate(self._beta0):
             self._beta[i, :] = self._make_BC(beta)
-            self.BC[np.abs(self.BC)<1e-10]=0
+            # each row is an equation in its own units
+            self.BC /= np.abs(self.BC).max(axis=1)[:, np.newaxis]
+            self.BC[np.abs(self.BC)<1e-14]=0
             if self._debug and i==0:
                 print('BC for beta0')
                 print(self.BC)
-- 
2.43.0


From 7b00182e8915d9a5a9028f80cac94d1a016b101f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:57 +0000
Subject: [PATCH 131/140] fix: layered soil programs failed for output at the
 base when the layer thicknesses sum with round-off

---
 geotecha/consolidation/nogamiandli2003.py       | 6 ++++--
 geotecha/consolidation/schiffmanandstein1970.py | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/geotecha/consolidation/nogamiandli2003.py b/geotecha/consolidation/nogamiandli2003.py
index 669dfe5..9a13ec3 100644
--- a/geotecha/consolidation/nogamiandli2003.py
+++ b/geotecha/consolidation/nogamiandli2003.py
@@ -936,7 +936,8 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
 
 
 
-        z_in_layer = np.searchsorted(self.zlayer, self.z)
+        # (z at the base may be out by round-off)
+        z_in_layer = np.searchsorted(self.zlayer * (1 + 1e-12), self.z)
 
         self._calc_un()
         for p, t in enumerate(self.tpor):
@@ -976,7 +977,8 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
         self.avp = np.zeros((1, len(self.t)), dtype=float)
         self.set = np.zeros((1, len(self.t)), dtype=float)
 
-        z_in_layer = np.searchsorted(self.zlayer, self.z)
+        # (z at the base may be out by round-off)
+        z_in_layer = np.searchsorted(self.zlayer * (1 + 1e-12), self.z)
 
         self._calc_un()
         for p, t in enumerate(self.t):
diff --git a/geotecha/consolidation/schiffmanandstein1970.py b/geotecha/consolidation/schiffmanandstein1970.py
index cca55bb..449150d 100644
--- a/geotecha/consolidation/schiffmanandstein1970.py
+++ b/geotecha/consolidation/schiffmanandstein1970.py
@@ -778,7 +778,8 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
         self.por = np.zeros((len(self.z), len(self.tpor)), dtype=float)
 
 
-        z_in_layer = np.searchsorted(self.zlayer, self.z)
+        # (z at the base may be out by round-off)
+        z_in_layer = np.searchsorted(self.zlayer * (1 + 1e-12), self.z)
 
         for j, t in enumerate(self.tpor):
             for m in range(self.n):
-- 
2.43.0


From 071a1a3b7ce6866149e6abf2c9e46cad47ffc1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:54 +0000
Subject: [PATCH 132/140] fix: DingEtAl2012 gave meaningless deflections for
 small loads

odeint's absolute tolerance of 1.5e-8 swamped the response to small
normalised loads, and the limit of 500 steps was exceeded silently.
---
 geotecha/beam_on_foundation/dingetal2012.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/geotecha/beam_on_foundation/dingetal2012.py b/geotecha/beam_on_foundation/dingetal2012.py
index 9767dc7..34c1e4a 100644
--- a/geotecha/beam_on_foundation/dingetal2012.py
+++ b/geotecha/beam_on_foundation/dingetal2012.py
@@ -385,6 +385,14 @@ class DingEtAl2012(object):
         
         vsv0 = np.zeros(2*self.nterms) # initial conditions
 
+        # odeint gives up (values are then meaningless) after 500 steps.
+        odeint_kwargs.setdefault('mxstep', 1000000)
+
+        # odeint's default absolute tolerance swamps the response to small
+        # normalised loads.
+        if 0 < abs(self.Fz_norm) < 1:
+            odeint_kwargs.setdefault('atol', 1.49012e-8 * abs(self.Fz_norm))
+
         self.qsol = odeint(self.vectorfield,
                       vsv0,
                       self.t_norm,
-- 
2.43.0


From 8165a16072be3e31ff40a7f05c8a889f733818c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:54 +0000
Subject: [PATCH 133/140] fix: CRSN 'ode' method was inaccurate for small
 stresses

odeint's absolute tolerance did not depend on the size of the stresses.
---
 geotecha/constitutive_models/void_ratio_stress.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geotecha/constitutive_models/void_ratio_stress.py b/geotecha/constitutive_models/void_ratio_stress.py
index cebdb1d..0119a0c 100644
--- a/geotecha/constitutive_models/void_ratio_stress.py
+++ b/geotecha/constitutive_models/void_ratio_stress.py
@@ -1898,7 +1898,8 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
 
 
             estress = odeint(func, self.estress0, tvals_,
-                             tcrit=np.unique(tvals)[1:])[:,0]
+                             tcrit=np.unique(tvals)[1:],
+                             atol=1.49012e-8 * np.min(self.estress0))[:,0]
             edot_ = np.interp(tvals_, tvals, edot)
             e = self.e0 + pwise.integrate_x_y_between_xi_xj(tvals, edot, np.zeros_like(tvals_), tvals_)
 
-- 
2.43.0


From 037ac5b593d86888828a3b242e7377feb5a061a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:54 +0000
Subject: [PATCH 134/140] fix: xieandleo2004 Up was inaccurate for small loads

the absolute tolerance of quad did not depend on the size of the integral.
---
 geotecha/consolidation/xieandleo2004.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geotecha/consolidation/xieandleo2004.py b/geotecha/consolidation/xieandleo2004.py
index 1be9668..6f0997b 100644
--- a/geotecha/consolidation/xieandleo2004.py
+++ b/geotecha/consolidation/xieandleo2004.py
@@ -437,7 +437,8 @@ class XieAndLeo2004(object):
         f = np.empty(len(t), dtype=float)
         #TODO: replace call to quad with my own numerical integrations to avoid scipy license
         for i, t_ in enumerate(t):
-            f[i] = 1 - 1.0 / (H * qu) * integrate.quad(u, 0, H, (t_,))[0]
+            f[i] = 1 - 1.0 / (H * qu) * integrate.quad(u, 0, H, (t_,),
+                                    epsabs=1.49e-8 * H * qu)[0]
 
         return f
 
@@ -469,7 +470,8 @@ class XieAndLeo2004(object):
         f = np.empty(len(t), dtype=float)
         #TODO: replace call to quad with my own numerical integrations to avoid scipy license
         for i, t_ in enumerate(t):
-            f[i] = 1 - 1.0 / (H * qu) * integrate.quad(u, 0, H, (t_,))[0]
+            f[i] = 1 - 1.0 / (H * qu) * integrate.quad(u, 0, H, (t_,),
+                                    epsabs=1.49e-8 * H * qu)[0]
 
         return f
 
-- 
2.43.0


From aa5a55bce7d511856a52e77395e4431f2316ca68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:09 +0000
Subject: [PATCH 135/140] fix: keep the nh input of NogamiAndLi2003 unset in
 problems without drains, so the object can be solved again

---
 geotecha/consolidation/nogamiandli2003.py | 41 ++++++++++++-----------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/geotecha/consolidation/nogamiandli2003.py b/geotecha/consolidation/nogamiandli2003.py
index 9a13ec3..8bfd64b 100644
--- a/geotecha/consolidation/nogamiandli2003.py
+++ b/geotecha/consolidation/nogamiandli2003.py
@@ -343,8 +343,9 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
         if not self.kh is None:
             self.kh = np.asarray(self.kh)
             self.ch = self.kh / self.mv
+            self._nh = self.nh
         else:
-            self.nh = 1
+            self._nh = 1
             self.ch = np.zeros_like(self.mv)
 
         self.h = np.asarray(self.h)
@@ -410,7 +411,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
             self._sn=np.array([0])
         else:
             self._sn = find_n_roots(self._radial_characteristic_curve,
-                               n=self.nh,x0=self.radial_roots_x0,
+                               n=self._nh,x0=self.radial_roots_x0,
                                dx=self.radial_roots_dx,
                                p = self.radial_roots_p, max_iter=self.max_iter)
 
@@ -439,13 +440,13 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
         sin = cmath.sin
         cos = cmath.cos
 
-        self._phia = np.zeros((self.nh, self.nv, self.nlayers), dtype=float)
-        self._phidota = np.zeros((self.nh, self.nv, self.nlayers), dtype=float)
+        self._phia = np.zeros((self._nh, self.nv, self.nlayers), dtype=float)
+        self._phidota = np.zeros((self._nh, self.nv, self.nlayers), dtype=float)
 
         self._phia[:,:,0] = self.phia0[0]
         self._phidota[:,:,0] = self.phia0[1]
 #        print('o'*40)
-        for i in range(self.nh):
+        for i in range(self._nh):
             s = self._sn[i]
 
             square = np.zeros((2,2), dtype=complex)
@@ -529,7 +530,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
     def _find_alp(self):
         """find alp by matrix transfer method"""
 
-        self._alp = np.zeros((self.nh, self.nv), dtype=float)
+        self._alp = np.zeros((self._nh, self.nv), dtype=float)
 
         for n, s in enumerate(self._sn):
             if s==0:
@@ -548,7 +549,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
     def _calc_Cn(self):
         """Calc Cn part of the coefficient Cmn"""
 
-        self._Cn = np.zeros(self.nh, dtype=float)
+        self._Cn = np.zeros(self._nh, dtype=float)
 
         if self.kh is None:
             self._Cn[:]=1
@@ -566,9 +567,9 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
     def _calc_betamn(self):
         """calc beta for each layer and each eigenvalue combination"""
 
-        self._betamn = np.zeros((self.nh, self.nv, self.nlayers), dtype=complex)
+        self._betamn = np.zeros((self._nh, self.nv, self.nlayers), dtype=complex)
 
-        for i in range(self.nh):
+        for i in range(self._nh):
             s = self._sn[i]
             for j in range(self.nv):
                 alp = self._alp[i, j]
@@ -584,10 +585,10 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
         sin = cmath.sin
         cos = cmath.cos
 
-        self._Amn = np.zeros((self.nh, self.nv, self.nlayers), dtype=complex)
-        self._Bmn = np.zeros((self.nh, self.nv, self.nlayers), dtype=complex)
+        self._Amn = np.zeros((self._nh, self.nv, self.nlayers), dtype=complex)
+        self._Bmn = np.zeros((self._nh, self.nv, self.nlayers), dtype=complex)
 
-        for i in range(self.nh):
+        for i in range(self._nh):
             s = self._sn[i]
             square = np.zeros((2,2), dtype=float)
             for j in range(self.nv):
@@ -619,10 +620,10 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
     def _calc_Cm(self):
         """Calc Cm part of the coefficient Cmn"""
         self._calc_Amn_and_Bmn()
-        self._Cm = np.zeros((self.nh, self.nv), dtype=complex)
+        self._Cm = np.zeros((self._nh, self.nv), dtype=complex)
 
 
-        for i in range(self.nh):
+        for i in range(self._nh):
             s = self._sn[i]
             for j in range(self.nv):
                 alp = self._alp[i, j]
@@ -648,8 +649,8 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
         self._calc_Cn()
         self._calc_Cm()
 
-        self._Cmn = np.zeros((self.nh, self.nv), dtype=complex)
-        for i in range(self.nh):
+        self._Cmn = np.zeros((self._nh, self.nv), dtype=complex)
+        for i in range(self._nh):
             Cn = self._Cn[i]
             for j in range(self.nv):
                 Cm = self._Cm[i,j]
@@ -941,7 +942,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
 
         self._calc_un()
         for p, t in enumerate(self.tpor):
-            for i in range(self.nh):
+            for i in range(self._nh):
                 s = self._sn[i]
                 un = self._un[i]
                 for j in range(self.nv):
@@ -982,7 +983,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
 
         self._calc_un()
         for p, t in enumerate(self.t):
-            for i in range(self.nh):
+            for i in range(self._nh):
                 s = self._sn[i]
                 un = self._un[i]
                 for j in range(self.nv):
@@ -1004,7 +1005,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
                             phi = (sin(bet * h) / bet * phi_a +
                                 (1-cos(bet * h))/bet**2*phi_a_dot)
                         self.avp[0, p] += Cmn * un * phi.real / h_all * Tm
-                        self.set[0, p] += self.mv[layer] * (load * h /self.nh/self.nv - Cmn *
+                        self.set[0, p] += self.mv[layer] * (load * h /self._nh/self.nv - Cmn *
                                             un * phi.real * Tm)
 
     def _plot_vert_roots(self, npt=200):
@@ -1022,7 +1023,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
 
         fig = plt.figure(figsize=(40, 8))
         ax = fig.add_subplot(111)
-        for i in range(self.nh):
+        for i in range(self._nh):
             s = self._sn[i]
 #            amin=self._alp_min()[i]
 #            amin=0.001
-- 
2.43.0


From 568a3459aa63c9d973f0c6da5bd93e94416abde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:47 +0000
Subject: [PATCH 136/140] fix: draw the beam figures with subplot numbers
 matplotlib accepts

---
 geotecha/beam_on_foundation/dingetal2012.py |  2 +-
 geotecha/beam_on_foundation/specbeam.py     | 44 ++++++++++-----------
 2 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/geotecha/beam_on_foundation/dingetal2012.py b/geotecha/beam_on_foundation/dingetal2012.py
index 34c1e4a..98c9863 100644
--- a/geotecha/beam_on_foundation/dingetal2012.py
+++ b/geotecha/beam_on_foundation/dingetal2012.py
@@ -457,7 +457,7 @@ def dingetal_figure_8():
         f.write(ftime + os.linesep)                
 
         fig=plt.figure()
-        ax = fig.add_subplot("111")
+        ax = fig.add_subplot(1, 1, 1)
         ax.set_xlabel("time, s")
         ax.set_ylabel("w, m")
         ax.set_xlim(3.5, 4.5)
diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index b8e9dcf..0a64db6 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -2355,7 +2355,7 @@ def dingetal_figure_8(v_nterms=(50,75,150,200)):
         f.write(ftime + os.linesep)
 
         fig=plt.figure()
-        ax = fig.add_subplot("111")
+        ax = fig.add_subplot(1, 1, 1)
         ax.set_xlabel("time, s")
         ax.set_ylabel("w, m")
         ax.set_xlim(3.5, 4.5)
@@ -2584,7 +2584,7 @@ def SpecBeam_const_mat_midpoint_defl_runme_analytical_play():
 
 
         fig = plt.figure(figsize=(10,6))
-        ax = fig.add_subplot("111")
+        ax = fig.add_subplot(1, 1, 1)
         ax.set_xlabel("time, s")
         ax.set_ylabel("w, m")
         ax.set_xlim(3.5, 4.5)
@@ -2867,7 +2867,7 @@ def FIGURE_verify_against_DingEtAl2012_fig8(v_nterms=(50,75,150,200), saveas=Non
         fig = plt.figure(figsize=(3.54,3.54))
         matplotlib.rcParams.update({'font.size': 11})
 
-        ax = fig.add_subplot("111")
+        ax = fig.add_subplot(1, 1, 1)
 
 
         for v in v_nterms:
@@ -2989,7 +2989,7 @@ def FIGURE_convergence_step_change(v_nterms=(50,75,150,200),saveas=None):
         fig = plt.figure(figsize=(3.54,3.54))
         matplotlib.rcParams.update({'font.size': 11})
 
-        ax = fig.add_subplot("111")
+        ax = fig.add_subplot(1, 1, 1)
 
 
         for v in v_nterms:
@@ -3102,7 +3102,7 @@ def FIGURE_defl_envelope_vary_velocity(velocities_norm=(0.01165,),saveas=None,nt
         fig = plt.figure(figsize=(3.54,3.54))
         matplotlib.rcParams.update({'font.size': 11})
 
-        ax = fig.add_subplot("111")
+        ax = fig.add_subplot(1, 1, 1)
 
 
         for v in velocities_norm:
@@ -3251,7 +3251,7 @@ def FIGURE_DAF_constant_prop(saveas=None,nterms=100,force_calc=True,prefix="",
         fig = plt.figure(figsize=(3.54,3.54))
         matplotlib.rcParams.update({'font.size': 11})
 
-        ax = fig.add_subplot("111")
+        ax = fig.add_subplot(1, 1, 1)
 
         if alphas is None:
             alphas = np.linspace(1e-5, 3, 100)
@@ -3457,7 +3457,7 @@ def FIGURE_DAF_transition_length(saveas=None,k_ratio=4,beta=0.1,nterms=100,force
         fig = plt.figure(figsize=(3.54,3.54))
         matplotlib.rcParams.update({'font.size': 11})
 
-        ax = fig.add_subplot("111")
+        ax = fig.add_subplot(1, 1, 1)
 
 
         alphas = np.linspace(1e-5, 3, 10)
@@ -3610,10 +3610,10 @@ def FIGURE_DAF_transition_length_esveld(saveas=None,k_ratio=4,beta=0.1,nterms=10
         fig = plt.figure(figsize=(3.54,3.54))
         matplotlib.rcParams.update({'font.size': 11})
 
-        ax = fig.add_subplot("111")
+        ax = fig.add_subplot(1, 1, 1)
 
         fig2 = plt.figure(figsize=(3.54,3.54))
-        ax2 = fig2.add_subplot("111")
+        ax2 = fig2.add_subplot(1, 1, 1)
 
         alphas = [0.0001, 0.4, 0.9]
         t_lengths = np.linspace(0,25.0,6)
@@ -3792,13 +3792,13 @@ def FIGURE_DAFwrtinf_transition_length(saveas=None,k_ratio=4,beta=0.1,nterms=100
 
         matplotlib.rcParams.update({'font.size': 11})
         fig = plt.figure(figsize=(3.54,3.54))
-        ax = fig.add_subplot("111")
+        ax = fig.add_subplot(1, 1, 1)
 
         fig2 = plt.figure(figsize=(3.54,3.54))
-        ax2 = fig2.add_subplot("111")
+        ax2 = fig2.add_subplot(1, 1, 1)
 
         fig3 = plt.figure(figsize=(3.54,3.54))
-        ax3 = fig3.add_subplot("111")
+        ax3 = fig3.add_subplot(1, 1, 1)
 
         alphas = [0.0001, 0.1, 0.3, 0.4, 0.5, 0.9, 1.1, 1.3]
         t_lengths = np.linspace(25,0,6)
@@ -4001,13 +4001,13 @@ def FIGURE_DAFwrtinf_transition_lengthrev(saveas=None,k_ratio=4,beta=0.1,nterms=
 
         matplotlib.rcParams.update({'font.size': 11})
         fig = plt.figure(figsize=(3.54,3.54))
-        ax = fig.add_subplot("111")
+        ax = fig.add_subplot(1, 1, 1)
 
         fig2 = plt.figure(figsize=(3.54,3.54))
-        ax2 = fig2.add_subplot("111")
+        ax2 = fig2.add_subplot(1, 1, 1)
 
         fig3 = plt.figure(figsize=(3.54,3.54))
-        ax3 = fig3.add_subplot("111")
+        ax3 = fig3.add_subplot(1, 1, 1)
 
         alphas = [0.0001, 0.1, 0.3, 0.4, 0.5, 0.9, 1.1, 1.3]
         t_lengths = np.linspace(25,0,6)
@@ -4212,13 +4212,13 @@ def FIGURE_DAFwrtinf_transition_length_betaconst(saveas=None,k_ratio=4,beta=0.1,
 
         matplotlib.rcParams.update({'font.size': 11})
         fig = plt.figure(figsize=(3.54,3.54))
-        ax = fig.add_subplot("111")
+        ax = fig.add_subplot(1, 1, 1)
 
         fig2 = plt.figure(figsize=(3.54,3.54))
-        ax2 = fig2.add_subplot("111")
+        ax2 = fig2.add_subplot(1, 1, 1)
 
         fig3 = plt.figure(figsize=(3.54,3.54))
-        ax3 = fig3.add_subplot("111")
+        ax3 = fig3.add_subplot(1, 1, 1)
 
         alphas = [0.0001, 0.1, 0.3, 0.4, 0.5, 0.9, 1.1, 1.3]
         t_lengths = np.linspace(25,0,6)
@@ -6807,12 +6807,12 @@ def case_study_PaixaoEtAl2014(
 
 
         fig2 = plt.figure(figsize=(8,8))
-        ax3 = fig2.add_subplot("111")
+        ax3 = fig2.add_subplot(1, 1, 1)
         #fig2 = plt.figure(figsize=(3.54,3.54))
-        #ax2 = fig2.add_subplot("111")
+        #ax2 = fig2.add_subplot(1, 1, 1)
 
         #fig3 = plt.figure(figsize=(3.54,3.54))
-        #ax3 = fig3.add_subplot("111")
+        #ax3 = fig3.add_subplot(1, 1, 1)
 
 
         #t_lengths = np.linspace(25,0,6)
@@ -9607,7 +9607,7 @@ if __name__ == "__main__":
             f.write(ftime + os.linesep)
 
             fig=plt.figure()
-            ax = fig.add_subplot("111")
+            ax = fig.add_subplot(1, 1, 1)
             ax.set_xlabel("time, s")
             ax.set_ylabel("w, m")
             ax.set_xlim(3.5, 4.5)
-- 
2.43.0


From b6559802df2d929c962d2ad81169588ef9f8879a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:43 +0000
Subject: [PATCH 137/140] fix: use the figure of the axes given to the
 transition and DAF envelope figures

---
 geotecha/beam_on_foundation/specbeam.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 0a64db6..e2c9443 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -7167,8 +7167,7 @@ def transition_DAF1(saveas=None,
         Default saveas=None, i.e. figure won't be saved to disk.
     ax : matplotlib.Axes object, optional
         Axes object to plot on. Default ax=None, i.e. figure and axis
-        will be created.  Nb this might return an error if used as the function
-        will try and return then figure.
+        will be created.
     kratios : list of float, optional
         striffness ratio values. Default kratios=None which will
         mean kratios=[1,2].
@@ -7217,6 +7216,8 @@ def transition_DAF1(saveas=None,
 
     if ax is None:
         fig,ax = plt.subplots(figsize=(3.54,3.54))
+    else:
+        fig = ax.figure
     matplotlib.rcParams.update({'font.size': 11})
 
     if kratios is None:
@@ -7317,8 +7318,7 @@ def transition_DAF1_at_specific_alp(saveas=None,
         Default saveas=None, i.e. figure won't be saved to disk.
     ax : matplotlib.Axes object, optional
         Axes object to plot on. Default ax=None, i.e. figure and axis
-        will be created.  Nb this might return an error if used as the function
-        will try and return then figure.
+        will be created.
     alphas : list of float,optional
         Specific velocity ratios to calc at.  Default alphas=None which will
         use [0.1, 0.5, 0.8].
@@ -7345,6 +7345,8 @@ def transition_DAF1_at_specific_alp(saveas=None,
     if ax is None:
         fig,ax = plt.subplots(figsize=(3.54,3.54))
         matplotlib.rcParams.update({'font.size': 11})
+    else:
+        fig = ax.figure
 
     if kratios is None:
         kratios=np.logspace(np.log10(0.1), np.log10(100), 100)
@@ -8748,6 +8750,8 @@ def FIG_DAF_envelope_vary_beta(ax=None, betas=None, alphas=None,
 
     if ax is None:
         fig,ax = plt.subplots(figsize=(3.54,3.54))
+    else:
+        fig = ax.figure
 
     matplotlib.rcParams.update({'font.size': 11})
 
-- 
2.43.0


From aba4d6d06d533614671b856ea87474641f21766a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:43 +0000
Subject: [PATCH 138/140] fix: leave the alphas given to
 FIG_DAF_envelope_vary_beta unchanged

---
 geotecha/beam_on_foundation/specbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index e2c9443..cd1d58c 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -8788,7 +8788,7 @@ def FIG_DAF_envelope_vary_beta(ax=None, betas=None, alphas=None,
 
 
     if numerical_DAF:
-        alphas.insert(0,0.00001)
+        alphas = [0.00001] + list(alphas)
 
     for i,alp in enumerate(alphas):
         for j,bet in enumerate(betas):
-- 
2.43.0


From 6dab331595e122f5620059edf4ecff2f451a24a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:06 +0000
Subject: [PATCH 139/140] fix: keep the evaluation range of transition_zones1
 when it draws deflection against time

---
 geotecha/beam_on_foundation/specbeam.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index cd1d58c..e7cd18a 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -7941,13 +7941,13 @@ def transition_zones1(
                 #point vs time plot
                 if not xi_Lc is None:
                     max_position=np.unravel_index(a.defl.argmax(), a.defl.shape)[0]
-                    xeval=a.xvals_norm[max_position]
-#                    xeval = trans_middle + xi_Lc / lam/pdict["L"]
-                    xi_Lc_ = (xeval-trans_middle)*lam*pdict["L"]
-                    ieval = np.searchsorted(a.xvals_norm,xeval)
+                    xevalu=a.xvals_norm[max_position]
+#                    xevalu = trans_middle + xi_Lc / lam/pdict["L"]
+                    xi_Lc_ = (xevalu-trans_middle)*lam*pdict["L"]
+                    ieval = np.searchsorted(a.xvals_norm,xevalu)
                     xplot=a.tvals#tvals_norm
-                    yplot = a.defl[ieval-1,:] + (xeval-a.xvals_norm[ieval-1])/(a.xvals_norm[ieval]-a.xvals_norm[ieval-1]) * (a.defl[ieval,:]-a.defl[ieval-1,:])
-#                    yplot = a.defl[ieval,:] + (xeval-a.xvals_norm[ieval])/(a.xvals_norm[ieval+1]-a.xvals_norm[ieval]) * (a.defl[ieval+1,:]-a.defl[ieval,:])
+                    yplot = a.defl[ieval-1,:] + (xevalu-a.xvals_norm[ieval-1])/(a.xvals_norm[ieval]-a.xvals_norm[ieval-1]) * (a.defl[ieval,:]-a.defl[ieval-1,:])
+#                    yplot = a.defl[ieval,:] + (xevalu-a.xvals_norm[ieval])/(a.xvals_norm[ieval+1]-a.xvals_norm[ieval]) * (a.defl[ieval+1,:]-a.defl[ieval,:])
                     yplot /= wstatic
                     if article_formatting:
                         ax4.plot(xplot, yplot,
@@ -7958,7 +7958,7 @@ def transition_zones1(
                         ax4.plot(xplot, yplot, color=line.get_color(),
                                 label="$L_t/L_c={}$".format(Lt_Lc) )
                     for imvpl, mvpl in enumerate(a.moving_loads_norm):
-                        t_pass = mvpl.time_axles_pass_beam_point(xeval)
+                        t_pass = mvpl.time_axles_pass_beam_point(xevalu)
                         t_pass *= pdict["L"] / np.sqrt(pdict["E"] / pdict["rho"])
                         ax4.plot(t_pass, np.interp(t_pass,xplot,yplot),
                                      color=line.get_color(),
-- 
2.43.0


From 74394cae3cc9e6ccf83c5dd0fc842e01425b8b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:07 +0000
Subject: [PATCH 140/140] fix: draw and save the deflection against time of
 transition_zones1 and 2 only when asked for

---
 geotecha/beam_on_foundation/specbeam.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index e7cd18a..736d6cd 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -7700,7 +7700,7 @@ def transition_zones1(
     ax2.grid()
 
 
-    if not xi_Lc is None:
+    if xi_Lc:
         fig4, ax4 = plt.subplots() # deflection vs time at point
 
     fig5 = plt.figure(figsize=(3.54, 3.54))
@@ -7939,7 +7939,7 @@ def transition_zones1(
 
 
                 #point vs time plot
-                if not xi_Lc is None:
+                if xi_Lc:
                     max_position=np.unravel_index(a.defl.argmax(), a.defl.shape)[0]
                     xevalu=a.xvals_norm[max_position]
 #                    xevalu = trans_middle + xi_Lc / lam/pdict["L"]
@@ -8009,7 +8009,7 @@ def transition_zones1(
     fig.subplots_adjust(top=0.95, bottom=0.13, left=0.14, right=0.95)
 
 
-    if not xi_Lc is None:
+    if xi_Lc:
         ax4.set_xlabel('$Time (s)$')
         ax4.set_ylabel('$w/w_{static1}$')
         leg = ax4.legend(
@@ -8036,7 +8036,8 @@ def transition_zones1(
     if not saveas is None:
 
         save_figure(fig=fig, fname=saveas + "_fig1")
-        save_figure(fig=fig4, fname=saveas + "_fig4")
+        if xi_Lc:
+            save_figure(fig=fig4, fname=saveas + "_fig4")
         save_figure(fig=fig5, fname=saveas + "_fig5")
 
 
@@ -8151,7 +8152,7 @@ def transition_zones2(animateme=False,
     ax2.grid()
 
 
-    if not xi_Lc is None:
+    if xi_Lc:
         fig4, ax4 = plt.subplots() # deflection vs time at point
 
     fig5, ax5 = plt.subplots()
@@ -8422,7 +8423,7 @@ def transition_zones2(animateme=False,
 
 
                 #point vs time plot
-                if not xi_Lc is None:
+                if xi_Lc:
                     max_position=np.unravel_index(a.defl.argmax(), a.defl.shape)[0]
                     xevalu=a.xvals_norm[max_position]
 #                    xevalu = trans_middle + xi_Lc / lam/pdict["L"]
@@ -8477,7 +8478,7 @@ def transition_zones2(animateme=False,
     fig.subplots_adjust(top=0.95, bottom=0.13, left=0.14, right=0.95)
 
 
-    if not xi_Lc is None:
+    if xi_Lc:
         ax4.set_xlabel('$norm _time$')
         ax4.set_ylabel('$w/w_{static1}$')
         leg = ax4.legend(
-- 
2.43.0

