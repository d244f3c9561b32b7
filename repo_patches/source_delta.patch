From 1e000c9022f968eecfdf3fb7626d3c1ea310daab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:13 +0000
Subject: [PATCH 01/13] fix: progress message divides by the interval length,
 not by the final time (ZeroDivisionError for tf=0)

---
 rkstiff/solveras.py | 2 +-
 rkstiff/solvercs.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index 25062ef..509a27b 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -631,7 +631,7 @@ class BaseSolverAS(BaseSolver):
                     "Progress: t=%.6f/%.6f (%.1f%%), steps=%d",
                     self.__tc,
                     self.__tf,
-                    100 * self.__tc / self.__tf,
+                    100 * (self.__tc - self.__t0) / (self.__tf - self.__t0),
                     step_count,
                 )
 
diff --git a/rkstiff/solvercs.py b/rkstiff/solvercs.py
index 160007d..ff655ff 100644
--- a/rkstiff/solvercs.py
+++ b/rkstiff/solvercs.py
@@ -265,7 +265,7 @@ class BaseSolverCS(BaseSolver):
                     "Progress: t=%.6f/%.6f (%.1f%%), steps=%d",
                     self.__tc,
                     self.__tf,
-                    100 * self.__tc / self.__tf,
+                    100 * (self.__tc - t0) / (self.__tf - t0),
                     step_count,
                 )
 
-- 
2.43.0


From e3de95b5f16557e9a01ee3df19b88111509cbe7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:18 +0000
Subject: [PATCH 02/13] fix: periodic grids have exactly n points (a rounded
 step gave n+1 for some intervals)

---
 rkstiff/grids.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rkstiff/grids.py b/rkstiff/grids.py
index bdeb596..5401b0e 100644
--- a/rkstiff/grids.py
+++ b/rkstiff/grids.py
@@ -80,7 +80,7 @@ def construct_x_kx_rfft(n: int, a: float = 0.0, b: float = 2 * np.pi) -> Tuple[n
         raise ValueError("n must be an even integer greater than 2.")
 
     dx = (b - a) / n
-    x = np.arange(a, b, dx)
+    x = a + dx * np.arange(n)
     kx = 2 * np.pi * np.fft.rfftfreq(n, d=dx)
     return x, kx
 
@@ -126,7 +126,7 @@ def construct_x_kx_fft(n: int, a: float = 0.0, b: float = 2 * np.pi) -> Tuple[np
         raise ValueError("n must be an even integer greater than 2.")
 
     dx = (b - a) / n
-    x = np.arange(a, b, dx)
+    x = a + dx * np.arange(n)
     kx = 2 * np.pi * np.fft.fftfreq(n, d=dx)
     return x, kx
 
-- 
2.43.0


From c565d47533b297cd25e21f85ea7972b9e2e93dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:22 +0000
Subject: [PATCH 03/13] fix: default configurations are created per solver
 instead of shared by all instances

---
 rkstiff/etd.py      | 12 ++++++------
 rkstiff/etd34.py    | 12 ++++++------
 rkstiff/etd35.py    | 12 ++++++------
 rkstiff/etd4.py     |  4 ++--
 rkstiff/etd5.py     |  8 ++++----
 rkstiff/if34.py     |  4 ++--
 rkstiff/if45dp.py   |  4 ++--
 rkstiff/solveras.py | 12 ++++++------
 8 files changed, 34 insertions(+), 34 deletions(-)

diff --git a/rkstiff/etd.py b/rkstiff/etd.py
index 584a02e..da74c6a 100644
--- a/rkstiff/etd.py
+++ b/rkstiff/etd.py
@@ -37,7 +37,7 @@ ETD methods are particularly efficient when
 :math:`\mathcal{N}(\mathbf{U})` evolves on a slower time scale than the linear component :math:`\mathcal{L}\mathbf{U}`.
 """
 
-from typing import Union, Literal, Callable
+from typing import Optional, Union, Literal, Callable
 import numpy as np
 from .solvercs import BaseSolverCS
 from .solveras import SolverConfig, BaseSolverAS
@@ -217,12 +217,12 @@ class ETDAS(BaseSolverAS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        config: SolverConfig = SolverConfig(),
-        etd_config: ETDConfig = ETDConfig(),
+        config: Optional[SolverConfig] = None,
+        etd_config: Optional[ETDConfig] = None,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
         super().__init__(lin_op, nl_func, config, loglevel=loglevel)
-        self.etd_config: ETDConfig = etd_config
+        self.etd_config: ETDConfig = ETDConfig() if etd_config is None else etd_config
         self._h_coeff = None
 
 
@@ -270,9 +270,9 @@ class ETDCS(BaseSolverCS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        etd_config: ETDConfig = ETDConfig(),
+        etd_config: Optional[ETDConfig] = None,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
         super().__init__(lin_op, nl_func, loglevel=loglevel)
-        self.etd_config: ETDConfig = etd_config
+        self.etd_config: ETDConfig = ETDConfig() if etd_config is None else etd_config
         self._h_coeff = None
diff --git a/rkstiff/etd34.py b/rkstiff/etd34.py
index 4a25323..a5c4b1b 100644
--- a/rkstiff/etd34.py
+++ b/rkstiff/etd34.py
@@ -17,7 +17,7 @@ third-order error estimation for adaptive step control.
 """
 
 import logging
-from typing import Callable, Union, Literal
+from typing import Optional, Callable, Union, Literal
 import numpy as np
 from scipy.linalg import expm
 from .etd import ETDAS, ETDConfig, psi1, psi2, psi3, SolverConfig
@@ -509,8 +509,8 @@ class ETD34(ETDAS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        config: SolverConfig = SolverConfig(),
-        etd_config: ETDConfig = ETDConfig(),
+        config: Optional[SolverConfig] = None,
+        etd_config: Optional[ETDConfig] = None,
         diagonalize: bool = False,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ):
@@ -545,12 +545,12 @@ class ETD34(ETDAS):
         """
         super().__init__(lin_op, nl_func, config=config, etd_config=etd_config, loglevel=loglevel)
         if self._diag:
-            self._method = _Etd34Diagonal(lin_op, nl_func, etd_config, self.logger)
+            self._method = _Etd34Diagonal(lin_op, nl_func, self.etd_config, self.logger)
         else:
             if diagonalize:
-                self._method = _Etd34Diagonalized(lin_op, nl_func, etd_config, self.logger)
+                self._method = _Etd34Diagonalized(lin_op, nl_func, self.etd_config, self.logger)
             else:
-                self._method = _Etd34NonDiagonal(lin_op, nl_func, etd_config)
+                self._method = _Etd34NonDiagonal(lin_op, nl_func, self.etd_config)
         self.__n1_init = False
         self._accept = False
 
diff --git a/rkstiff/etd35.py b/rkstiff/etd35.py
index d821272..05128f1 100644
--- a/rkstiff/etd35.py
+++ b/rkstiff/etd35.py
@@ -61,7 +61,7 @@ local error estimates derived from the third-order embedding.
 """
 
 import logging
-from typing import Callable, Union, Literal
+from typing import Optional, Callable, Union, Literal
 import numpy as np
 from scipy.linalg import expm
 from .etd import ETDAS, ETDConfig, psi1, psi2, psi3, SolverConfig
@@ -785,8 +785,8 @@ class ETD35(ETDAS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        config: SolverConfig = SolverConfig(),
-        etd_config: ETDConfig = ETDConfig(),
+        config: Optional[SolverConfig] = None,
+        etd_config: Optional[ETDConfig] = None,
         diagonalize: bool = False,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ):
@@ -820,12 +820,12 @@ class ETD35(ETDAS):
             loglevel=loglevel,
         )
         if self._diag:
-            self._method = _Etd35Diagonal(lin_op, nl_func, etd_config, self.logger)
+            self._method = _Etd35Diagonal(lin_op, nl_func, self.etd_config, self.logger)
         else:
             if diagonalize:
-                self._method = _Etd35Diagonalized(lin_op, nl_func, etd_config, self.logger)
+                self._method = _Etd35Diagonalized(lin_op, nl_func, self.etd_config, self.logger)
             else:
-                self._method = _Etd35NonDiagonal(lin_op, nl_func, etd_config)
+                self._method = _Etd35NonDiagonal(lin_op, nl_func, self.etd_config)
         self._stages_init = False
         self._accept = False
 
diff --git a/rkstiff/etd4.py b/rkstiff/etd4.py
index a49b6e3..e5e07bf 100644
--- a/rkstiff/etd4.py
+++ b/rkstiff/etd4.py
@@ -25,7 +25,7 @@ Journal of Computational Physics, 203(1), 72–88.
 """
 
 import logging
-from typing import Callable, Union, Literal
+from typing import Optional, Callable, Union, Literal
 import numpy as np
 from scipy.linalg import expm
 from .etd import ETDCS, ETDConfig, psi1, psi2, psi3
@@ -346,7 +346,7 @@ class ETD4(ETDCS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        etd_config: ETDConfig = ETDConfig(),
+        etd_config: Optional[ETDConfig] = None,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
         r"""
diff --git a/rkstiff/etd5.py b/rkstiff/etd5.py
index 3255557..00afe63 100644
--- a/rkstiff/etd5.py
+++ b/rkstiff/etd5.py
@@ -28,7 +28,7 @@ Whalen, P., Brio, M., & Moloney, J.V. (2015).
 Journal of Computational Physics, 280, 579–601.
 """
 
-from typing import Callable, Union, Literal
+from typing import Optional, Callable, Union, Literal
 import numpy as np
 from scipy.linalg import expm
 from .etd import ETDCS, ETDConfig, psi1, psi2, psi3
@@ -83,12 +83,12 @@ class _Etd5Diagonal:  # pylint: disable=too-few-public-methods
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        etd_config: ETDConfig = ETDConfig(),
+        etd_config: Optional[ETDConfig] = None,
     ) -> None:
         """Initialize ETD5 diagonal system strategy."""
         self.lin_op = lin_op.astype(np.complex128, copy=False)
         self.nl_func = nl_func
-        self.etd_config = etd_config
+        self.etd_config = ETDConfig() if etd_config is None else etd_config
         n = lin_op.shape[0]
         self._EL14, self._EL12, self._EL34, self._EL = [np.zeros(n, dtype=np.complex128) for _ in range(4)]
         (
@@ -536,7 +536,7 @@ class ETD5(ETDCS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        etd_config: ETDConfig = ETDConfig(),
+        etd_config: Optional[ETDConfig] = None,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
         """
diff --git a/rkstiff/if34.py b/rkstiff/if34.py
index 535dbbe..89108d5 100644
--- a/rkstiff/if34.py
+++ b/rkstiff/if34.py
@@ -39,7 +39,7 @@ J. Comput. Phys. **280**, 579-601 (2015).
 """
 
 import logging
-from typing import Callable, Union, Literal
+from typing import Optional, Callable, Union, Literal
 import numpy as np
 from scipy.linalg import expm
 from .solveras import SolverConfig, BaseSolverAS
@@ -290,7 +290,7 @@ class IF34(BaseSolverAS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        config: SolverConfig = SolverConfig(),
+        config: Optional[SolverConfig] = None,
         diagonalize: bool = False,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
diff --git a/rkstiff/if45dp.py b/rkstiff/if45dp.py
index 0750437..56b353b 100644
--- a/rkstiff/if45dp.py
+++ b/rkstiff/if45dp.py
@@ -1,6 +1,6 @@
 """Integrating factor adaptive step solver of 5th order with 4rd order embedding."""
 
-from typing import Callable, Literal, Union
+from typing import Optional, Callable, Literal, Union
 import numpy as np
 from .solveras import SolverConfig, BaseSolverAS
 
@@ -48,7 +48,7 @@ class IF45DP(BaseSolverAS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        config: SolverConfig = SolverConfig(),
+        config: Optional[SolverConfig] = None,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
         """
diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index 509a27b..33dc47d 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -263,19 +263,19 @@ class BaseSolverAS(BaseSolver):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        config: SolverConfig = SolverConfig(),
+        config: Optional[SolverConfig] = None,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
         """Initialize an adaptive-step solver with validated configuration."""
         super().__init__(lin_op, nl_func, loglevel)
-        self.config = config
+        self.config = SolverConfig() if config is None else config
 
         self.logger.debug(
             "Adaptive configuration: epsilon=%s, incr_f=%s, decr_f=%s, safety_f=%s",
-            config.epsilon,
-            config.incr_f,
-            config.decr_f,
-            config.safety_f,
+            self.config.epsilon,
+            self.config.incr_f,
+            self.config.decr_f,
+            self.config.safety_f,
         )
 
         self.__t0, self.__tf, self.__tc = 0, 0, 0
-- 
2.43.0


From e1fad3f193057486a8844a76485b363d4587c38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:55 +0000
Subject: [PATCH 04/13] fix: diagonalized strategies return the error estimate
 in the basis of the solution

---
 rkstiff/etd34.py | 2 +-
 rkstiff/etd35.py | 2 +-
 rkstiff/if34.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/rkstiff/etd34.py b/rkstiff/etd34.py
index a5c4b1b..6a7c20a 100644
--- a/rkstiff/etd34.py
+++ b/rkstiff/etd34.py
@@ -301,7 +301,7 @@ class _Etd34Diagonalized(_Etd34Diagonal):
         )
         self._NL5 = self._Sinv.dot(self.nl_func(self._S.dot(self._k)))
         self._err = self._a54 * (self._NL4 - self._NL5)
-        return self._S.dot(self._k), self._err
+        return self._S.dot(self._k), self._S.dot(self._err)
 
 
 class _Etd34NonDiagonal:
diff --git a/rkstiff/etd35.py b/rkstiff/etd35.py
index 05128f1..ff9c739 100644
--- a/rkstiff/etd35.py
+++ b/rkstiff/etd35.py
@@ -492,7 +492,7 @@ class _Etd35Diagonalized(_Etd35Diagonal):
             + self._a76 * self._NL6
         )
         self._err = self._a75 * (-self._NL1 + 4 * self._NL3 - 6 * self._NL4 + 4 * self._NL5 - self._NL6)
-        return self._S.dot(self._k), self._err
+        return self._S.dot(self._k), self._S.dot(self._err)
 
 
 class _Etd35NonDiagonal:
diff --git a/rkstiff/if34.py b/rkstiff/if34.py
index 89108d5..35204f0 100644
--- a/rkstiff/if34.py
+++ b/rkstiff/if34.py
@@ -193,7 +193,7 @@ class _If34Diagonalized(_If34Diagonal):
         )
         self._NL5 = self._Sinv.dot(self.nl_func(self._S.dot(self._k)))
         self._err = h * (self._NL4 - self._NL5) / 6.0
-        return self._S.dot(self._k), self._err
+        return self._S.dot(self._k), self._S.dot(self._err)
 
 
 # ======================================================================
-- 
2.43.0


From b2c75b9caa8c6ba1d96ce91f9013575f04b9e03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:02 +0000
Subject: [PATCH 05/13] fix: adaptive solvers accept an attempt whose estimated
 error is exactly zero

---
 rkstiff/solveras.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index 33dc47d..bae0541 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -449,9 +449,14 @@ class BaseSolverAS(BaseSolver):
         """
         # Use adapt_cutoff to ignore small modes/values in the computation of the step size
         magu = np.abs(u)
-        idx = magu / magu.max() > self.config.adapt_cutoff
+        maxu = magu.max()
+        # a zero state has no small modes relative to its largest one
+        idx = magu / maxu > self.config.adapt_cutoff if maxu > 0 else np.full(u.shape, True)
         tol = self.config.epsilon * np.linalg.norm(u[idx])
-        s = self.config.safety_f * np.power(tol / np.linalg.norm(err[idx]), 1.0 / self._q())
+        err_norm = np.linalg.norm(err[idx])
+        if err_norm == 0.0 and np.isfinite(maxu):
+            return self.MAX_S  # no error at all: accept and grow as much as allowed
+        s = self.config.safety_f * np.power(tol / err_norm, 1.0 / self._q())
         return s
 
     def _reject_step_size(self, s: float, h: float) -> float:
-- 
2.43.0


From 663d81f61ffb835f6879748907619082af0aff71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:08 +0000
Subject: [PATCH 06/13] fix: record the step size of the coefficients only
 after they were computed

---
 rkstiff/etd34.py | 2 +-
 rkstiff/etd35.py | 2 +-
 rkstiff/etd4.py  | 2 +-
 rkstiff/etd5.py  | 2 +-
 rkstiff/if34.py  | 2 +-
 rkstiff/if4.py   | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/rkstiff/etd34.py b/rkstiff/etd34.py
index 6a7c20a..fb555ce 100644
--- a/rkstiff/etd34.py
+++ b/rkstiff/etd34.py
@@ -582,8 +582,8 @@ class ETD34(ETDAS):
         """
         if h == self._h_coeff:
             return
-        self._h_coeff = h
         self._method.update_coeffs(h)
+        self._h_coeff = h
         self.logger.debug("ETD34 coefficients updated for step size h=%s", h)
 
     def _update_stages(self, u: np.ndarray, h: float) -> tuple[np.ndarray, np.ndarray]:
diff --git a/rkstiff/etd35.py b/rkstiff/etd35.py
index ff9c739..69ae9de 100644
--- a/rkstiff/etd35.py
+++ b/rkstiff/etd35.py
@@ -850,8 +850,8 @@ class ETD35(ETDAS):
         """
         if h == self._h_coeff:
             return
-        self._h_coeff = h
         self._method.update_coeffs(h)
+        self._h_coeff = h
         self.logger.debug("ETD35 coefficients updated for step size h=%s", h)
 
     def _update_stages(self, u: np.ndarray, h: float) -> tuple[np.ndarray, np.ndarray]:
diff --git a/rkstiff/etd4.py b/rkstiff/etd4.py
index e5e07bf..3b9e868 100644
--- a/rkstiff/etd4.py
+++ b/rkstiff/etd4.py
@@ -395,8 +395,8 @@ class ETD4(ETDCS):
         """
         if h == self._h_coeff:
             return
-        self._h_coeff = h
         self._method.update_coeffs(h)
+        self._h_coeff = h
         self.logger.debug("ETD4 coefficients updated for step size h=%s", h)
 
     def _update_stages(self, u: np.ndarray, h: float) -> np.ndarray:
diff --git a/rkstiff/etd5.py b/rkstiff/etd5.py
index 00afe63..ab70a2f 100644
--- a/rkstiff/etd5.py
+++ b/rkstiff/etd5.py
@@ -615,8 +615,8 @@ class ETD5(ETDCS):
         """
         if h == self._h_coeff:
             return
-        self._h_coeff = h
         self._method.update_coeffs(h)
+        self._h_coeff = h
         self.logger.debug("ETD5 coefficients updated for step size h=%s", h)
 
     def _update_stages(self, u: np.ndarray, h: float) -> np.ndarray:
diff --git a/rkstiff/if34.py b/rkstiff/if34.py
index 35204f0..fa4945f 100644
--- a/rkstiff/if34.py
+++ b/rkstiff/if34.py
@@ -314,8 +314,8 @@ class IF34(BaseSolverAS):
     def _update_coeffs(self, h: float) -> None:
         """Recompute coefficients if step size changed."""
         if h != self._h_coeff:
-            self._h_coeff = h
             self._method.update_coeffs(h)
+            self._h_coeff = h
             self.logger.debug("IF34 coefficients updated for step size h=%s", h)
 
     def _update_stages(self, u: np.ndarray, h: float) -> tuple[np.ndarray, np.ndarray]:
diff --git a/rkstiff/if4.py b/rkstiff/if4.py
index 56d86e4..187962b 100644
--- a/rkstiff/if4.py
+++ b/rkstiff/if4.py
@@ -262,8 +262,8 @@ class IF4(BaseSolverCS):
         """Update exponential coefficients if step size :math:`h` changes."""
         if h == self._h_coeff:
             return
-        self._h_coeff = h
         self._method.update_coeffs(h)
+        self._h_coeff = h
         self.logger.debug("IF4 coefficients updated for step size h=%s", h)
 
     def _update_stages(self, u: np.ndarray, h: float) -> np.ndarray:
-- 
2.43.0


From 72315a0e153872c7014f363c82d24a675aaa2aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:14 +0000
Subject: [PATCH 07/13] fix: configuration setters refuse NaN

---
 rkstiff/etd.py        |  4 ++--
 rkstiff/grids.py      |  2 +-
 rkstiff/solveras.py   | 12 ++++++------
 rkstiff/transforms.py |  2 +-
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/rkstiff/etd.py b/rkstiff/etd.py
index da74c6a..6ab919f 100644
--- a/rkstiff/etd.py
+++ b/rkstiff/etd.py
@@ -96,7 +96,7 @@ class ETDConfig:
 
     @modecutoff.setter
     def modecutoff(self, value: float) -> None:
-        if (value > 1.0) or (value <= 0):
+        if not 0 < value <= 1.0:
             raise ValueError(f"modecutoff must be between 0.0 and 1.0 but is {value}")
         self._modecutoff = value
 
@@ -126,7 +126,7 @@ class ETDConfig:
 
     @contour_radius.setter
     def contour_radius(self, value: float) -> None:
-        if value <= 0:
+        if not value > 0:
             raise ValueError(f"contour_radius must greater than 0 but is {value}")
         self._contour_radius = value
 
diff --git a/rkstiff/grids.py b/rkstiff/grids.py
index 5401b0e..08c7cee 100644
--- a/rkstiff/grids.py
+++ b/rkstiff/grids.py
@@ -254,7 +254,7 @@ def construct_r_kr_hankel(nr: int, rmax: float) -> Tuple[np.ndarray, np.ndarray,
     """
     if nr < 4:
         raise ValueError("nr must be ≥ 4.")
-    if rmax <= 0:
+    if not rmax > 0:
         raise ValueError("rmax must be positive.")
 
     bessel_zeros = sp.jn_zeros(0, nr + 1)
diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index bae0541..5dcc8c3 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -104,7 +104,7 @@ class SolverConfig:
     @epsilon.setter
     def epsilon(self, value: float) -> None:
         """Set relative error tolerance, must be positive."""
-        if value <= 0:
+        if not value > 0:
             raise ValueError(f"epsilon must be positive but is {value}")
         self._epsilon = float(value)
 
@@ -116,7 +116,7 @@ class SolverConfig:
     @incr_f.setter
     def incr_f(self, value: float) -> None:
         """Set increment factor, must be greater than 1.0."""
-        if value <= 1.0:
+        if not value > 1.0:
             raise ValueError(f"incr_f must be > 1.0 but is {value}")
         self._incr_f = float(value)
 
@@ -128,7 +128,7 @@ class SolverConfig:
     @decr_f.setter
     def decr_f(self, value: float) -> None:
         """Set decrement factor, must be less than 1.0."""
-        if value >= 1.0:
+        if not value < 1.0:
             raise ValueError(f"decr_f must be < 1.0 but is {value}")
         self._decr_f = float(value)
 
@@ -140,7 +140,7 @@ class SolverConfig:
     @safety_f.setter
     def safety_f(self, value: float) -> None:
         """Set safety factor, must be ≤ 1.0."""
-        if value > 1.0:
+        if not value <= 1.0:
             raise ValueError(f"safety_f must be <= 1.0 but is {value}")
         self._safety_f = float(value)
 
@@ -152,7 +152,7 @@ class SolverConfig:
     @adapt_cutoff.setter
     def adapt_cutoff(self, value: float) -> None:
         """Set adaptivity cutoff, must be less than 1.0."""
-        if value >= 1.0:
+        if not value < 1.0:
             raise ValueError(f"adapt_cutoff must be < 1.0 but is {value}")
         self._adapt_cutoff = float(value)
 
@@ -164,7 +164,7 @@ class SolverConfig:
     @minh.setter
     def minh(self, value: float) -> None:
         """Set minimum step size, must be positive."""
-        if value <= 0:
+        if not value > 0:
             raise ValueError(f"minh must be positive but is {value}")
         self._minh = float(value)
 
diff --git a/rkstiff/transforms.py b/rkstiff/transforms.py
index 11949c6..3cede78 100644
--- a/rkstiff/transforms.py
+++ b/rkstiff/transforms.py
@@ -167,7 +167,7 @@ class HankelTransform:
     @rmax.setter
     def rmax(self, rmax: float):
         """Set maximum radial extent and recompute Hankel transform grid."""
-        if rmax <= 0:
+        if not rmax > 0:
             raise ValueError("rmax must be positive.")
         self._setnr_setrmax(self._nr, rmax)
 
-- 
2.43.0


From e4c44a641122b409d0a28d9d077bdf9823734140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:20 +0000
Subject: [PATCH 08/13] fix: constant-step evolve counts steps instead of
 accumulating rounded times

---
 rkstiff/solvercs.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rkstiff/solvercs.py b/rkstiff/solvercs.py
index ff655ff..dd2abbe 100644
--- a/rkstiff/solvercs.py
+++ b/rkstiff/solvercs.py
@@ -18,6 +18,7 @@ where :math:`\mathcal{L}` is a (possibly stiff) linear operator and
 implement constant-step exponential Runge-Kutta methods based on this interface.
 """
 
+import math
 from abc import abstractmethod
 from typing import Callable, Union, Literal
 import numpy as np
@@ -249,16 +250,21 @@ class BaseSolverCS(BaseSolver):
             self.u.append(u)
 
         # Ensure step size is valid
-        if self.__tc + h > self.__tf:
+        if not h > 0:
+            raise ValueError("Step size h must be positive.")
+        # Number of steps in the interval; the slack keeps rounding from adding or refusing a step
+        num_steps = (tf - t0) / h * (1.0 + 1e-10)
+        if num_steps < 1:
             raise ValueError("Step size h must be <= (tf - t0); reduce h or extend tf.")
+        num_steps = max(1, math.ceil(num_steps - 2e-10 * num_steps))
 
         self.logger.debug("Step size h=%s, store_freq=%s", h, store_freq)
 
         step_count = 0
-        while self.__tc < self.__tf:
+        while step_count < num_steps:
             u = self.step(u, h)
-            self.__tc += h
             step_count += 1
+            self.__tc = t0 + step_count * h
 
             if step_count % 100 == 0:
                 self.logger.info(
-- 
2.43.0


From 333f66cadaf86e94fea2030bbed6b591cff1f0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:27 +0000
Subject: [PATCH 09/13] fix: adaptive evolve raises instead of looping forever
 when a step no longer advances the time

---
 rkstiff/solveras.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index 5dcc8c3..24c283a 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -628,6 +628,10 @@ class BaseSolverAS(BaseSolver):
         step_count = 0
         while self.__tc < self.__tf:
             u, h, h_suggest = self.step(u, h)
+            if not self.__tc + h > self.__tc:
+                failure_str = "Solver failed: adaptive step too small to advance the time"
+                self.logger.error(failure_str)
+                raise self.MinimumStepReached(failure_str)
             self.__tc += h
             step_count += 1
 
-- 
2.43.0


From fd28a6b0d4a1d74dcd92c109c4f062dc69c60b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:53 +0000
Subject: [PATCH 10/13] fix: a failed coefficient update leaves no step size
 marked as up to date

---
 rkstiff/etd34.py  | 1 +
 rkstiff/etd35.py  | 1 +
 rkstiff/etd4.py   | 1 +
 rkstiff/etd5.py   | 1 +
 rkstiff/if34.py   | 1 +
 rkstiff/if4.py    | 1 +
 rkstiff/if45dp.py | 3 ++-
 7 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/rkstiff/etd34.py b/rkstiff/etd34.py
index fb555ce..7d76164 100644
--- a/rkstiff/etd34.py
+++ b/rkstiff/etd34.py
@@ -582,6 +582,7 @@ class ETD34(ETDAS):
         """
         if h == self._h_coeff:
             return
+        self._h_coeff = None  # no valid coefficients should the update fail
         self._method.update_coeffs(h)
         self._h_coeff = h
         self.logger.debug("ETD34 coefficients updated for step size h=%s", h)
diff --git a/rkstiff/etd35.py b/rkstiff/etd35.py
index 69ae9de..8521efe 100644
--- a/rkstiff/etd35.py
+++ b/rkstiff/etd35.py
@@ -850,6 +850,7 @@ class ETD35(ETDAS):
         """
         if h == self._h_coeff:
             return
+        self._h_coeff = None  # no valid coefficients should the update fail
         self._method.update_coeffs(h)
         self._h_coeff = h
         self.logger.debug("ETD35 coefficients updated for step size h=%s", h)
diff --git a/rkstiff/etd4.py b/rkstiff/etd4.py
index 3b9e868..91fb1c9 100644
--- a/rkstiff/etd4.py
+++ b/rkstiff/etd4.py
@@ -395,6 +395,7 @@ class ETD4(ETDCS):
         """
         if h == self._h_coeff:
             return
+        self._h_coeff = None  # no valid coefficients should the update fail
         self._method.update_coeffs(h)
         self._h_coeff = h
         self.logger.debug("ETD4 coefficients updated for step size h=%s", h)
diff --git a/rkstiff/etd5.py b/rkstiff/etd5.py
index ab70a2f..b0cbc9b 100644
--- a/rkstiff/etd5.py
+++ b/rkstiff/etd5.py
@@ -615,6 +615,7 @@ class ETD5(ETDCS):
         """
         if h == self._h_coeff:
             return
+        self._h_coeff = None  # no valid coefficients should the update fail
         self._method.update_coeffs(h)
         self._h_coeff = h
         self.logger.debug("ETD5 coefficients updated for step size h=%s", h)
diff --git a/rkstiff/if34.py b/rkstiff/if34.py
index fa4945f..4c5a351 100644
--- a/rkstiff/if34.py
+++ b/rkstiff/if34.py
@@ -314,6 +314,7 @@ class IF34(BaseSolverAS):
     def _update_coeffs(self, h: float) -> None:
         """Recompute coefficients if step size changed."""
         if h != self._h_coeff:
+            self._h_coeff = None  # no valid coefficients should the update fail
             self._method.update_coeffs(h)
             self._h_coeff = h
             self.logger.debug("IF34 coefficients updated for step size h=%s", h)
diff --git a/rkstiff/if4.py b/rkstiff/if4.py
index 187962b..66a2d5b 100644
--- a/rkstiff/if4.py
+++ b/rkstiff/if4.py
@@ -262,6 +262,7 @@ class IF4(BaseSolverCS):
         """Update exponential coefficients if step size :math:`h` changes."""
         if h == self._h_coeff:
             return
+        self._h_coeff = None  # no valid coefficients should the update fail
         self._method.update_coeffs(h)
         self._h_coeff = h
         self.logger.debug("IF4 coefficients updated for step size h=%s", h)
diff --git a/rkstiff/if45dp.py b/rkstiff/if45dp.py
index 56b353b..d2927be 100644
--- a/rkstiff/if45dp.py
+++ b/rkstiff/if45dp.py
@@ -200,7 +200,7 @@ class IF45DP(BaseSolverAS):
         """
         if h == self._h_coeff:
             return
-        self._h_coeff = h
+        self._h_coeff = None  # no valid coefficients should the update fail
         z = h * self.lin_op
         self._EL15 = np.exp(z / 5)
         self._EL310 = np.exp(3 * z / 10)
@@ -235,6 +235,7 @@ class IF45DP(BaseSolverAS):
         self._r5 = -17253 * h * EL19 / 339200.0
         self._r6 = 22 * h / 525.0
         self._r7 = -h / 40.0
+        self._h_coeff = h
         self.logger.debug("IF45 coefficients updated for step size h=%s", h)
 
     def _q(self) -> int:
-- 
2.43.0


From c4dbf0b81a4597ca76e8ac3ab3e424987af51241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:04 +0000
Subject: [PATCH 11/13] fix: IF45DP error estimate uses the Dormand-Prince
 weight 71/1920 for the fourth stage

The weight was mistyped as 17/1920, so the error weights did not sum to zero and the
estimate shrank like h instead of h^5.
---
 rkstiff/if45dp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rkstiff/if45dp.py b/rkstiff/if45dp.py
index d2927be..4572969 100644
--- a/rkstiff/if45dp.py
+++ b/rkstiff/if45dp.py
@@ -231,7 +231,7 @@ class IF45DP(BaseSolverAS):
         self._a76 = 11 * h / 84.0
         self._r1 = h * 71 * self._EL / 57600.0
         self._r3 = -71 * h * EL710 / 16695.0
-        self._r4 = 17 * h * self._EL15 / 1920.0
+        self._r4 = 71 * h * self._EL15 / 1920.0
         self._r5 = -17253 * h * EL19 / 339200.0
         self._r6 = 22 * h / 525.0
         self._r7 = -h / 40.0
-- 
2.43.0


From 5afb758f521795cbf56cff0ef51caf61c57d0fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:21 +0000
Subject: [PATCH 12/13] fix: a Hankel transform size change that fails leaves
 the transform as it was

---
 rkstiff/transforms.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/rkstiff/transforms.py b/rkstiff/transforms.py
index 3cede78..2bd6010 100644
--- a/rkstiff/transforms.py
+++ b/rkstiff/transforms.py
@@ -102,16 +102,20 @@ class HankelTransform:
 
     def _setnr_setrmax(self, nr, rmax):
         """(Re)initialize radial and spectral grids when parameters change."""
+        # build everything first, so that a failed change leaves the transform as it was
+        r, kr, bessel_zeros, jN = construct_r_kr_hankel(nr, rmax)
+        hankel_matrix = self._build_hankel_matrix(bessel_zeros, jN)
         self._nr = nr
         self._rmax = rmax
-        self.r, self.kr, self._bessel_zeros, self._jN = construct_r_kr_hankel(nr, rmax)
-        self._sethankelmatrix()
+        self.r, self.kr, self._bessel_zeros, self._jN = r, kr, bessel_zeros, jN
+        self._Y = hankel_matrix
 
-    def _sethankelmatrix(self):
+    @staticmethod
+    def _build_hankel_matrix(bessel_zeros: np.ndarray, jN: float) -> np.ndarray:
         """Construct the discrete Hankel transform matrix based on :math:`J_0` zeros."""
-        j1vec = sp.j1(self._bessel_zeros)
-        bessel_arg = np.outer(self._bessel_zeros, self._bessel_zeros) / self._jN
-        self._Y = 2 * sp.j0(bessel_arg) / (self._jN * j1vec**2)
+        j1vec = sp.j1(bessel_zeros)
+        bessel_arg = np.outer(bessel_zeros, bessel_zeros) / jN
+        return 2 * sp.j0(bessel_arg) / (jN * j1vec**2)
 
     def _scalefactor(self) -> float:
         r"""Internal scale factor :math:`S = r_{\max}^2 / j_{N+1}`."""
-- 
2.43.0


From 3bdbb6ba54af169ce3213d2237ae1b1d25f22d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:16 +0000
Subject: [PATCH 13/13] fix: adaptive evolve ends at tf exactly (the rounded
 last step could pass or miss it)

---
 rkstiff/solveras.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index 24c283a..91c6c2f 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -632,7 +632,8 @@ class BaseSolverAS(BaseSolver):
                 failure_str = "Solver failed: adaptive step too small to advance the time"
                 self.logger.error(failure_str)
                 raise self.MinimumStepReached(failure_str)
-            self.__tc += h
+            # a step over the rest of the interval ends at tf, however the sum rounds
+            self.__tc = self.__tf if h >= self.__tf - self.__tc else self.__tc + h
             step_count += 1
 
             if step_count % 100 == 0:
-- 
2.43.0

