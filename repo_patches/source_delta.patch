From b6a830fbd40c1d36dd7995ae124ec7427661c35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:37 +0000
Subject: [PATCH 001/121] fix: SplinesModel.baseDerivative for orders other
 than 3

---
 BayesicFitting/source/SplinesModel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/SplinesModel.py b/BayesicFitting/source/SplinesModel.py
index 84eda44..6c35c5a 100644
--- a/BayesicFitting/source/SplinesModel.py
+++ b/BayesicFitting/source/SplinesModel.py
@@ -238,8 +238,11 @@ class SplinesModel( LinearModel ):
             parameters to the model
 
         """
+        if self.order == 0 :
+            return numpy.zeros_like( xdata, dtype=float )
+
         ff = numpy.append( numpy.arange( self.order + 1, dtype=float ),
-                           numpy.full( self.npbase - self.order - 1, 3, dtype=float ) )
+                           numpy.full( self.npbase - self.order - 1, self.order, dtype=float ) )
         pars = params * ff
         pars = pars[1:]
         return SplinesModel( knots=self.knots, order=self.order-1 ).result( xdata, pars )
-- 
2.43.0


From c74ba12934f359b16ecf702c054065979d6fda90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:37 +0000
Subject: [PATCH 002/121] fix: SineSplineModel.baseDerivative passed all
 parameters to both splines

---
 BayesicFitting/source/SineSplineModel.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/SineSplineModel.py b/BayesicFitting/source/SineSplineModel.py
index 178c1be..b685745 100644
--- a/BayesicFitting/source/SineSplineModel.py
+++ b/BayesicFitting/source/SineSplineModel.py
@@ -181,9 +181,10 @@ class SineSplineModel( LinearModel ):
         cx = numpy.cos( tx )
         sx = numpy.sin( tx )
         amps = self.getAmplitudes( xdata, params )
-        cadx = self.cm.baseDerivative( xdata, params )
-        sadx = self.sm.baseDerivative( xdata, params )
-        return tpf * ( cadx * cx - amps[0] * sx + sadx * sx + amps[1] * cx )
+        nh = self.npbase // 2
+        cadx = self.cm.baseDerivative( xdata, params[:nh] )
+        sadx = self.sm.baseDerivative( xdata, params[nh:] )
+        return cadx * cx + sadx * sx + tpf * ( amps[1] * cx - amps[0] * sx )
 
     def getAmplitudes( self, xdata, params ) :
         """
-- 
2.43.0


From e734146cb6c527e73a84810bc6c830c5ba97cbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:37 +0000
Subject: [PATCH 003/121] fix: PowerModel.baseDerivative is nan at 0 for
 exponent 0

---
 BayesicFitting/source/PowerModel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/BayesicFitting/source/PowerModel.py b/BayesicFitting/source/PowerModel.py
index 2387ac2..77e8ae4 100644
--- a/BayesicFitting/source/PowerModel.py
+++ b/BayesicFitting/source/PowerModel.py
@@ -142,6 +142,9 @@ class PowerModel( LinearModel ):
             values for the parameters.
 
         """
+        if self.exponent == 0 :
+            return numpy.zeros_like( xdata, dtype=float )
+
         return params[0] * self.exponent * numpy.power( xdata, self.exponent - 1 )
 
     def baseName( self ):
-- 
2.43.0


From ecfd3a491696c72d952b596b7f15b81f76b6760b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:37 +0000
Subject: [PATCH 004/121] fix: EtalonDriftModel.baseDerivative raised an
 AttributeError

---
 BayesicFitting/source/EtalonDriftModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/EtalonDriftModel.py b/BayesicFitting/source/EtalonDriftModel.py
index 89c78c1..1fb0ef7 100644
--- a/BayesicFitting/source/EtalonDriftModel.py
+++ b/BayesicFitting/source/EtalonDriftModel.py
@@ -131,9 +131,9 @@ class EtalonDriftModel( NonLinearModel ):
         dd = 1 + p1 * sx * sx
 
         dd *= dd
-        df = - 2 * math.pi * params[0] * p1 * params[2] * sx * numpy.cos( x ) / dd
+        df = - 2 * math.pi * params[0] * p1 * sx * numpy.cos( x ) / dd
 
-        return [df * params[2], df * params[4]].T
+        return numpy.array( [df * params[2], df * params[4]] ).T
 
     def basePartial( self, xdata, params, parlist=None ):
         """
-- 
2.43.0


From dc07ad402debfc4775fffc698f6743012fe1593d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:37 +0000
Subject: [PATCH 005/121] fix: SineSplineDriftModel.baseDerivative slices and
 chain rule

---
 BayesicFitting/source/SineSplineDriftModel.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/BayesicFitting/source/SineSplineDriftModel.py b/BayesicFitting/source/SineSplineDriftModel.py
index cbf3c44..b680a30 100644
--- a/BayesicFitting/source/SineSplineDriftModel.py
+++ b/BayesicFitting/source/SineSplineDriftModel.py
@@ -197,16 +197,16 @@ class SineSplineDriftModel( NonLinearModel ):
 
         """
         nd = self.degree + 1
-        drift = 2 * math.pi * xdata * self.pm.result( xdata, params[:nd] )
+        nh = ( self.npbase - nd ) // 2
+        freq = self.pm.result( xdata, params[:nd] )
+        drift = 2 * math.pi * xdata * freq
         cx = numpy.cos( drift )
         sx = numpy.sin( drift )
-        pdx = self.pm.baseDerivative( xdata, params )
-        cdx = cx * pdx
-        sdx = sx * pdx
+        pdx = 2 * math.pi * ( freq + xdata * self.pm.baseDerivative( xdata, params[:nd] ) )
         amps = self.getAmplitudes( xdata, params )
-        cadx = self.cm.baseDerivative( xdata, params )
-        sadx = self.sm.baseDerivative( xdata, params )
-        return 2 * math.pi * ( cadx * cx - amps[0] * sdx + sadx * sx + amps[1] * cdx )
+        cadx = self.cm.baseDerivative( xdata, params[nd:nd+nh] )
+        sadx = self.sm.baseDerivative( xdata, params[nd+nh:] )
+        return cadx * cx + sadx * sx + pdx * ( amps[1] * cx - amps[0] * sx )
 
     def getAmplitudes( self, xdata, params ) :
         """
-- 
2.43.0


From 77275621265ca3bb600cf1d4ca6cccdd47b75511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:19 +0000
Subject: [PATCH 006/121] fix: AstropyModel.baseDerivative returned nothing

---
 BayesicFitting/source/AstropyModel.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/AstropyModel.py b/BayesicFitting/source/AstropyModel.py
index 30afacf..01ce2c8 100644
--- a/BayesicFitting/source/AstropyModel.py
+++ b/BayesicFitting/source/AstropyModel.py
@@ -170,7 +170,18 @@ class AstropyModel( Model ):
             values for the parameters.
 
         """
-        self.numDerivative( xdata, params )
+        dx = self.deltaP[0]
+        if self.ndim == 1 :
+            return ( self.baseResult( xdata + dx, params ) -
+                     self.baseResult( xdata - dx, params ) ) / ( 2 * dx )
+
+        df = numpy.zeros_like( xdata, dtype=float )
+        for i in range( self.ndim ) :
+            step = numpy.zeros( self.ndim, dtype=float )
+            step[i] = dx
+            df[:,i] = ( self.baseResult( xdata + step, params ) -
+                        self.baseResult( xdata - step, params ) ) / ( 2 * dx )
+        return df
 
     def baseName( self ):
         """
-- 
2.43.0


From d0ea3d55899eac04fbbc8db1539120d297a67462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:27 +0000
Subject: [PATCH 007/121] fix: derivatives and partials of products, quotients
 and differences with more inputs or outputs

---
 BayesicFitting/source/Model.py | 37 +++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index e839d66..166dde1 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -580,15 +580,22 @@ class Model( FixedModel ):
                  [ d + n for d,n in zip( df, nextdf )] )
 
         elif self._operation == self.SUB :
-            df = df - nextdf
+            df = ( df - nextdf if isnotlist else
+                 [ d - n for d,n in zip( df, nextdf )] )
 
         elif self._operation == self.MUL :
             nextres = super( Model, self ).result( xdata, par )
-            df = df * nextres + nextdf * result
+            df = self._scale( df, nextres )
+            nextdf = self._scale( nextdf, result )
+            df = ( df + nextdf if isnotlist else
+                 [ d + n for d,n in zip( df, nextdf )] )
 
         elif self._operation == self.DIV :
             nextres = super( Model, self ).result( xdata, par )
-            df = ( df * nextres - nextdf * result ) / ( nextres * nextres )
+            df = self._scale( df, 1 / nextres )
+            nextdf = self._scale( nextdf, result / ( nextres * nextres ) )
+            df = ( df - nextdf if isnotlist else
+                 [ d - n for d,n in zip( df, nextdf )] )
 
         elif self._operation == self.PIP :
 #            nextres = 'dummy'           ## not needed, but needs something
@@ -607,6 +614,22 @@ class Model( FixedModel ):
         return model._recursiveDerivative( xdata, param[np:], result, df,
                     useNum=useNum )
 
+    def _scale( self, deriv, factor ) :
+        """
+        Multiply a partial or derivative with a factor at each of the datapoints.
+
+        Parameters
+        ----------
+        deriv : array or list of arrays
+            partial or derivative; a list when there are more outputs
+        factor : array
+            of the shape of the result
+        """
+        if isinstance( deriv, list ) :
+            return [( d.T * f ).T for d,f in zip( deriv, factor.T )]
+
+        return ( deriv.T * factor.T ).T
+
     #  *****PARTIAL*************************************************************
     def partial( self, xdata, param, useNum=False ):
         """
@@ -652,14 +675,14 @@ class Model( FixedModel ):
 
         elif self._operation == self.MUL :
             nextres = super( Model, self ).result( xdata, par )
-            partial = numpy.multiply( partial.transpose(), nextres ).transpose()
-            nextpartial = numpy.multiply( nextpartial.transpose(), result ).transpose()
+            partial = self._scale( partial, nextres )
+            nextpartial = self._scale( nextpartial, result )
 
         elif self._operation == self.DIV :
             nextres = super( Model, self ).result( xdata, par )
-            partial = numpy.divide( partial.transpose(), nextres ).transpose()
+            partial = self._scale( partial, 1 / nextres )
             invres = - result / ( nextres * nextres )
-            nextpartial = numpy.multiply( nextpartial.transpose(), invres ).transpose()
+            nextpartial = self._scale( nextpartial, invres )
 
         elif self._operation == self.PIP :
 
-- 
2.43.0


From 2a7b1aadbc1f08500342f5fd3f6937e743fb5486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:27 +0000
Subject: [PATCH 008/121] fix: derivatives of a chain going on after a pipe
 evaluated the piped model at the input data

---
 BayesicFitting/source/Model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index 166dde1..a328844 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -605,7 +605,7 @@ class Model( FixedModel ):
 
         if self._next is None :
             return df
-        if nextres is None:
+        if nextres is None and self._operation != self.PIP :
             nextres = super( Model, self ).result( xdata, par )
         result = self.operate( result, par, nextres )
 
@@ -702,7 +702,7 @@ class Model( FixedModel ):
         model = self._next
         if model is None:
             return partial
-        if nextres is None:
+        if nextres is None and self._operation != self.PIP :
             nextres = super( Model, self ).result( xdata, par )
 
         result = self.operate( result, param[at:], nextres )
-- 
2.43.0


From 40d4c52d1d013c522115f0f30540269f448343eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:28 +0000
Subject: [PATCH 009/121] fix: piping into a compound model left its pipe
 undefined

---
 BayesicFitting/source/Model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index a328844..7f1ada6 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -420,11 +420,13 @@ class Model( FixedModel ):
             if self.lastndout != model.ndim :
                 raise ValueError( "Trying to pipe incompatible models:  %d | %d"%
                                 (self.lastndout, model.ndim) )
-            model.selectPipe( self.ndim, model.ndim, model.ndout )
 
         if model._next is not None :
             model = Brackets( model )     # provide brackets if model is a chain
 
+        if operation == self.PIP :
+            model.selectPipe( self.ndim, model.ndim, model.ndout )
+
         last = self
         while last._next != None:
             last = last._next
@@ -1763,6 +1765,8 @@ class Brackets( Model ):
             next = next._next
         setatt( self, "deep", deep )
         setatt( self, "parNames", [] )
+        if model.lastndout > 1 :
+            setatt( self, "ndout", model.lastndout )
 
     def copy( self ):
 
-- 
2.43.0


From 152f485ecf4c12635de3a87a20d7287e8cce8cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:34 +0000
Subject: [PATCH 010/121] fix: PseudoVoigtModel partials when parameters are
 fixed

---
 BayesicFitting/source/PseudoVoigtModel.py | 26 +++++++----------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/BayesicFitting/source/PseudoVoigtModel.py b/BayesicFitting/source/PseudoVoigtModel.py
index e98b035..8e94d80 100644
--- a/BayesicFitting/source/PseudoVoigtModel.py
+++ b/BayesicFitting/source/PseudoVoigtModel.py
@@ -158,25 +158,15 @@ class PseudoVoigtModel( NonLinearModel ):
             list of indices active parameters (or None for all)
 
         """
-        pl = parlist
-        if parlist is not None and 3 in pl :
-            pl = parlist.copy()
-            pl.remove( 3 )
-
         pars = params[:3]
-        partial = ( params[3] * self.lorentz.basePartial( xdata, pars, parlist=pl ) +
-                 ( 1 - params[3] ) * self.gauss.basePartial( xdata, pars, parlist=pl ) )
-
-        if parlist is None or 3 in parlist :
-            part3 = self.lorentz.baseResult( xdata, pars ) - self.gauss.baseResult( xdata, pars )
-            (n0,n1) = partial.shape
-            shp = ( n0, n1+1 )
-            pp = numpy.zeros( shp, dtype=float )
-            pp[:,:n1] = partial
-            pp[:,n1] = part3
-            partial = pp
-
-        return partial
+        lor = self.lorentz.basePartial( xdata, pars )
+        gau = self.gauss.basePartial( xdata, pars )
+
+        partial = numpy.zeros( ( Tools.length( xdata ), self.npmax ), dtype=float )
+        partial[:,:3] = ( params[3] * lor.T + ( 1 - params[3] ) * gau.T ).T
+        partial[:,3] = self.lorentz.baseResult( xdata, pars ) - self.gauss.baseResult( xdata, pars )
+
+        return partial if parlist is None else partial[:,parlist]
 
     def baseDerivative( self, xdata, params ) :
         """
-- 
2.43.0


From d69c1c26442cce81de9d132fc5cb3ba273b8133a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:34 +0000
Subject: [PATCH 011/121] fix: SplinesModel.baseDerivative with fixed
 parameters

---
 BayesicFitting/source/SplinesModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/SplinesModel.py b/BayesicFitting/source/SplinesModel.py
index 6c35c5a..7173eba 100644
--- a/BayesicFitting/source/SplinesModel.py
+++ b/BayesicFitting/source/SplinesModel.py
@@ -242,7 +242,7 @@ class SplinesModel( LinearModel ):
             return numpy.zeros_like( xdata, dtype=float )
 
         ff = numpy.append( numpy.arange( self.order + 1, dtype=float ),
-                           numpy.full( self.npbase - self.order - 1, self.order, dtype=float ) )
+                           numpy.full( self.npmax - self.order - 1, self.order, dtype=float ) )
         pars = params * ff
         pars = pars[1:]
         return SplinesModel( knots=self.knots, order=self.order-1 ).result( xdata, pars )
-- 
2.43.0


From 23955c84b535b883713144dba4ccf471998b5dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:34 +0000
Subject: [PATCH 012/121] fix: partial of a chain going on after piping into a
 model with fixed parameters

---
 BayesicFitting/source/Model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index 7f1ada6..a673041 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -707,7 +707,7 @@ class Model( FixedModel ):
         if nextres is None and self._operation != self.PIP :
             nextres = super( Model, self ).result( xdata, par )
 
-        result = self.operate( result, param[at:], nextres )
+        result = self.operate( result, par, nextres )
         #  append the partials of the _next model
         at += np
         return model._recursivePartial( xdata, param, at, result, partial,
-- 
2.43.0


From 2ef62b573d0142136ca7a5dbfda6bc72d776c9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:34 +0000
Subject: [PATCH 013/121] fix: model where all parameters are replaced by
 models without parameters

---
 BayesicFitting/source/FixedModel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/FixedModel.py b/BayesicFitting/source/FixedModel.py
index e7c37fa..0b57541 100644
--- a/BayesicFitting/source/FixedModel.py
+++ b/BayesicFitting/source/FixedModel.py
@@ -272,7 +272,10 @@ class FixedModel( BaseModel ):
         ## par is now a heterogeneous list of floats and [floats]
         ## It can only be cast into an array of object
 
-        return numpy.asarray( par, dtype=object )
+        expar = numpy.empty( len( par ), dtype=object )
+        for k, val in enumerate( par ) :
+            expar[k] = val
+        return expar
 
     #  *****PARTIAL*************************************************************
     def partial( self, xdata, param ):
-- 
2.43.0


From 47da02c2e36280f887be53cf68bf2ad9ff48af9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:02 +0000
Subject: [PATCH 014/121] fix: PowerModel.partial with its only parameter fixed
 raised an IndexError

---
 BayesicFitting/source/PowerModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/PowerModel.py b/BayesicFitting/source/PowerModel.py
index 77e8ae4..8d8e899 100644
--- a/BayesicFitting/source/PowerModel.py
+++ b/BayesicFitting/source/PowerModel.py
@@ -124,11 +124,11 @@ class PowerModel( LinearModel ):
             list of indices active parameters (or None for all)
 
         """
-        if parlist is None or parlist[0] == 0 :
+        if parlist is None or 0 in parlist :
             inp = numpy.asarray( [xdata] ).transpose()
             return numpy.power( inp, self.exponent )
         else :
-            return numpy.asarray( [] )
+            return numpy.zeros( ( numpy.shape( xdata )[0], 0 ), dtype=float )
 
     def baseDerivative( self, xdata, params ) :
         """
-- 
2.43.0


From 8106c377adf9b5497d96a94372a2269c00506934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:49 +0000
Subject: [PATCH 015/121] fix: model with an empty dictionary of fixed
 parameters raised a TypeError

---
 BayesicFitting/source/FixedModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/FixedModel.py b/BayesicFitting/source/FixedModel.py
index 0b57541..723bbdc 100644
--- a/BayesicFitting/source/FixedModel.py
+++ b/BayesicFitting/source/FixedModel.py
@@ -176,7 +176,7 @@ class FixedModel( BaseModel ):
             raise AttributeError( "Attribute fixed needs to be a dictionary" )
 
         parlist = numpy.arange( self._npb )
-        parlist = numpy.setxor1d( parlist, list( fixed.keys() ) )
+        parlist = numpy.setxor1d( parlist, numpy.asarray( list( fixed.keys() ), dtype=int ) )
         setatt( self, "parlist", parlist )
 
     def select( self, params ) :
-- 
2.43.0


From 23c920774a83050e497d2b7567a8a2a619f62efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:11 +0000
Subject: [PATCH 016/121] fix: changing a prior of a copied model changed the
 prior of the original

---
 BayesicFitting/source/BaseModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/BaseModel.py b/BayesicFitting/source/BaseModel.py
index a3c5818..e519330 100644
--- a/BayesicFitting/source/BaseModel.py
+++ b/BayesicFitting/source/BaseModel.py
@@ -123,7 +123,7 @@ class BaseModel( object ):
         else :
             setatt( self, "npbase", copy.npbase )
             setatt( self, "ndim", copy.ndim )
-            setatt( self, "priors", None if copy.priors is None else copy.priors.copy() )
+            setatt( self, "priors", None if copy.priors is None else [p.copy() for p in copy.priors] )
             setatt( self, "posIndex", copy.posIndex )
             setatt( self, "nonZero", copy.nonZero )
             setatt( self, "deltaP", copy.deltaP )
-- 
2.43.0


From fffd9bc5d73d0130db577892e51ee915e602667b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:11 +0000
Subject: [PATCH 017/121] fix: Model.setLimits with only low or only high
 limits raised an UnboundLocalError

---
 BayesicFitting/source/Model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index a673041..367f2dc 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -1172,7 +1172,7 @@ class Model( FixedModel ):
             upper limits on the parameters
 
         """
-        ml = 0
+        ml = nl = nh = 0
         if lowLimits is not None :
             lowLimits = Tools.toArray( lowLimits )
             nl = len( lowLimits )
-- 
2.43.0


From d0cf5e92d4414a038286a1b791253ac87bd7bb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:11 +0000
Subject: [PATCH 018/121] fix: hasPriors, hasLimits and the domain transforms
 of a chain with brackets or a model without parameters

---
 BayesicFitting/source/CombiModel.py     |  2 +-
 BayesicFitting/source/FootballModel.py  |  4 +-
 BayesicFitting/source/Model.py          | 54 +++++++++++++++++--------
 BayesicFitting/source/RepeatingModel.py |  4 +-
 4 files changed, 43 insertions(+), 21 deletions(-)

diff --git a/BayesicFitting/source/CombiModel.py b/BayesicFitting/source/CombiModel.py
index 3ca1902..1be64ec 100644
--- a/BayesicFitting/source/CombiModel.py
+++ b/BayesicFitting/source/CombiModel.py
@@ -377,7 +377,7 @@ class CombiModel( BracketModel ):
         """
         return self.model.getParameterUnit( self.select[k] % self.nmp )
 
-    def getPrior( self, kpar ) :
+    def basePrior( self, kpar ) :
         """
         Return the prior for parameter kpar.
 
diff --git a/BayesicFitting/source/FootballModel.py b/BayesicFitting/source/FootballModel.py
index ad80153..526b0ea 100644
--- a/BayesicFitting/source/FootballModel.py
+++ b/BayesicFitting/source/FootballModel.py
@@ -129,7 +129,7 @@ class FootballModel( NonLinearModel ):
         """ Copy method.  """
         return FootballModel( self.nteams, complexity=self.complexity, copy=self )
 
-    def getPrior( self, k ) :
+    def basePrior( self, k ) :
         """
         Return the prior of the parameter, indicated by k modulo the complexity
 
@@ -138,7 +138,7 @@ class FootballModel( NonLinearModel ):
         k : int
             parameter number.
         """
-        return self.basePrior( k % self.complexity )
+        return super().basePrior( k % self.complexity )
         
 
     def __setattr__( self, name, value ):
diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index 367f2dc..3731dc7 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -1041,10 +1041,31 @@ class Model( FixedModel ):
         hasp = True
         mdl = self
         while mdl is not None and hasp :
-            hasp = hasp and super( Model, self ).hasPriors( isBound=isBound )
+            hasp = hasp and mdl.baseHasPriors( isBound=isBound )
             mdl = mdl._next
         return hasp
 
+    def baseHasPriors( self, isBound=True ) :
+        """
+        Return True when this element of the chain has priors for all its parameters.
+
+        Parameters
+        ----------
+        isBound : bool
+            Also check if the prior is bound.
+        """
+        return self.npbase == 0 or super().hasPriors( isBound=isBound )
+
+    def baseHasLimits( self, fitindex=None ) :
+        """
+        Return True when this element of the chain has limits.
+
+        Parameters
+        ----------
+        fitindex    list of indices to be fitted.
+        """
+        return super().hasLimits( fitindex=fitindex )
+
     def getPrior( self, kpar ):
         """
         Return the prior of the indicated parameter.
@@ -1234,7 +1255,7 @@ class Model( FixedModel ):
         haslim = True
         mdl = self
         while mdl is not None :
-            haslim = haslim and super( Model, mdl ).hasLimits( fitindex=fitindex )
+            haslim = haslim and mdl.baseHasLimits( fitindex=fitindex )
             if not haslim :
                 return haslim
             if fitindex is not None :
@@ -1313,16 +1334,10 @@ class Model( FixedModel ):
 
     def nextPrior( self ) :
         mdl = self
-        k = 0
-        while True :
-            try :
-                yield mdl.priors[k]
-            except :
-                yield mdl.priors[-1]
-            k += 1
-            if k >= mdl.npbase :
-                mdl = mdl._next
-                k = 0
+        while mdl is not None :
+            for k in range( mdl.npbase ) :
+                yield mdl.basePrior( k )
+            mdl = mdl._next
 
 
     #  *****SOME DUMMY METHODS TO ALLOW LINEAR MODELS IN NONLIN FITTERS********
@@ -1849,9 +1864,6 @@ class Brackets( Model ):
         return self.model.getPrior( kpar )
     """
 
-    def nextPrior( self ) :
-        yield self.model.nextPrior()
-
     def _toString( self, indent="", npars=0 ) :
         opname = [" null\n", " +\n", " -\n", " *\n", " /\n", " |\n" ]
         np = self.npbase
@@ -1881,7 +1893,7 @@ class Brackets( Model ):
         """
         return self.model.getPrior( k )
 
-    def hasPriors( self, isBound=True ) :
+    def baseHasPriors( self, isBound=True ) :
         """
         Return True when the model has priors for all its parameters.
 
@@ -1892,6 +1904,16 @@ class Brackets( Model ):
         """
         return self.model.hasPriors( isBound=isBound )
 
+    def baseHasLimits( self, fitindex=None ) :
+        """
+        Return True when the model has limits.
+
+        Parameters
+        ----------
+        fitindex    list of indices to be fitted.
+        """
+        return self.model.hasLimits( fitindex=fitindex )
+
 
     #  ******Brackets Parameter NAME*******************************************************************
 
diff --git a/BayesicFitting/source/RepeatingModel.py b/BayesicFitting/source/RepeatingModel.py
index d26922f..a586e97 100644
--- a/BayesicFitting/source/RepeatingModel.py
+++ b/BayesicFitting/source/RepeatingModel.py
@@ -469,8 +469,8 @@ class RepeatingModel( Model, Dynamic ):
             raise IndexError( "RepeatingModel cannot have more priors than %s" %
                                self.model.shortname() )
 
-    def hasPriors( self ) :
-        return self.model.hasPriors()
+    def baseHasPriors( self, isBound=True ) :
+        return self.model.hasPriors( isBound=isBound )
 
     def basePrior( self, kpar ):
         """
-- 
2.43.0


From 81a7e40930e4f77b9b53e0ffa030294e5effe917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:11 +0000
Subject: [PATCH 019/121] fix: hasLimits for selected parameters ignored a
 prior shared by the last ones

---
 BayesicFitting/source/BaseModel.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/BayesicFitting/source/BaseModel.py b/BayesicFitting/source/BaseModel.py
index e519330..e9c2c6c 100644
--- a/BayesicFitting/source/BaseModel.py
+++ b/BayesicFitting/source/BaseModel.py
@@ -440,11 +440,5 @@ class BaseModel( object ):
         if fitindex is None :
             return all( p.hasLimits() for p in self.priors )
         else :
-            haslim = True
-            npr = len( self.priors )
-            for k in fitindex :
-                if k >= npr :
-                    return haslim
-                haslim = haslim and self.priors[k].hasLimits()
-            return haslim
+            return all( self.basePrior( k ).hasLimits() for k in fitindex if k < self.npbase )
 
-- 
2.43.0


From fdd3ca14067394a102fac273ec74ad4fa7da13b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:22 +0000
Subject: [PATCH 020/121] fix: an isolated model shared its parameters with the
 chain

---
 BayesicFitting/source/Model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index 3731dc7..a6edad2 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -304,10 +304,10 @@ class Model( FixedModel ):
 
                 n2 = np + last.npbase
                 # hard overwrite of the base parameters (over the chain parameters)
-                setatt( mdl, "parameters", self._head.parameters[np:n2] )
+                setatt( mdl, "parameters", self._head.parameters[np:n2].copy() )
 
                 if self.stdevs is not None :
-                    setatt( mdl, "stdevs", self._head.stdevs[np:n2] )
+                    setatt( mdl, "stdevs", self._head.stdevs[np:n2].copy() )
                 else :
                     setatt( mdl, "stdevs", None )
                 setatt( mdl, "_npchain", mdl.npbase )      # only extract one model
-- 
2.43.0


From 2f6bd4685abf3e4a98abbf81cc8df739a7eecb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:22 +0000
Subject: [PATCH 021/121] fix: a copied BracketModel lost the parameters of the
 chain and shared them with its inner model

---
 BayesicFitting/source/Model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index a6edad2..2d96f04 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -1770,7 +1770,8 @@ class Brackets( Model ):
         super( Brackets, self ).__init__( model.npchain, ndim=model.ndim,
                                 copy=copy, **kwargs )
         setatt( self, "model", model, type=Model )
-        setatt( self, "parameters", model.parameters )
+        if copy is None :
+            setatt( self, "parameters", model.parameters.copy() )
 
         next = model
         deep = 1
-- 
2.43.0


From 538ad3462f04ce55765a540a0fa14a9b07996bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:22 +0000
Subject: [PATCH 022/121] fix: a copied ConstantModel shared its fixed model
 with the original

---
 BayesicFitting/source/ConstantModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/ConstantModel.py b/BayesicFitting/source/ConstantModel.py
index ab6d7a5..a40ca37 100644
--- a/BayesicFitting/source/ConstantModel.py
+++ b/BayesicFitting/source/ConstantModel.py
@@ -116,7 +116,7 @@ class ConstantModel( Model ):
         super( ConstantModel, self ).__init__( 0, ndim=ndim, copy=copy )
 
         if copy is not None :                  # copy from model
-            setatt( self, "fixedModel", copy.fixedModel )
+            setatt( self, "fixedModel", copy.fixedModel if copy.fixedModel is None else copy.fixedModel.copy() )
             setatt( self, "table", copy.table )
         elif table is not None :                # store tabular results
             setatt( self, "table", table, islist=True, type=float )
-- 
2.43.0


From c6aa881ea3b68955e88559ad86d91e0c4cb57e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:04 +0000
Subject: [PATCH 023/121] fix: hasLimits for selected parameters of a chain
 needed priors for all constituents

---
 BayesicFitting/source/BaseModel.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/BaseModel.py b/BayesicFitting/source/BaseModel.py
index e9c2c6c..36d34b8 100644
--- a/BayesicFitting/source/BaseModel.py
+++ b/BayesicFitting/source/BaseModel.py
@@ -435,10 +435,14 @@ class BaseModel( object ):
         """
         if self.npbase == 0 :
             return True
+        if fitindex is not None :
+            fitindex = [k for k in fitindex if k < self.npbase]
+            if len( fitindex ) == 0 :
+                return True
         if self.priors is None :
             return False
         if fitindex is None :
             return all( p.hasLimits() for p in self.priors )
         else :
-            return all( self.basePrior( k ).hasLimits() for k in fitindex if k < self.npbase )
+            return all( self.basePrior( k ).hasLimits() for k in fitindex )
 
-- 
2.43.0


From f03cc536b25469bbabbde7c0d92e9152bd96fec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:40 +0000
Subject: [PATCH 024/121] fix: prior density and circular transforms were not
 updated when the limits are changed

---
 BayesicFitting/source/Prior.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/Prior.py b/BayesicFitting/source/Prior.py
index c910226..5460bff 100644
--- a/BayesicFitting/source/Prior.py
+++ b/BayesicFitting/source/Prior.py
@@ -191,11 +191,15 @@ class Prior( object ):
         try :
             self._umin = 0.0            ## only for re-setting the limits
             self._urng = 1.0
-            umax = self.domain2Unit( self.highLimit )
-            self._umin = self.domain2Unit( self.lowLimit )
+            d2u = self.__dict__.get( "baseDomain2Unit", self.domain2Unit )
+            umax = d2u( self.highLimit )
+            self._umin = d2u( self.lowLimit )
             self._urng = umax - self._umin
         except Exception :
             self._urng = math.inf
+        self.limint = self._urng
+        if self.isCircular() :
+            self.circular = self.highLimit - self.lowLimit
 
 #        print( "Prior 3 ", self._umin, self._urng )
 
-- 
2.43.0


From 1e5068d7faeb4f259d6bede1cdef544ee34e01cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:40 +0000
Subject: [PATCH 025/121] fix: prior transforms and density were not updated
 when the scale is changed

---
 BayesicFitting/source/Prior.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/Prior.py b/BayesicFitting/source/Prior.py
index 5460bff..feec790 100644
--- a/BayesicFitting/source/Prior.py
+++ b/BayesicFitting/source/Prior.py
@@ -334,10 +334,12 @@ class Prior( object ):
         scale : float or None
             scale factor
         """
-        if limits is not None :
-            self.setLimits( limits=limits )
         if scale is not None :
             self.scale = scale
+            if limits is None :
+                limits = self.limits
+        if limits is not None :
+            self.setLimits( limits=limits )
 
     def isOutOfLimits( self, par ):
         """
-- 
2.43.0


From fdc3ea990dd91f16812019a6d5cf0b83e4116787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:40 +0000
Subject: [PATCH 026/121] fix: unsetLimits left the transforms of a prior
 limited

---
 BayesicFitting/source/Prior.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/BayesicFitting/source/Prior.py b/BayesicFitting/source/Prior.py
index feec790..687db7c 100644
--- a/BayesicFitting/source/Prior.py
+++ b/BayesicFitting/source/Prior.py
@@ -320,8 +320,7 @@ class Prior( object ):
 
     def unsetLimits( self ):
         """ Remove all limits.  """
-        self.lowLimit = self._lowDomain
-        self.highLimit = self._highDomain
+        self.setLimits()
 
     def setAttributes( self, limits=None, scale=None ) :
         """
-- 
2.43.0


From 182657b8f4c38932feb214a4cd2875ca69449a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:40 +0000
Subject: [PATCH 027/121] fix: copies of circular priors had other limits

---
 BayesicFitting/source/CauchyPrior.py          | 2 +-
 BayesicFitting/source/CircularUniformPrior.py | 2 +-
 BayesicFitting/source/GaussPrior.py           | 2 +-
 BayesicFitting/source/LaplacePrior.py         | 2 +-
 BayesicFitting/source/Prior.py                | 2 +-
 BayesicFitting/source/UniformPrior.py         | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/BayesicFitting/source/CauchyPrior.py b/BayesicFitting/source/CauchyPrior.py
index a7bab0b..615f119 100644
--- a/BayesicFitting/source/CauchyPrior.py
+++ b/BayesicFitting/source/CauchyPrior.py
@@ -102,7 +102,7 @@ class CauchyPrior( Prior ):
 
     def copy( self ):
         return CauchyPrior( prior=self, center=self.center, scale=self.scale,
-                            limits=self.limits, circular=self.circular )
+                            limits=self.limits, circular=self.isCircular() )
 
     def domain2Unit( self, dval ):
         """
diff --git a/BayesicFitting/source/CircularUniformPrior.py b/BayesicFitting/source/CircularUniformPrior.py
index e2bb36d..a95ccf2 100644
--- a/BayesicFitting/source/CircularUniformPrior.py
+++ b/BayesicFitting/source/CircularUniformPrior.py
@@ -65,7 +65,7 @@ class CircularUniformPrior( UniformPrior ):
 
     def copy( self ):
         """ Return a (deep) copy of itself. """
-        return CircularUniformPrior( prior=self, limits=self.limits, circular=self.circular )
+        return CircularUniformPrior( prior=self, limits=self.limits, circular=self.isCircular() )
 
     def __str__( self ):
         """ Return a string representation of the prior.  """
diff --git a/BayesicFitting/source/GaussPrior.py b/BayesicFitting/source/GaussPrior.py
index 58fefc9..c7771c2 100644
--- a/BayesicFitting/source/GaussPrior.py
+++ b/BayesicFitting/source/GaussPrior.py
@@ -109,7 +109,7 @@ class GaussPrior( Prior ):
     def copy( self ):
         """ Copy the prior """
         return GaussPrior( prior=self, center=self.center, scale=self.scale,
-                           limits=self.limits, circular=self.circular )
+                           limits=self.limits, circular=self.isCircular() )
 
     def domain2Unit( self, dval ):
         """
diff --git a/BayesicFitting/source/LaplacePrior.py b/BayesicFitting/source/LaplacePrior.py
index c102298..27e237b 100644
--- a/BayesicFitting/source/LaplacePrior.py
+++ b/BayesicFitting/source/LaplacePrior.py
@@ -109,7 +109,7 @@ class LaplacePrior( Prior ):
 
     def copy( self ):
         return LaplacePrior( prior=self, center=self.center, scale=self.scale,
-                             limits=self.limits, circular=self.circular )
+                             limits=self.limits, circular=self.isCircular() )
 
     def domain2Unit( self, dval ):
         """
diff --git a/BayesicFitting/source/Prior.py b/BayesicFitting/source/Prior.py
index 687db7c..6aaea47 100644
--- a/BayesicFitting/source/Prior.py
+++ b/BayesicFitting/source/Prior.py
@@ -254,7 +254,7 @@ class Prior( object ):
         """
         Whether circular
         """
-        return hasattr( self, "circular" ) and self.circular
+        return bool( self.circular )
 
     def limitedDomain2Unit( self, dval ) :
         """
diff --git a/BayesicFitting/source/UniformPrior.py b/BayesicFitting/source/UniformPrior.py
index febdd7b..7be2745 100644
--- a/BayesicFitting/source/UniformPrior.py
+++ b/BayesicFitting/source/UniformPrior.py
@@ -83,7 +83,7 @@ class UniformPrior( Prior ):
 
     def copy( self ):
         """ Return a (deep) copy of itself. """
-        return UniformPrior( prior=self, limits=self.limits, circular=self.circular )
+        return UniformPrior( prior=self, limits=self.limits, circular=self.isCircular() )
 
     def getIntegral( self ) :
         """
-- 
2.43.0


From 9d771cd474c561c990e6fb5bb3a0d852ed68969e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:40 +0000
Subject: [PATCH 028/121] fix: copy of an ExponentialPrior lost its low limit

---
 BayesicFitting/source/ExponentialPrior.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/ExponentialPrior.py b/BayesicFitting/source/ExponentialPrior.py
index af0ed5e..87fb90b 100644
--- a/BayesicFitting/source/ExponentialPrior.py
+++ b/BayesicFitting/source/ExponentialPrior.py
@@ -84,8 +84,10 @@ class ExponentialPrior( LaplacePrior ):
 
     def copy( self ):
         """ Copy the prior """
-        return ExponentialPrior( scale=self.scale, hilimit=self.limits[1], 
+        pr = ExponentialPrior( scale=self.scale, hilimit=self.limits[1], 
             prior=self )
+        pr.setLimits( self.limits )
+        return pr
 
     def shortName( self ) :
         return "ExponentialPrior"
-- 
2.43.0


From 78585a4a75ce41bd85cee672c09d2ac86090d689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:40 +0000
Subject: [PATCH 029/121] fix: JeffreysPrior without limits returned a density
 of 0

---
 BayesicFitting/source/JeffreysPrior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/JeffreysPrior.py b/BayesicFitting/source/JeffreysPrior.py
index 1659ee0..1b5bc9d 100644
--- a/BayesicFitting/source/JeffreysPrior.py
+++ b/BayesicFitting/source/JeffreysPrior.py
@@ -133,7 +133,7 @@ class JeffreysPrior( Prior ):
             value within the domain of a parameter
 
         """
-        if math.isnan( self._urng ) :
+        if math.isinf( self._urng ) :
             raise AttributeError( "Limits are needed for JeffreysPrior" )
         try :
             return 0 if self.isOutOfLimits( x ) else 1.0 / ( x * self._urng )
-- 
2.43.0


From e35a0c8db55a737d724eabca696f337a5d1bc456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:40 +0000
Subject: [PATCH 030/121] fix: LaplacePrior.partialLog raised a ValueError for
 arrays

---
 BayesicFitting/source/LaplacePrior.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/BayesicFitting/source/LaplacePrior.py b/BayesicFitting/source/LaplacePrior.py
index 27e237b..506ddac 100644
--- a/BayesicFitting/source/LaplacePrior.py
+++ b/BayesicFitting/source/LaplacePrior.py
@@ -205,10 +205,9 @@ class LaplacePrior( Prior ):
             the value
 
         """
-        if x == self.center : return 0                  ## actually a cusp
-        elif self.isOutOfLimits( x ) : return math.nan
-
-        return -1 / self.scale if x > self.center else 1 / self.scale
+        ## zero at the center: actually a cusp
+        return numpy.where( self.isOutOfLimits( x ), math.nan,
+                            numpy.sign( self.center - x ) / self.scale )
 
     def isBound( self ):
         """ Return true if the integral over the prior is bound.  """
-- 
2.43.0


From c27d9b9f2245426182bf3296db15a10d6cd3b415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:40 +0000
Subject: [PATCH 031/121] fix: HyperParameter removed the limits of the prior
 it is given

---
 BayesicFitting/source/HyperParameter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/HyperParameter.py b/BayesicFitting/source/HyperParameter.py
index 728d61b..f695c49 100644
--- a/BayesicFitting/source/HyperParameter.py
+++ b/BayesicFitting/source/HyperParameter.py
@@ -84,7 +84,8 @@ class HyperParameter( object ):
         self.stdev = None
         self.prior = prior
         if prior is not None :
-            self.prior.setLimits( limits )
+            if limits is not None :
+                self.prior.setLimits( limits )
             self.isFixed = False
         elif limits is not None :
             self.prior = JeffreysPrior( limits=limits ) 
-- 
2.43.0


From 44ae3bbd4697db5ca1d215e711ccac0c2eee9292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:40 +0000
Subject: [PATCH 032/121] fix: copy of a NoiseScale lost its prior, standard
 deviation and fixed state

---
 BayesicFitting/source/NoiseScale.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/NoiseScale.py b/BayesicFitting/source/NoiseScale.py
index 1a4c4b4..0aa0494 100644
--- a/BayesicFitting/source/NoiseScale.py
+++ b/BayesicFitting/source/NoiseScale.py
@@ -92,7 +92,7 @@ class NoiseScale( HyperParameter ):
         if limits is not None and prior is None :
             prior = JeffreysPrior()
         super( NoiseScale, self ).__init__( hypar=scale, isFixed=isFixed,
-                        prior=prior, limits=limits )
+                        prior=prior, limits=limits, copy=copy )
         self.minimum = False
 
         if copy is not None :
-- 
2.43.0


From 7c2d0db58eb9a4cd0168d6542d8e0799b59fdb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 033/121] fix: Kernel.resultsq of a kernel without its own
 evaluates the kernel, Tophat too takes the square root

---
 BayesicFitting/source/kernels/Kernel.py | 3 ++-
 BayesicFitting/source/kernels/Tophat.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/kernels/Kernel.py b/BayesicFitting/source/kernels/Kernel.py
index b633d70..c4ce27e 100644
--- a/BayesicFitting/source/kernels/Kernel.py
+++ b/BayesicFitting/source/kernels/Kernel.py
@@ -1,3 +1,4 @@
+import numpy as numpy
 
 __author__ = "Do Kester"
 __year__ = 2017
@@ -128,7 +129,7 @@ class Kernel( object ):
         Parameters: x the square of the input value
 
         """
-        pass
+        return self.result( numpy.sqrt( xsq ) )
 
     def partial( self, x ):
         """
diff --git a/BayesicFitting/source/kernels/Tophat.py b/BayesicFitting/source/kernels/Tophat.py
index 0c18024..0dc2515 100644
--- a/BayesicFitting/source/kernels/Tophat.py
+++ b/BayesicFitting/source/kernels/Tophat.py
@@ -83,7 +83,7 @@ class Tophat( Kernel ):
         return self.conv.result( x )
 
     def resultsq( self, xsq ):
-        return self.result( xsq )                   #  the same
+        return self.result( numpy.sqrt( xsq ) )
 
     def partial( self, x ):
         return self.conv.partial( x )
-- 
2.43.0


From b03115724acc5aba748ca8b2344d285274fa0530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:10 +0000
Subject: [PATCH 034/121] fix: UniformErrorDistribution takes the residuals
 from the problem (cyclic, several outputs); a point of weight zero does not
 count

---
 .../source/UniformErrorDistribution.py         | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/BayesicFitting/source/UniformErrorDistribution.py b/BayesicFitting/source/UniformErrorDistribution.py
index 6b42734..43125f3 100644
--- a/BayesicFitting/source/UniformErrorDistribution.py
+++ b/BayesicFitting/source/UniformErrorDistribution.py
@@ -146,7 +146,10 @@ class UniformErrorDistribution( ScaledErrorDistribution ):
 
         ares = numpy.abs( problem.residuals( allpars[:-1] ) )
 
-        if all( ares < scale ) :
+        inside = ares < scale
+        if problem.hasWeights() :
+            inside = numpy.logical_or( inside, problem.weights == 0 )
+        if all( inside ) :
             if isinstance( scale, float ) :
                 return - numpy.log( 2 * scale ) * problem.sumweight
             elif problem.hasWeights() :
@@ -172,13 +175,14 @@ class UniformErrorDistribution( ScaledErrorDistribution ):
             as calculated by the model
 
         """
-        if mockdata is None :
-            mockdata = problem.result( allpars[:-1] )
         scale = allpars[-1] if not problem.hasAccuracy else problem.accuracy
 
-        ares = numpy.abs( problem.ydata - mockdata )
+        ares = numpy.abs( problem.residuals( allpars[:-1], mockdata=mockdata ) )
 
-        lld = numpy.where( ares < scale, -numpy.log( 2 * scale ), -math.inf )
+        inside = ares < scale
+        if problem.weights is not None :
+            inside = numpy.logical_or( inside, problem.weights == 0 )
+        lld = numpy.where( inside, -numpy.log( 2 * scale ), -math.inf )
         if problem.weights is not None :
             lld *= problem.weights
         return lld
@@ -225,11 +229,11 @@ class UniformErrorDistribution( ScaledErrorDistribution ):
 
         """
         scale = allpars[-1]
-        pll = numpy.zeros_like( problem.ydata )
         if problem.weights is not None :
             wgt = problem.weights
         else :
-            wgt = numpy.ones_like( problem.ydata )
+            wgt = numpy.ones( problem.ydata.size, dtype=float )
+        pll = numpy.zeros_like( wgt )
 
         for k in fitIndex :
             if k >= 0 :
-- 
2.43.0


From afbc45d76d002ba4250e2efed3d257561b155f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:10 +0000
Subject: [PATCH 035/121] fix: logFactorial of an array of length 1

---
 BayesicFitting/source/LogFactorial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/LogFactorial.py b/BayesicFitting/source/LogFactorial.py
index 63f1176..b2654c4 100644
--- a/BayesicFitting/source/LogFactorial.py
+++ b/BayesicFitting/source/LogFactorial.py
@@ -97,8 +97,8 @@ def logFactorial( k ):
              359.1342053695754544]
 
 
-    if Tools.length( k ) == 1 :
-        return ( logfact[k] if k < 100 else
+    if numpy.ndim( k ) == 0 :
+        return ( logfact[int( k )] if k < 100 else
             0.9189385332046727 + ( k + 0.5 ) * math.log( k ) - k + 1.0 / ( 12.0 * k ) )
 
     logfactarray = numpy.asarray( logfact )
-- 
2.43.0


From b02d48f0919294c6db845d419040bd686deea8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:10 +0000
Subject: [PATCH 036/121] fix: sumweight without weights counts all residuals,
 also of several outputs

---
 BayesicFitting/source/CauchyErrorDistribution.py | 6 +++---
 BayesicFitting/source/Problem.py                 | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/BayesicFitting/source/CauchyErrorDistribution.py b/BayesicFitting/source/CauchyErrorDistribution.py
index 71cbc1b..2d1dce9 100644
--- a/BayesicFitting/source/CauchyErrorDistribution.py
+++ b/BayesicFitting/source/CauchyErrorDistribution.py
@@ -151,10 +151,10 @@ class CauchyErrorDistribution( ScaledErrorDistribution ):
         res = problem.residuals( allpars[:-1] )
         res2 = numpy.square( res )
         if isinstance( scale, float ) :
-            logL = ( problem.ndata * ( math.log( scale ) - self.LOGPI ) -
+            logL = ( len( res ) * ( math.log( scale ) - self.LOGPI ) -
                      numpy.sum( numpy.log( res2 + s2 ) ) )
         else :
-            logL = ( -problem.ndata * self.LOGPI + 
+            logL = ( -len( res ) * self.LOGPI + 
                     numpy.sum( numpy.log( scale / ( res2 + s2 ) ) ) )
 
         return logL
@@ -219,7 +219,7 @@ class CauchyErrorDistribution( ScaledErrorDistribution ):
                 dL[i] = 2 * numpy.sum( res * dM[:,k] / r2s )
                 i += 1
             else :
-                dL[-1] = problem.ndata / scale - numpy.sum( 2 * scale / r2s )
+                dL[-1] = len( res ) / scale - numpy.sum( 2 * scale / r2s )
 
         return dL
 
diff --git a/BayesicFitting/source/Problem.py b/BayesicFitting/source/Problem.py
index c8e369a..d4b919f 100644
--- a/BayesicFitting/source/Problem.py
+++ b/BayesicFitting/source/Problem.py
@@ -162,7 +162,7 @@ class Problem( object ):
                 self.sumweight = numpy.sum( self.weights )
                 return self.sumweight
             else :
-                return self.ndata
+                return self.ndata if self.ydata is None else self.ydata.size
         elif name == 'ndata' :
             self.ndata = len( self.ydata )        # number of data points/tuples
             return self.ndata
-- 
2.43.0


From 672e489b554adb1da8aa3a4f544ba61fba411010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:55 +0000
Subject: [PATCH 037/121] fix: ErrorsInXandYProblem.setAccuracy leaves the
 accuracies of the caller alone, one accuracy for all is squared once

---
 BayesicFitting/source/ErrorsInXandYProblem.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/ErrorsInXandYProblem.py b/BayesicFitting/source/ErrorsInXandYProblem.py
index a9b0761..ea6f009 100644
--- a/BayesicFitting/source/ErrorsInXandYProblem.py
+++ b/BayesicFitting/source/ErrorsInXandYProblem.py
@@ -225,9 +225,9 @@ class ErrorsInXandYProblem( Problem ):
                     if accuracy.shape[-1] == 3 :
                         varxy = accuracy[:,2]
 
-                varxy *= varyy * varxx
-                varyy *= varyy
-                varxx *= varxx
+                varxy = varxy * varyy * varxx
+                varyy = varyy * varyy
+                varxx = varxx * varxx
             else :
                 raise AttributeError( "Covar and Accuracy are mutually exclusive" )
 
-- 
2.43.0


From d6a5eaa2cbec883437095cd6ea3e32c1ab0c67fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:55 +0000
Subject: [PATCH 038/121] fix: Gauss2dErrorDistribution is normalized in two
 dimensions; per point determinants in its alternative gradient

---
 .../source/Gauss2dErrorDistribution.py         | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/BayesicFitting/source/Gauss2dErrorDistribution.py b/BayesicFitting/source/Gauss2dErrorDistribution.py
index 7b66d74..bf4d670 100644
--- a/BayesicFitting/source/Gauss2dErrorDistribution.py
+++ b/BayesicFitting/source/Gauss2dErrorDistribution.py
@@ -139,11 +139,11 @@ class Gauss2dErrorDistribution( GaussErrorDistribution ):
 
         if problem.weights is None :
             if det.size == 1 : 
-                norm = problem.ndata * ( self.LOG2PI + math.log( det ) )
+                norm = problem.ndata * ( 2 * self.LOG2PI + math.log( det ) )
             else :
-                norm = problem.ndata * self.LOG2PI + numpy.sum( numpy.log( det ) )  
+                norm = problem.ndata * 2 * self.LOG2PI + numpy.sum( numpy.log( det ) )
         else :
-            norm = numpy.sum( problem.weights * ( LOG2PI + numpy.log( det ) ) ) 
+            norm = numpy.sum( problem.weights * ( 2 * self.LOG2PI + numpy.log( det ) ) )
 
         return -0.5 * ( norm + chisq )
 
@@ -167,9 +167,9 @@ class Gauss2dErrorDistribution( GaussErrorDistribution ):
 
         rot2 = problem.weightedResSq( allpars, mockdata=mockdata )
 
-        norm = self.LOG2PI + numpy.log( det )
+        norm = 2 * self.LOG2PI + numpy.log( det )
         if problem.weights is not None :
-            norm *= problem.weights
+            norm = norm * problem.weights
 
         return -0.5 * ( norm + rot2 )
 
@@ -201,16 +201,12 @@ class Gauss2dErrorDistribution( GaussErrorDistribution ):
         dM = problem.partial( allpars[:-1] )
 
         dL = numpy.zeros( len( fitIndex ), dtype=float )
-        print( "G2dED   ", rot2.shape, res.shape, res2.shape, dM.shape, dL.shape ), 
-        print( fmt( dM, max=None ) )
-        print( "LLD    ", fmt( res, max=None ) )
-
         i = 0
         for  k in fitIndex :
             if k < 0 :              # model accuracy
                 wgt = 1 if problem.weights is None else problem.weights
-                dL[-1] = - modelscale / det * numpy.sum( ( problem.varxx + problem.varyy +
-                    2 * modelscale * modelscale ) * ( wgt - rot2 ) + res2 ) 
+                dL[-1] = - numpy.sum( modelscale / det * ( ( problem.varxx + problem.varyy +
+                    2 * modelscale * modelscale ) * ( wgt - rot2 ) + res2 ) )
             else :
                 dL[i] = numpy.sum( res * dM[:,k] )
                 i += 1
-- 
2.43.0


From ad9cae0e5c706bc1447258f2c8fa67accc575418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 039/121] fix: MixedErrorDistribution mixes unweighted
 likelihoods and handles constituents with any number of hyperparameters

---
 .../source/MixedErrorDistribution.py          | 93 +++++++++++++------
 1 file changed, 63 insertions(+), 30 deletions(-)

diff --git a/BayesicFitting/source/MixedErrorDistribution.py b/BayesicFitting/source/MixedErrorDistribution.py
index 89f013a..f6d4a34 100644
--- a/BayesicFitting/source/MixedErrorDistribution.py
+++ b/BayesicFitting/source/MixedErrorDistribution.py
@@ -143,20 +143,57 @@ class MixedErrorDistribution( ErrorDistribution ):
             mockdata = problem.result( allpars[:problem.npars] )
 
         f = allpars[-1]
+        p1, p2 = self.splitPars( allpars )
+
+        if f <= 0 :
+            lld = self.unweighted( problem, self.errdis2,
+                    self.errdis2.logLdata( problem, p2, mockdata=mockdata ) )
+        elif f >= 1 :
+            lld = self.unweighted( problem, self.errdis1,
+                    self.errdis1.logLdata( problem, p1, mockdata=mockdata ) )
+        else :
+            lld1 = self.errdis1.logLdata( problem, p1, mockdata=mockdata )
+            lld2 = self.errdis2.logLdata( problem, p2, mockdata=mockdata )
+            lld = numpy.logaddexp(
+                self.unweighted( problem, self.errdis1, lld1 ) + math.log( f ),
+                self.unweighted( problem, self.errdis2, lld2 ) + math.log( 1 - f ) )
+
+        if problem.weights is not None and self.acceptWeight() :
+            lld = lld * problem.weights
+        return lld
+
+    def splitPars( self, allpars ) :
+        """
+        Return the parameters for errdis1 and errdis2.
+
+        Parameters
+        ----------
+        allpars : array_like
+            list of all parameters in the problem
+        """
         n1 = self.errdis1.nphypar
         n2 = self.errdis2.nphypar
-        p1 = allpars[:-n2-1]
-        p2 = allpars[:-n1-1].copy()
-        p2[-n2:] = allpars[-n2-1:-1]
+        k1 = len( allpars ) - n1 - n2 - 1
+        p1 = allpars[:k1+n1]
+        p2 = numpy.append( allpars[:k1], allpars[k1+n1:-1] )
+        return ( p1, p2 )
 
-        if f <= 0 :
-            return self.errdis2.logLdata( problem, p2, mockdata=mockdata )
-        if f >= 1 :
-            return self.errdis1.logLdata( problem, p1, mockdata=mockdata )
+    def unweighted( self, problem, errdis, lld ) :
+        """
+        Return the contributions of the data points as if they had unit weight.
 
-        return numpy.logaddexp(
-                self.errdis1.logLdata( problem, p1, mockdata=mockdata ) + math.log( f ),
-                self.errdis2.logLdata( problem, p2, mockdata=mockdata ) + math.log( 1 - f ) )
+        Parameters
+        ----------
+        problem : Problem
+            to be solved
+        errdis : ErrorDistribution
+            that made the contributions
+        lld : array_like
+            contributions to the log( likelihood ) or its partials
+        """
+        if problem.weights is None or not errdis.acceptWeight() :
+            return lld
+        return lld / numpy.where( problem.weights > 0, problem.weights, 1.0 )
 
     def nextPartialData( self, problem, allpars, fitIndex, mockdata=None ) :
         """
@@ -180,26 +217,20 @@ class MixedErrorDistribution( ErrorDistribution ):
         # make allpars lists (p1,p2)for errdis1&2; shift hyperpars in p2
         f = allpars[-1]
         emf = 1 - f
-        n1 = self.errdis1.nphypar
-        n2 = self.errdis2.nphypar
-        p1 = allpars[:-n2-1]
-        p2 = allpars[:-n1-1].copy()
-        p2[-n2:] = allpars[-n2-1:-1]
+        p1, p2 = self.splitPars( allpars )
 
 
         # make fitIndex (f1,f2) for errdis1&2
         fitIndex = numpy.asarray( fitIndex )
-        q = numpy.where( fitIndex >= 0 )
-        f1 = fitIndex[q]
-        f2 = f1.copy()
-        if -3 in fitIndex :
-            f1 = numpy.append( f1, [-1] )
-        if -2 in fitIndex :
-            f2 = numpy.append( f2, [-1] )
+        n2 = self.errdis2.nphypar
+        f1 = [fi if fi >= 0 else fi + n2 + 1 for fi in fitIndex if fi >= 0 or fi < -n2 - 1]
+        f2 = [fi if fi >= 0 else fi + 1 for fi in fitIndex if fi >= 0 or -n2 - 1 <= fi < -1]
 
         # make fitindices (f1,f2) for errdis1&2
-        lhd1 = numpy.exp( self.errdis1.logLdata( problem, p1, mockdata=mockdata ) )
-        lhd2 = numpy.exp( self.errdis2.logLdata( problem, p2, mockdata=mockdata ) )
+        lld1 = self.errdis1.logLdata( problem, p1, mockdata=mockdata )
+        lld2 = self.errdis2.logLdata( problem, p2, mockdata=mockdata )
+        lhd1 = numpy.exp( self.unweighted( problem, self.errdis1, lld1 ) )
+        lhd2 = numpy.exp( self.unweighted( problem, self.errdis2, lld2 ) )
         pg1 = self.errdis1.nextPartialData( problem, p1, f1, mockdata=mockdata )
         pg2 = self.errdis2.nextPartialData( problem, p2, f2, mockdata=mockdata )
 
@@ -211,13 +242,15 @@ class MixedErrorDistribution( ErrorDistribution ):
         fff = numpy.zeros_like( ff1 )
         q = numpy.where( ff1 > sys.float_info.min )
         fff[q] = 1.0 / ff1[q]
+        if problem.weights is not None and self.acceptWeight() :
+            fff = fff * problem.weights
 
 #        fff = numpy.where( ff1 < sys.float_info.min, 0.0, 1.0 / ff1 )
 
         for fi in fitIndex :
             if fi >= 0 :            ## partialLogL for model parameters
-                npg1 = next( pg1 )
-                npg2 = next( pg2 )
+                npg1 = self.unweighted( problem, self.errdis1, next( pg1 ) )
+                npg2 = self.unweighted( problem, self.errdis2, next( pg2 ) )
 
                 yield ( fff * ( f * lhd1 * npg1 +
                               emf * lhd2 * npg2 ) )
@@ -225,13 +258,13 @@ class MixedErrorDistribution( ErrorDistribution ):
             if fi == -1 :           ## partialLogL for fraction f
                 yield ( ( lhd1 - lhd2 ) * fff )
 
-            elif fi == -2 :         ## partialLogL for sigma of errdis2
-                npg2 = next( pg2 )
+            elif -n2 - 1 <= fi < -1 :   ## partialLogL for hyperpars of errdis2
+                npg2 = self.unweighted( problem, self.errdis2, next( pg2 ) )
 
                 yield ( emf * lhd2 * fff * npg2 )
 
-            elif fi == -3 :         ## partialLogL for sigma of errdis1
-                npg1 = next( pg1 )
+            elif fi < -n2 - 1 :     ## partialLogL for hyperpars of errdis1
+                npg1 = self.unweighted( problem, self.errdis1, next( pg1 ) )
 
                 yield ( f * lhd1 * fff * npg1 )
 
-- 
2.43.0


From 3b12b6266c747f7286b363e39bfa9fc219c226f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:17 +0000
Subject: [PATCH 040/121] fix: LaplaceErrorDistribution.partialLogL_alt: the
 derivative to the scale lacked a factor 1/scale

---
 BayesicFitting/source/LaplaceErrorDistribution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/LaplaceErrorDistribution.py b/BayesicFitting/source/LaplaceErrorDistribution.py
index 91bf692..8438261 100644
--- a/BayesicFitting/source/LaplaceErrorDistribution.py
+++ b/BayesicFitting/source/LaplaceErrorDistribution.py
@@ -231,7 +231,8 @@ class LaplaceErrorDistribution( ScaledErrorDistribution ):
                 dL[i] = numpy.sum( wgt * dM[:,k] )
                 i += 1
             else :
-                dL[-1] = self.getSumRes( problem, allpars=allpars, scale=scale ) - problem.sumweight
+                dL[-1] = ( self.getSumRes( problem, allpars=allpars, scale=scale ) -
+                            problem.sumweight ) / scale
         return dL
 
     def nextPartialData( self, problem, allpars, fitIndex, mockdata=None ) :
-- 
2.43.0


From 1db96d979eeb77cdc758a88176e25fc9fb6a98e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:17 +0000
Subject: [PATCH 041/121] fix: BernoulliErrorDistribution.partialLogL_alt: sign
 of the derivative of log( 1 - mock ), only the parameters in fitIndex

---
 BayesicFitting/source/BernoulliErrorDistribution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/BernoulliErrorDistribution.py b/BayesicFitting/source/BernoulliErrorDistribution.py
index 26b9b78..63c3116 100644
--- a/BayesicFitting/source/BernoulliErrorDistribution.py
+++ b/BayesicFitting/source/BernoulliErrorDistribution.py
@@ -176,9 +176,9 @@ class BernoulliErrorDistribution( ErrorDistribution ):
         dLdM = numpy.zeros_like( mock )
 
         if problem.model.lastndout == 1 :
-            dLdM = 1.0 / numpy.where( problem.ydata == 0, mock, 1 - mock )
+            dLdM = 1.0 / numpy.where( problem.ydata == 0, mock, mock - 1 )
             dL = numpy.sum( numpy.multiply( dLdM, dM.T ), axis=1 )
-            return dL
+            return dL[fitIndex]
 
         for k in range( problem.model.lastndout ) :
             q = numpy.where( problem.ydata == k )
@@ -186,7 +186,7 @@ class BernoulliErrorDistribution( ErrorDistribution ):
 
         dL = numpy.tensordot( dLdM, numpy.asarray( dM ), axes=([0,1],[1,0]) )
 
-        return dL
+        return dL[fitIndex]
 
     def nextPartialData( self, problem, allpars, fitIndex, mockdata=None ) :
         """
-- 
2.43.0


From c9f8990df42f3cead980a7536f4a4fe9f4c94bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:03 +0000
Subject: [PATCH 042/121] fix: ErrorsInXandYProblem.getXYresiduals wraps cyclic
 quantities as residuals does

---
 BayesicFitting/source/ErrorsInXandYProblem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/ErrorsInXandYProblem.py b/BayesicFitting/source/ErrorsInXandYProblem.py
index ea6f009..70d71a8 100644
--- a/BayesicFitting/source/ErrorsInXandYProblem.py
+++ b/BayesicFitting/source/ErrorsInXandYProblem.py
@@ -374,7 +374,7 @@ class ErrorsInXandYProblem( Problem ):
         tuple of (y residuals, x residuals)
         """
         ( xd, pars ) = self.splitParam( param )
-        yres = self.ydata - self.model.result( xd, pars )
+        yres = self.cyclicCorrection( self.ydata - self.model.result( xd, pars ) )
         return ( yres, self.xdata - xd )
 
     def weightedResSq( self, allpars, mockdata=None, extra=False ) :
-- 
2.43.0


From 046b4a8b6c1580c981fc8050edad58c8e75f6c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:03 +0000
Subject: [PATCH 043/121] fix: MultipleOutputProblem accepts one accuracy for
 all and lists

---
 BayesicFitting/source/MultipleOutputProblem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/MultipleOutputProblem.py b/BayesicFitting/source/MultipleOutputProblem.py
index eda8994..69f36d3 100644
--- a/BayesicFitting/source/MultipleOutputProblem.py
+++ b/BayesicFitting/source/MultipleOutputProblem.py
@@ -92,7 +92,8 @@ class MultipleOutputProblem( Problem ):
         Expand and flatten the arrays.
 
         """
-        if weights is not None :
+        if weights is not None and numpy.ndim( weights ) > 0 :
+            weights = numpy.asarray( weights )
             if len( weights.shape ) == 1 :
                 wgts = numpy.zeros( ( len( weights ), ndout ), dtype=float )
                 for k in range( ndout ) :
-- 
2.43.0


From f5873a6393c96e38bd7b0fd6a3a885ba5e0ff0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:39 +0000
Subject: [PATCH 044/121] fix: the copy of an error distribution has its own
 hyperparameters and leaves the scale of the original alone

---
 BayesicFitting/source/ErrorDistribution.py            | 4 ++--
 BayesicFitting/source/ExponentialErrorDistribution.py | 2 --
 BayesicFitting/source/ScaledErrorDistribution.py      | 6 ++----
 3 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/BayesicFitting/source/ErrorDistribution.py b/BayesicFitting/source/ErrorDistribution.py
index 0840573..3e0ca9c 100644
--- a/BayesicFitting/source/ErrorDistribution.py
+++ b/BayesicFitting/source/ErrorDistribution.py
@@ -99,9 +99,9 @@ class ErrorDistribution( object ):
             self.fixed = self.keepFixed( fixed )
             self.constrain = constrain
         else :                          ### TBC do we need copies here ????
-            self.hyperpar = copy.hyperpar
+            self.hyperpar = [hp.copy() for hp in copy.hyperpar]
             self.deltaP = copy.deltaP
-            self.fixed = self.keepFixed( copy.fixed )
+            self.fixed = copy.fixed
             self.constrain = copy.constrain
 
     def copy( self ):
diff --git a/BayesicFitting/source/ExponentialErrorDistribution.py b/BayesicFitting/source/ExponentialErrorDistribution.py
index 557c552..7576fd2 100644
--- a/BayesicFitting/source/ExponentialErrorDistribution.py
+++ b/BayesicFitting/source/ExponentialErrorDistribution.py
@@ -115,8 +115,6 @@ class ExponentialErrorDistribution( ScaledErrorDistribution ):
         if copy is None :
             self.hyperpar = [NoiseScale( scale=scale, limits=slim ),
                              HyperParameter( hypar=power, limits=plim )]
-        else :
-            self.hyperpar = copy.hyperpar
 
     def copy( self ):
         """ Return copy of this.  """
diff --git a/BayesicFitting/source/ScaledErrorDistribution.py b/BayesicFitting/source/ScaledErrorDistribution.py
index cce4db6..cc5fbc1 100644
--- a/BayesicFitting/source/ScaledErrorDistribution.py
+++ b/BayesicFitting/source/ScaledErrorDistribution.py
@@ -76,11 +76,9 @@ class ScaledErrorDistribution( ErrorDistribution ):
 
         if copy is None :
             self.hyperpar = NoiseScale( scale=scale, limits=limits )
-        else :
-            self.hyperpar = copy.hyperpar                   ## TBC copy ???
 
-        if limits is None :
-            self.fixed = self.keepFixed( {0: scale} )
+            if limits is None :
+                self.fixed = self.keepFixed( {0: scale} )
 
     def copy( self ):
         """ Return copy of this.  """
-- 
2.43.0


From 213b4b82f8aecd419f8789ef7800f2a41b55727f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:39 +0000
Subject: [PATCH 045/121] fix: ErrorDistribution.getResiduals of a distribution
 without hyperparameters uses all parameters

---
 BayesicFitting/source/ErrorDistribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/ErrorDistribution.py b/BayesicFitting/source/ErrorDistribution.py
index 3e0ca9c..5edcf95 100644
--- a/BayesicFitting/source/ErrorDistribution.py
+++ b/BayesicFitting/source/ErrorDistribution.py
@@ -189,7 +189,7 @@ class ErrorDistribution( object ):
             param = problem.model.parameters
         else :
             nh = self.nphypar
-            param = allpars[:-nh]
+            param = allpars[:-nh] if nh > 0 else allpars
 
         return problem.residuals( param )
 
-- 
2.43.0


From 9ebb230c69e293cd54fe1ef3228494e1a67650d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:18 +0000
Subject: [PATCH 046/121] fix: a HyperParameter constructed with limits only is
 not fixed, as after setLimits

---
 BayesicFitting/source/HyperParameter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/HyperParameter.py b/BayesicFitting/source/HyperParameter.py
index f695c49..78f2aa1 100644
--- a/BayesicFitting/source/HyperParameter.py
+++ b/BayesicFitting/source/HyperParameter.py
@@ -88,7 +88,8 @@ class HyperParameter( object ):
                 self.prior.setLimits( limits )
             self.isFixed = False
         elif limits is not None :
-            self.prior = JeffreysPrior( limits=limits ) 
+            self.prior = JeffreysPrior( limits=limits )
+            self.isFixed = False
 
 
         if copy is not None :
-- 
2.43.0


From 2c986bbbf0912bda113c0ca771b1028dab8b544a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:12 +0000
Subject: [PATCH 047/121] fix: uncertainties and evidence over the parameters
 of the last fit

---
 BayesicFitting/source/BaseFitter.py | 31 +++++++++++++----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index 4082a88..9aa6307 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -196,6 +196,7 @@ class BaseFitter( object ):
         self.model = model
         self.keep = keep
         self.fitIndex = self.keepFixed( keep )
+        self.lastIndex = self.fitIndex              # indices fitted in the last fit
         self.fixedScale = fixedScale
 
         if self.ndim != model.ndim:
@@ -268,15 +269,14 @@ class BaseFitter( object ):
             self.fitWgts /= ( accuracy * accuracy )
            
         if keep is not None :
-            return ( self.keepFixed( keep ), ydata, self.fitWgts )
-
-        if self.fitIndex is None :
+            self.lastIndex = self.keepFixed( keep )
+        elif self.fitIndex is None :
             self.npfit = self.model.npchain
-            return ( numpy.arange( self.model.npchain, dtype=int ), 
-                     ydata, self.fitWgts )
+            self.lastIndex = numpy.arange( self.model.npchain, dtype=int )
+        else :
+            self.lastIndex = self.keepFixed( self.keep )
 
-        self.npfit = len( self.fitIndex )
-        return ( self.fitIndex, ydata, self.fitWgts )
+        return ( self.lastIndex, ydata, self.fitWgts )
 
     def fitpostscript( self, ydata, plot=False ) :
         """
@@ -629,7 +629,7 @@ class BaseFitter( object ):
         Stdevs are found from this as np.sqrt( np.diag( covarianceMatrix ) )
 
         """
-        cov =  self.getInverseHessian( index=self.fitIndex ) * self.makeVariance()
+        cov =  self.getInverseHessian( index=self.lastIndex ) * self.makeVariance()
         return cov
 
     #  *************************************************************************
@@ -765,11 +765,8 @@ class BaseFitter( object ):
         cov = self.covariance
 
         stdevs = numpy.sqrt( cov.diagonal() )
-        if self.keep is None :
-            self.model.stdevs = stdevs
-        else :
-            intostd = numpy.zeros( self.model.npchain, dtype=float )
-            self.model.stdevs = self.insertParameters( stdevs, into=intostd )
+        intostd = numpy.zeros( self.model.npchain, dtype=float )
+        self.model.stdevs = self.insertParameters( stdevs, index=self.lastIndex, into=intostd )
 
         return self.model.stdevs
 
@@ -798,7 +795,7 @@ class BaseFitter( object ):
         if xdata is None : xdata = self.xdata
         if monteCarlo is None :
             monteCarlo = MonteCarlo( xdata, self.model, self.covariance,
-                                          index=self.fitIndex )
+                                          index=self.lastIndex )
 
         return monteCarlo.getError( xdata )
 
@@ -941,8 +938,8 @@ class BaseFitter( object ):
 
         if priorlength == 1 :
             spr += prirange[0]
-        elif limits is None and self.fitIndex is not None :
-            fi = self.fitIndex
+        elif limits is None and self.lastIndex is not None :
+            fi = self.lastIndex
             q = numpy.where( fi < priorlength )
             fq = fi[q]
             priorlength = len( fq )
@@ -953,7 +950,7 @@ class BaseFitter( object ):
         if priorlength < self.npfit :                          # add enough times the last one
             spr += ( self.npfit - priorlength ) * prirange[-1]
 
-        lidet = math.log( numpy.linalg.det( self.hessian ) )
+        lidet = math.log( numpy.linalg.det( self.getHessian( index=self.lastIndex ) ) )
 
         # implementing eq 18 (Kester 2002) term by term
         self.logOccam += -spr + 0.5 * ( self.npfit *
-- 
2.43.0


From 716c9cdfce0681fa357ae65558abc66e3ea96a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:05 +0000
Subject: [PATCH 048/121] fix: evidence with a fitted scale: width of the
 posterior of the scale

---
 BayesicFitting/source/BaseFitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index 9aa6307..9414a83 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -906,7 +906,7 @@ class BaseFitter( object ):
             scalerange = math.log( noiseLimits[1] ) - math.log( noiseLimits[0] )
             autoScale = True
             s2 = self.makeVariance( )
-            self.logOccam = 0.5 * math.log( math.pi * dof ) - scalerange
+            self.logOccam = 0.5 * math.log( math.pi / dof )
         else :
             autoScale = False
             scale = 1.0 if self.fixedScale is None else self.fixedScale
-- 
2.43.0


From 1f93291a77a87b5a1b3291c9ba7c16c29c92a0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:05 +0000
Subject: [PATCH 049/121] fix: evidence with the priors of all parameters of a
 compound model

---
 BayesicFitting/source/BaseFitter.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index 9414a83..152344d 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -925,11 +925,10 @@ class BaseFitter( object ):
         if self.npfit == 0 :
             return self.logLikelihood + self.logOccam
 
-        priors = self.model.priors
         if limits is not None :
             prirange = Tools.toArray( limits[1] ) - Tools.toArray( limits[0] )
         elif self.model.hasLimits() :
-            prirange = [p.getIntegral() for p in priors]        # convert to list
+            prirange = [self.model.getPrior( k ).getIntegral() for k in range( self.model.npchain )]
         elif self.model.npchain > 0 :
             raise ValueError( "No limits provided on the parameters. Cannot calculate evidence." )
 
-- 
2.43.0


From f0cd14487f83048592fcfd3a94dcbc8c727c1ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:05 +0000
Subject: [PATCH 050/121] fix: log likelihood with weights and an array of
 accuracies

---
 BayesicFitting/source/BaseFitter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index 152344d..1b2719a 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -861,7 +861,8 @@ class BaseFitter( object ):
 
         if self.accuracy is not None :
             if Tools.length( self.accuracy ) > 1 :
-                slacc = numpy.sum( numpy.log( self.accuracy ) )
+                slacc = numpy.log( self.accuracy )
+                slacc = numpy.sum( slacc if self.weights is None else self.weights * slacc )
             else :
                 slacc = self.sumwgt * numpy.log( self.accuracy )
         else :
-- 
2.43.0


From fd128e0ea16e7e819d8f277c6c3a0a3b71b64350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:05 +0000
Subject: [PATCH 051/121] fix: linear fit of a null model with weights

---
 BayesicFitting/source/Fitter.py   | 2 +-
 BayesicFitting/source/QRFitter.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/Fitter.py b/BayesicFitting/source/Fitter.py
index 0b1e9c8..7bde7f9 100644
--- a/BayesicFitting/source/Fitter.py
+++ b/BayesicFitting/source/Fitter.py
@@ -130,7 +130,7 @@ class Fitter( BaseFitter ):
                     accuracy=accuracy, keep=keep )
 
         if self.model.isNullModel() :
-            self.chiSquared( ydata, fitWgts )
+            self.chiSquared( ydata, weights=fitWgts )
             return numpy.asarray( 0 )
 
         hessian = self.getHessian( weights=fitWgts, index=fitIndex )
diff --git a/BayesicFitting/source/QRFitter.py b/BayesicFitting/source/QRFitter.py
index b0be4f6..64705a7 100644
--- a/BayesicFitting/source/QRFitter.py
+++ b/BayesicFitting/source/QRFitter.py
@@ -140,7 +140,7 @@ class QRFitter( BaseFitter ):
                         accuracy=accuracy, keep=keep )
 
         if self.model.isNullModel() :
-            self.chiSquared( ydata, fitwgts )
+            self.chiSquared( ydata, weights=fitwgts )
             return numpy.asarray( 0 )
 
         ydatacopy = ydata.copy( )
-- 
2.43.0


From 661fbad103c956976ac2c7c63c91b80dad16fe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:05 +0000
Subject: [PATCH 052/121] fix: normalize with kept parameters

---
 BayesicFitting/source/Fitter.py   | 5 ++++-
 BayesicFitting/source/QRFitter.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/Fitter.py b/BayesicFitting/source/Fitter.py
index 7bde7f9..9b4b3b7 100644
--- a/BayesicFitting/source/Fitter.py
+++ b/BayesicFitting/source/Fitter.py
@@ -144,7 +144,10 @@ class Fitter( BaseFitter ):
         if fitWgts is not None :
             ydatacopy *= fitWgts
         if hasattr( self, "normdfdp" ) :
-            ydatacopy = numpy.append( ydatacopy, self.normdata * self.normweight )
+            normdata = self.normdata
+            if fitIndex is not None :
+                normdata = normdata - numpy.inner( self.normdfdp, fxpar )
+            ydatacopy = numpy.append( ydatacopy, normdata * self.normweight )
 
         vector = self.getVector( ydatacopy, index=fitIndex )
 #        print( fmt( hessian ) )
diff --git a/BayesicFitting/source/QRFitter.py b/BayesicFitting/source/QRFitter.py
index 64705a7..46aa587 100644
--- a/BayesicFitting/source/QRFitter.py
+++ b/BayesicFitting/source/QRFitter.py
@@ -157,7 +157,10 @@ class QRFitter( BaseFitter ):
 
         if hasattr( self, "normdata" ) :
             normweight = math.sqrt( self.normweight )
-            ydatacopy = numpy.append( ydatacopy, self.normdata )
+            normdata = self.normdata
+            if fi is not None :
+                normdata = normdata - numpy.inner( self.normdfdp, fxpar )
+            ydatacopy = numpy.append( ydatacopy, normdata )
             wgts = numpy.append( wgts, normweight )
 
         ydatacopy = ydatacopy * wgts
-- 
2.43.0


From d82f154cbba44c56485a1eace8d418ad4af25f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:05 +0000
Subject: [PATCH 053/121] fix: QR fit with weights, accuracies and constraints

---
 BayesicFitting/source/QRFitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/QRFitter.py b/BayesicFitting/source/QRFitter.py
index 46aa587..c28df9d 100644
--- a/BayesicFitting/source/QRFitter.py
+++ b/BayesicFitting/source/QRFitter.py
@@ -153,10 +153,10 @@ class QRFitter( BaseFitter ):
 #        wgts = ( numpy.ones_like( ydata, dtype=float ) if fitwgts is None else
 #                 numpy.sqrt( fitwgts ) )
 
-        wgts = numpy.full_like( ydata, fitwgts, dtype=float )
+        wgts = numpy.sqrt( numpy.full_like( ydata, fitwgts, dtype=float ) )
 
         if hasattr( self, "normdata" ) :
-            normweight = math.sqrt( self.normweight )
+            normweight = numpy.sqrt( self.normweight )
             normdata = self.normdata
             if fi is not None :
                 normdata = normdata - numpy.inner( self.normdfdp, fxpar )
-- 
2.43.0


From 24d47f628a182f91fcf3cce6e1bff6862277bdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:05 +0000
Subject: [PATCH 054/121] fix: QR decomposition is made again when weights or
 fitted parameters differ from the previous fit

---
 BayesicFitting/source/QRFitter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/QRFitter.py b/BayesicFitting/source/QRFitter.py
index c28df9d..3aa4f15 100644
--- a/BayesicFitting/source/QRFitter.py
+++ b/BayesicFitting/source/QRFitter.py
@@ -165,7 +165,10 @@ class QRFitter( BaseFitter ):
 
         ydatacopy = ydatacopy * wgts
 
-        if self.needsNewDecomposition or weights is not None:
+        qrkey = ( fi, wgts )
+        if self.needsNewDecomposition or weights is not None or not (
+                numpy.array_equal( self.qrkey[0], fi ) and
+                numpy.array_equal( self.qrkey[1], wgts ) ) :
             design = ( self.getDesign( index=fi ).transpose() * wgts ).transpose()
 
             # The QR decomposition in numpy has a different interface from that in scipy.
@@ -175,6 +178,7 @@ class QRFitter( BaseFitter ):
             q, r = numpy.linalg.qr( design )
             self.qrmat = numpy.dot( numpy.linalg.inv( r ), q.transpose() )
             self.needsNewDecomposition = False
+            self.qrkey = qrkey
 
         params = numpy.dot( self.qrmat, ydatacopy )
 
-- 
2.43.0


From 08d6596c0f939b3f73a4d0f8066256471c4470bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 055/121] fix: evidence from limits on all parameters when some
 are kept fixed

---
 BayesicFitting/source/BaseFitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index 1b2719a..d3da3ad 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -938,7 +938,7 @@ class BaseFitter( object ):
 
         if priorlength == 1 :
             spr += prirange[0]
-        elif limits is None and self.lastIndex is not None :
+        elif self.lastIndex is not None and ( limits is None or priorlength > self.npfit ) :
             fi = self.lastIndex
             q = numpy.where( fi < priorlength )
             fq = fi[q]
-- 
2.43.0


From ae902ca8f8a5460742b7b1dcc37095c6aea14111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 056/121] fix: limitsFit leaves the fitter as its last fit and
 returns all parameters

---
 BayesicFitting/source/BaseFitter.py | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index d3da3ad..c6959f8 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -396,21 +396,12 @@ class BaseFitter( object ):
         if self.model.priors is None :                  # no priors -> no limits
             return pars
 
-        sfix = self.keep                                # save original fixed setting
-
         npchain = self.model.npchain
         params = self.model.parameters
-        index = self.fitIndex
-#        print( "index  ", fmt( index ) )
-        if index is None :
-            index = [*range( npchain )]                 # unpack range object into list
-            fix = {}
-        else :
-            fix = sfix.copy()
-
-        if keep is not None :
-            for k in keep.keys() : 
-                fix[k] = keep[k]
+        if keep is None :
+            keep = self.keep
+        fix = {} if keep is None else dict( keep )
+        index = [k for k in range( npchain ) if k not in fix]
 
 #        print( "index  ", fmt( index ) )
 #        print( "fix    ", fmt( fix ) )
@@ -428,14 +419,7 @@ class BaseFitter( object ):
 
         if ool > 0 :                                        # some transgressions
             print( "ool    ", fmt( ool ), fmt( fix ) )
-            self.keepFixed( fix )                           # fix them
             pars = self.fit( ydata, weights=weights, keep=fix )      # run fit again
-#            print( "pars   ", fmt( pars, max=None ) )
-#            print( fmt( sfix ) )
-            self.keepFixed( sfix )                          # reset original fitIndex
-            if sfix is not None :                           # select parameters
-                pars = [self.model.parameters[k] for k in self.fitIndex]
-                fix = list( set( fix ) - set( sfix ) )
 #            warnings.warn( "Parameters ", fix, " exceeded limits." )
 
         return pars                                         # return parameters
-- 
2.43.0


From 800f619886bd8f1f7f1735e054e2d08b8b2352ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:31 +0000
Subject: [PATCH 057/121] fix: number of fitted parameters when some are kept
 fixed

---
 BayesicFitting/source/BaseFitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index c6959f8..ed8b31f 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -311,9 +311,9 @@ class BaseFitter( object ):
             return None
         else :
 #            print( "Keep  ", keep )
-            self.npfit = len( keep )
             fitIndex = numpy.arange( self.model.npchain )      # start from scratch
             fitIndex = numpy.setxor1d( fitIndex, list( keep.keys() ) )
+            self.npfit = len( fitIndex )
             self.model.parameters[list(keep.keys())] = list( keep.values() )
             return fitIndex
 
-- 
2.43.0


From 6061a197410e2e473176778414f4f37c940f46eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:16 +0000
Subject: [PATCH 058/121] fix: Levenberg-Marquardt does not accept a step to a
 higher misfit

---
 BayesicFitting/source/LevenbergMarquardtFitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/LevenbergMarquardtFitter.py b/BayesicFitting/source/LevenbergMarquardtFitter.py
index 1e21cac..1546ebb 100644
--- a/BayesicFitting/source/LevenbergMarquardtFitter.py
+++ b/BayesicFitting/source/LevenbergMarquardtFitter.py
@@ -186,7 +186,7 @@ class LevenbergMarquardtFitter( IterativeFitter ):
 #        if fitIndex is not None and len( fitIndex ) < len( par0 ) :
 #            par0 = par0[fitIndex]
 
-        self.chi = self.chiSquaredExtra( data, trypar, weights=fitWgts ) + 1
+        self.chi = self.chiSquaredExtra( data, trypar, weights=fitWgts )
 
         self.lamda = 0.001
 
-- 
2.43.0


From d59ab8a5363fc439436bee2d082c8b7b4fa3a7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:16 +0000
Subject: [PATCH 059/121] fix: Levenberg-Marquardt leaves initial parameters as
 they are and honours keep

---
 BayesicFitting/source/LevenbergMarquardtFitter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/LevenbergMarquardtFitter.py b/BayesicFitting/source/LevenbergMarquardtFitter.py
index 1546ebb..d5eec64 100644
--- a/BayesicFitting/source/LevenbergMarquardtFitter.py
+++ b/BayesicFitting/source/LevenbergMarquardtFitter.py
@@ -181,7 +181,10 @@ class LevenbergMarquardtFitter( IterativeFitter ):
                         accuracy=accuracy, keep=keep )
 
 
-        trypar = self.model.parameters if par0 is None else par0
+        trypar = self.model.parameters
+        if par0 is not None :
+            trypar = self.insertParameters( numpy.asarray( par0, dtype=float )[fitIndex],
+                                            index=fitIndex )
 
 #        if fitIndex is not None and len( fitIndex ) < len( par0 ) :
 #            par0 = par0[fitIndex]
@@ -259,7 +262,7 @@ class LevenbergMarquardtFitter( IterativeFitter ):
             if onEdge :
                 newpar = edgePar
 
-            trypar = self.insertParameters( newpar, index=fi, into=params )
+            trypar = self.insertParameters( newpar, index=fi, into=params.copy() )
 
             trychi = self.chiSquaredExtra( data, trypar, weights=weights )
 
-- 
2.43.0


From 447559c4960fd07ef93fb4acb719645a5e5862c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:16 +0000
Subject: [PATCH 060/121] fix: the simplex leaves initial parameters and sizes
 of the caller as they are

---
 BayesicFitting/source/AnnealingAmoeba.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BayesicFitting/source/AnnealingAmoeba.py b/BayesicFitting/source/AnnealingAmoeba.py
index 29d9ee9..c0d3690 100644
--- a/BayesicFitting/source/AnnealingAmoeba.py
+++ b/BayesicFitting/source/AnnealingAmoeba.py
@@ -235,6 +235,8 @@ class AnnealingAmoeba( object ):
 
         """
         nfit = len( xini )
+        xini = numpy.array( xini, dtype=float )             # copies: leave the originals
+        step = numpy.array( step, dtype=float )
 
         i = 0
         for ir in xini :
-- 
2.43.0


From 0f760b963d2db90fa36bb342827568eaa557838a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:16 +0000
Subject: [PATCH 061/121] fix: low limits of the simplex

---
 BayesicFitting/source/AnnealingAmoeba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/AnnealingAmoeba.py b/BayesicFitting/source/AnnealingAmoeba.py
index c0d3690..5ec0261 100644
--- a/BayesicFitting/source/AnnealingAmoeba.py
+++ b/BayesicFitting/source/AnnealingAmoeba.py
@@ -280,7 +280,7 @@ class AnnealingAmoeba( object ):
         """
         Return True if it has low limits > -inf.
         """
-        return self.lolimits is not None and self.hilimits[k] > -math.inf
+        return self.lolimits is not None and self.lolimits[k] > -math.inf
 
     def hasHighLimits( self, k ) :
         """
-- 
2.43.0


From 6eb264ad9ef69308b9b29b7f9884fd868c18ca30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:16 +0000
Subject: [PATCH 062/121] fix: inflating the simplex keeps it within the limits
 and keeps the best point

---
 BayesicFitting/source/AnnealingAmoeba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/AnnealingAmoeba.py b/BayesicFitting/source/AnnealingAmoeba.py
index 5ec0261..26d5729 100644
--- a/BayesicFitting/source/AnnealingAmoeba.py
+++ b/BayesicFitting/source/AnnealingAmoeba.py
@@ -554,7 +554,7 @@ class AnnealingAmoeba( object ):
         (ndim,nfit) = self.simplex.shape
         milo = [k for k in range( ilo )] + [k for k in range( ilo+1, ndim )]
         for i in milo :
-            inpar = self.simplex[i,:]
+            inpar = self.simplex[i,:].copy()
             self.simplex[i,:] = factor * inpar + emf * self.simplex[ilo,:]
 
             self.simplex[i,:] = self.stayInLimits( inpar, self.simplex[i,:] )
-- 
2.43.0


From 9d760f3891e6b2bf8d452b42899bf842eed71b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:17 +0000
Subject: [PATCH 063/121] fix: the best point of the simplex is a copy

---
 BayesicFitting/source/AnnealingAmoeba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/AnnealingAmoeba.py b/BayesicFitting/source/AnnealingAmoeba.py
index 26d5729..9e1cac0 100644
--- a/BayesicFitting/source/AnnealingAmoeba.py
+++ b/BayesicFitting/source/AnnealingAmoeba.py
@@ -567,7 +567,7 @@ class AnnealingAmoeba( object ):
                 ylo = self.values[i]
                 if self.values[i] < self.fopt:
                     self.fopt = ylo
-                    self.xopt = p
+                    self.xopt = p.copy()
 
         self.sum = numpy.sum( self.simplex, axis=0 )
 
-- 
2.43.0


From 8493f9ceee74baa07a16e97f81e5fc506318cc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:17 +0000
Subject: [PATCH 064/121] fix: degeneracy of the simplex is checked per
 parameter

---
 BayesicFitting/source/AnnealingAmoeba.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/AnnealingAmoeba.py b/BayesicFitting/source/AnnealingAmoeba.py
index 9e1cac0..d10c770 100644
--- a/BayesicFitting/source/AnnealingAmoeba.py
+++ b/BayesicFitting/source/AnnealingAmoeba.py
@@ -328,10 +328,10 @@ class AnnealingAmoeba( object ):
         for i in range( dim[1] ) :
             same = True
             pre = simplex[0,i]
-            same = all( sim == pre for sim in simplex[i,:] )
+            same = all( sim == pre for sim in simplex[:,i] )
 
             if same:
-                print( simplex[i,:] )
+                print( simplex[:,i] )
                 raise ValueError( "Simplex is degenerate at index %d"%i )
 
     def setValues( self ):
-- 
2.43.0


From 6a67fdcf9a8ca114225521ef82660f7fcea83bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:17 +0000
Subject: [PATCH 065/121] fix: ordering the simplex keeps all its points

---
 BayesicFitting/source/AnnealingAmoeba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/AnnealingAmoeba.py b/BayesicFitting/source/AnnealingAmoeba.py
index d10c770..2d0403e 100644
--- a/BayesicFitting/source/AnnealingAmoeba.py
+++ b/BayesicFitting/source/AnnealingAmoeba.py
@@ -453,7 +453,7 @@ class AnnealingAmoeba( object ):
                     self.values[0] = self.values[ilo]
                     self.values[ilo] = swap
 
-                    swap = self.simplex[0,:]
+                    swap = self.simplex[0,:].copy()
                     self.simplex[0,:] = self.simplex[ilo,:]
                     self.simplex[ilo,:] = swap
 
-- 
2.43.0


From f41b7905a06c9772cb093c46875cd4621f866d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:17 +0000
Subject: [PATCH 066/121] fix: minimisation of a flat function ends

---
 BayesicFitting/source/AnnealingAmoeba.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BayesicFitting/source/AnnealingAmoeba.py b/BayesicFitting/source/AnnealingAmoeba.py
index 2d0403e..c2383d2 100644
--- a/BayesicFitting/source/AnnealingAmoeba.py
+++ b/BayesicFitting/source/AnnealingAmoeba.py
@@ -472,6 +472,7 @@ class AnnealingAmoeba( object ):
                     move = "expand"
                     ylo = self.inflateSimplex( ilo, DELTA )
                     trans += nfit
+                    self.iter += 1
                     continue
                 break
 
-- 
2.43.0


From 39528d4a2c9e6759948d16d6bf0422323f23fbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:17 +0000
Subject: [PATCH 067/121] fix: AmoebaFitter with limits per parameter and kept
 parameters

---
 BayesicFitting/source/AmoebaFitter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/BayesicFitting/source/AmoebaFitter.py b/BayesicFitting/source/AmoebaFitter.py
index 7cada9a..bd92b3e 100644
--- a/BayesicFitting/source/AmoebaFitter.py
+++ b/BayesicFitting/source/AmoebaFitter.py
@@ -179,6 +179,9 @@ class AmoebaFitter( MaxLikelihoodFitter ):
         if temp is not None :
             kwargs["temp"] = temp
         if limits is not None :
+            if fitIndex is not None :
+                limits = [numpy.asarray( lim )[fitIndex] if Tools.length( lim ) > len( fitIndex )
+                          else lim for lim in limits]
             kwargs["limits"] = limits
         if maxiter is not None :
             kwargs["maxiter"] = maxiter
-- 
2.43.0


From bb37aa4489fb90d4ba5897ab2ed0e28742b0128b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:17 +0000
Subject: [PATCH 068/121] fix: keep in CurveFitter.fit is for that fit only;
 limits and initial parameters when some are kept

---
 BayesicFitting/source/CurveFitter.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/BayesicFitting/source/CurveFitter.py b/BayesicFitting/source/CurveFitter.py
index f3d32d7..b79fc35 100644
--- a/BayesicFitting/source/CurveFitter.py
+++ b/BayesicFitting/source/CurveFitter.py
@@ -134,14 +134,12 @@ class CurveFitter( IterativeFitter ):
         else :
             bounds = ( -numpy.inf, numpy.inf )
 
-        # Make requested fitIndex; save original one.
-        if keep is not None :
-            self.fitIndex = self.keepFixed( keep )
-
         # Make initial parameters
-        p0 = self.model.parameters if inipar is None else inipar
+        p0 = self.model.parameters if inipar is None else numpy.asarray( inipar )
         if fitIndex is not None :
             p0 = p0[fitIndex]
+            bounds = tuple( numpy.asarray( lim )[fitIndex] if Tools.length( lim ) > len( fitIndex )
+                          else lim for lim in bounds )
 
         ydat = ydata
         # Normalize the data when needed.
@@ -196,7 +194,7 @@ class CurveFitter( IterativeFitter ):
             parameters for the model
         """
         params = Tools.toArray( fitpar, dtype=float, ndim=1 )
-        params = self.insertParameters( params )
+        params = self.insertParameters( params, index=self.lastIndex )
         res = self.model.result( xdata, params )
         if hasattr( self, "normdfdp" ) :
             extra = numpy.inner( self.normdfdp, params )
@@ -216,8 +214,8 @@ class CurveFitter( IterativeFitter ):
             parameters for the model
         """
         params = Tools.toArray( fitpar, dtype=float, ndim=1 )
-        params = self.insertParameters( params )
+        params = self.insertParameters( params, index=self.lastIndex )
 
-        design = self.getDesign( params=params, xdata=xdata, index=self.fitIndex )
+        design = self.getDesign( params=params, xdata=xdata, index=self.lastIndex )
         return design
 
-- 
2.43.0


From d785e6c82dcea58d4d9ae65ca7daff64091e4ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:17 +0000
Subject: [PATCH 069/121] fix: ScipyFitter without a method selects one

---
 BayesicFitting/source/ScipyFitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/ScipyFitter.py b/BayesicFitting/source/ScipyFitter.py
index 967f174..d6c722a 100644
--- a/BayesicFitting/source/ScipyFitter.py
+++ b/BayesicFitting/source/ScipyFitter.py
@@ -165,7 +165,7 @@ class ScipyFitter( MaxLikelihoodFitter ):
 
         self.userGradient = gradient
         self.userHessp = hessp
-        self.method = str.upper( method )
+        self.method = None if method is None else str.upper( method )
         self.norm = numpy.inf
         self.debug = False
         self.ngrad = 0
-- 
2.43.0


From ed05f146f875e93e45a0223b536754b193960c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:17 +0000
Subject: [PATCH 070/121] fix: ScipyFitter uses the initial parameters

---
 BayesicFitting/source/ScipyFitter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/ScipyFitter.py b/BayesicFitting/source/ScipyFitter.py
index d6c722a..009633f 100644
--- a/BayesicFitting/source/ScipyFitter.py
+++ b/BayesicFitting/source/ScipyFitter.py
@@ -225,7 +225,8 @@ class ScipyFitter( MaxLikelihoodFitter ):
         fitIndex, data, weights = self.fitprolog( data, weights=weights, 
                         accuracy=accuracy, keep=keep )
 
-        inipar = self.model.parameters[fitIndex]
+        inipar = self.model.parameters if par0 is None else numpy.asarray( par0, dtype=float )
+        inipar = inipar[fitIndex]
 
         # Check for limits in the prior
         if limits is not None and self.model.priors :
-- 
2.43.0


From 4b0ee16f2e0516c8a7338fec71489dafd0da581d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:17 +0000
Subject: [PATCH 071/121] fix: ScipyFitter warns when the minimizer did not
 succeed

---
 BayesicFitting/source/ScipyFitter.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/BayesicFitting/source/ScipyFitter.py b/BayesicFitting/source/ScipyFitter.py
index 009633f..2e12937 100644
--- a/BayesicFitting/source/ScipyFitter.py
+++ b/BayesicFitting/source/ScipyFitter.py
@@ -360,11 +360,8 @@ class ScipyFitter( MaxLikelihoodFitter ):
 
         self.fulloutput = res
 
-        warn = res["status"]
-        if warn == 1 :
-            warnings.warn( "Maximum number of iterations reached" )
-        elif warn == 2 :
-            warnings.warn( "Gradient and/or function calls were not changing." )
+        if not res["success"] :
+            warnings.warn( "%s did not converge: %s" % ( self.method, res["message"] ) )
 
         self.fitpostscript( data, plot=plot )
 
-- 
2.43.0


From 3a41a6418338220caa04830d308151b0473a75b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:17 +0000
Subject: [PATCH 072/121] fix: hessian of chisq for the minimizers, also when
 parameters are kept

---
 BayesicFitting/source/MaxLikelihoodFitter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/MaxLikelihoodFitter.py b/BayesicFitting/source/MaxLikelihoodFitter.py
index ce577b0..cbfc9ad 100644
--- a/BayesicFitting/source/MaxLikelihoodFitter.py
+++ b/BayesicFitting/source/MaxLikelihoodFitter.py
@@ -271,7 +271,8 @@ class _Chisq( object ):
         """
         Return the Hessian matrix.
         """
-        return self._outer.getHessian( params=par, weights=self._weights, index=self._index )
+        param = self._outer.insertParameters( par, index=self._index )
+        return 2 * self._outer.getHessian( params=param, weights=self._weights, index=self._index )
 
 class _LogL( _Chisq ) :
     """
-- 
2.43.0


From a7b41bf25b1c812665f67e197015c5b26e25a11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:17 +0000
Subject: [PATCH 073/121] fix: a robust fit that does not converge is signalled

---
 BayesicFitting/source/RobustShell.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/BayesicFitting/source/RobustShell.py b/BayesicFitting/source/RobustShell.py
index 9410403..70c755f 100644
--- a/BayesicFitting/source/RobustShell.py
+++ b/BayesicFitting/source/RobustShell.py
@@ -2,6 +2,7 @@ import numpy as numpy
 import inspect
 
 from .IterativeFitter import IterativeFitter
+from .ConvergenceError import ConvergenceError
 from .kernels.Kernel import Kernel
 from .kernels.Biweight import Biweight
 
@@ -255,6 +256,8 @@ class RobustShell( IterativeFitter ):
             self.report( self.verbose, param, trychi, more=scale, force=(self.verbose>=3) )
             chi = trychi
             self.iter += 1
+        else :
+            raise ConvergenceError( "RobustShell: Too many iterations: %d" % self.iter )
 
         self.hessian = self.fitter.getHessian()
         self.chisq = trychi
-- 
2.43.0


From 960aa488195697b1bfd6595597a5ca3c53f3130c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:17 +0000
Subject: [PATCH 074/121] fix: covariance and deviations of a robust fit are
 those of the weighted fit

---
 BayesicFitting/source/RobustShell.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/RobustShell.py b/BayesicFitting/source/RobustShell.py
index 70c755f..1e73990 100644
--- a/BayesicFitting/source/RobustShell.py
+++ b/BayesicFitting/source/RobustShell.py
@@ -259,7 +259,11 @@ class RobustShell( IterativeFitter ):
         else :
             raise ConvergenceError( "RobustShell: Too many iterations: %d" % self.iter )
 
-        self.hessian = self.fitter.getHessian()
+        # uncertainties as in the last (weighted) fit
+        self.fitWgts = self.fitter.fitWgts
+        self.sumwgt = self.fitter.sumwgt
+        self.lastIndex = self.fitter.lastIndex
+        self.hessian = self.fitter.getHessian( index=self.lastIndex )
         self.chisq = trychi
 
         return param
-- 
2.43.0


From 8e9dbebbf2a3299e7fd98ea316d818c7f42f0b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:51 +0000
Subject: [PATCH 075/121] fix: ScipyFitter passes the limits as pairs per
 fitted parameter

---
 BayesicFitting/source/ScipyFitter.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/BayesicFitting/source/ScipyFitter.py b/BayesicFitting/source/ScipyFitter.py
index 2e12937..83eaea4 100644
--- a/BayesicFitting/source/ScipyFitter.py
+++ b/BayesicFitting/source/ScipyFitter.py
@@ -4,6 +4,7 @@ import warnings
 # unconstrained minimization
 from scipy.optimize import minimize
 
+from . import Tools
 from .MaxLikelihoodFitter import MaxLikelihoodFitter
 #from ConvergenceError import ConvergenceError
 
@@ -228,13 +229,12 @@ class ScipyFitter( MaxLikelihoodFitter ):
         inipar = self.model.parameters if par0 is None else numpy.asarray( par0, dtype=float )
         inipar = inipar[fitIndex]
 
-        # Check for limits in the prior
-        if limits is not None and self.model.priors :
-            try :
-                limits = ( self.model.lowLimits[fitIndex], self.model.highLimits[fitIndex] )
-            except :
-                limits = ( self.model.lowLimits, self.model.highLimits )
-
+        # limits as pairs (low,high), one for each of the fitted parameters
+        if limits is not None :
+            limits = [numpy.full( self.model.npchain, lim, dtype=float ) if Tools.length( lim ) <= 1
+                        else numpy.asarray( lim, dtype=float ) for lim in limits]
+            limits = [lim[fitIndex] if len( lim ) > len( fitIndex ) else lim for lim in limits]
+            limits = list( zip( *limits ) )
         if self.method is None:
             # Select automatically
             if constraints:
-- 
2.43.0


From b6c67fa758826023f275932232ca7b2afd357cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:43 +0000
Subject: [PATCH 076/121] fix: Levenberg-Marquardt starts inside the limits of
 the model

---
 BayesicFitting/source/LevenbergMarquardtFitter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/BayesicFitting/source/LevenbergMarquardtFitter.py b/BayesicFitting/source/LevenbergMarquardtFitter.py
index d5eec64..b3cf6c7 100644
--- a/BayesicFitting/source/LevenbergMarquardtFitter.py
+++ b/BayesicFitting/source/LevenbergMarquardtFitter.py
@@ -185,6 +185,10 @@ class LevenbergMarquardtFitter( IterativeFitter ):
         if par0 is not None :
             trypar = self.insertParameters( numpy.asarray( par0, dtype=float )[fitIndex],
                                             index=fitIndex )
+        # the steps are limited; so is the start
+        onEdge, edgePar, edgeInd = self.checkLimits( trypar[fitIndex], fitIndex )
+        if onEdge :
+            trypar = self.insertParameters( edgePar, index=fitIndex, into=trypar.copy() )
 
 #        if fitIndex is not None and len( fitIndex ) < len( par0 ) :
 #            par0 = par0[fitIndex]
-- 
2.43.0


From 476409a5f6d6c8f9506758d19ef446e92351f51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:38 +0000
Subject: [PATCH 077/121] fix: a Galilean step longer than the unit interval
 stays inside it

---
 BayesicFitting/source/GalileanEngine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/BayesicFitting/source/GalileanEngine.py b/BayesicFitting/source/GalileanEngine.py
index 137872d..62f365d 100644
--- a/BayesicFitting/source/GalileanEngine.py
+++ b/BayesicFitting/source/GalileanEngine.py
@@ -318,6 +318,9 @@ class UnitMovements( object ):
         uv = self.uvel
         up = self.upar + uv * f
 
+        # steps that are longer than the unit interval are reflected several times
+        up = numpy.where( ( up < -1 ) | ( up > 2 ), up - 2 * numpy.floor( up / 2 ), up )
+
         # check if outside [0,1]
         up, uv = numpy.where( up <= 0, ( -up, -uv ), ( up, uv ) )
         self.uptry, self.uvtry = numpy.where( up >= 1, ( 2 - up, -uv ), ( up, uv ) )
-- 
2.43.0


From 1b5c387bfaeb95d89e7f3828f524c57e45d916ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:38 +0000
Subject: [PATCH 078/121] fix: RandomEngine takes the ranges of the parameters
 that it changes

---
 BayesicFitting/source/RandomEngine.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/RandomEngine.py b/BayesicFitting/source/RandomEngine.py
index 9d3fa11..c00b83d 100644
--- a/BayesicFitting/source/RandomEngine.py
+++ b/BayesicFitting/source/RandomEngine.py
@@ -109,6 +109,9 @@ class RandomEngine( Engine ):
         nap = len( param )
         um, ux = self.getUnitMinmax( problem, lowLhood )
 
+        um = um[fi]
+        ux = ux[fi]
+
         mlen = len( self.walkers )
         dr = 10 * ( ux - um ) / mlen
         um -= dr
@@ -121,7 +124,7 @@ class RandomEngine( Engine ):
         t = 0
         for tt in range( self.nstep ) :
             ptry = param.copy()
-            uval = self.rng.uniform( um, ux, nap )
+            uval = self.rng.uniform( um, ux, nf )
             ptry[fi] = self.unit2Domain( problem, uval, kpar=fi )
 
             Ltry = self.errdis.logLikelihood( problem, ptry )
-- 
2.43.0


From 7b57228f287ac4c15e9b2c754526892a2d85fd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:38 +0000
Subject: [PATCH 079/121] fix: ChordEngine stays inside the box when started at
 its edge

---
 BayesicFitting/source/ChordEngine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/ChordEngine.py b/BayesicFitting/source/ChordEngine.py
index d52dcb0..99456a5 100644
--- a/BayesicFitting/source/ChordEngine.py
+++ b/BayesicFitting/source/ChordEngine.py
@@ -184,8 +184,8 @@ class ChordEngine( Engine ):
                 print( "tte   ", fma( tt[10:] ) )
 
             ## find smallest entrance and exit times
-            t1 = numpy.min( numpy.where( tt > 0, tt, +math.inf ) )
-            t0 = numpy.max( numpy.where( tt < 0, tt, -math.inf ) )
+            t1 = numpy.min( numpy.maximum( tt[:np], tt[np:] ) )
+            t0 = numpy.max( numpy.minimum( tt[:np], tt[np:] ) )
 
             ## same now for the values at the edges of the unit box (0,1)
             if self.debug :
-- 
2.43.0


From d4a4fa4b7cf0e158d8767025d98685da2adcc1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:38 +0000
Subject: [PATCH 080/121] fix: storing a walker in an empty list keeps its id

---
 BayesicFitting/source/WalkerList.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/WalkerList.py b/BayesicFitting/source/WalkerList.py
index 75e75b2..137b30d 100644
--- a/BayesicFitting/source/WalkerList.py
+++ b/BayesicFitting/source/WalkerList.py
@@ -179,7 +179,8 @@ class WalkerList( list ):
         """
         klow = self.firstIndex( walker.logL )
         if klow is None :
-            self.setWalker( walker, 0 )
+            self.append( walker )
+            self._count += 1
             return self
 
         cnt = self._count
-- 
2.43.0


From 2e0900ebbaad00ae773540dad7590f94c0d1991e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:01 +0000
Subject: [PATCH 081/121] fix: boosting the best walker keeps it inside its
 domain and its fixed parameters

---
 BayesicFitting/source/Engine.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/BayesicFitting/source/Engine.py b/BayesicFitting/source/Engine.py
index 11ce21f..2951a0c 100644
--- a/BayesicFitting/source/Engine.py
+++ b/BayesicFitting/source/Engine.py
@@ -200,7 +200,7 @@ class Engine( object ):
         """
         wlist = self.phantoms.getList( walker )
 
-        if wlist is None or wlist[-1].logL >= walker.logL :
+        if wlist is None or len( wlist ) == 0 or wlist[-1].logL >= walker.logL :
             return
 
 #        print( "Best   ", fmt( walker.logL ) )
@@ -208,19 +208,24 @@ class Engine( object ):
 
         problem = walker.problem
         nh = self.errdis.nphypar
-        par0 = walker.allpars[:-nh]
+        np = len( walker.allpars ) - nh
+        par0 = walker.allpars[:np]
+        fi = [k % len( walker.allpars ) for k in walker.fitIndex]
+        keep = {k : par0[k] for k in range( np ) if k not in fi}
         try :
             self.fitter.model = problem.model
-            pars = self.fitter.fit( problem.ydata, par0=par0 )
+            pars = self.fitter.fit( problem.ydata, par0=par0, keep=( keep if keep else None ) )
         except :
             return
 
-        if nh == 0 :
-            ptry = pars
-        elif walker.fitIndex[-1] == -1 :
-            ptry = numpy.append( pars, self.fitter.getScale() )
-        else :
-            ptry = numpy.append( pars, walker.allpars[-1] )
+        ptry = numpy.append( pars, walker.allpars[np:] )
+        if nh > 0 and np in fi :
+            ptry[np] = self.fitter.getScale()
+
+        for k in walker.fitIndex :
+            prior = problem.model.getPrior( k ) if k >= 0 else self.errdis.hyperpar[k].prior
+            if prior.isOutOfLimits( ptry[k] ) :
+                return
 
         Ltry = self.errdis.logLikelihood( problem, ptry )
 
-- 
2.43.0


From 842b31ee33f4ac8fce493e04933865d8e7cbbad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:42 +0000
Subject: [PATCH 082/121] fix: ShuffleEngine can be called as the other engines
 are

---
 BayesicFitting/source/ShuffleEngine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/ShuffleEngine.py b/BayesicFitting/source/ShuffleEngine.py
index e5ef5cf..1107519 100644
--- a/BayesicFitting/source/ShuffleEngine.py
+++ b/BayesicFitting/source/ShuffleEngine.py
@@ -75,7 +75,7 @@ class ShuffleEngine( OrderEngine ):
         return str( "ShuffleEngine" )
 
     #  *********EXECUTE***************************************************
-    def execute( self, kw, lowLhood ):
+    def execute( self, kw, lowLhood, append=False, iteration=0 ):
         """
         Execute the engine by diffusing the parameters.
 
@@ -91,6 +91,8 @@ class ShuffleEngine( OrderEngine ):
         int : the number of successfull moves
 
         """
+        self.reportCall()
+
         walker = self.walkers[kw]
         problem = walker.problem
         np = problem.npars
-- 
2.43.0


From d5295a2ca243df6de10ab122351e3eced3a7b61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:42 +0000
Subject: [PATCH 083/121] fix: ReverseEngine reports no moves when it failed

---
 BayesicFitting/source/ReverseEngine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/ReverseEngine.py b/BayesicFitting/source/ReverseEngine.py
index cc009ef..00a7609 100644
--- a/BayesicFitting/source/ReverseEngine.py
+++ b/BayesicFitting/source/ReverseEngine.py
@@ -110,6 +110,6 @@ class ReverseEngine( OrderEngine ):
 
         self.reportReject()
 
-        return t                        # nr of succesfull steps
+        return 0                        # nr of succesfull steps
 
 
-- 
2.43.0


From b6c799ff7b825f2bc47d0ff8d45cf721d20ba98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:42 +0000
Subject: [PATCH 084/121] fix: StartOrderEngine draws from its own random
 generator

---
 BayesicFitting/source/StartOrderEngine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/StartOrderEngine.py b/BayesicFitting/source/StartOrderEngine.py
index 467ce5f..fb43246 100644
--- a/BayesicFitting/source/StartOrderEngine.py
+++ b/BayesicFitting/source/StartOrderEngine.py
@@ -90,7 +90,7 @@ class StartOrderEngine( OrderEngine ):
 
         problem = walker.problem
 #        print( walker.allpars )
-        par = numpy.random.permutation( walker.allpars )
+        par = self.rng.permutation( walker.allpars )
 #        print( par )
 
         logL = self.errdis.logLikelihood( problem, par )
-- 
2.43.0


From 9e49a51f260c30daa4df7a366ae7d2c0d09494f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:03 +0000
Subject: [PATCH 085/121] fix: order engines and StartEngine replace the walker
 they were asked to move

---
 BayesicFitting/source/LoopEngine.py       | 2 +-
 BayesicFitting/source/MoveEngine.py       | 2 +-
 BayesicFitting/source/NearEngine.py       | 2 +-
 BayesicFitting/source/ReverseEngine.py    | 2 +-
 BayesicFitting/source/ShuffleEngine.py    | 2 +-
 BayesicFitting/source/StartEngine.py      | 4 ++--
 BayesicFitting/source/StartOrderEngine.py | 2 +-
 BayesicFitting/source/SwitchEngine.py     | 2 +-
 8 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/BayesicFitting/source/LoopEngine.py b/BayesicFitting/source/LoopEngine.py
index 8eea677..be4bff4 100644
--- a/BayesicFitting/source/LoopEngine.py
+++ b/BayesicFitting/source/LoopEngine.py
@@ -163,7 +163,7 @@ class LoopEngine( OrderEngine ):
 
         if Ltry >= lowLhood:
             self.reportSuccess( )
-            self.setWalker( walker.id, problem, ptry, Ltry )
+            self.setWalker( kw, problem, ptry, Ltry )
 
         else :
             self.reportFailed()
diff --git a/BayesicFitting/source/MoveEngine.py b/BayesicFitting/source/MoveEngine.py
index e91661e..8e1504e 100644
--- a/BayesicFitting/source/MoveEngine.py
+++ b/BayesicFitting/source/MoveEngine.py
@@ -112,7 +112,7 @@ class MoveEngine( OrderEngine ):
 
             if Ltry >= lowLhood:
                 self.reportSuccess( )
-                self.setWalker( walker.id, problem, ptry, Ltry )
+                self.setWalker( kw, problem, ptry, Ltry )
 
                 ## check if better than Lbest in walkers[-1]
                 ## self.checkBest( problem, ptry, Ltry )
diff --git a/BayesicFitting/source/NearEngine.py b/BayesicFitting/source/NearEngine.py
index 9de6026..d2f446b 100644
--- a/BayesicFitting/source/NearEngine.py
+++ b/BayesicFitting/source/NearEngine.py
@@ -155,7 +155,7 @@ class NearEngine( OrderEngine ):
 
         if Ltry >= lowLhood:
             self.reportSuccess( )
-            self.setWalker( walker.id, problem, ptry, Ltry )
+            self.setWalker( kw, problem, ptry, Ltry )
             t = 1
 
         else :
diff --git a/BayesicFitting/source/ReverseEngine.py b/BayesicFitting/source/ReverseEngine.py
index 00a7609..e58092b 100644
--- a/BayesicFitting/source/ReverseEngine.py
+++ b/BayesicFitting/source/ReverseEngine.py
@@ -100,7 +100,7 @@ class ReverseEngine( OrderEngine ):
 
             if Ltry >= lowLhood:
                 self.reportSuccess( )
-                self.setWalker( walker.id, problem, ptry, Ltry )
+                self.setWalker( kw, problem, ptry, Ltry )
 
                 return t
 
diff --git a/BayesicFitting/source/ShuffleEngine.py b/BayesicFitting/source/ShuffleEngine.py
index 1107519..84d8699 100644
--- a/BayesicFitting/source/ShuffleEngine.py
+++ b/BayesicFitting/source/ShuffleEngine.py
@@ -116,7 +116,7 @@ class ShuffleEngine( OrderEngine ):
 
             if Ltry >= lowLhood:
                 self.reportSuccess( )
-                self.setWalker( walker.id, problem, ptry, Ltry )
+                self.setWalker( kw, problem, ptry, Ltry )
 
                 return t
 
diff --git a/BayesicFitting/source/StartEngine.py b/BayesicFitting/source/StartEngine.py
index d059b18..ecce077 100644
--- a/BayesicFitting/source/StartEngine.py
+++ b/BayesicFitting/source/StartEngine.py
@@ -143,9 +143,9 @@ class StartEngine( Engine ):
             else :
                 ktry += 1
 
-        self.setWalker( walker.id, problem, allp, logL, fitIndex=fitIndex )
+        self.setWalker( kw, problem, allp, logL, fitIndex=fitIndex )
 
-        wlkr = self.walkers[walker.id]
+        wlkr = self.walkers[kw]
 #        print( walker.id, wlkr.id, wlkr.problem.model.npars, len( wlkr.allpars ), fmt( wlkr.logL ) )
 
         nhyp = self.errdis.nphypar 
diff --git a/BayesicFitting/source/StartOrderEngine.py b/BayesicFitting/source/StartOrderEngine.py
index fb43246..a4f7051 100644
--- a/BayesicFitting/source/StartOrderEngine.py
+++ b/BayesicFitting/source/StartOrderEngine.py
@@ -94,7 +94,7 @@ class StartOrderEngine( OrderEngine ):
 #        print( par )
 
         logL = self.errdis.logLikelihood( problem, par )
-        self.setWalker( walker.id, problem, par, logL )
+        self.setWalker( kw, problem, par, logL )
 
         return len( par )
 
diff --git a/BayesicFitting/source/SwitchEngine.py b/BayesicFitting/source/SwitchEngine.py
index 8aa85e4..c3d2a2f 100644
--- a/BayesicFitting/source/SwitchEngine.py
+++ b/BayesicFitting/source/SwitchEngine.py
@@ -115,7 +115,7 @@ class SwitchEngine( OrderEngine ):
 
         if Ltry >= lowLhood:
             self.reportSuccess( )
-            self.setWalker( walker.id, problem, ptry, Ltry )
+            self.setWalker( kw, problem, ptry, Ltry )
 #            param = walker.allpars
 
             return 2
-- 
2.43.0


From f1cd4c9de78d97aef20e5e255d016ff5489dbd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:40 +0000
Subject: [PATCH 086/121] fix: samples get the evidence under the name they use

---
 BayesicFitting/source/NestedSampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index a8efa2b..296029f 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -470,7 +470,7 @@ class NestedSampler( object ):
         self.updateEvidence( self.ensemble )        # Update Evidence Z and Information H
 
         # Calculate weighted average and stdevs for the parameters;
-        self.samples.LogZ = self.logZ
+        self.samples.logZ = self.logZ
         self.samples.info = self.info
         self.samples.normalize( )
 
-- 
2.43.0


From 10dd05e3f79791a7e369f26319e35d94ff104225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:40 +0000
Subject: [PATCH 087/121] fix: information uses the likelihood of the walker
 that is booked

---
 BayesicFitting/source/NestedSampler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index 296029f..c715f04 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -763,13 +763,14 @@ class NestedSampler( object ):
         """
 
         for kw in range( worst ) :
-            logWeight = self.logWidth + self.walkers[kw].logL + self.walkers[kw].logPrior
+            logL = self.walkers[kw].logL + self.walkers[kw].logPrior
+            logWeight = self.logWidth + logL
 
             # update evidence, logZ
             logZnew = numpy.logaddexp( self.logZ, logWeight )
 
             # update Information, H
-            self.info = ( math.exp( logWeight - logZnew ) * self.lowLhood +
+            self.info = ( math.exp( logWeight - logZnew ) * logL +
                     math.exp( self.logZ - logZnew ) * ( self.info + self.logZ ) - logZnew )
 
             if math.isnan( self.info ) :
-- 
2.43.0


From 3b0bc66c8657dfc9593bdbc2d6362bed54ac83dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:40 +0000
Subject: [PATCH 088/121] fix: parameters can be kept together with fixed hyper
 parameters

---
 BayesicFitting/source/NestedSampler.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index c715f04..fe3f8d7 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -537,16 +537,12 @@ class NestedSampler( object ):
 
         nh = self.distribution.nphypar
         if keep is not None :
-            fitl = []
-            kkeys = list( keep.keys() )
-            for k in range( np + nh ) :
-                if k in kkeys :
-                    allpars[k] = keep[k]                    # save keep.value in allpars
-                elif fitlist[k] in kkeys :
-                    allpars[k] = keep[fitlist[k]]           # save keep.value in allpars
-                else :
-                    fitl += [fitlist[k]]                    # list of pars to be fitted
-            fitlist = fitl
+            kept = set()
+            for k in keep :
+                allpars[k] = keep[k]                        # save keep.value in allpars
+                kept.add( k % ( np + nh ) )
+            # list of pars to be fitted
+            fitlist = [k for k in fitlist if not k % ( np + nh ) in kept]
 
         return ( fitlist, allpars )
 
-- 
2.43.0


From 3ab29ef7e3cb428d390bbc86a6740291fd3f9f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:40 +0000
Subject: [PATCH 089/121] fix: each sample has its own parameters

---
 BayesicFitting/source/SampleList.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BayesicFitting/source/SampleList.py b/BayesicFitting/source/SampleList.py
index 563b888..3c30b5d 100644
--- a/BayesicFitting/source/SampleList.py
+++ b/BayesicFitting/source/SampleList.py
@@ -136,6 +136,7 @@ class SampleList( list ):
                     fitIndex = fitIndex.copy()
             sample = Sample( self._count, -1, self.iteration, model,
                              parameters=parameters, fitIndex=fitIndex )
+            sample.parameters = numpy.array( sample.parameters )
             self.append( sample )
             self._count += 1
 
-- 
2.43.0


From 1c747e8f6b47b0bad5a55b069d66fbf82fa3a2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:40 +0000
Subject: [PATCH 090/121] fix: averages and indices of a SampleList follow its
 contents

---
 BayesicFitting/source/SampleList.py | 35 ++++++++++-------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/BayesicFitting/source/SampleList.py b/BayesicFitting/source/SampleList.py
index 3c30b5d..d048196 100644
--- a/BayesicFitting/source/SampleList.py
+++ b/BayesicFitting/source/SampleList.py
@@ -144,18 +144,15 @@ class SampleList( list ):
         if name == "parameters" :
             return self.getParameters()
         elif name == "stdevs" or name == "standardDeviations" :
-            self.getParameters()
-            return self.stdevs
+            return self._averstdParameters()[1]
         elif name == "hypars" :
             return self.getHypars()
-        elif name == "stdevHypar" :
-            self.getHypars()
-            return self.stdevHypar
+        elif name == "stdevHypar" or name == "stdevHypars" :
+            return self.averstd( "hyper" )[1]
         elif name == "nuisance" :
             return self.getNuisance()
         elif name == "stdevNuis" :
-            self.getNuisance()
-            return self.stdevNuis
+            return self.averstd( "nuisance" )[1]
         elif name == "scale" :
             return self.hypars[0]
         elif name == "stdevScale" :
@@ -175,8 +172,7 @@ class SampleList( list ):
             return self[self.medianIndex].hypars[0]
         elif name == "modusIndex" :
             we = list( self.getLogWeightEvolution() )
-            self.modusIndex = we.index( max( we ) )
-            return self.modusIndex
+            return we.index( max( we ) )
         elif name == "modusParameters" :
             return self[self.modusIndex].parameters
         elif name == "modusScale" :
@@ -297,11 +293,12 @@ class SampleList( list ):
             ValueError when using Dynamic Models
 
         """
+        return self._averstdParameters()[0]
+
+    def _averstdParameters( self ):
         mdl = self[0].model
         if not ( mdl.hasPriors() and any( [mdl.getPrior( k ).isCircular() for k in range( mdl.npchain )] ) ) :
-            ( a, s ) = self.averstd( "parameters" )
-            self.stdevs = s
-            return a
+            return self.averstd( "parameters" )
 
         par, wgt = self.getParAndWgtEvolution()
         np = self[0].model.npchain
@@ -312,10 +309,7 @@ class SampleList( list ):
             clh = None if not pr.isCircular() else pr.getLimits()
             param[k], stdev[k] = Tools.average( par[:,k], weights=wgt, circular=clh )
 
-        self.parameters = param
-        self.stdevs = stdev
-
-        return self.parameters
+        return ( param, stdev )
 
     def getHypars( self ) :
         """
@@ -336,18 +330,13 @@ class SampleList( list ):
         self.hypars = hypar
         return self.hypars
         """
-        ( a, s ) = self.averstd( "hyper" )
-        self.stdevHypars = s
-        self.hypars = a
-        return a
+        return self.averstd( "hyper" )[0]
 
     def getNuisance( self ) :
         """
         Return the average of the nuisance parameters (if present)
         """
-        ( a, s ) = self.averstd( "nuisance" )
-        self.stdevNuis = s
-        return a
+        return self.averstd( "nuisance" )[0]
 
     def averstd( self, name ) :
         """
-- 
2.43.0


From 485a7b395b1bd0f5d13123c1df8a7b08e7370c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:53 +0000
Subject: [PATCH 091/121] fix: median index follows the contents of the
 SampleList

---
 BayesicFitting/source/SampleList.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/BayesicFitting/source/SampleList.py b/BayesicFitting/source/SampleList.py
index d048196..14f6bbe 100644
--- a/BayesicFitting/source/SampleList.py
+++ b/BayesicFitting/source/SampleList.py
@@ -374,8 +374,7 @@ class SampleList( list ):
                 k += 1
             else :
                 break
-        self.medianIndex = k
-        return self.medianIndex
+        return k
 
      # ===== EVOLUTIONS ========================================================
     def getMaximumNumberOfParameters( self ):
-- 
2.43.0


From c8f42a65d9a1e11e8dcc001bbb7e7706556aab97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:53 +0000
Subject: [PATCH 092/121] fix: monteCarloError is that of its own input

---
 BayesicFitting/source/SampleList.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/SampleList.py b/BayesicFitting/source/SampleList.py
index 14f6bbe..a78c634 100644
--- a/BayesicFitting/source/SampleList.py
+++ b/BayesicFitting/source/SampleList.py
@@ -522,7 +522,7 @@ class SampleList( list ):
             sumwgt += wgt
 
 #        self.error = numpy.sqrt( ( error - result * result ) / self.ndata )
-        self.error = numpy.sqrt( error - result * result )
+        self.error = numpy.sqrt( numpy.maximum( error - result * result, 0 ) )
         self.result = result
 
         return self.result
@@ -547,7 +547,6 @@ class SampleList( list ):
             standard deviations at each input point
 
         """
-        if Tools.length( xdata ) != len( self.result ):
-            self.average( xdata )
+        self.average( xdata )
         return self.error
 
-- 
2.43.0


From 1ae97bfe392ff4d3c9ecc689faa955276103789a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:53 +0000
Subject: [PATCH 093/121] fix: a sample does not share its parameters with the
 walker

---
 BayesicFitting/source/Walker.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/Walker.py b/BayesicFitting/source/Walker.py
index 9a597e9..f29f754 100644
--- a/BayesicFitting/source/Walker.py
+++ b/BayesicFitting/source/Walker.py
@@ -126,14 +126,14 @@ class Walker( object ):
         np = self.problem.npars
         nm = self.problem.model.npars if self.problem.model else np
 
-        param = self.allpars[:nm]
+        param = self.allpars[:nm].copy()
         sample = Sample( self.id, self.parent, self.start, self.problem.model,
                          parameters=param, fitIndex=self.fitIndex )
 
         if len( self.allpars ) > np :
-            sample.hyper = self.allpars[np:]
+            sample.hyper = self.allpars[np:].copy()
         if np > nm :
-            sample.nuisance = self.allpars[nm:np]
+            sample.nuisance = self.allpars[nm:np].copy()
 
         sample.logL = self.logL + self.logPrior
         sample.logW = logW
-- 
2.43.0


From 412529ab566ab5045e8cc83b207ab3862a34e80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:53 +0000
Subject: [PATCH 094/121] fix: copies of a walker have their own list of fitted
 parameters

---
 BayesicFitting/source/Walker.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BayesicFitting/source/Walker.py b/BayesicFitting/source/Walker.py
index f29f754..bd7b119 100644
--- a/BayesicFitting/source/Walker.py
+++ b/BayesicFitting/source/Walker.py
@@ -108,6 +108,8 @@ class Walker( object ):
             self.start = copy.start
             self.parent = copy.parent
             self.problem = problem.copy()
+            if fitIndex is not None :
+                self.fitIndex = fitIndex.copy()
             self.logL = copy.logL
             self.logPrior = copy.logPrior
 
-- 
2.43.0


From f18013c177264f66afc9284cd45b8e6abf14e840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:53 +0000
Subject: [PATCH 095/121] fix: copies of an OrderProblem have their own
 parameters

---
 BayesicFitting/source/OrderProblem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/OrderProblem.py b/BayesicFitting/source/OrderProblem.py
index 5ed7b49..03aeaee 100644
--- a/BayesicFitting/source/OrderProblem.py
+++ b/BayesicFitting/source/OrderProblem.py
@@ -80,7 +80,7 @@ class OrderProblem( Problem ):
         if copy is None :
             self.parameters = numpy.arange( self.npars, dtype=int )
         else :
-            self.parameters = copy.parameters
+            self.parameters = copy.parameters.copy()
 
 
     def copy( self ) :
-- 
2.43.0


From 658e2fe4f720fa089eca1909570f107a3ae7cf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:53 +0000
Subject: [PATCH 096/121] fix: parent of a copied walker is the id of its
 source

---
 BayesicFitting/source/WalkerList.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/WalkerList.py b/BayesicFitting/source/WalkerList.py
index 137b30d..79dc522 100644
--- a/BayesicFitting/source/WalkerList.py
+++ b/BayesicFitting/source/WalkerList.py
@@ -142,7 +142,7 @@ class WalkerList( list ):
         id = self[des].id
         self[des] = wlist[src].copy()
         setatt( self[des], "id", id )
-        setatt( self[des], "parent", src )
+        setatt( self[des], "parent", wlist[src].id )
         setatt( self[des], "start", start )
         setatt( self[des], "step", 0 )
 
-- 
2.43.0


From 9874bb69c48cebc9d11c713554b27e55a725186c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:06 +0000
Subject: [PATCH 097/121] fix: walkers of a problem without a model can be
 checked

---
 BayesicFitting/source/Explorer.py | 6 +++++-
 BayesicFitting/source/Walker.py   | 5 +++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/Explorer.py b/BayesicFitting/source/Explorer.py
index ab2bf6f..ea7fe1f 100644
--- a/BayesicFitting/source/Explorer.py
+++ b/BayesicFitting/source/Explorer.py
@@ -257,7 +257,8 @@ class Explorer( object ):
         walker.check( nhyp=self.errdis.nphypar )
 
         wlogL = self.errdis.logLikelihood( walker.problem, walker.allpars )
-        if walker.problem.model.npars < len( walker.allpars ) - self.errdis.nphypar :
+        model = walker.problem.model
+        if model is not None and model.npars < len( walker.allpars ) - self.errdis.nphypar :
             Tools.printclass( walker )
             print( "Iteration %4d %4d %10.3f  %10.3f" % ( self.iteration, walker.id, walker.logL, wlogL ) )
             print( fmt( walker.allpars, max=None ) )
@@ -271,6 +272,9 @@ class Explorer( object ):
             raise ValueError( "Inconsistency between stored logL %f and calculated logL %f" %
                                 ( walker.logL, wlogL ) )
 
+        if model is None or walker.fitIndex is None :
+            return
+
         for ki in walker.fitIndex :
 #            if walker.fitIndex[ki] >= 0 :
             if ki < 0 :
diff --git a/BayesicFitting/source/Walker.py b/BayesicFitting/source/Walker.py
index bd7b119..b5f4818 100644
--- a/BayesicFitting/source/Walker.py
+++ b/BayesicFitting/source/Walker.py
@@ -184,9 +184,10 @@ class Walker( object ):
         """
         Perform some sanity checks.
         """
-        np = self.problem.model.npars
+        model = self.problem.model
+        np = self.problem.npars if model is None else model.npars
         na = len( self.allpars )
-        nm = len( self.problem.model.parameters )
+        nm = np if model is None else len( model.parameters )
 
         if not na == ( np + nhyp + nuisance):
             Tools.printclass( self )
-- 
2.43.0


From 63580778ac9e9544b868feeab5388ae1ee8be06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:41 +0000
Subject: [PATCH 098/121] fix: walkers of a problem with nuisance parameters
 can be checked

---
 BayesicFitting/source/Explorer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/Explorer.py b/BayesicFitting/source/Explorer.py
index ea7fe1f..bc86195 100644
--- a/BayesicFitting/source/Explorer.py
+++ b/BayesicFitting/source/Explorer.py
@@ -254,11 +254,12 @@ class Explorer( object ):
         ValueError at inconsistency.
 
         """
-        walker.check( nhyp=self.errdis.nphypar )
+        model = walker.problem.model
+        nuis = 0 if model is None else walker.problem.npars - model.npars
+        walker.check( nhyp=self.errdis.nphypar, nuisance=nuis )
 
         wlogL = self.errdis.logLikelihood( walker.problem, walker.allpars )
-        model = walker.problem.model
-        if model is not None and model.npars < len( walker.allpars ) - self.errdis.nphypar :
+        if model is not None and model.npars < len( walker.allpars ) - self.errdis.nphypar - nuis :
             Tools.printclass( walker )
             print( "Iteration %4d %4d %10.3f  %10.3f" % ( self.iteration, walker.id, walker.logL, wlogL ) )
             print( fmt( walker.allpars, max=None ) )
-- 
2.43.0


From c8bf48627413078bd0ba14de74f0066de318c542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:05 +0000
Subject: [PATCH 099/121] fix: remaining walkers are booked in order of
 likelihood

---
 BayesicFitting/source/NestedSampler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index fe3f8d7..6e7177c 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -467,6 +467,7 @@ class NestedSampler( object ):
 
 
         # End of Sampling: Update and store the remaining walkers
+        self.walkers.sort( key=self.walkerLogL )
         self.updateEvidence( self.ensemble )        # Update Evidence Z and Information H
 
         # Calculate weighted average and stdevs for the parameters;
-- 
2.43.0


From 5e5c00ef71d531d021198d8b16282ad560cdc04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:05 +0000
Subject: [PATCH 100/121] fix: PhantomSampler replaces at least one walker

---
 BayesicFitting/source/PhantomSampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/PhantomSampler.py b/BayesicFitting/source/PhantomSampler.py
index 58c6858..258629e 100644
--- a/BayesicFitting/source/PhantomSampler.py
+++ b/BayesicFitting/source/PhantomSampler.py
@@ -225,7 +225,7 @@ class PhantomSampler( NestedSampler ):
 
     def __getattr__( self, name ) :
         if name == "worst" :
-            return int( ( len( self.walkers ) * self.step ) // 100 )
+            return max( 1, int( ( len( self.walkers ) * self.step ) // 100 ) )
         else :
             return super().__getattr__( name )
 
-- 
2.43.0


From bae68fb419c487cbd8dab8d08e962b4f76ffa814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:07 +0000
Subject: [PATCH 101/121] fix: starting walkers of a dynamic model keep the
 fixed hyper parameters

---
 BayesicFitting/source/StartEngine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/BayesicFitting/source/StartEngine.py b/BayesicFitting/source/StartEngine.py
index ecce077..de0f5f8 100644
--- a/BayesicFitting/source/StartEngine.py
+++ b/BayesicFitting/source/StartEngine.py
@@ -124,6 +124,9 @@ class StartEngine( Engine ):
                     np0 = np1
 
                 allp = numpy.zeros( npar + np0 - onp, dtype=float )
+                nhyp = self.errdis.nphypar
+                if nhyp > 0 :
+                    allp[-nhyp:] = walker.allpars[-nhyp:]
 
             uval = self.rng.rand( len( fitIndex ) )
 
-- 
2.43.0


From ce76c1569c00dff2b067739da74a9e5e9a8c6a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:01 +0000
Subject: [PATCH 102/121] fix: RepeatingModel without components has no
 parameters

---
 BayesicFitting/source/RepeatingModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/RepeatingModel.py b/BayesicFitting/source/RepeatingModel.py
index a586e97..5fd1a60 100644
--- a/BayesicFitting/source/RepeatingModel.py
+++ b/BayesicFitting/source/RepeatingModel.py
@@ -150,7 +150,7 @@ class RepeatingModel( Model, Dynamic ):
         if ncomp < minComp or ( maxComp is not None and ncomp > maxComp ) :
             raise ValueError( "ncomp outside range of [min..max] range" )
 
-        np = ncomp * model.npchain - ( ncomp - 1 ) * Tools.length( same )
+        np = ncomp * model.npchain - max( ncomp - 1, 0 ) * Tools.length( same )
         self.isDyna = dynamic and ( maxComp is None or minComp < maxComp )
 
         super( RepeatingModel, self ).__init__( np, copy=copy, **kwargs )
-- 
2.43.0


From 56bbe5db21d31e3f816a77ec660354e15251d5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:02 +0000
Subject: [PATCH 103/121] fix: a compound model can be repeated

---
 BayesicFitting/source/RepeatingModel.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/BayesicFitting/source/RepeatingModel.py b/BayesicFitting/source/RepeatingModel.py
index 5fd1a60..747753a 100644
--- a/BayesicFitting/source/RepeatingModel.py
+++ b/BayesicFitting/source/RepeatingModel.py
@@ -199,11 +199,11 @@ class RepeatingModel( Model, Dynamic ):
         """
         self.same = same
         if same is None :
-            self.index = numpy.arange( self.model.npbase, dtype=int )
+            self.index = numpy.arange( self.model.npchain, dtype=int )
             return
 
         index = []
-        for k in range( self.model.npbase ) :
+        for k in range( self.model.npchain ) :
             if k not in self.same :
                 index += [k]
         self.index = numpy.asarray( index, dtype=int )
@@ -232,7 +232,7 @@ class RepeatingModel( Model, Dynamic ):
 
         location = self.npbase
 
-        dnp = self.deltaNpar if self.ncomp > 0 else self.model.npbase
+        dnp = self.deltaNpar if self.ncomp > 0 else self.model.npchain
         self.alterParameterSize( dnp, offset, location=location )
 
         head = self._head
@@ -272,7 +272,7 @@ class RepeatingModel( Model, Dynamic ):
             return False
 
         location = self.npbase
-        dnp = -( self.deltaNpar if self.ncomp > 1 else self.model.npbase )
+        dnp = -( self.deltaNpar if self.ncomp > 1 else self.model.npchain )
         self.alterParameterSize( dnp, offset, location=location )
 
         head = self._head
@@ -304,7 +304,7 @@ class RepeatingModel( Model, Dynamic ):
         if self.ncomp <= 1 :
             return param
 
-        off = self.model.npbase + offset
+        off = self.model.npchain + offset
         src = numpy.arange( self.ncomp ) * self.deltaNpar + off
         per = rng.permutation( self.ncomp )
         for i in self.index :
@@ -353,7 +353,7 @@ class RepeatingModel( Model, Dynamic ):
         if self.ncomp == 0 :
             return result
 
-        ke = self.model.npbase
+        ke = self.model.npchain
         pars = params[:ke].copy()
         k = 1
 
@@ -389,9 +389,9 @@ class RepeatingModel( Model, Dynamic ):
         if self.ncomp == 0 :
             return partial
 
-        ke = self.model.npbase
+        ke = self.model.npchain
         pars = params[:ke].copy()
-        full = numpy.arange( self.model.npbase, dtype=int )
+        full = numpy.arange( self.model.npchain, dtype=int )
         k = 1
         while True :
             partial[:,full] += self.model.partial( xdata, pars )
@@ -425,7 +425,7 @@ class RepeatingModel( Model, Dynamic ):
         if self.ncomp == 0 :
             return dfdx
 
-        ke = self.model.npbase
+        ke = self.model.npchain
         pars = params[:ke].copy()
         k = 1
         while True :
-- 
2.43.0


From 3bbfc36207d4905fb51479f1999b6633e7a38fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:02 +0000
Subject: [PATCH 104/121] fix: copy of a RepeatingModel keeps its limits and
 has its own model

---
 BayesicFitting/source/RepeatingModel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/RepeatingModel.py b/BayesicFitting/source/RepeatingModel.py
index 747753a..54b3f6f 100644
--- a/BayesicFitting/source/RepeatingModel.py
+++ b/BayesicFitting/source/RepeatingModel.py
@@ -165,7 +165,7 @@ class RepeatingModel( Model, Dynamic ):
         else :
             self.minComp = copy.minComp
             self.maxComp = copy.maxComp
-            growPrior = copy.growPrior.copy()
+            growPrior = copy.growPrior.copy() if self.isDyna else None
             same = copy.same
 
         self.setSame( same )
@@ -183,7 +183,8 @@ class RepeatingModel( Model, Dynamic ):
 
     def copy( self ):
         """ Copy method.  """
-        return RepeatingModel( self.ncomp, self.model, isDynamic=self.isDyna, copy=self )
+        return RepeatingModel( self.ncomp, self.model.copy(), same=self.same,
+                               dynamic=self.isDyna, copy=self )
 
     def changeNComp( self, dn ) :
         setatt( self, "ncomp", self.ncomp + dn )
-- 
2.43.0


From 8fc2f975ad1145aa1e4a85f9d5465de5baed02f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:02 +0000
Subject: [PATCH 105/121] fix: setPrior of a RepeatingModel passes on to the
 rest of the chain

---
 BayesicFitting/source/RepeatingModel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/RepeatingModel.py b/BayesicFitting/source/RepeatingModel.py
index 54b3f6f..f97e9cd 100644
--- a/BayesicFitting/source/RepeatingModel.py
+++ b/BayesicFitting/source/RepeatingModel.py
@@ -464,11 +464,13 @@ class RepeatingModel( Model, Dynamic ):
             When more Priors are set than fit inside the repeated model
 
         """
-        if kpar < self.model.npars :
+        if self._next is not None and kpar >= self.npbase :
+            self._next.setPrior( kpar - self.npbase, prior=prior, **kwargs )
+        elif kpar < self.model.npars :
             self.model.setPrior( kpar, prior=prior, **kwargs )
         else :
             raise IndexError( "RepeatingModel cannot have more priors than %s" %
-                               self.model.shortname() )
+                               self.model.shortName() )
 
     def baseHasPriors( self, isBound=True ) :
         return self.model.hasPriors( isBound=isBound )
-- 
2.43.0


From a376f6455b6864a96110609376aec68cff094f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:02 +0000
Subject: [PATCH 106/121] fix: parameter names of a RepeatingModel without
 shared parameters

---
 BayesicFitting/source/RepeatingModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/RepeatingModel.py b/BayesicFitting/source/RepeatingModel.py
index f97e9cd..24c92d9 100644
--- a/BayesicFitting/source/RepeatingModel.py
+++ b/BayesicFitting/source/RepeatingModel.py
@@ -503,7 +503,7 @@ class RepeatingModel( Model, Dynamic ):
         """
         i,k = self.par2model( k )
         return ( self.model.getParameterName( i ) + 
-                    ( "_%d" % k if i not in self.same else "" ) )
+                    ( "_%d" % k if i in self.index else "" ) )
 
     def baseParameterUnit( self, k ):
         """
-- 
2.43.0


From 4c3e474ca12326c772ce47c962ccc4d4e1b0363c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:12 +0000
Subject: [PATCH 107/121] fix: shrinking splines looks up the prior of its own
 parameter

---
 BayesicFitting/source/SplinesDynamicModel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/SplinesDynamicModel.py b/BayesicFitting/source/SplinesDynamicModel.py
index 8574247..9568704 100644
--- a/BayesicFitting/source/SplinesDynamicModel.py
+++ b/BayesicFitting/source/SplinesDynamicModel.py
@@ -299,10 +299,10 @@ class SplinesDynamicModel( Modifiable, Dynamic, BasicSplinesModel ):
         ## new value is the weighted average of the joined parameters
         value = 1.4 * ( mdlpar[kl] * r1 + mdlpar[kl+1] * r2 )
 
-        if self.getPrior( kl ).isOutOfLimits( value ) :
-            value = ( self.getPrior( kl ).stayInLimits( value ) + mdlpar[kl] + mdlpar[kl+1] ) / 3
+        if self.getPrior( kl - offset ).isOutOfLimits( value ) :
+            value = ( self.getPrior( kl - offset ).stayInLimits( value ) + mdlpar[kl] + mdlpar[kl+1] ) / 3
 
-        if self.getPrior( kl ).isOutOfLimits( value ) :
+        if self.getPrior( kl - offset ).isOutOfLimits( value ) :
             print( "New shrink value out of limit" )
             print( "Knots ", k, fmt( r1 ), fmt( r2 ), fmt( dis ), fmt( self.knots, max=None ) )
             print( "Pars  ", fmt( mdlpar, max=None ) )
-- 
2.43.0


From cb56b7e1f51925f14d8371f12fba637916a27435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:12 +0000
Subject: [PATCH 108/121] fix: the last knot of splines stays in place

---
 BayesicFitting/source/SplinesDynamicModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/SplinesDynamicModel.py b/BayesicFitting/source/SplinesDynamicModel.py
index 9568704..d122195 100644
--- a/BayesicFitting/source/SplinesDynamicModel.py
+++ b/BayesicFitting/source/SplinesDynamicModel.py
@@ -336,7 +336,7 @@ class SplinesDynamicModel( Modifiable, Dynamic, BasicSplinesModel ):
     def vary( self, rng=None, location=None ) :
 
         nrknots = len( self.knots )
-        if nrknots <= 2 or location == 0 or location == nrknots :
+        if nrknots <= 2 or location == 0 or location == nrknots - 1 :
             return False
 
         kk = location if location is not None else rng.randint( nrknots - 2 ) + 1
-- 
2.43.0


From 3d762efe16c9f3499d85778eb910cf3ba42c4947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:24 +0000
Subject: [PATCH 109/121] fix: shrinking a decision tree removes the parameters
 of the erased leafs

---
 BayesicFitting/source/DecisionTreeModel.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index 0016c91..8881153 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -826,15 +826,22 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
             return False
 
 
+        ## The leafs of the parent end just before location, when leaf is at the right
+        nleaf = parent.countLeaf()
+        atleft = leaf is parent.left
+
         ## Erase the branch by putting the leafs to None
         setatt( parent, "left", None )
         setatt( parent, "rite", None )
         setatt( parent, "split", None )
+        setatt( parent, "mask", None )
         setatt( parent, "dimension", None )
 
         cleaf, cbran = self.count()
-        dnp = cleaf - self.npars
-        location = min( location - dnp, self.npars )
+        dnp = 1 - nleaf
+
+        ## keep the last parameter when leaf is at the left; otherwise the first
+        location = location + nleaf - 1 if atleft else location + 1
         self.alterParameterSize( dnp, offset, location=location )
 
         head = self._head
-- 
2.43.0


From 6edb4c33777014c1426ce49b8da733ee533c1578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:25 +0000
Subject: [PATCH 110/121] fix: decision trees can grow and shrink inside a
 chain

---
 BayesicFitting/source/DecisionTreeModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index 8881153..6d21e6f 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -773,7 +773,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
 
         ## count leafs (parameters) and branches (components)
         cleaf, cbran = self.count()
-        dnp = cleaf - self.npars
+        dnp = cleaf - self.npbase
 
         ## duplicate the parameter
         value = self._head.parameters[offset+location]
-- 
2.43.0


From 4ece4917a8e895780f5fd7104cc6f810ffd37d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:25 +0000
Subject: [PATCH 111/121] fix: a branch of a decision tree has either a split
 or a mask

---
 BayesicFitting/source/DecisionTreeModel.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index 6d21e6f..7d68d3c 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -256,8 +256,10 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
 
         if itype == 0 :         ## float
             setatt( self, "split", split )
+            setatt( self, "mask", None )
         else :                  ## boolean (1) or categorial (>1)
             setatt( self, "mask", int( split * ( 0x1 << itype ) + 1 ) )
+            setatt( self, "split", None )
 
     def isLeaf( self ) :
         """
@@ -894,12 +896,14 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
                 else :                                  ## shift nearby
                     split = ( self.nsplit * parent.split + rng.rand() ) / ( self.nsplit + 1 )
                 setatt( parent, "split", split )
+                setatt( parent, "mask", None )
             elif itype == 1 :                           ## make new mask
                 if parent.mask is None :
                     mask = rng.randint( 2 ) + 1
                 else :                                  ## exchange bits
                     mask = 2 if parent.mask == 1 else 1
                 setatt( parent, "mask", mask )
+                setatt( parent, "split", None )
             else :
                 if parent.mask is None :                ## make new mask
                     mask = rng.randint( 0x1 << itype ) + 1
@@ -907,6 +911,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
                     kr = rng.randint( itype )
                     mask = parent.mask ^ ( 0x1 << kr )
                 setatt( parent, "mask", mask )
+                setatt( parent, "split", None )
 
         else :
             parent = self.findBranch( location )
-- 
2.43.0


From 41424a81f008b69fc17db3b909dfc3414b219cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:25 +0000
Subject: [PATCH 112/121] fix: partial of a decision tree selects parameters

---
 BayesicFitting/source/DecisionTreeModel.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index 7d68d3c..f8408c3 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -365,17 +365,16 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
 
         """
         ndata = Tools.length( xdata )
-        plist = numpy.arange( ndata, dtype=int ) if parlist is None else parlist
+        plist = numpy.arange( ndata, dtype=int )
 
         kpar = 0
         if self.isLeaf() :
-            return numpy.ones( (ndata,1), dtype=float )
-
-        part = numpy.zeros( (ndata, self.npbase), dtype=float )
-
-        part, kpar = self.recursivePartial( xdata, kpar, plist, part )
+            part = numpy.ones( (ndata,1), dtype=float )
+        else :
+            part = numpy.zeros( (ndata, self.npmax), dtype=float )
+            part, kpar = self.recursivePartial( xdata, kpar, plist, part )
 
-        return part
+        return part if parlist is None else part[:,parlist]
 
     def recursivePartial( self, xdata, kpar, plist, part ) :
         """ For internal use only """
-- 
2.43.0


From e6604d138456a58cbe5d5a77522f055314721cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:25 +0000
Subject: [PATCH 113/121] fix: a decision tree of one leaf returns a value for
 each point

---
 BayesicFitting/source/DecisionTreeModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index f8408c3..edb37eb 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -325,7 +325,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
 
         kpar = 0
         if self.isLeaf() :
-            return params[0]
+            return res + params[0]
 
         res, kpar = self.recursiveResult( xdata, params, kpar, plist, res )
 
-- 
2.43.0


From dcd699a9ed1a4acc123bb7e5e97933b4fc4178f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:25 +0000
Subject: [PATCH 114/121] fix: a decoded decision tree has the parameters of
 its leafs

---
 BayesicFitting/source/DecisionTreeModel.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index edb37eb..e5b92e0 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -210,7 +210,11 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
                 del( child.priors )
 
         if code is not None :
-            self = self.decode( code, kdim, split, 0 )
+            self.decode( code, kdim, split, 0 )
+            cleaf, cbran = self.count()
+            self.alterParameterSize( cleaf - 1, 0 )
+            setatt( self, "parameters", numpy.zeros( cleaf, dtype=float ) )
+            setatt( self, "ncomp", cbran )
 
 
     def copy( self ):
-- 
2.43.0


From f60c0fe5db0550ea3a3c7b2fa2f810da1f1c86d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:25 +0000
Subject: [PATCH 115/121] fix: copy of a decision tree stays dynamic or not

---
 BayesicFitting/source/DecisionTreeModel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index e5b92e0..45ed70c 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -154,7 +154,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
             itype = Tools.getItem( itypes, self.dimension )
 
             klen = Tools.length( kdim )
-            if not isinstance( split, list ) : split = [split]
+            split = split.copy() if isinstance( split, list ) else [split]
             for k in range(  Tools.length( split ), klen ) :
                 split += [Tools.getItem( split, k )]
 
@@ -220,7 +220,8 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
     def copy( self ):
         """ Copy method.  """
 
-        dtm = DecisionTreeModel( copy=self, modifiable=self.modifiable )
+        dtm = DecisionTreeModel( copy=self, modifiable=self.modifiable,
+                                 dynamic=self.dynamic )
 
         if self.dimension is not None :
             setatt( dtm, "dimension", self.dimension )
-- 
2.43.0


From 34369e6b945c92f764bbe31a615279bb31abcba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:00 +0000
Subject: [PATCH 116/121] fix: varying knots does not change the knots of the
 user

---
 BayesicFitting/source/SplinesDynamicModel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BayesicFitting/source/SplinesDynamicModel.py b/BayesicFitting/source/SplinesDynamicModel.py
index d122195..af384d1 100644
--- a/BayesicFitting/source/SplinesDynamicModel.py
+++ b/BayesicFitting/source/SplinesDynamicModel.py
@@ -138,6 +138,7 @@ class SplinesDynamicModel( Modifiable, Dynamic, BasicSplinesModel ):
         self.deltaNpar = 1
 
         if copy is None :
+            setatt( self, "knots", self.knots.copy() )
             minDistance *= ( self.knots[-1] - self.knots[0] ) / nrknots
             setatt( self, "minDistance", minDistance )
             self.setGrowPrior( growPrior=growPrior, min=minKnots, max=maxKnots,
-- 
2.43.0


From f07dba9871096f66f4ddd4352661b2b7554fe621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:40 +0000
Subject: [PATCH 117/121] fix: StructureEngine finds the modifiable model in
 the chain

---
 BayesicFitting/source/StructureEngine.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/StructureEngine.py b/BayesicFitting/source/StructureEngine.py
index 787b0e1..165cff5 100644
--- a/BayesicFitting/source/StructureEngine.py
+++ b/BayesicFitting/source/StructureEngine.py
@@ -100,7 +100,10 @@ class StructureEngine( Engine ):
         self.reportCall()
 
         t = 0
-        perm = self.rng.permutation( self.walkers[kw].problem.model.ncomp - 2 )     ## TBC
+        model = self.walkers[kw].problem.model
+        while model._next is not None and not isinstance( model, Modifiable ) :
+            model = model._next
+        perm = self.rng.permutation( model.ncomp - 2 )     ## TBC
         for p in perm :
             update = len( self.walkers ) if append else kw
             dt = self.executeOnce( kw, lowLhood, update, location=p+1 )
-- 
2.43.0


From e9399c5646bad31aa45bdb6546b0adb44438cf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:40 +0000
Subject: [PATCH 118/121] fix: starting walkers of a dynamic model keep the
 parameters that are not fitted

---
 BayesicFitting/source/StartEngine.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/BayesicFitting/source/StartEngine.py b/BayesicFitting/source/StartEngine.py
index de0f5f8..228fbb0 100644
--- a/BayesicFitting/source/StartEngine.py
+++ b/BayesicFitting/source/StartEngine.py
@@ -92,16 +92,18 @@ class StartEngine( Engine ):
         fitIndex = walker.fitIndex
         allp = walker.allpars.copy()
 
-        npar = len( allp )
-        onp = problem.npars
-
         maxtrials = self.maxtrials
         if hasattr( self.errdis, "constrain" ) and callable( self.errdis.constrain ) :
             maxtrials *= 100
 
+        if model.isDynamic() :
+            others = allp[model.npars:]             ## not from the model
+            model.parameters = allp[:model.npars].copy()
+
         ktry = 0
         while True :
 
+            model = problem.model
             if model.isDynamic() :
                 np0 = model.npars
                 off = 0
@@ -123,10 +125,7 @@ class StartEngine( Engine ):
                     npbase = model.npbase
                     np0 = np1
 
-                allp = numpy.zeros( npar + np0 - onp, dtype=float )
-                nhyp = self.errdis.nphypar
-                if nhyp > 0 :
-                    allp[-nhyp:] = walker.allpars[-nhyp:]
+                allp = numpy.append( problem.model.parameters, others )
 
             uval = self.rng.rand( len( fitIndex ) )
 
-- 
2.43.0


From 2d9f86897c5a9a5cf594b786e04f535432e3ab3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:47 +0000
Subject: [PATCH 119/121] fix: unknown values do not determine the splits of a
 decision tree

---
 BayesicFitting/source/DecisionTreeModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index 45ed70c..8462300 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -294,8 +294,8 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
         xd = Tools.getColumnData( xdata, self.dimension )[plist]        ## working data
 
         if self.split is not None :
-            mn = numpy.min( xd )
-            mx = numpy.max( xd )
+            mn = numpy.nanmin( xd )
+            mx = numpy.nanmax( xd )
 
             split = mn + ( mx - mn ) * self.split
             ### add NAN values to the smallest fraction
-- 
2.43.0


From 97995c7f6c8b58d40f7cd74658779d0310af267b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:38 +0000
Subject: [PATCH 120/121] fix: partials of a CombiModel with two relations on
 one parameter

---
 BayesicFitting/source/CombiModel.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/BayesicFitting/source/CombiModel.py b/BayesicFitting/source/CombiModel.py
index 1be64ec..53b99e8 100644
--- a/BayesicFitting/source/CombiModel.py
+++ b/BayesicFitting/source/CombiModel.py
@@ -308,25 +308,16 @@ class CombiModel( BracketModel ):
         params : array_like
             values for the parameters.
         parlist : array_like
-            Not in use
+            list of indices active parameters (or None for all)
 
         """
         exppar = self.expandParameters( params )
         fulldp = super( CombiModel, self ).basePartial( xdata, exppar )
-        partial = fulldp[:,self.select]
-        kk = 0
-        for i,k in enumerate( self.addindex ) :
-            if i % self.nrepeat == 0 :
-                kk = k
-            else :
-                partial[:,kk] += fulldp[:,k]
-        for i,k in enumerate( self.mulindex ) :
-            if i % self.nrepeat == 0 :
-                kk = k
-                partial[:,kk] *= self.mulvalue[i]
-            else :
-                partial[:,kk] += fulldp[:,k] * self.mulvalue[i]
-        return partial
+        fulldp[:,self.mulindex] *= self.mulvalue
+        partial = numpy.zeros( ( fulldp.shape[0], self.npbase ), dtype=float )
+        for i,k in enumerate( self.expandindex ) :
+            partial[:,k] += fulldp[:,i]
+        return partial if parlist is None else partial[:,parlist]
 
     def baseDerivative( self, xdata, params ) :
         """
-- 
2.43.0


From 7caa2a7319a48a8344f08534671d139d7e4787d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:38 +0000
Subject: [PATCH 121/121] fix: copy of a CombiModel has the same constituents
 and parameters

---
 BayesicFitting/source/CombiModel.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/BayesicFitting/source/CombiModel.py b/BayesicFitting/source/CombiModel.py
index 53b99e8..c1bdade 100644
--- a/BayesicFitting/source/CombiModel.py
+++ b/BayesicFitting/source/CombiModel.py
@@ -157,6 +157,8 @@ class CombiModel( BracketModel ):
         """
         mdl = model.copy()
         for k in range( 1, nrepeat ) :
+            if copy is not None :           # model is repeated already
+                break
             if oper == 'add' :
                 mdl.addModel( model.copy() )
             elif oper == 'mul' :
@@ -166,9 +168,9 @@ class CombiModel( BracketModel ):
 
         super( CombiModel, self ).__init__( mdl, **kwargs )
 
-        setatt( self, "nmp", model.npchain )
+        setatt( self, "nmp", mdl.npchain // nrepeat )
         setatt( self, "nrepeat", nrepeat )
-        setatt( self, "npcmax", model.npchain * nrepeat )
+        setatt( self, "npcmax", mdl.npchain )
 
         self.combine( addCombi=addCombi, mulCombi=mulCombi )
 
@@ -184,15 +186,12 @@ class CombiModel( BracketModel ):
         setatt( self, "npbase", self._npchain )
         setatt( self, "npmax", self.npbase )
         setatt( self, "parameters", self.parameters[self.select] )
+        if copy is not None :
+            setatt( self, "parameters", copy.parameters.copy() )
 
     def copy( self ):
         """ Copy method.  """
-        oper = "add"
-        if self.model._next and self.model._next._operation == 3 :
-            oper = "mul"
-
-        return CombiModel( self.model.isolateModel( 0 ), nrepeat=self.nrepeat,
-                    oper=oper, copy=self )
+        return CombiModel( self.model, nrepeat=self.nrepeat, copy=self )
 
     def combine( self, addCombi=None, mulCombi=None ) :
         """
-- 
2.43.0

