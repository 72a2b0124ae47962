From 1a120bc73bff69bb1e4066939f18103455f24011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 001/103] fix: changing the termination of a port discards the
 stored S-matrix

---
 src/pyRFtk/rfCircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index bb09306..85c480f 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -916,7 +916,7 @@ class rfCircuit(rfBase):
         
             idxA, idxB, eqn = self.T[port]
             self.M[eqn, idxB] = rho
-            self.invM = None
+            self.invM, self.S = None, None
         
         elif port in self.E:
             # this port was and external port
-- 
2.43.0


From 6a25d33da376e45e35f003f43353b4b06c231ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 002/103] fix: rfCircuit.getS reuses its last S-matrix only
 when no params are given

---
 src/pyRFtk/rfCircuit.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 85c480f..b546f33 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1276,9 +1276,12 @@ class rfCircuit(rfBase):
                            ('flag sNp set to False' if 'sNp' in flags else '(why?)'))
                     tLogger.debug(ident(f'not using sNp: {msg}'))
                     
-                if f != self.f or self.S is None or self.flags != flags:
+                if f != self.f or self.S is None or self.flags != flags or params:
                     
-                    # we need to recompute the S-matrix
+                    # we need to recompute the S-matrix (until this is completed
+                    # there is no valid solution)
+                    
+                    self.S, self.invM = None, None
                     
                     for blkID, blk in self.blocks.items():
                         _debug_ and tLogger.debug(ident(
-- 
2.43.0


From eba02db687a556c1658a0c84bdb37033898c2cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 003/103] fix: rfCircuit returns copies of its stored S-matrix

---
 src/pyRFtk/rfCircuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index b546f33..efdf1d1 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1077,7 +1077,7 @@ class rfCircuit(rfBase):
                     tLogger.debug(ident(f'  {sl}'))
                 
         _debug_ and tLogger.debug(ident(f'< [circuit.extS]',-1))
-        return self.S
+        return self.S.copy()
     
     #===========================================================================
     #
@@ -1315,7 +1315,7 @@ class rfCircuit(rfBase):
             if Zbase and Zbase != self.Zbase:
                 M = ConvertGeneral(Zbase,M,self.Zbase)
                 
-            return M
+            return np.array(M) # i.e. not the stored S-matrix itself
         # - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - 
     
         Ss = []
-- 
2.43.0


From 676f78e3c6038935a69de9c70fd120e3bf12f5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 004/103] fix: port positions follow the ports when rfCircuit
 applies Portnames

---
 src/pyRFtk/rfCircuit.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index efdf1d1..f5513a4 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -77,7 +77,7 @@ class rfCircuit(rfBase):
         sNp = kwargs.pop('sNp', None)
         
         # why Portnames ? ports is processed already by rfBase
-        self.Portnames = kwargs.pop('Portnames', [])
+        self.Portnames = list(kwargs.pop('Portnames', []))
         
         if kwargs and type_rfCircuit:
             msg = f'unprocessed kwargs: {", ".join([kw for kw in kwargs])}'
@@ -1023,11 +1023,13 @@ class rfCircuit(rfBase):
                                 f'{whoami(__package__)}: resolved free port name {p} not found '  
                                 f'in list of announced port names'
                             )
-                # use external port ordering
-                self.ports = self.Portnames
+                # use external port ordering (the positions follow their ports)
+                self.xpos = [self.xpos[self.ports.index(p)] 
+                             for p in self.Portnames]
+                self.ports = list(self.Portnames)
                 
             else:
-                self.Portnames = self.ports                   
+                self.Portnames = list(self.ports)
                             
             for p in self.ports:                
                 self.M = np.vstack((
@@ -1042,7 +1044,7 @@ class rfCircuit(rfBase):
         _debug_ and tLogger.debug(ident(f'Portnames= {self.Portnames}'))
         _debug_ and tLogger.debug(ident(f'ports=     {self.ports}'))
         
-        ports = self.Portnames
+        ports = self.ports
         self.idxEs = [ self.E[p] for p in ports]
         idxAs = [self.waves.index('->'+p) for p in ports] # <===== also need to change for different port order
         idxBs = [self.waves.index('<-'+p) for p in ports] # <===== also need to change for different port order
-- 
2.43.0


From df439a96225320583f9e5e1fb1bfe472d113d03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 005/103] fix: rfCircuit.deembed validates its ports before
 changing the circuit

---
 src/pyRFtk/rfCircuit.py | 45 +++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index f5513a4..2579fcc 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -440,6 +440,31 @@ class rfCircuit(rfBase):
                 )
             
         
+        # validate the port names before anything is changed
+        
+        free = list(self.ports)
+        for dp, ip in IntPorts:
+            
+            if ip in free:
+                raise ValueError(
+                    f'{whoami(__package__)}: (internal) port {ip} already exists '
+                )
+            free.append(ip)
+            
+            if dp not in free:
+                raise ValueError(
+                    f'{whoami(__package__)}: (external) port {dp} does not exist'
+                )
+            free.remove(dp)
+            
+        for dp, ep in ExtPorts:
+            for p in (dp, ep):
+                if p not in free:
+                    raise ValueError(
+                        f'{whoami(__package__)}: (external) port {p} does not exist'
+                    )
+                free.remove(p)
+        
         # add the columns for the internal ports
         
         self.M = np.hstack((
@@ -452,20 +477,10 @@ class rfCircuit(rfBase):
           
         for dp, ip in IntPorts:
             
-            if ip in self.ports:
-                raise ValueError(
-                    f'{whoami(__package__)}: (internal) port {ip} already exists '
-                )
-            
             # create the new internal port
             self.waves += [f'->{ip}', f'<-{ip}']
             self.ports.append(ip)
                         
-            if dp not in self.ports:
-                raise ValueError(
-                    f'{whoami(__package__)}: (external) port {dp} does not exist'
-                )
-                
             idxA = self.waves.index(f'->{dp}')
             idxB = self.waves.index(f'<-{dp}')
             
@@ -490,16 +505,6 @@ class rfCircuit(rfBase):
         
         for dp, ep in ExtPorts:
             
-            if dp not in self.ports:
-                raise ValueError(
-                    f'{whoami(__package__)}: (external) port {dp} does not exist'
-                )
-                
-            if ep not in self.ports:
-                raise ValueError(
-                    f'{whoami(__package__)}: (external) port {ep} does not exist'
-                )
-                
             # add two rows to self.M
             self.M = np.vstack((
                 self.M, 
-- 
2.43.0


From 6b332ad9aad4b53196431a64bf83bcdf85eb9af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 006/103] fix: rfCircuit.deembed keeps the port positions in
 step with the ports

---
 src/pyRFtk/rfCircuit.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 2579fcc..5f2f713 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -480,6 +480,7 @@ class rfCircuit(rfBase):
             # create the new internal port
             self.waves += [f'->{ip}', f'<-{ip}']
             self.ports.append(ip)
+            self.xpos.append(self.xpos[self.ports.index(dp)])
                         
             idxA = self.waves.index(f'->{dp}')
             idxB = self.waves.index(f'<-{dp}')
@@ -496,7 +497,9 @@ class rfCircuit(rfBase):
             self.M[-1, len(self.waves)-2] = -1
             
             # remove the deembeded port
-            self.ports.pop(self.ports.index(dp))
+            _kp = self.ports.index(dp)
+            self.ports.pop(_kp)
+            self.xpos.pop(_kp)
             
             # update the equation types
             self.eqns.append(f'Di {dp}')
@@ -527,8 +530,10 @@ class rfCircuit(rfBase):
             self.eqns.append(f'De {ep}')
             
             # now we need to remove the remaining ports of the port list
-            self.ports.pop(self.ports.index(dp))
-            self.ports.pop(self.ports.index(ep))
+            for _p in (dp, ep):
+                _kp = self.ports.index(_p)
+                self.ports.pop(_kp)
+                self.xpos.pop(_kp)
                         
         _debug_ and tLogger.debug(ident(
             f'< [circuit.deembed]', -1
-- 
2.43.0


From aaa45eaef21c324a211ca916ddbba2589931742d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 007/103] fix: rfCircuit.connect rejects used ports before
 changing the circuit

---
 src/pyRFtk/rfCircuit.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 5f2f713..2b76492 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -807,6 +807,17 @@ class rfCircuit(rfBase):
         oldports = [p for p in ports if ('->'+p) in self.waves]
         _debug_ and tLogger.debug(ident(f'old ports: {", ".join(oldports)}', 0))
         
+        # check the ports before anything is changed
+        if newports and not oldports:
+            raise ValueError(
+                f'{whoami(__package__)}: a new port needs at least one existing port'
+            )
+        for k, p in enumerate(oldports):
+            if p not in self.ports or p in oldports[:k]:
+                raise ValueError(
+                    f'{whoami(__package__)}: port {p} already in use'
+                )
+        
         for p in newports:
             self.waves.append('->'+p)
             self.waves.append('<-'+p) 
-- 
2.43.0


From 243da4b24ed9341ea8f2e9da7d1f97e4272dd2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:24 +0000
Subject: [PATCH 008/103] fix: rfCircuit.terminate reports unknown and used
 ports as such

---
 src/pyRFtk/rfCircuit.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 2b76492..621c6c5 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -909,7 +909,9 @@ class rfCircuit(rfBase):
             idxB = self.waves.index('<-'+port) 
         except ValueError as e:
             msg = e.message if hasattr(e,'message') else e
-            print(f'circuit.terminate: port not found: {msg}')
+            raise ValueError(
+                f'{whoami(__package__)}: port not found: {msg}'
+            ) from None
        
         if len(kwargs) > 1:
             raise ValueError(
@@ -981,7 +983,7 @@ class rfCircuit(rfBase):
                 self.ports.pop(_kp)
                 self.xpos.pop(_kp)
                 
-            except IndexError:
+            except ValueError:
                 raise ValueError(
                     f'{whoami(__package__)}: port {port} already in use'  
                 )
-- 
2.43.0


From b8466dab515f7db166b4e597a964469024661fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:24 +0000
Subject: [PATCH 009/103] fix: message of the number of ports mismatch in
 rfCircuit.addblock

---
 src/pyRFtk/rfCircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 621c6c5..33c7b8b 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -613,7 +613,7 @@ class rfCircuit(rfBase):
             if len(RFobj) != len(self.blocks[name]['object']):
                 raise ValueError(
                     f'{whoami(__package__)}: [update {name}] number of ports mismatch: ' 
-                    f'existing {len(self.blocks["object"])}, new {len(RFobj)}')
+                    f'existing {len(self.blocks[name]["object"])}, new {len(RFobj)}')
             
             #TODO: maybe some other checks are in order / necessary
             
-- 
2.43.0


From 36788be831c1028eb3de4208fbae7b7efc010dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:24 +0000
Subject: [PATCH 010/103] fix: rfCircuit.addblock leaves the port map of the
 caller as it is

---
 src/pyRFtk/rfCircuit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 33c7b8b..ab5e19e 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -340,6 +340,7 @@ class rfCircuit(rfBase):
         if hasattr(RFobj,'ports'):
             ports = {} if ports is None else ports
             if isinstance(ports, dict):
+                ports = ports.copy()
                 # remap port names (note: empty dict pulls the object's portnames)
                 oports = [ports.pop(_p, _p) for _p in RFobj.ports]
                 # possibly the user supplied non-existing port names
@@ -633,6 +634,7 @@ class rfCircuit(rfBase):
         if hasattr(RFobj,'ports'):
             ports = {} if ports is None else ports
             if isinstance(ports, dict):
+                ports = ports.copy()
                 # remap port names (note: empty dict pulls the object's portnames)
                 oports = [ports.pop(_p, _p) for _p in RFobj.ports]
                 # possibly the user supplied non-existing port names
-- 
2.43.0


From 7e781db0020cdeb6255edb547a73937364a245e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:24 +0000
Subject: [PATCH 011/103] fix: rfCircuit.addblock keeps its own copy of port
 lists, params and arrays

---
 src/pyRFtk/rfCircuit.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index ab5e19e..8c825c4 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -5,6 +5,7 @@ __updated__ = "2026-05-19 11:11:41"
 import numpy as np
 import matplotlib.pyplot as plt
 import warnings
+import copy
 
 from .ConvertGeneral import ConvertGeneral
 from .printMatrices import strM
@@ -360,7 +361,7 @@ class rfCircuit(rfBase):
                      'attribute. Therfore a dict port mapping cannot be used.')
                 
             elif isinstance(ports, list):
-                oports = ports
+                oports = ports.copy()
     
             elif isinstance(ports, str):
                 oports = [ports % k for k in range(1,N+1)]
@@ -603,7 +604,7 @@ class rfCircuit(rfBase):
             subblockobj.addblock(subblock, RFobj, ports=ports, params=params, **kwargs)
             self.blocks[name]['object'] = subblockobj
             if '.' not in subblock:
-                self.blocks[name]['params'] = params
+                self.blocks[name]['params'] = copy.deepcopy(params)
                 
             _debug_ and logident(
                 f'< [circuit.addblock] (replaced at a deeper level)', -1
@@ -618,7 +619,8 @@ class rfCircuit(rfBase):
             
             #TODO: maybe some other checks are in order / necessary
             
-            self.blocks[name]['object'] = RFobj
+            self.blocks[name]['object'] = (
+                RFobj if hasattr(RFobj, 'getS') else np.array(RFobj))
             
             _debug_ and tLogger.debug(ident(
                 f'< [circuit.addblock] (replaced at this level)', -1
@@ -653,7 +655,7 @@ class rfCircuit(rfBase):
                      'attribute. Therfore a dict port mapping cannot be used.')
                 
             elif isinstance(ports, list):
-                oports = ports
+                oports = ports.copy()
     
             elif isinstance(ports, str):
                 oports = [ports % k for k in range(1,N+1)]
@@ -684,10 +686,10 @@ class rfCircuit(rfBase):
         #     xpos += np.zeros(len(oports))
             
         self.blocks[name] = {
-            'params' : params,
+            'params' : copy.deepcopy(params),
             'ports'  : oports,
             'loc'    : self.M.shape,
-            'object' : RFobj,
+            'object' : RFobj if hasattr(RFobj, 'getS') else np.array(RFobj),
             'xpos'   : relpos # but this will not work for an np.array
         } 
    
-- 
2.43.0


From 14d30322b581b1f12bef8666f0ca0d5ae4ba5c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:42 +0000
Subject: [PATCH 012/103] fix: diagnostics of rfCircuit do not fail on arrays
 and nested settings

---
 src/pyRFtk/rfCircuit.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 8c825c4..26c0b9d 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -288,7 +288,7 @@ class rfCircuit(rfBase):
                 if hasattr(obj,'blocks'):
                     for itm in obj.blocks:
                         logident(itm)
-            logident(f'could not find {blk} in obj.blocks')
+            debug and logident(f'could not find {blk} in obj.blocks')
             obj = None
             
         debug and logident(f'<')
@@ -328,7 +328,7 @@ class rfCircuit(rfBase):
         _debug_ = logit['DEBUG'] 
         _debug_ and tLogger.debug(ident(
             f'> [circuit._substports] '
-            f'name= {name}, RFobj= {RFobj.Id}, '
+            f'name= {name}, RFobj= {getattr(RFobj, "Id", type(RFobj))}, '
             f'ports= {ports}' ,
             1
         ))
@@ -570,7 +570,7 @@ class rfCircuit(rfBase):
         _debug_ = logit['DEBUG'] 
         _debug_ and tLogger.debug(ident(
             f'> [circuit.addblock] '
-            f'name= {name}, RFobj= {RFobj.Id}, '
+            f'name= {name}, RFobj= {getattr(RFobj, "Id", type(RFobj))}, '
             f'ports= {ports}, params={params}, kwargs= {kwargs}',
             1
         ))
@@ -1250,10 +1250,7 @@ class rfCircuit(rfBase):
             except:
                 raise
             
-            attr = [kw for kw in val][0]
-            debug and logident(
-                f'{obj.Id}.{attr} -> {getattr(obj,attr)}'
-            )
+            debug and logident(f'{obj.Id} <- {val}')
                        
         if modified:
             self.invM = None # mark the circuit as not solved
-- 
2.43.0


From e8b580afa07a3426a8e0ca485e290eafd82f5232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:42 +0000
Subject: [PATCH 013/103] fix: rfCircuit.Solution finds the excitation of
 remapped ports

---
 src/pyRFtk/rfCircuit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 26c0b9d..eac2569 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1615,9 +1615,10 @@ class rfCircuit(rfBase):
                     # -> build the excitation to pass on to the Solution method.    
                     
                     Ek = {}
-                    for pobj in obj.ports:
+                    # the port names of the object may have been remapped
+                    for pobj, pblk in zip(obj.ports, blk['ports']):
                         try:
-                            Ek[pobj] = self.tSol[f'{blkID}.{pobj}'][2]
+                            Ek[pobj] = self.tSol[f'{blkID}.{pblk}'][2]
                             # print(f'[OK] {blkID}.{pobj} -> {Ek[pobj]:7.3f}')
                         except KeyError:
                             for k, s in self.tSol.items():
-- 
2.43.0


From a2ed56939497f786b607f3642d0db6d1c718c4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:42 +0000
Subject: [PATCH 014/103] fix: rfCircuit keyword sNp reads the given touchstone
 file

---
 src/pyRFtk/rfCircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index eac2569..419de1b 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -108,7 +108,7 @@ class rfCircuit(rfBase):
         self.S = None # set in rfBase to None
         
         if sNp:
-            self.sNp = rfObject(touchtone=sNp)
+            self.sNp = rfObject(touchstone=sNp)
         
         _debug_ and logident('<')
     
-- 
2.43.0


From 4934da12be08819885eefc8c13c481a0a3679352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:42 +0000
Subject: [PATCH 015/103] fix: rfCircuit.resolve_xpos uses the relative
 position of the block

---
 src/pyRFtk/rfCircuit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 419de1b..26972d0 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1657,9 +1657,10 @@ class rfCircuit(rfBase):
                 continue
             blkID, blkport = (_p.split('.',1) + [None])[:2]
             if blkport is not None:
-                obj = self.blocks[blkID]['object']
+                blk = self.blocks[blkID]
                 try:
-                    rXpos[_kp] = self.blocks[blkID]['xpos'][obj.ports.index(blkport)]
+                    rXpos[_kp] = (blk['xpos'] + 
+                                  blk['object'].xpos[blk['ports'].index(blkport)])
                 except ValueError:
                     raise ValueError(
                         f'rfCircuit.resolve_xpos: port {blkport} is not in block {blkID}'
-- 
2.43.0


From a91e72c453815cb696bda40622c17ea66e70cd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:42 +0000
Subject: [PATCH 016/103] fix: rfCircuit.set discards the stored S-matrix also
 when it fails

---
 src/pyRFtk/rfCircuit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 26972d0..19f09bc 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1232,7 +1232,9 @@ class rfCircuit(rfBase):
             # kw now points to an object
             block, rest = (kw.split('.',1) + [''])[:2]
             obj = self.blocks[block]['object']
-            # recursively call the block's set method
+            # recursively call the block's set method (it may change the block
+            # before it fails: mark the circuit as not solved)
+            self.S, self.invM = None, None
             try:
                 if rest:
                     # block is a rfCircuit itself
-- 
2.43.0


From 2d71e4bce031a619a310a07a2e8789df6adc87e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 017/103] fix: messages on unexpected array shapes

---
 src/pyRFtk/ConvertGeneral.py   | 2 +-
 src/pyRFtk/_check_3D_shape_.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/ConvertGeneral.py b/src/pyRFtk/ConvertGeneral.py
index 7c22530..6d1b847 100644
--- a/src/pyRFtk/ConvertGeneral.py
+++ b/src/pyRFtk/ConvertGeneral.py
@@ -81,7 +81,7 @@ def ConvertGeneral(Z2, S1, Z1, type1='V', type2='V'):
         elif len(Zd.shape) != 2 or Zd.shape[0] != nF or Zd.shape[1] != N:
             raise ValueError(
                 'convert_general: Z1 or Z2 shape not expected ... %r' % (
-                    np.array(Z).shape))
+                    np.array(Z).shape,))
                     
         
         if typ == 'V':
diff --git a/src/pyRFtk/_check_3D_shape_.py b/src/pyRFtk/_check_3D_shape_.py
index 14b1719..196f281 100644
--- a/src/pyRFtk/_check_3D_shape_.py
+++ b/src/pyRFtk/_check_3D_shape_.py
@@ -25,7 +25,7 @@ def _check_3D_shape_(M3):
         #    a square 2D list or array which is reshaped to (1, N, N), N = len(list)
         #    a list or aray of square 2D lists / arrays of the shape (M, N, N)
         #
-        raise ValueError('_check_3d_shape_: Unexpected shape: %r' % (M3.shape))
+        raise ValueError('_check_3d_shape_: Unexpected shape: %r' % (M3.shape,))
 
     return L, M3
     
-- 
2.43.0


From 1b413473501cab787069fe762674b5f367bf04fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 018/103] fix: ConvertGeneral returns all reflection
 coefficients of a vector

---
 src/pyRFtk/ConvertGeneral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/ConvertGeneral.py b/src/pyRFtk/ConvertGeneral.py
index 6d1b847..05bdfd6 100644
--- a/src/pyRFtk/ConvertGeneral.py
+++ b/src/pyRFtk/ConvertGeneral.py
@@ -132,7 +132,7 @@ def ConvertGeneral(Z2, S1, Z1, type1='V', type2='V'):
     
     elif L == 1:
         _debug_ and logident('< L==1')
-        return [S2[0,0,0]]
+        return S2[:,0,0]
     
     elif L == 2:
         _debug_ and logident('< L==2')
-- 
2.43.0


From 4eec769a160f18f83ac05a6a0bf3ab4ab8c2501b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 019/103] fix: S_from_Y accepts scalars, vectors and single
 matrices

---
 src/pyRFtk/S_from_Y.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/S_from_Y.py b/src/pyRFtk/S_from_Y.py
index e93a873..ab5c37e 100644
--- a/src/pyRFtk/S_from_Y.py
+++ b/src/pyRFtk/S_from_Y.py
@@ -17,7 +17,7 @@ def S_from_Y(Y, Zbase=50.):
     L, Y = _check_3D_shape_(Y)
     
     Y0 = np.eye(Y.shape[1])/Zbase
-    S = [ (Y0 - Yk) @ np.linalg.inv(Y0 + Yk)  for Yk in Y]
+    S = np.array([ (Y0 - Yk) @ np.linalg.inv(Y0 + Yk)  for Yk in Y])
     
     S = S[0,0,0] if L == 0 else S[:,0,0] if L == 1 else S[0,:,:] if L==2 else S 
     
-- 
2.43.0


From 47f2ec1c9d430a854766261513a1dcbad9facdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 020/103] fix: rfObject.setS validates its arguments before
 changing the object

---
 src/pyRFtk/rfObject.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 924e4ae..b5782a7 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -575,7 +575,7 @@ class rfObject():
         try:
             *_, S =  _check_3D_shape_(S)
         except ValueError:
-            raise ValueError(f'{whoami}: Unexpected shape: {S.shape}')
+            raise ValueError(f'{whoami}: Unexpected shape: {np.shape(S)}')
         
         f =  np.array(f) if hasattr(f, '__iter__') else np.array([f])
                     
@@ -584,21 +584,24 @@ class rfObject():
                 f'{whoami}: number of frequencies ({len(f)}) does match number of '
                 f'S-matrices supplied ({len(S)}.')
         
-        if Portnames == None:
-            if not self.ports:
+        ports = self.ports
+        if Portnames is None:
+            if not ports:
                 # no port names were defined yet: implicitely set to default names
-                self.ports = ['%02d' % k for k in range(S.shape[-1])]
+                ports = ['%02d' % k for k in range(S.shape[-1])]
         else:
             if self.ports:
                 raise ValueError(f'{whoami}: cannot redefine the portnames')
             else:
-                self.ports = Portnames
+                ports = list(Portnames)
                 
-        # self.ports is defined 
-        if len(self.ports) != S.shape[-1]:
+        # ports is defined 
+        if len(ports) != S.shape[-1]:
             raise ValueError(
-                f'{whoami}: number of object\'s Portnames ({len(Portnames)}) '
-                f'does not match shape of S ({len(S.shape[-1])})')
+                f'{whoami}: number of object\'s Portnames ({len(ports)}) '
+                f'does not match shape of S ({S.shape[-1]})')
+        
+        self.ports = ports
         
         if len(self.fs) == 0:
             # the object has no frequency entries yet ...
-- 
2.43.0


From e06a8e9bb85fb0e746f4a053849dfe4257fcf4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 021/103] fix: sorting of frequencies and ports of an rfObject

---
 src/pyRFtk/rfObject.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index b5782a7..5565f4b 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -422,8 +422,10 @@ class rfObject():
         
         self.ports = [self.ports[k] for k in idxs]
         self.Ss = self.Ss[:,:,idxs][:,idxs,:]
-        self.Zcs = self.Zcs[:,idxs]
-        self.Gms = self.Gms[:,idxs]
+        if len(self.Zcs):
+            self.Zcs = self.Zcs[:,idxs]
+        if len(self.Gms):
+            self.Gms = self.Gms[:,idxs]
     
     #===========================================================================
     #
@@ -437,8 +439,11 @@ class rfObject():
             self.fs = self.fs[idxs]
             self.Ss = self.Ss[idxs,:,:]
                         
-            self.Zcs = self.Zcs[idxs,:]
-            self.Gms = self.Gms[idxs,:]
+            # (empty unless read from a touchstone)
+            if len(self.Zcs):
+                self.Zcs = self.Zcs[idxs,:]
+            if len(self.Gms):
+                self.Gms = self.Gms[idxs,:]
             
             self.sorted = True
         
@@ -615,9 +620,7 @@ class rfObject():
         self.Ss = np.append(self.Ss, S, axis=0)
         
         # do not sort each time
-        self.sorted = self.sorted and (
-            (len(self.fs) == 1) or (self.fs[-2] < self.fs[-1])
-        )
+        self.sorted = bool(np.all(np.diff(self.fs) > 0))
         
     #===========================================================================
     #
-- 
2.43.0


From c083a5a8e7c7b5d2d0bbe557f22f65126f8a3c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 022/103] fix: rfObject.sortports keeps port positions and
 interpolation in step

---
 src/pyRFtk/rfObject.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 5565f4b..0f49030 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -420,7 +420,9 @@ class rfObject():
         else:
             idxs = np.array(self.ports).argsort()
         
+        self.interpOK = False
         self.ports = [self.ports[k] for k in idxs]
+        self.xpos = [self.xpos[k] for k in idxs]
         self.Ss = self.Ss[:,:,idxs][:,idxs,:]
         if len(self.Zcs):
             self.Zcs = self.Zcs[:,idxs]
-- 
2.43.0


From d6e8bea147f51ba266fb41dbe1555fa3df015436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 023/103] fix: rfObject interpolates the present table only

---
 src/pyRFtk/rfObject.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 0f49030..9ae1744 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -344,8 +344,10 @@ class rfObject():
     #  _ _ s e t i t e m _ _
     #
     def __setitem__(self, k, value):
+        self.interpOK = False
         self.fs[k] = value[0]
         self.Ss[k,:,:] = value[1]
+        self.sorted = bool(np.all(np.diff(self.fs) > 0))
     
     #===========================================================================
     #
@@ -520,6 +522,7 @@ class rfObject():
             newZbase: target reference impedance 
         """
         
+        self.interpOK = False
         self.Ss = ConvertGeneral(newZbase, self.Ss, self.Zbase, 'V', 'V')
         self.Zbase = newZbase
     
@@ -654,6 +657,8 @@ class rfObject():
     #
     def read_tsf(self, src, **kwargs):
         r = ReadTSF(src, **kwargs)
+        self.interpOK = False
+        self.sorted = bool(np.all(np.diff(r['fs']) > 0))
         self.fs = r['fs']   # * (FUNITS[r['funit'].upper()] 
                             #  / FUNITS[self.funit.upper()])
         self.Ss = r['Ss']
-- 
2.43.0


From c55781a503b4b0eec572ad03a83c3ced47368293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 024/103] fix: rfObject._interp_ accepts arrays of frequencies

---
 src/pyRFtk/rfObject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 9ae1744..a1c4623 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -490,7 +490,7 @@ class rfObject():
                             
             self.interpOK = True
             
-        if not fs:
+        if fs is None or not len(fs):
             return
         
         M, A = self.interpM(fs), self.interpA(fs)
-- 
2.43.0


From bc845ed78888ebdf3e244a54a5da2a7ca6d6767f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 025/103] fix: indexing and iterating an rfObject return copies
 of its table

---
 src/pyRFtk/rfObject.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index a1c4623..e25f992 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -330,14 +330,14 @@ class rfObject():
     #
     def __iter__(self):
         for k in range(len(self.fs)):
-            yield self.fs[k], self.Ss[k,:,:]
+            yield self.fs[k], self.Ss[k,:,:].copy()
     
     #===========================================================================
     #
     #  _ _ g e t i t e m _ _
     #
     def __getitem__(self, k):
-        return self.fs[k], self.Ss[k,:,:]
+        return self.fs[k], self.Ss[k,:,:].copy()
     
     #===========================================================================
     #
-- 
2.43.0


From 7270bd6e2fded7d6c4609200d7a2b32fdb54e343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 026/103] fix: rfObject keeps its own copy of the lists it is
 given

---
 src/pyRFtk/rfObject.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index e25f992..ee49903 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -149,6 +149,7 @@ class rfObject():
         _ports = kwargs.get('ports', [])
         if isinstance(_ports, str):
             _ports = _ports.split()
+        _ports = list(_ports)
         _N = len(_ports)
         
         # If the object was created from an argument (e.g. an S-matrix),
@@ -171,12 +172,12 @@ class rfObject():
         self.Zbase = kwargs.get('Zbase', rcparams['Zbase'])
         self.funit = kwargs.get('funit', rcparams['funit'])
         self.fscale = FUNITS[self.funit.upper()]
-        self.flim = kwargs.get('flim', [0.001, 1000.])
+        self.flim = list(kwargs.get('flim', [0.001, 1000.]))
         
         self.interp = kwargs.get('interp',rcparams['interp'])
-        self.interpkws = kwargs.get('interpkws',rcparams['interpkws'])
+        self.interpkws = dict(kwargs.get('interpkws',rcparams['interpkws']))
             
-        self.xpos = kwargs.get('xpos', [0.]*self.N)
+        self.xpos = list(kwargs.get('xpos', [0.]*self.N))
                 
         # initialize arrays and stuff
         if not hasattr(self,'fs'):
-- 
2.43.0


From 1c8b92f869434d41010fad18eb5676cce958fab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 027/103] fix: rfObject.maxV reports voltage magnitudes and
 their positions

---
 src/pyRFtk/rfObject.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index ee49903..08c8cc4 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -639,11 +639,17 @@ class rfObject():
         Zbase = self.Zbase if Zbase == None else Zbase
         Ea = [E[p] for p in self.ports]
         Eb = self.getS(f, Zbase=Zbase) @ Ea   # implicitly updates and solves the circuit
-        Vi = Ea + Eb
+        Vi = np.abs(Ea + Eb)
         maxVi = np.max(Vi)
         k = np.where(Vi == maxVi)[0][0]
         
-        return maxVi, ID+'.'+self.ports[k], ([0],[maxVi])
+        relpos = kwargs.get('xpos', 0.)
+        VSWs = {
+            ID: dict((p, ([relpos + x], [V])) 
+                     for p, x, V in zip(self.ports, self.xpos, Vi))
+        }
+        
+        return maxVi, ID+'.'+self.ports[k], VSWs
     
     #===========================================================================
     #
-- 
2.43.0


From 7c3bdbc69f2bc7d3c18e7739cb7164181cd8e9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 028/103] fix: rfObject.deembed leaves its argument as it is
 and changes the table only when it succeeds

---
 src/pyRFtk/rfObject.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 08c8cc4..8d93915 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -719,26 +719,32 @@ class rfObject():
         
         """
           
-        self.interpOK = False      
+        unknown = [p for p in ports if p not in self.ports]
+        if unknown:
+            raise ValueError(
+                f'pyRFtk2.rfObject.deembed: port(s) {",".join(unknown)}'
+                ' not found.')
+        
+        Ss = self.Ss.copy()
         
         for kp, port in enumerate(self.ports):
             if port in ports:
-                v = ports.pop(port, (0., self.Zbase))
+                v = ports[port]
                 if isinstance(v,tuple) and len(v) == 2:
                     L, Z = v
                     TRL = rfTRL(L=-L, Z0TL=Z, Zbase=self.Zbase)
-                elif isinstance(v, [int, float]):
+                elif isinstance(v, (int, float)):
                     L, Z = v, self.Zbase
                     TRL = rfTRL(L=-L, Z0TL=Z, Zbase=self.Zbase)
                 elif isinstance(v, dict):
-                    v.pop('Zbase') # we need it in self.Zbase
-                    TRL = rfTRL(**v, Zbase=self.Zbase)
+                    # we need it in self.Zbase
+                    TRL = rfTRL(**dict(v, Zbase=self.Zbase))
                 else:
                     raise ValueError(
                         f'pyRFtk2.rfObject.deembed: invalid deembed data for port {port}')
     
                 
-                for kS, (f, Sobj) in enumerate(zip(self.fs, self.Ss)):
+                for kS, (f, Sobj) in enumerate(zip(self.fs, Ss)):
                     Strl = TRL.getS(f)
                                         
                     qn = 1 - Strl[0,0] * Sobj[kp,kp]
@@ -770,11 +776,9 @@ class rfObject():
                         raise RuntimeError(
                             'pyRFtk2.rfObject.deembed: this should not happen !')
                 
-                    self.Ss[kS,:,:] = Sobj[:,:]
+                    Ss[kS,:,:] = Sobj[:,:]
 
-        if ports:
-            raise ValueError(
-                f'pyRFtk2.rfObject.deembed: port(s) {",".join([p for p in ports])}'
-                ' not found.')
+        self.interpOK = False      
+        self.Ss = Ss
 
 
-- 
2.43.0


From 9260c7ca986062d708706039ebf22e979cbd75c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 029/103] fix: an empty rfObject keeps its shape when pickled

---
 src/pyRFtk/rfObject.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 8d93915..356f75c 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -278,10 +278,11 @@ class rfObject():
                 self.__dict__[var] = value
         
         # get the arrays back
-        self.fs = np.array(d['fs'])
-        self.Ss = np.array(d['Ss'])
-        self.Zcs = np.array(d['Zcs'])
-        self.Gms = np.array(d['Gms'])
+        N = len(self.ports)
+        self.fs = np.array(d['fs'], dtype=float)
+        self.Ss = np.array(d['Ss'], dtype=complex).reshape(len(d['Ss']), N, N)
+        self.Zcs = np.array(d['Zcs'], dtype=complex).reshape(len(d['Zcs']), N)
+        self.Gms = np.array(d['Gms'], dtype=complex).reshape(len(d['Gms']), N)
 
     #===========================================================================
     #
-- 
2.43.0


From efe34a111b7a951b8d68b1b90366fde331727dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 030/103] fix: rfBase keeps its own copy of port names and
 positions

---
 src/pyRFtk/rfBase.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index e6367b0..876bbc5 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -90,7 +90,7 @@ class rfBase():
             # self.kwused.append('Ss')
             
             if 'ports' in kwargs:
-                self.ports = kwargs.pop('ports')
+                self.ports = list(kwargs.pop('ports'))
                 if len(self.ports) != self.Ss.shape[1]:
                     raise ValueError(
                         'pyRFtk2.rfBase: inconsitent "ports" and "S" given'
@@ -100,7 +100,7 @@ class rfBase():
                 self.ports = [f'{p_}' for p_ in range(1,self.Ss.shape[1]+1)]
             
         elif 'ports' in kwargs:
-            self.ports = kwargs.pop('ports')
+            self.ports = list(kwargs.pop('ports'))
             self.Ss = 1j*np.zeros((0, len(self.ports),len(self.ports)))
             # self.kwused.append('ports')
             
@@ -118,7 +118,7 @@ class rfBase():
                 f'Ss [{self.Ss.shape[0]}].'
             )
         
-        self.xpos = kwargs.pop('xpos', [0.] * len(self))
+        self.xpos = copy.copy(kwargs.pop('xpos', [0.] * len(self)))
         # self.kwused.append('xpos')
         
         self.f, self.S = None, None
-- 
2.43.0


From de1be080840dc808f0f5f0c240f8dbf49cdeb7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 031/103] fix: rfBase.get1S returns a copy of its table entry

---
 src/pyRFtk/rfBase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index 876bbc5..f36d775 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -256,12 +256,12 @@ class rfBase():
             )
         
         _debug_ and logident(f'self.Ss={self.Ss}')
-        S = self.Ss[k[0],:,:]
+        S = self.Ss[k[0],:,:].copy()
         _debug_ and logident(f'S[k]={S}')
         self.f, self.S = f, S
         
         _debug_ and logident('<')
-        return S
+        return S.copy()
     
     #===========================================================================
     #
-- 
2.43.0


From 3a084f67a3bf63e05b05244a2249dbdbd87653df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 032/103] fix: rfBase.getS returns an array for a sequence of
 frequencies

---
 src/pyRFtk/rfBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index f36d775..aeeb9fa 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -278,7 +278,7 @@ class rfBase():
             Ss = [self.get1S(fk) for fk in fs]
             
             Zbase = kwargs.pop('Zbase', self.Zbase)
-            R = ConvertGeneral(Zbase, Ss, self.Zbase) if Zbase != self.Zbase else Ss
+            R = ConvertGeneral(Zbase, Ss, self.Zbase) if Zbase != self.Zbase else np.array(Ss)
 
         else:
             R = self.getS([fs], **kwargs)[0]
-- 
2.43.0


From 9dcc849f193b39baa830a4b037c8137984b590b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 033/103] fix: rfBase.set changes nothing when one of the
 attributes is rejected

---
 src/pyRFtk/rfBase.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index aeeb9fa..99f3f29 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -215,23 +215,19 @@ class rfBase():
         """set attributes of the object if present
         """
         modified = False
-        for kw, val in kwargs.items():
-            try:
-                if kw in self.attrs:
-                    if hasattr(self, kw):
-                        modified |= getattr(self, kw) != val
-                        setattr(self, kw, val)
-                    else:
-                        raise ValueError(
-                            f'{whoami(__package__)}: {self.Id} has no attribute {kw}'  # @UndefinedVariable
-                        )
-                else:
-                    raise AttributeError()
-            except AttributeError:
+        for kw in kwargs: # check all before any is set
+            if kw not in self.attrs:
                 raise ValueError(
                         f'{whoami(__package__)}: attribute {kw} of {self.Id} '  # @UndefinedVariable
                         'cannot be set'
                     )
+            if not hasattr(self, kw):
+                raise ValueError(
+                    f'{whoami(__package__)}: {self.Id} has no attribute {kw}'  # @UndefinedVariable
+                )
+        for kw, val in kwargs.items():
+            modified |= getattr(self, kw) != val
+            setattr(self, kw, val)
         if modified:
             self.f, self.S = None, None
             
-- 
2.43.0


From 1006786233c0e01e0c0d0e4ee396248bf94a5ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 034/103] fix: rfBase copies do not depend on the arguments
 kept from the constructor

---
 src/pyRFtk/rfBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index 99f3f29..2fc9f41 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -194,7 +194,7 @@ class rfBase():
         return self.__deepcopy__(self)
     
     def __deepcopy__(self, memo=None):                       # @UnusedVariable
-        other = type(self)(*self.args, **self.kwargs)
+        other = type(self).__new__(type(self))
         for attr, val in self.__dict__.items():
             try:
                 # print(f'copying {attr}')
-- 
2.43.0


From dbcc80a942533caa6dfc5bbf0448870fe5a20310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 035/103] fix: rfBase.maxV reports (positions, values) profiles

---
 src/pyRFtk/rfBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index 2fc9f41..af3c3b7 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -482,7 +482,7 @@ class rfBase():
         Vmax = np.max(absV)
         where = self.ports[list(np.where(absV == Vmax)[0])[0]]
         VSWs = {
-            Id: dict( (p, Vp) for p, Vp in zip(self.ports, absV))
+            Id: dict( (p, ([x], [Vp])) for p, x, Vp in zip(self.ports, xpos, absV))
         }
         
         return Vmax, where, VSWs
-- 
2.43.0


From f32895bb7824db3ccd7ab0b02d6de4af2dbf208e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 036/103] fix: tsf2str applies the touchstone defaults to
 omitted options

---
 src/pyRFtk/rfBase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index af3c3b7..14d2a87 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -317,7 +317,7 @@ class rfBase():
             raise TypeError(f'{whoami(__package__)}: ' # @UndefinedVariable
                             f'Unknown kwargs {", ".join([kw for kw in kwargs])}') 
                     
-        elmfmt, mtype, Zref, fscale, funit = 'MA', 'S', 50.0, 1.0, 'MHZ'
+        elmfmt, mtype, Zref, fscale, funit = 'MA', 'S', 50.0, 1e9, 'GHZ'
         fscales = {'HZ': 1, 'KHZ':1e3, 'MHZ':1e6, 'GHZ':1e9}
         elstrs = {
             'RI': lambda z: '  %11.8f %11.8f' % (z.real, z.imag),
@@ -344,7 +344,6 @@ class rfBase():
             
             elif tk in ['RI', 'MA', 'DB']:
                 elmfmt = tk
-                elstr = elstrs[elmfmt]
             
             elif tk in ['S', 'Y', 'Z']:
                 mtype = tk
@@ -354,6 +353,7 @@ class rfBase():
                                  f'unknown touchstone format directive {tk}')
             last = tk
             
+        elstr = elstrs[elmfmt]
 
         eoln = '\n'
         
-- 
2.43.0


From cc4d2d03f4e8fcc7d97cd838f61c9ac2a3bd463e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 037/103] fix: tsf2str finds the smallest frequency step;
 compare integers by value

---
 src/pyRFtk/rfBase.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index 14d2a87..7b41cd8 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -392,7 +392,7 @@ class rfBase():
             # smallest frequency step as well as the maximun frequency
             
             if len(Fs) > 1:
-                for df in list(set(sorted(np.diff(Fs)))):
+                for df in sorted(set(np.diff(Fs))):
                     if df > 0.:
                         break
             else:
@@ -420,12 +420,12 @@ class rfBase():
                 for kc, Scol in enumerate(Srow):
                     s += elstr(Scol) + '  '
                     
-                    if (kc % CN is (CN-1)) and (kc is not len(self)-1):
-                        if kc is (CN-1):
+                    if (kc % CN == (CN-1)) and (kc != len(self)-1):
+                        if kc == (CN-1):
                             s += ' !    row %d' % (kr+1)
                         s += eoln+' '*freq_fmt_len
                 s += eoln
-                if kr is not len(self)-1:
+                if kr != len(self)-1:
                     s += ' '*freq_fmt_len
             s += eoln
         return s
-- 
2.43.0


From 3c1f5aa44e85e0617eaf7b88b70ffd22aaccf1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 038/103] fix: rfTRL.set changes nothing when one of the
 parameters is rejected

---
 src/pyRFtk/rfTRL.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index 1577ea2..5de9ee6 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -347,12 +347,13 @@ class rfTRL():
             raise ValueError(
                 f'{whoami(__package__)}: not possible because the transmission '  # @UndefinedVariable
                              'line parameters are not constant')
-        modified = False
-        for kw, val in kwargs.items():
+        for kw in kwargs:
             if not hasattr(self, kw):
                 raise ValueError(
                     f'{whoami(__package__)}: parameter {kw} not present')  # @UndefinedVariable
-                
+
+        modified = False
+        for kw, val in kwargs.items():
             modified |= getattr(self,kw) != val
             setattr(self, kw, val)
             self.kwargs[kw] = val
-- 
2.43.0


From a21f80e666910ce0a6b13bb244685a67cf662fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 039/103] fix: rfTRL keeps its own copy of the lists it is
 given

---
 src/pyRFtk/rfTRL.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index 5de9ee6..8bf4772 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -184,11 +184,12 @@ class rfTRL():
             self.kwargs = kwargs.copy()
             
         self.Id = kwargs.pop('Id','rfTRL_'+_newID())
-        self.ports = kwargs.pop('ports',['1','2'])
+        self.ports = list(kwargs.pop('ports',['1','2']))
         self.L = kwargs.pop('L', 0.)
         self.Zbase = kwargs.pop('Zbase', 50.)
         self.dx = kwargs.pop('dx', 72) # int -> 1/int-th of wavelength 
-        self.odeparams = kwargs.pop('odeparams',{'rtol':1E-12, 'atol':1E-12})
+        self.odeparams = dict(
+            kwargs.pop('odeparams',{'rtol':1E-12, 'atol':1E-12}))
         self.sNp = kwargs.pop('sNp', None)
         self.constant = True
         self.f = np.nan
@@ -197,17 +198,17 @@ class rfTRL():
         
         xpos = kwargs.pop('xpos', [0., self.L])
                         
-        if isinstance(xpos, list):
+        if isinstance(xpos, (float,int)):
+            self.xpos = [xpos, self.L + xpos]
+
+        else:
             if len(xpos) == 2:
-                self.xpos = xpos
+                self.xpos = list(xpos)
             else:
                 raise ValueError(
                     'rfTRL.__init__: port count mismatch'
                 )
         
-        elif isinstance(xpos, (float,int)):
-            self.xpos = [xpos, self.L + xpos]
-        
         #------------------------------------------------------------ touchstone
         # FIXME: do we need this here ??
         if self.sNp:
-- 
2.43.0


From 78225d5b1905cfbd975eb73b2a9260bbd824a561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 040/103] fix: rfTRL returns copies of its stored solutions

---
 src/pyRFtk/rfTRL.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index 8bf4772..cfd8073 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -509,7 +509,7 @@ class rfTRL():
             
         if I0 is None and V0 is None:
             
-            return self.solved[f]['S']
+            return np.array(self.solved[f]['S'])
             
         else:
             if I0 is None:
@@ -521,7 +521,7 @@ class rfTRL():
             UIS = self.solved[f]
             VI1s = np.tensordot(UIS['VI'], np.array([V0,I0]), axes=([1],[0]))
             
-            return self.solved[f]['xs'], VI1s[0], VI1s[1]
+            return np.array(self.solved[f]['xs']), VI1s[0], VI1s[1]
             
     #===========================================================================
     #
@@ -576,18 +576,20 @@ class rfTRL():
 
         As = np.array([E[p] for p in self.ports])
         Ahash = tuple(As.tolist())
+        Zbase = Zbase if Zbase else self.Zbase
         if f not in self.solved or (Ahash, Zbase) not in self.solved[f]['VISWs']:
         
-            Zbase = Zbase if Zbase else self.Zbase
             Bs = self.getS(f, Zbase) @ As
             Vs = As + Bs
             Is = -(As - Bs) / Zbase
             
             _, Vsw, Isw = self.solveVI(f, Vs[0], Is[0])
             
-            self.solved[f]['VISWs'][(Ahash, Zbase)] = (Vsw, Isw, E)
+            self.solved[f]['VISWs'][(Ahash, Zbase)] = (Vsw, Isw, dict(E))
             
-        return self.solved[f]['xs'], self.solved[f]['VISWs'][(Ahash, Zbase)]
+        Vsw, Isw, E = self.solved[f]['VISWs'][(Ahash, Zbase)]
+        return (np.array(self.solved[f]['xs']),
+                (np.array(Vsw), np.array(Isw), dict(E)))
     
     #===========================================================================
     #
-- 
2.43.0


From 0900d857fa72335e51f258cd04c82af768acdf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 041/103] fix: rfTRL steps along the line with the wavelength
 at the pulsation

---
 src/pyRFtk/rfTRL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index cfd8073..3eaa114 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -438,7 +438,7 @@ class rfTRL():
 
                     xs = [0.]
                     while xs[-1] < self.L:
-                        xs.append(xs[-1] + wavlen(f,xs[-1])/self.dx)
+                        xs.append(xs[-1] + wavlen(w,xs[-1])/self.dx)
                     
                     # may have overshot the end point so we rescale everything
                     xs = np.array(xs) * self.L/xs[-1]
-- 
2.43.0


From 8971ac75815fdaf3a2437dd03ef02d6acd39edf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 042/103] fix: TLresolver outer conductor resistance uses the
 outer surface resistance

---
 src/pyRFtk/resolveTLparams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index 056a559..fdb7a57 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -113,7 +113,7 @@ class TLresolver():
             return self.rTL(w,x) - self.rTLI(w,x)
         
         def _rTLO__qTLO_RsO_(w,x=0):                                         #21
-            return self.qTLO(w,x) * self.RsI(w,x)
+            return self.qTLO(w,x) * self.RsO(w,x)
         
         def _rTL__A_CTL_gTL_LTL_(w,x=0):
             wL = w * self.LTL(w,x)
-- 
2.43.0


From 5f2f123ab8430119e99d8d1f0105941e8480bdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 043/103] fix: TLresolver sigma derived from tand depends on
 the frequency

---
 src/pyRFtk/resolveTLparams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index fdb7a57..d22db2e 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -248,7 +248,7 @@ class TLresolver():
             ('gTL', ('rTL', 'LTL', 'CTL', 'A'), 1, _gTL__A_CTL_LTL_rTL_),    #53
             ('A', ('rTL', 'gTL', 'LTL', 'CTL'), 1, _A__CTL_gTL_LTL_rTL_),
             #-- ------------------------------------------------------------- --
-            ('sigma', ('tand', 'epsr'), 0., lambda w, x:                     #52
+            ('sigma', ('tand', 'epsr'), 1., lambda w, x:                     #52
                 w * self.epsr(w,x) * e0 * self.tand(w,x)
             ),
             #-- ------------------------------------------------------------- --
-- 
2.43.0


From 6d47ae535dedf86980a775aacd9fe274164380d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 044/103] fix: TLresolver attenuation constant from AdB

---
 src/pyRFtk/resolveTLparams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index d22db2e..10ced7d 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -240,7 +240,7 @@ class TLresolver():
             ),
             #-- ------------------------------------------------------------- --
             ('A', ('AdB',), 0., lambda w, x:                                 #39
-                1-10**(self.AdB(w,x)/20)
+                self.AdB(w,x) * np.log(10) / 20
             ),
             #-- ------------------------------------------------------------- --            
             # not approximations ...
-- 
2.43.0


From ffff1ff2b2da5ba33dc5eb2f68881f8264224edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 045/103] fix: TLresolver accepts constant functions

---
 src/pyRFtk/resolveTLparams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index 10ced7d..433932c 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -453,7 +453,7 @@ class TLresolver():
                     return  (lambda w, x: p(x)), ddw, ddx
                 else:
                     # constant function
-                    return p(), ddw, ddx
+                    return (lambda w, x: p()), ddw, ddx           # @UnusedVariable
                   
         # we (should) have a scalar numerical or a 1/2-D array like
         p = np.array(p)
-- 
2.43.0


From f7d0b7b09e6a999cb2156d44f6657830a2ddadb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 046/103] fix: TLresolver checks the consistency of parameters
 at the pulsation

---
 src/pyRFtk/resolveTLparams.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index 433932c..4fe9e6f 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -374,7 +374,8 @@ class TLresolver():
                         f0 = 1E6 if self.f0 in [np.nan,None] else self.f0
                         x0 = 0
                         tol = 1e-7
-                        got, new = getattr(self,kw)(f0,x0), fun(f0,x0)
+                        w0 = 2 * np.pi * f0
+                        got, new = getattr(self,kw)(w0,x0), fun(w0,x0)
                         if  np.abs(new - got) > tol * np.abs(new + got):
                             err = np.abs((new - got) / (new + got))
                             print(
-- 
2.43.0


From e10e6170635b0e2710729072c0a84dd3e1afaf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:34 +0000
Subject: [PATCH 047/103] fix: the size of an rfRLC does not depend on its last
 evaluation

---
 src/pyRFtk/rfRLC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfRLC.py b/src/pyRFtk/rfRLC.py
index 46d83db..5bff82b 100644
--- a/src/pyRFtk/rfRLC.py
+++ b/src/pyRFtk/rfRLC.py
@@ -147,7 +147,7 @@ class rfRLC():
     # _ _ l e n _ _
     #
     def __len__(self):
-        return len(self.S)
+        return len(self.ports)
     
     #===========================================================================
     #
-- 
2.43.0


From 4fe2c6df69cec9abf557378d1c68c4cb85818be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:34 +0000
Subject: [PATCH 048/103] fix: rfRLC.set changes nothing when one of the
 parameters is rejected

---
 src/pyRFtk/rfRLC.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfRLC.py b/src/pyRFtk/rfRLC.py
index 5bff82b..bdd90e2 100644
--- a/src/pyRFtk/rfRLC.py
+++ b/src/pyRFtk/rfRLC.py
@@ -158,11 +158,12 @@ class rfRLC():
         _debug_ = logit['DEBUG']
         _debug_ and logident('>', printargs=True)
 
+        for kw in kwargs:
+            if not hasattr(self, kw) or kw not in self.attrs:
+                raise ValueError(f'rfRLC.set: parameter {kw} not present')
+
         modified = False
         for kw, val in kwargs.items():
-            if not hasattr(self, kw) or kw not in self.attrs:
-                raise ValueError(f'rfTRL.set: parameter {kw} not present')
-        
             modified |= getattr(self, kw) != val
             setattr(self, kw, val)
             self.kwargs[kw] = val
-- 
2.43.0


From 48570dcf275715d3987723f0a6f3c3cd35a12423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:34 +0000
Subject: [PATCH 049/103] fix: rfRLC.getS leaves the params of the caller as
 they are

---
 src/pyRFtk/rfRLC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfRLC.py b/src/pyRFtk/rfRLC.py
index bdd90e2..c413376 100644
--- a/src/pyRFtk/rfRLC.py
+++ b/src/pyRFtk/rfRLC.py
@@ -185,7 +185,7 @@ class rfRLC():
             Zbase = self.Zbase
         
         for p in ['Rs','Ls','Cs','Rp','Lp','Cp']:
-            setattr(self, p, params.pop(p, getattr(self, p)))
+            setattr(self, p, params.get(p, getattr(self, p)))
             
         def get1S(f):
             self.f = f
-- 
2.43.0


From fa436701f2562418d70914125aeb5cbd735a25fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:34 +0000
Subject: [PATCH 050/103] fix: rfRLC at zero frequency does not use the removed
 np.complex

---
 src/pyRFtk/rfRLC.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfRLC.py b/src/pyRFtk/rfRLC.py
index c413376..971c56b 100644
--- a/src/pyRFtk/rfRLC.py
+++ b/src/pyRFtk/rfRLC.py
@@ -224,7 +224,7 @@ class rfRLC():
                         self.S = np.array(
                             [[ (self.Rs-Zbase)/(self.Rs + Zbase) , 0j ],
                              [               0j                  , -1 ]],
-                            dtype=np.complex)                   
+                            dtype=complex)                   
                 else:
                     if self.Lp == +np.inf:
                         # (s) -- OO --+-- (p)
@@ -238,12 +238,12 @@ class rfRLC():
                             rcp = +1
                         self.S = np.array(
                             [[1, 0j],[0j, rcp ]],
-                            dtype=np.complex)
+                            dtype=complex)
                     else:
                         # (s) -- OO --+-- (p)
                         #             |
                         #            Gnd
-                        self.S = np.array([[1, 0j], [0j, -1]], dtype=np.complex)
+                        self.S = np.array([[1, 0j], [0j, -1]], dtype=complex)
             return self.S
         
         Ss = []
-- 
2.43.0


From 429cf2bef3552d973dd241550e49473efa58e7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:34 +0000
Subject: [PATCH 051/103] fix: rfRLC.getS returns a stack of its own for a
 sequence of frequencies

---
 src/pyRFtk/rfRLC.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfRLC.py b/src/pyRFtk/rfRLC.py
index 971c56b..d870cc3 100644
--- a/src/pyRFtk/rfRLC.py
+++ b/src/pyRFtk/rfRLC.py
@@ -244,12 +244,13 @@ class rfRLC():
                         #             |
                         #            Gnd
                         self.S = np.array([[1, 0j], [0j, -1]], dtype=complex)
-            return self.S
+            return np.array(self.S)
         
         Ss = []
         if hasattr(fs,'__iter__'):
             for f in fs:
                 Ss.append(get1S(f))
+            Ss = np.array(Ss)
         else:
             Ss = get1S(fs)
             
-- 
2.43.0


From 552dfa6227bd39d240b30b0fc5e6da6da779f02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:34 +0000
Subject: [PATCH 052/103] fix: rfRLC keeps its own copy of port names and
 positions

---
 src/pyRFtk/rfRLC.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfRLC.py b/src/pyRFtk/rfRLC.py
index d870cc3..588930d 100644
--- a/src/pyRFtk/rfRLC.py
+++ b/src/pyRFtk/rfRLC.py
@@ -69,7 +69,7 @@ class rfRLC():
         
         self.Id = kwargs.pop('Id', f'{type(self).__name__}_{_newID()}')
         self.Zbase = kwargs.pop('Zbase', 50.)
-        self.ports = kwargs.pop('ports',['s','p'])
+        self.ports = list(kwargs.pop('ports',['s','p']))
         self.Rs = kwargs.pop('Rs', 0.)
         self.Ls = kwargs.pop('Ls', 0.)
         self.Cs = kwargs.pop('Cs', +np.inf)
@@ -78,7 +78,7 @@ class rfRLC():
         self.Cp = kwargs.pop('Cp', 0.)
         self.f = None
         self.S = np.array([[0,1],[1,0]], dtype=complex)
-        self.xpos = kwargs.pop('xpos',[0., 0.])
+        self.xpos = list(kwargs.pop('xpos',[0., 0.]))
         self.attrs = ['Rs', 'Ls', 'Cs', 'Rp', 'Lp', 'Cp']
     
     #===========================================================================
-- 
2.43.0


From 124cfbdb3c33c3188a7bad0e34afac577507db8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:34 +0000
Subject: [PATCH 053/103] fix: rfCoupler.get1S returns a copy of its last
 S-matrix

---
 src/pyRFtk/rfCoupler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfCoupler.py b/src/pyRFtk/rfCoupler.py
index 9825e5f..f19d9dd 100644
--- a/src/pyRFtk/rfCoupler.py
+++ b/src/pyRFtk/rfCoupler.py
@@ -168,7 +168,7 @@ class rfCoupler(rfBase):
              [B, 0., 0., A],
              [0., B, A, 0.]])
         
-        return self.S
+        return np.array(self.S)
 #===============================================================================
 #
 # _ _ m a i n _ _
-- 
2.43.0


From 2b81b7cc891b59f400515c34e774bffa7e92292d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:21 +0000
Subject: [PATCH 054/103] fix: rfRLC at zero frequency normalises its
 resistances to Zbase

---
 src/pyRFtk/rfRLC.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfRLC.py b/src/pyRFtk/rfRLC.py
index 588930d..a53e562 100644
--- a/src/pyRFtk/rfRLC.py
+++ b/src/pyRFtk/rfRLC.py
@@ -203,14 +203,14 @@ class rfRLC():
                              [  1 - zs ,  -1   ]])
             else:
                 if self.Cs == +np.inf:
-                    zs = self.Rs
+                    zs = self.Rs/Zbase
                     if self.Lp == +np.inf:
                         # (s) -- Rs --+-- (p)
                         #             |
                         #             Rp
                         #             |
                         #            Gnd
-                        yp = 1/self.Rp
+                        yp = Zbase/self.Rp
                         self.S = np.linalg.inv(
                                 [[     1   , 1 + yp],
                                  [-(1 + zs),   1   ]]
-- 
2.43.0


From 05c0d09bd459cf80c17048bbe7594885299228a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:21 +0000
Subject: [PATCH 055/103] fix: rfArcObj is a 1-port object

---
 src/pyRFtk/rfArcObj.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfArcObj.py b/src/pyRFtk/rfArcObj.py
index f9e0e89..f246591 100644
--- a/src/pyRFtk/rfArcObj.py
+++ b/src/pyRFtk/rfArcObj.py
@@ -50,7 +50,7 @@ class rfArcObj(rfBase):
             
         _debug_ and logident(f'{kwargs}')
         
-        super().__init__(**kwargs)
+        super().__init__(**dict(kwargs, ports=kwargs.get('ports', ['1'])))
         
         _debug_ and logident(f'{kwargs}')
         
@@ -83,5 +83,5 @@ class rfArcObj(rfBase):
         
         jwL = 2j * np.pi * f  * self.Larc
         Ss = (jwL - self.Zbase) / (jwL + self.Zbase)
-        self.f, self.S = f, Ss
-        return Ss
+        self.f, self.S = f, np.array([[Ss]])
+        return np.array(self.S)
-- 
2.43.0


From 73d04ea1b2986f4916bff3511476291f5244443e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:21 +0000
Subject: [PATCH 056/103] fix: rfGTL builds arc objects from the keys of their
 block

---
 src/pyRFtk/rfGTL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfGTL.py b/src/pyRFtk/rfGTL.py
index 36e5c34..3e28006 100644
--- a/src/pyRFtk/rfGTL.py
+++ b/src/pyRFtk/rfGTL.py
@@ -186,10 +186,10 @@ class rfGTL(rfCircuit):
                 # rfRLC object                       
                 # obsolete -- xposlist[blk] = [xpos, xpos]
                 RFobj = rfRLC(Zbase=self.Zbase,**tkwargs)
-            elif len(kwargs) == 1 and 'Larc' in kwargs:
+            elif 'Larc' in tkwargs:
                 # rfArcObject
                 # obsolete -- xposlist[blk] = [xpos, xpos]
-                RFobj = rfArcObj(kwargs['Larc'])
+                RFobj = rfArcObj(Zbase=self.Zbase,**tkwargs)
             else:
                 # rfTRL object
                 # obsolete -- xposlist[blk] = [xpos, xpos + tkwargs['L']]
-- 
2.43.0


From a5439333c9d62f02bb729a2ac6489322cccfaf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:21 +0000
Subject: [PATCH 057/103] fix: maxfun falls back on the sampled values

---
 src/pyRFtk/maxfun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/maxfun.py b/src/pyRFtk/maxfun.py
index cd57cc5..08b9ede 100644
--- a/src/pyRFtk/maxfun.py
+++ b/src/pyRFtk/maxfun.py
@@ -65,7 +65,7 @@ def maxfun(xs, ys):
         else:
             debug and tLogger.debug(ident('Warning result outside window'))
             xymax = 0, 0
-            for xm, ym in zip(xs[idx:idx+3],xs[idx:idx+3]):
+            for xm, ym in zip(xs[idx:idx+3],ys[idx:idx+3]):
                 if ym > xymax[1]:
                     xymax = xm, ym
             
-- 
2.43.0


From 976c2e5b49a4984999d8914a867e1d812cbeeb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:21 +0000
Subject: [PATCH 058/103] fix: ReadTSF debug output of comments

---
 src/pyRFtk/ReadTSF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/ReadTSF.py b/src/pyRFtk/ReadTSF.py
index 80b2731..9d42da5 100644
--- a/src/pyRFtk/ReadTSF.py
+++ b/src/pyRFtk/ReadTSF.py
@@ -49,7 +49,7 @@ def ReadTSF(src, **kwargs):
         tLogger.debug(ident(f'funit  = {Tfunit}'))
         tLogger.debug(ident(f'Tports = {Tports}'))
         
-        for k, cmt in Tcomments:
+        for k, cmt in enumerate(Tcomments):
             tLogger.debug(ident(f'Tcomments[{k:4d}] = "{cmt}"'))
     
     # process the source input 
-- 
2.43.0


From b6743b1134b97361dc12567480a1d1ea1b125355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:21 +0000
Subject: [PATCH 059/103] fix: ReadTSF reads short SHAPE and NUMBERING comments

---
 src/pyRFtk/ReadTSF.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/ReadTSF.py b/src/pyRFtk/ReadTSF.py
index 9d42da5..732e7ff 100644
--- a/src/pyRFtk/ReadTSF.py
+++ b/src/pyRFtk/ReadTSF.py
@@ -170,7 +170,7 @@ def ReadTSF(src, **kwargs):
         if len(tlist) > 0:
             shape = tuple([int(x) for x in tlist[0].split()[:2]])
             if len(shape) == 1:
-                shape.append(0)
+                shape = shape + (0,)
             
         tlist = re.findall('!PART (.+)',aline)
         if len(tlist) > 0:
@@ -181,8 +181,8 @@ def ReadTSF(src, **kwargs):
         tlist = re.findall('!NUMBERING (.+)',aline)
         if len(tlist) > 0:
             numbering = tuple([x.lower() for x in tlist[0].split()[:2]])
-            if len(shape) < 2:
-                shape = shape[0] # so numbering becomes type str rather than tuple
+            if len(numbering) < 2:
+                numbering = numbering[0] # so numbering becomes type str rather than tuple
             
         
     # detect the source of the touchstone
-- 
2.43.0


From 90ed3dd65d8161df5ca8c6e5e2ba30c19ad0e68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:21 +0000
Subject: [PATCH 060/103] fix: ReadTSF assumes 50 Ohm when the option line has
 no reference impedance

---
 src/pyRFtk/ReadTSF.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/ReadTSF.py b/src/pyRFtk/ReadTSF.py
index 732e7ff..84bda1f 100644
--- a/src/pyRFtk/ReadTSF.py
+++ b/src/pyRFtk/ReadTSF.py
@@ -378,7 +378,8 @@ def ReadTSF(src, **kwargs):
                 err = []
     
     else: # this should be the case when no Zcs or gammas are present
-        nZbase = len(Zlist)
+        Zbase = 50. if Zbase is None else Zbase
+        nZbase = len(Zbase) if hasattr(Zbase, '__iter__') else 1
                 
         
     # if the data type is Z or Y we need to convert to S
-- 
2.43.0


From 559cf55f219dd2b2e22327eb00eb326d4ff913f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:21 +0000
Subject: [PATCH 061/103] fix: WriteTSF frequency unit THz

---
 src/pyRFtk/WriteTSF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/WriteTSF.py b/src/pyRFtk/WriteTSF.py
index e03ba21..2c5fe64 100644
--- a/src/pyRFtk/WriteTSF.py
+++ b/src/pyRFtk/WriteTSF.py
@@ -45,7 +45,7 @@ def WriteTSF(object, path2tsf=None,
     s += '\n# %s \n\n' % tsf_format
     
     fscale = {'HZ': 1e0, 'KHZ':1e3,'MHZ':1e6, 'GHZ':1e9, 'THZ':1e12}[
-        re.findall('^.*?([KMG]?HZ).*$',tsf_format.upper())[0]]
+        re.findall('^.*?([KMGT]?HZ).*$',tsf_format.upper())[0]]
 
     try:
         zref = float(
-- 
2.43.0


From 3b6f05e6cd7ef86036a1362238bbc879bd16bc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:21 +0000
Subject: [PATCH 062/103] fix: WriteTSF reads the reference impedance in any
 case

---
 src/pyRFtk/WriteTSF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/WriteTSF.py b/src/pyRFtk/WriteTSF.py
index 2c5fe64..99f4d4f 100644
--- a/src/pyRFtk/WriteTSF.py
+++ b/src/pyRFtk/WriteTSF.py
@@ -51,7 +51,7 @@ def WriteTSF(object, path2tsf=None,
         zref = float(
                 re.findall(
                     r'^.*?R\s*([-+]?(?:\d*[\.])?\d+(?:[eE][-+]?\d+)?).*?$',
-                    tsf_format
+                    tsf_format.upper()
                 )[0]
                )
     except:
-- 
2.43.0


From 46aeda3156cd7271ec882d6684e985eaba93dc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:21 +0000
Subject: [PATCH 063/103] fix: WriteTSF compares integers by value

---
 src/pyRFtk/WriteTSF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/WriteTSF.py b/src/pyRFtk/WriteTSF.py
index 99f4d4f..7861eda 100644
--- a/src/pyRFtk/WriteTSF.py
+++ b/src/pyRFtk/WriteTSF.py
@@ -113,7 +113,7 @@ def WriteTSF(object, path2tsf=None,
                 else: # can only be MA
                     s += tnumfmt % (np.abs(dij),np.angle(dij,1))
                     
-                if (kc % 4 == 3) and (kc is not nports-1):
+                if (kc % 4 == 3) and (kc != nports-1):
                     if kc == 3:
                         s += ' !    row %d' % (kr+1)
                     s += '\n' + leadspaces
-- 
2.43.0


From f1b4e2acee739dff9b64b06f169a54c08849ef38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 064/103] fix: WriteTSF applies the touchstone defaults to
 omitted options

---
 src/pyRFtk/WriteTSF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/WriteTSF.py b/src/pyRFtk/WriteTSF.py
index 7861eda..93c4886 100644
--- a/src/pyRFtk/WriteTSF.py
+++ b/src/pyRFtk/WriteTSF.py
@@ -45,7 +45,7 @@ def WriteTSF(object, path2tsf=None,
     s += '\n# %s \n\n' % tsf_format
     
     fscale = {'HZ': 1e0, 'KHZ':1e3,'MHZ':1e6, 'GHZ':1e9, 'THZ':1e12}[
-        re.findall('^.*?([KMGT]?HZ).*$',tsf_format.upper())[0]]
+        (re.findall('^.*?([KMGT]?HZ).*$',tsf_format.upper()) or ['GHZ'])[0]]
 
     try:
         zref = float(
@@ -59,7 +59,7 @@ def WriteTSF(object, path2tsf=None,
         
     fmt = re.findall('(RI|MA|DB)',tsf_format.upper())
     if len(fmt) == 0:
-        fmt = 'DB'  # default
+        fmt = 'MA'  # touchstone default
     elif len(fmt) == 1:
         fmt = fmt[0]
     else:
-- 
2.43.0


From 15645d81601f216161090fe6f612a1dd58b9e113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 065/103] fix: WriteTSF rejects headers of parameters it does
 not write

---
 src/pyRFtk/WriteTSF.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyRFtk/WriteTSF.py b/src/pyRFtk/WriteTSF.py
index 93c4886..59465b0 100644
--- a/src/pyRFtk/WriteTSF.py
+++ b/src/pyRFtk/WriteTSF.py
@@ -57,6 +57,11 @@ def WriteTSF(object, path2tsf=None,
     except:
         zref = 50.0
         
+    if re.findall(r'\b[YZGH]\b', tsf_format.upper()):
+        raise ValueError(
+            'WriteTSF: only S parameters can be written'
+            )
+
     fmt = re.findall('(RI|MA|DB)',tsf_format.upper())
     if len(fmt) == 0:
         fmt = 'MA'  # touchstone default
-- 
2.43.0


From 93dd04842c5b6531512e5a31c927d5dbb0706a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 066/103] fix: 2-port coefficients are ordered alike by all
 touchstone readers and writers

---
 src/pyRFtk/ReadTSF.py  | 2 ++
 src/pyRFtk/WriteTSF.py | 7 ++++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/ReadTSF.py b/src/pyRFtk/ReadTSF.py
index 84bda1f..324ebb1 100644
--- a/src/pyRFtk/ReadTSF.py
+++ b/src/pyRFtk/ReadTSF.py
@@ -105,6 +105,8 @@ def ReadTSF(src, **kwargs):
     # reshape the collected coeffcients
     N = int(round(np.sqrt( len(Ss[0]) )))
     Ss = np.array(Ss).reshape((len(fs), N, N))
+    if N == 2: # touchstone convention for 2-ports
+        Ss = np.transpose(Ss, (0, 2, 1))
     
     # analyse the format string: 
     #  for unnormalized data (R missing) Zbase is set to None
diff --git a/src/pyRFtk/WriteTSF.py b/src/pyRFtk/WriteTSF.py
index 59465b0..459bab3 100644
--- a/src/pyRFtk/WriteTSF.py
+++ b/src/pyRFtk/WriteTSF.py
@@ -28,9 +28,8 @@ def WriteTSF(object, path2tsf=None,
         comments   : multi-line string
         
         
-        note (I believe) the touchstone specification 1.1 transposes the 
-             the coefficients for .s2p (2-ports): this is not implemented here
-             as it is (apparently) not done in ReadTSF. 
+        note the touchstone specification 1.1 transposes the coefficients for
+             .s2p (2-ports)
         
     """
 
@@ -105,6 +104,8 @@ def WriteTSF(object, path2tsf=None,
     for k,fk in enumerate(fs):
         s += (f'%{num_format[0]}' % (fk / fscale)) + ' '
         d = object.getS(fk, Zbase=zref)
+        if nports == 2: # touchstone convention for 2-ports
+            d = np.transpose(d)
         for kr in range(nports):
             for kc in range(nports):
                 dij = d[kr,kc]
-- 
2.43.0


From daa487c792561f5f2e92d6faca5839febdb88abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 067/103] fix: tsf2str writes the option line that it applies

---
 src/pyRFtk/rfBase.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index 7b41cd8..5d0480d 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -326,9 +326,10 @@ class rfBase():
                                                  np.angle(z,deg=1)),
         }
         
-        fmts = tfmt.upper().split()
-        if fmts[0] == '#':
-            fmts = fmts[1:]
+        fmts = tfmt.upper().replace('#', ' ').split()
+        if 'R' not in fmts:
+            fmts += ['R', f'{Zbase}']
+        tfmt = '# ' + ' '.join(fmts)
             
         last = ''
         for k, tk in enumerate(fmts):
-- 
2.43.0


From c8c440e44a082a9d9d8eb20d631a48962fbc4a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:59 +0000
Subject: [PATCH 068/103] fix: S_from_Y and tsf2str call functions rather than
 modules

---
 src/pyRFtk/S_from_Y.py | 2 +-
 src/pyRFtk/rfBase.py   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/S_from_Y.py b/src/pyRFtk/S_from_Y.py
index ab5c37e..66fd44e 100644
--- a/src/pyRFtk/S_from_Y.py
+++ b/src/pyRFtk/S_from_Y.py
@@ -1,7 +1,7 @@
 __updated__ = "2020-12-18 17:56:43"
 
 import numpy as np
-from . import _check_3D_shape_
+from ._check_3D_shape_ import _check_3D_shape_
 
 #===============================================================================
 #
diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index 5d0480d..7a6070e 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -19,7 +19,8 @@ from .config import logident, logit, _newID
 from .whoami import whoami
 from .printMatrices import strM
 from .ConvertGeneral import ConvertGeneral
-from . import Z_from_S, Y_from_S
+from .Z_from_S import Z_from_S
+from .Y_from_S import Y_from_S
 from ._check_3D_shape_ import _check_3D_shape_
         
 #===============================================================================
-- 
2.43.0


From 5ffbaae40f25b6dea0065c2e2caa2a6604b691e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:35 +0000
Subject: [PATCH 069/103] fix: rfCircuit.Solution returns its own dictionary,
 not the one kept in the circuit

---
 src/pyRFtk/rfCircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 19f09bc..6ceef92 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1642,7 +1642,7 @@ class rfCircuit(rfBase):
                         self.tSol[f'{blkID}.{tnode}'] = tval
                         
         _debug_ and tLogger.debug(ident('< [cicuit.Solution]',-1))
-        return self.tSol
+        return self.tSol.copy()
     
     #===========================================================================
     #
-- 
2.43.0


From 769b08c662f740285c88afc4a0ea7d2c7a4d9cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:35 +0000
Subject: [PATCH 070/103] fix: rfTRL.getS keeps its own copy of the last
 S-matrix

---
 src/pyRFtk/rfTRL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index 3eaa114..fbe2bf6 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -548,7 +548,7 @@ class rfTRL():
             else:
                 M = self.solveVI(f)
             
-            self.f, self.S = f, M 
+            self.f, self.S = f, np.array(M)
             
             if Zbase and Zbase != self.Zbase:
                 M = ConvertGeneral(Zbase,M,self.Zbase)
-- 
2.43.0


From ee069c315b8fdce7adb74ae1873672a44de68381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:01 +0000
Subject: [PATCH 071/103] fix: rfCircuit.set reports blocks that have no set
 method

---
 src/pyRFtk/rfCircuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 6ceef92..9579f49 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1246,13 +1246,13 @@ class rfCircuit(rfBase):
                     
             except AttributeError:
                 raise ValueError(
-                    f'{whoami(__package__)}: {obj.Id} has no \'set\' attribute'
+                    f'{whoami(__package__)}: {getattr(obj, "Id", block)} has no \'set\' attribute'
                 )
             
             except:
                 raise
             
-            debug and logident(f'{obj.Id} <- {val}')
+            debug and logident(f'{getattr(obj, "Id", block)} <- {val}')
                        
         if modified:
             self.invM = None # mark the circuit as not solved
-- 
2.43.0


From acb74b0c0dd4f4646afef1f0c41a72cb57402544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:01 +0000
Subject: [PATCH 072/103] fix: logident accepts any numeric log level

---
 src/pyRFtk/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/config.py b/src/pyRFtk/config.py
index d9cf782..f6bb3e3 100644
--- a/src/pyRFtk/config.py
+++ b/src/pyRFtk/config.py
@@ -130,7 +130,7 @@ def logident(message, printargs=False, stacklev=2):
         'WARNING'  : tLogger.warning,
         'ERROR'    : tLogger.error,
         'CRITICAL' : tLogger.critical
-    }[logging._levelToName[tLogger.getEffectiveLevel()]]
+    }.get(logging.getLevelName(tLogger.getEffectiveLevel()), tLogger.debug)
         
     curframe = inspect.currentframe()
     calframe = inspect.getouterframes(curframe, stacklev)
-- 
2.43.0


From 622a5cf335928c354d18771814b9a819dfc8f682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:01 +0000
Subject: [PATCH 073/103] fix: default comment of tsf2str is the Id, as
 documented

---
 src/pyRFtk/rfBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index 7a6070e..c27a6d0 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -311,7 +311,7 @@ class rfBase():
         """
         Zbase = kwargs.pop('Zbase', self.Zbase)
         tfmt = kwargs.pop('tfmt', f'# MHZ S MA R {Zbase}')
-        comments = kwargs.pop('comments', f'{self}')
+        comments = kwargs.pop('comments', self.Id)
         fs = kwargs.pop('fs', None)
         
         if kwargs:
-- 
2.43.0


From c9370e93a092cbd3cd9c51d314b03e7be52bae70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:48 +0000
Subject: [PATCH 074/103] fix: rfBase.getS applies the params passed by a
 circuit

---
 src/pyRFtk/rfBase.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index c27a6d0..300c25c 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -271,6 +271,8 @@ class rfBase():
         fs = self.fs if fs is None else fs
         _debug_ and logident(f'fs={fs}')
         
+        self.set(**kwargs.pop('params', {}))
+        
         if hasattr(fs,'__iter__'):
             Ss = [self.get1S(fk) for fk in fs]
             
-- 
2.43.0


From 9da3a967d58653b0349c9031bb156325f99adb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:48 +0000
Subject: [PATCH 075/103] fix: rfArcObj without inductance value is an open
 circuit

---
 src/pyRFtk/rfArcObj.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfArcObj.py b/src/pyRFtk/rfArcObj.py
index f246591..e6d1d02 100644
--- a/src/pyRFtk/rfArcObj.py
+++ b/src/pyRFtk/rfArcObj.py
@@ -81,7 +81,10 @@ class rfArcObj(rfBase):
     #
     def get1S(self, f):
         
-        jwL = 2j * np.pi * f  * self.Larc
-        Ss = (jwL - self.Zbase) / (jwL + self.Zbase)
+        if np.isinf(self.Larc): # open
+            Ss = 1. + 0j
+        else:
+            jwL = 2j * np.pi * f  * self.Larc
+            Ss = (jwL - self.Zbase) / (jwL + self.Zbase)
         self.f, self.S = f, np.array([[Ss]])
         return np.array(self.S)
-- 
2.43.0


From 8378d8bf1cca50e28e260e13a289b3061377cbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:20 +0000
Subject: [PATCH 076/103] fix: port positions of plain array blocks

---
 src/pyRFtk/rfCircuit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 9579f49..3169ac0 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -774,7 +774,8 @@ class rfCircuit(rfBase):
         except:
             kp = obj.ports.index(node)
             
-        return relpos + obj.xpos[kp]
+        # (a plain array has no port positions)
+        return relpos + (obj.xpos[kp] if hasattr(obj, 'xpos') else 0.)
                 
     #===========================================================================
     #
-- 
2.43.0


From ea7ab3e052b43836f6c1035e3a58a59c7190d470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:16 +0000
Subject: [PATCH 077/103] fix: position of a named node that has been connected
 further

---
 src/pyRFtk/rfCircuit.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 3169ac0..eb99457 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -483,6 +483,7 @@ class rfCircuit(rfBase):
             self.waves += [f'->{ip}', f'<-{ip}']
             self.ports.append(ip)
             self.xpos.append(self.xpos[self.ports.index(dp)])
+            self.nodes[ip] = {'x' : self.xpos[-1]}
                         
             idxA = self.waves.index(f'->{dp}')
             idxB = self.waves.index(f'<-{dp}')
@@ -772,6 +773,9 @@ class rfCircuit(rfBase):
         try:  
             kp =block['ports'].index(node)
         except:
+            if node in getattr(obj, 'nodes', {}) and node not in obj.ports:
+                # a named node that is not a port (any more)
+                return relpos + obj.nodes[node]['x']
             kp = obj.ports.index(node)
             
         # (a plain array has no port positions)
@@ -830,6 +834,7 @@ class rfCircuit(rfBase):
             # here we need to make assumptions on the position of the new port
             # -> we take the position of the first port in the list
             self.xpos.append(self.getpos(oldports[0]))
+            self.nodes[p] = {'x' : self.xpos[-1]}
             
         _debug_ and tLogger.debug(ident(f'self.ports = {", ".join(self.ports)}', 0))
         
-- 
2.43.0


From 0f911f060b25fbfad8355c1e01b8828a454f7fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:49 +0000
Subject: [PATCH 078/103] fix: maxfun keeps the maximum found so far

---
 src/pyRFtk/maxfun.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pyRFtk/maxfun.py b/src/pyRFtk/maxfun.py
index 08b9ede..2412fa5 100644
--- a/src/pyRFtk/maxfun.py
+++ b/src/pyRFtk/maxfun.py
@@ -64,7 +64,6 @@ def maxfun(xs, ys):
                 xymax = xy
         else:
             debug and tLogger.debug(ident('Warning result outside window'))
-            xymax = 0, 0
             for xm, ym in zip(xs[idx:idx+3],ys[idx:idx+3]):
                 if ym > xymax[1]:
                     xymax = xm, ym
-- 
2.43.0


From a3cd0267d05951c75fb6e708a808cab8cf23b5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:58 +0000
Subject: [PATCH 079/103] fix: uniform transmission line without propagation
 (zero frequency)

---
 src/pyRFtk/rfTRL.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index fbe2bf6..6dacc19 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -473,14 +473,23 @@ class rfTRL():
                 # so one does not have to solve the differential eqn
                 
                 gm = (self.rjwL(w,0) * self.gjwC(w,0)) ** 0.5
-                Zc = self.rjwL(w,0) / gm
                 
-                egmx = np.exp(gm * xs)
-                egmx1 = 1/egmx
+                if gm == 0:
+                    # no propagation (e.g. at zero frequency)
+                    U10 = np.ones(xs.shape, dtype=complex)
+                    I10 = self.gjwC(w,0) * xs
+                    U01 = self.rjwL(w,0) * xs
+                    
+                else:
+                    Zc = self.rjwL(w,0) / gm
+                    
+                    egmx = np.exp(gm * xs)
+                    egmx1 = 1/egmx
+                    
+                    U10 = 0.5 * (egmx + egmx1)
+                    I10 = 0.5 * (egmx - egmx1) / Zc
+                    U01 = Zc **2 * I10
                 
-                U10 = 0.5 * (egmx + egmx1)
-                I10 = 0.5 * (egmx - egmx1) / Zc
-                U01 = Zc **2 * I10
                 I01 = U10
                 
             else:
-- 
2.43.0


From d37bdb673a6f2b68e48d2bd1f42d408196989ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:13 +0000
Subject: [PATCH 080/103] fix: a line conductance that is given is not replaced
 by zero

---
 src/pyRFtk/resolveTLparams.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index 4fe9e6f..e747283 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -303,7 +303,7 @@ class TLresolver():
                                      'ddw': False, 'ddx': False}
                 self.order.append('rTL')
 
-            if not any(avail('sigma', 'tand', 'Am', 'AmdB')):
+            if not any(avail('gTL', 'sigma', 'tand', 'Am', 'AmdB')):
                 # have no attenuation and nothing to compute medium losses
                 # if any losses they must come from the conductors -> gTL = 0
                 setattr(self, 'gTL', lambda w, x: 0.)
@@ -314,7 +314,7 @@ class TLresolver():
         else:
             if not any(avail('Ac', 'AcdB', 'Rs','RsI','RsO',
                              'rTL','rTLO','rTLI', 'rho','rhoI','rhoO',
-                             'sigma', 'tand', 'Am', 'AmdB')):
+                             'gTL', 'sigma', 'tand', 'Am', 'AmdB')):
                 # we have an attenuation but nothing to compute either conductor
                 # or medium losses -> we assume there are no medium losses
                 setattr(self, 'gTL', lambda w, x: 0.)
-- 
2.43.0


From b723a2997e9636aeacc8223d78ce442cc1756e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:57 +0000
Subject: [PATCH 081/103] fix: attenuation constant of lines with heavy losses
 in conductor and medium

---
 src/pyRFtk/resolveTLparams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index e747283..c360a82 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -142,7 +142,7 @@ class TLresolver():
             gwC = self.gTL(w,x) / wC 
             rwL = self.rTL(w,x) / wL
             rwLgwC1 = (1 - rwL * gwC)
-            a2 = rwLgwC1 * (np.sqrt(1 +((rwL + gwC)/rwLgwC1)**2) - 1) / 2
+            a2 = (np.sqrt(rwLgwC1**2 + (rwL + gwC)**2) - rwLgwC1) / 2
             return np.sqrt(a2 * wL * wC)
         
         def _gamma__gjwC_rjwL_(w,x=0):
-- 
2.43.0


From 125813fdac795ffc7d4ace3f5004805c59c90f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:57 +0000
Subject: [PATCH 082/103] fix: hybrid coupler without length at zero frequency
 and with coupling 0 or 0 dB

---
 src/pyRFtk/rfCoupler.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pyRFtk/rfCoupler.py b/src/pyRFtk/rfCoupler.py
index f19d9dd..64c160b 100644
--- a/src/pyRFtk/rfCoupler.py
+++ b/src/pyRFtk/rfCoupler.py
@@ -85,15 +85,15 @@ class rfCoupler(rfBase):
                 f'{whoami(__package__)}: sNp not yet implemented' # @UndefinedVariable
             )
 
-        if self.kc:
-            if self.kcdB:
+        if self.kc is not None:
+            if self.kcdB is not None:
                 raise ValueError(
                     f'{whoami(__package__)}: only one of kc or kcdB can be given' # @UndefinedVariable
                 )
             else:
                 self.kcdB = 20 * np.log10(self.kc)
         else:
-            if self.kcdB:
+            if self.kcdB is not None:
                 self.kc = 10**(-np.abs(self.kcdB)/20)
             else:
                 self.kc = np.sqrt(0.5)
@@ -151,7 +151,8 @@ class rfCoupler(rfBase):
         _debug_ = logit['DEBUG']
         _debug_ and logident('>')
         
-        blc = 2*np.pi*f / c0 * (self.Lc if self.Lc else c0/(4*f))
+        # (without a length the coupler is quarter wave at any frequency)
+        blc = 2*np.pi*f / c0 * self.Lc if self.Lc else np.pi/2
         cosblc, sinblc = np.cos(blc), np.sin(blc)
     
         s1k2 = np.sqrt(1 - self.kc**2)
-- 
2.43.0


From 83cad4db65c5b9e39210776f41527273c1373087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:04 +0000
Subject: [PATCH 083/103] fix: permeability and permittivity from the velocity
 use the inverse relation

---
 src/pyRFtk/resolveTLparams.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index c360a82..8809d46 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -219,10 +219,10 @@ class TLresolver():
                 1 / np.sqrt(self.mur(w,x) * self.epsr(w,x))
             ),
             ('mur', ('vr', 'epsr'), 0., lambda w, x:                         #33
-                self.epsr(w, x) / self.vr(w, x)**2
+                1 / (self.epsr(w, x) * self.vr(w, x)**2)
             ),
             ('epsr', ('vr','mur'), 0., lambda w, x:                          #34
-                self.mur(w, x) / self.vr(w, x)**2
+                1 / (self.mur(w, x) * self.vr(w, x)**2)
             ),
             #-- ------------------------------------------------------------- --
             ('mur', ('etar', 'vr'), 0., lambda w, x:                         #35
-- 
2.43.0


From 202111155659fc94152dfe4a0619a3e562bb208a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:10 +0000
Subject: [PATCH 084/103] fix: permeability and permittivity of a coaxial line
 follow from its inductance and capacitance

---
 src/pyRFtk/resolveTLparams.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index 8809d46..e7a8dc3 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -239,6 +239,13 @@ class TLresolver():
                 self.Z0TL(w,x) / (eta0coax * np.log(self.OD(w,x)/self.ID(w,x)))
             ),
             #-- ------------------------------------------------------------- --
+            ('mur', ('LTL','ID','OD'), 0., lambda w, x:
+                2*np.pi * self.LTL(w,x) / (mu0 * np.log(self.OD(w,x)/self.ID(w,x)))
+            ),
+            ('epsr', ('CTL','ID','OD'), 0., lambda w, x:
+                self.CTL(w,x) * np.log(self.OD(w,x)/self.ID(w,x)) / (2*np.pi * e0)
+            ),
+            #-- ------------------------------------------------------------- --
             ('A', ('AdB',), 0., lambda w, x:                                 #39
                 self.AdB(w,x) * np.log(10) / 20
             ),
-- 
2.43.0


From 98d13299d99f14853a5b2477c2ea3b01ea8a2cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:10 +0000
Subject: [PATCH 085/103] fix: ReadTSF refers the matrices of every parameter
 type to the same default impedance and reports it

---
 src/pyRFtk/ReadTSF.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/pyRFtk/ReadTSF.py b/src/pyRFtk/ReadTSF.py
index 324ebb1..006e319 100644
--- a/src/pyRFtk/ReadTSF.py
+++ b/src/pyRFtk/ReadTSF.py
@@ -386,27 +386,25 @@ def ReadTSF(src, **kwargs):
         
     # if the data type is Z or Y we need to convert to S
                 
-    #FIXME: if TZbase was given then Zbase can be ignored
-    Zbase = 50. if datatype in 'ZY' and Zbase is None else Zbase
+    # the returned S-matrices are always on TZbase, which defaults to 50 Ohm
+    TZbase = TZbase if TZbase else 50.
     if datatype == 'Z':
-        # Ss = S_from_Z(Ss, Zbase if Zbase else TZbase)
-        Ss = S_from_Z(Ss,  TZbase if TZbase else Zbase)
+        Ss = S_from_Z(Ss, TZbase)
         
     elif datatype == 'Y':
-        # Ss = S_from_Y(Ss, Zbase if Zbase else TZbase)
-        Ss = S_from_Y(Ss, TZbase if TZbase else Zbase)
+        Ss = S_from_Y(Ss, TZbase)
         
     else: # datatype == 'S':
     
         if nZcs:  # prefer the Zcs data over the format line R data
-            Ss = ConvertGeneral(TZbase if TZbase else 50., Ss, Zcs, 'P', 'V')
+            Ss = ConvertGeneral(TZbase, Ss, Zcs, 'P', 'V')
                 
         elif Zbase is not None and (nZbase == 1 or nZbase == Ss.shape[1]):
-            Ss = ConvertGeneral(TZbase if TZbase else 50., Ss, Zbase, 'P', 'V')
+            Ss = ConvertGeneral(TZbase, Ss, Zbase, 'P', 'V')
             # print(f'have converted the data from {Zbase} in the touchstone  to {TZbase}')
     
         elif Zbase is None: # No Zcs and Zbase is None:
-            Ss = ConvertGeneral(TZbase if TZbase else 50., Ss, Zcs, 'P', 'V')
+            Ss = ConvertGeneral(TZbase, Ss, Zcs, 'P', 'V')
         
         else:
             logit['ERROR'] and tLogger.error(f'len(Zcs)[{len(Zcs)}] != N[{N}]')
-- 
2.43.0


From 91f93ec7c08d71dd4fc1d4d5e7a3c740ebfaa487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:40 +0000
Subject: [PATCH 086/103] fix: rfObject.read_tsf keeps the frequency unit and
 reference impedance of the object

---
 src/pyRFtk/rfObject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 356f75c..8772db8 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -664,7 +664,7 @@ class rfObject():
     #  r e a d _ t s f 
     #
     def read_tsf(self, src, **kwargs):
-        r = ReadTSF(src, **kwargs)
+        r = ReadTSF(src, **dict({'Zbase': self.Zbase, 'funit': self.funit}, **kwargs))
         self.interpOK = False
         self.sorted = bool(np.all(np.diff(r['fs']) > 0))
         self.fs = r['fs']   # * (FUNITS[r['funit'].upper()] 
-- 
2.43.0


From 95b6f99be071f422db2a842afc72e658d1b8f0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:24 +0000
Subject: [PATCH 087/103] fix: ReadTSF compares the port impedances of a 1-port
 with the option line

---
 src/pyRFtk/ReadTSF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/ReadTSF.py b/src/pyRFtk/ReadTSF.py
index 006e319..6dcc762 100644
--- a/src/pyRFtk/ReadTSF.py
+++ b/src/pyRFtk/ReadTSF.py
@@ -335,8 +335,8 @@ def ReadTSF(src, **kwargs):
                      ' Complex Port Impedances'
                 )
                 
-            Gms = [np.diag(Gmk) for Gmk in Gms]
-            Zcs = [np.diag(Zck) for Zck in Zcs]
+            Gms = np.array([np.diag(Gmk) for Gmk in Gms])
+            Zcs = np.array([np.diag(Zck) for Zck in Zcs])
         
     # get the frequencies and scale for the units
     fs = np.array(fs, dtype=float) * fscale(funit, Tfunit)
-- 
2.43.0


From 5e9e4592459c2a20e622f70c32ac6a14f0f68d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:20 +0000
Subject: [PATCH 088/103] fix: rfObject.getS of no frequencies at all returns
 no matrices

---
 src/pyRFtk/rfObject.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 8772db8..602b0b6 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -560,7 +560,8 @@ class rfObject():
                     tS if Zbase == self.Zbase
                     else ConvertGeneral(Zbase, tS, self.Zbase)
                 )
-            self.f, self.S = f, Ss[-1]
+            if Ss:
+                self.f, self.S = f, Ss[-1]
             
         else:
             tS = get1S(fs)
-- 
2.43.0


From f90c0f5b68677f09bac511c35f097b7927d3c694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:34 +0000
Subject: [PATCH 089/103] fix: rfGTL converts units without changing the
 variable a value comes from

---
 src/pyRFtk/rfGTL.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfGTL.py b/src/pyRFtk/rfGTL.py
index 3e28006..dc608a1 100644
--- a/src/pyRFtk/rfGTL.py
+++ b/src/pyRFtk/rfGTL.py
@@ -168,7 +168,8 @@ class rfGTL(rfCircuit):
                     if isinstance(tkwargs[kw], (list, tuple)):
                         tkwargs[kw] = [v * conv[kw] for v in tkwargs[kw]]
                     else:
-                        tkwargs[kw] *= conv[kw]
+                        # not in place: the value may be a variable's array
+                        tkwargs[kw] = tkwargs[kw] * conv[kw]
                         
             tkwargs = self._remap_(blk, tkwargs, [('L', 'length', False),
                                                   ('Z0TL', 'Z', False),
-- 
2.43.0


From 82b2b36502721b94b2a20ea04fa3b3d2581b1c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:34 +0000
Subject: [PATCH 090/103] fix: rfGTL converts the values and not the positions
 of position dependent parameters

---
 src/pyRFtk/rfGTL.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfGTL.py b/src/pyRFtk/rfGTL.py
index dc608a1..926d037 100644
--- a/src/pyRFtk/rfGTL.py
+++ b/src/pyRFtk/rfGTL.py
@@ -165,7 +165,11 @@ class rfGTL(rfCircuit):
             }
             for kw in conv:
                 if kw in tkwargs:
-                    if isinstance(tkwargs[kw], (list, tuple)):
+                    if np.ndim(tkwargs[kw]) == 2:
+                        # node positions [m] and the values there
+                        xs, vs = tkwargs[kw]
+                        tkwargs[kw] = [xs, [v * conv[kw] for v in vs]]
+                    elif isinstance(tkwargs[kw], (list, tuple)):
                         tkwargs[kw] = [v * conv[kw] for v in tkwargs[kw]]
                     else:
                         # not in place: the value may be a variable's array
-- 
2.43.0


From e837c548dcbb7da9ccb7f3bf1befa37eee0f6c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:34 +0000
Subject: [PATCH 091/103] fix: rfGTL evaluates a variable only when the ones it
 uses have their values

---
 src/pyRFtk/rfGTL.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/pyRFtk/rfGTL.py b/src/pyRFtk/rfGTL.py
index 926d037..163c469 100644
--- a/src/pyRFtk/rfGTL.py
+++ b/src/pyRFtk/rfGTL.py
@@ -89,17 +89,22 @@ class rfGTL(rfCircuit):
                 self.sNp.ports = self.Portnames
                 
         #----------------------------------------------------- resolve variables
-        found = True # prime the while loop
-        while found:
-            found = {}
-            for var, val in self.vars.items():
-                if isinstance(val, str):
-                    try:
-                        found[var] = eval(val, globals(), self.vars)
-                    except (NameError, SyntaxError, TypeError):
-                        pass # probably could not resolve yet
-            if found:
-                self.vars.update(found)    
+        # first use only variables that are resolved already and then also those
+        # that are (still) strings
+        for resolved in (True, False):
+            found = True # prime the while loop
+            while found:
+                found = {}
+                known = {var: val for var, val in self.vars.items()
+                         if not (resolved and isinstance(val, str))}
+                for var, val in self.vars.items():
+                    if isinstance(val, str):
+                        try:
+                            found[var] = eval(val, globals(), known)
+                        except (NameError, SyntaxError, TypeError):
+                            pass # probably could not resolve yet
+                if found:
+                    self.vars.update(found)    
                 
         positions = self.model[objkey].get('relpos',{})
         for p in positions:
-- 
2.43.0


From 8e6484c943904eccec91d192b5649441cd9730db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:18 +0000
Subject: [PATCH 092/103] fix: rfGTL accepts the position of a block that
 starts with a termination

---
 src/pyRFtk/rfGTL.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/pyRFtk/rfGTL.py b/src/pyRFtk/rfGTL.py
index 163c469..c66e7fa 100644
--- a/src/pyRFtk/rfGTL.py
+++ b/src/pyRFtk/rfGTL.py
@@ -184,11 +184,8 @@ class rfGTL(rfCircuit):
                                                   ('Z0TL', 'Z', False),
                                                   ('xpos', 'relpos', False)])
             
-            if 'xpos' in tkwargs:
-                xpos = tkwargs.pop('xpos')
-                positions[f'{blkPortnames[0]}'] = xpos
-            else:
-                xpos = -10
+            placed = 'xpos' in tkwargs
+            xpos = tkwargs.pop('xpos', -10)
                 
             plotkws = tkwargs.pop('plotkws',{}) # future feature
             
@@ -211,6 +208,12 @@ class rfGTL(rfCircuit):
                     raise
                 
             self.addblock(blk, RFobj, ports=blkPortnames, relpos=xpos)
+            if placed:
+                # position of the block's first port that is not terminated
+                for p, xp in zip(blkPortnames, RFobj.xpos):
+                    if p in portlist:
+                        positions[p] = xpos + xp - RFobj.xpos[0]
+                        break
             if terminated:
                 self.terminate(f'{blk}.{terminated[1]}', **terminated[0])
         
-- 
2.43.0


From fc7e27a2063ef77d50457df6bf769709a6167ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:38 +0000
Subject: [PATCH 093/103] fix: rfGTL.getS of no frequencies gives no matrices
 instead of an IndexError

---
 src/pyRFtk/rfGTL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfGTL.py b/src/pyRFtk/rfGTL.py
index c66e7fa..9cafa53 100644
--- a/src/pyRFtk/rfGTL.py
+++ b/src/pyRFtk/rfGTL.py
@@ -482,7 +482,7 @@ class rfGTL(rfCircuit):
         #FIXME: params is not consistently used across the various call signatures
         
         # this should force the correct update of the circuit object's self.E
-        if not hasattr(super(),'E') or not super().E:
+        if np.size(fs) and (not hasattr(super(),'E') or not super().E):
 
             self.getSgtl(fs[0] if hasattr(fs,'__iter__') else fs, 
                          Zbase=Zbase, params=params)
-- 
2.43.0


From 0a2d018366ca0caaf953b08e484b2bd1e81f775b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:16 +0000
Subject: [PATCH 094/103] fix: a line given by a table keeps its table when its
 reference impedance is changed

---
 src/pyRFtk/rfTRL.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index 6dacc19..536ab1c 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -554,6 +554,8 @@ class rfTRL():
             
             if self.sNp:
                 M = self.sNpinter(f)
+                if self.sNpdata['Zbase'] != self.Zbase: # (changed since it was read)
+                    M = ConvertGeneral(self.Zbase, M, self.sNpdata['Zbase'])
             else:
                 M = self.solveVI(f)
             
-- 
2.43.0


From 4447001d967840eb6b8872353ea6a961b09450e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:38 +0000
Subject: [PATCH 095/103] fix: rfObject.setS replaces the matrix of a frequency
 that is already in the table

---
 src/pyRFtk/rfObject.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 602b0b6..3bab52d 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -624,8 +624,10 @@ class rfObject():
             # we should never come here
             raise SystemError(f'{whoami}: Shape of S does not match ')
                 
-        self.fs = np.append(self.fs,[f])
-        self.Ss = np.append(self.Ss, S, axis=0)
+        # a frequency that is already in the table gets its new matrix
+        keep = [k for k, fk in enumerate(self.fs) if fk not in f]
+        self.fs = np.append(self.fs[keep], f)
+        self.Ss = np.append(self.Ss[keep], S, axis=0)
         
         # do not sort each time
         self.sorted = bool(np.all(np.diff(self.fs) > 0))
-- 
2.43.0


From 7febc7aaf64424aa53dc764ee8aea5b2ba9e5863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:40 +0000
Subject: [PATCH 096/103] fix: rfObject.setS keeps port impedances and
 propagation constants in step with the frequencies

---
 src/pyRFtk/rfObject.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 3bab52d..c966786 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -629,6 +629,13 @@ class rfObject():
         self.fs = np.append(self.fs[keep], f)
         self.Ss = np.append(self.Ss[keep], S, axis=0)
         
+        # (only when read from a touchstone: they are not known for the new entries)
+        unknown = np.nan * np.ones((len(f), len(self)), dtype=complex)
+        if len(self.Zcs):
+            self.Zcs = np.append(self.Zcs[keep], unknown, axis=0)
+        if len(self.Gms):
+            self.Gms = np.append(self.Gms[keep], unknown, axis=0)
+        
         # do not sort each time
         self.sorted = bool(np.all(np.diff(self.fs) > 0))
         
-- 
2.43.0


From 1b6170fad494ab10399aa8015fe4230f38439d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:43 +0000
Subject: [PATCH 097/103] fix: rfObject entry assignment changed the frequency
 when the matrix was rejected

---
 src/pyRFtk/rfObject.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index c966786..82c7a8b 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -346,9 +346,11 @@ class rfObject():
     #  _ _ s e t i t e m _ _
     #
     def __setitem__(self, k, value):
+        fs, Ss = self.fs.copy(), self.Ss.copy()
+        fs[k] = value[0]
+        Ss[k,:,:] = value[1]
+        self.fs, self.Ss = fs, Ss # nothing is changed if the value is rejected
         self.interpOK = False
-        self.fs[k] = value[0]
-        self.Ss[k,:,:] = value[1]
         self.sorted = bool(np.all(np.diff(self.fs) > 0))
     
     #===========================================================================
-- 
2.43.0


From 0151e20e2677a7317b6f1dc07b3976c54ec60a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:15 +0000
Subject: [PATCH 098/103] fix: rfCircuit.terminate removed the port before a
 value that is not a number was rejected

---
 src/pyRFtk/rfCircuit.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index eb99457..1472ac1 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -962,8 +962,8 @@ class rfCircuit(rfBase):
                         tLogger.debug(ident(f'self.M[{k}] -> {mp}'))
                         
             eqn = self.E[port]
-            self.M[eqn, idxA] = -1.
             self.M[eqn, idxB] = rho
+            self.M[eqn, idxA] = -1.
             self.eqns[eqn] = f'T: {port}'
             self.T[port] = idxA, idxB, eqn
             self.E.pop(port)
@@ -987,6 +987,11 @@ class rfCircuit(rfBase):
         else:
             # this port was not terminated yet
             _debug_ and tLogger.debug(ident(f'port not yet used'))
+            # the row to be added to self.M
+            Mrow = np.zeros((1, self.M.shape[1]), dtype=complex)
+            Mrow[-1,idxA] = -1
+            Mrow[-1,idxB] = rho # (fails when it is not a number)
+            
             # update the port list
             try:
                 _kp = self.ports.index(port)
@@ -999,12 +1004,7 @@ class rfCircuit(rfBase):
                 )
         
             # add a row to self.M
-            self.M = np.vstack((
-                self.M, 
-                np.zeros((1, self.M.shape[1]), dtype=complex)
-            ))
-            self.M[-1,idxA] = -1
-            self.M[-1,idxB] = rho
+            self.M = np.vstack((self.M, Mrow))
             
             # update the equations
             self.eqns.append(f'T: {port}')
-- 
2.43.0


From 062a685e66044ab225c749a4f45e71c44569bd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:38 +0000
Subject: [PATCH 099/103] fix: rfCircuit.addblock added the block before a
 position that is not a number was rejected

---
 src/pyRFtk/rfCircuit.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 1472ac1..1b6fed1 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -686,6 +686,12 @@ class rfCircuit(rfBase):
         # else:
         #     xpos += np.zeros(len(oports))
             
+        # (fails when relpos is not a number)
+        if hasattr(RFobj,'xpos'):
+            xpos = [relpos + x for p, x in zip(oports, RFobj.xpos)]
+        else:
+            xpos = [relpos for p in oports]
+            
         self.blocks[name] = {
             'params' : copy.deepcopy(params),
             'ports'  : oports,
@@ -733,12 +739,7 @@ class rfCircuit(rfBase):
         
         # update the self.xpos
         # self.xpos = []
-        if hasattr(RFobj,'xpos'):
-            for p, x in zip(oports, RFobj.xpos):
-                self.xpos.append(relpos + x)
-        else:
-            for p in oports:
-                self.xpos.append(relpos)
+        self.xpos += xpos
                 
         _debug_ and tLogger.debug(ident(
             f'< [circuit.addblock] (inserted a new block)', -1
-- 
2.43.0


From 6561b05bb9250992c7750b0f5e5f32d255c6a787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:07 +0000
Subject: [PATCH 100/103] fix: rfObject.setS filled the table before a
 frequency that is not a number was rejected

---
 src/pyRFtk/rfObject.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 82c7a8b..ce46578 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -616,6 +616,13 @@ class rfObject():
                 f'{whoami}: number of object\'s Portnames ({len(ports)}) '
                 f'does not match shape of S ({S.shape[-1]})')
         
+        # a frequency that is already in the table gets its new matrix
+        keep = [k for k, fk in enumerate(self.fs) if fk not in f]
+        fs = np.append(self.fs[keep], f)
+        
+        # do not sort each time (fails when a frequency is not a number)
+        isorted = bool(np.all(np.diff(fs) > 0))
+        
         self.ports = ports
         
         if len(self.fs) == 0:
@@ -626,9 +633,7 @@ class rfObject():
             # we should never come here
             raise SystemError(f'{whoami}: Shape of S does not match ')
                 
-        # a frequency that is already in the table gets its new matrix
-        keep = [k for k, fk in enumerate(self.fs) if fk not in f]
-        self.fs = np.append(self.fs[keep], f)
+        self.fs = fs
         self.Ss = np.append(self.Ss[keep], S, axis=0)
         
         # (only when read from a touchstone: they are not known for the new entries)
@@ -638,8 +643,7 @@ class rfObject():
         if len(self.Gms):
             self.Gms = np.append(self.Gms[keep], unknown, axis=0)
         
-        # do not sort each time
-        self.sorted = bool(np.all(np.diff(self.fs) > 0))
+        self.sorted = isorted
         
     #===========================================================================
     #
-- 
2.43.0


From 7fc063dc992b65513fd0a1a322ccd90193e57213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:40 +0000
Subject: [PATCH 101/103] fix: printing a circuit that holds a plain array
 block

---
 src/pyRFtk/rfCircuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 1b6fed1..88a81e2 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -198,8 +198,8 @@ class rfCircuit(rfBase):
                         s +=  f'|   {blkID}: \n'
                         #fixme: embellish this type of block
                         mx = max([len(_p) for _p in blk['ports']])
-                        for _p, _x in zip(blk['ports'], blk['xpos']):
-                            s += f'|   |   {_p:{mx+1}s} @ {_x:7.4f}m\n'
+                        for _p in blk['ports']:
+                            s += f'|   |   {_p:{mx+1}s} @ {blk["xpos"]:7.4f}m\n'
                         s += f'|   |\n'
 
                         s += f'+   fixed numpy array like at {thisid}\n'
-- 
2.43.0


From 716a0475a0642d6e80d2bc2ea751aea1519c315f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:26 +0000
Subject: [PATCH 102/103] fix: an error while a block takes its parameters is
 not ignored by rfCircuit.getS

---
 src/pyRFtk/rfCircuit.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 88a81e2..2426a6c 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1327,10 +1327,8 @@ class rfCircuit(rfBase):
                         N = len(blk['ports'])
                         
                         if hasattr(blk['object'], 'getS'):
-                            try:
+                            if hasattr(blk['object'], 'set'):
                                 blk['object'].set(**params.get(blkID,{}))
-                            except AttributeError:
-                                pass
                             # recursively get the lower level S-matrices
                             S = blk['object'].getS(f, Zbase=self.Zbase, 
                                                    params=blk['params'], 
-- 
2.43.0


From 3f7638ea47d33a41197eb22fb56d18d667585c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:26 +0000
Subject: [PATCH 103/103] fix: an error while the blocks of a block are listed
 is not ignored by rfCircuit.listBlocks

---
 src/pyRFtk/rfCircuit.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 2426a6c..8a2602b 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -250,11 +250,9 @@ class rfCircuit(rfBase):
         blks = []
         for blkID, blk in self.blocks.items():
             blks.append(blkID)
-            try:
+            if hasattr(blk['object'], 'listBlocks'):
                 for sblkID in blk['object'].listBlocks():
                     blks.append(blkID+'.'+sblkID)
-            except AttributeError:
-                pass
     
         return blks
     
-- 
2.43.0

