From 9e636dc200b3c36d3e47f1748c676bf429339a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:40 +0000
Subject: [PATCH 001/133] fix: write FAST binary outputs that contain a single
 time step

---
 weio/fast_output_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index 94ee22c..b0e77b4 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -426,7 +426,7 @@ def writeBinary(fileName, channels, chanNames, chanUnits, fileID=2, descStr=''):
 
     time = channels[:,iTime]
     timeStart = time[0]
-    timeIncr  = time[1]-time[0]
+    timeIncr  = time[1]-time[0] if nT>1 else 0
     dataWithoutTime = channels[:,1:]
         
     # Compute data range, scaling and offsets to convert to int16
-- 
2.43.0


From 9672a9bbe2b3182a72708a0cb86c4f5df1c22473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:40 +0000
Subject: [PATCH 002/133] fix: write FAST binary outputs with channel names
 longer than 10 characters

---
 weio/fast_output_file.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index b0e77b4..7d983d5 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -444,9 +444,14 @@ def writeBinary(fileName, channels, chanNames, chanUnits, fileID=2, descStr=''):
     ColScl  = np.single(int16Rng/ranges)
     ColOff  = np.single(int16Min - np.single(mins)*ColScl)
     
+    # Names and units are stored on 10 characters, unless the format with variable length (FileID=4) is used
+    lenName = max([10]+[len(s) for s in list(chanNames)+list(chanUnits)])
+    if fileID == 2 and lenName>10:
+        fileID = 4
+
     #Just available for fileID 
-    if fileID != 2:
-        print("current version just works with FileID = 2")
+    if fileID not in [2,4]:
+        print("current version just works with FileID = 2 and 4")
 
     else:
         with open(fileName,'wb') as fid:
@@ -460,6 +465,8 @@ def writeBinary(fileName, channels, chanNames, chanUnits, fileID=2, descStr=''):
 
             # Write header informations
             fid.write(struct.pack('@h',fileID))
+            if fileID == 4:
+                fid.write(struct.pack('@h',lenName))
             fid.write(struct.pack('@i',nChannels))
             fid.write(struct.pack('@i',nT))
             fid.write(struct.pack('@d',timeStart))
@@ -472,13 +479,13 @@ def writeBinary(fileName, channels, chanNames, chanUnits, fileID=2, descStr=''):
 
             # Write channel names
             for chan in chanNames:
-                ordchan = [ord(char) for char in chan]+ [32]*(10-len(chan))
-                fid.write(struct.pack('@10B', *ordchan))
+                ordchan = [ord(char) for char in chan]+ [32]*(lenName-len(chan))
+                fid.write(struct.pack('@{}B'.format(lenName), *ordchan))
 
             # Write channel units
             for unit in chanUnits:
-                ordunit = [ord(char) for char in unit]+ [32]*(10-len(unit))
-                fid.write(struct.pack('@10B', *ordunit))
+                ordunit = [ord(char) for char in unit]+ [32]*(lenName-len(unit))
+                fid.write(struct.pack('@{}B'.format(lenName), *ordunit))
 
             # Pack data
             packedData=np.zeros((nT, nChannels), dtype=np.int16)
-- 
2.43.0


From 5c3c6a821aaef6927b0a3f08c7d4ae3721d7c519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:15 +0000
Subject: [PATCH 003/133] fix: read FAST text outputs that contain a single
 time step

---
 weio/fast_output_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index 7d983d5..16180e0 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -187,7 +187,7 @@ def load_ascii_output(filename):
         # Data, up to end of file or empty line (potential comment line at the end)
 #         data = np.array([l.strip().split() for l in takewhile(lambda x: len(x.strip())>0, f.readlines())]).astype(np.float)
         # ---
-        data = np.loadtxt(f, comments=('This')) # Adding "This" for the Hydro Out files..
+        data = np.loadtxt(f, comments=('This'), ndmin=2) # Adding "This" for the Hydro Out files..
         return data, info
 
 
-- 
2.43.0


From 5e5c9a211b50ff5238ce68bcdcb51baf1b31b187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:15 +0000
Subject: [PATCH 004/133] fix: writeDataFrame, keep the unit of each column
 with its own column

---
 weio/fast_output_file.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index 16180e0..8a78b82 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -366,7 +366,7 @@ def writeDataFrame(df, filename, binary=True):
     for c in df.columns:
         c     = c.strip()
         name  = c
-        units = ''
+        unit  = ''
         if c[-1]==']':
             chars=['[',']']
         elif c[-1]==')':
@@ -377,7 +377,7 @@ def writeDataFrame(df, filename, binary=True):
             op,cl = chars
             iu=c.rfind(op)
             if iu>1:
-                name = c[:iu]
+                name = c[:iu].strip()
                 unit = c[iu+1:].replace(cl,'')
                 if name[-1]=='_':
                     name=name[:-1]
@@ -388,7 +388,7 @@ def writeDataFrame(df, filename, binary=True):
     if binary:
         writeBinary(filename, channels, chanNames, chanUnits)
     else:
-        NotImplementedError()
+        raise NotImplementedError('FAST output file: writing a dataframe in ascii format')
 
 
 def writeBinary(fileName, channels, chanNames, chanUnits, fileID=2, descStr=''):
@@ -410,7 +410,7 @@ def writeBinary(fileName, channels, chanNames, chanUnits, fileID=2, descStr=''):
     # Data sanitization
     chanNames = list(chanNames)
     channels  = np.asarray(channels)
-    if chanUnits[0][0]!='(':
+    if chanUnits[0][:1]!='(':
         chanUnits = ['('+u+')' for u in chanUnits] # units surrounded by parenthesis to match OpenFAST convention
 
     nT, nChannelsWithTime = np.shape(channels)
-- 
2.43.0


From 36a100beb0e68861d2c8825d9798a77ebdf6aee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:01 +0000
Subject: [PATCH 005/133] fix: TurbSim write, values at the extrema of a
 component could wrap around in int16

---
 weio/turbsim_file.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/weio/turbsim_file.py b/weio/turbsim_file.py
index 5cee26a..950b402 100644
--- a/weio/turbsim_file.py
+++ b/weio/turbsim_file.py
@@ -145,8 +145,9 @@ class TurbSimFile(File):
             else:
                 scl[k] = intrng / (all_max-all_min)
             off[k]    = intmin - scl[k] * all_min
-            out[k]    = (ts[k]    * scl[k] + off[k]).astype(np.int16)
-            outTwr[k] = (tsTwr[k] * scl[k] + off[k]).astype(np.int16)
+            # NOTE: off and scl are single precision, the extrema may end up slightly outside of the range of int16
+            out[k]    = np.clip(ts[k]    * scl[k] + off[k], intmin, intmin+intrng).astype(np.int16)
+            outTwr[k] = np.clip(tsTwr[k] * scl[k] + off[k], intmin, intmin+intrng).astype(np.int16)
         z0 = self['z'][0]
         dz = self['z'][1]- self['z'][0]
         dy = self['y'][1]- self['y'][0]
-- 
2.43.0


From 2a36362612886a089e37eb92c48d60d91660e751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:01 +0000
Subject: [PATCH 006/133] fix: TurbSim write, round to the nearest integer so
 that a constant component is kept

---
 weio/turbsim_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/turbsim_file.py b/weio/turbsim_file.py
index 950b402..f57f14a 100644
--- a/weio/turbsim_file.py
+++ b/weio/turbsim_file.py
@@ -146,8 +146,8 @@ class TurbSimFile(File):
                 scl[k] = intrng / (all_max-all_min)
             off[k]    = intmin - scl[k] * all_min
             # NOTE: off and scl are single precision, the extrema may end up slightly outside of the range of int16
-            out[k]    = np.clip(ts[k]    * scl[k] + off[k], intmin, intmin+intrng).astype(np.int16)
-            outTwr[k] = np.clip(tsTwr[k] * scl[k] + off[k], intmin, intmin+intrng).astype(np.int16)
+            out[k]    = np.clip(np.round(ts[k]    * scl[k] + off[k]), intmin, intmin+intrng).astype(np.int16)
+            outTwr[k] = np.clip(np.round(tsTwr[k] * scl[k] + off[k]), intmin, intmin+intrng).astype(np.int16)
         z0 = self['z'][0]
         dz = self['z'][1]- self['z'][0]
         dy = self['y'][1]- self['y'][0]
-- 
2.43.0


From accb4cb4ff79a09d35ee44308b2b0c16ad9324a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:32 +0000
Subject: [PATCH 007/133] fix: TurbSim lines and planes, removing the mean no
 longer alters the box

---
 weio/turbsim_file.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/weio/turbsim_file.py b/weio/turbsim_file.py
index f57f14a..568d7bc 100644
--- a/weio/turbsim_file.py
+++ b/weio/turbsim_file.py
@@ -249,9 +249,9 @@ class TurbSimFile(File):
         v = ts['u'][1,:,iy0,iz0]
         w = ts['u'][2,:,iy0,iz0]
         if removeMean:
-            u -= np.mean(u)
-            v -= np.mean(v)
-            w -= np.mean(w)
+            u = u - np.mean(u)
+            v = v - np.mean(v)
+            w = w - np.mean(w)
         return u, v, w
 
     def _latline(ts, ix0=None, iz0=None, removeMean=False):
@@ -265,9 +265,9 @@ class TurbSimFile(File):
         v = ts['u'][1,ix0,:,iz0]
         w = ts['u'][2,ix0,:,iz0]
         if removeMean:
-            u -= np.mean(u)
-            v -= np.mean(v)
-            w -= np.mean(w)
+            u = u - np.mean(u)
+            v = v - np.mean(v)
+            w = w - np.mean(w)
         return u, v, w
 
     def _vertline(ts, ix0=None, iy0=None, removeMean=False):
@@ -281,9 +281,9 @@ class TurbSimFile(File):
         v = ts['u'][1,ix0,iy0,:]
         w = ts['u'][2,ix0,iy0,:]
         if removeMean:
-            u -= np.mean(u)
-            v -= np.mean(v)
-            w -= np.mean(w)
+            u = u - np.mean(u)
+            v = v - np.mean(v)
+            w = w - np.mean(w)
         return u, v, w
 
     # --------------------------------------------------------------------------------}
@@ -302,9 +302,9 @@ class TurbSimFile(File):
         v = ts['u'][1,:,:,iz0]
         w = ts['u'][2,:,:,iz0]
         if removeMean:
-            u -= np.mean(u)
-            v -= np.mean(v)
-            w -= np.mean(w)
+            u = u - np.mean(u)
+            v = v - np.mean(v)
+            w = w - np.mean(w)
         return u, v, w
 
     def verticalPlane(ts, y=None, iy0=None, removeMean=False):
@@ -320,9 +320,9 @@ class TurbSimFile(File):
         v = ts['u'][1,:,iy0,:]
         w = ts['u'][2,:,iy0,:]
         if removeMean:
-            u -= np.mean(u)
-            v -= np.mean(v)
-            w -= np.mean(w)
+            u = u - np.mean(u)
+            v = v - np.mean(v)
+            w = w - np.mean(w)
         return u, v, w
 
     # --------------------------------------------------------------------------------}
-- 
2.43.0


From 02a878b60b9b9b5243ee039e40ca086371010752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:32 +0000
Subject: [PATCH 008/133] fix: TurbSim repr of a box with a single tower point

---
 weio/turbsim_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/turbsim_file.py b/weio/turbsim_file.py
index 568d7bc..72c422b 100644
--- a/weio/turbsim_file.py
+++ b/weio/turbsim_file.py
@@ -567,7 +567,7 @@ class TurbSimFile(File):
 
         # Tower
         if 'zTwr' in self.keys() and len(self['zTwr'])>0:
-            s+=' - zTwr: [{} ... {}],  dz: {}, n: {} \n'.format(self['zTwr'][0],self['zTwr'][-1],self['zTwr'][1]-self['zTwr'][0],len(self['zTwr']))
+            s+=' - zTwr: [{} ... {}],  dz: {}, n: {} \n'.format(self['zTwr'][0],self['zTwr'][-1],self['z'][0]-self['z'][1],len(self['zTwr']))
         if 'uTwr' in self.keys() and self['uTwr'].shape[2]>0:
             s+=' - uTwr: ({} x {} x {} ) \n'.format(*(self['uTwr'].shape))
             ux,uy,uz=self['uTwr'][0], self['uTwr'][1], self['uTwr'][2]
-- 
2.43.0


From d124c9c75908560b049a0cdb867f4d425932bd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:57 +0000
Subject: [PATCH 009/133] fix: raise EmptyFileError for empty files in the
 readers which did not import it

---
 weio/bladed_out_file.py        | 2 +-
 weio/bmodes_out_file.py        | 2 +-
 weio/cactus_element_file.py    | 2 +-
 weio/fast_input_file.py        | 4 +++-
 weio/raawmat_file.py           | 2 +-
 weio/rosco_performance_file.py | 2 +-
 6 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/weio/bladed_out_file.py b/weio/bladed_out_file.py
index 1315fb2..f32e9d7 100644
--- a/weio/bladed_out_file.py
+++ b/weio/bladed_out_file.py
@@ -6,7 +6,7 @@ import pandas as pd
 import glob
 import shlex
 # try:
-from .file import File, WrongFormatError, BrokenFormatError, isBinary
+from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError, isBinary
 # except:
 #     EmptyFileError    = type('EmptyFileError', (Exception,),{})
 #     WrongFormatError  = type('WrongFormatError', (Exception,),{})
diff --git a/weio/bmodes_out_file.py b/weio/bmodes_out_file.py
index 9022ccf..ca6f705 100644
--- a/weio/bmodes_out_file.py
+++ b/weio/bmodes_out_file.py
@@ -6,7 +6,7 @@ import pandas as pd
 import os
 
 try:
-    from .file import File, WrongFormatError, BrokenFormatError
+    from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError
 except:
     EmptyFileError    = type('EmptyFileError', (Exception,),{})
     WrongFormatError  = type('WrongFormatError', (Exception,),{})
diff --git a/weio/cactus_element_file.py b/weio/cactus_element_file.py
index b899787..5173181 100644
--- a/weio/cactus_element_file.py
+++ b/weio/cactus_element_file.py
@@ -3,7 +3,7 @@ import pandas as pd
 import os
 
 try:
-    from .file import File, WrongFormatError, BrokenFormatError
+    from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError
 except:
     EmptyFileError    = type('EmptyFileError', (Exception,),{})
     WrongFormatError  = type('WrongFormatError', (Exception,),{})
diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 51a6868..8ff9b68 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -8,13 +8,15 @@ from builtins import str
 from future import standard_library
 standard_library.install_aliases()
 try:
-    from .file import File, WrongFormatError, BrokenFormatError
+    from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError
 except:
     # --- Allowing this file to be standalone..
     class WrongFormatError(Exception):
         pass
     class BrokenFormatError(Exception):
         pass
+    class EmptyFileError(Exception):
+        pass
     File = dict
 import os
 import numpy as np
diff --git a/weio/raawmat_file.py b/weio/raawmat_file.py
index fc5661e..dc7d063 100644
--- a/weio/raawmat_file.py
+++ b/weio/raawmat_file.py
@@ -111,7 +111,7 @@ def matfile(path_file,output='pandas',path_key=None):
         return ds
 
 try:
-    from .file import File, WrongFormatError, BrokenFormatError
+    from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError
 except:
     EmptyFileError    = type('EmptyFileError', (Exception,),{})
     WrongFormatError  = type('WrongFormatError', (Exception,),{})
diff --git a/weio/rosco_performance_file.py b/weio/rosco_performance_file.py
index 18deea1..00c44c8 100644
--- a/weio/rosco_performance_file.py
+++ b/weio/rosco_performance_file.py
@@ -6,7 +6,7 @@ import pandas as pd
 import os
 
 try:
-    from .file import File, WrongFormatError, BrokenFormatError
+    from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError
 except:
     EmptyFileError    = type('EmptyFileError', (Exception,),{})
     WrongFormatError  = type('WrongFormatError', (Exception,),{})
-- 
2.43.0


From 41355118f842bb7ec147edf23f5ff12cc2631160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:57 +0000
Subject: [PATCH 010/133] fix: HAWCStab2 ind and pwr, raise the intended
 errors, and read a single row

---
 weio/hawcstab2_ind_file.py | 8 ++++----
 weio/hawcstab2_pwr_file.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/weio/hawcstab2_ind_file.py b/weio/hawcstab2_ind_file.py
index 3d41940..368eb57 100644
--- a/weio/hawcstab2_ind_file.py
+++ b/weio/hawcstab2_ind_file.py
@@ -12,7 +12,7 @@ standard_library.install_aliases()
 import os
 import re
 
-from .file import File, WrongFormatError
+from .file import File, WrongFormatError, BrokenFormatError
 import numpy as np
 import pandas as pd
 
@@ -32,7 +32,7 @@ class HAWCStab2IndFile(File):
         with open(self.filename,'r',encoding=self.encoding) as f:
             header = f.readline().strip()
         if len(header)<=0 or header[0]!='#':
-            raise WrongFormatError('Ind File {}: header line does not start with `#`.'.format(self.filename)+e.args[0])
+            raise WrongFormatError('Ind File {}: header line does not start with `#`.'.format(self.filename))
         # Extracting column names
         header       = '00'+header[1:].strip()
         num_and_cols = [s.strip()+']' for s in header.split(']')[:-1]]
@@ -48,12 +48,12 @@ class HAWCStab2IndFile(File):
 
         # Reading numerical data
         try:
-            self.data = np.loadtxt(self.filename, skiprows=1)
+            self.data = np.loadtxt(self.filename, skiprows=1, ndmin=2)
         except Exception as e:    
             raise BrokenFormatError('Ind File {}: '.format(self.filename)+e.args[0])
 
         if self.data.shape[1]!=len(cols):
-            raise BrokenFormatError('Ind File {}: inconsistent number of header columns and data columns.'.format(self.filename)+e.args[0])
+            raise BrokenFormatError('Ind File {}: inconsistent number of header columns and data columns.'.format(self.filename))
 
         # Extracting wind speed from filename 
         self.wsp = float(self.filename.lower().split('_')[-1].rstrip('.ind').lstrip('u'))/1000
diff --git a/weio/hawcstab2_pwr_file.py b/weio/hawcstab2_pwr_file.py
index add7a22..353566c 100644
--- a/weio/hawcstab2_pwr_file.py
+++ b/weio/hawcstab2_pwr_file.py
@@ -10,7 +10,7 @@ from builtins import str
 from future import standard_library
 standard_library.install_aliases()
 
-from .file import File, WrongFormatError
+from .file import File, WrongFormatError, BrokenFormatError
 import numpy as np
 import pandas as pd
 
@@ -30,7 +30,7 @@ class HAWCStab2PwrFile(File):
         with open(self.filename,'r',encoding=self.encoding) as f:
             header = f.readline().strip()
         if len(header)<=0 or header[0]!='#':
-            raise WrongFormatError('Pwr File {}: header line does not start with `#`'.format(self.filename)+e.args[0])
+            raise WrongFormatError('Pwr File {}: header line does not start with `#`'.format(self.filename))
         # Extracting column names
         header       = '0 '+header[1:].strip()
         num_and_cols = [s.strip()+']' for s in header.split(']')[:-1]]
@@ -41,12 +41,12 @@ class HAWCStab2PwrFile(File):
         self.colNames=cols
         # Reading numerical data
         try:
-            self.data = np.loadtxt(self.filename, skiprows=1)
+            self.data = np.loadtxt(self.filename, skiprows=1, ndmin=2)
         except Exception as e:    
             raise BrokenFormatError('Pwr File {}: '.format(self.filename)+e.args[0])
 
         if self.data.shape[1]!=len(cols):
-            raise BrokenFormatError('Pwr File {}: inconsistent number of header columns and data columns.'.format(self.filename)+e.args[0])
+            raise BrokenFormatError('Pwr File {}: inconsistent number of header columns and data columns.'.format(self.filename))
 
     #def _write(self):
         #self.data.to_csv(self.filename,sep=self.false,index=False)
-- 
2.43.0


From 6e653e31eed9d9ab5cae7dd54f330dbe2dd2ab55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:14 +0000
Subject: [PATCH 011/133] fix: Bladed outputs, names and folders containing %,
 $ or glob characters

---
 weio/bladed_out_file.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/weio/bladed_out_file.py b/weio/bladed_out_file.py
index f32e9d7..74653c8 100644
--- a/weio/bladed_out_file.py
+++ b/weio/bladed_out_file.py
@@ -17,6 +17,11 @@ from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError, isB
 # --------------------------------------------------------------------------------}
 # --- Helper functions 
 # --------------------------------------------------------------------------------{
+def getDataFilename(sensorFilename):
+    """ name of the data file ($) of a sensor file (%), the folder and base name are untouched """
+    base, ext = os.path.splitext(sensorFilename)
+    return base + ext.replace('%','$')
+
 def read_bladed_sensor_file(sensorfile):        
     """ 
     Extract relevant informations from a bladed sensor file
@@ -173,7 +178,7 @@ def read_bladed_output(sensorFilename, readTimeFilesOnly=False):
         return [], {}
     
     # --- Read data file
-    dataFilename = sensorFilename.replace('%','$')
+    dataFilename = getDataFilename(sensorFilename)
 
     if isBinary(dataFilename):            # it is binary            
 
@@ -273,10 +278,10 @@ class BladedFile(File):
         basename, ext = os.path.splitext(self.filename)
         if ext.lower()=='.$pj':
             readTimeFilesOnly=True
-            searchPattern = basename + '.%[0-9][0-9]*' # find all files in the folder
+            searchPattern = glob.escape(basename) + '.%[0-9][0-9]*' # find all files in the folder
         else:
             readTimeFilesOnly=False
-            searchPattern = basename + ext.replace('$','%') # sensor file name
+            searchPattern = glob.escape(basename) + ext.replace('$','%') # sensor file name
         
         # Look for files matching pattern
         files = glob.glob(searchPattern)
@@ -295,7 +300,7 @@ class BladedFile(File):
 
         for i,filename in enumerate(files):
 
-            dataFilename = filename.replace('%','$')
+            dataFilename = getDataFilename(filename)
             try:
                 # Call "Read_bladed_file" function to Read and store data:
                 data, info = read_bladed_output(filename, readTimeFilesOnly=readTimeFilesOnly)    
-- 
2.43.0


From 69c7d866b39afd0fb6daa11da32c5032329bc18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:14 +0000
Subject: [PATCH 012/133] fix: Bladed outputs, read text results that contain a
 single step

---
 weio/bladed_out_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/bladed_out_file.py b/weio/bladed_out_file.py
index 74653c8..7b8869c 100644
--- a/weio/bladed_out_file.py
+++ b/weio/bladed_out_file.py
@@ -201,7 +201,7 @@ def read_bladed_output(sensorFilename, readTimeFilesOnly=False):
         if sensorInfo['NDIMENS'] == 2:
             try:
                 # Data is stored as time, signal, we reshape to signal, time
-                data = np.loadtxt(dataFilename)
+                data = np.loadtxt(dataFilename).reshape((nMajor, nSensors), order='C')
             except ValueError as e:
                 # Most likely this was a binary file...
                 data = np.empty((nMajor, nSensors)) * np.nan
-- 
2.43.0


From 90d2a6a8f27434a6a72fbbfac637e525fccc9077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:14 +0000
Subject: [PATCH 013/133] fix: Bladed outputs, read results stored as integers

---
 weio/bladed_out_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weio/bladed_out_file.py b/weio/bladed_out_file.py
index 7b8869c..9681485 100644
--- a/weio/bladed_out_file.py
+++ b/weio/bladed_out_file.py
@@ -60,6 +60,8 @@ def read_bladed_sensor_file(sensorfile):
             dat['Precision'] = np.float32
             if temp[-1] == '8':
                 dat['Precision'] = np.float64
+            elif temp.startswith('I'):
+                dat['Precision'] = np.int32
 
         elif t_line.startswith('GENLAB'):
             # category of the file you are reading:
-- 
2.43.0


From b2ea1d8d1569b55e0796a9e1c7fae45c0845aff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:28 +0000
Subject: [PATCH 014/133] fix: Bladed outputs, sections of 3D results whose
 major axis is also given by values

---
 weio/bladed_out_file.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/weio/bladed_out_file.py b/weio/bladed_out_file.py
index 9681485..9181e7d 100644
--- a/weio/bladed_out_file.py
+++ b/weio/bladed_out_file.py
@@ -70,6 +70,8 @@ def read_bladed_sensor_file(sensorfile):
         elif t_line.startswith('AXIVAL'):
             # Section on the 3rd dimension you are reading
             # sometimes, the info is written on "AXITICK"
+            if dat['NDIMENS']==3 and 'nSections' in dat:
+                continue # the sections are on the first axis, this is the major axis
             temp = t_line[7:].split()
             dat['SectionList'] = np.array(temp, dtype=float)
             dat['nSections'] = len(dat['SectionList'])
@@ -77,6 +79,8 @@ def read_bladed_sensor_file(sensorfile):
         elif t_line.startswith('AXITICK'):
             # Section on the 3rd dimension you are reading
             # sometimes, the info is written on "AXIVAL"
+            if dat['NDIMENS']==3 and 'nSections' in dat:
+                continue # the sections are on the first axis, this is the major axis
             # Check next line, we concatenate if doesnt start with AXISLAB (Might need more cases)
             try:
                 nextLine=sensorLines[i+1].strip()
-- 
2.43.0


From 29611ebe1971164a5fe5948567f09e2a1eeaba99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:28 +0000
Subject: [PATCH 015/133] fix: Bladed outputs, keep all datasets that have the
 same category but different lengths

---
 weio/bladed_out_file.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/weio/bladed_out_file.py b/weio/bladed_out_file.py
index 9181e7d..302566c 100644
--- a/weio/bladed_out_file.py
+++ b/weio/bladed_out_file.py
@@ -364,7 +364,11 @@ class BladedFile(File):
             # We keep only one dataset for simplicity
             self.dataSets= {'Misc': dataSets[keyMisc[0]]}
         else:
-            # Instead of using nMajor as key, we use the "name"
+            # Instead of using nMajor as key, we use the "name" (datasets of the same name but different lengths are all kept)
+            names = [v['name'] for v in dataSets.values()]
+            for k, v in dataSets.items():
+                if names.count(v['name'])>1:
+                    v['name'] += '_'+str(k)
             self.dataSets= {v['name']: v for (k, v) in dataSets.items()}
 
                 
-- 
2.43.0


From 4ace216acd96ff26091d4a318f00f451cf22c943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:13 +0000
Subject: [PATCH 016/133] fix: FAST input files, setting a key that is not in
 the file raises a KeyError

---
 weio/fast_input_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 8ff9b68..54d9e74 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -208,7 +208,7 @@ class FASTInputFileBase(File):
             d = self.data[i]
             if d['label'].lower()==label.lower():
                 I.append(i)
-        if len(I)<0:
+        if len(I)==0:
             raise KeyError('Variable `'+ label+'` not found in FAST file:'+self.filename)
         else:
             return I
-- 
2.43.0


From 98285b646f2e03039e0cdd42be3a9506d608cdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:15 +0000
Subject: [PATCH 017/133] fix: FAST input files, iterating over the entries
 stops at the last one

---
 weio/fast_input_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 54d9e74..7b4ac23 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -228,7 +228,7 @@ class FASTInputFileBase(File):
         return self
 
     def __next__(self): # Python 2: def next(self)
-        if self.iCurrent > self.iMax:
+        if self.iCurrent >= self.iMax:
             raise StopIteration
         else:
             self.iCurrent += 1
-- 
2.43.0


From 1dea2e7934fcd0f797910e17f8f44516d6c92a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:18 +0000
Subject: [PATCH 018/133] fix: FAST input files, detect the type of the file
 again when another file is read

---
 weio/fast_input_file.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 7b4ac23..edc7135 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -77,10 +77,7 @@ class FASTInputFile(File):
             return self.basefile
     @property
     def module(self):
-        if self._fixedfile is None:
-            return self.basefile.module
-        else:
-            return self._fixedfile.module
+        return self.fixedfile.module
 
     def fixedFormat(self):
         # --- Creating a dedicated Child
@@ -89,7 +86,7 @@ class FASTInputFile(File):
             return ADBladeFile.from_fast_input_file(self.basefile)
         elif 'NBlInpSt' in KEYS:
             return EDBladeFile.from_fast_input_file(self.basefile)
-        elif 'MassMatrix' in KEYS and self.module =='ExtPtfm':
+        elif 'MassMatrix' in KEYS and self.basefile.module =='ExtPtfm':
             return ExtPtfmFile.from_fast_input_file(self.basefile)
         elif 'NumCoords' in KEYS and 'InterpOrd' in KEYS:
             return ADPolarFile.from_fast_input_file(self.basefile)
@@ -99,7 +96,11 @@ class FASTInputFile(File):
             return self.basefile
 
     def read(self, filename=None):
-        return self.fixedfile.read(filename)
+        if filename is None:
+            filename = self.filename
+        # The new file may be of another type, the fixed format needs to be detected again
+        self._fixedfile = None
+        return self.basefile.read(filename)
 
     def write(self, filename=None):
         return self.fixedfile.write(filename)
-- 
2.43.0


From 798cce34f73deae5d50ff9a4eb0e1e5f2810cb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:21 +0000
Subject: [PATCH 019/133] fix: FAST input files, write back files with non
 utf-8 characters, and do not erase the file when writing is not possible

---
 weio/fast_input_file.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index edc7135..50aa611 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -750,8 +750,9 @@ class FASTInputFileBase(File):
 
     def _write(self):
         self._writeSanityChecks()
-        with open(self.filename,'w') as f:
-            f.write(self.toString())
+        s = self.toString() # before opening, so that nothing is lost if this fails
+        with open(self.filename, 'w', errors="surrogateescape") as f:
+            f.write(s)
 
     def toDataFrame(self):
         return self._toDataFrame()
@@ -1584,7 +1585,7 @@ class ADPolarFile(FASTInputFileBase):
                     if i>0:
                         self.data[i]['label'] = labRaw
             # Write
-            with open(self.filename,'w') as f:
+            with open(self.filename, 'w', errors="surrogateescape") as f:
                 f.write(self.toString())
             # Restore labels 
             for i,labFull in enumerate(AllLabels):
-- 
2.43.0


From c2cf75b71061bdd06ec459d03f7378c3e4a24d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:24 +0000
Subject: [PATCH 020/133] fix: FAST input files, keep the line that ends the
 list of outputs

---
 weio/fast_input_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 50aa611..d100279 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1021,6 +1021,7 @@ def parseFASTInputLine(line_raw,i,allowSpaceSeparatedList=False):
             if len(sp)>2 and sp[1]=='of':
                 d['isComment']=True
                 d['value']=line_raw
+                return d
 
         # Detecting lists
         List=[];
-- 
2.43.0


From 7cb57cec6b10555f31b7283c588345f79555d677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:28 +0000
Subject: [PATCH 021/133] fix: FAST input files, quoted airfoil file names that
 contain spaces

---
 weio/fast_input_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index d100279..a7fef3a 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1285,6 +1285,7 @@ def parseFASTFilTable(lines,n,iStart):
             raise WrongFormatError('Not enough lines in table: {} lines instead of {}'.format(len(lines),n))
         for i in range(n):
             l = lines[i].split()
+            _merge_value(l) # quoted file names may contain spaces
             #print(l[0].strip())
             Tab.append(l[0].strip())
             
-- 
2.43.0


From 8739fc24358ea5b48a7d31cee463abf192507ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:32 +0000
Subject: [PATCH 022/133] fix: AeroDyn blade files, write tables with less than
 two nodes

---
 weio/fast_input_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index a7fef3a..a2fd086 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1414,6 +1414,8 @@ class ADBladeFile(FASTInputFileBase):
         """ Sanity checks before write"""
         self['NumBlNds']=self['BldAeroNodes'].shape[0]
         aeroNodes = self['BldAeroNodes']
+        if aeroNodes.shape[0]<2:
+            return
         # TODO double check this calculation with gradient
         dr = np.gradient(aeroNodes[:,0])
         dx = np.gradient(aeroNodes[:,1])
-- 
2.43.0


From 59a2ff8aa477a56628cea7a136ae2fdd6679248b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:25 +0000
Subject: [PATCH 023/133] fix: FAST input files, the comment line(s) of blade
 and polar files can be read, set and written

---
 weio/fast_input_file.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index a2fd086..8ed6fde 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -127,7 +127,7 @@ class FASTInputFile(File):
 
     @comment.setter
     def comment(self,comment):
-        self.fixedfile.comment(comment)
+        self.fixedfile.comment = comment
 
     def __iter__(self):
         return self.fixedfile.__iter__()
@@ -291,6 +291,13 @@ class FASTInputFileBase(File):
         for i,com in zip(self._IComment, splits):
             self.data[i]['value'] = com
 
+    def _setCommentLine(self, lines):
+        """ The generic reader may see the comment on the second line as a parameter, we store the full line """
+        d = getDict()
+        d['isComment'] = True
+        d['value']     = lines[1]
+        self.data[1]   = d
+
     @property
     def _IComment(self):
         """ return indices of comment line"""
@@ -1311,6 +1318,7 @@ class EDBladeFile(FASTInputFileBase):
     def from_fast_input_file(cls, parent):
         self = cls()
         self.setData(filename=parent.filename, data=parent.data, hasNodal=parent.hasNodal, module='EDBlade')
+        self._setCommentLine(parent._lines)
         return self
 
     def __init__(self, filename=None, **kwargs):
@@ -1350,7 +1358,7 @@ class EDBladeFile(FASTInputFileBase):
             self.addValKey(     0.0   , 'BldEdgSh(6)', '           , coeff of x^6')
         else:
             # fix some stuff that generic reader fail at
-            self.data[1] =  self._lines[1]
+            self._setCommentLine(self._lines)
         self.module='EDBlade'
 
     def _writeSanityChecks(self):
@@ -1397,6 +1405,7 @@ class ADBladeFile(FASTInputFileBase):
     def from_fast_input_file(cls, parent):
         self = cls()
         self.setData(filename=parent.filename, data=parent.data, hasNodal=parent.hasNodal, module='ADBlade')
+        self._setCommentLine(parent._lines)
         return self
 
     def __init__(self, filename=None, **kwargs):
@@ -1640,7 +1649,7 @@ class ADPolarFile(FASTInputFileBase):
 
     @property
     def comment(self):
-        return FASTInputFileBase.comment
+        return '\n'.join([re.sub(r'^!\s?','',self.data[i]['value']) for i in self._IComment])
 
     @comment.setter
     def comment(self, comment):
-- 
2.43.0


From 96059d88316eddc2e7242f8110213f18d4ab9360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:34 +0000
Subject: [PATCH 024/133] fix: FAST input files, the name of the list of nodal
 outputs is kept when the file is written and read again

---
 weio/fast_input_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 8ed6fde..c1935ad 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -410,7 +410,7 @@ class FASTInputFileBase(File):
                 # Parsing outlist, and then we continue at a new "i" (to read END etc.)
                 OutList,i = parseFASTOutList(lines,i+1) 
                 d = getDict()
-                if self.hasNodal:
+                if self.hasNodal and not firstword.endswith('_Nodal'):
                     d['label']   = firstword+'_Nodal'
                 else:
                     d['label']   = firstword
-- 
2.43.0


From 36a6224231d7cb67d37172115d7340cec78a992d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:27 +0000
Subject: [PATCH 025/133] fix: AeroDyn polar files, data frames of tables
 without unsteady data

---
 weio/fast_input_file.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index c1935ad..cdb7351 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1618,11 +1618,13 @@ class ADPolarFile(FASTInputFileBase):
             alpha = df['Alpha_[deg]'].values*np.pi/180.
             Cl    = df['Cl_[-]'].values
             Cd    = df['Cd_[-]'].values
-            Cd0   = self['Cd0'+labOffset]
             # Cn (with or without Cd0)
-            Cn1 = Cl*np.cos(alpha)+ (Cd-Cd0)*np.sin(alpha) 
             Cn  = Cl*np.cos(alpha)+ Cd*np.sin(alpha) 
             df['Cn_[-]'] = Cn
+            if self.getIDSafe('Cd0'+labOffset)<0:
+                continue # no unsteady aerodynamic data in this table
+            Cd0   = self['Cd0'+labOffset]
+            Cn1 = Cl*np.cos(alpha)+ (Cd-Cd0)*np.sin(alpha) 
             df['Cn_Cd0off_[-]'] = Cn1
 
             CnLin = self['C_nalpha'+labOffset]*(alpha-self['alpha0'+labOffset]*np.pi/180.)
-- 
2.43.0


From fac0ef1f40ef7a0d8a6481354e62dc14bea71b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:46 +0000
Subject: [PATCH 026/133] fix: ExtPtfm files, number of time steps of the
 loading when T/dt is not exact in floating point

---
 weio/fast_input_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index cdb7351..82a376d 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1719,7 +1719,7 @@ def detectAndReadExtPtfmSE(self, lines):
                 i=i+1+nDOF
             elif l.find('!loading')==0:
                 try: 
-                    nt=int(self['T']/self['dt'])+1
+                    nt=int(np.round(self['T']/self['dt']))+1
                 except:
                     raise BrokenFormatError('Cannot read loading since time step and simulation time not properly set.')
                 self.addKeyVal('Loading',readmat(nt,nDOFCommon+1,lines,i+2))
-- 
2.43.0


From c707cea574a328252c3f3389419148e4d47e9968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:49 +0000
Subject: [PATCH 027/133] fix: FAST input files, files whose first or second
 line is empty

---
 weio/fast_input_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 82a376d..55a0c80 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1683,7 +1683,7 @@ def detectAndReadExtPtfmSE(self, lines):
         return M
     if len(lines)<10:
         return False
-    if not (lines[0][0]=='!' and lines[1][0]=='!'):
+    if not (lines[0].startswith('!') and lines[1].startswith('!')):
         return False
     if lines[1].lower().find('flex')<0:
         return
-- 
2.43.0


From a37873fb8e581c896854211f6830e1a20d8cc1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:47 +0000
Subject: [PATCH 028/133] fix: ExtPtfm files, keep truncating the number of
 time steps when T is not a multiple of dt

---
 weio/fast_input_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 55a0c80..530cfb5 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1719,7 +1719,7 @@ def detectAndReadExtPtfmSE(self, lines):
                 i=i+1+nDOF
             elif l.find('!loading')==0:
                 try: 
-                    nt=int(np.round(self['T']/self['dt']))+1
+                    nt=int(self['T']/self['dt']+1e-6)+1
                 except:
                     raise BrokenFormatError('Cannot read loading since time step and simulation time not properly set.')
                 self.addKeyVal('Loading',readmat(nt,nDOFCommon+1,lines,i+2))
-- 
2.43.0


From c9de1e5fd075f56fd9380491781691f4859cb79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:26 +0000
Subject: [PATCH 029/133] fix: FAST input: airfoil coordinates written are
 readable

The reference point was written with a comma and a label, and a line of
units was added to the table, so that the file could not be read back.
---
 weio/fast_input_file.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 530cfb5..5a0d233 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -692,7 +692,9 @@ class FASTInputFileBase(File):
             if d['isComment']:
                 s+='{}'.format(d['value'])
             elif d['tabType']==TABTYPE_NOT_A_TAB:
-                if isinstance(d['value'], list):
+                if d['label']=='AirfoilRefPoint':
+                    s+=' '.join([str(x) for x in d['value']]) # coordinates only, no label
+                elif isinstance(d['value'], list):
                     sList=', '.join([str(x) for x in d['value']])
                     s+='{} {} {}'.format(sList,d['label'],d['descr'])
                 else:
@@ -720,7 +722,8 @@ class FASTInputFileBase(File):
                     s+='\n'.join('\t'.join('{}'.format(x) for x in y) for y in d['value'])
             elif d['tabType']==TABTYPE_NUM_WITH_HEADERCOM:
                 s+='! {}\n'.format(' '.join(['{:15s}'.format(s) for s in d['tabColumnNames']]))
-                s+='! {}\n'.format(' '.join(['{:15s}'.format(s) for s in d['tabUnits']]))
+                if d['label']!='AirfoilCoord': # No line of units for airfoil coordinates
+                    s+='! {}\n'.format(' '.join(['{:15s}'.format(s) for s in d['tabUnits']]))
                 s+='\n'.join('\t'.join('{:15.8e}'.format(x) for x in y) for y in d['value'])
             elif d['tabType']==TABTYPE_FIL:
                 #f.write('{} {} {}\n'.format(d['value'][0],d['tabDetect'],d['descr']))
-- 
2.43.0


From 3cec87b7406f6548107f60a6f4131ce8894b59c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:28 +0000
Subject: [PATCH 030/133] fix: FAST polar file: comment of files with one
 comment line

The lines following the comment may be numerical parameters.
---
 weio/fast_input_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 5a0d233..48887a8 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1667,7 +1667,7 @@ class ADPolarFile(FASTInputFileBase):
         """ return indices of comment line"""
         I=[]
         for i in [1,2,3]:
-            if self.data[i]['value'].startswith('!'):
+            if str(self.data[i]['value']).startswith('!'):
                 if not self.data[i]['value'].startswith('! ---'):
                     I.append(i)
         return I
-- 
2.43.0


From a3d34a661f0a15da9a4846766089155a5744814c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:05 +0000
Subject: [PATCH 031/133] fix: encoding is detected on more than the first 32
 bytes

A UTF-8 file with its first accent after 32 bytes was taken as ASCII and
could not be read.
---
 weio/file.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/weio/file.py b/weio/file.py
index c28f78f..4172bd8 100644
--- a/weio/file.py
+++ b/weio/file.py
@@ -60,16 +60,21 @@ class File(dict):
         import chardet 
         """  Detects encoding"""
         try:
-            byts = min(32, self.size)
+            byts = min(65536, self.size)
         except TypeError:
             return None
         with open(self.filename, 'rb') as f:
             raw = f.read(byts)
         if raw.startswith(codecs.BOM_UTF8):
             return 'utf-8-sig'
-        else:
-            result = chardet.detect(raw)
-            return result['encoding']
+        if b'\0' not in raw:
+            try:
+                codecs.getincrementaldecoder('utf-8')().decode(raw) # the last character may be cut
+                return 'utf-8' # includes ascii
+            except UnicodeDecodeError:
+                pass
+        result = chardet.detect(raw)
+        return result['encoding']
 
 
     # --------------------------------------------------------------------------------}
-- 
2.43.0


From 2d297db1a3f1246218373b4a014eb3e43d759d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:33 +0000
Subject: [PATCH 032/133] fix: CSV: separator of one-line tables and of rows
 starting with a missing value

---
 weio/csv_file.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index 5e8197c..db0daa6 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -157,13 +157,14 @@ class CSVFile(File):
             try:
                 with open(self.filename,'r',encoding=self.encoding) as f:
                     dummy=[next(f).strip() for x in range(iStartLine)]
-                    head=[next(f).strip() for x in range(2)]
+                    head=[f.readline().strip() for x in range(2)]
+                line = head[1] if len(head[1])>0 else head[0] # there may be one line only
                 # comma, semi columns or tab
-                if head[1].find(',')>0:
+                if line.find(',')>=0:
                     self.sep=','
-                elif head[1].find(';')>0:
+                elif line.find(';')>=0:
                     self.sep=';'
-                elif head[1].find('\t')>0:
+                elif line.find('\t')>=0:
                     self.sep='\t'
                 else:
                     self.sep=r'\s+'
-- 
2.43.0


From a67b9691255a816528416b94861d5ef715decdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:35 +0000
Subject: [PATCH 033/133] fix: CSV: comment character equal to the separator

All columns but the first were dropped from files with a semicolon used
for the comment lines and as separator.
---
 weio/csv_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index db0daa6..7c1187c 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -239,10 +239,11 @@ class CSVFile(File):
             if self.sep=='\t':
                 self.sep=r'\s+'
         #print(skiprows)
+        comment = self.commentChar if self.commentChar!=self.sep else None # e.g. ";" used for both
         try:
 #             self.data = pd.read_csv(self.filename,sep=self.sep,skiprows=skiprows,header=None,comment=self.commentChar,encoding=self.encoding)
             with open(self.filename,'r',encoding=self.encoding) as f:
-                self.data = pd.read_csv(f,sep=self.sep,skiprows=skiprows,header=None,comment=self.commentChar)
+                self.data = pd.read_csv(f,sep=self.sep,skiprows=skiprows,header=None,comment=comment)
         except pd.errors.ParserError as e:
             raise WrongFormatError('CSV File {}: '.format(self.filename)+e.args[0])
 
-- 
2.43.0


From d581be90f372432d23f754e153cf451f90e0867d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:39 +0000
Subject: [PATCH 034/133] fix: CSV: files with more than 100 comment lines

---
 weio/csv_file.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index 7c1187c..28a58bf 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -125,13 +125,11 @@ class CSVFile(File):
         elif self.commentChar is not None:
             # we detect the comments lines that start with comment char
             with open(self.filename,'r',encoding=self.encoding) as f:
-                n=0
-                while n<100:
+                while True:
                     l = f.readline().strip()
                     if (not l) or (l+'_dummy')[0] != self.commentChar[0]:
                         break
                     self.header.append(l.strip())
-                    n+=1
             self.commentLines=list(range(len(self.header)))
         else:
             # We still believe that some characters are comments
@@ -141,13 +139,11 @@ class CSVFile(File):
                 self.commentChar=line[0]
                 # Nasty copy paste from above
                 with open(self.filename,'r',encoding=self.encoding) as f:
-                    n=0
-                    while n<100:
+                    while True:
                         l = f.readline().strip()
                         if (not l) or (l+'_dummy')[0] != self.commentChar[0]:
                             break
                         self.header.append(l.strip())
-                        n+=1
 
         iStartLine = len(self.header)
 
-- 
2.43.0


From 5267b88edcb8c2d4eaf73e551955e21392710626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:10 +0000
Subject: [PATCH 035/133] fix: CSV: comment lines given by the user may be
 anywhere

As many leading lines as there are comment lines were skipped, wherever
the comments were.
---
 weio/csv_file.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index 28a58bf..e471620 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -145,15 +145,21 @@ class CSVFile(File):
                             break
                         self.header.append(l.strip())
 
-        iStartLine = len(self.header)
+        def skipComments(iLine):
+            while iLine in self.commentLines:
+                iLine+=1
+            return iLine
+
+        # First line which is not a comment (comment lines given by the user may be anywhere)
+        iStartLine = skipComments(0) if len(self.commentLines)>0 else len(self.header)
 
         # --- File separator 
         if self.sep is None:
             # Detecting separator by reading first lines of the file
             try:
                 with open(self.filename,'r',encoding=self.encoding) as f:
-                    dummy=[next(f).strip() for x in range(iStartLine)]
-                    head=[f.readline().strip() for x in range(2)]
+                    lines=[f.readline().strip() for x in range(skipComments(iStartLine+1)+1)]
+                head=[lines[iStartLine], lines[-1]]
                 line = head[1] if len(head[1])>0 else head[0] # there may be one line only
                 # comma, semi columns or tab
                 if line.find(',')>=0:
@@ -172,7 +178,7 @@ class CSVFile(File):
         if self.colNamesLine is not None:
             if self.colNamesLine<0:
                 # The column names are hidden somwhere in the header 
-                line=readline(iStartLine+self.colNamesLine).strip()
+                line=readline(len(self.header)+self.colNamesLine).strip()
                 # Removing comment if present (should be present..)
                 if self.commentChar is not None:
                     if line.find(self.commentChar)==0:
@@ -194,7 +200,7 @@ class CSVFile(File):
                 # We assume that the line contains the column names
                 self.colNames=colNames
                 self.colNamesLine = iStartLine
-                iStartLine = iStartLine+1
+                iStartLine = skipComments(iStartLine+1)
                 #  --- Now, maybe the user has put some units below
                 first_line = readline(iStartLine)
                 #print('>>> first line',first_line)
-- 
2.43.0


From f64056651b3abea4cf5be0179b9f9fe369720f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:13 +0000
Subject: [PATCH 036/133] fix: CSV: separator detected from the table when its
 line of names is given

---
 weio/csv_file.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index e471620..647d446 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -156,10 +156,11 @@ class CSVFile(File):
         # --- File separator 
         if self.sep is None:
             # Detecting separator by reading first lines of the file
+            iFirst = max(iStartLine, self.colNamesLine) if self.colNamesLine is not None else iStartLine
             try:
                 with open(self.filename,'r',encoding=self.encoding) as f:
-                    lines=[f.readline().strip() for x in range(skipComments(iStartLine+1)+1)]
-                head=[lines[iStartLine], lines[-1]]
+                    lines=[f.readline().strip() for x in range(skipComments(iFirst+1)+1)]
+                head=[lines[iFirst], lines[-1]]
                 line = head[1] if len(head[1])>0 else head[0] # there may be one line only
                 # comma, semi columns or tab
                 if line.find(',')>=0:
-- 
2.43.0


From cedb96d8b3f5791f7bfd1b9bcb97df273187d0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:16 +0000
Subject: [PATCH 037/133] fix: CSV: tables with column names and no rows

---
 weio/csv_file.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index 647d446..5647c80 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -203,7 +203,7 @@ class CSVFile(File):
                 self.colNamesLine = iStartLine
                 iStartLine = skipComments(iStartLine+1)
                 #  --- Now, maybe the user has put some units below
-                first_line = readline(iStartLine)
+                first_line = readline(iStartLine) or '' # none if there are only column names
                 #print('>>> first line',first_line)
                 first_cols = split(first_line)
                 nFloat = sum([strIsFloat(s) for s in first_cols])
@@ -247,6 +247,10 @@ class CSVFile(File):
 #             self.data = pd.read_csv(self.filename,sep=self.sep,skiprows=skiprows,header=None,comment=self.commentChar,encoding=self.encoding)
             with open(self.filename,'r',encoding=self.encoding) as f:
                 self.data = pd.read_csv(f,sep=self.sep,skiprows=skiprows,header=None,comment=comment)
+        except pd.errors.EmptyDataError:
+            if len(self.colNames)==0:
+                raise
+            self.data = pd.DataFrame(columns=self.colNames) # only column names
         except pd.errors.ParserError as e:
             raise WrongFormatError('CSV File {}: '.format(self.filename)+e.args[0])
 
-- 
2.43.0


From 121ffdad55518a3feb0b00049d0eae29b1fb6e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:27 +0000
Subject: [PATCH 038/133] fix: CSV: written tables keep their column names,
 rows and missing values

The names were dropped when there were comment lines, rows of missing
values when there was one column, the separator of the object was
changed, and no table could be written without a separator given.
---
 weio/csv_file.py | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index 5647c80..998aa3d 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -263,25 +263,19 @@ class CSVFile(File):
 
     def _write(self):
         # --- Safety
-        if self.sep==r'\s+' or self.sep=='':
-            self.sep='\t'
+        sep = self.sep
+        if sep is None:
+            sep=','
+        elif sep==r'\s+' or sep=='':
+            sep='\t'
+        # When there is a header, a line of column names is only needed if the names come from such a line, or if they were changed
+        namesOnLine = self.colNamesLine is not None and self.colNamesLine>=0
+        writeNames  = len(self.header)==0 or namesOnLine or list(self.data.columns)!=list(self.colNames)
         # Write
-        if len(self.header)>0:
-            with open(self.filename, 'w', encoding='utf-8') as f:
+        with open(self.filename, 'w', encoding='utf-8', newline='') as f:
+            if len(self.header)>0:
                 f.write('\n'.join(self.header)+'\n')
-            with open(self.filename, 'a', encoding='utf-8') as f:
-                try:
-                    self.data.to_csv(f,   sep=self.sep,     index=False,header=False, line_terminator='\n')
-                except TypeError:
-                    print('[WARN] CSVFile: Pandas failed, likely encoding error. Attempting a quick and dirty fix.')
-                    s=''
-                    vals=self.data.values
-                    for l in vals:
-                        sLine=(self.sep).join([str(v) for v in l])
-                        s+=sLine+'\n'
-                    f.write(s)
-        else:
-            self.data.to_csv(self.filename,sep=self.sep,index=False)
+            self.data.to_csv(f, sep=sep, index=False, header=writeNames, na_rep='NaN')
 
     def __repr__(self):
         s = 'CSVFile: {}\n'.format(self.filename)
-- 
2.43.0


From 1a5ebcd48a774b5c43f669bde829915bf328270a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:30 +0000
Subject: [PATCH 039/133] fix: CSV: names in comment lines of tab-separated
 files

Names separated by spaces in a comment line were lost once the table was
written, with tabs.
---
 weio/csv_file.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index 998aa3d..ea4c468 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -87,6 +87,11 @@ class CSVFile(File):
                 return s.strip().split()
             else:
                 return [c.strip() for c in s.strip().split(self.sep)]
+        def splitHeader(s, n):
+            cols = split(s)
+            if self.sep=='\t' and len(cols)!=n:
+                return s.split() # names separated by spaces, as opposed to the data
+            return cols
         def strIsFloat(s):
             try:
                 float(s)
@@ -184,7 +189,7 @@ class CSVFile(File):
                 if self.commentChar is not None:
                     if line.find(self.commentChar)==0:
                         line=line[len(self.commentChar):].strip()
-                self.colNames = split(line)
+                self.colNames = splitHeader(line, len(split(readline(iStartLine))))
             else:
                 line=readline(self.colNamesLine)
                 self.colNames=split(line)
@@ -226,7 +231,7 @@ class CSVFile(File):
                         if self.commentChar is not None:
                             if len(self.commentChar)>0:
                                 l=l[len(self.commentChar):]
-                        cols=split(l)
+                        cols=splitHeader(l, len(first_cols))
                         nFloat = sum([strIsFloat(s) for s in cols])
                         if len(cols)==len(first_cols) and nFloat <= len(colNames)-1:
                             self.colNames = cols
-- 
2.43.0


From fc573dce2408a052bf7082375cba3601b9a6337e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:32 +0000
Subject: [PATCH 040/133] fix: CSV: reading a second file with the same object

The separator, names and comments found in the first file were used as if
they had been given by the user.
---
 weio/csv_file.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index ea4c468..0a3c0cc 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -52,6 +52,7 @@ class CSVFile(File):
             else:
                 self.header=header
         self.nHeader=0
+        self._found={} # options found by the last read
         if (len(self.commentLines)>0) and (self.commentChar is not None):
             raise Exception('Provide either `commentChar` or `commentLines` for CSV file types')
         if (len(self.colNames)>0) and (self.colNamesLine is not None):
@@ -59,6 +60,17 @@ class CSVFile(File):
         super(CSVFile, self).__init__(filename=filename,**kwargs)
 
     def _read(self):
+        # Options found in a file only apply to that file, they need to be found again for another one
+        for k,(given,found) in self._found.items():
+            if getattr(self,k) is found:
+                setattr(self,k,given)
+        options = {k:getattr(self,k) for k in ['sep','colNames','commentChar','commentLines','colNamesLine']}
+        try:
+            self._readTable()
+        finally:
+            self._found = {k:(v,getattr(self,k)) for k,v in options.items() if getattr(self,k) is not v}
+
+    def _readTable(self):
         COMMENT_CHAR=['#','!',';']
         # --- Detecting encoding
         # NOTE: done by parent class method
-- 
2.43.0


From faae4168f881decdedc3bb8c6de755b39c605509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:02 +0000
Subject: [PATCH 041/133] fix: CSV: blanks after the separator

A column with a missing value was read as text, and words with a leading
blank.
---
 weio/csv_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index 0a3c0cc..9de768f 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -263,7 +263,7 @@ class CSVFile(File):
         try:
 #             self.data = pd.read_csv(self.filename,sep=self.sep,skiprows=skiprows,header=None,comment=self.commentChar,encoding=self.encoding)
             with open(self.filename,'r',encoding=self.encoding) as f:
-                self.data = pd.read_csv(f,sep=self.sep,skiprows=skiprows,header=None,comment=comment)
+                self.data = pd.read_csv(f,sep=self.sep,skiprows=skiprows,header=None,comment=comment,skipinitialspace=True)
         except pd.errors.EmptyDataError:
             if len(self.colNames)==0:
                 raise
-- 
2.43.0


From da6c5b92138b1a121c19d184d2009349babc8ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:19 +0000
Subject: [PATCH 042/133] fix: TurbSim time series: columns of files with
 several points

The components of a point follow each other in the file, the names given
to the columns had all the points of a component first.
---
 weio/turbsim_ts_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/turbsim_ts_file.py b/weio/turbsim_ts_file.py
index b9383bb..cb7727f 100644
--- a/weio/turbsim_ts_file.py
+++ b/weio/turbsim_ts_file.py
@@ -51,7 +51,7 @@ class TurbSimTSFile(File):
 
     def columns(self):
         Comp=['u','v','w']
-        return ['Time']+['Point{}{}'.format(ip+1,Comp[ic]) for ic in np.arange(self['nComp']) for ip in np.arange(len(self['Points']))]
+        return ['Time']+['Point{}{}'.format(ip+1,Comp[ic]) for ip in np.arange(len(self['Points'])) for ic in np.arange(self['nComp'])]
 
     def units(self):
         nPoints = self['Points'].shape[0]
-- 
2.43.0


From a7d1fc7fea1785f7c75b30f582b59c23481196f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:21 +0000
Subject: [PATCH 043/133] fix: TurbSim time series: comments are written as
 they were read

No line is added when there are none, and any encoding can be written.
---
 weio/turbsim_ts_file.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/weio/turbsim_ts_file.py b/weio/turbsim_ts_file.py
index cb7727f..923c1ff 100644
--- a/weio/turbsim_ts_file.py
+++ b/weio/turbsim_ts_file.py
@@ -68,7 +68,7 @@ class TurbSimTSFile(File):
                 lab='{:13s}'.format(lab)
             return val+' '+lab+' - '+descr.strip().strip('-')+'\n'
 
-        s='\n'.join(self['header'])+'\n'
+        s=''.join([h+'\n' for h in self['header']])
         nPoints = self['Points'].shape[0]
         s+=toStringVLD(self['nComp'],'nComp'  ,'Number of velocity components in the file'         )
         s+=toStringVLD(nPoints      ,'nPoints','Number of time series points contained in this file(-)')
@@ -85,8 +85,9 @@ class TurbSimTSFile(File):
         return s
 
     def _write(self):
-        with open(self.filename,'w') as f:
-            f.write(self.toString())
+        s = self.toString()
+        with open(self.filename,'w', errors="surrogateescape") as f:
+            f.write(s)
 
         
 
-- 
2.43.0


From 2d506dabbb309221d46123d4bebe37c55a88c80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:33 +0000
Subject: [PATCH 044/133] fix: FAST wind file: files without comments are
 written without names

The names written were then read as the first row, and FAST cannot read
them.
---
 weio/csv_file.py       | 10 ++++++----
 weio/fast_wind_file.py |  3 +++
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index 9de768f..daa62ee 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -285,14 +285,16 @@ class CSVFile(File):
             sep=','
         elif sep==r'\s+' or sep=='':
             sep='\t'
-        # When there is a header, a line of column names is only needed if the names come from such a line, or if they were changed
-        namesOnLine = self.colNamesLine is not None and self.colNamesLine>=0
-        writeNames  = len(self.header)==0 or namesOnLine or list(self.data.columns)!=list(self.colNames)
         # Write
         with open(self.filename, 'w', encoding='utf-8', newline='') as f:
             if len(self.header)>0:
                 f.write('\n'.join(self.header)+'\n')
-            self.data.to_csv(f, sep=sep, index=False, header=writeNames, na_rep='NaN')
+            self.data.to_csv(f, sep=sep, index=False, header=self._writeNames(), na_rep='NaN')
+
+    def _writeNames(self):
+        # When there is a header, a line of column names is only needed if the names come from such a line, or if they were changed
+        namesOnLine = self.colNamesLine is not None and self.colNamesLine>=0
+        return len(self.header)==0 or namesOnLine or list(self.data.columns)!=list(self.colNames)
 
     def __repr__(self):
         s = 'CSVFile: {}\n'.format(self.filename)
diff --git a/weio/fast_wind_file.py b/weio/fast_wind_file.py
index b642d89..21b6d03 100644
--- a/weio/fast_wind_file.py
+++ b/weio/fast_wind_file.py
@@ -46,6 +46,9 @@ class FASTWndFile(CSVFile):
         super(FASTWndFile, self)._write(*args, **kwargs)
 
 
+    def _writeNames(self):
+        return False # No line of column names in these files
+
     def _toDataFrame(self):
         return self.data
 
-- 
2.43.0


From 68b66d15bb6d423575e8925b1b6b5a831b89701a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:55 +0000
Subject: [PATCH 045/133] fix: text files with a tab on the first line are not
 binary

---
 weio/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/file.py b/weio/file.py
index 4172bd8..b6d6904 100644
--- a/weio/file.py
+++ b/weio/file.py
@@ -168,7 +168,7 @@ def isBinary(filename):
             # then look for weird characters
             for c in l:
                 code = ord(c)
-                if code<10 or (code>14 and code<31):
+                if code<9 or (code>14 and code<31):
                     return True
             return False
         except UnicodeDecodeError:
-- 
2.43.0


From 9ba59659acd048e291c0537776861c75316e8045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:21 +0000
Subject: [PATCH 046/133] fix: Bladed: binary data with bytes looking like text

The data were taken as text when the first byte was a line feed, or when
the bytes up to the first line feed were printable.
---
 weio/bladed_out_file.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/weio/bladed_out_file.py b/weio/bladed_out_file.py
index 302566c..496f83c 100644
--- a/weio/bladed_out_file.py
+++ b/weio/bladed_out_file.py
@@ -54,6 +54,10 @@ def read_bladed_sensor_file(sensorfile):
                 dat['nSections'] = 1
                 dat['SectionList'] = []
 
+        elif t_line.startswith('ACCESS'):
+            # D: direct access (binary), S: sequential access (ascii)
+            dat['Access'] = t_line[6:].strip().upper()
+
         elif t_line.startswith('FORMAT'):
             # precision: n/a, R*4, R*8, I*4 
             temp = t_line[7:].strip()
@@ -186,7 +190,9 @@ def read_bladed_output(sensorFilename, readTimeFilesOnly=False):
     # --- Read data file
     dataFilename = getDataFilename(sensorFilename)
 
-    if isBinary(dataFilename):            # it is binary            
+    # NOTE: the first bytes of a binary file may look like text
+    access = sensorInfo.get('Access','')
+    if access=='D' or (access!='S' and isBinary(dataFilename)):            # it is binary            
 
         with open(os.path.join(dataFilename), 'rb') as fid_2:
             data = np.fromfile(fid_2, sensorInfo['Precision'])
-- 
2.43.0


From ab1077222aaf7e34db5a3b074cb3127091f5aa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:42 +0000
Subject: [PATCH 047/133] fix: FLEX results: one time per time step, whatever
 the rounding of the time step

---
 weio/flex_out_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/flex_out_file.py b/weio/flex_out_file.py
index d9c95e5..9bfb560 100644
--- a/weio/flex_out_file.py
+++ b/weio/flex_out_file.py
@@ -41,7 +41,7 @@ class FLEXOutFile(File):
             raise WrongFormatError('FLEX File {}: '.format(self.filename)+'\n'+e.args[0])
         self.nt       = np.size(self.data,0)
         self.nSensors = np.size(self.data,1)
-        self.time = np.arange(self.tmin, self.tmin +  self.nt * self.dt, self.dt).reshape(self.nt,1).astype(dtype)
+        self.time = (float(self.tmin) + np.arange(self.nt) * float(self.dt)).reshape(self.nt,1).astype(dtype)
 
         # --- Then the sensor file
         sensor_filename = os.path.join(os.path.dirname(self.filename), "sensor")
-- 
2.43.0


From 442565efd85b8aa0675aba432cdac9dab9645f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:13 +0000
Subject: [PATCH 048/133] fix: FLEX profiles can be written and read back

---
 weio/flex_profile_file.py | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/weio/flex_profile_file.py b/weio/flex_profile_file.py
index 9a29f17..b4660a7 100644
--- a/weio/flex_profile_file.py
+++ b/weio/flex_profile_file.py
@@ -12,19 +12,21 @@ import os
 #from .wetb.fast import fast_io
 
 class ProfileSet():
-    def __init__(self,header,thickness,polars,polar_headers):
+    def __init__(self,header,thickness,polars,polar_headers,prefix=''):
+        self.prefix      = prefix # start of the header line in the file ('PROFILE SET' or nothing)
         self.header      = header
         self.polars      = polars
         self.thickness   = thickness
         self.polar_headers = polar_headers
 
-    def toString(self,PREFIX=''):
-        s =PREFIX+self.header+'\n'
+    def toString(self):
+        s =self.prefix+self.header+'\n'
+        s+=str(len(self.thickness))+'\n'
         s+=' '.join([str(t) for t in self.thickness])+'\n'
         s+=str(self.polars[0].shape[0])+'\n'
         for ph,t,polar in zip(self.polar_headers,self.thickness,self.polars):
             s+=ph+'\n'
-            s+='\n'.join([' '.join(['{:15.7e}'.format(v) for v in line]) for line in polar])
+            s+=''.join([' '.join(['{:15.7e}'.format(v) for v in line])+'\n' for line in polar])
 #             s+=ph+'\n'
         return s
 
@@ -66,7 +68,7 @@ class FLEXProfileFile(File):
                         break
                 if len(header)<4:
                     if allow_empty:
-                        return [],[],'',False
+                        return [],[],'',''
                     else:
                         raise WrongFormatError('A Flex profile file needs at leats 4 lines of headers')
                 try:
@@ -84,11 +86,11 @@ class FLEXProfileFile(File):
                 except:
                     raise WrongFormatError('Number of alpha values (integer) should be on line 4')
                 if header[0].lower().find('profile set')==0:
+                    prefix=header[0][:11]
                     header[0]=header[0][11:]
-                    bHasSets=True
                 else:
-                    bHasSets=False
-                return nAlpha,thickness,header[0],bHasSets
+                    prefix=''
+                return nAlpha,thickness,header[0],prefix
 
             def read_polars(nAlpha,thickness):
                 polars=[]
@@ -106,27 +108,23 @@ class FLEXProfileFile(File):
 
             # Reading headers and polars
             while True:
-                nAlpha,thickness,Header,bHasSets = read_header(allow_empty=setNumber>1)
+                nAlpha,thickness,Header,prefix   = read_header(allow_empty=setNumber>1)
                 if len(thickness)==0: 
                     break
                 polars,polar_headers             = read_polars(nAlpha,thickness)
-                PSet= ProfileSet(Header,thickness,polars,polar_headers)
+                PSet= ProfileSet(Header,thickness,polars,polar_headers,prefix)
                 self.ProfileSets.append(PSet)
                 setNumber=setNumber+1
 
     def toString(self):
         s=''
-        if len(self.ProfileSets)>0:
-            prefix='PROFILE SET '
-        else:
-            prefix=''
         for pset in self.ProfileSets:
-            s+=pset.toString(prefix)
+            s+=pset.toString()
         return s
 
     def _write(self):
-        with open(self.filename,'w') as f:
-            f.write(self.toString)
+        with open(self.filename,'w', errors="surrogateescape") as f:
+            f.write(self.toString())
 
     def __repr__(self):
         s ='Class FlexProfileFile (attributes: ProfileSets)\n'
-- 
2.43.0


From 33b45ef3ef00099f6feb91a77281f0fc7fc2eddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:16 +0000
Subject: [PATCH 049/133] fix: FLEX wave kinematics: the elevation is given for
 each displacement

---
 weio/flex_wavekin_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weio/flex_wavekin_file.py b/weio/flex_wavekin_file.py
index 684e8f8..994c560 100644
--- a/weio/flex_wavekin_file.py
+++ b/weio/flex_wavekin_file.py
@@ -73,8 +73,9 @@ class FLEXWaveKinFile(File):
         self['RelDepth']      = depth
         self['Displacements'] = displ
 
-        cols=['Time_[s]', 'WaveElev_[m]']
+        cols=['Time_[s]']
         for j,x in enumerate(displ):
+            cols+=['WaveElev_[m]' if nDisp==1 else 'WaveElev_x={:.1f}_[m]'.format(x)]
             for i,z in enumerate(depth):
                 cols+=['u_z={:.1f}_x={:.1f}_[m/s]'.format(z*self['WaterDepth']*-1,x)]
             for i,z in enumerate(depth):
-- 
2.43.0


From d64f8f1d6d60f1ebc759e5cce3fd3931e157be60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:19 +0000
Subject: [PATCH 050/133] fix: FLEX doc: matrices keep their first row, mass
 matrix of the blade

---
 weio/flex_doc_file.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/weio/flex_doc_file.py b/weio/flex_doc_file.py
index aeac114..36b127e 100644
--- a/weio/flex_doc_file.py
+++ b/weio/flex_doc_file.py
@@ -54,7 +54,7 @@ class FLEXDocFile(File):
         ]
 
         ArraysNoHeader=[
-        '#Blade_IsolatedMassMatrix'
+        '#Blade_IsolatedMassMatrix',
         '#Blade_IsolatedStiffnessMatrix',
         '#Blade_IsolatedDampingMatrix',
         '#Foundation_IsolatedMassMatrix',
@@ -129,8 +129,6 @@ class FLEXDocFile(File):
                 elif sp[0] in ArraysNoHeader:
                     array_lines=[]
                     i=i+1
-                    header=lines[i]
-                    i=i+1
                     while i<len(lines) and len(lines[i])>0 and lines[i][0]!='#':
                         array_lines.append(np.array([float(v) for v in lines[i].split()]))
                         i=i+1
-- 
2.43.0


From a7153d4f2286433e009b3c38e5e022670fe6407d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:21 +0000
Subject: [PATCH 051/133] fix: FLEX doc: strings are kept, digits in names,
 units and comments are not values

---
 weio/flex_doc_file.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/weio/flex_doc_file.py b/weio/flex_doc_file.py
index 36b127e..8b3ef93 100644
--- a/weio/flex_doc_file.py
+++ b/weio/flex_doc_file.py
@@ -148,12 +148,17 @@ class FLEXDocFile(File):
                     key=keys[0][1:]
                     subkey = '_'.join(keys[1:])
                     values= ' '.join(sp[1:])
-                    try:
-                        dat= np.array(rx.findall(values)).astype(float)
-                        if len(dat)==1:
-                            dat=dat[0]
-                    except:
+                    # Leading numbers (possibly glued together), what follows is units and comments
+                    dat = []
+                    for v in sp[1:]:
+                        numbers = rx.findall(v)
+                        if len(numbers)==0 or ''.join(numbers)!=v:
+                            break
+                        dat += [float(n) for n in numbers]
+                    if len(dat)==0:
                         dat = values
+                    else:
+                        dat = dat[0] if len(dat)==1 else np.array(dat)
 
                     if len(key.strip())>0:
                         if len(subkey)==0:
-- 
2.43.0


From 07c7f109ba2151e1082486709a6163e40b049b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:24 +0000
Subject: [PATCH 052/133] fix: FLEX doc: reading again replaces the content

---
 weio/flex_doc_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weio/flex_doc_file.py b/weio/flex_doc_file.py
index 8b3ef93..050dd49 100644
--- a/weio/flex_doc_file.py
+++ b/weio/flex_doc_file.py
@@ -21,6 +21,7 @@ class FLEXDocFile(File):
         return 'FLEX WaveKin file'
 
     def _read(self):
+        self.clear()
         with open(self.filename, 'r', errors="surrogateescape") as f:
             line1=f.readline().strip()
             if line1.find('#Program')!=0:
-- 
2.43.0


From 5905e03a2ddc25a7cccc0685e04f332120882d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:28 +0000
Subject: [PATCH 053/133] fix: FLEX doc: extension .doc

---
 weio/flex_doc_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/flex_doc_file.py b/weio/flex_doc_file.py
index 050dd49..12ce067 100644
--- a/weio/flex_doc_file.py
+++ b/weio/flex_doc_file.py
@@ -14,7 +14,7 @@ class FLEXDocFile(File):
 
     @staticmethod
     def defaultExtensions():
-        return ['.out','doc']
+        return ['.out','.doc']
 
     @staticmethod
     def formatName():
-- 
2.43.0


From 4071810b3ba1bafd23ee8c1768865a36dd6bbf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:01 +0000
Subject: [PATCH 054/133] fix: FLEX sensor file may end with blank lines

---
 weio/flex_out_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weio/flex_out_file.py b/weio/flex_out_file.py
index 9bfb560..835215f 100644
--- a/weio/flex_out_file.py
+++ b/weio/flex_out_file.py
@@ -135,6 +135,8 @@ def read_flex_sensor(sensor_file):
     d=dict({ 'ID':[],'Gain':[],'Offset':[],'Unit':[],'Name':[],'Description':[]});
     for line in sensor_info_lines:
         line   = line.strip().split()
+        if len(line)==0:
+            continue
         d['ID']          .append(int(line[0]))
         d['Gain']        .append(float(line[1]))
         d['Offset']      .append(float(line[2]))
-- 
2.43.0


From 1e639e8dede95cf3d9423c014febcc4349788324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:03 +0000
Subject: [PATCH 055/133] fix: FLEX results of an unknown version are not FLEX
 results

---
 weio/flex_out_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weio/flex_out_file.py b/weio/flex_out_file.py
index 835215f..39bab66 100644
--- a/weio/flex_out_file.py
+++ b/weio/flex_out_file.py
@@ -111,6 +111,8 @@ def read_flex_res(filename, dtype=np.float32):
             tmin = np.fromfile(fid, 'f', 1)[0] # Dummy
             dt = np.fromfile(fid, 'f', 1)[0] # Dummy
             scale_factors = np.fromfile(fid, 'f', nSensors).astype(dtype)
+        else:
+            raise WrongFormatError('Unknown version {}'.format(Version))
         # --- Reading Time series
         # FILE POSITION <<< fid.seek(8*nSensors + 48*2)
         data = np.fromfile(fid, 'int16').astype(dtype) #data = np.fromstring(fid.read(), 'int16').astype(dtype)
-- 
2.43.0


From 0782a4b453fc47fc2de9e5f31c5d36a84d15f564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:09 +0000
Subject: [PATCH 056/133] fix: FAST inputs: the additional stiffness lines are
 written as they are

---
 weio/fast_input_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 48887a8..f5e89ee 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -725,6 +725,8 @@ class FASTInputFileBase(File):
                 if d['label']!='AirfoilCoord': # No line of units for airfoil coordinates
                     s+='! {}\n'.format(' '.join(['{:15s}'.format(s) for s in d['tabUnits']]))
                 s+='\n'.join('\t'.join('{:15.8e}'.format(x) for x in y) for y in d['value'])
+            elif d['label']=='KDAdd': # raw lines, see read
+                s+='\n'.join(d['value'])
             elif d['tabType']==TABTYPE_FIL:
                 #f.write('{} {} {}\n'.format(d['value'][0],d['tabDetect'],d['descr']))
                 s+='{} {} {}\n'.format(d['value'][0],d['label'],d['descr']) # TODO?
-- 
2.43.0


From 4b60a1237d559cdc0888e93f223a5cc2dc1b7328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:09 +0000
Subject: [PATCH 057/133] fix: HAWC2 dat toDataFrame must not rename the
 channels of the file object

---
 weio/hawc2_dat_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/hawc2_dat_file.py b/weio/hawc2_dat_file.py
index 3a3bab4..f45aaaf 100644
--- a/weio/hawc2_dat_file.py
+++ b/weio/hawc2_dat_file.py
@@ -57,7 +57,7 @@ class HAWC2DatFile(File):
         import re
 
         # Simplify output names
-        names=self.info['attribute_names']
+        names=list(self.info['attribute_names'])
         for i,desc in enumerate(self.info['attribute_descr']):
             elem = re.findall(r'E-nr:\s*(\d+)', desc)
             zrel = re.findall(r'Z-rel:\s*(\d+.\d+)', desc)
-- 
2.43.0


From 421f2d9427cb2d6f1b39e0562b8676da048fd3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:11 +0000
Subject: [PATCH 058/133] fix: HAWC2 dat file read after a BHAWC file is no
 longer written as BHAWC

---
 weio/hawc2_dat_file.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/weio/hawc2_dat_file.py b/weio/hawc2_dat_file.py
index f45aaaf..81697b5 100644
--- a/weio/hawc2_dat_file.py
+++ b/weio/hawc2_dat_file.py
@@ -41,8 +41,7 @@ class HAWC2DatFile(File):
             self.info['attribute_names'] = res_file.ChInfo[0]
             self.info['attribute_units'] = res_file.ChInfo[1]
             self.info['attribute_descr'] = res_file.ChInfo[2]
-            if res_file.FileFormat=='BHAWC_ASCII':
-                self.bHawc=True
+            self.bHawc = res_file.FileFormat=='BHAWC_ASCII'
         except FileNotFoundError:
             raise
             #raise WrongFormatError('HAWC2 dat File {}:  '.format(self.filename)+' File Not Found:'+e.filename)
-- 
2.43.0


From fc350e233b3d1d1e2b9c8f424c3f01ca69a027b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:14 +0000
Subject: [PATCH 059/133] fix: HAWC2 dat write to a .sel name only replaces the
 extension

---
 weio/hawc2_dat_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/hawc2_dat_file.py b/weio/hawc2_dat_file.py
index 81697b5..db8be43 100644
--- a/weio/hawc2_dat_file.py
+++ b/weio/hawc2_dat_file.py
@@ -106,7 +106,7 @@ class HAWC2DatFile(File):
         if ext=='.dat':
             datfilename=filename
         elif ext=='.sel':
-            datfilename=filename.replace(ext,'.dat')
+            datfilename=os.path.splitext(filename)[0]+'.dat'
         else:
             datfilename=filename+'.dat'
         selfilename=datfilename[:-4]+'.sel'
-- 
2.43.0


From 7058ae9e91cc5ef7a30eef226ed6a5cc4f30efad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:16 +0000
Subject: [PATCH 060/133] fix: HAWC2 sel without final newline keeps the last
 character of the description

---
 weio/wetb/hawc2/Hawc2io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/wetb/hawc2/Hawc2io.py b/weio/wetb/hawc2/Hawc2io.py
index 192ab50..5d849c5 100644
--- a/weio/wetb/hawc2/Hawc2io.py
+++ b/weio/wetb/hawc2/Hawc2io.py
@@ -153,7 +153,7 @@ class ReadHawc2(object):
             for i in range(0, self.NrCh):
                 temp = str(Lines[i + 12][12:43]); Name.append(temp.strip())
                 temp = str(Lines[i + 12][43:54]); Unit.append(temp.strip())
-                temp = str(Lines[i + 12][54:-1]); Description.append(temp.strip())
+                temp = str(Lines[i + 12][54:]); Description.append(temp.strip())
             self.ChInfo = [Name, Unit, Description]
             # if binary file format, scaling factors are read
             if Format.lower() == 'binary':
-- 
2.43.0


From 8ea1d0eeb5562976f88cc32deca5b83326e2a7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:19 +0000
Subject: [PATCH 061/133] fix: BHAWC sel: the unit is the last column, also
 when its text occurs in the description

---
 weio/wetb/hawc2/Hawc2io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/wetb/hawc2/Hawc2io.py b/weio/wetb/hawc2/Hawc2io.py
index 5d849c5..bfb468b 100644
--- a/weio/wetb/hawc2/Hawc2io.py
+++ b/weio/wetb/hawc2/Hawc2io.py
@@ -119,7 +119,7 @@ class ReadHawc2(object):
                 iNum  = line.find(num)
                 line  = line[iNum+len(num)+1:]
                 unit  = sp[-1]
-                iUnit = line.find(unit)
+                iUnit = line.rfind(unit)
                 line  = line[:iUnit]
                 # --- Splitting to find label and description
                 sp=[sp.strip() for sp in line.split('\t') if len(sp.strip())>0]
-- 
2.43.0


From e2ee689926ec6b51d6e201f1cd91468e5f75fb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:22 +0000
Subject: [PATCH 062/133] fix: HAWC2PCFile.sets refers to the sets of the file

---
 weio/hawc2_pc_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/hawc2_pc_file.py b/weio/hawc2_pc_file.py
index 74e69bd..e7a75c5 100644
--- a/weio/hawc2_pc_file.py
+++ b/weio/hawc2_pc_file.py
@@ -77,7 +77,7 @@ class HAWC2PCFile(File):
 
     @property
     def sets(self):
-        return self.pc_sets
+        return self.data.pc_sets
 
     def __repr__(self):
         cols=['Alpha_[deg]','Cl_[-]','Cd_[-]','Cm_[-]']
-- 
2.43.0


From 84fdb6de4bc344e76c7e4fa7677ee51fc4830e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:06 +0000
Subject: [PATCH 063/133] fix: HAWC2 results ending at time 0 can be read (no
 sampling frequency)

---
 weio/wetb/hawc2/Hawc2io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/wetb/hawc2/Hawc2io.py b/weio/wetb/hawc2/Hawc2io.py
index bfb468b..10f46da 100644
--- a/weio/wetb/hawc2/Hawc2io.py
+++ b/weio/wetb/hawc2/Hawc2io.py
@@ -95,7 +95,7 @@ class ReadHawc2(object):
             self.NrSc = int(temp[0])
             self.NrCh = int(temp[1])
             self.Time = float(temp[2])
-            self.Freq = self.NrSc / self.Time
+            self.Freq = self.NrSc / self.Time if self.Time != 0 else np.nan
             self.t = np.linspace(0, self.Time, self.NrSc + 1)[1:]
             # --- Find line with channel info
             iLine=0
@@ -145,7 +145,7 @@ class ReadHawc2(object):
             self.NrSc = int(temp[0])
             self.NrCh = int(temp[1])
             self.Time = float(temp[2])
-            self.Freq = self.NrSc / self.Time
+            self.Freq = self.NrSc / self.Time if self.Time != 0 else np.nan
             self.t = np.linspace(0, self.Time, self.NrSc + 1)[1:]
             Format = temp[3]
             # reads channel info (name, unit and description)
-- 
2.43.0


From 8f4b657eaa029acb8ebe1a3a066c10429a249f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:09 +0000
Subject: [PATCH 064/133] fix: htc sections may contain several blank lines in
 a row or end after one

---
 weio/wetb/hawc2/htc_contents.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weio/wetb/hawc2/htc_contents.py b/weio/wetb/hawc2/htc_contents.py
index 22aa3e4..800ec4b 100644
--- a/weio/wetb/hawc2/htc_contents.py
+++ b/weio/wetb/hawc2/htc_contents.py
@@ -236,6 +236,7 @@ class HTCSection(HTCContents):
         while lines:
             if lines[0].strip() == "":
                 lines.pop(0)
+                continue
             if lines[0].lower().startswith("begin"):
                 section._add_contents(HTCSection.from_lines(lines))
             elif lines[0].lower().startswith("end"):
-- 
2.43.0


From 55e638bf8451ef938d387e43b1b7081e1d01bba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:12 +0000
Subject: [PATCH 065/133] fix: htc output_at_time section with a comment can be
 written

---
 weio/wetb/hawc2/htc_contents.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/wetb/hawc2/htc_contents.py b/weio/wetb/hawc2/htc_contents.py
index 800ec4b..a310042 100644
--- a/weio/wetb/hawc2/htc_contents.py
+++ b/weio/wetb/hawc2/htc_contents.py
@@ -420,7 +420,7 @@ class HTCOutputAtTimeSection(HTCOutputSection):
 
     def __str__(self, level=0):
         s = "%sbegin %s %s %s;%s\n" % ("  " * level, self.name_, self.type, self.time,
-                                       ("", "\t" + self.begin_comments)[len(self.begin_comments.strip())])
+                                       ("", "\t" + self.begin_comments)[self.begin_comments.strip() != ""])
         s += "".join([c.__str__(level + 1) for c in self])
         s += "".join([s.__str__(level + 1) for s in self.sensors])
         s += "%send %s;%s\n" % ("  " * level, self.name_, ("", "\t" + self.end_comments)
-- 
2.43.0


From 0b096855f44ffca203b358485fdde967ef2e05de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:14 +0000
Subject: [PATCH 066/133] fix: HAWC2 ae sets are found by their set number

---
 weio/hawc2_ae_file.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/weio/hawc2_ae_file.py b/weio/hawc2_ae_file.py
index 950fe6a..4ad79b5 100644
--- a/weio/hawc2_ae_file.py
+++ b/weio/hawc2_ae_file.py
@@ -58,20 +58,20 @@ class HAWC2AEFile(File):
         cols=['radius_[m]','chord_[m]','thickness_[%]','pc_set_[#]']
         nset = len(self.data.ae_sets)
         if nset == 1:
-            return pd.DataFrame(data=self.data.ae_sets[1], columns=cols)
+            return pd.DataFrame(data=list(self.data.ae_sets.values())[0], columns=cols)
         else:
             dfs = {}
-            for iset,aeset in enumerate(self.data.ae_sets):
-                name='ae_set_{}'.format(iset+1)
-                dfs[name] = pd.DataFrame(data=self.data.ae_sets[iset+1], columns=cols)
+            for iset,aeset in self.data.ae_sets.items():
+                name='ae_set_{}'.format(iset)
+                dfs[name] = pd.DataFrame(data=aeset, columns=cols)
             return dfs
 
     @property
     def sets(self):
         # Returns a list of ae_sets, otherwise not easy to iterate
         sets=[]
-        for iset,aeset in enumerate(self.data.ae_sets):
-            sets.append(self.data.ae_sets[iset+1])
+        for iset,aeset in self.data.ae_sets.items():
+            sets.append(aeset)
         return sets
 
     # --- Convenient utils
-- 
2.43.0


From fc9e91ebfc5ab9bb7c9d2deca4ce2d19d21bb11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:15 +0000
Subject: [PATCH 067/133] fix: BHAWC descriptions and labels are written in
 full (columns are tab separated)

---
 weio/hawc2_dat_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/hawc2_dat_file.py b/weio/hawc2_dat_file.py
index db8be43..93fed4f 100644
--- a/weio/hawc2_dat_file.py
+++ b/weio/hawc2_dat_file.py
@@ -129,7 +129,7 @@ class HAWC2DatFile(File):
                 f.write('{:19s}\t{:25s}\t{:25s}\t{:25s}\n'.format('Channel','Variable descriptions','Labels','Units'))
                 for chan,(label,descr,unit) in enumerate(zip(self.info['attribute_names'],self.info['attribute_descr'],self.info['attribute_units'])):
                     unit=unit.replace('(','').replace(')','').replace('[','').replace(']','')
-                    f.write('{:19s}\t{:25s}\t{:25s}\t{:25s}\n'.format(str(chan+1),descr[0:26],label[0:26],'['+unit+']'))
+                    f.write('{:19s}\t{:25s}\t{:25s}\t{:25s}\n'.format(str(chan+1),descr,label,'['+unit+']'))
             else:
 
                 f.write('________________________________________________________________________________________________________________________\n')
-- 
2.43.0


From c762b0d78657502226e6b4c9c2ff9f755b0bcefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:45 +0000
Subject: [PATCH 068/133] fix: BHAWC sel files with only a few channels can be
 read

---
 weio/wetb/hawc2/Hawc2io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/wetb/hawc2/Hawc2io.py b/weio/wetb/hawc2/Hawc2io.py
index 10f46da..aafd72b 100644
--- a/weio/wetb/hawc2/Hawc2io.py
+++ b/weio/wetb/hawc2/Hawc2io.py
@@ -86,7 +86,7 @@ class ReadHawc2(object):
         if Lines[0].lower().find('bhawc')>=0:
             # --- Find line with scan info
             iLine=0
-            for i in np.arange(5,10):
+            for i in np.arange(5,min(10,len(Lines))):
                 if Lines[i].lower().find('scans')>=0:
                     iLine=i+1
             if iLine==0:
@@ -99,7 +99,7 @@ class ReadHawc2(object):
             self.t = np.linspace(0, self.Time, self.NrSc + 1)[1:]
             # --- Find line with channel info
             iLine=0
-            for i in np.arange(5,13):
+            for i in np.arange(5,min(13,len(Lines))):
                 if Lines[i].lower().find('channel')>=0:
                     iLine=i+1
             if iLine==0:
-- 
2.43.0


From e80238289e7b489d4eef929952576c15e6b3dd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:46 +0000
Subject: [PATCH 069/133] fix: htc files: st files are looked up from the model
 path, not from the folder of the htc file

---
 weio/hawc2_htc_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/hawc2_htc_file.py b/weio/hawc2_htc_file.py
index 0a7449c..1a04497 100644
--- a/weio/hawc2_htc_file.py
+++ b/weio/hawc2_htc_file.py
@@ -96,7 +96,7 @@ class HAWC2HTCFile(File):
         dfs ={}
         j=0
 
-        simdir  = os.path.dirname(self.filename)
+        simdir  = self.data.modelpath # paths in htc files are relative to the model path
 
         # --- C2 def
         bodyKeys = [k for k in self.data.new_htc_structure.keys() if k.startswith('main_body')]
-- 
2.43.0


From cb6952f9f2670be419f558c0d0002cbeb00e44a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:45 +0000
Subject: [PATCH 070/133] fix: VTKFile read and write use the name of the
 object when none is given

---
 weio/vtk_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index e3ed2f7..df120b1 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -97,7 +97,7 @@ class VTKFile(File):
         if os.stat(self.filename).st_size == 0:
             raise EmptyFileError('File is empty:',self.filename)
 
-        with open(filename, "rb") as f:
+        with open(self.filename, "rb") as f:
             # initialize output data
             # skip header and title
             f.readline()
@@ -170,7 +170,7 @@ class VTKFile(File):
                 if len(values.shape) == 2 and values.shape[1] == 2:
                     data[k] = pad(data[k])
 
-        with open(filename, "wb") as f:
+        with open(self.filename, "wb") as f:
             f.write(b"# vtk DataFile Version 4.2\n")
             f.write("written \n".encode("utf-8"))
             f.write(("BINARY\n" if binary else "ASCII\n").encode("utf-8"))
-- 
2.43.0


From 9a357ab32f950087d53e357a2810e14f061d7491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:48 +0000
Subject: [PATCH 071/133] fix: VTKFile.read starts from a clean state

---
 weio/vtk_file.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index df120b1..b7befb3 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -57,6 +57,12 @@ class VTKFile(File):
 
     def __init__(self,filename=None,**kwargs):
         self.filename = None
+        self._init_data()
+        # Propagate read
+        if filename:
+            self.read(filename=filename,**kwargs)
+
+    def _init_data(self):
         # For regular grid
         self.xp_grid=None  # location of points
         self.yp_grid=None
@@ -81,10 +87,6 @@ class VTKFile(File):
         self.num_items = 0
         self.section = None
 
-        # Propagate read
-        if filename:
-            self.read(filename=filename,**kwargs)
-
 
     def read(self, filename=None):
         """ read a VTK file """
@@ -97,6 +99,7 @@ class VTKFile(File):
         if os.stat(self.filename).st_size == 0:
             raise EmptyFileError('File is empty:',self.filename)
 
+        self._init_data() # forget previous file
         with open(self.filename, "rb") as f:
             # initialize output data
             # skip header and title
-- 
2.43.0


From 90f3e3bea96153c50b0b5d8c7ccc41d995b8ae66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:50 +0000
Subject: [PATCH 072/133] fix: VTK structured points with scalar or tensor
 fields can be read

---
 weio/vtk_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index b7befb3..5fa6f47 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -140,7 +140,7 @@ class VTKFile(File):
             # We provide point_data_grid, corresponds to point_data but reshaped
             for k,PD in self.point_data.items():
                 # NOTE: tested foe len(y)=1, len(z)=1
-                self.point_data_grid[k]=PD.reshape(len(self.xp_grid), len(self.yp_grid), len(self.zp_grid),PD.shape[1], order='F')
+                self.point_data_grid[k]=PD.reshape((len(self.xp_grid), len(self.yp_grid), len(self.zp_grid))+(PD.shape[1:] or (1,)), order='F')
 
 
     def write(self, filename=None, binary=True):
-- 
2.43.0


From 303e00d6c6060dfe21ad842819dd2ff9819c9b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:53 +0000
Subject: [PATCH 073/133] fix: writing a VTK file does not change the data of
 the object

---
 weio/vtk_file.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index 5fa6f47..1dd0f00 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -163,15 +163,11 @@ class VTKFile(File):
         else:
             points = self.points
 
-        if self.point_data:
-            for name, values in self.point_data.items():
-                if len(values.shape) == 2 and values.shape[1] == 2:
-                    self.point_data[name] = pad(values)
+        def pad2(values):
+            return pad(values) if len(values.shape) == 2 and values.shape[1] == 2 else values
 
-        for name, data in self.cell_data.items():
-            for k, values in enumerate(data):
-                if len(values.shape) == 2 and values.shape[1] == 2:
-                    data[k] = pad(data[k])
+        point_data = {name: pad2(values) for name, values in self.point_data.items()}
+        cell_data  = {name: [pad2(values) for values in data] for name, data in self.cell_data.items()}
 
         with open(self.filename, "wb") as f:
             f.write(b"# vtk DataFile Version 4.2\n")
@@ -184,16 +180,16 @@ class VTKFile(File):
             _write_cells(f, self.cells, binary)
 
             # write point data
-            if self.point_data:
+            if point_data:
                 num_points = self.points.shape[0]
                 f.write("POINT_DATA {}\n".format(num_points).encode("utf-8"))
-                _write_field_data(f, self.point_data, binary)
+                _write_field_data(f, point_data, binary)
 
             # write cell data
-            if self.cell_data:
+            if cell_data:
                 total_num_cells = sum(len(c.data) for c in self.cells)
                 f.write("CELL_DATA {}\n".format(total_num_cells).encode("utf-8"))
-                _write_field_data(f, self.cell_data, binary)
+                _write_field_data(f, cell_data, binary)
 
 
     def __repr__(self):
-- 
2.43.0


From e16b872b95f8e778f9eaf70a9cd4962002aa90ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:55 +0000
Subject: [PATCH 074/133] fix: VTK tensors are written with their nine
 components

---
 weio/vtk_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index 1dd0f00..ce395b5 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -1283,7 +1283,7 @@ def _write_field_data(f, data, binary):
             num_components = 1
         else:
             num_tuples = values.shape[0]
-            num_components = values.shape[1]
+            num_components = values.size // max(num_tuples, 1)
 
         if " " in name:
             raise WriteError("VTK doesn't support spaces in field names", name)
-- 
2.43.0


From cf724a07e0d73882ddefbc0ffc79d243ea0b0c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:58 +0000
Subject: [PATCH 075/133] fix: VTK lookup tables and color scalars are skipped
 without disturbing the data after them

---
 weio/vtk_file.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index ce395b5..1359b12 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -768,18 +768,21 @@ def _read_section(f, info):
         info.num_items = int(info.split[1])
 
     elif info.section == "LOOKUP_TABLE":
-        info.num_items = int(info.split[2])
-        numpy.fromfile(f, count=info.num_items * 4, sep=" ", dtype=float)
-        # rgba = data.reshape((info.num_items, 4))
+        num_items = int(info.split[2]) # NOTE: num_items of active POINT/CELL_DATA is kept
+        if info.is_ascii:
+            numpy.fromfile(f, count=num_items * 4, sep=" ", dtype=float)
+        else:
+            numpy.fromfile(f, count=num_items * 4, dtype=numpy.ubyte)
+        # rgba = data.reshape((num_items, 4))
 
     elif info.section == "COLOR_SCALARS":
         nValues = int(info.split[2])
         # re-use num_items from active POINT/CELL_DATA
         num_items = info.num_items
-        dtype = numpy.ubyte
         if info.is_ascii:
-            dtype = float
-        numpy.fromfile(f, count=num_items * nValues, dtype=dtype)
+            numpy.fromfile(f, count=num_items * nValues, sep=" ", dtype=float)
+        else:
+            numpy.fromfile(f, count=num_items * nValues, dtype=numpy.ubyte)
 
 
 def _read_subsection(f, info):
-- 
2.43.0


From 8c1b1436da665731c4f6b5f60270e76b46358f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:01 +0000
Subject: [PATCH 076/133] fix: VTK rectilinear grids: points keep the precision
 of every axis

---
 weio/vtk_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index 1359b12..e045c5e 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -917,7 +917,7 @@ def _generate_points(axis):
     z_dim = len(axis[2])
     pnt_no = x_dim * y_dim * z_dim
     x_id, y_id, z_id = numpy.mgrid[0:x_dim, 0:y_dim, 0:z_dim]
-    points = numpy.empty((pnt_no, 3), dtype=axis[0].dtype)
+    points = numpy.empty((pnt_no, 3), dtype=numpy.result_type(*axis))
     # VTK sorts points and cells in Fortran order
     points[:, 0] = axis[0][x_id.reshape(-1, order="F")]
     points[:, 1] = axis[1][y_id.reshape(-1, order="F")]
-- 
2.43.0


From 3ead562af2b0feaca07d6d00abc38c28f569e0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:03 +0000
Subject: [PATCH 077/133] fix: VTK grids made of one point can be read

---
 weio/vtk_file.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index e045c5e..b9ed6c7 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -873,7 +873,11 @@ def _generate_cells(dim):
     ele_no = numpy.prod(ele_dim, dtype=int)
     spatial_dim = len(ele_dim)
 
-    if spatial_dim == 1:
+    if spatial_dim == 0:
+        # one point
+        cells = numpy.array([[1, 0]], dtype=int)
+        cell_types = numpy.full(1, 1, dtype=int)
+    elif spatial_dim == 1:
         # cells are lines in 1D
         cells = numpy.empty((ele_no, 3), dtype=int)
         cells[:, 0] = 2
-- 
2.43.0


From 42262d27d64664ba27847119c844610e4af86f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:14 +0000
Subject: [PATCH 078/133] fix: Tecplot read starts from a clean state, and uses
 the name of the object when none is given

---
 weio/tecplot_file.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/weio/tecplot_file.py b/weio/tecplot_file.py
index 1c9aa2d..f24c189 100644
--- a/weio/tecplot_file.py
+++ b/weio/tecplot_file.py
@@ -85,7 +85,7 @@ def _process_merged_line(line, section, dict_out):
         print('Processing section {}:'.format(section),line)
         dict_out[section]=line
 
-def read_tecplot(filename, dict_out={}):
+def read_tecplot(filename, dict_out=None):
     """ Reads a tecplot file
     Limited support:
        - title optional
@@ -94,6 +94,8 @@ def read_tecplot(filename, dict_out={}):
     For now, assumes that only one section of numerical data is present
     """
 
+    if dict_out is None:
+        dict_out={}
     merged_line=''
     current_section=''
     variables=[]
@@ -174,7 +176,8 @@ class TecplotFile(File):
             raise EmptyFileError('File is empty:',self.filename)
 
         try:
-            read_tecplot(filename,self)
+            self.clear()
+            read_tecplot(self.filename,self)
         except BrokenFormatError:
             raise 
         except WrongFormatError:
-- 
2.43.0


From 2e9849345944c9091a0674fef25e5a364890b184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:16 +0000
Subject: [PATCH 079/133] fix: blank lines do not end a Tecplot file

---
 weio/tecplot_file.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/weio/tecplot_file.py b/weio/tecplot_file.py
index f24c189..17c7afd 100644
--- a/weio/tecplot_file.py
+++ b/weio/tecplot_file.py
@@ -103,10 +103,13 @@ def read_tecplot(filename, dict_out=None):
         dfs = []  # list of dataframes
         iline=0
         while True:
-            line= f.readline().strip()
+            line= f.readline()
             iline+=1
             if not line:
-                break
+                break # end of file
+            line=line.strip()
+            if not line:
+                continue
             l=line.lower().strip()
             # Comment
             if l[0]=='#':
-- 
2.43.0


From c0980715646f914ea9f2b2522ae2656df38e7275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:19 +0000
Subject: [PATCH 080/133] fix: Tecplot files with one row or one variable can
 be read

---
 weio/tecplot_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/tecplot_file.py b/weio/tecplot_file.py
index 17c7afd..feaf3fa 100644
--- a/weio/tecplot_file.py
+++ b/weio/tecplot_file.py
@@ -139,7 +139,7 @@ def read_tecplot(filename, dict_out=None):
                         _process_merged_line(merged_line, current_section, dict_out)
                     # --- Special case of numerical values outside of zone
                     f.close()
-                    M = np.loadtxt(filename, skiprows = iline-1)
+                    M = np.loadtxt(filename, skiprows = iline-1, ndmin=2)
                     if M.shape[1]!=len(dict_out['variables']):
                         raise BrokenFormatError('Number of columns of data does not match number of variables')
                     dict_out['data']=M
-- 
2.43.0


From 2ca3e82c4a8d578de8e3b60bfc4d69d57f4c1b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:21 +0000
Subject: [PATCH 081/133] fix: Tecplot title and variable names are kept as
 given between the quotes, whatever separates them

---
 weio/tecplot_file.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/weio/tecplot_file.py b/weio/tecplot_file.py
index feaf3fa..0c58b25 100644
--- a/weio/tecplot_file.py
+++ b/weio/tecplot_file.py
@@ -8,6 +8,7 @@ Part of weio library: https://github.com/ebranlard/weio
 import pandas as pd
 import numpy as np
 import os
+import re
 import struct
 
 try:
@@ -45,20 +46,16 @@ def _process_merged_line(line, section, dict_out):
     n = len(section)
     line = line[n:].strip()
     if section=='title':
-        dict_out[section]=line
+        dict_out[section]=line.lstrip('=').strip()
     elif section=='variables':
-        line = line.replace('=','').strip()
-        line = line.replace(',',' ').strip()
-        line = line.replace('  ',' ').strip()
+        line = line.lstrip('=').strip()
         line = line.replace('[','_[').strip()
         line = line.replace('(','_(').strip()
         line = line.replace('__','_').strip()
         if line.find('"')==0:
-            line = line.replace('" "',',')
-            line = line.replace('"','')
-            sp=line.split(',')
+            sp=[s.strip() for s in re.findall(r'"([^"]*)"', line)]
         else:
-            sp=line.split()
+            sp=line.replace(',',' ').split()
         dict_out[section]=sp
     elif section=='datasetauxdata':
         if section not in dict_out.keys():
-- 
2.43.0


From 843aba1d1c5dfeaa20fda9447ea71838096964b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:25 +0000
Subject: [PATCH 082/133] fix: every key of a Tecplot zone is read, and aux
 data may contain an equal sign

---
 weio/tecplot_file.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/weio/tecplot_file.py b/weio/tecplot_file.py
index 0c58b25..aae21c4 100644
--- a/weio/tecplot_file.py
+++ b/weio/tecplot_file.py
@@ -60,8 +60,8 @@ def _process_merged_line(line, section, dict_out):
     elif section=='datasetauxdata':
         if section not in dict_out.keys():
             dict_out[section]={} # initialixe an empty directory
-        sp    = line.split('=')
-        key   = sp[0]
+        sp    = line.split('=',1)
+        key   = sp[0].strip()
         value = sp[1].replace('"','').strip()
         if is_number(value):
             value=float(value)
@@ -70,12 +70,12 @@ def _process_merged_line(line, section, dict_out):
     elif section=='zone':
         if section not in dict_out.keys():
             dict_out[section]={} # initialixe an empty directory
-        sp    = line.split('=')
-        key   = sp[0]
-        value = sp[1].replace('"','').strip()
-        if is_number(value):
-            value=float(value)
-        dict_out[section][key]=value
+        # A zone may have several "key=value", values may be quoted or within parenthesis
+        for key, value in re.findall(r'([A-Za-z_]\w*)\s*=\s*("[^"]*"|\([^)]*\)|[^\s,]+)', line):
+            value = value.replace('"','').strip()
+            if is_number(value):
+                value=float(value)
+            dict_out[section][key]=value
         
     else:
         print('!!! Reading of section not implemented:')
-- 
2.43.0


From ced86b1e61843b4528069511e02a2917de414c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:27 +0000
Subject: [PATCH 083/133] fix: Tecplot zones, aux data and numbers are written
 so that they read back the same

---
 weio/tecplot_file.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/weio/tecplot_file.py b/weio/tecplot_file.py
index aae21c4..b6107d5 100644
--- a/weio/tecplot_file.py
+++ b/weio/tecplot_file.py
@@ -196,13 +196,26 @@ class TecplotFile(File):
             if 'title' in self.keys():
                 f.write('TITLE = {}\n'.format(self['title']))
             f.write('VARIABLES = ' + ','.join(['"{}"'.format(col) for col in self['variables'] ]) + '\n')
-            for k in Keywords[2:]:
-                if k in self.keys():
-                    f.write('{} = {}\n'.format(k,self[k]))
+            def sval(v):
+                if isinstance(v, str):
+                    return v
+                return '{:d}'.format(int(v)) if float(v).is_integer() else repr(float(v))
+            for k in Keywords[3:]+['zone']: # the zone comes right before the data
+                if k not in self.keys():
+                    continue
+                if k=='datasetauxdata':
+                    for kk,v in self[k].items():
+                        f.write('DATASETAUXDATA {}="{}"\n'.format(kk,sval(v)))
+                elif k=='zone':
+                    sv = ['{}={}'.format(kk, '"{}"'.format(sval(v)) if kk.upper()=='T' else sval(v)) for kk,v in self[k].items()]
+                    f.write('ZONE '+', '.join(sv)+'\n')
+                else:
+                    f.write('{} {}\n'.format(k.upper(),self[k]))
             # Data
             if 'data' in self.keys():
                 for row in self['data']:
-                    srow = np.array2string(row, edgeitems=0, separator=' ', precision=precision)
+                    kw = {'floatmode':'unique'} if precision is None else {'precision':precision}
+                    srow = np.array2string(row, edgeitems=0, separator=' ', max_line_width=np.inf, threshold=row.size+1, **kw)
                     f.write(srow[1:-1]+'\n')
 
 
-- 
2.43.0


From 1b0db67bb5c9ae96a369624113e96daca1f7689f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:02 +0000
Subject: [PATCH 084/133] fix: linearization file: matrices of a previous file
 do not survive a new read

---
 weio/fast_linearization_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weio/fast_linearization_file.py b/weio/fast_linearization_file.py
index 374d432..c7b02f4 100644
--- a/weio/fast_linearization_file.py
+++ b/weio/fast_linearization_file.py
@@ -42,6 +42,7 @@ class FASTLinearizationFile(File):
         return 'FAST linearization output'
 
     def _read(self, *args, **kwargs):
+        self.clear() # forget previous file
         self['header']=[]
 
         def extractVal(lines, key):
-- 
2.43.0


From 11eb507a6fc946692ad8c9a8b4c47d1e6c325313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:05 +0000
Subject: [PATCH 085/133] fix: writing a linearization file is refused instead
 of producing an empty file

---
 weio/fast_linearization_file.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/weio/fast_linearization_file.py b/weio/fast_linearization_file.py
index c7b02f4..b75b25a 100644
--- a/weio/fast_linearization_file.py
+++ b/weio/fast_linearization_file.py
@@ -149,13 +149,8 @@ class FASTLinearizationFile(File):
                         self['EDDOF'] = line[5:].split()
                         self['M']     = readMat(f, 24, 24)
 
-    def toString(self):
-        s=''
-        return s
-
     def _write(self):
-        with open(self.filename,'w') as f:
-            f.write(self.toString())
+        raise NotImplementedError('Writing of linearization files')
 
     def short_descr(self,slist):
         def shortname(s):
-- 
2.43.0


From 638dfaff6fae7a887c34026a72c2addc4d18ec6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:07 +0000
Subject: [PATCH 086/133] fix: linearization file: a short file without the
 expected header is a wrong format

---
 weio/fast_linearization_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weio/fast_linearization_file.py b/weio/fast_linearization_file.py
index b75b25a..ac8945d 100644
--- a/weio/fast_linearization_file.py
+++ b/weio/fast_linearization_file.py
@@ -59,6 +59,8 @@ class FASTLinearizationFile(File):
                 if line.find(marker)>=0:
                     break
                 lines.append(line.strip())
+            else:
+                raise WrongFormatError('`{}` not found in file'.format(marker))
             return lines, line
         
         def readOP(fid, n):
-- 
2.43.0


From 53375627ee7d73c66997ff3c763f5df7e1f56116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:17 +0000
Subject: [PATCH 087/133] fix: input deck: the SubDyn file is read when SubDyn
 is asked for, and listed as such

---
 weio/fast_input_deck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_deck.py b/weio/fast_input_deck.py
index 1153ca5..bbd318f 100644
--- a/weio/fast_input_deck.py
+++ b/weio/fast_input_deck.py
@@ -275,7 +275,7 @@ class FASTInputDeck(dict):
 
             # SubDyn
             if self.fst_vt['Fst']['CompSub'] == 1:
-                self.fst_vt['SubDyn'] = self._read(self.fst_vt['Fst']['SubFile'],'HD')
+                self.fst_vt['SubDyn'] = self._read(self.fst_vt['Fst']['SubFile'],'SD')
 
             # Mooring
             if self.fst_vt['Fst']['CompMooring']==1:
-- 
2.43.0


From e6ff75bdf430842f383252f6d3f102ba81737732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:20 +0000
Subject: [PATCH 088/133] fix: input deck: the written main file refers to the
 ServoDyn file that is written

---
 weio/fast_input_deck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_deck.py b/weio/fast_input_deck.py
index bbd318f..db2e66f 100644
--- a/weio/fast_input_deck.py
+++ b/weio/fast_input_deck.py
@@ -371,7 +371,7 @@ class FASTInputDeck(dict):
         fst['BDBldFile(3)'] = '"' + os.path.basename(filename_BD) + '"'
         fst['InflowFile']   = '"' + os.path.basename(filename_IW) + '"'
         fst['AeroFile']     = '"' + os.path.basename(filename_AD) + '"'
-        fst['ServoFile']    = '"' + os.path.basename(filename_AD) + '"'
+        fst['ServoFile']    = '"' + os.path.basename(filename_SvD) + '"'
         fst['HydroFile']    = '"' + os.path.basename(filename_HD) + '"'
         fst['SubFile']      = '"' + os.path.basename(filename_SD) + '"'
         fst['MooringFile']  = '"' + os.path.basename(filename_MD) + '"'
-- 
2.43.0


From db96aaf95c29f622045786042395725fa7e92132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:23 +0000
Subject: [PATCH 089/133] fix: input deck: reading again does not keep files of
 the previous deck

---
 weio/fast_input_deck.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/weio/fast_input_deck.py b/weio/fast_input_deck.py
index db2e66f..21afb8a 100644
--- a/weio/fast_input_deck.py
+++ b/weio/fast_input_deck.py
@@ -116,6 +116,7 @@ class FASTInputDeck(dict):
             #    self.fst_vt['AeroDynBlade'].append(self._read(bld_file,'ADbld'))
             # Polars
             self.fst_vt['af_data']=[] # TODO add to "AeroDyn"
+            self.fst_vt['ac_data']=[]
             for afi, af_filename in enumerate(self.fst_vt['AeroDyn15']['AFNames']):
                 af_filename = os.path.join(baseDir,af_filename).replace('"','')
                 try: 
@@ -221,6 +222,16 @@ class FASTInputDeck(dict):
         if filename is not None:
             self.filename = filename
 
+        # Forget what was read before
+        for k in self.fst_vt.keys():
+            self.fst_vt[k] = None
+        self.fst_vt['description'] = ''
+        self.fst_vt['af_data']     = []
+        self.fst_vt['ac_data']     = []
+        self.inputfiles = {}
+        self.ADversion  = ''
+        self.AD         = None
+
         # Read OpenFAST files
         self.fst_vt['Fst'] = self._read(self.FAST_InputFile, 'Fst')
         if self.fst_vt['Fst'] is None:
-- 
2.43.0


From e3173439046ffc280cc737405fb5660c17edd6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:26 +0000
Subject: [PATCH 090/133] fix: input deck: absolute names of blade and airfoil
 files are used as they are

---
 weio/fast_input_deck.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/weio/fast_input_deck.py b/weio/fast_input_deck.py
index 21afb8a..53917b4 100644
--- a/weio/fast_input_deck.py
+++ b/weio/fast_input_deck.py
@@ -103,12 +103,13 @@ class FASTInputDeck(dict):
             baseDir  = os.path.dirname(filename)
 
         self.verbose  = verbose
+        baseDir = baseDir.replace('"','')
 
         self.fst_vt[key] = self._read(filename,'AD')
 
         if self.fst_vt[key] is not None:
             # Blades
-            bld_file = os.path.join(baseDir, self.fst_vt[key]['ADBlFile(1)'])
+            bld_file = os.path.join(baseDir, self.fst_vt[key]['ADBlFile(1)'].replace('"',''))
             self.fst_vt['AeroDynBlade'] = self._read(bld_file,'ADbld')
             #self.fst_vt['AeroDynBlade'] = []
             #for i in range(3):
@@ -118,7 +119,7 @@ class FASTInputDeck(dict):
             self.fst_vt['af_data']=[] # TODO add to "AeroDyn"
             self.fst_vt['ac_data']=[]
             for afi, af_filename in enumerate(self.fst_vt['AeroDyn15']['AFNames']):
-                af_filename = os.path.join(baseDir,af_filename).replace('"','')
+                af_filename = os.path.join(baseDir,af_filename.replace('"',''))
                 try: 
                     polar = self._read(af_filename, 'AF')
                 except:
@@ -299,7 +300,7 @@ class FASTInputDeck(dict):
                 self.fst_vt['BeamDyn'] = self._read(self.fst_vt['Fst']['BDBldFile(1)'],'BD')
                 if self.fst_vt['BeamDyn'] is not None:
                     # Blades
-                    bld_file = os.path.join(os.path.dirname(self.fst_vt['Fst']['BDBldFile(1)']), self.fst_vt['BeamDyn']['BldFile'])
+                    bld_file = self.BD_bld_relpath
                     self.fst_vt['BeamDynBlade']= self._read(bld_file,'BDbld')
 
         # --- Backward compatibility
-- 
2.43.0


From 6367dbb721e3a7bc33e09f7555a6ce9263286c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:29 +0000
Subject: [PATCH 091/133] fix: input deck: decks with AeroDyn 14 can be read
 and written

---
 weio/fast_input_deck.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/weio/fast_input_deck.py b/weio/fast_input_deck.py
index 53917b4..4903bef 100644
--- a/weio/fast_input_deck.py
+++ b/weio/fast_input_deck.py
@@ -109,8 +109,9 @@ class FASTInputDeck(dict):
 
         if self.fst_vt[key] is not None:
             # Blades
-            bld_file = os.path.join(baseDir, self.fst_vt[key]['ADBlFile(1)'].replace('"',''))
-            self.fst_vt['AeroDynBlade'] = self._read(bld_file,'ADbld')
+            if key=='AeroDyn15': # NOTE: AeroDyn14 has the blade in its main file
+                bld_file = os.path.join(baseDir, self.fst_vt[key]['ADBlFile(1)'].replace('"',''))
+                self.fst_vt['AeroDynBlade'] = self._read(bld_file,'ADbld')
             #self.fst_vt['AeroDynBlade'] = []
             #for i in range(3):
             #    bld_file = os.path.join(os.path.dirname(self.fst_vt['Fst']['AeroFile']), self.fst_vt[key]['ADBlFile({})'.format(i+1)])
@@ -118,7 +119,7 @@ class FASTInputDeck(dict):
             # Polars
             self.fst_vt['af_data']=[] # TODO add to "AeroDyn"
             self.fst_vt['ac_data']=[]
-            for afi, af_filename in enumerate(self.fst_vt['AeroDyn15']['AFNames']):
+            for afi, af_filename in enumerate(self.fst_vt[key]['AFNames' if key=='AeroDyn15' else 'FoilNm']):
                 af_filename = os.path.join(baseDir,af_filename.replace('"',''))
                 try: 
                     polar = self._read(af_filename, 'AF')
@@ -126,7 +127,7 @@ class FASTInputDeck(dict):
                     polar=None
                     print('[FAIL] reading polar {}'.format(af_filename))
                 self.fst_vt['af_data'].append(polar)
-                if polar is not None:
+                if polar is not None and key=='AeroDyn15':
                     coordFile = polar['NumCoords']
                     if isinstance(coordFile,str):
                         coordFile = coordFile.replace('"','')
@@ -418,7 +419,8 @@ class FASTInputDeck(dict):
             self.fst_vt['InflowWind'].write(filename_IW)
 
         if fst['CompAero']>0:
-            self.fst_vt['AeroDyn15'].write(filename_AD)
+            key = 'AeroDyn14' if fst['CompAero']==1 else 'AeroDyn15'
+            self.fst_vt[key].write(filename_AD)
             # TODO other files
 
         if fst['CompServo']>0:
-- 
2.43.0


From 6c81bc8d7c6091047059060c0bfe268f578b0181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:32 +0000
Subject: [PATCH 092/133] fix: input deck: module files written in another
 directory are referred to by their path from the main file

---
 weio/fast_input_deck.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/weio/fast_input_deck.py b/weio/fast_input_deck.py
index 4903bef..1b4fb88 100644
--- a/weio/fast_input_deck.py
+++ b/weio/fast_input_deck.py
@@ -378,17 +378,20 @@ class FASTInputDeck(dict):
         filename_BD_bld = os.path.join(directory,prefix+'BD_bld'+suffix+'.dat')  if fst['CompElast']>0   else 'none'
         # TODO AD Profiles and OLAF
 
-        fst['EDFile']       = '"' + os.path.basename(filename_ED) + '"'
-        fst['BDBldFile(1)'] = '"' + os.path.basename(filename_BD) + '"'
-        fst['BDBldFile(2)'] = '"' + os.path.basename(filename_BD) + '"'
-        fst['BDBldFile(3)'] = '"' + os.path.basename(filename_BD) + '"'
-        fst['InflowFile']   = '"' + os.path.basename(filename_IW) + '"'
-        fst['AeroFile']     = '"' + os.path.basename(filename_AD) + '"'
-        fst['ServoFile']    = '"' + os.path.basename(filename_SvD) + '"'
-        fst['HydroFile']    = '"' + os.path.basename(filename_HD) + '"'
-        fst['SubFile']      = '"' + os.path.basename(filename_SD) + '"'
-        fst['MooringFile']  = '"' + os.path.basename(filename_MD) + '"'
-        fst['IceFile']      = '"' + os.path.basename(filename_Ice)+ '"'
+        def relname(f): # name of module file f in the main file
+            return f if f=='none' else os.path.relpath(f, os.path.dirname(filename) or '.')
+
+        fst['EDFile']       = '"' + relname(filename_ED) + '"'
+        fst['BDBldFile(1)'] = '"' + relname(filename_BD) + '"'
+        fst['BDBldFile(2)'] = '"' + relname(filename_BD) + '"'
+        fst['BDBldFile(3)'] = '"' + relname(filename_BD) + '"'
+        fst['InflowFile']   = '"' + relname(filename_IW) + '"'
+        fst['AeroFile']     = '"' + relname(filename_AD) + '"'
+        fst['ServoFile']    = '"' + relname(filename_SvD) + '"'
+        fst['HydroFile']    = '"' + relname(filename_HD) + '"'
+        fst['SubFile']      = '"' + relname(filename_SD) + '"'
+        fst['MooringFile']  = '"' + relname(filename_MD) + '"'
+        fst['IceFile']      = '"' + relname(filename_Ice)+ '"'
         fst.write(filename)
 
 
-- 
2.43.0


From 94caeb8c23279b4c21b495a6c283d34e3fe7983a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:13 +0000
Subject: [PATCH 093/133] fix: graph: element IDs of a node can be queried
 before the connectivity changes

---
 weio/tools/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/tools/graph.py b/weio/tools/graph.py
index e924ef1..c9f1fc2 100644
--- a/weio/tools/graph.py
+++ b/weio/tools/graph.py
@@ -168,7 +168,7 @@ class GraphModel(object):
         self.Modes   = []
         self.Motions = []
         # Optimization variables
-        self._nodeIDs2Elements   = {} # dictionary with key NodeID and value list of ElementID
+        self._nodeIDs2ElementIDs = {} # dictionary with key NodeID and value list of ElementID
         self._nodeIDs2Elements   = {} # dictionary with key NodeID and value list of elements
         self._elementIDs2NodeIDs = {} # dictionary with key ElemID and value list of nodes IDs
         self._connectivity =[]# 
-- 
2.43.0


From bd0cca52ef5c981ff4fcd4015dcbefd9e58b737d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:17 +0000
Subject: [PATCH 094/133] fix: graph: connectivity queries follow the addition
 of nodes and elements

---
 weio/tools/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weio/tools/graph.py b/weio/tools/graph.py
index c9f1fc2..775d5ad 100644
--- a/weio/tools/graph.py
+++ b/weio/tools/graph.py
@@ -175,6 +175,7 @@ class GraphModel(object):
 
     def addNode(self,node):
         self.Nodes.append(node)
+        self.connecticityHasChanged()
 
     def addElement(self,elem):
         # Giving nodes to element if these were not provided
@@ -183,6 +184,7 @@ class GraphModel(object):
         if elem.propIDs is not None:
             elem.nodeProps=[self.getNodeProperty(elem.propset, i) for i in elem.propIDs]
         self.Elements.append(elem)
+        self.connecticityHasChanged()
 
     # --- Getters
     def getNode(self, nodeID):
-- 
2.43.0


From 819de2e48ef45e004082d92e34a1c397db980c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:20 +0000
Subject: [PATCH 095/133] fix: graph of a HydroDyn file: depth, member and
 marine growth coefficients are stored in their own sets

---
 weio/fast_input_file_graph.py | 2 +-
 weio/tools/graph.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/fast_input_file_graph.py b/weio/fast_input_file_graph.py
index eccc069..28d6c7c 100644
--- a/weio/fast_input_file_graph.py
+++ b/weio/fast_input_file_graph.py
@@ -196,7 +196,7 @@ def hydrodynToGraph(hd):
             # MGDpth     MGThck       MGDens
             # (m)        (m)         (kg/m^3)
             prop = Property(ID=ip+1, MGDpth=P[0], MGThck=P[1],  MGDens=P[2])
-            Graph.addMiscProperty('FillGroups',prop)
+            Graph.addMiscProperty('MG',prop)
 
     # --- Nodes
     Nodes     = hd['Joints']
diff --git a/weio/tools/graph.py b/weio/tools/graph.py
index 775d5ad..ea6bb3d 100644
--- a/weio/tools/graph.py
+++ b/weio/tools/graph.py
@@ -288,7 +288,7 @@ class GraphModel(object):
         self.ElemPropertySets[setname].append(prop)
 
     def addMiscProperty(self, setname, prop):
-        if not isinstance(prop, ElemProperty):
+        if not isinstance(prop, Property):
             print(type(prop))
             raise Exception('Property needs to inherit from Property')
         self.MiscPropertySets[setname].append(prop)
-- 
2.43.0


From 0105f2a604229885a98b2aff3a0b6325a8e58cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:23 +0000
Subject: [PATCH 096/133] fix: graph of a HydroDyn file: axial member
 coefficients are taken from their columns

---
 weio/fast_input_file_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_file_graph.py b/weio/fast_input_file_graph.py
index 28d6c7c..200cae5 100644
--- a/weio/fast_input_file_graph.py
+++ b/weio/fast_input_file_graph.py
@@ -177,7 +177,7 @@ def hydrodynToGraph(hd):
         Graph.addMiscPropertySet('MemberCoefs')
         for ip,P in enumerate(hd['MemberProp']):
             # MemberID    MemberCd1     MemberCd2    MemberCdMG1   MemberCdMG2    MemberCa1     MemberCa2    MemberCaMG1   MemberCaMG2    MemberCp1     MemberCp2    MemberCpMG1   MemberCpMG2   MemberAxCd1   MemberAxCd2  MemberAxCdMG1 MemberAxCdMG2  MemberAxCa1   MemberAxCa2  MemberAxCaMG1 MemberAxCaMG2  MemberAxCp1  MemberAxCp2   MemberAxCpMG1   MemberAxCpMG2
-            prop = Property(ID=ip+1, MemberID=P[0], Cd1=P[1], Cd2=P[2], CdMG1=P[3], CdMG2=P[4], Ca1=P[5], Ca2=P[6], CaMG1=P[7], CaMG2=P[8], Cp1=P[9], Cp2=P[10], CpMG1=P[11], CpMG2=P[12], AxCd1=P[14], AxCd2=P[15], axCdMG1=P[16], axCdMG2=P[17], AxCa1=P[18], AxCa2=P[19], AxCaMG1=P[20], AxCaMG2=P[21], AxCp1=P[22], AxCp2=P[23])
+            prop = Property(ID=ip+1, MemberID=P[0], Cd1=P[1], Cd2=P[2], CdMG1=P[3], CdMG2=P[4], Ca1=P[5], Ca2=P[6], CaMG1=P[7], CaMG2=P[8], Cp1=P[9], Cp2=P[10], CpMG1=P[11], CpMG2=P[12], AxCd1=P[13], AxCd2=P[14], axCdMG1=P[15], axCdMG2=P[16], AxCa1=P[17], AxCa2=P[18], AxCaMG1=P[19], AxCaMG2=P[20], AxCp1=P[21], AxCp2=P[22], AxCpMG1=P[23], AxCpMG2=P[24])
             Graph.addMiscProperty('MemberCoefs',prop)
     # ---
     if 'FillGroups' in hd.keys():
-- 
2.43.0


From 65047fcdc2214f66c3a3341c783bd107b7fadb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:26 +0000
Subject: [PATCH 097/133] fix: graph of a HydroDyn file: the color of a member
 is a color

---
 weio/fast_input_file_graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/fast_input_file_graph.py b/weio/fast_input_file_graph.py
index 200cae5..a41b00a 100644
--- a/weio/fast_input_file_graph.py
+++ b/weio/fast_input_file_graph.py
@@ -133,9 +133,9 @@ def hydrodynToGraph(hd):
     """
     def type2Color(Pot):
         if Pot:
-            return (0.753,0.05,0.204),  # Pot flow
+            return (0.753,0.05,0.204)  # Pot flow
         else:
-            return (0.753,0.561,0.05),  # Morison
+            return (0.753,0.561,0.05)  # Morison
 
 
     Graph = GraphModel()
-- 
2.43.0


From 005b92af4ad51a94b92b0ad6a1c49fcce121a78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:29 +0000
Subject: [PATCH 098/133] fix: graph of a SubDyn summary: moduli of an element
 are taken from their columns

---
 weio/fast_input_file_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_file_graph.py b/weio/fast_input_file_graph.py
index a41b00a..da6889d 100644
--- a/weio/fast_input_file_graph.py
+++ b/weio/fast_input_file_graph.py
@@ -266,7 +266,7 @@ def subdynSumToGraph(data):
         nodeIDs=[int(E[1]),int(E[2])]
         #  shear_[-]       Ixx_[m^4]       Iyy_[m^4]       Jzz_[m^4]          T0_[N]
         D = np.sqrt(E[7]/np.pi)*4 # <<< Approximation basedon area TODO use I as well
-        elem= Element(int(E[0]), nodeIDs, Type=int(E[5]), Area=E[7], rho=E[8], E=E[7], G=E[8], D=D)
+        elem= Element(int(E[0]), nodeIDs, Type=int(E[5]), Area=E[7], rho=E[8], E=E[9], G=E[10], D=D)
         elem.data['object']='cylinder'
         elem.data['color'] = type2Color[int(E[5])]
         Graph.addElement(elem)
-- 
2.43.0


From 00b4ddfbe29858731f8097699edd173067276668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:32 +0000
Subject: [PATCH 099/133] fix: graph: nodes can be sorted by any of their data

---
 weio/tools/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/tools/graph.py b/weio/tools/graph.py
index ea6bb3d..c28a905 100644
--- a/weio/tools/graph.py
+++ b/weio/tools/graph.py
@@ -473,7 +473,7 @@ class GraphModel(object):
         elif key=='ID':
             values=[n.ID for n in self.Nodes]
         else:
-            values=[n[key] for n in self.Nodes]
+            values=[n.data[key] for n in self.Nodes]
         I= np.argsort(values)
         self.Nodes=[self.Nodes[i] for i in I]
 
-- 
2.43.0


From 12bec5d389d37c5542ff5a3b31739a7813b6f289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:35 +0000
Subject: [PATCH 100/133] fix: graph: elements without properties, or with a
 list of properties, can be divided

---
 weio/tools/graph.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/weio/tools/graph.py b/weio/tools/graph.py
index c28a905..28273d8 100644
--- a/weio/tools/graph.py
+++ b/weio/tools/graph.py
@@ -412,6 +412,9 @@ class GraphModel(object):
         maxNodeId=np.max([n.ID for n in self.Nodes])
         e = self.getElement(elemID)
         newElems = []
+        propset, propIDs = e.propset, e.propIDs
+        if propIDs is not None and nPerElement>1 and any(p!=propIDs[0] for p in propIDs):
+            raise NotImplementedError('Division of element with different properties on both ends. TODO add new property.')
         if len(e.nodes)==2:
             n1=e.nodes[0]
             n2=e.nodes[1]
@@ -441,14 +444,6 @@ class GraphModel(object):
             for i in range(1,nPerElement):
                 maxElemId+=1
                 elem_dict = e.data.copy()
-                # Creating extra properties if necessary
-                if e.propIDs is not None:
-                    if all(e.propIDs==e.propIDs[0]):
-                        # No need to create a new property
-                        propIDs=e.propIDs
-                        propset=e.propset
-                    else:
-                        raise NotImplementedError('Division of element with different properties on both ends. TODO add new property.')
                 elem= Element(maxElemId, [subNodes[i].ID, subNodes[i+1].ID], propset=propset, propIDs=propIDs, **elem_dict )
                 newElems.append(elem)
         return newElems
-- 
2.43.0


From 58e02c0cd7ddd7321e04c74fb4217d32332085f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:38 +0000
Subject: [PATCH 101/133] fix: graph: updateConnectivity handles elements
 without properties and forgets precomputed connectivity

---
 weio/tools/graph.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/weio/tools/graph.py b/weio/tools/graph.py
index 28273d8..dcfdc59 100644
--- a/weio/tools/graph.py
+++ b/weio/tools/graph.py
@@ -332,7 +332,7 @@ class GraphModel(object):
         s+='\n'.join(str(m) for m in self.Modes)
         s+='\n- Motions ({}):'.format(len(self.Motions))
         for m in self.Motions:
-            s+='\n> {}\n'.format({k:v for k,v in m.items() if not isintance(v,np.ndarray)})
+            s+='\n> {}\n'.format({k:v for k,v in m.items() if not isinstance(v,np.ndarray)})
         return s
 
     # --------------------------------------------------------------------------------}
@@ -396,9 +396,11 @@ class GraphModel(object):
             e.nodes=[self.getNode(i) for i in e.nodeIDs]
 
         for e in self.Elements:
-            e.nodeProps = [self.getNodeProperty(e.propset, ID) for ID in e.propIDs]
+            if e.propIDs is not None:
+                e.nodeProps = [self.getNodeProperty(e.propset, ID) for ID in e.propIDs]
 
-        # Potentially call nodeIDs2ElementIDs etc
+        # Trigger, remove precomputed values related to connectivity:
+        self.connecticityHasChanged()
 
 
     def _divideElement(self, elemID, nPerElement, maxElemId, keysNotToCopy=[]):
-- 
2.43.0


From 32ffdb8b924ccd17c02f12ac3b58d97838a77257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:57 +0000
Subject: [PATCH 102/133] fix: SubDyn summary: modes and JSON of an object come
 from that object, and asking for them does not change it

---
 weio/fast_summary_file.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/weio/fast_summary_file.py b/weio/fast_summary_file.py
index 86a75f2..ce4a88d 100644
--- a/weio/fast_summary_file.py
+++ b/weio/fast_summary_file.py
@@ -154,9 +154,9 @@ def readSubDynSum(self):
         """ return Guyan and CB modes"""
         if maxDisp is None:
             #compute max disp such as it's 10% of maxdimension
-            dx = np.max(self['X'])-np.min(self['X'])
-            dy = np.max(self['Y'])-np.min(self['Y'])
-            dz = np.max(self['Z'])-np.min(self['Z'])
+            dx = np.max(data['X'])-np.min(data['X'])
+            dy = np.max(data['Y'])-np.min(data['Y'])
+            dz = np.max(data['Z'])-np.min(data['Z'])
             maxDisp = np.max([dx,dy,dz])*0.1
 
         # NOTE: DOF have been reindexed -1
@@ -185,8 +185,8 @@ def readSubDynSum(self):
 
         dispGy, posGy, _, dispCB, posCB, _ = data.getModes()
 
-        Nodes    = self['Nodes']
-        Elements = self['Elements']
+        Nodes    = data['Nodes']
+        Elements = data['Elements'].copy()
         Elements[:,0]-=1
         Elements[:,1]-=1
         Elements[:,2]-=1
-- 
2.43.0


From f5b981b41f2e60283985fdf949ce96706eee5d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:00 +0000
Subject: [PATCH 103/133] fix: SubDyn summary: the modes of the JSON output are
 given in the order of its nodes

---
 weio/fast_summary_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weio/fast_summary_file.py b/weio/fast_summary_file.py
index ce4a88d..6624fba 100644
--- a/weio/fast_summary_file.py
+++ b/weio/fast_summary_file.py
@@ -183,7 +183,8 @@ def readSubDynSum(self):
 
         """
 
-        dispGy, posGy, _, dispCB, posCB, _ = data.getModes()
+        # Very important sortDims should be None to respect order of nodes
+        dispGy, posGy, _, dispCB, posCB, _ = data.getModes(sortDim=None)
 
         Nodes    = data['Nodes']
         Elements = data['Elements'].copy()
-- 
2.43.0


From 2a69d855c33495b28c1780e20771ce638ca59bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:03 +0000
Subject: [PATCH 104/133] fix: summary file: reading another file does not keep
 keys of the previous one

---
 weio/fast_summary_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weio/fast_summary_file.py b/weio/fast_summary_file.py
index 6624fba..c58b90a 100644
--- a/weio/fast_summary_file.py
+++ b/weio/fast_summary_file.py
@@ -57,6 +57,7 @@ class FASTSummaryFile(File):
             raise OSError(2,'File not found:',self.filename)
         if os.stat(self.filename).st_size == 0:
             raise EmptyFileError('File is empty:',self.filename)
+        self.clear() # forget previous file
 
         with open(self.filename, 'r', errors="surrogateescape") as fid:
             header= readFirstLines(fid, 4)
-- 
2.43.0


From 625311813b1a3aca9ccfce4db8e83fd71707b96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:07 +0000
Subject: [PATCH 105/133] fix: mini yaml: keys end at the first colon, whatever
 the blanks before it and the colons after it

---
 weio/mini_yaml.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/weio/mini_yaml.py b/weio/mini_yaml.py
index 04269b9..6ae7b32 100644
--- a/weio/mini_yaml.py
+++ b/weio/mini_yaml.py
@@ -68,13 +68,13 @@ def yaml_read(filename,dictIn=None):
         i+=1;
         if len(l)==0:
             continue
-        sp=l.split(':')
+        sp=l.split(':',1)
         if len(sp)==2 and len(sp[1].strip())==0:
-            key=sp[0]
+            key=sp[0].strip()
             array,i=readDashList(i)
             d[key]=array
         elif len(sp)==2:
-            key=sp[0]
+            key=sp[0].strip()
             val=sp[1]
             try:
                 d[key]=int(val)
@@ -84,7 +84,7 @@ def yaml_read(filename,dictIn=None):
                 except:
                     d[key]=val.strip()
         else:
-            raise Exception('Line {:d} has colon, number of splits is {}, which is not supported'.format(len(sp)))
+            raise Exception('Line {:d} has no colon, which is not supported'.format(i))
     return d
 
 
-- 
2.43.0


From b8669bb4e951e4f7eac766b9f4e561943154eb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:10 +0000
Subject: [PATCH 106/133] fix: mini yaml: a list of lists may have integers on
 its first line and floats on the others

---
 weio/mini_yaml.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/weio/mini_yaml.py b/weio/mini_yaml.py
index 6ae7b32..cf227d3 100644
--- a/weio/mini_yaml.py
+++ b/weio/mini_yaml.py
@@ -44,22 +44,19 @@ def yaml_read(filename,dictIn=None):
                 iEnd=i-1
                 break
         n=iEnd-iStart+1
-        FirstElems = cleanComment(lines[iStart])[1:].replace(']','').replace('[','').split(',')
-        FirstElems = np.array([v.strip() for v in FirstElems if len(v.strip())>0])
+        rows=[]
+        for i in np.arange(iStart,iEnd+1):
+            elem = cleanComment(lines[i])[1:].replace(']','').replace('[','').split(',')
+            rows.append([v.strip() for v in elem if len(v.strip())>0])
+        # All values are integers, or all are floats
         try: 
-            FirstElems=FirstElems.astype(int)
-            mytype=int
+            M = np.array(rows).astype(int)
         except:
             try: 
-                FirstElems=FirstElems.astype(float)
-                mytype=float
+                M = np.array(rows).astype(float)
             except:
-                raise Exception('Cannot convert line to float or int: {}'.format(lines[iStart]))
-        M = np.zeros((n,len(FirstElems)), mytype)
-        if len(FirstElems)>0:
-            for i in np.arange(iStart,iEnd+1):
-                elem = cleanComment(lines[i])[1:].replace(']','').replace('[','').split(',')
-                M[i-iStart,:] = np.array([v.strip() for v in elem if len(v)>0]).astype(mytype)
+                raise Exception('Cannot convert lines to float or int: {}'.format(lines[iStart:iEnd+1]))
+        M = M.reshape((n,-1) if n>0 and len(rows[0])>0 else (n,0))
         return M, iEnd+1
 
     i=0
-- 
2.43.0


From 42149c2c32adf885369ea51bc22ce85715abaf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:01 +0000
Subject: [PATCH 107/133] fix: HAWCStab2 induction files: column names directly
 following the column number lost their first letter

---
 weio/hawcstab2_ind_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/hawcstab2_ind_file.py b/weio/hawcstab2_ind_file.py
index 368eb57..985ba25 100644
--- a/weio/hawcstab2_ind_file.py
+++ b/weio/hawcstab2_ind_file.py
@@ -36,7 +36,7 @@ class HAWCStab2IndFile(File):
         # Extracting column names
         header       = '00'+header[1:].strip()
         num_and_cols = [s.strip()+']' for s in header.split(']')[:-1]]
-        cols         = [col[2:].strip().replace(' ','_')  for col in num_and_cols]
+        cols         = [re.sub(r'^\d{1,2}','',col).strip().replace(' ','_')  for col in num_and_cols]
         cols         = [col.replace('[','_[').replace('__','_')  for col in cols]
         # Determining type based on number of columns (NOTE: could use col names as well maybe)
         NumCol2Type = {38: 'ind', 14: 'fext', 18: 'defl'}
-- 
2.43.0


From ca85652e10846ea89347144953371841624b9a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:03 +0000
Subject: [PATCH 108/133] fix: HAWCStab2 induction files whose name holds no
 wind speed could not be read

---
 weio/hawcstab2_ind_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weio/hawcstab2_ind_file.py b/weio/hawcstab2_ind_file.py
index 985ba25..9636d3e 100644
--- a/weio/hawcstab2_ind_file.py
+++ b/weio/hawcstab2_ind_file.py
@@ -56,7 +56,8 @@ class HAWCStab2IndFile(File):
             raise BrokenFormatError('Ind File {}: inconsistent number of header columns and data columns.'.format(self.filename))
 
         # Extracting wind speed from filename 
-        self.wsp = float(self.filename.lower().split('_')[-1].rstrip('.ind').lstrip('u'))/1000
+        m = re.search(r'_u(\d+)[^_]*$', os.path.basename(self.filename).lower())
+        self.wsp = float(m.group(1))/1000 if m else np.nan
 
     def _toDataFrame(self):
         key = '{:s} - ws={:06.3f}'.format(self.type,self.wsp)
-- 
2.43.0


From d3acd6dfffa1035a5073c7fbbe85631851ee490e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:07 +0000
Subject: [PATCH 109/133] fix: a file which is not a ROSCO performance file is
 rejected as such

---
 weio/rosco_performance_file.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/weio/rosco_performance_file.py b/weio/rosco_performance_file.py
index 00c44c8..a74b6ff 100644
--- a/weio/rosco_performance_file.py
+++ b/weio/rosco_performance_file.py
@@ -131,6 +131,7 @@ def load_from_txt(txt_filename):
     pitch = None
     TSR   = None
     WS    = None
+    Cp, Ct, Cq = None, None, None
 
     with open(txt_filename) as pfile:
         for iline, line in enumerate(pfile):
@@ -170,7 +171,10 @@ def load_from_txt(txt_filename):
             if pitch is None and iline>10:
                 raise WrongFormatError('This does not appear to be a ROSCO performance file, Pitch vector not found')
 
-        return pitch, TSR, WS, Cp, Ct, Cq
+    if any(v is None for v in [pitch, TSR, Cp, Ct, Cq]):
+        raise WrongFormatError('This does not appear to be a ROSCO performance file, some vectors or coefficients are missing')
+
+    return pitch, TSR, WS, Cp, Ct, Cq
 
 
 def write_rotor_performance(txt_filename, pitch, TSR, CP, CT, CQ, WS=None, TurbineName=''):
-- 
2.43.0


From 61545f4c9eccf4061e5e1caaa48f171244b73b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:09 +0000
Subject: [PATCH 110/133] fix: ROSCO performance files could not be written
 (undefined name)

---
 weio/rosco_performance_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weio/rosco_performance_file.py b/weio/rosco_performance_file.py
index a74b6ff..41933fc 100644
--- a/weio/rosco_performance_file.py
+++ b/weio/rosco_performance_file.py
@@ -4,6 +4,7 @@ Input/output class for the ROSCO performance (Cp,Ct,Cq) fileformat
 import numpy as np
 import pandas as pd
 import os
+from datetime import datetime
 
 try:
     from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError
@@ -192,7 +193,7 @@ def write_rotor_performance(txt_filename, pitch, TSR, CP, CT, CQ, WS=None, Turbi
     file = open(txt_filename,'w')
     # Headerlines
     file.write('# ----- Rotor performance tables for the {} wind turbine ----- \n'.format(TurbineName))
-    file.write('# ------------ Written on {} using the ROSCO toolbox ------------ \n\n'.format(now.strftime('%b-%d-%y')))
+    file.write('# ------------ Written on {} using the ROSCO toolbox ------------ \n\n'.format(datetime.now().strftime('%b-%d-%y')))
 
     # Pitch angles, TSR, and wind speed
     file.write('# Pitch angle vector, {} entries - x axis (matrix columns) (deg)\n'.format(len(pitch)))
-- 
2.43.0


From 5faa4962849131843481b61ee9e581bf33e86173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:11 +0000
Subject: [PATCH 111/133] fix: a BModes output without modes could not be
 printed

---
 weio/bmodes_out_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weio/bmodes_out_file.py b/weio/bmodes_out_file.py
index ca6f705..17f6e7a 100644
--- a/weio/bmodes_out_file.py
+++ b/weio/bmodes_out_file.py
@@ -126,7 +126,8 @@ class BModesOutFile(File):
         # --- Example printing some relevant information for user
         s+='|Main keys:\n'
         s+='| - frequencies: {}\n'.format(self['frequencies'])
-        s+='| - mode_shapes : {} shapes of shape {}x{}\n'.format(len(self['mode_shapes']), *self['mode_shapes'][0].shape)
+        if len(self['mode_shapes'])>0:
+            s+='| - mode_shapes : {} shapes of shape {}x{}\n'.format(len(self['mode_shapes']), *self['mode_shapes'][0].shape)
         s+='|Main methods:\n'
         s+='| - read, write, toDataFrame, keys'
         return s
-- 
2.43.0


From 9f292064eaa572164f13ccb7e9713fe324059ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:08 +0000
Subject: [PATCH 112/133] fix: Excel files could not be written without
 xlsxwriter or with recent versions of pandas

---
 weio/excel_file.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/weio/excel_file.py b/weio/excel_file.py
index df28931..bebf4b0 100644
--- a/weio/excel_file.py
+++ b/weio/excel_file.py
@@ -48,8 +48,8 @@ class ExcelFile(File):
     #    return s
 
     def _write(self):
-        # Create a Pandas Excel writer using XlsxWriter as the engine.
-        writer = pd.ExcelWriter(self.filename, engine='xlsxwriter')
+        # Create a Pandas Excel writer (engine: XlsxWriter or openpyxl).
+        writer = pd.ExcelWriter(self.filename)
         # Convert the dataframe to an XlsxWriter Excel object.
         for k,_ in self.data.items():
             df = self.data[k]
@@ -73,7 +73,7 @@ class ExcelFile(File):
         #                                           'value': '5',
         #                                           'format': format1})
         # Close the Pandas Excel writer and output the Excel file.
-        writer.save()
+        writer.close()
 
     def __repr__(self):
         s ='Class XXXX (attributes: data)\n'
-- 
2.43.0


From f3033f8f8288b644ec4a8510011fc85724b2745a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:11 +0000
Subject: [PATCH 113/133] fix: NetCDF content was read lazily: it changed when
 the file changed, and the file was kept open

---
 weio/netcdf_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weio/netcdf_file.py b/weio/netcdf_file.py
index e54e412..d90de9f 100644
--- a/weio/netcdf_file.py
+++ b/weio/netcdf_file.py
@@ -31,7 +31,8 @@ class NetCDFFile(File):
         except:
             raise Exception('Python module `xarray` not installed')
 
-        self.data=xr.open_dataset(self.filename)
+        with xr.open_dataset(self.filename) as ds:
+            self.data=ds.load()
 
     def _write(self):
         self.data.to_netcdf(self.filename)
-- 
2.43.0


From b41780b0edefa46b302b7ec4aa01ee0266dec39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:14 +0000
Subject: [PATCH 114/133] fix: TDMS files could not be read with the current
 nptdms (1.x)

---
 weio/tdms_file.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/weio/tdms_file.py b/weio/tdms_file.py
index d05e1a9..80efd41 100644
--- a/weio/tdms_file.py
+++ b/weio/tdms_file.py
@@ -19,14 +19,18 @@ class TDMSFile(File):
             raise Exception('Install the library nptdms to read this file')
 
         fh = TdmsFile(self.filename, read_metadata_only=False)
-        channels_address = list(fh.objects.keys())
-        channels_address = [ s.replace("'",'') for s in channels_address]
-        channel_keys= [ s.split('/')[1:]  for s in channels_address if len(s.split('/'))==3]
+        if hasattr(fh,'objects'): # nptdms<1.0
+            channels_address = list(fh.objects.keys())
+            channels_address = [ s.replace("'",'') for s in channels_address]
+            channel_keys= [ s.split('/')[1:]  for s in channels_address if len(s.split('/'))==3]
+            channels = [fh.object(ck[0],ck[1]) for ck in channel_keys]
+        else:
+            channels = [channel for group in fh.groups() for channel in group.channels()]
+            channel_keys = [[channel.group_name, channel.name] for channel in channels]
         # --- Setting up list of signals and times
         signals=[]
         times=[]
-        for i,ck in enumerate(channel_keys):
-            channel = fh.object(ck[0],ck[1])
+        for channel in channels:
             signals.append(channel.data)
             times.append  (channel.time_track())
 
-- 
2.43.0


From 302a4de073dae5f3261893f2b49db336e144655d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:55 +0000
Subject: [PATCH 115/133] fix: FAST .elm files: converting to a data frame
 renamed the columns of the object

---
 weio/fast_output_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index 8a78b82..e1c8003 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -124,7 +124,7 @@ class FASTOutputFile(File):
         else:
             cols=self.info['attribute_names']
         if isinstance(self.data, pd.DataFrame):
-            df= self.data
+            df= self.data.copy()
             df.columns=cols
         else:
             df = pd.DataFrame(data=self.data,columns=cols)
-- 
2.43.0


From dff32f352843a364e5c0016fefc5c65ef4208907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:57 +0000
Subject: [PATCH 116/133] fix: CACTUS files: converting to a data frame added
 columns to the object each time, a second conversion failed

---
 weio/cactus_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/cactus_file.py b/weio/cactus_file.py
index 7745a39..cca91e8 100644
--- a/weio/cactus_file.py
+++ b/weio/cactus_file.py
@@ -370,7 +370,7 @@ class CactusFile(File):
 
     def toDataFrame(self, format='OpenFAST', alphaSign=-1):
         # ---
-        df,c = self.timeDataToOpenFAST(df = self['dfTime'])
+        df,c = self.timeDataToOpenFAST(df = self['dfTime'].copy())
         df,c = self.elemDataToOpenFAST(dfElem=self['dfElem'],  df=df, c=c, dfDS=self['dfDS'], alphaSign=alphaSign)
         return df
 
-- 
2.43.0


From 540f03e4cf84d4e7f542ca38d6a6c8271239891d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:00 +0000
Subject: [PATCH 117/133] fix: CACTUS files: writing, which is not implemented,
 emptied the file

---
 weio/cactus_file.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/weio/cactus_file.py b/weio/cactus_file.py
index cca91e8..53cf3c4 100644
--- a/weio/cactus_file.py
+++ b/weio/cactus_file.py
@@ -365,8 +365,7 @@ class CactusFile(File):
 
     def _write(self):
         """ """
-        with open(self.filename,'w') as f:
-            f.write(self.toString)
+        raise NotImplementedError()
 
     def toDataFrame(self, format='OpenFAST', alphaSign=-1):
         # ---
-- 
2.43.0


From a62ce05549945fd7558f38b2584e800e8062a141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:51 +0000
Subject: [PATCH 118/133] fix: user formats are registered in the order of
 their file names, a package __init__.py is skipped

---
 weio/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/__init__.py b/weio/__init__.py
index cc31316..c3019c6 100644
--- a/weio/__init__.py
+++ b/weio/__init__.py
@@ -140,10 +140,10 @@ def userFileClasses(userpath=None, ignoreErrors=False, verbose=True):
         import glob
         from importlib.machinery import SourceFileLoader
         import inspect
-        pyfiles = glob.glob(os.path.join(userpath,'*.py'))
+        pyfiles = sorted(glob.glob(os.path.join(userpath,'*.py')))
         # Loop through files, look for classes of the form ClassNameFile, 
         for f in pyfiles:
-            if f in ['__init__.py']:
+            if os.path.basename(f) in ['__init__.py']:
                 continue
             mod_name = os.path.basename(os.path.splitext(f)[0])
             try:
-- 
2.43.0


From 36595655f1a11c8c885cd658f4cee469481b97ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:53 +0000
Subject: [PATCH 119/133] fix: a user module registers the class it defines,
 not a File class it imports

---
 weio/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/__init__.py b/weio/__init__.py
index c3019c6..160b683 100644
--- a/weio/__init__.py
+++ b/weio/__init__.py
@@ -159,7 +159,7 @@ def userFileClasses(userpath=None, ignoreErrors=False, verbose=True):
                     raise UserFormatImportError(s)
             found=False
             for name, obj in inspect.getmembers(module):
-                if inspect.isclass(obj):
+                if inspect.isclass(obj) and obj.__module__==module.__name__: # not the classes it imports
                     classname = obj.__name__.lower()
                     if classname!='file' and classname.find('file')>=0 and classname.find('error')<0:
                         if verbose:
-- 
2.43.0


From c94c65e51563c2c4befb96aa5e672e95ef011581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:56 +0000
Subject: [PATCH 120/133] fix: fileFormats(ignoreErrors=True) returns the
 errors on every call

---
 weio/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/weio/__init__.py b/weio/__init__.py
index 160b683..4fafd54 100644
--- a/weio/__init__.py
+++ b/weio/__init__.py
@@ -12,14 +12,17 @@ class UserFormatImportError(Exception):
 
 
 _FORMATS=None
+_ERRORS=[]
 
 def fileFormats(userpath=None, ignoreErrors=False, verbose=False):
     """ return list of fileformats supported by the library
     If userpath is provided, 
 
     """
-    global _FORMATS
+    global _FORMATS, _ERRORS
     if _FORMATS is not None:
+        if ignoreErrors:
+            return _FORMATS, _ERRORS
         return _FORMATS
     # --- Library formats
     from .fast_input_file         import FASTInputFile
@@ -117,6 +120,7 @@ def fileFormats(userpath=None, ignoreErrors=False, verbose=False):
     formats = np.asarray(formats)[np.argsort(priorities, kind='stable')]
 
     _FORMATS=formats
+    _ERRORS=errors
     if ignoreErrors:
         return formats, errors
     else:
-- 
2.43.0


From c788d301527272746799f45579afe48874795152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:59 +0000
Subject: [PATCH 121/133] fix: weio.read passes its options to a format given
 by the caller

---
 weio/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/__init__.py b/weio/__init__.py
index 4fafd54..9fa669f 100644
--- a/weio/__init__.py
+++ b/weio/__init__.py
@@ -250,7 +250,7 @@ def read(filename, fileformat=None, **kwargs):
         fileformat,F = detectFormat(filename, **kwargs)
     # Reading the file with the appropriate class if necessary
     if not isinstance(F, fileformat.constructor):
-        F=fileformat.constructor(filename=filename)
+        F=fileformat.constructor(filename=filename, **kwargs)
     return F
 
 
-- 
2.43.0


From dc827c228e2d7fdcb9ff52ac9cc8b14c10092d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:02 +0000
Subject: [PATCH 122/133] fix: extensions of a format match whatever their case
 (.00X), '*' matches anywhere in a pattern

---
 weio/__init__.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/weio/__init__.py b/weio/__init__.py
index 9fa669f..f2be5f4 100644
--- a/weio/__init__.py
+++ b/weio/__init__.py
@@ -221,16 +221,9 @@ def detectFormat(filename, **kwargs):
     i = 0 
     while not detected and i<len(formats):
         myformat = formats[i]
-        if ext in myformat.extensions:
-            extMatch = True
-        else:
-            # Try patterns if present
-            extPatterns = [ef.replace('.','\.').replace('$','\$').replace('*','[.]*') for ef in myformat.extensions if '*' in ef]
-            if len(extPatterns)>0:
-                extPatMatch = [re.match(pat, ext) is not None for pat in extPatterns]
-                extMatch = any(extPatMatch)
-            else:
-                extMatch = False
+        # Extensions are compared without regard to case, '*' stands for anything
+        extPatterns = ['.*'.join([re.escape(s) for s in ef.lower().split('*')])+r'\Z' for ef in myformat.extensions]
+        extMatch = any([re.match(pat, ext, re.DOTALL) is not None for pat in extPatterns])
         if extMatch: # we have a match on the extension
             valid, F = isRightFormat(myformat, filename, **kwargs)
             if valid:
-- 
2.43.0


From 7d2506a227099651db3d0f3392c6453394d91e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:05 +0000
Subject: [PATCH 123/133] fix: formats made from the template raise weio's
 WrongFormatError, so that weio.read can go on

---
 weio/_NEWFILE_TEMPLATE.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/_NEWFILE_TEMPLATE.py b/weio/_NEWFILE_TEMPLATE.py
index 42ba251..47aeac5 100644
--- a/weio/_NEWFILE_TEMPLATE.py
+++ b/weio/_NEWFILE_TEMPLATE.py
@@ -6,7 +6,7 @@ import pandas as pd
 import os
 
 try:
-    from .file import File, WrongFormatError, BrokenFormatError
+    from weio.file import File, WrongFormatError, BrokenFormatError, EmptyFileError
 except:
     EmptyFileError    = type('EmptyFileError', (Exception,),{})
     WrongFormatError  = type('WrongFormatError', (Exception,),{})
-- 
2.43.0


From 57033d1c4e085b3b52742f6b5dfd87c9e004f4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:25 +0000
Subject: [PATCH 124/133] fix: TurbSim time series: a text file without nComp
 is not of this format, the next formats are tried

---
 weio/turbsim_ts_file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weio/turbsim_ts_file.py b/weio/turbsim_ts_file.py
index 923c1ff..28cdc2e 100644
--- a/weio/turbsim_ts_file.py
+++ b/weio/turbsim_ts_file.py
@@ -26,11 +26,13 @@ class TurbSimTSFile(File):
         with open(self.filename, 'r', errors="surrogateescape") as f:
             for i, line in enumerate(f):
                 if i>nHeaderMax:
-                    raise BrokenFormatError('`nComp` not found in file')
+                    raise WrongFormatError('`nComp` not found in file')
                 if line.lower().find('ncomp')>=0:
                     iFirstData=i
                     break
                 self['header'].append(line.strip())
+            if iFirstData<0:
+                raise WrongFormatError('`nComp` not found in file')
             self['nComp'] = int(line.split()[0])
             line          = f.readline().strip()
             nPoints       = int(line.split()[0])
-- 
2.43.0


From 27dffb50059f8b260130350506adb0b15f9fa427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:37 +0000
Subject: [PATCH 125/133] fix: FLEX blade: a file without damping data is not
 of this format, the next formats are tried

---
 weio/flex_blade_file.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/weio/flex_blade_file.py b/weio/flex_blade_file.py
index 4442ffa..c4cd131 100644
--- a/weio/flex_blade_file.py
+++ b/weio/flex_blade_file.py
@@ -96,7 +96,6 @@ class FLEXBladeFile(File):
                     self.EdgeDamping  = Damping[2:4]
                     self.TorsDamping  = []
             except:
-                raise
                 raise WrongFormatError('Unable to read damping data')
 
             # --- Aero
-- 
2.43.0


From d694d53be5b24f194f4fb663d168ed266f198d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:24 +0000
Subject: [PATCH 126/133] fix: FAST blade files read with their own classes
 keep their comment line, also when read again

---
 weio/fast_input_file.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index f5e89ee..bbf51bc 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1361,11 +1361,13 @@ class EDBladeFile(FASTInputFileBase):
             self.addValKey(     0.0   , 'BldEdgSh(4)', '           , coeff of x^4')
             self.addValKey(     0.0   , 'BldEdgSh(5)', '           , coeff of x^5')
             self.addValKey(     0.0   , 'BldEdgSh(6)', '           , coeff of x^6')
-        else:
-            # fix some stuff that generic reader fail at
-            self._setCommentLine(self._lines)
         self.module='EDBlade'
 
+    def _read(self):
+        FASTInputFileBase._read(self)
+        # fix some stuff that generic reader fail at
+        self._setCommentLine(self._lines)
+
     def _writeSanityChecks(self):
         """ Sanity checks before write """
         self['NBlInpSt']=self['BldProp'].shape[0]
@@ -1424,6 +1426,11 @@ class ADBladeFile(FASTInputFileBase):
             self.addTable('BldAeroNodes', np.zeros((0,7)), tabType=1, tabDimVar='NumBlNds', cols=['BlSpn', 'BlCrvAC', 'BlSwpAC', 'BlCrvAng', 'BlTwist', 'BlChord', 'BlAFID'], units=['(m)', '(m)', '(m)', '(deg)', '(deg)', '(m)', '(-)'])
         self.module='ADBlade'
 
+    def _read(self):
+        FASTInputFileBase._read(self)
+        # fix some stuff that generic reader fail at
+        self._setCommentLine(self._lines)
+
     def _writeSanityChecks(self):
         """ Sanity checks before write"""
         self['NumBlNds']=self['BldAeroNodes'].shape[0]
-- 
2.43.0


From 90449e11104a68691fad4da9206dc0ed6e44aaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:31 +0000
Subject: [PATCH 127/133] fix: airfoil prototypes with several tables announce
 the unsteady data of each table

---
 weio/fast_input_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index bbf51bc..7ffdf58 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1540,7 +1540,7 @@ class ADPolarFile(FASTInputFileBase):
                 self.addValKey(     1.0 ,    'Re'  +labOffset , 'Reynolds number in millions')
                 self.addValKey(       0 ,    'Ctrl'+labOffset , 'Control setting')
                 if hasUA:
-                    self.addValKey(True  ,    'InclUAdata', 'Is unsteady aerodynamics data included in this table? If TRUE, then include 30 UA coefficients below this line')
+                    self.addValKey(True  ,    'InclUAdata'+labOffset, 'Is unsteady aerodynamics data included in this table? If TRUE, then include 30 UA coefficients below this line')
                     self.addComment('!........................................')
                     self.addValKey(     np.nan   , 'alpha0'    + labOffset, r"0-lift angle of attack, depends on airfoil.")
                     self.addValKey(     np.nan   , 'alpha1'    + labOffset, r"Angle of attack at f=0.7, (approximately the stall angle) for AOA>alpha0. (deg)")
-- 
2.43.0


From 08a950582c0f873d8e105e7cfb301bbe15c0674f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:38 +0000
Subject: [PATCH 128/133] fix: airfoil polars: the Reynolds number keeps the
 spelling of its label when the file is written

---
 weio/fast_input_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 7ffdf58..c6adeba 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -468,6 +468,7 @@ class FASTInputFileBase(File):
             line = lines[i]
             d = parseFASTInputLine(line,i,allowSpaceSeparatedList)
             labelRaw =d['label'].lower()
+            label0   =d['label']
             d['label']+=labOffset
 
             # --- Handling of special files
@@ -521,7 +522,7 @@ class FASTInputFileBase(File):
                 iTab +=1
                 if nAirfoilTab>1:
                     labOffset ='_'+str(iTab)
-                d['label']=labelRaw+labOffset
+                d['label']=label0+labOffset
 
             #print('label>',d['label'],'<',type(d['label']));
             #print('value>',d['value'],'<',type(d['value']));
-- 
2.43.0


From 930fe49f315473b32bcafd6207c675ad1359543f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:30 +0000
Subject: [PATCH 129/133] fix: FAST input objects without a file name refuse
 unknown names with KeyError

---
 weio/fast_input_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index c6adeba..df00bb2 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -198,7 +198,7 @@ class FASTInputFileBase(File):
     def getID(self,label):
         i=self.getIDSafe(label)
         if i<0:
-            raise KeyError('Variable `'+ label+'` not found in FAST file:'+self.filename)
+            raise KeyError('Variable `'+ label+'` not found in FAST file: {}'.format(self.filename))
         else:
             return i
 
@@ -210,7 +210,7 @@ class FASTInputFileBase(File):
             if d['label'].lower()==label.lower():
                 I.append(i)
         if len(I)==0:
-            raise KeyError('Variable `'+ label+'` not found in FAST file:'+self.filename)
+            raise KeyError('Variable `'+ label+'` not found in FAST file: {}'.format(self.filename))
         else:
             return I
 
-- 
2.43.0


From 69e2c8d939e3649f0a1fea72f503fcb7fbf83bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:11 +0000
Subject: [PATCH 130/133] fix: CSV: a header given as one string is one line

---
 weio/csv_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index daa62ee..f4829fb 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -47,7 +47,7 @@ class CSVFile(File):
         if header is None:
             self.header=[]
         else:
-            if not hasattr(header, '__len__'):
+            if isinstance(header, str) or not hasattr(header, '__len__'):
                 self.header=[header]
             else:
                 self.header=header
-- 
2.43.0


From f62b16b92ac153a687c2bb72c8783b8c08d5bca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:13 +0000
Subject: [PATCH 131/133] fix: FAST input: a list of airfoil files of dimension
 zero is a plain line (was an infinite loop)

---
 weio/fast_input_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index df00bb2..54c6234 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -609,7 +609,7 @@ class FASTInputFileBase(File):
                     del NUMTAB_FROM_LAB_TYPE   [ii] 
                     del NUMTAB_FROM_LAB_DETECT_L[ii]  
 
-            elif isStr(d['label']) and d['label'].lower() in FILTAB_FROM_LAB_DETECT_L:
+            elif isStr(d['label']) and d['label'].lower() in FILTAB_FROM_LAB_DETECT_L and self[FILTAB_FROM_LAB_DIM_VAR[FILTAB_FROM_LAB_DETECT_L.index(d['label'].lower())]]>0:
                 ii             = FILTAB_FROM_LAB_DETECT_L.index(d['label'].lower())
                 d['label']     = FILTAB_FROM_LAB_VARNAME[ii]+labOffset
                 d['tabDimVar'] = FILTAB_FROM_LAB_DIM_VAR[ii]
-- 
2.43.0


From 536879d043213ba255e355ee40053b342cca27c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:50 +0000
Subject: [PATCH 132/133] fix: FAST input: an empty list of outputs is written
 without an empty line

---
 weio/fast_input_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 54c6234..8b750fa 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -730,8 +730,8 @@ class FASTInputFileBase(File):
                 s+='\n'.join(d['value'])
             elif d['tabType']==TABTYPE_FIL:
                 #f.write('{} {} {}\n'.format(d['value'][0],d['tabDetect'],d['descr']))
-                s+='{} {} {}\n'.format(d['value'][0],d['label'],d['descr']) # TODO?
-                s+='\n'.join(fil for fil in d['value'][1:])
+                s+='{} {} {}'.format(d['value'][0],d['label'],d['descr']) # TODO?
+                s+=''.join('\n'+fil for fil in d['value'][1:])
             elif d['tabType']==TABTYPE_NUM_BEAMDYN:
                 # TODO use dedicated sub-class
                 data = d['value']
-- 
2.43.0


From 0d017e251385a5ccf9d5a2af370daa97fe0210f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:24 +0000
Subject: [PATCH 133/133] fix: htc get_element looks the given value up (name
 was undefined)

---
 weio/wetb/hawc2/htc_contents.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/wetb/hawc2/htc_contents.py b/weio/wetb/hawc2/htc_contents.py
index a310042..1d9cfe0 100644
--- a/weio/wetb/hawc2/htc_contents.py
+++ b/weio/wetb/hawc2/htc_contents.py
@@ -276,7 +276,7 @@ class HTCSection(HTCContents):
         if isinstance(key, int):
             lst = [s for s in self if s.values[key] == value]
         elif isinstance(key, str):
-            lst = [s for s in self if key in s and s[key][0] == name]
+            lst = [s for s in self if key in s and s[key][0] == value]
         else:
             raise ValueError("Key argument must be int or str")
         if len(lst) == 1:
-- 
2.43.0

