From 5f67ddfe9d6d77885a052fec9614ac25499b5008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:03 +0000
Subject: [PATCH 01/24] fix: dicts lose one-shot iterables and keep part of a
 failed update

---
 channelpack/pack.py | 64 +++++++--------------------------------------
 1 file changed, 9 insertions(+), 55 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index f61ae42..de295e1 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -28,26 +28,14 @@ class IntKeyDict(dict):
     def update(self, *args, **kwargs):
 
         # only concern about keys being integers, let parent handle
-        # other dict violations
-        if args and isinstance(args[0], dict):
-            for key in args[0]:
-                if not isinstance(key, int):
-                    raise TypeError(self._key_error_message(key))
-
-        elif args and (hasattr(args[0], '__iter__') and not
-                       isinstance(args[0], str)):
-            for seq in args[0]:
-                if hasattr(seq, '__len__') and len(seq) > 2:
-                    break       # not our problem
-                elif (hasattr(seq, '__getitem__') and not
-                      isinstance(seq[0], int)):
-                    raise TypeError(self._key_error_message(seq[0]))
-
-        for key, value in kwargs.items():
+        # other dict violations. Collect the items first, args[0] might
+        # be an iterator and nothing is updated if some item is invalid.
+        items = dict(*args, **kwargs)
+        for key in items:
             if not isinstance(key, int):
                 raise TypeError(self._key_error_message(key))
 
-        super(IntKeyDict, self).update(*args, **kwargs)
+        super(IntKeyDict, self).update(items)
 
     def setdefault(self, key, value=None):
         if not isinstance(key, int):
@@ -78,47 +66,13 @@ class NpDict(IntKeyDict):
 
     def update(self, *args, **kwargs):
 
-        proxyargs = []
-        proxykwargs = {}
-
-        if args and isinstance(args[0], dict):
-            proxydict = {}
-            for key in args[0]:
-                array = np.array(args[0][key], copy=False)
-                self._check_raise_ndim(array, args[0][key])
-                proxydict[key] = array
-
-            proxyargs.append(proxydict)
-            # append any (invalid) additional items in args to get familiar
-            # errors from dict constructor:
-            proxyargs += args[1:]
-
-        elif args and hasattr(args[0], '__iter__'):
-            proxypairs = []
-            # loop over the key, value pairs
-            for seq in args[0]:
-                if hasattr(seq, '__getitem__'):
-                    array = np.array(seq[-1], copy=False)
-                    self._check_raise_ndim(array, seq[-1])
-                    # let possible invalid length of key, value pairs remain
-                    proxypairs.append([val for val in seq[:-1]] + [array])
-                else:           # just append what was given
-                    proxypairs.append(seq)
-
-            proxyargs.append(proxypairs)
-            # append any (invalid) additional items in args to get familiar
-            # errors from dict constructor:
-            proxyargs += args[1:]
-
-        elif args:              # a number of positional arguments (err)
-            proxyargs = args
-
-        for key, value in kwargs.items():
+        items = dict(*args, **kwargs)
+        for key, value in items.items():
             array = np.array(value, copy=False)
             self._check_raise_ndim(array, value)
-            proxykwargs[key] = array
+            items[key] = array
 
-        super(NpDict, self).update(*proxyargs, **proxykwargs)
+        super(NpDict, self).update(items)
 
     def setdefault(self, key, value=None):
         array = np.array(value, copy=False)
-- 
2.43.0


From 749a2c0be9bfd2223b00255adb410f068dbd9ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:40 +0000
Subject: [PATCH 02/24] fix: in-place merge (|=) bypasses key and array checks

---
 channelpack/pack.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index de295e1..220ca5b 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -37,6 +37,10 @@ class IntKeyDict(dict):
 
         super(IntKeyDict, self).update(items)
 
+    def __ior__(self, other):
+        self.update(other)
+        return self
+
     def setdefault(self, key, value=None):
         if not isinstance(key, int):
             raise TypeError(self._key_error_message)
-- 
2.43.0


From 8b9833d885d8bc3fa5d67a5ebe3523cf817dc167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:40 +0000
Subject: [PATCH 03/24] fix: mask_reset masks out nan elements, empty mask is
 not bool

---
 channelpack/pack.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index 220ca5b..a73ca48 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -273,11 +273,16 @@ class ChannelPack(object):
 
         """
 
-        if not self.data:
-            self.mask = np.array([])
-        else:
-            lowest = sorted(self.data)[0]
-            self.mask = self.data[lowest] == self.data[lowest]
+        self.mask = self._fullmask(self.data)
+
+    @staticmethod
+    def _fullmask(data):
+        """Return an all True mask for the dict data."""
+
+        if not data:
+            return np.array([], dtype=bool)
+        lowest = sorted(data)[0]
+        return np.ones(len(data[lowest]), dtype=bool)
 
     def duration(self, duration, samplerate=1, mindur=True):
         """Require each true part to be at least duration long.
-- 
2.43.0


From 016ea351b2817ae6f73fd68d3b670ab95d705073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:40 +0000
Subject: [PATCH 04/24] fix: data and names set from another pack are shared
 with it, mask not reset

---
 channelpack/pack.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index a73ca48..09d11ce 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -170,13 +170,12 @@ class ChannelPack(object):
 
         """
         self.FALLBACK_PREFIX = 'ch'
-        self.data = NpDict(data or {})
+        self.mindur = None
+        self.data = NpDict(data or {})  # set self.mask
         self.filenames = []
         self.fn = ''             # Possible file name
         self.names = IntKeyDict(names or {})
         self.nof = None
-        self.mindur = None
-        self.mask_reset()       # set self.mask
 
     def __setattr__(self, name, value):
         if name == 'nof' and value not in ChannelPack.nofvalids:
@@ -197,10 +196,11 @@ class ChannelPack(object):
             object.__setattr__(self, name, value)
             if self.mindur is not None:
                 self.duration(self.mindur, samplerate=1, mindur=True)
-        elif name == 'data' and not isinstance(value, NpDict):
-            object.__setattr__(self, name, NpDict(value))
-            self.mask_reset()
-        elif name == 'names' and not isinstance(value, IntKeyDict):
+        elif name == 'data':
+            value = NpDict(value)
+            self.mask = self._fullmask(value)
+            object.__setattr__(self, name, value)
+        elif name == 'names':
             object.__setattr__(self, name, IntKeyDict(value))
         elif name == 'fn':
             if not isinstance(value, str):
-- 
2.43.0


From 5c42e806d65d04e6e3bbe4afcde710ad2aef4ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:40 +0000
Subject: [PATCH 05/24] fix: mask shared with the array it was set from, half
 set on failure

---
 channelpack/pack.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index 09d11ce..799a187 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -185,8 +185,10 @@ class ChannelPack(object):
         elif name == 'mask' and not isinstance(value, np.ndarray):
             raise TypeError('Expected a numpy array')
         elif name == 'mask':
+            value = value.copy()  # altered in place by duration
+            slicelist = datautils.slicelist(value)
             object.__setattr__(self, name, value)
-            self._cached_slicelist = self._slicelist()
+            self._cached_slicelist = slicelist
             if self.mindur is not None:
                 self.duration(self.mindur, samplerate=1, mindur=True)
         elif name == 'mindur' and not ((value is None)
-- 
2.43.0


From 9f124c2223d788578131f0e0f12ed1ce5c2e4626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:40 +0000
Subject: [PATCH 06/24] fix: failed append_pack leaves the pack half appended

---
 channelpack/pack.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index 799a187..e02db77 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -248,24 +248,27 @@ class ChannelPack(object):
 
         """
 
-        if not self.data:
-            self.data = other.data
+        data, names = self.data, self.names
+
+        if not data:
+            data = other.data
         elif other.data:
-            if not set(self.data.keys()) == set(other.data.keys()):
+            if not set(data.keys()) == set(other.data.keys()):
                 raise ValueError('Data dicts set of keys not equal')
-            for key in other.data:
-                self.data[key] = np.append(self.data[key], other.data[key])
+            data = {key: np.append(data[key], other.data[key])
+                    for key in data}
 
-        if not self.names:
-            self.names = other.names
+        if not names:
+            names = other.names
         elif other.names:
-            if not set(self.names.keys()) == set(other.names.keys()):
+            if not set(names.keys()) == set(other.names.keys()):
                 raise ValueError('names dicts set of keys not equal')
 
+        # nothing is altered unless all of it can be
+        self.data = data        # resets the mask
+        self.names = names
         self.filenames.extend(other.filenames)
 
-        self.mask_reset()
-
     def mask_reset(self):
         """Set the mask attribute to the length of data and all True.
 
-- 
2.43.0


From d1ce54f1465f5c7caa5b68eba2d61911f42de5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:40 +0000
Subject: [PATCH 07/24] fix: startstop fails on empty data, alters mask before
 it can fail

---
 channelpack/pack.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index e02db77..7210e16 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -357,9 +357,12 @@ class ChannelPack(object):
 
         """
 
-        result = np.array(tuple(datautils.startstop_bool(startb, stopb)))
+        result = np.array(tuple(datautils.startstop_bool(startb, stopb)),
+                          dtype=bool)
         if apply:
-            self.mask &= result
+            mask = self.mask.copy()
+            mask &= result
+            self.mask = mask
         return result
 
     def _slicelist(self):
-- 
2.43.0


From 0709570cd0e5575ed6a02195bdfe96044e528344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:40 +0000
Subject: [PATCH 08/24] fix: records with fallback names resolved as names of
 other columns

---
 channelpack/pack.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index 7210e16..f58ed39 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -472,18 +472,19 @@ class ChannelPack(object):
 
         """
 
-        names = [self.names[key] for key in sorted(self.names)]
+        keys = sorted(self.names)
+        names = [self.names[key] for key in keys]
         if fallback:
-            names = [self.FALLBACK_PREFIX + str(key) for key in
-                     sorted(self.data)]
+            keys = sorted(self.data)
+            names = [self.FALLBACK_PREFIX + str(key) for key in keys]
 
         try:
             Record = namedtuple('Record', names)
         except ValueError:      # bad names
             raise ValueError('Includes invalid names: {}'.format(names))
 
-        for record in map(Record._make, zip(*[self(name, part=part, nof=nof)
-                                              for name in names])):
+        for record in map(Record._make, zip(*[self(key, part=part, nof=nof)
+                                              for key in keys])):
             yield record
 
     def _datakey(self, ch):
-- 
2.43.0


From f0d5acf5bb306e943dbda290dcb654873d26db07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:25 +0000
Subject: [PATCH 09/24] fix: textpack mixes up columns if usecols is not sorted

---
 channelpack/readtext.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index f593276..d64af2e 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -344,6 +344,7 @@ def textpack(fname, names=None, delimiter=None, skiprows=0, usecols=None,
 
     if usecols is not None:
         usecols = (usecols,) if type(usecols) is int else usecols
+        usecols = sorted(set(usecols))  # in the order of fields on a line
 
     if names:
         usecols = sorted(names)
-- 
2.43.0


From 97c8eddf9f6eac31f9585a8b531e1cd3bb73d902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:25 +0000
Subject: [PATCH 10/24] fix: contextopen leaves its file open if the sneakread
 fails

---
 channelpack/readtext.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index d64af2e..7336f16 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -219,9 +219,13 @@ class contextopen(object):
             except AttributeError:
                 pass
 
-        tell = self.fo.tell()
-        self.bytehint = type(self.fo.read(1)) is bytes
-        self.fo.seek(tell)
+        try:
+            tell = self.fo.tell()
+            self.bytehint = type(self.fo.read(1)) is bytes
+            self.fo.seek(tell)
+        except BaseException:
+            self.__exit__(None, None, None)
+            raise
 
     def __enter__(self):
         return self
-- 
2.43.0


From 9852ff4b56b8d8aa4491b9624ecede640138d142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:25 +0000
Subject: [PATCH 11/24] fix: stream with a file descriptor number for name not
 readable

---
 channelpack/readtext.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index 7336f16..dcedc80 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -214,10 +214,9 @@ class contextopen(object):
             self.name = fname
         else:
             self.fo = fname
-            try:
-                self.name = fname.name
-            except AttributeError:
-                pass
+            name = getattr(fname, 'name', '')
+            if isinstance(name, str):  # might be a file descriptor number
+                self.name = name
 
         try:
             tell = self.fo.tell()
-- 
2.43.0


From 7319d22cc367117711cdcb492adcd632beef73fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:25 +0000
Subject: [PATCH 12/24] fix: lazy_textpack and dbfpack rewind a given stream to
 its very beginning

---
 channelpack/dbf.py      | 3 ++-
 channelpack/readtext.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/channelpack/dbf.py b/channelpack/dbf.py
index 9cd7e25..da4fa0c 100644
--- a/channelpack/dbf.py
+++ b/channelpack/dbf.py
@@ -191,9 +191,10 @@ def dbfpack(dbf, names=None):
 
     with contextopen(dbf, 'rb') as context:
         fo = context.fo
+        tell = fo.tell()
         sniffnames = dbfreader(fo)
         allnames = next(sniffnames)
-        fo.seek(0)
+        fo.seek(tell)
         dbfrecs = dbfrecords(fo, names)
         next(dbfrecs)
         next(dbfrecs)
diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index dcedc80..ffd5240 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -264,6 +264,7 @@ def lazy_textpack(fname, parselines=25, **textkwargs):
     encoding = textkwargs.get('encoding', locale.getpreferredencoding())
     with contextopen(fname, encoding=encoding) as context:
         fo = context.fo
+        tell = fo.tell()
         if context.bytehint:
             derived = preparse([fo.readline().decode(encoding)
                                 for i in range(parselines)])
@@ -275,7 +276,7 @@ def lazy_textpack(fname, parselines=25, **textkwargs):
                     derived['converters'][key] = _floatit_bytes
         else:
             derived = preparse([fo.readline() for i in range(parselines)])
-        fo.seek(0)
+        fo.seek(tell)
         derived.update(textkwargs)
 
         if 'usecols' in textkwargs and 'names' not in textkwargs:
-- 
2.43.0


From 0dc03b4b9d25c26c5022fd573867cb46aa998fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:25 +0000
Subject: [PATCH 13/24] fix: textpack debug raises KeyError if the first line
 fails

---
 channelpack/readtext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index ffd5240..ee55f0b 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -365,7 +365,7 @@ def textpack(fname, names=None, delimiter=None, skiprows=0, usecols=None,
                                 bytehint=bytehint, converters=converters,
                                 stripstrings=stripstrings, hasnames=hasnames)
 
-        debugdict = dict(funcs=next(linetupler))
+        debugdict = dict(funcs=next(linetupler), linum=-1)
 
         if hasnames and usecols is not None:
             for col, name in zip(usecols, next(linetupler)):
-- 
2.43.0


From 9f9b9f87cd0353bc34f9af396629a2b471cfc3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:25 +0000
Subject: [PATCH 14/24] fix: textpack debug gives columns of different length
 if a line is short

---
 channelpack/readtext.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index ee55f0b..f4b520c 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -4,7 +4,7 @@ Funtions for reading data from text files.
 """
 from __future__ import print_function
 import re
-from collections import namedtuple, defaultdict
+from collections import namedtuple
 import io
 import locale
 import string
@@ -385,16 +385,11 @@ def textpack(fname, names=None, delimiter=None, skiprows=0, usecols=None,
         # Then debug is on. Do the exact same thing but loop over the
         # tuples so we can count lines and provide meaningful debug
         # output prior to an exception.
-        columndata = defaultdict(list)
+        rows = []
         try:
             for i, linetuple in enumerate(linetupler):
                 debugdict['linum'] = i
-                if usecols is not None:
-                    for column, value in zip(usecols, linetuple):
-                        columndata[column].append(value)
-                else:
-                    for column, value in enumerate(linetuple):
-                        columndata[column].append(value)
+                rows.append(linetuple)
         except Exception:
             for i, converter in enumerate(debugdict['funcs']):
                 print('converter func field', i, converter)
@@ -403,7 +398,10 @@ def textpack(fname, names=None, delimiter=None, skiprows=0, usecols=None,
             print('Traceback follows...')
             raise
 
-        return columndata
+        columns = enumerate(zip(*rows))
+        if usecols is not None:
+            columns = zip(usecols, zip(*rows))
+        return {col: data for col, data in columns}
 
     with contextopen(fname, encoding=encoding) as context:
         fo = context.fo
-- 
2.43.0


From a230483b698d04625c72851fe6f857df1edd2016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:25 +0000
Subject: [PATCH 15/24] fix: textpack invents a row with an empty string if
 there is no data

---
 channelpack/readtext.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index f4b520c..7ce3c63 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -475,7 +475,8 @@ def linetuples(fo, bytehint=False, delimiter=None, usecols=None,
         namesfunc = (as_is_stripped if not type(bytehint) is str
                      else as_is_stripped_decode)
 
-    firstvals = fo.readline().strip(stripchars).split(delimiter)  # bytes?
+    firstline = fo.readline()
+    firstvals = firstline.strip(stripchars).split(delimiter)  # bytes?
     funcs = []
     for val in firstvals:
         try:
@@ -526,8 +527,9 @@ def linetuples(fo, bytehint=False, delimiter=None, usecols=None,
         yield tuple(namesfunc(name) for name, col in
                     zip(fieldnames, allcols) if col in usecols)
 
-    yield tuple(func(val) for func, val, col in
-                zip(funcs, firstvals, allcols) if col in usecols)
+    if firstline:               # else there is no data
+        yield tuple(func(val) for func, val, col in
+                    zip(funcs, firstvals, allcols) if col in usecols)
 
     for line in fo:
         stripped = line.strip(stripchars)
-- 
2.43.0


From e7897ee1537d607a545677aa3fa03f1e2cf1ba94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:25 +0000
Subject: [PATCH 16/24] fix: lazy_textpack raises IndexError on a source with
 no text

---
 channelpack/readtext.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index 7ce3c63..ddf2185 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -111,6 +111,9 @@ def preparse(lines, firstfieldrx=r'\w'):
         else:
             break
 
+    if not dresults:            # only blank lines
+        return {}
+
     Triplet = namedtuple('Triplet', ('numcnt', 'sepcnt', 'septypcnt'))
     dcounts = [Triplet(len(tup[0]), len(tup[1]), len(set(tup[1]))) for tup
                in dresults]
-- 
2.43.0


From cf9baabca3e89c1f2135657a03452caf23970093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:25 +0000
Subject: [PATCH 17/24] fix: lazy_textpack skips rows if the file grows while
 it is preparsed

---
 channelpack/readtext.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index ddf2185..01bc5c1 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -5,6 +5,7 @@ Funtions for reading data from text files.
 from __future__ import print_function
 import re
 from collections import namedtuple
+from itertools import islice
 import io
 import locale
 import string
@@ -268,9 +269,12 @@ def lazy_textpack(fname, parselines=25, **textkwargs):
     with contextopen(fname, encoding=encoding) as context:
         fo = context.fo
         tell = fo.tell()
+        lines = list(islice(iter(fo.readline, b'' if context.bytehint else ''),
+                            parselines))
+        # let lines missing be empty, don't read on past the end
+        lines += [lines[0][:0]] * (parselines - len(lines)) if lines else []
         if context.bytehint:
-            derived = preparse([fo.readline().decode(encoding)
-                                for i in range(parselines)])
+            derived = preparse([line.decode(encoding) for line in lines])
             if derived and derived['delimiter'] is not None:
                 derived['delimiter'] = derived['delimiter'].encode(encoding)
             # only float converter for decimal comma provided by preparse
@@ -278,7 +282,7 @@ def lazy_textpack(fname, parselines=25, **textkwargs):
                 for key in derived['converters']:
                     derived['converters'][key] = _floatit_bytes
         else:
-            derived = preparse([fo.readline() for i in range(parselines)])
+            derived = preparse(lines)
         fo.seek(tell)
         derived.update(textkwargs)
 
-- 
2.43.0


From f0d1fd288c11ce193eabede2e377809959b21e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:25 +0000
Subject: [PATCH 18/24] fix: dbfpack with names reads garbage after a deleted
 record

---
 channelpack/dbf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/dbf.py b/channelpack/dbf.py
index da4fa0c..ff2ecb3 100644
--- a/channelpack/dbf.py
+++ b/channelpack/dbf.py
@@ -128,6 +128,7 @@ def dbfrecords(f, names):
             f.seek(refaddr + field.seekme)
             record.append(struct.unpack(field.fmt, f.read(field.fmtsiz))[0])
 
+        f.seek(refaddr + fields[-1].seekme + fields[-1].fmtsiz)
         if record[0] != b' ':
             continue                        # deleted record
         result = []
@@ -159,7 +160,6 @@ def dbfrecords(f, names):
             else:
                 value = value.decode('ascii')  # type = 'C' or other type
             result.append(value)
-        f.seek(refaddr + fields[-1].seekme + fields[-1].fmtsiz)
         yield result
 
 
-- 
2.43.0


From 1632558418d4aacfe7c888b7a0fe6461392c9fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:28 +0000
Subject: [PATCH 19/24] fix: open_workbook leaves the xlsx file open

---
 channelpack/xlrd/__init__.py | 62 +++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 30 deletions(-)

diff --git a/channelpack/xlrd/__init__.py b/channelpack/xlrd/__init__.py
index 5153bf2..5ba4c97 100644
--- a/channelpack/xlrd/__init__.py
+++ b/channelpack/xlrd/__init__.py
@@ -112,37 +112,39 @@ def open_workbook(filename=None,
             peek = f.read(peeksz)
     if peek == b"PK\x03\x04": # a ZIP file
         if file_contents:
-            zf = zipfile.ZipFile(timemachine.BYTES_IO(file_contents))
+            stream = timemachine.BYTES_IO(file_contents)
         else:
-            zf = zipfile.ZipFile(filename)
-
-        # Workaround for some third party files that use forward slashes and
-        # lower case names. We map the expected name in lowercase to the
-        # actual filename in the zip container.
-        component_names = dict([(X12Book.convert_filename(name), name)
-                                for name in zf.namelist()])
-
-        if verbosity:
-            logfile.write('ZIP component_names:\n')
-            pprint.pprint(component_names, logfile)
-        if 'xl/workbook.xml' in component_names:
-            from . import xlsx
-            bk = xlsx.open_workbook_2007_xml(
-                zf,
-                component_names,
-                logfile=logfile,
-                verbosity=verbosity,
-                use_mmap=use_mmap,
-                formatting_info=formatting_info,
-                on_demand=on_demand,
-                ragged_rows=ragged_rows,
-            )
-            return bk
-        if 'xl/workbook.bin' in component_names:
-            raise XLRDError('Excel 2007 xlsb file; not supported')
-        if 'content.xml' in component_names:
-            raise XLRDError('Openoffice.org ODS file; not supported')
-        raise XLRDError('ZIP file contents not a known type of workbook')
+            stream = open(filename, "rb")
+        with stream:
+            zf = zipfile.ZipFile(stream)
+
+            # Workaround for some third party files that use forward slashes and
+            # lower case names. We map the expected name in lowercase to the
+            # actual filename in the zip container.
+            component_names = dict([(X12Book.convert_filename(name), name)
+                                    for name in zf.namelist()])
+
+            if verbosity:
+                logfile.write('ZIP component_names:\n')
+                pprint.pprint(component_names, logfile)
+            if 'xl/workbook.xml' in component_names:
+                from . import xlsx
+                bk = xlsx.open_workbook_2007_xml(
+                    zf,
+                    component_names,
+                    logfile=logfile,
+                    verbosity=verbosity,
+                    use_mmap=use_mmap,
+                    formatting_info=formatting_info,
+                    on_demand=on_demand,
+                    ragged_rows=ragged_rows,
+                )
+                return bk
+            if 'xl/workbook.bin' in component_names:
+                raise XLRDError('Excel 2007 xlsb file; not supported')
+            if 'content.xml' in component_names:
+                raise XLRDError('Openoffice.org ODS file; not supported')
+            raise XLRDError('ZIP file contents not a known type of workbook')
 
     from . import book
     bk = book.open_workbook_xls(
-- 
2.43.0


From ea1e9d08200125ac90d86aed451b6ab270665e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:39 +0000
Subject: [PATCH 20/24] fix: truncated xls file with a fragmented stream is
 read with data shifted

---
 channelpack/xlrd/compdoc.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/channelpack/xlrd/compdoc.py b/channelpack/xlrd/compdoc.py
index 412a89e..f2fc235 100644
--- a/channelpack/xlrd/compdoc.py
+++ b/channelpack/xlrd/compdoc.py
@@ -315,7 +315,10 @@ class CompDoc(object):
                 if grab > todo:
                     grab = todo
                 todo -= grab
-                sectors.append(mem[start_pos:start_pos+grab])
+                sector = mem[start_pos:start_pos+grab]
+                if len(sector) < grab:
+                    raise CompDocError("OLE2 stream %r: file is truncated in sector %d" % (name, s))
+                sectors.append(sector)
                 try:
                     s = sat[s]
                 except IndexError:
@@ -455,6 +458,8 @@ class CompDoc(object):
             return (mem, start_pos, expected_stream_size)
         slices.append((start_pos, end_pos))
         # print >> self.logfile, "+++>>> %d fragments" % len(slices)
+        if any(end_pos > len(mem) for start_pos, end_pos in slices[:-1]):
+            raise CompDocError("OLE2 stream %r: file is truncated" % qname)
         return (b''.join(mem[start_pos:end_pos] for start_pos, end_pos in slices), 0, expected_stream_size)
 
 # ==========================================================================================
-- 
2.43.0


From 97638c5171bdf659062f3748f6ccd7fa0808702e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:26 +0000
Subject: [PATCH 21/24] fix: mask or mindur half applied if memory runs out

Alter a copy of the mask in duration and set mask, its parts and mindur
when nothing more can fail. With data set, mask was left with another
length than data.
---
 channelpack/pack.py | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index f58ed39..3d3cfe2 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -185,19 +185,17 @@ class ChannelPack(object):
         elif name == 'mask' and not isinstance(value, np.ndarray):
             raise TypeError('Expected a numpy array')
         elif name == 'mask':
-            value = value.copy()  # altered in place by duration
-            slicelist = datautils.slicelist(value)
-            object.__setattr__(self, name, value)
-            self._cached_slicelist = slicelist
-            if self.mindur is not None:
-                self.duration(self.mindur, samplerate=1, mindur=True)
+            if self.mindur is None:
+                self._setmask(value.copy())
+            else:
+                self._setmask(self._durationmask(value, self.mindur))
         elif name == 'mindur' and not ((value is None)
                                        or isinstance(value, int)):
             raise TypeError('Expected None or int')
         elif name == 'mindur':
+            if value is not None:
+                self._setmask(self._durationmask(self.mask, value))
             object.__setattr__(self, name, value)
-            if self.mindur is not None:
-                self.duration(self.mindur, samplerate=1, mindur=True)
         elif name == 'data':
             value = NpDict(value)
             self.mask = self._fullmask(value)
@@ -311,19 +309,31 @@ class ChannelPack(object):
         """
 
         req_duration = int(duration * samplerate)
+        self._setmask(self._durationmask(self.mask, req_duration, mindur))
 
-        for sc in self._cached_slicelist:
+        return self.mask
+
+    @staticmethod
+    def _durationmask(mask, req_duration, mindur=True):
+        """Return a copy of mask with parts of other duration made false."""
+
+        mask = mask.copy()
+
+        for sc in datautils.slicelist(mask):
             part_duration = sc.stop - sc.start
             if part_duration < req_duration and mindur:
-                self.mask[sc] = False
+                mask[sc] = False
             elif part_duration > req_duration and not mindur:
-                self.mask[sc] = False
+                mask[sc] = False
 
-        # need to reset _cached_slicelist because the __setattr__ is not called
-        # when mask is manipulated this way
-        self._cached_slicelist = self._slicelist()
+        return mask
 
-        return self.mask
+    def _setmask(self, mask):
+        """Set the mask attribute and the slicelist it yields."""
+
+        slicelist = datautils.slicelist(mask)  # might fail
+        object.__setattr__(self, 'mask', mask)
+        self._cached_slicelist = slicelist
 
     def startstop(self, startb, stopb, apply=True):
         """Start and stop trigger masking.
-- 
2.43.0


From 433fbd84416e91f8501f299bcb3e1dfd604b3a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:54 +0000
Subject: [PATCH 22/24] fix: xls formula text with characters beyond the BMP or
 of a double byte code page not readable

---
 channelpack/xlrd/sheet.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/channelpack/xlrd/sheet.py b/channelpack/xlrd/sheet.py
index a831398..185a31b 100644
--- a/channelpack/xlrd/sheet.py
+++ b/channelpack/xlrd/sheet.py
@@ -1518,13 +1518,16 @@ class Sheet(BaseObject):
         nchars_found = 0
         result = UNICODE_LITERAL("")
         while 1:
+            flag = 0
             if bv >= 80:
                 flag = BYTES_ORD(data[offset]) & 1
                 enc = ("latin_1", "utf_16_le")[flag]
                 offset += 1
-            chunk = unicode(data[offset:], enc)
-            result += chunk
-            nchars_found += len(chunk)
+            chunk = data[offset:]
+            result += unicode(chunk, enc)
+            # the count is of 16-bit units (bytes if there is no flag), not of
+            # the characters they make
+            nchars_found += len(chunk) >> flag
             if nchars_found == nchars_expected:
                 return result
             if nchars_found > nchars_expected:
-- 
2.43.0


From 79d45bf39ec0270d8eeb5af1213a7584c4ce7449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:54 +0000
Subject: [PATCH 23/24] fix: xlsx with upper case part names and sheet
 relations not readable

---
 channelpack/xlrd/xlsx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/channelpack/xlrd/xlsx.py b/channelpack/xlrd/xlsx.py
index a1ca2dd..0396c40 100644
--- a/channelpack/xlrd/xlsx.py
+++ b/channelpack/xlrd/xlsx.py
@@ -813,7 +813,7 @@ def open_workbook_2007_xml(zf,
 
         rels_fname = 'xl/worksheets/_rels/%s.rels' % fname.rsplit('/', 1)[-1]
         if rels_fname in component_names:
-            zfrels = zf.open(rels_fname)
+            zfrels = zf.open(component_names[rels_fname])
             x12sheet.process_rels(zfrels)
             del zfrels
 
@@ -821,7 +821,7 @@ def open_workbook_2007_xml(zf,
             if reltype == 'comments':
                 comments_fname = x12sheet.relid2path.get(relid)
                 if comments_fname and comments_fname in component_names:
-                    comments_stream = zf.open(comments_fname)
+                    comments_stream = zf.open(component_names[comments_fname])
                     x12sheet.process_comments_stream(comments_stream)
                     del comments_stream
 
-- 
2.43.0


From 6bbfcf72260254a44aa13d7c1ba086dbd967895c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:09 +0000
Subject: [PATCH 24/24] fix: any string that begins like a fallback string
 taken for the channel

---
 channelpack/pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index 3d3cfe2..16c001e 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -531,7 +531,7 @@ class ChannelPack(object):
         # not in data, not a good name in names, last chance is a
         # fallback string
 
-        prefix_rx = self.FALLBACK_PREFIX + r'(\d+)'
+        prefix_rx = self.FALLBACK_PREFIX + r'(\d+)\Z'
         m = re.match(prefix_rx, ch)
 
         if m:
-- 
2.43.0

