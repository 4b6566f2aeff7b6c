From d252d592e3a7949599ffd457a0e3524ebb5d42d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:46 +0000
Subject: [PATCH 01/95] fix: copy elements with copy.copy(), Element.copy() no
 longer exists

---
 lib/sldr/ldml.py       | 4 ++--
 lib/sldr/ldml_merge.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 86d12a7..d05f86a 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -26,7 +26,7 @@
 from xml.etree import ElementTree as et
 from xml.etree import ElementPath as ep
 import itertools
-import re, os, codecs
+import re, os, codecs, copy
 import xml.parsers.expat
 import functools
 from math import log10
@@ -479,7 +479,7 @@ class Ldml(ETWriter):
         self.normalise(self.root, usedrafts=usedrafts)
 
     def _copynode(self, n, parent=None):
-        res = n.copy()
+        res = copy.copy(n)
         for a in ('contentHash', 'attrHash', 'comments', 'commentsafter', 'parent', 'document'):
             if hasattr(n, a):
                 setattr(res, a, getattr(n, a, None))
diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 18b26a4..fa719f5 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -24,7 +24,7 @@
 # SUCH DAMAGE.
 
 from sldr.ldml import Ldml, _alldrafts
-import os
+import copy, os
 
 class _arrayDict(dict):
     def set(self, k, v):
@@ -272,7 +272,7 @@ class LdmlMerge(Ldml):
 
     
     def _add_alt(self, target, origin, default='unconfirmed'):
-        self._add_alt_leaf(target, origin.copy(),
+        self._add_alt_leaf(target, copy.copy(origin),
                 default=default, leaf=origin.contentHash is not None,
                 alt = self.alt())
 
-- 
2.43.0


From 8d4644dad812f21ec8fef0751a9db78e1c8ab3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:46 +0000
Subject: [PATCH 02/95] fix: default the draft from the document in a merge,
 elements have no default_draft

---
 lib/sldr/ldml_merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index fa719f5..6ecb415 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -191,7 +191,7 @@ class LdmlMerge(Ldml):
            Returns True if the merge did the work."""
         res = False
         if default is None:
-            default = base.default_draft
+            default = self.default_draft
         # if base != target && base better than target
         if base is not None and base.contentHash != target.contentHash and base.text and self.get_draft(base) < self.get_draft(target, default):
             res = True
-- 
2.43.0


From 36f433d611c1cc96ebc0cdaf44eb2a4f4ac2b7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:46 +0000
Subject: [PATCH 03/95] fix: don't share the namespaces already declared
 between serializations

---
 lib/sldr/ldml.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index d05f86a..4cbda71 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -132,9 +132,11 @@ class ETWriter(object):
             return self.attributeOrder.get(n.tag, {}).get(x, self.maxAts)
         return sorted((attribs if attribs is not None else n.keys()), key=lambda x:(getorder(x), x))
 
-    def serialize_xml(self, write, base = None, indent = '', topns = True, namespaces = {}):
+    def serialize_xml(self, write, base = None, indent = '', topns = True, namespaces = None):
         """ Output the object using write() in a normalised way:
             topns if set puts all namespaces in root element else put them as low as possible"""
+        if namespaces is None:
+            namespaces = {}
         if base is None:
             base = self.root
             write('<?xml version="1.0" encoding="utf-8"?>\n')
@@ -183,7 +185,7 @@ class ETWriter(object):
         for c in getattr(base, 'commentsafter', []):
             write('{}<!--{}-->\n'.format(indent, c))
 
-    def save_as(self, fname, base = None, indent = '', topns = True, namespaces = {}):
+    def save_as(self, fname, base = None, indent = '', topns = True, namespaces = None):
         """ A more comfortable serialize_xml using a filename"""
         with codecs.open(fname, "w", encoding="utf-8") as outf:
             self.serialize_xml(outf.write, base=base, indent=indent, topns=topns, namespaces=namespaces)
@@ -864,7 +866,7 @@ class Ldml(ETWriter):
         res += n.tag + "".join('[@{}="{}"]'.format(*x) for x in tests)
         return res
 
-    def serialize_xml(self, write, base = None, indent = '', topns = True, namespaces = {}, nouid=True):
+    def serialize_xml(self, write, base = None, indent = '', topns = True, namespaces = None, nouid=True):
         """ Output this LDML to the given io stream """
         if base is None and getattr(self, 'uid', None) is not None and not nouid:
             dstatus = self.use_draft
-- 
2.43.0


From d01481855e58ab4b6be06c644e07b16c8a1f2759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:46 +0000
Subject: [PATCH 04/95] fix: escape the end of CDATA marker in CDATA content

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 4cbda71..f04075f 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -178,7 +178,7 @@ class ETWriter(object):
             if tag not in self.takesCData:
                 t = self._protect(base.text.replace('\n', '\n' + indent), base=_elementprotect)
             else:
-                t = "<![CDATA[\n\t" + indent + base.text.replace('\n', '\n\t' + indent) + "\n" + indent + "]]>"
+                t = "<![CDATA[\n\t" + indent + base.text.replace(']]>', ']]]]><![CDATA[>').replace('\n', '\n\t' + indent) + "\n" + indent + "]]>"
             write('>{}</{}>\n'.format(t, tag))
         else:
             write('/>\n')
-- 
2.43.0


From 7b52cd29efdb03c77155e7b09a861f68fb4fc8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:46 +0000
Subject: [PATCH 05/95] fix: don't lose text following a comment in an element

---
 lib/sldr/ldml.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index f04075f..0bbf925 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -461,10 +461,12 @@ class Ldml(ETWriter):
                     else:
                         self.root = elem
                     curr = elem
-            elif elem.tag == '!--':
-                if curr is not None:
-                    curr.remove(elem)
-            else:
+            elif elem.tag != '!--':
+                # remove the comment markers, keeping any text that follows them
+                for c in [x for x in elem if x.tag == '!--']:
+                    if c.tail and elem[0] is c:
+                        elem.text = (elem.text or '') + c.tail
+                    elem.remove(c)
                 if len(comments) and len(elem):
                     elem[-1].commentsafter = comments
                     comments = []
-- 
2.43.0


From 6b915e0e82bf895eb3e0290272cae993eca3b6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:46 +0000
Subject: [PATCH 06/95] fix: don't collect alternates for serial elements, they
 stay in place

---
 lib/sldr/ldml.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 0bbf925..5105337 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -787,6 +787,8 @@ class Ldml(ETWriter):
             temp = {}
             for c in base:
                 a = c.get('alt', None)
+                if c.tag in self.serialElements:
+                    continue
                 if c.attrHash not in temp or a not in temp[c.attrHash] \
                         or self.get_draft(c, default=self.default_draft) < self.get_draft(temp[c.attrHash][a], default=self.default_draft):
                     temp.setdefault(c.attrHash, {})[a] = c
-- 
2.43.0


From 29ec3d3b2f225fd34c09a939665af1e099c1b82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:46 +0000
Subject: [PATCH 07/95] fix: don't order elements by a draft that will not be
 output

---
 lib/sldr/ldml.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 5105337..4cdec73 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -767,7 +767,8 @@ class Ldml(ETWriter):
             def cmpat(x, y):
                 return cmp(getorder(x), getorder(y)) or cmp(x, y)
             def keyel(x):
-                xl = self._sortedattrs(x)
+                # a draft that won't be output must not affect the order
+                xl = [l for l in self._sortedattrs(x) if l != 'draft' or not self._dropsdraft(x)]
                 res = [self.elementOrder.get(base.tag, {}).get(x.tag, self.maxEls), x.tag]
                 for k, a in ((l, x.get(l)) for l in xl):
                     if x.tag in self.attribvals and k in self.attribvals[x.tag]:
@@ -786,9 +787,9 @@ class Ldml(ETWriter):
         if usedrafts:        # pack up all alternates
             temp = {}
             for c in base:
-                a = c.get('alt', None)
                 if c.tag in self.serialElements:
                     continue
+                a = c.get('alt', None)
                 if c.attrHash not in temp or a not in temp[c.attrHash] \
                         or self.get_draft(c, default=self.default_draft) < self.get_draft(temp[c.attrHash][a], default=self.default_draft):
                     temp.setdefault(c.attrHash, {})[a] = c
@@ -879,8 +880,7 @@ class Ldml(ETWriter):
             self.use_draft = dstatus
         if self.useDrafts:
             n = base if base is not None else self.root
-            draft = n.get('draft', '')
-            if draft and (len(n) or draft == self.default_draft) and n.tag != "{" + self.silns + "}identity":
+            if self._dropsdraft(n):
                 del n.attrib['draft']
             offset = 0
             alt = n.get('alt', '')
@@ -898,6 +898,12 @@ class Ldml(ETWriter):
                 if hasattr(c, 'tempnode') and c.tempnode:
                     n.remove(c)
 
+    def _dropsdraft(self, n):
+        """ Return whether the draft on this node is redundant, so not output """
+        draft = n.get('draft', '')
+        return self.useDrafts and draft != '' and (len(n) or draft == self.default_draft) \
+                and n.tag != "{" + self.silns + "}identity"
+
     def get_draft(self, e, default=None):
         """ Return a draft numeric level for this node """
         ldraft = e.get('draft', None) if e is not None else None
-- 
2.43.0


From ae39bdabe4cbbf6a8f6c67f0317888f3f2671e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:49 +0000
Subject: [PATCH 08/95] fix: don't fail when overlaying external resources onto
 a special without any

---
 lib/sldr/ldml_merge.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 6ecb415..60db077 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -100,7 +100,11 @@ class LdmlMerge(Ldml):
         """Handle sil:font fallback mechanism"""
         silfonttag = '{'+self.silns+'}font'
         fonts = []
-        this = [x for x in this if x.attrHash == other.attrHash][0]
+        matches = [x for x in this if x.attrHash == other.attrHash]
+        if not len(matches):
+            this.append(other)
+            return
+        this = matches[0]
         for t in list(this):
             if t.tag == silfonttag:
                 fonts.append(t)
-- 
2.43.0


From d26ba4b476e9e70bceaaeb112ba45ae3728e78c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:49 +0000
Subject: [PATCH 09/95] fix: identify the document itself exactly when
 importing collations

---
 lib/sldr/ldml_merge.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 60db077..377143e 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -24,7 +24,7 @@
 # SUCH DAMAGE.
 
 from sldr.ldml import Ldml, _alldrafts
-import copy, os
+import copy, os, re
 
 class _arrayDict(dict):
     def set(self, k, v):
@@ -461,7 +461,7 @@ def flattenlocale(lname, dirs=[], rev='f', changed=set(),
         collmap = {'phonebk' : 'phonebook'}
         def getcollator(lang, coll):
             try:
-                if l.fname.endswith(lang+'.xml'):
+                if re.split(r'[\\/]', l.fname)[-1] == lang+'.xml':
                     c = l
                 else:
                     c = getldml(('root' if lang == 'und' else lang), dirs)
-- 
2.43.0


From f76253f3b4c1f2899831661a8015343772a50dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:49 +0000
Subject: [PATCH 10/95] fix: flatten collations when multiprocessing as well

---
 scripts/ldmlflatten | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/ldmlflatten b/scripts/ldmlflatten
index 0db8b6f..27ce5f8 100755
--- a/scripts/ldmlflatten
+++ b/scripts/ldmlflatten
@@ -78,7 +78,8 @@ def doit(l) :
     else :
         try :
             curr = flattenlocale(l, dirs=args.indir, rev=action,
-                                 skipstubs=args.skipstubs, resolveAlias=args.antialias)
+                                 skipstubs=args.skipstubs, flattencollation=True,
+                                 resolveAlias=args.antialias)
         except Exception as e :
             print(e)
             return (False, l, str(e))
-- 
2.43.0


From 2e7640909b64cc5ed9ab5e6a234e586bb067a259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:49 +0000
Subject: [PATCH 11/95] fix: read the locales from the text of a fallback
 element

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 4cdec73..d8c991b 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -748,7 +748,7 @@ class Ldml(ETWriter):
             self.__class__.ReadSupplementalData()
         fall = self.root.find('fallback')
         if fall is not None:
-            return fall.split()
+            return fall.text.split()
         elif thislangtag in self.parentLocales:
             return self.parentLocales[thislangtag]
         else:
-- 
2.43.0


From 851b31b4fa1a3a5d9d3c647bc150b0d5e8e74d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:49 +0000
Subject: [PATCH 12/95] fix: report alias loops rather than failing

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index d8c991b..8dc475b 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -928,7 +928,7 @@ class Ldml(ETWriter):
                 children = this.findall(v)
                 if children is None or not len(children): continue
                 if children[0] in _cache:
-                    print("Alias loop discovered {} in {}".format(children[0], self.name))
+                    print("Alias loop discovered {} in {}".format(children[0], getattr(self, 'fname', '')))
                     return True
                 _cache.add(children[0])
                 self.resolve_aliases(children[0], _cache)
-- 
2.43.0


From b0dfd76366632f082b72382189f42387fd6d42c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:49 +0000
Subject: [PATCH 13/95] fix: don't overwrite other alternates when changing a
 draft

---
 lib/sldr/ldml.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 8dc475b..3ade7d4 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -577,6 +577,8 @@ class Ldml(ETWriter):
             old.alternates = nalt
         if oalt is not None:
             new.alternates = oalt
+        elif hasattr(old, 'alternates'):
+            del old.alternates
         if alt is None:
             alt = new.get('alt', None)
         elif 'alt' in new.attrib and new.attrib['alt'] in new.alternates:
@@ -594,7 +596,8 @@ class Ldml(ETWriter):
 
     def change_draft(self, node, draft, alt=None):
         ''' Change the draft on a node, moving it in the alts hierarchy if necessary. '''
-        alt = self.alt(alt)
+        if alt is not None:
+            alt = self.alt(alt)
         best = self._find_best(node, draftratings.get(draft, len(draftratings)), alt=alt)
         node.set('draft', draft)
         if best is None:
-- 
2.43.0


From 2ab80c7e5b5d4b83dc14de1e711d3730a4db3996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:58 +0000
Subject: [PATCH 14/95] fix: add a new value to an element without overwriting
 another alternate

---
 lib/sldr/ldml.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 3ade7d4..f133422 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -491,7 +491,7 @@ class Ldml(ETWriter):
             res.parent = parent
         return res
 
-    def addnode(self, parent, tag, attrib=None, alt=None, returnnew=False, **attribs):
+    def addnode(self, parent, tag, attrib=None, alt=None, returnnew=False, text=None, **attribs):
         ''' Adds a node, keeping the best alternate at the front '''
         if attrib is not None:
             attrib = {k:v for k,v in attrib.items() if v} # filter @x=""
@@ -502,6 +502,8 @@ class Ldml(ETWriter):
         e = parent.makeelement(tag, attrib)
         e.parent = parent
         e.document = parent.document
+        if text is not None:
+            e.text = text
         if self.useDrafts:
             alt = self.alt(alt)
             if 'draft' not in e.attrib and self.use_draft is not None:
@@ -575,10 +577,10 @@ class Ldml(ETWriter):
         oalt = getattr(old, 'alternates', {})
         if nalt is not None:
             old.alternates = nalt
-        if oalt is not None:
-            new.alternates = oalt
         elif hasattr(old, 'alternates'):
             del old.alternates
+        if oalt is not None:
+            new.alternates = oalt
         if alt is None:
             alt = new.get('alt', None)
         elif 'alt' in new.attrib and new.attrib['alt'] in new.alternates:
@@ -609,15 +611,13 @@ class Ldml(ETWriter):
     def _add_inserted_node(self, before, draft, text, parent, tag, **kw):
         if draft is not None:
             kw['draft'] = draft
-        se = self.addnode(parent, tag, **kw)
-        if before is not None:
+        se = self.addnode(parent, tag, text=text, **kw)
+        if before is not None and any(e is se for e in parent):
             for j, e in enumerate(parent):
                 if e.tag == before:
                     parent.remove(se)
                     parent.insert(j, se)
                     break
-        if text is not None:
-            se.text = text
         return se
 
     def _unify_path(self, path, base=None, action="add", text=None, draft=None, alt=None, matchdraft=None, before=None):
@@ -669,7 +669,8 @@ class Ldml(ETWriter):
                             newcurr.append(r)
             if not len(newcurr):
                 if action == "add":
-                    newcurr.append(self._add_inserted_node(before, draft, text, parent, tag, attrib=attrs, alt=alt))
+                    newcurr.append(self._add_inserted_node(before, draft, text if i == len(path)-1 else None,
+                                                           parent, tag, attrib=attrs, alt=alt))
                 else:
                     return []
             parent = newcurr[0]
-- 
2.43.0


From d0b6864685b0c4c9c91e6959cca6bc890cc16f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:58 +0000
Subject: [PATCH 15/95] fix: improve the draft of a matching alternate

---
 lib/sldr/ldml.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index f133422..5d31ea6 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -708,11 +708,16 @@ class Ldml(ETWriter):
             curr = newcurr
             newcurr = []
             for job in curr:
-                extras = [] if draft is None or not hasattr(job, 'alternates') else job.alternates.keys()
-                for j in itertools.chain([job], extras):
+                extras = [] if draft is None or not hasattr(job, 'alternates') else job.alternates.values()
+                for j in itertools.chain([job], list(extras)):
                     if j.text == text:
                         if draft is not None and self.get_draft(j) > draftratings.get(draft, len(draftratings)):
-                            self.change_draft(j, draft, alt=alt)
+                            if j is job:
+                                self.change_draft(j, draft, alt=alt)
+                            else:
+                                j.set('draft', draft)
+                                if self.get_draft(j) < self.get_draft(job):
+                                    job = self._promote(job, j)
                         newcurr.append(j)
             if not len(newcurr):
                 tag = steps[-1]
-- 
2.43.0


From b01ea37ee355868becd7ae985d1591d1864fd999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:20 +0000
Subject: [PATCH 16/95] fix: rate unmarked alternates by the default draft

---
 lib/sldr/ldml.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 5d31ea6..9950e77 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -549,21 +549,20 @@ class Ldml(ETWriter):
     def _find_best(self, node, threshold=len(draftratings), alt=None):
         ''' Find the best alternate in node. The alt parameter chooses that alt
             if it is a possible winner'''
-        maxr = len(draftratings)
         if not hasattr(node, 'alternates'):
             return None
         res = None
         if alt is not None:
             bestalt = node.alternates.get(alt, None)
             if bestalt is not None:
-                bestalt = draftratings.get(bestalt.get('draft', None), maxr)
+                bestalt = self.get_draft(bestalt, self.use_draft)
             else:
                 bestalt = None
         else:
             bestalt = None
 
         for k, v in node.alternates.items():
-            d = draftratings.get(v.get('draft', self.use_draft), maxr)
+            d = self.get_draft(v, self.use_draft)
             if d < threshold:
                 res = k
                 threshold = d
-- 
2.43.0


From 15860656aaaf49c53594c35428ebafc8dbcfb264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:36 +0000
Subject: [PATCH 17/95] fix: recognise \x{} and \u{} escapes

---
 lib/sldr/UnicodeSets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/UnicodeSets.py b/lib/sldr/UnicodeSets.py
index a9957b3..6ccffc0 100644
--- a/lib/sldr/UnicodeSets.py
+++ b/lib/sldr/UnicodeSets.py
@@ -25,8 +25,8 @@
 import unicodedata
 import re
 
-hexescre = re.compile(r"(?:\\(?:ux)\{([0-9a-fA-F]+)\}|\\u([0-9a-fA-F]{4})|\\U([0-9a-fA-F]{8})|\\x([0-9a-fA-F]{2}))")
-hexgre = re.compile(r"\\u\{([0-9a-fA-F]+)\}")
+hexescre = re.compile(r"(?:\\[ux]\{([0-9a-fA-F]+)\}|\\u([0-9a-fA-F]{4})|\\U([0-9a-fA-F]{8})|\\x([0-9a-fA-F]{2}))")
+hexgre = re.compile(r"\\u\{([0-9a-fA-F ]+)\}")
 simpleescs = {
     'a' : "\u0007",
     'b' : "\u0008",
-- 
2.43.0


From 3c0d058c77e5baee795eb7976f2320960d4260b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:54 +0000
Subject: [PATCH 18/95] fix: respect escapes, spaces and nesting when finding
 the parts of a Unicode set

---
 lib/sldr/UnicodeSets.py | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/lib/sldr/UnicodeSets.py b/lib/sldr/UnicodeSets.py
index 6ccffc0..fa3df91 100644
--- a/lib/sldr/UnicodeSets.py
+++ b/lib/sldr/UnicodeSets.py
@@ -188,8 +188,29 @@ def flatten(s, normal=None):
         yield "".join(_expand(p, vals, i, x) for i, x in enumerate(indices))
 
 
+def _hexsub(regex, fn, s):
+    """Substitute hex escapes, skipping escaped backslashes."""
+    return re.sub(r"\\\\|" + regex.pattern, lambda m:fn(m) if m.lastindex else m.group(0), s)
+
+
+def _findclose(s, ind, close):
+    """Returns the index of the unescaped closing character for what is open at ind."""
+    depth = 0
+    while ind < len(s):
+        if s[ind] == '\\':
+            ind += 1
+        elif s[ind] == close and depth == 0:
+            return ind
+        elif close == ']' and s[ind] == '{':
+            ind = _findclose(s, ind + 1, '}')
+        elif close == ']' and s[ind] in '[]':
+            depth += 1 if s[ind] == '[' else -1
+        ind += 1
+    raise ValueError("missing {} in {}".format(close, s))
+
+
 def struni(s, groups=None):
-    s = hexescre.sub(lambda m:escapechar(chr(int(m.group(m.lastindex), 16))), s)
+    s = _hexsub(hexescre, lambda m:escapechar(chr(int(m.group(m.lastindex), 16))), s)
     s = simpleescsre.sub(lambda m:simpleescs.get(m.group(1), m.group(1)), s)
     if groups is not None:
         s = groupsre.sub(lambda m:groups[int(m.group(1)) - 1], s)
@@ -199,10 +220,10 @@ def struni(s, groups=None):
 def parse(s, normal=None):
     '''Returns a sequence of UnicodeSet'''
     # convert escapes
-    s = hexescre.sub(lambda m:escapechar(chr(int(m.group(m.lastindex), 16))), s)
+    s = _hexsub(hexescre, lambda m:escapechar(chr(int(m.group(m.lastindex), 16))).replace(' ', '\\ '), s)
     # don't flatten \\ escapes here since we need to differentiate with action chars {}[]
-    s = hexgre.sub(lambda m:"{"+"".join(escapechar(chr(int(x, 16))) for x in m.group(1).split())+"}", s)
-    s = s.replace(' ', '')
+    s = _hexsub(hexgre, lambda m:"{"+"".join(escapechar(chr(int(x, 16))) for x in m.group(1).split()).replace(' ', '\\ ')+"}", s)
+    s = re.sub(r"\\.| ", lambda m:'' if m.group(0) == ' ' else m.group(0), s, flags=re.S)
     res = UnicodeSetSequence()
     i = 0
     currgroup = -1
@@ -232,9 +253,7 @@ def parseitem(s, ind, lastitem, end, usegroups=False):
             ind += 1
         item = None
         res.setclass(True)
-        e = s.index(']', ind)
-        while e > 0 and s[e-1] == '\\' and s[e-2] != '\\':
-            e = s.index(']', e+1)
+        e = _findclose(s, ind, ']')
         while ind < e:
             (ind, item, nextitem) = parseitem(s, ind, item, e)
             if item:
@@ -296,9 +315,7 @@ def parseitem(s, ind, lastitem, end, usegroups=False):
             else:
                 res.add(op)
     elif s[ind] == '{':
-        e = s.index('}', ind+1)
-        while e > 0 and s[e-1] == '\\':
-            e = s.index('}', e+1)
+        e = _findclose(s, ind+1, '}')
         res.add(simpleescsre.sub(lambda m:simpleescs.get(m.group(1), m.group(1)), s[ind+1:e]))
         ind = e + 1
     elif s[ind] == '\\':
-- 
2.43.0


From 0ccc23feb5c78e2ff470f2b7d4d1a2a266d2793c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:27 +0000
Subject: [PATCH 19/95] fix: evaluate chained and negated Unicode set
 operations

---
 lib/sldr/UnicodeSets.py | 69 ++++++++++++++++++-----------------------
 1 file changed, 30 insertions(+), 39 deletions(-)

diff --git a/lib/sldr/UnicodeSets.py b/lib/sldr/UnicodeSets.py
index fa3df91..001bdb8 100644
--- a/lib/sldr/UnicodeSets.py
+++ b/lib/sldr/UnicodeSets.py
@@ -160,6 +160,24 @@ class UnicodeSet(set):
     def setclass(self, state):
         self.isclass = state
 
+    def combine(self, op, other):
+        """ Returns a new class that is the union (|), intersection (&) or
+            difference (-) with another UnicodeSet, allowing for negation. """
+        # a|b == ^(^a & ^b), a-b == a & ^b
+        neg = self.negative != (op == '|')
+        oneg = other.negative != (op != '&')
+        if neg and oneg:
+            res = UnicodeSet(self | other)
+        elif neg:
+            res = UnicodeSet(other - self)
+        elif oneg:
+            res = UnicodeSet(self - other)
+        else:
+            res = UnicodeSet(self & other)
+        res.setclass(True)
+        res.negate((neg and oneg) != (op == '|'))
+        return res
+
 
 def _expand(p, vals, ind, indval):
     if vals[ind][indval].startswith("\\"):
@@ -248,19 +266,20 @@ def parseitem(s, ind, lastitem, end, usegroups=False):
     res = UnicodeSet()
     if s[ind] == '[':
         ind += 1
-        if s[ind] == '^':
-            res.negate(True)
+        negative = s[ind] == '^'
+        if negative:
             ind += 1
         item = None
-        res.setclass(True)
         e = _findclose(s, ind, ']')
         while ind < e:
             (ind, item, nextitem) = parseitem(s, ind, item, e)
-            if item:
-                res.update(item)
+            if item is not None:
+                res = res.combine('|', item)
             item = nextitem
-        if item:
-            res.update(item)
+        if item is not None:
+            res = res.combine('|', item)
+        res.setclass(True)
+        res.negate(res.negative != negative)
         ind += 1
     elif s[ind] in '|&-':
         op = s[ind]
@@ -269,41 +288,13 @@ def parseitem(s, ind, lastitem, end, usegroups=False):
             res.add(op)
         else:
             (ind, _, item) = parseitem(s, ind, None, end)
-            if op == '|' and lastitem and item:
-                if lastitem.negative:
-                    if item.negative:
-                        res = lastitem & item
-                    else:
-                        res = lastitem - item
-                elif item.negative:
-                    res = item - lastitem
-                    res.negate(True)
-                else:
-                    res = item.union(lastitem)
-                lastitem = None
-            elif op == '&' and lastitem and item:
-                if lastitem.negative:
-                    if item.negative:
-                        res = item.union(lastitem)
-                    else:
-                        res = item - lastitem
-                elif item.negative:
-                    res = lastitem - item
-                else:
-                    res = item & lastitem
+            if op in '|&' and lastitem is not None and item is not None:
+                res = lastitem.combine(op, item)
                 lastitem = None
             elif op == '-':
                 # set difference
-                if lastitem and item and lastitem.isclass and item.isclass:
-                    if lastitem.negative:
-                        if item.negative:
-                            res = item - lastitem
-                        else:
-                            res = lastitem | item
-                    elif item.negative:
-                        res = lastitem & item
-                    else:
-                        res = lastitem - item
+                if lastitem is not None and item is not None and lastitem.isclass and item.isclass:
+                    res = lastitem.combine(op, item)
                     lastitem = None
                 # char range
                 elif lastitem and item and len(lastitem) == 1 and len(item) == 1:
-- 
2.43.0


From 949fe698646313182472ecb0d2c52dd9cdfaf48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:28 +0000
Subject: [PATCH 20/95] fix: flatten and reverse Unicode set sequences
 completely

---
 lib/sldr/UnicodeSets.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lib/sldr/UnicodeSets.py b/lib/sldr/UnicodeSets.py
index 001bdb8..cd6a490 100644
--- a/lib/sldr/UnicodeSets.py
+++ b/lib/sldr/UnicodeSets.py
@@ -123,13 +123,13 @@ def escapechar(s):
 class UnicodeSetSequence(list):
 
     def __init__(self, *p, **kw):
-        super(list, self).__init__(*p, **kw)
+        super(UnicodeSetSequence, self).__init__(*p, **kw)
         self.groups = []
 
     def reverse(self):
-        new = UnicodeSetSequence(self)
+        new = UnicodeSetSequence(self[::-1])
         l = len(self)
-        new.groups = [(l-x[0], l-x[1]) for x in self.groups]
+        new.groups = [(l-x[1], l-x[0]) for x in self.groups]
         return new
 
 
@@ -179,12 +179,13 @@ class UnicodeSet(set):
         return res
 
 
-def _expand(p, vals, ind, indval):
-    if vals[ind][indval].startswith("\\"):
-        g = p.group(int(vals[ind][indval][1]))
-        return "".join(_expand(p, vals, i, indices[i]) for i in range(g[0], g[1]))
+def _expand(p, vals, ind, indices):
+    val = vals[ind][indices[ind]]
+    if re.match(r"\\[0-9]", val):
+        g = p.groups[int(val[1]) - 1]
+        return "".join(_expand(p, vals, i, indices) for i in range(g[0], g[1]))
     else:
-        return vals[ind][indval]
+        return val
 
 
 def flatten(s, normal=None):
@@ -194,6 +195,7 @@ def flatten(s, normal=None):
     num = len(vals)
     indices = [0] * num
     while True:
+        yield "".join(_expand(p, vals, i, indices) for i in range(num))
         for i in range(num):
             if indices[i] == lens[i] - 1:
                 indices[i] = 0
@@ -202,8 +204,6 @@ def flatten(s, normal=None):
                 break
         else:
             return
-        res = []
-        yield "".join(_expand(p, vals, i, x) for i, x in enumerate(indices))
 
 
 def _hexsub(regex, fn, s):
-- 
2.43.0


From 0a16cd678fb8443f020ee80ada8d94eb940deb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:07 +0000
Subject: [PATCH 21/95] fix: respect escapes when parsing collation tailorings

---
 lib/sldr/collation.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index 7e64c67..45d1343 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -35,10 +35,11 @@ def escape(s, allchars=False):
 
 def unescape(s):
     '''Parse tailoring escaped characters into normal Unicode'''
-    s = re.sub(r'(?:\\U([0-9A-F]{8})|\\u([0-9A-F]{4}))', lambda m: chr(int(m.group(m.lastindex), 16)), s, re.I)
-    s = re.sub(r'\\(.)', r'\1', s)
-    s = s.replace("''", "'")
-    return s
+    def unesc(m):
+        if m.lastindex is None:
+            return "'"
+        return m.group(3) if m.lastindex == 3 else chr(int(m.group(m.lastindex), 16))
+    return re.sub(r"\\U([0-9A-F]{8})|\\u([0-9A-F]{4})|\\(.)|''", unesc, s, flags=re.I)
 
 def ducetSortKey(d, k, extra=None, fn=None):
     '''Turn a sequence of sort keys for the given string into a single
@@ -206,6 +207,8 @@ class Collation(UserDict):
     def parse(self, string):
         """Parse LDML/ICU sort tailoring"""
         prefix = ""
+        # protect escaped syntax characters from being treated as syntax
+        string = re.sub(r'\\(\\|[&<=/])', lambda m: m.group(0) if m.group(1) == '\\' else '\\u{:04X}'.format(ord(m.group(1))), string)
         string = re.sub(r'^#.*$', '', string, flags=re.M)
         for n, run in enumerate(string.split('&')):
             bits = [x.strip() for x in re.split(r'([<=]+)', run)]
@@ -224,11 +227,11 @@ class Collation(UserDict):
                     l = s.count('<')
                 k = re.sub(r'\s#.*$', '', bits[i+1], flags=re.M)
                 key = unescape(k)
-                exp = key.find("/")
+                exp = k.find("/")
                 expstr = ""
                 if exp > 0:
-                    expstr = key[exp+1:].strip()
-                    key = key[:exp].strip()
+                    expstr = unescape(k[exp+1:].strip())
+                    key = unescape(k[:exp].strip())
                 else:
                     exp = None
                 while key in self:
-- 
2.43.0


From ccf1749294d5f62726e04b745a3badeef3589e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:23 +0000
Subject: [PATCH 22/95] fix: read DUCET keys beyond the BMP

---
 lib/sldr/ducet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ducet.py b/lib/sldr/ducet.py
index b12e885..9278db5 100644
--- a/lib/sldr/ducet.py
+++ b/lib/sldr/ducet.py
@@ -13,7 +13,7 @@ def readDucet(path="") :
         return {}
 
     result = {}
-    keyre = re.compile(r'([0-9A-F]{4})', re.I)
+    keyre = re.compile(r'([0-9A-F]{4,6})', re.I)
     valre = re.compile(r'\[[.*]([0-9A-F]{4})\.([0-9A-F]{4})\.([0-9A-F]{4})\]', re.I)
 
     for lineno, contentLine in enumerate(content):
-- 
2.43.0


From cdf8fed2c2964d521ba5b3592b4667f644fee8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:01 +0000
Subject: [PATCH 23/95] fix: read IANA registry records separately, with their
 continuation lines

---
 lib/sldr/iana.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/iana.py b/lib/sldr/iana.py
index bc9f9ed..92e044c 100644
--- a/lib/sldr/iana.py
+++ b/lib/sldr/iana.py
@@ -36,7 +36,14 @@ class Iana(object):
         with open(path, "r", encoding='utf-8') as fh:
             for l in fh.readlines():
                 if l.startswith(" "):
-                    currtag[currfield] += " " + l.strip()
+                    if isinstance(currtag[currfield], list):
+                        currtag[currfield][-1] += " " + l.strip()
+                    else:
+                        currtag[currfield] += " " + l.strip()
+                    continue
+                if l.startswith("%%"):
+                    currtag = {}
+                    continue
                 try:
                     f, v = l.strip().split(":", 1)
                 except ValueError:
-- 
2.43.0


From c300914ccdf78146628b9b4aa368d9d613a797f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:30 +0000
Subject: [PATCH 24/95] fix: don't write missing values to a spreadsheet

---
 lib/sldr/sheet.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/sldr/sheet.py b/lib/sldr/sheet.py
index 0a6c100..145be5b 100644
--- a/lib/sldr/sheet.py
+++ b/lib/sldr/sheet.py
@@ -183,14 +183,14 @@ class Sheet(object):
                 v = e.attrib[atname] if atname in e.attrib else ""
             else:
                 v = e.text
-            if v != "":
+            if v:
                 self._writeodsitem(4, v)
 
     def _action1d_ods(self, datarow, p1, p2):
         v = self.ldml.find(p1 + datarow[0] + p2)
         if v is not None:
             value = v.text
-            if value != "":
+            if value:
                 self._writeodsitem(4, value)
 
     def _action2d_ods(self, datarow, p1, p2, p3, colhead):
@@ -198,7 +198,7 @@ class Sheet(object):
             v = self.ldml.find(p1 + col + p2 + datarow[0] + p3)
             if v is not None:
                 value = v.text
-                if value != "":
+                if value:
                     self._writeodsitem(colnum, value)
 
     def _action2dr_ods(self, datarow, p1, p2, p3, colhead):
@@ -206,7 +206,7 @@ class Sheet(object):
             v = self.ldml.find(p1 + datarow[0] + p2 + col + p3)
             if v is not None:
                 value = v.text
-                if value != "":
+                if value:
                     self._writeodsitem(colnum, value)
 
     def _action2dx_ods(self, datarow, p1, p2):
@@ -216,7 +216,7 @@ class Sheet(object):
             v = self.ldml.find(p1[colnum] + rowitem + p2[colnum])
             if v is not None:
                 value = v.text
-                if value != "":
+                if value:
                     self._writeodsitem(colnum + 4, value)
 
     def writeldml(self, ldmloutputfile):
-- 
2.43.0


From aa9c8fca22bcd31638d11734e7b3b3ec23a3c788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:35 +0000
Subject: [PATCH 25/95] fix: allow a path to test for the presence of an
 attribute

---
 lib/sldr/ldml.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 9950e77..53c682b 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -642,7 +642,7 @@ class Ldml(ETWriter):
                         if c.tag != tag:
                             continue
                         for k, v in attrs.items():
-                            if c.get(k, '') != v:
+                            if (k not in c.attrib) if v is None else (c.get(k, '') != v):
                                 break
                         else:
                             newcurr.append(c)
@@ -690,6 +690,10 @@ class Ldml(ETWriter):
             attrs = {}
             for p in parts:
                 if not len(p): continue
+                if '=' not in p:            # only test the presence of the attribute
+                    if p.startswith("@"):
+                        attrs[self._reverselocalns(p[1:].strip())] = None
+                    continue
                 (k, v) = re.split(r'\s*=\s*', p, maxsplit=1)
                 if k.startswith("@") and v[0] in '"\'':
                     attrs[self._reverselocalns(k[1:])] = v[1:-1]
-- 
2.43.0


From 343b06900b20dc1b6ae0dcb561362900ba2671fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:43 +0000
Subject: [PATCH 26/95] fix: keep a promoted alternate when writing a document
 again

---
 lib/sldr/ldml.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 53c682b..83ffc6c 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -908,6 +908,7 @@ class Ldml(ETWriter):
             n = base if base is not None else self.root
             for c in list(n):
                 if hasattr(c, 'tempnode') and c.tempnode:
+                    c.tempnode = False
                     n.remove(c)
 
     def _dropsdraft(self, n):
-- 
2.43.0


From e585364225284ef431de57ae4fb51c44443a7743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:57 +0000
Subject: [PATCH 27/95] fix: only trim XML white space from text, other spaces
 are data

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 83ffc6c..87275d2 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -791,7 +791,7 @@ class Ldml(ETWriter):
             children = sorted(base, key=keyel)
             base[:] = children
         if base.text:
-            t = base.text.strip()
+            t = base.text.strip(' \t\r\n')
             base.text = re.sub(r'[ \t]*\n[ \t]*', '\n', t)       # content hash has text in lines
         base.tail = None
         if usedrafts or addguids:
-- 
2.43.0


From 4a923ca99f2600614fb6512dbaa122e70b00a999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:58 +0000
Subject: [PATCH 28/95] fix: protect white space that an XML parser would
 normalise

---
 lib/sldr/ldml.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 87275d2..e18c941 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -52,8 +52,11 @@ def getldml(loc, indirs):
 _elementprotect = {
     '&': '&amp;',
     '<': '&lt;',
-    '>': '&gt;' }
+    '>': '&gt;',
+    '\r': '&#13;' }
 _attribprotect = dict(_elementprotect)
+_attribprotect['\t'] = '&#9;'
+_attribprotect['\n'] = '&#10;'
 _attribprotect['"'] = '&quot;'
 _attribprotect["'"] = '&apos;'
 
-- 
2.43.0


From 66886f957400bbd11689fada3434f7f0d3327f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:23 +0000
Subject: [PATCH 29/95] fix: give each namespace read its own prefix

---
 lib/sldr/ldml.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index e18c941..22df686 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -450,7 +450,7 @@ class Ldml(ETWriter):
         parser.parser.CommentHandler = doComment
         for event, elem in et.iterparse(fh, events=('start', 'start-ns', 'end'), parser=parser):
             if event == 'start-ns':
-                self.namespaces[elem[1]] = elem[0]
+                self._read_namespace(*elem)
             elif event == 'start':
                 elem.document = self
                 if elem.tag == '!--':
@@ -485,6 +485,19 @@ class Ldml(ETWriter):
         self._analyse()
         self.normalise(self.root, usedrafts=usedrafts)
 
+    def _read_namespace(self, prefix, ns):
+        ''' Notes the prefix for a namespace. Prefixes aren't shared between namespaces and
+            since attributes and the elements without a namespace need it to be so, aren't empty '''
+        if not ns:
+            return
+        if prefix and self.namespaces.get(ns, '') != prefix and prefix not in self.namespaces.values():
+            self.namespaces[ns] = prefix
+        elif ns not in self.namespaces:
+            i = 1
+            while 'ns' + str(i) in self.namespaces.values():
+                i += 1
+            self.namespaces[ns] = 'ns' + str(i)
+
     def _copynode(self, n, parent=None):
         res = copy.copy(n)
         for a in ('contentHash', 'attrHash', 'comments', 'commentsafter', 'parent', 'document'):
-- 
2.43.0


From 3de94ca39ffd558a978475cac997a59ccbafc344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:39 +0000
Subject: [PATCH 30/95] fix: keep comments at the end of a document

---
 lib/sldr/ldml.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 22df686..b2dd654 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -481,6 +481,8 @@ class Ldml(ETWriter):
                         curr.hasdeletedchild = True
                     elif curr is not None:
                         curr.hasdeletedchild = False
+        if len(comments):       # after the root
+            self.root.commentsafter = comments
         fh.close()
         self._analyse()
         self.normalise(self.root, usedrafts=usedrafts)
-- 
2.43.0


From ca61e2232967e5b95f758962120bb7c85a8383a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:40 +0000
Subject: [PATCH 31/95] fix: don't fail on a document with nothing but
 inheritance markers

---
 lib/sldr/ldml.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index b2dd654..27131e5 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -475,11 +475,13 @@ class Ldml(ETWriter):
                     comments = []
                 curr = getattr(elem, 'parent', None)
                 if not uparrows:
-                    if elem.text == "↑↑↑" or \
+                    if curr is None:
+                        pass                            # the root always stays
+                    elif elem.text == "↑↑↑" or \
                                 (getattr(elem, 'hasdeletedchild', False) and len(elem) == 0):
                         curr.remove(elem)
                         curr.hasdeletedchild = True
-                    elif curr is not None:
+                    else:
                         curr.hasdeletedchild = False
         if len(comments):       # after the root
             self.root.commentsafter = comments
-- 
2.43.0


From 560c3743adc5649779409a028baa4f3713f1a97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:45 +0000
Subject: [PATCH 32/95] fix: choose the first of equally good alternates as
 primary, so that it stays so

---
 lib/sldr/ldml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 27131e5..92fb18c 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -824,7 +824,8 @@ class Ldml(ETWriter):
                 a = c.get('alt', None)
                 if c.attrHash not in temp or a not in temp[c.attrHash] \
                         or self.get_draft(c, default=self.default_draft) < self.get_draft(temp[c.attrHash][a], default=self.default_draft):
-                    temp.setdefault(c.attrHash, {})[a] = c
+                    temp.setdefault(c.attrHash, {}).pop(a, None)    # keep in document order
+                    temp[c.attrHash][a] = c
             for k, v in temp.items():
                 if None in v:
                     resk = None
-- 
2.43.0


From ed8641a0e022754e692ba73386bc2a5640c2c900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:48 +0000
Subject: [PATCH 33/95] fix: give namespaces not met before a prefix when
 writing

---
 lib/sldr/ldml.py | 45 ++++++++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 92fb18c..73466fb 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -88,16 +88,13 @@ class ETWriter(object):
     """ General purpose ElementTree pretty printer complete with options for attribute order
         beyond simple sorting, and which elements should use cdata """
 
-    nscount = 0
     indent = "\t"
     maxAts = None
 
     def __init__(self, et, namespaces = None, attributeOrder = {}, takesCData = set()):
         self.root = et
-        if namespaces is not None:
-            self.namespaces = namespaces
-        if self.namespaces is None:
-            self.namespaces = {'http://www.w3.org/XML/1998/namespaces': 'xml'}
+        self.namespaces = namespaces if namespaces is not None else {}
+        self.namespaces['http://www.w3.org/XML/1998/namespace'] = 'xml'
         self.attributeOrder = attributeOrder
         self.takesCData = takesCData
 
@@ -106,11 +103,10 @@ class ETWriter(object):
         if tag[0] == '{':
             ns, localname = tag[1:].split('}', 1)
             qname = self.namespaces.get(ns, '')
-            if qname:
-                return ('{}:{}'.format(qname, localname), qname, ns)
-            else:
-                self.nscount += 1
-                return (localname, 'ns' + str(self.nscount), ns)
+            if not qname:
+                self._read_namespace('', ns)
+                qname = self.namespaces[ns]
+            return ('{}:{}'.format(qname, localname), qname, ns)
         else:
             return (tag, '', None)
 
@@ -144,6 +140,9 @@ class ETWriter(object):
             base = self.root
             write('<?xml version="1.0" encoding="utf-8"?>\n')
             namespaces['http://www.w3.org/XML/1998/namespace'] = 'xml'
+            for n in base.iter():       # make sure they all have prefixes
+                for t in itertools.chain([n.tag], n.keys()):
+                    self._localisens(t)
         (tag, q, ns) = self._localisens(base.tag)
         localattribs = {}
         if ns and ns not in namespaces:
@@ -199,6 +198,19 @@ class ETWriter(object):
         self.namespaces[ns] = q
         return q
 
+    def _read_namespace(self, prefix, ns):
+        ''' Notes the prefix for a namespace. Prefixes aren't shared between namespaces and
+            since attributes and the elements without a namespace need it to be so, aren't empty '''
+        if not ns:
+            return
+        if prefix and self.namespaces.get(ns, '') != prefix and prefix not in self.namespaces.values():
+            self.namespaces[ns] = prefix
+        elif ns not in self.namespaces:
+            i = 1
+            while 'ns' + str(i) in self.namespaces.values():
+                i += 1
+            self.namespaces[ns] = 'ns' + str(i)
+
     def addnode(self, parent, tag, **kw):
         """ Appends a new node to a parent, returning the new node.
             Empty (None) attributes are stripped"""
@@ -489,19 +501,6 @@ class Ldml(ETWriter):
         self._analyse()
         self.normalise(self.root, usedrafts=usedrafts)
 
-    def _read_namespace(self, prefix, ns):
-        ''' Notes the prefix for a namespace. Prefixes aren't shared between namespaces and
-            since attributes and the elements without a namespace need it to be so, aren't empty '''
-        if not ns:
-            return
-        if prefix and self.namespaces.get(ns, '') != prefix and prefix not in self.namespaces.values():
-            self.namespaces[ns] = prefix
-        elif ns not in self.namespaces:
-            i = 1
-            while 'ns' + str(i) in self.namespaces.values():
-                i += 1
-            self.namespaces[ns] = 'ns' + str(i)
-
     def _copynode(self, n, parent=None):
         res = copy.copy(n)
         for a in ('contentHash', 'attrHash', 'comments', 'commentsafter', 'parent', 'document'):
-- 
2.43.0


From 6ca7316a7020c68f75020aac34c27156b650b03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:42 +0000
Subject: [PATCH 34/95] fix: merge the contents of an element that both sides
 added

---
 lib/sldr/ldml_merge.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 377143e..1a4270e 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -291,7 +291,11 @@ class LdmlMerge(Ldml):
         # other and base can be None
         for t in list(this):       # go through children merging them
             if t.mergeBase is None:
-                if self.useDrafts and t.mergeOther is not None and t.mergeOther.contentHash != t.contentHash:
+                if t.mergeOther is None or t.mergeOther.contentHash == t.contentHash:
+                    continue
+                if len(t) or len(t.mergeOther):     # both added it, so bring together what they added in it
+                    res |= self.merge(t.mergeOther, None, t, default=default)
+                elif self.useDrafts:
                     self._merge_with_alts(t.mergeBase, t.mergeOther, t, default=default, copycomments=copycomments)
                 continue
             if t.mergeOther is not None and t.mergeOther.contentHash != t.contentHash:     # other differs
-- 
2.43.0


From e23ca34a3afd9596b98be2df6d2155f5d621a85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:42 +0000
Subject: [PATCH 35/95] fix: don't report a clash where there is no text or
 both sides changed it the same

---
 lib/sldr/ldml_merge.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 1a4270e..ee3c1e1 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -314,9 +314,10 @@ class LdmlMerge(Ldml):
                 res = True
             elif self.useDrafts:
                 res |= self._merge_with_alts(t.mergeBase, t.mergeOther, t, default=default, copycomments=copycomments)
-        if base is not None and this.text == base.text:
+        ttext, otext, btext = ((x.text or '') if x is not None else None for x in (this, other, base))
+        if base is not None and ttext == btext:
             if other is not None:
-                res = res or (this.text != other.text)
+                res = res or (ttext != otext)
                 this.text = other.text
                 this.contentHash = other.contentHash
             elif this.text is not None:
@@ -324,8 +325,8 @@ class LdmlMerge(Ldml):
                 this.text = None
                 this.contentHash = None
             if self.useDrafts: res |= self._merge_with_alts(base, other, this, default=default, copycomments=copycomments)
-        elif base is not None and other is not None and other.text != base.text:
-            self.clash_text(this.text, other.text, (base.text if base is not None else None),
+        elif base is not None and other is not None and otext != btext and otext != ttext:
+            self.clash_text(this.text, other.text, base.text,
                                         this, other, base, usedrafts=self.useDrafts)
             if self.useDrafts:
                 res |= self._merge_with_alts(base, other, this, default=default, copycomments=copycomments)
-- 
2.43.0


From fb53ed8e00ed52d4117fb0d5adcba40d36e4ac5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:42 +0000
Subject: [PATCH 36/95] fix: don't report a clash of an attribute that only we
 changed

---
 lib/sldr/ldml_merge.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index ee3c1e1..5b97918 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -334,16 +334,17 @@ class LdmlMerge(Ldml):
         elif self.useDrafts:
             res |= self._merge_with_alts(base, other, this, default=default, copycomments=copycomments)
         oattrs = set(other.keys() if other is not None else [])
+        battrs = base.attrib if base is not None else {}
         for k in list(this.keys()):                                  # go through our attributes
             if k in oattrs:
-                if k in base.attrib and base.get(k) == this.get(k) and this.get(k) != other.get(k):
+                if k in battrs and battrs[k] == this.get(k) and this.get(k) != other.get(k):
                     res = True
                     this.set(k, other.get(k))                       # t == b && t != o
-                elif this.get(k) != other.get(k):
-                    self.clash_attrib(k, this.get(k), other.get(k), base.get(k), this, other, base, usedrafts=self.useDrafts)    # t != o
+                elif this.get(k) != other.get(k) and battrs.get(k) != other.get(k):
+                    self.clash_attrib(k, this.get(k), other.get(k), battrs.get(k), this, other, base, usedrafts=self.useDrafts)    # t != o
                     res = True
                 oattrs.remove(k)
-            elif base is not None and k in base.attrib:                        # o deleted it
+            elif k in battrs and battrs[k] == this.get(k):              # o deleted it
                 this.attrib.pop(k)
                 res = True
         for k in oattrs:                                       # attributes in o not in t
-- 
2.43.0


From 760e623b3535ec242938bddc8db6cda5b230381c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:27 +0000
Subject: [PATCH 37/95] fix: when theirs wins don't remove what they changed
 and we removed

---
 lib/sldr/ldml_merge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 5b97918..24d11f9 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -287,6 +287,7 @@ class LdmlMerge(Ldml):
         if this == None: this = self.root
         if other is not None and hasattr(other, 'root'): other = other.root
         if base is not None and hasattr(base, 'root'): base = base.root
+        ours = set(this)
         self._align(this, other, base)
         # other and base can be None
         for t in list(this):       # go through children merging them
@@ -309,7 +310,7 @@ class LdmlMerge(Ldml):
                     res |= self.merge(t.mergeOther, t.mergeBase, t, default=default)        # could be a clash so recurse
                 elif self.useDrafts:       # base == other
                     res |= self._merge_with_alts(t.mergeBase, t.mergeOther, t, default=default, copycomments=copycomments)
-            elif t.mergeOther is None and (t.mergeBase.contentHash == t.contentHash or self.winner == "other"):
+            elif t.mergeOther is None and (t.mergeBase.contentHash == t.contentHash or (self.winner == "other" and t in ours)):
                 this.remove(t)
                 res = True
             elif self.useDrafts:
-- 
2.43.0


From 2a90bc4fb631b9edace1b668bcc285bbc45ac17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:19 +0000
Subject: [PATCH 38/95] fix: write comments containing hyphens as well-formed
 XML

---
 lib/sldr/ldml.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 73466fb..9dbb39f 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -114,6 +114,10 @@ class ETWriter(object):
         ''' Turn key characters into entities'''
         return re.sub('['+"".join(base.keys())+"]", lambda m: base[m.group(0)], txt)
 
+    def _protectcomment(self, txt):
+        ''' A comment can't contain -- or end with - '''
+        return re.sub(r'-(?=-|$)', '- ', txt)
+
     def _nsprotectattribs(self, attribs, localattribs, namespaces):
         ''' Prepare attributes for output by protecting, converting ns: form
             and collecting any xmlns attributes needing to be added'''
@@ -162,7 +166,7 @@ class ETWriter(object):
                     localattribs['xmlns:'+lq] = lns
         self._nsprotectattribs(getattr(base, 'attrib', None), localattribs, namespaces)
         for c in getattr(base, 'comments', []):
-            write('{}<!--{}-->\n'.format(indent, c))
+            write('{}<!--{}-->\n'.format(indent, self._protectcomment(c)))
         write('{}<{}'.format(indent, tag))
         if len(localattribs):
             def getorder(x):
@@ -185,7 +189,7 @@ class ETWriter(object):
         else:
             write('/>\n')
         for c in getattr(base, 'commentsafter', []):
-            write('{}<!--{}-->\n'.format(indent, c))
+            write('{}<!--{}-->\n'.format(indent, self._protectcomment(c)))
 
     def save_as(self, fname, base = None, indent = '', topns = True, namespaces = None):
         """ A more comfortable serialize_xml using a filename"""
-- 
2.43.0


From a9ddfcfcef89f53f3e6d2e2a99f67990c3086a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:20 +0000
Subject: [PATCH 39/95] fix: keep alternates when normalising a document again

---
 lib/sldr/ldml.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 9dbb39f..ed44a79 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -794,6 +794,13 @@ class Ldml(ETWriter):
         _digits = set('0123456789.')
         if base is None:
             base = self.root
+        if usedrafts:       # alternates already packed up get packed up again
+            for c in list(base):
+                for k, v in getattr(c, 'alternates', {}).items():
+                    v.set('alt', k)
+                    base.append(v)
+                if hasattr(c, 'alternates'):
+                    del c.alternates
         if len(base):
             for b in base:
                 self.normalise(b, addguids=addguids, usedrafts=usedrafts)
-- 
2.43.0


From bac0223181d355b6a73a6356d110d21a58adbfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:55 +0000
Subject: [PATCH 40/95] fix: don't take an element as unchanged when values in
 it have swapped places

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index ed44a79..0d70845 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -276,7 +276,7 @@ class _minhash(object):
 
     def merge(self, aminh):
         if self.minhash is not None and aminh.minhash is not None: self._minhashupdate(aminh.minhash)
-        self.hashed = (self.hashed * 1000003 + aminh.hashed) & self._mask
+        self.hashed = self.hasher((self.hashed, aminh.hashed)) & self._mask      # not linear, so that nesting counts
 
     def _minhashupdate(self, ahash):
         x = (1 << self._bits) - 1
-- 
2.43.0


From 6951b662458455667683b00c2a4dfeb918401cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:25 +0000
Subject: [PATCH 41/95] fix: keep a locale's own fonts when overlaying those of
 another

---
 lib/sldr/ldml_merge.py | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 24d11f9..3d72ce0 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -99,36 +99,24 @@ class LdmlMerge(Ldml):
     def _overlay_external_resources(self, other, this, usedrafts):
         """Handle sil:font fallback mechanism"""
         silfonttag = '{'+self.silns+'}font'
-        fonts = []
         matches = [x for x in this if x.attrHash == other.attrHash]
         if not len(matches):
             this.append(other)
             return
         this = matches[0]
-        for t in list(this):
-            if t.tag == silfonttag:
-                fonts.append(t)
-                this.remove(t)
+        def fonttypes(f):
+            return f.get('types', 'default').split()
+        known = set(sum((fonttypes(f) for f in this if f.tag == silfonttag), []))
         for o in other:
-            if o.tag == silfonttag:
-                types = o.get('types', '').split(' ')
-                if not len(types):
-                    types = ['default']
-                for t in types:
-                    if t == 'default':
-                        fonts = []
-                        break
-                    else:
-                        for f in fonts:
-                            tt = f.get('types', 'default').split(' ')
-                            if t in tt:
-                                f.set('types', " ".join(x for x in tt if x != t))
-                        fonts = [x for x in fonts if x.get('types', '') != '']
-                this.append(o)
+            if o.tag == silfonttag:         # only for what we don't have a font for
+                types = fonttypes(o)
+                extra = [t for t in types if t not in known]
+                if len(extra) and len(extra) < len(types):
+                    o.set('types', " ".join(extra))
+                if len(extra):
+                    this.append(o)
             else:
                 self._overlay_child(o, this, usedrafts)
-        for f in fonts:
-            this.append(f)
 
     def flag_nonroots(self):
         """ Add @sil:modified="true" to collation elements"""
-- 
2.43.0


From f01e0bff698e2b48799b5270ae62cba09711eb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:26 +0000
Subject: [PATCH 42/95] fix: don't unflatten away what flattening doesn't
 restore

---
 lib/sldr/ldml_merge.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 3d72ce0..5e37151 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -58,6 +58,8 @@ class LdmlMerge(Ldml):
         if (not len(other) and not len(this)) or this.tag in self.blocks:
             return (other.contentHash == this.contentHash)
         for o in other:
+            if o.tag in self.blocks:        # overlay() wouldn't put it back
+                continue
             for t in filter(lambda x: x.attrHash == o.attrHash, this):
                 if o.contentHash == t.contentHash or self.difference(o, this=t):
                     if hasattr(t, 'alternates') and hasattr(o, 'alternates'):
-- 
2.43.0


From 7d7a6726f47d710317085b1d4fed37c0bb3e4c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:56 +0000
Subject: [PATCH 43/95] fix: don't mark collations that are the root's as
 modified

---
 lib/sldr/ldml_merge.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 5e37151..f0756ba 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -120,10 +120,12 @@ class LdmlMerge(Ldml):
             else:
                 self._overlay_child(o, this, usedrafts)
 
-    def flag_nonroots(self):
-        """ Add @sil:modified="true" to collation elements"""
+    def flag_nonroots(self, root=None):
+        """ Add @sil:modified="true" to collation elements, except those that are root's"""
+        theirs = [x.contentHash for x in root.root.findall('collations/collation')] if root is not None else []
         for n in self.root.findall('collations/collation'):
-            n.set('{'+self.silns+'}modified', 'true')
+            if n.contentHash not in theirs:
+                n.set('{'+self.silns+'}modified', 'true')
 
     def _merge_leaf(self, other, b, o):
         """Handle @draft and @alt"""
@@ -447,7 +449,7 @@ def flattenlocale(lname, dirs=[], rev='f', changed=set(),
                             break   # only need one for unflatten
                         else:
                             if f == 'root':
-                                l.flag_nonroots()
+                                l.flag_nonroots(o)
                             l.overlay(o)
                 f = trimtag(f)
             if not dome: break
-- 
2.43.0


From f8d91a9367fdede8a3f46ac7eb5942ee197cf20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:30 +0000
Subject: [PATCH 44/95] fix: don't fail on an empty fallback element

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 0d70845..78d0c7c 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -783,7 +783,7 @@ class Ldml(ETWriter):
             self.__class__.ReadSupplementalData()
         fall = self.root.find('fallback')
         if fall is not None:
-            return fall.text.split()
+            return (fall.text or "").split()
         elif thislangtag in self.parentLocales:
             return self.parentLocales[thislangtag]
         else:
-- 
2.43.0


From bd66d60fd23cb59a47649ca03e2914486d51d64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:02 +0000
Subject: [PATCH 45/95] fix: don't unflatten away a container that keeps
 collations from being inherited

---
 lib/sldr/ldml_merge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index f0756ba..9ae1cf8 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -71,7 +71,8 @@ class LdmlMerge(Ldml):
                     else:
                         this.remove(t)
                 break
-        return not len(this) and (not this.text or this.text == other.text)
+        return not len(this) and (not this.text or this.text == other.text) \
+                and not any(o.tag in self.blocks for o in other)    # having this keeps them from being inherited
 
     def overlay(self, other, usedrafts=False, this=None):
         """Add missing information in self from other. Honours @draft attributes"""
-- 
2.43.0


From 52cf95235cdc867f6c2f2f006bf3731a17bef77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:01 +0000
Subject: [PATCH 46/95] fix: carry on with other locales when one fails,
 however it fails

---
 scripts/ldmlflatten | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/scripts/ldmlflatten b/scripts/ldmlflatten
index 27ce5f8..215df10 100755
--- a/scripts/ldmlflatten
+++ b/scripts/ldmlflatten
@@ -66,23 +66,16 @@ elif args.copy :
     action = 'c'
     
 def doit(l) :
-    if args.single :
-        try:
-            curr = flattenlocale(l, dirs=args.indir, rev=action,
-                                 skipstubs=args.skipstubs, flattencollation=True,
-                                 resolveAlias=args.antialias)
-        except Exception as e:
-            print("Failed in " + l)
-            raise e
-            return (False, l)
-    else :
-        try :
-            curr = flattenlocale(l, dirs=args.indir, rev=action,
-                                 skipstubs=args.skipstubs, flattencollation=True,
-                                 resolveAlias=args.antialias)
-        except Exception as e :
-            print(e)
-            return (False, l, str(e))
+    try :
+        return dolocale(l)
+    except Exception as e :
+        print("Failed in " + l)
+        return (False, l, str(e))
+
+def dolocale(l) :
+    curr = flattenlocale(l, dirs=args.indir, rev=action,
+                         skipstubs=args.skipstubs, flattencollation=True,
+                         resolveAlias=args.antialias)
     if args.debug & 4:
         print(l + (" Failed" if curr is None else ""))
     if curr is not None :
-- 
2.43.0


From 371ae9655237ed76eff5d937188ad720ec8f6e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:09 +0000
Subject: [PATCH 47/95] fix: end the expansion of collation imports that form a
 cycle

---
 lib/sldr/ldml.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 78d0c7c..365608c 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -1007,10 +1007,14 @@ class Ldml(ETWriter):
         for k, v in kws.items():
             s.set(k, v)
 
-    def flatten_collation(self, collstr, importfn):
-        """ Flattens [import] statements in a collation tailoring"""
+    def flatten_collation(self, collstr, importfn, active=()):
+        """ Flattens [import] statements in a collation tailoring. An import of
+            a collation that is already being imported adds nothing."""
         def doimport(m):
-            return self.flatten_collation(importfn(m.group('lang'), m.group('coll')), importfn)
+            key = (m.group('lang'), m.group('coll'))
+            if key in active:
+                return ''
+            return self.flatten_collation(importfn(*key), importfn, active + (key,))
         return re.sub(r'\[import\s*(?P<lang>.*?)-u-co-(?P<coll>.*?)\s*\]', doimport, collstr)
 
 
-- 
2.43.0


From 9231275f66ca52ceb11d494eec048796d28de011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:32 +0000
Subject: [PATCH 48/95] fix: flatten an empty collation without failing

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 365608c..cf29fb3 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -1015,7 +1015,7 @@ class Ldml(ETWriter):
             if key in active:
                 return ''
             return self.flatten_collation(importfn(*key), importfn, active + (key,))
-        return re.sub(r'\[import\s*(?P<lang>.*?)-u-co-(?P<coll>.*?)\s*\]', doimport, collstr)
+        return re.sub(r'\[import\s*(?P<lang>.*?)-u-co-(?P<coll>.*?)\s*\]', doimport, collstr or '')
 
 
 def _prepare_parent(next, token):
-- 
2.43.0


From 8649744fd62b6f931be07c1104a11e2e65d4f746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:44 +0000
Subject: [PATCH 49/95] fix: don't take the text before an import for the name
 of its locale

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index cf29fb3..6d93280 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -1015,7 +1015,7 @@ class Ldml(ETWriter):
             if key in active:
                 return ''
             return self.flatten_collation(importfn(*key), importfn, active + (key,))
-        return re.sub(r'\[import\s*(?P<lang>.*?)-u-co-(?P<coll>.*?)\s*\]', doimport, collstr or '')
+        return re.sub(r'\[import\s*(?P<lang>[^]]*?)-u-co-(?P<coll>[^]]*?)\s*\]', doimport, collstr or '')
 
 
 def _prepare_parent(next, token):
-- 
2.43.0


From c19c03758038bb815c7b97871c5d47c56c2d1424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:45 +0000
Subject: [PATCH 50/95] fix: find the locale that a collation import names by
 its language tag

---
 lib/sldr/ldml_merge.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 9ae1cf8..e0721b1 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -460,6 +460,7 @@ def flattenlocale(lname, dirs=[], rev='f', changed=set(),
     if flattencollation:
         collmap = {'phonebk' : 'phonebook'}
         def getcollator(lang, coll):
+            lang = lang.replace('-', '_')       # a language tag rather than a file name
             try:
                 if re.split(r'[\\/]', l.fname)[-1] == lang+'.xml':
                     c = l
-- 
2.43.0


From 2b1ad54ff98826d99cc31b9e1c94f8acb05b339d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:15 +0000
Subject: [PATCH 51/95] fix: put what an alias points to where the alias was

---
 lib/sldr/ldml.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 6d93280..0e4f6a1 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -963,11 +963,11 @@ class Ldml(ETWriter):
         hasalias = False
         if _cache is None:
             _cache = set()
-        count = 1
-        for (i, c) in enumerate(list(this)):
+        for c in list(this):
             if c.tag == 'alias':
                 v = c.get('path', None)
                 if v is None: continue
+                pos = list(this).index(c)
                 this.remove(c)
                 children = this.findall(v)
                 if children is None or not len(children): continue
@@ -979,8 +979,8 @@ class Ldml(ETWriter):
                 _cache.remove(children[0])
                 for res in children[0]:
                     res = self._copynode(res, parent=this)
-                    this.insert(i+count, res)
-                    count += 1
+                    this.insert(pos, res)
+                    pos += 1
                 hasalias = True
             else:
                 hasalias |= self.resolve_aliases(c)
-- 
2.43.0


From dcfc8e2f41cc2ab7827da1008647ba5c2bf853fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:16 +0000
Subject: [PATCH 52/95] fix: recognise every loop of aliases and resolve the
 others

---
 lib/sldr/ldml.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 0e4f6a1..c6ec818 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -963,6 +963,7 @@ class Ldml(ETWriter):
         hasalias = False
         if _cache is None:
             _cache = set()
+        _cache.add(this)                # what is being resolved
         for c in list(this):
             if c.tag == 'alias':
                 v = c.get('path', None)
@@ -973,17 +974,17 @@ class Ldml(ETWriter):
                 if children is None or not len(children): continue
                 if children[0] in _cache:
                     print("Alias loop discovered {} in {}".format(children[0], getattr(self, 'fname', '')))
-                    return True
-                _cache.add(children[0])
+                    hasalias = True
+                    continue
                 self.resolve_aliases(children[0], _cache)
-                _cache.remove(children[0])
                 for res in children[0]:
                     res = self._copynode(res, parent=this)
                     this.insert(pos, res)
                     pos += 1
                 hasalias = True
             else:
-                hasalias |= self.resolve_aliases(c)
+                hasalias |= self.resolve_aliases(c, _cache)
+        _cache.remove(this)
         if hasalias and self.useDrafts:
             self._calc_hashes(this)
             return True
-- 
2.43.0


From 016292d225a28fdc9155b1d5f5bdb534ecfeadf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:17 +0000
Subject: [PATCH 53/95] fix: give each alias its own copy of what it points to

---
 lib/sldr/ldml.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index c6ec818..58771fe 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -514,6 +514,13 @@ class Ldml(ETWriter):
             res.parent = parent
         return res
 
+    def _copytree(self, n, parent):
+        res = self._copynode(n, parent=parent)
+        if hasattr(n, 'alternates'):
+            res.alternates = {k: self._copytree(v, parent) for k, v in n.alternates.items()}
+        res[:] = [self._copytree(c, res) for c in n]
+        return res
+
     def addnode(self, parent, tag, attrib=None, alt=None, returnnew=False, text=None, **attribs):
         ''' Adds a node, keeping the best alternate at the front '''
         if attrib is not None:
@@ -978,7 +985,7 @@ class Ldml(ETWriter):
                     continue
                 self.resolve_aliases(children[0], _cache)
                 for res in children[0]:
-                    res = self._copynode(res, parent=this)
+                    res = self._copytree(res, this)
                     this.insert(pos, res)
                     pos += 1
                 hasalias = True
-- 
2.43.0


From 23914f41f24f159dbf41730b91d6f8d3ae71a99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:50 +0000
Subject: [PATCH 54/95] fix: recognise alias loops through the middle of what
 is pointed to

---
 lib/sldr/ldml.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 58771fe..e410e34 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -964,6 +964,9 @@ class Ldml(ETWriter):
     def draftnum(self, d):
         return draftratings.get(d, draftratings[self.default_draft])
 
+    def _report_aliasloop(self, e):
+        print("Alias loop discovered {} in {}".format(e, getattr(self, 'fname', '')))
+
     def resolve_aliases(self, this=None, _cache=None):
         """ Go through resolving aliases to actual content nodes """
         if this is None: this = self.root
@@ -980,7 +983,7 @@ class Ldml(ETWriter):
                 children = this.findall(v)
                 if children is None or not len(children): continue
                 if children[0] in _cache:
-                    print("Alias loop discovered {} in {}".format(children[0], getattr(self, 'fname', '')))
+                    self._report_aliasloop(children[0])
                     hasalias = True
                     continue
                 self.resolve_aliases(children[0], _cache)
@@ -989,6 +992,8 @@ class Ldml(ETWriter):
                     this.insert(pos, res)
                     pos += 1
                 hasalias = True
+            elif c in _cache:           # part of what it points to
+                self._report_aliasloop(c)
             else:
                 hasalias |= self.resolve_aliases(c, _cache)
         _cache.remove(this)
-- 
2.43.0


From dd499b8871117a023679dbab53278bd0d1a76ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:36 +0000
Subject: [PATCH 55/95] fix: replace imports that don't name a collation,
 meaning the standard one

---
 lib/sldr/ldml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index e410e34..d4a321a 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -1024,11 +1024,11 @@ class Ldml(ETWriter):
         """ Flattens [import] statements in a collation tailoring. An import of
             a collation that is already being imported adds nothing."""
         def doimport(m):
-            key = (m.group('lang'), m.group('coll'))
+            key = (m.group('lang'), m.group('coll') or 'standard')
             if key in active:
                 return ''
             return self.flatten_collation(importfn(*key), importfn, active + (key,))
-        return re.sub(r'\[import\s*(?P<lang>[^]]*?)-u-co-(?P<coll>[^]]*?)\s*\]', doimport, collstr or '')
+        return re.sub(r'\[import\s+(?P<lang>[^]]*?)(?:-u-co-(?P<coll>[^]]*?))?\s*\]', doimport, collstr or '')
 
 
 def _prepare_parent(next, token):
-- 
2.43.0


From 82ef428c0990b00fec953611355a3f2b55364761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:46 +0000
Subject: [PATCH 56/95] fix: apply set operators to all of the set before them

---
 lib/sldr/UnicodeSets.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/sldr/UnicodeSets.py b/lib/sldr/UnicodeSets.py
index cd6a490..1633031 100644
--- a/lib/sldr/UnicodeSets.py
+++ b/lib/sldr/UnicodeSets.py
@@ -272,6 +272,10 @@ def parseitem(s, ind, lastitem, end, usegroups=False):
         item = None
         e = _findclose(s, ind, ']')
         while ind < e:
+            if item is not None and s[ind] in '|&-' and s[ind+1] == '[':
+                # applies to all there is so far
+                item = res.combine('|', item)
+                res = UnicodeSet()
             (ind, item, nextitem) = parseitem(s, ind, item, e)
             if item is not None:
                 res = res.combine('|', item)
-- 
2.43.0


From 411e2c260790e3ffe02330e3a09db8b8d601496b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:15 +0000
Subject: [PATCH 57/95] fix: tell references to groups from strings that look
 like them

---
 lib/sldr/UnicodeSets.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/sldr/UnicodeSets.py b/lib/sldr/UnicodeSets.py
index 1633031..333072d 100644
--- a/lib/sldr/UnicodeSets.py
+++ b/lib/sldr/UnicodeSets.py
@@ -120,6 +120,10 @@ def escapechar(s):
     return "\\"+ s if s in '[]{}\\&-|^$:' else s
 
 
+class GroupReference(str):
+    '''A reference to a group, as opposed to the string that looks like one'''
+
+
 class UnicodeSetSequence(list):
 
     def __init__(self, *p, **kw):
@@ -181,7 +185,7 @@ class UnicodeSet(set):
 
 def _expand(p, vals, ind, indices):
     val = vals[ind][indices[ind]]
-    if re.match(r"\\[0-9]", val):
+    if isinstance(val, GroupReference):
         g = p.groups[int(val[1]) - 1]
         return "".join(_expand(p, vals, i, indices) for i in range(g[0], g[1]))
     else:
@@ -255,7 +259,8 @@ def parse(s, normal=None):
         if len(nextitem):
             res.append(nextitem)
     if normal is not None:
-        res = [UnicodeSet(set(unicodedata.normalize(normal, str(c)) for c in x)) for x in res]
+        res = [UnicodeSet(set(c if isinstance(c, GroupReference) else unicodedata.normalize(normal, str(c))
+                              for c in x)) for x in res]
     return res
 
 
@@ -315,10 +320,9 @@ def parseitem(s, ind, lastitem, end, usegroups=False):
         ind = e + 1
     elif s[ind] == '\\':
         x = s[ind+1]
-        try:
-            y = int(x)
-            res.add("\\"+x)
-        except:
+        if x in '0123456789':
+            res.add(GroupReference("\\"+x))
+        else:
             res.add(simpleescs.get(x, x))
         ind += 2
     elif usegroups and s[ind] == '(':
-- 
2.43.0


From 1078673996fb16948f82f1f0344341947101e473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:27 +0000
Subject: [PATCH 58/95] fix: ignore comments in tailorings whatever they
 contain

---
 lib/sldr/collation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index 45d1343..ed14c24 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -209,7 +209,8 @@ class Collation(UserDict):
         prefix = ""
         # protect escaped syntax characters from being treated as syntax
         string = re.sub(r'\\(\\|[&<=/])', lambda m: m.group(0) if m.group(1) == '\\' else '\\u{:04X}'.format(ord(m.group(1))), string)
-        string = re.sub(r'^#.*$', '', string, flags=re.M)
+        # comments may contain syntax characters too
+        string = re.sub(r'(^|\s)#.*$', r'\1', string, flags=re.M)
         for n, run in enumerate(string.split('&')):
             bits = [x.strip() for x in re.split(r'([<=]+)', run)]
             m = re.match(r"^\s*&?\s*(?:\[before\s+(\d)\s*\]\s*)?(.*?)\s*$", unescape(bits[0]))
@@ -221,11 +222,11 @@ class Collation(UserDict):
             else:
                 continue
             for i in range(1, len(bits), 2):
-                s = re.sub(r'\s#.*$', '', bits[i], flags=re.M)
+                s = bits[i]
                 if s == '=': l = 4
                 else:
                     l = s.count('<')
-                k = re.sub(r'\s#.*$', '', bits[i+1], flags=re.M)
+                k = bits[i+1]
                 key = unescape(k)
                 exp = k.find("/")
                 expstr = ""
-- 
2.43.0


From b542eb2e56730cb5cc64ab1d24a7f99076480f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:28 +0000
Subject: [PATCH 59/95] fix: tailor a string that its own reset point begins
 with

---
 lib/sldr/collation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index ed14c24..e187c43 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -626,7 +626,7 @@ class CollElement(object):
             return self.key
         self.key = ducetSortKey(ducetDict, self.base)   # stop lookup loops
         b = collations.get(self.base, None)
-        if b is not None and b.order <= self.order:
+        if b is not None and b is not self and b.order <= self.order:
             b.sortkey(collations, ducetDict, inc, beforeshift, force=force)
             basekey = b.shortkey.copy()
         else:
-- 
2.43.0


From eb08769499c74f8af63457db9a819b66d9570d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:29 +0000
Subject: [PATCH 60/95] fix: sort what follows an expansion after it

---
 lib/sldr/collation.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index e187c43..11782a9 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -574,7 +574,8 @@ class CollElement(object):
         self.before = before        # before level (should be the same a .level
         self.exp = ""               # expansion. Everything after the / (e in a/e)
         self.prefix = ""            # everything before the / in an expansion (a in a/e)
-        self.shortkey = ""          # The key before expansion added (used by children)
+        self.basekey = ""           # The key before expansion added (used by children)
+        self.shortkey = ""          # What to sort by when written out
         # self.key = None           # calculated sort key to interact with ducet (not the ducet key)
         self.order = (0,)           # order in defn [reset index, element index within reset]
         self.inDucet = None         # cache of whether we correspond to our position in the ducet
@@ -628,7 +629,7 @@ class CollElement(object):
         b = collations.get(self.base, None)
         if b is not None and b is not self and b.order <= self.order:
             b.sortkey(collations, ducetDict, inc, beforeshift, force=force)
-            basekey = b.shortkey.copy()
+            basekey = b.basekey.copy()
         else:
             basekey = self.key.copy()
         # Update the copied base SortKey to immediately follow the base
@@ -636,15 +637,13 @@ class CollElement(object):
             basekey[self.level-1][-1] += inc if not self.before or self.before != self.level else -beforeshift 
         if not self.exp and b is not None and b.exp:
             self.exp = b.exp
+        self.basekey = basekey.copy()
+        self.shortkey = self.basekey
         if self.exp:
             expkey = ducetSortKey(ducetDict, self.exp, extra=collations)
             if expkey > basekey:
-                self.shortkey = expkey.copy() + SortKey([[1], [0], [0]])
-            else:
-                self.shortkey = basekey.copy()
+                self.shortkey = SortKey(expkey + SortKey([[1], [0], [0]]))
             basekey.append(expkey)
-        else:
-            self.shortkey = basekey
         self.key = basekey
         return basekey
 
-- 
2.43.0


From dfa5f42ef072f6fa6ad5d3cf23e32a91379ca34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:31 +0000
Subject: [PATCH 61/95] fix: allow expansions with strings that are tailored
 later

---
 lib/sldr/collation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index 11782a9..377bb2c 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -53,7 +53,7 @@ def ducetSortKey(d, k, extra=None, fn=None):
     if len(k) == 1:
         singlechar = True
     while i > 0:
-        if extra and k[:i] in extra:
+        if extra and k[:i] in extra and hasattr(extra[k[:i]], 'key'):
             key = extra[k[:i]].key
         else:
             key = fn(k[:i])
-- 
2.43.0


From 9429950e8fe07902d7d2fdec04a1d1fa22f37164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:31 +0000
Subject: [PATCH 62/95] fix: don't read \u and eight digits as \U

---
 lib/sldr/collation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index 377bb2c..c8732b5 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -39,7 +39,7 @@ def unescape(s):
         if m.lastindex is None:
             return "'"
         return m.group(3) if m.lastindex == 3 else chr(int(m.group(m.lastindex), 16))
-    return re.sub(r"\\U([0-9A-F]{8})|\\u([0-9A-F]{4})|\\(.)|''", unesc, s, flags=re.I)
+    return re.sub(r"\\U([0-9A-Fa-f]{8})|\\u([0-9A-Fa-f]{4})|\\(.)|''", unesc, s)
 
 def ducetSortKey(d, k, extra=None, fn=None):
     '''Turn a sequence of sort keys for the given string into a single
-- 
2.43.0


From 1401d31b17807aa4b8cc19f819a258a8c3efc78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:31 +0000
Subject: [PATCH 63/95] fix: allow escaped syntax characters as reset points

---
 lib/sldr/collation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index c8732b5..c2a9249 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -213,9 +213,9 @@ class Collation(UserDict):
         string = re.sub(r'(^|\s)#.*$', r'\1', string, flags=re.M)
         for n, run in enumerate(string.split('&')):
             bits = [x.strip() for x in re.split(r'([<=]+)', run)]
-            m = re.match(r"^\s*&?\s*(?:\[before\s+(\d)\s*\]\s*)?(.*?)\s*$", unescape(bits[0]))
+            m = re.match(r"^\s*&?\s*(?:\[before\s+(\d)\s*\]\s*)?(.*?)\s*$", bits[0])
             if m:
-                base = m.group(2)
+                base = unescape(m.group(2))
                 before = 0
                 if m.group(1):
                     before = int(m.group(1))
-- 
2.43.0


From 04435f618a1f43b5e4d7a10321d5d1c01c71d9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:31 +0000
Subject: [PATCH 64/95] fix: write what is tailored after an expansion after it

---
 lib/sldr/collation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index c2a9249..06f8608 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -643,6 +643,9 @@ class CollElement(object):
             expkey = ducetSortKey(ducetDict, self.exp, extra=collations)
             if expkey > basekey:
                 self.shortkey = SortKey(expkey + SortKey([[1], [0], [0]]))
+            # but never before what this follows
+            if b is not None and b is not self and b.order <= self.order and b.shortkey > self.shortkey:
+                self.shortkey = b.shortkey
             basekey.append(expkey)
         self.key = basekey
         return basekey
-- 
2.43.0


From 71c389da5a97ed03a44792d699a6686905e05282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:31 +0000
Subject: [PATCH 65/95] fix: don't write what follows a string as following its
 equal with an expansion

---
 lib/sldr/collation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index 06f8608..792357d 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -296,7 +296,9 @@ class Collation(UserDict):
                 res += " "
             if v.level == 4:
                 res += "= "
-                if eqchain is None:
+                if v.exp:
+                    eqchain = None      # what follows would get the expansion
+                elif eqchain is None:
                     eqchain = v.base
             else:
                 res += ("<<<"[:v.level]) + " "
-- 
2.43.0


From 5c97ca8d4b301916db21b305120f5080e2f6ede9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:24 +0000
Subject: [PATCH 66/95] fix: don't take variants for scripts

---
 lib/sldr/langtags_full.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/langtags_full.py b/lib/sldr/langtags_full.py
index 5d01620..bac3877 100755
--- a/lib/sldr/langtags_full.py
+++ b/lib/sldr/langtags_full.py
@@ -133,7 +133,7 @@ class LangTag(object) :
                 curr += 1
             self.lang = self.lang[:-1]
         if curr >= len(bits) : return
-        if len(bits[curr]) == 4 :
+        if len(bits[curr]) == 4 and not bits[curr][0].isdigit() :
             self.script = bits[curr].title()
             curr += 1
             self.hideboth = False
@@ -146,7 +146,7 @@ class LangTag(object) :
             curr += 1
             self.hideboth = False
         if curr >= len(bits): return
-        if len(bits[curr]) == 4 and self.script is None:
+        if len(bits[curr]) == 4 and not bits[curr][0].isdigit() and self.script is None:
             self.lang += "-"+self.region
             self.script = bits[curr]
             self.region = None
-- 
2.43.0


From 63d5f208bf9fc241b8b15d5445d2b8de62d0a01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:25 +0000
Subject: [PATCH 67/95] fix: read scripts following extended languages

---
 lib/sldr/langtags_full.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/sldr/langtags_full.py b/lib/sldr/langtags_full.py
index bac3877..7a53d9e 100755
--- a/lib/sldr/langtags_full.py
+++ b/lib/sldr/langtags_full.py
@@ -133,13 +133,14 @@ class LangTag(object) :
                 curr += 1
             self.lang = self.lang[:-1]
         if curr >= len(bits) : return
+        if len(bits[curr]) == 3 and bits[curr][0] not in "0123456789":
+            self.lang += "-" + bits[curr].lower()
+            curr += 1
+        if curr >= len(bits) : return
         if len(bits[curr]) == 4 and not bits[curr][0].isdigit() :
             self.script = bits[curr].title()
             curr += 1
             self.hideboth = False
-        elif len(bits[curr]) == 3 and bits[curr][0] not in "0123456789":
-            self.lang += "-" + bits[curr]
-            curr += 1
         if curr >= len(bits) : return
         if 1 < len(bits[curr]) < 4 :
             self.region = bits[curr].upper()
-- 
2.43.0


From be7ac63da0a5825d9e4cbc4c81dcd583c9a99550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:26 +0000
Subject: [PATCH 68/95] fix: keep the order of subtags in extensions

---
 lib/sldr/langtags_full.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/sldr/langtags_full.py b/lib/sldr/langtags_full.py
index 7a53d9e..fdcc4d0 100755
--- a/lib/sldr/langtags_full.py
+++ b/lib/sldr/langtags_full.py
@@ -77,9 +77,9 @@ class LangTag(object) :
     def _extensions(self) :
         if self.extensions is None : return []
         res = []
-        for ns in sorted(self.extensions.keys()) :
+        for ns in sorted(self.extensions.keys(), key=lambda k: (k == "x", k)) :
             res.append(ns)
-            res.extend(sorted(self.extensions[ns]))
+            res.extend(self.extensions[ns])
         return res
 
     def __str__(self) :
@@ -233,16 +233,17 @@ class LangTag(object) :
             extravars = [None]
         extraexts = []
         if self.extensions is not None :
-            extset = set((k, x) for k, v in self.extensions.items() for x in v)
+            extlist = [(k, x) for k, v in self.extensions.items() for x in v]
             if self.hideextensions is None:
                 removes = [set()]
             else:
                 removes = powerset([(k, x) for k, v in self.hideextensions.items() for x in v])
             for r in removes:
                 short = {}
-                for k, v in (extset - r):
-                    short.setdefault(k, []).append(v)
-                extraexts.append("-".join(["-".join([k] + sorted(v)) for k, v in sorted(short.items())]))
+                for k, v in extlist:
+                    if (k, v) not in r:
+                        short.setdefault(k, []).append(v)
+                extraexts.append("-".join(["-".join([k] + v) for k, v in sorted(short.items(), key=lambda x: (x[0] == "x", x[0]))]))
         else:
             extraexts = [None]
         res = []
-- 
2.43.0


From d247e3caeb9f9bb7f26a2282b3d2dee4189da721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:27 +0000
Subject: [PATCH 69/95] fix: don't take private use subtags for extensions

---
 lib/sldr/langtags_full.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/langtags_full.py b/lib/sldr/langtags_full.py
index fdcc4d0..003de47 100755
--- a/lib/sldr/langtags_full.py
+++ b/lib/sldr/langtags_full.py
@@ -161,7 +161,7 @@ class LangTag(object) :
         extensions = {}
         variants = []
         while curr < len(bits) :
-            if len(bits[curr]) == 1 :
+            if len(bits[curr]) == 1 and ns != 'x' :
                 ns = bits[curr].lower()
                 extensions[ns] = []
             elif ns == '' :
-- 
2.43.0


From 462af8583b9a40e0823dea15ec1d2b0fe307eb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:17 +0000
Subject: [PATCH 70/95] fix: allow slashes and brackets in the values in paths

---
 lib/sldr/ldml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index d4a321a..a019335 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -710,8 +710,8 @@ class Ldml(ETWriter):
         if path.startswith("/"):
             raise SyntaxError
         steps = []
-        for s in path.split("/"):
-            parts = re.split(r"\[(.*?)\]", s)
+        for s in re.split(r"""/(?=(?:[^"']|"[^"]*"|'[^']*')*$)""", path):     # but not in quoted values
+            parts = re.split(r"""\[((?:[^]"']|"[^"]*"|'[^']*')*)\]""", s)
             tag = parts.pop(0)
             tag = self._reverselocalns(tag)
             if not len(parts):
-- 
2.43.0


From a64882f276d6ee31d4b35d375fb0f2579e05bb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:18 +0000
Subject: [PATCH 71/95] fix: report paths that can be found, with prefixes and
 quotes

---
 lib/sldr/ldml.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index a019335..b249271 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -917,8 +917,9 @@ class Ldml(ETWriter):
         res = self.as_xpath(p, usedrafts=usedrafts)
         if len(res):
             res += "/" 
-        tests = [(k, n.get(k)) for k in self._sortedattrs(n) if k in distkeys]
-        res += n.tag + "".join('[@{}="{}"]'.format(*x) for x in tests)
+        tests = [(self._localisens(k)[0], n.get(k)) for k in self._sortedattrs(n) if k in distkeys]
+        res += self._localisens(n.tag)[0]
+        res += "".join(("[@{}='{}']" if '"' in v else '[@{}="{}"]').format(k, v) for k, v in tests)
         return res
 
     def serialize_xml(self, write, base = None, indent = '', topns = True, namespaces = None, nouid=True):
-- 
2.43.0


From efe3483f85bdaa297fe428f98663d51f861f6e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:19 +0000
Subject: [PATCH 72/95] fix: pass on where ensure_path is to insert

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index b249271..b60b81b 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -736,7 +736,7 @@ class Ldml(ETWriter):
             Returns a list of nodes found, or created, even if only 1.
             If text is given, only return matching nodes, creating if necessary. If the draft of a matching
             string is worse then improve it."""
-        (newcurr, steps) = self._process_path(path, action=("find" if dontadd else "add"), text=text, draft=draft, alt=alt, **kw)
+        (newcurr, steps) = self._process_path(path, action=("find" if dontadd else "add"), text=text, draft=draft, alt=alt, before=before, **kw)
         if text is not None and not dontadd:
             curr = newcurr
             newcurr = []
-- 
2.43.0


From e7938cec7707d53dd07df4aeebd361bc731b7f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:26 +0000
Subject: [PATCH 73/95] fix: let remove_path remove alternates

---
 lib/sldr/ldml.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index b60b81b..6b2e279 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -769,7 +769,13 @@ class Ldml(ETWriter):
         newcurr, steps = self._process_path(path, action="remove", **kw)
         if len(newcurr):
             for c in newcurr:
-                c.parent.remove(c)
+                if any(e is c for e in c.parent):
+                    c.parent.remove(c)
+                    continue
+                for e in c.parent:      # an alternate of one of these
+                    for k, v in list(getattr(e, 'alternates', {}).items()):
+                        if v is c:
+                            del e.alternates[k]
         return newcurr
 
     def _invertns(self, ns):
-- 
2.43.0


From 672a68a626df1577131b86127f8a1e14c4817286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:57 +0000
Subject: [PATCH 74/95] fix: look for multigraphs after a multigraph

---
 lib/sldr/ldml_exemplars.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/sldr/ldml_exemplars.py b/lib/sldr/ldml_exemplars.py
index db0cf76..31b846d 100644
--- a/lib/sldr/ldml_exemplars.py
+++ b/lib/sldr/ldml_exemplars.py
@@ -701,6 +701,7 @@ class Exemplars(object):
             # Look for multigraphs (from length of max_multigraph_length down to 1) character(s)
             # of multigraphs already specified in a LDML file.
             # Longest possible matches are looked at first.
+            found = False
             for multigraph_length in range(self.max_multigraph_length, 0, -1):
                 multigraph = text[i:i + multigraph_length]
 
@@ -711,8 +712,11 @@ class Exemplars(object):
                     exemplar = Exemplar(multigraph)
                     self.clusters[exemplar] += 1
                     i += multigraph_length
+                    found = True
                     break
-            
+            if found:
+                continue
+
             if maxmultigraphs:
                 #swap max multigraph length to 4 to start
                 for multigraph_length in range(4, 0, -1):
@@ -721,11 +725,7 @@ class Exemplars(object):
                     self.all_potential_multigraphs[exemplar] += 1
 
             # No multigraphs were found at this position,
-            # so continue processing a single character
-            # if we have not gone beyond the end of the text.
-            if not i < len(text):
-                break
-
+            # so continue processing a single character.
             char = text[i]
 
             # Test for punctuation.
-- 
2.43.0


From ab3e057fad3f0f14c77ea38de603b6b6e51b6bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:57 +0000
Subject: [PATCH 75/95] fix: keep letters with nuktas lower case

---
 lib/sldr/ldml_exemplars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_exemplars.py b/lib/sldr/ldml_exemplars.py
index 31b846d..fa4852c 100644
--- a/lib/sldr/ldml_exemplars.py
+++ b/lib/sldr/ldml_exemplars.py
@@ -773,7 +773,7 @@ class Exemplars(object):
                         # A Mark such as a nukta was found, so the base continues,
                         # as well as the cluster.
                         base_length += 1
-                        base = text[i:i + base_length]
+                        base = char + text[i + 1:i + base_length]
                     continue
                 else:
                     # No more marks, so the end of the cluster has been reached.
-- 
2.43.0


From 13adf6a5e1d8e0ec407cf20fab93941bad1f4b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:58 +0000
Subject: [PATCH 76/95] fix: don't stop parcelling ignorables at a mark

---
 lib/sldr/ldml_exemplars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_exemplars.py b/lib/sldr/ldml_exemplars.py
index fa4852c..9a50333 100644
--- a/lib/sldr/ldml_exemplars.py
+++ b/lib/sldr/ldml_exemplars.py
@@ -598,7 +598,7 @@ class Exemplars(object):
         """Move Default_Ignorable_Code_Point characters to auxiliary."""
         for exemplar in list(self.clusters.keys()):
             if exemplar.base == '':
-                return
+                continue
             if Char.hasBinaryProperty(exemplar.base, UProperty.DEFAULT_IGNORABLE_CODE_POINT):
                 # The base is a Default_Ignorable_Code_Point
                 # which needs to go in the auxiliary list.
-- 
2.43.0


From 7e9fc9921ad3efe54b9b9791eb5bfbe5e42e8c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:59 +0000
Subject: [PATCH 77/95] fix: don't count Common or Inherited as the script of
 exemplars

---
 lib/sldr/ldml_exemplars.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_exemplars.py b/lib/sldr/ldml_exemplars.py
index 9a50333..c4bcf49 100644
--- a/lib/sldr/ldml_exemplars.py
+++ b/lib/sldr/ldml_exemplars.py
@@ -351,7 +351,8 @@ class Exemplars(object):
 
     def _get_script(self):
         """Return most frequently occurring script."""
-        script_code_and_count_list = self.scripts.most_common(1)
+        script_code_and_count_list = Counter({k: v for k, v in self.scripts.items()
+                                              if k not in (UScriptCode.COMMON, UScriptCode.INHERITED)}).most_common(1)
         if len(script_code_and_count_list) == 0:
             return ''
         else:
-- 
2.43.0


From 57108113b5302d6ee99d1e84694459ce75e64a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:00 +0000
Subject: [PATCH 78/95] fix: read rows that end before their value

---
 lib/sldr/sheet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/sheet.py b/lib/sldr/sheet.py
index 145be5b..9c3ba58 100644
--- a/lib/sldr/sheet.py
+++ b/lib/sldr/sheet.py
@@ -277,6 +277,6 @@ class Sheet(object):
                 elname = result.group('elname')
                 atname = result.group('atname')
                 atvalue = result.group('atvalue')
-                self.action(typecheck, datarow[2], atname != None and atvalue == None, atname)
+                self.action(typecheck, datarow[2] if len(datarow) > 2 else "", atname != None and atvalue == None, atname)
                 datarow = self.nextrow(self.input)
 
-- 
2.43.0


From 86f8c53999c4c163ab3ba1a15ad3845ab500e141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:01 +0000
Subject: [PATCH 79/95] fix: end tables with their sheet

---
 lib/sldr/sheet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/sldr/sheet.py b/lib/sldr/sheet.py
index 9c3ba58..af9987a 100644
--- a/lib/sldr/sheet.py
+++ b/lib/sldr/sheet.py
@@ -93,6 +93,8 @@ class Sheet(object):
                         nodes.append(n)
                 self.currentrow = r
                 yield nodes[1:]
+            self.currentrow = None
+            yield []                # ends a table that is still open
         self.currentrow = None
         yield None
 
-- 
2.43.0


From 89b6685a7892e6e764049ef4377e221810ef3938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:02 +0000
Subject: [PATCH 80/95] fix: don't take an element for another with more
 distinguishing attributes

---
 lib/sldr/sheet.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/lib/sldr/sheet.py b/lib/sldr/sheet.py
index af9987a..1b2818e 100644
--- a/lib/sldr/sheet.py
+++ b/lib/sldr/sheet.py
@@ -104,10 +104,24 @@ class Sheet(object):
         except StopIteration:
             return None
 
+    def _find(self, path, add=False):
+        """Finds the element at path, rather than another with more distinguishing attributes"""
+        curr = [self.ldml.root]
+        for s in self.ldml._process_path(path, action="find")[1]:
+            tag, attrs = (s, {}) if isinstance(s, str) else s
+            found = [c for e in curr for c in e if c.tag == tag
+                     and all(k in c.attrib and v in (None, c.attrib[k]) for k, v in attrs.items())
+                     and not any(k in c.attrib and k not in attrs for k in self.ldml._distattributes(tag, True))]
+            if not found:
+                if not add: return None
+                found = [self.ldml.addnode(curr[0], tag, attrib=attrs)]
+            curr = found
+        return curr[0]
+
     def _writeldmlitem(self, path, value, writevalue=True):
         """Uses path, value and writevalue flag to make entry in Ldml object"""
         # If "writevalue" flag is set False, then value is already in path and doesn't need to be written
-        el = self.ldml.ensure_path(path)[0]
+        el = self._find(path, add=True)
         if writevalue:
             el.text = value
 
@@ -179,7 +193,7 @@ class Sheet(object):
             c.addElement(P(text=value))
 
     def _action_ods(self, path, value, attronly, atname):
-        e = self.ldml.find(path)
+        e = self._find(path)
         if e != None:
             if attronly:
                 v = e.attrib[atname] if atname in e.attrib else ""
@@ -189,7 +203,7 @@ class Sheet(object):
                 self._writeodsitem(4, v)
 
     def _action1d_ods(self, datarow, p1, p2):
-        v = self.ldml.find(p1 + datarow[0] + p2)
+        v = self._find(p1 + datarow[0] + p2)
         if v is not None:
             value = v.text
             if value:
@@ -197,7 +211,7 @@ class Sheet(object):
 
     def _action2d_ods(self, datarow, p1, p2, p3, colhead):
         for colnum, col in enumerate(colhead, 4):
-            v = self.ldml.find(p1 + col + p2 + datarow[0] + p3)
+            v = self._find(p1 + col + p2 + datarow[0] + p3)
             if v is not None:
                 value = v.text
                 if value:
@@ -205,7 +219,7 @@ class Sheet(object):
 
     def _action2dr_ods(self, datarow, p1, p2, p3, colhead):
         for colnum, col in enumerate(colhead, 4):
-            v = self.ldml.find(p1 + datarow[0] + p2 + col + p3)
+            v = self._find(p1 + datarow[0] + p2 + col + p3)
             if v is not None:
                 value = v.text
                 if value:
@@ -215,7 +229,7 @@ class Sheet(object):
         rowitem = datarow[1]
         if rowitem  == "": return
         for colnum in range(len(p1)):
-            v = self.ldml.find(p1[colnum] + rowitem + p2[colnum])
+            v = self._find(p1[colnum] + rowitem + p2[colnum])
             if v is not None:
                 value = v.text
                 if value:
-- 
2.43.0


From f5fdd754714250346907089767d4e011e5a9b798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:02 +0000
Subject: [PATCH 81/95] fix: keep the text of repeated cells next to one that
 is filled in

---
 lib/sldr/sheet.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/sheet.py b/lib/sldr/sheet.py
index 1b2818e..7c5254e 100644
--- a/lib/sldr/sheet.py
+++ b/lib/sldr/sheet.py
@@ -156,6 +156,13 @@ class Sheet(object):
             if dataitem != "":
                 self._writeldmlitem(p1[colnum] + rowitem + p2[colnum], datarow[colnum + 2])
 
+    def _copycell(self, c):
+        """Makes another cell with the same text"""
+        res = TableCell()
+        if c.hasChildNodes():
+            res.addElement(P(text=str(c.firstChild)))
+        return res
+
     def _writeodsitem(self, col, value):
         """Uses col and value to make entry in ods file (using self.currentrow)"""
         # column numbering starts at 1 for spreadsheet column A
@@ -174,13 +181,13 @@ class Sheet(object):
         countbefore = targetcol - curcol - 1
         countafter = curcol + repcount - targetcol
         if countbefore > 0:
-            c1 = TableCell()
+            c1 = self._copycell(c)
             c1.setAttribute('numbercolumnsrepeated', str(countbefore))
             c.setAttribute('numbercolumnsrepeated', str(countafter + 1))
             x = r.insertBefore(c1, c)
         if countafter > 0:
             c.setAttribute('numbercolumnsrepeated', '1')
-            c2 = TableCell()
+            c2 = self._copycell(c)
             c2.setAttribute('numbercolumnsrepeated', str(countafter))
             if c == r.lastChild:
                 x = r.appendChild(c2)
-- 
2.43.0


From 75ec50eeea14dd5538b73d567264b74fe5620720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:46 +0000
Subject: [PATCH 82/95] fix: unflattening keeps a container whose own
 attributes differ

---
 lib/sldr/ldml_merge.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index e0721b1..4ccaa00 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -71,7 +71,9 @@ class LdmlMerge(Ldml):
                     else:
                         this.remove(t)
                 break
-        return not len(this) and (not this.text or this.text == other.text) \
+        def attribs(e):                         # attributes of its own, since these aren't inherited
+            return {k: v for k, v in e.items() if k not in ('draft', 'alt')}
+        return not len(this) and (not this.text or this.text == other.text) and attribs(this) == attribs(other) \
                 and not any(o.tag in self.blocks for o in other)    # having this keeps them from being inherited
 
     def overlay(self, other, usedrafts=False, this=None):
-- 
2.43.0


From ff18bd8d21dd1e3439e5ff17ff71ecff1b7f932a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:00 +0000
Subject: [PATCH 83/95] fix: write alternates under their own names in an
 element that has an alt

---
 lib/sldr/ldml.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 6b2e279..874709e 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -940,11 +940,10 @@ class Ldml(ETWriter):
             if self._dropsdraft(n):
                 del n.attrib['draft']
             offset = 0
-            alt = n.get('alt', '')
             for (i, c) in enumerate(list(n)):
                 if not hasattr(c, 'alternates'): continue
                 for a in sorted(c.alternates.keys()):
-                    c.alternates[a].set('alt', (alt+"-"+a if alt else a))
+                    c.alternates[a].set('alt', a)
                     offset += 1
                     n.insert(i + offset, c.alternates[a])
                     c.alternates[a].tempnode = True
-- 
2.43.0


From 5ff5cc71ac823be4f36d958225d990bf8c374f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:37 +0000
Subject: [PATCH 84/95] fix: unflattening keeps an item with its alternates
 unless all of them are inherited

---
 lib/sldr/ldml_merge.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 4ccaa00..c36a0eb 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -50,6 +50,15 @@ class LdmlMerge(Ldml):
         super().__init__(fname, usedrafts=usedrafts, uparrows=uparrows)
         self.winner = winner
 
+    def _same(self, o, t):
+        """Whether these say the same, as do their alternates"""
+        oalts, talts = (getattr(e, 'alternates', {}) for e in (o, t))
+        def kids(e):
+            return sorted(e, key=lambda x: x.contentHash.hashed)
+        return o.contentHash == t.contentHash and o.get('alt') == t.get('alt') \
+                and oalts.keys() == talts.keys() and all(self._same(v, talts[k]) for k, v in oalts.items()) \
+                and len(o) == len(t) and all(self._same(x, y) for x, y in zip(kids(o), kids(t)))
+
     def difference(self, other, this=None):
         """Strip out from self, everything that is in other, if the values are the same."""
         if this == None: this = self.root
@@ -61,15 +70,12 @@ class LdmlMerge(Ldml):
             if o.tag in self.blocks:        # overlay() wouldn't put it back
                 continue
             for t in filter(lambda x: x.attrHash == o.attrHash, this):
-                if o.contentHash == t.contentHash or self.difference(o, this=t):
-                    if hasattr(t, 'alternates') and hasattr(o, 'alternates'):
-                        for (k, v) in o.alternates.items():
-                            if k in t.alternates and v.contentHash == t.alternates[k].contentHash:
-                                del t.alternates[k]
-                        if len(t.alternates) == 0:
-                            this.remove(t)
-                    else:
-                        this.remove(t)
+                if getattr(o, 'alternates', None) or getattr(t, 'alternates', None):
+                    same = self._same(o, t)     # overlay() takes all or none of them
+                else:
+                    same = self._same(o, t) or self.difference(o, this=t)
+                if same:
+                    this.remove(t)
                 break
         def attribs(e):                         # attributes of its own, since these aren't inherited
             return {k: v for k, v in e.items() if k not in ('draft', 'alt')}
-- 
2.43.0


From be48a03f330a9be2af6727e5f0c071deea570fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:04 +0000
Subject: [PATCH 85/95] fix: cldrimport removes the references of all parts and
 alternates

---
 scripts/cldrimport | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/scripts/cldrimport b/scripts/cldrimport
index f8a6eae..3f9a291 100755
--- a/scripts/cldrimport
+++ b/scripts/cldrimport
@@ -77,6 +77,8 @@ def doit(a) :
         if os.path.exists(f) :
             allfiles.append(f)
             l = LdmlMerge(f)
+            unreference(l.root)
+            l.normalise(usedrafts=True)     # references no longer tell elements apart
             if curr is not None :
                 curr.overlay(l)     # overlays the data from each different subdirectory file to make one LDML file with all the info
             else :
@@ -96,8 +98,6 @@ def doit(a) :
             curr.add_silidentity(draft = 'unconfirmed', source = 'cldrseed', **extras)
         else :
             curr.add_silidentity(source = 'cldr', **extras)
-        for b in list(l.root.iter()):
-            b.attrib.pop("references", None)        # remove all reference attributes
         if args.hg :
             dohg(curr, allfiles)
         # finds/makes the alphabetized directories in the output directory, makes the filepath for the new file, and makes the new file
@@ -107,6 +107,12 @@ def doit(a) :
         curr.serialize_xml(outfh.write, topns=args.topns)
         outfh.close()
 
+def unreference(e) :
+    '''Remove all reference attributes'''
+    e.attrib.pop("references", None)
+    for c in list(e) + list(getattr(e, 'alternates', {}).values()) :
+        unreference(c)
+
 def dohg(l, files) :
     cmd = ["hg", "log", "-R", os.path.join(args.indir, '..'), "-l", "1", "--template", "{svnrev}\n{isodate(date)}"]
     cmd.extend(files)
-- 
2.43.0


From e582c5979c4411a6c3793069c902f55dc70265e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:04 +0000
Subject: [PATCH 86/95] fix: cldrimport --hg adds the revision

---
 scripts/cldrimport | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/cldrimport b/scripts/cldrimport
index 3f9a291..4e7b1de 100755
--- a/scripts/cldrimport
+++ b/scripts/cldrimport
@@ -116,16 +116,16 @@ def unreference(e) :
 def dohg(l, files) :
     cmd = ["hg", "log", "-R", os.path.join(args.indir, '..'), "-l", "1", "--template", "{svnrev}\n{isodate(date)}"]
     cmd.extend(files)
-    clog = subprocess.check_output(cmd)
+    clog = subprocess.check_output(cmd).decode("utf-8")
     (rev, date) = clog.split("\n")
     i = l.root.find("identity")
     r = i.find("version")
     if r is None :
-        r = et.SubElement(i, "version")
+        r = l.addnode(i, "version")
     r.set('number', "$Revision: {} $".format(rev))
     d = i.find("generation")
     if d is None :
-        d = et.SubElement(i, "generation")
+        d = l.addnode(i, "generation")
     d.set("date", "$Date: {} $".format(date))
 
 if not args.single :
-- 
2.43.0


From e6850b78eca7ca3065932f0ae1db2c9eb1255590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:04 +0000
Subject: [PATCH 87/95] fix: cldrimport reports locales that fail, and goes on
 with the others

---
 scripts/cldrimport | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/scripts/cldrimport b/scripts/cldrimport
index 4e7b1de..9355567 100755
--- a/scripts/cldrimport
+++ b/scripts/cldrimport
@@ -69,6 +69,13 @@ if args.remove:
 lagen = lookup('en')        # load the langtags module to share with subprocesses
 # define this function after declaring args so we can access args within it
 def doit(a) :
+    try :
+        dolocale(a)
+        return (True, a, "")
+    except Exception as e :
+        return (False, a, str(e))
+
+def dolocale(a) :
     # 'a' is one locale found in the CLDR, from the 'alllocales' set
     curr = None
     allfiles = []   # list of CLDR paths every revelant subdirectory this locale appears in (max of 4 paths per locale)
@@ -130,12 +137,13 @@ def dohg(l, files) :
 
 if not args.single :
     pool = Pool()
-    pool.map_async(doit, alllocales)
+    results = pool.map_async(doit, alllocales).get()
     pool.close()
     pool.join()
 else :
-    for l in alllocales :
-        doit(l)
+    results = [doit(l) for l in alllocales]
+for r in [x for x in results if not x[0]]:
+    print("Error in "+r[1] + " problem: " + r[2])
 
 if args.remove:
     for l in existinglocales - alllocales:
-- 
2.43.0


From 578ebe30a0764dcc88090e505ba5ecca9d970f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:28 +0000
Subject: [PATCH 88/95] fix: sldrautonames finds the identity and the exemplar
 characters

---
 scripts/sldrautonames | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/sldrautonames b/scripts/sldrautonames
index 120ce64..257eb14 100755
--- a/scripts/sldrautonames
+++ b/scripts/sldrautonames
@@ -19,7 +19,7 @@ for f in allfiles:
     l = Ldml(f)
     if len(l.root) == 1 and l.root[0].tag == "identity":
         continue
-    ident = l.find(".//identity/special/sil:identity")
+    ident = l.find("identity/special/sil:identity")
     if ident is None or ident.get("source", "") == "cldr":
         continue
     name = os.path.splitext(os.path.basename(f))[0].replace("_", "-")
@@ -35,7 +35,7 @@ for f in allfiles:
     lnames = getattr(tagset, "localnames", [getattr(tagset, 'localname', None)])
     if lnames != [None]:
         main = ""
-        for e in l.findall('.//characters/exemplarCharacters'):
+        for e in l.findall('characters/exemplarCharacters'):
             t = e.get('type', None)
             if t or not e.text: continue
             main = usets.parse(e.text, 'NFD')[0].asSet()
-- 
2.43.0


From 424ccea180d07def18bfbf1eeb6aab5fa34aa3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:28 +0000
Subject: [PATCH 89/95] fix: sldraddkeymans can write its report

---
 scripts/sldraddkeymans | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/sldraddkeymans b/scripts/sldraddkeymans
index 65c998a..97bf214 100755
--- a/scripts/sldraddkeymans
+++ b/scripts/sldraddkeymans
@@ -40,8 +40,8 @@ for a in alldat["keyboard"]:
                 entry[s+'source'] = k[s]['source'][0]
 if args.output:
     with open(args.output, "w") as outf:
-        fieldnames = ['langtag', 'fontfamily', 'fontsource',
-                    'oskfamily', 'osksource']
+        fieldnames = ['langtag', 'id', 'fontfamily', 'fontsource',
+                    'oskfontfamily', 'oskfontsource']
         writer = csv.DictWriter(outf, fieldnames = fieldnames)
         writer.writeheader()
         for k, v in sorted(results.items()):
-- 
2.43.0


From 59c3bf382d479fc8547e29ce5ba5e4dd63230f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:28 +0000
Subject: [PATCH 90/95] fix: sldraddfonts makes the same font the default every
 time

---
 scripts/sldraddfonts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/sldraddfonts b/scripts/sldraddfonts
index b8541fc..4727d5a 100755
--- a/scripts/sldraddfonts
+++ b/scripts/sldraddfonts
@@ -359,7 +359,7 @@ def write_font_data(xml_locale, filepath, preferred_fonts):
         only_csv = sorted(set(preferred_fonts_from_csv) - set(preferred_fonts_from_css))
         only_css = sorted(set(preferred_fonts_from_css) - set(preferred_fonts_from_csv))
 
-        common = set(preferred_fonts_from_csv) & set(preferred_fonts_from_css)
+        common = sorted(set(preferred_fonts_from_csv) & set(preferred_fonts_from_css))
 
         message = ''
         # fonts
-- 
2.43.0


From a388a7c1e9954c4a22220ac3054927ce979ccac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:37 +0000
Subject: [PATCH 91/95] fix: sldraddfonts can use a style sheet with a single
 file

---
 scripts/sldraddfonts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/sldraddfonts b/scripts/sldraddfonts
index 4727d5a..1d5d261 100755
--- a/scripts/sldraddfonts
+++ b/scripts/sldraddfonts
@@ -289,7 +289,7 @@ def report_css_information(sldrtree):
 
     # Find locales specified in CSS that are not in the SLDR
     xml_locales = set()
-    for xml_locale, filepath in find_ldml_files(sldrtree):
+    for xml_locale, filepath in find_ldml_files(sldrtree) if sldrtree else ():
         try:
             ts = lookup(xml_locale, matchRegions=True, use639=True)
             full_tag = ts.full
-- 
2.43.0


From 22750cd5e34f4fa5ac95a6b1367907abd89ef72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:14 +0000
Subject: [PATCH 92/95] fix: sort keys that are the same are equal

---
 lib/sldr/collation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index 792357d..1fd1e76 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -157,7 +157,8 @@ class SortKey(list):
 
     def cmp(self, other):
         ''' Returns the level of the difference and negative if self < other '''
-        return diffLevel(other, self)
+        d = diffLevel(other, self)
+        return 0 if d == 4 else d       # 4 is for no difference
         for i, z in enumerate(zip_longest(self, other)):
             if z[0] < z[1]:
                 return -(i+1)
-- 
2.43.0


From 7117f60b9dfa816d755294706c3aa8d9a9d962eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:26 +0000
Subject: [PATCH 93/95] fix: merging takes attributes with the content of a
 better attested addition

---
 lib/sldr/ldml_merge.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index c36a0eb..ecc9e0c 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -220,6 +220,9 @@ class LdmlMerge(Ldml):
                 if getattr(self, 'clashadd', False):
                     self._add_alt(other, target, default=default)
                 target[:] = other
+                for k in [k for k in target.attrib if k not in other.attrib]:
+                    del target.attrib[k]
+                target.attrib.update(other.attrib)
                 for a in ('text', 'contentHash', 'comments', 'commentsafter'):
                     if hasattr(other, a):
                         setattr(target, a, getattr(other, a, None))
-- 
2.43.0


From 98e60c2b424be947a957f024a2426c1500cf6a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:27 +0000
Subject: [PATCH 94/95] fix: locales are affected by all that they fall back to

---
 lib/sldr/ldml_merge.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index ecc9e0c..de0f91c 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -444,7 +444,9 @@ def flattenlocale(lname, dirs=[], rev='f', changed=set(),
         if len(changed):       # check against changed
             dome = False
             for f in fallbacks:
-                if f in changed:
+                while len(f) and f not in changed:      # they fall back too
+                    f = trimtag(f)
+                if len(f):
                     dome = True
                     break
             if not dome: return None
-- 
2.43.0


From be03589d81c9b0871ffe0220bc358bd62c5853be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:07:58 +0000
Subject: [PATCH 95/95] fix: merge alternates three ways

When drafts are in use an alternate that one side removed came back, a
change of theirs to a value was lost if its alternates changed too, and
what they added to it or of it came without its alternates.
---
 lib/sldr/ldml_merge.py | 72 ++++++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 38 deletions(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index de0f91c..7e8383b 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -178,6 +178,8 @@ class LdmlMerge(Ldml):
                     if t.mergeBase is not None: del blist[t.mergeBase.contentHash]
         for e in olist.values():       # pick up stuff in other but not in this
             newe = self._copynode(e, this)
+            if hasattr(e, 'alternates'):
+                newe.alternates = e.alternates
             if base is not None and e.contentHash in blist:
                 newe.mergeBase = blist.pop(e.contentHash)
             elif base is not None:
@@ -244,41 +246,29 @@ class LdmlMerge(Ldml):
         return res
 
     def _merge_alts(self, base, other, target, default='unconfirmed'):
-        if other is None or not hasattr(other, 'alternates'): return False
+        """3-way merge of the alternates into target. What one side changed is taken, of what
+           both changed what is better attested. Returns True if any changes were made."""
+        if other is None: return False
+        balts, oalts, talts = (dict(getattr(x, 'alternates', {})) for x in (base, other, target))
+        def same(x, y):
+            if x is None or y is None: return x is y
+            return x.contentHash == y.contentHash and self.get_draft(x, default) == self.get_draft(y, default)
         res = False
-        if not hasattr(target, 'alternates'):
-            target.alternates = dict(other.alternates)
-            return (len(target.alternates) != 0)
-        balt = getattr(base, 'alternates', {}) if base is not None else {}
-        allkeys = set(sum((list(getattr(x, 'alternates', {}).keys()) for x in (base, target, other)), []))
-        for k in allkeys:
-            if k not in balt:
-                if k not in other.alternates: continue
-                if k not in target.alternates or self.get_draft(target.alternates[k], default) > self.get_draft(other.alternates, default):
-                    target.alternates[k] = other.alternates[k]
-                    res = True
-            elif k not in other.alternates:
-                if k not in target.alternates or self.get_draft(target.alternates[k], default) > self.get_draft(balt[k]):
-                    target.alternates[k] = balt[k]
-                    res = True
-            elif k not in target.alternates:
-                if k not in other.alternates or self.get_draft(other.alternates[k], default) > self.get_draft(balt[k]):
-                    target.alternates[k] = balt[k]
-                else:
-                    target.alternates[k] = other.alternates[k]
-                res = True
-            elif self.get_draft(target.alternates[k], default) > self.get_draft(other.alternates[k], default):
-                target.alternates[k] = other.alternates[k]
-                res = True
-            elif self.get_draft(target.alternates[k], default) > self.get_draft(balt[k]):
-                target.alternates[k] = balt[k]
-                res = True
-            elif other.alternates[k].contentHash != balt[k].contentHash:
-                target.alternates[k] = other.alternates[k]
-                res = True
+        for k in sorted(set(balts) | set(oalts) | set(talts)):
+            b, o, t = (x.get(k, None) for x in (balts, oalts, talts))
+            if same(o, b) or same(o, t):
+                continue
+            if not same(t, b) and (o is None or (t is not None and self.get_draft(t, default) < self.get_draft(o, default))):
+                continue
+            if o is None:
+                del talts[k]
+            else:
+                talts[k] = o
+            res = True
+        if res:
+            target.alternates = talts
         return res
 
-    
     def _add_alt(self, target, origin, default='unconfirmed'):
         self._add_alt_leaf(target, copy.copy(origin),
                 default=default, leaf=origin.contentHash is not None,
@@ -296,7 +286,12 @@ class LdmlMerge(Ldml):
         # other and base can be None
         for t in list(this):       # go through children merging them
             if t.mergeBase is None:
-                if t.mergeOther is None or t.mergeOther.contentHash == t.contentHash:
+                if t.mergeOther is None:
+                    continue
+                if t.mergeOther.contentHash == t.contentHash:
+                    if self.useDrafts:          # they say the same, their alternates needn't
+                        b = next((x for x in base if x.attrHash == t.attrHash), None) if base is not None else None
+                        res |= self._merge_alts(b, t.mergeOther, t, self.default_draft if default is None else default)
                     continue
                 if len(t) or len(t.mergeOther):     # both added it, so bring together what they added in it
                     res |= self.merge(t.mergeOther, None, t, default=default)
@@ -305,11 +300,12 @@ class LdmlMerge(Ldml):
                 continue
             if t.mergeOther is not None and t.mergeOther.contentHash != t.contentHash:     # other differs
                 if t.mergeBase.contentHash == t.contentHash:   # base doesn't
-                    if not self.useDrafts or \
-                            not self._merge_with_alts(t.mergeBase, t.mergeOther, t, default=default, copycomments=copycomments):
-                        this.remove(t)                                  # swap us out
-                        this.append(t.mergeOther)
-                        res = True
+                    if self.useDrafts:
+                        self._merge_with_alts(t.mergeBase, t.mergeOther, t, default=default, copycomments=copycomments)
+                        t.mergeOther.alternates = getattr(t, 'alternates', {})
+                    this.remove(t)                                  # swap us out
+                    this.append(t.mergeOther)
+                    res = True
                 elif t.mergeBase.contentHash != t.mergeOther.contentHash:
                     res |= self.merge(t.mergeOther, t.mergeBase, t, default=default)        # could be a clash so recurse
                 elif self.useDrafts:       # base == other
-- 
2.43.0

