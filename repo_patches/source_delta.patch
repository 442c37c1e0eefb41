From fcde7613a7a2e195f3cd27164e604371d2cd86ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:03 +0000
Subject: [PATCH 001/104] fix: Matter text extraction reports shortage when
 only hard part of code is available

---
 src/keri/core/coring.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keri/core/coring.py b/src/keri/core/coring.py
index 006fbd7..7603935 100644
--- a/src/keri/core/coring.py
+++ b/src/keri/core/coring.py
@@ -1381,6 +1381,9 @@ class Matter:
         # when fs is None then ss > 0 otherwise fs > hs + ss when ss > 0
 
 
+        if len(qb64b) < cs:  # need more chars for soft part of code
+            raise ShortageError(f"Need {cs - len(qb64b)} more characters.")
+
         # extract soft chars including xtra, empty when ss==0 and xs == 0
         # assumes that when ss == 0 then xs must be 0
         soft = qb64b[hs:hs+ss]
-- 
2.43.0


From aa2c1994c482cd9f22649bacdaf226cf242ca989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 002/104] fix: Matter text extraction rejects characters
 outside the URL safe Base64 alphabet

---
 src/keri/core/coring.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/keri/core/coring.py b/src/keri/core/coring.py
index 7603935..efab212 100644
--- a/src/keri/core/coring.py
+++ b/src/keri/core/coring.py
@@ -1396,6 +1396,9 @@ class Matter:
         if xtra != f"{self.Pad * xs}":
             raise UnexpectedCodeError(f"Invalid prepad xtra ={xtra}.")
 
+        if not Reb64.match(soft.encode()):  # not all Base64 chars
+            raise ConversionError(f"Non Base64 chars in {soft=}.")
+
         if not fs:  # compute fs from soft from ss part which provides size B64
             # compute variable size as int may have value 0
             fs = (b64ToInt(soft) * 4) + cs
@@ -1409,6 +1412,10 @@ class Matter:
         if hasattr(qb64b, "encode"):  # only convert extracted chars from stream
             qb64b = qb64b.encode()  # converts str to bytes
 
+        # decodeB64 discards or aliases chars not in URL safe Base64 alphabet
+        if not Reb64.match(qb64b[cs:]):
+            raise ConversionError(f"Non Base64 chars in material = {qb64b}.")
+
         # check for non-zeroed pad bits and/or lead bytes
         # net prepad ps == cs % 4 (remainer).  Assumes ps != 3 i.e ps in (0,1,2)
         # To ensure number of prepad bytes and prepad chars are same.
-- 
2.43.0


From 827752e20682f9631651d98ef4b0ff318a6376ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 003/104] fix: Indexer text extraction rejects characters
 outside the URL safe Base64 alphabet

---
 src/keri/core/indexing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/keri/core/indexing.py b/src/keri/core/indexing.py
index d5ff4aa..08619a2 100644
--- a/src/keri/core/indexing.py
+++ b/src/keri/core/indexing.py
@@ -15,7 +15,7 @@ from ..kering import (EmptyMaterialError, RawMaterialError, InvalidCodeSizeError
                       UnexpectedCountCodeError, UnexpectedOpCodeError)
 
 from ..help import (sceil, intToB64, b64ToInt,
-                    codeB64ToB2, codeB2ToB64, nabSextets)
+                    codeB64ToB2, codeB2ToB64, nabSextets, Reb64)
 
 
 @dataclass(frozen=True)
@@ -598,6 +598,10 @@ class Indexer:
         if hasattr(qb64b, "encode"):  # only convert extracted chars from stream
             qb64b = qb64b.encode("utf-8")
 
+        # decodeB64 discards or aliases chars not in URL safe Base64 alphabet
+        if not Reb64.match(qb64b[cs:]):
+            raise ConversionError(f"Non Base64 chars in material = {qb64b}.")
+
         # strip off prepended code and append pad characters
         #ps = cs % 4  # pad size ps = cs mod 4, same pad chars and lead bytes
         #base = ps * b'A' + qb64b[cs:]  # replace prepend code with prepad zeros
-- 
2.43.0


From 321f828c9d59d8a039045eed21edd4d99905b500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:09 +0000
Subject: [PATCH 004/104] fix: each key counts at most once toward signing,
 next and witness thresholds

---
 src/keri/core/coring.py   | 3 ++-
 src/keri/core/eventing.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/coring.py b/src/keri/core/coring.py
index efab212..58e83ef 100644
--- a/src/keri/core/coring.py
+++ b/src/keri/core/coring.py
@@ -4671,7 +4671,8 @@ class Tholder:
         Parameters:
             indices: list of indices (offsets into key list) of verified signatures"""
         try:
-            if self.thold > 0 and len(indices) >= self.thold:  # at least one
+            # remove duplicates with set so each index counts at most once
+            if self.thold > 0 and len(set(indices)) >= self.thold:  # at least one
                 return True
 
         except Exception as ex:
diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index b500346..03ae0ba 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -353,7 +353,8 @@ def verifySigs(raw, sigers, verfers):
     vsigers = []
     for siger in uvsigers:
         if siger.verfer.verify(siger.raw, raw):
-            vindices.append(siger.index)
+            if siger.index not in vindices:  # same index via different codes
+                vindices.append(siger.index)
             vsigers.append(siger)
 
     return (vsigers, vindices)
-- 
2.43.0


From 0bcf4fc7431c19c53420629f5f16d76bfe3576e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 005/104] fix: Decimer keeps exponents of large numbers and
 accepts bytes input

---
 src/keri/core/coring.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/coring.py b/src/keri/core/coring.py
index 58e83ef..778b2a3 100644
--- a/src/keri/core/coring.py
+++ b/src/keri/core/coring.py
@@ -1956,7 +1956,7 @@ class Decimer(Matter):
                                          f"dns, or decimer input")
 
             if hasattr(dns, "decode"):
-                dns = dns.decode("")  # convert to str
+                dns = dns.decode("utf-8")  # convert to str
 
             # make round trippable extra leading 0's , +
             try:
@@ -1964,7 +1964,8 @@ class Decimer(Matter):
                 dns = f"{decimal}"  # removes leading + - extra 0's
             except ValueError:  # float not int
                 decimal = float(dns)  # make round trippable
-                dns = f"{decimal}"  # -0.0 is valid, float('-0.0') is -0.0
+                # exponent sign '+' is not Base64 URL safe so drop, 1e20 is 1e+20
+                dns = f"{decimal}".replace("+", "")  # -0.0 is valid, float('-0.0') is -0.0
 
             raw = self._rawify(dns)
 
-- 
2.43.0


From 5cb214f92f8e5d82fc9ff7310074e3fea5adc1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:48 +0000
Subject: [PATCH 006/104] fix: labels and path parts ending in a newline are
 not Base64 attribute names

---
 src/keri/help/helping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/help/helping.py b/src/keri/help/helping.py
index 1b4722d..4514b74 100644
--- a/src/keri/help/helping.py
+++ b/src/keri/help/helping.py
@@ -428,13 +428,13 @@ def verify64uEd25519(signature, message, verkey):
 
 
 # Regular expression to detect valid attributish names as bytes
-ATREX = rb'^[a-zA-Z_][a-zA-Z0-9_]*$'  # bytes MUST NOT be empty string
+ATREX = rb'^[a-zA-Z_][a-zA-Z0-9_]*\Z'  # bytes MUST NOT be empty string
 # Usage: if Reat.match(name): or if not Reat.match(name):
 Reatt = re.compile(ATREX)  # compile is faster
 
 
 # Regular expression to detect Base64 path parts as bytes excluding b'-' in part
 # because '-' is path separator when in B64
-PATHREX = rb'^[a-zA-Z0-9_]*$'  # bytes May be empty string
+PATHREX = rb'^[a-zA-Z0-9_]*\Z'  # bytes May be empty string
 # Usage: if Reat.match(name): or if not Reat.match(name):
 Repath = re.compile(PATHREX)  # compile is faster
-- 
2.43.0


From 75edeb9905fb785407540f0b3823871af52dae55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:18 +0000
Subject: [PATCH 007/104] fix: Pather startswith and strip compare whole
 leading path parts

---
 src/keri/core/coring.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/keri/core/coring.py b/src/keri/core/coring.py
index 778b2a3..fd0e48e 100644
--- a/src/keri/core/coring.py
+++ b/src/keri/core/coring.py
@@ -3101,21 +3101,25 @@ class Pather(Matter):
 
         Returns:
             Pather: new path anchored at root"""
-        if len(root.parts) > len(self.parts):
+        if not self.startswith(root):
             return Pather(parts=self.parts)
 
-        parts = list(self.parts)
-        try:
-            for i in root.parts:
-                parts.remove(i)
-        except ValueError:
-            return Pather(parts=self.parts)
+        return Pather(parts=self.parts[len(root._stem()):])
+
 
-        return Pather(parts=parts)
+    def _stem(self):
+        """ Returns .parts without the trailing empty part of a bare root such as "/"
+
+        Returns:
+            list[str]: parts"""
+        parts = list(self.parts)
+        if len(parts) >= 2 and parts[-1] == '':
+            del parts[-1]
+        return parts
 
 
     def startswith(self, pather):
-        """ Returns True if pather.path text is the root of self.path text
+        """ Returns True if pather.parts are the leading parts of self.parts
 
         Parameters:
             pather (Pather): the path to check against self
@@ -3123,7 +3127,8 @@ class Pather(Matter):
         Returns:
             bool: True if pather is the root of self"""
 
-        return self.path.startswith(pather.path)
+        stem = pather._stem()
+        return self.parts[:len(stem)] == stem
 
 
     def tail(self, serder):
-- 
2.43.0


From 5be29c48de8a4761618a222f0860e7d8cfeeea0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:01 +0000
Subject: [PATCH 008/104] fix: escrow likely duplicitous events with the
 existing database interface

---
 src/keri/core/eventing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 03ae0ba..8bf7e53 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -5812,7 +5812,7 @@ class Kevery:
         self.db.dtss.put(keys=dgkey, val=Dater())
         self.db.sigs.put(keys=dgkey, vals=sigers)
         self.db.evts.put(keys=(serder.preb, serder.saidb), val=serder)
-        self.db.addLde(snKey(serder.preb, serder.sn), serder.saidb)
+        self.db.ldes.add(keys=serder.preb, on=serder.sn, val=serder.saidb)
         # log duplicitous
         logger.debug("Kevery process: escrowed likely duplicitous event=\n%s\n", serder.pretty())
 
-- 
2.43.0


From 6151bdec8cc4e600ae66516bdb3bd15445758b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:21 +0000
Subject: [PATCH 009/104] fix: recovery rotation applies its witness cuts and
 adds

---
 src/keri/core/eventing.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 8bf7e53..defabea 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -2699,10 +2699,19 @@ class Kever:
 
         Parameters:
             serder (SerderKeri): instance of current event"""
-        if serder.ilk not in (Ilks.rot, Ilks.drt) or self.sn >= serder.sn:  # no changes
+        if (serder.ilk not in (Ilks.rot, Ilks.drt) or
+                serder.said in self.db.kels.get(keys=serder.pre, on=serder.sn)):  # no changes
             return self.wits, self.cuts, self.adds
 
-        witset = oset(self.wits)
+        priorWits = self.wits
+        if serder.sn <= self.lastEst.s:  # supersedes latest est evt so changes from wits prior to it
+            pre = self.prefixer.qb64
+            for dig in self.db.kels.getBackIter(keys=pre, on=serder.sn - 1):
+                if self.db.evts.get(keys=(pre, dig)).estive:
+                    priorWits = [wit.qb64 for wit in self.db.wits.get(keys=(pre, dig))]
+                    break
+
+        witset = oset(priorWits)
         cuts = serder.cuts
         cutset = oset(cuts)
         if len(cutset) != len(cuts):
@@ -2724,14 +2733,14 @@ class Kever:
                                   f"for evt = {serder.ked}.")
 
         if witset & addset:  # non empty intersection
-            raise ValidationError(f"Intersecting wits = {self.wits} and  adds ="
+            raise ValidationError(f"Intersecting wits = {priorWits} and  adds ="
                                   f"{adds} for evt = {serder.ked}.")
 
         wits = list((witset - cutset) | addset)
 
-        if len(wits) != (len(self.wits) - len(cuts) + len(adds)):  # redundant?
+        if len(wits) != (len(priorWits) - len(cuts) + len(adds)):  # redundant?
             raise ValidationError(f"Invalid member combination among wits = "
-                                  f"{self.wits}, cuts ={cuts}, and adds = "
+                                  f"{priorWits}, cuts ={cuts}, and adds = "
                                   f"{adds,} for evt = {serder.ked}.")
         return (wits, cuts, adds)
 
-- 
2.43.0


From 772a39c3a7bee684c4369fdcc9ee93ec358a4368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:43 +0000
Subject: [PATCH 010/104] fix: field map native message version is found after
 its label

---
 src/keri/core/serdering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/serdering.py b/src/keri/core/serdering.py
index b74848d..8de447e 100644
--- a/src/keri/core/serdering.py
+++ b/src/keri/core/serdering.py
@@ -183,7 +183,7 @@ class Serdery:
             lsize = 0  # label size in bytes
             if not fixed:  # extract label for version field
                 labeler = Labeler(qb64b=ims[ctr.fullSize:])  # offset past ctr
-                lsize = labeler.fullsize
+                lsize = labeler.fullSize
 
             verser = Verser(qb64b=ims[ctr.fullSize+lsize:])  # in text domain
             proto, pvrsn, gvrsn = verser.versage
-- 
2.43.0


From cf2e1769d47a5e9743a2960e76c4978677465026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:43 +0000
Subject: [PATCH 011/104] fix: binary domain native message is converted
 without what follows it

---
 src/keri/core/serdering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/serdering.py b/src/keri/core/serdering.py
index 8de447e..a4ba0d2 100644
--- a/src/keri/core/serdering.py
+++ b/src/keri/core/serdering.py
@@ -1191,7 +1191,7 @@ class Serder:
                     sraw = raw[:ss]  # only copy enough bytes for serder
                     if strip and isinstance(raw, bytearray):
                         del raw[:ss]
-                    sraw = encodeB64(raw)  # loads expects Base64 text domain
+                    sraw = encodeB64(sraw)  # loads expects Base64 text domain
                 elif cold == Colds.txt:
                     ctr = Counter(qb64b=raw)
                     ss = ctr.byteCount(cold=cold) + ctr.byteSize(cold=cold)
-- 
2.43.0


From 918b7a9fab5bc3cbf48de72456c3a0fce7271ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:43 +0000
Subject: [PATCH 012/104] fix: primary said field must hold a digest

---
 src/keri/core/serdering.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keri/core/serdering.py b/src/keri/core/serdering.py
index a4ba0d2..941d3aa 100644
--- a/src/keri/core/serdering.py
+++ b/src/keri/core/serdering.py
@@ -824,6 +824,10 @@ class Serder:
                     raise ValidationError(f"Invalid said field '{label}' in sad\n"
                                       f" = {self._sad}.") from ex
 
+            if label == list(saids)[0] and saids[label] not in DigDex:  # primary said
+                raise ValidationError(f"Nondigestive said field '{label}' in sad\n"
+                                      f" = {self._sad}.")
+
             if saids[label] in DigDex:  # if digestive then replace with dummy
                 sad[label] = self.Dummy * len(sad[label])
 
-- 
2.43.0


From 60305c404b4f94cc96fae80f280cc0ae6c270e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:43 +0000
Subject: [PATCH 013/104] fix: native serialization refuses a seal it cannot
 represent instead of dropping it

---
 src/keri/core/serdering.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/keri/core/serdering.py b/src/keri/core/serdering.py
index 941d3aa..daa41fc 100644
--- a/src/keri/core/serdering.py
+++ b/src/keri/core/serdering.py
@@ -1782,14 +1782,9 @@ class Serder:
                                         gcode = code  # new group or keep same group
                                         gframe.extend(sealer.qb64b)  # extend in new group
 
-                                except InvalidValueError:
-                                    if gframe:
-                                        counter = Counter(code=gcode,
-                                                          count=len(gframe) // 4,
-                                                          version=gvrsn)
-                                        frame.extend(counter.qb64b + gframe)
-                                        gframe = bytearray()
-                                        gcode = None
+                                except InvalidValueError as ex:
+                                    raise SerializeError(f"Unsupported seal={e}"
+                                                         f" in field='{l}'.") from ex
 
                                     #unknown seal type so serialize as field map
                                     #generic seal no count type (v, Mapping):
-- 
2.43.0


From 46c6c4bc4da31bc9a9a0072235628cd754d07fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:49 +0000
Subject: [PATCH 014/104] fix: likely duplicitous escrow keeps the locality of
 the event source

---
 src/keri/core/eventing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index defabea..5e9225c 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -4359,7 +4359,7 @@ class Kevery:
                         kever.logEvent(serder, sigers=sigers, wigers=wigers)
 
                 else:  # escrow likely duplicitous event
-                    self.escrowLDEvent(serder=serder, sigers=sigers)
+                    self.escrowLDEvent(serder=serder, sigers=sigers, local=local)
                     msg = f"Likely Duplicitous Event sn={serder.sn} type={serder.ilk} SAID={serder.said}"
                     logger.debug(msg)
                     logger.debug("Duplicitous event body=\n%s\n", serder.pretty())
@@ -4444,7 +4444,7 @@ class Kevery:
                             kever.logEvent(serder, sigers=sigers, wigers=wigers)  # idempotent update db logs
 
                     else:  # escrow likely duplicitous event
-                        self.escrowLDEvent(serder=serder, sigers=sigers)
+                        self.escrowLDEvent(serder=serder, sigers=sigers, local=local)
                         msg = f"Likely Duplicitous Event sn={serder.sn} type={serder.ilk} SAID={serder.said}"
                         logger.debug(msg)
                         logger.debug("Duplicitous event body=\n%s\n", serder.pretty())
-- 
2.43.0


From 7e1b61185be98a65eb6c1627cc699093f42ecb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:49 +0000
Subject: [PATCH 015/104] fix: receipt applies to the accepted event it names
 or waits for a superseding one

---
 src/keri/core/eventing.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 5e9225c..e6f8e89 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -4492,14 +4492,19 @@ class Kevery:
         # Only accept receipt if for last seen version of event at sn
         ldig = self.db.kels.getLast(keys=pre, on=sn) # retrieve dig of last event at sn.
 
-        if ldig is not None:  # verify digs match
+        if ldig is not None and ldig != serder.said:  # not last accepted event at sn
+            # superseding event waiting for its witnesses so escrow receipt below
+            if serder.said not in self.db.pwes.get(keys=pre, on=sn):
+                # stale receipt at sn discard
+                raise ValidationError("Stale receipt at sn = {} for rct = {}."
+                                      "".format(ked["s"], ked))
+            ldig = None
+
+        if ldig is not None:  # digs match
             # retrieve event by dig assumes if ldig is not None that event exists at ldig
             dgkey = dgKey(serder.preb, serder.saidb)
             lserder = self.db.evts.get(keys=(serder.preb, serder.saidb))  # retrieve receipted event at dig
             # assumes db ensures that lserder must not be none
-            if not lserder.compare(said=ked["d"]):  # stale receipt at sn discard
-                raise ValidationError("Stale receipt at sn = {} for rct = {}."
-                                      "".format(ked["s"], ked))
 
             # process each couple verify sig and write to db
             for cigar in cigars:
-- 
2.43.0


From 32f4c8b0efa75207c266b559bd1be51e2925b156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:49 +0000
Subject: [PATCH 016/104] fix: every transferable receipt group is stored or
 escrowed

---
 src/keri/core/eventing.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index e6f8e89..7f84499 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -4563,6 +4563,7 @@ class Kevery:
                     # write receipt indexed sig to database
                     self.db.wigs.add(keys=dgkey, val=wiger)
 
+            unverified = False  # True means at least one group escrowed
             for sprefixer, snumber, sdiger, sigers in tsgs:  # iterate over each tsg
                 if not self.lax and sprefixer.qb64 in self.prefixes:  # own is receipter
                     if pre in self.prefixes:  # skip own receipter of own event
@@ -4580,10 +4581,8 @@ class Kevery:
                     # receiptor's est event not yet in receiptors's KEL
                     # so need cue to discover est evt KEL for receipter from watcher etc
                     self.escrowTReceipts(serder, sprefixer, snumber, sdiger, sigers)
-                    raise UnverifiedTransferableReceiptError("Unverified receipt: "
-                                                             "missing establishment event of transferable "
-                                                             "receipter for event={}."
-                                                             "".format(ked))
+                    unverified = True
+                    continue  # other groups may be verifiable
                 sdig = sdig.encode("utf-8")
                 # retrieve last event itself of receiptor est evt from sdig.
                 sserder = self.db.evts.get(keys=(sprefixer.qb64b, bytes(sdig)))
@@ -4638,10 +4637,8 @@ class Kevery:
                     # receiptor's est event not yet in receiptors's KEL
                     # so need cue to discover est evt KEL for receipter from watcher etc
                     self.escrowTReceipts(serder, sprefixer, snumber, sdiger, sigers)
-                    raise UnverifiedTransferableReceiptError("Unverified receipt: "
-                                                             "missing establishment event of transferable "
-                                                             "receipter for event={}."
-                                                             "".format(ked))
+                    unverified = True
+                    continue  # other groups may be verifiable
                 sdig = sdig.encode("utf-8")
                 # retrieve last event itself of receiptor est evt from sdig.
                 sserder = self.db.evts.get(keys=(sprefixer.qb64b, bytes(sdig)))
@@ -4679,6 +4676,12 @@ class Kevery:
                         keys = (pre, ldig, sprefixer.qb64, snumber.onkey, sdiger.qb64)
                         self.db.vrcs.add(keys=keys, val=siger)  # add to ioset at keys
 
+            if unverified:
+                raise UnverifiedTransferableReceiptError("Unverified receipt: "
+                                                         "missing establishment event of transferable "
+                                                         "receipter for event={}."
+                                                         "".format(ked))
+
         else:  # no events to be receipted yet at that sn so escrow
             if cigars:
                 self.escrowUReceipt(serder, cigars, said=ked["d"])  # digest in receipt
@@ -4686,6 +4689,9 @@ class Kevery:
             if tsgs:
                 self.escrowTRGroups(serder, tsgs)
 
+            if rsgs:
+                self.escrowTRGroups(serder, rsgs)
+
             if wigers:
                 self.escrowUWReceipt(serder=serder, wigers=wigers, said=ked["d"])
 
-- 
2.43.0


From e1255fc0c1b55f6972a5823e66604c5dcc2f1253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:49 +0000
Subject: [PATCH 017/104] fix: receipt couple of a witness of the receipted
 event becomes its indexed signature

---
 src/keri/core/eventing.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 7f84499..c9f5ae6 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -4915,7 +4915,7 @@ class Kevery:
                     continue  # skip own receipt attachment on non-local event
 
             if cigar.verfer.verify(cigar.raw, serder.raw):
-                wits = self.fetchWitnessState(pre, sn)
+                wits = [wit.qb64 for wit in self.fetchWitnessState(pre, sn)]
                 rpre = cigar.verfer.qb64  # prefix of receiptor
                 if rpre in wits:  # its a witness receipt
                     index = wits.index(rpre)
@@ -6871,10 +6871,8 @@ class Kevery:
                         logger.trace("Kevery unescrow error: %s", msg)
                         raise UnverifiedReceiptError(msg)
 
-                    # get current wits from kever state assuming not stale
-                    # receipt. Need function here to compute wits for actual
-                    # state at pre, sn. XXXX
-                    wits = self.kevers[serder.pre].wits
+                    # wits in force at pre, sn which may not be the current ones
+                    wits = [wit.qb64 for wit in self.fetchWitnessState(pre, sn)]
                     rpre = cigar.verfer.qb64  # prefix of receiptor
                     if rpre in wits:  # its a witness receipt
                         # this only works for extra receipts that come in later
-- 
2.43.0


From 07394d6a28fa8602a54206abab2ae0320596fab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:05 +0000
Subject: [PATCH 018/104] fix: escrowed witness receipt is stored once its
 event is accepted

---
 src/keri/core/eventing.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index c9f5ae6..288bb63 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -6730,10 +6730,28 @@ class Kevery:
                                                      wiger=wiger)
 
                 if not found:  # no partial witness escrow of event found
-                    # so keep in escrow by raising UnverifiedWitnessReceiptError
-                    msg = f"UWE Missing witness receipted evt at pre={pre} {sn=}"
-                    logger.trace("Kevery unescrow error: %s", msg)
-                    raise UnverifiedWitnessReceiptError(msg)
+                    # so process as late receipt of accepted event
+                    dig = self.db.kels.getLast(keys=pre, on=sn)
+                    if dig is None:  # no receipted event
+                        # so keep in escrow by raising UnverifiedWitnessReceiptError
+                        msg = f"UWE Missing witness receipted evt at pre={pre} {sn=}"
+                        logger.trace("Kevery unescrow error: %s", msg)
+                        raise UnverifiedWitnessReceiptError(msg)
+
+                    wits = self.fetchWitnessState(pre, sn)
+                    if dig != rdig or wiger.index >= len(wits):
+                        msg = f"UWE Bad escrowed witness receipt at pre={pre} {sn=}"
+                        logger.trace("Kevery unescrow error: %s", msg)
+                        raise ValidationError(msg)
+
+                    serder = self.db.evts.get(keys=(pre, dig))
+                    wiger.verfer = Verfer(qb64=wits[wiger.index].qb64)
+                    if not wiger.verfer.verify(wiger.raw, serder.raw):
+                        msg = f"UWE Bad escrowed witness receipt wig at pre={pre} {sn=}"
+                        logger.trace("Kevery unescrow error: %s", msg)
+                        raise ValidationError(msg)
+
+                    self.db.wigs.add(keys=(pre, dig), val=wiger)
 
             except UnverifiedWitnessReceiptError as ex:
                 # still waiting on missing prior event to validate
-- 
2.43.0


From bf30be9006a741d4eceb11ac23fc25f3f6f34125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:59 +0000
Subject: [PATCH 019/104] fix: delegated rotation is refused for an identifier
 that is not delegated

---
 src/keri/core/eventing.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 288bb63..9200fd6 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -2483,6 +2483,11 @@ class Kever:
                                       "delegated pre = {} with evt = {}."
                                       "".format(serder.pre, ked))
 
+            if ilk == Ilks.drt and not self.delegated:
+                raise ValidationError("Attempted delegated rotation on non "
+                                      "delegated pre = {} with evt = {}."
+                                      "".format(serder.pre, ked))
+
             tholder, toader, wits, cuts, adds = self.rotate(serder)
 
             # Validates signers, delegation if any, and witnessing when applicable
-- 
2.43.0


From 4f36552585c72cd751f4e9efd1ed4273dce0656f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:59 +0000
Subject: [PATCH 020/104] fix: superseding delegated rotation is held to the
 next keys before the rotation it supersedes

---
 src/keri/core/eventing.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 9200fd6..3eb27fd 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -2874,12 +2874,21 @@ class Kever:
         # escrow if not fully signed vs prior next rotation threshold
         if serder.ilk in (Ilks.rot, Ilks.drt):  # rotation so check prior next threshold
             # prior next threshold in .ntholder and digers in .ndigers
-            ondices = self.exposeds(sigers)
-            if not self.ntholder.satisfy(indices=ondices):
+            ndigers, ntholder = self.ndigers, self.ntholder
+            if serder.sn <= self.lastEst.s:  # superseding latest establishment event
+                # next keys are those of the establishment event before it
+                for dig in self.db.kels.getBackIter(keys=pre, on=serder.sn - 1):
+                    pserder = self.db.evts.get(keys=(pre, dig))
+                    if pserder.estive:
+                        ndigers, ntholder = pserder.ndigers, pserder.ntholder
+                        break
+
+            ondices = self.exposeds(sigers, ndigers)
+            if not ntholder.satisfy(indices=ondices):
                 self.escrowPSEvent(serder=serder, sigers=sigers, wigers=wigers,
                                    delsner=delsner, delsger=delsger,local=local)
                 msg = (
-                    f"AID {pre[:4]}...{pre[-4:]}: Failure satisfying prior nsith = {self.ntholder.sith} "
+                    f"AID {pre[:4]}...{pre[-4:]}: Failure satisfying prior nsith = {ntholder.sith} "
                     f"with exposed sigs {[siger.qb64 for siger in sigers]} "
                     f"for new est evt={serder.said}")
                 logger.trace(msg)
@@ -2961,7 +2970,7 @@ class Kever:
 
 
 
-    def exposeds(self, sigers):
+    def exposeds(self, sigers, ndigers=None):
         """Returns list of ondices (indices) suitable for Tholder.satisfy
         from self.ndigers (prior next key digests ) as exposed by event sigers.
         Uses dual index feature of siger. Assumes that each siger.verfer is
@@ -2988,11 +2997,14 @@ class Kever:
         digests defined by the rotation event.
 
         Parameters:
-            sigers (list): of Siger instances  of indexed signature with .verfer"""
+            sigers (list): of Siger instances  of indexed signature with .verfer
+            ndigers (list|None): of Diger instances of prior next key digests.
+                None means use .ndigers"""
+        ndigers = ndigers if ndigers is not None else self.ndigers
         odxs = []
         for siger in sigers:
             try:
-                diger = self.ndigers[siger.ondex]
+                diger = ndigers[siger.ondex]
             except TypeError as ex:  # ondex may be None
                 continue
             except IndexError as ex:
@@ -3422,7 +3434,8 @@ class Kever:
 
         # set up recursive search for superseding delegations
         # get original potentially superseded delegation
-        serfo = self.serder  # original accepted delegated event i.e. serf original
+        # original accepted delegated event i.e. serf original
+        serfo = self.db.evts.get(keys=(serder.pre, self.lastEst.d))
         if not (bosso := self.fetchDelegatingEvent(delpre, serfo, original=True,
                                                    eager=eager)):
             self.escrowPDEvent(serder=serder, sigers=sigers, wigers=wigers,
-- 
2.43.0


From 0041b52ecab3aa73c23ee26bccded75b6df245b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:59 +0000
Subject: [PATCH 021/104] fix: delegated recovery rotation may supersede any
 interactions after the latest establishment event

---
 src/keri/core/eventing.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 3eb27fd..7ce1fef 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -3421,10 +3421,8 @@ class Kever:
         # via Kever.logEvent which also writes the delgating event source couple to
         # db.aess so we can find it later
         if ((serder.ilk == Ilks.dip) or  # superseding is delegated inception or
-            (serder.sner.num == self.sner.num + 1) or  # superseding is inorder later or
-            (serder.sner.num == self.sner.num and  # superseding event at same sn and
-                self.ilk == Ilks.ixn and  # superseded is interaction and
-                serder.ilk == Ilks.drt)):  # superseding is rotation
+            # in order later or superseding only interaction events
+            (serder.sner.num > self.lastEst.s)):
                     return (delsner, delsger) # indicates delegation valid
 
         # get to here means drt rotation superseding another drt rotation
-- 
2.43.0


From bfe888ec407532ef4a67de841fa0c7f4db4df26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:59 +0000
Subject: [PATCH 022/104] fix: superseding delegation rules compare event types
 and climb to the delegator of the delegator

---
 src/keri/core/eventing.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 7ce1fef..36fabfa 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -3451,8 +3451,9 @@ class Kever:
             # Only get to here if same sn for delegated event and both
             # existing and superseding delegated events are rotations
             if (bossn.sn > bosso.sn or  # superseding delgation is later or
-                (bossn.Ilk == Ilks.drt and  # superseding  delegation is rotation and
-                 bosso.Ilk == Ilks.ixn) ): # superseded delegation is interaction
+                (bossn.sn == bosso.sn and  # same sn and
+                 bossn.ilk in (Ilks.rot, Ilks.drt) and  # superseding delegation is rotation and
+                 bosso.ilk == Ilks.ixn) ): # superseded delegation is interaction
                     # valid superseding delegation up chain so tail link valid
                     return (delsner, delsger)  # tail event's delegation source
 
@@ -3483,6 +3484,11 @@ class Kever:
                     raise ValidationError(msg)
 
             # tie condition same sn and drt so need to climb delegation chain
+            if not (delpre := self.kevers[delpre].delpre):  # root so not superseded
+                msg = f"Invalid delegation recovery rotation of {serfo.pre} by {serfn.pre}"
+                logger.info(msg)
+                raise ValidationError(msg)
+
             serfn = bossn
             if not (bossn := self.fetchDelegatingEvent(delpre, serfn,
                                                        original=False,
-- 
2.43.0


From 5d5d249f3c1bfb22c2e142c04fc89ba59dc93357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:59 +0000
Subject: [PATCH 023/104] fix: delegation seal in a superseded event of the
 delegator does not count

---
 src/keri/core/eventing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 36fabfa..09ce468 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -3324,6 +3324,8 @@ class Kever:
                 seal = dict(i=serder.pre, s=serder.snh, d=serder.said)
                 dserder = self.db.fetchLastSealingEventByEventSeal(pre=delpre,
                                                                      seal=seal)
+                if dserder is not None and dserder.sn > dkever.sn:
+                    dserder = None  # in superseded branch of delegator's KEL
                 if dserder is not None:  # found seal in dserder
                     delsner = Number(num=dserder.sn)  # replace with found
                     delsger = Diger(qb64=dserder.said)  # replace with found
@@ -3344,7 +3346,7 @@ class Kever:
             #  event has not already been superceded
             # get dig of last delegating event purported at sn
             raw = self.db.kels.getLast(keys=delpre, on=ssn)  # last means not disputed or superseded
-            if raw is None:  # no delegatint event yet. no index at key pre, sn
+            if raw is None or ssn > dkever.sn:  # no delegating event in force yet at pre, sn
                 # Have to wait until delegating event at sn shows up in kel
                 # ToDo XXXX process  this cue of query to fetch delegating event from
                 # delegator
-- 
2.43.0


From c1e9306af923b118a3d7d738a7d5463b332a2162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:59 +0000
Subject: [PATCH 024/104] fix: witness dropped by a rotation to no witnesses is
 not taken for its witness

---
 src/keri/core/eventing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 09ce468..cf45326 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -2253,7 +2253,7 @@ class Kever:
         Parameters:
             wits (list[str]): qb64 identifier prefixes of witnesses
             serder ( SerderKERI | None): SerderKERI instace if any"""
-        if not wits:
+        if wits is None:
             if not serder:
                 wits = self.wits
             else:
-- 
2.43.0


From 5f6d36a18cf98644677bd211ee6d0887e10c0120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:59 +0000
Subject: [PATCH 025/104] fix: accepted delegated rotation that arrives again
 adds its signatures

---
 src/keri/core/eventing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index cf45326..940cf86 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -4406,7 +4406,7 @@ class Kevery:
                       (ilk == Ilks.rot and  # superseding recovery rot or
                         kever.lastEst.s < sn <= sno) or
                       (ilk == Ilks.drt and #exts['sigers'].extend(result) delegated superseding recovery drt
-                        kever.lastEst.s <= sn <= sno)):
+                        kever.lastEst.s <= sn <= sno and said != kever.lastEst.d)):
 
                     # verify signatures etc and update state if valid
                     # raise exception if problem.
-- 
2.43.0


From 50bc8a98388a8f809be8f154aae52d2d00bb4311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:25 +0000
Subject: [PATCH 026/104] fix: replies signed again under later keys keep only
 their latest signatures

---
 src/keri/core/routing.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/keri/core/routing.py b/src/keri/core/routing.py
index d2b9b27..673d74e 100644
--- a/src/keri/core/routing.py
+++ b/src/keri/core/routing.py
@@ -402,14 +402,14 @@ class Revery:
                 self.removeReply(saider=osaider)  # remove obsoleted reply artifacts
                 # remove stale signatures .tsgs for this saider
                 # this ensures that zeroth tsg is authoritative
-                for prr, snr, dgr, _ in fetchTsgs(
-                    db=self.db.tsgs, diger=saider, snh=snumber.snh
-                ):
-                    if (snr.sn < snumber.sn) or (
+                groups = fetchTsgs(db=self.db.tsgs, diger=saider)
+                _, lsnr, _, _ = groups[-1]  # latest since in numerical order
+                for prr, snr, dgr, _ in groups:
+                    if (snr.sn < lsnr.sn) or (
                         snr.sn == snumber.sn and dgr.qb64 != sdiger.qb64
                     ):
                         self.db.tsgs.trim(
-                            keys=(prr.qb64, f"{snr.sn:032h}", dgr.qb64, "")
+                            keys=(saider.qb64, prr.qb64, f"{snr.sn:032x}", dgr.qb64, "")
                         )
 
                 accepted = True
-- 
2.43.0


From f027f6b1bb0188a5946e79e4b16f2017acdebc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:25 +0000
Subject: [PATCH 027/104] fix: reply accepted again is not removed as its own
 predecessor

---
 src/keri/core/eventing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 940cf86..39b9529 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -5289,6 +5289,8 @@ class Kevery:
         aid = eid  # authorizing attribution id
         keys = (aid, scheme)
         osaider = self.db.lans.get(keys=keys)  # get old said if any
+        if osaider is not None and osaider.qb64b == diger.qb64b:
+            osaider = None  # same reply again
         # BADA Logic
         accepted = self.rvy.acceptReply(serder=serder, saider=diger, route=route,
                                       aid=aid, osaider=osaider, cigars=cigars,
@@ -5556,6 +5558,8 @@ class Kevery:
         keys = (cid, aid, oid)
 
         osaider = self.db.wwas.get(keys=keys)  # get old said if any
+        if osaider is not None and osaider.qb64b == diger.qb64b:
+            osaider = None  # same reply again
 
         # BADA Logic
         accepted = self.rvy.acceptReply(serder=serder, saider=diger, route=route,
-- 
2.43.0


From a47a4283f74e0daf1e6e7ffa10332c0d21347af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:25 +0000
Subject: [PATCH 028/104] fix: dropping an escrowed reply does not remove the
 accepted one

---
 src/keri/core/routing.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/keri/core/routing.py b/src/keri/core/routing.py
index 673d74e..7ca9b96 100644
--- a/src/keri/core/routing.py
+++ b/src/keri/core/routing.py
@@ -288,6 +288,7 @@ class Revery:
                 continue  # skip if cig not verify
 
             # All constraints satisfied so update
+            self.unescrowReply(saider=saider, route=route)
             self.updateReply(serder=serder, saider=saider, dater=dater, cigar=cigar)
             self.removeReply(saider=osaider)  # remove obsoleted reply artifacts
             accepted = True
@@ -390,6 +391,7 @@ class Revery:
 
             if valid:  # meet threshold so save
                 # All constraints satisfied so update
+                self.unescrowReply(saider=saider, route=route)
                 self.updateReply(
                     serder=serder,
                     saider=saider,
@@ -465,6 +467,17 @@ class Revery:
             quadkeys = (saider.qb64, prefixer.qb64, f"{seqner.sn:032x}", diger.qb64)
             self.db.tsgs.put(keys=quadkeys, vals=sigers)
 
+    def unescrowReply(self, *, saider, route):
+        """Remove reply from escrow with all its signatures, none of which were
+        accepted yet
+
+        Parameters:
+            saider (Diger): instance from said in serder (SAD)
+            route (str): escrow route of reply
+        """
+        if self.db.rpes.rem(keys=(route,), val=saider):
+            self.db.tsgs.trim(keys=(saider.qb64, ""))
+
     def removeReply(self, saider):
         """Remove Reply SAD artifacts given by saider.
 
@@ -495,6 +508,10 @@ class Revery:
         if not sigers:
             return  # nothing to escrow
         keys = (saider.qb64,)
+        if self.db.rpys.get(keys=keys) is not None and saider.qb64 not in [
+            diger.qb64 for diger in self.db.rpes.get(keys=(route,))
+        ]:
+            return  # already accepted so nothing to wait for
         self.db.sdts.put(keys=keys, val=dater)  # first one idempotent
         self.db.rpys.put(keys=keys, val=serder)  # first one idempotent
         quadkeys = (saider.qb64, prefixer.qb64, f"{snumber.sn:032x}", sdiger.qb64)
-- 
2.43.0


From 11b8f7a15e13d8d2044873879cc6c13f0304c2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:41 +0000
Subject: [PATCH 029/104] fix: reply with indexed signatures not later than one
 accepted with a nonindexed one is stale

---
 src/keri/core/routing.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/keri/core/routing.py b/src/keri/core/routing.py
index 7ca9b96..1022326 100644
--- a/src/keri/core/routing.py
+++ b/src/keri/core/routing.py
@@ -315,7 +315,17 @@ class Revery:
                 continue  # skip invalid signature is not from aid
 
             if osaider:  # check if later logic  sn > or sn == and dt >
-                if otsgs := fetchTsgs(db=self.db.tsgs, diger=osaider):
+                otsgs = fetchTsgs(db=self.db.tsgs, diger=osaider)
+                if not otsgs:  # accepted with nonindexed signature
+                    if odater and dater.datetime <= odater.datetime:
+                        logger.info(
+                            "Revery: skipped stale update from %s on reply said=%s",
+                            aid,
+                            serder.said,
+                        )
+                        logger.debug("event=\n%s\n", serder.pretty())
+                        continue  # skip if not later
+                else:
                     _, osqr, _, _ = otsgs[0]  # zeroth should be authoritative
 
                     if snumber.sn < osqr.sn:  # sn earlier
-- 
2.43.0


From 6104f02b875d44c47db1a498d64daa0f1a45eb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:23 +0000
Subject: [PATCH 030/104] fix: untrusted key state notice is refused with its
 own error

---
 src/keri/core/eventing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 39b9529..44a34ac 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -5396,7 +5396,7 @@ class Kevery:
                     aid not in baks and \
                     aid not in wats:
                 raise UntrustedKeyStateSource("key state notice for {} from untrusted source {} "
-                                                     .format(ksr.pre, aid))
+                                                     .format(ksr.i, aid))
 
         if ksr.i in self.kevers:
             kever = self.kevers[ksr.i]
-- 
2.43.0


From eb87bc509648481414731b85523d34f301cf6726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:01 +0000
Subject: [PATCH 031/104] fix: end role reply with an unknown action is refused

---
 src/keri/core/eventing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 44a34ac..f7f8ebc 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -5163,9 +5163,9 @@ class Kevery:
           }
         }"""
         # reply specific logic
-        if route.startswith("/end/role/add"):
+        if route == "/end/role/add":
             allowed = True
-        elif route.startswith("/end/role/cut"):
+        elif route == "/end/role/cut":
             allowed = False
         else:  # unsupported route
             raise ValidationError(f"Usupported route={route} in {Ilks.rpy} "
-- 
2.43.0


From 570e14b3f8817f63fdc43f783f331f1270128ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:54 +0000
Subject: [PATCH 032/104] fix: backward iteration ends when no entry sorts
 before the key

---
 src/keri/db/dbing.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 760c527..b2c6d57 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -2089,7 +2089,8 @@ class LMDBer(filing.Filer):
                 conkey, cion = unsuffix(ciokey, sep=sep)
                 ckey, con = splitOnKey(conkey, sep=sep)
                 if not ckey == key or not con <= on:  # cursor at next onkey
-                    cursor.prev()
+                    if not cursor.prev():  # no earlier entry
+                        return
                     ciokey = cursor.key()
                     conkey, cion = unsuffix(ciokey, sep=sep)
                     ckey, con = splitOnKey(conkey, sep=sep)
@@ -2146,13 +2147,15 @@ class LMDBer(filing.Filer):
                     iokey = suffix(onkey, ion=MaxON, sep=sep)  # set to max ion
 
                 if not cursor.set_range(iokey):  # key is last key so maxon to big
-                    cursor.last()  # so find greatest on
+                    if not cursor.last():  # so find greatest on
+                        return  # empty database
 
                 ciokey, cval= cursor.item()
                 conkey, cion = unsuffix(ciokey, sep=sep)
                 ckey, con = splitOnKey(conkey, sep=sep)
                 if not ckey == key or not con <= on:  # cursor at next onkey
-                    cursor.prev()
+                    if not cursor.prev():  # no earlier entry
+                        return
                     ciokey, cval= cursor.item()
                     conkey, cion = unsuffix(ciokey, sep=sep)
                     ckey, con = splitOnKey(conkey, sep=sep)
-- 
2.43.0


From 654d6002c238b894d3c07072c8e27bf343c54821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:54 +0000
Subject: [PATCH 033/104] fix: last item lookups honor the separator

---
 src/keri/db/dbing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index b2c6d57..2a2d589 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -1269,7 +1269,7 @@ class LMDBer(filing.Filer):
             last = ()
             if not key:
                 return last
-            iokey = suffix(key, 0) # walk hidden branches starting from zero
+            iokey = suffix(key, 0, sep=sep) # walk hidden branches starting from zero
             cursor = txn.cursor()  # create cursor to walk back
             if cursor.set_range(iokey):  # not past end of database
                 for ciokey, cval in cursor.iternext():  # get iokey, val at cursor
@@ -1454,7 +1454,7 @@ class LMDBer(filing.Filer):
                 key, ion= unsuffix(iokey, sep=sep)
             else:
                 ion = 0
-                iokey = suffix(key, ion) # walk hidden branches starting from zero
+                iokey = suffix(key, ion, sep=sep) # walk hidden branches starting from zero
             last = None
             if cursor.set_range(iokey):  # not past end of database
                 for ciokey, cval in cursor.iternext():  # get iokey, val at cursor
@@ -2016,8 +2016,8 @@ class LMDBer(filing.Filer):
                     return  # raises StopIterationError
                 iokey = cursor.key()
             else:
-                onkey = onKey(key, on)
-                iokey = suffix(onkey, 0) # walk hidden branches starting from zero
+                onkey = onKey(key, on, sep=sep)
+                iokey = suffix(onkey, 0, sep=sep) # walk hidden branches starting from zero
 
             last = None
 
-- 
2.43.0


From 3f6c75051dbcae890a401080291b6344ae9d071d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:54 +0000
Subject: [PATCH 034/104] fix: iteration over last duplicates ends at the
 greatest ordinal and honors the separator

---
 src/keri/db/dbing.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 2a2d589..65b5a70 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -3058,8 +3058,7 @@ class LMDBer(filing.Filer):
                     break
 
                 yield (ckey, on, cval[33:])  # slice off prepended ordering proem
-                onkey = onKey(ckey, on+1)
-                if not cursor.set_range(onkey):  # # moves to first_dup at key>=onkey
+                if not cursor.next_nodup():  # moves to first_dup at next onkey
                     return  # no values end of db raises StopIteration
 
 
-- 
2.43.0


From 0709ef5bcd111f8758932f03120cda8d2634b4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:54 +0000
Subject: [PATCH 035/104] fix: values put at an ordinal are compared with those
 at that ordinal, each stored once

---
 src/keri/db/dbing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 65b5a70..30d37f8 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -2785,7 +2785,9 @@ class LMDBer(filing.Filer):
             sep (bytes): separator character for split"""
 
         result = False
-        dups = set(self.getOnIoDupVals(db, key))  #get preexisting dups if any
+        if not key or not vals:
+            return result
+        dups = set(self.getOnIoDupVals(db, key, on, sep=sep))  #get preexisting dups if any
         with self.env.begin(db=db, write=True, buffers=True) as txn:
             idx = 0
             cursor = txn.cursor()
@@ -2800,6 +2802,7 @@ class LMDBer(filing.Filer):
 
             for val in vals:
                 if val not in dups:
+                    dups.add(val)
                     val = (b'%032x.' % (idx)) +  val  # prepend ordering proem
                     txn.put(onkey, val, dupdata=True)
                     idx += 1
-- 
2.43.0


From 265200e8bb8d709ac2ed1f75c87039fe459c7dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:54 +0000
Subject: [PATCH 036/104] fix: a value repeated in one put or append is stored
 once

---
 src/keri/db/dbing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 30d37f8..b142bc0 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -1641,7 +1641,7 @@ class LMDBer(filing.Filer):
                     # else no earlier key so create zeroth entry at key
 
             onkey = onKey(key, on, sep=sep)  # create onkey at on
-            for ion, val in enumerate(vals):
+            for ion, val in enumerate(oset(vals)):
                 iokey = suffix(onkey, ion=ion, sep=sep) # create suffix key
                 if not cursor.put(iokey, val, overwrite=False):
                     raise  ValueError(f"Failed appending {val=} at {key=} {on=} "
@@ -2425,6 +2425,7 @@ class LMDBer(filing.Filer):
 
             for val in vals:
                 if val not in dups:
+                    dups.add(val)
                     val = (b'%032x.' % (idx)) +  val  # prepend ordering proem
                     txn.put(key, val, dupdata=True)
                     idx += 1
-- 
2.43.0


From f56deb51aa5b1669139e0d7c17f5852a15257e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:54 +0000
Subject: [PATCH 037/104] fix: backward iteration over duplicates starts at the
 given ordinal

---
 src/keri/db/dbing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index b142bc0..47b8ddd 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -3215,7 +3215,7 @@ class LMDBer(filing.Filer):
                 onkey = onKey(key, on, sep=sep)  # start replay at this enty 0 is earliest
                 if cursor.set_range(onkey):  #  found key >= onkey
                     ckey, cn = splitOnKey(cursor.key(), sep=sep)
-                    if ckey == key: # onkey in db
+                    if ckey == key and cn == on: # onkey in db
                         cursor.last_dup()  # start at its last dup
                     else:  # get closest key < onkey
                         if not cursor.prev():  # last dup of previous key
-- 
2.43.0


From 6007b90c92a6f791bca4868ebdb13e14d3e080c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:54 +0000
Subject: [PATCH 038/104] fix: set of values is replaced in one transaction

---
 src/keri/db/dbing.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 47b8ddd..132400f 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -1163,10 +1163,17 @@ class LMDBer(filing.Filer):
         if not key or not vals:  # empty key or empty vals or vals None
             return result  # do not delete
 
-        self.remIoSet(db=db, key=key, sep=sep)
         with self.env.begin(db=db, write=True, buffers=True) as txn:
             vals = oset(vals)  # make set
 
+            cursor = txn.cursor()
+            if cursor.set_range(suffix(key, 0, sep=sep)):  # remove old set if any
+                while ciokey := cursor.key():
+                    ckey, cion = unsuffix(ciokey, sep=sep)
+                    if ckey != key:
+                        break
+                    cursor.delete()  # moves cursor to next
+
             for i, val in enumerate(vals):
                 iokey = suffix(key, i, sep=sep)  # ion is at add on amount
                 result = txn.put(iokey, val, dupdata=False, overwrite=True) or result
-- 
2.43.0


From 977714ae0f35a3cd0ab11addc24237c1b1934801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:54 +0000
Subject: [PATCH 039/104] fix: empty value at an ordinal is found

---
 src/keri/db/dbing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 132400f..899f978 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -873,7 +873,7 @@ class LMDBer(filing.Filer):
         with self.env.begin(db=db, write=False, buffers=True) as txn:
             onkey = onKey(key, on, sep=sep)  # start replay at this enty 0 is earliest
             try:
-                if val := txn.get(onkey):
+                if (val := txn.get(onkey)) is not None:
                     return (key, on, val)
                 else:
                     return None
-- 
2.43.0


From 15c005db81f7d6d9da6b617bcbe4d2093db3155f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:54 +0000
Subject: [PATCH 040/104] fix: value is not added under an empty key

---
 src/keri/db/dbing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 899f978..4e9abea 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -1685,6 +1685,8 @@ class LMDBer(filing.Filer):
         transparently suffixed and unsuffixed
         Assumes DB opened with dupsort=False"""
         # val of None will return False
+        if not key:
+            return False
         return self.addIoSetVal(db=db, key=onKey(key, on, sep=sep), val=val, sep=sep)
 
 
@@ -2842,6 +2844,8 @@ class LMDBer(filing.Filer):
             on (int): ordinal number at which to add
             val (bytes): serialized value to add at onkey as dup
             sep (bytes): separator character for split"""
+        if not key:
+            return False
         onkey = onKey(key, on, sep=sep)
         return (self.addIoDupVal(db, key=onkey, val=val))
 
-- 
2.43.0


From 2fc7b8d2d3c275dcaada502cac0ceaf4bbe0ae89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:19 +0000
Subject: [PATCH 041/104] fix: web store appends and removals of sets are
 marked for saving

---
 src/keri/db/webdbing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keri/db/webdbing.py b/src/keri/db/webdbing.py
index d9f55ba..1c5fc51 100644
--- a/src/keri/db/webdbing.py
+++ b/src/keri/db/webdbing.py
@@ -1592,6 +1592,7 @@ class WebDBer:
                 )
             items[iokey] = val
 
+        db.dirty = True
         return on
 
 
@@ -1780,6 +1781,7 @@ class WebDBer:
         result = False
         for iokey in toDelete:
             del items[iokey]
+            db.dirty = True
             result = True
 
         return result
-- 
2.43.0


From f3ccc11c4d3df5fdc63c5f5ec7763baa17ca7550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:57 +0000
Subject: [PATCH 042/104] fix: web store does not add to a set under an empty
 key

---
 src/keri/db/webdbing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keri/db/webdbing.py b/src/keri/db/webdbing.py
index 1c5fc51..d611565 100644
--- a/src/keri/db/webdbing.py
+++ b/src/keri/db/webdbing.py
@@ -1622,6 +1622,8 @@ class WebDBer:
         Assumes DB opened with dupsort=False
         """
         # val of None will return False
+        if not key:
+            return False
         return self.addIoSetVal(db=db, key=onKey(key, on, sep=sep), val=val, sep=sep)
 
 
-- 
2.43.0


From d99ad86b2aca31342c8f59560429edf194a166d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:57 +0000
Subject: [PATCH 043/104] fix: web store keeps a value repeated in an appended
 set once

---
 src/keri/db/webdbing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/db/webdbing.py b/src/keri/db/webdbing.py
index d611565..51174d8 100644
--- a/src/keri/db/webdbing.py
+++ b/src/keri/db/webdbing.py
@@ -1584,7 +1584,7 @@ class WebDBer:
 
         onkey = onKey(key, on, sep=sep)
 
-        for ion, val in enumerate(vals):
+        for ion, val in enumerate(oset(vals)):
             iokey = suffix(onkey, ion=ion, sep=sep)
             if iokey in items:
                 raise ValueError(
-- 
2.43.0


From 011740f0081dbafd0adc330aa3a24879efefd158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:57 +0000
Subject: [PATCH 044/104] fix: set is not appended past the greatest ordinal

---
 src/keri/db/dbing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 4e9abea..91285db 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -1647,6 +1647,9 @@ class LMDBer(filing.Filer):
                         # else earlier key so create zeroth entry at key
                     # else no earlier key so create zeroth entry at key
 
+            if on > MaxON:
+                raise ValueError(f"Failed append entry to {key=}, would "
+                                 f"exceed max on at {MaxON=}")
             onkey = onKey(key, on, sep=sep)  # create onkey at on
             for ion, val in enumerate(oset(vals)):
                 iokey = suffix(onkey, ion=ion, sep=sep) # create suffix key
-- 
2.43.0


From 931ac6ebdbd5323afa8e520e733e58c41ae76aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:24 +0000
Subject: [PATCH 045/104] fix: credential is revoked only by the registry that
 issued it

---
 src/keri/vdr/eventing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index b3531b2..86e361f 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1102,6 +1102,9 @@ class Tever:
             raise ValidationError("revoke without issue... probably have to escrow")
 
         iserder = SerderKERI(raw=ievt.encode("utf-8"))
+        if Tevery.registryKey(iserder) != self.prefixer.qb64:  # other registry's
+            raise ValidationError(f"Mismatch registry of prior event expecting"
+                                  f" = {self.prefixer.qb64} for evt = {ked}.")
         if not iserder.compare(said=ked["p"]):  # prior event dig not match
             raise ValidationError("Mismatch event dig = {} with state dig"
                                   " = {} for evt = {}.".format(ked["p"],
-- 
2.43.0


From 78cd3de1b562552562e9c9fec95588912adb985a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:24 +0000
Subject: [PATCH 046/104] fix: credential state in a registry counts only its
 own events

---
 src/keri/vdr/eventing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 86e361f..c9f7e8a 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1167,6 +1167,8 @@ class Tever:
         dgkey = dgKey(vci, vcdig)  # get message
         raw = self.reger.tvts.get(keys=dgkey)
         serder = SerderKERI(raw=raw.encode("utf-8"))
+        if Tevery.registryKey(serder) != self.prefixer.qb64:
+            return None  # issued from other registry
 
         if self.noBackers:
             vcilk = Ilks.iss if len(digs) == 1 else Ilks.rev
-- 
2.43.0


From 9ee2e6d66108eebb335582723dfb9895f2b0674a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:56 +0000
Subject: [PATCH 047/104] fix: escrowed registry event is dropped without those
 beside it

---
 src/keri/vdr/eventing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index c9f7e8a..fe5b22b 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -2036,7 +2036,7 @@ class Tevery:
 
             except Exception as ex:  # log diagnostics errors etc
                 # error other than out of order so remove from OO escrow
-                self.reger.oots.rem(keys=pre, on=sn)  # removes one escrow at key val
+                self.reger.oots.rem(keys=pre, on=sn, val=digb)  # removes one escrow at key val
                 if logger.isEnabledFor(logging.DEBUG):
                     logger.exception("Tevery OOO unescrowed: %s", ex.args[0])
                 else:
@@ -2046,7 +2046,7 @@ class Tevery:
                 # We don't remove all escrows at pre,sn because some might be
                 # duplicitous so we process remaining escrows in spite of found
                 # valid event escrow.
-                self.reger.oots.rem(keys=pre, on=sn)  # removes from escrow
+                self.reger.oots.rem(keys=pre, on=sn, val=digb)  # removes from escrow
                 logger.info("Tevery OOO unescrow succeeded in valid event: said=%s", tserder.said)
                 logger.debug("Event=\n%s\n", tserder.pretty())
 
@@ -2094,7 +2094,7 @@ class Tevery:
 
             except Exception as ex:  # log diagnostics errors etc
                 # error other than out of order so remove from OO escrow
-                self.reger.taes.rem(keys=pre, on=sn)  # removes one escrow at key val
+                self.reger.taes.rem(keys=pre, on=sn, val=digb)  # removes one escrow at key val
                 if logger.isEnabledFor(logging.DEBUG):
                     logger.exception("Tevery ANC unescrowed: %s", ex.args[0])
                 else:
@@ -2104,7 +2104,7 @@ class Tevery:
                 # We don't remove all escrows at pre,sn because some might be
                 # duplicitous so we process remaining escrows in spite of found
                 # valid event escrow.
-                self.reger.taes.rem(keys=pre, on=sn)  # removes from escrow
+                self.reger.taes.rem(keys=pre, on=sn, val=digb)  # removes from escrow
                 logger.info("Tevery ANC unescrow succeeded in valid event: said=%s", tserder.said)
                 logger.debug("event=\n%s\n", tserder.pretty())
 
-- 
2.43.0


From 19d5c19d76f2b9eeb2d8e2bafecba0319df1444d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:56 +0000
Subject: [PATCH 048/104] fix: registry state survives a restart after a
 rotation

---
 src/keri/vdr/eventing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index fe5b22b..65cdc59 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -769,6 +769,8 @@ class Tever:
         cnfg = []
         if self.noBackers:
             cnfg.append(TraitDex.NoBackers)
+        if self.estOnly:
+            cnfg.append(TraitDex.EstOnly)
 
         dgkey = dgKey(self.regk, self.serder.said)
         couple = self.reger.ancs.get(keys=dgkey)
@@ -907,6 +909,7 @@ class Tever:
                           saider=saider,
                           bigers=bigers,
                           baks=self.baks)
+            self.reger.states.pin(keys=self.regk, val=self.state())
 
             return
 
-- 
2.43.0


From c0cbc0d9d16b9d5bfee8a4c7f4825bf927a61f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:56 +0000
Subject: [PATCH 049/104] fix: accepted registry event is stored with the
 anchor it was accepted with

---
 src/keri/vdr/eventing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 65cdc59..0c44644 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1233,7 +1233,7 @@ class Tever:
         key = dgKey(pre, dig)
         number = Number(num=seqner.sn)
         diger = Diger(qb64=saider.qb64)
-        self.reger.ancs.put(keys=key, val=(number, diger))
+        self.reger.ancs.pin(keys=key, val=(number, diger))
         if bigers:
             self.reger.tibs.pin(keys=key, vals=bigers)
         if baks:
-- 
2.43.0


From d61df4150f4828c130351501302647ad82c31194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:56 +0000
Subject: [PATCH 050/104] fix: anchor that is no event seal does not anchor a
 registry event

---
 src/keri/vdr/eventing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 0c44644..7f0dfa9 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1340,9 +1340,9 @@ class Tever:
             return False
 
         seal = seal[0]
-        spre = seal["i"]
-        ssn = seal["s"]
-        sdig = seal["d"]
+        spre = seal.get("i")
+        ssn = seal.get("s")
+        sdig = seal.get("d")
 
         if spre == serder.ked["i"] and ssn == serder.ked["s"] \
                 and serder.said == sdig:
-- 
2.43.0


From 620161e00f1f66862945e201fcab05ad41627def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:56 +0000
Subject: [PATCH 051/104] fix: out of order backer event keeps its signatures

---
 src/keri/vdr/eventing.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 7f0dfa9..01d5bf3 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1538,7 +1538,7 @@ class Tevery:
                     pass
             else:
                 # out of order, need to escrow
-                self.escrowOOEvent(serder=serder, seqner=seqner, saider=saider)
+                self.escrowOOEvent(serder=serder, seqner=seqner, saider=saider, bigers=wigers)
                 msg = f"Escrowed out of order event of type = {ilk} pre = {pre} SAID = {serder.said}"
                 logger.debug(msg)
                 logger.debug("TEL Event Body=\n%s\n", serder.pretty())
@@ -1566,7 +1566,7 @@ class Tevery:
 
             if sn > sno:  # sn later than sno so out of order escrow
                 # escrow out-of-order event
-                self.escrowOOEvent(serder=serder, seqner=seqner, saider=saider)
+                self.escrowOOEvent(serder=serder, seqner=seqner, saider=saider, bigers=wigers)
                 raise OutOfOrderError("Out-of-order event={}.".format(ked))
             elif sn == sno:  # new inorder event
                 tever.update(serder=serder, seqner=seqner, saider=saider, bigers=wigers)
@@ -1950,7 +1950,7 @@ class Tevery:
         else:
             raise ValidationError("invalid ilk {} for tevery event = {}".format(ilk, serder.ked))
 
-    def escrowOOEvent(self, serder, seqner, saider):
+    def escrowOOEvent(self, serder, seqner, saider, bigers=None):
         """ Escrow out-of-order TEL events.
 
         Saves the serialized event, anchor and event digest in escrow for any
@@ -1963,8 +1963,11 @@ class Tevery:
         Parameters:
             serder (Serder): serder of event message
             seqner (Seqner): sequence number of anchoring TEL event
-                saider (Diger) digest of anchoring TEL event"""
+                saider (Diger) digest of anchoring TEL event
+            bigers (list): Siger instances of indexed backer signatures"""
         key = dgKey(serder.preb, serder.saidb)
+        if bigers:
+            self.reger.tibs.pin(keys=key, vals=bigers)
         self.reger.tvts.put(keys=key, val=serder.raw)
         number = Number(num=seqner.sn)
         diger = Diger(qb64=saider.qb64)
-- 
2.43.0


From d72baa8e18f06d957d6b3ae6bf6f8cf668b91945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:56 +0000
Subject: [PATCH 052/104] fix: backers of a registry event count only once it
 is accepted

---
 src/keri/vdr/eventing.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 01d5bf3..5579011 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1415,11 +1415,17 @@ class Tever:
                                                                self.prefixer.qb64,
                                                                ked))
 
+        # registry event not accepted (yet) so its backers do not count
+        if regd not in [dig for _, _, dig in self.reger.tels.getAllItemIter(keys=regi)]:
+            raise OutOfOrderError("Registry event = {} not accepted for evt = "
+                                  "{}.".format(regd, ked))
+
         # load backer list and toad (via event) for specific event in registry from seal in event
         dgkey = dgKey(regi, regd)
         revt = self.reger.tvts.get(keys=dgkey)
         if revt is None:
-            raise ValidationError("have to escrow this somewhere")
+            raise OutOfOrderError("Missing registry event = {} for evt = "
+                                  "{}.".format(regd, ked))
 
         rserder = SerderKERI(raw=revt.encode("utf-8"))
         # the backer threshold at this event in mgmt TEL
@@ -1569,7 +1575,11 @@ class Tevery:
                 self.escrowOOEvent(serder=serder, seqner=seqner, saider=saider, bigers=wigers)
                 raise OutOfOrderError("Out-of-order event={}.".format(ked))
             elif sn == sno:  # new inorder event
-                tever.update(serder=serder, seqner=seqner, saider=saider, bigers=wigers)
+                try:
+                    tever.update(serder=serder, seqner=seqner, saider=saider, bigers=wigers)
+                except OutOfOrderError:  # registry event it relies on not accepted yet
+                    self.escrowOOEvent(serder=serder, seqner=seqner, saider=saider, bigers=wigers)
+                    raise
 
                 if regk not in self.registries:
                     # witness style backers will need to send receipts so lets queue them up for now
-- 
2.43.0


From 9c50cde12aef55f2553fb6d63743bc433e1c2aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:51 +0000
Subject: [PATCH 053/104] fix: credential counts only when its issuer owns the
 registry it is issued in

---
 src/keri/vdr/verifying.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keri/vdr/verifying.py b/src/keri/vdr/verifying.py
index 7d1c7be..8d0d08d 100644
--- a/src/keri/vdr/verifying.py
+++ b/src/keri/vdr/verifying.py
@@ -127,6 +127,10 @@ class Verifier:
                 self.cues.append(dict(kin="telquery", q=dict(ri=regk, i=vcid, issr=creder.israid)))
             raise MissingRegistryError("registry identifier {} not in Tevers".format(regk))
 
+        if self.tevers[regk].pre != creder.israid:  # another's registry
+            raise ValidationError(f"Mismatch issuer {creder.israid} of credential {vcid}"
+                                  f" and owner {self.tevers[regk].pre} of registry {regk}")
+
         state = self.tevers[regk].vcState(vcid)
         if state is None:  # credential issuance event not found yet
             if self.escrowMRE(creder, prefixer, seqner, saider):
-- 
2.43.0


From 427fb7ee272761c9f855946b61418d6cff03852b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:51 +0000
Subject: [PATCH 054/104] fix: salt and weight of an edge group are no edges

---
 src/keri/vdr/verifying.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/vdr/verifying.py b/src/keri/vdr/verifying.py
index 8d0d08d..6ede26d 100644
--- a/src/keri/vdr/verifying.py
+++ b/src/keri/vdr/verifying.py
@@ -174,7 +174,7 @@ class Verifier:
 
         for edge in edges:
             for label, node in edge.items():
-                if label in ('d', 'o'):  # SAID or Operator of this edge block
+                if label in ('d', 'u', 'o', 'w'):  # SAID, UUID, Operator or Weight of this edge block
                     continue
                 nodeSaid = node["n"]
                 op = node['o'] if 'o' in node else None
-- 
2.43.0


From 599fea566e547d86c739f1c824b3326313ddb606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:00 +0000
Subject: [PATCH 055/104] fix: KRAM does not accept again a message its
 signatures have accumulated for

---
 src/keri/core/kraming.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/keri/core/kraming.py b/src/keri/core/kraming.py
index d25f4f7..d226a63 100644
--- a/src/keri/core/kraming.py
+++ b/src/keri/core/kraming.py
@@ -1108,6 +1108,13 @@ class Kramer:
                     existingSigs = []
 
                 existingSigIndices = {sig.index for sig in existingSigs}
+
+                # Threshold already satisfied by earlier deliveries, message
+                # was accepted then, so drop replay
+                if (existingSigs and
+                        kever.tholder.satisfy(indices=list(existingSigIndices))):
+                    return None
+
                 newSigs = [sig for sig in sigResult.sigers
                            if sig.index not in existingSigIndices]
 
@@ -1341,6 +1348,13 @@ class Kramer:
                     existingSigs = []
 
                 existingSigIndices = {sig.index for sig in existingSigs}
+
+                # Threshold already satisfied by earlier deliveries, message
+                # was accepted then, so drop replay
+                if (existingSigs and
+                        kever.tholder.satisfy(indices=list(existingSigIndices))):
+                    return None
+
                 newSigs = [sig for sig in sigResult.sigers
                            if sig.index not in existingSigIndices]
 
-- 
2.43.0


From b442bb0f1dc512f5cbd5f4a528b6e275cf34b5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:00 +0000
Subject: [PATCH 056/104] fix: KRAM remembers an exchange message while it is
 still acceptable

---
 src/keri/core/kraming.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/kraming.py b/src/keri/core/kraming.py
index d226a63..e3f5c44 100644
--- a/src/keri/core/kraming.py
+++ b/src/keri/core/kraming.py
@@ -2155,11 +2155,16 @@ class Kramer:
             # Get the exchange time from the cache
             xdt_ms = int(helping.fromIso8601(cache.xdt).timestamp() * 1000)
 
+            # Convert message time from cache to milliseconds Int for comparison
+            mdt_ms = int(helping.fromIso8601(cache.mdt).timestamp() * 1000)
+
             # Get the prune lag values from the cache record
             pxl = cache.pxl
 
-            # Apply the comparison
-            if not xdt_ms <= rdt_ms <= xdt_ms + pxl:
+            # Prune when exchange is over and the message itself is too old to
+            # be taken again
+            if (rdt_ms > xdt_ms + pxl and
+                    rdt_ms - cache.d - cache.pml > mdt_ms):
                 self.db.kramTMSC.rem(keys=(aid, xid, mid))
                 self.db.kramPMKM.rem(keys=(aid, mid))
                 self.db.kramPMKS.rem(keys=(aid, mid))
-- 
2.43.0


From e8c80860bce7e530102ccc860055af71857b4629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:00 +0000
Subject: [PATCH 057/104] fix: KRAM remembers sealed message of multi-key
 sender for the long lag

---
 src/keri/core/kraming.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/kraming.py b/src/keri/core/kraming.py
index e3f5c44..5c3039f 100644
--- a/src/keri/core/kraming.py
+++ b/src/keri/core/kraming.py
@@ -1175,7 +1175,10 @@ class Kramer:
                     pml = cacheTypeRecord.pll
                 else:
                     ml = cacheTypeRecord.sl   # short lag for seal/single-key
-                    pml = cacheTypeRecord.psl
+                    # message of multi-key sender is acceptable for the long
+                    # lag however it came first
+                    pml = (cacheTypeRecord.pll if len(kever.verfers) > 1
+                           else cacheTypeRecord.psl)
 
                 # Timeliness check (millisecond units)
                 rdt = helping.fromIso8601(
@@ -1413,7 +1416,10 @@ class Kramer:
                     pml = cacheTypeRecord.pll
                 else:
                     ml = cacheTypeRecord.sl   # short lag for seal/single-key
-                    pml = cacheTypeRecord.psl
+                    # message of multi-key sender is acceptable for the long
+                    # lag however it came first
+                    pml = (cacheTypeRecord.pll if len(kever.verfers) > 1
+                           else cacheTypeRecord.psl)
 
                 if authType == AuthTypes.AttachedSealReference or authType == AuthTypes.AttachedSignatureSingleKey:
                     match msgType:
-- 
2.43.0


From 427ef3ac1728846e72ae8179b897d2821b1d1593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:00 +0000
Subject: [PATCH 058/104] fix: KRAM takes signatures endorsed with the sender's
 last establishment event

---
 src/keri/core/kraming.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/keri/core/kraming.py b/src/keri/core/kraming.py
index 5c3039f..03db0d7 100644
--- a/src/keri/core/kraming.py
+++ b/src/keri/core/kraming.py
@@ -455,8 +455,8 @@ class Kramer:
                 exist (``kramit`` ensures this before calling).
         """
         tsgs = kwa.get('tsgs', [])
-        cur_sn = kever.sner.num
-        cur_said = kever.serder.said
+        cur_sn = kever.lastEst.s
+        cur_said = kever.lastEst.d
         for prefixer, number, sdiger, sigers in tsgs:
             if prefixer.qb64 != senderId:
                 continue
@@ -552,8 +552,8 @@ class Kramer:
         if not tsgs:
             return stale_tsgs
 
-        cur_sn = kever.sner.num
-        cur_said = kever.serder.said
+        cur_sn = kever.lastEst.s
+        cur_said = kever.lastEst.d
         new_tsgs = []
         for quad in tsgs:
             prefixer, number, sdiger, sigers = quad
@@ -608,8 +608,8 @@ class Kramer:
             if not kwa['lsgs']:
                 kwa.pop('lsgs', None)
 
-        curSn = kever.sner.num
-        curSaid = kever.serder.said
+        curSn = kever.lastEst.s
+        curSaid = kever.lastEst.d
         if kwa.get('tsgs'):
             newTsgs = []
             for quad in kwa['tsgs']:
@@ -694,8 +694,8 @@ class Kramer:
         for prefixer, number, sdiger, sigers in kwa.get('tsgs', []):
             if prefixer.qb64 != senderId:
                 continue
-            if (number.sn != kever.sner.num or
-                    sdiger.qb64 != kever.serder.said):
+            if (number.sn != kever.lastEst.s or
+                    sdiger.qb64 != kever.lastEst.d):
                 continue
             for siger in sigers:
                 pool.add(siger.qb64)
-- 
2.43.0


From 96261ce7452b2e6fd8ff49a4e77d35ac946891c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:20 +0000
Subject: [PATCH 059/104] fix: parser waits for the rest of a message that
 follows a generic group

---
 src/keri/core/parsing.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index a38acd2..5ec0204 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -795,7 +795,7 @@ class Parser:
         try:
             while True:  # process stream until done
                 while not ims and stack:  # happens when ascending (un-nesting)
-                    svrsn, ims = stack.pop()  # un-nest
+                    svrsn, framed, ims = stack.pop()  # un-nest
                     self.version = svrsn  # only changes if svrsn is not None
 
                 if not ims:  # no stream
@@ -835,7 +835,8 @@ class Parser:
                         else:
                             svrsn == None  # no change to substream version
 
-                        stack.append((self.version, ims))  # push current version ims
+                        # push current version framed ims
+                        stack.append((self.version, framed, ims))
                         self.version = svrsn  # replace with new version if not None
                         ims = eims  # replace ims to nest down one level
                         # top-level nested generics enclose messages plus attachments
@@ -905,7 +906,7 @@ class Parser:
 
         finally:  # restore version at top level
             while stack:  # when tail end of group has validation error
-                svrsn, _ = stack.pop()
+                svrsn, _, _ = stack.pop()
                 if svrsn:
                     self.version = svrsn
         return result if processive else results
-- 
2.43.0


From c05df6fc335b74abe79cdce88a07d84dbddf253c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:20 +0000
Subject: [PATCH 060/104] fix: generic group without version of its own keeps
 the current version

---
 src/keri/core/parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index 5ec0204..963ad0b 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -833,7 +833,7 @@ class Parser:
                             # get new substream version
                             svrsn = Counter.b64ToVer(ctr.countToB64(l=3))
                         else:
-                            svrsn == None  # no change to substream version
+                            svrsn = None  # no change to substream version
 
                         # push current version framed ims
                         stack.append((self.version, framed, ims))
-- 
2.43.0


From 5cc4c471e4518802f827a87f9ea5260a414957db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:20 +0000
Subject: [PATCH 061/104] fix: error inside a sized group does not flush the
 rest of the stream

---
 src/keri/core/parsing.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index 963ad0b..78ea0b7 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -797,6 +797,8 @@ class Parser:
                 while not ims and stack:  # happens when ascending (un-nesting)
                     svrsn, framed, ims = stack.pop()  # un-nest
                     self.version = svrsn  # only changes if svrsn is not None
+                    if not stack:  # no more inside any generic group
+                        eggs = None
 
                 if not ims:  # no stream
                     break
@@ -862,6 +864,9 @@ class Parser:
                     # this is the normal way to handle it, so do not log
                     continue  # control thrown here to parse new generic group
 
+                except SizedGroupError as ex:  # already flushed sized group
+                    raise
+
                 except (ExtractionError, Exception) as ex:  # error while extracting
                     raise ExtractionError from ex
 
@@ -1151,10 +1156,12 @@ class Parser:
                         exts.serder = serder
                         break  # break out of while loop
 
-        except ExtractionError as ex:
+        except Exception as ex:
+            while verstack:  # restore version to what it was
+                self.version = verstack.pop()
             if emgs is not None:  # extracted enclosed message group is preflushed
                 raise SizedGroupError(f"Error processing enclosing "
-                                             f"message group of size={emgs}")
+                                      f"message group of size={emgs}") from ex
             raise  # no enclosing group so can't preflush, must flush stream
 
 
@@ -1299,10 +1306,9 @@ class Parser:
                 # so just proceed to process current message
 
 
-        except ExtractionError as ex:
+        except Exception as ex:
             if enclosed:  # extracted enclosed attachment group is preflushed
-                raise SizedGroupError(f"Error processing attachment group"
-                                             " of size={eags}")
+                raise SizedGroupError(f"Error processing attachment group") from ex
             raise  # no enclosing attachment group so can't preflush, must flush stream
 
         finally:
-- 
2.43.0


From 6cf03660a113c8652ce0e4ab88990ccad13805cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:20 +0000
Subject: [PATCH 062/104] fix: parser never waits for more of what a sized
 group encloses

---
 src/keri/core/parsing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index 78ea0b7..f86ef6a 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -1247,7 +1247,7 @@ class Parser:
                         cbs = ctr.byteSize(cold=cold)  # counter size of counter itself
                         fmgs = ctr.byteCount(cold=cold)  # fixed body content size
                         size = cbs + fmgs  # size of ctr and its content
-                        while len(ims) < size and not framed:  # framed already in ims
+                        while len(ims) < size and not (framed or enclosed):  # framed already in ims
                             yield  # until full ctr and its content in ims
 
                         del ims[:size]  # strip ctr and its content from ims
@@ -1264,7 +1264,7 @@ class Parser:
                         # enclosed so group belongs to nested message substream
                         # extract as nested msg+atc and append to exts.nests
                         subexts = yield from self.msgParsator(ims=ims,
-                                                              framed=framed,
+                                                              framed=framed or enclosed,
                                                               piped=piped,
                                                               local=local,
                                                               version=self.version)
-- 
2.43.0


From 93357e6f916377e5d181b234806236a41145110f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:07 +0000
Subject: [PATCH 063/104] fix: parser takes a message with an empty attachment
 group or none in its frame

---
 src/keri/core/parsing.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index f86ef6a..0a6e0a1 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -1172,7 +1172,8 @@ class Parser:
             while not ims and not framed:  # framed has everything already
                 yield  # when not framed at least empty AttachmentGroup follows
 
-            cold = sniff(ims)
+            # frame may end with message so no attachments
+            cold = sniff(ims) if ims else Colds.msg
             if cold != Colds.msg:  # counter so peek at what it is
                 ctr = yield from self._extractor(ims=ims,
                                                  klas=Counter,
@@ -1195,19 +1196,20 @@ class Parser:
                         return
 
                     # peek for version change
-                    ctr = yield from self._extractor(ims=ims,
-                                                     klas=Counter,
-                                                     cold=cold,
-                                                     abort=enclosed,
-                                                     strip=False)
-                    if ctr.code == self.codes.KERIACDCGenusVersion:
+                    if ims:  # not empty group
+                        ctr = yield from self._extractor(ims=ims,
+                                                         klas=Counter,
+                                                         cold=cold,
+                                                         abort=enclosed,
+                                                         strip=False)
+                    if ims and ctr.code == self.codes.KERIACDCGenusVersion:
                         del ims[:ctr.byteSize(cold=cold)]  # consume ctr itself
                         # change version
                         verstack.append(self.version)  # push current onto stack
                         self.version = Counter.b64ToVer(ctr.countToB64(l=3))
 
 
-                while True:  # iteratively process attachment counters in stride
+                while ims or not enclosed:  # iteratively process attachment counters in stride
                     ctr = yield from self._extractor(ims=ims,
                                                      klas=Counter,
                                                      cold=cold,
-- 
2.43.0


From ccfa5e401b26214486cb15ac529f7bd76f58c155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:14 +0000
Subject: [PATCH 064/104] fix: signatures that came out of order stay with the
 event although they do not verify

---
 src/keri/core/eventing.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index f7f8ebc..6acc296 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -6181,6 +6181,11 @@ class Kevery:
 
                 #  get wigers
                 wigers = self.db.wigs.get(keys=(pre, bytes(edig)))
+
+                # not verified yet so must not stay with event. Process stores
+                # all again when still out of order else only the verified
+                self.db.sigs.rem(keys=(pre, edig))
+                self.db.wigs.rem(keys=(pre, edig))
                 self.processEvent(serder=eserder, sigers=sigers, wigers=wigers, local=esr.local)
 
                 # If process does NOT validate event with sigs, becasue it is
-- 
2.43.0


From 1f5a38ef4b0d2c01b755338185bdf14ec91a0604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:36 +0000
Subject: [PATCH 065/104] fix: next keys made when taking in secrets are stored
 in the clear

---
 src/keri/app/keeping.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/keri/app/keeping.py b/src/keri/app/keeping.py
index 5091bec..038cfe6 100644
--- a/src/keri/app/keeping.py
+++ b/src/keri/app/keeping.py
@@ -1582,7 +1582,7 @@ class Manager:
                 # Secret to encrypt here
                 pp = PrePrm(pidx=pidx,
                             algo=algo,
-                            salt=(creator.salt if not self.encrypter
+                            salt=(creator.salt if not (creator.salt and self.encrypter)
                                   else self.encrypter.encrypt(ser=creator.salt,
                                         code=MtrDex.X25519_Cipher_Salt).qb64),
                             stem=creator.stem,
@@ -1645,7 +1645,8 @@ class Manager:
 
 
         for signer in nsigners:  # store secrets (private key val keyed by public key)
-            self.ks.pris.put(keys=signer.verfer.qb64b, val=signer)
+            self.ks.pris.put(keys=signer.verfer.qb64b, val=signer,
+                             encrypter=self.encrypter)
 
         pubs = [signer.verfer.qb64 for signer in nsigners]
         self.ks.pubs.put(riKey(pre, ri=ridx), val=PubSet(pubs=pubs))
-- 
2.43.0


From 95187229adb5be3b07c7f36581028b880f2578d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:36 +0000
Subject: [PATCH 066/104] fix: secrets stored before the first authentication
 key stay in the clear and unreadable

---
 src/keri/app/keeping.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/keri/app/keeping.py b/src/keri/app/keeping.py
index 038cfe6..2d47ee9 100644
--- a/src/keri/app/keeping.py
+++ b/src/keri/app/keeping.py
@@ -823,11 +823,12 @@ class Manager:
             # self.salt = self.encrypter.encrypt(ser=salt).qb64 if self.encrypter else salt
 
         # other secrets
-        if self.decrypter:
+        if self.decrypter or self.encrypter:
             # re-encrypt root salt secrets by prefix parameters .prms
             for keys, data in self.ks.prms.getTopItemIter():  # keys is tuple of pre qb64
                 if data.salt:
-                    salter = self.decrypter.decrypt(qb64=data.salt)
+                    salter = (self.decrypter.decrypt(qb64=data.salt)
+                              if self.decrypter else Salter(qb64=data.salt))
                     data.salt = (self.encrypter.encrypt(prim=salter).qb64
                                  if self.encrypter else salter.qb64)
                     self.ks.prms.pin(keys, val=data)
-- 
2.43.0


From 8a1756cb3f8d45b8fb644c2b7b470be2a14b5f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:44 +0000
Subject: [PATCH 067/104] fix: event seen first twice when its logging is taken
 up again after a stop

---
 src/keri/core/eventing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 6acc296..96d89df 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -3705,7 +3705,11 @@ class Kever:
 
         pre = self.prefixer.qb64
         if first:  # append event dig to first seen database in order
-            fn = self.db.fels.append(keys=serder.preb, val=serder.saidb)
+            fner = getattr(self, "fner", None)  # of event in force, None when inception
+            fn = fner.num + 1 if fner is not None else 0
+            if self.db.fels.get(keys=serder.preb, on=fn) != serder.said:
+                # not yet there from logging of same event that got interrupted
+                fn = self.db.fels.append(keys=serder.preb, val=serder.saidb)
             if firner and fn != firner.sn:  # cloned replay but replay fn not match
                 if self.cues is not None:  # cue to notice BadCloneFN
                     self.cues.push(dict(kin="noticeBadCloneFN", serder=serder,
-- 
2.43.0


From 3ec80599b6b46795373890aea6e49254b085a01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:44 +0000
Subject: [PATCH 068/104] fix: interrupted creation of keys may not be repeated
 and interrupted rotation loses next keys

---
 src/keri/app/keeping.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/keri/app/keeping.py b/src/keri/app/keeping.py
index 2d47ee9..5a620be 100644
--- a/src/keri/app/keeping.py
+++ b/src/keri/app/keeping.py
@@ -1058,29 +1058,30 @@ class Manager:
                                    ridx=ridx+1, kidx=kidx+len(icodes), dt=dt))
 
         pre = verfers[0].qb64b
-        if not self.ks.pres.put(pre, val=Prefixer(qb64=pre)):
+        if self.ks.pres.get(pre) is not None:
             raise ValueError("Already incepted pre={}.".format(pre.decode("utf-8")))
 
-        if not self.ks.prms.put(pre, val=pp):
-            raise ValueError("Already incepted prm for pre={}.".format(pre.decode("utf-8")))
-
-        self.pidx = pidx + 1  # increment for next inception
-
-        if not self.ks.sits.put(pre, val=ps):
-            raise ValueError("Already incepted sit for pre={}.".format(pre.decode("utf-8")))
-
+        # .pres entry comes last. Without it what else is there at pre is left
+        # from an interrupted inception, so may be replaced.
         for signer in isigners:  # store secrets (private key val keyed by public key)
             self.ks.pris.put(keys=signer.verfer.qb64b, val=signer,
                              encrypter=self.encrypter)
 
-        self.ks.pubs.put(riKey(pre, ri=ridx), val=PubSet(pubs=ps.new.pubs))
+        self.ks.pubs.pin(riKey(pre, ri=ridx), val=PubSet(pubs=ps.new.pubs))
 
         for signer in nsigners:  # store secrets (private key val keyed by public key)
             self.ks.pris.put(keys=signer.verfer.qb64b, val=signer,
                              encrypter=self.encrypter)
 
         # store publics keys for lookup of private key for replay
-        self.ks.pubs.put(riKey(pre, ri=ridx+1), val=PubSet(pubs=ps.nxt.pubs))
+        self.ks.pubs.pin(riKey(pre, ri=ridx+1), val=PubSet(pubs=ps.nxt.pubs))
+
+        self.ks.prms.pin(pre, val=pp)
+        self.ks.sits.pin(pre, val=ps)
+        self.pidx = pidx + 1  # increment for next inception
+
+        if not self.ks.pres.put(pre, val=Prefixer(qb64=pre)):
+            raise ValueError("Already incepted pre={}.".format(pre.decode("utf-8")))
 
         return (verfers, digers)
 
@@ -1240,15 +1241,16 @@ class Manager:
         ps.nxt = PubLot(pubs=[signer.verfer.qb64 for signer in signers],
                               ridx=ridx, kidx=kidx, dt=dt)
 
-        if not self.ks.sits.pin(pre, val=ps):
-            raise ValueError("Problem updating pubsit db for pre={}.".format(pre))
-
+        # store next keys before .sits refers to them in case of interruption
         for signer in signers:  # store secrets (private key val keyed by public key)
             self.ks.pris.put(keys=signer.verfer.qb64b, val=signer,
                              encrypter=self.encrypter)
 
         # store public keys for lookup of private keys by public key for replay
-        self.ks.pubs.put(riKey(pre, ri=ps.nxt.ridx), val=PubSet(pubs=ps.nxt.pubs))
+        self.ks.pubs.pin(riKey(pre, ri=ps.nxt.ridx), val=PubSet(pubs=ps.nxt.pubs))
+
+        if not self.ks.sits.pin(pre, val=ps):
+            raise ValueError("Problem updating pubsit db for pre={}.".format(pre))
 
         if erase:
             for pub in old.pubs:  # remove prior old prikeys not current old
-- 
2.43.0


From 5f34e01d0ebd9305a62f92cdf968a99737d9778b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:44 +0000
Subject: [PATCH 069/104] fix: interrupted move of keys to their final prefix
 may not be repeated

---
 src/keri/app/keeping.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/keri/app/keeping.py b/src/keri/app/keeping.py
index 5a620be..c990c47 100644
--- a/src/keri/app/keeping.py
+++ b/src/keri/app/keeping.py
@@ -1110,29 +1110,20 @@ class Manager:
         if (oldprm := self.ks.prms.get(old)) is None:
             raise ValueError("Nonexistent old prm for pre={}, nothing to move.".format(old))
 
-        if self.ks.prms.get(new) is not None:
-            raise ValueError("Preexistent new prm for pre={} may not clobber.".format(new))
-
         if (oldsit := self.ks.sits.get(old)) is None:
             raise ValueError("Nonexistent old sit for pre={}, nothing to move.".format(old))
 
-        if self.ks.sits.get(new) is not None:
-            raise ValueError("Preexistent new sit for pre={} may not clobber.".format(new))
-
-        if not self.ks.prms.put(new, val=oldprm):
+        # without .pres entry what is there at new is left from interrupted move
+        if not self.ks.prms.pin(new, val=oldprm):
             raise ValueError("Failed moving prm from old pre={} to new pre={}.".format(old, new))
-        else:
-            self.ks.prms.rem(old)
 
-        if not self.ks.sits.put(new, val=oldsit):
+        if not self.ks.sits.pin(new, val=oldsit):
             raise ValueError("Failed moving sit from old pre={} to new pre={}.".format(old, new))
-        else:
-            self.ks.sits.rem(old)
 
         # move .pubs entries if any
         i = 0
         while (pl := self.ks.pubs.get(riKey(old, i))):
-            if not self.ks.pubs.put(riKey(new, i), val=pl):
+            if not self.ks.pubs.pin(riKey(new, i), val=pl):
                 raise ValueError("Failed moving pubs at pre={} ri={} to new"
                                  " pre={}".format(old, i, new))
             i += 1
@@ -1145,6 +1136,9 @@ class Manager:
         if not self.ks.pres.put(new, val=Prefixer(qb64=new)):
             raise ValueError("Failed assiging new pre={}.".format(new))
 
+        self.ks.prms.rem(old)
+        self.ks.sits.rem(old)
+
 
     def rotate(self, pre, ncodes=None, ncount=1,
                      ncode=MtrDex.Ed25519_Seed,
-- 
2.43.0


From 73c1be0b60c39d6a1ebb100ec815ff0136e71c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:57 +0000
Subject: [PATCH 070/104] fix: witness changes of a rotation lost when its
 logging is taken up again after a stop

---
 src/keri/core/eventing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 96d89df..b8d9191 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -2705,7 +2705,8 @@ class Kever:
         Parameters:
             serder (SerderKeri): instance of current event"""
         if (serder.ilk not in (Ilks.rot, Ilks.drt) or
-                serder.said in self.db.kels.get(keys=serder.pre, on=serder.sn)):  # no changes
+                (serder.sn <= self.sn and  # beyond means its logging was interrupted
+                 serder.said in self.db.kels.get(keys=serder.pre, on=serder.sn))):  # no changes
             return self.wits, self.cuts, self.adds
 
         priorWits = self.wits
-- 
2.43.0


From 7e152ddf69cff4ff3a6d326ba9b287f44ed6b353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:42 +0000
Subject: [PATCH 071/104] fix: event that waits is lost or fails oddly when its
 identifier was loaded from the store

---
 src/keri/core/eventing.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index b8d9191..0370af2 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -2921,7 +2921,8 @@ class Kever:
                                           delsner=delsner, delsger=delsger,
                                           local=local):
                         # cue to query for witness receipts
-                        self.cues.push(dict(kin="query", q=dict(pre=serder.pre, sn=serder.snh)))
+                        if self.cues is not None:
+                            self.cues.push(dict(kin="query", q=dict(pre=serder.pre, sn=serder.snh)))
                     msg = (f"AID {pre[:4]}...{pre[-4:]}: Failure satisfying toad={toader.num} "
                            f"on witness sigs {[siger.qb64 for siger in wigers]} "
                            f"for event={serder.said}")
@@ -3351,9 +3352,10 @@ class Kever:
                 # Have to wait until delegating event at sn shows up in kel
                 # ToDo XXXX process  this cue of query to fetch delegating event from
                 # delegator
-                self.cues.push(dict(kin="query", q=dict(pre=delpre,
-                                                                  sn=delsner.numh,
-                                                                  dig=delsger.qb64)))
+                if self.cues is not None:
+                    self.cues.push(dict(kin="query", q=dict(pre=delpre,
+                                                            sn=delsner.numh,
+                                                            dig=delsger.qb64)))
                 #  escrow event here
                 inceptive = True if serder.ilk in (Ilks.icp, Ilks.dip) else False
                 sn = Number(num=serder.sn).validate(inceptive=inceptive).sn
-- 
2.43.0


From 2230608128ed83356f332249c4e42736e4d3e18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:59 +0000
Subject: [PATCH 072/104] fix: exchange message counts as signed by an old key
 of its sender

---
 src/keri/peer/exchanging.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index 86c7ae8..5d539fa 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -126,6 +126,13 @@ class Exchanger:
                     logger.debug("Exchange message body=\n%s\n", serder.pretty())
                     raise MissingSignatureError(msg)
 
+                if cigar.verfer.transferable:  # its keys are those in its KEL
+                    msg = (f"Skipped cig of transferable aid={sender} route={route} "
+                           f"for exn evt = {serder.said} receiver={serder.ked.get('rp', '')}")
+                    logger.info(msg)
+                    logger.debug("Exchange message body=\n%s\n", serder.pretty())
+                    raise MissingSignatureError(msg)
+
                 if not cigar.verfer.verify(cigar.raw, serder.raw):  # cig not verify
                     msg = (f"Failure satisfying exn on cigs for {cigar} route={route} "
                            f"for evt = {serder.said} receiver={serder.ked.get('rp', '')}")
-- 
2.43.0


From ec45cb687e7b2ce8d4c2888114fe683d4e82d798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:59 +0000
Subject: [PATCH 073/104] fix: error inside the verification of a behavior
 counts as passed

---
 src/keri/peer/exchanging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index 5d539fa..0fea5e9 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -177,13 +177,13 @@ class Exchanger:
                 raise ValidationError(f"essr diger={diger.qb64} is invalid against content")
 
         # Perform behavior specific verification, think IPEX chaining requirements
-        try:
+        if hasattr(behavior, "verify"):
             if not behavior.verify(serder=serder, **kwa):
                 logger.error("exn event for route %s failed behavior verification. said=%s", route, serder.said)
                 logger.debug(f"Event=\n%s\n", serder.pretty())
                 return
 
-        except AttributeError:
+        else:
             logger.debug("Behavior for %s missing or does not have verify for said %s", route, serder.said)
             logger.debug("Exn Event Body=\n%s\n", serder.pretty())
 
-- 
2.43.0


From 8b241567f6aba903eb2a456fca66df1a4248d72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:59 +0000
Subject: [PATCH 074/104] fix: ESSR content of a partially signed exchange
 message is lost

---
 src/keri/peer/exchanging.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index 0fea5e9..814eef1 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -96,7 +96,7 @@ class Exchanger:
 
                 if prefixer.qb64 not in self.kevers or self.kevers[prefixer.qb64].sn < snumber.sn:
                     if self.escrowPSEvent(serder=serder, tsgs=tsgs, pathed=ptds,
-                                          nests=nests):
+                                          nests=nests, essrs=essrs):
                         self.cues.append(dict(kin="query", q=dict(r="logs", pre=prefixer.qb64, sn=snumber.snh)))
                     msg = f"Unable to find sender {prefixer.qb64} in kevers for evt = {serder.said}"
                     logger.info(msg)
@@ -109,7 +109,7 @@ class Exchanger:
 
                 if not tholder.satisfy(indices):  # We still don't have all the sigers, need to escrow
                     if self.escrowPSEvent(serder=serder, tsgs=tsgs, pathed=ptds,
-                                          nests=nests):
+                                          nests=nests, essrs=essrs):
                         self.cues.append(dict(kin="query", q=dict(r="logs", pre=prefixer.qb64, sn=snumber.snh)))
                     msg = (f"Not enough signatures in idx={indices} route={route} "
                            f"for evt = {serder.said} receiver={serder.ked.get('rp', '')}")
@@ -141,7 +141,7 @@ class Exchanger:
                     raise MissingSignatureError(msg)
         else:
             self.escrowPSEvent(serder=serder, tsgs=[], pathed=ptds,
-                               nests=nests)
+                               nests=nests, essrs=essrs)
             msg = (
                 f"Failure satisfying exn, no cigs or sigs for evt = {serder.said} "
                 f"on route {route} receiver = {serder.ked.get('rp', '')}")
@@ -202,7 +202,7 @@ class Exchanger:
         """ Process all escrows for `exn` messages"""
         self.processEscrowPartialSigned()
 
-    def escrowPSEvent(self, serder, tsgs, pathed, nests=None):
+    def escrowPSEvent(self, serder, tsgs, pathed, nests=None, essrs=None):
         """ Escrow event that does not have enough signatures.
 
         Parameters:
@@ -210,6 +210,7 @@ class Exchanger:
             tsgs (list): quadlet of prefixer seqner, saider, sigers
             pathed (list): list of bytes of attached paths
             nests (list | None): parsed V2 nested substreams to preserve
+            essrs (list[Texter] | None): ESSR streams as Texters
 
         """
         dig = serder.said
@@ -223,6 +224,8 @@ class Exchanger:
         if nests:
             self.hby.db.enst.pin(keys=(dig,),
                                  vals=[bytes(serializeParsedSubstream(nest)) for nest in nests])
+        if essrs:
+            self.hby.db.essrs.pin(keys=(dig,), vals=essrs)
         return self.hby.db.epse.put(keys=(dig,), val=serder)
 
     def processEscrowPartialSigned(self):
@@ -280,6 +283,7 @@ class Exchanger:
                 if not saved:
                     self.hby.db.epath.rem(keys=(dig,))
                     self.hby.db.enst.rem(keys=(dig,))
+                    self.hby.db.essrs.rem(keys=(dig,))
                 if logger.isEnabledFor(logging.DEBUG):
                     logger.exception("Exchange partially signed unescrowed: %s", ex.args[0])
                 else:
@@ -292,6 +296,7 @@ class Exchanger:
                 if not saved:
                     self.hby.db.epath.rem(keys=(dig,))
                     self.hby.db.enst.rem(keys=(dig,))
+                    self.hby.db.essrs.rem(keys=(dig,))
                     logger.info("Exchanger unescrow rejected exchange: said=%s", serder.said)
                     continue
                 logger.info("Exchanger unescrow succeeded in valid exchange: creder=%s", serder.said)
-- 
2.43.0


From 58482a7cad97d879396c87957b8d40d85b4e09b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:22 +0000
Subject: [PATCH 075/104] fix: saved exchange message changed or handled again
 by a copy that lacks signatures

---
 src/keri/peer/exchanging.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index 814eef1..2dc6b27 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -214,6 +214,9 @@ class Exchanger:
 
         """
         dig = serder.said
+        if self.hby.db.exns.get(keys=(dig,)) is not None:  # already saved
+            return False  # so must not change what is stored with it
+
         for prefixer, seqner, ssaider, sigers in tsgs:  # iterate over each tsg
             quadkeys = (serder.said, prefixer.qb64, f"{seqner.sn:032x}", ssaider.qb64)
             for siger in sigers:
@@ -329,6 +332,10 @@ class Exchanger:
 
         self.hby.db.exns.put(keys=(dig,), val=serder)
 
+        # not waiting any more
+        self.hby.db.epse.rem(dig)
+        self.hby.db.epsd.rem(dig)
+
     def lead(self, hab, said):
         """ Determines is current member represented by hab is the lead of an exn message
 
-- 
2.43.0


From 0ee03b9a5f878d2e3620516f39f3b543b5837ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:22 +0000
Subject: [PATCH 076/104] fix: signatures that do not count are kept with a
 saved exchange message

---
 src/keri/peer/exchanging.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index 2dc6b27..b86b694 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -85,6 +85,7 @@ class Exchanger:
 
 
         behavior = self.routes[route] if route in self.routes else None
+        verified = []  # tsgs with just the signatures that verify
         if tsgs:
             for prefixer, snumber, sdiger, sigers in tsgs:  # iterate over each tsg
                 if sender != prefixer.qb64:  # sig not by aid
@@ -105,7 +106,7 @@ class Exchanger:
 
                 # Verify the signatures are valid and that the signature threshold as of the signing event is met
                 tholder, verfers = self.hby.db.resolveVerifiers(pre=prefixer.qb64, sn=snumber.sn, dig=sdiger.qb64)
-                _, indices = verifySigs(serder.raw, sigers, verfers)
+                goods, indices = verifySigs(serder.raw, sigers, verfers)
 
                 if not tholder.satisfy(indices):  # We still don't have all the sigers, need to escrow
                     if self.escrowPSEvent(serder=serder, tsgs=tsgs, pathed=ptds,
@@ -116,6 +117,9 @@ class Exchanger:
                     logger.info(msg)
                     logger.debug("Exchange message body=\n%s\n", serder.pretty())
                     raise MissingSignatureError(msg)
+                verified.append((prefixer, snumber, sdiger, goods))
+
+            cigars = None  # not verified so do not keep
 
         elif cigars:
             for cigar in cigars:
@@ -188,7 +192,7 @@ class Exchanger:
             logger.debug("Exn Event Body=\n%s\n", serder.pretty())
 
         # Always persist events
-        self.logEvent(serder, ptds, tsgs, cigars, essrs, nests=nests)
+        self.logEvent(serder, ptds, verified, cigars, essrs, nests=nests)
         self.cues.append(dict(kin="saved", said=serder.said))
 
         # Execute any behavior specific handling, not sure if this should be different than verify
@@ -313,6 +317,10 @@ class Exchanger:
         cigars = cigars or []
         essrs = essrs or []
 
+        if self.hby.db.exns.get(keys=(dig,)) is None:
+            # signatures that waited either are in tsgs or do not count
+            self.hby.db.esigs.trim(keys=(dig, ""))
+
         for prefixer, seqner, ssaider, sigers in tsgs:  # iterate over each tsg
             quadkeys = (serder.said, prefixer.qb64, f"{seqner.sn:032x}", ssaider.qb64)
             for siger in sigers:
-- 
2.43.0


From 43f46d615910daa450d42f8e9477134d7c5de6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:01 +0000
Subject: [PATCH 077/104] fix: exchange message of a nontransferable sender can
 not be loaded with its signatures

---
 src/keri/peer/exchanging.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index b86b694..1ae5926 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -783,8 +783,10 @@ def verify(hby, serder):
             raise MissingSignatureError(msg)
         accepted = True
 
-    cigars = hby.db.ecigs.get(keys=(serder.said,))
-    for cigar in cigars:
+    cigars = []
+    for verfer, cigar in hby.db.ecigs.get(keys=(serder.said,)):
+        cigar.verfer = verfer
+        cigars.append(cigar)
         if not cigar.verfer.verify(cigar.raw, serder.raw):  # cig not verify
             msg = f"Failure satisfying exn on cigs for {cigar} for evt = {serder.said}"
             logger.info(msg)
-- 
2.43.0


From 315e3c84e6cde4c37ab278929fcf1842449cbe55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:01 +0000
Subject: [PATCH 078/104] fix: signatures of an exchange message that is given
 up stay and count later

---
 src/keri/peer/exchanging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index 1ae5926..6559ac2 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -286,8 +286,8 @@ class Exchanger:
                 saved = self.hby.db.exns.get(keys=(dig,)) is not None
                 self.hby.db.epse.rem(dig)
                 self.hby.db.epsd.rem(dig)
-                self.hby.db.esigs.rem(dig)
                 if not saved:
+                    self.hby.db.esigs.trim(keys=(dig, ""))
                     self.hby.db.epath.rem(keys=(dig,))
                     self.hby.db.enst.rem(keys=(dig,))
                     self.hby.db.essrs.rem(keys=(dig,))
@@ -299,8 +299,8 @@ class Exchanger:
                 saved = self.hby.db.exns.get(keys=(dig,)) is not None
                 self.hby.db.epse.rem(dig)
                 self.hby.db.epsd.rem(dig)
-                self.hby.db.esigs.rem(dig)
                 if not saved:
+                    self.hby.db.esigs.trim(keys=(dig, ""))
                     self.hby.db.epath.rem(keys=(dig,))
                     self.hby.db.enst.rem(keys=(dig,))
                     self.hby.db.essrs.rem(keys=(dig,))
-- 
2.43.0


From 9cfa762af221af626c84d41cdff82e40f671672f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:01 +0000
Subject: [PATCH 079/104] fix: IPEX message answers a message that is no IPEX
 message

---
 src/keri/vc/protocoling.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/keri/vc/protocoling.py b/src/keri/vc/protocoling.py
index c26c657..5d079db 100644
--- a/src/keri/vc/protocoling.py
+++ b/src/keri/vc/protocoling.py
@@ -2,7 +2,6 @@
 """
 keri.vc.handling module
 """
-import os
 from collections import namedtuple
 from hio.help import ogler
 
@@ -78,7 +77,10 @@ class IpexHandler:
                     return False
 
                 proute = pserder.ked['r']
-                pverb = os.path.basename(os.path.normpath(proute))
+                pparts = proute.split("/")
+                if len(pparts) != 3 or pparts[:2] != ["", "ipex"]:
+                    return False
+                pverb = pparts[2]
 
                 # Use established PreviousRoutes to determine if this response is valid
                 if pverb not in PreviousRoutes[verb]:
@@ -95,7 +97,10 @@ class IpexHandler:
                     return False
 
                 proute = pserder.ked['r']
-                pverb = os.path.basename(os.path.normpath(proute))
+                pparts = proute.split("/")
+                if len(pparts) != 3 or pparts[:2] != ["", "ipex"]:
+                    return False
+                pverb = pparts[2]
 
                 # Use established PreviousRoutes to determine if this response is valid
                 if pverb not in PreviousRoutes[verb]:
-- 
2.43.0


From 409080c538bb6c8de96a0edbb030d33970f01601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:12 +0000
Subject: [PATCH 080/104] fix: last values of stores with a separator of their
 own are not found

---
 src/keri/db/koming.py |  3 ++-
 src/keri/db/subing.py | 15 ++++++++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/keri/db/koming.py b/src/keri/db/koming.py
index 1ef4ce4..1c9e54a 100644
--- a/src/keri/db/koming.py
+++ b/src/keri/db/koming.py
@@ -529,7 +529,8 @@ class IoSetKomer(KomerBase):
         Returns:
             val (Type[dataclass]):  instance of type self.schema
                 None if no entry at keys"""
-        if last := self.db.getIoSetLastItem(db=self.sdb, key=self._tokey(keys)):
+        if last := self.db.getIoSetLastItem(db=self.sdb, key=self._tokey(keys),
+                                            sep=self.sep):
             key, val = last
             return self._des(val)
         return None
diff --git a/src/keri/db/subing.py b/src/keri/db/subing.py
index e1384fd..5dfd680 100644
--- a/src/keri/db/subing.py
+++ b/src/keri/db/subing.py
@@ -1388,7 +1388,8 @@ class IoSetSuber(SuberBase):
         Returns:
             last ((str, str)|None): (key, val) tuple or empty tuple if no entry
             at keys or keys is empty"""
-        if last := self.db.getIoSetLastItem(db=self.sdb, key=self._tokey(keys)):
+        if last := self.db.getIoSetLastItem(db=self.sdb, key=self._tokey(keys),
+                                            sep=self.sep):
             key, val = last
             return (self._tokeys(key), self._des(val))
         return last
@@ -1407,7 +1408,8 @@ class IoSetSuber(SuberBase):
 
         Returns:
             val (str):  value str, None if no entry at keys"""
-        if last := self.db.getIoSetLastItem(db=self.sdb, key=self._tokey(keys)):
+        if last := self.db.getIoSetLastItem(db=self.sdb, key=self._tokey(keys),
+                                            sep=self.sep):
             key, val = last
             return self._des(val)
         return None
@@ -1515,7 +1517,8 @@ class IoSetSuber(SuberBase):
 
         Returns:
             vals (Iterator[str]):  value str"""
-        for val in self.db.getIoSetLastIterAll(db=self.sdb, key=self._tokey(keys)):
+        for val in self.db.getIoSetLastIterAll(db=self.sdb, key=self._tokey(keys),
+                                              sep=self.sep):
             yield self._des(val)
 
 
@@ -1536,7 +1539,8 @@ class IoSetSuber(SuberBase):
 
         Returns:
             items (Iterator[(str, str)]):  (key, val) tuples"""
-        for key, val in self.db.getIoSetLastItemIterAll(db=self.sdb, key=self._tokey(keys)):
+        for key, val in self.db.getIoSetLastItemIterAll(db=self.sdb, key=self._tokey(keys),
+                                                       sep=self.sep):
             yield (self._tokeys(key), self._des(val))
 
 
@@ -2731,7 +2735,8 @@ class OnIoDupSuber(OnSuberBase, IoDupSuber):
             last (str):  value str, None if no entry at effective key made from
                 keys and on"""
 
-        val = self.db.getOnIoDupLast(db=self.sdb, key=self._tokey(keys), on=on)
+        val = self.db.getOnIoDupLast(db=self.sdb, key=self._tokey(keys), on=on,
+                                     sep=self.sep.encode())
         return (self._des(val) if val is not None else val)
 
 
-- 
2.43.0


From 164d03db33cf41da38a64b1981e1b7e95b8d7b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:04 +0000
Subject: [PATCH 081/104] fix: compaction never ends on a field label holding a
 path separator

---
 src/keri/core/mapping.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keri/core/mapping.py b/src/keri/core/mapping.py
index 4a4a6a8..2efebf2 100644
--- a/src/keri/core/mapping.py
+++ b/src/keri/core/mapping.py
@@ -982,6 +982,9 @@ class Compactor(Mapper):
                     raise InvalidValueError(f"Got Mapping not str for said field"
                                             f" label={l} value={v}")
                 if self._hassaid(mad=v):
+                    if "." in l:  # ambiguous as part of path
+                        raise InvalidValueError(f"Got path separator '.' in field"
+                                                f" label={l} of saided block")
                     isleaf = False
                     paths = self._trace(mad=v, paths=paths, path=path + "." + l,
                                         saidify=saidify)
-- 
2.43.0


From 170f3bcc664b0b30bfb7821c93d433ad4fd58aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:04 +0000
Subject: [PATCH 082/104] fix: traced map is serialized as CESR whatever its
 kind

---
 src/keri/core/mapping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/mapping.py b/src/keri/core/mapping.py
index 2efebf2..2beea0f 100644
--- a/src/keri/core/mapping.py
+++ b/src/keri/core/mapping.py
@@ -939,13 +939,13 @@ class Compactor(Mapper):
         """
         paths = self._trace(mad=self.mad, paths=[], saidify=saidify)
         if saidify and not self.iscompact:  # top-level said needs to be computed
-            raw, count = self._exhale(dummy=True) # first dummy serialization
+            raw, count = self._exhale(dummy=True, kind=self.kind) # first dummy serialization
             for label, code in self.saids.items():
                 if label in self.mad:  # has saidive field
                     said = Diger(ser=raw, code=code).qb64
                     self.mad[label] = said
 
-            raw, count = self._exhale()  # not dummied
+            raw, count = self._exhale(kind=self.kind)  # not dummied
             self._raw = raw
             self._count = count
 
-- 
2.43.0


From 654ae1149d4d7d92868db17b07f0d69fce3070ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:29 +0000
Subject: [PATCH 083/104] fix: aggregate does not commit to a block without a
 SAID of its own

---
 src/keri/core/mapping.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/keri/core/mapping.py b/src/keri/core/mapping.py
index 2beea0f..45eaca0 100644
--- a/src/keri/core/mapping.py
+++ b/src/keri/core/mapping.py
@@ -1345,6 +1345,9 @@ class Aggor:
                             except Exception as ex:
                                 raise InvalidValueError(f"Invalid {element=} of "
                                                         "Aggor") from ex
+                            if not mapper.said:  # not committed to by agid
+                                raise InvalidValueError(f"Missing said of {element=}"
+                                                        " of Aggor")
                             cael.append(mapper.said)
                             ael[i] = mapper.mad  # now has computed said
 
@@ -1429,6 +1432,9 @@ class Aggor:
                         except Exception as ex:
                             raise InvalidValueError(f"Invalid Aggor {element=}."
                                                     " Does not verify") from ex
+                        if not mapper.said:  # not committed to by agid
+                            raise InvalidValueError(f"Missing said of {element=}"
+                                                    " of Aggor")
                         cael.append(mapper.said)
 
                     elif isinstance(element, str):
-- 
2.43.0


From e0fa711a308c623c82d14067d9ffdf08cd14f57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:29 +0000
Subject: [PATCH 084/104] fix: disclosure of an empty aggregate raises instead
 of not verifying

---
 src/keri/core/mapping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/mapping.py b/src/keri/core/mapping.py
index 45eaca0..af9f97c 100644
--- a/src/keri/core/mapping.py
+++ b/src/keri/core/mapping.py
@@ -1258,7 +1258,7 @@ class Aggor:
         except Exception as ex:
             return False
 
-        if aggor.agid != ael[0]:
+        if not aggor.agid or aggor.agid != ael[0]:
             return False
 
         return True
-- 
2.43.0


From 47709512eb6c050bfb34bd1f64e9b2f43c667416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:29 +0000
Subject: [PATCH 085/104] fix: aggregate section message verifies with a
 foreign AGID

---
 src/keri/core/serdering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/serdering.py b/src/keri/core/serdering.py
index daa41fc..f1df8e2 100644
--- a/src/keri/core/serdering.py
+++ b/src/keri/core/serdering.py
@@ -3097,7 +3097,7 @@ class SerderACDC(Serder):
                                         f"section={l} in section message")
 
                                 agid = sector.agid
-                                if not agid:
+                                if not agid or v[0] != agid:
                                     raise InvalidValueError(f"Invalid aggregate"
                                                 f" {agid=} in section message")
 
-- 
2.43.0


From 2d8f42890a843eae07462a5babea7319147f861b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:29 +0000
Subject: [PATCH 086/104] fix: ACDC verifies with foreign SAIDs on the blocks
 of its uncompacted sections

---
 src/keri/core/serdering.py | 42 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/src/keri/core/serdering.py b/src/keri/core/serdering.py
index f1df8e2..20d9a70 100644
--- a/src/keri/core/serdering.py
+++ b/src/keri/core/serdering.py
@@ -2911,6 +2911,48 @@ class SerderACDC(Serder):
             if code not in PreDex:
                 raise ValidationError(f"Invalid issuer AID code = {code}.")
 
+        if (self.pvrsn.major >= 2 and self.ilk in
+                (Ilks.acm, Ilks.act, Ilks.acg, Ilks.ace, Ilks.sch, Ilks.att,
+                 Ilks.agg, Ilks.edg, Ilks.rul, None)):
+            self._verifySections()
+
+
+    def _verifySections(self):
+        """Verifies embedded SAIDs of the blocks of any uncompacted sections.
+        Empty embedded SAIDs are allowed since these make no commitment.
+
+        Raises a ValidationError (or subclass) if any verification fails
+        """
+        for l in ("s", "a", "e", "r", "A"):
+            if not (v := self._sad.get(l, None)):
+                continue  # missing or empty
+
+            blocks = []  # pairs of given block with same block with computed said
+            if isinstance(v, Mapping):
+                if l == "s":  # schema is only top-level said
+                    sector = Compactor(mad=v, makify=True, strict=False,
+                                       saids={"$id": 'E',}, kind=self.kind)
+                    blocks.append((v, sector.mad))
+                else:
+                    sector = Compactor(mad=v, makify=True, kind=self.kind)
+                    sector.compact()
+                    for path, leafer in sector.leaves.items():
+                        blocks.append((sector.getTail(path, mad=v), leafer.mad))
+
+            elif l == "A" and isinstance(v, NonStringIterable):
+                sector = Aggor(ael=v, makify=True, kind=self.kind)
+                if v[0] and v[0] != sector.agid:
+                    raise ValidationError(f"Invalid AGID={v[0]} of aggregate "
+                                          f"section.")
+                for given, made in zip(v, sector.ael):
+                    if isinstance(given, Mapping):
+                        blocks.append((given, made))
+
+            for given, made in blocks:
+                for label in sector.saids:
+                    if (said := given.get(label, None)) and said != made[label]:
+                        raise ValidationError(f"Invalid {said=} of block in "
+                                              f"section={l}.")
 
 
     def makify(self, sad, *, proto=None, pvrsn=None, genus=None, gvrsn=None,
-- 
2.43.0


From bce8c072d6f91893443c42d0bfe4c705e1a532ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:52 +0000
Subject: [PATCH 087/104] fix: path into a compacted block is looked up in the
 characters of its SAID

---
 src/keri/core/mapping.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/keri/core/mapping.py b/src/keri/core/mapping.py
index af9f97c..f946a6f 100644
--- a/src/keri/core/mapping.py
+++ b/src/keri/core/mapping.py
@@ -1049,7 +1049,7 @@ class Compactor(Mapper):
         tail = mad if mad is not None else self.mad
         parts = path.split(".")[1:]  # split and strip off top level part
         for part in parts:
-            if part not in tail:
+            if not isinstance(tail, Mapping) or part not in tail:
                 return None
             tail = tail[part]  # descend on level down
         return tail
@@ -1081,10 +1081,10 @@ class Compactor(Mapper):
 
         parts = parts[1:]  # strip off top
         for part in parts:  # if parts empty then top-level is super mad
-            if part not in mad:  # path part not in mad
+            if not isinstance(mad, Mapping) or part not in mad:  # path part not in mad
                 return (None, tail)
             mad = mad[part]  # descend on level down
-        if tail not in mad:  # tail not in mad so path not compatible with  mad
+        if not isinstance(mad, Mapping) or tail not in mad:  # tail not in mad so path not compatible with  mad
             return (None, None)
         return (mad, tail)
 
-- 
2.43.0


From fc907ca72936081d29000b33ed7c52fe56a33ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:31 +0000
Subject: [PATCH 088/104] fix: enclosing no structors raises instead of giving
 an empty group

---
 src/keri/core/structing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/structing.py b/src/keri/core/structing.py
index fc5397b..082bf63 100644
--- a/src/keri/core/structing.py
+++ b/src/keri/core/structing.py
@@ -637,7 +637,7 @@ class Structor:
                 raise InvalidValueError(f"Invalid {cold=}, not {Colds.txt} or {Colds.bny}")
 
         if clan is None:  # empty structors
-            clan = list(cls.ClanCodens.keys())[0]  # use default as zeroth clan
+            clan = list(cls.Clans)[0]  # use default as zeroth clan
 
         try:
             coden = cls.ClanCodens[clan.__name__]
-- 
2.43.0


From e9a9204baaaf557ec75c717e8dc2121a755ac9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:31 +0000
Subject: [PATCH 089/104] fix: cast or crew of a structor given as a plain
 sequence raises TypeError

---
 src/keri/core/structing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/structing.py b/src/keri/core/structing.py
index 082bf63..31542d0 100644
--- a/src/keri/core/structing.py
+++ b/src/keri/core/structing.py
@@ -829,7 +829,7 @@ class Structor:
 
                         cast = clan(**cast)  # convert to clan
 
-                    elif isinstance(cast, helping.isNonStringSequence):
+                    elif helping.isNonStringSequence(cast):
                         cast = clan(*cast)  # convert to clan assumes elements in correct order
 
                     else:
@@ -866,7 +866,7 @@ class Structor:
 
                         crew = clan(**crew)  # allpy clan
 
-                    elif isinstance(crew, helping.isNonStringSequence):
+                    elif helping.isNonStringSequence(crew):
                         crew = clan(*crew)  # apply clan assumes elements in correct order
 
                     else:
-- 
2.43.0


From 59b28e116aad0c4007d4a1835d4dd082ee652594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:31 +0000
Subject: [PATCH 090/104] fix: group of structors cut short is extracted as if
 it were complete

---
 src/keri/core/structing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/keri/core/structing.py b/src/keri/core/structing.py
index 31542d0..fc0f9e9 100644
--- a/src/keri/core/structing.py
+++ b/src/keri/core/structing.py
@@ -9,7 +9,7 @@ from collections import namedtuple
 from collections.abc import Mapping
 from dataclasses import dataclass, astuple
 
-from ..kering import (Colds, ValidationError,
+from ..kering import (Colds, ValidationError, ShortageError,
                       InvalidValueError, EmptyMaterialError)
 from ..help import helping
 
@@ -685,6 +685,8 @@ class Structor:
             cs = ctr.byteSize(cold=Colds.txt)  # counter byte size
             es = ctr.byteCount(cold=Colds.txt)  # enclosed content byte size
             gs = cs + es  # total group size including counter
+            if len(qb64b) < gs:
+                raise ShortageError(f"Need {gs - len(qb64b)} more bytes of group.")
             qb64b = bytearray(qb64b[cs:gs])  # copy contents as bytearray so can strip
             while qb64b:
                 structors.append(cls(clan=clan, qb64b=qb64b, strip=True))
@@ -698,6 +700,8 @@ class Structor:
             cs = ctr.byteSize(cold=Colds.bny)  # counter byte size
             es = ctr.byteCount(cold=Colds.bny)  # enclosed content byte size
             gs = cs + es  # total group size including counter
+            if len(qb2) < gs:
+                raise ShortageError(f"Need {gs - len(qb2)} more bytes of group.")
             qb2 = bytearray(qb2[cs:gs])  # copy contents as bytearray so can strip
             while qb2:
                 structors.append(cls(clan=clan, qb2=qb2, strip=True))
-- 
2.43.0


From c22467ca4f055bf25369a5819a69fe2e6d66fe7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:31 +0000
Subject: [PATCH 091/104] fix: blinder made from raw salt cannot be unblinded
 with it

---
 src/keri/core/structing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/structing.py b/src/keri/core/structing.py
index fc0f9e9..4a7a295 100644
--- a/src/keri/core/structing.py
+++ b/src/keri/core/structing.py
@@ -1519,7 +1519,7 @@ class Blinder(Structor):
         and unblinded blinder that verifies against the provided said and uuid.
         Empty combinations for placeholder blinder"""
         if uuid is None:  # create uuid from salt and sn
-            if salt is None:
+            if raw is None and salt is None:
                 raise InvalidValueError(f"Invalid {salt=}")
             uuid = cls.makeUUID(raw=raw, salt=salt, sn=sn, tier=tier)
 
-- 
2.43.0


From 3e5cd1a4f6fb1c9d3ef0165c33b1960edb0a73c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:31 +0000
Subject: [PATCH 092/104] fix: unblinding adds placeholders to the lists of its
 caller

---
 src/keri/core/structing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/structing.py b/src/keri/core/structing.py
index 4a7a295..691bd0c 100644
--- a/src/keri/core/structing.py
+++ b/src/keri/core/structing.py
@@ -1526,12 +1526,12 @@ class Blinder(Structor):
         acdcs = [acdc]
         if "" not in acdcs:
             acdcs.append('')
-        states = states if states is not None else []
+        states = list(states) if states is not None else []
         if "" not in states:
             states.append("")
 
         if bound:
-            bounds = bounds if bounds is not None else [(0, '')]
+            bounds = list(bounds) if bounds is not None else [(0, '')]
             if (0, '') not in bounds:
                 bounds.append((0, ''))
 
-- 
2.43.0


From da3440a15cb3672396e5115114aa9d2d3431f963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:08 +0000
Subject: [PATCH 093/104] fix: AID with a name already taken is recorded, and
 its record keeps the habery from opening

---
 src/keri/app/habbing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/app/habbing.py b/src/keri/app/habbing.py
index af91178..f27b4c4 100644
--- a/src/keri/app/habbing.py
+++ b/src/keri/app/habbing.py
@@ -1141,12 +1141,12 @@ class BaseHab:
 
 
     def save(self, habord):
-        self.db.habs.pin(keys=self.pre,
-                         val=habord)
         ns = "" if self.ns is None else self.ns
         if self.db.names.get(keys=(ns, self.name)) is not None:
             raise ValueError("AID already exists with that name")
 
+        self.db.habs.pin(keys=self.pre,
+                         val=habord)
         self.db.names.pin(keys=(ns, self.name),
                           val=self.pre)
 
-- 
2.43.0


From 1d41dca35dbbe9f55b3672636819c8c3e436d73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:08 +0000
Subject: [PATCH 094/104] fix: AID whose inception is refused stays recorded
 and keeps the habery from opening

---
 src/keri/app/habbing.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/keri/app/habbing.py b/src/keri/app/habbing.py
index f27b4c4..2d578dd 100644
--- a/src/keri/app/habbing.py
+++ b/src/keri/app/habbing.py
@@ -11,7 +11,7 @@ from hio.base import doing
 from hio.help import hicting, ogler
 
 from .configing import Configer
-from .keeping import Keeper, Manager
+from .keeping import riKey, Keeper, Manager
 
 from ..peer import Exchanger,  specialExchange
 from ..db import Baser, dgKey, fetchTsgs
@@ -3000,6 +3000,11 @@ class Hab(BaseHab):
         except MissingSignatureError:
             pass
         except Exception as ex:
+            if not hidden:  # not accepted so not recorded
+                self.db.habs.rem(keys=self.pre)
+                self.db.names.rem(keys=("" if self.ns is None else self.ns, self.name))
+                self.prefixes.discard(self.pre)
+            self._disown(opre, self.pre)
             raise ConfigurationError("Improper Habitat inception for "
                                             "pre={} {}".format(self.pre, ex))
 
@@ -3010,6 +3015,19 @@ class Hab(BaseHab):
 
         self.inited = True
 
+    def _disown(self, *pres):
+        """Removes key sequences of identifier prefixes whose inception failed
+        from key store so inception may be attempted again.
+
+        Parameters:
+            pres (str): qb64 identifier prefixes of key sequences"""
+        for pre in pres:
+            for db in (self.ks.pres, self.ks.prms, self.ks.sits):
+                db.rem(pre)
+            ri = 0
+            while self.ks.pubs.rem(riKey(pre, ri)):
+                ri += 1
+
     @property
     def algo(self):
         pp = self.ks.prms.get(self.pre)
-- 
2.43.0


From d433c1ef95804f4af382ff668606e3741548ef30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:08 +0000
Subject: [PATCH 095/104] fix: AID cannot be made again after its inception was
 refused for its arguments

---
 src/keri/app/habbing.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/keri/app/habbing.py b/src/keri/app/habbing.py
index 2d578dd..226b34e 100644
--- a/src/keri/app/habbing.py
+++ b/src/keri/app/habbing.py
@@ -2961,23 +2961,28 @@ class Hab(BaseHab):
                                               tier=tier,
                                               temp=self.temp)
 
-        serder = super(Hab, self).incept(isith=isith,
-                                       verfers=verfers,
-                                       nsith=nsith,
-                                       digers=digers,
-                                       code=code,
-                                       toad=toad,
-                                       wits=wits,
-                                       estOnly=estOnly,
-                                       DnD=DnD,
-                                       delpre=delpre,
-                                       data=data,
-                                       kind=kind,
-                                       version=version)
+        opre = verfers[0].qb64  # default zeroth original pre from key store
+
+        try:
+            serder = super(Hab, self).incept(isith=isith,
+                                           verfers=verfers,
+                                           nsith=nsith,
+                                           digers=digers,
+                                           code=code,
+                                           toad=toad,
+                                           wits=wits,
+                                           estOnly=estOnly,
+                                           DnD=DnD,
+                                           delpre=delpre,
+                                           data=data,
+                                           kind=kind,
+                                           version=version)
+        except Exception:  # no event so free key sequence for another attempt
+            self._disown(opre)
+            raise
 
         self.pre = serder.ked["i"]  # new pre
 
-        opre = verfers[0].qb64  # default zeroth original pre from key store
         self.mgr.move(old=opre, new=self.pre)  # move to incept event pre
 
         # may want db method that updates .habs. and .prefixes together
-- 
2.43.0


From 74bb8b9723afa619ddf40019062430d0fed9b4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:08 +0000
Subject: [PATCH 096/104] fix: number of next keys asked for is ignored after a
 refused rotation

---
 src/keri/app/habbing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keri/app/habbing.py b/src/keri/app/habbing.py
index 226b34e..f18dba7 100644
--- a/src/keri/app/habbing.py
+++ b/src/keri/app/habbing.py
@@ -3084,11 +3084,13 @@ class Hab(BaseHab):
 
         try:
             verfers, digers = self.mgr.replay(pre=self.pre, erase=False)
+            replayed = True
         except IndexError:  # old next is new current
             verfers, digers = self.mgr.rotate(pre=self.pre,
                                               ncount=ncount,
                                               temp=self.temp,
                                               erase=False)
+            replayed = False
 
         try:
             msg = super(Hab, self).rotate(verfers=verfers, digers=digers,
@@ -3102,6 +3104,8 @@ class Hab(BaseHab):
             # Rotation event validation failed. Rollback key state to
             # pre-rotation snapshot so KEL and key store stay in sync.
             self.mgr.ks.sits.pin(self.pre, val=ps_before)
+            if not replayed:  # next keys made above are not committed to
+                self.mgr.ks.pubs.rem(riKey(self.pre, ps_before.nxt.ridx + 1))
             raise
 
         # Event validated successfully. Now safe to erase old stale
-- 
2.43.0


From 105d28a208a20264ebe8163422881347b3f0978e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:21 +0000
Subject: [PATCH 097/104] fix: watchers that are ahead by different numbers of
 events are reported as duplicitous

---
 src/keri/app/watching.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/keri/app/watching.py b/src/keri/app/watching.py
index 978b6b6..24cc332 100644
--- a/src/keri/app/watching.py
+++ b/src/keri/app/watching.py
@@ -125,8 +125,11 @@ class Adjudicator:
             # Only group habs can be behind their watchers
             # First check for duplicity among the watchers that are ahead (possible only if toad is below
             # super majority)
-            digs = set([state.dig for state in ahds])
-            if len(digs) > 1:  # Duplicity across watcher sets
+            evts = {}  # states of watchers that agree, by the event they are at
+            for state in ahds:
+                evts.setdefault((state.sn, state.dig), []).append(state)
+
+            if len(evts) > len(set(sn for sn, _ in evts)):  # Duplicity across watcher sets
                 cue = dict(kin="keyStateDuplicitous", cid=self.hab.pre, oid=watched, wids=watchers, dups=ahds)
                 self.cues.append(cue)
 
@@ -134,7 +137,8 @@ class Adjudicator:
                 for state in ahds:
                     logger.error(f"\tWatcher {state.wit} at seq No. {state.sn} with digest: {state.dig}")
 
-            elif len(ahds) >= toad:  # all witnesses that are ahead agree on the event
+            elif agreed := [evt for evt in evts if len(evts[evt]) >= toad]:  # enough that are ahead agree on the event
+                ahds = evts[max(agreed)]  # latest
                 logger.info(f"Threshold ({toad}) satisfying number of watchers ({len(ahds)}) are ahead")
                 for state in ahds:
                     logger.info(f"\tWatcher {state.wit} at Seq No. {state.sn} with digest: {state.dig}")
-- 
2.43.0


From 562d3f42ff8b8e93cf290fc7671414015bfa5259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:48 +0000
Subject: [PATCH 098/104] fix: adjudication request with a threshold that does
 not fit stops those that follow

---
 src/keri/app/watching.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/keri/app/watching.py b/src/keri/app/watching.py
index 24cc332..5533d32 100644
--- a/src/keri/app/watching.py
+++ b/src/keri/app/watching.py
@@ -75,7 +75,10 @@ class Adjudicator:
             watched = msg["oid"]
             toad = msg["toad"] if "toad" in msg else None
 
-            self.adjudicate(watched, toad)
+            try:
+                self.adjudicate(watched, toad)
+            except ValueError as ex:
+                logger.error(f"Key state of AID {watched} not adjudicated: {ex.args[0]}")
 
     def adjudicate(self, watched, toad=None):
         """ Perform key state adjudication against the `watched` AID and provided threshold
-- 
2.43.0


From 103b58f8825939806679a1bce8edaaa55b1ab9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:47 +0000
Subject: [PATCH 099/104] fix: entry cannot be appended to a mailbox topic

---
 src/keri/app/storing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/app/storing.py b/src/keri/app/storing.py
index 718fa6b..74e2604 100644
--- a/src/keri/app/storing.py
+++ b/src/keri/app/storing.py
@@ -75,7 +75,7 @@ class Mailboxer(LMDBer):
         Parameters:
             topic (bytes):  topic identifier for message
             val (bytes): msg digest"""
-        return self.tpcs.append(key=topic, val=val)
+        return self.tpcs.append(keys=topic, val=val)
 
 
     def getTopicMsgs(self, topic, fn=0):
-- 
2.43.0


From ee429ccef6467b42e4d4c6820c6f8e814ae22f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:59 +0000
Subject: [PATCH 100/104] fix: message that is not text keeps the messages of
 its mailbox topic from being read

---
 src/keri/app/storing.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/keri/app/storing.py b/src/keri/app/storing.py
index 74e2604..71811fc 100644
--- a/src/keri/app/storing.py
+++ b/src/keri/app/storing.py
@@ -78,6 +78,18 @@ class Mailboxer(LMDBer):
         return self.tpcs.append(keys=topic, val=val)
 
 
+    def _getMsg(self, dig):
+        """
+        Returns:
+            msg (bytes | None): message at digest as stored, which may be in any
+                serialization so not necessarily utf-8. None when not found
+
+        Parameters:
+            dig (str): qb64 digest of message"""
+        msg = self.getVal(db=self.msgs.sdb, key=self.msgs._tokey(dig))
+        return bytes(msg) if msg is not None else None
+
+
     def getTopicMsgs(self, topic, fn=0):
         """
         Returns:
@@ -92,8 +104,8 @@ class Mailboxer(LMDBer):
                 to form key at at which to initiate retrieval"""
         msgs = []
         for keys, on, dig in self.tpcs.getAllItemIter(keys=topic, on=fn):
-            if msg := self.msgs.get(keys=dig):
-                msgs.append(msg.encode())  # want bytes not str
+            if msg := self._getMsg(dig):
+                msgs.append(msg)
         return msgs
 
 
@@ -136,8 +148,8 @@ class Mailboxer(LMDBer):
         Ordinal Numbered db.  since should not be using hidden ion has not
         hidden."""
         for keys, on, dig in self.tpcs.getAllItemIter(keys=topic, on=fn):
-            if msg := self.msgs.get(keys=dig):
-                yield (on, topic, msg.encode("utf-8"))
+            if msg := self._getMsg(dig):
+                yield (on, topic, msg)
 
 
 
-- 
2.43.0


From 7e6ff7b22a3aa4e7140c7eb1af4943c6441f1e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:59 +0000
Subject: [PATCH 101/104] fix: mailbox message is streamed again when one
 before it is gone

---
 src/keri/app/indirecting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/app/indirecting.py b/src/keri/app/indirecting.py
index fe4a3ef..da81e0a 100644
--- a/src/keri/app/indirecting.py
+++ b/src/keri/app/indirecting.py
@@ -1025,7 +1025,7 @@ class MailboxIterable:
                                           .encode("utf-8")))
                     data.extend(msg)
                     data.extend(b'\n\n')
-                    idx = idx + 1
+                    idx = fn + 1
                     self.start = time.perf_counter()
 
                 self.topics[topic] = idx
-- 
2.43.0


From 7395de6ee2fe9a009e90e46abc3e36bd89f77f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:59 +0000
Subject: [PATCH 102/104] fix: signals that come or go while old ones are
 looked for stop the signaler

---
 src/keri/app/signaling.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/keri/app/signaling.py b/src/keri/app/signaling.py
index 9a2d088..2abd523 100644
--- a/src/keri/app/signaling.py
+++ b/src/keri/app/signaling.py
@@ -146,13 +146,14 @@ class Signaler(doing.DoDoer):
         while True:  # loop checking for expired messages
             now = nowUTC()
             toRemove = []
-            for sig in self.signals:
+            for sig in list(self.signals):  # may change while yielding
                 if now - fromIso8601(sig.dt) > self.SignalTimeout:  # Expire messages that are too old
                     toRemove.append(sig)
                 yield self.tock
 
             for sig in toRemove:
-                self.signals.remove(sig)
+                if sig in self.signals:  # not taken or replaced meanwhile
+                    self.signals.remove(sig)
 
             yield self.tock
 
-- 
2.43.0


From d841d9646df70d433e8b428767ed6fbb247b0abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:34 +0000
Subject: [PATCH 103/104] fix: contact field with a dot in its name keeps
 contacts from being listed and found

---
 src/keri/app/organizing.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/keri/app/organizing.py b/src/keri/app/organizing.py
index 460cf50..faf3494 100644
--- a/src/keri/app/organizing.py
+++ b/src/keri/app/organizing.py
@@ -133,6 +133,16 @@ class BaseOrganizer:
         data["id"] = pre
         return data
 
+    def _fields(self):
+        """ Iterate over fields of all contacts, whose names may hold the separator of keys
+
+        Returns:
+            Iterator: of triples (pre, field, val)
+
+        """
+        for (pre, *parts), val in self.fielddb.getTopItemIter():
+            yield pre, self.fielddb.sep.join(parts), val
+
     def list(self):
         """ Return list of all contact information for all remote identifiers
 
@@ -143,7 +153,7 @@ class BaseOrganizer:
         key = ""
         data = None
         contacts = []
-        for (pre, field), val in self.fielddb.getTopItemIter():
+        for pre, field, val in self._fields():
             if pre != key:
                 if data is not None:
                     contacts.append(data)
@@ -170,7 +180,7 @@ class BaseOrganizer:
         """
         pres = []
         prog = re.compile(f".*{val}.*", re.I)
-        for (pre, f), v in self.fielddb.getTopItemIter():
+        for pre, f, v in self._fields():
             if f == field and prog.match(v):
                 pres.append(pre)
 
@@ -192,7 +202,7 @@ class BaseOrganizer:
 
         """
         pres = []
-        for (pre, f), v in self.fielddb.getTopItemIter():
+        for pre, f, v in self._fields():
             if f == field and v == val:
                 pres.append(pre)
 
@@ -212,7 +222,7 @@ class BaseOrganizer:
         prog = re.compile(f".*{val}.*", re.I) if val is not None else None
 
         vals = oset()
-        for (pre, f), v in self.fielddb.getTopItemIter():
+        for pre, f, v in self._fields():
             if f == field and (prog is None or prog.match(v)):
                 vals.add(v)
 
-- 
2.43.0


From 5d4bc0370bec3b09a415f7569d8f21ff6a3d0770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:00 +0000
Subject: [PATCH 104/104] fix: contact is listed as another when its data has a
 field named id

---
 src/keri/app/organizing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keri/app/organizing.py b/src/keri/app/organizing.py
index faf3494..fc7730f 100644
--- a/src/keri/app/organizing.py
+++ b/src/keri/app/organizing.py
@@ -160,7 +160,8 @@ class BaseOrganizer:
                 data = dict(id=pre)
                 key = pre
 
-            data[field] = val
+            if field != "id":  # prefix that data is of
+                data[field] = val
 
         if data is not None:
             contacts.append(data)
-- 
2.43.0

