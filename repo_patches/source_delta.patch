From 5db5ec942ad135ff4658522d2bbaf2aaa4aa1c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:30 +0000
Subject: [PATCH 01/50] fix: keep the length in logical operations on integer
 activations

&, | and ^ of two activations stored as integers called Activation(int) without its length and raised ValueError.
---
 ruleskit/activation.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index ec7e5fc..f6711cd 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -574,7 +574,12 @@ class Activation(ABC):
         if (self.data_format == "bitarray" and a2.data_format == "bitarray") or (
             self.data_format == "integer" and a2.data_format == "integer"
         ):  # gains time by not using raw
-            return Activation(self.data & a2.data, optimize=self.optimize and a2.optimize, to_file=False)
+            return Activation(
+                self.data & a2.data,
+                optimize=self.optimize and a2.optimize,
+                length=self.length,
+                to_file=False,
+            )
         else:
             return Activation(
                 self.raw * a2.raw,
@@ -634,7 +639,12 @@ class Activation(ABC):
         if (self.data_format == "bitarray" and a2.data_format == "bitarray") or (
             self.data_format == "integer" and a2.data_format == "integer"
         ):  # gains time by not using raw
-            return Activation(self.data | a2.data, optimize=self.optimize and a2.optimize, to_file=False)
+            return Activation(
+                self.data | a2.data,
+                optimize=self.optimize and a2.optimize,
+                length=self.length,
+                to_file=False,
+            )
         else:
             return Activation(
                 self.raw | a2.raw,
@@ -695,7 +705,12 @@ class Activation(ABC):
         if (self.data_format == "bitarray" and a2.data_format == "bitarray") or (
             self.data_format == "integer" and a2.data_format == "integer"
         ):  # gains time by not using raw
-            return Activation(self.data ^ a2.data, optimize=self.optimize and a2.optimize, to_file=False)
+            return Activation(
+                self.data ^ a2.data,
+                optimize=self.optimize and a2.optimize,
+                length=self.length,
+                to_file=False,
+            )
         else:
             return Activation(
                 self.raw ^ a2.raw,
-- 
2.43.0


From 12d2359707c916c2d0fa7b34630cd1d72eb5add8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:30 +0000
Subject: [PATCH 02/50] fix: Activation.__add__ computes the logical OR it
 documents

'self or other' returned one of the operands.
---
 ruleskit/activation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index f6711cd..f0ee9e3 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -737,7 +737,7 @@ class Activation(ABC):
 
     def __add__(self, other: "Activation") -> "Activation":
         """Synonym of logical OR"""
-        return self or other
+        return self | other
 
     def __sub__(self, other: "Activation") -> "Activation":
         """Logical EXCLUSIVE OR then logical AND"""
-- 
2.43.0


From c1997767968f90757eb935853de31e47b21d7cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:30 +0000
Subject: [PATCH 03/50] fix: accept binary text and text paths as activations

type(activation) was compared with the text "str", so the branch documented for '010011' and for paths
was never taken, and the binary text branch lost the vector length.
---
 ruleskit/activation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index f0ee9e3..f8d6b16 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -204,8 +204,8 @@ class Activation(ABC):
         self.lasy = False
 
         # does not use instance to avoid conflicts if using TransparentPath
-        if type(activation) == "str" and "," not in activation:
-            if any([c in activation for c in "abcdefhijklmnopqrstuvwxy./\\"]):  # is a file path
+        if type(activation) == str and "," not in activation:
+            if any([c not in "01" for c in activation]):  # is a file path
                 if TransparentPath is not None:
                     # noinspection PyCallingNonCallable
                     activation = TransparentPath(activation)
@@ -213,6 +213,7 @@ class Activation(ABC):
                     activation = Path(activation)
             else:
                 if Activation.WILL_COMPARE:
+                    length = len(activation)
                     activation = int(activation, 2)
                 else:
                     activation = bitarray(activation)
-- 
2.43.0


From 41652de187f41aa981008a3dadebfc4714b4a00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:30 +0000
Subject: [PATCH 04/50] fix: draw another file name when the chosen one is
 taken

arange.remove(number) raised ValueError since arange only holds the two limits.
---
 ruleskit/activation.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index f8d6b16..f593214 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -319,9 +319,7 @@ class Activation(ABC):
                         " name. Will keep it in RAM."
                     )
                     return False
-                number += 1
                 attempts += 1
-                arange.remove(number)
                 number = random.randint(*arange)
                 data = Activation.DEFAULT_TEMPDIR / f"ACTIVATION_VECTOR_{number}.txt"
         data.touch()
-- 
2.43.0


From f5b5d4b53da9f014075a1dc702e66194f3cf6326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:30 +0000
Subject: [PATCH 05/50] fix: a lasy activation does not overwrite the file of
 another one

The random name was used without checking that it was free.
---
 ruleskit/activation.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index f593214..154ed18 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -310,18 +310,16 @@ class Activation(ABC):
         number = random.randint(*arange)
         data = Activation.DEFAULT_TEMPDIR / f"ACTIVATION_VECTOR_{number}.txt"
         attempts = 0
-        if not self.lasy:
-            # If is lasy, then the vector was loaded from a file that should be re-used for writing
-            while data.is_file():
-                if attempts > 99:
-                    logger.warning(
-                        "Failed to save activation vector locally after 100 attempts at finding an available"
-                        " name. Will keep it in RAM."
-                    )
-                    return False
-                attempts += 1
-                number = random.randint(*arange)
-                data = Activation.DEFAULT_TEMPDIR / f"ACTIVATION_VECTOR_{number}.txt"
+        while data.is_file():
+            if attempts > 99:
+                logger.warning(
+                    "Failed to save activation vector locally after 100 attempts at finding an available"
+                    " name. Will keep it in RAM."
+                )
+                return False
+            attempts += 1
+            number = random.randint(*arange)
+            data = Activation.DEFAULT_TEMPDIR / f"ACTIVATION_VECTOR_{number}.txt"
         data.touch()
         self.data = data
         self.data_format = "file"
-- 
2.43.0


From aef6457a255bbf4bd9d6fe54a8a13285728e7b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:30 +0000
Subject: [PATCH 06/50] fix: containment of activations is not symmetric

'a in b' was True as soon as one of the two contained the other.
---
 ruleskit/activation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 154ed18..4013386 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -771,7 +771,7 @@ class Activation(ABC):
         intersection = self & other
         nones_intersection = intersection.nones
         intersection.delete()
-        if nones_intersection < min(self.nones, other.nones):
+        if nones_intersection < other.nones:
             return False
         return True
 
-- 
2.43.0


From b8f7d57451bee8610c9e8a6f41ae3755105608d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:30 +0000
Subject: [PATCH 07/50] fix: int32 holds numbers below 2**31

Positions in vectors longer than that overflowed in compressed arrays.
---
 ruleskit/activation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 4013386..1c61694 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -19,7 +19,7 @@ try:
 except ImportError:
     TransparentPath = None
 
-MAX_INT_32 = 2 ** 32
+MAX_INT_32 = 2 ** 31
 
 
 # noinspection PyAttributeOutsideInit
-- 
2.43.0


From ec6eae0db22941c152bf02c120f827334c1d1bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:52 +0000
Subject: [PATCH 08/50] fix: give lasy activations a length

The length of an activation created from a path with lasy=True stayed None, so len(), statistics and logical
operations failed or compared None with None.
---
 ruleskit/activation.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 1c61694..83f98c2 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -565,7 +565,7 @@ class Activation(ABC):
     def __and__(self, a2: "Activation") -> "Activation":
         """logical AND of two activation vectors. Only valid if both have the same length. Both vectors DO NOT need
         to have the same format."""
-        if self.length != a2.length:
+        if len(self) != len(a2):
             raise ValueError(f"Activations have different lengths. Left is {self.length}, right is {a2.length}")
 
         if (self.data_format == "bitarray" and a2.data_format == "bitarray") or (
@@ -630,7 +630,7 @@ class Activation(ABC):
     def __or__(self, a2: "Activation") -> "Activation":
         """LOGICAL OR of two activation vectors. Only valid if both have the same length. Both vectors DO NOT need
         to have the same format."""
-        if self.length != a2.length:
+        if len(self) != len(a2):
             raise ValueError(f"Activations have different lengths. Left is {self.length}, right is {a2.length}")
 
         if (self.data_format == "bitarray" and a2.data_format == "bitarray") or (
@@ -696,7 +696,7 @@ class Activation(ABC):
     def __xor__(self, a2: "Activation") -> "Activation":
         """Logcial EXCLUSIVE OR of two activation vectors. Only valid if both have the same length. Both vectors DO NOT
         need to have the same format."""
-        if self.length != a2.length:
+        if len(self) != len(a2):
             raise ValueError(f"Activations have different lengths. Left is {self.length}, right is {a2.length}")
 
         if (self.data_format == "bitarray" and a2.data_format == "bitarray") or (
@@ -749,7 +749,7 @@ class Activation(ABC):
 
     def clear(self):
         """Fill Activation with zeros"""
-        data = np.zeros(self.length)
+        data = np.zeros(len(self))
         self._reset_data_related_attributes()
         self._init_with_raw(data, Activation.DTYPE)
 
@@ -765,6 +765,8 @@ class Activation(ABC):
 
     def __len__(self):
         """Number of points in the vector"""
+        if self.length is None:  # lasy vector whose file was not read yet
+            self._read(out=False)
         return self.length
 
     def __contains__(self, other: "Activation") -> bool:
@@ -830,6 +832,8 @@ class Activation(ABC):
                 self._sizeof_raw = value.nbytes / 1e6
             if self._nones is None:
                 self._nones = np.count_nonzero(value == 1)
+            if self.length is None:
+                self.length = len(value)
             stat = path.stat()
             if isinstance(stat, dict):
                 self._sizeof_file = stat["st_size"] / 1e6
-- 
2.43.0


From 1a7a576a5bfc6445399575ef3d27c9e097d2be20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:52 +0000
Subject: [PATCH 09/50] fix: a stored compressed array of a single point is not
 a raw vector

The compressed form of a vector of length 1 ends with 1 and was taken for a raw vector of length 2 when read or copied.
---
 ruleskit/activation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 83f98c2..d3bd357 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -745,6 +745,9 @@ class Activation(ABC):
     def __copy__(self) -> "Activation":
         if self.data_format == "integer":
             return Activation(copy(self.data), optimize=self.optimize, length=self.length)
+        if self.data_format == "compressed_array":
+            # as text, for the compressed array of a vector of length 1 looks like a raw vector
+            return Activation(self.as_compressed_str, optimize=self.optimize)
         return Activation(copy(self.data), optimize=self.optimize, to_file=self.data_format == "file")
 
     def clear(self):
@@ -960,6 +963,7 @@ class Activation(ABC):
         """
         t0 = time()
 
+        stored_compressed = value is None and "compressed" in self.data_format
         if value is None:
             out = False
             if self.data_format == "file":
@@ -986,7 +990,7 @@ class Activation(ABC):
                     if self._nones is None:
                         self._nones = 0
                 return np.array([])
-        if value[-1] == 0 or value[-1] == 1:  # is already raw
+        if not stored_compressed and (value[-1] == 0 or value[-1] == 1):  # is already raw
             if value.dtype != np.ubyte:  # Saves memory
                 value = value.astype(np.ubyte)
             if not out:
-- 
2.43.0


From 1ccc1c38f35608c75d11251c4752fab53d0f9e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:05 +0000
Subject: [PATCH 10/50] fix: compare conditions by features and bounds, not by
 hash

hash(-1) == hash(-2) in Python, so conditions differing only by a bound of -1 or -2 were equal.
---
 ruleskit/condition.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ruleskit/condition.py b/ruleskit/condition.py
index 0afd2c2..4c9c770 100644
--- a/ruleskit/condition.py
+++ b/ruleskit/condition.py
@@ -352,7 +352,9 @@ class HyperrectangleCondition(Condition):
     def __eq__(self, other):
         """Two HyperrectangleConditions are equal if they talk about the same features, and if the bmins and bmaxs
         are the same from one rule to another. Features indexes can be different."""
-        return self.__hash__() == other.__hash__()
+        if not isinstance(other, HyperrectangleCondition):
+            return False
+        return frozenset(self.to_hash) == frozenset(other.to_hash)
 
     @property
     def to_hash(self) -> Tuple[str]:
-- 
2.43.0


From eec2c5ec76384d05b31e14b95387bc4a289f7d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:05 +0000
Subject: [PATCH 11/50] fix: setting bounds resets the impossible flag

Once impossible, a condition stayed so (and evaluated to zeros) even when given valid bounds.
---
 ruleskit/condition.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ruleskit/condition.py b/ruleskit/condition.py
index 4c9c770..5a5ea03 100644
--- a/ruleskit/condition.py
+++ b/ruleskit/condition.py
@@ -321,9 +321,8 @@ class HyperrectangleCondition(Condition):
         if len(self) > 0 and len(self) != len(value):
             raise IndexError(f"Condition has {len(self)} features but you gave {len(value)} bmins")
         self._bmins = value
-        if any([a > b for a, b in zip(self.bmins, self.bmaxs)]):
-            # If a bmin is above its associated bmax, then the rule is impossible.
-            self.impossible = True
+        # If a bmin is above its associated bmax, then the rule is impossible.
+        self.impossible = any([a > b for a, b in zip(self.bmins, self.bmaxs)])
 
     @bmaxs.setter
     def bmaxs(self, value: Union[List[Union[int, float]], str]):
@@ -332,9 +331,8 @@ class HyperrectangleCondition(Condition):
         if len(self) > 0 and len(self) != len(value):
             raise IndexError(f"Condition has {len(self)} features but you gave {len(value)} bmaxs")
         self._bmaxs = value
-        if any([a > b for a, b in zip(self.bmins, self.bmaxs)]):
-            # If a bmin is above its associated bmax, then the rule is impossible.
-            self.impossible = True
+        # If a bmin is above its associated bmax, then the rule is impossible.
+        self.impossible = any([a > b for a, b in zip(self.bmins, self.bmaxs)])
 
     def __repr__(self):
         return self.__str__()
-- 
2.43.0


From 11c1f515f7d6c6ce288826403102b3360b3c27bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:05 +0000
Subject: [PATCH 12/50] fix: keep the decimals of bounds given as text

---
 ruleskit/condition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ruleskit/condition.py b/ruleskit/condition.py
index 5a5ea03..d2a582d 100644
--- a/ruleskit/condition.py
+++ b/ruleskit/condition.py
@@ -317,7 +317,7 @@ class HyperrectangleCondition(Condition):
     @bmins.setter
     def bmins(self, value: Union[List[Union[int, float]], str]):
         if isinstance(value, str):
-            value = [int(v) for v in ast.literal_eval(value)]
+            value = list(ast.literal_eval(value))
         if len(self) > 0 and len(self) != len(value):
             raise IndexError(f"Condition has {len(self)} features but you gave {len(value)} bmins")
         self._bmins = value
@@ -327,7 +327,7 @@ class HyperrectangleCondition(Condition):
     @bmaxs.setter
     def bmaxs(self, value: Union[List[Union[int, float]], str]):
         if isinstance(value, str):
-            value = [int(v) for v in ast.literal_eval(value)]
+            value = list(ast.literal_eval(value))
         if len(self) > 0 and len(self) != len(value):
             raise IndexError(f"Condition has {len(self)} features but you gave {len(value)} bmaxs")
         self._bmaxs = value
-- 
2.43.0


From 4c626cc4e8477c00ebac4d8e5eef3969f584ebb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:05 +0000
Subject: [PATCH 13/50] fix: compare class probabilities as numbers

With text classes the probabilities are stored as text and were compared as such: '5e-05' > '0.9'.
---
 ruleskit/rule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index bec087e..de0667d 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -734,7 +734,8 @@ class ClassificationRule(Rule):
         if self._prediction is not None:
             if isinstance(self._prediction, (float, int, str, np.integer, np.float64)):
                 return self._prediction
-            prop = [p[1] for p in self._prediction]
+            # probabilities are text if the classes are
+            prop = [float(p[1]) for p in self._prediction]
             idx = prop.index(max(prop))
             return self._prediction[idx][0]
         else:
-- 
2.43.0


From ef17731b57d896cf6bc4d0710170ce3dea94f648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:05 +0000
Subject: [PATCH 14/50] fix: do not truncate long class names in Rule.predict

---
 ruleskit/rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index de0667d..c71a6ed 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -513,7 +513,7 @@ class Rule(ABC):
                 raise ValueError(
                     "Prediction should not be the 'nan' string, it will conflict with NaNs. Rename your class."
                 )
-            to_ret = to_ret.astype(str)
+            to_ret = to_ret.astype(f"<U{max(32, len(self.prediction))}")
         to_ret[act == 1] = self.prediction
         if xs is not None and not isinstance(xs, np.ndarray):
             to_ret = xs.__class__(index=xs.index, data=to_ret).squeeze()  # So not to requier pandas explicitly
-- 
2.43.0


From 510db4d603d89af42c8cfed6a68495da3f24d5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:05 +0000
Subject: [PATCH 15/50] fix: Rule.predict on a one-row DataFrame returns a
 Series

squeeze() turned it into a scalar.
---
 ruleskit/rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index c71a6ed..61938e9 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -516,7 +516,7 @@ class Rule(ABC):
             to_ret = to_ret.astype(f"<U{max(32, len(self.prediction))}")
         to_ret[act == 1] = self.prediction
         if xs is not None and not isinstance(xs, np.ndarray):
-            to_ret = xs.__class__(index=xs.index, data=to_ret).squeeze()  # So not to requier pandas explicitly
+            to_ret = xs.__class__(index=xs.index, data=to_ret).squeeze(axis=1)  # So not to requier pandas explicitly
         self._time_predict = time() - t0
         return to_ret
 
-- 
2.43.0


From b8bc9afa88292995077158f1b14811d7904eaef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:05 +0000
Subject: [PATCH 16/50] fix: Rule.get_correlation compares the lengths of
 activations

It compared the number of features of the two rules; the activations' lengths are checked by Activation.get_correlation.
---
 ruleskit/rule.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index 61938e9..1a73171 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -526,9 +526,6 @@ class Rule(ABC):
         of the rules' signs.
         Both vectors must have the same length.
         """
-        if not len(self) == len(other):
-            raise ValueError("Both vectors must have the same length")
-
         sign = (self.prediction / abs(self.prediction)) * (other.prediction / abs(other.prediction))
         return self._activation.get_correlation(other._activation) * sign
 
-- 
2.43.0


From a4aa83e9bafab8350b2ea84e82d690681a88c32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:05 +0000
Subject: [PATCH 17/50] fix: use the thresholds set for one rule only

Rule.set_thresholds had no effect, and failed when given None.
---
 ruleskit/rule.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index 1a73171..49b6abf 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -87,6 +87,7 @@ class Rule(ABC):
         self._condition: Optional[Condition] = condition
         self._activation: Optional[Activation] = activation
         self._thresholds: Optional[Thresholds] = self.__class__.THRESHOLDS
+        self._own_thresholds: bool = False  # True if set for this rule only, by set_thresholds
         self._good: bool = True
         self._bad_because: Optional[str] = None
 
@@ -113,9 +114,10 @@ class Rule(ABC):
     def set_thresholds(self, path: Union[str, Path, "TransparentPath"], show=False):
         """Set thresholds for this rule only"""
         if path is None:
-            self._thresholds.THRESHOLDS = None
+            self._thresholds = None
         else:
             self._thresholds = Thresholds(path, show)
+        self._own_thresholds = True
 
     def check_thresholds(self, attribute: Optional[str] = None) -> None:
         """If `ruleskit.rule.Rule.THRESHOLDS` is specified, will check that this rule is good regarding those
@@ -128,11 +130,12 @@ class Rule(ABC):
             for which a threshold is defined.
         """
 
-        if self.__class__.THRESHOLDS is None:
+        thresholds = self._thresholds if self._own_thresholds else self.__class__.THRESHOLDS
+        if thresholds is None:
             return
 
         if attribute is not None:
-            if not self.__class__.THRESHOLDS(attribute, self):
+            if not thresholds(attribute, self):
                 self._bad_because = attribute
                 self._good = False
             return
@@ -140,7 +143,7 @@ class Rule(ABC):
         for attribute in dir(self):
             if attribute.startswith("__"):
                 continue
-            if not self.__class__.THRESHOLDS(attribute, self):
+            if not thresholds(attribute, self):
                 self._bad_because = attribute
                 self._good = False
                 return
-- 
2.43.0


From d9b0f887abf0639ef8bb1e42e8c1dbe26bfc498f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:05 +0000
Subject: [PATCH 18/50] fix: a classification rule activated nowhere has a NaN
 prediction

Fitting it raised IndexError.
---
 ruleskit/utils/rfunctions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index d10de9d..88ec65f 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -37,6 +37,8 @@ def class_probabilities(
         y_conditional = np.extract(activation, y)
         count = Counter(y_conditional)
         n = len(y_conditional)
+        if n == 0:
+            return np.nan
         prop = [v / n for v in count.values()]
         proba = np.array([(c, v) for c, v in zip(count.keys(), prop)])
         proba = proba[proba[:, 0].argsort()]
-- 
2.43.0


From 747b1812e651b6460bd3ce40292d4bbb8acfae5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:35 +0000
Subject: [PATCH 19/50] fix: average of predictions in unstacked regression
 rule sets

Predictions cancelling out or being 0 gave NaN or a TypeError, the activation
of the first rule was overwritten with the number of activated rules, that
number overflowed above 255 rules, and a rule with a NaN prediction made the
prediction NaN everywhere.
---
 ruleskit/utils/rfunctions.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index 88ec65f..b14d90b 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -460,16 +460,13 @@ def calc_ruleset_prediction_weighted_regressor_unstacked(
             continue
         if len(activation) == 0:
             continue
+        prediction_vector = rule.calc_prediction_vector(activation=activation) * weights[rulename]
         if cum_pred is None:
-            cum_pred = rule.calc_prediction_vector(activation=activation) * weights[rulename]
-            cum_w = activation * weights[rulename]
+            cum_pred = prediction_vector
+            cum_w = prediction_vector.notna() * weights[rulename]
         else:
-            cum_pred = (
-                (cum_pred.replace(0, "zero").replace(np.nan, 0) + activation * rule.prediction * weights[rulename])
-                .replace(0, np.nan)
-                .replace("zero", 0)
-            )
-            cum_w += activation * weights[rulename]
+            cum_pred = cum_pred.add(prediction_vector, fill_value=0)
+            cum_w = cum_w + prediction_vector.notna() * weights[rulename]
     if cum_pred is None:
         raise ValueError(
             "No rules had non-zero/non-NaN weights, or all predictions left after applying weights where NaN"
@@ -502,16 +499,13 @@ def calc_ruleset_prediction_equally_weighted_regressor_unstacked(
             continue
         if len(activation) == 0:
             continue
+        prediction_vector = rule.calc_prediction_vector(activation=activation)
         if cum_pred is None:
-            cum_pred = rule.calc_prediction_vector(activation=activation)
-            cum_w = activation
+            cum_pred = prediction_vector
+            cum_w = prediction_vector.notna() * 1
         else:
-            cum_pred = (
-                (cum_pred.replace(0, "zero").replace(np.nan, 0) + activation * rule.prediction)
-                .replace(0, np.nan)
-                .replace("zero", 0)
-            )
-            cum_w += activation
+            cum_pred = cum_pred.add(prediction_vector, fill_value=0)
+            cum_w = cum_w + prediction_vector.notna() * 1
     if cum_pred is None:
         raise ValueError(
             "No rules had non-zero/non-NaN weights, or all predictions left after applying weights where NaN"
-- 
2.43.0


From 267a2c44746ad60b82510d65f5ba4cafaa3b9620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:35 +0000
Subject: [PATCH 20/50] fix: save the test set size of a rule set, not its
 train set size

---
 ruleskit/ruleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index df527fa..21f1a26 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -973,7 +973,7 @@ class RuleSet(ABC):
         )
         s_test = pd.DataFrame(
             columns=df.columns,
-            data=[[self.train_set_size if i == 0 else np.nan for i in range(len(df.columns))]],
+            data=[[self.test_set_size if i == 0 else np.nan for i in range(len(df.columns))]],
             index=["ruleset test set size"],
         )
         return pd.concat([df, s_cov, s_crit, s_train, s_test])
-- 
2.43.0


From 0add844ae2686a815820fccb76ed95b88e0dc111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:35 +0000
Subject: [PATCH 21/50] fix: load rules whose class name is not a valid
 expression

---
 ruleskit/ruleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 21f1a26..412c961 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -1034,7 +1034,7 @@ class RuleSet(ABC):
                     if rule_ind == "prediction":  # Prediction can be a str in case of classification
                         try:
                             setattr(rule, f"_{rule_ind}", ast.literal_eval(str_value))
-                        except ValueError:
+                        except (ValueError, SyntaxError):
                             setattr(rule, f"_{rule_ind}", str_value)
                     else:
                         setattr(rule, f"_{rule_ind}", ast.literal_eval(str_value))
-- 
2.43.0


From 97dd5a7160b26b3d1a8d4d6db906f7b6ed5e8ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:35 +0000
Subject: [PATCH 22/50] fix: loaded coverage and criterion of a rule set are
 numbers

---
 ruleskit/ruleset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 412c961..65f5bfe 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -892,10 +892,10 @@ class RuleSet(ABC):
         else:
             rules = pd.read_csv(path, **kwargs)
         if "ruleset coverage" in rules.iloc[:, 0].values:
-            self._coverage = rules[rules.iloc[:, 0] == "ruleset coverage"].iloc[0, 1]
+            self._coverage = float(rules[rules.iloc[:, 0] == "ruleset coverage"].iloc[0, 1])
             rules = rules.drop(rules[rules.iloc[:, 0] == "ruleset coverage"].index)
         if "ruleset criterion" in rules.iloc[:, 0].values:
-            self.criterion = rules[rules.iloc[:, 0] == "ruleset criterion"].iloc[0, 1]
+            self.criterion = float(rules[rules.iloc[:, 0] == "ruleset criterion"].iloc[0, 1])
             rules = rules.drop(rules[rules.iloc[:, 0] == "ruleset criterion"].index)
         if "ruleset train set size" in rules.iloc[:, 0].values:
             self.train_set_size = rules[rules.iloc[:, 0] == "ruleset train set size"].iloc[0, 1]
-- 
2.43.0


From c8e363f497ccc5f790a868766afec914d1c7ab9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:35 +0000
Subject: [PATCH 23/50] fix: restore the names of loaded rules

---
 ruleskit/ruleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 65f5bfe..58272aa 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -1017,7 +1017,7 @@ class RuleSet(ABC):
             rule = Rule()
         rule_idx = copy(rule.__class__.rule_index)
         condition_index = {c: None for c in rule.__class__.condition_index}
-        rule._name = srule.index[0]
+        rule._name = srule["Unnamed: 0"] if "Unnamed: 0" in srule.index else srule.name
 
         for rule_ind in srule.index:
             str_value = str(srule[rule_ind])
-- 
2.43.0


From 39c54f617512758657bfb8a3c382c77270744c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:35 +0000
Subject: [PATCH 24/50] fix: load rules with infinite bounds or measures

---
 ruleskit/ruleset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 58272aa..714bc55 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -1022,12 +1022,14 @@ class RuleSet(ABC):
         for rule_ind in srule.index:
             str_value = str(srule[rule_ind])
             if rule_ind in condition_index:
+                if rule_ind in ("bmins", "bmaxs"):
+                    str_value = str_value.replace("inf", "1e999")  # a literal for infinity
                 condition_index[rule_ind] = ast.literal_eval(str_value)
             elif rule_ind in rule_idx:
                 if rule_ind == "activation":
                     setattr(rule, f"_{rule_ind}", Activation(str_value))
-                elif str_value == "nan":
-                    setattr(rule, f"_{rule_ind}", np.nan)
+                elif str_value in ("nan", "inf", "-inf"):
+                    setattr(rule, f"_{rule_ind}", float(str_value))
                 elif rule_ind == "sign":
                     setattr(rule, f"_{rule_ind}", str_value)
                 else:
-- 
2.43.0


From c1e413ec06ce56fbd36b43db155f7e366c8f1e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:35 +0000
Subject: [PATCH 25/50] fix: stacked fit and eval drop each bad rule, once

---
 ruleskit/ruleset.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 714bc55..3b42284 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -425,11 +425,11 @@ class RuleSet(ABC):
                     setattr(self._rules[ir], f"_{attr[:-1]}", computed_attrs[attr].iloc[ir])
                     if self._rules[ir].good:
                         self._rules[ir].check_thresholds(attr[:-1])
-                    if not self._rules[ir].good:
-                        to_drop.append(self._rules[ir])
                 # To check attributes that are set along side others, like coverage
                 if self._rules[ir].good:
                     self._rules[ir].check_thresholds()
+                if not self._rules[ir].good:
+                    to_drop.append(self._rules[ir])
         else:
             [r.fit(xs=xs, y=y, force_if_not_good=force_if_not_good, **kwargs) for r in self]
             to_drop = [r for r in self if not r.good]
@@ -625,10 +625,10 @@ class RuleSet(ABC):
                     setattr(self._rules[ir], f"_{attr[:-1]}", computed_attrs[attr].iloc[ir])
                     if self._rules[ir].good:
                         self._rules[ir].check_thresholds(attr[:-1])
-                    if not self._rules[ir].good:
-                        to_drop.append(self._rules[ir])
                 if self._rules[ir].good:
                     self._rules[ir].check_thresholds()
+                if not self._rules[ir].good:
+                    to_drop.append(self._rules[ir])
         else:
             [
                 r.eval(
-- 
2.43.0


From 64e736382fbb40a54a19edd5328bb15ad4a85276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:35 +0000
Subject: [PATCH 26/50] fix: do not drop a good rule with the condition of a
 bad one

---
 ruleskit/ruleset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 3b42284..14b477a 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -435,7 +435,7 @@ class RuleSet(ABC):
             to_drop = [r for r in self if not r.good]
 
         if len(to_drop) > 0:
-            rules = [r for r in self.rules if r not in to_drop]
+            rules = [r for r in self.rules if r.good]
             self._rules = []
             if self._activation is not None:
                 self._activation.clear()
@@ -639,7 +639,7 @@ class RuleSet(ABC):
             to_drop = [r for r in self if not r.good]
 
         if len(to_drop) > 0:
-            rules = [r for r in self.rules if r not in to_drop]
+            rules = [r for r in self.rules if r.good]
             self._rules = []
             if self._activation is not None:
                 self._activation.clear()
-- 
2.43.0


From 7a7c8b8ba08b3e98df3b18c80d7a39b2b40eb66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:35 +0000
Subject: [PATCH 27/50] fix: recompute the activation of a rule set when eval
 drops rules

---
 ruleskit/ruleset.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 14b477a..6ca5a89 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -648,12 +648,9 @@ class RuleSet(ABC):
                 self.append(r, update_activation=False)
 
             # Recompute activation now that bad rules have been droped
-            if self._activation is None or self._activation.length == 0 or (xs is not None and keep_new_activations):
-                self._activation = None
-                self.compute_self_activation()
-            if self.stack_activation and (
-                    self.stacked_activations is None or (xs is not None and keep_new_activations)
-            ):
+            self._activation = None
+            self.compute_self_activation()
+            if self.stack_activation:
                 self.stacked_activations = None
                 self.compute_stacked_activation()
         # If not bad rules were dropped and stacked fit was not used, still compute self.activation since it has not
-- 
2.43.0


From 03b1254e478d8eb75200b063ffbeb85f7d892d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:35 +0000
Subject: [PATCH 28/50] fix: stack the activations of the rules of an added
 rule set

They were missing if that rule set did not stack them itself, and shared with
it otherwise.
---
 ruleskit/ruleset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 6ca5a89..07c6ba4 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -311,12 +311,14 @@ class RuleSet(ABC):
                         data=np.array(other.activation).T, columns=[str(other.condition)]
                     )
                 else:
-                    self.stacked_activations = other.stacked_activations
+                    self.stacked_activations = other.evaluate_stacked_activations()
             else:
                 if isinstance(other, Rule):
                     self.stacked_activations[str(other.condition)] = other.activation
                 else:
-                    self.stacked_activations = pd.concat([self.stacked_activations, other.stacked_activations], axis=1)
+                    self.stacked_activations = pd.concat(
+                        [self.stacked_activations, other.evaluate_stacked_activations()], axis=1
+                    )
 
     def set_features_indexes(self):
         if len(self.__class__.all_features_indexes) > 0:
-- 
2.43.0


From a2e85694ba2927a5912d1896ffa0c4b5cf53c19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:35 +0000
Subject: [PATCH 29/50] fix: sort a rule set whose rules have no activation yet

---
 ruleskit/ruleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 07c6ba4..e5d9f51 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -749,7 +749,7 @@ class RuleSet(ABC):
             self._rules = sorted(self, key=lambda x: getattr(x, criterion), reverse=reverse)
         else:
             raise ValueError(f"Can not sort RuleSet according to criterion {criterion}")
-        if self.stack_activation:
+        if self.stack_activation and self.stacked_activations is not None:
             self.stacked_activations = self.stacked_activations[[str(r.condition) for r in self]]
 
     # noinspection PyProtectedMember
-- 
2.43.0


From 133c584d79585d956a98a622c421413720f3619c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:35 +0000
Subject: [PATCH 30/50] fix: stacked fit of a classification rule activated
 nowhere

---
 ruleskit/ruleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index e5d9f51..a0be997 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -1093,7 +1093,7 @@ class RuleSet(ABC):
                 class_probabilities = functions.class_probabilities(stacked_activations, y)
                 maxs = class_probabilities.max()
                 return class_probabilities[class_probabilities == maxs].apply(
-                    lambda x: x.dropna().sort_index().index[0]
+                    lambda x: np.nan if x.dropna().empty else x.dropna().sort_index().index[0]
                 )
             elif issubclass(self.rule_type, RegressionRule):
                 return functions.conditional_mean(stacked_activations, y)
-- 
2.43.0


From 966ab013701f308ad8418f8f33e73b630a416f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:35 +0000
Subject: [PATCH 31/50] fix: stacked vote when a single observation, or none,
 has a winner

The prediction of the only observation having one was given to the first one.
---
 ruleskit/utils/rfunctions.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index b14d90b..09b96e0 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -606,11 +606,7 @@ def calc_ruleset_prediction_equally_weighted_classificator_stacked(prediction_ve
         most_freq_pred = prediction_vectors.fillna(value=np.nan).replace("nan", np.nan).mode(axis=1)
     else:
         most_freq_pred = prediction_vectors.mode(axis=1)
-    most_freq_pred = most_freq_pred.loc[most_freq_pred.count(axis=1) == 1].dropna(axis=1).squeeze()
-    # Happens if only on point is activated, in which case 'squeeze' will only extract this point's prediction as a
-    # float, int or str
-    if not isinstance(most_freq_pred, pd.Series):
-        most_freq_pred = pd.Series([most_freq_pred])
+    most_freq_pred = most_freq_pred.loc[most_freq_pred.count(axis=1) == 1].reindex(columns=[0])[0]
     most_freq_pred.name = None
     return most_freq_pred.reindex(idx)
 
-- 
2.43.0


From d61b2b1a8c83f1c2c10053003673b8467de64e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:35 +0000
Subject: [PATCH 32/50] fix: n_features_ of decision trees no longer exists in
 scikit-learn

---
 ruleskit/utils/rule_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/utils/rule_utils.py b/ruleskit/utils/rule_utils.py
index f268e6d..53d8543 100644
--- a/ruleskit/utils/rule_utils.py
+++ b/ruleskit/utils/rule_utils.py
@@ -95,7 +95,7 @@ def extract_rules_from_tree(
     """
     decision_tree = tree.tree_
     if features_names is None:
-        features_names = ["X_" + str(i) for i in range(tree.n_features_)]
+        features_names = ["X_" + str(i) for i in range(tree.n_features_in_)]
 
     def visitor(node, depth, condition=None, rules_list=None):
         if rules_list is None:
-- 
2.43.0


From 400a5fbd050c0dbb6780cbd3c938515a7bf9a70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:35 +0000
Subject: [PATCH 33/50] fix: keep the upper bound of the parent in the right
 branch of a tree

---
 ruleskit/utils/rule_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/utils/rule_utils.py b/ruleskit/utils/rule_utils.py
index 53d8543..56e96d3 100644
--- a/ruleskit/utils/rule_utils.py
+++ b/ruleskit/utils/rule_utils.py
@@ -175,7 +175,7 @@ def extract_rules_from_tree(
                     new_condition = copy.deepcopy(condition)
                     place = new_condition.features_indexes.index(decision_tree.feature[node])
                     new_condition.bmins[place] = max(new_bmins, new_condition.bmins[place])
-                    new_condition.bmaxs[place] = max(new_bmaxs, new_condition.bmaxs[place])
+                    new_condition.bmaxs[place] = min(new_bmaxs, new_condition.bmaxs[place])
 
             # Create the rule for the right side of the node then apply this
             # function on the right side of the node
-- 
2.43.0


From 57611bb880e595111c7943b77dfa1b80648d287d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:06 +0000
Subject: [PATCH 34/50] fix: classes named 'zero' or '' in stacked
 classification

---
 ruleskit/utils/rfunctions.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index 09b96e0..1474862 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -56,9 +56,7 @@ def class_probabilities(
                 y = pd.Series(y.squeeze())
             else:
                 raise ValueError("y must be a 1-D DataFrame or ndarray or pd.Series")
-        y_conditional = (
-            activation.mul(y.replace(0, "zero"), axis=0).replace(0, np.nan).replace("", np.nan).replace("zero", 0)
-        )
+        y_conditional = activation.apply(lambda x: y.where(x != 0))
         count = y_conditional.apply(lambda x: x.value_counts())
         count.index = count.index.astype(y.dtype)
         return count.apply(lambda x: x / x.dropna().sum())
@@ -400,12 +398,7 @@ def calc_classification_criterion(
                 y = pd.Series(y.squeeze())
             else:
                 raise ValueError("y must be a 1-D DataFrame or ndarray or pd.Series")
-        y_conditional = (
-            activation_vector.mul(y.replace(0, "zero"), axis=0)
-            .replace(0, np.nan)
-            .replace("", np.nan)
-            .replace("zero", 0)
-        )
+        y_conditional = activation_vector.apply(lambda x: y.where(x != 0))
         return success_rate(prediction, y_conditional)
 
 
-- 
2.43.0


From 7b36bbb2d94937288cf6ca7074c34f4455885351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:44 +0000
Subject: [PATCH 35/50] fix: mae_norm divides by the mean absolute distance to
 the mean, not by zero

---
 ruleskit/utils/rfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index 1474862..7870af6 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -209,7 +209,7 @@ def mae_function(
 def mae_norm(
     prediction_vector: Union[pd.Series, pd.DataFrame], y: Union[np.ndarray, pd.Series]
 ) -> Union[float, pd.Series]:
-    return mae_function(prediction_vector, y) / np.mean(np.mean(y) - y)
+    return mae_function(prediction_vector, y) / np.mean(np.abs(np.mean(y) - y))
 
 
 def aae_function(
-- 
2.43.0


From 20255a7a32d57544b887e9fff0b5dc5427e6bbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:18 +0000
Subject: [PATCH 36/50] fix: votes for a class no longer overflow in 8 bits

---
 ruleskit/utils/rfunctions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index 7870af6..f7fb870 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -550,6 +550,7 @@ def calc_ruleset_prediction_weighted_classificator_unstacked(
             continue
         if nones == 0:
             continue
+        activation = activation.astype(int)  # votes would overflow in 8 bits
         if preds is None:
             preds = pd.DataFrame(index=[rule.prediction], data=[activation * weights[rulename]])
         else:
-- 
2.43.0


From 281eb6a5bad9ed0cc6dbfed2e3aeb5a05146cbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:33 +0000
Subject: [PATCH 37/50] fix: thresholds can refer to an attribute which is not
 measured yet

---
 ruleskit/thresholds.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ruleskit/thresholds.py b/ruleskit/thresholds.py
index 2cab835..f7608da 100644
--- a/ruleskit/thresholds.py
+++ b/ruleskit/thresholds.py
@@ -73,11 +73,14 @@ class Thresholds:
             value = Thresholds.KWOWN_ARGS[threshold["arg"]](value)
             s = f"{threshold['arg']}({tkey})"
 
-        for lim in threshold:
+        for lim in list(threshold):
             if lim == "arg":
                 continue
             if isinstance(threshold[lim], str):
                 threshold[lim] = getattr(rule, threshold[lim])
+                if threshold[lim] is None:  # That attribute is not known yet : can not compare to it
+                    del threshold[lim]
+                    continue
             if not isinstance(threshold[lim], (int, float)):
                 raise TypeError(f"Value in threshols can only be float or int, got {type(threshold[lim])}")
 
-- 
2.43.0


From 094879d4569f0e3a6cf56110646a861d42f9ba32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:12 +0000
Subject: [PATCH 38/50] fix: success rate of a rule set which predicts nothing,
 every vote being tied

---
 ruleskit/utils/rfunctions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index f7fb870..ec01169 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -322,7 +322,10 @@ def success_rate(
     elif isinstance(y, np.ndarray) and isinstance(prediction, pd.Series):
         if len(y) == 0:
             return pd.Series(dtype=int)
-        return sum(prediction == y) / len(prediction.dropna())
+        n_predicted = len(prediction.dropna())
+        if n_predicted == 0:
+            return np.nan
+        return sum(prediction == y) / n_predicted
     else:
         if not isinstance(y, pd.DataFrame):
             raise TypeError(
-- 
2.43.0


From c9d16b203c55f055ea93410d132d0b2855357c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:46 +0000
Subject: [PATCH 39/50] fix: thresholds on attributes of the activation or
 condition are no longer ignored

---
 ruleskit/rule.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index 49b6abf..13f1750 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -140,8 +140,9 @@ class Rule(ABC):
                 self._good = False
             return
 
-        for attribute in dir(self):
-            if attribute.startswith("__"):
+        # Not dir(self), which does not list the attributes of the condition and of the activation
+        for attribute in sorted(thresholds.limits):
+            if not hasattr(self, attribute):
                 continue
             if not thresholds(attribute, self):
                 self._bad_because = attribute
-- 
2.43.0


From 6104cf4dbae36da7134d68a44d8416ad9a1fe820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:41 +0000
Subject: [PATCH 40/50] fix: success rate of a rule set activated nowhere is
 NaN and not an empty Series

---
 ruleskit/utils/rfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index ec01169..acc3ee4 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -321,7 +321,7 @@ def success_rate(
         return sum(prediction == y) / len(y)
     elif isinstance(y, np.ndarray) and isinstance(prediction, pd.Series):
         if len(y) == 0:
-            return pd.Series(dtype=int)
+            return np.nan
         n_predicted = len(prediction.dropna())
         if n_predicted == 0:
             return np.nan
-- 
2.43.0


From 69dab160092c09384e82b2825ca31a7ef1099e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:33 +0000
Subject: [PATCH 41/50] fix: activation of a rule is None once its data was
 deleted

---
 ruleskit/rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index 13f1750..864e80e 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -220,7 +220,7 @@ class Rule(ABC):
         np.ndarray
             of the form [0, 1, 0, 0, 1, 1, 1, 0, 0, 0, 1, 1, 1, 1, 1, ...]
         """
-        if self._activation:
+        if self.activation_available:
             return self._activation.raw
         return None
 
-- 
2.43.0


From 9c1b1912cb6d2f081fcad35f31fabd633763ebab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:33 +0000
Subject: [PATCH 42/50] fix: activation of a rule set is None and its coverage
 kept once its data was deleted

---
 ruleskit/ruleset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index a0be997..cb3310c 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -278,7 +278,7 @@ class RuleSet(ABC):
         Union[None, np.ndarray]
             of the form [0, 1, 0, 0, 1, 1, 1, 0, 0, 0, 1, 1, 1, 1, 1, ...]
         """
-        if self._activation:
+        if self.activation_available:
             return self._activation.raw
         return None
 
@@ -286,6 +286,8 @@ class RuleSet(ABC):
     def ruleset_coverage(self) -> float:
         """Coverage is the fraction of points equal to 1 in the activation vector"""
         if not self.activation_available:
+            if self._activation is not None and self._activation._coverage is not None:
+                return self._activation._coverage
             return self._coverage
         else:
             return self._activation.coverage
-- 
2.43.0


From 5aabc74b1eec8dfd9f9fb04cdb90379e554c442b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:33 +0000
Subject: [PATCH 43/50] fix: a rule set forgets the features of the bad rules
 it drops

---
 ruleskit/ruleset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index cb3310c..1d96ac5 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -441,6 +441,8 @@ class RuleSet(ABC):
         if len(to_drop) > 0:
             rules = [r for r in self.rules if r.good]
             self._rules = []
+            self.features_names = []
+            self.features_indexes = []
             if self._activation is not None:
                 self._activation.clear()
             self.del_stacked_activations()
@@ -645,6 +647,8 @@ class RuleSet(ABC):
         if len(to_drop) > 0:
             rules = [r for r in self.rules if r.good]
             self._rules = []
+            self.features_names = []
+            self.features_indexes = []
             if self._activation is not None:
                 self._activation.clear()
             self.del_stacked_activations()
-- 
2.43.0


From 6ce0e7046b42430aede72955e461deaf4a7b42be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:33 +0000
Subject: [PATCH 44/50] fix: a loaded rule set has the features indexes of its
 rules

---
 ruleskit/ruleset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 1d96ac5..aee45fe 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -329,7 +329,7 @@ class RuleSet(ABC):
                 # noinspection PyProtectedMember
                 r._condition._features_indexes = [self.__class__.all_features_indexes[f] for f in r.features_names]
         else:
-            list(set(itertools.chain(*[rule.features_indexes for rule in self])))
+            self.features_indexes = list(set(itertools.chain(*[rule.features_indexes for rule in self])))
 
     # noinspection PyProtectedMember
     def fit(
@@ -932,6 +932,7 @@ class RuleSet(ABC):
         if self.stack_activation:
             self.compute_stacked_activation()
         self.features_names = list(set(traverse([rule.features_names for rule in self])))
+        self.set_features_indexes()
 
     def to_df(self, custom_rules_to_series: Optional[Callable] = None, ruleset_attributes: bool = True) -> pd.DataFrame:
         if len(self) == 0:
-- 
2.43.0


From fdc5fdb93af79c952227bccd94f89694b8051942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:34 +0000
Subject: [PATCH 45/50] fix: a rule set refusing a rule goes on computing its
 activations

---
 ruleskit/ruleset.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index aee45fe..1396fa3 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -693,9 +693,11 @@ class RuleSet(ABC):
         if not update_activation:
             self._compute_activation = False
             self.stack_activation = False
-        self.__iadd__(rule)
-        self._compute_activation = True
-        self.stack_activation = stack_activation
+        try:
+            self.__iadd__(rule)
+        finally:
+            self._compute_activation = True
+            self.stack_activation = stack_activation
 
     def sort(self, criterion: str = None, reverse: bool = False):
         """Sorts the RuleSet.
-- 
2.43.0


From b186d3642b1f161c135507b4efda7152e04ef135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:54 +0000
Subject: [PATCH 46/50] fix: assigning bounds or features to a rule changes its
 condition

---
 ruleskit/rule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index 864e80e..fc4e9c7 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -273,7 +273,8 @@ class Rule(ABC):
         if item.startswith("_"):
             super(Rule, self).__setattr__(item, value)
             return
-        if not hasattr(self, item):
+        # Not hasattr(self, item), which also looks in the activation and in the condition
+        if item not in self.__dict__ and not hasattr(type(self), item):
             if hasattr(self._activation, item):
                 setattr(self._activation, item, value)
             elif hasattr(self._condition, item):
-- 
2.43.0


From 78ff4d25fd45b9f3b424bfafb8b1e0f98aa7a4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:28 +0000
Subject: [PATCH 47/50] fix: replacing the rules of a rule set replaces its
 rule type

---
 ruleskit/ruleset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 1396fa3..ae3c2cb 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -237,6 +237,7 @@ class RuleSet(ABC):
     def rules(self, rules: Union[List[Rule], None]):
         ruleset = RuleSet(rules, stack_activation=self.stack_activation)
         self._rules = ruleset._rules
+        self._rule_type = ruleset._rule_type
         self.features_names = ruleset.features_names
         self.features_indexes = ruleset.features_indexes
         self.stacked_activations = ruleset.stacked_activations
-- 
2.43.0


From cbcbd2494a11a376248131dd83c82f9e1b52d1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:28 +0000
Subject: [PATCH 48/50] fix: stacked activations are available only when the
 rule set has some

---
 ruleskit/ruleset.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index ae3c2cb..51b90a5 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -266,9 +266,7 @@ class RuleSet(ABC):
     @property
     def stacked_activations_available(self) -> bool:
         """Returns True is the RuleSet has its rules' stacked activations."""
-        if self.stack_activation is None or self._activation.length == 0:
-            return False
-        return True
+        return self.stacked_activations is not None
 
     @property
     def activation(self) -> Union[None, np.ndarray]:
-- 
2.43.0


From 0fb6081bf691c0aebdc7024f90442d488f7aa468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:49 +0000
Subject: [PATCH 49/50] fix: the text of a classification rule shows the class
 it predicts

---
 ruleskit/rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index fc4e9c7..1c60b13 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -303,7 +303,7 @@ class Rule(ABC):
     def __str__(self) -> str:
         prediction = "<prediction unset>"
         if self._prediction is not None:
-            prediction = self._prediction
+            prediction = self.prediction
         if self._condition is None:
             return "empty rule"
         return f"If {self._condition.__str__()} Then {prediction}."
-- 
2.43.0


From 53b8eb65778dee82eded4323a92fdd3f9623f033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:49 +0000
Subject: [PATCH 50/50] fix: multi_logical_xor of a single vector honours
 asarray

---
 ruleskit/activation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index d3bd357..91a40c9 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -720,6 +720,8 @@ class Activation(ABC):
         """Do LOGICAL EXCLUSIVE OR on many activation vectors at once. Uses raw np.ndarrays to gain time.
         If asarray is True, does not cast the result into an Activation object but returns the raw np.ndarray."""
         if len(acs) == 1:
+            if asarray:
+                return acs[0].raw
             return Activation(acs[0].raw, optimize=acs[0].optimize, to_file=acs[0].data_format == "file")
         lor = Activation.multi_logical_or(acs, True)
         nland = -(Activation.multi_logical_and(acs, True) - 1)
-- 
2.43.0

