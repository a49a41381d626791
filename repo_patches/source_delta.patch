From 588105cdc7f5625b44a18981a732dffb40341288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:27 +0000
Subject: [PATCH 01/44] fix: BPE learning stops, instead of failing on an empty
 heap, when no pairs are left to merge

---
 nlcodec/bpe.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nlcodec/bpe.py b/nlcodec/bpe.py
index cfb71ba..4631c22 100644
--- a/nlcodec/bpe.py
+++ b/nlcodec/bpe.py
@@ -130,6 +130,9 @@ class BPELearn:
         last_log_t = time.time()
         log.info(f"logs every {log_every} seconds")
         for i in range(n_merges):
+            if len(heap) == 0:
+                log.warning("Early stop; no more pairs to merge")
+                break
             # Using MaxHeap for faster lookup of max. But heap gets a bit dirty, so a bit of cleanup
             max_pair, pair_freq = heap.pop()
             while max_pair in heap_dirty:  # clean all max [airs until a clean value
@@ -139,9 +142,13 @@ class BPELearn:
                 assert corr_freq >= 0, f'{max_pair}:{pair_freq}, Δ={freq_update} = {corr_freq}'
                 if corr_freq > 0:  # exclude zero count
                     heap.push(max_pair, corr_freq)
-                max_pair, pair_freq = heap.pop()
+                # a zero frequency, when there are no more pairs left
+                max_pair, pair_freq = heap.pop() if len(heap) > 0 else (None, 0)
 
             # here the  actual loop begins
+            if max_pair is None:
+                log.warning("Early stop; no more pairs to merge")
+                break
             if pair_freq < min_co_evidence:
                 log.warning(f"Early stop; max evidence found is {pair_freq} "
                             f"but min required is {min_co_evidence}")
-- 
2.43.0


From b94c45618fbe6a775ccc6ecc3a48d04b5b4f7741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:58 +0000
Subject: [PATCH 02/44] fix: BPE learning merges overlapping occurrences left
 to right, so that the result is reproducible

---
 nlcodec/bpe.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/nlcodec/bpe.py b/nlcodec/bpe.py
index 4631c22..ab4fd6f 100644
--- a/nlcodec/bpe.py
+++ b/nlcodec/bpe.py
@@ -6,7 +6,7 @@
 import collections as coll
 import copy
 import time
-from typing import List, Dict, Tuple, Union, Iterator, Set
+from typing import List, Dict, Tuple, Union, Iterator
 
 from nlcodec import log, DEF_MIN_CO_EV
 from nlcodec.codec import Type, Level, Reseved
@@ -38,8 +38,9 @@ class BPELearn:
         self.uni: Dict[int, int] = coll.defaultdict(int)  # term freq ; unigrams
         self.bi: Dict[Bigram, int] = coll.defaultdict(int)  # bigram frequencies
 
-        # Bigram to sequence references
-        self.bi_ixs: Dict[Bigram, Set[LnNode]] = coll.defaultdict(set)
+        # Bigram to sequence references; dict is used as an ordered set: nodes hash by id(), so the
+        # order of a set, hence which of the overlapping bigrams get merged, varies between runs
+        self.bi_ixs: Dict[Bigram, Dict[LnNode, None]] = coll.defaultdict(dict)
 
         self.create_index(seqs)
         self.validate_index()
@@ -68,7 +69,7 @@ class BPELearn:
                     bigm = (seq[i], seq[i + 1])
                     self.bi[bigm] += freq
                     assert nodes[i] not in self.bi_ixs[bigm]
-                    self.bi_ixs[bigm].add(nodes[i])  # bigm found at node i
+                    self.bi_ixs[bigm][nodes[i]] = None  # bigm found at node i
                     self.uni[seq[i]] += freq
                 self.uni[seq[-1]] += freq  # the last unigram count; not covered in the above loop
                 bar_msg = f'MaxRSS={max_RSS()[1]}'
@@ -207,21 +208,21 @@ class BPELearn:
                     heap_deltas[(x_node.val, a)] -= x_node.freq
                     if bi_ixs.get((x_node.val, a)):
                         # not sure why 'if' needed here;
-                        bi_ixs[(x_node.val, a)].remove(x_node)
+                        bi_ixs[(x_node.val, a)].pop(x_node)
 
                     # add (x_node_val, R) to bi and bi_ixs
                     heap_deltas[(x_node.val, new_type_idx)] += x_node.freq
-                    bi_ixs[(x_node.val, new_type_idx)].add(x_node)
+                    bi_ixs[(x_node.val, new_type_idx)][x_node] = None
                 if y_node:
                     # remove (b, y_node.val) from bi and bi_ixs
                     heap_deltas[(b, y_node.val)] -= b_node.freq
                     if bi_ixs.get((b, y_node.val)):
                         # not sure why 'if' needed here;
-                        bi_ixs[(b, y_node.val)].remove(b_node)
+                        bi_ixs[(b, y_node.val)].pop(b_node)
 
                     # add (R, y_node.val) to bi and bi_ixs
                     heap_deltas[(new_type_idx, y_node.val)] += b_node.freq
-                    bi_ixs[(new_type_idx, y_node.val)].add(new_node)
+                    bi_ixs[(new_type_idx, y_node.val)][new_node] = None
 
             # however; the counts shouldn't go negative
             assert uni[a] >= 0
-- 
2.43.0


From 5ba1e2bab7b8a315cf916b1a31acc3df42d9215a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:58 +0000
Subject: [PATCH 03/44] fix: merge tracker restores the counts of both halves
 of a skipped overlapping bigram

---
 nlcodec/eval/bpe_len.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/eval/bpe_len.py b/nlcodec/eval/bpe_len.py
index 89dca0d..69c4e75 100644
--- a/nlcodec/eval/bpe_len.py
+++ b/nlcodec/eval/bpe_len.py
@@ -168,7 +168,7 @@ class BpeTracker:
                         # happens due to repeats like X A A A A Y
                         uni[new_type.idx] -= u.freq
                         uni[a] += u.freq
-                        uni[b] -= u.freq
+                        uni[b] += u.freq
                         continue
                     assert u.val == a
                     assert b_node.val == b, f'expected {a, b} found {u.val, b_node.val} at {b_node}'
-- 
2.43.0


From 700f20a504afce036c0812730c2bede12eec3b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:58 +0000
Subject: [PATCH 04/44] fix: merge tracker merges overlapping occurrences left
 to right, as learning and encoding do

---
 nlcodec/eval/bpe_len.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/nlcodec/eval/bpe_len.py b/nlcodec/eval/bpe_len.py
index 69c4e75..c8ee8d6 100644
--- a/nlcodec/eval/bpe_len.py
+++ b/nlcodec/eval/bpe_len.py
@@ -7,7 +7,7 @@ import argparse
 import collections as coll
 import sys
 from pathlib import Path
-from typing import Iterator, Dict, Set, Optional, Union
+from typing import Iterator, Dict, Optional, Union
 
 import numpy as np
 from tqdm import tqdm
@@ -72,7 +72,7 @@ class BpeTracker:
         self.uni: NDArray = np.zeros(bpe.total_types(), dtype=np.long) # term freq ; unigrams
 
         # Bigram to sequence references
-        self.bi_ixs: Dict[Bigram, Set[LnNode]] = coll.defaultdict(set)
+        self.bi_ixs: Dict[Bigram, Dict[LnNode, None]] = coll.defaultdict(dict)  # ordered set
         self.seq_lens: Optional[NDArray] = None
         self.create_index(data)
 
@@ -99,7 +99,7 @@ class BpeTracker:
         log.info("Encoding and creating index")
         enc_data  = self.bpe.encode_parallel(data)
         uni: Dict[int, int] = coll.defaultdict(int)
-        bi_ixs: Dict[Bigram, Set[LnNode]] = coll.defaultdict(set)
+        bi_ixs: Dict[Bigram, Dict[LnNode, None]] = coll.defaultdict(dict)
         seq_lens = []
         with tqdm(enumerate(enc_data)) as data_bar:
             for idx, seq in data_bar:
@@ -108,7 +108,7 @@ class BpeTracker:
                 for node in seq:
                     uni[node.val] += 1
                 for node in seq[:-1]:
-                    bi_ixs[(node.val, node.right.val)].add(node)
+                    bi_ixs[(node.val, node.right.val)][node] = None
                 bar_msg = f'MaxRSS={max_RSS()[1]}'
                 data_bar.set_postfix_str(bar_msg, refresh=False)
 
@@ -181,12 +181,12 @@ class BpeTracker:
 
                     if u.left:
                         if  bi_ixs.get((u.left.val, a)):
-                            bi_ixs[(u.left.val, a)].remove(u.left)
-                        bi_ixs[(u.left.val, u.val)].add(u.left)
+                            bi_ixs[(u.left.val, a)].pop(u.left)
+                        bi_ixs[(u.left.val, u.val)][u.left] = None
                     if u.right:
                         if bi_ixs.get((b, u.right.val)):
-                            bi_ixs[(b, u.right.val)].remove(b_node)
-                        bi_ixs[(u.val, u.right.val)].add(u)
+                            bi_ixs[(b, u.right.val)].pop(b_node)
+                        bi_ixs[(u.val, u.right.val)][u] = None
         k = len(self.bpe)
         emd = self.earth_mov_dist(self.uni[:k])
         mu_len = self.mean_seq_len()
-- 
2.43.0


From 4f07f9394a68c27ad590afc9de38da94e7e09a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:58 +0000
Subject: [PATCH 05/44] fix: byte scheme decodes bytes below 16, whose pieces
 have a single hex digit

---
 nlcodec/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index b118a4a..95ac2ef 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -583,7 +583,7 @@ class ByteScheme(EncoderScheme):
         return f'{code:x}'
 
     def compose_str(self, pieces: List[str]):
-        byte_arr = bytes.fromhex(''.join(pieces))
+        byte_arr = bytes(int(piece, 16) for piece in pieces)  # bytes < 16 have one digit pieces
         return str(byte_arr, encoding=self.encoding, errors=self.errors)
 
     def encode_str(self, line: str) -> List[str]:
-- 
2.43.0


From f230950ed8fffd812e6076163188ea7382f3129a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:58 +0000
Subject: [PATCH 06/44] fix: shrunk vocabulary is saved with its scheme, so
 that it loads as the same scheme

---
 nlcodec/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index 95ac2ef..9108817 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -342,7 +342,7 @@ class EncoderScheme(abc.ABC):
             new_t = old_t.copy(idx=new_idx, kids=new_kids)
             new_table.append(new_t)
         if save_at:
-            Type.write_out(new_table, out=save_at)
+            Type.write_out(new_table, out=save_at, scheme=self.name)
         return mapping
 
     def save(self, out):
-- 
2.43.0


From d8ed441b91f83e2f0f913990c97f07bdd902e0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:58 +0000
Subject: [PATCH 07/44] fix: a vocab_size below the number of reserved types
 leaves no other types, instead of most of them

---
 nlcodec/codec.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index 9108817..8338098 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -266,8 +266,9 @@ class EncoderScheme(abc.ABC):
 
         if vocab_size > 0 and len(vocab) + len(term_freqs) > vocab_size:
             log.info(f"Truncating vocab at size={vocab_size}")
-            unk_count += sum(f for t, f in term_freqs[vocab_size - len(vocab):])
-            term_freqs = term_freqs[:vocab_size - len(vocab)]
+            max_terms = max(vocab_size - len(vocab), 0)  # not negative, when reserved types exceed size
+            unk_count += sum(f for t, f in term_freqs[max_terms:])
+            term_freqs = term_freqs[:max_terms]
 
         # update reserved types with corpus freqs
         for idx, t in enumerate(vocab):
-- 
2.43.0


From 23e317a7ee69413a44df7998974fad138ca01036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:58 +0000
Subject: [PATCH 08/44] fix: stream encoding does not encode the line break,
 which byte scheme would decode to an extra line

---
 nlcodec/codec.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index 8338098..99a5b1c 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -682,6 +682,7 @@ def load_scheme(path: Union[str, Path, TextIO]) -> EncoderScheme:
 def encode(inp: Iterator[str], scheme: EncoderScheme, indices=False) \
         -> Iterator[Union[List[str], List[int]]]:
     for line in inp:
+        line = line.rstrip('\n')  # line break is not part of the text; byte scheme doesnt ignore it
         if indices:
             yield scheme.encode(line)
         else:
-- 
2.43.0


From 17ce8c1ddd1e1dc3b34a34e2ab0604bf66d4f180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:58 +0000
Subject: [PATCH 09/44] fix: iteration of a Db in shuffle mode

---
 nlcodec/db/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index de71a5d..afcea8d 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -220,7 +220,7 @@ class Db:
     def __iter__(self):
         ids = self.ids
         if self.shuffle:
-            ids = copy.copy(ids)
+            ids = list(ids)  # a copy, as a list since set can not be shuffled
             random.shuffle(ids)
         for _id in ids:
             yield self[_id]
-- 
2.43.0


From aa7a155b4a0081fdce00bd66e7f1faa80aa41a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:58 +0000
Subject: [PATCH 10/44] fix: equal length batches have at most max_sents
 records, not one more

---
 nlcodec/db/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index afcea8d..6c9f089 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -248,7 +248,7 @@ class Db:
                 log.warning(f"Skipping record {_id}, either source or target is empty")
                 continue
 
-            if (len(batch) + 1) * max(max_len, _len) > max_toks or len(batch) > max_sents:
+            if (len(batch) + 1) * max(max_len, _len) > max_toks or len(batch) >= max_sents:
                 if _len > max_toks:
                     raise Exception(f'Unable to make a batch of {max_toks} toks'
                                     f' with a seq of len:{_len}')
-- 
2.43.0


From 499ba3322c6fd2dc07d1622063aaa78d4c4ae5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:56 +0000
Subject: [PATCH 11/44] fix: SeqField keeps integers above 32 bits as exact
 integers, instead of as float64

---
 nlcodec/db/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index 6c9f089..91f3382 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -88,9 +88,13 @@ class SeqField:
 
         def shrink(self):
             if self.buffer:
-                dtype = best_dtype(mn=min(self.buffer), mx=max(self.buffer))
+                mn, mx = min(self.buffer), max(self.buffer)
+                if len(self.frozen) > 0:
+                    mn, mx = min(mn, self.frozen.min()), max(mx, self.frozen.max())
+                # one type for all; mixing them makes float64 out of uint64 and a signed type
+                dtype = best_dtype(mn=mn, mx=mx)
                 data = np.array(self.buffer, dtype=dtype)
-                self.frozen = np.concatenate((self.frozen, data))
+                self.frozen = np.concatenate((self.frozen.astype(dtype), data))
                 self.buffer = []
 
         def build(self):
-- 
2.43.0


From 795ea51076f7f3af08a2d13efd88e48eac0f9ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:56 +0000
Subject: [PATCH 12/44] fix: an interrupted overwrite of MultipartDb does not
 leave partly removed data that still loads

---
 nlcodec/db/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index 91f3382..ea4e77d 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -373,6 +373,9 @@ class MultipartDb:
             if path.exists() and len(os.listdir(path)) > 0:
                 if overwrite:
                     log.warning(f"Removing existing data at {path}")
+                    flag_file = path / '_SUCCESS'
+                    if flag_file.exists():  # goes first: an interrupted removal isnt loadable
+                        flag_file.unlink()
                     shutil.rmtree(path)
                 else:
                     raise Exception(f'{path} already exists. not overwriting it')
-- 
2.43.0


From a1b018f68bf80261a4289d8b44b45a6197eaa641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:56 +0000
Subject: [PATCH 13/44] fix: MultipartDb.Writer skips empty parts, e.g. of a
 spark rdd having more partitions than records

---
 nlcodec/db/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index ea4e77d..b8db596 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -385,6 +385,12 @@ class MultipartDb:
 
         def __call__(self, part_num: int, recs):
             # assume recs have ids created externally
+            recs = iter(recs)
+            first = next(recs, None)
+            if first is None:  # a part cannot be empty; happens when there are more parts than recs
+                log.warning(f"part {part_num} has no records; skipping it")
+                return ()
+            recs = itertools.chain([first], recs)
             part = Db.create(recs, field_names=self.field_names, has_id=True)
             part_path = self.path / f'part-{part_num:0{self.part_path_pad}d}'
             part.save(part_path)
-- 
2.43.0


From 4394cefcb827d1b72af807dfd2d52d688c2d69ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:56 +0000
Subject: [PATCH 14/44] fix: a part without usable records does not abort
 batching of the other parts

---
 nlcodec/db/core.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index b8db596..59ff671 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -241,6 +241,8 @@ class Db:
                 rows.append((_id, max(lens)))
         if len(skip_counter) > 0:
             log.warning(f"Skipped :: {skip_counter}")
+        if not rows:
+            return []
         rows = np.array(rows)  # id, len
         np.random.shuffle(rows)  # in-place, along the first axis; for extra rand within len group
         rows = rows[rows[:, 1].argsort()]  # sort by second col wiz len
@@ -266,10 +268,10 @@ class Db:
             batches.append(np.array(batch))
         return batches
 
-    def make_eq_len_ran_batches(self, max_toks, max_sents=float('inf')):
+    def make_eq_len_ran_batches(self, max_toks, max_sents=float('inf'), allow_empty=False):
 
         batches = self._make_eq_len_batch_ids(max_toks=max_toks, max_sents=max_sents)
-        if not batches:
+        if not batches and not allow_empty:
             raise Exception(f'Found no data. Please check config data paths')
         log.info(f"length sorted random batches = {len(batches)}. Shuffling🔀...")
         # every pass introduce some randomness
@@ -362,7 +364,9 @@ class MultipartDb:
         for path, part in buff:
             if part is None:
                 part = Db.load(path, rec_type=self.rec_type)
-            yield from part.make_eq_len_ran_batches(max_toks=max_toks, max_sents=max_sents)
+            # a part may have only the records that are skipped
+            yield from part.make_eq_len_ran_batches(max_toks=max_toks, max_sents=max_sents,
+                                                    allow_empty=True)
 
     class Writer:
 
-- 
2.43.0


From 24c4955b722a0f5d840dc52f343b75d2b4d00b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:56 +0000
Subject: [PATCH 15/44] fix: BatchIterable accepts the path of a MultipartDb as
 str, as it does for a Db

---
 nlcodec/db/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/db/batch.py b/nlcodec/db/batch.py
index 1c9c092..db1b384 100644
--- a/nlcodec/db/batch.py
+++ b/nlcodec/db/batch.py
@@ -219,7 +219,7 @@ class BatchIterable(Iterable[Batch]):
         assert data_path.exists(), f'Invalid State: {data_path} is NOT found.'
         if data_path.is_file():
             self.data = Db.load(data_path, rec_type=IdExample)
-        elif self.data_path.is_dir():
+        elif data_path.is_dir():
             self.data = MultipartDb.load(data_path, rec_type=IdExample, keep_in_mem=keep_in_mem)
         else:
             raise Exception(f'Invalid State: {data_path} is should be a file or dir.')
-- 
2.43.0


From 5826a214156ee0c99c5bc9a0a7d0d28a476dc987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:56 +0000
Subject: [PATCH 16/44] fix: nlcodec-learn can reuse the existing statistics
 file

---
 nlcodec/learn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/learn.py b/nlcodec/learn.py
index ccf4457..9907896 100644
--- a/nlcodec/learn.py
+++ b/nlcodec/learn.py
@@ -72,10 +72,10 @@ def main():
         master = args.pop('spark_master')
         driver_mem = args.pop('driver_mem')
         dedup = args.pop('dedup')
+        inp = args.pop('inp')
         if stats_file.exists():
             log.warning(f"{stats_file} exists, reusing it. please delete it if this is wrong.")
         else:
-            inp = args.pop('inp')
             with spark.session(master=master, driver_mem=driver_mem) as session:
                 words, chars, line_count = word_counts(paths=inp, dedup=dedup, spark=session)
             with utils.IO.writer(words_file) as out:
-- 
2.43.0


From ed6d9d5657e48169502094d1a5a43ccedfa1bc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:56 +0000
Subject: [PATCH 17/44] fix: no-truncate mode of nlcodec-db drops longer
 sentences only, not those of the maximum length

---
 nlcodec/spark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/spark.py b/nlcodec/spark.py
index 1f7cb03..6834ac4 100644
--- a/nlcodec/spark.py
+++ b/nlcodec/spark.py
@@ -107,7 +107,7 @@ def read_raw_bitext_tok(spark, src_path: Union[str, Path], tgt_path: Union[str,
     if truncate:
         tok_rdd = tok_rdd.map(lambda r: (r[0], r[1][:src_len], r[2][:tgt_len]))
     else:
-        tok_rdd = tok_rdd.filter(lambda r: len(r[1]) < src_len and len(r[2]) < tgt_len)
+        tok_rdd = tok_rdd.filter(lambda r: len(r[1]) <= src_len and len(r[2]) <= tgt_len)
 
     # dataframes doesnt support numpy arrays, so we cast them to python list
     a_row = tok_rdd.take(1)[0]
-- 
2.43.0


From 864e89c77bf2fba6df80ad19eb282513c7729965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:56 +0000
Subject: [PATCH 18/44] fix: nlcodec-db honours its column name and spark
 options

---
 nlcodec/bitextdb.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nlcodec/bitextdb.py b/nlcodec/bitextdb.py
index 777a7f5..95ca21f 100644
--- a/nlcodec/bitextdb.py
+++ b/nlcodec/bitextdb.py
@@ -21,13 +21,14 @@ def main(args=None):
     if args.tgt_model:
         tgt_codec = load_scheme(args.tgt_model)
 
-    with spark_util.session() as session:
+    with spark_util.session(master=args.spark_master, driver_mem=args.driver_mem) as session:
         df = spark_util.read_raw_bitext_tok(
             spark=session, src_path=args.src_text, tgt_path=args.tgt_text, truncate=args.truncate,
             src_len=args.src_len, tgt_len=args.tgt_len,
             src_tokenizer=src_codec.encode, tgt_tokenizer=tgt_codec.encode)
         rdd = df.rdd.map(lambda r: (r.id, (r.x, r.y)))
-        db = spark_util.rdd_as_db(rdd=rdd, db_path=args.db_path, field_names=('x', 'y'),
+        db = spark_util.rdd_as_db(rdd=rdd, db_path=args.db_path,
+                                  field_names=(args.src_col, args.tgt_col),
                                   repartition=args.num_parts)
         log.info(f"stored {len(db)} recs at {args.db_path}")
 
-- 
2.43.0


From bd796305cf8943cb9b761caf21fd0dc18772299e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:56 +0000
Subject: [PATCH 19/44] fix: quality estimation of byte and class codecs, which
 have no unk type

---
 nlcodec/codec.py  |  1 +
 nlcodec/qestim.py | 14 ++++++++++----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index 99a5b1c..3a8392d 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -567,6 +567,7 @@ class ClassScheme(WordScheme):
 class ByteScheme(EncoderScheme):
     level = Level.byte
     name = "byte"
+    unk_idx = -1    # No unks
     """
      using hex strings to represent bytes [0-255] => [00-ff] 
      <s> aka BOS is 256
diff --git a/nlcodec/qestim.py b/nlcodec/qestim.py
index b01a057..cb821ae 100644
--- a/nlcodec/qestim.py
+++ b/nlcodec/qestim.py
@@ -90,16 +90,22 @@ class QualityEstimator:
         stats = [0] * self.codec.vocab_size
         # lengths = coll.defaultdict(int)
         n_seqs = 0
+        n_oov = 0  # out of table; schemes without unk type (class) use a negative index
         for seq in tqdm(seqs):
             n_seqs += 1
             for tok in seq:
-                stats[tok] += 1
+                if tok < 0:
+                    n_oov += 1
+                else:
+                    stats[tok] += 1
 
-        n_toks = sum(stats)
+        n_toks = sum(stats) + n_oov
         mean_len = n_toks / n_seqs
         n_types = self.codec.vocab_size
 
-        unk_count = stats[self.codec.unk_idx]
+        unk_count = n_oov
+        if self.codec.unk_idx >= 0:
+            unk_count += stats[self.codec.unk_idx]
 
         # exclude the reserved types which dont surface in prediction
         #excludes = [typ for typ in self.codec.table if typ.is_reserved and stats[typ.idx] == 0]
@@ -107,7 +113,7 @@ class QualityEstimator:
         #for typ in reversed(excludes):  # delete from right
         #    log.info(f'Remove type from balance check: {typ}')
         #    del stats[typ.idx]
-        n_toks = sum(stats)
+        n_toks = sum(stats) + n_oov
         imb_measure = self.EMD_simple(stats=stats)
         return CodecQuality(n_types=n_types, imbalance=imb_measure, n_tokens=n_toks,
                             mean_seq_len=mean_len, unk_count=unk_count)
-- 
2.43.0


From 911d4c7d15de95afdc7764aab626c03d8c0fccfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:56 +0000
Subject: [PATCH 20/44] fix: precision recall tool honours the requested n of
 n-grams

---
 nlcodec/eval/pr_measure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/eval/pr_measure.py b/nlcodec/eval/pr_measure.py
index 232a3d2..a1377ac 100644
--- a/nlcodec/eval/pr_measure.py
+++ b/nlcodec/eval/pr_measure.py
@@ -58,7 +58,7 @@ def main(model_path, cands, refs, n, out, freqs=None):
 
     cands = list(codec.encode_parallel(cands))
     refs = list(codec.encode_parallel(refs))
-    gram_recalls, ref_gram_freqs, gram_precisions, cand_gram_freqs = count_gram_recall(cands, refs)
+    gram_recalls, ref_gram_freqs, gram_precisions, cand_gram_freqs = count_gram_recall(cands, refs, n=n)
     if freqs:
         log.info(f"Loading precomputed gram freqs from {freqs}")
         freqs = [json.loads(l.strip()) for l in freqs]
-- 
2.43.0


From 559409f47a4ed028453e9b76732224697cde82a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:50 +0000
Subject: [PATCH 21/44] fix: models can be saved to and loaded from in-memory
 streams, which have no name

---
 nlcodec/codec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index 3a8392d..315e8f8 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -126,7 +126,7 @@ class Type:  # Type as in word type vs token
             wrtr.write(item.format() + '\n')
         if wrtr is not out:
             wrtr.close()
-        log.info(f"Wrote {len(table)} to {wrtr.name}")
+        log.info(f"Wrote {len(table)} to {getattr(wrtr, 'name', wrtr)}")
 
     @classmethod
     def read_vocab(cls, inp: Union[Path, str, TextIO]) -> Tuple[List['Type'], Optional[Dict]]:
@@ -150,7 +150,7 @@ class Type:  # Type as in word type vs token
             vocab[i] = v
         if rdr is not inp:
             rdr.close()
-        log.info(f"read {len(vocab)} types from {rdr.name}")
+        log.info(f"read {len(vocab)} types from {getattr(rdr, 'name', rdr)}")
         return vocab, meta
 
     def get_permutations(self, name=False) -> List[List[int]]:
-- 
2.43.0


From ca2898f8f341cb84e386f4cb3595432c24671feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:54 +0000
Subject: [PATCH 22/44] fix: markers are added to sequences of 64-bit values
 without loss of precision

---
 nlcodec/db/batch.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nlcodec/db/batch.py b/nlcodec/db/batch.py
index db1b384..31264ff 100644
--- a/nlcodec/db/batch.py
+++ b/nlcodec/db/batch.py
@@ -130,10 +130,12 @@ class Batch:
         seq = getattr(obj, field_name)
         if exist:
             if seq[pos] != val:
+                # np.append of uint64 with a signed type makes float64, which isnt exact
+                seq = np.asarray(seq).astype(np.int64)
                 if pos == 0:
-                    seq = np.append(np.int32(val), seq)
+                    seq = np.append(np.int64(val), seq)
                 else:  # pos = -1
-                    seq = np.append(seq, np.int32(val))
+                    seq = np.append(seq, np.int64(val))
                 # update
                 setattr(obj, field_name, seq)
         else:  # should not have val at pos
-- 
2.43.0


From a5209389714227a1e4166616193fd8ca10bbe513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 23/44] fix: a vocabulary can be shrunk to data without tokens

---
 nlcodec/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index 315e8f8..9e47325 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -309,7 +309,7 @@ class EncoderScheme(abc.ABC):
             with IO.reader(file) as lines:
                 for line in tqdm(lines):
                     freqs.update(self.encode(line))
-        assert len(self.table) > max(freqs.keys())
+        assert len(self.table) > max(freqs.keys(), default=-1)  # no data, no freqs
         removals = [False] * len(self.table)
         for idx, typ in enumerate(self.table):
             if typ.level == Level.reserved:
-- 
2.43.0


From b37b44e4a4194445bb70aa801d1b264606d34348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:39 +0000
Subject: [PATCH 24/44] fix: a corpus word that looks like the line tag does
 not disturb term frequencies

---
 nlcodec/term_freq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/term_freq.py b/nlcodec/term_freq.py
index b51b6fe..52374e0 100644
--- a/nlcodec/term_freq.py
+++ b/nlcodec/term_freq.py
@@ -39,7 +39,7 @@ def word_counts(paths: List[Path], dedup=True, spark=None) \
         if dedup:
             log.info("Dropping duplicates")
             df = df.drop_duplicates()
-        SENT_TAG = '<!S!>'
+        SENT_TAG = '<! S !>'  # has spaces, so it is never a word of the corpus
         # Tokenize
         # also include a special token, one per line to count lines
         # expand words as sep records
-- 
2.43.0


From d4696569887eac011c4b0ce42ab3d208261286b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:39 +0000
Subject: [PATCH 25/44] fix: term frequencies of an empty text are empty,
 instead of a KeyError

---
 nlcodec/term_freq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/term_freq.py b/nlcodec/term_freq.py
index 52374e0..303cb7e 100644
--- a/nlcodec/term_freq.py
+++ b/nlcodec/term_freq.py
@@ -47,7 +47,7 @@ def word_counts(paths: List[Path], dedup=True, spark=None) \
             .map(lambda word: (word, 1)) \
             .reduceByKey(lambda v1, v2: v1 + v2) \
             .collectAsMap()
-        line_count = word_freqs.pop(SENT_TAG)
+        line_count = word_freqs.pop(SENT_TAG, 0)  # no lines, no tags
         # word_freqs = list(sorted(word_freqs.items(), key=lambda x: x[1], reverse=True))
 
         # char freqs
-- 
2.43.0


From 92b717ef33527b6acb57ea673934ed452f13bca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:43 +0000
Subject: [PATCH 26/44] fix: distances of distributions work with numpy
 versions without np.float

---
 nlcodec/qestim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/qestim.py b/nlcodec/qestim.py
index cb821ae..2ddf0e5 100644
--- a/nlcodec/qestim.py
+++ b/nlcodec/qestim.py
@@ -38,7 +38,7 @@ class QualityEstimator:
 
     @staticmethod
     def validate_distribution(distr):
-        assert distr.dtype == np.float
+        assert np.issubdtype(distr.dtype, np.floating)
         assert abs(np.sum(distr) - 1.0) < 1e-4  # sum to 1
         assert np.sum(distr < 0) == 0  # no negatives
 
-- 
2.43.0


From 242c7872089eb4c96e683ca124613529c9c2bbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:19 +0000
Subject: [PATCH 27/44] fix: quality and n-gram reports of byte codecs do not
 count line breaks

---
 nlcodec/eval/pr_measure.py | 2 +-
 nlcodec/eval/termfreq.py   | 2 +-
 nlcodec/qestim.py          | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nlcodec/eval/pr_measure.py b/nlcodec/eval/pr_measure.py
index a1377ac..4ae5824 100644
--- a/nlcodec/eval/pr_measure.py
+++ b/nlcodec/eval/pr_measure.py
@@ -53,7 +53,7 @@ def f1_measure(precison, recall):
 
 def main(model_path, cands, refs, n, out, freqs=None):
     codec = load_scheme(model_path)
-    cands, refs = list(cands), list(refs)
+    cands, refs = [c.rstrip('\n') for c in cands], [r.rstrip('\n') for r in refs]
     assert len(cands) == len(refs), f'cands: {len(cands)} but refs: {len(refs)} lines'
 
     cands = list(codec.encode_parallel(cands))
diff --git a/nlcodec/eval/termfreq.py b/nlcodec/eval/termfreq.py
index 34dd60d..7892feb 100644
--- a/nlcodec/eval/termfreq.py
+++ b/nlcodec/eval/termfreq.py
@@ -34,7 +34,7 @@ def encode_all(inp : Iterator[str], scheme: EncoderScheme, index=True):
 
 def main(inp, out, n, model_path):
     scheme = load_scheme(model_path)
-    seqs = scheme.encode_parallel(inp)
+    seqs = scheme.encode_parallel(line.rstrip('\n') for line in inp)
     freqs = make_n_grams_all(seqs, n)
     freqs = sorted(freqs.items(), key=lambda x:x[1], reverse=True)
     for gram, freq in freqs:
diff --git a/nlcodec/qestim.py b/nlcodec/qestim.py
index 2ddf0e5..5e01f5e 100644
--- a/nlcodec/qestim.py
+++ b/nlcodec/qestim.py
@@ -122,7 +122,7 @@ class QualityEstimator:
 def estimate(codec_path, data):
     codec = load_scheme(codec_path)
     estimator = QualityEstimator(codec)
-    estimation = estimator.estimate(data)
+    estimation = estimator.estimate(line.rstrip('\n') for line in data)
     print(estimation)
 
 
-- 
2.43.0


From 3af429373e333eeb494b070e7b6df77b9b3b31f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:56 +0000
Subject: [PATCH 28/44] fix: length-grouped batches work with record ids that
 are not small integers

---
 nlcodec/db/core.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index 59ff671..23a2cb7 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -243,9 +243,9 @@ class Db:
             log.warning(f"Skipped :: {skip_counter}")
         if not rows:
             return []
-        rows = np.array(rows)  # id, len
-        np.random.shuffle(rows)  # in-place, along the first axis; for extra rand within len group
-        rows = rows[rows[:, 1].argsort()]  # sort by second col wiz len
+        # ids stay in lists: an array can not hold all ids as they are (e.g. strings, large integers)
+        rows = [rows[i] for i in np.random.permutation(len(rows))]  # for extra rand within len group
+        rows.sort(key=lambda row: row[1])  # sort by second col wiz len
         batches = []
         batch = []
         max_len = 0
@@ -258,14 +258,14 @@ class Db:
                 if _len > max_toks:
                     raise Exception(f'Unable to make a batch of {max_toks} toks'
                                     f' with a seq of len:{_len}')
-                batches.append(np.array(batch))
+                batches.append(batch)
                 batch = []  # new batch
                 max_len = 0
 
             batch.append(_id)  # this one can go in
             max_len = max(max_len, _len)
         if batch:
-            batches.append(np.array(batch))
+            batches.append(batch)
         return batches
 
     def make_eq_len_ran_batches(self, max_toks, max_sents=float('inf'), allow_empty=False):
-- 
2.43.0


From 5372209fa6dfcd8c49ec436d93a843dd57382dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:50 +0000
Subject: [PATCH 29/44] fix: coverage of types is computed from exact counts,
 not from a sum of rounded ratios

---
 nlcodec/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nlcodec/utils.py b/nlcodec/utils.py
index b85072a..03bf9b7 100644
--- a/nlcodec/utils.py
+++ b/nlcodec/utils.py
@@ -34,10 +34,12 @@ def filter_types_coverage(types: Dict[str, int], coverage=1.0) -> Tuple[Dict[str
     assert  0 < coverage <= 1
     tot = sum(types.values())
     includes = {}
+    inc_count = 0
     cum = 0
     types  = sorted(types.items(), key=lambda x: x[1], reverse=True)
     for t, f in types:
-        cum += f / tot
+        inc_count += f
+        cum = inc_count / tot  # from exact counts: a sum of ratios collects rounding errors
         includes[t] = f
         if cum >= coverage:
             break
-- 
2.43.0


From e21988fe620937c143b17bc1ca0b490810303d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:59 +0000
Subject: [PATCH 30/44] fix: gz files can be read and written in binary mode

---
 nlcodec/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nlcodec/utils.py b/nlcodec/utils.py
index 03bf9b7..263f829 100644
--- a/nlcodec/utils.py
+++ b/nlcodec/utils.py
@@ -92,7 +92,10 @@ class IO:
     def __enter__(self):
 
         if self.path.name.endswith(".gz"):  # gzip mode
-            self.fd = gzip.open(self.path, self.mode, encoding=self.encoding, errors=self.errors)
+            if 'b' in self.mode:  # binary mode doesnt take encoding or errors
+                self.fd = gzip.open(self.path, self.mode)
+            else:
+                self.fd = gzip.open(self.path, self.mode, encoding=self.encoding, errors=self.errors)
         else:
             if 'b' in self.mode:  # binary mode doesnt take encoding or errors
                 self.fd = self.path.open(self.mode)
-- 
2.43.0


From d1ab1364bfa30c50322b9c5eb128273278e8d9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:59 +0000
Subject: [PATCH 31/44] fix: text of gz files is split at line feeds only, as
 that of plain files is

---
 nlcodec/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nlcodec/utils.py b/nlcodec/utils.py
index 263f829..1ff8ebe 100644
--- a/nlcodec/utils.py
+++ b/nlcodec/utils.py
@@ -95,7 +95,8 @@ class IO:
             if 'b' in self.mode:  # binary mode doesnt take encoding or errors
                 self.fd = gzip.open(self.path, self.mode)
             else:
-                self.fd = gzip.open(self.path, self.mode, encoding=self.encoding, errors=self.errors)
+                self.fd = gzip.open(self.path, self.mode, encoding=self.encoding, errors=self.errors,
+                                    newline='\n')
         else:
             if 'b' in self.mode:  # binary mode doesnt take encoding or errors
                 self.fd = self.path.open(self.mode)
-- 
2.43.0


From 53ab6d00709f8c5bafe1567e75791f1fda897f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:16 +0000
Subject: [PATCH 32/44] fix: learning more merges with the same BPE learner
 failed

The candidates of a second call were taken from the pair counts of before the merges of the first
call: KeyError on every corpus whose best pair of then was merged.
---
 nlcodec/bpe.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nlcodec/bpe.py b/nlcodec/bpe.py
index ab4fd6f..04cfcb1 100644
--- a/nlcodec/bpe.py
+++ b/nlcodec/bpe.py
@@ -125,7 +125,8 @@ class BPELearn:
         :return:
         """
         uni, bi_ixs = self.uni, self.bi_ixs
-        heap = MaxHeap(self.bi)
+        # from the current positions: self.bi has the counts of before the merges of earlier calls
+        heap = MaxHeap({pair: sum(n.freq for n in nodes) for pair, nodes in bi_ixs.items() if nodes})
         heap_dirty = coll.defaultdict(int)  # subtractions aren't updated in max-heap, they are here
         vocab = self.vocab
         last_log_t = time.time()
-- 
2.43.0


From 6ac99abbef458863933e9437f9c33d7c2749d46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:16 +0000
Subject: [PATCH 33/44] fix: autoregressive masks of batches raised
 AttributeError

Batches are numpy arrays, the mask was made with methods of torch tensors.
---
 nlcodec/db/batch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nlcodec/db/batch.py b/nlcodec/db/batch.py
index 31264ff..2bf08e9 100644
--- a/nlcodec/db/batch.py
+++ b/nlcodec/db/batch.py
@@ -170,8 +170,8 @@ class Batch:
     @staticmethod
     def make_autogres_mask_(seqs, pad_val: int):
         "Create a mask to hide padding and future words."
-        tgt_mask = (seqs != pad_val).unsqueeze(1)
-        tgt_mask = tgt_mask & subsequent_mask(seqs.size(-1)).type_as(tgt_mask.data)
+        tgt_mask = np.expand_dims(seqs != pad_val, 1)
+        tgt_mask = tgt_mask & subsequent_mask(seqs.shape[-1])
         return tgt_mask
 
 
@@ -186,7 +186,7 @@ def subsequent_mask(size):
     triu = np.triu(ones, k=1)
     # invert it
     mask = triu == 0
-    mask = mask.unsqueeze(0)
+    mask = np.expand_dims(mask, 0)
     return mask
 
 
-- 
2.43.0


From f764116bdd64c4c3707f4e8f5ef43caa21fb5887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:01 +0000
Subject: [PATCH 34/44] fix: items() of a sequence field gives the ids along
 with the sequences

It gave the sequences alone, as values() does.
---
 nlcodec/db/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index 23a2cb7..f4a8b9d 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -133,7 +133,7 @@ class SeqField:
     def items(self):
         for id, idx in self.ids.items():
             start, _len = self.refs[idx]
-            yield self.data[start: start + _len]
+            yield id, self.data[start: start + _len]
 
     def lengths(self):
         return ((id, self.refs[idx, 1]) for id, idx in self.ids.items())
-- 
2.43.0


From aa7914b38bc46fe49f19b05b53b9b5bf1a528290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:47 +0000
Subject: [PATCH 35/44] fix: shuffling was lost for the parts kept in memory

---
 nlcodec/db/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index f4a8b9d..797c20d 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -340,7 +340,7 @@ class MultipartDb:
         self.shuffle =  shuffle
         self.mem = [None] * len(parts)
         if self.keep_in_mem:
-            self.mem = [Db.load(p, rec_type=rec_type) for p in parts]
+            self.mem = [Db.load(p, rec_type=rec_type, shuffle=shuffle) for p in parts]
 
     def __len__(self):
         return self._len
-- 
2.43.0


From f70931a7f4ca5d70d188f35507450e68ee31b814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:47 +0000
Subject: [PATCH 36/44] fix: sizes of length-grouped batches overflowed small
 integer types

---
 nlcodec/db/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index 797c20d..dfc3fd0 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -234,7 +234,7 @@ class Db:
         rows = []
         skip_counter = defaultdict(int)
         for _id in self.ids:
-            lens = tuple(field.get_len(_id) for field in fields)
+            lens = tuple(int(field.get_len(_id)) for field in fields)  # small types overflow
             if min(lens) < min_len:
                 skip_counter[f'len < {min_len}'] += 1
             else:
-- 
2.43.0


From f38504699be7290e53e219d1c39dd07a2b0c2d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:20 +0000
Subject: [PATCH 37/44] fix: opening gz files with the default mode raised
 ValueError

---
 nlcodec/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nlcodec/utils.py b/nlcodec/utils.py
index 1ff8ebe..0e1404b 100644
--- a/nlcodec/utils.py
+++ b/nlcodec/utils.py
@@ -84,9 +84,9 @@ class IO:
 
     def __init__(self, path, mode='r', encoding=None, errors=None):
         self.path = path if type(path) is Path else Path(path)
-        self.mode = mode
+        self.mode = mode if 'b' in mode or 't' in mode else mode + 't'  # gzip takes it as binary
         self.fd = None
-        self.encoding = encoding if encoding else 'utf-8' if 't' in mode else None
+        self.encoding = encoding if encoding else 'utf-8' if 't' in self.mode else None
         self.errors = errors if errors else 'replace'
 
     def __enter__(self):
-- 
2.43.0


From d8c2ceac6ac6e6b658e28f352cc6e136cbb051dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:14 +0000
Subject: [PATCH 38/44] fix: learning from sequences of which the first is
 empty raised IndexError

---
 nlcodec/bpe.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nlcodec/bpe.py b/nlcodec/bpe.py
index 04cfcb1..1a60c78 100644
--- a/nlcodec/bpe.py
+++ b/nlcodec/bpe.py
@@ -54,13 +54,13 @@ class BPELearn:
                 if isinstance(seq, tuple):  # if freq is available
                     seq, freq = seq
 
-                n_seqs += 1
-                if idx == 0:  # basic validation
-                    assert isinstance(seq, list)  # first sequence, tokenized
-                    assert isinstance(seq[0], int)  # sequence's item, should be an int or codepoint
                 if not seq:
                     log.warning(f"Skipping empty sequence at idx {idx + 1}")
                     continue
+                n_seqs += 1
+                if n_seqs == 1:  # basic validation
+                    assert isinstance(seq, list)  # first sequence, tokenized
+                    assert isinstance(seq[0], int)  # sequence's item, should be an int or codepoint
 
                 nodes = LnNode.from_seq(seq, freq=freq)
                 assert len(seq) == len(nodes)
-- 
2.43.0


From eeef6c2425bbc06c649bbd3470b7de9ccb1eeb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:40 +0000
Subject: [PATCH 39/44] fix: pieces of about 500 characters overflowed the
 recursion limit in the prefix tree

learning with such pieces (e.g. long lines of dashes) and loading a model that has them
ended in RecursionError; the methods of TrNode are loops now
---
 nlcodec/dstruct.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/nlcodec/dstruct.py b/nlcodec/dstruct.py
index 459cab4..5590a6b 100644
--- a/nlcodec/dstruct.py
+++ b/nlcodec/dstruct.py
@@ -90,11 +90,12 @@ class TrNode(Generic[T, D]):  # Trie Node or Tree Node
         self.kids = dict() if kids is None else kids
 
     def get_node(self, idxs, create_missing: bool = True) -> 'TrNode[T, D]':
-        if not idxs:
-            return self
-        if create_missing and idxs[0] not in self.kids:  # make one
-            self.kids[idxs[0]] = TrNode(idx=idxs[0], parent=self)
-        return self.kids[idxs[0]].get_node(idxs=idxs[1:], create_missing=create_missing)
+        node = self  # a loop: as deep as the longest name, recursion may hit the limit
+        for idx in idxs or ():
+            if create_missing and idx not in node.kids:  # make one
+                node.kids[idx] = TrNode(idx=idx, parent=node)
+            node = node.kids[idx]
+        return node
 
     @property
     def n_kids(self):
@@ -108,11 +109,19 @@ class TrNode(Generic[T, D]):  # Trie Node or Tree Node
     @property
     def size(self):
         """Number of nodes in the tree at this node. Counts self and all the kids"""
-        return 1 + sum(k.size for k in self.kids.values())
+        return sum(1 for _ in self._walk())
 
     @property
     def data_node_count(self):
-        return (1 if self.has_data else 0) + sum(k.data_node_count for k in self.kids.values())
+        return sum(1 for node in self._walk() if node.has_data)
+
+    def _walk(self):
+        """all nodes of the tree at this node; not recursive, the tree can be deep"""
+        stack = [self]
+        while stack:
+            node = stack.pop()
+            yield node
+            stack.extend(node.kids.values())
 
 
 class MaxHeap:
-- 
2.43.0


From 4423153a8dc0d6967de7375501aad32b4c7bf4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:59 +0000
Subject: [PATCH 40/44] fix: codecs with very long pieces could not be sent to
 worker processes (RecursionError in pickle)

---
 nlcodec/codec.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index 9e47325..9ae9d97 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -445,6 +445,15 @@ class BPEScheme(CharScheme):
                  f" but data_nodes={self.root.data_node_count}")
         assert self.unk_idx
 
+    def __getstate__(self):
+        state = self.__dict__.copy()
+        state.pop('root', None)  # it is as deep as the longest name; pickle is recursive
+        return state
+
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        self.root = self.make_vocab_prefix_trie(self.table)
+
     @classmethod
     def make_vocab_prefix_trie(cls, vocab: List[Type]):
         root: TrNode = TrNode[str, Type](idx='')
-- 
2.43.0


From e78454496f87d902b2bd20d5c249c0ea470dcaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:52 +0000
Subject: [PATCH 41/44] fix: splits of deeply nested pieces overflowed the
 recursion limit

---
 nlcodec/codec.py | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index 9ae9d97..af9f4e3 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -159,21 +159,35 @@ class Type:  # Type as in word type vs token
         :param name: get name of pieces instead of ids. default=False
         :return: List of permutations
         """
-        perms = [[self.name if name else self.idx]]
-        if self.kids:
-            left, right = self.kids
-            for left_kid in left.get_permutations(name=name):
-                for right_kid in right.get_permutations(name=name):
-                    perms.append(left_kid + right_kid)
-        return perms
+        # not recursive: types can be nested deeper than the recursion limit
+        order, stack = [], [self]
+        while stack:
+            typ = stack.pop()
+            order.append(typ)
+            stack.extend(typ.kids or ())
+        all_perms = {}
+        for typ in reversed(order):  # parts come before the types made of them
+            if id(typ) in all_perms:
+                continue
+            perms = [[typ.name if name else typ.idx]]
+            if typ.kids:
+                left, right = typ.kids
+                for left_kid in all_perms[id(left)]:
+                    for right_kid in all_perms[id(right)]:
+                        perms.append(left_kid + right_kid)
+            all_perms[id(typ)] = perms
+        return all_perms[id(self)]
 
     def get_stochastic_split(self, name=False, split_ratio=0.1):
-        if self.kids and random.random() < split_ratio:
-            left, right = self.kids
-            return left.get_stochastic_split(name=name, split_ratio=split_ratio) \
-                   + right.get_stochastic_split(name=name, split_ratio=split_ratio)
-        else:
-            return [self.name if name else self.idx]
+        res, stack = [], [self]  # not recursive, as above
+        while stack:
+            typ = stack.pop()
+            if typ.kids and random.random() < split_ratio:
+                left, right = typ.kids
+                stack += [right, left]
+            else:
+                res.append(typ.name if name else typ.idx)
+        return res
 
 
 class EncoderScheme(abc.ABC):
-- 
2.43.0


From d8652088a547650e72e32f64b7f0325d2bd37745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:21 +0000
Subject: [PATCH 42/44] fix: min_co_ev was ignored for level 'subword', the
 other name of 'bpe'

---
 nlcodec/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index af9f4e3..dc0df72 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -680,7 +680,7 @@ def learn_vocab(inp, level, model, vocab_size, min_freq=1, term_freqs=False,
     args = {}
     if level != 'word':
         args['coverage'] = char_coverage  # no char_coverage for word
-    if level == 'bpe':
+    if issubclass(Scheme, BPEScheme):  # also by its other name
         args['min_co_evidence'] = min_co_ev
     table = Scheme.learn(inp, vocab_size=vocab_size, min_freq=min_freq, term_freqs=term_freqs,
                          **args)
-- 
2.43.0


From bf14835f0550c154ef9a9f41edd4b78fc3b132e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:21 +0000
Subject: [PATCH 43/44] fix: models of class labels with a carriage return
 inside could not be loaded

---
 nlcodec/codec.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index dc0df72..0ece1ca 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -132,7 +132,8 @@ class Type:  # Type as in word type vs token
     def read_vocab(cls, inp: Union[Path, str, TextIO]) -> Tuple[List['Type'], Optional[Dict]]:
 
         if isinstance(inp, Path) or isinstance(inp, str):
-            rdr = open(inp, 'r', encoding='utf8', errors='ignore')
+            # rows end at \n only; a class label may have \r inside
+            rdr = open(inp, 'r', encoding='utf8', errors='ignore', newline='\n')
         else:
             rdr = inp
 
-- 
2.43.0


From ce30d05492e0c8cc73f5d08480a2b238e38b55f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:47 +0000
Subject: [PATCH 44/44] fix: the id of an unknown class label was decoded, and
 reported, as the last label of the table

---
 nlcodec/codec.py           | 6 +++++-
 nlcodec/eval/pr_measure.py | 4 ++--
 nlcodec/eval/termfreq.py   | 2 +-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index 0ece1ca..e5f7d17 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -239,9 +239,13 @@ class EncoderScheme(abc.ABC):
         return [self.str_to_idx.get(piece, self.unk_idx) for piece in pieces]
 
     def decode(self, seq: List[int]) -> str:
-        pieces = [self.idx_to_str[idx] for idx in seq]
+        pieces = [self.name_of(idx) for idx in seq]
         return self.decode_str(pieces)
 
+    def name_of(self, idx: int) -> str:
+        # a negative id is unknown, in schemes without unk type; it is not the last of the table
+        return self.idx_to_str[idx] if idx >= 0 else Reseved.UNK_TOK[0]
+
     def encode_parallel(self, seqs: Iterator[str], n_cpus=N_CPUS) -> Iterator[List[int]]:
         return self.parallel_map(self.encode, seqs, n_cpus=n_cpus)
 
diff --git a/nlcodec/eval/pr_measure.py b/nlcodec/eval/pr_measure.py
index 4ae5824..a82e9fe 100644
--- a/nlcodec/eval/pr_measure.py
+++ b/nlcodec/eval/pr_measure.py
@@ -83,7 +83,7 @@ def main(model_path, cands, refs, n, out, freqs=None):
         if n == 1:
             for ng, f in new_grams.items():
                 ng = ng[0]
-                log.error(f'Not found:\t{ng}\t{codec.idx_to_str[ng]}\t{f}')
+                log.error(f'Not found:\t{ng}\t{codec.name_of(ng)}\t{f}')
             #raise Exception(msg)
         else:
             log.warning("TG, Come back and handle bigrams and above :)")
@@ -91,7 +91,7 @@ def main(model_path, cands, refs, n, out, freqs=None):
     gram_freqs = sorted(gram_freqs.items(), key=lambda t: t[1], reverse=True)
     out.write(f'Rank\tGram\tName\tRankF\tRefF\tCandF\tRecall\tPrecision\tF1\n')
     for i, (gram, rank_freq) in enumerate(gram_freqs):
-        name = ','.join(codec.idx_to_str[g] for g in gram)
+        name = ','.join(codec.name_of(g) for g in gram)
         idxs = ','.join(str(g) for g in gram)
         gram_recall = gram_recalls.get(gram, 0)
         gram_precision = gram_precisions.get(gram, 1) # should it be zero or one?
diff --git a/nlcodec/eval/termfreq.py b/nlcodec/eval/termfreq.py
index 7892feb..88468ee 100644
--- a/nlcodec/eval/termfreq.py
+++ b/nlcodec/eval/termfreq.py
@@ -39,7 +39,7 @@ def main(inp, out, n, model_path):
     freqs = sorted(freqs.items(), key=lambda x:x[1], reverse=True)
     for gram, freq in freqs:
         gram = list(gram)
-        names = [scheme.table[g].name for g in gram]
+        names = [scheme.name_of(g) for g in gram]
         line = json.dumps([gram, freq, names], ensure_ascii=False)
         out.write(line + '\n')
 
-- 
2.43.0

