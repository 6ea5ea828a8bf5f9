From a98d5bd6f7d76a7ca98684ce00f466dd1cf0a93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 01/17] fix: do not mutate the cached segmentation in unescape

---
 codeprep/bpepkg/bpe_encode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/bpepkg/bpe_encode.py b/codeprep/bpepkg/bpe_encode.py
index b253605..658aee2 100644
--- a/codeprep/bpepkg/bpe_encode.py
+++ b/codeprep/bpepkg/bpe_encode.py
@@ -40,7 +40,7 @@ def unescape(parts: List[str]):
     if parts[-1][-1] != ESCAPE_CHAR:
         raise ValueError(f"There should be {ESCAPE_CHAR} at the end, however this is what was passed: {parts}")
 
-    parts[-1] = parts[-1][:-1]
+    parts = parts[:-1] + [parts[-1][:-1]]
     return list(map(lambda p: p.replace(ESCAPE_CHAR + '@', ESCAPE_CHAR), parts))
 
 
-- 
2.43.0


From 3b344663d4a50b848c02e686ef783cf09a8f6ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 02/17] fix: limit_max_vocab fails when the threshold equals
 the vocabulary size

---
 codeprep/pipeline/vocab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/pipeline/vocab.py b/codeprep/pipeline/vocab.py
index 0cdfa3d..b252994 100644
--- a/codeprep/pipeline/vocab.py
+++ b/codeprep/pipeline/vocab.py
@@ -86,7 +86,7 @@ class PartialVocab(object):
 
     def limit_max_vocab(self, vocab_size_threshold: int) -> None:
         sorted_vocab = sorted(self.merged_word_counts.items(), key=lambda x: x[1], reverse=True)
-        if vocab_size_threshold > len(sorted_vocab):
+        if vocab_size_threshold >= len(sorted_vocab):
             return
         min_freq_excluded = sorted_vocab[vocab_size_threshold][1]
         adjusted_threshold = vocab_size_threshold - 1
-- 
2.43.0


From 62a2db4635835343ea901d70afd0e141c258b111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 03/17] fix: escape the base id when looking for a free bpe
 codes id

---
 codeprep/pipeline/bperegistry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/pipeline/bperegistry.py b/codeprep/pipeline/bperegistry.py
index a9503ad..cd60dac 100644
--- a/codeprep/pipeline/bperegistry.py
+++ b/codeprep/pipeline/bperegistry.py
@@ -111,7 +111,7 @@ def create_new_id_from(path: str, bpe_config: BpeConfig, predefined_bpe_codes_id
             return id_base
         else:
             def extract_number(full_id: str, id_base: str) -> int:
-                m = regex.fullmatch(f"{id_base}_([0-9]+)", full_id)
+                m = regex.fullmatch(f"{regex.escape(id_base)}_([0-9]+)", full_id)
                 return int(m[1]) if m else 0
 
             numbers = list(map(lambda d: extract_number(d, id_base), existing_ids))
-- 
2.43.0


From db0a6af776fefe2564b38f19d6fb607458532735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:50 +0000
Subject: [PATCH 04/17] fix: base vocab dir of a dataset with '_-_' in its name

---
 codeprep/pipeline/bperegistry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/pipeline/bperegistry.py b/codeprep/pipeline/bperegistry.py
index cd60dac..59f56ee 100644
--- a/codeprep/pipeline/bperegistry.py
+++ b/codeprep/pipeline/bperegistry.py
@@ -154,7 +154,7 @@ def get_base_vocab_dir(bpe_list_id: str) -> str:
     dataset_bpe_dir = get_dataset_bpe_dir(bpe_list_id)
     prep_config_str = os.path.basename(dataset_bpe_dir)
     #TODO do not hard code date and dir format in general
-    m = regex.fullmatch(r'(.*?)((?:_-_.*)?)', prep_config_str)
+    m = regex.fullmatch(r'(.*?)((?:_-_[a-z_]+)?)', prep_config_str)
     if not m:
         raise ValueError(f'Invalid dir format: {prep_config_str}')
     bpe_config = BpeConfig.from_suffix(m[2])
-- 
2.43.0


From 4120f8dbd7c6e5c0bcd665a3dfca502c80f2487c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:50 +0000
Subject: [PATCH 05/17] fix: close dumped partial vocabs before they are read
 back

---
 codeprep/pipeline/vocab.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/codeprep/pipeline/vocab.py b/codeprep/pipeline/vocab.py
index b252994..adb19de 100644
--- a/codeprep/pipeline/vocab.py
+++ b/codeprep/pipeline/vocab.py
@@ -197,7 +197,8 @@ class VocabMerger(multiprocessing.Process):
 
         first.renew_id()
         path_to_new_file = os.path.join(self.path_to_dump, f'{first_id}_{second_id}_{first.id}.{PARTVOCAB_EXT}')
-        pickle.dump(first, open(path_to_new_file, 'wb'))
+        with open(path_to_new_file, 'wb') as f:
+            pickle.dump(first, f)
         finish_file_dumping(path_to_new_file)
 
         return first, new_words
@@ -219,7 +220,8 @@ def create_and_dump_partial_vocab(param: Tuple[List[str], str, int]) -> PartialV
     partial_vocab = PartialVocab(vocab, chunk)
     path = os.path.join(path_to_dump, f'{partial_vocab.id}.{PARTVOCAB_EXT}')
     logger.debug(f"Dumping part vocab to {path}")
-    pickle.dump(partial_vocab, open(path, 'wb'))
+    with open(path, 'wb') as f:
+        pickle.dump(partial_vocab, f)
     return partial_vocab
 
 
-- 
2.43.0


From 482f6031ec2e838e18533fe2f1aac692a56c73e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:50 +0000
Subject: [PATCH 06/17] fix: recover from a truncated partial vocab dump

---
 codeprep/pipeline/vocab.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codeprep/pipeline/vocab.py b/codeprep/pipeline/vocab.py
index adb19de..b76670f 100644
--- a/codeprep/pipeline/vocab.py
+++ b/codeprep/pipeline/vocab.py
@@ -8,6 +8,7 @@ import os
 import platform
 import random
 import shutil
+import struct
 import sys
 from collections import Counter, defaultdict
 from fnmatch import fnmatch
@@ -228,7 +229,7 @@ def create_and_dump_partial_vocab(param: Tuple[List[str], str, int]) -> PartialV
 def finish_file_dumping(path_to_new_file: str) -> None:
     try:
         pickle.load(open(path_to_new_file, 'rb'))
-    except EOFError:
+    except (EOFError, pickle.UnpicklingError, IndexError, struct.error):
         # file has not been written properly
         os.remove(path_to_new_file)
         return
-- 
2.43.0


From cbe391782359b07ead73c2144231f32f0c82c739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 07/17] fix: preserve the text of words whose case cannot be
 restored

---
 codeprep/tokens/word.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/codeprep/tokens/word.py b/codeprep/tokens/word.py
index 3319e61..fad07f2 100644
--- a/codeprep/tokens/word.py
+++ b/codeprep/tokens/word.py
@@ -41,7 +41,7 @@ class Word(ParsedSubtoken):
             return self.value
 
     def __init__(self, canonic_form: str, capitalization: Capitalization = Capitalization.UNDEFINED):
-        Word._check_canonic_form_is_valid(canonic_form)
+        Word._check_canonic_form_is_valid(canonic_form, capitalization)
 
         self.canonic_form = canonic_form
         self.capitalization = capitalization
@@ -54,9 +54,12 @@ class Word(ParsedSubtoken):
         return s.isupper() and not s.lower().isupper()
 
     @staticmethod
-    def _check_canonic_form_is_valid(canonic_form) -> None:
-        if not isinstance(canonic_form, str) or Word._is_strictly_upper(canonic_form) \
-                or (canonic_form and Word._is_strictly_upper(canonic_form[0])):
+    def _check_canonic_form_is_valid(canonic_form, capitalization) -> None:
+        # words whose case cannot be restored after lowercasing (e.g. 'ẞ') are kept verbatim
+        is_verbatim = capitalization == Word.Capitalization.UNDEFINED
+        if not isinstance(canonic_form, str) or (not is_verbatim and (
+                Word._is_strictly_upper(canonic_form)
+                or (canonic_form and Word._is_strictly_upper(canonic_form[0])))):
             raise AssertionError(f"Bad canonic form: {canonic_form}")
 
     def __str__(self):
@@ -86,7 +89,7 @@ class Word(ParsedSubtoken):
         if self.capitalization == Word.Capitalization.UNDEFINED or self.capitalization == Word.Capitalization.NONE:
             return self.canonic_form
         elif self.capitalization == Word.Capitalization.FIRST_LETTER:
-            return self.canonic_form.capitalize()
+            return self.canonic_form[0].upper() + self.canonic_form[1:]
         elif self.capitalization == Word.Capitalization.ALL:
             return self.canonic_form.upper()
         else:
@@ -109,9 +112,9 @@ class Word(ParsedSubtoken):
 
         if s.islower() or not s:
             return cls(s, Word.Capitalization.NONE)
-        elif s.isupper():
+        elif s.isupper() and s.lower().upper() == s:
             return cls(s.lower(), Word.Capitalization.ALL)
-        elif s[0].isupper():
+        elif s[0].isupper() and s[0].lower().upper() == s[0]:
             return cls(s[0].lower() + s[1:], Word.Capitalization.FIRST_LETTER)
         else:
             return cls(s, Word.Capitalization.UNDEFINED)
-- 
2.43.0


From 89239e34b30a29b52d74c4e912ff3f5933888197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:06 +0000
Subject: [PATCH 08/17] fix: merges without a frequency can be read back after
 dumping

---
 codeprep/bpepkg/merge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codeprep/bpepkg/merge.py b/codeprep/bpepkg/merge.py
index 3a21c74..74bf14a 100644
--- a/codeprep/bpepkg/merge.py
+++ b/codeprep/bpepkg/merge.py
@@ -170,4 +170,5 @@ def read_merges(file: str, n_merges: Optional[int] = None) -> MergeList:
 def dump_merges(merges: MergeList, file: str):
     with open(file, 'w') as f:
         for merge in merges:
-            f.write(f"{to_literal_str(' '.join(merge.pair))} {merge.freq}\n")
\ No newline at end of file
+            freq = '' if merge.freq is None else f' {merge.freq}'
+            f.write(f"{to_literal_str(' '.join(merge.pair))}{freq}\n")
\ No newline at end of file
-- 
2.43.0


From 31bb6286296a0254595b257a5bedd1a0df090c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:24 +0000
Subject: [PATCH 09/17] fix: do not let whitespace into keyword, operator and
 number tokens

Pygments lexers return e.g. 'import static' (Java), ' :' (SCSS) or '12  '
(COBOL) as one token. The space became part of the token, so that the tokens
of a preprocessed file could not be told apart.
---
 codeprep/parse/matchers.py | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/codeprep/parse/matchers.py b/codeprep/parse/matchers.py
index 5bc5062..1bca0d9 100644
--- a/codeprep/parse/matchers.py
+++ b/codeprep/parse/matchers.py
@@ -15,6 +15,12 @@ from codeprep.tokens.word import KeyWord, Operator, Semicolon, OpeningCurlyBrack
     ClosingBracket
 
 
+def _split_on_whitespace(value: str) -> List[str]:
+    # Some lexers include whitespace in keywords, operators and numbers (e.g. 'import static' in Java),
+    # but tokens must not contain spaces
+    return value.split()
+
+
 class DefaultMatcher(object):
     def match(self, token, value: str) -> bool:
         return True
@@ -76,7 +82,7 @@ class KeywordMatcher(object):
         return token in Token.Keyword
 
     def transform(self, value: str) -> List[KeyWord]:
-        return [KeyWord(value)]
+        return [KeyWord(word) for word in _split_on_whitespace(value)]
 
 
 class NewLineMatcher(object):
@@ -108,12 +114,16 @@ class NumberMatchers(object):
         return token in Token.Literal.Number
 
     def transform(self, value: str) -> List[Number]:
+        return [self._to_number(number) for number in _split_on_whitespace(value)]
+
+    @staticmethod
+    def _to_number(value: str) -> Number:
         if value == '0':
-            return [Zero()]
+            return Zero()
         elif value == '1':
-            return [One()]
+            return One()
         else:
-            return [Number(value)]
+            return Number(value)
 
 
 class OperatorMatcher(object):
@@ -121,18 +131,22 @@ class OperatorMatcher(object):
         return token is Token.Operator or token in Token.Punctuation
 
     def transform(self, value: str) -> List[Operator]:
+        return [self._to_operator(operator) for operator in _split_on_whitespace(value)]
+
+    @staticmethod
+    def _to_operator(value: str) -> Operator:
         if value == ';':
-            return [Semicolon()]
+            return Semicolon()
         elif value == '{':
-            return [OpeningCurlyBracket()]
+            return OpeningCurlyBracket()
         elif value == '}':
-            return [ClosingCurlyBracket()]
+            return ClosingCurlyBracket()
         elif value == '(':
-            return [OpeningBracket()]
+            return OpeningBracket()
         elif value == ')':
-            return [ClosingBracket()]
+            return ClosingBracket()
         else:
-            return [Operator(value)]
+            return Operator(value)
 
 
 class WordOperatorMatcher(object):
-- 
2.43.0


From 4c745c4bfde280e1b4a9d244679b7542e2a2c24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:44 +0000
Subject: [PATCH 10/17] fix: mark vocabularies as complete, recompute outdated
 ones

---
 codeprep/pipeline/stages.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/codeprep/pipeline/stages.py b/codeprep/pipeline/stages.py
index eb13220..3a9c6c1 100644
--- a/codeprep/pipeline/stages.py
+++ b/codeprep/pipeline/stages.py
@@ -5,12 +5,12 @@
 """This module runs different stages of preprocessing flow and makes sure not to rerun a stage if its results are already available.
 """
 import logging
-import os
 from typing import Optional
 
 from codeprep.pipeline import parse_projects, to_repr
 from codeprep.pipeline.bperegistry import CustomBpeConfig
-from codeprep.pipeline.dataset import Dataset, is_path_ready, is_path_outdated, archive_path
+from codeprep.pipeline.dataset import Dataset, is_path_ready, is_path_outdated, archive_path, \
+    set_path_ready
 from codeprep.pipeline.vocab import calc_vocab
 
 logger = logging.getLogger(__name__)
@@ -44,27 +44,24 @@ def run_until_base_bpe_vocab(dataset: Dataset, custom_bpe_config: Optional[Custo
     logger.info("Computing base bpe vocab...")
     if not is_path_ready(dataset.path_to_bpe_vocab_file):
         calc_vocab(dataset.preprocessed.path, dataset.preprocessed.file_iterator(), dataset.base_bpe_vocab_path)
+        set_path_ready(dataset.path_to_bpe_vocab_file)
     elif is_path_outdated(dataset.path_to_bpe_vocab_file):
         archive_path(dataset.path_to_bpe_vocab_file)
         calc_vocab(dataset.preprocessed.path, dataset.preprocessed.file_iterator(), dataset.base_bpe_vocab_path)
+        set_path_ready(dataset.path_to_bpe_vocab_file)
     else:
         logger.info("Vocabulary is already computed and up-to-date")
 
 
 def run_until_vocab(dataset: Dataset, custom_bpe_config: Optional[CustomBpeConfig]=None) -> None:
-    logger.info(f'Checking first if vocabulary file exists: {dataset.path_to_vocab_file}')
-    if os.path.exists(dataset.path_to_vocab_file):
-        logger.info("Vocabulary is already computed and up-to-date")
-        return
-
+    run_until_preprocessing(dataset, custom_bpe_config)
+    logger.info("Computing vocab...")
     if not is_path_ready(dataset.path_to_vocab_file):
-        run_until_preprocessing(dataset, custom_bpe_config)
-        logger.info("Computing vocab...")
         calc_vocab(dataset.preprocessed.path, dataset.preprocessed.file_iterator(), dataset.vocab_path)
+        set_path_ready(dataset.path_to_vocab_file)
     elif is_path_outdated(dataset.path_to_vocab_file):
-        run_until_preprocessing(dataset, custom_bpe_config)
-        logger.info("Computing vocab...")
-        archive_path(dataset.path_to_bpe_vocab_file)
+        archive_path(dataset.path_to_vocab_file)
         calc_vocab(dataset.preprocessed.path, dataset.preprocessed.file_iterator(), dataset.vocab_path)
+        set_path_ready(dataset.path_to_vocab_file)
     else:
-        raise AssertionError()
\ No newline at end of file
+        logger.info("Vocabulary is already computed and up-to-date")
-- 
2.43.0


From 855322e6705ef85b9a3aa466ba0ec0f8d7e978d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:44 +0000
Subject: [PATCH 11/17] fix: do not take an unfinished vocab file for a
 complete one

---
 codeprep/pipeline/vocab.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/codeprep/pipeline/vocab.py b/codeprep/pipeline/vocab.py
index b76670f..6f1b829 100644
--- a/codeprep/pipeline/vocab.py
+++ b/codeprep/pipeline/vocab.py
@@ -31,6 +31,7 @@ logger = logging.getLogger(__name__)
 queue_size = AtomicInteger()
 
 PARTVOCAB_EXT = 'partvocab'
+NOT_FINISHED_EXT = 'part'
 PARTIAL_VOCABS_READY_FILENAME = 'ready'
 
 VOCABSIZE_FILENAME = 'vocabsize'
@@ -182,7 +183,10 @@ class VocabMerger(multiprocessing.Process):
             self._log_merge_results(new_words, len(first.merged_word_counts), time.time() - start)
 
         first.write_stats(self.vocav_size_file_path)
-        first.write_vocab(self.vocab_file_path)
+        # the existence of the vocab file means that the vocab is complete
+        not_finished_vocab_file_path = f'{self.vocab_file_path}.{NOT_FINISHED_EXT}'
+        first.write_vocab(not_finished_vocab_file_path)
+        os.rename(not_finished_vocab_file_path, self.vocab_file_path)
         shutil.rmtree(self.path_to_dump)
 
     def _log_merge_results(self, new_words: List[str], resulting_vocab_size: int, time: float) -> None:
-- 
2.43.0


From 650824793bd5fa551c3b37856be23fc2ee797ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:44 +0000
Subject: [PATCH 12/17] fix: do not take an unfinished nonbpe vocab file for a
 complete one

---
 codeprep/pipeline/vocabloader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/codeprep/pipeline/vocabloader.py b/codeprep/pipeline/vocabloader.py
index ac8306b..a5cc9a6 100644
--- a/codeprep/pipeline/vocabloader.py
+++ b/codeprep/pipeline/vocabloader.py
@@ -8,7 +8,7 @@ import shutil
 from typing import Set, Dict
 
 from codeprep.pipeline.bperegistry import get_bpe_dir, get_base_vocab_dir, RESULTING_VOCAB_FILE_NAME
-from codeprep.pipeline.dataset import Dataset, NONBPE_VOCAB_FILENAME
+from codeprep.pipeline.dataset import Dataset, NONBPE_VOCAB_FILENAME, NOT_FINISHED_EXTENSION
 from codeprep.preprocess.placeholders import placeholders
 from codeprep.util import to_literal_str
 from codeprep.pipeline.vocab import _load_vocab_dict, _load_vocab_set, VOCAB_FILENAME
@@ -49,7 +49,9 @@ def gather_non_bpe_vocab(dataset: Dataset):
         non_bpe_tokens.update(_load_vocab_set(os.path.join(part_nonbpe_vocab_dir, file)))
 
     non_bpe_tokens.update(list(placeholders.values()))
-    with open(dataset.path_to_nonbpe_vocab_file, 'w') as f:
+    not_finished_nonbpe_vocab_file = f'{dataset.path_to_nonbpe_vocab_file}{NOT_FINISHED_EXTENSION}'
+    with open(not_finished_nonbpe_vocab_file, 'w') as f:
         for token in non_bpe_tokens:
             f.write(f'{to_literal_str(token)}\n')
+    os.rename(not_finished_nonbpe_vocab_file, dataset.path_to_nonbpe_vocab_file)
     shutil.rmtree(part_nonbpe_vocab_dir)
\ No newline at end of file
-- 
2.43.0


From 177c57bc8be43b8c2d6118d94d238edf628a90fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:44 +0000
Subject: [PATCH 13/17] fix: notice files removed from the top level of a
 directory

---
 codeprep/dirutils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/codeprep/dirutils.py b/codeprep/dirutils.py
index c4792e9..d9091a2 100644
--- a/codeprep/dirutils.py
+++ b/codeprep/dirutils.py
@@ -59,6 +59,8 @@ def get_dir_last_modification(path: str, limit: int = LIMIT_FILES_ON_LAST_MODIFI
         if os.path.isfile(path) or len(os.listdir(path)) == 0:
             yield os.path.getmtime(path)
         else:
+            # files removed from the directory, and the links in it, change only the directory itself
+            yield os.path.getmtime(path)
             for root, dirs, files in os.walk(path):
                 for dir in dirs:
                     if counter >= limit:
-- 
2.43.0


From 13d826165914636f4d356f07782bc7f418635152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:44 +0000
Subject: [PATCH 14/17] fix: do not gather unfinished parts of the nonbpe vocab

---
 codeprep/pipeline/to_repr.py     | 4 +++-
 codeprep/pipeline/vocabloader.py | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/codeprep/pipeline/to_repr.py b/codeprep/pipeline/to_repr.py
index 24de466..130cfb8 100644
--- a/codeprep/pipeline/to_repr.py
+++ b/codeprep/pipeline/to_repr.py
@@ -76,7 +76,9 @@ def preprocess_and_write(params: Tuple[bytes, bytes, PrepConfig, str], bpe_data:
         o.write(to_literal_str(to_token_str(repr)) + '\n')
 
     if part_nonbpe_vocab_folder:
-        save_metadata(metadata, os.path.join(part_nonbpe_vocab_folder, f'{os.path.basename(dest_file_path)}_-_{time.time()}'))
+        part_nonbpe_vocab_file = os.path.join(part_nonbpe_vocab_folder, f'{os.path.basename(dest_file_path)}_-_{time.time()}')
+        save_metadata(metadata, part_nonbpe_vocab_file + NOT_FINISHED_EXTENSION)
+        os.rename(part_nonbpe_vocab_file + NOT_FINISHED_EXTENSION, part_nonbpe_vocab_file)
 
     os.rename(not_finished_dest_file_path, dest_file_path)
 
diff --git a/codeprep/pipeline/vocabloader.py b/codeprep/pipeline/vocabloader.py
index a5cc9a6..aebdf41 100644
--- a/codeprep/pipeline/vocabloader.py
+++ b/codeprep/pipeline/vocabloader.py
@@ -46,6 +46,8 @@ def gather_non_bpe_vocab(dataset: Dataset):
     for idx, file in enumerate(os.listdir(part_nonbpe_vocab_dir)):
         if idx % 569 == 0:
             print(f'Files processed: {idx}', end='\r')
+        if file.endswith(NOT_FINISHED_EXTENSION):
+            continue
         non_bpe_tokens.update(_load_vocab_set(os.path.join(part_nonbpe_vocab_dir, file)))
 
     non_bpe_tokens.update(list(placeholders.values()))
-- 
2.43.0


From fe226df8ee0783fe6a6741194f51ac21baf056de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:12 +0000
Subject: [PATCH 15/17] fix: do not leave partial vocabs behind when the vocab
 is complete

---
 codeprep/pipeline/vocab.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/codeprep/pipeline/vocab.py b/codeprep/pipeline/vocab.py
index 6f1b829..089f5a8 100644
--- a/codeprep/pipeline/vocab.py
+++ b/codeprep/pipeline/vocab.py
@@ -365,12 +365,14 @@ def calc_vocab(path: str, file_iterator: Iterator[bytes], output_dir: str):
         counter_class = AtomicInteger
     vocab_file_path = os.path.join(output_dir, VOCAB_FILENAME)
     vocab_size_file_path = os.path.join(output_dir, VOCABSIZE_FILENAME)
+    path_to_dump = os.path.join(output_dir, 'part_vocab')
     if os.path.exists(vocab_size_file_path) and os.path.exists(vocab_file_path):
         logger.info(f"Vocab files already exist at: {os.path.dirname(vocab_size_file_path)}/ . Doing nothing.")
+        if os.path.exists(path_to_dump):
+            # left by a run that was interrupted when removing it, another run must not resume from what remains
+            shutil.rmtree(path_to_dump)
         return
 
-    path_to_dump = os.path.join(output_dir, 'part_vocab')
-
     if partial_vocabs_ready(path_to_dump):
         task_list = load_partial_vocabs(path_to_dump)
     else:
-- 
2.43.0


From 1e57d7b591f65298c374bdf9a2fe79bbec08e3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:21 +0000
Subject: [PATCH 16/17] fix: a capital without a lower-case form is no
 capitalised first letter

Word.from_('\U0001d400\u1e9e') ended with an AssertionError (bad canonic form).
---
 codeprep/tokens/word.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/tokens/word.py b/codeprep/tokens/word.py
index fad07f2..e3bd3af 100644
--- a/codeprep/tokens/word.py
+++ b/codeprep/tokens/word.py
@@ -114,7 +114,7 @@ class Word(ParsedSubtoken):
             return cls(s, Word.Capitalization.NONE)
         elif s.isupper() and s.lower().upper() == s:
             return cls(s.lower(), Word.Capitalization.ALL)
-        elif s[0].isupper() and s[0].lower().upper() == s[0]:
+        elif s[0].isupper() and s[0].lower() != s[0] and s[0].lower().upper() == s[0]:
             return cls(s[0].lower() + s[1:], Word.Capitalization.FIRST_LETTER)
         else:
             return cls(s, Word.Capitalization.UNDEFINED)
-- 
2.43.0


From 9576de3825d253a00abc9d5239ab886ad4591dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:44 +0000
Subject: [PATCH 17/17] fix: a merged pair ends at the end of the word, not
 before a line break

---
 codeprep/bpepkg/bpe_learn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/bpepkg/bpe_learn.py b/codeprep/bpepkg/bpe_learn.py
index d6e569d..700f0d4 100644
--- a/codeprep/bpepkg/bpe_learn.py
+++ b/codeprep/bpepkg/bpe_learn.py
@@ -40,7 +40,7 @@ def merge_vocab(pair: Tuple[str, str], input_vocab: Dict[str, int]) -> Tuple[Dic
     concat_pair_with_space = ' '.join(pair)
     concat_pair_with_space_escaped = regex.escape(concat_pair_with_space)
     concat_pair = ''.join(pair)
-    reg = regex.compile('(^|[^ ]+ )(' + concat_pair_with_space_escaped + ')( [^ ]+|$)')
+    reg = regex.compile('(^|[^ ]+ )(' + concat_pair_with_space_escaped + ')( [^ ]+|\\Z)')
     added_pairs = []
     for word in input_vocab:
         word_occurences = input_vocab[word]
-- 
2.43.0

