From bb8181b0de9644b3e6d19d3e428cef488a2a9ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:12 +0000
Subject: [PATCH 01/27] fix: print an empty sequence as () instead of reading
 past its end

---
 core/src/main/cpp/algorithm/int_dict.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/algorithm/int_dict.cc b/core/src/main/cpp/algorithm/int_dict.cc
index edfe12c..4049769 100644
--- a/core/src/main/cpp/algorithm/int_dict.cc
+++ b/core/src/main/cpp/algorithm/int_dict.cc
@@ -8,7 +8,7 @@
 std::ostream& operator<< (std::ostream &out, const IntSeq& seq)
 {
     out << "(";
-    for (int i = 0; i < seq.size() - 1; i++) {
+    for (int i = 0; i + 1 < seq.size(); i++) {
         out << seq[i] << " ";
     }
     if (!seq.empty()) {
@@ -20,7 +20,7 @@ std::ostream& operator<< (std::ostream &out, const IntSeq& seq)
 
 std::string to_string(const IntSeq& seq) {
     std::string res = "(";
-    for (int i = 0; i < seq.size() - 1; i++) {
+    for (int i = 0; i + 1 < seq.size(); i++) {
         res += std::to_string(seq[i]) + " ";
     }
     if (!seq.empty()) {
-- 
2.43.0


From 09ff5e3f7a85a749efa40464c672c0cc6b25f441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:45 +0000
Subject: [PATCH 02/27] fix: find symbols which were added to the dictionary
 out of order

---
 core/src/main/cpp/algorithm/int_dict_p.cc | 33 ++++++++++++++++-------
 core/src/main/cpp/algorithm/int_dict_p.h  |  4 +++
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/core/src/main/cpp/algorithm/int_dict_p.cc b/core/src/main/cpp/algorithm/int_dict_p.cc
index 62b4c44..fbc34de 100644
--- a/core/src/main/cpp/algorithm/int_dict_p.cc
+++ b/core/src/main/cpp/algorithm/int_dict_p.cc
@@ -29,6 +29,8 @@ IntDictImpl::IntDictImpl(const IntSeq& seqs) {
 IntDictImpl::IntDictImpl(const IntDictImpl& dict) {
     seqs_ = dict.seqs_; // Sanitizer: indirect leak
     parents_ = dict.parents_; // Sanitizer: indirect leak
+    sorted_size_ = dict.sorted_size_;
+    appended_ = dict.appended_;
 }
 
 void IntDictImpl::init(const std::vector<IntSeq>& seqs) {
@@ -36,6 +38,8 @@ void IntDictImpl::init(const std::vector<IntSeq>& seqs) {
     parents_ = IntSeq(seqs_.size(), -1); // Sanitizer: indirect leak
     std::vector<std::pair<IntSeq, int>> parents_stack;
     std::sort(seqs_.begin(), seqs_.end());
+    sorted_size_ = static_cast<int>(seqs_.size());
+    appended_.clear();
 
     for (int i = 0; i < seqs_.size(); ++i) {
         IntSeq current = seqs_[i];
@@ -101,8 +105,8 @@ double IntDictImpl::weightedParse(const IntSeq& seq, const IntSeq& freqs, double
 }
 
 int IntDictImpl::search(const IntSeq& seq, std::unordered_set<int>* excludes) {
-    int index = static_cast<int>(std::lower_bound(seqs_.begin(), seqs_.end(), seq) - seqs_.begin());
-    if (index >= 0 && index < size() && seqs_[index] == seq) {
+    int index = static_cast<int>(std::lower_bound(seqs_.begin(), seqs_.begin() + sorted_size_, seq) - seqs_.begin());
+    if (index >= 0 && index < sorted_size_ && seqs_[index] == seq) {
         if (excludes == nullptr || excludes->count(index) == 0) {
             return index;
         }
@@ -116,15 +120,26 @@ int IntDictImpl::search(const IntSeq& seq, std::unordered_set<int>* excludes) {
         }
         index = parents_[index];
     }
-    if (excludes == nullptr) {
-        int ind = size();
-        seqs_.emplace_back(1, seq[0]);
-        parents_.push_back(-1);
-        return ind;
-    } else {
-        return -1;
+    auto known = appended_.find(seq[0]);
+    if (known != appended_.end()) {
+        return excludes == nullptr || excludes->count(known->second) == 0 ? known->second : -1;
     }
+    return excludes == nullptr ? append(seq[0]) : -1;
+}
 
+int IntDictImpl::append(int symbol) {
+    int index = size();
+    seqs_.emplace_back(1, symbol);
+    parents_.push_back(-1);
+    appended_[symbol] = index;
+    // the new symbol becomes the parent of the entries which start with it and had no parent
+    auto entry = std::lower_bound(seqs_.begin(), seqs_.begin() + sorted_size_, seqs_[index]);
+    for (auto i = entry - seqs_.begin(); i < sorted_size_ && seqs_[i][0] == symbol; i++) {
+        if (parents_[i] < 0) {
+            parents_[i] = index;
+        }
+    }
+    return index;
 }
 
 int IntDictImpl::parse(const IntSeq& seq, const IntSeq& freqs, double total_freq, IntSeq* output) {
diff --git a/core/src/main/cpp/algorithm/int_dict_p.h b/core/src/main/cpp/algorithm/int_dict_p.h
index 6895615..463cf53 100644
--- a/core/src/main/cpp/algorithm/int_dict_p.h
+++ b/core/src/main/cpp/algorithm/int_dict_p.h
@@ -29,8 +29,12 @@ public:
 private:
     std::vector<IntSeq> seqs_;
     IntSeq parents_;
+    // seqs_[0, sorted_size_) is sorted; symbols met later are appended after it and found through appended_.
+    int sorted_size_ = 0;
+    std::unordered_map<int, int> appended_;
 
     void init(const std::vector<IntSeq>& seqs);
+    int append(int symbol);
     int linearParse(const IntSeq& seq, IntSeq* builder, std::unordered_set<int>* excludes);
     double weightedParse(const IntSeq& seq, const IntSeq& freqs, double total_freq,
                          IntSeq* builder, std::unordered_set<int>* excludes);
-- 
2.43.0


From 9dffc2498e996e227c096b8b9712c1c056929c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:57 +0000
Subject: [PATCH 03/27] fix: do not dereference the end iterator for an element
 Encoder meets first

---
 core/src/main/cpp/algorithm/list_dict.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/main/cpp/algorithm/list_dict.h b/core/src/main/cpp/algorithm/list_dict.h
index 069610b..a9f0e08 100644
--- a/core/src/main/cpp/algorithm/list_dict.h
+++ b/core/src/main/cpp/algorithm/list_dict.h
@@ -18,7 +18,7 @@ public:
     for (const T& next: input) {
       auto code_ptr = mapping.find(next);
       if (code_ptr == mapping.end()) {
-        mapping[next] = next_id++;
+        code_ptr = mapping.emplace(next, next_id++).first;
       }
       output->push_back(code_ptr->second);
     }
-- 
2.43.0


From 74b0ee99181117d604fb17a4b530d31568b4cb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:09 +0000
Subject: [PATCH 04/27] fix: keep initial frequencies attached to their
 sequences

The dictionary sorts the sequences it is built from, the initial frequencies
stayed in the order of the caller.
---
 core/src/main/cpp/algorithm/stat_dict_p.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/src/main/cpp/algorithm/stat_dict_p.cc b/core/src/main/cpp/algorithm/stat_dict_p.cc
index 6cdb6ef..96fe7d7 100644
--- a/core/src/main/cpp/algorithm/stat_dict_p.cc
+++ b/core/src/main/cpp/algorithm/stat_dict_p.cc
@@ -24,10 +24,13 @@ StatDictImpl::StatDictImpl(const std::vector<IntSeq>& seqs, double min_prob_resu
     if (init_freqs == nullptr) {
         parse_freqs_ = IntSeq(static_cast<size_t>(dict_->size())); // Sanitizer: indirect leak
     } else {
-        parse_freqs_ = IntSeq(*init_freqs);
+        // the dictionary sorts its sequences, so every frequency has to follow its own one
+        std::vector<size_t> order(seqs.size());
+        std::iota(order.begin(), order.end(), 0);
+        std::sort(order.begin(), order.end(), [&seqs] (size_t a, size_t b) { return seqs[a] < seqs[b]; });
+        for (size_t i : order)
+            parse_freqs_.push_back(i < init_freqs->size() ? (*init_freqs)[i] : 0);
         parse_freqs_init_power_ = std::accumulate(parse_freqs_.begin(), parse_freqs_.end(), 0.0);
-        for (auto i = parse_freqs_.size(); i < dict_->size(); i++)
-            parse_freqs_.push_back(0);
     }
     pairs_freqs_ = std::unordered_map<std::int64_t , int>(kAggPower); // Sanitizer: indirect leak
     min_probability_ = min_prob_result;
-- 
2.43.0


From 6932b364048f2bca0107e5789d3078c7a13b078a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:09 +0000
Subject: [PATCH 05/27] fix: code length of a builder which has no result or no
 data yet

---
 core/src/main/cpp/algorithm/int_vgram_builder_p.cc | 2 +-
 core/src/main/cpp/algorithm/stat_dict_p.cc         | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
index ae1c33f..9475da9 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
@@ -137,7 +137,7 @@ int IntVGramBuilderImpl::result_freqs(IntSeq *freqs) {
 }
 
 double IntVGramBuilderImpl::code_length() const {
-    return result_->code_length_per_char();
+    return (result_ != nullptr ? result_ : current_)->code_length_per_char();
 }
 
 double IntVGramBuilderImpl::get_min_probability() const {
diff --git a/core/src/main/cpp/algorithm/stat_dict_p.cc b/core/src/main/cpp/algorithm/stat_dict_p.cc
index 96fe7d7..fef7de9 100644
--- a/core/src/main/cpp/algorithm/stat_dict_p.cc
+++ b/core/src/main/cpp/algorithm/stat_dict_p.cc
@@ -77,6 +77,8 @@ int StatDictImpl::freq(int index) const {
 }
 
 double StatDictImpl::code_length_per_char() const {
+    if (power_ <= 0 || total_chars_ <= 0)
+        return 0;
     double sum = 0;
     for (int i = 0; i < size(); i++) {
         int frequency = freq(i);
-- 
2.43.0


From 06a9df218b2461589580bcae0f1414c37927eeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:12 +0000
Subject: [PATCH 06/27] fix: never drop symbols from the dictionary, never
 exceed its size for other reasons

A size below the number of symbols made the slot counts negative, which dropped
symbols or kept everything. The count of known symbols was off by one and stale
when new symbols came between updates, and all v-grams of a restored dictionary
were counted as symbols, so that more training reduced it to single symbols.
---
 .../main/cpp/algorithm/int_vgram_builder_p.cc | 28 +++++++++----------
 .../main/cpp/algorithm/int_vgram_builder_p.h  |  1 -
 .../vgram_builders/int_stream_vgram.cc        |  2 +-
 3 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
index 9475da9..33d1c81 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
@@ -2,6 +2,7 @@
 // Created by akhvorov on 14.08.18.
 //
 
+#include <algorithm>
 #include <numeric>
 #include <iostream>
 #import "int_vgram_builder_p.h"
@@ -9,7 +10,6 @@
 
 IntVGramBuilderImpl::IntVGramBuilderImpl(int size, int verbose) {
     size_ = size;
-    symb_alphabet_ = std::vector<IntSeq>();
     current_ = std::make_shared<StatDictImpl>();
     result_ = nullptr;
     verbose_ = verbose;
@@ -31,7 +31,6 @@ IntVGramBuilderImpl::IntVGramBuilderImpl(const IntDict &dict, const IntSeq &freq
     IntSeq freqs_copy(freqs.begin(), freqs.end());
     std::shared_ptr<StatDictImpl> result = std::make_shared<StatDictImpl>(dict.alphabet(), min_probability,
                                                                           &freqs_copy);
-    symb_alphabet_ = alphabet;
     current_ = result;
     result_ = result;
 }
@@ -39,7 +38,6 @@ IntVGramBuilderImpl::IntVGramBuilderImpl(const IntDict &dict, const IntSeq &freq
 void IntVGramBuilderImpl::init(const IntDict &alphabet, int size, int verbose) {
     verbose_ = verbose;
     size_ = size;
-    symb_alphabet_ = alphabet.alphabet();
     current_ = std::make_shared<StatDictImpl>(alphabet.alphabet());
     result_ = nullptr;
 }
@@ -86,7 +84,14 @@ void IntVGramBuilderImpl::update() {
     std::shared_ptr<StatDictImpl> result;
     std::vector<IntSeq> new_dict;
     IntSeq freqs;
-    int alphabet_size = static_cast<int>(symb_alphabet_.size());
+    int alphabet_size = 0;
+    for (int i = 0; i < current_->size(); i++) {
+        if (current_->parent(i) < 0) {
+            alphabet_size++;
+        }
+    }
+    // the symbols are always kept, v-grams share the rest of the size
+    int vgram_slots = std::max(0, size_ - alphabet_size);
     if (populate_) {
         if (verbose_ > 0) {
             std::cout << "Size: " << current_->size() << " rate: " << compression_rate <<
@@ -94,26 +99,19 @@ void IntVGramBuilderImpl::update() {
         }
         int slots;
         if (current_->size() * kExtensionFactor < 10)
-            slots = size_ - alphabet_size;
+            slots = vgram_slots;
         else
             slots = static_cast<int>(current_->size() * kExtensionFactor);
+        if (result_ == nullptr) // the expanded dictionary is the result until the first reduction
+            slots = std::min(slots, std::max(0, size_ - current_->size()));
         double min_prob_result = current_->expand(slots, &new_dict, &freqs);
         result = std::make_shared<StatDictImpl>(new_dict, min_prob_result, &freqs);
     } else {
-        double min_prob_result = current_->reduce(size_ - alphabet_size, &new_dict, &freqs);
+        double min_prob_result = current_->reduce(vgram_slots, &new_dict, &freqs);
         result = std::make_shared<StatDictImpl>(new_dict, min_prob_result, &freqs);
         result_ = result;
     }
     current_ = result;
-    int alpha_accum_num = 0;
-    for (int i = 0; i < current_->size(); i++) {
-        if (current_->parent(i) < 0) {
-            if (alpha_accum_num > alphabet_size) {
-                symb_alphabet_.push_back(current_->get(i));
-            }
-            alpha_accum_num++;
-        }
-    }
     populate_ = !populate_;
 }
 
diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.h b/core/src/main/cpp/algorithm/int_vgram_builder_p.h
index af8e9fd..e4d1d60 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.h
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.h
@@ -36,7 +36,6 @@ public:
 
 private:
     int size_;
-    std::vector<IntSeq> symb_alphabet_;
     std::shared_ptr<StatDictImpl> current_;
     std::shared_ptr<StatDictImpl> result_;
     bool populate_ = true;
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index 4ed43ab..1e319c8 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -16,7 +16,7 @@ IntStreamVGram::IntStreamVGram(int size)
         : IntStreamVGram(size, 1) {}
 
 IntStreamVGram::IntStreamVGram(int size, int verbose = 1) {
-    builder_ = std::shared_ptr<IntVGramBuilder>(new IntVGramBuilderImpl(size - 1, verbose));
+    builder_ = std::shared_ptr<IntVGramBuilder>(new IntVGramBuilderImpl(size, verbose));
     size_ = size;
     dict_ = nullptr;
     coder_ = std::make_shared<SeqCoder>();
-- 
2.43.0


From 06ae5aa6dbddca3c4ee1598327a62d78bb03aac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:37 +0000
Subject: [PATCH 07/27] fix: do not include word_splitter.h, which does not
 exist and is not used

---
 .../src/main/cpp/interfaces/vgram_builders/string_stream_vgram.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.h b/core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.h
index f5bfc0e..afe42ef 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.h
+++ b/core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.h
@@ -7,7 +7,6 @@
 
 #include "../tokenizers/char_tokenizer.h"
 #include "../tokenizers/word_tokenizer.h"
-#include "../word_splitter/word_splitter.h"
 #include "int_stream_vgram.h"
 
 using json = nlohmann::json;
-- 
2.43.0


From 08ddcd5f53e65c1ebd4f29f2d5f3d5975ffa2798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:32 +0000
Subject: [PATCH 08/27] fix: IntVGram::save writes the fields its loader needs

---
 core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc | 5 +++++
 core/src/main/cpp/interfaces/vgram_builders/int_vgram.h  | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
index 2ec120c..972a145 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
@@ -14,6 +14,7 @@
 #include <int_vgram_builder_p.h>
 #include <int_dict_p.h>
 #include "int_vgram.h"
+#include "../saver.h"
 
 using namespace vgram_core;
 
@@ -79,6 +80,10 @@ void IntVGram::recompute_freqs(const std::vector<IntSeq> &seqs) {
     total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);
 }
 
+void IntVGram::save(const std::string &filename, std::shared_ptr<BaseTokenizer> tokenizer) const {
+    Saver::save(this, filename);
+}
+
 std::vector<std::string> IntVGram::transform_to_string(const std::vector<IntSeq> &seqs) const {
     std::vector<std::string> res;
     res.reserve(seqs.size());
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
index d60794d..a99993d 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
@@ -28,6 +28,8 @@ namespace vgram_core {
 
         IntVGram *fit(const std::vector<IntSeq> &seqs/*, const std::string &filename,*/);
 
+        void save(const std::string &filename, std::shared_ptr<BaseTokenizer> tokenizer = nullptr) const;
+
         std::vector<std::string> transform_to_string(const std::vector<IntSeq> &seqs) const;
 
         std::vector<IntSeq> transform(const std::vector<IntSeq> &seqs) const;
-- 
2.43.0


From 0aa27fd17b931caeccd6e18ec9409a88d62c5acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:31 +0000
Subject: [PATCH 09/27] fix: grow the frequencies with the symbols found while
 they are recomputed

---
 core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
index 972a145..c9e3f81 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
@@ -68,6 +68,7 @@ void IntVGram::recompute_freqs(const std::vector<IntSeq> &seqs) {
     for (const IntSeq &seq : seqs) {
         IntSeq result;
         dict_->parse(coder_->encode(seq), freqs, total_freqs, &result);
+        freqs_.resize(dict_->size(), 0); // the dictionary registers symbols it meets for the first time
         for (int symb : result) {
             if (symb >= 0) {
                 freqs_[symb]++;
-- 
2.43.0


From e11bdbbb0b7d5b5760a086ff9c4f7953b8275d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:43 +0000
Subject: [PATCH 10/27] fix: reading the result frequencies does not change the
 statistics they are read from

---
 core/src/main/cpp/algorithm/int_vgram_builder_p.cc | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
index 33d1c81..4485c06 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
@@ -116,13 +116,8 @@ void IntVGramBuilderImpl::update() {
 }
 
 int IntVGramBuilderImpl::result_freqs(std::shared_ptr<StatDictImpl> stat_dict, IntSeq *freqs) {
-    if (stat_dict->size() > stat_dict->symbol_freqs_.size()) {
-        for (auto i = stat_dict->symbol_freqs_.size(); i < stat_dict->size(); ++i) {
-            stat_dict->symbol_freqs_.push_back(0);
-        }
-    }
-    for (int symbol_freq : stat_dict->symbol_freqs_) {
-        freqs->push_back(symbol_freq);
+    for (int i = 0; i < stat_dict->size(); i++) {
+        freqs->push_back(stat_dict->freq(i));
     }
     return static_cast<int>(freqs->size());
 }
-- 
2.43.0


From e2dd9e306c06098157f71e724bf1e85235461d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:43 +0000
Subject: [PATCH 11/27] fix: update_dict replaces the frequencies of a stream
 model, and every model has a dictionary from the start

---
 .../vgram_builders/int_stream_vgram.cc          | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index 1e319c8..9bb2a63 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -18,11 +18,11 @@ IntStreamVGram::IntStreamVGram(int size)
 IntStreamVGram::IntStreamVGram(int size, int verbose = 1) {
     builder_ = std::shared_ptr<IntVGramBuilder>(new IntVGramBuilderImpl(size, verbose));
     size_ = size;
-    dict_ = nullptr;
     coder_ = std::make_shared<SeqCoder>();
     freqs_ = IntSeq();
     total_freqs_ = 0;
     verbose_ = verbose;
+    update_dict();
 }
 
 void IntStreamVGram::accept(const IntSeq &seq) {
@@ -48,12 +48,11 @@ IntSeq IntStreamVGram::parse(const IntSeq &seq) const {
 }
 
 void IntStreamVGram::update_dict() {
-    if (dict_ != builder_->result()) {
-        dict_ = builder_->result();
-        builder_->result_freqs(&freqs_);
-        total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);
-        min_probability_ = builder_->get_min_probability();
-    }
+    dict_ = builder_->result();
+    freqs_.clear();
+    builder_->result_freqs(&freqs_);
+    total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);
+    min_probability_ = builder_->get_min_probability();
 }
 
 std::vector<IntSeq> IntStreamVGram::alphabet() const {
@@ -65,7 +64,9 @@ std::vector<IntSeq> IntStreamVGram::alphabet() const {
 }
 
 IntSeq IntStreamVGram::freqs() const {
-    return freqs_;
+    IntSeq freqs(freqs_);
+    freqs.resize(dict_->size(), 0); // parse could have added symbols which had not been seen before
+    return freqs;
 }
 
 void IntStreamVGram::save(const std::string &filename, std::shared_ptr<BaseTokenizer> tokenizer) const {
-- 
2.43.0


From 703249a6eced5c32060e241088d7bc7de30133e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:28 +0000
Subject: [PATCH 12/27] fix: continue the training of a loaded model with its
 size, frequencies and probability

---
 core/src/main/cpp/algorithm/int_vgram_builder_p.cc | 14 +++++++++++---
 core/src/main/cpp/algorithm/int_vgram_builder_p.h  |  3 ++-
 .../interfaces/vgram_builders/int_stream_vgram.cc  |  2 +-
 .../cpp/interfaces/vgram_builders/int_vgram.cc     |  2 +-
 4 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
index 4485c06..e91a292 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
@@ -25,9 +25,13 @@ IntVGramBuilderImpl::IntVGramBuilderImpl(const IntSeq &alphabet, int size, int v
 }
 
 IntVGramBuilderImpl::IntVGramBuilderImpl(const IntDict &dict, const IntSeq &freqs,
-                                         const std::vector<IntSeq> &alphabet, double min_probability, int verbose) {
+                                         const std::vector<IntSeq> &alphabet, double min_probability, int verbose,
+                                         int size) {
     verbose_ = verbose;
-    size_ = dict.size();
+    size_ = size > 0 ? size : dict.size();
+    restored_ = true;
+    if (!(min_probability > 0)) // nothing had been learned when it was saved
+        min_probability = StatDictImpl::kMaxMinProbability;
     IntSeq freqs_copy(freqs.begin(), freqs.end());
     std::shared_ptr<StatDictImpl> result = std::make_shared<StatDictImpl>(dict.alphabet(), min_probability,
                                                                           &freqs_copy);
@@ -110,6 +114,7 @@ void IntVGramBuilderImpl::update() {
         double min_prob_result = current_->reduce(vgram_slots, &new_dict, &freqs);
         result = std::make_shared<StatDictImpl>(new_dict, min_prob_result, &freqs);
         result_ = result;
+        restored_ = false;
     }
     current_ = result;
     populate_ = !populate_;
@@ -117,7 +122,10 @@ void IntVGramBuilderImpl::update() {
 
 int IntVGramBuilderImpl::result_freqs(std::shared_ptr<StatDictImpl> stat_dict, IntSeq *freqs) {
     for (int i = 0; i < stat_dict->size(); i++) {
-        freqs->push_back(stat_dict->freq(i));
+        int freq = stat_dict->freq(i);
+        if (restored_) // the counts it was restored with and the ones made since then
+            freq = i < stat_dict->parse_freqs_.size() ? stat_dict->parse_freqs_[i] : 0;
+        freqs->push_back(freq);
     }
     return static_cast<int>(freqs->size());
 }
diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.h b/core/src/main/cpp/algorithm/int_vgram_builder_p.h
index e4d1d60..5673536 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.h
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.h
@@ -20,7 +20,7 @@ public:
     IntVGramBuilderImpl(const IntSeq &alphabet, int size, int verbose = 1);
 
     IntVGramBuilderImpl(const IntDict &dict, const IntSeq &freqs, const std::vector<IntSeq> &alphabet,
-                        double min_probability, int verbose = 1);
+                        double min_probability, int verbose = 1, int size = 0);
 
     std::shared_ptr<IntDict> result() const override;
 
@@ -39,6 +39,7 @@ private:
     std::shared_ptr<StatDictImpl> current_;
     std::shared_ptr<StatDictImpl> result_;
     bool populate_ = true;
+    bool restored_ = false; // result_ came with its frequencies and has not been replaced yet
 
     double prob_found_ = 0.1;
     double best_compression_rate_ = 1.0;
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index 9bb2a63..3bb2647 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -93,6 +93,6 @@ IntStreamVGram::IntStreamVGram(const std::shared_ptr<SeqCoder> coder, const IntS
     dict_ = std::make_shared<IntDictImpl>(alphabet);
 //    std::cout << "dict_ inited" << std::endl;
 //    std::cout << "Size " << dict_->size() << "!" << std::endl;
-    builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs, alphabet, min_probability, 1);
+    builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs, alphabet, min_probability, 1, size);
 //    std::cout << "out ctor" << std::endl;
 }
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
index c9e3f81..d634e3a 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
@@ -132,7 +132,7 @@ IntVGram::IntVGram(std::shared_ptr<SeqCoder> coder, const IntSeq &freqs,
     total_freqs_ = std::accumulate(freqs.begin(), freqs.end(), 0);
     coder_ = coder; //TODO: check it
     dict_ = std::make_shared<IntDictImpl>(alphabet);
-    builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs, alphabet, min_probability, 1);
+    builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs, alphabet, min_probability, 1, size);
     fitted_ = fitted;
     freqs_computed_ = freqs_computed;
     iter_num_ = 0;
-- 
2.43.0


From 7d05d0285901b52a14ca02b336139131aff98f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 13/27] fix: take both ends of the saved coder from the same
 map

---
 core/src/main/cpp/interfaces/saver.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/main/cpp/interfaces/saver.h b/core/src/main/cpp/interfaces/saver.h
index 6e8ef9d..512abf0 100644
--- a/core/src/main/cpp/interfaces/saver.h
+++ b/core/src/main/cpp/interfaces/saver.h
@@ -60,7 +60,8 @@ namespace vgram_core {
         }
 
         static json coder_to_json(const std::shared_ptr<vgram_core::SeqCoder> &coder) {
-            std::vector<std::pair<int, int>> pairs(coder->code_map().begin(), coder->code_map().end());
+            const std::unordered_map<int, int> code_map = coder->code_map();
+            std::vector<std::pair<int, int>> pairs(code_map.begin(), code_map.end());
             std::sort(pairs.begin(), pairs.end(),
                       [](const std::pair<int, int> &a, const std::pair<int, int> &b) { return a.second < b.second; });
             json coder_obj;
-- 
2.43.0


From da802482c28e98d10362c6fd01df0886c88c4ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 14/27] fix: a loaded model keeps the ids of the symbols
 appended to its dictionary

---
 .../cpp/interfaces/vgram_builders/int_stream_vgram.cc  | 10 +++++++++-
 .../main/cpp/interfaces/vgram_builders/int_vgram.cc    |  9 +--------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index 3bb2647..f58a83d 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -90,7 +90,15 @@ IntStreamVGram::IntStreamVGram(const std::shared_ptr<SeqCoder> coder, const IntS
     freqs_ = freqs;
     total_freqs_ = std::accumulate(freqs.begin(), freqs.end(), 0);
     coder_ = coder;
-    dict_ = std::make_shared<IntDictImpl>(alphabet);
+    verbose_ = 1;
+    // symbols which had been appended to the sorted dictionary keep their ids
+    auto sorted_end = std::is_sorted_until(alphabet.begin(), alphabet.end());
+    if (std::any_of(sorted_end, alphabet.end(), [] (const IntSeq& seq) { return seq.size() != 1; }))
+        sorted_end = alphabet.end();
+    dict_ = std::make_shared<IntDictImpl>(std::vector<IntSeq>(alphabet.begin(), sorted_end));
+    for (auto seq = sorted_end; seq != alphabet.end(); ++seq) {
+        dict_->search(*seq);
+    }
 //    std::cout << "dict_ inited" << std::endl;
 //    std::cout << "Size " << dict_->size() << "!" << std::endl;
     builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs, alphabet, min_probability, 1, size);
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
index d634e3a..915384f 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
@@ -125,14 +125,7 @@ bool IntVGram::isTerminated() const {
 IntVGram::IntVGram(std::shared_ptr<SeqCoder> coder, const IntSeq &freqs,
                    const std::vector<IntSeq> &alphabet, int size, double min_probability,
                    bool fitted, bool freqs_computed)
-        : IntStreamVGram(size) {
-    size_ = size;
-    min_probability_ = min_probability;
-    freqs_ = freqs;
-    total_freqs_ = std::accumulate(freqs.begin(), freqs.end(), 0);
-    coder_ = coder; //TODO: check it
-    dict_ = std::make_shared<IntDictImpl>(alphabet);
-    builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs, alphabet, min_probability, 1, size);
+        : IntStreamVGram(coder, freqs, alphabet, size, min_probability) {
     fitted_ = fitted;
     freqs_computed_ = freqs_computed;
     iter_num_ = 0;
-- 
2.43.0


From efaf7b6448bf069459cd9f6bc4dce66162108fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:57 +0000
Subject: [PATCH 15/27] fix: never give a new token an id which another token
 has

---
 core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc b/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc
index 258f705..35e730e 100644
--- a/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc
+++ b/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc
@@ -33,8 +33,11 @@ vector<int> BaseTokenizer::transform(const string &seq) {
     coded_seq.reserve(tokens.size());
     for (const std::string &symb : tokens) {
         if (forward_coder_.count(symb) == 0) {
-            forward_coder_[symb] = static_cast<int>(forward_coder_.size());
-            backward_coder_[backward_coder_.size()] = symb;
+            int id = static_cast<int>(forward_coder_.size());
+            while (backward_coder_.count(id) != 0) // a restored coder may have gaps
+                id++;
+            forward_coder_[symb] = id;
+            backward_coder_[id] = symb;
         }
         coded_seq.push_back(forward_coder_.at(symb));
     }
-- 
2.43.0


From b07f7857249cc6d8a40cb26ee6a788151ca09e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 16/27] fix: do not make extra spaces parts of words

---
 core/src/main/cpp/interfaces/tokenizers/word_tokenizer.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/src/main/cpp/interfaces/tokenizers/word_tokenizer.cc b/core/src/main/cpp/interfaces/tokenizers/word_tokenizer.cc
index a70f5b1..6fffb27 100644
--- a/core/src/main/cpp/interfaces/tokenizers/word_tokenizer.cc
+++ b/core/src/main/cpp/interfaces/tokenizers/word_tokenizer.cc
@@ -19,9 +19,11 @@ vector<string> WordTokenizer::tokenize(const string &str) const {
     vector<string> tokens;
     string current;
     for (char i : str) {
-        if (i == ' ' && current != "") {
-            tokens.push_back(current);
-            current = "";
+        if (i == ' ') {
+            if (current != "") {
+                tokens.push_back(current);
+                current = "";
+            }
         } else {
             current += i;
         }
-- 
2.43.0


From 18a254779f3bf44412316bc4cc57ca1170909e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 17/27] fix: load a model of words as a model of words

---
 core/src/main/cpp/interfaces/loader.h | 7 +++++--
 core/src/main/cpp/interfaces/saver.h  | 3 +++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/interfaces/loader.h b/core/src/main/cpp/interfaces/loader.h
index 091127d..52cf1a2 100644
--- a/core/src/main/cpp/interfaces/loader.h
+++ b/core/src/main/cpp/interfaces/loader.h
@@ -36,7 +36,8 @@ namespace vgram_core {
         static std::shared_ptr<StringStreamVGram> load_string_stream_vgram(const std::string &filename) {
             std::shared_ptr<IntStreamVGram> stream_builder = load_int_stream_vgram(filename);
             std::shared_ptr<BaseTokenizer> tokenizer = load_tokenizer(filename, stream_builder->get_coder());
-            return std::make_shared<StringStreamVGram>(stream_builder, tokenizer);
+            bool words_are_tokens = std::dynamic_pointer_cast<WordTokenizer>(tokenizer) != nullptr;
+            return std::make_shared<StringStreamVGram>(stream_builder, tokenizer, false, words_are_tokens);
         }
 
         static StringVGram *load_string_vgram(const std::string &filename) {
@@ -102,7 +103,9 @@ namespace vgram_core {
                     forward_map[key] = vec[0];
                 }
             }
-            //TODO chose tokenizer
+            if (dict.value("words_are_tokens", false)) {
+                return std::make_shared<WordTokenizer>(forward_map);
+            }
             return std::make_shared<CharTokenizer>(forward_map);
         }
     };
diff --git a/core/src/main/cpp/interfaces/saver.h b/core/src/main/cpp/interfaces/saver.h
index 512abf0..f5c6977 100644
--- a/core/src/main/cpp/interfaces/saver.h
+++ b/core/src/main/cpp/interfaces/saver.h
@@ -52,6 +52,9 @@ namespace vgram_core {
             dict["min_prob"] = int_stream_vgram->min_probability_;
             dict["coder"] = coder_to_json(int_stream_vgram->get_coder());
             dict["alphabet"] = alphabet_to_json(int_stream_vgram, tokenizer);
+            if (std::dynamic_pointer_cast<WordTokenizer>(tokenizer)) {
+                dict["words_are_tokens"] = true;
+            }
         }
 
         static void add_fitted_info(json &dict, const vgram_core::IntVGram *int_vgram) {
-- 
2.43.0


From e188cde1535b4938ed704031a570303130a06bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:18 +0000
Subject: [PATCH 18/27] fix: save the texts of v-grams when a tokenizer is
 passed

---
 core/src/main/cpp/interfaces/saver.h                   | 10 ++++++----
 .../cpp/interfaces/vgram_builders/int_stream_vgram.cc  |  2 +-
 .../main/cpp/interfaces/vgram_builders/int_vgram.cc    |  2 +-
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/core/src/main/cpp/interfaces/saver.h b/core/src/main/cpp/interfaces/saver.h
index f5c6977..1bcfa0b 100644
--- a/core/src/main/cpp/interfaces/saver.h
+++ b/core/src/main/cpp/interfaces/saver.h
@@ -12,15 +12,17 @@
 namespace vgram_core {
     class Saver {
     public:
-        static void save(const vgram_core::IntStreamVGram *int_stream_vgram, const std::string &filename) {
+        static void save(const vgram_core::IntStreamVGram *int_stream_vgram, const std::string &filename,
+                         const std::shared_ptr<vgram_core::BaseTokenizer> &tokenizer = nullptr) {
             json dict;
-            add_base_info(dict, int_stream_vgram, nullptr);
+            add_base_info(dict, int_stream_vgram, tokenizer);
             write_to_file(dict, filename);
         }
 
-        static void save(const vgram_core::IntVGram *int_vgram, const std::string &filename) {
+        static void save(const vgram_core::IntVGram *int_vgram, const std::string &filename,
+                         const std::shared_ptr<vgram_core::BaseTokenizer> &tokenizer = nullptr) {
             json dict;
-            add_base_info(dict, int_vgram, nullptr);
+            add_base_info(dict, int_vgram, tokenizer);
             add_fitted_info(dict, int_vgram);
             write_to_file(dict, filename);
         }
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index f58a83d..a65e369 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -70,7 +70,7 @@ IntSeq IntStreamVGram::freqs() const {
 }
 
 void IntStreamVGram::save(const std::string &filename, std::shared_ptr<BaseTokenizer> tokenizer) const {
-    Saver::save(this, filename);
+    Saver::save(this, filename, tokenizer);
 }
 
 const std::shared_ptr<SeqCoder> IntStreamVGram::get_coder() const {
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
index 915384f..d408ee7 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
@@ -82,7 +82,7 @@ void IntVGram::recompute_freqs(const std::vector<IntSeq> &seqs) {
 }
 
 void IntVGram::save(const std::string &filename, std::shared_ptr<BaseTokenizer> tokenizer) const {
-    Saver::save(this, filename);
+    Saver::save(this, filename, tokenizer);
 }
 
 std::vector<std::string> IntVGram::transform_to_string(const std::vector<IntSeq> &seqs) const {
-- 
2.43.0


From 17e819cbb2594a828144c26d76d4fd3659d3331d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:14 +0000
Subject: [PATCH 19/27] fix: refuse a file which lacks a field instead of
 reading past its members

---
 core/src/main/cpp/interfaces/loader.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/core/src/main/cpp/interfaces/loader.h b/core/src/main/cpp/interfaces/loader.h
index 52cf1a2..3e1a509 100644
--- a/core/src/main/cpp/interfaces/loader.h
+++ b/core/src/main/cpp/interfaces/loader.h
@@ -52,8 +52,8 @@ namespace vgram_core {
                                       IntSeq &freqs, std::vector<IntSeq> &alphabet, int &size, double &min_probability,
                                       bool &fitted, bool &freqs_computed) {
             json dict = read_dict(filename, coder, freqs, alphabet, size, min_probability);
-            fitted = dict["fitted"].get<bool>();
-            freqs_computed = dict["freqs_computed"].get<bool>();
+            fitted = dict.at("fitted").get<bool>();
+            freqs_computed = dict.at("freqs_computed").get<bool>();
             return dict;
         }
 
@@ -61,8 +61,8 @@ namespace vgram_core {
                               std::vector<IntSeq> &alphabet, int &size, double &min_probability) {
 //        std::cout << "in read_dict" << std::endl;
             json dict = read_dict_json(filename);
-            size = dict["size"];
-            min_probability = dict["min_prob"];
+            size = dict.at("size");
+            min_probability = dict.at("min_prob");
 //        std::cout << "first loop" << std::endl;
             read_coder(dict, coder);
 //        std::cout << "between" << std::endl;
@@ -80,15 +80,15 @@ namespace vgram_core {
         }
 
         static void read_coder(json &dict, const std::shared_ptr<SeqCoder> &coder) {
-            for (int n : dict["coder"]) {
+            for (int n : dict.at("coder")) {
                 coder->encode(std::vector<int>(1, n));
             }
         }
 
         static void read_alphabet(json &dict, IntSeq &freqs, std::vector<IntSeq> &alphabet) {
-            for (const auto &word_obj : dict["alphabet"]) {
-                freqs.push_back(word_obj["freq"].get<int>());
-                alphabet.push_back(word_obj["vec"].get<IntSeq>());
+            for (const auto &word_obj : dict.at("alphabet")) {
+                freqs.push_back(word_obj.at("freq").get<int>());
+                alphabet.push_back(word_obj.at("vec").get<IntSeq>());
             }
         }
 
@@ -96,10 +96,10 @@ namespace vgram_core {
                                                              const std::shared_ptr<SeqCoder> &coder) {
             json dict = read_dict_json(filename);
             std::unordered_map<std::string, int> forward_map;
-            for (const auto &word_obj : dict["alphabet"]) {
-                const std::vector<int> vec = coder->decode(word_obj["vec"].get<IntSeq>());
+            for (const auto &word_obj : dict.at("alphabet")) {
+                const std::vector<int> vec = coder->decode(word_obj.at("vec").get<IntSeq>());
                 if (vec.size() == 1) {
-                    std::string key = word_obj["text"].get<std::string>();
+                    std::string key = word_obj.at("text").get<std::string>();
                     forward_map[key] = vec[0];
                 }
             }
-- 
2.43.0


From e68c64a6b7bfde2f1c64cd289695c22395eb9060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:30 +0000
Subject: [PATCH 20/27] fix: a loaded model of texts knows the texts of all the
 symbols it knows

---
 core/src/main/cpp/interfaces/loader.h |  7 +++++++
 core/src/main/cpp/interfaces/saver.h  | 13 +++++++++++++
 docs/source/save.rst                  |  1 +
 3 files changed, 21 insertions(+)

diff --git a/core/src/main/cpp/interfaces/loader.h b/core/src/main/cpp/interfaces/loader.h
index 3e1a509..6e223e8 100644
--- a/core/src/main/cpp/interfaces/loader.h
+++ b/core/src/main/cpp/interfaces/loader.h
@@ -103,6 +103,13 @@ namespace vgram_core {
                     forward_map[key] = vec[0];
                 }
             }
+            // the symbols which have been accepted and are not in the alphabet yet
+            if (dict.count("coder_text") != 0) {
+                int code = 0;
+                for (const auto &text : dict.at("coder_text")) {
+                    forward_map[text.get<std::string>()] = coder->decode(IntSeq(1, code++))[0];
+                }
+            }
             if (dict.value("words_are_tokens", false)) {
                 return std::make_shared<WordTokenizer>(forward_map);
             }
diff --git a/core/src/main/cpp/interfaces/saver.h b/core/src/main/cpp/interfaces/saver.h
index 1bcfa0b..a395aba 100644
--- a/core/src/main/cpp/interfaces/saver.h
+++ b/core/src/main/cpp/interfaces/saver.h
@@ -54,6 +54,9 @@ namespace vgram_core {
             dict["min_prob"] = int_stream_vgram->min_probability_;
             dict["coder"] = coder_to_json(int_stream_vgram->get_coder());
             dict["alphabet"] = alphabet_to_json(int_stream_vgram, tokenizer);
+            if (tokenizer != nullptr) {
+                dict["coder_text"] = coder_texts_to_json(int_stream_vgram->get_coder(), tokenizer);
+            }
             if (std::dynamic_pointer_cast<WordTokenizer>(tokenizer)) {
                 dict["words_are_tokens"] = true;
             }
@@ -76,6 +79,16 @@ namespace vgram_core {
             return coder_obj;
         }
 
+        static json coder_texts_to_json(const std::shared_ptr<vgram_core::SeqCoder> &coder,
+                                        const std::shared_ptr<vgram_core::BaseTokenizer> &tokenizer) {
+            json texts = json::array();
+            const int size = static_cast<int>(coder->code_map().size());
+            for (int i = 0; i < size; i++) {
+                texts.push_back(tokenizer->decode(coder->decode(IntSeq(1, i))));
+            }
+            return texts;
+        }
+
         static json alphabet_to_json(const vgram_core::IntStreamVGram *int_stream_vgram,
                                      const std::shared_ptr<vgram_core::BaseTokenizer> &tokenizer) {
             json alpha;
diff --git a/docs/source/save.rst b/docs/source/save.rst
index 720972b..0771715 100644
--- a/docs/source/save.rst
+++ b/docs/source/save.rst
@@ -43,3 +43,4 @@ After v-grams construction, you can analyze the resulting dictionary.
 | ``size`` is a size of a dictionary
 | ``min_prob``, ``fitted`` and ``freqs_computed`` are inner model information.
 | ``fitted`` and ``freqs_computed`` provided only for ``(Int)VGram`` class.
+| ``coder_text`` and ``words_are_tokens`` provided only when you work with texts: the texts of ``coder`` symbols and whether they are words.
-- 
2.43.0


From 0185e792615d1e921256aaafba773b436c39816b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:05 +0000
Subject: [PATCH 21/27] fix: a fit interrupted while counting can be finished
 by fitting again

---
 .../main/cpp/interfaces/vgram_builders/int_vgram.cc  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
index d408ee7..0e411b2 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
@@ -32,7 +32,6 @@ IntVGram *IntVGram::fit(const std::vector<IntSeq> &seqs/*, const std::string &fi
             return this;
         }
         recompute_freqs(seqs);
-        freqs_computed_ = true;
         return this;
     }
     for (int i = 0; i < iter_num_; i++) {
@@ -53,7 +52,6 @@ IntVGram *IntVGram::fit(const std::vector<IntSeq> &seqs/*, const std::string &fi
     }
     fitted_ = true;
     recompute_freqs(seqs);
-    freqs_computed_ = true;
     return this;
 }
 
@@ -63,22 +61,24 @@ void IntVGram::recompute_freqs(const std::vector<IntSeq> &seqs) {
     }
     IntSeq freqs;
     builder_->result_freqs(&freqs);
-    freqs_ = IntSeq(freqs.size(), 0);
+    IntSeq new_freqs(freqs.size(), 0);
     int total_freqs = std::accumulate(freqs.begin(), freqs.end(), 0);
     for (const IntSeq &seq : seqs) {
         IntSeq result;
         dict_->parse(coder_->encode(seq), freqs, total_freqs, &result);
-        freqs_.resize(dict_->size(), 0); // the dictionary registers symbols it meets for the first time
+        new_freqs.resize(dict_->size(), 0); // the dictionary registers symbols it meets for the first time
         for (int symb : result) {
             if (symb >= 0) {
-                freqs_[symb]++;
+                new_freqs[symb]++;
             }
         }
         if (isTerminated()) {
-            return;
+            return; // the frequencies are not computed yet, the next fit will do it
         }
     }
+    freqs_ = new_freqs;
     total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);
+    freqs_computed_ = true;
 }
 
 void IntVGram::save(const std::string &filename, std::shared_ptr<BaseTokenizer> tokenizer) const {
-- 
2.43.0


From a14d37fb9d5450a00aa496032c2c7e11d9ba8ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:18 +0000
Subject: [PATCH 22/27] fix: segmenting into a filled list does not count what
 the list already had

---
 core/src/main/cpp/algorithm/stat_dict_p.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/main/cpp/algorithm/stat_dict_p.cc b/core/src/main/cpp/algorithm/stat_dict_p.cc
index fef7de9..54f6a11 100644
--- a/core/src/main/cpp/algorithm/stat_dict_p.cc
+++ b/core/src/main/cpp/algorithm/stat_dict_p.cc
@@ -93,10 +93,12 @@ bool StatDictImpl::enough(double prob_found) const {
 }
 
 int StatDictImpl::parse(const IntSeq& seq, IntSeq* parse_result) {
+    const size_t start = parse_result->size(); // what is in the result already has been counted
     dict_->parse(seq, parse_freqs_, power_ + parse_freqs_init_power_, parse_result);
     total_chars_ += seq.size();
     int prev = -1;
-    for (int symbol : *parse_result) {
+    for (size_t i = start; i < parse_result->size(); i++) {
+        int symbol = (*parse_result)[i];
         update_symbol(symbol, 1);
         if (prev >= 0)
             pairs_freqs_[(((std::int64_t) prev) << 32) | symbol] += 1; // Sanitizer: indirect leak
-- 
2.43.0


From bf7a77d8e9d8acfa6bdbbb38e55563936d23b2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:37 +0000
Subject: [PATCH 23/27] fix: saving which fails raises an exception

---
 core/src/main/cpp/interfaces/saver.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/interfaces/saver.h b/core/src/main/cpp/interfaces/saver.h
index a395aba..2af9ca0 100644
--- a/core/src/main/cpp/interfaces/saver.h
+++ b/core/src/main/cpp/interfaces/saver.h
@@ -42,10 +42,11 @@ namespace vgram_core {
 
     private:
         static void write_to_file(json& dict, const std::string &filename) {
-            std::ofstream file(filename);
+            std::ofstream file;
+            file.exceptions(std::ofstream::failbit | std::ofstream::badbit); // a model which is not saved is lost
+            file.open(filename);
             file << std::setw(2) << dict << std::endl;
             file.close();
-
         }
 
         static void add_base_info(json &dict, const vgram_core::IntStreamVGram *int_stream_vgram,
-- 
2.43.0


From 31fc613e9e33fea02fddb4deb5d40a93e84030b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:03 +0000
Subject: [PATCH 24/27] fix: looking up the empty sequence finds nothing

---
 core/src/main/cpp/algorithm/int_dict_p.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/main/cpp/algorithm/int_dict_p.cc b/core/src/main/cpp/algorithm/int_dict_p.cc
index fbc34de..02cb03b 100644
--- a/core/src/main/cpp/algorithm/int_dict_p.cc
+++ b/core/src/main/cpp/algorithm/int_dict_p.cc
@@ -105,6 +105,9 @@ double IntDictImpl::weightedParse(const IntSeq& seq, const IntSeq& freqs, double
 }
 
 int IntDictImpl::search(const IntSeq& seq, std::unordered_set<int>* excludes) {
+    if (seq.empty()) {
+        return -1;
+    }
     int index = static_cast<int>(std::lower_bound(seqs_.begin(), seqs_.begin() + sorted_size_, seq) - seqs_.begin());
     if (index >= 0 && index < sorted_size_ && seqs_[index] == seq) {
         if (excludes == nullptr || excludes->count(index) == 0) {
-- 
2.43.0


From 3191efa5e1d7edf04e758436fe661954f1bf7f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 25/27] fix: frequencies may sum up to more than an int holds

---
 .../main/cpp/interfaces/vgram_builders/int_stream_vgram.cc    | 4 ++--
 .../src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h | 2 +-
 core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc      | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index a65e369..f8a4658 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -51,7 +51,7 @@ void IntStreamVGram::update_dict() {
     dict_ = builder_->result();
     freqs_.clear();
     builder_->result_freqs(&freqs_);
-    total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);
+    total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0.0);
     min_probability_ = builder_->get_min_probability();
 }
 
@@ -88,7 +88,7 @@ IntStreamVGram::IntStreamVGram(const std::shared_ptr<SeqCoder> coder, const IntS
     size_ = size;
     min_probability_ = min_probability;
     freqs_ = freqs;
-    total_freqs_ = std::accumulate(freqs.begin(), freqs.end(), 0);
+    total_freqs_ = std::accumulate(freqs.begin(), freqs.end(), 0.0);
     coder_ = coder;
     verbose_ = 1;
     // symbols which had been appended to the sorted dictionary keep their ids
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h
index 2e79dac..60674f0 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h
@@ -50,7 +50,7 @@ namespace vgram_core {
         std::shared_ptr<IntDict> dict_;
         std::shared_ptr<SeqCoder> coder_;
         IntSeq freqs_;
-        int total_freqs_;
+        double total_freqs_;
         double min_probability_;
         int verbose_;
     };
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
index 0e411b2..4c4bf3b 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
@@ -62,7 +62,7 @@ void IntVGram::recompute_freqs(const std::vector<IntSeq> &seqs) {
     IntSeq freqs;
     builder_->result_freqs(&freqs);
     IntSeq new_freqs(freqs.size(), 0);
-    int total_freqs = std::accumulate(freqs.begin(), freqs.end(), 0);
+    double total_freqs = std::accumulate(freqs.begin(), freqs.end(), 0.0);
     for (const IntSeq &seq : seqs) {
         IntSeq result;
         dict_->parse(coder_->encode(seq), freqs, total_freqs, &result);
@@ -77,7 +77,7 @@ void IntVGram::recompute_freqs(const std::vector<IntSeq> &seqs) {
         }
     }
     freqs_ = new_freqs;
-    total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);
+    total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0.0);
     freqs_computed_ = true;
 }
 
-- 
2.43.0


From dcfeed3925d04f2f0a98abd0f141be6e576c6f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 26/27] fix: an entry may have the largest frequency an int
 holds

---
 core/src/main/cpp/algorithm/int_dict_p.cc  | 2 +-
 core/src/main/cpp/algorithm/stat_dict_p.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/algorithm/int_dict_p.cc b/core/src/main/cpp/algorithm/int_dict_p.cc
index 02cb03b..2794902 100644
--- a/core/src/main/cpp/algorithm/int_dict_p.cc
+++ b/core/src/main/cpp/algorithm/int_dict_p.cc
@@ -84,7 +84,7 @@ double IntDictImpl::weightedParse(const IntSeq& seq, const IntSeq& freqs, double
             continue;
         do {
             auto sym_len = get(sym).size();
-            double sym_log_prob = (freqs.size() > sym ? log(freqs[sym] + 1) : 0) - log(total_freq + size());
+            double sym_log_prob = (freqs.size() > sym ? log(freqs[sym] + 1.0) : 0) - log(total_freq + size());
             if (score[sym_len + pos] < score[pos] + sym_log_prob) {
                 score[sym_len + pos] = score[pos] + sym_log_prob;
                 symbols[sym_len + pos] = sym;
diff --git a/core/src/main/cpp/algorithm/stat_dict_p.cc b/core/src/main/cpp/algorithm/stat_dict_p.cc
index 54f6a11..59c4a51 100644
--- a/core/src/main/cpp/algorithm/stat_dict_p.cc
+++ b/core/src/main/cpp/algorithm/stat_dict_p.cc
@@ -259,7 +259,7 @@ double StatDictImpl::weightedParse(const IntSeq& seq, const IntSeq& freqs, doubl
         int sym = search(suffix, excludes);
         do {
             auto sym_len = get(sym).size();
-            double sym_log_prob = (freqs.size() > sym ? log(freqs[sym] + 1) : 0) - log(total_freq + size());
+            double sym_log_prob = (freqs.size() > sym ? log(freqs[sym] + 1.0) : 0) - log(total_freq + size());
             if (score[sym_len + pos] < score[pos] + sym_log_prob)
             {
                 score[sym_len + pos] = score[pos] + sym_log_prob;
-- 
2.43.0


From a3b709c5b9d795f697a0468dd49708dc90e0f673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:02 +0000
Subject: [PATCH 27/27] fix: the Python module owns the models it loads, and
 they are of its classes

---
 binding/src/main/cpp/bind_vgram.cc          | 4 ++--
 binding/src/main/cpp/py_int_vgram_builder.h | 6 +++++-
 binding/src/main/cpp/py_vgram_builder.h     | 6 +++++-
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/binding/src/main/cpp/bind_vgram.cc b/binding/src/main/cpp/bind_vgram.cc
index e0d5516..d9e485f 100644
--- a/binding/src/main/cpp/bind_vgram.cc
+++ b/binding/src/main/cpp/bind_vgram.cc
@@ -15,7 +15,7 @@ namespace py = pybind11;
 PYBIND11_MODULE(vgram, m) {
     m.doc() = "python lib for vgram features building";
 
-    py::class_<vgram_core::IntStreamVGram>(m, "IntStreamVGram")
+    py::class_<vgram_core::IntStreamVGram, std::shared_ptr<vgram_core::IntStreamVGram>>(m, "IntStreamVGram")
             .def(py::init<int, int>(), py::arg("size") = 10000, py::arg("verbose") = 0)
             .def_static("load", &vgram_core::Loader::load_int_stream_vgram)
             .def("accept", &vgram_core::IntStreamVGram::accept,
@@ -28,7 +28,7 @@ PYBIND11_MODULE(vgram, m) {
             .def("freqs", &vgram_core::IntStreamVGram::freqs)
             .def("alphabet", &vgram_core::IntStreamVGram::alphabet);
 
-    py::class_<vgram_core::StringStreamVGram>(m, "StreamVGram")
+    py::class_<vgram_core::StringStreamVGram, std::shared_ptr<vgram_core::StringStreamVGram>>(m, "StreamVGram")
             .def(py::init<int, int, bool, bool>(), py::arg("size") = 10000, py::arg("verbose") = 0,
                  py::arg("inner_words_split") = false, py::arg("words_are_tokens") = false)
             .def_static("load", &vgram_core::Loader::load_string_stream_vgram)
diff --git a/binding/src/main/cpp/py_int_vgram_builder.h b/binding/src/main/cpp/py_int_vgram_builder.h
index 73ba08a..b92dba9 100644
--- a/binding/src/main/cpp/py_int_vgram_builder.h
+++ b/binding/src/main/cpp/py_int_vgram_builder.h
@@ -5,6 +5,7 @@
 #ifndef DICT_EXPANSION_VGRAM_H
 #define DICT_EXPANSION_VGRAM_H
 
+#include <memory>
 #include <pybind11/pybind11.h>
 #include <src/main/cpp/interfaces/vgram_builders/int_vgram.h>
 #include <src/main/cpp/interfaces/loader.h>
@@ -14,9 +15,12 @@ namespace py = pybind11;
 class PyIntVGram : public vgram_core::IntVGram {
 public:
     static PyIntVGram *load(const std::string &filename) {
-        return static_cast<PyIntVGram*>(vgram_core::Loader::load_int_vgram(filename));
+        std::unique_ptr<vgram_core::IntVGram> model(vgram_core::Loader::load_int_vgram(filename));
+        return new PyIntVGram(*model);
     }
 
+    explicit PyIntVGram(const vgram_core::IntVGram &model) : vgram_core::IntVGram(model) {}
+
     PyIntVGram(int size, int iter_num) : vgram_core::IntVGram(size, iter_num) {}
 
     PyIntVGram(int size, int iter_num, int verbose) : vgram_core::IntVGram(size, iter_num, verbose) {}
diff --git a/binding/src/main/cpp/py_vgram_builder.h b/binding/src/main/cpp/py_vgram_builder.h
index 38e86ca..e8370d6 100644
--- a/binding/src/main/cpp/py_vgram_builder.h
+++ b/binding/src/main/cpp/py_vgram_builder.h
@@ -5,6 +5,7 @@
 #ifndef DICT_EXPANSION_PY_VGRAM_BUILDER_H
 #define DICT_EXPANSION_PY_VGRAM_BUILDER_H
 
+#include <memory>
 #include <pybind11/pybind11.h>
 #include <src/main/cpp/interfaces/vgram_builders/string_vgram.h>
 #include <src/main/cpp/interfaces/loader.h>
@@ -14,9 +15,12 @@ namespace py = pybind11;
 class PyStringVGram : public vgram_core::StringVGram {
 public:
     static PyStringVGram *load(const std::string &filename) {
-        return static_cast<PyStringVGram *>(vgram_core::Loader::load_string_vgram(filename));
+        std::unique_ptr<vgram_core::StringVGram> model(vgram_core::Loader::load_string_vgram(filename));
+        return new PyStringVGram(*model);
     }
 
+    explicit PyStringVGram(const vgram_core::StringVGram &model) : vgram_core::StringVGram(model) {}
+
     PyStringVGram(int size, int iter_num) : vgram_core::StringVGram(size, iter_num) {}
 
     PyStringVGram(int size, int iter_num, int verbose) : vgram_core::StringVGram(size, iter_num, verbose) {}
-- 
2.43.0

