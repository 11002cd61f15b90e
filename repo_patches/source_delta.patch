From eb5b337c3d0f1aa282cbfca268e65b22f4d503e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:25 +0000
Subject: [PATCH 01/62] fix: release the phrase's own data when a dimension
 changes

Owned arrays were released with delete instead of delete[], the owned output
array leaked, and the output array of a shared bimodal phrase, which belongs
to the user, was deleted.
---
 src/core/trainingset/xmmPhrase.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index 10a456e..f599ce7 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -564,14 +564,14 @@ void xmm::Phrase::onAttributeChange(xmm::AttributeBase* attr_pointer) {
         max_length_ = 0;
         empty_ = true;
         if (own_memory_) {
-            delete data_[0];
+            delete[] data_[0];
         }
         data_[0] = nullptr;
         if (bimodal_) {
             if (own_memory_) {
-                data_[1] = nullptr;
+                delete[] data_[1];
             }
-            delete data_[1];
+            data_[1] = nullptr;
         }
         column_names.resize(dimension.get());
     }
-- 
2.43.0


From 84410fa322b8fb45fdbf96a0a30604f016c0a734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:25 +0000
Subject: [PATCH 02/62] fix: allocate the array table of copied and assigned
 phrases

Copying a shared phrase wrote through an uninitialised pointer, assigning
between memory modes or modalities wrote through NULL or overran the table,
and a copy of an empty phrase released uninitialised pointers.
---
 src/core/trainingset/xmmPhrase.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index f599ce7..9617f13 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -66,8 +66,10 @@ xmm::Phrase::Phrase(Phrase const& src)
       input_length_(src.input_length_),
       output_length_(src.output_length_),
       max_length_(src.max_length_) {
+    data_ = new float*[bimodal_ ? 2 : 1];
+    data_[0] = NULL;
+    if (bimodal_) data_[1] = NULL;
     if (own_memory_) {
-        data_ = new float*[bimodal_ ? 2 : 1];
         if (max_length_ > 0) {
             unsigned int modality_dim =
                 bimodal_ ? dimension_input.get() : dimension.get();
@@ -162,12 +164,9 @@ xmm::Phrase& xmm::Phrase::operator=(Phrase const& src) {
                 } catch (std::exception& e) {
                 }
             }
-            try {
-                delete[] data_;
-            } catch (std::exception& e) {
-            }
-            data_ = NULL;
         }
+        delete[] data_;
+        data_ = NULL;
         own_memory_ = src.own_memory_;
         bimodal_ = src.bimodal_;
         empty_ = src.empty_;
@@ -180,8 +179,10 @@ xmm::Phrase& xmm::Phrase::operator=(Phrase const& src) {
         column_names = src.column_names;
         label = src.label;
 
+        data_ = new float*[bimodal_ ? 2 : 1];
+        data_[0] = NULL;
+        if (bimodal_) data_[1] = NULL;
         if (own_memory_) {
-            data_ = new float*[bimodal_ ? 2 : 1];
             if (max_length_ > 0) {
                 unsigned int modality_dim =
                     bimodal_ ? dimension_input.get() : dimension.get();
-- 
2.43.0


From 18a08b65bfb723eb0d505658e0d8bfa2c1aa33ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:25 +0000
Subject: [PATCH 03/62] fix: keep the phrase's input dimension below a reduced
 dimension

The output dimension (dimension - dimension_input) underflowed.
---
 src/core/trainingset/xmmPhrase.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index 9617f13..e3eb7b9 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -576,8 +576,11 @@ void xmm::Phrase::onAttributeChange(xmm::AttributeBase* attr_pointer) {
         }
         column_names.resize(dimension.get());
     }
-    if (attr_pointer == &dimension)
+    if (attr_pointer == &dimension) {
         dimension_input.setLimitMax(dimension.get() - 1);
+        if (dimension_input.get() > dimension.get() - 1)
+            dimension_input.set(dimension.get() - 1, true);
+    }
     if (attr_pointer == &label) {
         PhraseEvent event(this, PhraseEvent::Type::LabelChanged);
         events.notifyListeners(event);
-- 
2.43.0


From b53decf94a9877063bd4fcca7253cf0c43eded15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:25 +0000
Subject: [PATCH 04/62] fix: rescale the output modality of bimodal phrases in
 bounds

---
 src/core/trainingset/xmmPhrase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index e3eb7b9..e96e72e 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -522,8 +522,8 @@ void xmm::Phrase::rescale(std::vector<float> offset, std::vector<float> gain) {
             }
             p = getPointer_output(t);
             for (int d = dimension_input.get(); d < dimension.get(); d++) {
-                p[d] -= offset[d];
-                p[d] *= gain[d];
+                p[d - dimension_input.get()] -= offset[d];
+                p[d - dimension_input.get()] *= gain[d];
             }
         } else {
             p = getPointer(t);
-- 
2.43.0


From e454fe9df9b291e9f22645f5eef4cb8071d81b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:25 +0000
Subject: [PATCH 05/62] fix: a phrase with no frame is empty

clearInput/clearOutput on a unimodal phrase and connecting a zero-length array
left the phrase reported as not empty.
---
 src/core/trainingset/xmmPhrase.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index e96e72e..9197213 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -291,7 +291,7 @@ void xmm::Phrase::connect(float* pointer_to_data, unsigned int length) {
     data_[0] = pointer_to_data;
     input_length_ = length;
     length_ = length;
-    empty_ = false;
+    empty_ = (length == 0);
 }
 
 void xmm::Phrase::connect(float* pointer_to_data_input,
@@ -306,7 +306,6 @@ void xmm::Phrase::connect(float* pointer_to_data_input,
     input_length_ = length;
     output_length_ = length;
     trim();
-    empty_ = false;
 }
 
 void xmm::Phrase::connect_input(float* pointer_to_data, unsigned int length) {
@@ -318,7 +317,6 @@ void xmm::Phrase::connect_input(float* pointer_to_data, unsigned int length) {
     data_[0] = pointer_to_data;
     input_length_ = length;
     trim();
-    empty_ = false;
 }
 
 void xmm::Phrase::connect_output(float* pointer_to_data, unsigned int length) {
@@ -330,7 +328,6 @@ void xmm::Phrase::connect_output(float* pointer_to_data, unsigned int length) {
     data_[1] = pointer_to_data;
     output_length_ = length;
     trim();
-    empty_ = false;
 }
 
 void xmm::Phrase::disconnect() {
@@ -429,7 +426,10 @@ void xmm::Phrase::clear() {
 void xmm::Phrase::clearInput() {
     if (!own_memory_)
         throw std::runtime_error("Cannot clear a shared data phrase");
-    if (!bimodal_) length_ = 0;
+    if (!bimodal_) {
+        clear();
+        return;
+    }
     input_length_ = 0;
     trim();
 }
@@ -437,7 +437,10 @@ void xmm::Phrase::clearInput() {
 void xmm::Phrase::clearOutput() {
     if (!own_memory_)
         throw std::runtime_error("Cannot clear a shared data phrase");
-    if (!bimodal_) length_ = 0;
+    if (!bimodal_) {
+        clear();
+        return;
+    }
     output_length_ = 0;
     trim();
 }
-- 
2.43.0


From 9d23c2e1aced6a2db74454dccfc1b123c5575ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:50 +0000
Subject: [PATCH 06/62] fix: assigning an attribute does not copy the listener
 of the source

The assignment operator was a template, so assigning attributes of the same
type used the implicit one and copied the source's callback as well: it was
then called on an object that may no longer exist.
---
 src/core/common/xmmAttribute.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/core/common/xmmAttribute.hpp b/src/core/common/xmmAttribute.hpp
index d1dcfc8..6dce847 100644
--- a/src/core/common/xmmAttribute.hpp
+++ b/src/core/common/xmmAttribute.hpp
@@ -170,8 +170,7 @@ class Attribute : public AttributeBase {
      @return copy of the source Attribute object
      @warning the listener object is not copied from the source attribute
      */
-    template <typename U>
-    Attribute& operator=(Attribute<U> const& src) {
+    Attribute& operator=(Attribute const& src) {
         if (this != &src) {
             value_ = src.value_;
             limit_min_ = src.limit_min_;
@@ -317,8 +316,7 @@ class Attribute<std::vector<T>> : public AttributeBase {
      @return copy of the source Attribute object
      @warning the listener object is not copied from the source attribute
      */
-    template <typename U>
-    Attribute& operator=(Attribute<U> const& src) {
+    Attribute& operator=(Attribute const& src) {
         if (this != &src) {
             value_ = src.value_;
             limit_min_ = src.limit_min_;
@@ -505,8 +503,7 @@ class Attribute<std::vector<std::string>> : public AttributeBase {
      @return copy of the source Attribute object
      @warning the listener object is not copied from the source attribute
      */
-    template <typename U>
-    Attribute& operator=(Attribute<U> const& src) {
+    Attribute& operator=(Attribute const& src) {
         if (this != &src) {
             value_ = src.value_;
             limit_min_ = src.limit_min_;
-- 
2.43.0


From fdbc7bfeec18ceb5f323bd310ade34a2e5e7f6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:50 +0000
Subject: [PATCH 07/62] fix: bound vector attribute access by the number of
 values

size_ is 0 when the size is not checked: every index was rejected.
---
 src/core/common/xmmAttribute.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/common/xmmAttribute.hpp b/src/core/common/xmmAttribute.hpp
index 6dce847..2598503 100644
--- a/src/core/common/xmmAttribute.hpp
+++ b/src/core/common/xmmAttribute.hpp
@@ -361,7 +361,7 @@ class Attribute<std::vector<T>> : public AttributeBase {
      @return the attribute's current value at a given index
      */
     T at(unsigned int index) const {
-        if (index < size_) {
+        if (index < value_.size()) {
             return value_[index];
         } else {
             throw std::out_of_range("Index out of range");
@@ -548,7 +548,7 @@ class Attribute<std::vector<std::string>> : public AttributeBase {
      @return the attribute's current value at a given index
      */
     std::string at(unsigned int index) const {
-        if (index < size_) {
+        if (index < value_.size()) {
             return value_[index];
         } else {
             throw std::out_of_range("Index out of range");
-- 
2.43.0


From 83263138e20e48c52ca31ea56bce9f0c1032640d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:18 +0000
Subject: [PATCH 08/62] fix: training set copies own their phrases, and no set
 outlives its listening

The copy constructor kept the source's phrases and registered the copy on
them; removed, replaced or outliving phrases kept calling a training set that
had let go of them or was already destroyed.
---
 src/core/trainingset/xmmTrainingSet.cpp | 31 ++++++++++++++++++++-----
 src/core/trainingset/xmmTrainingSet.hpp |  6 +++++
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index 0099ea4..267b8c5 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -55,8 +55,7 @@ xmm::TrainingSet::TrainingSet(TrainingSet const &src)
       column_names(src.column_names),
       own_memory_(src.own_memory_),
       bimodal_(src.bimodal_),
-      labels_(src.labels_),
-      phrases_(src.phrases_) {
+      labels_(src.labels_) {
     dimension.onAttributeChange(this, &xmm::TrainingSet::onAttributeChange);
     dimension_input.onAttributeChange(this,
                                       &xmm::TrainingSet::onAttributeChange);
@@ -128,7 +127,12 @@ xmm::TrainingSet &xmm::TrainingSet::operator=(TrainingSet const &src) {
     return *this;
 }
 
-xmm::TrainingSet::~TrainingSet() {}
+xmm::TrainingSet::~TrainingSet() {
+    for (auto &phrase : phrases_) {
+        phrase.second->events.removeListener(this,
+                                             &xmm::TrainingSet::onPhraseEvent);
+    }
+}
 
 bool xmm::TrainingSet::ownMemory() const { return own_memory_; }
 
@@ -219,7 +223,19 @@ std::shared_ptr<xmm::Phrase> xmm::TrainingSet::getPhrase(int n) const {
     return phrases_.at(n);
 }
 
+void xmm::TrainingSet::releasePhrase(int phraseIndex) {
+    auto it = phrases_.find(phraseIndex);
+    if (it == phrases_.end()) return;
+    std::shared_ptr<Phrase> released = it->second;
+    phrases_.erase(it);
+    for (auto &phrase : phrases_) {
+        if (phrase.second == released) return;
+    }
+    released->events.removeListener(this, &xmm::TrainingSet::onPhraseEvent);
+}
+
 void xmm::TrainingSet::addPhrase(int phraseIndex, std::string label) {
+    releasePhrase(phraseIndex);
     phrases_[phraseIndex] = std::make_shared<Phrase>(
         own_memory_ ? MemoryMode::OwnMemory : MemoryMode::SharedMemory,
         bimodal_ ? Multimodality::Bimodal : Multimodality::Unimodal);
@@ -233,7 +249,9 @@ void xmm::TrainingSet::addPhrase(int phraseIndex, std::string label) {
 }
 
 void xmm::TrainingSet::addPhrase(int phraseIndex, Phrase const &phrase) {
-    phrases_[phraseIndex] = std::make_shared<Phrase>(phrase);
+    std::shared_ptr<Phrase> copy = std::make_shared<Phrase>(phrase);
+    releasePhrase(phraseIndex);
+    phrases_[phraseIndex] = copy;
     phrases_[phraseIndex]->events.removeListeners();
     phrases_[phraseIndex]->events.addListener(this,
                                               &xmm::TrainingSet::onPhraseEvent);
@@ -242,6 +260,7 @@ void xmm::TrainingSet::addPhrase(int phraseIndex, Phrase const &phrase) {
 
 void xmm::TrainingSet::addPhrase(int phraseIndex,
                                  std::shared_ptr<Phrase> phrase) {
+    releasePhrase(phraseIndex);
     phrases_[phraseIndex] = phrase;
     phrases_[phraseIndex]->events.addListener(this,
                                               &xmm::TrainingSet::onPhraseEvent);
@@ -249,7 +268,7 @@ void xmm::TrainingSet::addPhrase(int phraseIndex,
 }
 
 void xmm::TrainingSet::removePhrase(int phraseIndex) {
-    phrases_.erase(phraseIndex);
+    releasePhrase(phraseIndex);
     update();
 }
 
@@ -270,7 +289,7 @@ void xmm::TrainingSet::removePhrasesOfClass(std::string const &label) {
 
 void xmm::TrainingSet::clear() {
     sub_training_sets_.clear();
-    phrases_.clear();
+    while (!phrases_.empty()) releasePhrase(phrases_.begin()->first);
     labels_.clear();
 }
 
diff --git a/src/core/trainingset/xmmTrainingSet.hpp b/src/core/trainingset/xmmTrainingSet.hpp
index 6fa03c6..564ce7c 100644
--- a/src/core/trainingset/xmmTrainingSet.hpp
+++ b/src/core/trainingset/xmmTrainingSet.hpp
@@ -319,6 +319,12 @@ class TrainingSet : public Writable {
      */
     virtual void onAttributeChange(AttributeBase* attr_pointer);
 
+    /**
+     @brief removes a phrase from the set, and stops listening to its events
+     @param phraseIndex index of the phrase
+     */
+    void releasePhrase(int phraseIndex);
+
     /**
      @brief create all the sub-training sets: one for each label
      @details each subset contains only the phrase for the given label
-- 
2.43.0


From d5cade602626f16a5f70f31b2f061452043e2530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:18 +0000
Subject: [PATCH 09/62] fix: propagate the limits of a new dimension to the
 class subsets

The subsets kept the limits and the number of columns of the former dimension:
setting the input dimension or the column names threw once phrases were
labelled, and a reduced dimension could stay below the input dimension.
---
 src/core/trainingset/xmmTrainingSet.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index 267b8c5..45910c3 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -151,11 +151,18 @@ void xmm::TrainingSet::onAttributeChange(xmm::AttributeBase *attr_pointer) {
         }
         for (std::map<std::string, TrainingSet>::iterator it =
                  sub_training_sets_.begin();
-             it != sub_training_sets_.end(); ++it)
+             it != sub_training_sets_.end(); ++it) {
             it->second.dimension.set(dimension.get(), true);
+            it->second.column_names.resize(dimension.get());
+            it->second.dimension_input.setLimitMax(dimension.get() - 1);
+            if (it->second.dimension_input.get() > dimension.get() - 1)
+                it->second.dimension_input.set(dimension.get() - 1, true);
+        }
 
         column_names.resize(dimension.get());
         dimension_input.setLimitMax(dimension.get() - 1);
+        if (dimension_input.get() > dimension.get() - 1)
+            dimension_input.set(dimension.get() - 1, true);
     }
     if (attr_pointer == &dimension_input) {
         for (auto &phrase : phrases_) {
-- 
2.43.0


From 0baf08a28799634a90b2e9088531c716e50dc9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:18 +0000
Subject: [PATCH 10/62] fix: removePhrasesOfClass accepts a reference into
 labels()

---
 src/core/trainingset/xmmTrainingSet.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index 45910c3..2003aad 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -280,11 +280,13 @@ void xmm::TrainingSet::removePhrase(int phraseIndex) {
 }
 
 void xmm::TrainingSet::removePhrasesOfClass(std::string const &label) {
+    // the argument can be an element of labels(), updated by removePhrase
+    std::string const removed_label(label);
     bool contLoop(true);
     while (contLoop) {
         contLoop = false;
         for (auto &phrase : phrases_) {
-            if (phrase.second->label.get() == label) {
+            if (phrase.second->label.get() == removed_label) {
                 removePhrase(phrase.first);
                 contLoop = true;
                 break;
-- 
2.43.0


From dd37617b32753b35a288b0cb86701b62640ab620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:18 +0000
Subject: [PATCH 11/62] fix: assigning a phrase or reading it from JSON signals
 its new label

A training set kept listing the phrase under its former label.
---
 src/core/trainingset/xmmPhrase.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index 9197213..61e7551 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -177,6 +177,7 @@ xmm::Phrase& xmm::Phrase::operator=(Phrase const& src) {
         input_length_ = src.input_length_;
         output_length_ = src.output_length_;
         column_names = src.column_names;
+        bool label_changed = (label.get() != src.label.get());
         label = src.label;
 
         data_ = new float*[bimodal_ ? 2 : 1];
@@ -205,6 +206,10 @@ xmm::Phrase& xmm::Phrase::operator=(Phrase const& src) {
         dimension_input.onAttributeChange(this,
                                           &xmm::Phrase::onAttributeChange);
         label.onAttributeChange(this, &xmm::Phrase::onAttributeChange);
+        if (label_changed) {
+            PhraseEvent event(this, PhraseEvent::Type::LabelChanged);
+            events.notifyListeners(event);
+        }
     }
     return *this;
 }
-- 
2.43.0


From b4e2b4e9c6d60b239e78166c9e30d452fdc91144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:18 +0000
Subject: [PATCH 12/62] fix: shared parameters can be switched back to unimodal

---
 src/core/model/xmmModelSharedParameters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/model/xmmModelSharedParameters.cpp b/src/core/model/xmmModelSharedParameters.cpp
index 21d74a8..96f93c1 100644
--- a/src/core/model/xmmModelSharedParameters.cpp
+++ b/src/core/model/xmmModelSharedParameters.cpp
@@ -151,7 +151,7 @@ void xmm::SharedParameters::onAttributeChange(AttributeBase* attr_pointer) {
         } else {
             dimension.setLimitMin(1);
             if (dimension.get() < 1) dimension.set(1);
-            dimension_input.setLimitMax(0);
+            dimension_input.setLimits(0, 0);
             dimension_input.set(0);
         }
     } else if (attr_pointer == &dimension) {
-- 
2.43.0


From 0da29952a5ba874ce5b225f7867324359c0090f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:27 +0000
Subject: [PATCH 13/62] fix: change the sign of the determinant when lines are
 exchanged

---
 src/core/common/xmmMatrix.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/common/xmmMatrix.hpp b/src/core/common/xmmMatrix.hpp
index b9611eb..86d5966 100644
--- a/src/core/common/xmmMatrix.hpp
+++ b/src/core/common/xmmMatrix.hpp
@@ -300,6 +300,7 @@ class Matrix {
             // if found > Exchange lines
             if (i != k) {
                 mat.swap_lines(i, k);
+                *det = -*det;
             }
 
             new_mat._data = mat._data;
-- 
2.43.0


From dd01d8c8b78446d9b16d5ba7f8103c0a8f118e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:27 +0000
Subject: [PATCH 14/62] fix: release the intermediate matrices of the
 pseudo-inverse

One matrix leaked on every call with a non-square matrix, three more when the
product was not invertible.
---
 src/core/common/xmmMatrix.hpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/core/common/xmmMatrix.hpp b/src/core/common/xmmMatrix.hpp
index 86d5966..ddef395 100644
--- a/src/core/common/xmmMatrix.hpp
+++ b/src/core/common/xmmMatrix.hpp
@@ -37,6 +37,7 @@
 #include <exception>
 #include <iostream>
 #include <stdexcept>
+#include <memory>
 #include <vector>
 
 namespace xmm {
@@ -240,22 +241,18 @@ class Matrix {
             }
         }
 
-        inverse = new Matrix<T>(ncols, nrows);
-        Matrix<T> *transp, *prod, *dst;
-        transp = this->transpose();
+        std::unique_ptr<Matrix<T>> transp(this->transpose());
+        std::unique_ptr<Matrix<T>> prod, dst;
         if (nrows >= ncols) {
-            prod = transp->product(this);
-            dst = prod->gauss_jordan_inverse(det);
-            inverse = dst->product(transp);
+            prod.reset(transp->product(this));
+            dst.reset(prod->gauss_jordan_inverse(det));
+            inverse = dst->product(transp.get());
         } else {
-            prod = this->product(transp);
-            dst = prod->gauss_jordan_inverse(det);
-            inverse = transp->product(dst);
+            prod.reset(this->product(transp.get()));
+            dst.reset(prod->gauss_jordan_inverse(det));
+            inverse = transp->product(dst.get());
         }
         *det = 0;
-        delete transp;
-        delete prod;
-        delete dst;
         return inverse;
     }
 
-- 
2.43.0


From 1fb3839ed8295089ebb116ea058c78f7cab83156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:27 +0000
Subject: [PATCH 15/62] fix: set a gaussian from an axis-aligned ellipse

A null angle divided zero by zero: the covariance became NaN.
---
 src/core/distributions/xmmGaussianDistribution.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index ae2b290..9992561 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -555,8 +555,10 @@ void xmm::GaussianDistribution::fromEllipse(Ellipse const& gaussian_ellipse,
     double tantheta = std::tan(gaussian_ellipse.angle);
     double a, b, c;
     b = (eigenVal1 - eigenVal2) * tantheta / (tantheta * tantheta + 1.);
-    c = eigenVal1 - b / tantheta;
-    a = eigenVal2 + b / tantheta;
+    // b / tantheta, defined for axis-aligned ellipses as well
+    double delta = (eigenVal1 - eigenVal2) / (tantheta * tantheta + 1.);
+    c = eigenVal1 - delta;
+    a = eigenVal2 + delta;
 
     if (covariance_mode.get() == CovarianceMode::Full) {
         covariance[dimension1 * dimension.get() + dimension1] = a;
-- 
2.43.0


From c02f299fa219b407f222ce1b950fc3a074bae0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:27 +0000
Subject: [PATCH 16/62] fix: ellipses of isotropic or degenerate covariances
 are not NaN

Rounding can make the discriminant or the smallest eigenvalue slightly
negative.
---
 src/core/distributions/xmmGaussianDistribution.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index 9992561..15bb8a5 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -528,8 +528,9 @@ xmm::Ellipse xmm::GaussianDistribution::toEllipse(unsigned int dimension1,
     // Compute Eigen Values to get width, height and angle
     double trace = a + c;
     double determinant = a * c - b * b;
-    double eigenVal1 = 0.5 * (trace + sqrt(trace * trace - 4 * determinant));
-    double eigenVal2 = 0.5 * (trace - sqrt(trace * trace - 4 * determinant));
+    double discriminant = sqrt(std::max(0., trace * trace - 4 * determinant));
+    double eigenVal1 = 0.5 * (trace + discriminant);
+    double eigenVal2 = std::max(0., 0.5 * (trace - discriminant));
     gaussian_ellipse.width = sqrt(5.991 * eigenVal1);
     gaussian_ellipse.height = sqrt(5.991 * eigenVal2);
     gaussian_ellipse.angle = atan(b / (eigenVal1 - c));
@@ -692,8 +693,9 @@ xmm::Ellipse xmm::covariance2ellipse(double c_xx, double c_xy, double c_yy) {
     // Compute Eigen Values to get width, height and angle
     double trace = c_xx + c_yy;
     double determinant = c_xx * c_yy - c_xy * c_xy;
-    double eigenVal1 = 0.5 * (trace + sqrt(trace * trace - 4 * determinant));
-    double eigenVal2 = 0.5 * (trace - sqrt(trace * trace - 4 * determinant));
+    double discriminant = sqrt(std::max(0., trace * trace - 4 * determinant));
+    double eigenVal1 = 0.5 * (trace + discriminant);
+    double eigenVal2 = std::max(0., 0.5 * (trace - discriminant));
     gaussian_ellipse.width = sqrt(5.991 * eigenVal1);
     gaussian_ellipse.height = sqrt(5.991 * eigenVal2);
     gaussian_ellipse.angle = atan(c_xy / (eigenVal1 - c_yy));
-- 
2.43.0


From 40a8247e12d84c441ce3e968e9488680eb5e558c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:27 +0000
Subject: [PATCH 17/62] fix: setting the current covariance mode again keeps
 the covariance

Diagonal to Diagonal read past the end, Full to Full took its diagonal from
the first row.
---
 .../distributions/xmmGaussianDistribution.cpp | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index 15bb8a5..0cc8892 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -143,21 +143,25 @@ void xmm::GaussianDistribution::onAttributeChange(AttributeBase* attr_pointer) {
     }
     if (attr_pointer == &covariance_mode) {
         if (covariance_mode.get() == CovarianceMode::Diagonal) {
-            std::vector<double> new_covariance(dimension.get());
-            for (unsigned int d = 0; d < dimension.get(); ++d) {
-                new_covariance[d] = covariance[d * dimension.get() + d];
+            if (covariance.size() != dimension.get()) {
+                std::vector<double> new_covariance(dimension.get());
+                for (unsigned int d = 0; d < dimension.get(); ++d) {
+                    new_covariance[d] = covariance[d * dimension.get() + d];
+                }
+                covariance = new_covariance;
             }
-            covariance = new_covariance;
             inverse_covariance_.resize(dimension.get());
             if (bimodal_)
                 inverse_covariance_input_.resize(dimension_input.get());
         } else if (covariance_mode.get() == CovarianceMode::Full) {
-            std::vector<double> new_covariance(
-                dimension.get() * dimension.get(), 0.0);
-            for (unsigned int d = 0; d < dimension.get(); ++d) {
-                new_covariance[d * dimension.get() + d] = covariance[d];
+            if (covariance.size() != dimension.get() * dimension.get()) {
+                std::vector<double> new_covariance(
+                    dimension.get() * dimension.get(), 0.0);
+                for (unsigned int d = 0; d < dimension.get(); ++d) {
+                    new_covariance[d * dimension.get() + d] = covariance[d];
+                }
+                covariance = new_covariance;
             }
-            covariance = new_covariance;
             inverse_covariance_.resize(dimension.get() * dimension.get());
             if (bimodal_)
                 inverse_covariance_input_.resize(dimension_input.get() *
-- 
2.43.0


From 3d9f38a5753ddbe73ad730b4c6c1b2288982c99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:08 +0000
Subject: [PATCH 18/62] fix: read gaussians with a diagonal covariance from
 JSON, with all their fields

The reader expected square matrices whatever the covariance mode, dropped the
conditional output covariance, and accepted inconsistent dimensions.
---
 .../distributions/xmmGaussianDistribution.cpp | 26 ++++++++++++++-----
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index 0cc8892..89e0acc 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -86,26 +86,38 @@ xmm::GaussianDistribution::GaussianDistribution(GaussianDistribution const& src)
 xmm::GaussianDistribution::GaussianDistribution(Json::Value const& root)
     : covariance_determinant_(0.), covariance_determinant_input_(0.) {
     bimodal_ = root.get("bimodal", false).asBool();
-    dimension.set(root.get("dimension", bimodal_ ? 2 : 1).asInt());
-    dimension_input.set(root.get("dimension_input", bimodal_ ? 1 : 0).asInt());
+    dimension.setLimitMin(bimodal_ ? 2 : 1);
+    dimension.set(root.get("dimension", bimodal_ ? 2 : 1).asUInt());
+    dimension_input.setLimits(0, bimodal_ ? dimension.get() - 1 : 0);
+    dimension_input.set(root.get("dimension_input", bimodal_ ? 1 : 0).asUInt());
     covariance_mode.set(
         static_cast<CovarianceMode>(root["covariance_mode"].asInt()));
 
+    if (root["mean"].size() != dimension.get())
+        throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                            "mean");
     allocate();
 
-    json2vector(root["mean"], mean, dimension.get());
-    json2vector(root["covariance"], covariance,
-                dimension.get() * dimension.get());
+    json2vector(root["mean"], mean, mean.size());
+    json2vector(root["covariance"], covariance, covariance.size());
 
     // updateInverseCovariance();
     // read from json instead of calling updateInverseCovariance() :
     json2vector(root["inverse_covariance"], inverse_covariance_,
-                dimension.get() * dimension.get());
+                inverse_covariance_.size());
     covariance_determinant_ = root.get("covariance_determinant", 0.).asDouble();
     json2vector(root["inverse_covariance_input"], inverse_covariance_input_,
-                dimension_input.get() * dimension_input.get());
+                inverse_covariance_input_.size());
     covariance_determinant_input_ =
         root.get("covariance_determinant_input", 0.).asDouble();
+    if (bimodal_ && root["output_covariance"].size() > 0) {
+        unsigned int dimension_output = dimension.get() - dimension_input.get();
+        output_covariance.resize(covariance_mode.get() == CovarianceMode::Full
+                                     ? dimension_output * dimension_output
+                                     : dimension_output);
+        json2vector(root["output_covariance"], output_covariance,
+                    output_covariance.size());
+    }
 
     dimension.onAttributeChange(this,
                                 &xmm::GaussianDistribution::onAttributeChange);
-- 
2.43.0


From bb8dccde3c8968ef1f858df0e77ee02a249ca3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:08 +0000
Subject: [PATCH 19/62] fix: keep the input dimension of gaussians and models
 below a reduced dimension

---
 src/core/distributions/xmmGaussianDistribution.cpp | 2 ++
 src/core/model/xmmModelSharedParameters.cpp        | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index 89e0acc..ea04ca6 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -149,6 +149,8 @@ xmm::GaussianDistribution& xmm::GaussianDistribution::operator=(
 void xmm::GaussianDistribution::onAttributeChange(AttributeBase* attr_pointer) {
     if (attr_pointer == &dimension) {
         dimension_input.setLimitMax(dimension.get() - 1);
+        if (dimension_input.get() > dimension.get() - 1)
+            dimension_input.set(dimension.get() - 1, true);
     }
     if (attr_pointer == &dimension || attr_pointer == &dimension_input) {
         allocate();
diff --git a/src/core/model/xmmModelSharedParameters.cpp b/src/core/model/xmmModelSharedParameters.cpp
index 96f93c1..42539ea 100644
--- a/src/core/model/xmmModelSharedParameters.cpp
+++ b/src/core/model/xmmModelSharedParameters.cpp
@@ -156,6 +156,8 @@ void xmm::SharedParameters::onAttributeChange(AttributeBase* attr_pointer) {
         }
     } else if (attr_pointer == &dimension) {
         dimension_input.setLimitMax(dimension.get() - 1);
+        if (dimension_input.get() > dimension.get() - 1)
+            dimension_input.set(dimension.get() - 1);
         column_names.resize(dimension.get());
     }
     attr_pointer->changed = false;
-- 
2.43.0


From dceb386a33d01506d1b67bea0cb143ee73b650d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:06 +0000
Subject: [PATCH 20/62] fix: orientation of ellipses whose second axis is
 dominant

---
 src/core/distributions/xmmGaussianDistribution.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index ea04ca6..bcb261f 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -551,10 +551,8 @@ xmm::Ellipse xmm::GaussianDistribution::toEllipse(unsigned int dimension1,
     double eigenVal2 = std::max(0., 0.5 * (trace - discriminant));
     gaussian_ellipse.width = sqrt(5.991 * eigenVal1);
     gaussian_ellipse.height = sqrt(5.991 * eigenVal2);
-    gaussian_ellipse.angle = atan(b / (eigenVal1 - c));
-    if (std::isnan(gaussian_ellipse.angle)) {
-        gaussian_ellipse.angle = M_PI_2;
-    }
+    // eigenVal1 - c cancels when the second axis is dominant
+    gaussian_ellipse.angle = 0.5 * atan2(2. * b, a - c);
 
     return gaussian_ellipse;
 }
@@ -716,10 +714,8 @@ xmm::Ellipse xmm::covariance2ellipse(double c_xx, double c_xy, double c_yy) {
     double eigenVal2 = std::max(0., 0.5 * (trace - discriminant));
     gaussian_ellipse.width = sqrt(5.991 * eigenVal1);
     gaussian_ellipse.height = sqrt(5.991 * eigenVal2);
-    gaussian_ellipse.angle = atan(c_xy / (eigenVal1 - c_yy));
-    if (std::isnan(gaussian_ellipse.angle)) {
-        gaussian_ellipse.angle = M_PI_2;
-    }
+    // eigenVal1 - c_yy cancels when the y axis is dominant
+    gaussian_ellipse.angle = 0.5 * atan2(2. * c_xy, c_xx - c_yy);
 
     return gaussian_ellipse;
 }
-- 
2.43.0


From 45cb0c039a95468b060b91aa21f4981dc20d7eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:44 +0000
Subject: [PATCH 21/62] fix: the message of JSON exceptions outlives what()

---
 src/core/common/xmmJson.hpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/core/common/xmmJson.hpp b/src/core/common/xmmJson.hpp
index 8a27eee..cc47441 100644
--- a/src/core/common/xmmJson.hpp
+++ b/src/core/common/xmmJson.hpp
@@ -154,6 +154,7 @@ class JsonException : public std::exception {
     JsonException(JsonErrorType errorType, std::string nodename = "")
         : errorType_(errorType) {
         nodename_.push_back(nodename);
+        message_ = makeMessage();
     }
 
     /**
@@ -164,6 +165,7 @@ class JsonException : public std::exception {
     explicit JsonException(JsonException const& src, std::string nodename)
         : errorType_(src.errorType_), nodename_(src.nodename_) {
         nodename_.push_back(nodename);
+        message_ = makeMessage();
     }
 
     /**
@@ -171,7 +173,9 @@ class JsonException : public std::exception {
      @param src Source exception
      */
     JsonException(JsonException const& src)
-        : errorType_(src.errorType_), nodename_(src.nodename_) {}
+        : errorType_(src.errorType_),
+          nodename_(src.nodename_),
+          message_(src.message_) {}
 
     /**
      @brief Assigment
@@ -181,6 +185,7 @@ class JsonException : public std::exception {
         if (this != &src) {
             errorType_ = src.errorType_;
             nodename_ = src.nodename_;
+            message_ = src.message_;
         }
         return *this;
     }
@@ -189,7 +194,14 @@ class JsonException : public std::exception {
      @brief Get exception message
      @return exception message
      */
-    virtual const char* what() const throw() {
+    virtual const char* what() const throw() { return message_.c_str(); }
+
+  private:
+    /**
+     @brief Format the message of the exception
+     @return exception message
+     */
+    std::string makeMessage() const {
         std::string message;
         switch (errorType_) {
             case JsonErrorType::JsonMissingNode:
@@ -211,10 +223,9 @@ class JsonException : public std::exception {
         message += " (root";
         for (auto& node : nodename_) message += " > " + node;
         message += ")";
-        return message.c_str();
+        return message;
     }
 
-  private:
     /**
      @brief Type of Json Parsing Error
      */
@@ -224,6 +235,11 @@ class JsonException : public std::exception {
      @brief Name of the Json Node presenting an error
      */
     std::vector<std::string> nodename_;
+
+    /**
+     @brief Message of the exception
+     */
+    std::string message_;
 };
 
 /**
-- 
2.43.0


From 8c32f93efefe50858af356d8901d9bf4588b69cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:46 +0000
Subject: [PATCH 22/62] fix: read floating-point parameters from JSON in double
 precision

---
 src/core/model/xmmModelSharedParameters.cpp | 2 +-
 src/models/gmm/xmmGmmParameters.cpp         | 4 ++--
 src/models/hmm/xmmHmmParameters.cpp         | 4 ++--
 src/models/kmeans/xmmKMeansParameters.cpp   | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/core/model/xmmModelSharedParameters.cpp b/src/core/model/xmmModelSharedParameters.cpp
index 42539ea..499a6e1 100644
--- a/src/core/model/xmmModelSharedParameters.cpp
+++ b/src/core/model/xmmModelSharedParameters.cpp
@@ -95,7 +95,7 @@ xmm::SharedParameters::SharedParameters(Json::Value const& root)
     em_algorithm_max_iterations.set(
         root.get("em_algorithm_max_iterations", 0).asInt());
     em_algorithm_percent_chg.set(
-        root.get("em_algorithm_percent_chg", 0.01).asFloat());
+        root.get("em_algorithm_percent_chg", 0.01).asDouble());
     likelihood_window.set(root.get("likelihood_window", 1).asInt());
     std::vector<std::string> tmpColNames(dimension.get());
     for (int i = 0; i < tmpColNames.size(); i++)
diff --git a/src/models/gmm/xmmGmmParameters.cpp b/src/models/gmm/xmmGmmParameters.cpp
index 3e4fdb7..adf4c97 100644
--- a/src/models/gmm/xmmGmmParameters.cpp
+++ b/src/models/gmm/xmmGmmParameters.cpp
@@ -80,8 +80,8 @@ xmm::ClassParameters<xmm::GMM>::ClassParameters(Json::Value const& root)
         this, &xmm::ClassParameters<xmm::GMM>::onAttributeChange);
 
     gaussians.set(root["gaussians"].asInt());
-    relative_regularization.set(root["relative_regularization"].asFloat());
-    absolute_regularization.set(root["absolute_regularization"].asFloat());
+    relative_regularization.set(root["relative_regularization"].asDouble());
+    absolute_regularization.set(root["absolute_regularization"].asDouble());
     covariance_mode.set(static_cast<GaussianDistribution::CovarianceMode>(
         root["covariance_mode"].asInt()));
 }
diff --git a/src/models/hmm/xmmHmmParameters.cpp b/src/models/hmm/xmmHmmParameters.cpp
index 2e4711a..c30e442 100644
--- a/src/models/hmm/xmmHmmParameters.cpp
+++ b/src/models/hmm/xmmHmmParameters.cpp
@@ -92,8 +92,8 @@ xmm::ClassParameters<xmm::HMM>::ClassParameters(Json::Value const& root)
     : ClassParameters() {
     states.set(root["states"].asInt());
     gaussians.set(root["gaussians"].asInt());
-    relative_regularization.set(root["relative_regularization"].asFloat());
-    absolute_regularization.set(root["absolute_regularization"].asFloat());
+    relative_regularization.set(root["relative_regularization"].asDouble());
+    absolute_regularization.set(root["absolute_regularization"].asDouble());
     covariance_mode.set(static_cast<GaussianDistribution::CovarianceMode>(
         root["covariance_mode"].asInt()));
     transition_mode.set(
diff --git a/src/models/kmeans/xmmKMeansParameters.cpp b/src/models/kmeans/xmmKMeansParameters.cpp
index 9620d03..5e8540d 100644
--- a/src/models/kmeans/xmmKMeansParameters.cpp
+++ b/src/models/kmeans/xmmKMeansParameters.cpp
@@ -64,7 +64,7 @@ xmm::ClassParameters<xmm::KMeans>::ClassParameters(Json::Value const& root)
     clusters.set(root["clusters"].asInt());
     max_iterations.set(root["max_iterations"].asInt());
     relative_distance_threshold.set(
-        root["relative_distance_threshold"].asFloat());
+        root["relative_distance_threshold"].asDouble());
 }
 
 xmm::ClassParameters<xmm::KMeans>& xmm::ClassParameters<xmm::KMeans>::operator=(
-- 
2.43.0


From c5a0899979390a8554b10522e281e11e8b4dbcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:53 +0000
Subject: [PATCH 23/62] fix: reject negative values of unsigned parameters in
 JSON

---
 src/core/model/xmmModelSharedParameters.cpp | 10 +++++-----
 src/models/gmm/xmmGmmParameters.cpp         |  2 +-
 src/models/hmm/xmmHmmParameters.cpp         |  4 ++--
 src/models/kmeans/xmmKMeansParameters.cpp   |  4 ++--
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/core/model/xmmModelSharedParameters.cpp b/src/core/model/xmmModelSharedParameters.cpp
index 499a6e1..4653d56 100644
--- a/src/core/model/xmmModelSharedParameters.cpp
+++ b/src/core/model/xmmModelSharedParameters.cpp
@@ -87,16 +87,16 @@ xmm::SharedParameters::SharedParameters(SharedParameters const& src)
 xmm::SharedParameters::SharedParameters(Json::Value const& root)
     : SharedParameters() {
     bimodal.set(root.get("bimodal", false).asBool());
-    dimension.set(root.get("dimension", bimodal.get() ? 2 : 1).asInt());
+    dimension.set(root.get("dimension", bimodal.get() ? 2 : 1).asUInt());
     dimension_input.set(
-        root.get("dimension_input", bimodal.get() ? 1 : 0).asInt());
+        root.get("dimension_input", bimodal.get() ? 1 : 0).asUInt());
     em_algorithm_min_iterations.set(
-        root.get("em_algorithm_min_iterations", 10).asInt());
+        root.get("em_algorithm_min_iterations", 10).asUInt());
     em_algorithm_max_iterations.set(
-        root.get("em_algorithm_max_iterations", 0).asInt());
+        root.get("em_algorithm_max_iterations", 0).asUInt());
     em_algorithm_percent_chg.set(
         root.get("em_algorithm_percent_chg", 0.01).asDouble());
-    likelihood_window.set(root.get("likelihood_window", 1).asInt());
+    likelihood_window.set(root.get("likelihood_window", 1).asUInt());
     std::vector<std::string> tmpColNames(dimension.get());
     for (int i = 0; i < tmpColNames.size(); i++)
         tmpColNames[i] = root["column_names"].get(i, "").asString();
diff --git a/src/models/gmm/xmmGmmParameters.cpp b/src/models/gmm/xmmGmmParameters.cpp
index adf4c97..c9ebae7 100644
--- a/src/models/gmm/xmmGmmParameters.cpp
+++ b/src/models/gmm/xmmGmmParameters.cpp
@@ -79,7 +79,7 @@ xmm::ClassParameters<xmm::GMM>::ClassParameters(Json::Value const& root)
     covariance_mode.onAttributeChange(
         this, &xmm::ClassParameters<xmm::GMM>::onAttributeChange);
 
-    gaussians.set(root["gaussians"].asInt());
+    gaussians.set(root["gaussians"].asUInt());
     relative_regularization.set(root["relative_regularization"].asDouble());
     absolute_regularization.set(root["absolute_regularization"].asDouble());
     covariance_mode.set(static_cast<GaussianDistribution::CovarianceMode>(
diff --git a/src/models/hmm/xmmHmmParameters.cpp b/src/models/hmm/xmmHmmParameters.cpp
index c30e442..d0c5fee 100644
--- a/src/models/hmm/xmmHmmParameters.cpp
+++ b/src/models/hmm/xmmHmmParameters.cpp
@@ -90,8 +90,8 @@ xmm::ClassParameters<xmm::HMM>::ClassParameters(ClassParameters<HMM> const& src)
 
 xmm::ClassParameters<xmm::HMM>::ClassParameters(Json::Value const& root)
     : ClassParameters() {
-    states.set(root["states"].asInt());
-    gaussians.set(root["gaussians"].asInt());
+    states.set(root["states"].asUInt());
+    gaussians.set(root["gaussians"].asUInt());
     relative_regularization.set(root["relative_regularization"].asDouble());
     absolute_regularization.set(root["absolute_regularization"].asDouble());
     covariance_mode.set(static_cast<GaussianDistribution::CovarianceMode>(
diff --git a/src/models/kmeans/xmmKMeansParameters.cpp b/src/models/kmeans/xmmKMeansParameters.cpp
index 5e8540d..c85f2d0 100644
--- a/src/models/kmeans/xmmKMeansParameters.cpp
+++ b/src/models/kmeans/xmmKMeansParameters.cpp
@@ -61,8 +61,8 @@ xmm::ClassParameters<xmm::KMeans>::ClassParameters(
 
 xmm::ClassParameters<xmm::KMeans>::ClassParameters(Json::Value const& root)
     : ClassParameters() {
-    clusters.set(root["clusters"].asInt());
-    max_iterations.set(root["max_iterations"].asInt());
+    clusters.set(root["clusters"].asUInt());
+    max_iterations.set(root["max_iterations"].asUInt());
     relative_distance_threshold.set(
         root["relative_distance_threshold"].asDouble());
 }
-- 
2.43.0


From 02fa0cba2fc168a615edcf806184d66637c432a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:13 +0000
Subject: [PATCH 24/62] fix: check the sizes of the data and column names of
 phrases read from JSON

---
 src/core/trainingset/xmmPhrase.cpp | 49 ++++++++++++++++++------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index 61e7551..7486ab3 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -109,17 +109,17 @@ xmm::Phrase::Phrase(Json::Value const& root)
 
     bimodal_ = root.get("bimodal", false).asBool();
     dimension.setLimitMin((bimodal_) ? 2 : 1);
-    dimension.set(root.get("dimension", bimodal_ ? 2 : 1).asInt(), true);
+    dimension.set(root.get("dimension", bimodal_ ? 2 : 1).asUInt(), true);
     if (bimodal_) {
         dimension_input.setLimits(1, dimension.get() - 1);
     } else {
         dimension_input.setLimits(0, 0);
     }
-    dimension_input.set(root.get("dimension_input", bimodal_ ? 1 : 0).asInt(), true);
-    data_ = new float*[bimodal_ ? 2 : 1];
-    data_[0] = NULL;
-    if (bimodal_) data_[1] = NULL;
+    dimension_input.set(root.get("dimension_input", bimodal_ ? 1 : 0).asUInt(), true);
 
+    if (root["column_names"].size() > dimension.get())
+        throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                            "column_names");
     column_names.resize(dimension.get(), "");
     for (int i = 0; i < root["column_names"].size(); i++) {
         column_names[i] = root["column_names"].get(i, "").asString();
@@ -127,27 +127,36 @@ xmm::Phrase::Phrase(Json::Value const& root)
 
     label.set(root["label"].asString());
 
-    length_ = static_cast<unsigned int>(root.get("length", 0).asInt());
+    length_ = root.get("length", 0).asUInt();
     max_length_ = length_;
     input_length_ = length_;
     output_length_ = length_;
     empty_ = (length_ == 0 && input_length_ == 0 && output_length_ == 0);
 
+    // Read all the values before any memory is allocated for the phrase
+    std::vector<std::string> nodes = {"data"};
+    std::vector<unsigned int> dimensions = {dimension.get()};
     if (bimodal_) {
-        data_[0] =
-            reallocate<float>(data_[0], max_length_ * dimension_input.get(),
-                              length_ * dimension_input.get());
-        data_[1] = reallocate<float>(
-            data_[1], max_length_ * (dimension.get() - dimension_input.get()),
-            length_ * (dimension.get() - dimension_input.get()));
-        json2array(root["data_input"], data_[0],
-                   length_ * dimension_input.get());
-        json2array(root["data_output"], data_[1],
-                   length_ * (dimension.get() - dimension_input.get()));
-    } else {
-        data_[0] = reallocate<float>(data_[0], max_length_ * dimension.get(),
-                                     length_ * dimension.get());
-        json2array(root["data"], data_[0], length_ * dimension.get());
+        nodes = {"data_input", "data_output"};
+        dimensions = {dimension_input.get(),
+                      dimension.get() - dimension_input.get()};
+    }
+    std::vector<std::vector<float>> values(nodes.size());
+    for (unsigned int m = 0; m < nodes.size(); m++) {
+        unsigned long long size =
+            static_cast<unsigned long long>(length_) * dimensions[m];
+        if (root[nodes[m]].size() != size)
+            throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                                nodes[m]);
+        values[m].resize(size);
+        json2vector(root[nodes[m]], values[m], values[m].size());
+    }
+    data_ = new float*[nodes.size()];
+    for (unsigned int m = 0; m < nodes.size(); m++) {
+        data_[m] = NULL;
+        data_[m] = reallocate<float>(data_[m], max_length_ * dimensions[m],
+                                     length_ * dimensions[m]);
+        std::copy(values[m].begin(), values[m].end(), data_[m]);
     }
 }
 
-- 
2.43.0


From 52c58a628ef48338d64fc070aab427c1d3a6e903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:31 +0000
Subject: [PATCH 25/62] fix: check the column names and phrases of training
 sets read from JSON

---
 src/core/trainingset/xmmTrainingSet.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index 2003aad..3f496f7 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -83,8 +83,11 @@ xmm::TrainingSet::TrainingSet(Json::Value const &root)
 
     dimension.setLimitMin((bimodal_) ? 2 : 1);
     dimension_input.setLimits((bimodal_) ? 1 : 0, (bimodal_) ? 2 : 0);
-    dimension.set(root.get("dimension", bimodal_ ? 2 : 1).asInt());
-    dimension_input.set(root.get("dimension_input", bimodal_ ? 1 : 0).asInt());
+    dimension.set(root.get("dimension", bimodal_ ? 2 : 1).asUInt());
+    dimension_input.set(root.get("dimension_input", bimodal_ ? 1 : 0).asUInt());
+    if (root["column_names"].size() > dimension.get())
+        throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                            "column_names");
     std::vector<std::string> tmpColNames(dimension.get());
     for (int i = 0; i < root["column_names"].size(); i++) {
         tmpColNames[i] = root["column_names"].get(i, "").asString();
@@ -94,10 +97,17 @@ xmm::TrainingSet::TrainingSet(Json::Value const &root)
     // Get Phrases
     phrases_.clear();
     for (auto p : root["phrases"]) {
-        phrases_.insert(std::pair<int, std::shared_ptr<xmm::Phrase>>(
-            p["index"].asInt(), std::make_shared<Phrase>(p)));
-        phrases_[p["index"].asInt()]->events.addListener(
-            this, &xmm::TrainingSet::onPhraseEvent);
+        auto phrase = std::make_shared<Phrase>(p);
+        if (phrase->bimodal() != bimodal_ ||
+            phrase->dimension.get() != dimension.get() ||
+            phrase->dimension_input.get() != dimension_input.get() ||
+            !phrases_
+                 .insert(std::pair<int, std::shared_ptr<xmm::Phrase>>(
+                     p["index"].asInt(), phrase))
+                 .second)
+            throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                                "phrases");
+        phrase->events.addListener(this, &xmm::TrainingSet::onPhraseEvent);
     }
     update();
 }
-- 
2.43.0


From c94e075d89f5bffd0f53351a9320f54d1cafe1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:05 +0000
Subject: [PATCH 26/62] fix: check the components and states of models read
 from JSON

---
 src/models/gmm/xmmGmmSingleClass.cpp | 18 +++++++++++++++++-
 src/models/hmm/xmmHmmSingleClass.cpp | 13 ++++++++++++-
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/models/gmm/xmmGmmSingleClass.cpp b/src/models/gmm/xmmGmmSingleClass.cpp
index 64d7bd3..65e70a8 100644
--- a/src/models/gmm/xmmGmmSingleClass.cpp
+++ b/src/models/gmm/xmmGmmSingleClass.cpp
@@ -50,6 +50,10 @@ xmm::SingleClassGMM::SingleClassGMM(std::shared_ptr<SharedParameters> p,
     : SingleClassProbabilisticModel(p, root) {
     parameters.fromJson(root["parameters"]);
 
+    if (root["components"].size() != parameters.gaussians.get())
+        throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                            "components");
+
     allocate();
 
     json2vector(root["mixture_coeffs"], mixture_coeffs,
@@ -57,7 +61,19 @@ xmm::SingleClassGMM::SingleClassGMM(std::shared_ptr<SharedParameters> p,
 
     int c(0);
     for (auto p : root["components"]) {
-        components[c++].fromJson(p);
+        components[c].fromJson(p);
+        if (p.get("bimodal", false).asBool() !=
+                shared_parameters->bimodal.get() ||
+            components[c].dimension.get() !=
+                shared_parameters->dimension.get() ||
+            (shared_parameters->bimodal.get() &&
+             components[c].dimension_input.get() !=
+                 shared_parameters->dimension_input.get()) ||
+            components[c].covariance_mode.get() !=
+                parameters.covariance_mode.get())
+            throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                                "components");
+        c++;
     }
 
     updateInverseCovariances();
diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 401d2a5..81abb8a 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -54,6 +54,10 @@ xmm::SingleClassHMM::SingleClassHMM(std::shared_ptr<SharedParameters> p,
     : SingleClassProbabilisticModel(p, root), is_hierarchical_(true) {
     parameters.fromJson(root["parameters"]);
 
+    if (root["states"].size() != parameters.states.get())
+        throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                            "states");
+
     allocate();
 
     if (parameters.transition_mode.get() == HMM::TransitionMode::Ergodic) {
@@ -71,7 +75,14 @@ xmm::SingleClassHMM::SingleClassHMM(std::shared_ptr<SharedParameters> p,
 
     int s(0);
     for (auto p : root["states"]) {
-        states[s++].fromJson(p);
+        states[s].fromJson(p);
+        if (states[s].parameters.gaussians.get() !=
+                parameters.gaussians.get() ||
+            states[s].parameters.covariance_mode.get() !=
+                parameters.covariance_mode.get())
+            throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                                "states");
+        s++;
     }
 }
 
-- 
2.43.0


From 9e4bcca46270b6ca092e91b86df16711d8c33735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:27 +0000
Subject: [PATCH 27/62] fix: assigning HMM parameters copies the hierarchical
 flag

---
 src/models/hmm/xmmHmmParameters.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/models/hmm/xmmHmmParameters.cpp b/src/models/hmm/xmmHmmParameters.cpp
index d0c5fee..9f5fa96 100644
--- a/src/models/hmm/xmmHmmParameters.cpp
+++ b/src/models/hmm/xmmHmmParameters.cpp
@@ -114,6 +114,7 @@ xmm::ClassParameters<xmm::HMM>& xmm::ClassParameters<xmm::HMM>::operator=(
         covariance_mode = src.covariance_mode;
         transition_mode = src.transition_mode;
         regression_estimator = src.regression_estimator;
+        hierarchical = src.hierarchical;
         states.onAttributeChange(
             this, &xmm::ClassParameters<xmm::HMM>::onAttributeChange);
         gaussians.onAttributeChange(
-- 
2.43.0


From 2f49a6489165310d5bedfbcc00b2ded53f4e2bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:38 +0000
Subject: [PATCH 28/62] fix: reading a configuration from JSON sets its values

---
 src/core/model/xmmModelConfiguration.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/model/xmmModelConfiguration.hpp b/src/core/model/xmmModelConfiguration.hpp
index 6614fc8..43d8430 100644
--- a/src/core/model/xmmModelConfiguration.hpp
+++ b/src/core/model/xmmModelConfiguration.hpp
@@ -206,6 +206,7 @@ class Configuration : public ClassParameters<ModelType> {
         try {
             Configuration<ModelType> tmp(root);
             *this = tmp;
+            *this = tmp;
         } catch (JsonException& e) {
             throw e;
         }
-- 
2.43.0


From 85e85746eb1945c4515d70355087c028a015df12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:42 +0000
Subject: [PATCH 29/62] fix: allocate the forward variables of non-hierarchical
 HMMs on reset

---
 src/models/hmm/xmmHmmSingleClass.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 81abb8a..b191613 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -1114,6 +1114,8 @@ void xmm::SingleClassHMM::reset() {
         beta_.clear();
         previous_beta_.clear();
     } else {
+        alpha.resize(parameters.states.get());
+        previous_alpha_.resize(parameters.states.get());
         addCyclicTransition(0.05);
     }
 }
-- 
2.43.0


From 84e1344ef17c780c912980bc75ab91e34a8ac029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:46 +0000
Subject: [PATCH 30/62] fix: count each likelihood once when filtering with a
 non-hierarchical HMM

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 4afd41a..427927d 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -394,19 +394,20 @@ void xmm::HierarchicalHMM::filter(std::vector<float> const &observation) {
         } else {
             this->forward_init(observation);
         }
+
+        // Compute time progression
+        for (auto &model : models) {
+            model.second.updateAlphaWindow();
+            model.second.updateResults();
+        }
     } else {
+        // filtering each class also updates its results and its regression
         int i(0);
         for (auto &model : models) {
             results.instant_likelihoods[i] = model.second.filter(observation);
             i++;
         }
     }
-
-    // Compute time progression
-    for (auto &model : models) {
-        model.second.updateAlphaWindow();
-        model.second.updateResults();
-    }
     updateResults();
 
     if (shared_parameters->bimodal.get()) {
@@ -414,8 +415,10 @@ void xmm::HierarchicalHMM::filter(std::vector<float> const &observation) {
         unsigned int dimension_input = shared_parameters->dimension_input.get();
         unsigned int dimension_output = dimension - dimension_input;
 
-        for (auto &model : models) {
-            model.second.regression(observation);
+        if (configuration.hierarchical.get()) {
+            for (auto &model : models) {
+                model.second.regression(observation);
+            }
         }
 
         if (configuration.multiClass_regression_estimator ==
-- 
2.43.0


From 04457c304e138f8f620c7b7697f9af6e3e4f7502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:51 +0000
Subject: [PATCH 31/62] fix: initial likelihood of ergodic classes in
 hierarchical HMMs

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 427927d..357a195 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -160,14 +160,15 @@ void xmm::HierarchicalHMM::forward_init(std::vector<float> const &observation) {
         // primitive
         if (model.second.parameters.transition_mode.get() ==
             HMM::TransitionMode::Ergodic) {
+            model.second.results.instant_likelihood = 0.0;
             for (int i = 0; i < model.second.parameters.states.get(); i++) {
                 if (shared_parameters->bimodal.get()) {
                     model.second.alpha_h[0][i] =
-                        model.second.prior[i] *
+                        this->prior[model_index] * model.second.prior[i] *
                         model.second.states[i].obsProb_input(&observation[0]);
                 } else {
                     model.second.alpha_h[0][i] =
-                        model.second.prior[i] *
+                        this->prior[model_index] * model.second.prior[i] *
                         model.second.states[i].obsProb(&observation[0]);
                 }
                 model.second.results.instant_likelihood +=
-- 
2.43.0


From e87ed95b38b14d85210319a1afe0a2d62fa48602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:02 +0000
Subject: [PATCH 32/62] fix: no result or state of a model is used
 uninitialized

---
 src/core/model/xmmModelResults.hpp    |  4 ++--
 src/models/hmm/xmmHierarchicalHmm.cpp |  2 ++
 src/models/hmm/xmmHmmResults.hpp      | 12 ++++++------
 src/models/hmm/xmmHmmSingleClass.hpp  |  8 ++++----
 4 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/core/model/xmmModelResults.hpp b/src/core/model/xmmModelResults.hpp
index c65fd38..3a438cb 100644
--- a/src/core/model/xmmModelResults.hpp
+++ b/src/core/model/xmmModelResults.hpp
@@ -48,12 +48,12 @@ struct ClassResults {
     /**
      @brief Instantaneous likelihood
      */
-    double instant_likelihood;
+    double instant_likelihood = 0.;
 
     /**
      @brief Cumulative log-likelihood computed on a sliding window
      */
-    double log_likelihood;
+    double log_likelihood = 0.;
 
     /**
      @brief Predicted Output parameter vector (only used in regression mode)
diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 357a195..24838b4 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -186,6 +186,8 @@ void xmm::HierarchicalHMM::forward_init(std::vector<float> const &observation) {
             model.second.results.instant_likelihood =
                 model.second.alpha_h[0][0];
         }
+        model.second.results.exit_likelihood = 0.0;
+        model.second.results.exit_ratio = 0.0;
         norm_const += model.second.results.instant_likelihood;
         model_index++;
     }
diff --git a/src/models/hmm/xmmHmmResults.hpp b/src/models/hmm/xmmHmmResults.hpp
index 633df90..52d9582 100644
--- a/src/models/hmm/xmmHmmResults.hpp
+++ b/src/models/hmm/xmmHmmResults.hpp
@@ -45,12 +45,12 @@ struct ClassResults<HMM> {
     /**
      @brief Instantaneous likelihood
      */
-    double instant_likelihood;
+    double instant_likelihood = 0.;
 
     /**
      @brief Cumulative log-likelihood computed on a sliding window
      */
-    double log_likelihood;
+    double log_likelihood = 0.;
 
     /**
      @brief Predicted Output parameter vector (only used in regression mode)
@@ -70,23 +70,23 @@ struct ClassResults<HMM> {
      @details The time progression is computed as the centroid of the state
      probability distribution estimated by the forward algorithm
      */
-    double progress;
+    double progress = 0.;
 
     /**
      @brief Likelihood to exit the gesture on the next time step
      */
-    double exit_likelihood;
+    double exit_likelihood = 0.;
 
     /**
      @brief Likelihood to exit the gesture on the next time step (normalized -/-
      total likelihood)
      */
-    double exit_ratio;
+    double exit_ratio = 0.;
 
     /**
      @brief Index of the likeliest state
      */
-    unsigned int likeliest_state;
+    unsigned int likeliest_state = 0;
 };
 }
 
diff --git a/src/models/hmm/xmmHmmSingleClass.hpp b/src/models/hmm/xmmHmmSingleClass.hpp
index 7dd78f3..997edc2 100644
--- a/src/models/hmm/xmmHmmSingleClass.hpp
+++ b/src/models/hmm/xmmHmmSingleClass.hpp
@@ -438,7 +438,7 @@ class SingleClassHMM : public SingleClassProbabilisticModel {
     /**
      @brief Defines if the forward algorithm has been initialized
      */
-    bool forward_initialized_;
+    bool forward_initialized_ = false;
 
     /**
      @brief used to store the alpha estimated at the previous time step
@@ -508,19 +508,19 @@ class SingleClassHMM : public SingleClassProbabilisticModel {
      @brief minimum index of the alpha window (used for regression & time
      progression)
      */
-    int window_minindex_;
+    int window_minindex_ = 0;
 
     /**
      @brief minimum index of the alpha window (used for regression & time
      progression)
      */
-    int window_maxindex_;
+    int window_maxindex_ = 0;
 
     /**
      @brief normalization constant of the alpha window (used for regression &
      time progression)
      */
-    double window_normalization_constant_;
+    double window_normalization_constant_ = 0.;
 };
 }
 
-- 
2.43.0


From 7c7a58661927a793a6c9b1e1497e1fd1feaf6485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:07 +0000
Subject: [PATCH 33/62] fix: estimate the prior of ergodic HMMs from non-empty
 phrases only

---
 src/models/hmm/xmmHmmSingleClass.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index b191613..df90281 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -991,7 +991,7 @@ void xmm::SingleClassHMM::baumWelch_estimatePrior(TrainingSet* trainingSet) {
     double sumprior = 0.;
     int phraseIndex(0);
     for (auto it = trainingSet->cbegin(); it != trainingSet->cend(); it++) {
-        for (int i = 0; i < numStates; i++) {
+        for (int i = 0; i < numStates && it->second->size() > 0; i++) {
             prior[i] += gamma_sequence_[phraseIndex][i];
             sumprior += gamma_sequence_[phraseIndex][i];
         }
-- 
2.43.0


From 1379a22906fafa337c4b1c482c1988e91c4de623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:10 +0000
Subject: [PATCH 34/62] fix: transitions of states that are never left in
 ergodic HMMs

---
 src/models/hmm/xmmHmmSingleClass.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index df90281..5de5751 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -332,7 +332,11 @@ void xmm::SingleClassHMM::normalizeTransitions() {
             for (int j = 0; j < numStates; j++)
                 norm_transition += transition[i * numStates + j];
             for (int j = 0; j < numStates; j++)
-                transition[i * numStates + j] /= norm_transition;
+                // a state that is never left has no estimate of its transitions
+                transition[i * numStates + j] =
+                    (norm_transition > 0.)
+                        ? transition[i * numStates + j] / norm_transition
+                        : 1. / double(numStates);
         }
         for (int i = 0; i < numStates; i++) prior[i] /= norm_prior;
     } else {
-- 
2.43.0


From 44cfde48dd5024b9be973a47a3129bd702340ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:42 +0000
Subject: [PATCH 35/62] fix: the window of states of a single-state HMM is not
 empty

---
 src/models/hmm/xmmHmmSingleClass.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 5de5751..ce41ed2 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -1203,6 +1203,10 @@ void xmm::SingleClassHMM::updateAlphaWindow() {
     window_maxindex_ = (window_maxindex_ <= static_cast<int>(numStates))
                            ? window_maxindex_
                            : static_cast<int>(numStates);
+    // the window includes the likeliest state, even if it is the only one
+    window_maxindex_ =
+        std::max(window_maxindex_,
+                 static_cast<int>(results.likeliest_state) + 1);
     window_normalization_constant_ = 0.0;
     for (int i = window_minindex_; i < window_maxindex_; ++i) {
         window_normalization_constant_ +=
-- 
2.43.0


From 1a5734dfea0a4de85f973fdf4655e5e6fadad52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:46 +0000
Subject: [PATCH 36/62] fix: the progress of hierarchical HMMs does not exceed
 one

---
 src/models/hmm/xmmHmmSingleClass.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index ce41ed2..378041a 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -1313,14 +1313,15 @@ void xmm::SingleClassHMM::updateResults() {
     results.log_likelihood /= double(bufSize);
 
     results.progress = 0.0;
+    double progress_normalization(0.0);
     for (int i = window_minindex_; i < window_maxindex_; ++i) {
-        if (is_hierarchical_)
-            results.progress +=
-                (alpha_h[0][i] + alpha_h[1][i] + alpha_h[2][i]) * i /
-                window_normalization_constant_;
-        else
-            results.progress += alpha[i] * i / window_normalization_constant_;
+        double state_probability =
+            is_hierarchical_ ? alpha_h[0][i] + alpha_h[1][i] + alpha_h[2][i]
+                             : alpha[i];
+        results.progress += state_probability * i;
+        progress_normalization += state_probability;
     }
+    if (progress_normalization > 0.) results.progress /= progress_normalization;
     double div = double(parameters.states.get() - 1);
     if(div == 0) div = 1;
     results.progress /= div;
-- 
2.43.0


From f68f434f9ecf67c37cbf0104068a7f90189c89c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:50 +0000
Subject: [PATCH 37/62] fix: output covariance of the likeliest state estimator

---
 src/models/hmm/xmmHmmSingleClass.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 378041a..d7dd8d9 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -1234,6 +1234,8 @@ void xmm::SingleClassHMM::regression(
         states[results.likeliest_state].regression(observation_input);
         results.output_values =
             states[results.likeliest_state].results.output_values;
+        results.output_covariance =
+            states[results.likeliest_state].results.output_covariance;
         return;
     }
 
-- 
2.43.0


From c1a6c345634e7da1e3b63e5b25fda8214c5abe1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:55 +0000
Subject: [PATCH 38/62] fix: exit probabilities of retrained and of
 non-hierarchical HMMs

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 3 ++-
 src/models/hmm/xmmHmmSingleClass.cpp  | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 24838b4..360d978 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -134,7 +134,8 @@ void xmm::HierarchicalHMM::updateTransition() {
 
 void xmm::HierarchicalHMM::updateExitProbabilities() {
     for (auto &model : models) {
-        model.second.updateExitProbabilities();
+        if (model.second.is_hierarchical_)
+            model.second.updateExitProbabilities();
     }
 }
 
diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index d7dd8d9..1b63586 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -132,7 +132,10 @@ void xmm::SingleClassHMM::allocate() {
     for (auto& state : states) {
         state.allocate();
     }
-    if (is_hierarchical_) updateExitProbabilities(NULL);
+    // exit probabilities of another number of states are dropped
+    if (exit_probabilities_.size() != numStates)
+        exit_probabilities_.assign(numStates, 0.0);
+    exit_probabilities_[numStates - 1] = DEFAULT_EXITPROBABILITY_LAST_STATE();
 }
 
 void xmm::SingleClassHMM::initParametersToDefault(
-- 
2.43.0


From 4f6276c4ad3ea8989ad1087e33c5504e9167bd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:27 +0000
Subject: [PATCH 39/62] fix: mixture regression of classes with different
 covariance modes

---
 src/models/gmm/xmmGmm.cpp             | 18 +++++++++++-------
 src/models/hmm/xmmHierarchicalHmm.cpp | 18 +++++++++++-------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/models/gmm/xmmGmm.cpp b/src/models/gmm/xmmGmm.cpp
index 67c69dc..ab0f5b5 100644
--- a/src/models/gmm/xmmGmm.cpp
+++ b/src/models/gmm/xmmGmm.cpp
@@ -138,6 +138,9 @@ void xmm::GMM::filter(std::vector<float> const& observation) {
 
             int i(0);
             for (auto& model : models) {
+                // the covariance mode can be specific to the class
+                bool full = (model.second.parameters.covariance_mode.get() ==
+                             GaussianDistribution::CovarianceMode::Full);
                 for (int d = 0; d < dimension_output; d++) {
                     results.output_values[d] +=
                         results.smoothed_normalized_likelihoods[i] *
@@ -145,16 +148,17 @@ void xmm::GMM::filter(std::vector<float> const& observation) {
                     if ((configuration.covariance_mode.get() ==
                          GaussianDistribution::CovarianceMode::Full)) {
                         for (int d2 = 0; d2 < dimension_output; d2++)
-                            results
-                                .output_covariance[d * dimension_output + d2] +=
-                                results.smoothed_normalized_likelihoods[i] *
-                                model.second.results
-                                    .output_covariance[d * dimension_output +
-                                                       d2];
+                            if (full || d == d2)
+                                results.output_covariance[d * dimension_output +
+                                                          d2] +=
+                                    results.smoothed_normalized_likelihoods[i] *
+                                    model.second.results.output_covariance
+                                        [full ? d * dimension_output + d2 : d];
                     } else {
                         results.output_covariance[d] +=
                             results.smoothed_normalized_likelihoods[i] *
-                            model.second.results.output_covariance[d];
+                            model.second.results.output_covariance
+                                [full ? d * dimension_output + d : d];
                     }
                 }
                 i++;
diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 360d978..9449e90 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -442,6 +442,9 @@ void xmm::HierarchicalHMM::filter(std::vector<float> const &observation) {
 
             int i(0);
             for (auto &model : models) {
+                // the covariance mode can be specific to the class
+                bool full = (model.second.parameters.covariance_mode.get() ==
+                             GaussianDistribution::CovarianceMode::Full);
                 for (int d = 0; d < dimension_output; d++) {
                     results.output_values[d] +=
                         results.smoothed_normalized_likelihoods[i] *
@@ -450,16 +453,17 @@ void xmm::HierarchicalHMM::filter(std::vector<float> const &observation) {
                     if ((configuration.covariance_mode.get() ==
                          GaussianDistribution::CovarianceMode::Full)) {
                         for (int d2 = 0; d2 < dimension_output; d2++)
-                            results
-                                .output_covariance[d * dimension_output + d2] +=
-                                results.smoothed_normalized_likelihoods[i] *
-                                model.second.results
-                                    .output_covariance[d * dimension_output +
-                                                       d2];
+                            if (full || d == d2)
+                                results.output_covariance[d * dimension_output +
+                                                          d2] +=
+                                    results.smoothed_normalized_likelihoods[i] *
+                                    model.second.results.output_covariance
+                                        [full ? d * dimension_output + d2 : d];
                     } else {
                         results.output_covariance[d] +=
                             results.smoothed_normalized_likelihoods[i] *
-                            model.second.results.output_covariance[d];
+                            model.second.results.output_covariance
+                                [full ? d * dimension_output + d : d];
                     }
                 }
                 i++;
-- 
2.43.0


From ff793cc7f3735559c9f71e1722a258c32a99e449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:53 +0000
Subject: [PATCH 40/62] fix: copies of KMeans have their own parameters and
 results

---
 src/models/kmeans/xmmKMeans.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/models/kmeans/xmmKMeans.cpp b/src/models/kmeans/xmmKMeans.cpp
index cd04cd6..3b22d75 100644
--- a/src/models/kmeans/xmmKMeans.cpp
+++ b/src/models/kmeans/xmmKMeans.cpp
@@ -48,12 +48,17 @@ xmm::KMeans::KMeans(unsigned int clusters_)
 }
 
 xmm::KMeans::KMeans(KMeans const& src)
-    : configuration(src.configuration),
+    : shared_parameters(
+          std::make_shared<SharedParameters>(*src.shared_parameters)),
+      configuration(src.configuration),
+      results(src.results),
       centers(src.centers),
       initialization_mode(src.initialization_mode) {}
 
 xmm::KMeans& xmm::KMeans::operator=(KMeans const& src) {
     if (this != &src) {
+        *shared_parameters = *src.shared_parameters;
+        results = src.results;
         initialization_mode = src.initialization_mode;
         configuration = src.configuration;
         centers = src.centers;
-- 
2.43.0


From fecc213e4171044163e5a77b8ee2cdedff5ec5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:56 +0000
Subject: [PATCH 41/62] fix: filter with KMeans before reset or training

---
 src/models/kmeans/xmmKMeans.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/models/kmeans/xmmKMeans.cpp b/src/models/kmeans/xmmKMeans.cpp
index 3b22d75..190c015 100644
--- a/src/models/kmeans/xmmKMeans.cpp
+++ b/src/models/kmeans/xmmKMeans.cpp
@@ -209,6 +209,9 @@ void xmm::KMeans::filter(std::vector<float> const& observation) {
     if (observation.size() != shared_parameters->dimension.get())
         throw std::runtime_error("Observation has wrong dimension");
     int dimension = static_cast<int>(shared_parameters->dimension.get());
+    if (centers.size() != configuration.clusters.get() * dimension)
+        throw std::runtime_error("The model has not been trained");
+    results.distances.resize(configuration.clusters.get(), 0.0);
     results.likeliest = 0;
     float minDistance(std::numeric_limits<float>::max());
     for (unsigned int k = 0; k < configuration.clusters.get(); ++k) {
-- 
2.43.0


From a759340b5ddc4b7edfd8851a6e6fc36193be5d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:10 +0000
Subject: [PATCH 42/62] fix: training flags of the classes are shared between
 threads

---
 src/core/model/xmmModelSingleClass.cpp | 2 +-
 src/core/model/xmmModelSingleClass.hpp | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/model/xmmModelSingleClass.cpp b/src/core/model/xmmModelSingleClass.cpp
index 28259e4..3b9e1b7 100644
--- a/src/core/model/xmmModelSingleClass.cpp
+++ b/src/core/model/xmmModelSingleClass.cpp
@@ -158,10 +158,10 @@ void xmm::SingleClassProbabilisticModel::train(TrainingSet* trainingSet) {
             trainingError = true;
 
         if (trainingError) {
-            is_training_ = false;
             training_mutex_.unlock();
             training_status.status = TrainingEvent::Status::Error;
             training_events.notifyListeners(training_status);
+            is_training_ = false;
             return;
         }
 
diff --git a/src/core/model/xmmModelSingleClass.hpp b/src/core/model/xmmModelSingleClass.hpp
index cad4a34..6bd9642 100644
--- a/src/core/model/xmmModelSingleClass.hpp
+++ b/src/core/model/xmmModelSingleClass.hpp
@@ -38,6 +38,7 @@
 #include "../common/xmmEvents.hpp"
 #include "../trainingset/xmmTrainingSet.hpp"
 #include "xmmModelSharedParameters.hpp"
+#include <atomic>
 #include <memory>
 #include <mutex>
 
@@ -360,12 +361,12 @@ class SingleClassProbabilisticModel : public Writable {
     /**
      @brief defines if the model is being trained.
      */
-    bool is_training_;
+    std::atomic<bool> is_training_;
 
     /**
      @brief defines if the model received a request to cancel training
      */
-    bool cancel_training_;
+    std::atomic<bool> cancel_training_;
 };
 }
 
-- 
2.43.0


From bfb75304d1103cad49c4ef784562f46c5fa60326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:37 +0000
Subject: [PATCH 43/62] fix: races between training threads, cancellation and
 the end of training

A single thread is in charge of finishing the training, in every
multithreading mode; it is never detached, so that the model can be
retrained, modified or destroyed at any time.
---
 src/core/model/xmmModel.hpp           | 373 +++++++++++++++-----------
 src/models/gmm/xmmGmm.cpp             |   3 +
 src/models/gmm/xmmGmm.hpp             |   6 +
 src/models/hmm/xmmHierarchicalHmm.cpp |  10 +-
 src/models/hmm/xmmHierarchicalHmm.hpp |  12 +-
 5 files changed, 230 insertions(+), 174 deletions(-)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index 815d900..6aa7ba7 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -57,10 +57,11 @@ class Model : public Writable {
      */
     Model(bool bimodal = false)
         : shared_parameters(std::make_shared<SharedParameters>()),
-          cancel_required_(false),
           is_training_(false),
           is_joining_(false),
-          models_still_training_(0) {
+          pending_cancels_(0),
+          models_still_training_(0),
+          joining_thread_id_(std::thread::id()) {
         shared_parameters->bimodal.set(bimodal);
         if (shared_parameters->bimodal.get()) {
             shared_parameters->dimension.set(2, true);
@@ -80,10 +81,11 @@ class Model : public Writable {
               std::make_shared<SharedParameters>(*src.shared_parameters)),
           configuration(src.configuration),
           training_events(src.training_events),
-          cancel_required_(false),
           is_training_(false),
           is_joining_(false),
-          models_still_training_(0) {
+          pending_cancels_(0),
+          models_still_training_(0),
+          joining_thread_id_(std::thread::id()) {
         if (src.is_training_)
             throw std::runtime_error(
                 "Cannot copy: source model is still training");
@@ -102,10 +104,11 @@ class Model : public Writable {
      */
     explicit Model(Json::Value const& root)
         : shared_parameters(std::make_shared<SharedParameters>()),
-          cancel_required_(false),
           is_training_(false),
           is_joining_(false),
-          models_still_training_(0) {
+          pending_cancels_(0),
+          models_still_training_(0),
+          joining_thread_id_(std::thread::id()) {
         shared_parameters->fromJson(root["shared_parameters"]);
         configuration.fromJson(root["configuration"]);
         models.clear();
@@ -133,14 +136,12 @@ class Model : public Writable {
             if (src.is_training_)
                 throw std::runtime_error(
                     "Cannot copy: source model is still training");
+            // wait for the end of the notifications of the last training
+            cancelTraining();
             shared_parameters =
                 std::make_shared<SharedParameters>(*src.shared_parameters);
             configuration = src.configuration;
             training_events = src.training_events;
-            is_joining_ = false;
-            is_training_ = false;
-            cancel_required_ = false;
-            models_still_training_ = 0;
 
             models.clear();
             models = src.models;
@@ -202,24 +203,28 @@ class Model : public Writable {
 
     /**
      @brief Remove a specific class by label
-     @param label label of the class to remove
-     */
-    virtual void removeClass(std::string const& label) {
-        while (is_joining_) {
+     @param class_label label of the class to remove
+     */
+    virtual void removeClass(std::string const& class_label) {
+        std::string const label(class_label);
+        {
+            std::lock_guard<std::mutex> lock(event_mutex_);
+            if (models.count(label) == 0)
+                throw std::out_of_range("Class " + label + " does not exist");
         }
         cancelTraining(label);
-        auto it = models.find(label);
-        if (it == models.end())
-            throw std::out_of_range("Class " + label + " does not exist");
-        models.erase(it);
-        reset();
+        std::lock_guard<std::mutex> lock(event_mutex_);
+        // a class which training is cancelled can be already removed
+        models.erase(label);
+        updateClasses();
+        if (!is_training_) reset();
     }
 
     /**
      @brief Remove all classes
      */
     virtual void clear() {
-        if (is_training_) cancelTraining();
+        cancelTraining();
         models.clear();
         reset();
     }
@@ -248,56 +253,13 @@ class Model : public Writable {
         cancelTraining();
         clear();
 
-        is_training_ = true;
+        std::unique_lock<std::mutex> lock(event_mutex_);
 
-        // Fetch training set parameters
-        shared_parameters->dimension.set(trainingSet->dimension.get());
-        if (shared_parameters->bimodal.get()) {
-            shared_parameters->dimension_input.set(
-                trainingSet->dimension_input.get());
-        }
-        shared_parameters->column_names.set(trainingSet->column_names.get());
-
-        // Update models
-        bool contLoop(true);
-        while (contLoop) {
-            contLoop = false;
-            for (auto it = models.begin(); it != models.end(); ++it) {
-                if (trainingSet->labels().count(it->first) == 0) {
-                    models.erase(it->first);
-                    contLoop = true;
-                    break;
-                }
-            }
-        }
-        for (typename std::set<std::string>::iterator it =
-                 trainingSet->labels().begin();
-             it != trainingSet->labels().end(); ++it) {
-            addModelForClass(*it);
-        }
-
-        // Start class training
-        for (auto it = this->models.begin(); it != this->models.end(); ++it) {
-            it->second.is_training_ = true;
-            it->second.cancel_training_ = false;
-            models_still_training_++;
-            if ((configuration.multithreading ==
-                 MultithreadingMode::Parallel) ||
-                (configuration.multithreading ==
-                 MultithreadingMode::Background)) {
-                training_threads_[it->first] =
-                    std::thread(&SingleClassModel::train, &it->second,
-                                trainingSet->getPhrasesOfClass(it->first));
-            } else {
-                it->second.train(trainingSet->getPhrasesOfClass(it->first));
-            }
-        }
-        if (configuration.multithreading == MultithreadingMode::Parallel) {
-            joinTraining();
-        }
-        if (configuration.multithreading == MultithreadingMode::Sequential) {
-            is_training_ = false;
+        fetchTrainingSetParameters(trainingSet);
+        for (auto& label : trainingSet->labels()) {
+            addModelForClass(label);
         }
+        startTraining(trainingSet, trainingSet->labels(), lock);
     }
 
     /**
@@ -317,6 +279,14 @@ class Model : public Writable {
         // Cancel Training of the class
         cancelTraining(label);
 
+        std::unique_lock<std::mutex> lock(event_mutex_);
+        while (is_joining_ || (!is_training_ && joining_thread_.joinable())) {
+            // another training is being finished
+            lock.unlock();
+            waitForJoining();
+            lock.lock();
+        }
+
         // Check Consistency of the new Training Set
         if (size() > 0) {
             if ((shared_parameters->dimension.get() !=
@@ -329,51 +299,28 @@ class Model : public Writable {
                     "models");
         }
 
-        is_training_ = true;
-
-        // Fetch training set parameters
-        shared_parameters->dimension.set(trainingSet->dimension.get());
-        if (shared_parameters->bimodal.get()) {
-            shared_parameters->dimension_input.set(
-                trainingSet->dimension_input.get());
-        }
-        shared_parameters->column_names.set(trainingSet->column_names.get());
-
+        // the other classes that are training have the same parameters
+        if (!is_training_) fetchTrainingSetParameters(trainingSet);
         addModelForClass(label);
-
-        // Start class training
-        models[label].is_training_ = true;
-        models[label].cancel_training_ = false;
-        models_still_training_++;
-        if (configuration.multithreading == MultithreadingMode::Sequential) {
-            models[label].train(trainingSet->getPhrasesOfClass(label));
-        } else {
-            training_threads_[label] =
-                std::thread(&SingleClassModel::train, &(this->models[label]),
-                            trainingSet->getPhrasesOfClass(label));
-        }
-        if (configuration.multithreading == MultithreadingMode::Parallel) {
-            joinTraining();
-        }
-        if (configuration.multithreading == MultithreadingMode::Sequential) {
-            is_training_ = false;
-        }
+        startTraining(trainingSet, {label}, lock);
     }
 
     /**
      @brief Cancels the training of all models
      */
     void cancelTraining() {
+        std::unique_lock<std::mutex> lock(event_mutex_);
         if (is_training_) {
-            for (auto& it : this->models) {
-                cancel_required_ = true;
-                it.second.cancelTraining();
-                while (it.second.isTraining()) {
-                }
+            for (auto& model : models) model.second.cancelTraining();
+            if (!is_joining_) {
+                is_joining_ = true;
+                lock.unlock();
+                joinTraining();
+                return;
             }
-            joinTraining();
         }
-        cancel_required_ = false;
+        lock.unlock();
+        waitForJoining();
     }
 
     /**
@@ -381,16 +328,35 @@ class Model : public Writable {
      @param label label of the class to cancel
      */
     void cancelTraining(std::string const& label) {
-        if (is_training_ && (this->models.count(label) > 0)) {
-            cancel_required_ = true;
-            models[label].cancelTraining();
-            while (models[label].isTraining()) {
+        std::unique_lock<std::mutex> lock(event_mutex_);
+        auto it = models.find(label);
+        if (is_training_ && it != models.end() && it->second.isTraining()) {
+            it->second.cancelTraining();
+            // the training is not finished by another thread in the meantime
+            pending_cancels_++;
+            while (it->second.isTraining()) {
+                lock.unlock();
+                std::this_thread::yield();
+                lock.lock();
             }
-            if (models_still_training_ == 0) {
-                joinTraining();
+            if (training_threads_.count(label) > 0) {
+                std::thread class_thread(std::move(training_threads_[label]));
+                training_threads_.erase(label);
+                lock.unlock();
+                class_thread.join();
+                lock.lock();
             }
+            pending_cancels_--;
+        }
+        if (is_training_ && !is_joining_ && models_still_training_ == 0 &&
+            pending_cancels_ == 0) {
+            is_joining_ = true;
+            lock.unlock();
+            joinTraining();
+        } else if (is_joining_ && models_still_training_ == 0) {
+            lock.unlock();
+            waitForJoining();
         }
-        cancel_required_ = false;
     }
 
     ///@}
@@ -430,6 +396,7 @@ class Model : public Writable {
      @return Json value containing the object's information
      */
     virtual Json::Value toJson() const {
+        checkTraining();
         Json::Value root;
         root["shared_parameters"] = shared_parameters->toJson();
         root["configuration"] = configuration.toJson();
@@ -481,68 +448,136 @@ class Model : public Writable {
 
   protected:
     /**
-     @brief Finishes the background training process by joining threads and
-     deleting the models which training failed
+     @brief Fetch the parameters of the training set shared among classes
+     @param trainingSet Training Set
      */
-    virtual void joinTraining() {
-        if (!is_training_) return;
-        bool expectedState(false);
-        if (is_joining_.compare_exchange_weak(expectedState, true)) {
-            while (!training_threads_.empty()) {
-                training_threads_.begin()->second.join();
-                training_threads_.erase(training_threads_.begin());
-            }
-            bool classesUntrained(true);
-            while (classesUntrained) {
-                classesUntrained = false;
-                for (auto it = this->models.begin(); it != this->models.end();
-                     it++) {
-                    if (it->second.training_status.status ==
-                            TrainingEvent::Status::Cancel ||
-                        it->second.training_status.status ==
-                            TrainingEvent::Status::Error) {
-                        models.erase(it);
-                        classesUntrained = true;
-                        break;
-                    }
-                }
+    void fetchTrainingSetParameters(TrainingSet* trainingSet) {
+        shared_parameters->dimension.set(trainingSet->dimension.get());
+        if (shared_parameters->bimodal.get()) {
+            shared_parameters->dimension_input.set(
+                trainingSet->dimension_input.get());
+        }
+        shared_parameters->column_names.set(trainingSet->column_names.get());
+    }
+
+    /**
+     @brief Start the training of a set of classes
+     @details in Parallel and Sequential modes, the training is finished when
+     the method returns
+     @param trainingSet Training Set
+     @param labels labels of the classes to train
+     @param lock lock on the events' mutex (released before waiting)
+     */
+    void startTraining(TrainingSet* trainingSet,
+                       std::set<std::string> const& labels,
+                       std::unique_lock<std::mutex>& lock) {
+        MultithreadingMode mode = configuration.multithreading;
+        std::set<std::string> training_labels(labels);
+        is_training_ = true;
+        // In Background mode, the training is finished by the last class
+        if (mode != MultithreadingMode::Background) is_joining_ = true;
+        for (auto& label : training_labels) {
+            SingleClassModel& model = models[label];
+            model.training_status.status = TrainingEvent::Status::Run;
+            model.cancel_training_ = false;
+            model.is_training_ = true;
+            models_still_training_++;
+        }
+        if (mode == MultithreadingMode::Sequential) {
+            lock.unlock();
+            for (auto& label : training_labels) {
+                models[label].train(trainingSet->getPhrasesOfClass(label));
             }
-            is_joining_ = false;
-            is_training_ = false;
-            reset();
-            TrainingEvent event(this, "", TrainingEvent::Status::Alldone);
-            training_events.notifyListeners(event);
         } else {
-            while (is_joining_) {
+            for (auto& label : training_labels) {
+                training_threads_[label] =
+                    std::thread(&SingleClassModel::train, &(models[label]),
+                                trainingSet->getPhrasesOfClass(label));
             }
+            lock.unlock();
         }
+        if (mode != MultithreadingMode::Background) joinTraining();
     }
 
+    /**
+     @brief Finishes the training process by joining threads and deleting the
+     models which training failed
+     @details called by the only thread that has set is_joining_
+     */
+    void joinTraining() {
+        std::map<std::string, std::thread> threads;
+        std::unique_lock<std::mutex> lock(event_mutex_);
+        threads.swap(training_threads_);
+        lock.unlock();
+        for (auto& thread : threads) thread.second.join();
+        lock.lock();
+        while (pending_cancels_ > 0) {
+            lock.unlock();
+            std::this_thread::yield();
+            lock.lock();
+        }
+        for (auto it = models.begin(); it != models.end();) {
+            if (it->second.training_status.status ==
+                    TrainingEvent::Status::Cancel ||
+                it->second.training_status.status ==
+                    TrainingEvent::Status::Error) {
+                it = models.erase(it);
+            } else {
+                ++it;
+            }
+        }
+        joining_thread_id_ = std::this_thread::get_id();
+        updateClasses();
+        reset();
+        joining_thread_id_ = std::thread::id();
+        is_joining_ = false;
+        is_training_ = false;
+        lock.unlock();
+        TrainingEvent event(this, "", TrainingEvent::Status::Alldone);
+        training_events.notifyListeners(event);
+    }
+
+    /**
+     @brief Waits until no thread is finishing the training process
+     */
+    void waitForJoining() {
+        std::thread joining_thread;
+        {
+            std::lock_guard<std::mutex> lock(event_mutex_);
+            joining_thread.swap(joining_thread_);
+        }
+        if (joining_thread.joinable()) {
+            if (joining_thread.get_id() == std::this_thread::get_id())
+                joining_thread.detach();
+            else
+                joining_thread.join();
+        }
+        while (is_joining_) std::this_thread::yield();
+    }
+
+    /**
+     @brief Updates the model-level parameters that depend on the set of classes
+     */
+    virtual void updateClasses() {}
+
     /**
      @brief Monitors the training of each Model of the group.
      */
     void onTrainingEvent(TrainingEvent const& e) {
-        event_mutex_.lock();
+        std::lock_guard<std::mutex> lock(event_mutex_);
         TrainingEvent event(e);
         event.model = this;
         training_events.notifyListeners(event);
-        if (e.status != TrainingEvent::Status::Run) {
+        if (e.status != TrainingEvent::Status::Run && is_training_) {
             models_still_training_--;
-            ((SingleClassModel*)e.model)->is_training_ = false;
-            if (configuration.multithreading ==
-                    MultithreadingMode::Background &&
-                !is_joining_ &&       // avoid to call "joinTraining" if already
-                                      // called by the main thread
-                !cancel_required_ &&  // avoid to call "joinTraining" if cancel
-                                      // required by the main thread
-                models_still_training_ == 0) {
-                is_joining_ = false;
-                std::thread(&Model<SingleClassModel, ModelType>::joinTraining,
-                            this)
-                    .detach();
+            // avoid to finish the training if another thread is in charge
+            if (models_still_training_ == 0 && !is_joining_ &&
+                pending_cancels_ == 0) {
+                is_joining_ = true;
+                joining_thread_ = std::thread(
+                    &Model<SingleClassModel, ModelType>::joinTraining, this);
             }
         }
-        event_mutex_.unlock();
     }
 
     /**
@@ -550,9 +585,9 @@ class Model : public Writable {
      @throws runtime_error if the Model is training.
      */
     inline void checkTraining() const {
-        if (is_training_) throw std::runtime_error("The Model is training");
-        while (is_joining_) {
-        }
+        // the training is finished by a thread that can use the model
+        if (is_training_ && joining_thread_id_ != std::this_thread::get_id())
+            throw std::runtime_error("The Model is training");
     }
 
     /**
@@ -601,10 +636,9 @@ class Model : public Writable {
     std::map<std::string, std::thread> training_threads_;
 
     /**
-     @brief locks the Model while the models are training
-     Used in cancel method
+     @brief Thread that finishes the training in the background
      */
-    std::atomic<bool> cancel_required_;
+    std::thread joining_thread_;
 
     /**
      @brief locks the Model while the models are training
@@ -613,18 +647,29 @@ class Model : public Writable {
     std::atomic<bool> is_training_;
 
     /**
-     @brief specifies if a thread for joining the training process has been
-     launched.
+     @brief specifies if a thread is in charge of finishing the training
+     process.
      */
     std::atomic<bool> is_joining_;
 
+    /**
+     @brief Number of classes which training is being cancelled
+     */
+    unsigned int pending_cancels_;
+
     /**
      @brief Number of models that are still training
      */
     unsigned int models_still_training_;
 
     /**
-     @brief Mutex that prevents concurrent calls to onEvent()
+     @brief Identifier of the thread that is finishing the training process
+     */
+    std::atomic<std::thread::id> joining_thread_id_;
+
+    /**
+     @brief Mutex that protects the set of classes and the progress of their
+     training, and prevents concurrent notifications
      */
     std::mutex event_mutex_;
 };
diff --git a/src/models/gmm/xmmGmm.cpp b/src/models/gmm/xmmGmm.cpp
index ab0f5b5..aaf279c 100644
--- a/src/models/gmm/xmmGmm.cpp
+++ b/src/models/gmm/xmmGmm.cpp
@@ -41,6 +41,8 @@ xmm::GMM::GMM(GMM const& src)
 
 xmm::GMM::GMM(Json::Value const& root) : Model<SingleClassGMM, GMM>(root) {}
 
+xmm::GMM::~GMM() { cancelTraining(); }
+
 xmm::GMM& xmm::GMM::operator=(GMM const& src) {
     if (this != &src) {
         Model<SingleClassGMM, GMM>::operator=(src);
@@ -84,6 +86,7 @@ void xmm::GMM::updateResults() {
 #pragma mark -
 #pragma mark Performance
 void xmm::GMM::reset() {
+    checkTraining();
     results.instant_likelihoods.resize(size());
     results.instant_normalized_likelihoods.resize(size());
     results.smoothed_likelihoods.resize(size());
diff --git a/src/models/gmm/xmmGmm.hpp b/src/models/gmm/xmmGmm.hpp
index 03d9247..207d2ff 100644
--- a/src/models/gmm/xmmGmm.hpp
+++ b/src/models/gmm/xmmGmm.hpp
@@ -70,6 +70,12 @@ class GMM : public Model<SingleClassGMM, GMM> {
      */
     GMM& operator=(GMM const& src);
 
+    /**
+     @brief Destructor
+     @details waits for the end of the training process
+     */
+    virtual ~GMM();
+
     /** @name Performance */
     ///@{
 
diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 9449e90..a7c9736 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -60,6 +60,8 @@ xmm::HierarchicalHMM::HierarchicalHMM(Json::Value const &root)
     json2vector(root["exit_transition"], exit_transition, size());
 }
 
+xmm::HierarchicalHMM::~HierarchicalHMM() { cancelTraining(); }
+
 xmm::HierarchicalHMM &xmm::HierarchicalHMM::operator=(
     HierarchicalHMM const &src) {
     if (this != &src) {
@@ -102,10 +104,7 @@ void xmm::HierarchicalHMM::normalizeTransitions() {
     for (int i = 0; i < size(); i++) prior[i] /= sumPrior;
 }
 
-void xmm::HierarchicalHMM::joinTraining() {
-    Model<SingleClassHMM, HMM>::joinTraining();
-    updateTransitionParameters();
-}
+void xmm::HierarchicalHMM::updateClasses() { updateTransitionParameters(); }
 
 void xmm::HierarchicalHMM::updateTransitionParameters() {
     if (this->size() == prior.size())  // number of primitives has not changed
@@ -134,7 +133,7 @@ void xmm::HierarchicalHMM::updateTransition() {
 
 void xmm::HierarchicalHMM::updateExitProbabilities() {
     for (auto &model : models) {
-        if (model.second.is_hierarchical_)
+        if (model.second.is_hierarchical_ && !model.second.isTraining())
             model.second.updateExitProbabilities();
     }
 }
@@ -359,7 +358,6 @@ void xmm::HierarchicalHMM::likelihoodAlpha(
 
 void xmm::HierarchicalHMM::removeClass(std::string const &label) {
     Model<SingleClassHMM, HMM>::removeClass(label);
-    updateTransitionParameters();
 }
 
 void xmm::HierarchicalHMM::reset() {
diff --git a/src/models/hmm/xmmHierarchicalHmm.hpp b/src/models/hmm/xmmHierarchicalHmm.hpp
index 849850b..809755d 100644
--- a/src/models/hmm/xmmHierarchicalHmm.hpp
+++ b/src/models/hmm/xmmHierarchicalHmm.hpp
@@ -75,6 +75,12 @@ class HierarchicalHMM : public Model<SingleClassHMM, HMM> {
      */
     HierarchicalHMM& operator=(HierarchicalHMM const& src);
 
+    /**
+     @brief Destructor
+     @details waits for the end of the training process
+     */
+    virtual ~HierarchicalHMM();
+
     /** @name Class Manipulation */
     ///@{
 
@@ -213,11 +219,9 @@ class HierarchicalHMM : public Model<SingleClassHMM, HMM> {
 
   protected:
     /**
-     @brief Finishes the background training process by joining threads and
-     deleting the models which training failed
-     @details: updates transition parameters after joining
+     @brief Updates the transition parameters when the set of classes changes
      */
-    virtual void joinTraining();
+    virtual void updateClasses();
 
     /**
      @brief update high-level parameters when a new primitive is learned
-- 
2.43.0


From 1122f95b8c1bfbedd07f769779db3a4de7aa4d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:19 +0000
Subject: [PATCH 44/62] fix: copies of models share their own parameters, and
 are ready to filter

Models read from JSON are reset, and keep the listeners of the target.
---
 src/core/model/xmmModel.hpp            | 4 ++++
 src/core/model/xmmModelSingleClass.hpp | 8 ++++++++
 src/models/gmm/xmmGmm.cpp              | 4 +++-
 src/models/hmm/xmmHierarchicalHmm.cpp  | 3 +++
 src/models/hmm/xmmHmmSingleClass.cpp   | 6 ++++++
 src/models/hmm/xmmHmmSingleClass.hpp   | 6 ++++++
 6 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index 6aa7ba7..4ddb926 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -91,6 +91,8 @@ class Model : public Writable {
                 "Cannot copy: source model is still training");
         models = src.models;
         for (auto& model : models) {
+            model.second.setSharedParameters(shared_parameters);
+            model.second.reset();
             model.second.training_events.removeListeners();
             model.second.training_events.addListener(
                 this,
@@ -146,11 +148,13 @@ class Model : public Writable {
             models.clear();
             models = src.models;
             for (auto& model : this->models) {
+                model.second.setSharedParameters(shared_parameters);
                 model.second.training_events.removeListeners();
                 model.second.training_events.addListener(
                     this,
                     &xmm::Model<SingleClassModel, ModelType>::onTrainingEvent);
             }
+            reset();
         }
         return *this;
     }
diff --git a/src/core/model/xmmModelSingleClass.hpp b/src/core/model/xmmModelSingleClass.hpp
index 6bd9642..22bf329 100644
--- a/src/core/model/xmmModelSingleClass.hpp
+++ b/src/core/model/xmmModelSingleClass.hpp
@@ -280,6 +280,14 @@ class SingleClassProbabilisticModel : public Writable {
      */
     std::string label;
 
+    /**
+     @brief Set the parameters shared with the other classes of a model
+     @param p pointer to a shared parameters object (owned by a Model)
+     */
+    virtual void setSharedParameters(std::shared_ptr<SharedParameters> p) {
+        shared_parameters = p;
+    }
+
     /**
      @brief Pointer to the shared parameters owned by a multi-class model
      */
diff --git a/src/models/gmm/xmmGmm.cpp b/src/models/gmm/xmmGmm.cpp
index aaf279c..47918cc 100644
--- a/src/models/gmm/xmmGmm.cpp
+++ b/src/models/gmm/xmmGmm.cpp
@@ -39,7 +39,9 @@ xmm::GMM::GMM(bool bimodal) : Model<SingleClassGMM, GMM>(bimodal) {}
 xmm::GMM::GMM(GMM const& src)
     : Model<SingleClassGMM, GMM>(src), results(src.results) {}
 
-xmm::GMM::GMM(Json::Value const& root) : Model<SingleClassGMM, GMM>(root) {}
+xmm::GMM::GMM(Json::Value const& root) : Model<SingleClassGMM, GMM>(root) {
+    reset();
+}
 
 xmm::GMM::~GMM() { cancelTraining(); }
 
diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index a7c9736..3911a68 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -58,6 +58,7 @@ xmm::HierarchicalHMM::HierarchicalHMM(Json::Value const &root)
     }
     exit_transition.resize(size());
     json2vector(root["exit_transition"], exit_transition, size());
+    reset();
 }
 
 xmm::HierarchicalHMM::~HierarchicalHMM() { cancelTraining(); }
@@ -528,8 +529,10 @@ Json::Value xmm::HierarchicalHMM::toJson() const {
 void xmm::HierarchicalHMM::fromJson(Json::Value const &root) {
     checkTraining();
     try {
+        EventGenerator<TrainingEvent> _tmp_training_events(training_events);
         HierarchicalHMM tmp(root);
         *this = tmp;
+        training_events = _tmp_training_events;
     } catch (JsonException &e) {
         throw e;
     }
diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 1b63586..4a0e07d 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -105,6 +105,12 @@ xmm::SingleClassHMM& xmm::SingleClassHMM::operator=(SingleClassHMM const& src) {
     return *this;
 }
 
+void xmm::SingleClassHMM::setSharedParameters(
+    std::shared_ptr<SharedParameters> p) {
+    SingleClassProbabilisticModel::setSharedParameters(p);
+    for (auto& state : states) state.setSharedParameters(p);
+}
+
 #pragma mark -
 #pragma mark Parameters initialization
 void xmm::SingleClassHMM::allocate() {
diff --git a/src/models/hmm/xmmHmmSingleClass.hpp b/src/models/hmm/xmmHmmSingleClass.hpp
index 997edc2..1dfc9f0 100644
--- a/src/models/hmm/xmmHmmSingleClass.hpp
+++ b/src/models/hmm/xmmHmmSingleClass.hpp
@@ -92,6 +92,12 @@ class SingleClassHMM : public SingleClassProbabilisticModel {
      */
     void addExitPoint(int stateIndex, float proba);
 
+    /**
+     @brief Set the parameters shared with the other classes of a model
+     @param p pointer to a shared parameters object (owned by a Model)
+     */
+    virtual void setSharedParameters(std::shared_ptr<SharedParameters> p);
+
     ///@}
 
     /** @name Performance */
-- 
2.43.0


From 002c58e0ef548aa2aeffac4681f15a2f2e32f3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:04 +0000
Subject: [PATCH 45/62] fix: floating-point parameters refuse NaN

---
 src/core/common/xmmAttribute.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/common/xmmAttribute.cpp b/src/core/common/xmmAttribute.cpp
index bdf3655..b6ca1e4 100644
--- a/src/core/common/xmmAttribute.cpp
+++ b/src/core/common/xmmAttribute.cpp
@@ -87,7 +87,7 @@ void xmm::checkLimits<long>(long const& value, long const& limit_min,
 template <>
 void xmm::checkLimits<float>(float const& value, float const& limit_min,
                              float const& limit_max) {
-    if (value < limit_min || value > limit_max)
+    if (!(value >= limit_min && value <= limit_max))
         throw std::domain_error("Attribute value out of range. Range: [" +
                                 std::to_string(limit_min) + " ; " +
                                 std::to_string(limit_max) + "]");
@@ -96,7 +96,7 @@ void xmm::checkLimits<float>(float const& value, float const& limit_min,
 template <>
 void xmm::checkLimits<double>(double const& value, double const& limit_min,
                               double const& limit_max) {
-    if (value < limit_min || value > limit_max)
+    if (!(value >= limit_min && value <= limit_max))
         throw std::domain_error("Attribute value out of range. Range: [" +
                                 std::to_string(limit_min) + " ; " +
                                 std::to_string(limit_max) + "]");
-- 
2.43.0


From f27edcee8e5fa36d66340b37b336badcba54b74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:06 +0000
Subject: [PATCH 46/62] fix: shared parameters can be switched to bimodal again

---
 src/core/model/xmmModelSharedParameters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/model/xmmModelSharedParameters.cpp b/src/core/model/xmmModelSharedParameters.cpp
index 4653d56..25ac7ca 100644
--- a/src/core/model/xmmModelSharedParameters.cpp
+++ b/src/core/model/xmmModelSharedParameters.cpp
@@ -146,7 +146,7 @@ void xmm::SharedParameters::onAttributeChange(AttributeBase* attr_pointer) {
         if (bimodal.get()) {
             dimension.setLimitMin(2);
             if (dimension.get() < 2) dimension.set(2);
-            dimension_input.setLimitMin(1);
+            dimension_input.setLimits(1, dimension.get() - 1);
             if (dimension_input.get() < 1) dimension_input.set(1);
         } else {
             dimension.setLimitMin(1);
-- 
2.43.0


From 04398756707c7bd455c3c486847392ad04ecd255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:20 +0000
Subject: [PATCH 47/62] fix: adding or removing a class keeps the exit
 probabilities of the other classes

---
 src/models/hmm/xmmHierarchicalHmm.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/models/hmm/xmmHierarchicalHmm.cpp b/src/models/hmm/xmmHierarchicalHmm.cpp
index 3911a68..6f57a64 100644
--- a/src/models/hmm/xmmHierarchicalHmm.cpp
+++ b/src/models/hmm/xmmHierarchicalHmm.cpp
@@ -134,7 +134,10 @@ void xmm::HierarchicalHMM::updateTransition() {
 
 void xmm::HierarchicalHMM::updateExitProbabilities() {
     for (auto &model : models) {
-        if (model.second.is_hierarchical_ && !model.second.isTraining())
+        // the exit probabilities of the trained classes are kept
+        if (model.second.is_hierarchical_ && !model.second.isTraining() &&
+            model.second.exit_probabilities_.size() !=
+                model.second.parameters.states.get())
             model.second.updateExitProbabilities();
     }
 }
-- 
2.43.0


From 856c9e3512edd48f687db04b149890d94024dd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:46 +0000
Subject: [PATCH 48/62] fix: the training progression starts at 0 and does not
 exceed 1

---
 src/core/model/xmmModelSingleClass.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/model/xmmModelSingleClass.cpp b/src/core/model/xmmModelSingleClass.cpp
index 3b9e1b7..ffac71a 100644
--- a/src/core/model/xmmModelSingleClass.cpp
+++ b/src/core/model/xmmModelSingleClass.cpp
@@ -135,6 +135,7 @@ void xmm::SingleClassProbabilisticModel::train(TrainingSet* trainingSet) {
     training_status.label = label;
     training_status.log_likelihood = -std::numeric_limits<double>::max();
     training_status.iterations = 0;
+    training_status.progression = 0.f;
     double old_log_prob = training_status.log_likelihood;
 
     while (!emAlgorithmHasConverged(training_status.iterations,
@@ -176,6 +177,8 @@ void xmm::SingleClassProbabilisticModel::train(TrainingSet* trainingSet) {
             training_status.progression =
                 float(training_status.iterations) /
                 float(shared_parameters->em_algorithm_min_iterations.get());
+        // the minimum number of iterations can be exceeded
+        if (training_status.progression > 1.f) training_status.progression = 1.f;
 
         training_events.notifyListeners(training_status);
     }
-- 
2.43.0


From 5a0e02ca785d686f6acde6f8665f0862157ffbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:32 +0000
Subject: [PATCH 49/62] fix: default phrases and parameters have as many column
 names as dimensions

---
 src/core/model/xmmModelSharedParameters.cpp | 1 +
 src/core/trainingset/xmmPhrase.cpp          | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/core/model/xmmModelSharedParameters.cpp b/src/core/model/xmmModelSharedParameters.cpp
index 25ac7ca..85c87c2 100644
--- a/src/core/model/xmmModelSharedParameters.cpp
+++ b/src/core/model/xmmModelSharedParameters.cpp
@@ -56,6 +56,7 @@ xmm::SharedParameters::SharedParameters()
         this, &xmm::SharedParameters::onAttributeChange);
     column_names.onAttributeChange(this,
                                    &xmm::SharedParameters::onAttributeChange);
+    column_names.resize(dimension.get());
 }
 
 xmm::SharedParameters::SharedParameters(SharedParameters const& src)
diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index 7486ab3..330bb04 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -49,6 +49,7 @@ xmm::Phrase::Phrase(MemoryMode memoryMode, Multimodality multimodality)
     dimension.set((bimodal_) ? 2 : 1, true);
     dimension_input.setLimits((bimodal_) ? 1 : 0, (bimodal_) ? 2 : 0);
     dimension_input.set((bimodal_) ? 1 : 0, true);
+    column_names.resize(dimension.get());
     data_ = new float*[bimodal_ ? 2 : 1];
     data_[0] = NULL;
     if (bimodal_) data_[1] = NULL;
-- 
2.43.0


From 9ce8c76864b8b97d2bd219daceac54767430af9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 50/62] fix: unimodal objects have no input dimension

---
 src/core/distributions/xmmGaussianDistribution.cpp | 2 +-
 src/core/model/xmmModelSharedParameters.cpp        | 2 +-
 src/core/trainingset/xmmPhrase.cpp                 | 2 +-
 src/core/trainingset/xmmTrainingSet.cpp            | 5 +++--
 4 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index bcb261f..9d5258c 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -148,7 +148,7 @@ xmm::GaussianDistribution& xmm::GaussianDistribution::operator=(
 
 void xmm::GaussianDistribution::onAttributeChange(AttributeBase* attr_pointer) {
     if (attr_pointer == &dimension) {
-        dimension_input.setLimitMax(dimension.get() - 1);
+        dimension_input.setLimitMax(bimodal_ ? dimension.get() - 1 : 0);
         if (dimension_input.get() > dimension.get() - 1)
             dimension_input.set(dimension.get() - 1, true);
     }
diff --git a/src/core/model/xmmModelSharedParameters.cpp b/src/core/model/xmmModelSharedParameters.cpp
index 85c87c2..16c201a 100644
--- a/src/core/model/xmmModelSharedParameters.cpp
+++ b/src/core/model/xmmModelSharedParameters.cpp
@@ -156,7 +156,7 @@ void xmm::SharedParameters::onAttributeChange(AttributeBase* attr_pointer) {
             dimension_input.set(0);
         }
     } else if (attr_pointer == &dimension) {
-        dimension_input.setLimitMax(dimension.get() - 1);
+        dimension_input.setLimitMax(bimodal.get() ? dimension.get() - 1 : 0);
         if (dimension_input.get() > dimension.get() - 1)
             dimension_input.set(dimension.get() - 1);
         column_names.resize(dimension.get());
diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index 330bb04..66cec12 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -595,7 +595,7 @@ void xmm::Phrase::onAttributeChange(xmm::AttributeBase* attr_pointer) {
         column_names.resize(dimension.get());
     }
     if (attr_pointer == &dimension) {
-        dimension_input.setLimitMax(dimension.get() - 1);
+        dimension_input.setLimitMax(bimodal_ ? dimension.get() - 1 : 0);
         if (dimension_input.get() > dimension.get() - 1)
             dimension_input.set(dimension.get() - 1, true);
     }
diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index 3f496f7..15bbe20 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -164,13 +164,14 @@ void xmm::TrainingSet::onAttributeChange(xmm::AttributeBase *attr_pointer) {
              it != sub_training_sets_.end(); ++it) {
             it->second.dimension.set(dimension.get(), true);
             it->second.column_names.resize(dimension.get());
-            it->second.dimension_input.setLimitMax(dimension.get() - 1);
+            it->second.dimension_input.setLimitMax(
+                bimodal_ ? dimension.get() - 1 : 0);
             if (it->second.dimension_input.get() > dimension.get() - 1)
                 it->second.dimension_input.set(dimension.get() - 1, true);
         }
 
         column_names.resize(dimension.get());
-        dimension_input.setLimitMax(dimension.get() - 1);
+        dimension_input.setLimitMax(bimodal_ ? dimension.get() - 1 : 0);
         if (dimension_input.get() > dimension.get() - 1)
             dimension_input.set(dimension.get() - 1, true);
     }
-- 
2.43.0


From 80d26c85275016b1b3772cc2447685f416672d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 51/62] fix: write large parameter values to JSON as positive
 numbers

---
 src/core/model/xmmModelSharedParameters.cpp | 2 +-
 src/models/gmm/xmmGmmParameters.cpp         | 2 +-
 src/models/hmm/xmmHmmParameters.cpp         | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/model/xmmModelSharedParameters.cpp b/src/core/model/xmmModelSharedParameters.cpp
index 16c201a..f021801 100644
--- a/src/core/model/xmmModelSharedParameters.cpp
+++ b/src/core/model/xmmModelSharedParameters.cpp
@@ -129,7 +129,7 @@ Json::Value xmm::SharedParameters::toJson() const {
     root["em_algorithm_min_iterations"] = em_algorithm_min_iterations.get();
     root["em_algorithm_max_iterations"] = em_algorithm_max_iterations.get();
     root["em_algorithm_percent_chg"] = em_algorithm_percent_chg.get();
-    root["likelihood_window"] = static_cast<int>(likelihood_window.get());
+    root["likelihood_window"] = likelihood_window.get();
     return root;
 }
 
diff --git a/src/models/gmm/xmmGmmParameters.cpp b/src/models/gmm/xmmGmmParameters.cpp
index c9ebae7..4047923 100644
--- a/src/models/gmm/xmmGmmParameters.cpp
+++ b/src/models/gmm/xmmGmmParameters.cpp
@@ -109,7 +109,7 @@ xmm::ClassParameters<xmm::GMM>& xmm::ClassParameters<xmm::GMM>::operator=(
 
 Json::Value xmm::ClassParameters<xmm::GMM>::toJson() const {
     Json::Value root;
-    root["gaussians"] = static_cast<int>(gaussians.get());
+    root["gaussians"] = gaussians.get();
     root["relative_regularization"] = relative_regularization.get();
     root["absolute_regularization"] = absolute_regularization.get();
     root["covariance_mode"] = static_cast<int>(covariance_mode.get());
diff --git a/src/models/hmm/xmmHmmParameters.cpp b/src/models/hmm/xmmHmmParameters.cpp
index 9f5fa96..4f3eb6c 100644
--- a/src/models/hmm/xmmHmmParameters.cpp
+++ b/src/models/hmm/xmmHmmParameters.cpp
@@ -137,8 +137,8 @@ xmm::ClassParameters<xmm::HMM>& xmm::ClassParameters<xmm::HMM>::operator=(
 
 Json::Value xmm::ClassParameters<xmm::HMM>::toJson() const {
     Json::Value root;
-    root["states"] = static_cast<int>(states.get());
-    root["gaussians"] = static_cast<int>(gaussians.get());
+    root["states"] = states.get();
+    root["gaussians"] = gaussians.get();
     root["relative_regularization"] = relative_regularization.get();
     root["absolute_regularization"] = absolute_regularization.get();
     root["covariance_mode"] = static_cast<int>(covariance_mode.get());
-- 
2.43.0


From 1a0f02a7b883d31247a8bd27c4a25d6059eeceb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 52/62] fix: check the size of the covariance before reading a
 gaussian

---
 src/core/distributions/xmmGaussianDistribution.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index 9d5258c..6a85f57 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -96,6 +96,12 @@ xmm::GaussianDistribution::GaussianDistribution(Json::Value const& root)
     if (root["mean"].size() != dimension.get())
         throw JsonException(JsonException::JsonErrorType::JsonValueError,
                             "mean");
+    unsigned long long covariance_size = dimension.get();
+    if (covariance_mode.get() == CovarianceMode::Full)
+        covariance_size *= dimension.get();
+    if (root["covariance"].size() != covariance_size)
+        throw JsonException(JsonException::JsonErrorType::JsonValueError,
+                            "covariance");
     allocate();
 
     json2vector(root["mean"], mean, mean.size());
-- 
2.43.0


From 78f2c8ea42abc866283de4775367e0cfe04eaa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 53/62] fix: resize the output covariance of gaussians with
 their dimensions

---
 src/core/distributions/xmmGaussianDistribution.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/distributions/xmmGaussianDistribution.cpp b/src/core/distributions/xmmGaussianDistribution.cpp
index 6a85f57..d2cbcde 100644
--- a/src/core/distributions/xmmGaussianDistribution.cpp
+++ b/src/core/distributions/xmmGaussianDistribution.cpp
@@ -395,6 +395,12 @@ void xmm::GaussianDistribution::allocate() {
         inverse_covariance_.resize(dimension.get());
         if (bimodal_) inverse_covariance_input_.resize(dimension_input.get());
     }
+    if (bimodal_) {
+        unsigned int dimension_output = dimension.get() - dimension_input.get();
+        output_covariance.resize(covariance_mode.get() == CovarianceMode::Full
+                                     ? dimension_output * dimension_output
+                                     : dimension_output);
+    }
 }
 
 void xmm::GaussianDistribution::regularize(std::vector<double> regularization) {
-- 
2.43.0


From 8dd7e926bed6fb67237fdaafc0369b12628ff55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:23 +0000
Subject: [PATCH 54/62] fix: wait for the thread of an ended class before
 retraining or removing it

---
 src/core/model/xmmModel.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/core/model/xmmModel.hpp b/src/core/model/xmmModel.hpp
index 4ddb926..e413c12 100644
--- a/src/core/model/xmmModel.hpp
+++ b/src/core/model/xmmModel.hpp
@@ -217,7 +217,13 @@ class Model : public Writable {
                 throw std::out_of_range("Class " + label + " does not exist");
         }
         cancelTraining(label);
-        std::lock_guard<std::mutex> lock(event_mutex_);
+        std::unique_lock<std::mutex> lock(event_mutex_);
+        while (is_joining_ || (!is_training_ && joining_thread_.joinable())) {
+            // the training is being finished by another thread
+            lock.unlock();
+            waitForJoining();
+            lock.lock();
+        }
         // a class which training is cancelled can be already removed
         models.erase(label);
         updateClasses();
@@ -334,7 +340,9 @@ class Model : public Writable {
     void cancelTraining(std::string const& label) {
         std::unique_lock<std::mutex> lock(event_mutex_);
         auto it = models.find(label);
-        if (is_training_ && it != models.end() && it->second.isTraining()) {
+        // the thread of a class which training has ended can still use the class
+        if (is_training_ && it != models.end() &&
+            (it->second.isTraining() || training_threads_.count(label) > 0)) {
             it->second.cancelTraining();
             // the training is not finished by another thread in the meantime
             pending_cancels_++;
-- 
2.43.0


From 44fde0e30c0c8d2dcead15ca74242db3ac96a060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:22 +0000
Subject: [PATCH 55/62] fix: the likeliest cluster of an unused KMeans is
 initialized

---
 src/models/kmeans/xmmKMeansResults.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/kmeans/xmmKMeansResults.hpp b/src/models/kmeans/xmmKMeansResults.hpp
index f327286..2f32f31 100644
--- a/src/models/kmeans/xmmKMeansResults.hpp
+++ b/src/models/kmeans/xmmKMeansResults.hpp
@@ -50,7 +50,7 @@ struct Results<KMeans> {
     /**
      @brief Likeliest Cluster
      */
-    unsigned int likeliest;
+    unsigned int likeliest = 0;
 };
 }
 
-- 
2.43.0


From e75cffc921c991d788ac50ce9ca08989828da2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:11 +0000
Subject: [PATCH 56/62] Revert "fix: reading a configuration from JSON sets its
 values"

The line it added repeats the previous one and changes nothing.
---
 src/core/model/xmmModelConfiguration.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/core/model/xmmModelConfiguration.hpp b/src/core/model/xmmModelConfiguration.hpp
index 43d8430..6614fc8 100644
--- a/src/core/model/xmmModelConfiguration.hpp
+++ b/src/core/model/xmmModelConfiguration.hpp
@@ -206,7 +206,6 @@ class Configuration : public ClassParameters<ModelType> {
         try {
             Configuration<ModelType> tmp(root);
             *this = tmp;
-            *this = tmp;
         } catch (JsonException& e) {
             throw e;
         }
-- 
2.43.0


From a2f025ae8f294d7a3e194de44432ea084e69dde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 57/62] fix: smoothed likelihoods of hierarchical HMMs stay
 finite when a class underflows

---
 src/models/hmm/xmmHmmSingleClass.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/models/hmm/xmmHmmSingleClass.cpp b/src/models/hmm/xmmHmmSingleClass.cpp
index 4a0e07d..b67a2dd 100644
--- a/src/models/hmm/xmmHmmSingleClass.cpp
+++ b/src/models/hmm/xmmHmmSingleClass.cpp
@@ -31,6 +31,8 @@
  */
 
 #include "xmmHmmSingleClass.hpp"
+#include <algorithm>
+#include <limits>
 
 xmm::SingleClassHMM::SingleClassHMM(std::shared_ptr<SharedParameters> p)
     : SingleClassProbabilisticModel(p), is_hierarchical_(true) {}
@@ -1315,7 +1317,9 @@ void xmm::SingleClassHMM::regression(
 }
 
 void xmm::SingleClassHMM::updateResults() {
-    likelihood_buffer_.push(log(results.instant_likelihood));
+    // the likelihood of a class can underflow in a hierarchical model
+    likelihood_buffer_.push(log(std::max(results.instant_likelihood,
+                                         std::numeric_limits<double>::min())));
     results.log_likelihood = 0.0;
     unsigned int bufSize = likelihood_buffer_.size_t();
     for (unsigned int i = 0; i < bufSize; i++) {
-- 
2.43.0


From 91bdd646bc64ef8fda964762d1f6fb698c425146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:01 +0000
Subject: [PATCH 58/62] fix: a bimodal phrase or training set of two dimensions
 refuses two input dimensions

---
 src/core/trainingset/xmmPhrase.cpp      | 2 +-
 src/core/trainingset/xmmTrainingSet.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/trainingset/xmmPhrase.cpp b/src/core/trainingset/xmmPhrase.cpp
index 66cec12..98bdbc2 100644
--- a/src/core/trainingset/xmmPhrase.cpp
+++ b/src/core/trainingset/xmmPhrase.cpp
@@ -47,7 +47,7 @@ xmm::Phrase::Phrase(MemoryMode memoryMode, Multimodality multimodality)
     label.onAttributeChange(this, &xmm::Phrase::onAttributeChange);
     dimension.setLimitMin((bimodal_) ? 2 : 1);
     dimension.set((bimodal_) ? 2 : 1, true);
-    dimension_input.setLimits((bimodal_) ? 1 : 0, (bimodal_) ? 2 : 0);
+    dimension_input.setLimits((bimodal_) ? 1 : 0, (bimodal_) ? 1 : 0);
     dimension_input.set((bimodal_) ? 1 : 0, true);
     column_names.resize(dimension.get());
     data_ = new float*[bimodal_ ? 2 : 1];
diff --git a/src/core/trainingset/xmmTrainingSet.cpp b/src/core/trainingset/xmmTrainingSet.cpp
index 15bbe20..1a85dc9 100644
--- a/src/core/trainingset/xmmTrainingSet.cpp
+++ b/src/core/trainingset/xmmTrainingSet.cpp
@@ -44,7 +44,7 @@ xmm::TrainingSet::TrainingSet(MemoryMode memoryMode,
 
     dimension.setLimitMin((bimodal_) ? 2 : 1);
     dimension.set((bimodal_) ? 2 : 1, true);
-    dimension_input.setLimits((bimodal_) ? 1 : 0, (bimodal_) ? 2 : 0);
+    dimension_input.setLimits((bimodal_) ? 1 : 0, (bimodal_) ? 1 : 0);
     dimension_input.set((bimodal_) ? 1 : 0, true);
     column_names.resize(dimension.get());
 }
@@ -82,7 +82,7 @@ xmm::TrainingSet::TrainingSet(Json::Value const &root)
     bimodal_ = root.get("bimodal", false).asBool();
 
     dimension.setLimitMin((bimodal_) ? 2 : 1);
-    dimension_input.setLimits((bimodal_) ? 1 : 0, (bimodal_) ? 2 : 0);
+    dimension_input.setLimits((bimodal_) ? 1 : 0, (bimodal_) ? 1 : 0);
     dimension.set(root.get("dimension", bimodal_ ? 2 : 1).asUInt());
     dimension_input.set(root.get("dimension_input", bimodal_ ? 1 : 0).asUInt());
     if (root["column_names"].size() > dimension.get())
-- 
2.43.0


From 590288294a92f48e6b7829921f522b7b147e6688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:13 +0000
Subject: [PATCH 59/62] fix: write large k-means parameter values to JSON as
 positive numbers

---
 src/models/kmeans/xmmKMeansParameters.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/models/kmeans/xmmKMeansParameters.cpp b/src/models/kmeans/xmmKMeansParameters.cpp
index c85f2d0..8627aed 100644
--- a/src/models/kmeans/xmmKMeansParameters.cpp
+++ b/src/models/kmeans/xmmKMeansParameters.cpp
@@ -86,8 +86,8 @@ xmm::ClassParameters<xmm::KMeans>& xmm::ClassParameters<xmm::KMeans>::operator=(
 
 Json::Value xmm::ClassParameters<xmm::KMeans>::toJson() const {
     Json::Value root;
-    root["clusters"] = static_cast<int>(clusters.get());
-    root["max_iterations"] = static_cast<int>(max_iterations.get());
+    root["clusters"] = clusters.get();
+    root["max_iterations"] = max_iterations.get();
     root["relative_distance_threshold"] = relative_distance_threshold.get();
     return root;
 }
-- 
2.43.0


From ad2bbeabe59d38332a748284c2579e270fecfac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:52 +0000
Subject: [PATCH 60/62] fix: write member names with embedded zero characters
 in full in the styled JSON writers

---
 dependencies/jsoncpp/src/json_writer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dependencies/jsoncpp/src/json_writer.cpp b/dependencies/jsoncpp/src/json_writer.cpp
index 0751b06..69deefb 100755
--- a/dependencies/jsoncpp/src/json_writer.cpp
+++ b/dependencies/jsoncpp/src/json_writer.cpp
@@ -445,7 +445,8 @@ void StyledWriter::writeValue(const Value& value) {
         const std::string& name = *it;
         const Value& childValue = value[name];
         writeCommentBeforeValue(childValue);
-        writeWithIndent(valueToQuotedString(name.c_str()));
+        writeWithIndent(valueToQuotedStringN(
+            name.data(), static_cast<unsigned>(name.length())));
         document_ += " : ";
         writeValue(childValue);
         if (++it == members.end()) {
@@ -662,7 +663,8 @@ void StyledStreamWriter::writeValue(const Value& value) {
         const std::string& name = *it;
         const Value& childValue = value[name];
         writeCommentBeforeValue(childValue);
-        writeWithIndent(valueToQuotedString(name.c_str()));
+        writeWithIndent(valueToQuotedStringN(
+            name.data(), static_cast<unsigned>(name.length())));
         *document_ << " : ";
         writeValue(childValue);
         if (++it == members.end()) {
-- 
2.43.0


From 5d25167d86a5f4bf59002602a6b787f538bede13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:59 +0000
Subject: [PATCH 61/62] fix: a resized matrix uses its new storage

---
 src/core/common/xmmMatrix.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/common/xmmMatrix.hpp b/src/core/common/xmmMatrix.hpp
index ddef395..af154b3 100644
--- a/src/core/common/xmmMatrix.hpp
+++ b/src/core/common/xmmMatrix.hpp
@@ -152,6 +152,7 @@ class Matrix {
         nrows = nrows_;
         ncols = ncols_;
         _data.resize(nrows * ncols);
+        if (ownData) data = _data.begin();
     }
 
     /**
@@ -164,6 +165,7 @@ class Matrix {
         nrows = nrows_;
         ncols = nrows;
         _data.resize(nrows * ncols);
+        if (ownData) data = _data.begin();
     }
 
     /**
-- 
2.43.0


From fa819767b89d615c0f93f8f5c830db99f873bd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:02 +0000
Subject: [PATCH 62/62] fix: a copied matrix owns its data

---
 src/core/common/xmmMatrix.hpp | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/core/common/xmmMatrix.hpp b/src/core/common/xmmMatrix.hpp
index af154b3..6feb620 100644
--- a/src/core/common/xmmMatrix.hpp
+++ b/src/core/common/xmmMatrix.hpp
@@ -142,6 +142,35 @@ class Matrix {
         data = data_it;
     }
 
+    /**
+     @brief Copy constructor
+     @param src source matrix (its data is copied if the source owns it, and
+     shared otherwise)
+     */
+    Matrix(Matrix const& src)
+        : nrows(src.nrows),
+          ncols(src.ncols),
+          _data(src._data),
+          data(src.data),
+          ownData(src.ownData) {
+        if (ownData) data = _data.begin();
+    }
+
+    /**
+     @brief Assignment
+     @param src source matrix
+     */
+    Matrix& operator=(Matrix const& src) {
+        if (this != &src) {
+            nrows = src.nrows;
+            ncols = src.ncols;
+            _data = src._data;
+            ownData = src.ownData;
+            data = ownData ? _data.begin() : src.data;
+        }
+        return *this;
+    }
+
     /**
      @brief Resize the matrix
      @param nrows_ Number of rows
-- 
2.43.0

