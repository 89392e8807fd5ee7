From a9c6a1f4fb1a1e3e916320597142c792b79d6376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:10:08 +0000
Subject: [PATCH 01/55] fix: drop PAA data together with the dataset it was
 built from

Unloading a dataset kept its PAA data when it had any, so a dataset loaded
later under the same name was searched through a dangling reference.
Unloading all datasets never released PAA data.
---
 genex/GenexAPI.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/genex/GenexAPI.cpp b/genex/GenexAPI.cpp
index 638c498..cae7795 100644
--- a/genex/GenexAPI.cpp
+++ b/genex/GenexAPI.cpp
@@ -62,7 +62,7 @@ void GenexAPI::unloadDataset(const string& name)
   this->_loadedDatasets[name] = nullptr;
   this->_loadedDatasets.erase(name);
 
-  if (this->_paaWrappers.find(name) == this->_paaWrappers.end())
+  if (this->_paaWrappers.find(name) != this->_paaWrappers.end())
   {
     delete this->_paaWrappers[name];
     this->_paaWrappers[name] = nullptr;
@@ -78,6 +78,11 @@ void GenexAPI::unloadAllDataset()
     delete this->_loadedDatasets[pair.first];
   }
   this->_loadedDatasets.clear();
+  for (auto const& pair : this->_paaWrappers)
+  {
+    delete pair.second;
+  }
+  this->_paaWrappers.clear();
   this->_datasetCount = 0;
 }
 
-- 
2.43.0


From 89862b27f2b2b309a1ae14be27ba371e56eb2a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:10:39 +0000
Subject: [PATCH 02/55] fix: use each series' own length when computing and
 searching PAA data

The length was looked up with the maximum length as series index, which reads
past the end of the list of lengths, and a single length was applied to all
series.
---
 genex/PAAWrapper.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/genex/PAAWrapper.cpp b/genex/PAAWrapper.cpp
index 355411e..928d917 100644
--- a/genex/PAAWrapper.cpp
+++ b/genex/PAAWrapper.cpp
@@ -6,6 +6,7 @@
 #include "distance/Distance.hpp"
 
 using std::vector;
+using std::max;
 using std::min;
 using std::cout;
 using std::endl;
@@ -49,11 +50,11 @@ void PAAWrapper::generatePAAMatrix(int blockSize)
     throw GenexException("Block size for PAA must be positive");
   }
  
-  int itemLength = dataset.getItemLength(dataset.getMaxLength());
-  blockSize = min(blockSize, itemLength);
+  blockSize = min(blockSize, max(dataset.getMaxLength(), 1));
   for (int i = 0; i < dataset.getItemCount(); i++) {
+    int itemLength = dataset.getItemLength(i);
     this->paaMat[i].clear();
-    for (int offset = 0; offset < blockSize; offset++) {
+    for (int offset = 0; offset < min(blockSize, itemLength); offset++) {
       TimeSeries paaTS = tsPAA(dataset.getTimeSeries(i, offset, itemLength), blockSize);      
       this->paaMat[i].push_back(paaTS);
     }
@@ -106,13 +107,13 @@ vector<candidate_time_series_t> PAAWrapper::getKBestMatchesPAA(
 
   auto warpedDistance = getDistanceFromName(distanceName + DTW_SUFFIX);
   data_t bestSoFarDist, currentDist;
-  auto timeSeriesLength = dataset.getItemLength(dataset.getMaxLength());
   auto numberTimeSeries = dataset.getItemCount();
   auto paaQuery = tsPAA(query, this->blockSize);
 
   // iterate through every timeseries
   for (int idx = 0; idx < numberTimeSeries; idx++)
   {
+    auto timeSeriesLength = dataset.getItemLength(idx);
     // iterate through every length of interval
     for (int intervalLength = 2; intervalLength <= timeSeriesLength;
         intervalLength++) 
-- 
2.43.0


From 8ead0f337396a9c6cc05515399994fb25e37f102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:10:39 +0000
Subject: [PATCH 03/55] fix: leave PAA data alone when preparing it fails

A rejected block size registered a half-built PAA object, and the next PAA
query divided by its uninitialised block size.
---
 genex/GenexAPI.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/genex/GenexAPI.cpp b/genex/GenexAPI.cpp
index cae7795..0e9f757 100644
--- a/genex/GenexAPI.cpp
+++ b/genex/GenexAPI.cpp
@@ -6,6 +6,7 @@
 #include "distance/Distance.hpp"
 #include "IO.hpp"
 
+#include <memory>
 #include <vector>
 #include <iostream>
 
@@ -223,15 +224,12 @@ GenexAPI::getKBestMatchesBruteForce(int k, const string& target_name, const stri
 
 void GenexAPI::preparePAA(const string& name, int blockSize) {
   this->_checkDatasetName(name);
-  PAAWrapper* wrapper;
-  if (this->_paaWrappers.find(name) != this->_paaWrappers.end()) {
-    wrapper = this->_paaWrappers[name];
-  }
-  else {
-    wrapper = new PAAWrapper(*(this->_loadedDatasets[name]));
-    this->_paaWrappers[name] = wrapper;
-  }
+  // Only replace the current PAA data once the new one is complete
+  std::unique_ptr<PAAWrapper> wrapper(new PAAWrapper(*(this->_loadedDatasets[name])));
   wrapper->generatePAAMatrix(blockSize);
+  auto& slot = this->_paaWrappers[name];
+  delete slot;
+  slot = wrapper.release();
 }
 
 vector<candidate_time_series_t>
-- 
2.43.0


From d662f3ced39e3fb6555ac381dad07929d85181c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:10:39 +0000
Subject: [PATCH 04/55] fix: start the average of a sequence from zero

The sum was uninitialised. Also give an empty sequence an empty PAA instead of
a made-up single block.
---
 genex/PAAWrapper.cpp | 2 +-
 genex/TimeSeries.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/genex/PAAWrapper.cpp b/genex/PAAWrapper.cpp
index 928d917..95b0e80 100644
--- a/genex/PAAWrapper.cpp
+++ b/genex/PAAWrapper.cpp
@@ -29,7 +29,7 @@ TimeSeries tsPAA(const TimeSeries& source, int blockSize)
   data_t sum = 0;
   int count = 0;
   int srcLength = source.getLength();
-  int destLength = (srcLength - 1) / blockSize + 1;
+  int destLength = srcLength > 0 ? (srcLength - 1) / blockSize + 1 : 0;
   TimeSeries dest(destLength);
   for (int i = 0; i < srcLength; i++)
   {
diff --git a/genex/TimeSeries.cpp b/genex/TimeSeries.cpp
index a672d95..2da351c 100755
--- a/genex/TimeSeries.cpp
+++ b/genex/TimeSeries.cpp
@@ -166,7 +166,7 @@ bool TimeSeries::operator==(const TimeSeries& other) const
 }
 
 data_t TimeSeries::average() {
-  data_t sum;
+  data_t sum = 0;
   for (int i = 0; i < this->length; i++) {
     sum += data[this->start + i];
   }
-- 
2.43.0


From 434e0b75833526f49bc28a4ac323dc322f7a37c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:10:39 +0000
Subject: [PATCH 05/55] fix: recompute PAA data when the dataset is normalised

PAA queries kept using block averages of the values before normalisation.
---
 genex/GenexAPI.cpp   | 7 ++++++-
 genex/PAAWrapper.hpp | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/genex/GenexAPI.cpp b/genex/GenexAPI.cpp
index 0e9f757..07102a0 100644
--- a/genex/GenexAPI.cpp
+++ b/genex/GenexAPI.cpp
@@ -149,7 +149,12 @@ TimeSeries GenexAPI::getTimeSeries(const string& name, int idx, int start, int e
 std::pair<data_t, data_t> GenexAPI::normalizeDataset(const string& name)
 {
   this->_checkDatasetName(name);
-  return this->_loadedDatasets[name]->normalize();
+  auto range = this->_loadedDatasets[name]->normalize();
+  if (this->_paaWrappers.find(name) != this->_paaWrappers.end()) {
+    // The averages were computed from the old values
+    this->preparePAA(name, this->_paaWrappers[name]->getBlockSize());
+  }
+  return range;
 }
 
 int GenexAPI::groupDataset(
diff --git a/genex/PAAWrapper.hpp b/genex/PAAWrapper.hpp
index 8d53a63..d87d227 100644
--- a/genex/PAAWrapper.hpp
+++ b/genex/PAAWrapper.hpp
@@ -28,6 +28,8 @@ public:
    */
   void generatePAAMatrix(int blockSize);
 
+  int getBlockSize() const { return this->blockSize; }
+
   /**
    * @brief Get the PAA version of a time series in the associated dataset
    * 
-- 
2.43.0


From d61efe6fade7a90529808a09f585680dd1982fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:11:42 +0000
Subject: [PATCH 06/55] fix: only build a matching when the caller asked for
 one

Every warped distance appended its alignment to the global dummy matching and
reversed it, so queries became slower and used more memory with each call.
---
 genex/distance/Distance.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index ea6f3a3..51c665c 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -178,8 +178,8 @@ data_t warpedDistance(
     result = ncost[m - 1][n - 1];
   }
 
-  int i = m - 1;
-  int j = n - 1;
+  int i = computeMatching ? m - 1 : 0;
+  int j = computeMatching ? n - 1 : 0;
   while ((i != 0) || (j != 0)) {
     matching.push_back(coord_t {i, j});
     if (i == 0) {
@@ -207,8 +207,10 @@ data_t warpedDistance(
       }
     }
   }
-  matching.push_back(coord_t {0, 0});
-  std::reverse(matching.begin(), matching.end());
+  if (computeMatching) {
+    matching.push_back(coord_t {0, 0});
+    std::reverse(matching.begin(), matching.end());
+  }
   for(int i = 1; i < m; i++)
   {
     for(int j = 1; j < n; j++)
-- 
2.43.0


From 6fd1a90ea65f689ce4fb3d96a05a8e5ff0147279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:11:42 +0000
Subject: [PATCH 07/55] fix: release the first row and column of the warping
 cost matrix

Their intermediate values were leaked for distances that allocate them.
---
 genex/distance/Distance.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index 51c665c..1ccbd8f 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -211,9 +211,9 @@ data_t warpedDistance(
     matching.push_back(coord_t {0, 0});
     std::reverse(matching.begin(), matching.end());
   }
-  for(int i = 1; i < m; i++)
+  for(int i = 0; i < m; i++)
   {
-    for(int j = 1; j < n; j++)
+    for(int j = 0; j < n; j++)
     {
       metric->clean(cost[i][j]);
     }
-- 
2.43.0


From 63a7d311308083e3e227f9fe9a9562712d07c50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:11:42 +0000
Subject: [PATCH 08/55] fix: keep alignments inside the warping band

Cells outside the band had cost zero, so a matching could run through them, and
the first row and column were filled beyond the band, which made distances to
sequences of length one finite when they should not be.
---
 genex/distance/Distance.hpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index 1ccbd8f..8e5d0a9 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -106,20 +106,17 @@ data_t warpedDistance(
     return normalizedResult;
   }
 
-  // create cost matrix
+  // create cost matrix. Cells that are never reached due to the warping band
+  // constraint keep an infinite cost
   vector< vector< T >> cost(m, vector< T >(n));
-  vector< vector< data_t >> ncost(m, vector<data_t>(n));
-
-  // Preset this in case this cell is never reached due to the warping
-  // band constraint
-  ncost[m - 1][n - 1] = INF;
+  vector< vector< data_t >> ncost(m, vector<data_t>(n, INF));
 
   cost[0][0] = metric->init();
   cost[0][0] = metric->reduce(cost[0][0], cost[0][0], a[0], b[0]);
   ncost[0][0] = metric->normDTW(cost[0][0], a, b);
 
   // calculate first column
-  for(int i = 1; i < min(2*r + 1, m); i++)
+  for(int i = 1; i < min(r + 1, m); i++)
   {
     cost[i][0] = metric->init();
     cost[i][0] = metric->reduce(cost[i][0], cost[i-1][0], a[i], b[0]);
@@ -127,7 +124,7 @@ data_t warpedDistance(
   }
 
   // calculate first row
-  for(int j = 1; j < min(2*r + 1, n); j++)
+  for(int j = 1; j < min(r + 1, n); j++)
   {
     cost[0][j] = metric->init();
     cost[0][j] = metric->reduce(cost[0][j], cost[0][j-1], a[0], b[j]);
-- 
2.43.0


From ec2c5847a9b174f03ea9adc8949726c64a2e1dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:11:42 +0000
Subject: [PATCH 09/55] fix: report the matching of two single points

---
 genex/distance/Distance.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index 8e5d0a9..5702ebd 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -103,6 +103,9 @@ data_t warpedDistance(
     result = metric->reduce(result, result, a[0], b[0]);
     auto normalizedResult = metric->normDTW(result, a, b);
     metric->clean(result);
+    if (computeMatching) {
+      matching.push_back(coord_t {0, 0});
+    }
     return normalizedResult;
   }
 
-- 
2.43.0


From d5f2f675f94af8aa1958714d2c5015cf3c6ab70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:11:42 +0000
Subject: [PATCH 10/55] fix: reject empty sequences in warped distances

They were read past the end of the cost matrix.
---
 genex/distance/Distance.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index 5702ebd..a6e09c5 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -89,6 +89,9 @@ data_t warpedDistance(
   bool computeMatching = matching.empty(); 
   auto m = a.getLength();
   auto n = b.getLength();
+  if (m == 0 || n == 0) {
+    throw GenexException("Time series must not be empty for warped distance");
+  }
   auto r = calculateWarpingBandSize(max(m, n));
   
   static DM* metric;
-- 
2.43.0


From 058fdb35ed9d40239f10f13661186407a162a239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:11:42 +0000
Subject: [PATCH 11/55] fix: create shared distance objects exactly once

Worker threads of a multi-threaded grouping raced on creating them.
---
 genex/distance/Distance.hpp | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index a6e09c5..a2f9b73 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -94,10 +94,7 @@ data_t warpedDistance(
   }
   auto r = calculateWarpingBandSize(max(m, n));
   
-  static DM* metric;
-  if (metric == nullptr) {
-    metric = new DM();
-  }
+  static DM* metric = new DM();
 
   // Fastpath for base intervals
   if (m == 1 && n == 1)
@@ -242,11 +239,7 @@ pairwiseDistance(
     throw GenexException("Two time series must have the same length for pairwise distance");
   }
 
-  static DM* metric = nullptr;
-  if (metric == nullptr)
-  {
-    metric = new DM();
-  }
+  static DM* metric = new DM();
 
   T total = metric->init();
 
@@ -285,11 +278,7 @@ pairwiseDistance(
     throw GenexException("Two time series must have the same length for pairwise distance");
   }
 
-  static DM* metric = nullptr;
-  if (metric == nullptr)
-  {
-    metric = new DM();
-  }
+  static DM* metric = new DM();
 
   T total = metric->init();
 
-- 
2.43.0


From 23b32c872be648cd41302409d8748293338661eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:12:19 +0000
Subject: [PATCH 12/55] fix: give cosine and sorensen a value when both terms
 are zero

Sequences of zeros produced NaN, which sent the alignment backtracking into an
endless loop that filled the memory.
---
 genex/distance/Cosine.hpp   | 3 ++-
 genex/distance/Distance.hpp | 2 +-
 genex/distance/Sorensen.hpp | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/genex/distance/Cosine.hpp b/genex/distance/Cosine.hpp
index 3ff060e..e91ba1c 100644
--- a/genex/distance/Cosine.hpp
+++ b/genex/distance/Cosine.hpp
@@ -28,7 +28,8 @@ public:
 
   data_t norm(data_t* total, const TimeSeries& t_1, const TimeSeries& t_2) const
   {
-    return total[2] / (sqrt(total[0] * total[1]));
+    data_t denominator = sqrt(total[0] * total[1]);
+    return denominator == 0 ? 0 : total[2] / denominator;
   }
 
   data_t normDTW(data_t* total, const TimeSeries& t_1, const TimeSeries& t_2) const
diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index a2f9b73..548b417 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -202,7 +202,7 @@ data_t warpedDistance(
       else if (ncost[i - 1][j] == minNeighbor) {
         i--;
       }
-      else if (ncost[i][j - 1] == minNeighbor) {
+      else {
         j--;
       }
     }
diff --git a/genex/distance/Sorensen.hpp b/genex/distance/Sorensen.hpp
index 3e4baf7..efa6e2f 100644
--- a/genex/distance/Sorensen.hpp
+++ b/genex/distance/Sorensen.hpp
@@ -27,7 +27,7 @@ public:
 
   data_t norm(data_t* total, const TimeSeries& t_1, const TimeSeries& t_2) const
   {
-    return total[0] / total[1];
+    return total[0] == 0 ? 0 : total[0] / total[1];
   }
 
   data_t normDTW(data_t* total, const TimeSeries& t_1, const TimeSeries& t_2) const
-- 
2.43.0


From 8c70c5534fdbb01273dd6688ea84c7a9a757b668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:13:00 +0000
Subject: [PATCH 13/55] fix: never extend an alignment from a cell outside the
 band

When all neighbors were infinite (sorensen of opposite values, overflow) the
cell above was used even if it had never been computed, which dereferenced a
null pointer.
---
 genex/distance/Distance.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index 548b417..b5bb005 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -149,14 +149,15 @@ data_t warpedDistance(
       auto ij1  = (i - r <= j-1 && j-1 <= i + r) ? ncost[i][j-1] : INF;
       auto i1j1 = ncost[i-1][j-1];
       auto i1j  = (j - r <= i-1 && i-1 <= j + r) ? ncost[i-1][j] : INF;
-      T minPrev = cost[i-1][j];
-      if (i1j1 < ij1 && i1j1 < i1j)
+      // The diagonal neighbor is always inside the band
+      T minPrev = cost[i-1][j-1];
+      if (ij1 < i1j && ij1 <= i1j1)
       {
-        minPrev = cost[i-1][j-1];
+        minPrev = cost[i][j-1];
       }
-      else if (ij1 < i1j)
+      else if (i1j <= ij1 && i1j <= i1j1 && j - r <= i-1)
       {
-        minPrev = cost[i][j-1];
+        minPrev = cost[i-1][j];
       }
       cost[i][j] = metric->init();
       cost[i][j] = metric->reduce(cost[i][j], minPrev, a[i], b[j]);
-- 
2.43.0


From 2d1ec383296301d0129294e68c5bca3d6f743ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:13:15 +0000
Subject: [PATCH 14/55] fix: do not stop cosine and sorensen calculations early

Their running value can decrease again, so stopping as soon as it exceeds the
best value so far discarded closer sequences when grouping and searching.
---
 genex/distance/Distance.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index b5bb005..f559c19 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -4,6 +4,7 @@
 #include <vector>
 #include <algorithm>
 #include <iostream>
+#include <type_traits>
 #include "TimeSeries.hpp"
 #include "Exception.hpp"
 
@@ -70,6 +71,17 @@ template <class T> struct hasInverseNorm
   static constexpr bool value = test<T>(int());
 };
 
+/**
+ *  @brief whether a calculation may stop once its running value exceeds the dropout
+ *  This is the case for distances keeping a single running value, which never
+ *  decreases. The ratio formed from several running values (e.g. Cosine) may decrease.
+ */
+template<typename T>
+constexpr bool canDropOut()
+{
+  return !std::is_pointer<T>::value;
+}
+
 /**
  *  @brief returns the warped distance between two sets of data
  *  In this implementation, we are only supporting sum-based distances
@@ -164,7 +176,7 @@ data_t warpedDistance(
       ncost[i][j] = metric->normDTW(cost[i][j], a, b);
       bestSoFar = min(bestSoFar, ncost[i][j]);
     }
-    if (bestSoFar > dropout)
+    if (canDropOut<T>() && bestSoFar > dropout)
     {
       dropped = true;
       break;
@@ -249,7 +261,7 @@ pairwiseDistance(
   for(int i = 0; i < x_1.getLength(); i++)
   {
     total = metric->reduce(total, total, x_1[i], x_2[i]);
-    if (metric->norm(total, x_1, x_2) > dropout)
+    if (canDropOut<T>() && metric->norm(total, x_1, x_2) > dropout)
     {
       dropped = true;
       break;
-- 
2.43.0


From 23e47effe3bbe2f3c60b291278666f26c3623aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:13:15 +0000
Subject: [PATCH 15/55] fix: keep the current groups when grouping fails

An unknown distance or an invalid number of threads discarded the groups and
left the dataset marked as grouped with an empty group space, which crashed
later queries.
---
 genex/GroupableTimeSeriesSet.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index 1b75ad8..5d9782d 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -1,5 +1,6 @@
 #include <iostream>
 #include <fstream>
+#include <memory>
 
 #include "IO.hpp"
 #include "GroupableTimeSeriesSet.hpp"
@@ -27,22 +28,22 @@ int GroupableTimeSeriesSet::groupAllLengths(
     throw GenexException("No data to group");
   }
 
-  // clear old groups
-  reset();
-
-  this->groupsAllLengthSet = new GlobalGroupSpace(*this);
+  // keep old groups until the new ones are complete
+  std::unique_ptr<GlobalGroupSpace> newGroups(new GlobalGroupSpace(*this));
   int cntGroups;
   if (numThreads == 1) {
-    cntGroups = this->groupsAllLengthSet->group(
+    cntGroups = newGroups->group(
       distanceName, threshold, wholeSeriesOnly);
   }
   else if (numThreads > 1) {
-    cntGroups = this->groupsAllLengthSet->groupMultiThreaded(
+    cntGroups = newGroups->groupMultiThreaded(
       distanceName, threshold, numThreads, wholeSeriesOnly);
   }
   else {
     throw GenexException("Number of threads must be positive");    
   }
+  reset();
+  this->groupsAllLengthSet = newGroups.release();
   return cntGroups;
 }
 
-- 
2.43.0


From b01b3a56d2807da072b740814cbf438355294a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:13:46 +0000
Subject: [PATCH 16/55] fix: keep the current groups when loading groups fails

A damaged group file discarded the groups and left the dataset marked as
grouped with a partial group space.
---
 genex/GroupableTimeSeriesSet.cpp      | 6 ++++--
 genex/GroupableTimeSeriesSet.hpp      | 7 +++++--
 genex/group/GlobalGroupSpace.hpp      | 2 +-
 genex/group/LocalLengthGroupSpace.hpp | 2 +-
 4 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index 5d9782d..1ab06aa 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -131,9 +131,11 @@ int GroupableTimeSeriesSet::loadGroupsOld(const string& path)
     //   throw GenexException("Incompatible item length");
     // }
     cout << "Saved groups are compatible with the dataset" << endl;
+    // keep old groups until the new ones are complete
+    std::unique_ptr<GlobalGroupSpace> newGroups(new GlobalGroupSpace(*this));
+    numberOfGroups = newGroups->loadGroupsOld(fin);
     reset();
-    this->groupsAllLengthSet = new GlobalGroupSpace(*this);
-    numberOfGroups = this->groupsAllLengthSet->loadGroupsOld(fin);
+    this->groupsAllLengthSet = newGroups.release();
   }
   else
   {
diff --git a/genex/GroupableTimeSeriesSet.hpp b/genex/GroupableTimeSeriesSet.hpp
index 29ba3a3..919a930 100644
--- a/genex/GroupableTimeSeriesSet.hpp
+++ b/genex/GroupableTimeSeriesSet.hpp
@@ -1,6 +1,7 @@
 #ifndef GROUPABLE_TIME_SERIES_SET_H
 #define GROUPABLE_TIME_SERIES_SET_H
 
+#include <memory>
 #include <vector>
 #include <boost/serialization/serialization.hpp>
 #include <boost/serialization/split_member.hpp>
@@ -115,9 +116,11 @@ private:
     {
       throw GenexException("Incompatible item length");
     }
+    // keep old groups until the new ones are complete
+    std::unique_ptr<GlobalGroupSpace> newGroups(new GlobalGroupSpace(*this));
+    ar >> *newGroups;
     reset();
-    this->groupsAllLengthSet = new GlobalGroupSpace(*this);
-    ar >> *(this->groupsAllLengthSet);
+    this->groupsAllLengthSet = newGroups.release();
   }
 
   BOOST_SERIALIZATION_SPLIT_MEMBER()
diff --git a/genex/group/GlobalGroupSpace.hpp b/genex/group/GlobalGroupSpace.hpp
index 6378708..76f6d05 100644
--- a/genex/group/GlobalGroupSpace.hpp
+++ b/genex/group/GlobalGroupSpace.hpp
@@ -119,8 +119,8 @@ private:
     this->totalNumberOfGroups = 0;
     for (auto i = minLen; i < maxLen; i++) {
       auto llgs = new LocalLengthGroupSpace(dataset, i);
-      ar >> *llgs;
       this->localLengthGroupSpace[i] = llgs;
+      ar >> *llgs;
       this->totalNumberOfGroups += llgs->getNumberOfGroups();
     }
   }
diff --git a/genex/group/LocalLengthGroupSpace.hpp b/genex/group/LocalLengthGroupSpace.hpp
index 0c9f82d..384d716 100644
--- a/genex/group/LocalLengthGroupSpace.hpp
+++ b/genex/group/LocalLengthGroupSpace.hpp
@@ -109,8 +109,8 @@ private:
                          , this->subTimeSeriesCount
                          , this->dataset
                          , this->memberMap);
-      ar >> *g;
       this->groups.push_back(g);
+      ar >> *g;
     }
   }
 
-- 
2.43.0


From 72530312f8db87ab2a7a00faac2389d4f8123139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:13:46 +0000
Subject: [PATCH 17/55] fix: remember that loaded groups cover whole series
 only

Saving such groups again dereferenced a null pointer.
---
 genex/group/GlobalGroupSpace.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/genex/group/GlobalGroupSpace.hpp b/genex/group/GlobalGroupSpace.hpp
index 76f6d05..9c11420 100644
--- a/genex/group/GlobalGroupSpace.hpp
+++ b/genex/group/GlobalGroupSpace.hpp
@@ -116,6 +116,10 @@ private:
     ar >> minLen >> maxLen >> this->distanceName >> this->threshold;
     this->_loadDistance(this->distanceName);
     this->localLengthGroupSpace.resize(dataset.getMaxLength() + 1, nullptr);
+    if (maxLen > this->localLengthGroupSpace.size()) {
+      throw GenexException("Incompatible item length");
+    }
+    this->wholeSeriesOnly = minLen + 1 == maxLen;
     this->totalNumberOfGroups = 0;
     for (auto i = minLen; i < maxLen; i++) {
       auto llgs = new LocalLengthGroupSpace(dataset, i);
-- 
2.43.0


From d9bfd62c3eb81fb9fdf949e0dee93cafef949ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:14:01 +0000
Subject: [PATCH 18/55] fix: reject group files that do not fit the dataset

Members missing from the dataset were accepted, and the text loader used
uninitialised numbers as positions when the file was cut short or written for
series of another length.
---
 genex/GroupableTimeSeriesSet.cpp      | 13 ++++++++-----
 genex/group/GlobalGroupSpace.cpp      |  9 +++++++--
 genex/group/Group.cpp                 | 10 ++++++++--
 genex/group/Group.hpp                 |  2 ++
 genex/group/LocalLengthGroupSpace.cpp |  6 ++++--
 5 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index 1ab06aa..f2b0371 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -117,7 +117,10 @@ int GroupableTimeSeriesSet::loadGroupsOld(const string& path)
   {
     int version, grpItemCount, grpItemLength;
     data_t threshold;
-    fin >> version >> threshold >> grpItemCount >> grpItemLength;
+    if (!(fin >> version >> threshold >> grpItemCount >> grpItemLength))
+    {
+      throw GenexException("Incomplete group file");
+    }
     if (version != GROUP_FILE_VERSION)
     {
       throw GenexException("Incompatible file version");
@@ -126,10 +129,10 @@ int GroupableTimeSeriesSet::loadGroupsOld(const string& path)
     {
       throw GenexException("Incompatible item count");
     }
-    // if (grpItemLength != this->getItemLength())
-    // {
-    //   throw GenexException("Incompatible item length");
-    // }
+    if (grpItemLength != this->getMaxLength())
+    {
+      throw GenexException("Incompatible item length");
+    }
     cout << "Saved groups are compatible with the dataset" << endl;
     // keep old groups until the new ones are complete
     std::unique_ptr<GlobalGroupSpace> newGroups(new GlobalGroupSpace(*this));
diff --git a/genex/group/GlobalGroupSpace.cpp b/genex/group/GlobalGroupSpace.cpp
index 8cdd3f7..d2a2069 100644
--- a/genex/group/GlobalGroupSpace.cpp
+++ b/genex/group/GlobalGroupSpace.cpp
@@ -234,15 +234,20 @@ int GlobalGroupSpace::loadGroupsOld(ifstream &fin)
 
   int lenFrom, lenTo;
   string distance;
-  fin >> lenFrom >> lenTo >> distance;
+  if (!(fin >> lenFrom >> lenTo >> distance)) {
+    throw GenexException("Incomplete group file");
+  }
+  if (lenFrom < 0 || lenTo != dataset.getMaxLength() + 1) {
+    throw GenexException("Incompatible item length");
+  }
   boost::trim_right(distance);
   this->_loadDistance(distance);
   this->localLengthGroupSpace.resize(dataset.getMaxLength() + 1, nullptr);
   this->totalNumberOfGroups = 0;  
   for (auto i = lenFrom; i < lenTo; i++) {
     auto gel = new LocalLengthGroupSpace(dataset, i);
-    this->totalNumberOfGroups += gel->loadGroupsOld(fin);
     this->localLengthGroupSpace[i] = gel;
+    this->totalNumberOfGroups += gel->loadGroupsOld(fin);
   }
   return this->totalNumberOfGroups;
 }
diff --git a/genex/group/Group.cpp b/genex/group/Group.cpp
index 7ed8f13..b91c75b 100644
--- a/genex/group/Group.cpp
+++ b/genex/group/Group.cpp
@@ -163,10 +163,16 @@ void Group::loadGroupOld(ifstream &fin)
     fin >> this->centroid[i];
   }
 
-  fin >> cnt; 
+  if (!(fin >> cnt)) {
+    throw GenexException("Incomplete group file");
+  }
   int index, start;
   for (int i = 0; i < cnt; i++) {
-    fin >> index >> start;
+    if (!(fin >> index >> start)) {
+      throw GenexException("Incomplete group file");
+    }
+    // Throws if the dataset does not contain this member
+    this->dataset.getTimeSeries(index, start, start + this->memberLength);
     this->addMember(index, start);
   }
 }
diff --git a/genex/group/Group.hpp b/genex/group/Group.hpp
index 9487825..4ba790a 100644
--- a/genex/group/Group.hpp
+++ b/genex/group/Group.hpp
@@ -202,6 +202,8 @@ private:
     for (int i = 0; i < cnt; i++) {
       int index, start;
       ar >> index >> start;
+      // Throws if the dataset does not contain this member
+      this->dataset.getTimeSeries(index, start, start + this->memberLength);
       this->addMember(index, start);
     }
   }
diff --git a/genex/group/LocalLengthGroupSpace.cpp b/genex/group/LocalLengthGroupSpace.cpp
index 09ba1cd..1289504 100644
--- a/genex/group/LocalLengthGroupSpace.cpp
+++ b/genex/group/LocalLengthGroupSpace.cpp
@@ -146,7 +146,9 @@ int LocalLengthGroupSpace::loadGroupsOld(ifstream &fin)
 {
   reset();
   int numberOfGroups;
-  fin >> numberOfGroups;
+  if (!(fin >> numberOfGroups)) {
+    throw GenexException("Incomplete group file");
+  }
   for (auto i = 0; i < numberOfGroups; i++)
   {
     auto grp = new Group(i
@@ -154,8 +156,8 @@ int LocalLengthGroupSpace::loadGroupsOld(ifstream &fin)
                          , this->subTimeSeriesCount
                          , this->dataset
                          , this->memberMap);
-    grp->loadGroupOld(fin);
     this->groups.push_back(grp);
+    grp->loadGroupOld(fin);
   }
   return numberOfGroups;
 }
-- 
2.43.0


From d0bb47d9d34d98e0c394b5e521bb6f3bc135dc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:14:57 +0000
Subject: [PATCH 19/55] fix: reject group files that list a member twice

A repeated member turned the member list into a cycle, so that the next query
never ended.
---
 genex/group/Group.cpp | 14 +++++++++++---
 genex/group/Group.hpp | 14 ++++++++++----
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/genex/group/Group.cpp b/genex/group/Group.cpp
index b91c75b..ad1d903 100644
--- a/genex/group/Group.cpp
+++ b/genex/group/Group.cpp
@@ -23,6 +23,16 @@ void Group::addMember(int tsIndex, int tsStart)
   this->lastMemberCoord = std::make_pair(tsIndex, tsStart);
 }
 
+void Group::addLoadedMember(int tsIndex, int tsStart)
+{
+  // Throws if the dataset does not contain this member
+  this->dataset.getTimeSeries(tsIndex, tsStart, tsStart + this->memberLength);
+  if (this->memberMap[tsIndex * this->subTimeSeriesCount + tsStart].groupIndex != -1) {
+    throw GenexException("Time series is in more than one group");
+  }
+  this->addMember(tsIndex, tsStart);
+}
+
 void Group::setCentroid(int tsIndex, int tsStart)
 {
   this->centroid = this->dataset.getTimeSeries(tsIndex, tsStart, tsStart + this->memberLength);
@@ -171,9 +181,7 @@ void Group::loadGroupOld(ifstream &fin)
     if (!(fin >> index >> start)) {
       throw GenexException("Incomplete group file");
     }
-    // Throws if the dataset does not contain this member
-    this->dataset.getTimeSeries(index, start, start + this->memberLength);
-    this->addMember(index, start);
+    this->addLoadedMember(index, start);
   }
 }
 
diff --git a/genex/group/Group.hpp b/genex/group/Group.hpp
index 4ba790a..233b469 100644
--- a/genex/group/Group.hpp
+++ b/genex/group/Group.hpp
@@ -27,7 +27,7 @@ struct group_membership_t
   member_coord_t prev;
   int groupIndex;
 
-  group_membership_t() {}
+  group_membership_t() : groupIndex(-1) {}
   group_membership_t(int groupIndex, member_coord_t prev)
     : groupIndex(groupIndex), prev(prev) {}
 };
@@ -86,6 +86,14 @@ public:
    */
   void addMember(int index, int start);
 
+  /**
+   *  @brief adds a member read from a file to the group
+   *
+   *  @throw GenexException if the dataset does not have this member or it
+   *         already belongs to a group
+   */
+  void addLoadedMember(int index, int start);
+
   /**
    *  @brief set the centroid of the group
    *
@@ -202,9 +210,7 @@ private:
     for (int i = 0; i < cnt; i++) {
       int index, start;
       ar >> index >> start;
-      // Throws if the dataset does not contain this member
-      this->dataset.getTimeSeries(index, start, start + this->memberLength);
-      this->addMember(index, start);
+      this->addLoadedMember(index, start);
     }
   }
 
-- 
2.43.0


From 6aa478c3e1b2061f9a2d55cc41b6420334040efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:15:26 +0000
Subject: [PATCH 20/55] fix: restore threshold and length range from a text
 group file

They were left uninitialised, and the threshold was written with six digits.
---
 genex/GroupableTimeSeriesSet.cpp | 7 +++++--
 genex/group/GlobalGroupSpace.cpp | 4 +++-
 genex/group/GlobalGroupSpace.hpp | 2 +-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index f2b0371..bfa9acc 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -1,5 +1,7 @@
 #include <iostream>
 #include <fstream>
+#include <iomanip>
+#include <limits>
 #include <memory>
 
 #include "IO.hpp"
@@ -97,7 +99,8 @@ void GroupableTimeSeriesSet::saveGroupsOld(const string& path, bool groupSizeOnl
   if (fout)
   {
     // Version of the file format, the threshold and the required dataset dimensions
-    fout << GROUP_FILE_VERSION << " "
+    fout << std::setprecision(std::numeric_limits<data_t>::max_digits10)
+         << GROUP_FILE_VERSION << " "
          << this->getThreshold() << " "
          << this->getItemCount() << " "
          << this->getMaxLength() << endl;
@@ -136,7 +139,7 @@ int GroupableTimeSeriesSet::loadGroupsOld(const string& path)
     cout << "Saved groups are compatible with the dataset" << endl;
     // keep old groups until the new ones are complete
     std::unique_ptr<GlobalGroupSpace> newGroups(new GlobalGroupSpace(*this));
-    numberOfGroups = newGroups->loadGroupsOld(fin);
+    numberOfGroups = newGroups->loadGroupsOld(fin, threshold);
     reset();
     this->groupsAllLengthSet = newGroups.release();
   }
diff --git a/genex/group/GlobalGroupSpace.cpp b/genex/group/GlobalGroupSpace.cpp
index d2a2069..d241842 100644
--- a/genex/group/GlobalGroupSpace.cpp
+++ b/genex/group/GlobalGroupSpace.cpp
@@ -228,7 +228,7 @@ void GlobalGroupSpace::saveGroupsOld(ofstream &fout, bool groupSizeOnly) const
   }
 }
 
-int GlobalGroupSpace::loadGroupsOld(ifstream &fin)
+int GlobalGroupSpace::loadGroupsOld(ifstream &fin, data_t threshold)
 {
   reset();
 
@@ -243,6 +243,8 @@ int GlobalGroupSpace::loadGroupsOld(ifstream &fin)
   boost::trim_right(distance);
   this->_loadDistance(distance);
   this->localLengthGroupSpace.resize(dataset.getMaxLength() + 1, nullptr);
+  this->threshold = threshold;
+  this->wholeSeriesOnly = lenFrom + 1 == lenTo;
   this->totalNumberOfGroups = 0;  
   for (auto i = lenFrom; i < lenTo; i++) {
     auto gel = new LocalLengthGroupSpace(dataset, i);
diff --git a/genex/group/GlobalGroupSpace.hpp b/genex/group/GlobalGroupSpace.hpp
index 9c11420..3c2b61c 100644
--- a/genex/group/GlobalGroupSpace.hpp
+++ b/genex/group/GlobalGroupSpace.hpp
@@ -79,7 +79,7 @@ public:
   std::vector<candidate_time_series_t> getKBestMatches(const TimeSeries& query, int k);
   
   void saveGroupsOld(std::ofstream &fout, bool groupSizeOnly) const;
-  int loadGroupsOld(std::ifstream &fin);
+  int loadGroupsOld(std::ifstream &fin, data_t threshold);
 
 private:
   std::string distanceName;
-- 
2.43.0


From f958759b98dd88cabff9f10bd190f803eccc4dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:15:26 +0000
Subject: [PATCH 21/55] fix: keep representatives of text group files when
 saving them again

The binary format stores the position of the representative, which was lost by
the text loader, so every representative became the start of the first series.
---
 genex/group/Group.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/genex/group/Group.cpp b/genex/group/Group.cpp
index ad1d903..405bd53 100644
--- a/genex/group/Group.cpp
+++ b/genex/group/Group.cpp
@@ -183,6 +183,14 @@ void Group::loadGroupOld(ifstream &fin)
     }
     this->addLoadedMember(index, start);
   }
+
+  // Refer to the dataset if possible since only such a centroid can be saved again
+  for (const auto& member : this->getMembers()) {
+    if (member == this->centroid) {
+      this->setCentroid(member.getIndex(), member.getStart());
+      break;
+    }
+  }
 }
 
 } // namespace genex
-- 
2.43.0


From b5d2d2d8873a3d16d36d75e7ab62457b51bb6e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:02 +0000
Subject: [PATCH 22/55] fix: skip lengths the dataset does not have when
 searching

A query longer than the longest series indexed past the end of the list of
group spaces.
---
 genex/group/GlobalGroupSpace.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/genex/group/GlobalGroupSpace.cpp b/genex/group/GlobalGroupSpace.cpp
index d241842..5cb46f5 100644
--- a/genex/group/GlobalGroupSpace.cpp
+++ b/genex/group/GlobalGroupSpace.cpp
@@ -261,7 +261,9 @@ vector<int> generateTraverseOrder(int queryLength, int totalLength)
   int high = queryLength + 1;
   bool lowStop = false, highStop = false;
 
-  order.push_back(queryLength);
+  if (queryLength <= totalLength) {
+    order.push_back(queryLength);
+  }
   while (!(lowStop && highStop)) {
     if (low < 2) lowStop = true;
     if (high > totalLength) highStop = true;
@@ -270,7 +272,9 @@ vector<int> generateTraverseOrder(int queryLength, int totalLength)
       // queryLength is always larger than low
       int r = calculateWarpingBandSize(queryLength);
       if (low + r >= queryLength) {
-        order.push_back(low);
+        if (low <= totalLength) {
+          order.push_back(low);
+        }
         low--;
       }
       else {
-- 
2.43.0


From 2d7bc291da4f7c14d18268a0a6e0fb10c4fbe100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:02 +0000
Subject: [PATCH 23/55] fix: report an error when a query has no match

If no group has a length within the warping band, a null pointer was
dereferenced.
---
 genex/group/GlobalGroupSpace.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/genex/group/GlobalGroupSpace.cpp b/genex/group/GlobalGroupSpace.cpp
index 5cb46f5..c8466ae 100644
--- a/genex/group/GlobalGroupSpace.cpp
+++ b/genex/group/GlobalGroupSpace.cpp
@@ -157,6 +157,9 @@ GlobalGroupSpace::getBestMatch(const TimeSeries& query)
       }
     }
   }
+  if (bestSoFarGroup == nullptr) {
+    throw GenexException("No group can be compared with the query");
+  }
   return bestSoFarGroup->getBestMatch(query, this->warpedDistance);
 }
 
-- 
2.43.0


From 417f30bf3665c90be25f5e64ff778d08ecf6471b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:02 +0000
Subject: [PATCH 24/55] fix: validate k and do not pad the results of a k-best
 search

A non-positive k read an empty heap, and results were filled up with empty
sequences at distance zero when fewer than k were found.
---
 genex/GroupableTimeSeriesSet.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index bfa9acc..d104072 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -164,13 +164,18 @@ GroupableTimeSeriesSet::getKBestMatches(const TimeSeries& query, int k, int h)
 {
   if (this->groupsAllLengthSet) //not nullptr
   {
+    if (k <= 0) {
+      throw GenexException("K must be positive");
+    }
     if (h < k) {
       throw GenexException("Number of examined time series must be larger than "
                            "or equal to the number of time series to look for");
     }
     auto results = this->groupsAllLengthSet->getKBestMatches(query, h);
     std::sort(results.begin(), results.end());
-    results.resize(k);
+    if (results.size() > k) {
+      results.resize(k);
+    }
     return results;
   }
   throw GenexException("Dataset is not grouped");
-- 
2.43.0


From 0c1e796c7d438ea22f03f5b1000df8df6304a5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:47 +0000
Subject: [PATCH 25/55] fix: derive the length of a dataset from the rows that
 are loaded

Rows cut off by the row limit still counted, so a dataset could claim a length
that none of its series has.
---
 genex/TimeSeriesSet.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index a4e7586..a61fd1b 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -40,7 +40,8 @@ string TimeSeriesSet::getTimeSeriesName(int index) const
   return std::to_string(index);
 }
 
-std::pair<int, int> _getMaxRowsMaxColumns(std::ifstream& f, const string& separators)
+std::pair<int, int> _getMaxRowsMaxColumns(
+  std::ifstream& f, const string& separators, int maxNumRow)
 {
   int lineCount = 0;
   int maxColumn = 0;
@@ -48,7 +49,7 @@ std::pair<int, int> _getMaxRowsMaxColumns(std::ifstream& f, const string& separa
   string line;
   boost::char_separator<char> sep(separators.c_str());
   typedef boost::tokenizer<boost::char_separator<char>> tokenizer;
-  for (lineCount = 0; std::getline(f, line); ++lineCount)
+  for (lineCount = 0; (maxNumRow <= 0 || lineCount < maxNumRow) && std::getline(f, line); ++lineCount)
   {
     tokenizer tokens(line, sep);
     length = std::distance(tokens.begin(), tokens.end());
@@ -75,7 +76,7 @@ void TimeSeriesSet::loadData(const string& filePath
     f.close();
     throw GenexException(string("Cannot open ") + filePath);
   }
-  auto maxRowMaxColumn = _getMaxRowsMaxColumns(f, separators);
+  auto maxRowMaxColumn = _getMaxRowsMaxColumns(f, separators, maxNumRow);
   if (maxNumRow <= 0) {
     maxNumRow = maxRowMaxColumn.first;
   }
-- 
2.43.0


From 6d428d34ea9c5fd198bddfef2c6f5f3ed73d9bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:47 +0000
Subject: [PATCH 26/55] fix: forget series lengths and normalisation when
 clearing data

Loading another file into the same set kept the lengths of the old one.
---
 genex/TimeSeriesSet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index a61fd1b..743b221 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -177,6 +177,8 @@ void TimeSeriesSet::clearData()
   this->itemCount = 0;
   this->maxCol = 0;
   this->names.clear();
+  this->lengths.clear();
+  this->normalized = false;
 }
 
 TimeSeries TimeSeriesSet::getTimeSeries(int index, int start, int end) const
-- 
2.43.0


From 00abd282faaa7eb909ac103be7cba83083794be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:01 +0000
Subject: [PATCH 27/55] fix: handle rows without values and negative starting
 columns

A negative starting column wrote before the data, rows shorter than the
starting column got a negative length, and a row without a name shifted the
names of all rows after it.
---
 genex/TimeSeriesSet.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index 743b221..6490fea 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -70,6 +70,10 @@ void TimeSeriesSet::loadData(const string& filePath
 {
   this->clearData();
 
+  if (startCol < 0)
+  {
+    throw GenexException("Starting column must not be negative");
+  }
   std::ifstream f(filePath);
   if (!f.is_open())
   {
@@ -84,7 +88,6 @@ void TimeSeriesSet::loadData(const string& filePath
     maxNumRow = std::min(maxNumRow, maxRowMaxColumn.first);
   }
   auto rawMaxCol = maxRowMaxColumn.second;
-  int length = -1;
   string line;
   // Tokenize each line using the given separators
   boost::char_separator<char> sep(separators.c_str());
@@ -99,7 +102,8 @@ void TimeSeriesSet::loadData(const string& filePath
     if (getline(f, line))
     {
       tokenizer tokens(line, sep);
-      this->lengths.push_back(std::distance(tokens.begin(), tokens.end()) - startCol - hasNameCol);
+      int length = std::distance(tokens.begin(), tokens.end()) - startCol - hasNameCol;
+      this->lengths.push_back(std::max(length, 0));
       int col = 0;
       for (tokenizer::iterator tok_iter = tokens.begin();
            tok_iter != tokens.end(); tok_iter++, col++)
@@ -131,6 +135,10 @@ void TimeSeriesSet::loadData(const string& filePath
           }
         }
       }
+      if (hasNameCol && this->names.size() <= row) {
+        // No name in this row
+        this->names.push_back(std::to_string(row));
+      }
     }
     else {
       break;
@@ -146,7 +154,7 @@ void TimeSeriesSet::loadData(const string& filePath
   }
 
   this->filePath = filePath;
-  this->maxCol = rawMaxCol - startCol - hasNameCol;
+  this->maxCol = std::max(rawMaxCol - startCol - hasNameCol, 0);
   f.close();
 }
 
-- 
2.43.0


From 518b32162053d2217a19f23c38fdc74bfcaf2948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:45 +0000
Subject: [PATCH 28/55] fix: report read errors while scanning a dataset file

The error state was cleared before rewinding, so a directory or an unreadable
file was loaded as an empty dataset.
---
 genex/TimeSeriesSet.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index 6490fea..9029140 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -57,6 +57,10 @@ std::pair<int, int> _getMaxRowsMaxColumns(
       maxColumn = length;
     }
   }
+  if (f.bad())
+  {
+    throw GenexException("Error while reading file");
+  }
   f.clear();
   f.seekg(0);
   return {lineCount, maxColumn};
-- 
2.43.0


From 1c4dfda613e92adb560d83282d8b4c60140fc1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:45 +0000
Subject: [PATCH 29/55] fix: check the index when asking for the length of a
 series

---
 genex/TimeSeriesSet.cpp | 9 +++++++++
 genex/TimeSeriesSet.hpp | 3 ++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index 9029140..1b24daa 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -193,6 +193,15 @@ void TimeSeriesSet::clearData()
   this->normalized = false;
 }
 
+int TimeSeriesSet::getItemLength(int index) const
+{
+  if (index < 0 || index >= this->itemCount)
+  {
+    throw GenexException("Invalid time series index");
+  }
+  return this->lengths[index];
+}
+
 TimeSeries TimeSeriesSet::getTimeSeries(int index, int start, int end) const
 {
   if (index < 0 || index >= this->itemCount)
diff --git a/genex/TimeSeriesSet.hpp b/genex/TimeSeriesSet.hpp
index 84bd592..c241305 100644
--- a/genex/TimeSeriesSet.hpp
+++ b/genex/TimeSeriesSet.hpp
@@ -74,8 +74,9 @@ public:
    * @brief gets length of the specified time series in the dataset
    *
    * @return length of each time series
+   * @throw GenexException if index is not in intended range
    */
-  int getItemLength(int index) const { return this->lengths[index]; }
+  int getItemLength(int index) const;
 
   /**
    * @brief gets number of time series in the dataset
-- 
2.43.0


From a4bcf541c15d7bd8c761af4446c4fadc7e4843f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:45 +0000
Subject: [PATCH 30/55] fix: save datasets without losing digits

Values were written with six significant digits.
---
 genex/TimeSeriesSet.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index 1b24daa..ae74dd6 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -3,7 +3,9 @@
 #include <algorithm>
 #include <string>
 #include <fstream>
+#include <iomanip>
 #include <iostream>
+#include <limits>
 #include <cstring>
 #include <boost/tokenizer.hpp>
 
@@ -170,6 +172,7 @@ void TimeSeriesSet::saveData(const string& filePath, char separator) const
     f.close();
     throw GenexException(string("Cannot open ") + filePath);
   }
+  f << std::setprecision(std::numeric_limits<data_t>::max_digits10);
   for (int i = 0; i < itemCount; i++) {
     if (!this->names.empty()) {
       f << names[i] << separator;
-- 
2.43.0


From fc647b4b5d8e0ace319b623733cda6b7a7e0c2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:18 +0000
Subject: [PATCH 31/55] fix: report errors when writing a dataset or a text
 group file

The stream state was never looked at after writing, so a full disk went
unnoticed.
---
 genex/GroupableTimeSeriesSet.cpp | 5 +++++
 genex/TimeSeriesSet.cpp          | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index d104072..85c7d39 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -105,6 +105,11 @@ void GroupableTimeSeriesSet::saveGroupsOld(const string& path, bool groupSizeOnl
          << this->getItemCount() << " "
          << this->getMaxLength() << endl;
     this->groupsAllLengthSet->saveGroupsOld(fout, groupSizeOnly);
+    fout.close();
+    if (!fout)
+    {
+      throw GenexException("Cannot write to file");
+    }
   }
   else
   {
diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index ae74dd6..a29b86d 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -183,6 +183,10 @@ void TimeSeriesSet::saveData(const string& filePath, char separator) const
     f << endl;
   }
   f.close();
+  if (!f)
+  {
+    throw GenexException(string("Cannot write to ") + filePath);
+  }
 }
 
 void TimeSeriesSet::clearData()
-- 
2.43.0


From 72f8a8f223b89541a3c93d5ee7aa98cdffc09300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:09 +0000
Subject: [PATCH 32/55] fix: report an error when a group file cannot be
 written

On a full disk saving groups never returned, because the compressor keeps
retrying a write that makes no progress. Compress to memory first and check the
file afterwards. This also keeps an existing file when there is nothing to
save.
---
 genex/IO.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/genex/IO.hpp b/genex/IO.hpp
index 874aa96..9ebb368 100644
--- a/genex/IO.hpp
+++ b/genex/IO.hpp
@@ -10,6 +10,7 @@
 #include <iostream>
 
 #include <fstream>
+#include <sstream>
 
 #include "TimeSeries.hpp"
 #include "Exception.hpp"
@@ -21,21 +22,32 @@ namespace genex {
 
 template<typename A>
 void saveToFile(const A & obj, const std::string & fname) {
-    std::ofstream ofs(fname, std::ios::binary);
-    if (ofs)
+    // Compress to memory first, the compressor retries forever if a file cannot be written
+    std::ostringstream compressed;
     {
         boost::iostreams::filtering_ostreambuf filter_osbuf;
 
-        // push the ofstream and the compressor
+        // push the buffer and the compressor
         filter_osbuf.push(
             boost::iostreams::zlib_compressor(boost::iostreams::zlib::best_compression));
-        filter_osbuf.push(ofs);
+        filter_osbuf.push(compressed);
 
         // start the archive on the filtering buffer
         boost::archive::binary_oarchive boa(filter_osbuf);
 
         boa << obj;
     }
+
+    std::ofstream ofs(fname, std::ios::binary);
+    if (ofs)
+    {
+        ofs << compressed.str();
+        ofs.close();
+        if (!ofs)
+        {
+            throw GenexException("Cannot write to file");
+        }
+    }
     else 
     {
         throw GenexException("Cannot open file");    
-- 
2.43.0


From ef82cfc4014d830162ce85c2faaeff07c222ed14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:09 +0000
Subject: [PATCH 33/55] fix: avoid dividing by zero when logging progress of a
 small grouping

---
 genex/group/LocalLengthGroupSpace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genex/group/LocalLengthGroupSpace.cpp b/genex/group/LocalLengthGroupSpace.cpp
index 1289504..2e9bc51 100644
--- a/genex/group/LocalLengthGroupSpace.cpp
+++ b/genex/group/LocalLengthGroupSpace.cpp
@@ -67,7 +67,7 @@ int LocalLengthGroupSpace::generateGroups(const dist_t pairwiseDistance, data_t
     {
       counter++;
       if (doLog) {
-        if (counter % (totalTimeSeries / LOG_FREQ) == 0) {
+        if (counter % std::max(totalTimeSeries / LOG_FREQ, 1) == 0) {
           cout << "  Grouping progress... " << counter << "/" << totalTimeSeries 
                << " (" << counter*100/totalTimeSeries << "%)" << endl;
         }
-- 
2.43.0


From 50632a510dfec84794fd928496fd7b22c7f3a69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:56 +0000
Subject: [PATCH 34/55] fix: make assigning a sequence safe

The copy used the length of the old value, self-assignment freed the data, and
a cached envelope of the old value stayed in use.
---
 genex/TimeSeries.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/genex/TimeSeries.cpp b/genex/TimeSeries.cpp
index 2da351c..89ae35a 100755
--- a/genex/TimeSeries.cpp
+++ b/genex/TimeSeries.cpp
@@ -66,6 +66,9 @@ TimeSeries::TimeSeries(const TimeSeries& other)
 
 TimeSeries& TimeSeries::operator=(const TimeSeries& other)
 {
+  if (this == &other) {
+    return *this;
+  }
   if (isOwnerOfData) {
     // If the data is internal, remove it as it will be replaced soon
     delete[] this->data;
@@ -73,13 +76,14 @@ TimeSeries& TimeSeries::operator=(const TimeSeries& other)
   if (other.isOwnerOfData)
   {
     // If the data is internal to the TimeSeries, copy this data
-    this->data = new data_t[length];
-    memcpy(this->data, other.data, length * sizeof(data_t));
+    this->data = new data_t[other.length];
+    memcpy(this->data, other.data, other.length * sizeof(data_t));
   }
   else {
     // If the data is external, only need to copy the referring pointer
     this->data = other.data;
   }
+  keoghCacheValid = false;
 
   isOwnerOfData = other.isOwnerOfData;
   index = other.index;
@@ -92,6 +96,9 @@ TimeSeries& TimeSeries::operator=(const TimeSeries& other)
 
 TimeSeries& TimeSeries::operator=(TimeSeries&& other)
 {
+  if (this == &other) {
+    return *this;
+  }
   if (isOwnerOfData) {
     // If the data is internal, remove it as it will be replaced soon    
     delete[] this->data;
@@ -100,6 +107,7 @@ TimeSeries& TimeSeries::operator=(TimeSeries&& other)
   // deleted soon
   data = other.data;
   other.data = nullptr;
+  keoghCacheValid = false;
 
   isOwnerOfData = other.isOwnerOfData;
   index = other.index;
-- 
2.43.0


From f2e532aa5a80414e66dfffb73ff6149e35fd54b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:56 +0000
Subject: [PATCH 35/55] fix: do not treat all subsequences of one series as
 equal

---
 genex/TimeSeries.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genex/TimeSeries.cpp b/genex/TimeSeries.cpp
index 89ae35a..7627348 100755
--- a/genex/TimeSeries.cpp
+++ b/genex/TimeSeries.cpp
@@ -156,7 +156,7 @@ TimeSeries& TimeSeries::operator+=(const TimeSeries& other)
 
 bool TimeSeries::operator==(const TimeSeries& other) const
 {
-  if (this->data == other.data) {
+  if (this->data == other.data && this->start == other.start && this->length == other.length) {
     return true;
   }
   else if (this->data == nullptr || other.data == nullptr) {
-- 
2.43.0


From d7c48a3f3474d7cd9695ca59e40709919f9b0173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:11 +0000
Subject: [PATCH 36/55] fix: do not prune with envelopes of values before
 normalisation

Representatives of groups keep an envelope of their values for pruning. When a
grouped dataset was normalised between two queries, the second one used the old
envelopes and missed matches.
---
 genex/GroupableTimeSeriesSet.cpp      | 10 ++++++++++
 genex/GroupableTimeSeriesSet.hpp      |  5 +++++
 genex/group/GlobalGroupSpace.cpp      |  9 +++++++++
 genex/group/GlobalGroupSpace.hpp      |  5 +++++
 genex/group/Group.cpp                 |  6 ++++++
 genex/group/Group.hpp                 |  7 +++++++
 genex/group/LocalLengthGroupSpace.cpp |  8 ++++++++
 genex/group/LocalLengthGroupSpace.hpp |  5 +++++
 8 files changed, 55 insertions(+)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index 85c7d39..3b0e6ff 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -49,6 +49,16 @@ int GroupableTimeSeriesSet::groupAllLengths(
   return cntGroups;
 }
 
+std::pair<data_t, data_t> GroupableTimeSeriesSet::normalize()
+{
+  auto range = TimeSeriesSet::normalize();
+  if (this->isGrouped())
+  {
+    this->groupsAllLengthSet->refreshCentroids();
+  }
+  return range;
+}
+
 bool GroupableTimeSeriesSet::isGrouped() const
 {
   return this->groupsAllLengthSet != nullptr;
diff --git a/genex/GroupableTimeSeriesSet.hpp b/genex/GroupableTimeSeriesSet.hpp
index 919a930..ebda50d 100644
--- a/genex/GroupableTimeSeriesSet.hpp
+++ b/genex/GroupableTimeSeriesSet.hpp
@@ -41,6 +41,11 @@ public:
                       int numThreads,
                       bool wholeSeriesOnly);
   
+  /**
+   *  @brief normalizes the dataset, the groups stay as they are
+   */
+  std::pair<data_t, data_t> normalize();
+
   /**
    *  @brief deletes and clears the groups
    */
diff --git a/genex/group/GlobalGroupSpace.cpp b/genex/group/GlobalGroupSpace.cpp
index c8466ae..6a138a2 100644
--- a/genex/group/GlobalGroupSpace.cpp
+++ b/genex/group/GlobalGroupSpace.cpp
@@ -43,6 +43,15 @@ void GlobalGroupSpace::reset(void)
   this->localLengthGroupSpace.clear();
 }
 
+void GlobalGroupSpace::refreshCentroids(void)
+{
+  for (auto i = 0; i < this->localLengthGroupSpace.size(); i++) {
+    if (this->localLengthGroupSpace[i] != nullptr) {
+      this->localLengthGroupSpace[i]->refreshCentroids();
+    }
+  }
+}
+
 void GlobalGroupSpace::_loadDistance(const string& distance_name)
 {
   this->distanceName = distance_name;
diff --git a/genex/group/GlobalGroupSpace.hpp b/genex/group/GlobalGroupSpace.hpp
index 3c2b61c..9ae0fe5 100644
--- a/genex/group/GlobalGroupSpace.hpp
+++ b/genex/group/GlobalGroupSpace.hpp
@@ -42,6 +42,11 @@ public:
    */
   void reset();
 
+  /**
+   *  @brief drops what was derived from the values of the centroids
+   */
+  void refreshCentroids();
+
   /**
    *  @brief groups the dataset into groups of equal length
    *    using the metric to determine similarity
diff --git a/genex/group/Group.cpp b/genex/group/Group.cpp
index 405bd53..ad9794d 100644
--- a/genex/group/Group.cpp
+++ b/genex/group/Group.cpp
@@ -38,6 +38,12 @@ void Group::setCentroid(int tsIndex, int tsStart)
   this->centroid = this->dataset.getTimeSeries(tsIndex, tsStart, tsStart + this->memberLength);
 }
 
+void Group::refreshCentroid()
+{
+  // A copy does not take over the cached envelope
+  this->centroid = TimeSeries(this->centroid);
+}
+
 data_t Group::distanceFromCentroid(const TimeSeries& query, const dist_t distance, data_t dropout)
 {
   return distance(this->centroid, query, dropout, gNoMatching);
diff --git a/genex/group/Group.hpp b/genex/group/Group.hpp
index 233b469..508720e 100644
--- a/genex/group/Group.hpp
+++ b/genex/group/Group.hpp
@@ -102,6 +102,13 @@ public:
    */
   void setCentroid(int index, int start);
 
+  /**
+   *  @brief drops what was derived from the values of the centroid
+   *
+   *  Needs to be called after the values in the dataset have changed.
+   */
+  void refreshCentroid();
+
   /**
    *  @brief gets the centroid of the group
    *
diff --git a/genex/group/LocalLengthGroupSpace.cpp b/genex/group/LocalLengthGroupSpace.cpp
index 2e9bc51..b4cfef0 100644
--- a/genex/group/LocalLengthGroupSpace.cpp
+++ b/genex/group/LocalLengthGroupSpace.cpp
@@ -45,6 +45,14 @@ void LocalLengthGroupSpace::reset()
   groups.clear();
 }
 
+void LocalLengthGroupSpace::refreshCentroids()
+{
+  for (auto i = 0; i < groups.size(); i++)
+  {
+    groups[i]->refreshCentroid();
+  }
+}
+
 std::atomic<long> gLastTime(duration_cast<seconds>(system_clock::now().time_since_epoch()).count());
 
 int LocalLengthGroupSpace::generateGroups(const dist_t pairwiseDistance, data_t threshold)
diff --git a/genex/group/LocalLengthGroupSpace.hpp b/genex/group/LocalLengthGroupSpace.hpp
index 384d716..a45107d 100644
--- a/genex/group/LocalLengthGroupSpace.hpp
+++ b/genex/group/LocalLengthGroupSpace.hpp
@@ -38,6 +38,11 @@ public:
 
   void reset();  
 
+  /**
+   *  @brief drops what was derived from the values of the centroids
+   */
+  void refreshCentroids();
+
   /**
    *  @brief returns the number of groups inside this object
    *  @return the number of groups
-- 
2.43.0


From 8292c007247e4a7b497084fcc6db403494e1f942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:11 +0000
Subject: [PATCH 37/55] fix: reject very short distance names when computing a
 matching

---
 genex/GenexAPI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genex/GenexAPI.cpp b/genex/GenexAPI.cpp
index 07102a0..25c4427 100644
--- a/genex/GenexAPI.cpp
+++ b/genex/GenexAPI.cpp
@@ -270,7 +270,7 @@ matching_t GenexAPI::matchingBetween(const string& name1, int idx1, int start1,
   this->_checkDatasetName(name2);
   auto ts1 = this->_loadedDatasets[name1]->getTimeSeries(idx1, start1, end1);
   auto ts2 = this->_loadedDatasets[name2]->getTimeSeries(idx2, start2, end2);
-  if (distance_name.substr(distance_name.length() - 3) != "dtw") {
+  if (distance_name.length() < 3 || distance_name.substr(distance_name.length() - 3) != "dtw") {
     throw GenexException("Can only compute matchings using _dtw distances");
   }  
   const dist_t distance = getDistanceFromName(distance_name);
-- 
2.43.0


From 3e157c31b79a220104984dca99bacb92fecb6961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:40 +0000
Subject: [PATCH 38/55] fix: release input lines with the function matching
 their allocation

---
 cli/GenexCLI.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cli/GenexCLI.cpp b/cli/GenexCLI.cpp
index b018cd0..3046d25 100644
--- a/cli/GenexCLI.cpp
+++ b/cli/GenexCLI.cpp
@@ -1,4 +1,5 @@
 #include <chrono>
+#include <cstdlib>
 #include <cstring>
 #include <iostream>
 #include <fstream>
@@ -792,7 +793,7 @@ bool wantToQuitByEOF()
   char* raw_line = nullptr;
   do
   {
-    delete raw_line;
+    free(raw_line);
     raw_line = readline("Do you really want to exit ([y]/n)? ");
     if (raw_line == nullptr || strcmp(raw_line, "y") == 0 || strcmp(raw_line, "") == 0)
     {
@@ -829,7 +830,7 @@ int main (int argc, char *argv[])
         add_history(raw_line);
       }
       string line = string(raw_line);
-      delete raw_line;
+      free(raw_line);
       try
       {
         quit = processLine(line);
-- 
2.43.0


From 1aae784e7dc0b9c29173494a25df90289f82e429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:40 +0000
Subject: [PATCH 39/55] fix: use start and end of a ksim command that also
 gives ke

They were ignored and the whole series was used as the query.
---
 cli/GenexCLI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/GenexCLI.cpp b/cli/GenexCLI.cpp
index 3046d25..7c57a48 100644
--- a/cli/GenexCLI.cpp
+++ b/cli/GenexCLI.cpp
@@ -482,7 +482,7 @@ MAKE_COMMAND(KSim,
     {
       ke = stoi(args[5]);
     }
-    else if (args.size() == 7)
+    else if (args.size() >= 7)
     {
       start = stoi(args[5]);
       end = stoi(args[6]);
-- 
2.43.0


From 17643cd8d2ac2c7152ed133e81d94eb0ae1c47b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:40 +0000
Subject: [PATCH 40/55] fix: report wrong argument counts of ksimBF

A start without an end, or an argument too many, silently searched for the
whole series.
---
 cli/GenexCLI.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cli/GenexCLI.cpp b/cli/GenexCLI.cpp
index 7c57a48..2eed8ec 100644
--- a/cli/GenexCLI.cpp
+++ b/cli/GenexCLI.cpp
@@ -528,7 +528,7 @@ MAKE_COMMAND(KSim,
       
 MAKE_COMMAND(KSimBF,
   {
-    if (tooFewArgs(args, 4) || tooManyArgs(args, 7))
+    if (tooFewArgs(args, 4) || tooManyArgs(args, 6))
     {
       return false;
     }
@@ -545,6 +545,10 @@ MAKE_COMMAND(KSimBF,
       start = stoi(args[5]);
       end = stoi(args[6]);
     }
+    else if (args.size() == 6) {
+      cout << "Error! Both starting and ending positions must be provided." << endl;
+      return false;
+    }
 
     TIME_COMMAND(
       std::vector<genex::candidate_time_series_t> results = 
-- 
2.43.0


From 9112fcd08cb49711a4b5090e5d4bb0f2ed116007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:47:09 +0000
Subject: [PATCH 41/55] fix: verify the checksum of a binary group file before
 using it

---
 genex/IO.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/genex/IO.hpp b/genex/IO.hpp
index 9ebb368..a8afd9b 100644
--- a/genex/IO.hpp
+++ b/genex/IO.hpp
@@ -4,6 +4,7 @@
 #include <boost/archive/binary_oarchive.hpp>
 #include <boost/archive/text_iarchive.hpp>
 #include <boost/archive/text_oarchive.hpp>
+#include <boost/iostreams/copy.hpp>
 #include <boost/iostreams/device/file.hpp>
 #include <boost/iostreams/filter/zlib.hpp>
 #include <boost/iostreams/filtering_streambuf.hpp>
@@ -65,8 +66,12 @@ void loadFromFile(A & obj, const std::string & fname) {
         filter_isbuf.push(boost::iostreams::zlib_decompressor());
         filter_isbuf.push(ifs);
 
-        // start the archive on the filtering buffer
-        boost::archive::binary_iarchive bia(filter_isbuf);
+        // Decompress everything first so that the checksum at the end is verified
+        std::stringstream decompressed;
+        boost::iostreams::copy(filter_isbuf, decompressed);
+
+        // start the archive on the decompressed data
+        boost::archive::binary_iarchive bia(decompressed);
 
         bia >> obj;
     }
-- 
2.43.0


From 56ad735510f19ab01669117786baab2b70824984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:47:38 +0000
Subject: [PATCH 42/55] fix: reject text group files with an impossible range
 of lengths

---
 genex/group/GlobalGroupSpace.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/genex/group/GlobalGroupSpace.cpp b/genex/group/GlobalGroupSpace.cpp
index 6a138a2..322bb68 100644
--- a/genex/group/GlobalGroupSpace.cpp
+++ b/genex/group/GlobalGroupSpace.cpp
@@ -257,6 +257,9 @@ int GlobalGroupSpace::loadGroupsOld(ifstream &fin, data_t threshold)
   this->localLengthGroupSpace.resize(dataset.getMaxLength() + 1, nullptr);
   this->threshold = threshold;
   this->wholeSeriesOnly = lenFrom + 1 == lenTo;
+  if (lenFrom != _getMinLength()) {
+    throw GenexException("Incompatible item length");
+  }
   this->totalNumberOfGroups = 0;  
   for (auto i = lenFrom; i < lenTo; i++) {
     auto gel = new LocalLengthGroupSpace(dataset, i);
-- 
2.43.0


From 07a2c33a24bd7c8811dafd644225e08234765854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:48:49 +0000
Subject: [PATCH 43/55] fix: reject group files with members starting before
 their time series

---
 genex/group/Group.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/genex/group/Group.cpp b/genex/group/Group.cpp
index ad9794d..6c6440d 100644
--- a/genex/group/Group.cpp
+++ b/genex/group/Group.cpp
@@ -25,6 +25,10 @@ void Group::addMember(int tsIndex, int tsStart)
 
 void Group::addLoadedMember(int tsIndex, int tsStart)
 {
+  // A negative start can mean the whole time series to the dataset
+  if (tsStart < 0 || tsStart >= this->subTimeSeriesCount) {
+    throw GenexException("Invalid starting position of a time series");
+  }
   // Throws if the dataset does not contain this member
   this->dataset.getTimeSeries(tsIndex, tsStart, tsStart + this->memberLength);
   if (this->memberMap[tsIndex * this->subTimeSeriesCount + tsStart].groupIndex != -1) {
-- 
2.43.0


From 88a9f04410161d47d7b8ed2399370048dd54555d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:53 +0000
Subject: [PATCH 44/55] fix: load subnormal values instead of refusing the file

---
 genex/TimeSeriesSet.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index a29b86d..74e3212 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -1,6 +1,8 @@
 #include "TimeSeriesSet.hpp"
 
 #include <algorithm>
+#include <cmath>
+#include <cstdlib>
 #include <string>
 #include <fstream>
 #include <iomanip>
@@ -68,6 +70,24 @@ std::pair<int, int> _getMaxRowsMaxColumns(
   return {lineCount, maxColumn};
 }
 
+data_t _parseValue(const string& token)
+{
+  try
+  {
+    return std::stod(token);
+  }
+  catch (const std::out_of_range& e)
+  {
+    // Subnormal values are reported as out of range too
+    data_t value = std::strtod(token.c_str(), nullptr);
+    if (std::fpclassify(value) != FP_SUBNORMAL)
+    {
+      throw;
+    }
+    return value;
+  }
+}
+
 void TimeSeriesSet::loadData(const string& filePath
                             , int maxNumRow
                             , int startCol
@@ -124,7 +144,7 @@ void TimeSeriesSet::loadData(const string& filePath
             }
             else {
               int index = row * (rawMaxCol - startCol - hasNameCol) + (col - startCol - hasNameCol);
-              this->data[index] = (data_t)std::stod(*tok_iter);
+              this->data[index] = _parseValue(*tok_iter);
             }
           }
           catch (const std::invalid_argument& e)
-- 
2.43.0


From e6006a5c3d3de465599a9773b91218f9a1b0b982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:29:23 +0000
Subject: [PATCH 45/55] fix: drop the unused experiment counter that overflows
 for a large number of examined series

---
 genex/TimeSeries.cpp  | 3 ---
 genex/TimeSeries.hpp  | 3 ---
 genex/group/Group.cpp | 5 -----
 3 files changed, 11 deletions(-)

diff --git a/genex/TimeSeries.cpp b/genex/TimeSeries.cpp
index 7627348..f41e182 100755
--- a/genex/TimeSeries.cpp
+++ b/genex/TimeSeries.cpp
@@ -10,9 +10,6 @@
 #include <limits>
 #include <cstring>
 
-// EXPERIMENT
-int extraTimeSeries = 0;
-
 namespace genex {
 
 TimeSeries::TimeSeries(data_t *data, int index, int start, int end)
diff --git a/genex/TimeSeries.hpp b/genex/TimeSeries.hpp
index 542f161..193beac 100644
--- a/genex/TimeSeries.hpp
+++ b/genex/TimeSeries.hpp
@@ -12,9 +12,6 @@
 #define INF std::numeric_limits<data_t>::infinity()
 #define EPS 1e-9
 
-// EXPERIMENT
-extern int extraTimeSeries;
-
 namespace genex {
 
 typedef double data_t;
diff --git a/genex/group/Group.cpp b/genex/group/Group.cpp
index 6c6440d..d66de0e 100644
--- a/genex/group/Group.cpp
+++ b/genex/group/Group.cpp
@@ -104,9 +104,6 @@ vector<candidate_time_series_t> Group::intraGroupKSim(
 
     TimeSeries currentTimeSeries = this->dataset.getTimeSeries(currIndex, currStart, currStart + this->memberLength);
 
-    // EXPERIMENT
-    extraTimeSeries ++;
-
     if (k > 0) // directly add to best 
     {
       auto currentDistance = 
@@ -134,8 +131,6 @@ vector<candidate_time_series_t> Group::intraGroupKSim(
     }
     currentMemberCoord = this->memberMap[currIndex * this->subTimeSeriesCount + currStart].prev;    
   }
-  // EXPERIMENT
-  extraTimeSeries -= k;
   return bestSoFar;
 }
 
-- 
2.43.0


From 23a6e9811e11bb53a80957e387bd504721a18432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:30:10 +0000
Subject: [PATCH 46/55] fix: never start more grouping threads than there are
 lengths to group

---
 genex/group/GlobalGroupSpace.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/genex/group/GlobalGroupSpace.cpp b/genex/group/GlobalGroupSpace.cpp
index 322bb68..e794d52 100644
--- a/genex/group/GlobalGroupSpace.cpp
+++ b/genex/group/GlobalGroupSpace.cpp
@@ -104,7 +104,8 @@ int GlobalGroupSpace::groupMultiThreaded(
   this->localLengthGroupSpace.resize(dataset.getMaxLength() + 1, nullptr);
   this->threshold = threshold;
   this->wholeSeriesOnly = wholeSeriesOnly;
-  ThreadPool pool(num_thread);
+  // There is one task per length, so more threads would have nothing to do.
+  ThreadPool pool(min<size_t>(num_thread, this->localLengthGroupSpace.size()));
   vector< std::future<int> > groupCounts;
 
   auto maxLength = this->localLengthGroupSpace.size();
-- 
2.43.0


From ffc918ad164844f3122f8ab1f3ee4ad1e0ba1e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:57:10 +0000
Subject: [PATCH 47/55] fix: restore the nearest member as representative from
 a text group file

---
 genex/group/Group.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/genex/group/Group.cpp b/genex/group/Group.cpp
index d66de0e..586f522 100644
--- a/genex/group/Group.cpp
+++ b/genex/group/Group.cpp
@@ -4,6 +4,7 @@
 #include <fstream>
 #include <vector>
 #include <algorithm>
+#include <cmath>
 
 #include "TimeSeries.hpp"
 #include "distance/Distance.hpp"
@@ -189,12 +190,23 @@ void Group::loadGroupOld(ifstream &fin)
     this->addLoadedMember(index, start);
   }
 
-  // Refer to the dataset if possible since only such a centroid can be saved again
+  // Refer to the dataset if possible since only such a centroid can be saved again. The
+  // printed values are rounded, so take the member nearest to them.
+  data_t nearest = INF;
+  member_coord_t nearestCoord;
   for (const auto& member : this->getMembers()) {
-    if (member == this->centroid) {
-      this->setCentroid(member.getIndex(), member.getStart());
-      break;
+    data_t diff = 0;
+    for (int i = 0; i < this->memberLength; i++) {
+      data_t scale = std::max(1.0, std::abs(member[i]));
+      diff = std::max(diff, std::abs(member[i] - this->centroid[i]) / scale);
     }
+    if (diff < nearest) {
+      nearest = diff;
+      nearestCoord = std::make_pair(member.getIndex(), member.getStart());
+    }
+  }
+  if (nearest <= EPS) {
+    this->setCentroid(nearestCoord.first, nearestCoord.second);
   }
 }
 
-- 
2.43.0


From cb40654af377989b72e2bcdb506a52259c3f7173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:11:45 +0000
Subject: [PATCH 48/55] fix: name all trailing arguments of getMatching in the
 Python module

The keyword list had two names for the last three parameters, so the
defaults of start2 and end2 were attached to end2 and distanceName.
Calls with keywords crashed the interpreter.
---
 pygenex/GENEXBindings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygenex/GENEXBindings.cpp b/pygenex/GENEXBindings.cpp
index 91f9259..914d89a 100644
--- a/pygenex/GENEXBindings.cpp
+++ b/pygenex/GENEXBindings.cpp
@@ -455,7 +455,7 @@ BOOST_PYTHON_MODULE(pygenex)
   py::def("saveGroupsSize", saveGroupsSize);
   py::def("loadGroups", loadGroups);
   py::def("distance", distance);
-  py::def("getMatching", getMatching, (py::arg("start2")=-1, py::arg("end2")=-1));
+  py::def("getMatching", getMatching, (py::arg("start2")=-1, py::arg("end2")=-1, py::arg("distanceName")));
   py::def("sim", sim, (py::arg("start")=-1, py::arg("end")=-1));
   py::def("ksim", ksim, (py::arg("start")=-1, py::arg("end")=-1));
   py::def("ksimbf", ksimbf, (py::arg("start")=-1, py::arg("end")=-1, py::arg("distance")="euclidean"));  
-- 
2.43.0


From e008d3acfebadfd878b1e63a1f3304dece68778a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:11:45 +0000
Subject: [PATCH 49/55] fix: bound the warping band before it becomes an
 integer

A large ratio gave a band that does not fit into an int, which then
became negative and left the distance without a value.
---
 genex/distance/Distance.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/genex/distance/Distance.cpp b/genex/distance/Distance.cpp
index d977e4d..6f1c9be 100644
--- a/genex/distance/Distance.cpp
+++ b/genex/distance/Distance.cpp
@@ -88,8 +88,8 @@ void setWarpingBandRatio(double ratio) {
 
 int calculateWarpingBandSize(int length)
 {
-  int bandSize = floor(length * warpingBandRatio);
-  return std::min(bandSize, length - 1);
+  double bandSize = floor(length * warpingBandRatio);
+  return bandSize < length - 1 ? (int) bandSize : length - 1;
 }
 
 Euclidean _euc;
-- 
2.43.0


From 1b7aaa812c6060bb9c047dee5859a2a32b13c629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:11:45 +0000
Subject: [PATCH 50/55] fix: reject a negative warping band ratio

A negative or undefined ratio gave a band without any cell and an
undefined distance.
---
 genex/distance/Distance.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/genex/distance/Distance.cpp b/genex/distance/Distance.cpp
index 6f1c9be..b43db48 100644
--- a/genex/distance/Distance.cpp
+++ b/genex/distance/Distance.cpp
@@ -83,6 +83,10 @@ const vector<string>& getAllDistanceName()
 double warpingBandRatio = 0.1;
 
 void setWarpingBandRatio(double ratio) {
+  if (!(ratio >= 0))
+  {
+    throw GenexException("Warping band ratio must not be negative");
+  }
   warpingBandRatio = ratio;
 }
 
-- 
2.43.0


From b91e2dd21306078e948b03f5c73d89a9a7961b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:24:24 +0000
Subject: [PATCH 51/55] fix: limit the band of the stream search to the query
 length

A band as wide as the query or wider made the envelope be written before
the start of its arrays.
---
 genex/lib/trillionDTW.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/genex/lib/trillionDTW.cpp b/genex/lib/trillionDTW.cpp
index aa5eb15..2bc9cad 100644
--- a/genex/lib/trillionDTW.cpp
+++ b/genex/lib/trillionDTW.cpp
@@ -265,6 +265,8 @@ int calculate(const char *dataPath, const char *queryPath, int queryLength, int
 
     int EPOCH = 100000;
     m=queryLength;
+    if (r > m-1)
+        r = m-1;         /// a wider band allows nothing more
 
     t1 = clock();
     fp = fopen(dataPath,"r");
-- 
2.43.0


From 81be64bd3a3971c847db6f77010df4c6c3102cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:42:19 +0000
Subject: [PATCH 52/55] fix: do not count points twice in the quick bound of
 short queries

The three points at the front and at the back overlap when the query has
fewer than six points. The bound was then too large and nearest windows
were skipped. Queries of two points were read out of bounds.
---
 genex/lib/trillionDTW.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/genex/lib/trillionDTW.cpp b/genex/lib/trillionDTW.cpp
index 2bc9cad..84f5735 100644
--- a/genex/lib/trillionDTW.cpp
+++ b/genex/lib/trillionDTW.cpp
@@ -75,7 +75,7 @@ data_t lb_kim_hierarchy(data_t *t, data_t *q, int j, int len, data_t mean, data_
     data_t x0 = (t[j] - mean) / std;
     data_t y0 = (t[(len-1+j)] - mean) / std;
     lb = dist(x0,q[0]) + dist(y0,q[len-1]);
-    if (lb >= bsf)   return lb;
+    if (lb >= bsf || len < 4)   return lb;
 
     /// 2 points at front
     data_t x1 = (t[(j+1)] - mean) / std;
@@ -89,7 +89,7 @@ data_t lb_kim_hierarchy(data_t *t, data_t *q, int j, int len, data_t mean, data_
     d = min(dist(y1,q[len-1]), dist(y0, q[len-2]) );
     d = min(d, dist(y1,q[len-2]));
     lb += d;
-    if (lb >= bsf)   return lb;
+    if (lb >= bsf || len < 6)   return lb;
 
     /// 3 points at front
     data_t x2 = (t[(j+2)] - mean) / std;
-- 
2.43.0


From d5e1a1c49b4966a0b793381d85e17c7bc18ed4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:45:25 +0000
Subject: [PATCH 53/55] fix: release all memory of the stream search

The read buffer and the order of the query stayed allocated, almost a
megabyte for each search.
---
 genex/lib/trillionDTW.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/genex/lib/trillionDTW.cpp b/genex/lib/trillionDTW.cpp
index 84f5735..4d2fdb6 100644
--- a/genex/lib/trillionDTW.cpp
+++ b/genex/lib/trillionDTW.cpp
@@ -554,6 +554,8 @@ int calculate(const char *dataPath, const char *queryPath, int queryLength, int
     free(u_d);
     free(l_buff);
     free(u_buff);
+    free(buffer);
+    free(order);
 
     t2 = clock();
     printf("\n");
-- 
2.43.0


From a940230b3b3381acf7b94bc2336193dabcba2181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:51:37 +0000
Subject: [PATCH 54/55] fix: end the stream search at text that is not a number

Such text was never consumed, so the last number was taken again and
again and the search did not end.
---
 genex/lib/trillionDTW.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/genex/lib/trillionDTW.cpp b/genex/lib/trillionDTW.cpp
index 4d2fdb6..d2a0041 100644
--- a/genex/lib/trillionDTW.cpp
+++ b/genex/lib/trillionDTW.cpp
@@ -353,7 +353,7 @@ int calculate(const char *dataPath, const char *queryPath, int queryLength, int
     j = 0;
     ex = ex2 = 0;
 
-    while(fscanf(qp,"%lf",&d) != EOF && i < m)
+    while(fscanf(qp,"%lf",&d) == 1 && i < m)
     {
         ex += d;
         ex2 += d*d;
@@ -411,7 +411,7 @@ int calculate(const char *dataPath, const char *queryPath, int queryLength, int
         ep=0;
         if (it==0)
         {   for(k=0; k<m-1; k++)
-                if (fscanf(fp,"%lf",&d) != EOF)
+                if (fscanf(fp,"%lf",&d) == 1)
                     buffer[k] = d;
         }
         else
@@ -422,7 +422,7 @@ int calculate(const char *dataPath, const char *queryPath, int queryLength, int
         /// Read buffer of size EPOCH or when all data has been read.
         ep=m-1;
         while(ep<EPOCH)
-        {   if (fscanf(fp,"%lf",&d) == EOF)
+        {   if (fscanf(fp,"%lf",&d) != 1)
                 break;
             buffer[ep] = d;
             ep++;
-- 
2.43.0


From e6c37dcef84d37bff62b2adcc2d32f81d28b9ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:49:39 +0000
Subject: [PATCH 55/55] fix: keep the number of printed digits after a timed
 command

---
 cli/GenexCLI.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cli/GenexCLI.cpp b/cli/GenexCLI.cpp
index 2eed8ec..7af0d1f 100644
--- a/cli/GenexCLI.cpp
+++ b/cli/GenexCLI.cpp
@@ -27,7 +27,9 @@
   {                                                                     \
     chrono::duration<float> elapsed_seconds = __end_time - __start_time;\
     cout << "Command executed in ";                                     \
-    cout << setprecision(4) << elapsed_seconds.count() << "s" << endl;  \
+    auto precision = cout.precision(4);                                 \
+    cout << elapsed_seconds.count() << "s" << endl;                     \
+    cout.precision(precision);                                          \
   }                                                                     \
 
 using namespace std;
-- 
2.43.0

