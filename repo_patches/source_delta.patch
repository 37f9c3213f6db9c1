From a4610696e13005bfa3cbe79b1458561724b77567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:24 +0000
Subject: [PATCH 01/46] fix: keep the warped distance inside the warping band

The first row and column were filled up to twice the band width and cells
outside the band held 0 or uninitialised pointers, so series whose lengths
differ by more than the band got a finite distance, and a comparison that is
false for every neighbour (infinity, NaN) read a cell outside the band.
---
 genex/distance/Distance.hpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index ea6f3a3..a62cb84 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -108,18 +108,14 @@ data_t warpedDistance(
 
   // create cost matrix
   vector< vector< T >> cost(m, vector< T >(n));
-  vector< vector< data_t >> ncost(m, vector<data_t>(n));
-
-  // Preset this in case this cell is never reached due to the warping
-  // band constraint
-  ncost[m - 1][n - 1] = INF;
+  vector< vector< data_t >> ncost(m, vector<data_t>(n, INF));
 
   cost[0][0] = metric->init();
   cost[0][0] = metric->reduce(cost[0][0], cost[0][0], a[0], b[0]);
   ncost[0][0] = metric->normDTW(cost[0][0], a, b);
 
   // calculate first column
-  for(int i = 1; i < min(2*r + 1, m); i++)
+  for(int i = 1; i < min(r + 1, m); i++)
   {
     cost[i][0] = metric->init();
     cost[i][0] = metric->reduce(cost[i][0], cost[i-1][0], a[i], b[0]);
@@ -127,7 +123,7 @@ data_t warpedDistance(
   }
 
   // calculate first row
-  for(int j = 1; j < min(2*r + 1, n); j++)
+  for(int j = 1; j < min(r + 1, n); j++)
   {
     cost[0][j] = metric->init();
     cost[0][j] = metric->reduce(cost[0][j], cost[0][j-1], a[0], b[j]);
@@ -149,7 +145,8 @@ data_t warpedDistance(
       auto ij1  = (i - r <= j-1 && j-1 <= i + r) ? ncost[i][j-1] : INF;
       auto i1j1 = ncost[i-1][j-1];
       auto i1j  = (j - r <= i-1 && i-1 <= j + r) ? ncost[i-1][j] : INF;
-      T minPrev = cost[i-1][j];
+      // The diagonal cell is always inside the band, the upper one may not be
+      T minPrev = (j - r <= i-1 && i-1 <= j + r) ? cost[i-1][j] : cost[i-1][j-1];
       if (i1j1 < ij1 && i1j1 < i1j)
       {
         minPrev = cost[i-1][j-1];
-- 
2.43.0


From 2b8cbc9a4e9a94971a95be4901004ef3cf893fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:24 +0000
Subject: [PATCH 02/46] fix: do not append to the placeholder matching

Every distance computation appended its warping path to the shared
gNoMatching vector, which therefore grew with every query and was written by
several threads. The path is now only computed when it is asked for.
---
 genex/distance/Distance.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index a62cb84..3fe4c80 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -177,7 +177,7 @@ data_t warpedDistance(
 
   int i = m - 1;
   int j = n - 1;
-  while ((i != 0) || (j != 0)) {
+  while (computeMatching && ((i != 0) || (j != 0))) {
     matching.push_back(coord_t {i, j});
     if (i == 0) {
       j--;
@@ -204,8 +204,10 @@ data_t warpedDistance(
       }
     }
   }
-  matching.push_back(coord_t {0, 0});
-  std::reverse(matching.begin(), matching.end());
+  if (computeMatching) {
+    matching.push_back(coord_t {0, 0});
+    std::reverse(matching.begin(), matching.end());
+  }
   for(int i = 1; i < m; i++)
   {
     for(int j = 1; j < n; j++)
-- 
2.43.0


From ff3732d56fb1bfdb86ca7ba78234c0cbc00f9912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:24 +0000
Subject: [PATCH 03/46] fix: terminate the matching when a cost is undefined

With NaN costs no neighbour equals the minimum and the backtracking loop
never advanced.
---
 genex/distance/Distance.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index 3fe4c80..3cb2443 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -202,6 +202,11 @@ data_t warpedDistance(
       else if (ncost[i][j - 1] == minNeighbor) {
         j--;
       }
+      else {
+        // Only with undefined (NaN) costs
+        i--;
+        j--;
+      }
     }
   }
   if (computeMatching) {
-- 
2.43.0


From cdf4068b970a02e9783823e0ab84a5a03ad32030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:24 +0000
Subject: [PATCH 04/46] fix: return the matching of two series of length one

---
 genex/distance/Distance.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index 3cb2443..cd9e37c 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -103,6 +103,9 @@ data_t warpedDistance(
     result = metric->reduce(result, result, a[0], b[0]);
     auto normalizedResult = metric->normDTW(result, a, b);
     metric->clean(result);
+    if (computeMatching) {
+      matching.push_back(coord_t {0, 0});
+    }
     return normalizedResult;
   }
 
-- 
2.43.0


From a9266ac97371ffa58ce9698145f065c8fcf77a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:24 +0000
Subject: [PATCH 05/46] fix: release the first row and column of the warping
 matrix

---
 genex/distance/Distance.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index cd9e37c..138fdfe 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -216,9 +216,9 @@ data_t warpedDistance(
     matching.push_back(coord_t {0, 0});
     std::reverse(matching.begin(), matching.end());
   }
-  for(int i = 1; i < m; i++)
+  for(int i = 0; i < m; i++)
   {
-    for(int j = 1; j < n; j++)
+    for(int j = 0; j < n; j++)
     {
       metric->clean(cost[i][j]);
     }
-- 
2.43.0


From b29edbddfd97593485302b0d0de1a9a6155ca6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:24 +0000
Subject: [PATCH 06/46] fix: refuse empty series in the warped distance

---
 genex/distance/Distance.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index 138fdfe..8dbec1e 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -91,6 +91,11 @@ data_t warpedDistance(
   auto n = b.getLength();
   auto r = calculateWarpingBandSize(max(m, n));
   
+  if (m == 0 || n == 0)
+  {
+    throw GenexException("Warped distance requires non-empty time series");
+  }
+
   static DM* metric;
   if (metric == nullptr) {
     metric = new DM();
-- 
2.43.0


From a8035f9e87c6be3f55ae07ddfbe02b5d731fa6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:24 +0000
Subject: [PATCH 07/46] fix: initialise the shared distance metric without a
 data race

Grouping with several threads reached the lazy initialisation concurrently.
---
 genex/distance/Distance.hpp | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index 8dbec1e..7be2c5f 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -96,10 +96,7 @@ data_t warpedDistance(
     throw GenexException("Warped distance requires non-empty time series");
   }
 
-  static DM* metric;
-  if (metric == nullptr) {
-    metric = new DM();
-  }
+  static DM* metric = new DM();
 
   // Fastpath for base intervals
   if (m == 1 && n == 1)
@@ -249,11 +246,7 @@ pairwiseDistance(
     throw GenexException("Two time series must have the same length for pairwise distance");
   }
 
-  static DM* metric = nullptr;
-  if (metric == nullptr)
-  {
-    metric = new DM();
-  }
+  static DM* metric = new DM();
 
   T total = metric->init();
 
@@ -292,11 +285,7 @@ pairwiseDistance(
     throw GenexException("Two time series must have the same length for pairwise distance");
   }
 
-  static DM* metric = nullptr;
-  if (metric == nullptr)
-  {
-    metric = new DM();
-  }
+  static DM* metric = new DM();
 
   T total = metric->init();
 
-- 
2.43.0


From 48a17f9295a57d57b47ef8343ecec88ad1fd7fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:24 +0000
Subject: [PATCH 08/46] fix: sorensen distance of two all-zero series is 0

---
 genex/distance/Sorensen.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/genex/distance/Sorensen.hpp b/genex/distance/Sorensen.hpp
index 3e4baf7..6901080 100644
--- a/genex/distance/Sorensen.hpp
+++ b/genex/distance/Sorensen.hpp
@@ -27,7 +27,8 @@ public:
 
   data_t norm(data_t* total, const TimeSeries& t_1, const TimeSeries& t_2) const
   {
-    return total[0] / total[1];
+    // Two all-zero series are identical
+    return total[0] == 0 ? 0 : total[0] / total[1];
   }
 
   data_t normDTW(data_t* total, const TimeSeries& t_1, const TimeSeries& t_2) const
-- 
2.43.0


From 8f903f25b3f0360fbe23771425cb572ce9d8aced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:52 +0000
Subject: [PATCH 09/46] fix: size the copy by the assigned time series

Copy assignment allocated and copied as many points as the old value had,
and assigning a series to itself read freed memory.
---
 genex/TimeSeries.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/genex/TimeSeries.cpp b/genex/TimeSeries.cpp
index a672d95..8cc926f 100755
--- a/genex/TimeSeries.cpp
+++ b/genex/TimeSeries.cpp
@@ -66,6 +66,9 @@ TimeSeries::TimeSeries(const TimeSeries& other)
 
 TimeSeries& TimeSeries::operator=(const TimeSeries& other)
 {
+  if (this == &other) {
+    return *this;
+  }
   if (isOwnerOfData) {
     // If the data is internal, remove it as it will be replaced soon
     delete[] this->data;
@@ -73,8 +76,8 @@ TimeSeries& TimeSeries::operator=(const TimeSeries& other)
   if (other.isOwnerOfData)
   {
     // If the data is internal to the TimeSeries, copy this data
-    this->data = new data_t[length];
-    memcpy(this->data, other.data, length * sizeof(data_t));
+    this->data = new data_t[other.length];
+    memcpy(this->data, other.data, other.length * sizeof(data_t));
   }
   else {
     // If the data is external, only need to copy the referring pointer
-- 
2.43.0


From 413825e60289189f7a7de06fd8ec46696db30e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:52 +0000
Subject: [PATCH 10/46] fix: recompute the envelopes when the data of a series
 changed

The cached envelopes survived assignment, element writes and normalization
of the dataset a series refers to, which made the lower bounds too large and
pruned good matches.
---
 genex/TimeSeries.cpp | 13 +++++++++++--
 genex/TimeSeries.hpp |  7 +++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/genex/TimeSeries.cpp b/genex/TimeSeries.cpp
index 8cc926f..0bec670 100755
--- a/genex/TimeSeries.cpp
+++ b/genex/TimeSeries.cpp
@@ -179,7 +179,7 @@ data_t TimeSeries::average() {
 
 const data_t* TimeSeries::getKeoghLower(int warpingBand) const
 {
-  if (!keoghCacheValid || warpingBand != cachedWarpingBand) {
+  if (!isKeoghCacheValid(warpingBand)) {
     this->generateKeoghLU(warpingBand);
     cachedWarpingBand = warpingBand;
   }
@@ -188,13 +188,21 @@ const data_t* TimeSeries::getKeoghLower(int warpingBand) const
 
 const data_t* TimeSeries::getKeoghUpper(int warpingBand) const
 {
-  if (!keoghCacheValid || warpingBand != cachedWarpingBand) {
+  if (!isKeoghCacheValid(warpingBand)) {
     this->generateKeoghLU(warpingBand);
     cachedWarpingBand = warpingBand;
   }
   return keoghUpper;
 }
 
+bool TimeSeries::isKeoghCacheValid(int warpingBand) const
+{
+  // The data may have been written to, reassigned or normalized since the envelopes were made
+  return keoghCacheValid && warpingBand == cachedWarpingBand
+    && static_cast<int>(cachedData.size()) == length
+    && std::equal(cachedData.begin(), cachedData.end(), data + start);
+}
+
 void TimeSeries::generateKeoghLU(int warpingBand) const
 {
   delete[] keoghLower;
@@ -211,6 +219,7 @@ void TimeSeries::generateKeoghLU(int warpingBand) const
   lower_upper_lemire(this->data + this->start, this->length, warpingBand,
                      this->keoghLower, this->keoghUpper);
 
+  cachedData.assign(this->data + this->start, this->data + this->start + this->length);
   keoghCacheValid = true;
 }
 
diff --git a/genex/TimeSeries.hpp b/genex/TimeSeries.hpp
index 542f161..23d97cc 100644
--- a/genex/TimeSeries.hpp
+++ b/genex/TimeSeries.hpp
@@ -6,6 +6,7 @@
 #include <iostream>
 #include <limits>
 #include <string>
+#include <vector>
 
 #include <boost/serialization/serialization.hpp>
 
@@ -170,6 +171,7 @@ private:
   mutable data_t* keoghLower = nullptr;
   mutable data_t* keoghUpper = nullptr;
   mutable double cachedWarpingBand;
+  mutable std::vector<data_t> cachedData;
 
   std::ostream &printData(std::ostream &out) const;
   
@@ -179,6 +181,11 @@ private:
    */
   void generateKeoghLU(int warpingBand) const;
 
+  /**
+   *  @brief returns true if the cached envelopes belong to the given band and the current data
+   */
+  bool isKeoghCacheValid(int warpingBand) const;
+
   /*************************
    *  Start serialization
    *************************/
-- 
2.43.0


From dd77aed43bd963213ff186864141736c1b88fd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:52 +0000
Subject: [PATCH 11/46] fix: compare views by range

Two series referring to the same dataset row always compared equal, whatever
parts of the row they covered.
---
 genex/TimeSeries.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genex/TimeSeries.cpp b/genex/TimeSeries.cpp
index 0bec670..f8171e3 100755
--- a/genex/TimeSeries.cpp
+++ b/genex/TimeSeries.cpp
@@ -151,7 +151,7 @@ TimeSeries& TimeSeries::operator+=(const TimeSeries& other)
 
 bool TimeSeries::operator==(const TimeSeries& other) const
 {
-  if (this->data == other.data) {
+  if (this->data == other.data && this->start == other.start && this->length == other.length) {
     return true;
   }
   else if (this->data == nullptr || other.data == nullptr) {
-- 
2.43.0


From b76a84d18cb4a3ad3c6242804784be6129be5f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:52 +0000
Subject: [PATCH 12/46] fix: initialise the sum in TimeSeries::average

---
 genex/TimeSeries.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genex/TimeSeries.cpp b/genex/TimeSeries.cpp
index f8171e3..b41036c 100755
--- a/genex/TimeSeries.cpp
+++ b/genex/TimeSeries.cpp
@@ -169,7 +169,7 @@ bool TimeSeries::operator==(const TimeSeries& other) const
 }
 
 data_t TimeSeries::average() {
-  data_t sum;
+  data_t sum = 0;
   for (int i = 0; i < this->length; i++) {
     sum += data[this->start + i];
   }
-- 
2.43.0


From de054e3b2415e5d4cf999a92e21bfec95be6bf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:50 +0000
Subject: [PATCH 13/46] fix: drop lengths, flags and groups when a dataset is
 cleared

Loading a second file into the same set kept the row lengths, the normalized
flag and the groups of the first one.
---
 genex/GroupableTimeSeriesSet.cpp | 6 ++++++
 genex/GroupableTimeSeriesSet.hpp | 5 +++++
 genex/TimeSeriesSet.cpp          | 2 ++
 genex/TimeSeriesSet.hpp          | 2 +-
 4 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index 1b75ad8..eef7014 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -86,6 +86,12 @@ void GroupableTimeSeriesSet::reset()
   this->groupsAllLengthSet = nullptr;
 }
 
+void GroupableTimeSeriesSet::clearData()
+{
+  reset();
+  TimeSeriesSet::clearData();
+}
+
 void GroupableTimeSeriesSet::saveGroupsOld(const string& path, bool groupSizeOnly) const
 {
   if (!this->isGrouped()) {
diff --git a/genex/GroupableTimeSeriesSet.hpp b/genex/GroupableTimeSeriesSet.hpp
index 29ba3a3..7080ddf 100644
--- a/genex/GroupableTimeSeriesSet.hpp
+++ b/genex/GroupableTimeSeriesSet.hpp
@@ -45,6 +45,11 @@ public:
    */
   void reset();
 
+  /**
+   *  @brief clears the data together with the groups made from it
+   */
+  void clearData() override;
+
   /**
    *  @brief check if the dataset is grouped
    */
diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index a4e7586..c895da0 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -176,6 +176,8 @@ void TimeSeriesSet::clearData()
   this->itemCount = 0;
   this->maxCol = 0;
   this->names.clear();
+  this->lengths.clear();
+  this->normalized = false;
 }
 
 TimeSeries TimeSeriesSet::getTimeSeries(int index, int start, int end) const
diff --git a/genex/TimeSeriesSet.hpp b/genex/TimeSeriesSet.hpp
index 84bd592..d61a45e 100644
--- a/genex/TimeSeriesSet.hpp
+++ b/genex/TimeSeriesSet.hpp
@@ -68,7 +68,7 @@ public:
   /**
    * @brief clears all data
    */
-  void clearData();
+  virtual void clearData();
 
   /**
    * @brief gets length of the specified time series in the dataset
-- 
2.43.0


From 9070392c7aa206e1feacc81ca3e14b3b0203e37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:50 +0000
Subject: [PATCH 14/46] fix: ignore rows beyond the row limit when sizing a
 dataset

The reported item length was that of the longest row of the file even if that
row was not loaded.
---
 genex/TimeSeriesSet.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index c895da0..9b21822 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -40,7 +40,7 @@ string TimeSeriesSet::getTimeSeriesName(int index) const
   return std::to_string(index);
 }
 
-std::pair<int, int> _getMaxRowsMaxColumns(std::ifstream& f, const string& separators)
+std::pair<int, int> _getMaxRowsMaxColumns(std::ifstream& f, const string& separators, int maxNumRow)
 {
   int lineCount = 0;
   int maxColumn = 0;
@@ -52,7 +52,7 @@ std::pair<int, int> _getMaxRowsMaxColumns(std::ifstream& f, const string& separa
   {
     tokenizer tokens(line, sep);
     length = std::distance(tokens.begin(), tokens.end());
-    if (maxColumn < length) {
+    if (maxColumn < length && (maxNumRow <= 0 || lineCount < maxNumRow)) {
       maxColumn = length;
     }
   }
@@ -75,7 +75,7 @@ void TimeSeriesSet::loadData(const string& filePath
     f.close();
     throw GenexException(string("Cannot open ") + filePath);
   }
-  auto maxRowMaxColumn = _getMaxRowsMaxColumns(f, separators);
+  auto maxRowMaxColumn = _getMaxRowsMaxColumns(f, separators, maxNumRow);
   if (maxNumRow <= 0) {
     maxNumRow = maxRowMaxColumn.first;
   }
-- 
2.43.0


From f05ec3cadbea78859d6ea550d877717d74fab46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:50 +0000
Subject: [PATCH 15/46] fix: treat rows without values as empty series

Rows shorter than the skipped columns got a negative length, which made
normalization run past the data, and a row without a name shifted the names
of all following rows. A negative first column wrote before the data.
---
 genex/TimeSeriesSet.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index 9b21822..4838271 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -69,6 +69,11 @@ void TimeSeriesSet::loadData(const string& filePath
 {
   this->clearData();
 
+  if (startCol < 0)
+  {
+    throw GenexException("Starting column must not be negative");
+  }
+
   std::ifstream f(filePath);
   if (!f.is_open())
   {
@@ -98,7 +103,8 @@ void TimeSeriesSet::loadData(const string& filePath
     if (getline(f, line))
     {
       tokenizer tokens(line, sep);
-      this->lengths.push_back(std::distance(tokens.begin(), tokens.end()) - startCol - hasNameCol);
+      int rowLength = std::distance(tokens.begin(), tokens.end()) - startCol - hasNameCol;
+      this->lengths.push_back(std::max(rowLength, 0));
       int col = 0;
       for (tokenizer::iterator tok_iter = tokens.begin();
            tok_iter != tokens.end(); tok_iter++, col++)
@@ -130,6 +136,10 @@ void TimeSeriesSet::loadData(const string& filePath
           }
         }
       }
+      // A row without a name is known by its position
+      if (hasNameCol && this->names.size() <= row) {
+        this->names.push_back(std::to_string(row));
+      }
     }
     else {
       break;
@@ -145,7 +155,7 @@ void TimeSeriesSet::loadData(const string& filePath
   }
 
   this->filePath = filePath;
-  this->maxCol = rawMaxCol - startCol - hasNameCol;
+  this->maxCol = std::max(rawMaxCol - startCol - hasNameCol, 0);
   f.close();
 }
 
-- 
2.43.0


From b9c22cb3de52dfe40223a5d37e250929ce313f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:50 +0000
Subject: [PATCH 16/46] fix: refuse values that are only partly numbers

Text such as "12abc" or "1:2" was loaded as the number it starts with.
Tiny (subnormal) numbers, which normalization can produce and save, are no
longer refused.
---
 genex/TimeSeriesSet.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index 4838271..4b059b9 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -4,7 +4,10 @@
 #include <string>
 #include <fstream>
 #include <iostream>
+#include <cmath>
+#include <cstdlib>
 #include <cstring>
+#include <stdexcept>
 #include <boost/tokenizer.hpp>
 
 #include "distance/Distance.hpp"
@@ -40,6 +43,21 @@ string TimeSeriesSet::getTimeSeriesName(int index) const
   return std::to_string(index);
 }
 
+data_t _parseValue(const string& token)
+{
+  char* end;
+  data_t value = std::strtod(token.c_str(), &end);
+  if (end == token.c_str() || token.find_first_not_of(" \t\r", end - token.c_str()) != string::npos)
+  {
+    throw std::invalid_argument(token);
+  }
+  if (std::abs(value) == HUGE_VAL && token.find_first_of("0123456789") != string::npos)
+  {
+    throw std::out_of_range(token);
+  }
+  return value;
+}
+
 std::pair<int, int> _getMaxRowsMaxColumns(std::ifstream& f, const string& separators, int maxNumRow)
 {
   int lineCount = 0;
@@ -119,7 +137,7 @@ void TimeSeriesSet::loadData(const string& filePath
             }
             else {
               int index = row * (rawMaxCol - startCol - hasNameCol) + (col - startCol - hasNameCol);
-              this->data[index] = (data_t)std::stod(*tok_iter);
+              this->data[index] = _parseValue(*tok_iter);
             }
           }
           catch (const std::invalid_argument& e)
-- 
2.43.0


From c0ec95710278e51bcde5e7f7f7fa4731577a9ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:50 +0000
Subject: [PATCH 17/46] fix: report read errors of a dataset file

The error state was cleared before it was looked at, so a directory loaded as
an empty dataset.
---
 genex/TimeSeriesSet.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index 4b059b9..13d7afa 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -74,6 +74,10 @@ std::pair<int, int> _getMaxRowsMaxColumns(std::ifstream& f, const string& separa
       maxColumn = length;
     }
   }
+  if (f.bad())
+  {
+    throw GenexException("Error while reading file");
+  }
   f.clear();
   f.seekg(0);
   return {lineCount, maxColumn};
-- 
2.43.0


From 82c2e08d12e7913e355bbfe3d5696f4f484e0f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:50 +0000
Subject: [PATCH 18/46] fix: save datasets with full precision

Values were written with six digits, so a saved dataset loaded back changed.
---
 genex/TimeSeriesSet.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index 13d7afa..e305ba9 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -3,7 +3,9 @@
 #include <algorithm>
 #include <string>
 #include <fstream>
+#include <iomanip>
 #include <iostream>
+#include <limits>
 #include <cmath>
 #include <cstdlib>
 #include <cstring>
@@ -189,6 +191,7 @@ void TimeSeriesSet::saveData(const string& filePath, char separator) const
     f.close();
     throw GenexException(string("Cannot open ") + filePath);
   }
+  f << std::setprecision(std::numeric_limits<data_t>::max_digits10);
   for (int i = 0; i < itemCount; i++) {
     if (!this->names.empty()) {
       f << names[i] << separator;
-- 
2.43.0


From 08383b77dd45d7fddad5e190c3c01232cea89668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:50 +0000
Subject: [PATCH 19/46] fix: check the index when a time series length is asked
 for

---
 genex/TimeSeriesSet.cpp | 9 +++++++++
 genex/TimeSeriesSet.hpp | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index e305ba9..e421a99 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -32,6 +32,15 @@ TimeSeriesSet::~TimeSeriesSet()
   this->clearData();
 }
 
+int TimeSeriesSet::getItemLength(int index) const
+{
+  if (index < 0 || index >= this->itemCount)
+  {
+    throw GenexException("Invalid time series index");
+  }
+  return this->lengths[index];
+}
+
 string TimeSeriesSet::getTimeSeriesName(int index) const
 {
   if (index < 0 || index >= this->itemCount)
diff --git a/genex/TimeSeriesSet.hpp b/genex/TimeSeriesSet.hpp
index d61a45e..1b8ca1d 100644
--- a/genex/TimeSeriesSet.hpp
+++ b/genex/TimeSeriesSet.hpp
@@ -75,7 +75,7 @@ public:
    *
    * @return length of each time series
    */
-  int getItemLength(int index) const { return this->lengths[index]; }
+  int getItemLength(int index) const;
 
   /**
    * @brief gets number of time series in the dataset
-- 
2.43.0


From 0e7bb47fe0f2f406c205db51b5db1d9fd6586ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:31 +0000
Subject: [PATCH 20/46] fix: use the length of each row in the PAA
 representation

The longest row length was used as a row index to look up one length for all
rows, which read past the row table and broke datasets with uneven rows. The
block size is no longer cut to that length, so a query longer than the target
is averaged with the block size that was asked for.
---
 genex/PAAWrapper.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/genex/PAAWrapper.cpp b/genex/PAAWrapper.cpp
index 355411e..13574d2 100644
--- a/genex/PAAWrapper.cpp
+++ b/genex/PAAWrapper.cpp
@@ -49,11 +49,10 @@ void PAAWrapper::generatePAAMatrix(int blockSize)
     throw GenexException("Block size for PAA must be positive");
   }
  
-  int itemLength = dataset.getItemLength(dataset.getMaxLength());
-  blockSize = min(blockSize, itemLength);
   for (int i = 0; i < dataset.getItemCount(); i++) {
+    int itemLength = dataset.getItemLength(i);
     this->paaMat[i].clear();
-    for (int offset = 0; offset < blockSize; offset++) {
+    for (int offset = 0; offset < min(blockSize, itemLength); offset++) {
       TimeSeries paaTS = tsPAA(dataset.getTimeSeries(i, offset, itemLength), blockSize);      
       this->paaMat[i].push_back(paaTS);
     }
@@ -106,13 +105,13 @@ vector<candidate_time_series_t> PAAWrapper::getKBestMatchesPAA(
 
   auto warpedDistance = getDistanceFromName(distanceName + DTW_SUFFIX);
   data_t bestSoFarDist, currentDist;
-  auto timeSeriesLength = dataset.getItemLength(dataset.getMaxLength());
   auto numberTimeSeries = dataset.getItemCount();
   auto paaQuery = tsPAA(query, this->blockSize);
 
   // iterate through every timeseries
   for (int idx = 0; idx < numberTimeSeries; idx++)
   {
+    auto timeSeriesLength = dataset.getItemLength(idx);
     // iterate through every length of interval
     for (int intervalLength = 2; intervalLength <= timeSeriesLength;
         intervalLength++) 
-- 
2.43.0


From 445e70321bfdce72f6482504efc003f7e50641b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:31 +0000
Subject: [PATCH 21/46] fix: refuse an empty query in PAA search

---
 genex/PAAWrapper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/genex/PAAWrapper.cpp b/genex/PAAWrapper.cpp
index 13574d2..b742f61 100644
--- a/genex/PAAWrapper.cpp
+++ b/genex/PAAWrapper.cpp
@@ -100,6 +100,9 @@ vector<candidate_time_series_t> PAAWrapper::getKBestMatchesPAA(
   if (k <= 0) {
     throw GenexException("K must be positive");
   }
+  if (query.getLength() == 0) {
+    throw GenexException("Query must not be empty");
+  }
 
   vector<candidate_time_series_t> bestSoFar;
 
-- 
2.43.0


From eba431eabfb100f2d81f0807208e94afaf87b264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:31 +0000
Subject: [PATCH 22/46] fix: forget the PAA representation together with its
 dataset

Unloading a dataset kept its PAA representation, which then referred to freed
data when another dataset was loaded under the same name.
---
 genex/GenexAPI.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/genex/GenexAPI.cpp b/genex/GenexAPI.cpp
index 638c498..cae7795 100644
--- a/genex/GenexAPI.cpp
+++ b/genex/GenexAPI.cpp
@@ -62,7 +62,7 @@ void GenexAPI::unloadDataset(const string& name)
   this->_loadedDatasets[name] = nullptr;
   this->_loadedDatasets.erase(name);
 
-  if (this->_paaWrappers.find(name) == this->_paaWrappers.end())
+  if (this->_paaWrappers.find(name) != this->_paaWrappers.end())
   {
     delete this->_paaWrappers[name];
     this->_paaWrappers[name] = nullptr;
@@ -78,6 +78,11 @@ void GenexAPI::unloadAllDataset()
     delete this->_loadedDatasets[pair.first];
   }
   this->_loadedDatasets.clear();
+  for (auto const& pair : this->_paaWrappers)
+  {
+    delete pair.second;
+  }
+  this->_paaWrappers.clear();
   this->_datasetCount = 0;
 }
 
-- 
2.43.0


From 1a42434a02e655c8af9d86daf715c341443b031e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:31 +0000
Subject: [PATCH 23/46] fix: do not count a dataset as prepared when preparing
 PAA failed

A refused block size left an unfinished PAA representation behind whose block
size was never set.
---
 genex/GenexAPI.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/genex/GenexAPI.cpp b/genex/GenexAPI.cpp
index cae7795..dbfe22c 100644
--- a/genex/GenexAPI.cpp
+++ b/genex/GenexAPI.cpp
@@ -6,6 +6,7 @@
 #include "distance/Distance.hpp"
 #include "IO.hpp"
 
+#include <memory>
 #include <vector>
 #include <iostream>
 
@@ -223,15 +224,10 @@ GenexAPI::getKBestMatchesBruteForce(int k, const string& target_name, const stri
 
 void GenexAPI::preparePAA(const string& name, int blockSize) {
   this->_checkDatasetName(name);
-  PAAWrapper* wrapper;
-  if (this->_paaWrappers.find(name) != this->_paaWrappers.end()) {
-    wrapper = this->_paaWrappers[name];
-  }
-  else {
-    wrapper = new PAAWrapper(*(this->_loadedDatasets[name]));
-    this->_paaWrappers[name] = wrapper;
-  }
+  std::unique_ptr<PAAWrapper> wrapper(new PAAWrapper(*(this->_loadedDatasets[name])));
   wrapper->generatePAAMatrix(blockSize);
+  delete this->_paaWrappers[name];
+  this->_paaWrappers[name] = wrapper.release();
 }
 
 vector<candidate_time_series_t>
-- 
2.43.0


From e33af003cd5c8595692edfd1f27055feb7ac118a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:31 +0000
Subject: [PATCH 24/46] fix: update the PAA representation when a dataset is
 normalized

---
 genex/GenexAPI.cpp   | 9 ++++++++-
 genex/PAAWrapper.hpp | 5 +++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/genex/GenexAPI.cpp b/genex/GenexAPI.cpp
index dbfe22c..2f4cf20 100644
--- a/genex/GenexAPI.cpp
+++ b/genex/GenexAPI.cpp
@@ -149,7 +149,14 @@ TimeSeries GenexAPI::getTimeSeries(const string& name, int idx, int start, int e
 std::pair<data_t, data_t> GenexAPI::normalizeDataset(const string& name)
 {
   this->_checkDatasetName(name);
-  return this->_loadedDatasets[name]->normalize();
+  auto minMax = this->_loadedDatasets[name]->normalize();
+  if (this->_paaWrappers.find(name) != this->_paaWrappers.end())
+  {
+    // The block averages must follow the data
+    auto wrapper = this->_paaWrappers[name];
+    wrapper->generatePAAMatrix(wrapper->getBlockSize());
+  }
+  return minMax;
 }
 
 int GenexAPI::groupDataset(
diff --git a/genex/PAAWrapper.hpp b/genex/PAAWrapper.hpp
index 8d53a63..61d2c5a 100644
--- a/genex/PAAWrapper.hpp
+++ b/genex/PAAWrapper.hpp
@@ -51,6 +51,11 @@ public:
   std::vector<candidate_time_series_t> getKBestMatchesPAA(
     const TimeSeries& query, int k, const string& distanceName);
 
+  /**
+   *  @return the block size of the current PAA matrix
+   */
+  int getBlockSize() const { return this->blockSize; }
+
 private:
   const TimeSeriesSet& dataset;
   int blockSize;
-- 
2.43.0


From 089e1a32f01aa33f2cea375e7a2c7e8b8928c4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:42 +0000
Subject: [PATCH 25/46] fix: do not divide by zero when reporting progress on
 small datasets

Grouping crashed when fewer than five subsequences of a length had to be
grouped more than ten seconds after the last progress report.
---
 genex/group/LocalLengthGroupSpace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genex/group/LocalLengthGroupSpace.cpp b/genex/group/LocalLengthGroupSpace.cpp
index 09ba1cd..da16fea 100644
--- a/genex/group/LocalLengthGroupSpace.cpp
+++ b/genex/group/LocalLengthGroupSpace.cpp
@@ -67,7 +67,7 @@ int LocalLengthGroupSpace::generateGroups(const dist_t pairwiseDistance, data_t
     {
       counter++;
       if (doLog) {
-        if (counter % (totalTimeSeries / LOG_FREQ) == 0) {
+        if (counter % std::max(totalTimeSeries / LOG_FREQ, 1) == 0) {
           cout << "  Grouping progress... " << counter << "/" << totalTimeSeries 
                << " (" << counter*100/totalTimeSeries << "%)" << endl;
         }
-- 
2.43.0


From 97d5122714c5e99005a1257aaa12650f9c14af5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:05 +0000
Subject: [PATCH 26/46] fix: handle queries longer than the target dataset

A query longer than every series of the target looked up groups past the end
of the table, and a query that no group can be compared with dereferenced a
null pointer.
---
 genex/group/GlobalGroupSpace.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/genex/group/GlobalGroupSpace.cpp b/genex/group/GlobalGroupSpace.cpp
index 8cdd3f7..7eeaf3a 100644
--- a/genex/group/GlobalGroupSpace.cpp
+++ b/genex/group/GlobalGroupSpace.cpp
@@ -157,6 +157,9 @@ GlobalGroupSpace::getBestMatch(const TimeSeries& query)
       }
     }
   }
+  if (bestSoFarGroup == nullptr) {
+    throw GenexException("No group can be compared with the query");
+  }
   return bestSoFarGroup->getBestMatch(query, this->warpedDistance);
 }
 
@@ -254,7 +257,8 @@ vector<int> generateTraverseOrder(int queryLength, int totalLength)
   int high = queryLength + 1;
   bool lowStop = false, highStop = false;
 
-  order.push_back(queryLength);
+  // Lengths beyond totalLength have no groups
+  if (queryLength <= totalLength) order.push_back(queryLength);
   while (!(lowStop && highStop)) {
     if (low < 2) lowStop = true;
     if (high > totalLength) highStop = true;
@@ -263,7 +267,7 @@ vector<int> generateTraverseOrder(int queryLength, int totalLength)
       // queryLength is always larger than low
       int r = calculateWarpingBandSize(queryLength);
       if (low + r >= queryLength) {
-        order.push_back(low);
+        if (low <= totalLength) order.push_back(low);
         low--;
       }
       else {
-- 
2.43.0


From 54d86f823ba5a0ef1f14cd868908c510a6f0a61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:05 +0000
Subject: [PATCH 27/46] fix: do not pad the k best matches with empty results

When fewer than k subsequences could be compared with the query the list was
filled up with results that refer to no data. A k below one is refused.
---
 genex/GroupableTimeSeriesSet.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index eef7014..9183ad8 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -161,13 +161,18 @@ GroupableTimeSeriesSet::getKBestMatches(const TimeSeries& query, int k, int h)
 {
   if (this->groupsAllLengthSet) //not nullptr
   {
+    if (k <= 0) {
+      throw GenexException("K must be positive");
+    }
     if (h < k) {
       throw GenexException("Number of examined time series must be larger than "
                            "or equal to the number of time series to look for");
     }
     auto results = this->groupsAllLengthSet->getKBestMatches(query, h);
     std::sort(results.begin(), results.end());
-    results.resize(k);
+    if (results.size() > k) {
+      results.resize(k);
+    }
     return results;
   }
   throw GenexException("Dataset is not grouped");
-- 
2.43.0


From b0432ad6d58b9d7b99868c2aca2b6b533b4d8619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:05 +0000
Subject: [PATCH 28/46] fix: keep the old groups when a grouping request is
 refused

A request with an unknown distance or a bad number of threads dropped the
existing groups and left the dataset marked as grouped without any groups.
---
 genex/GroupableTimeSeriesSet.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index 9183ad8..81dc938 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -27,6 +27,18 @@ int GroupableTimeSeriesSet::groupAllLengths(
     throw GenexException("No data to group");
   }
 
+  // Check everything that can be refused before the old groups are gone
+  if (numThreads < 1)
+  {
+    throw GenexException("Number of threads must be positive");
+  }
+  if (wholeSeriesOnly && this->getMaxLength() == 0)
+  {
+    throw GenexException("No data to group");
+  }
+  getDistanceFromName(distanceName);
+  getDistanceFromName(distanceName + DTW_SUFFIX);
+
   // clear old groups
   reset();
 
-- 
2.43.0


From f1ae4f815c479e396a43ee93b8fb9ad81819546e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:16 +0000
Subject: [PATCH 29/46] fix: report failed writes of a group file

Saving groups to a full disk ended without an error. Saving a dataset that is
not grouped no longer empties an existing file before it is refused.
---
 genex/IO.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/genex/IO.hpp b/genex/IO.hpp
index 874aa96..1ed9f0d 100644
--- a/genex/IO.hpp
+++ b/genex/IO.hpp
@@ -10,6 +10,7 @@
 #include <iostream>
 
 #include <fstream>
+#include <sstream>
 
 #include "TimeSeries.hpp"
 #include "Exception.hpp"
@@ -21,25 +22,32 @@ namespace genex {
 
 template<typename A>
 void saveToFile(const A & obj, const std::string & fname) {
-    std::ofstream ofs(fname, std::ios::binary);
-    if (ofs)
+    // compress in memory so that the file is only touched when there is something to save
+    std::ostringstream content;
     {
         boost::iostreams::filtering_ostreambuf filter_osbuf;
 
-        // push the ofstream and the compressor
+        // push the content buffer and the compressor
         filter_osbuf.push(
             boost::iostreams::zlib_compressor(boost::iostreams::zlib::best_compression));
-        filter_osbuf.push(ofs);
+        filter_osbuf.push(content);
 
         // start the archive on the filtering buffer
         boost::archive::binary_oarchive boa(filter_osbuf);
 
         boa << obj;
     }
-    else 
+    std::ofstream ofs(fname, std::ios::binary);
+    if (!ofs)
     {
         throw GenexException("Cannot open file");    
     }
+    ofs << content.str();
+    ofs.close();
+    if (!ofs)
+    {
+        throw GenexException("Cannot write file");
+    }
 }
 
 template<typename A>
-- 
2.43.0


From e1d3231e92a867508d18a24d157a5ad96251a2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:16 +0000
Subject: [PATCH 30/46] fix: report failed writes of dataset and text group
 files

---
 genex/GroupableTimeSeriesSet.cpp | 5 +++++
 genex/TimeSeriesSet.cpp          | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index 81dc938..df77658 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -119,6 +119,11 @@ void GroupableTimeSeriesSet::saveGroupsOld(const string& path, bool groupSizeOnl
          << this->getItemCount() << " "
          << this->getMaxLength() << endl;
     this->groupsAllLengthSet->saveGroupsOld(fout, groupSizeOnly);
+    fout.close();
+    if (!fout)
+    {
+      throw GenexException("Cannot write file");
+    }
   }
   else
   {
diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index e421a99..3cb865c 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -211,6 +211,10 @@ void TimeSeriesSet::saveData(const string& filePath, char separator) const
     f << endl;
   }
   f.close();
+  if (!f)
+  {
+    throw GenexException(string("Cannot write ") + filePath);
+  }
 }
 
 void TimeSeriesSet::clearData()
-- 
2.43.0


From 564db03fdba8ae31078a9d4d518cf560fc382643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:08 +0000
Subject: [PATCH 31/46] fix: restore groups completely or not at all

A damaged or foreign group file left the dataset with broken or partial
groups, or wrote outside of the group tables. Group files are now checked
while they are read and the current groups are only replaced by a complete
partition. Text files restore the threshold, whole-series groups stay
whole-series groups, and members keep their order so that ties are resolved as
before saving.
---
 genex/GroupableTimeSeriesSet.cpp      | 19 ++++++++++++-------
 genex/GroupableTimeSeriesSet.hpp      |  7 +++++--
 genex/group/GlobalGroupSpace.cpp      | 18 +++++++++++++++---
 genex/group/GlobalGroupSpace.hpp      | 11 +++++++++--
 genex/group/Group.cpp                 | 27 ++++++++++++++++++++++++++-
 genex/group/Group.hpp                 | 12 ++++++++++--
 genex/group/LocalLengthGroupSpace.cpp | 20 ++++++++++++++++++--
 genex/group/LocalLengthGroupSpace.hpp |  9 ++++++++-
 8 files changed, 103 insertions(+), 20 deletions(-)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index df77658..7e78c4b 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -139,7 +139,10 @@ int GroupableTimeSeriesSet::loadGroupsOld(const string& path)
   {
     int version, grpItemCount, grpItemLength;
     data_t threshold;
-    fin >> version >> threshold >> grpItemCount >> grpItemLength;
+    if (!(fin >> version >> threshold >> grpItemCount >> grpItemLength))
+    {
+      throw GenexException("Invalid group file");
+    }
     if (version != GROUP_FILE_VERSION)
     {
       throw GenexException("Incompatible file version");
@@ -148,14 +151,16 @@ int GroupableTimeSeriesSet::loadGroupsOld(const string& path)
     {
       throw GenexException("Incompatible item count");
     }
-    // if (grpItemLength != this->getItemLength())
-    // {
-    //   throw GenexException("Incompatible item length");
-    // }
+    if (grpItemLength != this->getMaxLength())
+    {
+      throw GenexException("Incompatible item length");
+    }
     cout << "Saved groups are compatible with the dataset" << endl;
+    // The current groups are only replaced by complete ones
+    std::unique_ptr<GlobalGroupSpace> newGroups(new GlobalGroupSpace(*this));
+    numberOfGroups = newGroups->loadGroupsOld(fin, threshold);
     reset();
-    this->groupsAllLengthSet = new GlobalGroupSpace(*this);
-    numberOfGroups = this->groupsAllLengthSet->loadGroupsOld(fin);
+    this->groupsAllLengthSet = newGroups.release();
   }
   else
   {
diff --git a/genex/GroupableTimeSeriesSet.hpp b/genex/GroupableTimeSeriesSet.hpp
index 7080ddf..76071bd 100644
--- a/genex/GroupableTimeSeriesSet.hpp
+++ b/genex/GroupableTimeSeriesSet.hpp
@@ -1,6 +1,7 @@
 #ifndef GROUPABLE_TIME_SERIES_SET_H
 #define GROUPABLE_TIME_SERIES_SET_H
 
+#include <memory>
 #include <vector>
 #include <boost/serialization/serialization.hpp>
 #include <boost/serialization/split_member.hpp>
@@ -120,9 +121,11 @@ private:
     {
       throw GenexException("Incompatible item length");
     }
+    // The current groups are only replaced by complete ones
+    std::unique_ptr<GlobalGroupSpace> newGroups(new GlobalGroupSpace(*this));
+    ar >> *newGroups;
     reset();
-    this->groupsAllLengthSet = new GlobalGroupSpace(*this);
-    ar >> *(this->groupsAllLengthSet);
+    this->groupsAllLengthSet = newGroups.release();
   }
 
   BOOST_SERIALIZATION_SPLIT_MEMBER()
diff --git a/genex/group/GlobalGroupSpace.cpp b/genex/group/GlobalGroupSpace.cpp
index 7eeaf3a..579daca 100644
--- a/genex/group/GlobalGroupSpace.cpp
+++ b/genex/group/GlobalGroupSpace.cpp
@@ -231,21 +231,33 @@ void GlobalGroupSpace::saveGroupsOld(ofstream &fout, bool groupSizeOnly) const
   }
 }
 
-int GlobalGroupSpace::loadGroupsOld(ifstream &fin)
+void GlobalGroupSpace::_checkLengths(int minLen, int maxLen)
+{
+  if (maxLen != dataset.getMaxLength() + 1 || (minLen != 2 && minLen != maxLen - 1)) {
+    throw GenexException("Incompatible item length");
+  }
+  this->wholeSeriesOnly = minLen != 2;
+}
+
+int GlobalGroupSpace::loadGroupsOld(ifstream &fin, data_t threshold)
 {
   reset();
 
   int lenFrom, lenTo;
   string distance;
-  fin >> lenFrom >> lenTo >> distance;
+  if (!(fin >> lenFrom >> lenTo >> distance)) {
+    throw GenexException("Invalid group file");
+  }
+  this->_checkLengths(lenFrom, lenTo);
   boost::trim_right(distance);
   this->_loadDistance(distance);
+  this->threshold = threshold;
   this->localLengthGroupSpace.resize(dataset.getMaxLength() + 1, nullptr);
   this->totalNumberOfGroups = 0;  
   for (auto i = lenFrom; i < lenTo; i++) {
     auto gel = new LocalLengthGroupSpace(dataset, i);
-    this->totalNumberOfGroups += gel->loadGroupsOld(fin);
     this->localLengthGroupSpace[i] = gel;
+    this->totalNumberOfGroups += gel->loadGroupsOld(fin);
   }
   return this->totalNumberOfGroups;
 }
diff --git a/genex/group/GlobalGroupSpace.hpp b/genex/group/GlobalGroupSpace.hpp
index 6378708..41e11c2 100644
--- a/genex/group/GlobalGroupSpace.hpp
+++ b/genex/group/GlobalGroupSpace.hpp
@@ -79,7 +79,7 @@ public:
   std::vector<candidate_time_series_t> getKBestMatches(const TimeSeries& query, int k);
   
   void saveGroupsOld(std::ofstream &fout, bool groupSizeOnly) const;
-  int loadGroupsOld(std::ifstream &fin);
+  int loadGroupsOld(std::ifstream &fin, data_t threshold);
 
 private:
   std::string distanceName;
@@ -94,6 +94,12 @@ private:
   int _group(int i);
   int _getMinLength() const;
 
+  /**
+   *  Checks the range of lengths found in a group file and notes whether only whole series are
+   *  grouped.
+   */
+  void _checkLengths(int minLen, int maxLen);
+
   /*************************
    *  Start serialization
    *************************/
@@ -114,13 +120,14 @@ private:
   {
     size_t maxLen, minLen;
     ar >> minLen >> maxLen >> this->distanceName >> this->threshold;
+    this->_checkLengths(minLen, maxLen);
     this->_loadDistance(this->distanceName);
     this->localLengthGroupSpace.resize(dataset.getMaxLength() + 1, nullptr);
     this->totalNumberOfGroups = 0;
     for (auto i = minLen; i < maxLen; i++) {
       auto llgs = new LocalLengthGroupSpace(dataset, i);
-      ar >> *llgs;
       this->localLengthGroupSpace[i] = llgs;
+      ar >> *llgs;
       this->totalNumberOfGroups += llgs->getNumberOfGroups();
     }
   }
diff --git a/genex/group/Group.cpp b/genex/group/Group.cpp
index 7ed8f13..52340a9 100644
--- a/genex/group/Group.cpp
+++ b/genex/group/Group.cpp
@@ -5,6 +5,7 @@
 #include <vector>
 #include <algorithm>
 
+#include "Exception.hpp"
 #include "TimeSeries.hpp"
 #include "distance/Distance.hpp"
 
@@ -165,8 +166,32 @@ void Group::loadGroupOld(ifstream &fin)
 
   fin >> cnt; 
   int index, start;
-  for (int i = 0; i < cnt; i++) {
+  vector<member_coord_t> members;
+  for (int i = 0; fin && i < cnt; i++) {
     fin >> index >> start;
+    members.push_back(std::make_pair(index, start));
+  }
+  if (!fin) {
+    throw GenexException("Invalid group file");
+  }
+  this->_restoreMembers(members);
+  // The first member of a group is its centroid
+  this->setCentroid(members.back().first, members.back().second);
+}
+
+void Group::_restoreMembers(const vector<member_coord_t>& members)
+{
+  if (members.empty()) {
+    throw GenexException("Invalid group file");
+  }
+  for (int i = members.size() - 1; i >= 0; i--) {
+    int index = members[i].first;
+    int start = members[i].second;
+    if (index < 0 || index >= this->dataset.getItemCount() || start < 0
+        || start > this->dataset.getItemLength(index) - this->memberLength
+        || this->memberMap[index * this->subTimeSeriesCount + start].groupIndex != -1) {
+      throw GenexException("Invalid group file");
+    }
     this->addMember(index, start);
   }
 }
diff --git a/genex/group/Group.hpp b/genex/group/Group.hpp
index 9487825..38c3ce0 100644
--- a/genex/group/Group.hpp
+++ b/genex/group/Group.hpp
@@ -27,7 +27,7 @@ struct group_membership_t
   member_coord_t prev;
   int groupIndex;
 
-  group_membership_t() {}
+  group_membership_t() : groupIndex(-1) {}
   group_membership_t(int groupIndex, member_coord_t prev)
     : groupIndex(groupIndex), prev(prev) {}
 };
@@ -172,6 +172,12 @@ private:
 
   TimeSeries centroid;
 
+  /**
+   *  Adds members in the reverse of the order in which they were saved, which is the order in
+   *  which they were added when the group was made.
+   */
+  void _restoreMembers(const std::vector<member_coord_t>& members);
+
   /*************************
    *  Start serialization
    *************************/
@@ -199,11 +205,13 @@ private:
     this->setCentroid(cindex, cstart);
     int cnt;
     ar >> cnt;
+    std::vector<member_coord_t> members;
     for (int i = 0; i < cnt; i++) {
       int index, start;
       ar >> index >> start;
-      this->addMember(index, start);
+      members.push_back(std::make_pair(index, start));
     }
+    this->_restoreMembers(members);
   }
 
   BOOST_SERIALIZATION_SPLIT_MEMBER()
diff --git a/genex/group/LocalLengthGroupSpace.cpp b/genex/group/LocalLengthGroupSpace.cpp
index da16fea..97ec227 100644
--- a/genex/group/LocalLengthGroupSpace.cpp
+++ b/genex/group/LocalLengthGroupSpace.cpp
@@ -146,7 +146,9 @@ int LocalLengthGroupSpace::loadGroupsOld(ifstream &fin)
 {
   reset();
   int numberOfGroups;
-  fin >> numberOfGroups;
+  if (!(fin >> numberOfGroups)) {
+    throw GenexException("Invalid group file");
+  }
   for (auto i = 0; i < numberOfGroups; i++)
   {
     auto grp = new Group(i
@@ -154,12 +156,26 @@ int LocalLengthGroupSpace::loadGroupsOld(ifstream &fin)
                          , this->subTimeSeriesCount
                          , this->dataset
                          , this->memberMap);
-    grp->loadGroupOld(fin);
     this->groups.push_back(grp);
+    grp->loadGroupOld(fin);
   }
+  this->_checkMembers();
   return numberOfGroups;
 }
 
+void LocalLengthGroupSpace::_checkMembers() const
+{
+  for (int idx = 0; idx < dataset.getItemCount(); idx++)
+  {
+    for (int start = 0; start + this->length <= dataset.getItemLength(idx); start++)
+    {
+      if (this->memberMap[idx * this->subTimeSeriesCount + start].groupIndex == -1) {
+        throw GenexException("Invalid group file");
+      }
+    }
+  }
+}
+
 candidate_group_t LocalLengthGroupSpace::getBestGroup(const TimeSeries& query,
   const dist_t warpedDistance,
   data_t dropout) const
diff --git a/genex/group/LocalLengthGroupSpace.hpp b/genex/group/LocalLengthGroupSpace.hpp
index 0c9f82d..a5748da 100644
--- a/genex/group/LocalLengthGroupSpace.hpp
+++ b/genex/group/LocalLengthGroupSpace.hpp
@@ -83,6 +83,12 @@ private:
   vector<Group*> groups;
   vector<group_membership_t> memberMap;
 
+  /**
+   *  Checks that every subsequence of this length belongs to a group.
+   *  @throw GenexException if there is one that does not
+   */
+  void _checkMembers() const;
+
   /*************************
    *  Start serialization
    *************************/
@@ -109,9 +115,10 @@ private:
                          , this->subTimeSeriesCount
                          , this->dataset
                          , this->memberMap);
-      ar >> *g;
       this->groups.push_back(g);
+      ar >> *g;
     }
+    this->_checkMembers();
   }
 
   BOOST_SERIALIZATION_SPLIT_MEMBER()
-- 
2.43.0


From 676c18ab49a15b9b2a18b05273512028b97f2311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:08 +0000
Subject: [PATCH 32/46] fix: verify the checksum of a group file and report
 damage as an error

The file was restored while it was decompressed, so the checksum at its end was
never looked at. Errors of the decompressor and the archive reached the caller
as foreign exceptions.
---
 genex/IO.hpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/genex/IO.hpp b/genex/IO.hpp
index 1ed9f0d..acc2364 100644
--- a/genex/IO.hpp
+++ b/genex/IO.hpp
@@ -4,6 +4,7 @@
 #include <boost/archive/binary_oarchive.hpp>
 #include <boost/archive/text_iarchive.hpp>
 #include <boost/archive/text_oarchive.hpp>
+#include <boost/iostreams/copy.hpp>
 #include <boost/iostreams/device/file.hpp>
 #include <boost/iostreams/filter/zlib.hpp>
 #include <boost/iostreams/filtering_streambuf.hpp>
@@ -61,10 +62,25 @@ void loadFromFile(A & obj, const std::string & fname) {
         filter_isbuf.push(boost::iostreams::zlib_decompressor());
         filter_isbuf.push(ifs);
 
-        // start the archive on the filtering buffer
-        boost::archive::binary_iarchive bia(filter_isbuf);
+        try
+        {
+            // decompress everything first, which also verifies the checksum
+            std::stringstream content;
+            boost::iostreams::copy(filter_isbuf, content);
+
+            // start the archive on the decompressed content
+            boost::archive::binary_iarchive bia(content);
 
-        bia >> obj;
+            bia >> obj;
+        }
+        catch (const GenexException& e)
+        {
+            throw;
+        }
+        catch (const std::exception& e)
+        {
+            throw GenexException(std::string("Invalid group file: ") + e.what());
+        }
     }
     else 
     {
-- 
2.43.0


From d15f390689d962511a29806dae62832afa3a299e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:20 +0000
Subject: [PATCH 33/46] fix: save the threshold with full precision in text
 group files

---
 genex/GroupableTimeSeriesSet.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index 7e78c4b..55025f6 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -1,5 +1,7 @@
 #include <iostream>
 #include <fstream>
+#include <iomanip>
+#include <limits>
 
 #include "IO.hpp"
 #include "GroupableTimeSeriesSet.hpp"
@@ -114,7 +116,8 @@ void GroupableTimeSeriesSet::saveGroupsOld(const string& path, bool groupSizeOnl
   if (fout)
   {
     // Version of the file format, the threshold and the required dataset dimensions
-    fout << GROUP_FILE_VERSION << " "
+    fout << std::setprecision(std::numeric_limits<data_t>::max_digits10)
+         << GROUP_FILE_VERSION << " "
          << this->getThreshold() << " "
          << this->getItemCount() << " "
          << this->getMaxLength() << endl;
-- 
2.43.0


From f65b3c9b2561de21d11f1748950e618ec232deed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:17 +0000
Subject: [PATCH 34/46] fix: refuse group files with a negative centroid
 position

A negative start and end selected the whole series as the centroid.
---
 genex/group/Group.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/genex/group/Group.hpp b/genex/group/Group.hpp
index 38c3ce0..5aaf2f5 100644
--- a/genex/group/Group.hpp
+++ b/genex/group/Group.hpp
@@ -4,6 +4,7 @@
 #include <boost/serialization/serialization.hpp>
 #include <boost/serialization/split_member.hpp>
 
+#include "Exception.hpp"
 #include "TimeSeriesSet.hpp"
 #include "distance/Distance.hpp"
 
@@ -202,6 +203,9 @@ private:
   {
     int cindex, cstart;
     ar >> cindex >> cstart;
+    if (cstart < 0) {
+      throw GenexException("Invalid group file");
+    }
     this->setCentroid(cindex, cstart);
     int cnt;
     ar >> cnt;
-- 
2.43.0


From 06c603d52bcb7437e9173d8949cad17d2d017bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:00 +0000
Subject: [PATCH 35/46] fix: refuse short distance names in matchingBetween
 with the usual error

---
 genex/GenexAPI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genex/GenexAPI.cpp b/genex/GenexAPI.cpp
index 2f4cf20..c01d1e7 100644
--- a/genex/GenexAPI.cpp
+++ b/genex/GenexAPI.cpp
@@ -270,7 +270,7 @@ matching_t GenexAPI::matchingBetween(const string& name1, int idx1, int start1,
   this->_checkDatasetName(name2);
   auto ts1 = this->_loadedDatasets[name1]->getTimeSeries(idx1, start1, end1);
   auto ts2 = this->_loadedDatasets[name2]->getTimeSeries(idx2, start2, end2);
-  if (distance_name.substr(distance_name.length() - 3) != "dtw") {
+  if (distance_name.length() < 3 || distance_name.substr(distance_name.length() - 3) != "dtw") {
     throw GenexException("Can only compute matchings using _dtw distances");
   }  
   const dist_t distance = getDistanceFromName(distance_name);
-- 
2.43.0


From 1975e5b7d402c2377b1f7dde2928cde6ec1208a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:17:25 +0000
Subject: [PATCH 36/46] fix: use the start and end arguments of ksim when ke is
 given too

With all arguments present the range was ignored and the whole series was
searched for. The example in the README asked for such a range but showed
the result for the whole series; it now asks for the whole series.
---
 README.md        | 4 ++--
 cli/GenexCLI.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/README.md b/README.md
index 3291f01..5f6dc42 100644
--- a/README.md
+++ b/README.md
@@ -144,9 +144,9 @@ We can list the datasets currently in memory by using `list dataset`
   target_ds             Normalized      Grouped
 ```
 
-5. Find top 10 similar time series from dataset `target_ds` to the time series 0[0, 10] in dataset `query_ds`
+5. Find top 10 similar time series from dataset `target_ds` to the time series 0 in dataset `query_ds`
 ```
->> ksim 10 target_ds query_ds 0 0 0 100
+>> ksim 10 target_ds query_ds 0 100
 Command executed in 0.00217s
 Target dataset: target_ds
 Query dataset: query_ds
diff --git a/cli/GenexCLI.cpp b/cli/GenexCLI.cpp
index b018cd0..56f5762 100644
--- a/cli/GenexCLI.cpp
+++ b/cli/GenexCLI.cpp
@@ -481,7 +481,7 @@ MAKE_COMMAND(KSim,
     {
       ke = stoi(args[5]);
     }
-    else if (args.size() == 7)
+    else if (args.size() >= 7)
     {
       start = stoi(args[5]);
       end = stoi(args[6]);
-- 
2.43.0


From 5ada956c414834bae8f55316cd5f0ff9e44ed972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:17:25 +0000
Subject: [PATCH 37/46] fix: release input lines with free

readline allocates them with malloc.
---
 cli/GenexCLI.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cli/GenexCLI.cpp b/cli/GenexCLI.cpp
index 56f5762..7c57a48 100644
--- a/cli/GenexCLI.cpp
+++ b/cli/GenexCLI.cpp
@@ -1,4 +1,5 @@
 #include <chrono>
+#include <cstdlib>
 #include <cstring>
 #include <iostream>
 #include <fstream>
@@ -792,7 +793,7 @@ bool wantToQuitByEOF()
   char* raw_line = nullptr;
   do
   {
-    delete raw_line;
+    free(raw_line);
     raw_line = readline("Do you really want to exit ([y]/n)? ");
     if (raw_line == nullptr || strcmp(raw_line, "y") == 0 || strcmp(raw_line, "") == 0)
     {
@@ -829,7 +830,7 @@ int main (int argc, char *argv[])
         add_history(raw_line);
       }
       string line = string(raw_line);
-      delete raw_line;
+      free(raw_line);
       try
       {
         quit = processLine(line);
-- 
2.43.0


From 61cae16301cdd329e36871ca12a2f45f49646416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:17:25 +0000
Subject: [PATCH 38/46] fix: do not ignore surplus arguments of ksimBF

A start without an end, or one argument too many, silently searched for
the whole series. Both now print the usage as in sim.
---
 cli/GenexCLI.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cli/GenexCLI.cpp b/cli/GenexCLI.cpp
index 7c57a48..99d05ad 100644
--- a/cli/GenexCLI.cpp
+++ b/cli/GenexCLI.cpp
@@ -528,7 +528,7 @@ MAKE_COMMAND(KSim,
       
 MAKE_COMMAND(KSimBF,
   {
-    if (tooFewArgs(args, 4) || tooManyArgs(args, 7))
+    if (tooFewArgs(args, 4) || tooManyArgs(args, 6))
     {
       return false;
     }
@@ -545,6 +545,10 @@ MAKE_COMMAND(KSimBF,
       start = stoi(args[5]);
       end = stoi(args[6]);
     }
+    else if (args.size() == 6) {
+      cout << "Both starting and ending positions must be provided.";
+      return false;
+    }
 
     TIME_COMMAND(
       std::vector<genex::candidate_time_series_t> results = 
-- 
2.43.0


From 23af35a3d636aaa6b0248b42df5221255ebc0452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:02 +0000
Subject: [PATCH 39/46] fix: name the actual default of the distance command in
 its help

---
 cli/GenexCLI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/GenexCLI.cpp b/cli/GenexCLI.cpp
index 99d05ad..1bf5e40 100644
--- a/cli/GenexCLI.cpp
+++ b/cli/GenexCLI.cpp
@@ -297,7 +297,7 @@ MAKE_COMMAND(Distance,
   "  start2    -  Starting position of the first time series                                           \n"
   "  end2      -  Ending position of the first tiem series.                                            \n"
   "  distance  -  The string identifier of a distance. Use 'list distance' to retrieve the list of     \n"
-  "               loaded distance. Default to euclidean.                                               \n"
+  "               loaded distance. Default to euclidean_dtw.                                           \n"
   )
 
 MAKE_COMMAND(GroupDataset,
-- 
2.43.0


From 6f982bd0fd8040df90d6f57af6e87be9a0d5a14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:51 +0000
Subject: [PATCH 40/46] fix: name the right arguments of getMatching

The keywords start2 and end2 applied to the last two parameters, which are
the end and the distance name, so neither keyword could be used.
---
 pygenex/GENEXBindings.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygenex/GENEXBindings.cpp b/pygenex/GENEXBindings.cpp
index 91f9259..6aee4b8 100644
--- a/pygenex/GENEXBindings.cpp
+++ b/pygenex/GENEXBindings.cpp
@@ -455,7 +455,8 @@ BOOST_PYTHON_MODULE(pygenex)
   py::def("saveGroupsSize", saveGroupsSize);
   py::def("loadGroups", loadGroups);
   py::def("distance", distance);
-  py::def("getMatching", getMatching, (py::arg("start2")=-1, py::arg("end2")=-1));
+  py::def("getMatching", getMatching,
+          (py::arg("start2")=-1, py::arg("end2")=-1, py::arg("distanceName")));
   py::def("sim", sim, (py::arg("start")=-1, py::arg("end")=-1));
   py::def("ksim", ksim, (py::arg("start")=-1, py::arg("end")=-1));
   py::def("ksimbf", ksimbf, (py::arg("start")=-1, py::arg("end")=-1, py::arg("distance")="euclidean"));  
-- 
2.43.0


From 0ae0736ad49b61c42c12826e3102e164202ec4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:11 +0000
Subject: [PATCH 41/46] fix: release the buffers of the stream search

---
 genex/lib/trillionDTW.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/genex/lib/trillionDTW.cpp b/genex/lib/trillionDTW.cpp
index aa5eb15..a53e610 100644
--- a/genex/lib/trillionDTW.cpp
+++ b/genex/lib/trillionDTW.cpp
@@ -548,6 +548,8 @@ int calculate(const char *dataPath, const char *queryPath, int queryLength, int
     free(cb2);
     free(tz);
     free(t);
+    free(order);
+    free(buffer);
     free(l_d);
     free(u_d);
     free(l_buff);
-- 
2.43.0


From e2c08a47fea75b24016575505b9795527bbc346f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:11 +0000
Subject: [PATCH 42/46] fix: do not overestimate the distance of queries with
 fewer than six points

---
 genex/lib/trillionDTW.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genex/lib/trillionDTW.cpp b/genex/lib/trillionDTW.cpp
index a53e610..0181f82 100644
--- a/genex/lib/trillionDTW.cpp
+++ b/genex/lib/trillionDTW.cpp
@@ -75,7 +75,7 @@ data_t lb_kim_hierarchy(data_t *t, data_t *q, int j, int len, data_t mean, data_
     data_t x0 = (t[j] - mean) / std;
     data_t y0 = (t[(len-1+j)] - mean) / std;
     lb = dist(x0,q[0]) + dist(y0,q[len-1]);
-    if (lb >= bsf)   return lb;
+    if (lb >= bsf || len < 6)   return lb;
 
     /// 2 points at front
     data_t x1 = (t[(j+1)] - mean) / std;
-- 
2.43.0


From 75d3b4695695fb9aebfff83a860abe77421c876d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:11 +0000
Subject: [PATCH 43/46] fix: limit the band of the stream search to the query
 length

---
 genex/lib/trillionDTW.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/genex/lib/trillionDTW.cpp b/genex/lib/trillionDTW.cpp
index 0181f82..a7b4a89 100644
--- a/genex/lib/trillionDTW.cpp
+++ b/genex/lib/trillionDTW.cpp
@@ -265,6 +265,7 @@ int calculate(const char *dataPath, const char *queryPath, int queryLength, int
 
     int EPOCH = 100000;
     m=queryLength;
+    r=min(r,m-1);
 
     t1 = clock();
     fp = fopen(dataPath,"r");
-- 
2.43.0


From d88c8ebb0b302014d98ede6b80332d7cd28735c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:28:40 +0000
Subject: [PATCH 44/46] fix: keep the envelopes of series with undefined values
 between two looks

---
 genex/TimeSeries.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genex/TimeSeries.cpp b/genex/TimeSeries.cpp
index b41036c..2459436 100755
--- a/genex/TimeSeries.cpp
+++ b/genex/TimeSeries.cpp
@@ -200,7 +200,7 @@ bool TimeSeries::isKeoghCacheValid(int warpingBand) const
   // The data may have been written to, reassigned or normalized since the envelopes were made
   return keoghCacheValid && warpingBand == cachedWarpingBand
     && static_cast<int>(cachedData.size()) == length
-    && std::equal(cachedData.begin(), cachedData.end(), data + start);
+    && (length == 0 || std::memcmp(cachedData.data(), data + start, length * sizeof(data_t)) == 0);
 }
 
 void TimeSeries::generateKeoghLU(int warpingBand) const
-- 
2.43.0


From 3cdefb723b620229a12b7308c7514332c94c6658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:30:32 +0000
Subject: [PATCH 45/46] fix: put series without a comparable group into a
 definite one

---
 genex/group/LocalLengthGroupSpace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genex/group/LocalLengthGroupSpace.cpp b/genex/group/LocalLengthGroupSpace.cpp
index 97ec227..da9fc29 100644
--- a/genex/group/LocalLengthGroupSpace.cpp
+++ b/genex/group/LocalLengthGroupSpace.cpp
@@ -78,7 +78,7 @@ int LocalLengthGroupSpace::generateGroups(const dist_t pairwiseDistance, data_t
       TimeSeries query = dataset.getTimeSeries(idx, start, start + this->length);
 
       data_t bestSoFar = INF;
-      int bestSoFarIndex;
+      int bestSoFarIndex = 0;
 
       for (auto i = 0; i < groups.size(); i++)
       {
-- 
2.43.0


From 7d28584eacc656dd62d75790795bf6c793d9a4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:32:08 +0000
Subject: [PATCH 46/46] fix: refuse negative and limit large warping band
 ratios

---
 genex/distance/Distance.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/genex/distance/Distance.cpp b/genex/distance/Distance.cpp
index d977e4d..6be3663 100644
--- a/genex/distance/Distance.cpp
+++ b/genex/distance/Distance.cpp
@@ -83,12 +83,15 @@ const vector<string>& getAllDistanceName()
 double warpingBandRatio = 0.1;
 
 void setWarpingBandRatio(double ratio) {
+  if (!(ratio >= 0)) {
+    throw GenexException("Warping band ratio must not be negative");
+  }
   warpingBandRatio = ratio;
 }
 
 int calculateWarpingBandSize(int length)
 {
-  int bandSize = floor(length * warpingBandRatio);
+  int bandSize = floor(length * min(warpingBandRatio, 1.0));
   return std::min(bandSize, length - 1);
 }
 
-- 
2.43.0

