From c3cf934e3b0ff2c5156fbbf6ce1735193ef24f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:10 +0000
Subject: [PATCH 001/146] fix: ThreadPool must not start a task after
 wait_for_tasks() returned on a paused pool

---
 .../ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp       | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
index 42e87ee..68e1180 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
@@ -356,7 +356,8 @@ private:
     bool pop_task(std::function<void()> &task)
     {
         const std::scoped_lock lock(queue_mutex);
-        if (tasks.empty())
+        // Checked under the lock: once wait_for_tasks() has seen a paused pool with no running task, no worker may pop another one.
+        if (paused || tasks.empty())
             return false;
         else
         {
@@ -386,7 +387,7 @@ private:
         while (running)
         {
             std::function<void()> task;
-            if (!paused && pop_task(task))
+            if (pop_task(task))
             {
                 task();
                 tasks_total--;
-- 
2.43.0


From 6781a82bc629f3ed528fc84323e785c79044b499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:36 +0000
Subject: [PATCH 002/146] fix: ThreadPool counts running tasks consistently
 while tasks are being pushed

---
 .../ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp      | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
index 68e1180..5d7dfc8 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
@@ -88,7 +88,9 @@ public:
      */
     ui32 get_tasks_running() const
     {
-        return tasks_total - (ui32)get_tasks_queued();
+        // Both counts are taken under the lock, otherwise a task pushed in between would hide a running one.
+        const std::scoped_lock lock(queue_mutex);
+        return tasks_total - (ui32)tasks.size();
     }
 
     /**
@@ -173,9 +175,9 @@ public:
     template <typename F>
     void push_task(const F &task)
     {
-        tasks_total++;
         {
             const std::scoped_lock lock(queue_mutex);
+            tasks_total++;
             tasks.push(std::function<void()>(task));
         }
     }
-- 
2.43.0


From 923b6f30411004673f98204e105a673b094f6b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:36 +0000
Subject: [PATCH 003/146] fix: ThreadPool::sleep_duration is read by running
 workers, make it atomic

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
index 5d7dfc8..6985c46 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
@@ -320,7 +320,7 @@ public:
     /**
      * @brief The duration, in microseconds, that the worker function should sleep for when it cannot find any tasks in the queue. If set to 0, then instead of sleeping, the worker function will execute std::this_thread::yield() if there are no tasks in the queue. The default value is 1000.
      */
-    ui32 sleep_duration = 1000;
+    std::atomic<ui32> sleep_duration = 1000;
 
 private:
     // ========================
-- 
2.43.0


From de1f563e7c68b89d95bfb3868cc5c711c9849670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:55 +0000
Subject: [PATCH 004/146] fix: DistanceMatrix rows are addressed by point id,
 fill each row in a single task

---
 .../include/ufjfmltk/core/DistanceMatrix.hpp     | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMatrix.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMatrix.hpp
index 340f042..2242802 100644
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMatrix.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMatrix.hpp
@@ -40,17 +40,15 @@ namespace mltk::metrics::dist {
             
             auto loop = [data, this](const int a, const int b) {
                 for(size_t idx = a; idx < b; idx++) {
-                    this->rows[idx] = mltk::Point<double>((isDiagonal) ? idx+1 : data.size());
+                    // rows are addressed by point id, which isn't the position of the point on shuffled data
+                    const size_t row = data(idx).Id()-1;
+                    this->rows[row] = mltk::Point<double>((isDiagonal) ? row+1 : data.size());
 
-                    for(size_t j = 0; j < idx; j++){
-                        this->rows[data(idx).Id()-1][data(j).Id()-1] = this->dist_function(data(idx), data(j));
+                    for(size_t j = 0; j < data.size(); j++){
+                        const size_t col = data(j).Id()-1;
+                        if(j == idx || (isDiagonal && col > row)) continue;
+                        this->rows[row][col] = this->dist_function(data(idx), data(j));
                     }
-                    
-                    if(isDiagonal) continue;
-
-                    for(size_t j = idx+1; j < data.size(); j++){
-                        this->rows[data(idx).Id()-1][data(j).Id()-1] = this->dist_function(data(idx), data(j));
-                    }    
                 }
             };
 
-- 
2.43.0


From f4c7692776f5da4ea6f278c63946f496309df04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:34 +0000
Subject: [PATCH 005/146] fix: Data::removePoint finds the point by id, keeps
 index and class counts consistent

---
 .../include/ufjfmltk/core/Data.hpp            | 40 ++++++++-----------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 123a324..582f495 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1181,33 +1181,27 @@ namespace mltk{
 
     template<typename T>
     bool mltk::Data< T >::removePoint(int pid){
-        int i;
-
         if(m_size == 1){ std::cout << "Error: RemovePoint, only one point left\n"; return false; }
-        //Ids bound verification
-        if(pid > m_points[m_size - 1]->Id() || pid <= 0) return false;
-        int y;
-        if(!index.empty()){
-            index.resize(m_size);
-
-            for(i = 0; i < m_size; ++i){
-                if(i >= pid){
-                    index[i-1] = index[i] - 1;
-                }
-            }
-        }
 
         //Find the point by its id and erase it
-        for(i = 0; i < m_size; i++){
-            if(m_points[i]->Id() == pid){
-                y = m_points[i]->Y();
-                m_points.erase(m_points.begin() + i);
-                break;
-            }
-        }
+        auto p = std::find_if(m_points.begin(), m_points.end(), [&pid](const SamplePointer<T>& point){
+            return point->Id() == pid;
+        });
+        if(p == m_points.end()) return false;
+
+        const int position = p - m_points.begin();
+        const int y = (*p)->Y();
+        m_points.erase(p);
         m_size--;
-        auto pos = std::find(m_classes.begin(), m_classes.end(), y) - m_classes.begin();
-        class_distribution[pos]--;
+
+        //The index stays a permutation of the remaining positions
+        index.erase(std::remove(index.begin(), index.end(), position), index.end());
+        for(auto& i: index){
+            if(i > position) i--;
+        }
+
+        const size_t pos = std::find(m_classes.begin(), m_classes.end(), y) - m_classes.begin();
+        if(pos < class_distribution.size()) class_distribution[pos]--;
         return true;
     }
 
-- 
2.43.0


From d0443d46852ceededd8e59c03eb5d7d63c653b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:34 +0000
Subject: [PATCH 006/146] fix: Data::removePoints keeps the last point and
 reports which points were removed

---
 .../include/ufjfmltk/core/Data.hpp            | 42 ++-----------------
 1 file changed, 4 insertions(+), 38 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 582f495..fbab94e 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1244,47 +1244,13 @@ namespace mltk{
 
     template<typename T>
     std::vector<bool> mltk::Data< T >::removePoints(std::vector<int> ids){
-        int idsize = ids.size(), i, j;
-        bool save;
-        std::shared_ptr<Point< T > > po;
-        auto p = m_points.begin();
-        std::vector<bool> notFound(idsize, true);
-
-        std::sort(ids.begin(), ids.end());
-
-        for(; p != m_points.end();){
-            save = true;
-            po = (*p);
-            for(i = 0; i < idsize; i++){
-                if(po->Id() == ids[i]){
-                    save = false;
-                    notFound[i] = false;
-                    break;
-                }
-            }
-
-            if(save) p++;
-            else{
-                p = m_points.erase(p);
-                int c = po->Y();
-                if(!index.empty()){
-                    index.resize(m_size);
+        std::vector<bool> removed(ids.size(), false);
 
-                    for(j = 0; j < m_size; ++j){
-                        if(j >= ids[i]){
-                            index[j-1] = index[j] - 1;
-                        }
-                    }
-                }
-                //Size verification.
-                if(m_size == 1){ std::clog << "Error: RemovePoint, only one point left." << std::endl; break;}
-                auto class_pos = std::find(m_classes.begin(), m_classes.end(), c) - m_classes.begin();
-                class_distribution[class_pos]--;
-                m_size--;
-            }
+        for(size_t i = 0; i < ids.size(); i++){
+            removed[i] = removePoint(ids[i]);
         }
 
-        return notFound;
+        return removed;
     }
 
     template<typename T>
-- 
2.43.0


From 4098837371874d441e695fe2fd8f4db1d197d739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:34 +0000
Subject: [PATCH 007/146] fix: Data::updatePointValue counts a point moved to a
 new class once

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index fbab94e..4093c32 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1951,12 +1951,13 @@ namespace mltk{
             if(class_pos == m_classes.end()){
                 m_classes.push_back(_c);
                 class_names.push_back(std::to_string(_c));
-                class_distribution.push_back(1);
+                class_distribution.push_back(0);
+                class_pos = m_classes.end() - 1;
             }
-            auto oldclass_pos = std::find(m_classes.begin(), m_classes.end(), int(old_value))- m_classes.begin();
+            size_t oldclass_pos = std::find(m_classes.begin(), m_classes.end(), int(old_value))- m_classes.begin();
             class_distribution[class_pos - m_classes.begin()]++;
-            class_distribution[oldclass_pos]--;
-            if(class_distribution[oldclass_pos] == 0){
+            if(oldclass_pos < class_distribution.size()) class_distribution[oldclass_pos]--;
+            if(oldclass_pos < class_distribution.size() && class_distribution[oldclass_pos] == 0){
                 class_distribution.erase(class_distribution.begin() + oldclass_pos);
                 m_classes.erase(m_classes.begin() + oldclass_pos);
                 class_names.erase(class_names.begin() + oldclass_pos);
-- 
2.43.0


From 3fa0537c3c6621bc2309e676ab12a2aec7d47b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:34 +0000
Subject: [PATCH 008/146] fix: inserting a point of another dataset copies it
 and reports rejection

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 4093c32..59833ba 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1395,14 +1395,12 @@ namespace mltk{
 
     template<typename T>
     bool mltk::Data< T >::insertPoint(const Data< T >& samples, int _index, bool keepIndex){
-        if(_index > samples.size() - 1){
+        if(_index < 0 || size_t(_index) >= samples.size()){
             std::cerr << "Index out of bounds. (insertPoint)" << std::endl;
             return false;
         }
 
-        insertPoint(samples.point(_index), keepIndex);
-
-        return true;
+        return insertPoint(*samples.point(_index), keepIndex);
     }
 
     template<typename T>
-- 
2.43.0


From bfacd05ae460fbc67bb44084420103c3ea392449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:34 +0000
Subject: [PATCH 009/146] fix: Data::insertPoint keeps the feature names of the
 dataset

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 59833ba..a7928c5 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1412,7 +1412,7 @@ namespace mltk{
             return false;
         }
 
-        if(p->size() > 0) {
+        if(p->size() > 0 && this->fnames.size() != p->size()) {
             this->fnames = std::vector<int>(p->size(), 0);
             std::iota(this->fnames.begin(), this->fnames.end(), 1);
         }
-- 
2.43.0


From ee6afa42daad5a9e15564de73ce9cd5c3137a9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:34 +0000
Subject: [PATCH 010/146] fix: joining an empty dataset leaves the dataset
 unchanged

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index a7928c5..67b234e 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1558,6 +1558,8 @@ namespace mltk{
         std::vector<int> index1 = data.getIndex(), antindex = index;
         auto points1 = data.points();
 
+        if(size1 == 0) return;
+
         if(m_dim > dim1){
             std::cerr << "Error: sample1 dimension must be less or equal to sample2\n";
             exit(1);
-- 
2.43.0


From dd4b198296728ccc31bf33ea6013e08d2f072563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:34 +0000
Subject: [PATCH 011/146] fix: Data::join counts every joined point and keeps
 classes, names and dimension aligned

---
 .../include/ufjfmltk/core/Data.hpp            | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 67b234e..5d5fda9 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1584,19 +1584,21 @@ namespace mltk{
         std::sort(classes1.begin(), classes1.end());
         std::set_difference(classes1.begin(), classes1.end(), classes.begin(), classes.end(),
                             std::inserter(diff, diff.begin()));
-        m_classes.reserve(m_classes.size()+diff.size());
-        m_classes.insert(m_classes.end(), diff.begin(), diff.end());
 
-        std::vector<std::string> diff_names, classes_names1 = data.classesNames(), classes_names = class_names;
-        std::sort(classes_names.begin(), classes_names.end());
-        std::sort(classes_names1.begin(), classes_names1.end());
-        std::set_difference(classes_names1.begin(), classes_names1.end(), classes_names.begin(), classes_names.end(),
-                            std::inserter(diff_names, diff_names.begin()));
-        class_names.reserve(class_names.size()+diff_names.size());
-        class_names.insert(class_names.end(), diff_names.begin(), diff_names.end());
+        // each new class is added together with its name
+        classes1 = data.classes();
+        std::vector<std::string> classes_names1 = data.classesNames();
+        for(int c: diff){
+            size_t pos = std::find(classes1.begin(), classes1.end(), c) - classes1.begin();
+            m_classes.push_back(c);
+            class_names.push_back((pos < classes_names1.size()) ? classes_names1[pos] : std::to_string(c));
+        }
 
         class_distribution.assign(m_classes.size(), 0);
+        cdist_computed = false;
         computeClassesDistribution();
+        is_empty = false;
+        if(m_dim == 0) m_dim = dim1;
         if(fnames.empty()){
             fnames = data.getFeaturesNames();
         }
@@ -1807,7 +1809,7 @@ namespace mltk{
             int c = p->Y();
             auto class_it = std::find(this->m_classes.begin(), this->m_classes.end(), c);
             size_t class_pos = class_it - this->m_classes.begin();
-            class_distribution[class_pos]++;
+            if(class_pos < class_distribution.size()) class_distribution[class_pos]++;
         }
     }
 
-- 
2.43.0


From af27a95eccd777d64aab9f047520f54bad7e895a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:34 +0000
Subject: [PATCH 012/146] fix: Data::clear also forgets the class distribution

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 5d5fda9..9f1289c 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1692,6 +1692,7 @@ namespace mltk{
         index.clear();
         m_classes.clear();
         class_names.clear();
+        class_distribution.clear();
         m_size = 0;
         m_dim = 0;
         normalized = false;
-- 
2.43.0


From 8fe4967329c85526fc99a1c82105b00d71ba9c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:34 +0000
Subject: [PATCH 013/146] fix: Data::copyZero leaves a dataset with zero points

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 9f1289c..9da3c9c 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1544,10 +1544,16 @@ namespace mltk{
 
     template<typename T>
     void mltk::Data< T >::copyZero(const mltk::Data< T >& other){
+        m_points.clear();
+        index.clear();
+        m_classes.clear();
+        class_names.clear();
+        class_distribution.clear();
+        type = other.type;
         fnames = other.fnames;
         m_dim = other.m_dim;
         m_size = 0;
-        is_empty = other.is_empty;
+        is_empty = true;
         normalized = other.normalized;
         cdist_computed = false;
     }
-- 
2.43.0


From ecdbb98c3a6be981e47071b296735c6d841a5c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:34 +0000
Subject: [PATCH 014/146] fix: Data::copy copies the positive/negative class
 names and survives self copies

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 9da3c9c..7b4b872 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1514,6 +1514,7 @@ namespace mltk{
 
     template<typename T>
     void mltk::Data< T >::copy(const mltk::Data<T> &_data){
+        if(this == &_data) return;
         size_t _size = _data.size();
         if(this->m_points.size() > 0) this->m_points.clear();
         //this->m_points.reserve(_size);
@@ -1540,6 +1541,9 @@ namespace mltk{
         this->time_mult = _data.getTime_mult();
         this->cdist_computed = _data.cdist_computed;
         this->dataset_name = _data.dataset_name;
+        this->pos_class = _data.pos_class;
+        this->neg_class = _data.neg_class;
+        this->atEnd = _data.atEnd;
     }
 
     template<typename T>
-- 
2.43.0


From c51a9bf60725933233f5c4db4dd57e4012e415d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:34 +0000
Subject: [PATCH 015/146] fix: assigning a dataset copies its points instead of
 sharing them

---
 .../ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 7b4b872..eb63e76 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1675,21 +1675,7 @@ namespace mltk{
 
     template<typename T>
     mltk::Data< T >& mltk::Data< T >::operator=(const mltk::Data< T >& data){
-        m_points = data.m_points;
-        fnames = data.fnames;
-        index = data.index;
-        m_size = data.m_size;
-        m_dim = data.m_dim;
-        m_classes = data.m_classes;
-        class_distribution = data.class_distribution;
-        class_names = data.class_names;
-        time_mult = data.time_mult;
-        pos_class = data.pos_class;
-        neg_class = data.neg_class;
-        is_empty = data.is_empty;
-        normalized = data.normalized;
-        dataset_name = data.dataset_name;
-        type = data.type;
+        copy(data);
 
         return *this;
     }
-- 
2.43.0


From a8ec5785f181cf83e498c781cc25891bf75e97fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:34 +0000
Subject: [PATCH 016/146] fix: Data::classesCopy describes the copied points
 only

---
 .../ufjfmltk-core/include/ufjfmltk/core/Data.hpp      | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index eb63e76..b407c0d 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1481,6 +1481,7 @@ namespace mltk{
         for(auto c: classes){
             _classes.insert(c);
         }
+        this->m_points.clear();
         for(size_t i = 0; i < _data.size(); i++){
             if(_classes.find(_data[i]->Y()) != _classes.end()){
                 this->m_points.push_back(std::make_shared<Point< T > >());
@@ -1496,13 +1497,19 @@ namespace mltk{
         this->fnames = _data.getFeaturesNames();
         this->m_size = _size;
         this->m_classes = classes;
+        this->class_names.clear();
+        for(int c: classes){
+            size_t pos = std::find(_data.m_classes.begin(), _data.m_classes.end(), c) - _data.m_classes.begin();
+            this->class_names.push_back((pos < _data.class_names.size()) ? _data.class_names[pos] : std::to_string(c));
+        }
         this->m_dim = _data.dim();
         this->type = _data.getType();
-        this->index = _data.getIndex();
-        this->is_empty = _data.isEmpty();
+        this->resetIndex();
+        this->is_empty = (_size == 0);
         this->normalized = _data.isNormalized();
         this->time_mult = _data.getTime_mult();
         this->cdist_computed = false;
+        this->computeClassesDistribution();
     }
 
     template<typename T>
-- 
2.43.0


From 6d851543948b7b37ed56d841adc81e1ee39377b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:34 +0000
Subject: [PATCH 017/146] fix: stratified splits into fewer partitions than
 classes write out of bounds

---
 .../include/ufjfmltk/core/Data.hpp            | 22 +++++--------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index b407c0d..b1f9fd4 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1820,7 +1820,6 @@ namespace mltk{
     template<typename T>
     std::vector<Data<T>> Data<T>::splitSample(const std::size_t &split_size, bool stratified, bool keepIndex, const size_t seed) {
         std::multimap<std::string, mltk::PointPointer<T>> classified_objects;
-        std::map<std::string, int> label_map; 
         std::vector<mltk::Data<T>> partitions(split_size);
         mltk::Data<T> data = copy();
         size_t new_size = std::floor(double(size()) / split_size);
@@ -1833,21 +1832,12 @@ namespace mltk{
                 classified_objects.insert({std::to_string(obj->Y()), obj});
             }
 
-            int i = 0;
-            for(const auto& label: data.classes()) {
-                label_map.insert({std::to_string(label), i});
-                i++;
-            }
-
-            // To keep track which partition should be filled next 
-            std::vector<int> fillIndex(split_size, 0);
-
-            // Smarter distribution
-            for (const auto pair : classified_objects) {
-                // Calculate the index based on respective label's count
-                int i = fillIndex[label_map[pair.first]] % split_size;
-                fillIndex[label_map[pair.first]]++;
-                partitions[i].insertPoint(pair.second, keepIndex);
+            // The partition which should be filled next. The objects are grouped by label, so going round the
+            // partitions spreads each label, and the objects as a whole, evenly.
+            size_t next = 0;
+            for (const auto& pair : classified_objects) {
+                partitions[next].insertPoint(pair.second, keepIndex);
+                next = (next + 1) % split_size;
             }
 
             return partitions;
-- 
2.43.0


From 38378b762e30492137c6b96b9860b732c9b87d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:34 +0000
Subject: [PATCH 018/146] fix: unstratified splits drop the remainder of the
 division

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index b1f9fd4..cbb1548 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1845,12 +1845,10 @@ namespace mltk{
 
         size_t counter = 0;
         for(size_t i = 0; i < partitions.size(); i++) {
-            for(size_t j = 0; j < new_size; j++) {
+            // the first partitions take the remaining points
+            for(size_t j = 0; j < new_size + (i < size() % split_size ? 1 : 0); j++) {
                 partitions[i].insertPoint(data[counter], keepIndex);
                 counter++;
-                if(counter == this->size()){
-                    return partitions;
-                }
             }
         }
         return partitions;
-- 
2.43.0


From fceebdf6a8cff405faba78625c0450c7e43611c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:34 +0000
Subject: [PATCH 019/146] fix: the parts of a split dataset keep its type and
 feature names

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index cbb1548..5c407ad 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1827,6 +1827,11 @@ namespace mltk{
 
         data.shuffle(_seed);
 
+        for(auto& partition: partitions){
+            partition.setType(type);
+            partition.setFeaturesNames(fnames);
+        }
+
         if(this->isClassification() && stratified) {
             for (const mltk::PointPointer<T> obj : data.points()) {
                 classified_objects.insert({std::to_string(obj->Y()), obj});
@@ -1970,6 +1975,10 @@ namespace mltk{
         auto classes = data.classes();
         auto points = data.points();
 
+        for(auto& split: class_split){
+            split.setFeaturesNames(fnames);
+        }
+
         std::for_each(points.begin(), points.end(), [&](const auto pointPtr){
             auto class_pos = std::distance(classes.begin(), std::find(classes.begin(), classes.end(), int(pointPtr->Y())));
             class_split[class_pos].insertPoint(*pointPtr, keepIndex);
-- 
2.43.0


From 9fdf6f5cde70523190a0820f929378756f94de2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:34 +0000
Subject: [PATCH 020/146] fix: Data::sampling draws from all the points of each
 class

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 5c407ad..a8e7729 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1997,7 +1997,6 @@ namespace mltk{
         std::random_device rd;
         std::mt19937 gen((seed == 0)? std::random_device()() : seed);
         Data< T > sample;
-        std::set<std::size_t> ids;
         auto classes_split = splitByClasses();
         Point<double> class_dist(m_classes.size());
         std::vector<std::uniform_int_distribution<size_t>> dist;
@@ -2007,13 +2006,15 @@ namespace mltk{
             class_dist[i] = (double(temp_dist[i]) / size()) * samp_size;
         }
         for(int i = 0; i < class_dist.size(); i++){
-            dist.emplace_back(0, class_dist[i]-1);
+            dist.emplace_back(0, std::max<size_t>(temp_dist[i], 1) - 1);
         }
         for(size_t i = 0; i < class_dist.size(); i++){
-            class_dist[i] = (class_dist[i] < 1) ? 1 : std::floor(class_dist[i]);
+            class_dist[i] = (temp_dist[i] == 0) ? 0 : (class_dist[i] < 1) ? 1 : std::floor(class_dist[i]);
         }
 
+        sample.setFeaturesNames(fnames);
         for(size_t i = 0; i < class_dist.size(); i++){
+            std::set<std::size_t> ids;
             for(size_t j = 0; j < class_dist[i]; j++){
                 std::size_t idx = dist[i](gen);
                 if(!with_replacement) {
@@ -2022,7 +2023,7 @@ namespace mltk{
                     }
                     ids.insert(idx);
                 }
-                sample.insertPoint(classes_split[i][idx]);
+                sample.insertPoint(*classes_split[i][idx]);
             }
         }
 
-- 
2.43.0


From cd2caa9a81419dd8329db1faf82237d134d7c21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:34 +0000
Subject: [PATCH 021/146] fix: Data::selectFeatures keeps the names of the
 selected features

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index a8e7729..83b5bdf 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -2060,6 +2060,11 @@ namespace mltk{
             new_data.setName(this->name());
             new_data.insertPoint(new_point, true);
         }
+        std::vector<int> new_fnames;
+        for(i = 0; i < (_size-invalid); i++){
+            new_fnames.push_back(fnames[feats_pos[i]]);
+        }
+        new_data.setFeaturesNames(new_fnames);
         return new_data;
     }
 
-- 
2.43.0


From 65c4f8c2dd095a1255b4c1b4fcfabd8cd2c0aa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:09 +0000
Subject: [PATCH 022/146] fix: loading a path without an extension reads out of
 bounds

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 83b5bdf..74413f3 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -592,6 +592,8 @@ namespace mltk{
     Type mltk::Data< T >::identifyFileType(std::string file){
         size_t l , k, i, j, tsize = types.size();
 
+        if(file.find('.') == std::string::npos) return Type::TYPE_INVALID;
+
         for(k = file.size() - 1; (k >= 0 && file[k] != '.') ; k--){
             for(i = 0; i < tsize; ++i){
                 if(file[k] == types[i][types[i].size()-1]){
-- 
2.43.0


From 4afd42f33d4cae492d4117762cfd2ce4cb0d278c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:09 +0000
Subject: [PATCH 023/146] fix: loading a second file into a dataset accumulates
 the classes of the first

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 74413f3..cb38f74 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -632,6 +632,9 @@ namespace mltk{
         Type t = identifyFileType(file);
         this->dataset_name = discover_dataset_name(file);
         this->cdist_computed = true;
+        this->m_classes.clear();
+        this->class_names.clear();
+        this->class_distribution.clear();
 
         this->atEnd = false;
         
@@ -659,6 +662,9 @@ namespace mltk{
         Type t = identifyFileType(file);
         this->dataset_name = discover_dataset_name(file);
         this->cdist_computed = true;
+        this->m_classes.clear();
+        this->class_names.clear();
+        this->class_distribution.clear();
 
         this->atEnd = _atEnd;
 
-- 
2.43.0


From cfaddbb8cc92dbe1840b0127dd4f25dc9e4ff097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:09 +0000
Subject: [PATCH 024/146] fix: a class is read as the same label wherever it
 appears in the file

---
 .../include/ufjfmltk/core/Data.hpp            | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index cb38f74..b98bf63 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1145,28 +1145,19 @@ namespace mltk{
     template<typename T>
     int mltk::Data<T>::process_class(std::string& item) {
         int c = 0;
-        auto class_name_it = std::find(this->class_names.begin(), this->class_names.end(), item);
 
         item.erase(std::remove_if(item.begin(), item.end(), ::isspace), item.end());
         if(item.empty()) return std::numeric_limits<int>::infinity();
 
+        auto class_name_it = std::find(this->class_names.begin(), this->class_names.end(), item);
+
         if(class_name_it == class_names.end()){
             this->class_names.push_back(item);
-            auto has_mone = std::find(class_names.begin(), class_names.end(), "-1");
-            if(has_mone == class_names.end()){
-                if(utils::is_number(item)) {
-                    c = std::stoi(item);
-                }else{
-                    auto pos = std::find(class_names.begin(), class_names.end(), item);
-                    c = (int)(pos - this->class_names.begin())+1;
-                }
+            if(utils::is_number(item)) {
+                c = std::stoi(item);
             }else{
-                c = 1;
+                c = (int)this->class_names.size();
             }
-            if(item == "-1"){
-                c = -1;
-            }
-
         }else{
             if(utils::is_number(item)) {
                 c = std::stoi(item);
-- 
2.43.0


From 86e232107a56aa515a2ad3d7060bcd3ca1442018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:09 +0000
Subject: [PATCH 025/146] fix: SMOTE takes the neighbours from the minority
 class

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
index ec274b3..46d4c95 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
@@ -179,7 +179,7 @@ namespace mltk{
 
                 // get the k neighbors
                 for(size_t i = 0; (i < k) && (i < distance.size()); i++){
-                    k_neighbors[i] = data[distance[i].first-1];
+                    k_neighbors[i] = Z[distance[i].first-1];
                 }
 
                 // create the artificial points and insert them to the dataset
-- 
2.43.0


From e36215bbce6ea387e6a345b48e047e1858b84a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:09 +0000
Subject: [PATCH 026/146] fix: SMOTE interpolates towards the neighbour

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
index 46d4c95..52b0d8c 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
@@ -189,7 +189,7 @@ namespace mltk{
                     Point< T > s(_z.size(), 0.0, 0);
                     double alpha = distribution(generator);
                     
-                    s = _z + alpha * (_z - _k);
+                    s = _z + alpha * (_k - _z);
                     s.Y() = min_class;
 
                     artificial_data.push_back(mltk::make_point< T >(s));
-- 
2.43.0


From 0856c2d74feb79e03c9220ec67d0612ea083e713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:09 +0000
Subject: [PATCH 027/146] fix: BorderlineSMOTEOne adds the synthetic points and
 leaves the existing ones alone

---
 .../include/ufjfmltk/core/Sampling.hpp          | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
index 52b0d8c..ec6b8d4 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
@@ -230,7 +230,6 @@ namespace mltk{
             int maj_class = classes[std::max_element(class_distribution.begin(), class_distribution.end()) - class_distribution.begin()];
             // Initialize the danger subset
             Data< T > danger_subset;
-            std::set<size_t> danger_ids;
 
             // iterate through all the elements from the Z set
             for(auto z = data.begin(); z != data.end(); ++z){
@@ -266,28 +265,24 @@ namespace mltk{
                 
                 // set m' as the number of points on the majority class set on m neighbors
                 size_t m_ = std::count_if(M.begin(), M.end(), [&maj_class](auto &p){
-                    return p->Y() == maj_class;
+                    return p && p->Y() == maj_class;
                 });
                 
                 // insert the point to the danger subset if m/2 <= m' < m
                 if(m_ >= (m/2) && m_ < m){
-                    danger_ids.insert(_z->Id());
-                    danger_subset.insertPoint(_z);
+                    danger_subset.insertPoint(*_z);
                 }
             }
 
             // apply SMOTE algorithm to the danger subset
-            if(danger_subset.size() > 0){
+            const size_t n_danger = danger_subset.size();
+            if(n_danger > 0){
                 SMOTE< T > smote(k, r, seed);
                 smote(danger_subset);
             }
 
-            for(auto p = danger_subset.begin(); p != danger_subset.end(); p++){
-                auto _p = (*p);
-
-                if(danger_ids.find(_p->Id()) != danger_ids.end()){
-                    data.insertPoint(_p);
-                }
+            for(size_t i = n_danger; i < danger_subset.size(); i++){
+                data.insertPoint(danger_subset[i]);
             }
 
             return data;
-- 
2.43.0


From c35758fd2fdc256a378f9223634b03c94f5a5bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:56 +0000
Subject: [PATCH 028/146] fix: generated datasets depend only on the seed, not
 on what was generated before

---
 subprojects/ufjfmltk-core/src/Datasets.cpp | 56 +++++++++++++---------
 1 file changed, 34 insertions(+), 22 deletions(-)

diff --git a/subprojects/ufjfmltk-core/src/Datasets.cpp b/subprojects/ufjfmltk-core/src/Datasets.cpp
index c26fe0f..3d8d324 100755
--- a/subprojects/ufjfmltk-core/src/Datasets.cpp
+++ b/subprojects/ufjfmltk-core/src/Datasets.cpp
@@ -5,9 +5,15 @@
 #include "ufjfmltk/core/Datasets.hpp"
 
 namespace mltk::datasets {
+    // random::init() ignores a seed equal to the last one; a generated dataset starts from its seed.
+    static void restart(size_t seed) {
+        mltk::random::init(seed);
+        if (seed != 0) mltk::random::m_generator.seed(seed);
+    }
+
     mltk::Data<double> make_spirals(size_t n_samples, int n_classes, bool shuffle, double noise, size_t n_loops,
                                     double margin, size_t seed) {
-        mltk::random::init(seed);
+        restart(seed);
         size_t samples_byclass = std::ceil(n_samples / n_classes);
         mltk::Data<double> dataset;
 
@@ -43,26 +49,9 @@ namespace mltk::datasets {
         return dataset;
     }
 
-    BlobsPair make_blobs(size_t n_samples, int n_centers, int n_dims, double cluster_std, double center_min,
-                         double center_max, bool shuffle, const bool has_classes, const size_t seed) {
-        mltk::random::init(seed);
-        std::vector<mltk::Point<>> centers(n_centers, mltk::Point<>(n_dims, 0.0));
-        std::vector<size_t> samples_per_center(n_centers, std::floor(n_samples / n_centers));
-        std::vector<double> clusters_std(n_centers, cluster_std);
-
-        std::for_each(centers.begin(), centers.end(), [&center_min, &center_max](auto &center) {
-            for (auto &x: center) {
-                x = mltk::random::floatInRange<double>(center_min, center_max);
-            }
-        });
-
-        return make_blobs(samples_per_center, centers, clusters_std, n_dims, shuffle, has_classes, seed);
-    }
-
-    BlobsPair make_blobs(const std::vector<size_t> &n_samples, const std::vector<mltk::Point<double>> &centers,
-                         std::vector<double> clusters_std, int n_dims, bool shuffle, bool has_classes,
-                         size_t seed) {
-        mltk::random::init(seed);
+    static BlobsPair blobs_around(const std::vector<size_t> &n_samples, const std::vector<mltk::Point<double>> &centers,
+                                  const std::vector<double> &clusters_std, int n_dims, bool shuffle, bool has_classes,
+                                  size_t seed) {
         mltk::Data<double> dataset;
         BlobsPair pair;
         dataset.setName("blobs");
@@ -107,9 +96,32 @@ namespace mltk::datasets {
         return pair;
     }
 
+    BlobsPair make_blobs(size_t n_samples, int n_centers, int n_dims, double cluster_std, double center_min,
+                         double center_max, bool shuffle, const bool has_classes, const size_t seed) {
+        restart(seed);
+        std::vector<mltk::Point<>> centers(n_centers, mltk::Point<>(n_dims, 0.0));
+        std::vector<size_t> samples_per_center(n_centers, std::floor(n_samples / n_centers));
+        std::vector<double> clusters_std(n_centers, cluster_std);
+
+        std::for_each(centers.begin(), centers.end(), [&center_min, &center_max](auto &center) {
+            for (auto &x: center) {
+                x = mltk::random::floatInRange<double>(center_min, center_max);
+            }
+        });
+
+        return blobs_around(samples_per_center, centers, clusters_std, n_dims, shuffle, has_classes, seed);
+    }
+
+    BlobsPair make_blobs(const std::vector<size_t> &n_samples, const std::vector<mltk::Point<double>> &centers,
+                         std::vector<double> clusters_std, int n_dims, bool shuffle, bool has_classes,
+                         size_t seed) {
+        restart(seed);
+        return blobs_around(n_samples, centers, clusters_std, n_dims, shuffle, has_classes, seed);
+    }
+
     RegPair make_regression(size_t n_samples, size_t n_dims, double bias, double noise, double stdev,
                             size_t n_informative, bool shuffle, size_t seed) {
-        mltk::random::init(seed);
+        restart(seed);
         mltk::Data<double> dataset(n_samples, n_dims);
         RegPair pair;
         mltk::Point<double> ground_truth(n_dims, 0.0), y(n_samples);
-- 
2.43.0


From f33a49e56b51850d9106326a58bd573c81bc8549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:34 +0000
Subject: [PATCH 029/146] fix: Data::setClasses keeps names and distribution
 aligned with the classes

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index b98bf63..2219fcd 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1799,9 +1799,15 @@ namespace mltk{
 
     template<typename T>
     void mltk::Data<T>::setClasses(const std::vector<int> &_classes) {
+        std::vector<std::string> names;
+        for(int c: _classes){
+            size_t pos = std::find(m_classes.begin(), m_classes.end(), c) - m_classes.begin();
+            names.push_back((pos < class_names.size()) ? class_names[pos] : std::to_string(c));
+        }
         this->m_classes = _classes;
-        this->class_distribution.resize(_classes.size());
+        this->class_names = names;
         this->cdist_computed = false;
+        this->computeClassesDistribution();
     }
 
     template <typename T>
-- 
2.43.0


From f7ed21a6f34c9bd8920051e036626e52c5affb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:34 +0000
Subject: [PATCH 030/146] fix: two fold splits must not test on the training
 fold

---
 .../ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
index 26d0d30..806ed50 100644
--- a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
+++ b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
@@ -474,9 +474,9 @@ namespace mltk::validation {
             train.join(data_folds[i]);
 
             int gone = 0;
-            int next_j=(i+2) % folds;
+            int next_j=(i+1) % folds;
 
-            for(int j = (i+1) % folds; gone < folds-2; gone++, j = (j+1) % folds){
+            for(int j = (i+1) % folds; gone + 2 < folds; gone++, j = (j+1) % folds){
                 train.join(data_folds[j]);
                 next_j = (j+1) % folds;
             }
-- 
2.43.0


From 28991361b627facfd3427e8eb143ddf1e8a25b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:34 +0000
Subject: [PATCH 031/146] fix: training and test parts keep the type and
 feature names of the dataset

---
 .../ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
index 806ed50..ee693e6 100644
--- a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
+++ b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
@@ -417,6 +417,11 @@ namespace mltk::validation {
         std::vector<Data<T> > folds = samples.splitSample(fold, stratified, keepIndex, seed);
         TrainTestPair<T> result;
 
+        result.train.setType(data.getType());
+        result.train.setFeaturesNames(data.getFeaturesNames());
+        result.test.setType(data.getType());
+        result.test.setFeaturesNames(data.getFeaturesNames());
+
         for(auto it = folds.begin(); it != folds.end()-1; it++){
             auto _data = *it;
             for(auto p = _data.begin(); p != _data.end(); p++){
@@ -471,6 +476,7 @@ namespace mltk::validation {
 
         for(int i = 0; i < folds; i++){
             Data<T> train;
+            train.setType(data.getType());
             train.join(data_folds[i]);
 
             int gone = 0;
-- 
2.43.0


From 603f6ebcb3fc4dc446f5bca5f2331a471fa0446e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:34 +0000
Subject: [PATCH 032/146] fix: the rows of the confusion matrix are the true
 labels, as documented

---
 .../ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
index ee693e6..d22e8ab 100644
--- a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
+++ b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
@@ -602,7 +602,7 @@ namespace mltk::validation {
                 }
                 if (idp && idy) break;
             }
-            confusion_m[idp][idy]++;
+            confusion_m[idy][idp]++;
         }
         return confusion_m;
     }
-- 
2.43.0


From 84b480cbcf8f7c88093c7d99ed567b501f208eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:34 +0000
Subject: [PATCH 033/146] fix: the accuracy of metricsReport counts true
 negatives

---
 .../ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
index d22e8ab..beaf4d0 100644
--- a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
+++ b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
@@ -572,7 +572,7 @@ namespace mltk::validation {
             }
         }
 
-        report.accuracy = (double)report.tp / data.size();
+        report.accuracy = (double)(report.tp + report.tn) / data.size();
         report.error = 1.0 - report.accuracy;
         report.errors = report.fp+report.fn;
         report.sensitivity = (double)report.tp/(report.tp + report.fn);
-- 
2.43.0


From f05240fb005474c207dc015971c19f970b06013d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:34 +0000
Subject: [PATCH 034/146] fix: classificationReport divides integers, by zero
 when there is nothing to count

---
 .../ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
index beaf4d0..f442f52 100644
--- a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
+++ b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
@@ -634,10 +634,10 @@ namespace mltk::validation {
             }
         }
         report.accuracy /= real.size();
-        report.sensitivity = report.tp/(report.tp+report.fn);
-        report.specificity = report.tn/(report.fn+report.tn);
-        report.precision = report.tp/(report.tp+report.fp);
-        report.recall = report.tp/(report.tp+report.fn);
+        report.sensitivity = (double)report.tp/(report.tp+report.fn);
+        report.specificity = (double)report.tn/(report.tn+report.fp);
+        report.precision = (double)report.tp/(report.tp+report.fp);
+        report.recall = (double)report.tp/(report.tp+report.fn);
         report.fscore = 2*(report.precision*report.recall)/(report.precision + report.recall);
         return report;
     }
-- 
2.43.0


From 4f8ad5bcd4ccdceb0f8643c7e5112c86fc3b217e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:22 +0000
Subject: [PATCH 035/146] fix: Data::removeFeatures handles repeated and
 unordered feature names

---
 .../include/ufjfmltk/core/Data.hpp            | 60 ++++---------------
 1 file changed, 12 insertions(+), 48 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 2219fcd..5ce5758 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1325,11 +1325,6 @@ namespace mltk{
 
     template<typename T>
     bool mltk::Data< T >::removeFeatures(std::vector<int> feats){
-        size_t i, j, k, psize = m_points.size(), rsize = feats.size();
-        typename std::vector< T >::iterator itr;
-        std::vector<int>::iterator fitr;
-        std::vector<bool> exist(rsize, true);
-
         if(feats.empty()) return true;
 
         if(fnames.size() == 1){
@@ -1341,53 +1336,22 @@ namespace mltk{
             return false;
         }*/
 
-        //Sort feats for remove features easily
-        sort(feats.begin(), feats.end());
-
-        //Check the existence of the features to be removed
-        for(i = 0; i < rsize; i++){
-            for(j = 0; j < m_dim; j++){
-                if((feats[i] > -1) && feats[i] == fnames[j]){
-                    break;
-                }
-            }
-            if(j == m_dim){
-                exist[i] = false;
-            }
+        //Positions of the features which stay
+        std::vector<size_t> keep;
+        for(size_t j = 0; j < fnames.size(); j++){
+            if(std::find(feats.begin(), feats.end(), fnames[j]) == feats.end()) keep.push_back(j);
         }
 
-        //Remove features from each point
-        for(i = 0; i < psize; i++){
-            if(m_points[i] == nullptr) std::clog << "WARNING: point is null." << std::endl;
-
-            // Iterate through the point features
-            for(itr = m_points[i]->X().begin(),k = 0, j = 0; itr != m_points[i]->X().end();){
-                while(k < rsize && !exist[k]) k++; // go to next existent feature
-                if(k == rsize) break;              // Verify if is in the end of the feats vector
-
-                // Feature to remove found, remove it from the point and go to the next feat to remove
-                if(fnames[j] == feats[k]){
-                    itr = m_points[i]->X().erase(itr);
-                    k++;
-                }else{
-                    itr++;
-                }
-                j++;
-            }
+        for(auto& point: m_points){
+            std::vector<T> x;
+            for(size_t j: keep) x.push_back(point->X()[j]);
+            point->X() = x;
         }
 
-        //remove names of removed features
-        for(k = 0; k < rsize; k++){
-            for(fitr = fnames.begin(); fitr != fnames.end();){
-                if((*fitr) == feats[k]){
-                    fitr = fnames.erase(fitr);
-                    m_dim--;
-                    break;
-                }else{
-                    fitr++;
-                }
-            }
-        }
+        std::vector<int> names;
+        for(size_t j: keep) names.push_back(fnames[j]);
+        fnames = names;
+        m_dim = keep.size();
 
         return true;
     }
-- 
2.43.0


From 63b7aa704b7344c6421470315920fc874646e03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:07 +0000
Subject: [PATCH 036/146] fix: utils::atod ignores the exponent of numbers
 written in scientific notation

---
 subprojects/ufjfmltk-core/src/Utils.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-core/src/Utils.cpp b/subprojects/ufjfmltk-core/src/Utils.cpp
index 3a1fa13..38d7298 100755
--- a/subprojects/ufjfmltk-core/src/Utils.cpp
+++ b/subprojects/ufjfmltk-core/src/Utils.cpp
@@ -50,11 +50,15 @@ namespace mltk::utils{
                 val = 10.0 * val + (s[i] - '0');
             if (s[i] == '.')
                 i++;
-            for (power = 1.0; isdigit(s[i]); i++) {
+            int exponent = 0;
+            for (; isdigit(s[i]); i++) {
                 val = 10.0 * val + (s[i] - '0');
-                power *= 10;
+                exponent--;
             }
-            return sign * val / power;
+            if (s[i] == 'e' || s[i] == 'E')
+                exponent += atoi(s + i + 1);
+            power = pow(10.0, abs(exponent));
+            return (exponent < 0) ? sign * val / power : sign * val * power;
         }
 
         std::string itos(int n){
-- 
2.43.0


From c74c8dbcd98f5bc3b98f4dfce6fe6e7cb2ef66e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:07 +0000
Subject: [PATCH 037/146] fix: utils::is_number accepts texts without digits,
 such as the class name e

---
 subprojects/ufjfmltk-core/src/Utils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/src/Utils.cpp b/subprojects/ufjfmltk-core/src/Utils.cpp
index 38d7298..5c62c74 100755
--- a/subprojects/ufjfmltk-core/src/Utils.cpp
+++ b/subprojects/ufjfmltk-core/src/Utils.cpp
@@ -13,7 +13,9 @@ using namespace std;
 
 namespace mltk::utils{
         bool is_number(std::string s){
-            return !s.empty() && std::find_if(s.begin(),
+            char* end = nullptr;
+            std::strtod(s.c_str(), &end);
+            return !s.empty() && *end == '\0' && std::find_if(s.begin(),
                                               s.end(), [](unsigned char c) { return !(std::isdigit(c) || c == '.' || c == '-' || c == '+' || c == 'e'); }) == s.end();
         }
 
-- 
2.43.0


From 578f1f873cadada58bccd8ac8a564376d15491e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:31 +0000
Subject: [PATCH 038/146] fix: loading an empty path reads out of bounds

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 5ce5758..d5e08aa 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -2073,6 +2073,7 @@ namespace mltk{
     template<typename T>
     std::string Data<T>::discover_dataset_name(const std::string &path) {
         auto tokens = mltk::utils::tokenize(path, '/');
+        if(tokens.empty()) return std::string();
         tokens = mltk::utils::tokenize(tokens.back(), '.');
         return (tokens.empty())?std::string():tokens[0];
     }
-- 
2.43.0


From a468f2a9c7ab7bcb6e26b29535696f2dd9a0d7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:39 +0000
Subject: [PATCH 039/146] fix: random::init ignores a seed which was the last
 one given

---
 subprojects/ufjfmltk-core/src/Datasets.cpp | 28 ++++++++++++----------
 subprojects/ufjfmltk-core/src/Random.cpp   |  3 ++-
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/subprojects/ufjfmltk-core/src/Datasets.cpp b/subprojects/ufjfmltk-core/src/Datasets.cpp
index 3d8d324..9740665 100755
--- a/subprojects/ufjfmltk-core/src/Datasets.cpp
+++ b/subprojects/ufjfmltk-core/src/Datasets.cpp
@@ -5,26 +5,28 @@
 #include "ufjfmltk/core/Datasets.hpp"
 
 namespace mltk::datasets {
-    // random::init() ignores a seed equal to the last one; a generated dataset starts from its seed.
-    static void restart(size_t seed) {
-        mltk::random::init(seed);
-        if (seed != 0) mltk::random::m_generator.seed(seed);
+    // Next values of the generator, which the caller has already seeded.
+    template <typename Distribution = std::uniform_real_distribution<double> >
+    static mltk::Point<double> draw(size_t size, double val1 = 0.0, double val2 = 1.0) {
+        mltk::Point<double> p(size);
+        for (auto &x: p) x = mltk::random::floatInRange<double, Distribution>(val1, val2);
+        return p;
     }
 
     mltk::Data<double> make_spirals(size_t n_samples, int n_classes, bool shuffle, double noise, size_t n_loops,
                                     double margin, size_t seed) {
-        restart(seed);
+        mltk::random::init(seed);
         size_t samples_byclass = std::ceil(n_samples / n_classes);
         mltk::Data<double> dataset;
 
         dataset.setName("spirals");
 
-        mltk::Point<> theta = mltk::random_init<double>(samples_byclass, seed) * n_loops * 360.0 * M_PI / 180.0;
+        mltk::Point<> theta = draw(samples_byclass) * n_loops * 360.0 * M_PI / 180.0;
         mltk::Point<> r = theta * margin * n_classes;
         for (int i = 0; i < n_classes; i++) {
             mltk::Point<> rotated_theta = theta + i * 2.0 * M_PI / n_classes;
-            mltk::Point<> x1 = r * mltk::cos(rotated_theta) + mltk::random_init<double>(samples_byclass, seed) * noise;
-            mltk::Point<> x2 = r * mltk::sin(rotated_theta) + mltk::random_init<double>(samples_byclass, seed) * noise;
+            mltk::Point<> x1 = r * mltk::cos(rotated_theta) + draw(samples_byclass) * noise;
+            mltk::Point<> x2 = r * mltk::sin(rotated_theta) + draw(samples_byclass) * noise;
 
             for (size_t j = 0; j < samples_byclass; j++) {
                 auto point = mltk::Point<double>({x1[j], x2[j]});
@@ -98,7 +100,7 @@ namespace mltk::datasets {
 
     BlobsPair make_blobs(size_t n_samples, int n_centers, int n_dims, double cluster_std, double center_min,
                          double center_max, bool shuffle, const bool has_classes, const size_t seed) {
-        restart(seed);
+        mltk::random::init(seed);
         std::vector<mltk::Point<>> centers(n_centers, mltk::Point<>(n_dims, 0.0));
         std::vector<size_t> samples_per_center(n_centers, std::floor(n_samples / n_centers));
         std::vector<double> clusters_std(n_centers, cluster_std);
@@ -115,19 +117,19 @@ namespace mltk::datasets {
     BlobsPair make_blobs(const std::vector<size_t> &n_samples, const std::vector<mltk::Point<double>> &centers,
                          std::vector<double> clusters_std, int n_dims, bool shuffle, bool has_classes,
                          size_t seed) {
-        restart(seed);
+        mltk::random::init(seed);
         return blobs_around(n_samples, centers, clusters_std, n_dims, shuffle, has_classes, seed);
     }
 
     RegPair make_regression(size_t n_samples, size_t n_dims, double bias, double noise, double stdev,
                             size_t n_informative, bool shuffle, size_t seed) {
-        restart(seed);
+        mltk::random::init(seed);
         mltk::Data<double> dataset(n_samples, n_dims);
         RegPair pair;
         mltk::Point<double> ground_truth(n_dims, 0.0), y(n_samples);
         n_informative = std::min(n_dims, n_informative);
-        auto random_init = [&n_dims, seed](const mltk::PointPointer<double> &point) {
-            *point = mltk::random_init<double, std::normal_distribution<double>>(0, 1, n_dims, seed);
+        auto random_init = [&n_dims](const mltk::PointPointer<double> &point) {
+            *point = draw<std::normal_distribution<double>>(n_dims, 0, 1);
         };
 
         dataset.apply(random_init);
diff --git a/subprojects/ufjfmltk-core/src/Random.cpp b/subprojects/ufjfmltk-core/src/Random.cpp
index 0498a7a..c43af90 100755
--- a/subprojects/ufjfmltk-core/src/Random.cpp
+++ b/subprojects/ufjfmltk-core/src/Random.cpp
@@ -10,7 +10,8 @@ namespace mltk::random {
     std::mt19937 m_generator{std::random_device{}()};
 
     size_t  init(unsigned int seed) {
-        if(seed != seed_param){
+        // a seed given again restarts the sequence
+        if(seed != 0 || seed != seed_param){
             m_generator.discard(std::mt19937::state_size);
             seed_param = seed;
             m_seed = (seed == 0)?std::random_device {} (): seed;
-- 
2.43.0


From 699c4ee176dceb3786c4ae5439744f7e0e0608d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:19 +0000
Subject: [PATCH 040/146] fix: the centers of KMeans are the means of their
 clusters

---
 .../ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp  | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
index b4f68b7..753d1d8 100755
--- a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
+++ b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
@@ -76,6 +76,8 @@ namespace mltk{
             void KMeans<T, Callable>::compute_centers(){
                 int i = 0;
                 std::for_each(this->m_clusters.begin(), this->m_clusters.end(), [&](const auto& cluster){
+                    // an empty cluster keeps its center
+                    if(cluster.size() > 0) this->m_centers[i].assign(this->samples->dim(), 0.0);
                     for(const size_t id: cluster){
                         this->m_centers[i] += *this->samples->point(id);
                     }
@@ -83,7 +85,7 @@ namespace mltk{
                 });
                 i = 0;
                 std::for_each(this->m_centers.begin(), this->m_centers.end(), [&](auto& center){
-                   center /= this->m_clusters[i].size();
+                   if(this->m_clusters[i].size() > 0) center /= this->m_clusters[i].size();
                    i++;
                 });
             }
-- 
2.43.0


From cdeb06e3b4bf4b51fe27e01140528f410e026c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:19 +0000
Subject: [PATCH 041/146] fix: KMeans chooses initial centers out of bounds

---
 .../include/ufjfmltk/clusterer/KMeans.hpp                   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
index 753d1d8..59b9974 100755
--- a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
+++ b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
@@ -106,7 +106,7 @@ namespace mltk{
 
                     // generate the ids of the centers in the dataset using the random number generator function
                     std::generate(centers_ids.begin(), centers_ids.end(), [&size](){
-                        return mltk::random::intInRange(0, int(size));
+                        return mltk::random::intInRange(0, int(size)-1);
                     });
                     // get the values from the dataset for the centers
                     std::transform(centers_ids.begin(), centers_ids.end(), this->m_centers.begin(),
@@ -115,7 +115,7 @@ namespace mltk{
                                    });
                 } else if (initialization == "kmeanspp") {
                     // choose the first center randomly
-                    this->m_centers[0] = points[mltk::random::intInRange(0, int(size))]->X();
+                    this->m_centers[0] = points[mltk::random::intInRange(0, int(size)-1)]->X();
                     // choose the next cluster in points with a probability directly proportional to the metrics from the
                     // last chosen cluster.
                     for (size_t i = 1; i < this->m_centers.size(); i++) {
@@ -134,7 +134,7 @@ namespace mltk{
                         // use the distances as a probability distribution
                         std::discrete_distribution<size_t> _dist(distances.begin(), distances.end());
                         // generate the id for the next cluster
-                        size_t center = mltk::random::intInRange(0, int(size));
+                        size_t center = mltk::random::intInRange(0, int(size)-1);
                         this->m_centers[i] = points[center]->X();
                     }
                 }
-- 
2.43.0


From 4285f02025be8dd0c52b69e0e2807bf84d4b1fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:19 +0000
Subject: [PATCH 042/146] fix: KMeans clusters hold positions also on shuffled
 datasets and do not accumulate

---
 .../include/ufjfmltk/clusterer/KMeans.hpp                | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
index 59b9974..2cc62c4 100755
--- a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
+++ b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
@@ -60,13 +60,18 @@ namespace mltk{
                 double sum_d = 0;
                 double cost = 0.0;
 
+                size_t position = 0;
+
+                // forget the clusters of a previous assignment
+                for(auto& cluster: this->m_clusters) cluster.clear();
+
                 std::for_each(points.begin(), points.end(), [&](const std::shared_ptr<Point<T> > q){
                     std::vector<double> distances(this->m_centers.size(), 0.0);
                     std::transform(this->m_centers.begin(), this->m_centers.end(), distances.begin(), [&](const Point<T>& center){
                         return this->dist_function(*q, center);
                     });
                     size_t cluster_id = std::min_element(distances.begin(), distances.end()) - distances.begin();
-                    this->m_clusters[cluster_id].X().push_back(q->Id()-1);
+                    this->m_clusters[cluster_id].X().push_back(position++);
                     cost += distances[cluster_id] * distances[cluster_id];
                 });
                 return cost;
@@ -149,7 +154,7 @@ namespace mltk{
                     old_cost = cost;
                     has_converged = true;
                     // assign each point to the nearest cluster
-                    cost = assign_clusters(points);
+                    cost = assign_clusters(this->samples->points());
                     // update the centers of the clusters
                     compute_centers();
 
-- 
2.43.0


From 500354306390cee742094b9e6f5204d47d0ad7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:19 +0000
Subject: [PATCH 043/146] fix: kmeanspp chooses the centers by distance

---
 .../ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
index 2cc62c4..8276e51 100755
--- a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
+++ b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
@@ -139,7 +139,7 @@ namespace mltk{
                         // use the distances as a probability distribution
                         std::discrete_distribution<size_t> _dist(distances.begin(), distances.end());
                         // generate the id for the next cluster
-                        size_t center = mltk::random::intInRange(0, int(size)-1);
+                        size_t center = (sum_d > 0) ? _dist(mltk::random::m_generator) : mltk::random::intInRange(0, int(size)-1);
                         this->m_centers[i] = points[center]->X();
                     }
                 }
-- 
2.43.0


From 39dad48ccb5c086a6e25b35f3b8fd0d27088e7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:57 +0000
Subject: [PATCH 044/146] fix: KNN with a triangular distance matrix ignores
 distances to the point itself

---
 .../include/ufjfmltk/classifier/KNNClassifier.hpp               | 2 --
 1 file changed, 2 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
index ba533b3..7f53085 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
@@ -98,8 +98,6 @@ namespace mltk{
                             size_t id2 = points[i2]->Id()-1;
                             size_t idp = p.Id()-1;
                             
-                            if(idp == id1 || idp == id2) return false;
-
                             size_t idp1 = (idp > id1) ? idp : id1;
                             size_t id1p = (idp > id1) ? id1 : idp;
                             
-- 
2.43.0


From 4ab3e401ad2b16a9839565040fbcd4ed011fdb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:57 +0000
Subject: [PATCH 045/146] fix: KNN uses the distances it precomputed

---
 .../include/ufjfmltk/classifier/KNNClassifier.hpp            | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
index 7f53085..d902728 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
@@ -54,7 +54,10 @@ namespace mltk{
                     metrics::dist::DistanceMatrix<Callable> precomputeDistances(mltk::Data<T> &data, bool diagonal = false, const size_t threads = std::thread::hardware_concurrency()){
                         this->precomputed = true;
 
-                        return metrics::dist::DistanceMatrix<Callable>(data, diagonal, threads);
+                        metrics::dist::DistanceMatrix<Callable> matrix(data, diagonal, threads);
+                        this->distances = matrix;
+
+                        return matrix;
                     }
             };
             
-- 
2.43.0


From c82e159ac640556e59a9ee7f6adf932bc5d09fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:57 +0000
Subject: [PATCH 046/146] fix: KNN with more neighbors than points reads out of
 bounds

---
 .../include/ufjfmltk/classifier/KNNClassifier.hpp     | 11 ++++++-----
 .../include/ufjfmltk/regressor/KNNRegressor.hpp       |  5 +++--
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
index d902728..96e478b 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
@@ -69,6 +69,7 @@ namespace mltk{
                 mltk::Point<double> distances(this->samples->size());
                 std::vector<int> classes = this->samples->classes();
                 std::vector<size_t> idx(distances.size());
+                const size_t n_neigh = std::min(this->k, idx.size());
                 std::vector<PointPointer<T>> neigh;
                 auto p0 = std::make_shared<Point<T> >(p);
                
@@ -84,19 +85,19 @@ namespace mltk{
 
 
                         // sort the index vector by the metrics from the sample to be evaluated
-                        std::nth_element(idx.begin(), idx.begin() + this->k, idx.end(), [&distances](size_t i1, size_t i2) {
+                        std::nth_element(idx.begin(), idx.begin() + n_neigh, idx.end(), [&distances](size_t i1, size_t i2) {
                             return distances[i1] < distances[i2];
                         });
                     }else if(!this->distances.isDiagonalMatrix()){
                         size_t idp = p.Id()-1;
-                        std::nth_element(idx.begin(), idx.begin() + this->k, idx.end(), [&idp, &distances, &points, this](size_t i1, size_t i2) {
+                        std::nth_element(idx.begin(), idx.begin() + n_neigh, idx.end(), [&idp, &distances, &points, this](size_t i1, size_t i2) {
                             size_t id1 = points[i1]->Id()-1;
                             size_t id2 = points[i2]->Id()-1;
 
                             return this->distances[idp][id1] < this->distances[idp][id2];
                         }); 
                     } else { 
-                        std::nth_element(idx.begin(), idx.begin() + this->k, idx.end(), [&p, this, &points](size_t i1, size_t i2) {
+                        std::nth_element(idx.begin(), idx.begin() + n_neigh, idx.end(), [&p, this, &points](size_t i1, size_t i2) {
                             size_t id1 = points[i1]->Id()-1;
                             size_t id2 = points[i2]->Id()-1;
                             size_t idp = p.Id()-1;
@@ -112,9 +113,9 @@ namespace mltk{
                     }
                 }
                // Define frequency counting logic in a lambda function.
-                auto calculateFrequency = [&idx, &points, &neigh, this](int c) {
+                auto calculateFrequency = [&idx, &points, &neigh, n_neigh, this](int c) {
                     if (algorithm == "brute") {
-                        return std::count_if(idx.begin(), idx.begin() + this->k, [&points, &c](size_t id) { 
+                        return std::count_if(idx.begin(), idx.begin() + n_neigh, [&points, &c](size_t id) { 
                             return points[id]->Y() == c; 
                         });
                     } else {
diff --git a/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/KNNRegressor.hpp b/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/KNNRegressor.hpp
index f74ab17..1f05ce0 100755
--- a/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/KNNRegressor.hpp
+++ b/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/KNNRegressor.hpp
@@ -50,13 +50,14 @@ namespace mltk{
                         return distances[i1] < distances[i2];
                     });
 
+                    const size_t n_neigh = std::min(this->k, idx.size());
                     double sum = 0.0;
 
                     // sum the values in the k nearest neighbors and return the average
-                    for (size_t j = 0; j < this->k; j++) {
+                    for (size_t j = 0; j < n_neigh; j++) {
                         sum += points[idx[j]]->Y();
                     }
-                    return sum / this->k;
+                    return sum / n_neigh;
                 }
             };
         }
-- 
2.43.0


From 4685e4450fd6fb5862b507d9823064e0f7c44d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:57 +0000
Subject: [PATCH 047/146] fix: KNN reports certainty instead of the probability
 of its prediction

---
 .../include/ufjfmltk/classifier/KNNClassifier.hpp               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
index 96e478b..e795e6f 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
@@ -145,7 +145,7 @@ namespace mltk{
                     }
                 }
 
-                this->pred_prob = (1-max_prob > 1E-7) ? 1: max_prob;
+                this->pred_prob = (1-max_prob > 1E-7) ? max_prob : 1;
 
                 return classes[maxDetails.second];
             }
-- 
2.43.0


From 6e40a6a35b4c96e1dfe0343c3527c947d24a5e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:43 +0000
Subject: [PATCH 048/146] fix: the max of a point with negative values is not
 its smallest positive number

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
index 2d2cba6..2fbe61b 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
@@ -542,7 +542,7 @@ namespace mltk {
      */
     template < typename T, typename R >
     T max(const Point<T, R> &p){
-        T _max = std::numeric_limits<T>::min();
+        T _max = std::numeric_limits<T>::lowest();
         for(size_t i = 0; i < p.size(); i++){
             if(p[i] > _max) _max = p[i];
         }
-- 
2.43.0


From a81afffe4e5cca5062d080f8a6bc060050a37469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:43 +0000
Subject: [PATCH 049/146] fix: assigning a shorter point keeps the coordinates
 of the longer one

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
index 2fbe61b..935d9da 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
@@ -298,7 +298,7 @@ namespace mltk {
 
             // assignment operator from same type
             Point& operator=(Point const& b) {
-                if(b.size() > size()){
+                if(b.size() != size()){
                     x.resize(b.size());
                 }
 
@@ -321,7 +321,7 @@ namespace mltk {
             }
 
             Point& operator=(std::vector<T> const& b) {
-                if(b.size() > size()){
+                if(b.size() != size()){
                     x.resize(b.size());
                 }
 
@@ -334,7 +334,7 @@ namespace mltk {
 
             template< typename T2 >
             Point& operator=(std::vector<T2> const& b) {
-                if(b.size() > size()){
+                if(b.size() != size()){
                     x.resize(b.size());
                 }
 
-- 
2.43.0


From 05e3e39e2ced9e4fe63a37305ed37ad2de626650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:43 +0000
Subject: [PATCH 050/146] fix: the mean of integer points is not an integer
 division

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Statistics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Statistics.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Statistics.hpp
index 895f021..19aeea7 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Statistics.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Statistics.hpp
@@ -102,7 +102,7 @@ namespace mltk::stats {
     template < typename T, typename R >
     double mean (const Point<T, R> &p){
         assert(p.size() > 0);
-        return p.sum()/p.size();
+        return (double)p.sum()/p.size();
     }
 
     template <typename T>
-- 
2.43.0


From 7fe1f1680b461932a1621395b285705a6c60b876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:43 +0000
Subject: [PATCH 051/146] fix: distCentersWithoutFeats measures the features it
 should leave out

---
 .../ufjfmltk-core/include/ufjfmltk/core/Statistics.hpp       | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Statistics.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Statistics.hpp
index 19aeea7..0c6af4c 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Statistics.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Statistics.hpp
@@ -287,9 +287,10 @@ namespace mltk::stats {
 
         for(dist = 0.0, j = 0; j < dim; ++j){
             for(i = 0; i < featsize; ++i){
-                if(fnames[j] == feats[i])
-                    dist -= std::pow(avg_pos[j] - avg_neg[j], 2);
+                if(fnames[j] == feats[i]) break;
             }
+            if(i == featsize && (index < 0 || fnames[j] != index))
+                dist += std::pow(avg_pos[j] - avg_neg[j], 2);
         }
 
         return std::sqrt(std::fabs(dist));
-- 
2.43.0


From 8b3674aedb85d23d5a48433cc4c7f461448f5929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:31 +0000
Subject: [PATCH 052/146] fix: BaggingClassifier ignores the seed set by
 setSeed

---
 .../include/ufjfmltk/ensemble/BaggingClassifier.hpp         | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp
index 52ee33f..5d2df66 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp
@@ -12,7 +12,6 @@ namespace mltk {
         class BaggingClassifier : public Ensemble<T>, public classifier::Classifier<T> {
         private:
             size_t n_estimators = 10;
-            size_t seed = 0;
 
         public:
             BaggingClassifier() = default;
@@ -20,7 +19,8 @@ namespace mltk {
             template<class Estimator>
             explicit BaggingClassifier(const Data<T> &samples, const Estimator &estimator, size_t n_estimators = 10,
                                        size_t seed = 0)
-                    : n_estimators(n_estimators), seed(seed) {
+                    : n_estimators(n_estimators) {
+                this->seed = seed;
                 this->samples = mltk::make_data<T>(samples);
                 this->m_learners.resize(n_estimators);
                 for (size_t i = 0; i < n_estimators; i++) {
@@ -29,7 +29,7 @@ namespace mltk {
             }
 
             bool train() override {
-                seed = (seed == 0) ? std::random_device()() : seed;
+                size_t seed = (this->seed == 0) ? std::random_device()() : this->seed;
 
                 size_t samp_size = this->samples->size() / n_estimators;
                 for (size_t i = 0; i < n_estimators; i++) {
-- 
2.43.0


From 111f8e3f033112ff47616355298491a3ee44d178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:31 +0000
Subject: [PATCH 053/146] fix: AdaBoost weights the errors twice

---
 .../include/ufjfmltk/ensemble/AdaBoostClassifier.hpp          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AdaBoostClassifier.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AdaBoostClassifier.hpp
index 257004b..7f9b1d0 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AdaBoostClassifier.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AdaBoostClassifier.hpp
@@ -44,10 +44,10 @@ namespace mltk {
                     for(size_t i = 0; i < _size; i++){
                         auto point = (*this->samples)[i];
 
-                        if(point->Y() != learner->evaluate(*point)) errors[i] = weights[i];
+                        if(point->Y() != learner->evaluate(*point)) errors[i] = 1.0;
                     }
                     // compute the estimator error as the weighted average of each point error
-                    err[m] = mltk::dot(weights, errors)/weights.sum();
+                    err[m] = std::min(mltk::dot(weights, errors)/weights.sum(), 1.0 - 1e-10);
                     // compute alpha to be used on weight update
                     alpha[m] = ((err[m] > 0)?std::log((1.0-err[m])/err[m]):1) + std::log(K - 1);
                     weights *= mltk::exp(alpha[m]*errors);
-- 
2.43.0


From be33e85100e3b079a4c7c522146dee3c73df8852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:31 +0000
Subject: [PATCH 054/146] fix: a hard vote overwrites the weights of a
 VotingClassifier

---
 .../include/ufjfmltk/ensemble/VotingClassifier.hpp         | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
index 4760255..b2789ab 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
@@ -38,10 +38,9 @@ namespace mltk{
             double evaluate(const Point<T> &p, bool raw_value = false) override {
                 auto _classes = this->samples->classes();
                 mltk::Point<double> votes(_classes.size(), 0.0);
-                if (voting_type == "soft") {
+                bool soft = voting_type == "soft";
+                if (soft) {
                     assert(this->weights.size() > 0);
-                } else {
-                    this->weights = Point<double>(this->m_learners.size(), 1);
                 }
                 for (size_t i = 0; i < this->m_learners.size(); i++) {
                     auto pred = this->m_learners[i]->evaluate(p);
@@ -50,7 +49,7 @@ namespace mltk{
                         return (a == pred);
                     }) - _classes.begin();
                     // count prediction as a vote
-                    votes[pred_pos] += this->weights[i];
+                    votes[pred_pos] += soft ? this->weights[i] : 1;
                 }
                 size_t max_votes = std::max_element(votes.X().begin(), votes.X().end()) - votes.X().begin();
                 return _classes[max_votes];
-- 
2.43.0


From adc4f99f61d856b1e5960e2b43e5ad7c154996ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:31 +0000
Subject: [PATCH 055/146] fix: assigning a VotingClassifier copies its voting
 type and returns it

---
 .../include/ufjfmltk/ensemble/VotingClassifier.hpp              | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
index b2789ab..9e55189 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
@@ -77,6 +77,8 @@ namespace mltk{
                 this->m_learners = voter.m_learners;
                 this->weights = voter.weights;
                 this->samples = voter.samples;
+                this->voting_type = voter.voting_type;
+                return *this;
             }
         };
     }
-- 
2.43.0


From 7c8285f6d98a14751198a16282a1b037282abda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:00 +0000
Subject: [PATCH 056/146] fix: ValidationReport::print shows the precision as
 recall and F1-score

---
 .../ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
index f442f52..37dddb4 100644
--- a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
+++ b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
@@ -50,8 +50,8 @@ namespace mltk::validation {
                 std::cout << "False positives: " << fp << std::endl;
                 std::cout << "False negatives: " << fn << std::endl;
                 std::cout << "Precision: " << precision << std::endl;
-                std::cout << "Recall: " << precision << std::endl;
-                std::cout << "F1-score: " << precision << std::endl;
+                std::cout << "Recall: " << recall << std::endl;
+                std::cout << "F1-score: " << fscore << std::endl;
                 std::cout << "Accuracy: " << accuracy << std::endl;
             }
         };
-- 
2.43.0


From 3ef4b288b70aafaec6df2f866004a8d3aed2c99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:17 +0000
Subject: [PATCH 057/146] fix: the bias of a balanced perceptron never changes

---
 .../include/ufjfmltk/classifier/Perceptron.hpp                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 05eb6f7..e036283 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -109,7 +109,7 @@ namespace mltk{
 
                         if (point->Y() != pred) {
                             weights += this->rate * (*point) * point->Y();
-                            bias += this->rate * bias;
+                            bias += this->rate * point->Y();
                             ite++;
                             errors++;
                         }
-- 
2.43.0


From 962cc3df8a1da2d5c8207b03fcda6c1feae7db74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:17 +0000
Subject: [PATCH 058/146] fix: primal and dual classifiers answer the class
 when the raw value is asked for

---
 .../include/ufjfmltk/classifier/DualClassifier.hpp               | 1 +
 .../include/ufjfmltk/classifier/PrimalClassifier.hpp             | 1 +
 2 files changed, 2 insertions(+)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
index e3eea10..cbc17ab 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
@@ -40,6 +40,7 @@ namespace mltk{
                     func += this->solution.alpha[r] * (*this->samples)[r]->Y() * fk;
                 }
 
+                if (raw_value) return func;
                 return (func >= 0) ? 1 : -1;
             }
 
diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/PrimalClassifier.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/PrimalClassifier.hpp
index a57f638..20c5e84 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/PrimalClassifier.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/PrimalClassifier.hpp
@@ -53,6 +53,7 @@ namespace mltk{
                         func += this->solution.w[i] * p[i];
                     }
 
+                    if (raw_value) return func;
                     return (func >= 0) ? 1 : -1;
                 }
 
-- 
2.43.0


From 4f39766f25069f2ad42dc501197f2e67fd0a5099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:17 +0000
Subject: [PATCH 059/146] fix: copies of dual classifiers share a kernel, whose
 matrix is kept for a copied dataset or another size

---
 .../ufjfmltk/classifier/DualClassifier.hpp    | 24 +++++++++++++++++++
 .../include/ufjfmltk/core/Kernel.hpp          |  2 +-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
index cbc17ab..7d53ce4 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
@@ -24,6 +24,30 @@ namespace mltk{
             /// Object for kernel computations.
             Kernel<T> *kernel = nullptr;
         public:
+            DualClassifier() = default;
+
+            /// A copy has its own kernel, whose matrix is computed again when it is trained.
+            DualClassifier(const DualClassifier<T> &other) : Learner<T>(other), Classifier<T>(other), alpha(other.alpha),
+                    kernel_type(other.kernel_type), kernel_param(other.kernel_param),
+                    kernel(other.kernel ? new Kernel<T>(*other.kernel) : nullptr) {
+                recomputeKernel();
+            }
+
+            DualClassifier<T>& operator=(const DualClassifier<T> &other) {
+                if (this == &other) return *this;
+                Classifier<T>::operator=(other);
+                this->alpha = other.alpha;
+                this->kernel_type = other.kernel_type;
+                this->kernel_param = other.kernel_param;
+                this->kernel = other.kernel ? new Kernel<T>(*other.kernel) : nullptr;
+                recomputeKernel();
+                return *this;
+            }
+
+            /// The kernel matrix of other samples is not valid for the new ones.
+            void setSamples(const Data<T> &data) override { Learner<T>::setSamples(data); recomputeKernel(); }
+            void setSamples(DataPointer<T> data) override { Learner<T>::setSamples(data); }
+
 
             virtual double evaluate(const Point <T> &p, bool raw_value = false) override {
                 double func, bias = this->solution.bias, fk = 0.0, lambda;
diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
index 87e8e01..95d9059 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
@@ -160,7 +160,7 @@ namespace mltk{
     void Kernel<T>::compute(const std::shared_ptr<Data< T > > samples, typename FunctionType<T>::Type f){
         size_t i, j, size = samples->size(), dim = samples->dim();
 
-        if(computed) return;
+        if(computed && K.size() == size) return;
         if(this->type == mltk::CUSTOM) this->func = f;
         K.assign(size, std::vector<double>(size, 0.0));
 
-- 
2.43.0


From 532a1b30d2b40ccc36cd221b8ebe0162d2012dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:02 +0000
Subject: [PATCH 060/146] fix: perceptrons trained again on samples of another
 size or dimension use the old sizes

---
 .../include/ufjfmltk/classifier/Perceptron.hpp     | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index e036283..c46a262 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -186,7 +186,7 @@ namespace mltk{
             std::vector<T> x;
             std::vector<int> index = this->samples->getIndex();
 
-            if (this->solution.w.empty()) this->solution.w.resize(dim);
+            if (this->solution.w.size() != dim) this->solution.w.X().assign(dim, 0.0);
             this->solution.bias = 0;
             this->solution.norm = 0.0;
 
@@ -254,8 +254,11 @@ namespace mltk{
             std::vector<int> index = this->samples->getIndex();
             std::shared_ptr<Point<T> > p;
 
-            if (func.empty()) func.resize(size);
-            if (w.empty()) w.resize(dim);
+            func.assign(size, 0.0);
+            if (w.size() != dim) { // no solution yet, or one for other features
+                w.assign(dim, 0.0);
+                bias = norm = 0.0;
+            }
             e = s = 0;
             this->timer.reset();
             while (this->timer.elapsed() - time <= 0) {
@@ -413,8 +416,9 @@ namespace mltk{
             dMatrix *K = this->kernel->getKernelMatrixPointer();
             int y;
             iota(index.begin(), index.end(), 0);
-            if (this->alpha.empty()) {
+            if (this->alpha.size() != size) { // no solution yet, or one for other samples
                 this->alpha.assign(size, 0.0);
+                bias = norm = 0.0;
             }
             if(!initial){
                 this->solution = Solution();
@@ -452,7 +456,7 @@ namespace mltk{
             this->solution.norm = norm;
             this->solution.alpha = this->alpha;
             this->solution.margin = 0.0;
-            this->solution.w.resize(dim);
+            this->solution.w.X().assign(dim, 0.0);
 
             for (i = 0; i < size; i++) {
                 for (j = 0; j < dim; j++) {
-- 
2.43.0


From 56b5670c7289e2331d88461115b0c6e70e036a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:09 +0000
Subject: [PATCH 061/146] fix: the fixed margin dual perceptron has a wrong
 norm, and trains other samples with the values of the old ones

---
 .../include/ufjfmltk/classifier/Perceptron.hpp   | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index c46a262..faa557a 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -496,7 +496,16 @@ namespace mltk{
                 this->alpha.resize(this->samples->size());
             }
 
-            if (func.empty()) { func.resize(size); }
+            // the function values and the norm are those of the alphas of these samples
+            func.assign(size, bias);
+            norm = 0.0;
+            for (i = 0; i < size; ++i) {
+                for (r = 0; r < size; ++r) {
+                    func[i] += (*this->samples)[r]->Alpha() * (*this->samples)[r]->Y() * (*K)[i][r];
+                }
+                norm += (*this->samples)[i]->Alpha() * (*this->samples)[i]->Y() * (func[i] - bias);
+            }
+            norm = sqrt(norm);
             e = 1, s = 0;
             this->timer.reset();
 
@@ -510,14 +519,13 @@ namespace mltk{
                     if (y * func[idx] - this->gamma * norm <= 0) {
                         lambda = (this->gamma) ? (1 - this->rate * this->gamma / norm) : 1;
                         norm *= lambda;
+                        norm = sqrt(norm * norm + tworate * y * lambda * (func[idx] - bias) + sqrate * (*K)[idx][idx]);
 
                         for (r = 0; r < size; ++r) {
                             (*this->samples)[r]->Alpha() *= lambda;
                             func[r] = lambda * func[r] + this->rate * y * ((*K)[idx][r] + 1) + bias * (1 - lambda);
                         }
 
-                        norm = sqrt(norm * norm + tworate * (*this->samples)[idx]->Y() * lambda * (func[idx] - bias) +
-                                    sqrate * (*K)[idx][idx]);
                         (*this->samples)[idx]->Alpha() += this->rate;
 
                         bias += this->rate * y;
@@ -542,7 +550,7 @@ namespace mltk{
             this->solution.bias = bias;
             this->solution.norm = norm;
             this->solution.func = func;
-            this->solution.w.resize(dim);
+            this->solution.w.X().assign(dim, 0.0);
             this->solution.alpha.resize(size);
             for (i = 0; i < dim; i++) {
                 for (j = 0; j < size; j++) {
-- 
2.43.0


From 80a2cc520cd28e86d09a16d58820295948ad84c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:55 +0000
Subject: [PATCH 062/146] fix: dual classifiers made without a kernel crash,
 and report another kernel type than theirs

---
 .../include/ufjfmltk/classifier/IMA.hpp                    | 5 +++++
 .../include/ufjfmltk/classifier/Perceptron.hpp             | 7 ++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index 0ff4e8c..8f5f616 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -524,6 +524,8 @@ namespace mltk{
         template<typename T>
         IMADual<T>::IMADual(KernelType kernel_type, double kernel_param, double rate, Solution *initial_solution) {
             this->samples = nullptr;
+            this->kernel_type = kernel_type;
+            this->kernel_param = kernel_param;
             this->kernel = new Kernel<T>(kernel_type, kernel_param);
             this->rate = rate;
 
@@ -538,6 +540,8 @@ namespace mltk{
         IMADual<T>::IMADual(const Data<T> &samples, KernelType kernel_type, double kernel_param, double rate,
                             Solution *initial_solution) {
             this->samples = make_data<T>(samples);
+            this->kernel_type = kernel_type;
+            this->kernel_param = kernel_param;
             this->kernel = new Kernel<T>(kernel_type, kernel_param);
             this->rate = rate;
 
@@ -564,6 +568,7 @@ namespace mltk{
             if(!this->samples){
                 return false;
             }
+            if(!this->kernel) this->kernel = new Kernel<T>(this->kernel_type, this->kernel_param);
             this->kernel->compute(this->samples);
             this->timer.reset();
 
diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index faa557a..af62e3d 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -385,6 +385,8 @@ namespace mltk{
                 this->alpha = (*initial_solution).alpha;
             }
             this->rate = rate;
+            this->kernel_type = kernel_type;
+            this->kernel_param = kernel_param;
             this->kernel = new Kernel<T>(kernel_type, kernel_param);
         }
 
@@ -411,7 +413,7 @@ namespace mltk{
             std::vector<int> index(size); //= this->samples->getIndex();
             std::vector<double> func(size, 0.0), Kv;
             std::vector<std::shared_ptr<Point<T> > > points = this->samples->points();
-            if(!this->kernel) this->kernel = new Kernel<T>(mltk::KernelType::INNER_PRODUCT);
+            if(!this->kernel) this->kernel = new Kernel<T>(this->kernel_type, this->kernel_param);
             this->kernel->compute(this->samples);
             dMatrix *K = this->kernel->getKernelMatrixPointer();
             int y;
@@ -474,6 +476,8 @@ namespace mltk{
             this->samples = mltk::make_data<T>(samples);
             //this->solution = *initial_solution;
             this->rate = rate;
+            this->kernel_type = kernel_type;
+            this->kernel_param = kernel_param;
             this->kernel = new Kernel<T>(kernel_type, kernel_param);
             this->gamma = gamma;
             if (initial_solution)
@@ -489,6 +493,7 @@ namespace mltk{
             const double tworate = 2 * this->rate;
             std::vector<int> index = this->samples->getIndex();
             std::vector<double> func = this->solution.func.X(), Kv;
+            if(!this->kernel) this->kernel = new Kernel<T>(this->kernel_type, this->kernel_param);
             this->kernel->compute(this->samples);
             dMatrix *K = this->kernel->getKernelMatrixPointer();
 
-- 
2.43.0


From 769fb550ba8de317989fa038676ee49fd607d5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:41 +0000
Subject: [PATCH 063/146] fix: members of the primal IMA classifiers are used
 uninitialised

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index 8f5f616..4551a90 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -25,7 +25,7 @@ namespace mltk{
         template<typename T = double>
         class IMAp : public PrimalClassifier<T> {
         private:
-            double margin;
+            double margin = 0;
             /// Support vector.
             std::vector<int> svs;
 
@@ -52,9 +52,9 @@ namespace mltk{
         template<typename T = double>
         class IMApFixedMargin : public PrimalClassifier<T> {
         private:
-            int n, maiorn = 0, flagNao1aDim;
+            int n = 1, maiorn = 0, flagNao1aDim = 0;
             double margin = 0.0, maiorw = 0.0;
-            unsigned long tMax;
+            unsigned long tMax = 0;
 
             /// Support vector.
             std::vector<int> svs;
-- 
2.43.0


From 11f93860e419c8caaf01b7943dbccfcb76ac6496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:41 +0000
Subject: [PATCH 064/146] fix: the primal IMA with an initial solution reads
 weights it does not have

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index 4551a90..50d06a5 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -159,7 +159,7 @@ namespace mltk{
                 for (min = DBL_MAX, max = -DBL_MAX, i = 0; i < size; ++i) {
                     y = points[i]->Y();
                     for (func[i] = 0, j = 0; j < dim; ++j)
-                        func[i] += this->w[j] * points[i]->X()[j];
+                        func[i] += this->solution.w[j] * points[i]->X()[j];
                     if (y == 1 && func[i] < min) min = func[i];
                     else if (y == -1 && func[i] > max) max = func[i];
                 }
-- 
2.43.0


From 7074cb712ccc2085d5fa15f0674e8050dff2d044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:41 +0000
Subject: [PATCH 065/146] fix: the primal IMA with fixed margin trains samples
 of another dimension with the old weights

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp  | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index 50d06a5..a6bcd07 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -399,7 +399,10 @@ namespace mltk{
             
             if (!this->solution.w.empty())
                 this->w = this->solution.w.X();
-            else this->w.resize(this->samples->dim(), 0.0);
+            if (this->w.size() != dim) { // no solution yet, or one for other features
+                this->w.assign(dim, 0.0);
+                bias = norm = 0.0;
+            }
             while (time - this->timer.elapsed() > 0) {
                 for (e = 0, i = 0; i < size; ++i) {
                     //shuffling data r = i + rand()%(size-i); j = index[i]; idx = index[i] = index[r]; index[r] = j;
-- 
2.43.0


From cf910ba4704415ae8fb542d84edca3b6c1a4db0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:41 +0000
Subject: [PATCH 066/146] fix: the dual IMA combines the alphas of the last
 separation with the bias of a failed one

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index a6bcd07..6b6b7f1 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -618,7 +618,7 @@ namespace mltk{
                 this->steps = percDual.getSteps();
                 solr = percDual.getSolutionRef();
                 norm = solr->norm;
-                this->solution.bias = solr->bias;
+                this->solution.bias = solr->bias; // that of the saved alphas
 
                 for (sv = 0, min = DBL_MAX, max = -DBL_MAX, i = 0; i < size; ++i) {
                     if (points[i]->Alpha() > this->EPS * this->rate) {
@@ -654,9 +654,9 @@ namespace mltk{
             sol = percDual.getSolution();
             this->alpha = percDual.getAlphaVector();
             norm = sol.norm;
-            this->solution.bias = sol.bias;
             func = sol.func.X();
 
+            this->svs.clear();
             for (i = 0; i < size; ++i) {
                 if (points[i]->Alpha() > this->EPS * this->rate) { this->svs.push_back(i); }
             }
-- 
2.43.0


From 32e6bf8e2531bff3011c28f7c4cc4a8308d18d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:23 +0000
Subject: [PATCH 067/146] fix: the primal IMA rejects points inside its margin
 instead of separating the classes in the middle

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp | 6 ++++--
 .../include/ufjfmltk/classifier/Perceptron.hpp              | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index 6b6b7f1..8b303b5 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -267,6 +267,8 @@ namespace mltk{
                 inc = (1 + this->alpha_aprox) * rmargin;
                 if (gamma < inc) gamma = inc;
                 rmargin = mmargin;
+                // the hyperplane in the middle, at this margin of both classes
+                if (min != DBL_MAX && max != -DBL_MAX) bias -= (min + max) / 2.0 * norm;
 
                 if (it == 2)
                     t1 = this->ctot;
@@ -360,7 +362,7 @@ namespace mltk{
             for (func = this->solution.bias, i = 0; i < dim; i++) {
                 func += this->solution.w[i] * p[i];
             }
-            if (!raw_value) return (func >= this->solution.margin * this->solution.norm) ? 1 : -1;
+            if (!raw_value) return (func >= 0) ? 1 : -1;
             else return func;
         }
 
@@ -520,7 +522,7 @@ namespace mltk{
                 func += this->solution.w[i] * p[i];
             }
 
-            if (!raw_value) return (func >= this->solution.margin * this->solution.norm) ? 1 : -1;
+            if (!raw_value) return (func >= 0) ? 1 : -1;
             else return func;
         }
 
diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index af62e3d..956a9e8 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -372,7 +372,7 @@ namespace mltk{
                 func += this->solution.w[i] * p[i];
             }
 
-            if (!raw_value) return (func >= this->solution.margin * this->solution.norm) ? 1 : -1;
+            if (!raw_value) return (func >= 0) ? 1 : -1;
             else return func;
         }
 
-- 
2.43.0


From 3c32bc2ad54607c9f6bcd96ff4c8d05d8f00ef7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:24 +0000
Subject: [PATCH 068/146] fix: SMO evaluates the wrong objective at the end of
 a degenerate segment

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
index f743972..4b8405e 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
@@ -316,7 +316,7 @@ namespace mltk{
                     double c1 = eta / 2.0;
                     double c2 = y2 * (e1 - e2) - eta * alpha2;
                     min_val_f = c1 * min_val * min_val + c2 * min_val;
-                    max_val_f = c1 * max_val * max_val + c2 * min_val;
+                    max_val_f = c1 * max_val * max_val + c2 * max_val;
 
                     if (min_val_f > max_val_f + this->EPS) new_alpha2 = min_val;
                     else if (min_val_f < max_val_f - this->EPS) new_alpha2 = max_val;
-- 
2.43.0


From e61cb8dc63920ac509816b4e4a0f4a9699f1fda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:41 +0000
Subject: [PATCH 069/146] fix: half of the H matrix without a dimension lacks
 the labels

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
index 95d9059..7455873 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
@@ -206,8 +206,9 @@ namespace mltk{
         /* Calculating Matrix */
         for(i = 0; i < size; ++i) {
             for (j = i; j < size; ++j) {
-                HwithoutDim[i][j] = functionWithoutDim(samples->point(i), samples->point(j), dim, samples->dim());
-                HwithoutDim[j][i] = HwithoutDim[i][j]*samples->point(i)->Y() * samples->point(j)->Y();
+                HwithoutDim[i][j] = functionWithoutDim(samples->point(i), samples->point(j), dim, samples->dim()) *
+                        samples->point(i)->Y() * samples->point(j)->Y();
+                HwithoutDim[j][i] = HwithoutDim[i][j];
             }
         }
     // clog << "\nH matrix without dim generated.\n";
-- 
2.43.0


From c5303eefad5efc95e9056d4bd5c762f54ac9c179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:41 +0000
Subject: [PATCH 070/146] fix: the polynomial kernel without a dimension is
 another function than the kernel

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
index 7455873..3da4ecc 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
@@ -273,7 +273,7 @@ namespace mltk{
                 for(i = 0; i < dim; ++i)
                     if(i != j)
                         sum += (*one)[i] * (*two)[i];
-                sum = (param > 1) ? std::pow(sum+1, param) : sum;
+                sum = (param > 1) ? std::pow(sum, param) : sum;
                 break;
 
             case mltk::GAUSSIAN: //Gaussiano
-- 
2.43.0


From 4aa6fe1a32ac9b11f623c8b7bbb16721113d885f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:41 +0000
Subject: [PATCH 071/146] fix: the norm in dual variables accumulates partial
 sums

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
index 3da4ecc..bfa4b93 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
@@ -303,10 +303,10 @@ namespace mltk{
         sum = sum1 = 0;
 
         for(i = 0; i < size; ++i){
-            for(j = 0; j < size; j++){
+            for(sum1 = 0, j = 0; j < size; j++){
                 sum1 += points[j]->Alpha() * points[j]->Y() * K[i][j];
-                sum += points[i]->Y() * points[i]->Alpha() * sum1;
             }
+            sum += points[i]->Y() * points[i]->Alpha() * sum1;
         }
 
         return sqrt(sum);
-- 
2.43.0


From 5e9051a94665611d420ae15147be5b8b2c427899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:41 +0000
Subject: [PATCH 072/146] fix: the H matrix of larger samples than before keeps
 the old row lengths

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
index bfa4b93..e346943 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
@@ -179,7 +179,7 @@ namespace mltk{
         int i = 0, j = 0;
         size_t size = samples->size(), dim = samples->dim();
 
-        H.resize(size, std::vector<double>(size));
+        H.assign(size, std::vector<double>(size));
 
         /* Calculating Matrix */
         for(i = 0; i < size; ++i) {
-- 
2.43.0


From c80a18eb2d9fc183612273dc840a6ef50503e129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:06 +0000
Subject: [PATCH 073/146] fix: computing a custom kernel again forgets its
 function

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
index e346943..65ba2f7 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
@@ -161,7 +161,7 @@ namespace mltk{
         size_t i, j, size = samples->size(), dim = samples->dim();
 
         if(computed && K.size() == size) return;
-        if(this->type == mltk::CUSTOM) this->func = f;
+        if(this->type == mltk::CUSTOM && f) this->func = f;
         K.assign(size, std::vector<double>(size, 0.0));
 
         //Calculating Matrix
-- 
2.43.0


From 34a9a8c94a7a7a28a44ebbfc4df778f23b93d931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:06 +0000
Subject: [PATCH 074/146] fix: applying a kernel to a second dataset of the
 same size keeps the matrix of the first

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
index 65ba2f7..8abfe06 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
@@ -147,6 +147,7 @@ namespace mltk{
             if(this->type == mltk::CUSTOM){
                 assert(f && "A function must be provided for a custom kernel.");
             }
+            recompute();
             compute(make_data<T>(samples), f);
         }
 
-- 
2.43.0


From 6e0feccdf0817e52129480f8eb374bba28a59e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:04 +0000
Subject: [PATCH 075/146] fix: primal perceptrons without time to train report
 success

---
 .../include/ufjfmltk/classifier/Perceptron.hpp                | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 956a9e8..9298489 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -179,7 +179,7 @@ namespace mltk{
         template<typename T>
         bool PerceptronPrimal<T>::train() {
             size_t size = this->samples->size(), dim = this->samples->dim();
-            int i, j, e = 0, idx;
+            int i, j, e = 1, idx;
             double y, time = this->start_time + this->max_time;
             bool cond;
             std::vector<double> func(size, 0);
@@ -259,7 +259,7 @@ namespace mltk{
                 w.assign(dim, 0.0);
                 bias = norm = 0.0;
             }
-            e = s = 0;
+            e = 1, s = 0;
             this->timer.reset();
             while (this->timer.elapsed() - time <= 0) {
                 for (e = 0, i = 0; i < size; ++i) {
-- 
2.43.0


From ddf0d7be32c648f7be1527adbc92ab1374316b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:16 +0000
Subject: [PATCH 076/146] fix: the fixed margin dual perceptron divides by its
 norm of zero

---
 .../include/ufjfmltk/classifier/Perceptron.hpp                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 9298489..d4092c7 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -522,7 +522,7 @@ namespace mltk{
                     //Checking if the point is a mistake
 
                     if (y * func[idx] - this->gamma * norm <= 0) {
-                        lambda = (this->gamma) ? (1 - this->rate * this->gamma / norm) : 1;
+                        lambda = (this->gamma && norm != 0.0) ? (1 - this->rate * this->gamma / norm) : 1;
                         norm *= lambda;
                         norm = sqrt(norm * norm + tworate * y * lambda * (func[idx] - bias) + sqrate * (*K)[idx][idx]);
 
-- 
2.43.0


From ea0b1671f59b98a3895b050f0486c4316ee9e6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:16 +0000
Subject: [PATCH 077/146] fix: alphas growing beyond all limits make the fixed
 margin perceptrons succeed

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp     | 2 +-
 .../include/ufjfmltk/classifier/Perceptron.hpp                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index 8b303b5..c90a347 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -418,7 +418,7 @@ namespace mltk{
                     }
 
                     //Checking if the point is a mistake
-                    if (y * func[idx] <= this->gamma * norm - (*this->samples)[idx]->Alpha() * this->flexible) {
+                    if (y * func[idx] <= this->gamma * norm - (this->flexible ? (*this->samples)[idx]->Alpha() * this->flexible : 0.0)) {
                         lambda = (norm) ? (1 - this->rate * this->gamma / norm) : 1;
                         for (r = 0; r < size; ++r)
                             (*this->samples)[r]->Alpha() *= lambda;
diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index d4092c7..c909514 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -274,7 +274,7 @@ namespace mltk{
                     }
 
                     //Checking if the point is a mistake
-                    if (y * func[idx] <= this->gamma * norm - this->samples->point(idx)->Alpha() * this->flexible) {
+                    if (y * func[idx] <= this->gamma * norm - (this->flexible ? this->samples->point(idx)->Alpha() * this->flexible : 0.0)) {
                         lambda = (norm != 0.0) ? (1 - this->rate * this->gamma / norm) : 1;
                         for (r = 0; r < size; ++r) {
                             std::shared_ptr<Point<T> > b = this->samples->point(r);
-- 
2.43.0


From c1c03fc02040716c92723091a5f896bc76a596f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:16 +0000
Subject: [PATCH 078/146] fix: a perceptron trained again without updates
 reports a norm of zero

---
 .../include/ufjfmltk/classifier/Perceptron.hpp                | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index c909514..5e9e25d 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -188,7 +188,9 @@ namespace mltk{
 
             if (this->solution.w.size() != dim) this->solution.w.X().assign(dim, 0.0);
             this->solution.bias = 0;
-            this->solution.norm = 0.0;
+            for (this->solution.norm = 0.0, j = 0; j < dim; ++j)
+                this->solution.norm += this->solution.w[j] * this->solution.w[j];
+            this->solution.norm = sqrt(this->solution.norm);
 
             this->timer.reset();
             while (this->timer.elapsed() - time <= 0) {
-- 
2.43.0


From 2c716ae909499a56d6ae15b6a59949c54ea299c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:00 +0000
Subject: [PATCH 079/146] fix: the norm of a dual perceptron whose weights
 cancel out is not a number, so that training succeeds

---
 .../include/ufjfmltk/classifier/Perceptron.hpp              | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 5e9e25d..0276c93 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -442,7 +442,7 @@ namespace mltk{
 
                     //Checking if the point is a mistake
                     if (y * f <= 0.0) {
-                        norm = std::sqrt(norm * norm + tworate * points[idx]->Y() * (func[idx] - bias) + sqrate * (*K)[idx][idx]);
+                        norm = std::sqrt(std::max(0.0, norm * norm + tworate * points[idx]->Y() * (func[idx] - bias) + sqrate * (*K)[idx][idx]));
                         this->alpha[i] += this->rate;
                         bias += this->rate * y;
                         ++this->ctot, ++e;
@@ -512,7 +512,7 @@ namespace mltk{
                 }
                 norm += (*this->samples)[i]->Alpha() * (*this->samples)[i]->Y() * (func[i] - bias);
             }
-            norm = sqrt(norm);
+            norm = sqrt(std::max(0.0, norm));
             e = 1, s = 0;
             this->timer.reset();
 
@@ -526,7 +526,7 @@ namespace mltk{
                     if (y * func[idx] - this->gamma * norm <= 0) {
                         lambda = (this->gamma && norm != 0.0) ? (1 - this->rate * this->gamma / norm) : 1;
                         norm *= lambda;
-                        norm = sqrt(norm * norm + tworate * y * lambda * (func[idx] - bias) + sqrate * (*K)[idx][idx]);
+                        norm = sqrt(std::max(0.0, norm * norm + tworate * y * lambda * (func[idx] - bias) + sqrate * (*K)[idx][idx]));
 
                         for (r = 0; r < size; ++r) {
                             (*this->samples)[r]->Alpha() *= lambda;
-- 
2.43.0


From 88b99148c3748bb03b28eeab66fe16dea973eaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:41 +0000
Subject: [PATCH 080/146] fix: SMO takes an alpha that rounding leaves near a
 bound for one between the bounds, and cycles without an end

---
 .../include/ufjfmltk/classifier/SMO.hpp                  | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
index 4b8405e..6bc775c 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
@@ -329,12 +329,15 @@ namespace mltk{
                     return false;
                 }
 
-                /*calculate new alpha1*/
+                /*calculate new alpha1, not taking what rounding leaves of an alpha at its bounds for a value between them*/
+                const double rounding = 1E-12 * (alpha1 + alpha2);
+                if (new_alpha2 < rounding) new_alpha2 = 0;
+                else if (new_alpha2 > this->C - rounding) new_alpha2 = this->C;
                 new_alpha1 = alpha1 - s * (new_alpha2 - alpha2);
-                if (new_alpha1 < 0) {
+                if (new_alpha1 < rounding) {
                     new_alpha2 += s * new_alpha1;
                     new_alpha1 = 0;
-                } else if (new_alpha1 > this->C) {
+                } else if (new_alpha1 > this->C - rounding) {
                     new_alpha2 += s * (new_alpha1 - this->C);
                     new_alpha1 = this->C;
                 }
-- 
2.43.0


From c6b882cc6c15d858ae77f15eed488f90d65c19cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:13 +0000
Subject: [PATCH 081/146] fix: the Lorentzian distance takes the logarithm of
 negative numbers

---
 .../ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
index 626c4a4..83e1c1b 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
@@ -75,7 +75,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "Lorentzian";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return mltk::log(1 - mltk::abs(p1 - p2)).sum();
+                return mltk::log(1 + mltk::abs(p1 - p2)).sum();
             }
         };
 
-- 
2.43.0


From ad10218435686e5970f3d224677826879e4402b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:13 +0000
Subject: [PATCH 082/146] fix: the non intersection, average, Jensen-Shannon
 and Jensen difference distances divide integers

---
 .../include/ufjfmltk/core/DistanceMetric.hpp              | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
index 83e1c1b..3998595 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
@@ -107,7 +107,7 @@ namespace mltk::metrics::dist{
         class  NonIntersection : public DistanceMetric<T> {
         public:
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return (1 / 2) * mltk::abs(p1 - p2).sum();
+                return mltk::abs(p1 - p2).sum() / 2;
             }
         };
 
@@ -318,7 +318,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "Average";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return std::sqrt((1/p1.size())*(mltk::pow(p1 - p2, 2)).sum());
+                return std::sqrt(mltk::pow(p1 - p2, 2).sum() / p1.size());
             }
         };
 
@@ -400,7 +400,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "JensenShannon";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return (1/2) * (p1 * mltk::log((2 * p1)/(p1 + p2))).sum() + (p2 * mltk::log((2 * p2)/(p1 + p2))).sum();
+                return ((p1 * mltk::log((2 * p1)/(p1 + p2))).sum() + (p2 * mltk::log((2 * p2)/(p1 + p2))).sum()) / 2;
             }
         };
 
@@ -412,7 +412,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "JensenDifference";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return (1/2) * ((p1 * mltk::log(p1) + p2 * mltk::log(p2))/2 - ((p1 + p2)/2) * mltk::log((p1 + p2)/2)).sum();
+                return ((p1 * mltk::log(p1) + p2 * mltk::log(p2))/2 - ((p1 + p2)/2) * mltk::log((p1 + p2)/2)).sum() / 2;
             }
         };
 
-- 
2.43.0


From 722ba67402b16a31d80a7cbc0bf13f510595c373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:13 +0000
Subject: [PATCH 083/146] fix: the Chord distance normalises by the squares of
 the norms

---
 .../ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
index 3998595..c550b1d 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
@@ -158,7 +158,8 @@ namespace mltk::metrics::dist{
                 this->m_name = "Chord";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return std::sqrt(2 - 2 * ((p1 * p2).sum() / (mltk::pow(p1, 2).sum() * mltk::pow(p2, 2).sum())));
+                // rounding must not make the cosine larger than one
+                return std::sqrt(std::max(T(0), 2 - 2 * (p1 * p2).sum() / std::sqrt(mltk::pow(p1, 2).sum() * mltk::pow(p2, 2).sum())));
             }
         };
 
-- 
2.43.0


From ff86e556201df7d2f4c73459494fc55442be605e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:13 +0000
Subject: [PATCH 084/146] fix: the Bhattacharyya distance is the negative
 logarithm of the coefficient

---
 .../ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
index c550b1d..0c64c4f 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
@@ -173,7 +173,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "Bhattacharyya";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return -std::sqrt(mltk::pow(p1 * p2, 0.5).sum());
+                return -std::log(mltk::pow(p1 * p2, 0.5).sum());
             }
         };
 
-- 
2.43.0


From 817977e96a48b9917a8087fd7eb2b01e7adc7aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:13 +0000
Subject: [PATCH 085/146] fix: the Clark distance lacks its square root

---
 .../ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
index 0c64c4f..9123179 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
@@ -235,7 +235,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "Clark";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return mltk::pow((p1 - p2)/(mltk::abs(p1) + mltk::abs(p2)), 2).sum();
+                return std::sqrt(mltk::pow((p1 - p2)/(mltk::abs(p1) + mltk::abs(p2)), 2).sum());
             }
         };
 
-- 
2.43.0


From 835da941130e5b38f5d803c23d401148e481d826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:13 +0000
Subject: [PATCH 086/146] fix: the MinSymmetric distance is the maximum

---
 .../ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
index 9123179..abf8530 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
@@ -439,7 +439,7 @@ namespace mltk::metrics::dist{
         class  MinSymmetric: public DistanceMetric<T> {
         public:
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return std::max((mltk::pow(p1 - p2, 2)/p1).sum(), (mltk::pow(p1 - p2, 2)/p2).sum());
+                return std::min((mltk::pow(p1 - p2, 2)/p1).sum(), (mltk::pow(p1 - p2, 2)/p2).sum());
             }
         };
 
-- 
2.43.0


From 5c9aa48d429e8ab65aa1539beb2012c03cc6cb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:13 +0000
Subject: [PATCH 087/146] fix: the Kumar-Johnson distance of a point to itself
 is not zero

---
 .../ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
index abf8530..abd814f 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
@@ -465,7 +465,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "KumarJohnson";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return (mltk::pow(mltk::pow(p1, 2) + mltk::pow(p2, 2), 2)/(2 * mltk::pow(p1 * p2, 3/2))).sum();
+                return (mltk::pow(mltk::pow(p1, 2) - mltk::pow(p2, 2), 2)/(2 * mltk::pow(p1 * p2, 1.5))).sum();
             }
         };
 
-- 
2.43.0


From bc09399c6e69b8d70616485cfbc6107441ed8cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:13 +0000
Subject: [PATCH 088/146] fix: the Hassanat distance of different negative
 values is zero

---
 .../ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
index abd814f..1fe7622 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
@@ -496,7 +496,7 @@ namespace mltk::metrics::dist{
                         sum += 1 - (1+_min)/(1+std::max(p1[i], p2[i]));
                     }else{
                         auto _max = std::max(p1[i], p2[i]);
-                        sum += 1 - (1+_min + std::abs(_min))/(1+_max + std::abs(_max));
+                        sum += 1 - (1+_min + std::abs(_min))/(1+_max + std::abs(_min));
                     }
                 }
                 return sum;
-- 
2.43.0


From 2261db765c27e0c6f2861c707f0e9b4e44b58baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:13 +0000
Subject: [PATCH 089/146] fix: utils::dtoa writes a colon for a digit rounded
 to ten

---
 subprojects/ufjfmltk-core/src/Utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/src/Utils.cpp b/subprojects/ufjfmltk-core/src/Utils.cpp
index 5c62c74..4e6b1d1 100755
--- a/subprojects/ufjfmltk-core/src/Utils.cpp
+++ b/subprojects/ufjfmltk-core/src/Utils.cpp
@@ -133,7 +133,7 @@ namespace mltk::utils{
                 while (n > PRECISION || m >= 0) {
                     double weight = pow(10.0, m);
                     if (weight > 0 && !std::isinf(weight)) {
-                        digit = floor(n / weight);
+                        digit = std::min(9.0, floor(n / weight)); // rounding may make it a ten
                         n -= (digit * weight);
                         *(c++) = '0' + digit;
                     }
-- 
2.43.0


From 2721dbd77b26e04a333275951cefa54fad688d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:13 +0000
Subject: [PATCH 090/146] fix: utils::atod of a zero with a large exponent is
 not a number

---
 subprojects/ufjfmltk-core/src/Utils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subprojects/ufjfmltk-core/src/Utils.cpp b/subprojects/ufjfmltk-core/src/Utils.cpp
index 4e6b1d1..53ff1fb 100755
--- a/subprojects/ufjfmltk-core/src/Utils.cpp
+++ b/subprojects/ufjfmltk-core/src/Utils.cpp
@@ -59,6 +59,7 @@ namespace mltk::utils{
             }
             if (s[i] == 'e' || s[i] == 'E')
                 exponent += atoi(s + i + 1);
+            if (val == 0) return sign * val; // also when the power is infinite
             power = pow(10.0, abs(exponent));
             return (exponent < 0) ? sign * val / power : sign * val * power;
         }
-- 
2.43.0


From 5ff818672feab0ed9c936f65ea0bb1159dac31fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:13 +0000
Subject: [PATCH 091/146] fix: the variance of a feature is that of all the
 other features

---
 .../ufjfmltk-core/include/ufjfmltk/core/Statistics.hpp    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Statistics.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Statistics.hpp
index 0c6af4c..bcc2776 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Statistics.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Statistics.hpp
@@ -54,7 +54,7 @@ namespace mltk::stats {
     double var(const mltk::Point<T, R> &p);
     /**
      * \brief Compute the variance of a feature in data.
-     * \param feat Feature to compute the variance.
+     * \param feat Feature to compute the variance (-1 adds up the variances of all features).
      * \return double
      */
     template <typename T>
@@ -148,12 +148,12 @@ namespace mltk::stats {
     double var(const Data<T>& data, size_t feat){
         int i, j;
         int dim = data.dim(), size = data.size();
-        std::vector<int> fnames = data.getFeaturesNames();
+        const bool all = feat == size_t(-1);
         std::vector<double> avg(dim);
         std::vector<std::shared_ptr<Point< T > > > points = data.points();
 
         for(j = 0; j < dim; ++j){
-            if(feat < 0 || fnames[j] != feat){
+            if(all || j == feat){
                 avg[j] = 0.0;
                 for(i = 0; i < size; ++i){
                     avg[j] += points[i]->X()[j];
@@ -166,7 +166,7 @@ namespace mltk::stats {
         for(i = 0; i < size; ++i){
             double norm = 0.0;
             for(j = 0; j < dim; ++j){
-                if(feat < 0 || fnames[j] != feat){
+                if(all || j == feat){
                     norm += std::pow(avg[j] - points[i]->X()[j], 2);
                 }
             }
-- 
2.43.0


From 5a6436a9715cd12c9d15130d29a921ec1a4830f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:21 +0000
Subject: [PATCH 092/146] fix: OneVsAll and OneVsOne train on samples with the
 class distribution of other labels

---
 .../include/ufjfmltk/classifier/OneVsAll.hpp                   | 3 ++-
 .../include/ufjfmltk/classifier/OneVsOne.hpp                   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsAll.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsAll.hpp
index c0b425e..b7cd61c 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsAll.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsAll.hpp
@@ -67,9 +67,10 @@ namespace mltk{
                         temp_samples[j]->Y() = (temp_samples[j]->Y() == classes[current_class]) ? 1 : -1;
                     }
 
+                    temp_samples.computeClassesDistribution();
+
                     // if a over sampling algorithm were given, apply it
                     if (samp_method) {
-                        temp_samples.computeClassesDistribution();
                         (*samp_method)(temp_samples);
                     }
 
diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsOne.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsOne.hpp
index 804611a..618bd8f 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsOne.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsOne.hpp
@@ -102,9 +102,10 @@ namespace mltk{
                             temp_samples[k]->Y() = (temp_samples[k]->Y() == classes[i]) ? 1 : -1;
                         }
 
+                        temp_samples.computeClassesDistribution();
+
                         // If a over sampling algorithm was given, apply it to the samples
                         if (samp_method) {
-                            temp_samples.computeClassesDistribution();
                             (*samp_method)(temp_samples);
                         }
 
-- 
2.43.0


From a0535ef9c987ce0232c258660d0ac87548ae0c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:21 +0000
Subject: [PATCH 093/146] fix: the multipliers of PerceptronFixedMarginDual
 become negative and grow without bound

---
 .../include/ufjfmltk/classifier/Perceptron.hpp                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 0276c93..fa683a4 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -524,7 +524,7 @@ namespace mltk{
                     //Checking if the point is a mistake
 
                     if (y * func[idx] - this->gamma * norm <= 0) {
-                        lambda = (this->gamma && norm != 0.0) ? (1 - this->rate * this->gamma / norm) : 1;
+                        lambda = (this->gamma && norm != 0.0) ? std::max(0.0, 1 - this->rate * this->gamma / norm) : 1; // alphas stay non negative
                         norm *= lambda;
                         norm = sqrt(std::max(0.0, norm * norm + tworate * y * lambda * (func[idx] - bias) + sqrate * (*K)[idx][idx]));
 
-- 
2.43.0


From a1fedbdab1849660906f622b0cf7d54d7fb649d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:11 +0000
Subject: [PATCH 094/146] fix: the L1 margin norm of IMApFixedMargin is that of
 the weights before the update

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp  | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index c90a347..e509209 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -443,7 +443,7 @@ namespace mltk{
                             norm = sqrt(sumnorm);
                         } else if (this->q == -1.0) //L1
                         {
-                            maiorw_temp = fabs(this->w[0]);
+                            maiorw_temp = 0;
                             n_temp = 1;
                             for (j = 0; j < dim; ++j) {
                                 if (this->maiorw == 0 ||
@@ -455,7 +455,8 @@ namespace mltk{
                                 } else
                                     this->w[j] += this->rate * (y * x[j]);
 
-                                if (j > 0) {
+                                if (j == 0) maiorw_temp = fabs(this->w[0]);
+                                else {
                                     if (fabs(maiorw_temp - fabs(this->w[j])) / maiorw_temp < this->EPS)
                                         n_temp++;
                                     else if (fabs(this->w[j]) > maiorw_temp) {
-- 
2.43.0


From 464b153961505fe0e28be24db4c96f039e5ab2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:59 +0000
Subject: [PATCH 095/146] fix: the L1 margin norm of
 PerceptronFixedMarginPrimal is that of the weights before the update

---
 .../include/ufjfmltk/classifier/Perceptron.hpp               | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index fa683a4..c5b7936 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -300,7 +300,7 @@ namespace mltk{
                             }
                             norm = sqrt(sumnorm);
                         } else if (this->q == -1.0) { //L1
-                            largw_temp = fabs(w[0]);
+                            largw_temp = 0;
                             n_temp = 1;
                             for (j = 0; j < dim; ++j) {
                                 if (largw == 0 || fabs(largw - fabs(w[j])) / largw < this->EPS) {
@@ -310,7 +310,8 @@ namespace mltk{
                                 } else
                                     w[j] += this->rate * (y * x[j]);
 
-                                if (j > 0) {
+                                if (j == 0) largw_temp = fabs(w[0]);
+                                else {
                                     if (fabs(largw_temp - fabs(w[j])) / largw_temp < this->EPS)
                                         n_temp++;
                                     else if (fabs(w[j]) > largw_temp) {
-- 
2.43.0


From 04d74d0abaad6420dbd1e3f464b6e6da6266f3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:59 +0000
Subject: [PATCH 096/146] fix: votes of ensembles for unknown classes are
 written out of bounds

---
 .../include/ufjfmltk/ensemble/BaggingClassifier.hpp             | 2 +-
 .../include/ufjfmltk/ensemble/PerceptronCommittee.hpp           | 2 +-
 .../include/ufjfmltk/ensemble/VotingClassifier.hpp              | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp
index 5d2df66..3dc25d4 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp
@@ -47,7 +47,7 @@ namespace mltk {
                 for (size_t i = 0; i < n_estimators; i++) {
                     int pred = this->m_learners[i]->evaluate(p);
                     size_t pred_pos = std::find(classes.begin(), classes.end(), pred) - classes.begin();
-                    votes[pred_pos]++;
+                    if (pred_pos < classes.size()) votes[pred_pos]++;
                 }
                 return classes[std::max_element(votes.X().begin(), votes.X().end()) - votes.X().begin()];
             }
diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/PerceptronCommittee.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/PerceptronCommittee.hpp
index 5e06db4..cbbda47 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/PerceptronCommittee.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/PerceptronCommittee.hpp
@@ -39,7 +39,7 @@ namespace mltk{
                         return (a == pred);
                     }) - _classes.begin();
                     // count prediction as a vote
-                    votes[pred_pos] += 1;
+                    if (pred_pos < _classes.size()) votes[pred_pos] += 1;
                 }
                 size_t max_votes = std::max_element(votes.X().begin(), votes.X().end()) - votes.X().begin();
                 return _classes[max_votes];
diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
index 9e55189..3763473 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
@@ -49,7 +49,7 @@ namespace mltk{
                         return (a == pred);
                     }) - _classes.begin();
                     // count prediction as a vote
-                    votes[pred_pos] += soft ? this->weights[i] : 1;
+                    if (pred_pos < _classes.size()) votes[pred_pos] += soft ? this->weights[i] : 1;
                 }
                 size_t max_votes = std::max_element(votes.X().begin(), votes.X().end()) - votes.X().begin();
                 return _classes[max_votes];
-- 
2.43.0


From c5f012fec2f12503b3278b8a47e171832a2e8956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:09 +0000
Subject: [PATCH 097/146] fix: AdaBoost gives learners without errors less
 weight than others

---
 .../include/ufjfmltk/ensemble/AdaBoostClassifier.hpp          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AdaBoostClassifier.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AdaBoostClassifier.hpp
index 7f9b1d0..791af4e 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AdaBoostClassifier.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AdaBoostClassifier.hpp
@@ -47,9 +47,9 @@ namespace mltk {
                         if(point->Y() != learner->evaluate(*point)) errors[i] = 1.0;
                     }
                     // compute the estimator error as the weighted average of each point error
-                    err[m] = std::min(mltk::dot(weights, errors)/weights.sum(), 1.0 - 1e-10);
+                    err[m] = std::min(std::max(mltk::dot(weights, errors)/weights.sum(), 1e-10), 1.0 - 1e-10);
                     // compute alpha to be used on weight update
-                    alpha[m] = ((err[m] > 0)?std::log((1.0-err[m])/err[m]):1) + std::log(K - 1);
+                    alpha[m] = std::log((1.0-err[m])/err[m]) + std::log(K - 1);
                     weights *= mltk::exp(alpha[m]*errors);
                     // Normalize weights to form a probability distribution
                     weights /= weights.sum();
-- 
2.43.0


From 24eff249b47850805febccb2cc43942407035b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:48 +0000
Subject: [PATCH 098/146] fix: kmeanspp makes a distribution of probabilities
 which are not numbers for equal points

---
 .../ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
index 8276e51..7b27434 100755
--- a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
+++ b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
@@ -134,7 +134,7 @@ namespace mltk{
                                            return d;
                                        });
                         for (double &distance : distances) {
-                            distance /= sum_d;
+                            distance = (sum_d > 0) ? distance / sum_d : 1.0;
                         }
                         // use the distances as a probability distribution
                         std::discrete_distribution<size_t> _dist(distances.begin(), distances.end());
-- 
2.43.0


From 1c4a66f9224d500307d3d660b34270538b80d70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:32 +0000
Subject: [PATCH 099/146] fix: KMeans ignores the distance measure it is given

---
 .../ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
index 7b27434..b594380 100755
--- a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
+++ b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
@@ -19,7 +19,7 @@ namespace mltk{
              * \brief Wrapper for the implementation of the K-Means clustering algorithm.
              */
             template<typename T = double, typename Callable = metrics::dist::Euclidean<T> >
-            class KMeans : public Clusterer<T> {
+            class KMeans : public Clusterer<T, Callable> {
             private:
                 /// Algorithm used for the initialization of the K-Means algorithm
                 std::string initialization;
@@ -48,7 +48,7 @@ namespace mltk{
             template<typename T, typename Callable>
             KMeans<T, Callable>::KMeans(const mltk::Data<T>& samples, size_t k, std::string initialization, size_t seed,
                                         int verbose)
-                    : Clusterer<T>(mltk::make_data<T>(samples), k), initialization(std::move(initialization)){
+                    : Clusterer<T, Callable>(mltk::make_data<T>(samples), k), initialization(std::move(initialization)){
                 this->m_centers.assign(this->n_clusters, std::vector<T>(this->samples->dim(), 0.0));
                 this->m_clusters.assign(this->n_clusters, std::vector<size_t>());
                 this->verbose = verbose;
-- 
2.43.0


From 652b48c25c4bd0d1ce0058f642e3da011f46d41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:43 +0000
Subject: [PATCH 100/146] fix: scores of constant features which are not
 numbers break the order of Fisher and Golub

---
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/Fisher.hpp  | 2 ++
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Fisher.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Fisher.hpp
index 753abc8..bd19460 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Fisher.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Fisher.hpp
@@ -92,6 +92,8 @@ namespace mltk{
             /*calc scores*/
             for (i = 0; i < dim; ++i) {
                 scores[i].score = std::pow(avg_pos[i] - avg_neg[i], 2) / (sd_pos[i] + sd_neg[i]);
+                // a feature which is constant in the whole dataset separates nothing
+                if (std::isnan(scores[i].score)) scores[i].score = 0;
                 scores[i].fname = fnames[i];
                 if (this->verbose)
                     std::cout << "Score: " << scores[i].score << ", Fname: " << scores[i].fname << std::endl;
diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp
index 732815d..75a4451 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp
@@ -83,6 +83,8 @@ namespace mltk{
             /*calc scores*/
             for (i = 0; i < dim; ++i) {
                 scores[i].score = fabs(avg_pos[i] - avg_neg[i]) / (sd_pos[i] + sd_neg[i]);
+                // a feature which is constant in the whole dataset separates nothing
+                if (std::isnan(scores[i].score)) scores[i].score = 0;
                 scores[i].fname = fnames[i];
                 if (this->verbose)
                     std::cout << "Score: " << scores[i].score << ", Fname: " << scores[i].fname << std::endl;
-- 
2.43.0


From 59732491026d64c1e02c2a2935bd2a0105925105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:43 +0000
Subject: [PATCH 101/146] fix: Golub removes the feature named 0 whatever its
 score is

---
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp
index 75a4451..ed3c5c0 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp
@@ -40,7 +40,7 @@ namespace mltk{
             size_t num_pos = 0, num_neg = 0, svs = 0, dim = this->samples->dim(), size = this->samples->size();
             int partial = 0;
             double margin = 0.0;
-            std::vector<int> remove(dim - number), fnames;
+            std::vector<int> remove(dim - number, -1), fnames;
             std::vector<double> avg_neg(dim), avg_pos(dim), sd_neg(dim), sd_pos(dim), w;
             std::vector<golub_select_score> scores(dim);
             std::shared_ptr<Data<T> > stmp(std::make_shared<Data<T> >()), stmp_partial(std::make_shared<Data<T> >());
-- 
2.43.0


From 5c65a983efc028fefa543ffd2f4941d0723dd6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:43 +0000
Subject: [PATCH 102/146] fix: RFE returns all the features when training fails
 after some were removed

---
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
index aa05301..0afbc2c 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
@@ -145,7 +145,7 @@ namespace mltk{
 
                 stmp_partial.reset();
                 stmp_partial = std::make_shared<Data<T> >();
-                stmp_partial->copy(*this->samples);
+                stmp_partial->copy(*stmp);
 
                 partial_features.clear();
 
-- 
2.43.0


From 4c57b65c50e3b593c065ee920370b6270dc5a868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:43 +0000
Subject: [PATCH 103/146] fix: RFE selecting features again never ends after a
 shortened last jump

---
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp      | 1 -
 1 file changed, 1 deletion(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
index 0afbc2c..2189df5 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
@@ -281,7 +281,6 @@ namespace mltk{
                 /*increment*/
                 if (level + this->jump > this->depth) {
                     level = this->depth;
-                    this->jump = 0;
                 } else {
                     level += this->jump;
 
-- 
2.43.0


From 68c81352c1a81b2e7f08527c51d8e24ee54ad9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:43 +0000
Subject: [PATCH 104/146] fix: the initial error of RFE is that of its last
 cross validation only

---
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
index 2189df5..1d7622b 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
@@ -163,7 +163,7 @@ namespace mltk{
                     if (level == 0) {
                         for (this->cv->initial_error = 0, i = 0; i < this->cv->qtde; i++) {
                             auto report = validation::kfold(*stmp, *this->classifier, this->cv->fold, true, this->cv->seed[i], 0);
-                            this->cv->initial_error = report.error;
+                            this->cv->initial_error += report.error;
                         }
                         kfolderror = this->cv->initial_error / this->cv->qtde;
                     } else if (level % this->cv->jump == 0) {
-- 
2.43.0


From 35c71f3396ea9e10dbde067651e02ea5594800e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:20 +0000
Subject: [PATCH 105/146] fix: pruned AOS nodes are used by the hash after they
 are deleted

---
 .../include/ufjfmltk/featselect/AOS.hpp       | 26 +++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
index 9274dd6..a6784ea 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
@@ -60,6 +60,8 @@ namespace mltk{
 
                 bool add(AOS::select_gamma *elmt);
 
+                void remove(AOS::select_gamma *elmt);
+
                 //void set_null(AOS::select_gamma *elmt);
 
                 //void print(int dim);
@@ -1149,6 +1151,29 @@ namespace mltk{
         * erase an element from my hash                            *
         *----------------------------------------------------------*/
 
+        template<typename T>
+        void AOS<T>::Hash::remove(AOS<T>::select_gamma *elmt) {
+            size_t i = 0;
+            int index = 0;
+            double func = 0;
+
+            if (elmt == nullptr || this->elements == nullptr) return;
+
+            for (int f = 0; f < elmt->level; ++f)
+                func += std::pow(elmt->fnames[f], 2);
+
+            index = (int) fmod(func, this->length);
+
+            while (i < this->width && this->elements[index][i] != elmt) i++;
+            if (i == this->width) return;
+
+            /*shift elements*/
+            for (; i + 1 < this->width; ++i)
+                this->elements[index][i] = this->elements[index][i + 1];
+            this->elements[index][i] = nullptr;
+            conthash--;
+        }
+
 //        template<typename T>
 //        void AOS<T>::Hash::set_null(AOS<T>::select_gamma *elmt) {
 //            unsigned int i = 0, j = 0;
@@ -1437,6 +1462,7 @@ namespace mltk{
                 if (curr->level < levelat)
                     if (curr->value < (1 - NUM_ERROR_EPS) * g_margin || levelat - curr->level >= cut) {
                         /*errase it from hash*/
+                        hash->remove(curr);
                         if(curr) delete curr;
                         curr = nullptr;
                         /*percolate heap*/
-- 
2.43.0


From 5660f31a93f84f79edbbf33fd0695c1bc36fe741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:34 +0000
Subject: [PATCH 106/146] fix: pruning the AOS heap loses the order of its
 nodes

---
 .../include/ufjfmltk/featselect/AOS.hpp       | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
index a6784ea..bb77ef2 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
@@ -1454,23 +1454,23 @@ namespace mltk{
 
         template<typename T>
         void AOS<T>::Heap::cut(std::shared_ptr<AOS<T>::Hash> hash, int levelat, int cut, double g_margin, int verbose) {
-            size_t i = 0, count = 0;
+            size_t i = 0, count = 0, kept = 0;
             AOS<T>::select_gamma *curr = nullptr;
 
-            for (i = this->size; i > 0; --i) {
+            for (i = 1; i <= this->size; ++i) {
                 curr = this->elements[i];
-                if (curr->level < levelat)
-                    if (curr->value < (1 - NUM_ERROR_EPS) * g_margin || levelat - curr->level >= cut) {
-                        /*errase it from hash*/
-                        hash->remove(curr);
-                        if(curr) delete curr;
-                        curr = nullptr;
-                        /*percolate heap*/
-                        this->size--;
-                        this->percolate(i);
-                        count++;
-                    }
+                if (curr->level < levelat &&
+                    (curr->value < (1 - NUM_ERROR_EPS) * g_margin || levelat - curr->level >= cut)) {
+                    /*errase it from hash*/
+                    hash->remove(curr);
+                    delete curr;
+                    count++;
+                } else this->elements[++kept] = curr;
             }
+            this->size = kept;
+            /*restore the order of the remaining nodes*/
+            std::make_heap(this->elements + 1, this->elements + this->size + 1,
+                           [](const select_gamma *a, const select_gamma *b) { return a->value < b->value; });
             if (verbose) std::cout << "  [Removed nodes from pruning: " << count << "]\n";
 
             contprooning += count;
-- 
2.43.0


From 0ec5e0eec707721870dff9b061824ae92af5e7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:35 +0000
Subject: [PATCH 107/146] fix: AOS reads weights of features which do not exist
 when the breadth exceeds them

---
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
index bb77ef2..00767e1 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
@@ -741,7 +741,7 @@ namespace mltk{
             }
 
             // branching nodes
-            for(i = 0; i < breadth; i++){
+            for(i = 0; i < breadth && i < dim; i++){
                 if(kernel_type == INNER_PRODUCT){
                     // projected margin computation on IMA primal
                     if(dim > 1){
-- 
2.43.0


From fb0af424341c1f339df6693670007a368fbb601b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:32 +0000
Subject: [PATCH 108/146] fix: balanced perceptron reports success when no
 epoch is allowed

---
 .../include/ufjfmltk/classifier/Perceptron.hpp                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index c5b7936..98253ce 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -94,7 +94,7 @@ namespace mltk{
                 size_t epoch = 0, ite = 0;
                 bool stop = false;
                 double gamma1 = std::numeric_limits<double>::max(), gamma2 = std::numeric_limits<double>::max();
-                size_t errors = 0;
+                size_t errors = 1;
 
                 this->bias = 0;
                 mltk::random_init<double>(this->weights, this->samples->dim(), this->seed);
-- 
2.43.0


From f8da47ca9fb4efd479d44171266c30a6666cc5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:32 +0000
Subject: [PATCH 109/146] fix: passes and updates of earlier trainings count
 towards the limits of perceptrons

---
 .../include/ufjfmltk/classifier/Perceptron.hpp              | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 98253ce..ec2b079 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -192,6 +192,8 @@ namespace mltk{
                 this->solution.norm += this->solution.w[j] * this->solution.w[j];
             this->solution.norm = sqrt(this->solution.norm);
 
+            // the limits are those of this training
+            this->steps = this->ctot = 0;
             this->timer.reset();
             while (this->timer.elapsed() - time <= 0) {
                 for (e = 0, i = 0; i < size; ++i) {
@@ -262,6 +264,8 @@ namespace mltk{
                 bias = norm = 0.0;
             }
             e = 1, s = 0;
+            // the limits are those of this training
+            this->steps = this->ctot = 0;
             this->timer.reset();
             while (this->timer.elapsed() - time <= 0) {
                 for (e = 0, i = 0; i < size; ++i) {
@@ -428,6 +432,8 @@ namespace mltk{
             if(!initial){
                 this->solution = Solution();
             }
+            // the limits are those of this training
+            this->steps = this->ctot = 0;
             this->timer.reset();
             e = 1;
             auto time_elapsed = this->timer.elapsed() - time;
-- 
2.43.0


From 8378c0ab45e5a51042d65df9e0547d20fb13bbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:32 +0000
Subject: [PATCH 110/146] fix: dual IMA ignores its time limit

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp      | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index e509209..9e5caf5 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -651,6 +651,7 @@ namespace mltk{
                     break;
                 }
                 old_rmargin = rmargin;
+                if(stime >= this->max_time) break;
             }
             this->ctot = percDual.getCtot();
             this->steps = percDual.getSteps();
-- 
2.43.0


From fed100d89952473ad580830e9da815aeaffa2398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:32 +0000
Subject: [PATCH 111/146] fix: IMA adds up its elapsed time several times

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index 9e5caf5..4e21405 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -227,7 +227,7 @@ namespace mltk{
             imapFixMargin.setStartTime(stime);
             *imapFixMargin.getFlagNot1aDim() = flagNao1aDim;
             while (imapFixMargin.train()) {
-                stime += this->timer.elapsed();
+                stime = this->timer.elapsed();
 
                 this->ctot = imapFixMargin.getCtot();
                 this->steps = imapFixMargin.getSteps();
-- 
2.43.0


From 9f2bd63697fee41288a3959a9bfabf20c7d9303c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:03 +0000
Subject: [PATCH 112/146] fix: correlation of constant features makes DSM
 choose features twice

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
index ec6b8d4..b777d5f 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
@@ -55,7 +55,9 @@ namespace mltk{
 
         double qual_correlation(const Data<T>& data, int feat){
             Point<T> x = data.getFeature(feat);
-            return mltk::stats::covar(x, labels)/(mltk::stats::std_dev(x)*mltk::stats::std_dev(labels));
+            double dev = mltk::stats::std_dev(x)*mltk::stats::std_dev(labels);
+            if(!(dev > 0)) return 0.0; // nothing is correlated with a constant
+            return mltk::stats::covar(x, labels)/dev;
         }
 
         inline void setAlpha(double _alpha){ this->alpha = _alpha; }
-- 
2.43.0


From 80ebc546404dcb622384c0675a4da1d6ceb4fd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:03 +0000
Subject: [PATCH 113/146] fix: DSM chooses features twice when the others are
 badly correlated

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
index b777d5f..f34b6cf 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
@@ -65,7 +65,7 @@ namespace mltk{
         std::vector<std::vector<size_t>> operator()(const Data< T > &data){
            for(int i = 0; i < n_dims; i++) {
                for(int j = 0; j < subspaces.size(); j++) {
-                   Point<double> fscore(data.dim(), -1.01);
+                   Point<double> fscore(data.dim(), -std::numeric_limits<double>::infinity());
                    for (int c = 0; c < data.dim(); c++) {
                        if (std::find(subspaces[j].begin(), subspaces[j].end(), c) == subspaces[j].end()) {
                            fscore[c] = alpha*qual_correlation(data, c) + (1-alpha)*div_m(j, c);
-- 
2.43.0


From e51dffaa060f7847eb475aeea7cc02e554465783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:03 +0000
Subject: [PATCH 114/146] fix: DSM used again starts from its previous
 subspaces

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
index f34b6cf..d4ee561 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
@@ -63,6 +63,7 @@ namespace mltk{
         inline void setAlpha(double _alpha){ this->alpha = _alpha; }
 
         std::vector<std::vector<size_t>> operator()(const Data< T > &data){
+           for(auto& Si: subspaces) Si.assign(n_dims, -1);
            for(int i = 0; i < n_dims; i++) {
                for(int j = 0; j < subspaces.size(); j++) {
                    Point<double> fscore(data.dim(), -std::numeric_limits<double>::infinity());
-- 
2.43.0


From 503444afdfe295e9e6aa3714b701d1a46f36bff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:03 +0000
Subject: [PATCH 115/146] fix: DSM intersects subspaces as if they were sorted

---
 .../ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp   | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
index d4ee561..3e30228 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
@@ -33,11 +33,11 @@ namespace mltk{
             for(int j = 0; j < subspaces.size();j++){
                 if(j == i) continue;
                 double val = 0.0;
-                std::vector<size_t> intersection;
-                std::set_intersection(subspaces[i].begin(), subspaces[i].end(),
-                                      subspaces[j].begin(), subspaces[j].end(),
-                                      std::back_inserter(intersection));
-                val = double(intersection.size())/subspaces[j].size();
+                // the features in both subspaces, which are not sorted
+                size_t shared = std::count_if(subspaces[i].begin(), subspaces[i].end(), [&](size_t feat){
+                    return feat != size_t(-1) && std::find(subspaces[j].begin(), subspaces[j].end(), feat) != subspaces[j].end();
+                });
+                val = double(shared)/subspaces[j].size();
                 if(val > max_val) max_val = val;
             }
             return 1.0 - max_val;
-- 
2.43.0


From f4d2a809c3ea5db4e97f3bcb957d346d88c125e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:29 +0000
Subject: [PATCH 116/146] fix: parallelize_loop overflows on ranges longer than
 the largest index

---
 .../ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
index 6985c46..36c5fba 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
@@ -141,7 +141,7 @@ public:
         last_index--;
         if (num_blocks == 0)
             num_blocks = thread_count;
-        ui64 total_size = (ui64)(last_index - the_first_index + 1);
+        ui64 total_size = (ui64)last_index - (ui64)the_first_index + 1;
         ui64 block_size = (ui64)(total_size / num_blocks);
         if (block_size == 0)
         {
@@ -151,8 +151,8 @@ public:
         std::atomic<ui32> blocks_running = 0;
         for (ui32 t = 0; t < num_blocks; t++)
         {
-            T start = ((T)(t * block_size) + the_first_index);
-            T end = (t == num_blocks - 1) ? last_index + 1 : ((T)((t + 1) * block_size) + the_first_index);
+            T start = (T)((ui64)the_first_index + t * block_size);
+            T end = (t == num_blocks - 1) ? last_index + 1 : (T)((ui64)the_first_index + (t + 1) * block_size);
             blocks_running++;
             push_task([start, end, &loop, &blocks_running]
                       {
-- 
2.43.0


From 25d38d40cd5884f21cf2200112e5f171cc5433d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:29 +0000
Subject: [PATCH 117/146] fix: dtoa writes minus infinity as inf

---
 subprojects/ufjfmltk-core/src/Utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/src/Utils.cpp b/subprojects/ufjfmltk-core/src/Utils.cpp
index 53ff1fb..22f6cfb 100755
--- a/subprojects/ufjfmltk-core/src/Utils.cpp
+++ b/subprojects/ufjfmltk-core/src/Utils.cpp
@@ -105,7 +105,7 @@ namespace mltk::utils{
             if (n != n) {
                 std::strcpy(s, "nan");
             } else if (std::isinf(n)) {
-                std::strcpy(s, "inf");
+                std::strcpy(s, n < 0 ? "-inf" : "inf");
             } else if (n == 0.0) {
                 std::strcpy(s, "0");
             } else {
-- 
2.43.0


From 0cf9c0364b60f16a61c77dffe90c307103aa76f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:29 +0000
Subject: [PATCH 118/146] fix: dtoa overruns its buffer with subnormal numbers

---
 subprojects/ufjfmltk-core/src/Utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/src/Utils.cpp b/subprojects/ufjfmltk-core/src/Utils.cpp
index 22f6cfb..96625f9 100755
--- a/subprojects/ufjfmltk-core/src/Utils.cpp
+++ b/subprojects/ufjfmltk-core/src/Utils.cpp
@@ -123,7 +123,7 @@ namespace mltk::utils{
                 if (useExp) {
                     if (m < 0)
                         m -= 1.0;
-                    n = n / pow(10.0, m);
+                    n = n / std::pow(10.0L, m); // as a double the power may be zero or infinite
                     m1 = m;
                     m = 0;
                 }
-- 
2.43.0


From 265ecf3e43b37835eed9ba505c8370eac192c9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:05 +0000
Subject: [PATCH 119/146] fix: atod reads numbers below 1e-308 and those with
 long exponents as zero

---
 subprojects/ufjfmltk-core/src/Utils.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/src/Utils.cpp b/subprojects/ufjfmltk-core/src/Utils.cpp
index 96625f9..ffb2082 100755
--- a/subprojects/ufjfmltk-core/src/Utils.cpp
+++ b/subprojects/ufjfmltk-core/src/Utils.cpp
@@ -41,7 +41,8 @@ namespace mltk::utils{
 
         double atod(const char* s)
         {
-            double val, power;
+            double val;
+            long double power; // as a double it may be infinite where the value is not zero
             int i, sign;
             for (i = 0; isspace(s[i]); i++) /* skip white space */
                 ;
@@ -60,7 +61,7 @@ namespace mltk::utils{
             if (s[i] == 'e' || s[i] == 'E')
                 exponent += atoi(s + i + 1);
             if (val == 0) return sign * val; // also when the power is infinite
-            power = pow(10.0, abs(exponent));
+            power = std::pow(10.0L, abs(exponent));
             return (exponent < 0) ? sign * val / power : sign * val * power;
         }
 
-- 
2.43.0


From bf323942884366ccd00c71b95b860b0dacc0a37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:28 +0000
Subject: [PATCH 120/146] fix: load_data takes blanks between the fields for a
 class

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index d5e08aa..6b74b5c 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -895,6 +895,7 @@ namespace mltk{
             _dim = 0;
             while(std::getline(ss, item, ' ')){
                 item = mltk::utils::trim_copy(item);
+                if(item == "") continue;
                 const char * pch = std::strchr(item.c_str(), ':');
                 if(!pch){
                     if(this->isClassification()) {
-- 
2.43.0


From ad7247b46c2d843e1a2a5ab30e0d7bc47b99e14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:28 +0000
Subject: [PATCH 121/146] fix: load_csv and load_arff read features after a
 blank as zero

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 6b74b5c..96f3189 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -778,6 +778,7 @@ namespace mltk{
 
             //Read features from line
             while(std::getline(ss, item, deli)){
+                item = mltk::utils::trim_copy(item);
                 if(atEnd)
                     cond = !ss.eof();
                 else
@@ -1025,6 +1026,7 @@ namespace mltk{
 
             //Read features from line
             while(std::getline(ss, item, ',')){
+                item = mltk::utils::trim_copy(item);
                 if(atEnd)
                     cond = (!ss.eof() && atEnd);
                 else
-- 
2.43.0


From e30fa277030f1af9bb1fed3635186176b0a3e87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:37 +0000
Subject: [PATCH 122/146] fix: the script returned by plot3DwithHyperplane
 lacks the settings of the plot

---
 .../ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
index aa66447..121930f 100755
--- a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
+++ b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
@@ -837,7 +837,7 @@ namespace mltk::visualize{
         cmd += "g(x,y) notitle with lines ls 1 lt rgb \"red\",";
         cmd += "f(x,y) notitle with lines ls 1,";
         cmd += "h(x,y) notitle with lines ls 1 lt rgb \"red\";";
-        execute_command(cmd);
+        cmd = execute_command(cmd);
         return prepareScript(cmd);
     }
 
-- 
2.43.0


From ddd6c8ca6e315a49458b4016ae9fa253d32cfbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:37 +0000
Subject: [PATCH 123/146] fix: plot1DRegresion plots the second feature instead
 of the target

---
 .../ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
index 121930f..affb3ff 100755
--- a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
+++ b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
@@ -545,7 +545,7 @@ namespace mltk::visualize{
     std::string
     Visualization<T>::plot1DRegresion(int x, bool save, double scale, const std::string &title, const std::string &format,
                                       const std::string &x_label, const std::string &y_label) {
-        std::string dims = utils::itos(x+1) + ":" + utils::itos(2);
+        std::string dims = utils::itos(x+1) + ":" + utils::itos(this->samples->dim()+1);
         std::string cmd("plot ");
         std::vector<std::string> temp_files_names;
         size_t i;
-- 
2.43.0


From d8bad98ff79aa319d97dea898d8de20ed232c7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:37 +0000
Subject: [PATCH 124/146] fix: plot3D of vectors drops the label of the z axis

---
 .../ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
index affb3ff..e4feca5 100755
--- a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
+++ b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
@@ -784,7 +784,7 @@ namespace mltk::visualize{
         std::string out_name = (title.empty())?"3dplot_":"3dplot_"+title;
 
         configureRange(scale, x, y);
-        configurePlot(out_name, format, title, save, x_label, y_label);
+        configurePlot(out_name, format, title, save, x_label, y_label, z_label);
 
         std::filesystem::path path{ "output" }; //creates TestingFolder object on C:
         path /= out_name+".dat"; //put something into there
-- 
2.43.0


From 640df29bc03318ad0f0285cd57fc499fcd818b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:37 +0000
Subject: [PATCH 125/146] fix: plots with dots or underscores in the names of
 classes read outside of the classes

---
 .../include/ufjfmltk/visual/Visualization.hpp | 34 ++++++-------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
index e4feca5..43abb6d 100755
--- a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
+++ b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
@@ -937,34 +937,20 @@ namespace mltk::visualize{
         Point<int> classes = samples->classes();
         auto class_names = samples->classesNames();
         std::vector<std::string> names(files.size());
-        std::transform(files.begin(), files.end(), names.begin(), [type](std::string& path){
-            if(type == "decision") {
-                auto res = mltk::utils::tokenize(mltk::utils::tokenize(path, '_')[0], '/');
-                return mltk::utils::tokenize(mltk::utils::tokenize(path, '_')[0], '/')[1];
-            }else{
-                return mltk::utils::tokenize(mltk::utils::tokenize(path, '.')[0], '/')[1];
-            }
-        });
-        std::sort(names.begin(), names.end(),[&class_names, &classes](const auto& a, const auto& b){
+        auto class_name = [&type](const std::string& path){
+            auto name = path.substr(path.rfind('/') + 1);
+            return name.substr(0, name.rfind((type == "decision")?"_data":"."));
+        };
+        std::transform(files.begin(), files.end(), names.begin(), class_name);
+        auto by_class = [&class_names, &classes](const auto& a, const auto& b){
             auto aclass_pos = std::find(class_names.begin(), class_names.end(), a) - class_names.begin();
             auto bclass_pos = std::find(class_names.begin(), class_names.end(), b) - class_names.begin();
             return classes[aclass_pos] < classes[bclass_pos];
+        };
+        std::sort(files.begin(), files.end(), [&by_class, &class_name](const auto& a, const auto& b){
+            return by_class(class_name(a), class_name(b));
         });
-        std::sort(files.begin(), files.end(), [&class_names, &classes, &type](const auto& a, const auto& b){
-            if(type == "decision") {
-                auto aclass_pos = std::find(class_names.begin(), class_names.end(),
-                                            mltk::utils::tokenize(mltk::utils::tokenize(a, '_')[0], '/')[1]) - class_names.begin();
-                auto bclass_pos = std::find(class_names.begin(), class_names.end(),
-                                            mltk::utils::tokenize(mltk::utils::tokenize(b, '_')[0], '/')[1]) - class_names.begin();
-                return classes[aclass_pos] < classes[bclass_pos];
-            }else{
-                auto aclass_pos = std::find(class_names.begin(), class_names.end(),
-                                            mltk::utils::tokenize(mltk::utils::tokenize(a, '.')[0], '/')[1]) - class_names.begin();
-                auto bclass_pos = std::find(class_names.begin(), class_names.end(),
-                                            mltk::utils::tokenize(mltk::utils::tokenize(b, '.')[0], '/')[1]) - class_names.begin();
-                return classes[aclass_pos] < classes[bclass_pos];
-            }
-        });
+        std::sort(names.begin(), names.end(), by_class);
         return names;
     }
 
-- 
2.43.0


From a8edde6ca8268bbf4924940d333a06cbe129041a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:58 +0000
Subject: [PATCH 126/146] fix: the ranges of plots cut points off

---
 .../include/ufjfmltk/visual/Visualization.hpp | 42 +++++++++++--------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
index 43abb6d..be0fc52 100755
--- a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
+++ b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
@@ -1043,26 +1043,29 @@ namespace mltk::visualize{
         AxisRanges axis_ranges;
         if(x > -1) {
             auto _x = this->samples->getFeature(x);
-            double x_min = mltk::min(_x), x_max = scale*mltk::max(_x);
+            double x_min = mltk::min(_x), x_max = mltk::max(_x);
             x_min += (x_min > 0)?(1.0-scale)*x_min:-(1.0-scale)*x_min;
-            axis_ranges[0].min = std::round(x_min);
-            axis_ranges[0].max = std::round(x_max);
+            x_max -= (x_max > 0)?(1.0-scale)*x_max:-(1.0-scale)*x_max;
+            axis_ranges[0].min = std::floor(x_min);
+            axis_ranges[0].max = std::ceil(x_max);
             configs["xrange"] = "[" + std::to_string(axis_ranges[0].min) + ":" + std::to_string(axis_ranges[0].max) + "]";
         }
         if(y > -1) {
             auto _y = this->samples->getFeature(y);
-            double y_min = mltk::min(_y), y_max = scale*mltk::max(_y);
+            double y_min = mltk::min(_y), y_max = mltk::max(_y);
             y_min += (y_min > 0)?(1.0-scale)*y_min:-(1.0-scale)*y_min;
-            axis_ranges[1].min = std::round(y_min);
-            axis_ranges[1].max = std::round(y_max);
+            y_max -= (y_max > 0)?(1.0-scale)*y_max:-(1.0-scale)*y_max;
+            axis_ranges[1].min = std::floor(y_min);
+            axis_ranges[1].max = std::ceil(y_max);
             configs["yrange"] = "[" + std::to_string(axis_ranges[1].min) + ":" + std::to_string(axis_ranges[1].max) + "]";
         }
         if(z > -1) {
             auto _z = this->samples->getFeature(z);
-            double z_min = mltk::min(_z), z_max = scale*mltk::max(_z);
+            double z_min = mltk::min(_z), z_max = mltk::max(_z);
             z_min += (z_min > 0)?(1.0-scale)*z_min:-(1.0-scale)*z_min;
-            axis_ranges[2].min = std::round(z_min);
-            axis_ranges[2].max = std::round(z_max);
+            z_max -= (z_max > 0)?(1.0-scale)*z_max:-(1.0-scale)*z_max;
+            axis_ranges[2].min = std::floor(z_min);
+            axis_ranges[2].max = std::ceil(z_max);
             configs["zrange"] = "[" + std::to_string(axis_ranges[2].min) + ":" + std::to_string(axis_ranges[2].max) + "]";
         }
         return axis_ranges;
@@ -1074,26 +1077,29 @@ namespace mltk::visualize{
                                                                             AxisRanges axis_ranges;
         if(x.size() > 0) {
             auto _x = x;
-            double x_min = mltk::min(_x), x_max = scale*mltk::max(_x);
+            double x_min = mltk::min(_x), x_max = mltk::max(_x);
             x_min += (x_min > 0)?(1.0-scale)*x_min:-(1.0-scale)*x_min;
-            axis_ranges[0].min = std::round(x_min);
-            axis_ranges[0].max = std::round(x_max);
+            x_max -= (x_max > 0)?(1.0-scale)*x_max:-(1.0-scale)*x_max;
+            axis_ranges[0].min = std::floor(x_min);
+            axis_ranges[0].max = std::ceil(x_max);
             if(axis_ranges[0].min != axis_ranges[0].max) configs["xrange"] = "[" + std::to_string(axis_ranges[0].min) + ":" + std::to_string(axis_ranges[0].max) + "]";
         }
         if(y.size() > 0) {
             auto _y = y;
-            double y_min = mltk::min(_y), y_max = scale*mltk::max(_y);
+            double y_min = mltk::min(_y), y_max = mltk::max(_y);
             y_min += (y_min > 0)?(1.0-scale)*y_min:-(1.0-scale)*y_min;
-            axis_ranges[1].min = std::round(y_min);
-            axis_ranges[1].max = std::round(y_max);
+            y_max -= (y_max > 0)?(1.0-scale)*y_max:-(1.0-scale)*y_max;
+            axis_ranges[1].min = std::floor(y_min);
+            axis_ranges[1].max = std::ceil(y_max);
             if(axis_ranges[1].min != axis_ranges[1].max) configs["yrange"] = "[" + std::to_string(axis_ranges[1].min) + ":" + std::to_string(axis_ranges[1].max) + "]";
         }
         if(z.size() > 0) {
             auto _z = z;
-            double z_min = mltk::min(_z), z_max = scale*mltk::max(_z);
+            double z_min = mltk::min(_z), z_max = mltk::max(_z);
             z_min += (z_min > 0)?(1.0-scale)*z_min:-(1.0-scale)*z_min;
-            axis_ranges[2].min = std::round(z_min);
-            axis_ranges[2].max = std::round(z_max);
+            z_max -= (z_max > 0)?(1.0-scale)*z_max:-(1.0-scale)*z_max;
+            axis_ranges[2].min = std::floor(z_min);
+            axis_ranges[2].max = std::ceil(z_max);
             if(axis_ranges[2].min != axis_ranges[2].max) configs["zrange"] = "[" + std::to_string(axis_ranges[2].min) + ":" + std::to_string(axis_ranges[2].max) + "]";
         }
         return axis_ranges;
-- 
2.43.0


From bb691178163176046d5dd1300a8ea5dac81b9bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:58 +0000
Subject: [PATCH 127/146] fix: plots of constant features have an empty range

---
 .../include/ufjfmltk/visual/Visualization.hpp               | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
index be0fc52..f210a30 100755
--- a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
+++ b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
@@ -1048,7 +1048,7 @@ namespace mltk::visualize{
             x_max -= (x_max > 0)?(1.0-scale)*x_max:-(1.0-scale)*x_max;
             axis_ranges[0].min = std::floor(x_min);
             axis_ranges[0].max = std::ceil(x_max);
-            configs["xrange"] = "[" + std::to_string(axis_ranges[0].min) + ":" + std::to_string(axis_ranges[0].max) + "]";
+            if(axis_ranges[0].min != axis_ranges[0].max) configs["xrange"] = "[" + std::to_string(axis_ranges[0].min) + ":" + std::to_string(axis_ranges[0].max) + "]";
         }
         if(y > -1) {
             auto _y = this->samples->getFeature(y);
@@ -1057,7 +1057,7 @@ namespace mltk::visualize{
             y_max -= (y_max > 0)?(1.0-scale)*y_max:-(1.0-scale)*y_max;
             axis_ranges[1].min = std::floor(y_min);
             axis_ranges[1].max = std::ceil(y_max);
-            configs["yrange"] = "[" + std::to_string(axis_ranges[1].min) + ":" + std::to_string(axis_ranges[1].max) + "]";
+            if(axis_ranges[1].min != axis_ranges[1].max) configs["yrange"] = "[" + std::to_string(axis_ranges[1].min) + ":" + std::to_string(axis_ranges[1].max) + "]";
         }
         if(z > -1) {
             auto _z = this->samples->getFeature(z);
@@ -1066,7 +1066,7 @@ namespace mltk::visualize{
             z_max -= (z_max > 0)?(1.0-scale)*z_max:-(1.0-scale)*z_max;
             axis_ranges[2].min = std::floor(z_min);
             axis_ranges[2].max = std::ceil(z_max);
-            configs["zrange"] = "[" + std::to_string(axis_ranges[2].min) + ":" + std::to_string(axis_ranges[2].max) + "]";
+            if(axis_ranges[2].min != axis_ranges[2].max) configs["zrange"] = "[" + std::to_string(axis_ranges[2].min) + ":" + std::to_string(axis_ranges[2].max) + "]";
         }
         return axis_ranges;
     }
-- 
2.43.0


From 2e49413518a577359d91825e0f8a7fa11a516ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:58 +0000
Subject: [PATCH 128/146] fix: plotDecisionSurface2D draws the points on the
 wrong axes and takes positions for names

---
 .../include/ufjfmltk/visual/Visualization.hpp               | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
index f210a30..89fbd28 100755
--- a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
+++ b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
@@ -854,7 +854,11 @@ namespace mltk::visualize{
         mltk::Point xx = mltk::linspace(axis_ranges[0].min, axis_ranges[0].max, grid_dim);
         mltk::Point yy = mltk::linspace(axis_ranges[1].min, axis_ranges[1].max, grid_dim);
         mltk::Data grid(grid_dim, grid_dim,0);
-        auto data_copy = this->samples->selectFeatures({size_t(x+1), size_t(y+1)});
+        auto fnames = this->samples->getFeaturesNames();
+        auto data_copy = this->samples->selectFeatures({size_t(fnames[x]), size_t(fnames[y])});
+        if(x > y) { // the features are selected in their order in the dataset
+            for(size_t i = 0; i < data_copy.size(); i++) std::swap(data_copy(i)[0], data_copy(i)[1]);
+        }
         auto timestamp = mltk::utils::timestamp();
         timestamp.erase(std::remove(timestamp.begin(), timestamp.end(), ':'), timestamp.end());
 
-- 
2.43.0


From 28df9dbeb66a30459c54ac287aa4fcdc0e5211da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:13 +0000
Subject: [PATCH 129/146] fix: classes named by numbers and by texts get the
 same label when loaded together

---
 .../include/ufjfmltk/core/Data.hpp            | 37 ++++++++-----------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 96f3189..4c3d485 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1152,31 +1152,26 @@ namespace mltk{
         item.erase(std::remove_if(item.begin(), item.end(), ::isspace), item.end());
         if(item.empty()) return std::numeric_limits<int>::infinity();
 
-        auto class_name_it = std::find(this->class_names.begin(), this->class_names.end(), item);
+        // class_names and m_classes are aligned while loading
+        size_t pos = std::find(this->class_names.begin(), this->class_names.end(), item) - this->class_names.begin();
 
-        if(class_name_it == class_names.end()){
-            this->class_names.push_back(item);
-            if(utils::is_number(item)) {
-                c = std::stoi(item);
-            }else{
-                c = (int)this->class_names.size();
-            }
-        }else{
-            if(utils::is_number(item)) {
-                c = std::stoi(item);
+        if(pos == class_names.size()){
+            const bool number = utils::is_number(item);
+            c = number ? std::stoi(item) : (int)this->class_names.size() + 1;
+
+            size_t same = std::find(this->m_classes.begin(), this->m_classes.end(), c) - this->m_classes.begin();
+            if(number && same < this->m_classes.size() && utils::is_number(this->class_names[same]) && std::stoi(this->class_names[same]) == c){
+                pos = same; // the same number in other characters
             }else{
-                c = (int)(class_name_it - this->class_names.begin())+1;
+                // a number and a text must not share their label
+                while(std::find(this->m_classes.begin(), this->m_classes.end(), c) != this->m_classes.end()) c++;
+                this->class_names.push_back(item);
+                this->m_classes.push_back(c);
+                this->class_distribution.push_back(0);
             }
         }
-        auto class_it = std::find(this->m_classes.begin(), this->m_classes.end(), c);
-        if(class_it == this->m_classes.end()){
-            this->m_classes.push_back(c);
-            this->class_distribution.push_back(0);
-        }
-        auto it_pos = std::find_if(this->m_classes.begin(), this->m_classes.end(), [&c](const int &_class){
-            return (_class == c);
-        });
-        this->class_distribution[(it_pos-this->m_classes.begin())]++;
+        c = this->m_classes[pos];
+        this->class_distribution[pos]++;
 
         return c;
     }
-- 
2.43.0


From b6099b2f4ed6e7764a250f4ec2284c184660fe28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:16 +0000
Subject: [PATCH 130/146] fix: RFE ranks the features by a model trained on a
 fold when cross validating

---
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
index 1d7622b..615a20c 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
@@ -189,7 +189,7 @@ namespace mltk{
                     //printf("Dim: %d, Margem: %lf, Distancia entre os centros: %f, SVs: %d\n", (dim-level), data_get_dist_centers(stmp), margin, svcount);
                 }
 
-                w = this->classifier->getSolutionRef()->w.X();
+                w = sol.w.X(); // cross validating trains the classifier again
                 weight.resize(stmp->dim());
                 auto fnames = stmp->getFeaturesNames();
 
-- 
2.43.0


From f9c1ba8e650a15ba2acec05f0946e8913b56cf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:47 +0000
Subject: [PATCH 131/146] fix: feature selection with cross validation gives
 something else each time

---
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp     | 2 +-
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
index 00767e1..f3f94b3 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
@@ -242,7 +242,7 @@ namespace mltk{
                 //utils_initialize_random();
                 this->cv->seed.resize(this->cv->qtde);
                 for (i = 0; i < this->cv->qtde; i++)
-                    this->cv->seed[i] = (size_t) i; //rand();
+                    this->cv->seed[i] = (size_t) i + 1; // zero would be a random seed
                 this->cv->initial_error = 0;
                 this->cv->actual_error = 0;
             }
diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
index 615a20c..879476b 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
@@ -78,7 +78,7 @@ namespace mltk{
                 //utils_initialize_random();
                 this->cv->seed.resize(this->cv->qtde);
                 for (i = 0; i < this->cv->qtde; i++)
-                    this->cv->seed[i] = i; //rand();
+                    this->cv->seed[i] = i + 1; // zero would be a random seed
                 this->cv->initial_error = 0;
                 this->cv->actual_error = 0;
             }
-- 
2.43.0


From 4da70ffea04229d910a1bc7642158fb3bb11077c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:06 +0000
Subject: [PATCH 132/146] fix: selecting again with the same ordered search
 gives back every feature

---
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
index f3f94b3..6b7e3a7 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
@@ -217,7 +217,8 @@ namespace mltk{
             int startdim = dim_orig = dim;
             std::vector<int> fnames;
             int ftime = 1;
-            int lool = 0;    /*leave one out level*/
+            this->lool = 0;    /*leave one out level*/
+            this->contexpanded = this->contnotheap = this->contprojected = this->contprojtrained = this->conthashnotheap = 0;
             double g_margin = 0;
             std::shared_ptr<Data<T>> stmp = make_data<T>();
             max_time_orig = this->max_time;
-- 
2.43.0


From 890419557050f03dd8d99cf5f9c308ecafc3d4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:06 +0000
Subject: [PATCH 133/146] fix: the projected margin of the ordered search adds
 up the removed feature instead of the kept ones

---
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
index 6b7e3a7..f266757 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
@@ -748,7 +748,7 @@ namespace mltk{
                     if(dim > 1){
                         for(sumnorm = 0, j = 0; j < dim; j++){
                             if(i != j){
-                                sumnorm += std::pow(std::fabs(weight[i].w/wnorm)*margin, q);
+                                sumnorm += std::pow(std::fabs(weight[j].w/wnorm)*margin, q);
                             }
                         }
                         tpmargin = std::pow(sumnorm, 1.0/q);
-- 
2.43.0


From ba8d2ce42f7a05a9cc58433eb8d55abce7cebf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:06 +0000
Subject: [PATCH 134/146] fix: the ordered search removes the most relevant
 features first

---
 .../include/ufjfmltk/featselect/AOS.hpp       | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
index f266757..033d96c 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
@@ -701,35 +701,30 @@ namespace mltk{
                 }
             }
 
-            // sorting shape
+            // sorting shape, the feature to be removed first comes first
             if(sorting_shape == 6){ // w* fisher
                 std::sort(weight.begin(), weight.end(), [](const auto& a, const auto& b){
-                    return (((std::fabs(a.w * a.fisher) > std::fabs(b.w * b.fisher)) -
-                             (std::fabs(a.w * a.fisher) < std::fabs(b.w * b.fisher)))<=0)?false:true;
+                    return std::fabs(a.w * a.fisher) < std::fabs(b.w * b.fisher);
                 });
             }else if(sorting_shape == 5){ // w * golub
                 std::sort(weight.begin(), weight.end(), [](const auto& a, const auto& b){
-                    return (((std::fabs(a.w * a.golub) > std::fabs(b.w * b.golub)) -
-                             (std::fabs(a.w * a.golub) < std::fabs(b.w * b.golub))) <= 0)?false:true;
+                    return std::fabs(a.w * a.golub) < std::fabs(b.w * b.golub);
                 });
             }else if(sorting_shape == 4){  // w * radius
                 std::sort(weight.begin(), weight.end(), [](const auto& a, const auto& b){
-                    return (((std::fabs(a.w * a.radius) > std::fabs(b.w * b.radius)) -
-                             (std::fabs(a.w * a.radius) < std::fabs(b.w * b.radius))) <= 0)?false:true;
+                    return std::fabs(a.w * a.radius) < std::fabs(b.w * b.radius);
                 });
             }else if(sorting_shape == 3){ // w * radius / distcenter
                 std::sort(weight.begin(), weight.end(), [](const auto& a, const auto& b){
-                    return ((std::fabs((a.w * a.radius)/a.dcents) > std::fabs((b.w * b.radius)/b.dcents)) -
-                            (std::fabs((a.w * a.radius)/a.dcents) < std::fabs((b.w * b.radius)/b.dcents))<=0)?false:true;
+                    return std::fabs((a.w * a.radius)/a.dcents) < std::fabs((b.w * b.radius)/b.dcents);
                 });
             }else if(sorting_shape == 2){ // w / distcenter
                 std::sort(weight.begin(), weight.end(), [](const auto& a, const auto& b){
-                    return ((std::fabs(a.w / a.dcents) > std::fabs(b.w / b.dcents)) -
-                            (std::fabs(a.w / a.dcents) < std::fabs(b.w / b.dcents)) <= 0)?false:true;
+                    return std::fabs(a.w / a.dcents) < std::fabs(b.w / b.dcents);
                 });
             }else{
                 std::sort(weight.begin(), weight.end(), [](const auto& a, const auto& b){
-                    return (((std::fabs(a.w)>std::fabs(b.w)) - (std::fabs(a.w)<std::fabs(b.w))) <= 0)?false:true;
+                    return std::fabs(a.w) < std::fabs(b.w);
                 });
             }
 
-- 
2.43.0


From 8adfb35bc2c82f869f16e91422510bff259eb121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:06 +0000
Subject: [PATCH 135/146] fix: the look ahead of the ordered search trains on
 the features it has removed

---
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp      | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
index 033d96c..6f61ef7 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
@@ -967,6 +967,7 @@ namespace mltk{
                     solution.bias = gtmp->bias;
                     solution.w = novo_w;
                     this->classifier->setSolution(solution);
+                    this->classifier->setSamples(*stmp);
                     if (!this->classifier->train()) {
                         if (this->verbose) std::cout << "Training failed!\n";
                         break;
-- 
2.43.0


From 13fcb70df4b3c0a1ab44270eea0fc1cc89dbff9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:06 +0000
Subject: [PATCH 136/146] fix: the ordered search sorts by not a number when
 asked for Golub's criterion

---
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
index 6f61ef7..5aaf9fd 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
@@ -695,8 +695,8 @@ namespace mltk{
                 }
 
                 for(i = 0; i < dim; i++){
-                    weight[i].golub = std::fabs(avg_pos[i] - avg_pos[i])/(std::sqrt(sd_pos[i]/num_pos-1)) +
-                                      std::sqrt(sd_neg[i]/num_neg-1);
+                    weight[i].golub = std::fabs(avg_pos[i] - avg_neg[i])/(std::sqrt(sd_pos[i]/(num_pos-1)) +
+                                      std::sqrt(sd_neg[i]/(num_neg-1)));
                     weight[i].fisher = std::pow(avg_pos[i] - avg_neg[i], 2)/(sd_pos[i] + sd_neg[i]);
                 }
             }
-- 
2.43.0


From f0139bb5dc07a6485bdbbabe157eab4fada6abdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:47 +0000
Subject: [PATCH 137/146] fix: printing a point without features reads past its
 end

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
index 935d9da..a7883b4 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
@@ -700,10 +700,10 @@ namespace mltk {
             output << p.x[i] << ", ";
         }
 
+        if(dim > 0) output << p.x[i];
         if(p.y > -std::numeric_limits<double>::max())
-            output <<  p.x[i] << ", " << p.y << "]";
-        else
-            output <<  p.x[i] << "]";
+            output << (dim > 0 ? ", " : "") << p.y;
+        output << "]";
 
         return output;
     }
-- 
2.43.0


From a4a281a4deb4961b92431a7c970bb43e6fa9fbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:47 +0000
Subject: [PATCH 138/146] fix: the support vectors of the dual IMA are those of
 its last failed training

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index 4e21405..3a2482f 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -662,10 +662,10 @@ namespace mltk{
 
             this->svs.clear();
             for (i = 0; i < size; ++i) {
-                if (points[i]->Alpha() > this->EPS * this->rate) { this->svs.push_back(i); }
+                points[i]->Alpha() = saved_alphas[i];
+                if (points[i]->Alpha() > 0) { this->svs.push_back(i); }
             }
-
-            for (i = 0; i < size; ++i) points[i]->Alpha() = saved_alphas[i];
+            this->solution.svs = this->svs.size();
 
             this->solution.norm = this->kernel->norm(*this->samples);
 
-- 
2.43.0


From 69c2221aaba8b65f77f7dddf2c743f38c9af4594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:47 +0000
Subject: [PATCH 139/146] fix: RFE prints the number of features as the margin
 of the selected model

---
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
index 879476b..43d3bb5 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
@@ -123,10 +123,10 @@ namespace mltk{
                                 }
                                 kfolderror = this->cv->actual_error / this->cv->qtde;
                             }
-                            std::cout << "Dim: " << partial_dim << ", Margin: " << partial_dim << ", SVs: " << partial_svs
+                            std::cout << "Dim: " << partial_dim << ", Margin: " << partial_margin << ", SVs: " << partial_svs
                                  << ", Error " << this->cv->fold << "-fold: " << kfolderror << "%\n";
                         } else
-                            std::cout << "Dim: " << partial_dim << ", Margin: " << partial_dim << ", SVs: " << partial_svs
+                            std::cout << "Dim: " << partial_dim << ", Margin: " << partial_margin << ", SVs: " << partial_svs
                                  << std::endl;
                         std::cout << "---------------\nTotal time: " << partial_time << "\n\n";
                         partial = 1;
-- 
2.43.0


From 523bf1fef2493f56736aa62016a87fabfa01940a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:47 +0000
Subject: [PATCH 140/146] fix: the ordered search prints the margin of its
 result with the sign turned

---
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
index 5aaf9fd..964f8f4 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
@@ -281,7 +281,7 @@ namespace mltk{
                                       << ", SVs: " << this->partial_svs
                                       << ", Error " << this->cv->fold << "-fold: " << this->kfolderror << "%\n";
                         } else {
-                            std::cout << "Dim: " << this->partial_dim << ", Margin: -" << this->partial_margin
+                            std::cout << "Dim: " << this->partial_dim << ", Margin: " << this->partial_margin
                                       << ", SVs: " << this->partial_svs
                                       << std::endl;
                         }
-- 
2.43.0


From 0b7ca5754b2e97530b470a510082b6eb7dd28944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:47 +0000
Subject: [PATCH 141/146] fix: the ordered search prints its expanded nodes as
 its projections

---
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
index 964f8f4..4845aa0 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
@@ -370,7 +370,7 @@ namespace mltk{
                         std::cout << "Not inserted in Heap: " << this->contnotheap << std::endl;
                         std::cout << "Total of projections: " << this->contprojected << std::endl;
                         std::cout << "Total of trained projections: " << this->contprojtrained << std::endl;
-                        std::cout << "Total of trained projections: " << this->contprojected - this->contprojtrained
+                        std::cout << "Total of non-trained projections: " << this->contprojected - this->contprojtrained
                                   << std::endl;
                         //printf("Sobra de projecoes no Heap: %d\n", aos_select_heap_projected(heap));
                         std::cout << "Equal nodes in Hash that didn't entered in the Heap: " << this->conthashnotheap
@@ -605,7 +605,7 @@ namespace mltk{
                 this->contnaoheap_parcial = this->contnotheap;
                 this->conthashnaoheap_parcial = this->conthashnotheap;
                 this->contexpandidos_parcial = this->contexpanded;
-                this->contprojetados_parcial = this->contexpanded;
+                this->contprojetados_parcial = this->contprojected;
                 this->contprojtreinados_parcial = this->contprojtrained;
                 //sobraprojecoes_parcial = aos_select_heap_projected(heap);
                 this->stmp_partial = mltk::make_data<T>();
-- 
2.43.0


From bf7318b06c7506a3e75dbadc5ad8732d9bfe7c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:47 +0000
Subject: [PATCH 142/146] fix: kfold counts the predictions of the earlier
 folds again in every fold

---
 .../ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
index 37dddb4..83b3b9a 100644
--- a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
+++ b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
@@ -320,7 +320,8 @@ namespace mltk::validation {
         ValidationReport solution;
 
         //Start cross-validation
-        for(size_t fp = 0, fn = 0, tp = 0, tn = 0, j = 0; j < fold; ++j){
+        for(size_t j = 0; j < fold; ++j){
+            size_t fp = 0, fn = 0, tp = 0, tn = 0;
             auto _test_sample = folds[j].test;
             auto _train_sample = folds[j].train;
             
@@ -405,6 +406,9 @@ namespace mltk::validation {
                 solution.truePositive += tp;
             }
         }
+        solution.precision /= fold;
+        solution.recall /= fold;
+        solution.tnrate /= fold;
         solution.error = (((double)error)/(double)fold);
         solution.accuracy = 100.0 - solution.error;
         return solution;
-- 
2.43.0


From 6108b272169f341d11a85a660c8786e6fdbc8d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:47 +0000
Subject: [PATCH 143/146] fix: IMA normalises an initial solution of the L1
 formulation by a wrong norm

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index 3a2482f..d494ac6 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -143,6 +143,9 @@ namespace mltk{
                     for (this->solution.norm = 0.0, i = 0; i < dim; ++i)
                         this->solution.norm += this->solution.w[i] * this->solution.w[i];
                     this->solution.norm = sqrt(this->solution.norm);
+                } else if (this->q == -1) {
+                    for (this->solution.norm = 0.0, i = 0; i < dim; ++i)
+                        this->solution.norm = std::max(this->solution.norm, fabs(this->solution.w[i]));
                 } else {
                     for (this->solution.norm = 0.0, i = 0; i < dim; ++i)
                         this->solution.norm += std::pow(fabs(this->solution.w[i]), this->q);
-- 
2.43.0


From 3ba3ef34aa7787d1700bfd3d126c7c7176be68e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:35 +0000
Subject: [PATCH 144/146] fix: an element of a point as scalar changes while
 the point is assigned to

---
 .../ufjfmltk-core/include/ufjfmltk/core/ExprScalar.hpp    | 2 +-
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ExprScalar.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ExprScalar.hpp
index 0afe96b..19ac591 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ExprScalar.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ExprScalar.hpp
@@ -11,7 +11,7 @@ namespace mltk{
     class  A_Scalar {
         private:
             /// value of the scalar
-            T const& value; 
+            T value; // a copy, the scalar may be an element of the point assigned to
         
         public:
             // Constructor initializes value
diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
index a7883b4..d8ce27a 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
@@ -369,7 +369,7 @@ namespace mltk {
                 return *this;
             }
 
-            Point& operator+=(T const& b) {
+            Point& operator+=(T b) { // by value, it may be an element of this point
                 for(std::size_t idx = 0; idx < size(); ++idx){
                     x[idx] += b;
                 }
@@ -413,7 +413,7 @@ namespace mltk {
                 return *this;
             }
 
-            Point& operator-=(T const& b) {
+            Point& operator-=(T b) { // by value, it may be an element of this point
                 for(std::size_t idx = 0; idx < size(); ++idx){
                     x[idx] -= b;
                 }
@@ -447,7 +447,7 @@ namespace mltk {
                 return *this;
             }
 
-            Point& operator*=(T const& b) {
+            Point& operator*=(T b) { // by value, it may be an element of this point
                 for(std::size_t idx = 0; idx < size(); ++idx){
                     x[idx] *= b;
                 }
@@ -481,7 +481,7 @@ namespace mltk {
                 return *this;
             }
 
-            Point& operator/=(T const& b) {
+            Point& operator/=(T b) { // by value, it may be an element of this point
                 for(std::size_t idx = 0; idx < size(); ++idx){
                     x[idx] /= b;
                 }
-- 
2.43.0


From 2bf4b8b8ee45564b3094ef5e0017ea3ec918e14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:35 +0000
Subject: [PATCH 145/146] fix: classesCopy of a dataset onto itself reads the
 points it has removed

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 4c3d485..7cca165 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1437,6 +1437,11 @@ namespace mltk{
 
     template<typename T>
     void mltk::Data< T >::classesCopy(const mltk::Data< T > &_data, std::vector<int> &classes){
+        if(this == &_data){ // the points are read while they are replaced
+            const Data<T> source(_data);
+            classesCopy(source, classes);
+            return;
+        }
         size_t _size = 0;
         std::set<int> _classes;
         for(auto c: classes){
-- 
2.43.0


From 96907564ff09a7f49a9da7e2b6f82f8a0f773a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:35 +0000
Subject: [PATCH 146/146] fix: computeClassesDistribution does not recount the
 classes of a loaded dataset

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 7cca165..55b1ff7 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1779,7 +1779,6 @@ namespace mltk{
 
     template <typename T>
     void mltk::Data< T >::computeClassesDistribution(){
-        if(cdist_computed) return;
         this->class_distribution = std::vector<size_t>(this->m_classes.size(), 0);
         for(auto p: m_points){
             int c = p->Y();
-- 
2.43.0

