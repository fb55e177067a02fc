From 01cf62cbb58f25cecf3ebe56c9dba96955dc04fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:19 +0000
Subject: [PATCH 01/33] fix: ThreadSafeQueue::Clear must not lock the head
 twice and must update the size

---
 altro/common/threadsafe_queue.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/altro/common/threadsafe_queue.hpp b/altro/common/threadsafe_queue.hpp
index 68b3be1..3633e80 100644
--- a/altro/common/threadsafe_queue.hpp
+++ b/altro/common/threadsafe_queue.hpp
@@ -130,7 +130,8 @@ bool ThreadSafeQueue<T>::IsEmpty() {
 template <class T>
 void ThreadSafeQueue<T>::Clear() {
   std::lock_guard<std::mutex> head_lock(*head_mutex_);
-  while (!IsEmpty()) {
+  while (head_.get() != GetTail()) {  // can't use IsEmpty(): the head is already locked
+    --(*size_);
     PopHead();
   }
 }
-- 
2.43.0


From b9840babbc9499cc58d0f2ab30a01ad0b1528c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:19 +0000
Subject: [PATCH 02/33] fix: count a pushed element before it can be popped, so
 that the queue size never underflows

---
 altro/common/threadsafe_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/altro/common/threadsafe_queue.hpp b/altro/common/threadsafe_queue.hpp
index 3633e80..dd4848a 100644
--- a/altro/common/threadsafe_queue.hpp
+++ b/altro/common/threadsafe_queue.hpp
@@ -104,6 +104,7 @@ void ThreadSafeQueue<T>::Push(T new_value) {
   std::unique_ptr<Node> new_tail_node(std::make_unique<Node>());
   {
     std::lock_guard<std::mutex> tail_lock(*tail_mutex_);  // lock the tail
+    ++(*size_);                                           // count it before it can be popped
     tail_->data = new_data;                               // assign data into current tail
 
     // assign new tail
@@ -111,7 +112,6 @@ void ThreadSafeQueue<T>::Push(T new_value) {
     tail_->next = std::move(new_tail_node);
     tail_ = new_tail;
   }
-  ++(*size_);
   data_cond_->notify_one();  // wake up 1 thread to process the new data
 }
 
-- 
2.43.0


From b5baeed02fc7ccc954a6414c8045e6dbf56849a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:49 +0000
Subject: [PATCH 03/33] fix: copying or moving a Problem must carry over the
 number of segments

---
 altro/problem/problem.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/altro/problem/problem.hpp b/altro/problem/problem.hpp
index 670ff4e..3b5c0cb 100644
--- a/altro/problem/problem.hpp
+++ b/altro/problem/problem.hpp
@@ -77,6 +77,7 @@ class Problem {
       : N_(N), initial_state_(initial_state), costfuns_(N + 1, nullptr), models_(N + 1, nullptr), eq_(N + 1), ineq_(N + 1) {}
 
   Problem& operator=(const Problem& other) {
+    N_ = other.N_;
     *initial_state_ = *(other.initial_state_);
     costfuns_ = other.costfuns_;
     models_ = other.models_;
@@ -86,11 +87,12 @@ class Problem {
   }
 
   Problem(const Problem& other)
-      : costfuns_(other.costfuns_), models_(other.models_), eq_(other.eq_), ineq_(other.ineq_) {
+      : N_(other.N_), costfuns_(other.costfuns_), models_(other.models_), eq_(other.eq_), ineq_(other.ineq_) {
     *initial_state_ = *(other.initial_state_);
   }
 
   Problem& operator=(Problem&& other) {
+    N_ = other.N_;
     *initial_state_ = *(other.initial_state_);
     costfuns_ = std::move(other.costfuns_);
     models_ = std::move(other.models_);
@@ -100,7 +102,8 @@ class Problem {
   }
 
   Problem(Problem&& other)
-      : initial_state_(other.initial_state_),
+      : N_(other.N_),
+        initial_state_(other.initial_state_),
         costfuns_(std::move(other.costfuns_)),
         models_(std::move(other.models_)),
         eq_(std::move(other.eq_)),
-- 
2.43.0


From 4446e0317b200bfc023a1b9163b834f6e0a6a8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:49 +0000
Subject: [PATCH 04/33] fix: Problem::IsFullyDefined must not dereference
 missing dynamics

---
 altro/problem/problem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/altro/problem/problem.cpp b/altro/problem/problem.cpp
index 7b32f0d..a595cf5 100644
--- a/altro/problem/problem.cpp
+++ b/altro/problem/problem.cpp
@@ -20,7 +20,8 @@ bool Problem::IsFullyDefined(const bool verbose) const {
     bool good_state_dim = true;
     if (k == 0) {
       has_initial_state = initial_state_->size() > 0;
-      good_state_dim = has_initial_state && (models_[k]->StateDimension() == initial_state_->size());
+      good_state_dim = has_initial_state && (models_[k] == nullptr ||
+                                             models_[k]->StateDimension() == initial_state_->size());
       valid_k = valid_k && has_initial_state && good_state_dim;
     }
     valid = valid && valid_k;
-- 
2.43.0


From e27edc169bc88850a02cac6354a2b1e72cdf72a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:49 +0000
Subject: [PATCH 05/33] fix: RungeKutta4::Jacobian must evaluate the model at
 the stage times of the step

---
 altro/problem/integration.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/altro/problem/integration.hpp b/altro/problem/integration.hpp
index 5827f91..c423eb1 100644
--- a/altro/problem/integration.hpp
+++ b/altro/problem/integration.hpp
@@ -141,13 +141,13 @@ class RungeKutta4 final : public ExplicitIntegrator<NStates, NControls> {
     dynamics->Jacobian(x, u, t, jac);
     A_[0] = jac.topLeftCorner(n, n);
     B_[0] = jac.topRightCorner(n, m);
-    dynamics->Jacobian(x + 0.5 * k1_ * h, u, 0.5 * t, jac);  // NOLINT(readability-magic-numbers)
+    dynamics->Jacobian(x + 0.5 * k1_ * h, u, t + 0.5 * h, jac);  // NOLINT(readability-magic-numbers)
     A_[1] = jac.topLeftCorner(n, n);
     B_[1] = jac.topRightCorner(n, m);
-    dynamics->Jacobian(x + 0.5 * k2_ * h, u, 0.5 * t, jac);  // NOLINT(readability-magic-numbers)
+    dynamics->Jacobian(x + 0.5 * k2_ * h, u, t + 0.5 * h, jac);  // NOLINT(readability-magic-numbers)
     A_[2] = jac.topLeftCorner(n, n);
     B_[2] = jac.topRightCorner(n, m);
-    dynamics->Jacobian(x + k3_ * h, u, t, jac);
+    dynamics->Jacobian(x + k3_ * h, u, t + h, jac);
     A_[3] = jac.topLeftCorner(n, n);
     B_[3] = jac.topRightCorner(n, m);
 
-- 
2.43.0


From ce4158f67b570c3d73f6ef2d265a934de44a8ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:01 +0000
Subject: [PATCH 06/33] fix: a header frequency of zero must be rejected,
 printing divides by it

---
 altro/common/solver_logger.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/altro/common/solver_logger.hpp b/altro/common/solver_logger.hpp
index cac8e1c..8bacf9f 100644
--- a/altro/common/solver_logger.hpp
+++ b/altro/common/solver_logger.hpp
@@ -104,7 +104,7 @@ class SolverLogger {
    * @param freq 
    */
   void SetFrequency(const int freq) {
-    ALTRO_ASSERT(freq >= 0, "Header print frequency must be positive.");
+    ALTRO_ASSERT(freq > 0, "Header print frequency must be positive.");
     frequency_ = freq;
   }
 
-- 
2.43.0


From 498b5e92391df0e5a648fe665fcc1ae5b69b8724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:01 +0000
Subject: [PATCH 07/33] fix: logging an unknown title must not create a log
 entry

---
 altro/common/solver_logger.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/altro/common/solver_logger.hpp b/altro/common/solver_logger.hpp
index 8bacf9f..15731e6 100644
--- a/altro/common/solver_logger.hpp
+++ b/altro/common/solver_logger.hpp
@@ -209,8 +209,11 @@ LogEntry& SolverLogger::AddEntry(const int& col, Args... args) {
 template <class T>
 void SolverLogger::Log(const std::string& title, T value) {
   // Short-circuit to skip the hash lookup if logging is disabled
-  if (cur_level_ > LogLevel::kSilent && entries_[title].IsActive(cur_level_)) {
-    entries_[title].Log(value);
+  if (cur_level_ > LogLevel::kSilent) {
+    auto search = entries_.find(title);
+    if (search != entries_.end() && search->second.IsActive(cur_level_)) {
+      search->second.Log(value);
+    }
   }
 }
 
-- 
2.43.0


From 235e4e7d70ec9e0ec99c8a5a2d97399ca9d7831d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:01 +0000
Subject: [PATCH 08/33] fix: profile percentages must not overflow for times
 above 21 seconds

---
 altro/common/profile_entry.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/altro/common/profile_entry.cpp b/altro/common/profile_entry.cpp
index ce9d56f..c5f5f58 100644
--- a/altro/common/profile_entry.cpp
+++ b/altro/common/profile_entry.cpp
@@ -2,6 +2,8 @@
 
 #include "altro/common/profile_entry.hpp"
 
+#include <cstdint>
+
 namespace altro {
 
 namespace {
@@ -36,8 +38,8 @@ ProfileEntry::Ptr ProfileEntry::GetRoot() {
 void ProfileEntry::CalcStats() {
   time_t total_time = GetRoot()->time;
   time_t parent_time = parent ? parent->time : time;
-  int time_us = time.count();
-  int total_us = total_time.count();
+  int64_t time_us = time.count();
+  int64_t total_us = total_time.count();
   const int percent_scaling = 100;
   if (total_us == 0) {
     percent_total = -1;
-- 
2.43.0


From 40ea736a49648b11df46c755bd0209684a720052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:02 +0000
Subject: [PATCH 09/33] fix: switching the profiler output must close the file
 the Timer owns, and only that

---
 altro/common/timer.cpp | 10 ++++++++++
 altro/common/timer.hpp |  2 +-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/altro/common/timer.cpp b/altro/common/timer.cpp
index 32367f8..b4f432c 100644
--- a/altro/common/timer.cpp
+++ b/altro/common/timer.cpp
@@ -105,7 +105,17 @@ Stopwatch Timer::Start(const std::string& name) {
   return Stopwatch();
 }
 
+void Timer::SetOutput(FILE* io) {
+  // Close the previous output if the Timer has ownership of it
+  if (using_file_) {
+    fclose(io_);
+    using_file_ = false;
+  }
+  io_ = io;
+}
+
 void Timer::SetOutput(const std::string& filename) {
+  SetOutput(stdout);  // release the previous file first, it could be the same one
   FILE* io = fopen(filename.c_str(), "w");
   if (io == nullptr) {
     std::string errmsg = fmt::format("Error opening profiler file \"{}\". Got errno {}.", filename, errno);
diff --git a/altro/common/timer.hpp b/altro/common/timer.hpp
index 636b6db..89de5e4 100644
--- a/altro/common/timer.hpp
+++ b/altro/common/timer.hpp
@@ -54,7 +54,7 @@ class Timer : public std::enable_shared_from_this<Timer> {
   void Activate() { active_ = true; }
   void Deactivate() { active_ = false; }
   bool IsActive() const { return active_; }
-  void SetOutput(FILE* io) { io_ = io; }  // ownership of resource remains with user
+  void SetOutput(FILE* io);               // ownership of resource remains with user
   void SetOutput(const std::string& filename);  // takes ownership of the file resource
   friend Stopwatch;  // so that it can populate times_
 
-- 
2.43.0


From 5084f850389920525b5510ee03c14ab079af54b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:02 +0000
Subject: [PATCH 10/33] fix: profile entries must be listed under the scope
 they ran in

---
 altro/common/timer.cpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/altro/common/timer.cpp b/altro/common/timer.cpp
index b4f432c..0e831b7 100644
--- a/altro/common/timer.cpp
+++ b/altro/common/timer.cpp
@@ -1,6 +1,9 @@
 // Copyright [2021] Optimus Ride Inc.
 
 #include "altro/common/timer.hpp"
+
+#include <algorithm>
+
 #include "altro/common/profile_entry.hpp"
 #include "altro/utils/assert.hpp"
 #include "fmt/chrono.h"
@@ -40,11 +43,19 @@ void Timer::PrintSummary(std::map<std::string, std::chrono::microseconds>* const
   // Each entry also stores a pointer to it's parent (e.g. "al/ilqr" for "al/ilqr/cost")
   // This builds out a call "tree" with the root being a temporary entry that will 
   // calculate the total time recorded by the "base" level functions (e.g. "al").
-  int max_width = 0;
   for (; times_iter != times.end(); ++times_iter) {
     // Create a new entry from the data in the Timer
     entries.emplace_back(std::make_shared<ProfileEntry>(times_iter->first, times_iter->second));
-    EntryPtr entry = entries.back();
+  }
+
+  // Sort by the split names, so that every entry directly follows its parent. The order of the full names
+  // doesn't do that, since "al-2" is between "al" and "al/ilqr".
+  std::sort(entries.begin() + 1, entries.end(),
+            [](const EntryPtr& a, const EntryPtr& b) { return a->name < b->name; });
+
+  int max_width = 0;
+  for (size_t i_entry = 1; i_entry < entries.size(); ++i_entry) {
+    EntryPtr entry = entries[i_entry];
 
     // Get how "deep" the profile stack is.
     // e.g. level of "al/ilqr/cost" is 3.
@@ -63,10 +74,18 @@ void Timer::PrintSummary(std::map<std::string, std::chrono::microseconds>* const
 
     // Assign the parent to be the last entry in the previous level
     // This is ensured by the fact that the entries are sorted alphabetically
-    entry->parent = parents[curlevel - 1];
+    // A scope that is still running isn't listed yet. Its children belong to the closest listed scope.
+    size_t parent_level = curlevel - 1;
+    while (parent_level > 0 &&
+           (parents[parent_level] == nullptr ||
+            !std::equal(parents[parent_level]->name.begin(), parents[parent_level]->name.end(),
+                        entry->name.begin()))) {
+      --parent_level;
+    }
+    entry->parent = parents[parent_level];
 
     // Add up all the base level entries to get the total time
-    if (curlevel == 1) {
+    if (parent_level == 0) {
       entries.front()->time += entry->time;
     }
 
-- 
2.43.0


From c82f64a913ca740d5d52ddb22233a6cc478efb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:24 +0000
Subject: [PATCH 11/33] fix: SetTaskAssignment must check the given indices,
 not the previous ones

---
 altro/ilqr/ilqr.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 1425ea3..a7a6864 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -256,10 +256,9 @@ class iLQR {
    * interval [`inds[i]`, `inds[i+1]`).
    */
   void SetTaskAssignment(std::vector<int> inds) {
-    ALTRO_ASSERT(work_inds_.back() == NumSegments() + 1,
-                 "Work inds should include the terminal index.");
-    ALTRO_ASSERT(work_inds_[0] == 0, "Work inds should start with a 0.");
-    ALTRO_ASSERT(work_inds_.size() >= 2, "Work inds must have at least 2 elements.");
+    ALTRO_ASSERT(inds.size() >= 2, "Work inds must have at least 2 elements.");
+    ALTRO_ASSERT(inds.back() == NumSegments() + 1, "Work inds should include the terminal index.");
+    ALTRO_ASSERT(inds[0] == 0, "Work inds should start with a 0.");
     bool is_sorted = true;
     for (int i = 1; i < inds.size(); ++i) {
       if (inds[i] <= inds[i - 1]) {
-- 
2.43.0


From fd173476546ca5fc9f67e4f22c01739c71b50ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:24 +0000
Subject: [PATCH 12/33] fix: a custom task assignment must be used even if the
 threads are already running

---
 altro/ilqr/ilqr.hpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index a7a6864..6f40e77 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -268,6 +268,7 @@ class iLQR {
     ALTRO_ASSERT(is_sorted, "Work inds must be a set of strictly increasing integers.");
     work_inds_ = std::move(inds);
     custom_work_assignment_ = true;
+    CreateTasks();
   }
 
   /***************************** Algorithm **************************************/
@@ -717,17 +718,7 @@ class iLQR {
       if (pool_.IsRunning()) {
         pool_.StopThreads();
       }
-      tasks_.clear();
-
-      // Create tasks
-      std::vector<int>& work_inds = GetTaskAssignment();
-      int ntasks = NumTasks();
-      for (int i = 0; i < ntasks; ++i) {
-        int start = work_inds[i];
-        int stop = work_inds[i + 1];
-        auto expansion_block = [this, start, stop]() { UpdateExpansionsBlock(start, stop); };
-        tasks_.emplace_back(std::move(expansion_block));
-      }
+      CreateTasks();
 
       // Start the pool
       if (nthreads > 1) {
@@ -736,6 +727,22 @@ class iLQR {
     }
   }
 
+  /**
+   * @brief Create the tasks that process the expansions for the current task assignment.
+   *
+   */
+  void CreateTasks() {
+    tasks_.clear();
+    std::vector<int>& work_inds = GetTaskAssignment();
+    int ntasks = NumTasks();
+    for (int i = 0; i < ntasks; ++i) {
+      int start = work_inds[i];
+      int stop = work_inds[i + 1];
+      auto expansion_block = [this, start, stop]() { UpdateExpansionsBlock(start, stop); };
+      tasks_.emplace_back(std::move(expansion_block));
+    }
+  }
+
   void DefaultTaskAssignment() {
     int nthreads = GetOptions().NumThreads();
     int ntasks = nthreads * GetOptions().tasks_per_thread;
-- 
2.43.0


From 097bdcba799d274867b351d69ee01243ac69986b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:24 +0000
Subject: [PATCH 13/33] fix: the default task assignment must be a partition
 for every number of segments and tasks

---
 altro/ilqr/ilqr.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 6f40e77..bc7a878 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -698,12 +698,20 @@ class iLQR {
    */
   bool ShouldRedoTaskAssignment() const {
     bool is_custom = custom_work_assignment_;
-    int tasks_per_thread = GetOptions().tasks_per_thread;
-    bool has_expected_number_of_tasks = NumTasks() == GetOptions().NumThreads() * tasks_per_thread;
+    bool has_expected_number_of_tasks = NumTasks() == DefaultNumTasks();
     bool keep_assignment = is_custom || has_expected_number_of_tasks;
     return !keep_assignment;
   }
 
+  /**
+   * @brief The number of tasks in the default task assignment. There can't be more tasks than segments.
+   *
+   */
+  int DefaultNumTasks() const {
+    int ntasks = GetOptions().NumThreads() * GetOptions().tasks_per_thread;
+    return std::max(std::min(ntasks, NumSegments()), 1);
+  }
+
   void LaunchThreads() {
     size_t nthreads = GetOptions().NumThreads();
 
@@ -744,12 +752,11 @@ class iLQR {
   }
 
   void DefaultTaskAssignment() {
-    int nthreads = GetOptions().NumThreads();
-    int ntasks = nthreads * GetOptions().tasks_per_thread;
+    int ntasks = DefaultNumTasks();
     double step = NumSegments() / static_cast<double>(ntasks);
     work_inds_.clear();
-    for (double val = 0.0; val <= NumSegments(); val += step) {
-      work_inds_.emplace_back(static_cast<int>(round(val)));
+    for (int i = 0; i <= ntasks; ++i) {
+      work_inds_.emplace_back(static_cast<int>(round(i * step)));
     }
     ALTRO_ASSERT(work_inds_.back() == NumSegments(),
                  "Work inds should include the terminal index.");
-- 
2.43.0


From 8fbf8225c11d4a0a477a03ca1991440ccd5ea822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:24 +0000
Subject: [PATCH 14/33] fix: a restarted backward pass must not add to the
 expected decrease of the failed one

---
 altro/ilqr/ilqr.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index bc7a878..0327e66 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -414,6 +414,10 @@ class iLQR {
           Sxx_prev = &(knotpoints_[N_]->GetCostToGoHessian());
           Sx_prev = &(knotpoints_[N_]->GetCostToGoGradient());
 
+          // Discard the expected decrease accumulated so far
+          deltaV_[0] = 0.0;
+          deltaV_[1] = 0.0;
+
           // Check if we're at max regularization
           if (rho_ >= GetOptions().bp_reg_max) {
             max_reg_count++;
-- 
2.43.0


From e18b1d7832348e1ba097ed56d67c99382945286d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:24 +0000
Subject: [PATCH 15/33] fix: a failed backward pass must end the solve and not
 be overwritten by the forward pass

---
 altro/ilqr/ilqr.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 0327e66..9572960 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -300,6 +300,9 @@ class iLQR {
     for (int iter = 0; iter < GetOptions().max_iterations_inner; ++iter) {
       UpdateExpansions();
       BackwardPass();
+      if (status_ == SolverStatus::kBackwardPassRegularizationFailed) {
+        break;  // there are no valid gains for the forward pass
+      }
       ForwardPass();
       UpdateConvergenceStatistics();
 
-- 
2.43.0


From 2bad7cd12067ea2471d7ea1bd5cbcd08031fa08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:24 +0000
Subject: [PATCH 16/33] fix: after a rejected step the recorded cost and
 constraint values must be those of the kept trajectory

---
 altro/ilqr/ilqr.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 9572960..8455b82 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -555,7 +555,9 @@ class iLQR {
       (*Z_) = (*Zbar_);
     } else {
       IncreaseRegularization();
+      Cost();  // the line search left the costs and constraint values of the last rejected step
       J = J0;
+      stats_.Log("cost", J);
     }
 
     if (J > J0) {
-- 
2.43.0


From 51a97146bfcd75253ab55ec8bf6ae09815655d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:24 +0000
Subject: [PATCH 17/33] fix: a new augmented Lagrangian solve must not start
 with the status of the last one

---
 altro/augmented_lagrangian/al_solver.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/altro/augmented_lagrangian/al_solver.hpp b/altro/augmented_lagrangian/al_solver.hpp
index 7e90171..1152297 100644
--- a/altro/augmented_lagrangian/al_solver.hpp
+++ b/altro/augmented_lagrangian/al_solver.hpp
@@ -289,6 +289,7 @@ void AugmentedLagrangianiLQR<n, m>::Init() {
   Stopwatch sw = CreateTimer("init");
 
   SolverStats& stats = GetStats();
+  status_ = SolverStatus::kUnsolved;
   if (GetOptions().reset_duals) {
     ResetDualVariables();
   }
-- 
2.43.0


From 2cf5b871a51d113a6a05f95cbf4b2aa0f9074ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:44 +0000
Subject: [PATCH 18/33] fix: solving again with iLQR must not continue with the
 statistics and iteration count of the last solve

---
 altro/augmented_lagrangian/al_solver.hpp | 2 +-
 altro/ilqr/ilqr.hpp                      | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/altro/augmented_lagrangian/al_solver.hpp b/altro/augmented_lagrangian/al_solver.hpp
index 1152297..e302b53 100644
--- a/altro/augmented_lagrangian/al_solver.hpp
+++ b/altro/augmented_lagrangian/al_solver.hpp
@@ -312,7 +312,7 @@ void AugmentedLagrangianiLQR<n, m>::Solve() {
   Init();
 
   for (int iteration = 0; iteration < GetOptions().max_iterations_outer; ++iteration) {
-    ilqr_solver_.Solve();
+    ilqr_solver_.Solve(false);  // keep the statistics of the previous outer iterations
     UpdateDuals();
     UpdateConvergenceStatistics();
 
diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 8455b82..47c2d8c 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -280,8 +280,10 @@ class iLQR {
    * obtained via GetStatus() and GetStats() are updated.
    * The solve is successful if `GetStatus == SolverStatus::kSuccess`.
    *
+   * @param reset_stats Reset the statistics and iteration counters before the solve. Should be false if
+   * this solve is part of a larger one that accumulates the statistics over several iLQR solves.
    */
-  void Solve() {
+  void Solve(const bool reset_stats = true) {
     ALTRO_ASSERT(is_initial_state_set, "Initial state must be set before solving.");
     ALTRO_ASSERT(Z_ != nullptr, "Invalid trajectory pointer. May be uninitialized.");
 
@@ -289,6 +291,10 @@ class iLQR {
     ALTRO_ASSERT(Z_->NumSegments() == N_,
                  fmt::format("Initial trajectory must have length {}", N_));
 
+    if (reset_stats) {
+      stats_.Reset();
+    }
+
     // Start profiler
     GetOptions().profiler_enable ? stats_.GetTimer()->Activate() : stats_.GetTimer()->Deactivate();
     Stopwatch sw = stats_.GetTimer()->Start("ilqr");
-- 
2.43.0


From 48ab3aa746243fff5f7badf6e65e621af5e28e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:44 +0000
Subject: [PATCH 19/33] fix: MakeTrajectory must link the trajectory like
 SetTrajectory does

---
 altro/ilqr/ilqr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 47c2d8c..31c990b 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -214,7 +214,7 @@ class iLQR {
    * @return std::shared_ptr<Trajectory<n, m>> A new zero-initialized trajectory.
    */
   std::shared_ptr<Trajectory<n, m>> MakeTrajectory(float dt) {
-    Z_ = std::make_shared<Trajectory<n, m>>(NumSegments());
+    SetTrajectory(std::make_shared<Trajectory<n, m>>(NumSegments()));
     Z_->SetUniformStep(dt);
     return Z_;
   }
-- 
2.43.0


From 3aeb23451796f4539bfc31a4adbf9868f738e2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:44 +0000
Subject: [PATCH 20/33] fix: initializing iLQR from another problem must
 replace the previous one

---
 altro/ilqr/ilqr.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 31c990b..4c511c4 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -128,6 +128,7 @@ class iLQR {
                  fmt::format("Number of segments in problem {}, should be equal to the number of "
                              "segments in the solver, {}",
                              prob.NumSegments(), N_));
+    knotpoints_.clear();
     CopyFromProblem<n2, m2>(prob, 0, N_ + 1);
     ResetInternalVariables();
   }
-- 
2.43.0


From 860cfb920ad50a43a018773de1b3da986893f2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:44 +0000
Subject: [PATCH 21/33] fix: moving iLQR must keep the custom task assignment

---
 altro/ilqr/ilqr.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 4c511c4..f42c24b 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -68,7 +68,13 @@ class iLQR {
                                 drho_(other.drho_),
                                 deltaV_(std::move(other.deltaV_)),
                                 is_initial_state_set(other.is_initial_state_set),
-                                max_violation_callback_(std::move(other.max_violation_callback_)) {}
+                                custom_work_assignment_(other.custom_work_assignment_),
+                                max_violation_callback_(std::move(other.max_violation_callback_)),
+                                work_inds_(std::move(other.work_inds_)) {
+    if (custom_work_assignment_) {
+      CreateTasks();
+    }
+  }
 
   /**
    * @brief Copy the data from a Problem class into the iLQR solver
-- 
2.43.0


From 080174b024d3513d5aec3dad8ef567235253a0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:17 +0000
Subject: [PATCH 22/33] fix: moved SolverStats must log to their own vectors

---
 altro/common/solver_stats.cpp | 59 +++++++++++++++++++++++++++++++++++
 altro/common/solver_stats.hpp | 15 +++++++++
 2 files changed, 74 insertions(+)

diff --git a/altro/common/solver_stats.cpp b/altro/common/solver_stats.cpp
index 0094f8b..025527d 100644
--- a/altro/common/solver_stats.cpp
+++ b/altro/common/solver_stats.cpp
@@ -13,6 +13,65 @@ void SolverStats::SetPtr<double>(const LogEntry& entry, std::vector<double>& dat
   floats_[entry.GetTitle()] = &data;
 }
 
+SolverStats::SolverStats(SolverStats&& other) noexcept
+    : initial_cost(other.initial_cost),
+      iterations_inner(other.iterations_inner),
+      iterations_outer(other.iterations_outer),
+      iterations_total(other.iterations_total),
+      cost(std::move(other.cost)),
+      alpha(std::move(other.alpha)),
+      improvement_ratio(std::move(other.improvement_ratio)),
+      gradient(std::move(other.gradient)),
+      cost_decrease(std::move(other.cost_decrease)),
+      regularization(std::move(other.regularization)),
+      violations(std::move(other.violations)),
+      max_penalty(std::move(other.max_penalty)),
+      floats_(std::move(other.floats_)),
+      len_(other.len_),
+      logger_(std::move(other.logger_)),
+      timer_(std::move(other.timer_)),
+      opts_(std::move(other.opts_)) {
+  RelinkData(&other);
+}
+
+SolverStats& SolverStats::operator=(SolverStats&& other) noexcept {
+  initial_cost = other.initial_cost;
+  iterations_inner = other.iterations_inner;
+  iterations_outer = other.iterations_outer;
+  iterations_total = other.iterations_total;
+  cost = std::move(other.cost);
+  alpha = std::move(other.alpha);
+  improvement_ratio = std::move(other.improvement_ratio);
+  gradient = std::move(other.gradient);
+  cost_decrease = std::move(other.cost_decrease);
+  regularization = std::move(other.regularization);
+  violations = std::move(other.violations);
+  max_penalty = std::move(other.max_penalty);
+  floats_ = std::move(other.floats_);
+  len_ = other.len_;
+  logger_ = std::move(other.logger_);
+  timer_ = std::move(other.timer_);
+  opts_ = std::move(other.opts_);
+  RelinkData(&other);
+  return *this;
+}
+
+void SolverStats::RelinkData(SolverStats* const other) {
+  using Data = std::vector<double> SolverStats::*;
+  const Data all_data[] = {&SolverStats::cost,           &SolverStats::alpha,
+                           &SolverStats::improvement_ratio, &SolverStats::gradient,
+                           &SolverStats::cost_decrease,  &SolverStats::regularization,
+                           &SolverStats::violations,     &SolverStats::max_penalty};
+  for (auto& kv : floats_) {
+    for (const Data data : all_data) {
+      if (kv.second == &(other->*data)) {
+        kv.second = &(this->*data);
+        break;
+      }
+    }
+  }
+}
+
 void SolverStats::SetTolerances(const double& cost, const double& viol, const double& grad) {
   logger_.GetEntry("dJ").SetLowerBound(cost);
   // logger_.GetEntry("dJ").SetUpperBound(cost);
diff --git a/altro/common/solver_stats.hpp b/altro/common/solver_stats.hpp
index 68d1dd8..517a888 100644
--- a/altro/common/solver_stats.hpp
+++ b/altro/common/solver_stats.hpp
@@ -47,6 +47,14 @@ class SolverStats {
     DefaultLogger(); 
   }
 
+  // Disallow copying: the copy would log to the vectors of the original
+  SolverStats(const SolverStats& other) = delete;
+  SolverStats& operator=(const SolverStats& other) = delete;
+
+  // Allow moving
+  SolverStats(SolverStats&& other) noexcept;
+  SolverStats& operator=(SolverStats&& other) noexcept;
+
   double initial_cost = 0.0;
   int iterations_inner = 0;
   int iterations_outer = 0;
@@ -175,6 +183,13 @@ class SolverStats {
     ALTRO_UNUSED(data);
   }
 
+  /**
+   * @brief Make floats_ point to the vectors of this object, after they have been moved here from another one.
+   * 
+   * @param other The object floats_ currently points to.
+   */
+  void RelinkData(SolverStats* other);
+
   /**
    * @brief Create the default logging fields
    * 
-- 
2.43.0


From 9413b4672086004ae93553d3cacddcea3603e10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:17 +0000
Subject: [PATCH 23/33] fix: a moved augmented Lagrangian solver must not leave
 its iLQR solver with a callback to the old object

---
 altro/augmented_lagrangian/al_solver.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/altro/augmented_lagrangian/al_solver.hpp b/altro/augmented_lagrangian/al_solver.hpp
index e302b53..b171e5e 100644
--- a/altro/augmented_lagrangian/al_solver.hpp
+++ b/altro/augmented_lagrangian/al_solver.hpp
@@ -35,6 +35,16 @@ class AugmentedLagrangianiLQR {
   explicit AugmentedLagrangianiLQR(int N) : ilqr_solver_(N), costs_(), max_violation_(N + 1) {}
   explicit AugmentedLagrangianiLQR(const problem::Problem& prob);
 
+  AugmentedLagrangianiLQR(const AugmentedLagrangianiLQR& other) = delete;
+  AugmentedLagrangianiLQR& operator=(const AugmentedLagrangianiLQR& other) = delete;
+  AugmentedLagrangianiLQR(AugmentedLagrangianiLQR&& other) noexcept
+      : ilqr_solver_(std::move(other.ilqr_solver_)),
+        costs_(std::move(other.costs_)),
+        status_(other.status_),
+        max_violation_(std::move(other.max_violation_)) {
+    LinkConstraintCallback();
+  }
+
   void InitializeFromProblem(const problem::Problem& prob);
 
   /***************************** Getters **************************************/
@@ -215,6 +225,9 @@ class AugmentedLagrangianiLQR {
   void ResetDualVariables();
 
  private:
+  // Let the iLQR solver get the constraint violation from this object
+  void LinkConstraintCallback();
+
   Stopwatch CreateTimer(const std::string& name) { return GetStats().GetTimer()->Start(name); }
 
   ilqr::iLQR<n, m> ilqr_solver_;
@@ -244,6 +257,11 @@ void AugmentedLagrangianiLQR<n, m>::InitializeFromProblem(const problem::Problem
                            prob.NumSegments(), costs_.size()));
   // ilqr_solver_.InitializeFromProblem(prob_al);
   ilqr_solver_.CopyFromProblem(prob_al, 0, prob.NumSegments() + 1);
+  LinkConstraintCallback();
+}
+
+template <int n, int m>
+void AugmentedLagrangianiLQR<n, m>::LinkConstraintCallback() {
   auto max_violation_callback = [this]() -> double { return this->GetMaxViolation(); };
   ilqr_solver_.SetConstraintCallback(max_violation_callback);
 }
-- 
2.43.0


From 7103e8e0313321857cbd3a7145e7cd055c5fce71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:00 +0000
Subject: [PATCH 24/33] fix: accepting a step must not overwrite the terminal
 control and step of the trajectory

---
 altro/ilqr/ilqr.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index f42c24b..8281d1d 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -661,6 +661,10 @@ class iLQR {
         Zbar_->SetTime(k, Z_->GetTime(k));
       }
       Zbar_->SetTime(N_, Z_->GetTime(N_));
+      Zbar_->SetStep(N_, Z_->GetStep(N_));
+
+      // The rollouts don't set the terminal control
+      Zbar_->Control(N_) = Z_->Control(N_);
     }
 
     ResetInternalVariables();
-- 
2.43.0


From 112a9ffe2c47f6932a113244228b5b7645d092c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:40 +0000
Subject: [PATCH 25/33] fix: a moved-from problem must not share its initial
 state with the new one

---
 altro/problem/problem.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/altro/problem/problem.hpp b/altro/problem/problem.hpp
index 3b5c0cb..b00c541 100644
--- a/altro/problem/problem.hpp
+++ b/altro/problem/problem.hpp
@@ -103,11 +103,14 @@ class Problem {
 
   Problem(Problem&& other)
       : N_(other.N_),
-        initial_state_(other.initial_state_),
+        initial_state_(std::move(other.initial_state_)),
         costfuns_(std::move(other.costfuns_)),
         models_(std::move(other.models_)),
         eq_(std::move(other.eq_)),
-        ineq_(std::move(other.ineq_)) {}
+        ineq_(std::move(other.ineq_)) {
+    // The moved-from problem must not share its initial state with this one
+    other.initial_state_ = std::make_shared<VectorXd>(0);
+  }
   /**
    * @brief Set the initial state for the problem
    *
@@ -301,7 +304,7 @@ class Problem {
 
  private:
   int N_;  // number of segments (# of knotpoints - 1)
-  const std::shared_ptr<VectorXd> initial_state_ = std::make_shared<VectorXd>(0);  // initial state
+  std::shared_ptr<VectorXd> initial_state_ = std::make_shared<VectorXd>(0);  // initial state
   std::vector<std::shared_ptr<CostFunction>> costfuns_;
   std::vector<std::shared_ptr<DiscreteDynamics>> models_;
 
-- 
2.43.0


From 99fcd3d5772df9be14b79ec0f4b970e484972f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:07 +0000
Subject: [PATCH 26/33] fix: GetStateControl of a knot point with run-time
 sizes

---
 altro/common/knotpoint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/altro/common/knotpoint.hpp b/altro/common/knotpoint.hpp
index f6e0c2a..9b0efcc 100644
--- a/altro/common/knotpoint.hpp
+++ b/altro/common/knotpoint.hpp
@@ -116,7 +116,7 @@ class KnotPoint : public StateControlSized<n, m> {
   const StateVector& State() const { return x_; }
   const ControlVector& Control() const { return u_; }
   VectorN<AddSizes(n,m), T> GetStateControl() const {
-    VectorN<AddSizes(n,m), T> z;
+    VectorN<AddSizes(n,m), T> z(x_.size() + u_.size());
     z << x_, u_;
     return z;
   }
-- 
2.43.0


From f652a836e01503911fbc3f2280f3aafe834e6e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:05 +0000
Subject: [PATCH 27/33] fix: printing while silent must not count towards the
 header frequency

---
 altro/common/solver_logger.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/altro/common/solver_logger.cpp b/altro/common/solver_logger.cpp
index 0113ac6..ef52aaa 100644
--- a/altro/common/solver_logger.cpp
+++ b/altro/common/solver_logger.cpp
@@ -45,6 +45,10 @@ void SolverLogger::PrintData() {
 }
 
 void SolverLogger::Print() {
+  // Nothing is printed, so it must not count towards the header frequency
+  if (cur_level_ == LogLevel::kSilent) {
+    return;
+  }
   if ((count_ % frequency_) == 0) {
     count_ = 0;
     PrintHeader();
-- 
2.43.0


From b56858da80a64c65f979bfaa1ffd5fbcd9ded0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:56 +0000
Subject: [PATCH 28/33] fix: the joint Hessian of a cost function lacks the
 control-state block

---
 altro/problem/costfunction.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/altro/problem/costfunction.hpp b/altro/problem/costfunction.hpp
index b4a7c38..af4155a 100644
--- a/altro/problem/costfunction.hpp
+++ b/altro/problem/costfunction.hpp
@@ -69,6 +69,8 @@ class CostFunction : public altro::ScalarFunction {
     constexpr int Nu = NControls;
     Hessian(x, u, hess.topLeftCorner<Nx, Nx>(n, n), hess.topRightCorner<Nx, Nu>(n, m),
             hess.bottomRightCorner<Nu, Nu>(m, m));
+    // The Hessian is symmetric: the remaining block is the transpose of the cross term.
+    hess.bottomLeftCorner<Nu, Nx>(m, n) = hess.topRightCorner<Nx, Nu>(n, m).transpose();
   }
 };
 }  // namespace problem
-- 
2.43.0


From 211360f564a58964cda0f953d87296ac7eb1e881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:35 +0000
Subject: [PATCH 29/33] fix: SetConstraint writes out of bounds for an invalid
 knot point index

---
 altro/problem/problem.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/altro/problem/problem.cpp b/altro/problem/problem.cpp
index a595cf5..df8ad91 100644
--- a/altro/problem/problem.cpp
+++ b/altro/problem/problem.cpp
@@ -46,6 +46,7 @@ void Problem::SetConstraint<constraints::Equality>(
     std::shared_ptr<constraints::Constraint<constraints::Equality>> con, int k) {
   ALTRO_ASSERT(con != nullptr, "Must provide a valid constraint pointer.");
   ALTRO_ASSERT(con->OutputDimension() > 0, "Constraint must have a length greater than zero.");
+  ALTRO_ASSERT((k >= 0) && (k <= N_), "Invalid knot point index.");
   eq_[k].emplace_back(std::move(con));
 }
 
@@ -54,6 +55,7 @@ void Problem::SetConstraint<constraints::Inequality>(
     std::shared_ptr<constraints::Constraint<constraints::Inequality>> con, int k) {
   ALTRO_ASSERT(con != nullptr, "Must provide a valid constraint pointer.");
   ALTRO_ASSERT(con->OutputDimension() > 0, "Constraint must have a length greater than zero.");
+  ALTRO_ASSERT((k >= 0) && (k <= N_), "Invalid knot point index.");
   ineq_[k].emplace_back(std::move(con));
 }
 
-- 
2.43.0


From cfcfa7df3fee34dd62f4fbcd2e0af9d87bfb7a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:35 +0000
Subject: [PATCH 30/33] fix: Cost reads out of bounds if the trajectory has the
 wrong length

---
 altro/ilqr/ilqr.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 8281d1d..844244d 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -344,6 +344,7 @@ class iLQR {
     return Cost(*Z_);
   }
   double Cost(const Trajectory<n, m>& Z) {
+    ALTRO_ASSERT(Z.NumSegments() == N_, fmt::format("Trajectory must have length {}", N_));
     Stopwatch sw = stats_.GetTimer()->Start("cost");
     CalcIndividualCosts(Z);
     return costs_.sum();
-- 
2.43.0


From 93fc56b795d7d75ebbdb7307b6b85a1ecf497c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:35 +0000
Subject: [PATCH 31/33] fix: AL Solve without a problem or a matching
 trajectory reads out of bounds

---
 altro/augmented_lagrangian/al_solver.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/altro/augmented_lagrangian/al_solver.hpp b/altro/augmented_lagrangian/al_solver.hpp
index b171e5e..a5c1155 100644
--- a/altro/augmented_lagrangian/al_solver.hpp
+++ b/altro/augmented_lagrangian/al_solver.hpp
@@ -322,6 +322,13 @@ void AugmentedLagrangianiLQR<n, m>::Init() {
 
 template <int n, int m>
 void AugmentedLagrangianiLQR<n, m>::Solve() {
+  ALTRO_ASSERT(static_cast<int>(costs_.size()) == NumSegments() + 1,
+               "The solver must be initialized with a problem before solving.");
+  ALTRO_ASSERT(ilqr_solver_.GetTrajectory() != nullptr,
+               "Invalid trajectory pointer. May be uninitialized.");
+  ALTRO_ASSERT(ilqr_solver_.GetTrajectory()->NumSegments() == NumSegments(),
+               fmt::format("Initial trajectory must have length {}", NumSegments()));
+
   // This check needs to happen before creating the first stopwatch
   GetOptions().profiler_enable ? GetStats().GetTimer()->Activate()
                                : GetStats().GetTimer()->Deactivate();
-- 
2.43.0


From 06cc1689311dd4e0fb267e212fec816a37a06f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:35 +0000
Subject: [PATCH 32/33] fix: an AL solver cannot be initialized again, and
 accepts a problem of the wrong length

---
 altro/augmented_lagrangian/al_solver.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/altro/augmented_lagrangian/al_solver.hpp b/altro/augmented_lagrangian/al_solver.hpp
index a5c1155..5820bc2 100644
--- a/altro/augmented_lagrangian/al_solver.hpp
+++ b/altro/augmented_lagrangian/al_solver.hpp
@@ -250,13 +250,17 @@ AugmentedLagrangianiLQR<n, m>::AugmentedLagrangianiLQR(const problem::Problem& p
 
 template <int n, int m>
 void AugmentedLagrangianiLQR<n, m>::InitializeFromProblem(const problem::Problem& prob) {
+  ALTRO_ASSERT(prob.NumSegments() == NumSegments(),
+               fmt::format("Number of segments in problem {}, should be equal to the number of "
+                           "segments in the solver, {}",
+                           prob.NumSegments(), NumSegments()));
   max_violation_.setZero(prob.NumSegments() + 1);
+  costs_.clear();
   problem::Problem prob_al = BuildAugLagProblem<n, m>(prob, &costs_);
   ALTRO_ASSERT(static_cast<int>(costs_.size()) == prob.NumSegments() + 1,
                fmt::format("Got an incorrect number of cost functions. Expected {}, got {}",
                            prob.NumSegments(), costs_.size()));
-  // ilqr_solver_.InitializeFromProblem(prob_al);
-  ilqr_solver_.CopyFromProblem(prob_al, 0, prob.NumSegments() + 1);
+  ilqr_solver_.InitializeFromProblem(prob_al);
   LinkConstraintCallback();
 }
 
-- 
2.43.0


From d292ee7690d2a71410ee3be58529815a3bd984cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:35 +0000
Subject: [PATCH 33/33] fix: moving a running pool takes the queue from its
 threads before the assertion

---
 altro/common/threadpool.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/altro/common/threadpool.cpp b/altro/common/threadpool.cpp
index 3dd6fc8..6b83385 100644
--- a/altro/common/threadpool.cpp
+++ b/altro/common/threadpool.cpp
@@ -9,14 +9,21 @@ namespace altro {
 
 constexpr int ThreadPool::kTaskTimeout;
 
+namespace {
+// Checks the pool before any of its members are moved.
+bool CheckNotRunning(const ThreadPool& pool) {
+  (void)pool;  // unused if assertions are disabled
+  ALTRO_ASSERT(!pool.IsRunning(), "Cannot move a pool while it's running");
+  return false;
+}
+}  // namespace
+
 ThreadPool::ThreadPool(ThreadPool&& other) noexcept
-    : is_running_(static_cast<bool>(other.is_running_)),
+    : is_running_(CheckNotRunning(other)),
       threads_(std::move(other.threads_)),
       futures_(std::move(other.futures_)),
       queue_(std::move(other.queue_)),
-      timeout_(other.timeout_) {
-  ALTRO_ASSERT(!is_running_, "Cannot move a pool while it's running");
-}
+      timeout_(other.timeout_) {}
 
 ThreadPool& ThreadPool::operator=(ThreadPool&& other) noexcept {
   ALTRO_ASSERT(!other.IsRunning(), "Cannot move a pool while it's running");
-- 
2.43.0

