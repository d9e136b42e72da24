From c0ed95bc2c7fa37162ca50d35b583db15f793bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:55 +0000
Subject: [PATCH 01/10] fix: sims_flanagan::set checks its new arguments
 instead of the old ones

It validated the current members, so invalid arguments were accepted, and it
assigned some members before copying the throttles, so running out of memory
left a mixture of old and new parameters.
---
 src/leg/sims_flanagan.cpp | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/leg/sims_flanagan.cpp b/src/leg/sims_flanagan.cpp
index 604e459..5c82cc8 100644
--- a/src/leg/sims_flanagan.cpp
+++ b/src/leg/sims_flanagan.cpp
@@ -123,20 +123,8 @@ void sims_flanagan::set(const std::array<std::array<double, 3>, 2> &rvs, double
                         const std::array<std::array<double, 3>, 2> &rvf, double mf, double tof, double max_thrust,
                         double isp, double mu, double cut)
 {
-    kep3::leg::_sanity_checks(m_throttles, m_tof, m_max_thrust, m_isp, m_mu, m_cut, m_nseg, m_nseg_fwd, m_nseg_bck);
-    m_rvs = rvs;
-    m_ms = ms;
-    m_throttles = throttles;
-    m_rvf = rvf;
-    m_mf = mf;
-    m_tof = tof;
-    m_max_thrust = max_thrust;
-    m_isp = isp;
-    m_mu = mu;
-    m_cut = cut;
-    m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;
-    m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
-    m_nseg_bck = m_nseg - m_nseg_fwd;
+    // The new arguments are checked, and everything that may throw is done, before the leg is touched.
+    *this = sims_flanagan(rvs, ms, throttles, rvf, mf, tof, max_thrust, isp, mu, cut);
 }
 
 // Getters
-- 
2.43.0


From a977bfb03b6a250443a203b434cca24402635790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:55 +0000
Subject: [PATCH 02/10] fix: sims_flanagan::compute_mc_grad does not terminate
 when out of memory

xt::eye(7) copies a std::vector shape in a noexcept constructor: a failed
allocation there ended the process instead of throwing std::bad_alloc.
---
 src/leg/sims_flanagan.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/leg/sims_flanagan.cpp b/src/leg/sims_flanagan.cpp
index 5c82cc8..953b970 100644
--- a/src/leg/sims_flanagan.cpp
+++ b/src/leg/sims_flanagan.cpp
@@ -283,8 +283,10 @@ std::pair<std::array<double, 49>, std::vector<double>> sims_flanagan::gradients_
     // Corner case: nseg is zero
     if (nseg == 0) {
         std::array<double, 49> grad_rvm{}; // The mismatch constraints gradient w.r.t. extended state r,v,m
-        auto xgrad_rvm = xt::adapt(grad_rvm, {7u, 7u});
-        xgrad_rvm = xt::eye(7);
+        // NOTE: no xt::eye here, its noexcept constructor turns std::bad_alloc into std::terminate.
+        for (auto i = 0u; i < 7u; ++i) {
+            grad_rvm[i * 7u + i] = 1.;
+        }
         std::vector<double> grad(7, 0.); // The mismatch constraints gradient w.r.t. throttles (0 in this case) and tof
         return std::make_pair(grad_rvm, std::move(grad));
     }
-- 
2.43.0


From 41428035d490a3f456b1b4df022ee4711874c368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:53 +0000
Subject: [PATCH 03/10] fix: a failed load leaves sims_flanagan and
 lambert_problem as they were

Loading assigned member after member, so a truncated archive, an I/O error or
std::bad_alloc left a mixture of old and new members: a leg with a segment
count that did not match its throttles read past their end.
---
 include/kep3/lambert_problem.hpp   | 13 +++++++++++++
 include/kep3/leg/sims_flanagan.hpp | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/include/kep3/lambert_problem.hpp b/include/kep3/lambert_problem.hpp
index 3c64cab..19cc2c5 100644
--- a/include/kep3/lambert_problem.hpp
+++ b/include/kep3/lambert_problem.hpp
@@ -12,6 +12,7 @@
 
 #include <array>
 #include <cmath>
+#include <utility>
 #include <vector>
 
 #include <fmt/ostream.h>
@@ -73,6 +74,18 @@ private:
     friend class boost::serialization::access;
     template <class Archive>
     void serialize(Archive &ar, const unsigned int)
+    {
+        if constexpr (Archive::is_loading::value) {
+            // A load that fails half way must not leave a mixture of old and new members behind.
+            lambert_problem tmp(*this);
+            tmp.serialize_members(ar);
+            *this = std::move(tmp);
+        } else {
+            serialize_members(ar);
+        }
+    }
+    template <class Archive>
+    void serialize_members(Archive &ar)
     {
         ar & m_r0;
         ar & m_r1;
diff --git a/include/kep3/leg/sims_flanagan.hpp b/include/kep3/leg/sims_flanagan.hpp
index 934d8c6..7e90cfd 100644
--- a/include/kep3/leg/sims_flanagan.hpp
+++ b/include/kep3/leg/sims_flanagan.hpp
@@ -12,6 +12,7 @@
 
 #include <array>
 #include <tuple>
+#include <utility>
 #include <vector>
 
 #include <fmt/ostream.h>
@@ -102,6 +103,18 @@ private:
     friend class boost::serialization::access;
     template <class Archive>
     void serialize(Archive &ar, const unsigned int)
+    {
+        if constexpr (Archive::is_loading::value) {
+            // A load that fails half way must not leave a mixture of old and new members behind.
+            sims_flanagan tmp;
+            tmp.serialize_members(ar);
+            *this = std::move(tmp);
+        } else {
+            serialize_members(ar);
+        }
+    }
+    template <class Archive>
+    void serialize_members(Archive &ar)
     {
         ar & m_rvs;
         ar & m_ms;
-- 
2.43.0


From 7cacba8eb91c1d1e16f23b9ef4735442e1997886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:32 +0000
Subject: [PATCH 04/10] fix: the variational cache sizes are read under the
 mutex that guards those caches

get_ta_stark_var_cache_dim and get_ta_cr3bp_var_cache_dim locked the mutex of
the other cache: a data race with a thread inserting an integrator.
---
 src/ta/cr3bp.cpp | 2 +-
 src/ta/stark.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ta/cr3bp.cpp b/src/ta/cr3bp.cpp
index ae4b742..5cc362c 100644
--- a/src/ta/cr3bp.cpp
+++ b/src/ta/cr3bp.cpp
@@ -116,7 +116,7 @@ size_t get_ta_cr3bp_cache_dim()
 size_t get_ta_cr3bp_var_cache_dim()
 {
     // Lock down for access to cache.
-    std::lock_guard const lock(ta_cr3bp_mutex);
+    std::lock_guard const lock(ta_cr3bp_var_mutex);
     return ta_cr3bp_var_cache.size();
 }
 
diff --git a/src/ta/stark.cpp b/src/ta/stark.cpp
index 9885a34..2b82bf5 100644
--- a/src/ta/stark.cpp
+++ b/src/ta/stark.cpp
@@ -127,7 +127,7 @@ size_t get_ta_stark_cache_dim()
 size_t get_ta_stark_var_cache_dim()
 {
     // Lock down for access to cache.
-    std::lock_guard const lock(ta_stark_mutex);
+    std::lock_guard const lock(ta_stark_var_mutex);
     return ta_stark_var_cache.size();
 }
 
-- 
2.43.0


From a1a2fc6d4600727893a582be3bd59a02a29fe605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:32 +0000
Subject: [PATCH 05/10] fix: sims_flanagan_hf::get_state_history no longer
 reads past its time grid

With one segment the grid held one point less than the segment needs, and the
last point propagated to was whatever followed it in memory.
---
 src/leg/sims_flanagan_hf.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/leg/sims_flanagan_hf.cpp b/src/leg/sims_flanagan_hf.cpp
index 2cde273..d74a7dd 100644
--- a/src/leg/sims_flanagan_hf.cpp
+++ b/src/leg/sims_flanagan_hf.cpp
@@ -771,7 +771,8 @@ std::vector<std::vector<double>> sims_flanagan_hf::get_state_history(unsigned gr
     double timestep = 0.0;
     leg_time_grid.push_back(timestep);
 
-    for (decltype(m_nseg) i = 0; i < grid_points_per_segment * m_nseg - 2; ++i) {
+    // Consecutive segments share a grid point
+    for (decltype(m_nseg) i = 0; i < (grid_points_per_segment - 1) * m_nseg; ++i) {
         timestep += (prop_seg_duration / (grid_points_per_segment - 1));
         leg_time_grid.push_back(timestep);
     }
-- 
2.43.0


From 48e6bb670cb19156aa67e49534d5d2ffab877077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:05 +0000
Subject: [PATCH 06/10] fix: sims_flanagan_hf updates leave a consistent leg

set_max_thrust kept the thrusts computed with the old maximum, and set_isp,
set_mu, set_tol and set left the integrators with the old parameters and
tolerance. The set overloads assigned before checking, and running out of
memory in set or set_throttles left a mixture of old and new values.
---
 include/kep3/leg/sims_flanagan_hf.hpp |   4 +
 src/leg/sims_flanagan_hf.cpp          | 116 +++++++++++++-------------
 2 files changed, 64 insertions(+), 56 deletions(-)

diff --git a/include/kep3/leg/sims_flanagan_hf.hpp b/include/kep3/leg/sims_flanagan_hf.hpp
index fce03a7..8fdfa4c 100644
--- a/include/kep3/leg/sims_flanagan_hf.hpp
+++ b/include/kep3/leg/sims_flanagan_hf.hpp
@@ -133,6 +133,10 @@ public:
     [[nodiscard]] std::vector<std::vector<double>> get_state_history(const unsigned grid_points_per_segment) const;
 
 private:
+    void commit_throttles(std::vector<double> &throttles, std::vector<double> &thrusts) noexcept;
+    void update_thrusts() noexcept;
+    void update_integrators() noexcept;
+
     friend class boost::serialization::access;
     template <class Archive>
     void serialize(Archive &ar, const unsigned)
diff --git a/src/leg/sims_flanagan_hf.cpp b/src/leg/sims_flanagan_hf.cpp
index d74a7dd..28c9771 100644
--- a/src/leg/sims_flanagan_hf.cpp
+++ b/src/leg/sims_flanagan_hf.cpp
@@ -162,15 +162,10 @@ void sims_flanagan_hf::set_ms(double mass)
 void sims_flanagan_hf::set_throttles(const std::vector<double> &throttles)
 {
     kep3::leg::_check_throttles(throttles);
-    m_throttles = std::move(throttles);
-    m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;
-    m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
-    m_nseg_bck = m_nseg - m_nseg_fwd;
-
-    // Convert throttles to current_thrusts.
-    auto throttle_to_thrust = [this](double throttle) { return throttle * get_max_thrust(); };
-    m_thrusts.resize(m_throttles.size()); // Ensure that std::vector m_thrusts is same size as m_throttles
-    std::transform(m_throttles.begin(), m_throttles.end(), m_thrusts.begin(), throttle_to_thrust);
+    // Everything that may throw is done before the leg is touched.
+    std::vector<double> new_throttles(throttles);
+    std::vector<double> new_thrusts(throttles.size());
+    commit_throttles(new_throttles, new_thrusts);
 }
 void sims_flanagan_hf::set_throttles(const std::vector<double>::const_iterator &it1,
                                      const std::vector<double>::const_iterator &it2)
@@ -179,16 +174,9 @@ void sims_flanagan_hf::set_throttles(const std::vector<double>::const_iterator &
         throw std::logic_error(
             "The throttles of a high-fidelity sims-flanagan leg leg are being set with invalid iterators.");
     }
-    m_throttles.resize(static_cast<size_t>(std::distance(it1, it2)));
-    std::copy(it1, it2, m_throttles.begin());
-    m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;
-    m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
-    m_nseg_bck = m_nseg - m_nseg_fwd;
-
-    // Convert throttles to current_thrusts.
-    auto throttle_to_thrust = [this](double throttle) { return throttle * get_max_thrust(); };
-    m_thrusts.resize(m_throttles.size()); // Ensure that std::vector m_thrusts is same size as m_throttles
-    std::transform(m_throttles.begin(), m_throttles.end(), m_thrusts.begin(), throttle_to_thrust);
+    std::vector<double> new_throttles(it1, it2);
+    std::vector<double> new_thrusts(new_throttles.size());
+    commit_throttles(new_throttles, new_thrusts);
 }
 void sims_flanagan_hf::set_rvf(const std::array<std::array<double, 3>, 2> &rv)
 {
@@ -203,16 +191,19 @@ void sims_flanagan_hf::set_max_thrust(double max_thrust)
 {
     kep3::leg::_check_max_thrust(max_thrust);
     m_max_thrust = max_thrust;
+    update_thrusts();
 }
 void sims_flanagan_hf::set_isp(double isp)
 {
     kep3::leg::_check_isp(isp);
     m_isp = isp;
+    update_integrators();
 }
 void sims_flanagan_hf::set_mu(double mu)
 {
     kep3::leg::_check_mu(mu);
     m_mu = mu;
+    update_integrators();
 }
 void sims_flanagan_hf::set_cut(double cut)
 {
@@ -224,7 +215,15 @@ void sims_flanagan_hf::set_cut(double cut)
 void sims_flanagan_hf::set_tol(double tol)
 {
     kep3::leg::_check_tol(tol);
+    if (tol == m_tol) {
+        return;
+    }
+    heyoka::taylor_adaptive<double> ta = kep3::ta::get_ta_stark(tol);
+    heyoka::taylor_adaptive<double> ta_var = kep3::ta::get_ta_stark_var(tol);
+    m_tas = std::move(ta);
+    m_tas_var = std::move(ta_var);
     m_tol = tol;
+    update_integrators();
 }
 void sims_flanagan_hf::set_rvms(const std::array<double, 7> &rvms)
 {
@@ -249,72 +248,77 @@ void sims_flanagan_hf::set(const std::array<std::array<double, 3>, 2> &rvs, doub
                            const std::array<std::array<double, 3>, 2> &rvf, double mf, double tof, double max_thrust,
                            double isp, double mu, double cut, double tol)
 {
-    // Set initial state
-    set_rvs(rvs);
-    set_ms(ms);
-    // Set final state
-    set_rvf(rvf);
-    set_mf(mf);
-    m_throttles = throttles;
-    m_tof = tof;
-    m_max_thrust = max_thrust;
-    m_isp = isp;
-    m_mu = mu;
-    m_cut = cut;
-    m_tol = tol;
-    m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;
-    m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
-    m_nseg_bck = m_nseg - m_nseg_fwd;
-    kep3::leg::_sanity_checks(throttles, tof, max_thrust, isp, mu, cut, tol, m_nseg, m_nseg_fwd, m_nseg_bck);
-
-    // Convert throttles to current_thrusts.
-    auto throttle_to_thrust = [this](double throttle) { return throttle * get_max_thrust(); };
-    m_thrusts.resize(m_throttles.size()); // Ensure that std::vector m_thrusts is same size as m_throttles
-    std::transform(m_throttles.begin(), m_throttles.end(), m_thrusts.begin(), throttle_to_thrust);
+    const std::array<double, 7> rvms{rvs[0][0], rvs[0][1], rvs[0][2], rvs[1][0], rvs[1][1], rvs[1][2], ms};
+    const std::array<double, 7> rvmf{rvf[0][0], rvf[0][1], rvf[0][2], rvf[1][0], rvf[1][1], rvf[1][2], mf};
+    set(rvms, throttles, rvmf, tof, max_thrust, isp, mu, cut, tol);
 }
 
 void sims_flanagan_hf::set(const std::array<double, 7> &rvms, const std::vector<double> &throttles,
                            const std::array<double, 7> &rvmf, double tof, double max_thrust, double isp, double mu,
                            double cut, double tol)
 {
+    const auto nseg = static_cast<unsigned>(throttles.size()) / 3u;
+    const auto nseg_fwd = static_cast<unsigned>(static_cast<double>(nseg) * cut);
+    const auto nseg_bck = nseg - nseg_fwd;
+    kep3::leg::_sanity_checks(throttles, tof, max_thrust, isp, mu, cut, tol, nseg, nseg_fwd, nseg_bck);
+    // Everything that may throw is done before the leg is touched.
+    std::vector<double> new_throttles(throttles);
+    std::vector<double> new_thrusts(throttles.size());
+    set_tol(tol);
+
     set_rvms(rvms);
-    m_throttles = throttles;
     set_rvmf(rvmf);
     m_tof = tof;
     m_max_thrust = max_thrust;
     m_isp = isp;
     m_mu = mu;
     m_cut = cut;
-    m_tol = tol;
-    m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;
-    m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
-    m_nseg_bck = m_nseg - m_nseg_fwd;
-    kep3::leg::_sanity_checks(throttles, tof, max_thrust, isp, mu, cut, tol, m_nseg, m_nseg_fwd, m_nseg_bck);
-
-    // Convert throttles to current_thrusts.
-    auto throttle_to_thrust = [this](double throttle) { return throttle * get_max_thrust(); };
-    m_thrusts.resize(m_throttles.size()); // Ensure that std::vector m_thrusts is same size as m_throttles
-    std::transform(m_throttles.begin(), m_throttles.end(), m_thrusts.begin(), throttle_to_thrust);
+    update_integrators();
+    commit_throttles(new_throttles, new_thrusts);
 }
 
 void sims_flanagan_hf::set(const std::array<double, 7> &rvms, const std::vector<double> &throttles,
                            const std::array<double, 7> &rvmf, double time_of_flight)
 {
+    kep3::leg::_check_throttles(throttles);
+    kep3::leg::_check_tof(time_of_flight);
+    // Everything that may throw is done before the leg is touched.
+    std::vector<double> new_throttles(throttles);
+    std::vector<double> new_thrusts(throttles.size());
+
     set_rvms(rvms);
-    m_throttles = throttles;
     set_rvmf(rvmf);
     m_tof = time_of_flight;
+    commit_throttles(new_throttles, new_thrusts);
+}
+
+// Takes over the throttles; the second vector has the same size and receives the thrusts.
+void sims_flanagan_hf::commit_throttles(std::vector<double> &throttles, std::vector<double> &thrusts) noexcept
+{
+    m_throttles.swap(throttles);
+    m_thrusts.swap(thrusts);
     m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;
     m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
     m_nseg_bck = m_nseg - m_nseg_fwd;
-    _sanity_checks(throttles, m_tof, m_max_thrust, m_isp, m_mu, m_cut, m_tol, m_nseg, m_nseg_fwd, m_nseg_bck);
+    update_thrusts();
+}
 
-    // Convert throttles to current_thrusts.
+// Convert throttles to current_thrusts.
+void sims_flanagan_hf::update_thrusts() noexcept
+{
     auto throttle_to_thrust = [this](double throttle) { return throttle * get_max_thrust(); };
-    m_thrusts.resize(m_throttles.size()); // Ensure that std::vector m_thrusts is same size as m_throttles
     std::transform(m_throttles.begin(), m_throttles.end(), m_thrusts.begin(), throttle_to_thrust);
 }
 
+// The integrators' copies of mu and veff
+void sims_flanagan_hf::update_integrators() noexcept
+{
+    for (auto *ta : {&m_tas, &m_tas_var}) {
+        *ta->get_pars_data() = m_mu;
+        *(ta->get_pars_data() + 1) = m_isp * kep3::G0;
+    }
+}
+
 // Getters
 double sims_flanagan_hf::get_tof() const
 {
-- 
2.43.0


From 0fc3ba6bd7bb01e00551dcd3a13fb72f5a20e239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:05 +0000
Subject: [PATCH 07/10] fix: sims_flanagan_hf and stark_problem are restored
 whole or not at all

The variational integrator of a leg was not saved, so a loaded leg used the one
of the object it was loaded into. A load that failed half way left a mixture of
old and new members.
---
 include/kep3/leg/sims_flanagan_hf.hpp | 14 ++++++++++++++
 include/kep3/stark_problem.hpp        | 12 ++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/include/kep3/leg/sims_flanagan_hf.hpp b/include/kep3/leg/sims_flanagan_hf.hpp
index 8fdfa4c..b452a02 100644
--- a/include/kep3/leg/sims_flanagan_hf.hpp
+++ b/include/kep3/leg/sims_flanagan_hf.hpp
@@ -13,6 +13,7 @@
 #include <array>
 #include <cmath>
 #include <fmt/ostream.h>
+#include <utility>
 #include <vector>
 
 #include <heyoka/taylor.hpp>
@@ -140,6 +141,18 @@ private:
     friend class boost::serialization::access;
     template <class Archive>
     void serialize(Archive &ar, const unsigned)
+    {
+        if constexpr (Archive::is_loading::value) {
+            // A load that fails half way must not leave a mixture of old and new members behind.
+            sims_flanagan_hf tmp(*this);
+            tmp.serialize_members(ar);
+            *this = std::move(tmp);
+        } else {
+            serialize_members(ar);
+        }
+    }
+    template <class Archive>
+    void serialize_members(Archive &ar)
     {
         ar & m_rvms;
         ar & m_vars;
@@ -156,6 +169,7 @@ private:
         ar & m_nseg_fwd;
         ar & m_nseg_bck;
         ar & m_tas;
+        ar & m_tas_var;
     }
 
     // Initial rvm state
diff --git a/include/kep3/stark_problem.hpp b/include/kep3/stark_problem.hpp
index ca6a373..c93733f 100644
--- a/include/kep3/stark_problem.hpp
+++ b/include/kep3/stark_problem.hpp
@@ -53,6 +53,18 @@ private:
     friend class boost::serialization::access;
     template <class Archive>
     void serialize(Archive &ar, const unsigned int)
+    {
+        if constexpr (Archive::is_loading::value) {
+            // A load that fails half way must not leave a mixture of old and new members behind.
+            stark_problem tmp(*this);
+            tmp.serialize_members(ar);
+            *this = std::move(tmp);
+        } else {
+            serialize_members(ar);
+        }
+    }
+    template <class Archive>
+    void serialize_members(Archive &ar)
     {
         ar &m_mu;
         ar &m_veff;
-- 
2.43.0


From d50a94b19730fb69066d8627c43a8873a741b262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:01 +0000
Subject: [PATCH 08/10] fix: sims_flanagan_hf::get_relevant_gradients does not
 terminate when out of memory

xt::eye(7) copies a std::vector shape in a noexcept constructor: a failed
allocation there ended the process instead of throwing std::bad_alloc.
---
 src/leg/sims_flanagan_hf.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/leg/sims_flanagan_hf.cpp b/src/leg/sims_flanagan_hf.cpp
index 28c9771..cd93996 100644
--- a/src/leg/sims_flanagan_hf.cpp
+++ b/src/leg/sims_flanagan_hf.cpp
@@ -633,6 +633,13 @@ sims_flanagan_hf::get_relevant_gradients(const std::vector<std::array<double, 49
                                          const std::vector<std::array<double, 7u>> &dxdtof_per_seg) const
 {
 
+    // NOTE: no xt::eye here, its noexcept constructor turns std::bad_alloc into std::terminate.
+    xt::xarray<double> identity = xt::zeros<double>({7u, 7u});
+    xt::xarray<double> minus_identity = xt::zeros<double>({7u, 7u});
+    for (auto i = 0u; i < 7u; ++i) {
+        identity(i, i) = 1.;
+        minus_identity(i, i) = -1.;
+    }
     auto xt_dxdx_per_seg = xt::adapt(reinterpret_cast<const double *>(dxdx_per_seg.data()), {m_nseg, 49u});
     // Mn_o will contain [Mnf-1, Mnf-1@Mnf-2, Mnf-2@Mnf-3, Mnf-1@M0, Mnf, Mnf@Mnf+1, Mnf@Mnf+2, Mnf@Mn]
     std::vector<xt::xarray<double>> Mn_o(m_nseg, xt::zeros<double>({7u, 7u}));
@@ -671,7 +678,7 @@ sims_flanagan_hf::get_relevant_gradients(const std::vector<std::array<double, 49
     if (m_nseg_fwd > 0) {
         xt::view(xgrad_rvm, xt::all(), xt::all()) = xt::view(Mn_o[m_nseg_fwd - 1], xt::all(), xt::all());
     } else {
-        xt::view(xgrad_rvm, xt::all(), xt::all()) = xt::eye(7);
+        xt::view(xgrad_rvm, xt::all(), xt::all()) = identity;
     }
 
     std::array<double, 49> grad_rvm_bck = {0};
@@ -680,7 +687,7 @@ sims_flanagan_hf::get_relevant_gradients(const std::vector<std::array<double, 49
         xt::view(xgrad_rvm_bck, xt::all(), xt::all())
             = xt::view(Mn_o[m_nseg - 1], xt::all(), xt::all()) * -1; // Multiple by -1 because mass correlation is -1.
     } else {
-        xt::view(xgrad_rvm_bck, xt::all(), xt::all()) = xt::eye(7) * -1;
+        xt::view(xgrad_rvm_bck, xt::all(), xt::all()) = minus_identity;
     }
 
     // Throttle derivatives
@@ -693,9 +700,9 @@ sims_flanagan_hf::get_relevant_gradients(const std::vector<std::array<double, 49
     for (decltype(m_nseg_fwd) i(0); i < m_nseg; ++i) {
         current_U = xt::reshape_view(xt::view(xt_dxdu_per_seg, i, xt::all()), {7, 3});
         if (i == m_nseg_fwd - 1) {
-            corresponding_M = xt::eye(7);
+            corresponding_M = identity;
         } else if (i == m_nseg_fwd) {
-            corresponding_M = xt::eye(7) * -1; // Multiple by -1 because mass correlation is -1.
+            corresponding_M = minus_identity; // Multiple by -1 because mass correlation is -1.
         } else if (i <= m_nseg_fwd - 2 && m_nseg_fwd >= 2) {
             corresponding_M = Mn_o[m_nseg_fwd - 2 - i];
         } else if (i > m_nseg_fwd) {
-- 
2.43.0


From b0a76314a0dbe34ef2be83ed09e04cdfc616f9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:41 +0000
Subject: [PATCH 09/10] fix: a failed load leaves keplerian and jpl_lp as they
 were

Loading assigned member after member, so a truncated archive, an I/O error or
std::bad_alloc left a mixture of old and new members: a planet with one body's
name and the other's orbit.
---
 include/kep3/udpla/jpl_lp.hpp    | 13 +++++++++++++
 include/kep3/udpla/keplerian.hpp | 12 ++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/include/kep3/udpla/jpl_lp.hpp b/include/kep3/udpla/jpl_lp.hpp
index d98df21..a3cebac 100644
--- a/include/kep3/udpla/jpl_lp.hpp
+++ b/include/kep3/udpla/jpl_lp.hpp
@@ -11,6 +11,7 @@
 #define kep3_UDPLA_JPL_LP_H
 
 #include <array>
+#include <utility>
 
 #include <fmt/ostream.h>
 
@@ -45,6 +46,18 @@ class kep3_DLL_PUBLIC jpl_lp
     friend class boost::serialization::access;
     template <typename Archive>
     void serialize(Archive &ar, unsigned)
+    {
+        if constexpr (Archive::is_loading::value) {
+            // A load that fails half way must not leave a mixture of old and new members behind.
+            jpl_lp tmp(*this);
+            tmp.serialize_members(ar);
+            *this = std::move(tmp);
+        } else {
+            serialize_members(ar);
+        }
+    }
+    template <typename Archive>
+    void serialize_members(Archive &ar)
     {
         ar & m_elements;
         ar & m_elements_dot;
diff --git a/include/kep3/udpla/keplerian.hpp b/include/kep3/udpla/keplerian.hpp
index daac3d9..1867579 100644
--- a/include/kep3/udpla/keplerian.hpp
+++ b/include/kep3/udpla/keplerian.hpp
@@ -40,6 +40,18 @@ class kep3_DLL_PUBLIC keplerian
     friend class boost::serialization::access;
     template <typename Archive>
     void serialize(Archive &ar, unsigned)
+    {
+        if constexpr (Archive::is_loading::value) {
+            // A load that fails half way must not leave a mixture of old and new members behind.
+            keplerian tmp(*this);
+            tmp.serialize_members(ar);
+            *this = std::move(tmp);
+        } else {
+            serialize_members(ar);
+        }
+    }
+    template <typename Archive>
+    void serialize_members(Archive &ar)
     {
         ar &m_ref_epoch;
         ar &m_name;
-- 
2.43.0


From c7e5307f84d70c304a669a9684f71e0e822004ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:15 +0000
Subject: [PATCH 10/10] fix: a vsop2013 stored twice in one archive is restored
 as two objects

---
 src/udpla/vsop2013.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/udpla/vsop2013.cpp b/src/udpla/vsop2013.cpp
index a6ac0de..fa111ad 100644
--- a/src/udpla/vsop2013.cpp
+++ b/src/udpla/vsop2013.cpp
@@ -22,6 +22,10 @@
 
 #include <boost/algorithm/string.hpp>
 #include <boost/container_hash/hash.hpp>
+#include <boost/mpl/int.hpp>
+#include <boost/mpl/integral_c_tag.hpp>
+#include <boost/serialization/tracking.hpp>
+#include <boost/serialization/tracking_enum.hpp>
 
 #include <fmt/core.h>
 
@@ -116,6 +120,20 @@ struct vsop2013::impl {
     BOOST_SERIALIZATION_SPLIT_MEMBER()
 };
 
+} // namespace kep3::udpla
+
+// NOTE: an impl is never shared: with object tracking a vsop2013 stored twice in an
+// archive would be restored as two objects owning the same impl.
+template <>
+struct boost::serialization::tracking_level<kep3::udpla::vsop2013::impl> {
+    using tag = boost::mpl::integral_c_tag;
+    using type = boost::mpl::int_<boost::serialization::track_never>;
+    static constexpr int value = type::value;
+};
+
+namespace kep3::udpla
+{
+
 vsop2013::vsop2013() : vsop2013("mercury") {}
 
 vsop2013::vsop2013(std::string pl_name, double thresh)
-- 
2.43.0

