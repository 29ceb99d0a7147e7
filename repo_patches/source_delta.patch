From cf91dca56aa89039c852d104d1041482d1ed53bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 01/32] fix: decrementing a quantity decrements and refuses to
 go negative

---
 esl/quantity.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/esl/quantity.hpp b/esl/quantity.hpp
index 6db2e96..b71e26f 100644
--- a/esl/quantity.hpp
+++ b/esl/quantity.hpp
@@ -322,7 +322,7 @@ namespace esl {
 
         quantity& operator -- ()
         {
-            ++amount;
+            (*this) -= quantity(1);
             return *this;
         }
 
@@ -333,7 +333,9 @@ namespace esl {
 
         [[nodiscard]] constexpr quantity operator -- (int)
         {
-            return quantity(amount--);
+            const quantity result_ = (*this);
+            amount = ((*this) - quantity(1)).amount;
+            return result_;
         }
 
 
-- 
2.43.0


From 24459b746dc18a74099e335012a5335da75ca5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 02/32] fix: comparing quotes with >= refuses different lot
 sizes like the other comparisons

---
 esl/economics/markets/quote.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esl/economics/markets/quote.hpp b/esl/economics/markets/quote.hpp
index b260df6..408244e 100644
--- a/esl/economics/markets/quote.hpp
+++ b/esl/economics/markets/quote.hpp
@@ -232,6 +232,8 @@ namespace esl::economics::markets {
         {
             assert_equal_type_(other);
 
+            assert_equal_lot_(other);
+
             return std::visit([&] (const auto& k) {
                 using variant_ = std::decay_t<decltype(k)>;
                 //return (lot * k) >= (std::get<variant_>(other.type) * other.lot );
-- 
2.43.0


From 04daf913d78dd8941c63d5f1e9c54ac7f4ce03aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 03/32] fix: converting a negative price at an exchange rate
 keeps its sign

---
 esl/economics/exchange_rate.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/esl/economics/exchange_rate.hpp b/esl/economics/exchange_rate.hpp
index 45fadca..6e6149d 100644
--- a/esl/economics/exchange_rate.hpp
+++ b/esl/economics/exchange_rate.hpp
@@ -141,7 +141,11 @@ namespace esl::economics {
         /// \return
         constexpr price operator * (const price &p) const
         {
-            return price(static_cast<int64_t>((p.value * numerator()) / denominator()), p.valuation);
+            // numerator and denominator are unsigned, so the sign is kept apart
+            const bool negative_ = p.value < 0;
+            const std::uint64_t magnitude_ = negative_ ? 0 - static_cast<std::uint64_t>(p.value) : static_cast<std::uint64_t>(p.value);
+            const auto converted_ = static_cast<std::int64_t>((magnitude_ * numerator()) / denominator());
+            return price(negative_ ? -converted_ : converted_, p.valuation);
         }
 
 
-- 
2.43.0


From 1525afa09af31b09d6d3b33e2a1320f0d283add9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 04/32] fix: valuing stock and lent securities at a negative
 market price keeps the sign

---
 esl/economics/accounting/standard.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esl/economics/accounting/standard.hpp b/esl/economics/accounting/standard.hpp
index 1acc00c..33f889c 100644
--- a/esl/economics/accounting/standard.hpp
+++ b/esl/economics/accounting/standard.hpp
@@ -99,7 +99,7 @@ namespace esl::economics::accounting {
                 throw std::logic_error("no market price");
             }
 
-            int64_t value_ = (std::get<price>(i->second.type).value * q.amount)
+            int64_t value_ = (std::get<price>(i->second.type).value * static_cast<int64_t>(q.amount))
                 / (i->second.lot);
 
             return price(value_, std::get<price>(i->second.type).valuation);
@@ -120,7 +120,7 @@ namespace esl::economics::accounting {
                 throw std::logic_error("no market price");
             }
             // TODO: use foreign_currencies if valuation is in different currency
-            int64_t value_ = (std::get<price>(i->second.type).value * c.size.amount * q.amount)
+            int64_t value_ = (std::get<price>(i->second.type).value * static_cast<int64_t>(c.size.amount * q.amount))
                              / (i->second.lot);
             result_.value -= value_;
             //LOG(trace) << "value of " << q << " short contracts = " << result_ << std::endl;
-- 
2.43.0


From 16ee501124dd578709d8be3b971f695549164030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 05/32] fix: the value of foreign money is denominated in the
 reporting currency

---
 esl/economics/accounting/standard.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/accounting/standard.hpp b/esl/economics/accounting/standard.hpp
index 33f889c..4631be6 100644
--- a/esl/economics/accounting/standard.hpp
+++ b/esl/economics/accounting/standard.hpp
@@ -83,7 +83,7 @@ namespace esl::economics::accounting {
                 LOG(errorlog) << message_.str() << std::endl;
                 throw std::domain_error(message_.str().c_str());
             }
-            return i->second * foreign_;
+            return price((i->second * foreign_).value, reporting_currency);
         }
 
         [[nodiscard]] price value(const esl::economics::cash &c, const quantity &q) const
-- 
2.43.0


From 533936378d6ee3007d460fd13e0fa53c9e2ab0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:24 +0000
Subject: [PATCH 06/32] fix: an ISIN built from eleven symbols keeps the nine
 symbols after the country code

---
 esl/economics/finance/isin.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/finance/isin.hpp b/esl/economics/finance/isin.hpp
index 003f584..413f8cb 100644
--- a/esl/economics/finance/isin.hpp
+++ b/esl/economics/finance/isin.hpp
@@ -71,7 +71,7 @@ namespace esl::economics::finance {
                   //: throw esl::exception("ISO 3166-1 alpha-2 country code needs to be two characters")
 
                 )
-        , code(esl::array_slice<0, 9>(code))
+        , code(esl::array_slice<2, 11>(code))
         {
 
         }
-- 
2.43.0


From 0d39a9f8cdb9340fdc0df7a0f2e0d457127dfa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:00 +0000
Subject: [PATCH 07/32] fix: store the number of threads, not the verbosity, as
 the threads parameter

---
 esl/simulation/parameter/parametrization.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/simulation/parameter/parametrization.hpp b/esl/simulation/parameter/parametrization.hpp
index 15658cc..c416354 100644
--- a/esl/simulation/parameter/parametrization.hpp
+++ b/esl/simulation/parameter/parametrization.hpp
@@ -61,7 +61,7 @@ namespace esl::simulation::parameter {
             values["start"]     = std::make_shared<constant<time_point>>(start);
             values["end"]       = std::make_shared<constant<time_point>>(end);
             values["verbosity"] = std::make_shared<constant<std::uint64_t>>(verbosity);
-            values["threads"]   = std::make_shared<constant<std::uint64_t>>(verbosity);
+            values["threads"]   = std::make_shared<constant<std::uint64_t>>(threads);
         }
 
         ///
-- 
2.43.0


From f86f3c956f582e28adadedd30cd4d1db576ac443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:24 +0000
Subject: [PATCH 08/32] fix: use a valid cast in environment::run, so that the
 environment compiles

---
 esl/computation/environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/computation/environment.cpp b/esl/computation/environment.cpp
index 1e3f381..6be27b1 100644
--- a/esl/computation/environment.cpp
+++ b/esl/computation/environment.cpp
@@ -233,7 +233,7 @@ namespace esl::computation {
                 std::cout << "\rrun " << step_.lower << "/" << step_.upper << " [";
                 auto progress_ = double(step_.upper - step_.lower) / (step_.upper - simulation_time_start);
                 for(auto i = 0; i < width_; ++i) {
-                    if(i < unsigned int((1.-progress_) * width_)) {
+                    if(i < static_cast<unsigned int>((1.-progress_) * width_)) {
                         std::cout << '|';
                     } else {
                         std::cout << ' ';
-- 
2.43.0


From 0404d44601b7841ff2fadce6bdffe83f33e0d91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:24 +0000
Subject: [PATCH 09/32] fix: a step does not go past the end of its interval

---
 esl/simulation/model.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/esl/simulation/model.cpp b/esl/simulation/model.cpp
index e3f7484..37f4688 100644
--- a/esl/simulation/model.cpp
+++ b/esl/simulation/model.cpp
@@ -109,7 +109,7 @@ namespace esl::simulation {
 
             // the next event is the first time one of the agents wants to act
             // in the future
-            first_event_   = determine_next_event();
+            first_event_   = std::min(step.upper, determine_next_event());
 
             auto job_ = [&](std::shared_ptr<agent> a){
                 //LOG(trace) << "act " << a->identifier << std::endl;
@@ -153,7 +153,7 @@ namespace esl::simulation {
                     //std::cout << a->identifier << " wakes up next at " << first_event_ << std::endl;
                     wake_up_times[a->identifier] = wake_up_;
 
-                    first_event_   = determine_next_event();
+                    first_event_   = std::min(step.upper, determine_next_event());
                 }
 
                 //} catch(const std::runtime_error &e) {
@@ -239,7 +239,7 @@ namespace esl::simulation {
 
             auto messages_sent_ = environment_.send_messages(*this);
             if(0 < messages_sent_){
-                first_event_   = determine_next_event();
+                first_event_   = std::min(step.upper, determine_next_event());
             }
 
             messages_sent += messages_sent_;
-- 
2.43.0


From 9ed78a79fa9d7c9aab646d8269cec69bbba0ce14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:24 +0000
Subject: [PATCH 10/32] fix: agents whose wake-up time has passed are due,
 instead of stalling the step forever

---
 esl/simulation/model.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/esl/simulation/model.cpp b/esl/simulation/model.cpp
index 37f4688..1b05f1a 100644
--- a/esl/simulation/model.cpp
+++ b/esl/simulation/model.cpp
@@ -198,10 +198,10 @@ namespace esl::simulation {
                     auto [ww, _] = wake_up_times.emplace(i, step.lower);
                     w=ww;
                 }
-                // this comparison is strict equality, because an agent
-                // returning a time_point before the current time form act() is
-                // a logical error
-                if(w->second == step.lower){
+                // an agent returning a time_point before the current time from
+                // act() is a logical error, but a message delivered with an
+                // earlier time_point makes the recipient due immediately
+                if(w->second <= step.lower){
                     //std::cout << "active " << i << a->describe() << std::endl;
                     acting_agents_.push_back(a);
                 }
-- 
2.43.0


From 20004e9c7401f3e07e09dd97706add0e704ec743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:10 +0000
Subject: [PATCH 11/32] fix: an error in an agent running on a worker thread is
 raised from step instead of ending the process

---
 esl/simulation/model.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/esl/simulation/model.cpp b/esl/simulation/model.cpp
index 1b05f1a..b842838 100644
--- a/esl/simulation/model.cpp
+++ b/esl/simulation/model.cpp
@@ -26,6 +26,7 @@
 
 #include <chrono>
 using std::chrono::high_resolution_clock;
+#include <exception>
 #include <numeric>
 
 #include <esl/agent.hpp>
@@ -216,6 +217,7 @@ namespace esl::simulation {
                 }
             }else{
                 std::vector<std::thread> threads_;
+                std::exception_ptr error_;
                 auto iterator_ = acting_agents_.begin();
                 for(const auto& tasks_: quantity(acting_agents_.size()) / threads){
                     std::vector<std::shared_ptr<agent>> task_split_;
@@ -226,8 +228,14 @@ namespace esl::simulation {
 
                     threads_.emplace_back([&](std::vector<std::shared_ptr<agent>> ts)
                         {
-                            for(const auto& a: ts){
-                                job_(a);
+                            try {
+                                for(const auto& a: ts){
+                                    job_(a);
+                                }
+                            } catch(...) {
+                                // pass the error on to the caller of step()
+                                std::unique_lock lock_(mutex_first_event_);
+                                error_ = std::current_exception();
                             }
                         }, task_split_);
                 }
@@ -235,6 +243,10 @@ namespace esl::simulation {
                 for(auto &t: threads_){
                     t.join();
                 }
+
+                if(error_){
+                    std::rethrow_exception(error_);
+                }
             }
 
             auto messages_sent_ = environment_.send_messages(*this);
-- 
2.43.0


From 65270e4f659182e47eff19c5e61292f5f165a394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:38 +0000
Subject: [PATCH 12/32] fix: looking up an unknown agent does not register an
 empty agent

---
 esl/simulation/agent_collection.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/esl/simulation/agent_collection.cpp b/esl/simulation/agent_collection.cpp
index a3b0085..12d1295 100644
--- a/esl/simulation/agent_collection.cpp
+++ b/esl/simulation/agent_collection.cpp
@@ -54,6 +54,10 @@ namespace esl::simulation {
     std::shared_ptr<agent>
         agent_collection::operator[](const identity<agent> &a)
     {
-        return local_agents_[a];
+        auto iterator_ = local_agents_.find(a);
+        if(local_agents_.end() == iterator_){
+            return nullptr;
+        }
+        return iterator_->second;
     }
 }
-- 
2.43.0


From fb6f097c575c9a6db1eb2663e73007c2c7b53c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:38 +0000
Subject: [PATCH 13/32] fix: each activation and deactivation is processed
 once, without growing the queue being traversed

---
 esl/computation/environment.cpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/esl/computation/environment.cpp b/esl/computation/environment.cpp
index 6be27b1..72cf6ac 100644
--- a/esl/computation/environment.cpp
+++ b/esl/computation/environment.cpp
@@ -59,11 +59,7 @@ namespace esl::computation {
     ///
     size_t environment::activate()
     {
-        size_t result_ = 0;
-        for(const auto &a: activated_) {
-            activate_agent(a);
-            ++result_;
-        }
+        size_t result_ = activated_.size();
         activated_.clear();
         return result_;
     }
@@ -73,11 +69,8 @@ namespace esl::computation {
     ///
     size_t environment::deactivate()
     {
-        size_t result_ = 0;
-        for(const auto &a: deactivated_) {
-            deactivate_agent(a);
-            ++result_;
-        }
+        size_t result_ = deactivated_.size();
+        deactivated_.clear();
         return result_;
     }
 
-- 
2.43.0


From 0f35cc62acd65c301bf837caa2c5b85b370ccf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:38 +0000
Subject: [PATCH 14/32] fix: the wake-up time of an agent that has left does
 not stall the step

---
 esl/simulation/model.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/esl/simulation/model.cpp b/esl/simulation/model.cpp
index b842838..c338b6f 100644
--- a/esl/simulation/model.cpp
+++ b/esl/simulation/model.cpp
@@ -108,6 +108,16 @@ namespace esl::simulation {
                 //LOG(notice) << "time " << step << " round " << round_  << std::endl;
             }
 
+            // agents that have been deactivated no longer determine the next
+            // event
+            for(auto w = wake_up_times.begin(); w != wake_up_times.end();){
+                if(agents.local_agents_.end() == agents.local_agents_.find(w->first)){
+                    w = wake_up_times.erase(w);
+                }else{
+                    ++w;
+                }
+            }
+
             // the next event is the first time one of the agents wants to act
             // in the future
             first_event_   = std::min(step.upper, determine_next_event());
-- 
2.43.0


From 846bf6cb7aeb01de529f9a8ba8b0638f75fcc2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:34 +0000
Subject: [PATCH 15/32] fix: a cancelled order is no longer listed as active

---
 esl/economics/markets/order_book/binary_tree_order_book.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esl/economics/markets/order_book/binary_tree_order_book.hpp b/esl/economics/markets/order_book/binary_tree_order_book.hpp
index b85441a..38c2046 100644
--- a/esl/economics/markets/order_book/binary_tree_order_book.hpp
+++ b/esl/economics/markets/order_book/binary_tree_order_book.hpp
@@ -291,6 +291,8 @@ namespace esl::economics::markets::order_book {
                         }
                     }
                 }
+
+                limit_orders_.erase(o);
             }
         }
 
-- 
2.43.0


From 78f3384e11ae1984707b232b123dc3b89fa338c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:36 +0000
Subject: [PATCH 16/32] fix: the block pool keeps the index of each element and
 erases an element only once

---
 esl/computation/block_pool.hpp | 36 +++++++---------------------------
 1 file changed, 7 insertions(+), 29 deletions(-)

diff --git a/esl/computation/block_pool.hpp b/esl/computation/block_pool.hpp
index f792404..e7e1d88 100644
--- a/esl/computation/block_pool.hpp
+++ b/esl/computation/block_pool.hpp
@@ -40,13 +40,11 @@ namespace esl::computation::block_pool {
     template<typename element_t_>
     struct block
     {
-#if DEBUG
         ///
         /// \brief  Used to track overwriting/deleting non-existing items
-        ///         in debug mode
         ///
-        bool set;
-#endif
+        bool set = false;
+
         ///
         /// \brief  The contained value
         ///
@@ -211,14 +209,9 @@ namespace esl::computation::block_pool {
             if(size_ >= capacity()) {
                 throw std::length_error("block_pool container at capacity");
             }
-#if DEBUG
-            if(end->set) {
-                throw std::logic_error("trying to insert on existing element");
-            }
-            end->set = true;
-#endif
             auto i        = end_;
             i->data       = e;
+            i->set        = true;
             // the offset is the number of positions since the start of the pool
             size_t offset_ = i - blocks.data();
 
@@ -245,6 +238,7 @@ namespace esl::computation::block_pool {
                 
             }
             highest_ = std::max(highest_, assigned_ + 1);
+            i->index = assigned_;
 
             return {assigned_, i};
         }
@@ -254,24 +248,16 @@ namespace esl::computation::block_pool {
         ///
         /// \param i
         /// \return 0 if no element was deleted (because the index was invalid/not in use), or 1 if the element with the index was located and removed.
-        size_type erase(index i)
-#if !DEBUG
-            noexcept
-#endif
+        size_type erase(index i) noexcept
         {
             block<element_t_> *removed_ = &blocks[i % capacity()];
             
-            if(removed_->index != i) {
+            if(!removed_->set || removed_->index != i) {
                 return 0;
                 //throw esl::exception("trying to delete stale order");
             }
+            removed_->set = false;
 
-#if DEBUG
-            if(!removed->set) {
-                throw std::exception("trying to erase non-existing element");
-            }
-            removed->set = false;
-#endif
             // we removed one element, so if this was the first in the list,
             // we need to move the begin pointer
             if(removed_ == begin_){
@@ -283,14 +269,6 @@ namespace esl::computation::block_pool {
             removed_->next = end_;
             end_           = removed_;
 
-            if(size_ == 0){
-#if DEBUG
-                throw std::exception("trying to erase non-existing element");
-#else
-                return 0;
-#endif
-            }
-
             --size_;
             return 1;
         }
-- 
2.43.0


From 2b596cab03c416a9ab5d7fa6ad73e2b91853fe7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:36 +0000
Subject: [PATCH 17/32] fix: read-only and checked access to the block pool
 compile and return

---
 esl/computation/block_pool.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/esl/computation/block_pool.hpp b/esl/computation/block_pool.hpp
index e7e1d88..2b60ceb 100644
--- a/esl/computation/block_pool.hpp
+++ b/esl/computation/block_pool.hpp
@@ -287,24 +287,25 @@ namespace esl::computation::block_pool {
         /// 
         constexpr const_reference operator [] (index i) const
         {
-            return this->operator[](i);
+            return blocks[i % capacity()].data;
         }
 
         constexpr reference at(index i)
         {
-            assert(blocks[i % capacity()].index == i);
-            block<element_t_> *element_ = blocks[i % capacity()];
-#if DEBUG
-            if(!element_->set) {
-                throw std::exception("trying to access non-existing element");
+            auto &element_ = blocks[i % capacity()];
+            if(!element_.set || element_.index != i) {
+                throw std::out_of_range("trying to access non-existing element");
             }
-#endif
-            return *element_;
+            return element_.data;
         }
 
         constexpr const_reference at(index i) const
         {
-            return at(i);
+            auto &element_ = blocks[i % capacity()];
+            if(!element_.set || element_.index != i) {
+                throw std::out_of_range("trying to access non-existing element");
+            }
+            return element_.data;
         }
     };
 }
-- 
2.43.0


From 7ef74e328d40dbfd1a0dd4fff6b1a9dd1259756c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:45 +0000
Subject: [PATCH 18/32] fix: removing nothing of an item that is not held does
 not read past the inventory

---
 esl/economics/accounting/inventory.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/esl/economics/accounting/inventory.hpp b/esl/economics/accounting/inventory.hpp
index c14331e..609fdb1 100644
--- a/esl/economics/accounting/inventory.hpp
+++ b/esl/economics/accounting/inventory.hpp
@@ -205,7 +205,10 @@ namespace esl::economics::accounting {
         {
             auto iterator_ = items.find(item);
 
-            if(items.end() == iterator_ && q.amount > 0) {
+            if(items.end() == iterator_) {
+                if(q.amount == 0) {
+                    return;
+                }
                 throw insufficent_inventory(quantity(0), q, item->identifier, boost::core::demangle(typeid(property_t_).name()));
             }
 
-- 
2.43.0


From cc502eed8b2aa10894eb55ceb970001f97ab329d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:45 +0000
Subject: [PATCH 19/32] fix: an owner taking more of a property it already has
 adds to its inventory

---
 esl/economics/owner.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/esl/economics/owner.hpp b/esl/economics/owner.hpp
index 1307ace..4f7370a 100644
--- a/esl/economics/owner.hpp
+++ b/esl/economics/owner.hpp
@@ -252,8 +252,12 @@ namespace esl::law {
         void take(std::shared_ptr<property_t_> property, quantity amount)
         {
             this->properties.insert(property, amount);
-            esl::law::owner<esl::law::property>::inventory.insert(
-                std::make_pair(property, amount));
+            auto [iterator_, inserted_] =
+                esl::law::owner<esl::law::property>::inventory.insert(
+                    std::make_pair(property, amount));
+            if(!inserted_) {
+                iterator_->second += amount;
+            }
         }
 
 
-- 
2.43.0


From 7c1ef5ce60f2441673dab11abcf1afa0568b15e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:45 +0000
Subject: [PATCH 20/32] fix: a transfer of an owner to itself does not remove
 the property from its holdings

---
 esl/economics/owner.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/esl/economics/owner.hpp b/esl/economics/owner.hpp
index 4f7370a..555d8f5 100644
--- a/esl/economics/owner.hpp
+++ b/esl/economics/owner.hpp
@@ -195,6 +195,10 @@ namespace esl::law {
                                             simulation::time_interval ti,
                                             std::seed_seq &seed) {
                 (void)seed;
+                if(msg->transferor == msg->transferee){
+                    return ti.upper;
+                }
+
                 if((*this).identifier == msg->transferor) {
                     // this process is duplicated several times for every
                     // inherited owner<p>, as we are reliant on dynamic type
-- 
2.43.0


From f60c18e10a6e4f9d53163053fdccecaa19938957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 21/32] fix: share classes of the same rank with different
 features are kept apart

---
 esl/economics/finance/share_class.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/esl/economics/finance/share_class.hpp b/esl/economics/finance/share_class.hpp
index 797e904..4e96572 100644
--- a/esl/economics/finance/share_class.hpp
+++ b/esl/economics/finance/share_class.hpp
@@ -27,6 +27,8 @@
 
 #include <boost/functional/hash.hpp>
 
+#include <tuple>
+
 #include <boost/serialization/serialization.hpp>
 #include <boost/serialization/nvp.hpp>
 
@@ -109,7 +111,8 @@ namespace esl::economics::finance {
 
         constexpr bool operator < (const share_class &s) const
         {
-            return rank < s.rank;
+            return std::tie(rank, votes, preference, dividend, cumulative, redeemable)
+                 < std::tie(s.rank, s.votes, s.preference, s.dividend, s.cumulative, s.redeemable);
         }
 
         template<class archive_t>
-- 
2.43.0


From a324798f306dae8cb9381527f0d5339714c4c524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 22/32] fix: the dividend per share is not multiplied by the
 number of shares

---
 esl/economics/company.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/company.cpp b/esl/economics/company.cpp
index 6206c0f..90e0b73 100644
--- a/esl/economics/company.cpp
+++ b/esl/economics/company.cpp
@@ -72,7 +72,7 @@ namespace esl::economics {
         for(const auto &[s, q]: shares_outstanding) {
             if(s.dividend) {
                 result_.insert(make_pair(
-                    s, std::make_tuple(q,cash(primary_jurisdiction.tender).price(fraction_ * q))));
+                    s, std::make_tuple(q,cash(primary_jurisdiction.tender).price(fraction_))));
             }
         }
 
-- 
2.43.0


From 4b71ea7bd00d5784b6f09963012ef3fb50d1a25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 23/32] fix: a company without shares does not divide its
 profit by zero

---
 esl/economics/company.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/esl/economics/company.cpp b/esl/economics/company.cpp
index 90e0b73..9accdfd 100644
--- a/esl/economics/company.cpp
+++ b/esl/economics/company.cpp
@@ -65,6 +65,10 @@ namespace esl::economics {
             return {};
         }
 
+        if(0 == total_shares()) {
+            return {};
+        }
+
         std::map<finance::share_class, std::tuple<std::uint64_t, price>> result_;
 
         double fraction_ = double(unappropriated_profit) / total_shares();
-- 
2.43.0


From 39e49ee542105b1abefcc2600190fb5125eaf2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:36 +0000
Subject: [PATCH 24/32] fix: a saved rational keeps numerators and denominators
 wider than int

---
 esl/mathematics/rational.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esl/mathematics/rational.hpp b/esl/mathematics/rational.hpp
index b25fa48..10358e7 100644
--- a/esl/mathematics/rational.hpp
+++ b/esl/mathematics/rational.hpp
@@ -42,7 +42,7 @@ namespace boost::serialization {
               unsigned version)
     {
         (void)version;
-        int n = r.numerator(), d = r.denominator();
+        T n = r.numerator(), d = r.denominator();
         archive &boost::serialization::make_nvp("numerator", n);
         archive &boost::serialization::make_nvp("denominator", d);
     }
@@ -51,7 +51,7 @@ namespace boost::serialization {
     void load(archive_t &archive, boost::rational<T> &r, unsigned version)
     {
         (void)version;
-        int n, d;
+        T n, d;
         archive &boost::serialization::make_nvp("numerator", n);
         archive &boost::serialization::make_nvp("denominator", d);
         r = boost::rational<T>(n, d);
-- 
2.43.0


From 776b989515a74cc99789b4ad0d7014d5bc1064ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:36 +0000
Subject: [PATCH 25/32] fix: serialising an exchange rate compiles

---
 esl/economics/exchange_rate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/exchange_rate.hpp b/esl/economics/exchange_rate.hpp
index 6e6149d..5b83b51 100644
--- a/esl/economics/exchange_rate.hpp
+++ b/esl/economics/exchange_rate.hpp
@@ -160,7 +160,7 @@ namespace esl::economics {
             (void)version;
             archive &boost::serialization::make_nvp(
                 "rate_std::uint64_t_",
-                boost::serialization::base_object<rate<>>(*this));
+                boost::serialization::base_object<rate<std::uint64_t>>(*this));
         }
     };
 }
-- 
2.43.0


From 41e593cd9b208a094c56d3a3dbc434516ac110e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:36 +0000
Subject: [PATCH 26/32] fix: loading a price restores it

---
 esl/economics/price.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/esl/economics/price.hpp b/esl/economics/price.hpp
index f254242..e1a00a6 100644
--- a/esl/economics/price.hpp
+++ b/esl/economics/price.hpp
@@ -343,6 +343,13 @@ namespace esl::economics {
             std::string res_ = stream_.str();
 
             archive & boost::serialization::make_nvp("price", res_);
+
+            if constexpr(archive_t::is_loading::value) {
+                std::stringstream saved_(res_);
+                char separator_;
+                saved_ >> valuation.code[0] >> valuation.code[1] >> valuation.code[2];
+                saved_ >> value >> separator_ >> valuation.denominator;
+            }
         }
     };
 }
-- 
2.43.0


From 9d1a3d96a84069d164a2e7d94c40210817885b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:36 +0000
Subject: [PATCH 27/32] fix: loading a quote restores its price

---
 esl/economics/markets/quote.hpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/esl/economics/markets/quote.hpp b/esl/economics/markets/quote.hpp
index 408244e..72ae330 100644
--- a/esl/economics/markets/quote.hpp
+++ b/esl/economics/markets/quote.hpp
@@ -380,10 +380,6 @@ namespace esl::economics::markets {
             size_t index_ = 0;
             archive >> BOOST_SERIALIZATION_NVP(index_);
             if(0 == index_) {
-                //exchange_rate re;
-                //archive >> boost::serialization::make_nvp("exchange_rate", re);
-                //type.emplace<0>(re);
-            } else if(1 == index_) {
                 price p;
                 archive >> boost::serialization::make_nvp("price", p);
                 type.emplace<price>(p);
-- 
2.43.0


From 31d4fb8073deaff311a431f1ff818ef81ace6f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:36 +0000
Subject: [PATCH 28/32] fix: a serialised message keeps its header

---
 esl/economics/finance/dividend.hpp | 4 ++--
 esl/interaction/message.hpp        | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/esl/economics/finance/dividend.hpp b/esl/economics/finance/dividend.hpp
index e1df7e0..f6145a7 100644
--- a/esl/economics/finance/dividend.hpp
+++ b/esl/economics/finance/dividend.hpp
@@ -123,7 +123,7 @@ namespace esl::economics::finance {
         void serialize(archive_t &archive, const unsigned int version)
         {
             (void)version;
-            boost::serialization::make_nvp(
+            archive &boost::serialization::make_nvp(
                 "message",
                 boost::serialization::base_object<
                     message<dividend_announcement_message,
@@ -172,7 +172,7 @@ namespace esl::economics::finance {
         void serialize(archive_t &archive, const unsigned int version)
         {
             (void)version;
-            boost::serialization::make_nvp(
+            archive &boost::serialization::make_nvp(
                 "message",
                 boost::serialization::base_object<
                     message<dividend_record,
diff --git a/esl/interaction/message.hpp b/esl/interaction/message.hpp
index f7580cd..a32be53 100644
--- a/esl/interaction/message.hpp
+++ b/esl/interaction/message.hpp
@@ -73,7 +73,7 @@ namespace esl::interaction {
         {
             (void)version;
 
-            BOOST_SERIALIZATION_BASE_OBJECT_NVP(header);
+            archive &BOOST_SERIALIZATION_BASE_OBJECT_NVP(header);
 
             archive &boost::serialization::make_nvp(
                 "type_code_t⟨type_code_⟩",
-- 
2.43.0


From 44e029f7bfa13867062f715fb170397e18b3869a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:12 +0000
Subject: [PATCH 29/32] fix: the timings of an agent are serialised

---
 esl/computation/timing.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esl/computation/timing.hpp b/esl/computation/timing.hpp
index 2264ac5..8e1e01a 100644
--- a/esl/computation/timing.hpp
+++ b/esl/computation/timing.hpp
@@ -56,12 +56,12 @@ namespace esl::computation {
         {
             (void)version;
 
-            boost::serialization::make_nvp(
+            archive &boost::serialization::make_nvp(
                 "messaging",
                 boost::serialization::make_binary_object(&messaging,
                                                          sizeof(messaging)));
 
-            boost::serialization::make_nvp(
+            archive &boost::serialization::make_nvp(
                 "acting",
                 boost::serialization::make_binary_object(&acting,
                                                          sizeof(acting)));
-- 
2.43.0


From dfc0f279f6fef2ca3429592bf70c0db838888a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:54 +0000
Subject: [PATCH 30/32] fix: serialising an order or quote message compiles

---
 esl/economics/markets/order_message.hpp | 2 +-
 esl/economics/markets/quote_message.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/esl/economics/markets/order_message.hpp b/esl/economics/markets/order_message.hpp
index 9760e82..69bdfac 100644
--- a/esl/economics/markets/order_message.hpp
+++ b/esl/economics/markets/order_message.hpp
@@ -69,7 +69,7 @@ struct order_message
     void serialize(archive_t &archive, const unsigned int version)
     {
         (void)version;
-        archive &make_nvp(
+        archive &boost::serialization::make_nvp(
             "interaction〈message_type_,type_code_〉",
             boost::serialization::base_object<
             interaction::message<message_type_, type_code_>>(
diff --git a/esl/economics/markets/quote_message.hpp b/esl/economics/markets/quote_message.hpp
index 414a14e..926ea50 100644
--- a/esl/economics/markets/quote_message.hpp
+++ b/esl/economics/markets/quote_message.hpp
@@ -75,7 +75,7 @@ namespace esl::economics::markets {
         void serialize(archive_t &archive, const unsigned int version)
         {
             (void)version;
-            archive &make_nvp(
+            archive &boost::serialization::make_nvp(
                 "interaction〈message_type_,type_code_〉",
                 boost::serialization::base_object<
                     interaction::message<message_type_, type_code_>>(*this));
-- 
2.43.0


From f4c4b5131b6163733de55dc483aaad26989d21aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:04 +0000
Subject: [PATCH 31/32] fix: a company with an announced dividend wakes up at
 its payment date

---
 esl/economics/company.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/company.cpp b/esl/economics/company.cpp
index 9accdfd..46c3459 100644
--- a/esl/economics/company.cpp
+++ b/esl/economics/company.cpp
@@ -181,7 +181,7 @@ namespace esl::economics {
             }
         } else {
             next_event_ = std::min<simulation::time_point>(
-                policy_.announcement_date, next_event_);
+                policy_.payable_date, next_event_);
         }
         return next_event_;
     }
-- 
2.43.0


From e11f173c963f159558c5305f72aca872bae785bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:47 +0000
Subject: [PATCH 32/32] fix: stepping a model updates its time

---
 esl/simulation/model.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/esl/simulation/model.cpp b/esl/simulation/model.cpp
index c338b6f..64911c5 100644
--- a/esl/simulation/model.cpp
+++ b/esl/simulation/model.cpp
@@ -273,6 +273,7 @@ namespace esl::simulation {
         environment_.after_step(*this);
         auto total_ = high_resolution_clock::now() - timer_start_;
         //LOG(notice) << "step " << step << " took " << (double(total_.count()) / 1e+9) <<  " seconds" << std::endl;
+        time = first_event_;
         return first_event_;
     }
 
-- 
2.43.0

