From 13c1b3d81f048d8c4a2381e7973603bc0f56bc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:39 +0000
Subject: [PATCH 01/29] fix: Projection keeps a stale synapse index after
 remove_postsynaptic_neuron_synapses

---
 knp/core-library/impl/projection.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/knp/core-library/impl/projection.cpp b/knp/core-library/impl/projection.cpp
index 924afe7..a989754 100644
--- a/knp/core-library/impl/projection.cpp
+++ b/knp/core-library/impl/projection.cpp
@@ -235,16 +235,11 @@ template <typename SynapseType>
 size_t knp::core::Projection<SynapseType>::remove_postsynaptic_neuron_synapses(size_t neuron_index)  //!OCLINT
 {
     const size_t starting_size = parameters_.size();
-    bool was_index_updated = is_index_updated_;
-    // Basic exception safety.
-    is_index_updated_ = false;
     auto synapses_to_remove = find_synapses(neuron_index, Search::by_postsynaptic);
+    // Positions of the remaining synapses change, so the index must be rebuilt before the next search.
+    is_index_updated_ = false;
     std::sort(synapses_to_remove.begin(), synapses_to_remove.end());
     remove_by_index(parameters_, synapses_to_remove);
-    if (was_index_updated)
-        for (auto &synapse : synapses_to_remove) index_.erase(synapse);
-
-    is_index_updated_ = was_index_updated;
     return starting_size - parameters_.size();
 }
 
-- 
2.43.0


From 4f06b45cf74fd550c45277afbbb281b238c89c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:41 +0000
Subject: [PATCH 02/29] fix: MessageEndpoint::remove_receiver uses an iterator
 after erasing it

---
 knp/core-library/impl/message_endpoint.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/knp/core-library/impl/message_endpoint.cpp b/knp/core-library/impl/message_endpoint.cpp
index cf29d86..c546778 100644
--- a/knp/core-library/impl/message_endpoint.cpp
+++ b/knp/core-library/impl/message_endpoint.cpp
@@ -129,11 +129,15 @@ void MessageEndpoint::remove_receiver(const UID &receiver)
 {
     SPDLOG_DEBUG("Removing receiver {}...", std::string(receiver));
 
-    for (auto sub_iter = subscriptions_.begin(); sub_iter != subscriptions_.end(); ++sub_iter)
+    for (auto sub_iter = subscriptions_.begin(); sub_iter != subscriptions_.end();)
     {
         if (get_receiver_uid(sub_iter->second) == receiver)
         {
-            subscriptions_.erase(sub_iter);
+            sub_iter = subscriptions_.erase(sub_iter);
+        }
+        else
+        {
+            ++sub_iter;
         }
     }
     update_senders();
-- 
2.43.0


From 5f271acfd247fe1f448661875ce111ff8c0498eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:41 +0000
Subject: [PATCH 03/29] fix: MessageEndpoint keeps routing messages of removed
 subscriptions

---
 knp/core-library/impl/message_endpoint.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/knp/core-library/impl/message_endpoint.cpp b/knp/core-library/impl/message_endpoint.cpp
index c546778..cc6fd76 100644
--- a/knp/core-library/impl/message_endpoint.cpp
+++ b/knp/core-library/impl/message_endpoint.cpp
@@ -118,9 +118,9 @@ bool MessageEndpoint::unsubscribe(const UID &receiver)
     if (iter != subscriptions_.end())
     {
         subscriptions_.erase(iter);
+        update_senders();
         return true;
     }
-    update_senders();
     return false;
 }
 
@@ -256,6 +256,7 @@ void MessageEndpoint::update_senders()
         auto sub_senders = std::visit([](auto &sub_var) { return sub_var.get_senders(); }, sub.second);
         new_senders.insert(sub_senders.begin(), sub_senders.end());
     }
+    *senders_ = std::move(new_senders);
 }
 
 
-- 
2.43.0


From 82900fdf6517f437e4e5557039c9a094f5e0bf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:50 +0000
Subject: [PATCH 04/29] fix: CPU message bus and its endpoints guard the shared
 message containers with different mutexes

---
 .../message_bus_cpu_impl/message_bus_cpu_impl.cpp    |  9 +++++----
 .../impl/message_bus_cpu_impl/message_bus_cpu_impl.h |  3 ++-
 .../message_bus_cpu_impl/message_endpoint_cpu_impl.h | 12 +++++++-----
 3 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp b/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp
index 8c1fe76..7e73002 100644
--- a/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp
+++ b/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp
@@ -40,7 +40,7 @@ public:
 
 void MessageBusCPUImpl::update()
 {
-    std::lock_guard lock(mutex_);
+    std::lock_guard lock(*mutex_);
     // This function is called before routing messages.
     auto iter = endpoint_data_.begin();
     while (iter != endpoint_data_.end())
@@ -65,7 +65,7 @@ void MessageBusCPUImpl::update()
 
 size_t MessageBusCPUImpl::step()
 {
-    const std::lock_guard lock(mutex_);
+    const std::lock_guard lock(*mutex_);
     if (messages_to_route_.empty()) return 0;  // No more messages left for endpoints to receive.
     // Sending a message to every endpoint.
     auto message = std::move(messages_to_route_.back());
@@ -90,14 +90,15 @@ size_t MessageBusCPUImpl::step()
 
 core::MessageEndpoint MessageBusCPUImpl::create_endpoint()
 {
-    const std::lock_guard lock(mutex_);
+    const std::lock_guard lock(*mutex_);
 
     using VT = std::vector<messaging::MessageVariant>;
 
     auto messages_to_send_v{std::make_shared<VT>()};
     auto recv_messages_v{std::make_shared<VT>()};
 
-    auto endpoint = MessageEndpointCPU(std::make_shared<MessageEndpointCPUImpl>(messages_to_send_v, recv_messages_v));
+    auto endpoint = MessageEndpointCPU(
+        std::make_shared<MessageEndpointCPUImpl>(messages_to_send_v, recv_messages_v, mutex_));
     endpoint_data_.emplace_back(messages_to_send_v, recv_messages_v, endpoint.get_senders_ptr());
     return std::move(endpoint);
 }
diff --git a/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.h b/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.h
index 9bd0299..0d4ea3f 100644
--- a/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.h
+++ b/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.h
@@ -63,6 +63,7 @@ private:
         std::weak_ptr<std::vector<messaging::MessageVariant>>, std::weak_ptr<std::vector<messaging::MessageVariant>>,
         std::weak_ptr<std::unordered_set<knp::core::UID, knp::core::uid_hash>>>>
         endpoint_data_;
-    std::mutex mutex_;
+    // Message containers are shared with endpoints, so endpoints lock the same mutex.
+    std::shared_ptr<std::mutex> mutex_ = std::make_shared<std::mutex>();
 };
 }  // namespace knp::core::messaging::impl
diff --git a/knp/core-library/impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h b/knp/core-library/impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h
index 8ac94ea..a448837 100644
--- a/knp/core-library/impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h
+++ b/knp/core-library/impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h
@@ -45,15 +45,17 @@ class MessageEndpointCPUImpl : public MessageEndpointImpl
 public:
     MessageEndpointCPUImpl(
         std::shared_ptr<std::vector<messaging::MessageVariant>> messages_to_send,
-        std::shared_ptr<std::vector<messaging::MessageVariant>> received_messages)
-        : messages_to_send_(std::move(messages_to_send)), received_messages_(std::move(received_messages))
+        std::shared_ptr<std::vector<messaging::MessageVariant>> received_messages, std::shared_ptr<std::mutex> mutex)
+        : messages_to_send_(std::move(messages_to_send)),
+          received_messages_(std::move(received_messages)),
+          mutex_(std::move(mutex))
     {
         SPDLOG_DEBUG("CPU message endpoint creating...");
     }
 
     void send_message(const knp::core::messaging::MessageVariant &message) override
     {
-        const std::lock_guard lock(mutex_);
+        const std::lock_guard lock(*mutex_);
 
         messages_to_send_->push_back(message);
         SPDLOG_TRACE("Message with type index = {} was sent", message.index());
@@ -63,7 +65,7 @@ public:
 
     std::optional<knp::core::messaging::MessageVariant> receive_message() override
     {
-        const std::lock_guard lock(mutex_);
+        const std::lock_guard lock(*mutex_);
 
         if (received_messages_->empty())
         {
@@ -79,7 +81,7 @@ private:
     std::shared_ptr<std::vector<messaging::MessageVariant>> messages_to_send_;
     std::shared_ptr<std::vector<messaging::MessageVariant>> received_messages_;
     std::unordered_set<knp::core::UID, knp::core::uid_hash> senders_;
-    std::mutex mutex_;
+    std::shared_ptr<std::mutex> mutex_;
 };
 
 }  // namespace knp::core::messaging::impl
-- 
2.43.0


From 717f677624abaaf0dfec26d288420081990c7a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:52 +0000
Subject: [PATCH 05/29] fix: reading an empty message from a stream keeps the
 old contents of the message

---
 knp/core-library/impl/messaging/spike_message.cpp           | 2 --
 knp/core-library/impl/messaging/synaptic_impact_message.cpp | 1 -
 2 files changed, 3 deletions(-)

diff --git a/knp/core-library/impl/messaging/spike_message.cpp b/knp/core-library/impl/messaging/spike_message.cpp
index f6e9244..f090a9a 100644
--- a/knp/core-library/impl/messaging/spike_message.cpp
+++ b/knp/core-library/impl/messaging/spike_message.cpp
@@ -58,8 +58,6 @@ std::istream &operator>>(std::istream &stream, SpikeMessage &msg)
     size_t neurons_count = 0;
     stream >> msg.header_.sender_uid_ >> msg.header_.send_time_ >> neurons_count;
 
-    if (0 == neurons_count) return stream;
-
     msg.neuron_indexes_.resize(neurons_count);
     for (size_t i = 0; i < neurons_count; ++i)
     {
diff --git a/knp/core-library/impl/messaging/synaptic_impact_message.cpp b/knp/core-library/impl/messaging/synaptic_impact_message.cpp
index 96e9f1f..70cd353 100644
--- a/knp/core-library/impl/messaging/synaptic_impact_message.cpp
+++ b/knp/core-library/impl/messaging/synaptic_impact_message.cpp
@@ -82,7 +82,6 @@ std::istream &operator>>(std::istream &stream, SynapticImpactMessage &msg)
         impacts_count;
 
     msg.is_forcing_ = forcing_buf;
-    if (0 == impacts_count) return stream;
 
     msg.impacts_.resize(impacts_count);
     for (size_t i = 0; i < impacts_count; ++i)
-- 
2.43.0


From 8979df6dba6e8bc175420322e8c57895bb1a61dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:52 +0000
Subject: [PATCH 06/29] fix: comparison of synaptic impacts ignores the synapse
 type

---
 knp/core-library/impl/messaging/synaptic_impact_message.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knp/core-library/impl/messaging/synaptic_impact_message.cpp b/knp/core-library/impl/messaging/synaptic_impact_message.cpp
index 70cd353..0d31640 100644
--- a/knp/core-library/impl/messaging/synaptic_impact_message.cpp
+++ b/knp/core-library/impl/messaging/synaptic_impact_message.cpp
@@ -32,7 +32,7 @@ namespace knp::core::messaging
 
 bool SynapticImpact::operator==(const SynapticImpact &other) const
 {
-    return connection_index_ == other.connection_index_ &&
+    return connection_index_ == other.connection_index_ && synapse_type_ == other.synapse_type_ &&
            presynaptic_neuron_index_ == other.presynaptic_neuron_index_ &&
            postsynaptic_neuron_index_ == other.postsynaptic_neuron_index_ && impact_value_ == other.impact_value_;
 }
-- 
2.43.0


From 80851aa4a9397b855a16215e1c00aa68ba29c26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:14 +0000
Subject: [PATCH 07/29] fix: moving a CPU device loses its UID, its tags and
 its power meter

---
 knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp |  9 ++++++++-
 knp/backends/cpu/cpu-devices/impl/x86_cpu.cpp     | 10 +++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp b/knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp
index 4c0f8d2..e207def 100644
--- a/knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp
+++ b/knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp
@@ -53,7 +53,13 @@ CPU::CPU(uint32_t cpu_num) : cpu_num_(cpu_num), power_meter_{std::make_unique<Cp
 }
 
 
-CPU::CPU(CPU&& other) : cpu_num_{std::move(other.cpu_num_)}, cpu_name_{std::move(other.cpu_name_)} {}
+CPU::CPU(CPU&& other)
+    : Device(std::move(other)),
+      cpu_num_{std::move(other.cpu_num_)},
+      cpu_name_{std::move(other.cpu_name_)},
+      power_meter_{std::move(other.power_meter_)}
+{
+}
 
 
 CPU::~CPU() {}
@@ -61,6 +67,7 @@ CPU::~CPU() {}
 
 CPU& CPU::operator=(CPU&& other) noexcept
 {
+    std::swap(base_, other.base_);
     std::swap(cpu_num_, other.cpu_num_);
     cpu_name_.swap(other.cpu_name_);
     power_meter_.swap(other.power_meter_);
diff --git a/knp/backends/cpu/cpu-devices/impl/x86_cpu.cpp b/knp/backends/cpu/cpu-devices/impl/x86_cpu.cpp
index 363ae42..381e861 100644
--- a/knp/backends/cpu/cpu-devices/impl/x86_cpu.cpp
+++ b/knp/backends/cpu/cpu-devices/impl/x86_cpu.cpp
@@ -59,7 +59,13 @@ CPU::CPU(uint32_t cpu_num) : cpu_num_(cpu_num), power_meter_{std::make_unique<Cp
 }
 
 
-CPU::CPU(CPU&& other) : cpu_name_{std::move(other.cpu_name_)}, power_meter_{std::move(other.power_meter_)} {}
+CPU::CPU(CPU&& other)
+    : Device(std::move(other)),
+      cpu_num_{std::move(other.cpu_num_)},
+      cpu_name_{std::move(other.cpu_name_)},
+      power_meter_{std::move(other.power_meter_)}
+{
+}
 
 
 CPU::~CPU() {}
@@ -67,6 +73,8 @@ CPU::~CPU() {}
 
 CPU& CPU::operator=(CPU&& other) noexcept
 {
+    std::swap(base_, other.base_);
+    std::swap(cpu_num_, other.cpu_num_);
     cpu_name_.swap(other.cpu_name_);
     power_meter_.swap(other.power_meter_);
     return *this;
-- 
2.43.0


From 50a3eb5166f082241e9fbdf8fe1674d4735ec880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:14 +0000
Subject: [PATCH 08/29] fix: Backend::select_devices selects at most one device
 and does not report the missing ones

---
 knp/core-library/impl/backend.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/knp/core-library/impl/backend.cpp b/knp/core-library/impl/backend.cpp
index 3542aea..504f523 100644
--- a/knp/core-library/impl/backend.cpp
+++ b/knp/core-library/impl/backend.cpp
@@ -166,6 +166,7 @@ void Backend::_uninit()
 
 void Backend::select_devices(const std::set<UID>& uids)
 {
+    devices_.clear();
     for (auto&& device : get_devices())
     {
         SPDLOG_DEBUG("Trying UID {}...", std::string(device->get_uid()));
@@ -173,7 +174,7 @@ void Backend::select_devices(const std::set<UID>& uids)
         {
             SPDLOG_INFO("Device with UID {} was selected.", std::string(device->get_uid()));
             devices_.push_back(std::move(device));
-            return;
+            continue;
         }
         SPDLOG_TRACE("Device with UID {} was not selected.", std::string(device->get_uid()));
     }
-- 
2.43.0


From 0c8947515e8374264e9036fc60f85e5511927185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:14 +0000
Subject: [PATCH 09/29] fix: Backend reports that it is running after a
 predicate stopped it

---
 knp/core-library/impl/backend.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/knp/core-library/impl/backend.cpp b/knp/core-library/impl/backend.cpp
index 504f523..421ffa4 100644
--- a/knp/core-library/impl/backend.cpp
+++ b/knp/core-library/impl/backend.cpp
@@ -109,6 +109,7 @@ void Backend::start(const RunPredicate& run_predicate)
         started_ = false;
         throw;
     }
+    started_ = false;
     SPDLOG_INFO("Backend {} stopped.", std::string(base_.uid_));
 }
 
@@ -137,6 +138,7 @@ void Backend::start(const RunPredicate& pre_step, const RunPredicate& post_step)
         started_ = false;
         throw;
     }
+    started_ = false;
     SPDLOG_INFO("Backend {} stopped.", std::string(base_.uid_));
 }
 
-- 
2.43.0


From 6c9573407d08788c280a9cdd7843d1fd4ee10760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 10/29] fix: UID of a CPU device is generated in a random
 namespace

---
 knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp | 4 +---
 knp/backends/cpu/cpu-devices/impl/x86_cpu.cpp     | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp b/knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp
index e207def..302de27 100644
--- a/knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp
+++ b/knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp
@@ -32,8 +32,6 @@
 namespace knp::devices::cpu
 {
 
-static constexpr const char* ns_uid = "0000-0000-0000-0000";
-
 
 /**
  * @brief Fake power meter for unknown CPU.
@@ -49,7 +47,7 @@ public:
 CPU::CPU(uint32_t cpu_num) : cpu_num_(cpu_num), power_meter_{std::make_unique<CpuPower>(cpu_num)}
 {
     cpu_name_ = "Unknown CPU " + std::to_string(cpu_num_);
-    Device::base_.uid_ = knp::core::UID(boost::uuids::name_generator(core::UID(ns_uid))(cpu_name_.c_str()));
+    Device::base_.uid_ = knp::core::UID(boost::uuids::name_generator(core::UID(false))(cpu_name_.c_str()));
 }
 
 
diff --git a/knp/backends/cpu/cpu-devices/impl/x86_cpu.cpp b/knp/backends/cpu/cpu-devices/impl/x86_cpu.cpp
index 381e861..685d296 100644
--- a/knp/backends/cpu/cpu-devices/impl/x86_cpu.cpp
+++ b/knp/backends/cpu/cpu-devices/impl/x86_cpu.cpp
@@ -44,8 +44,6 @@
 namespace knp::devices::cpu
 {
 
-static constexpr const char* ns_uid = "0000-0000-0000-0000";
-
 
 CPU::CPU(uint32_t cpu_num) : cpu_num_(cpu_num), power_meter_{std::make_unique<CpuPower>(cpu_num)}
 {
@@ -55,7 +53,7 @@ CPU::CPU(uint32_t cpu_num) : cpu_num_(cpu_num), power_meter_{std::make_unique<Cp
 
     cpu_name_ = pcm_instance->getCPUBrandString() + " " + pcm_instance->getCPUFamilyModelString() + " " +
                 std::to_string(cpu_num);
-    Device::base_.uid_ = knp::core::UID(boost::uuids::name_generator(core::UID(ns_uid))(cpu_name_.c_str()));
+    Device::base_.uid_ = knp::core::UID(boost::uuids::name_generator(core::UID(false))(cpu_name_.c_str()));
 }
 
 
-- 
2.43.0


From 4f434d0800c7f1d3983af7ae50aae2fd2a5699fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:59 +0000
Subject: [PATCH 11/29] fix: group WTA handler with zero winners reads before
 the beginning of its groups

---
 knp/base-framework/impl/message_handlers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knp/base-framework/impl/message_handlers.cpp b/knp/base-framework/impl/message_handlers.cpp
index e7c6cb6..308ce04 100644
--- a/knp/base-framework/impl/message_handlers.cpp
+++ b/knp/base-framework/impl/message_handlers.cpp
@@ -69,7 +69,7 @@ knp::core::messaging::SpikeData KWtaRandomHandler::operator()(std::vector<knp::c
 knp::core::messaging::SpikeData GroupWtaRandomHandler::operator()(
     const std::vector<knp::core::messaging::SpikeMessage> &messages)
 {
-    if (messages.empty())
+    if (messages.empty() || num_winners_ == 0)
     {
         return {};
     }
-- 
2.43.0


From 93ade66fd1c561deffa24595c3cc44c9dae28677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:29 +0000
Subject: [PATCH 12/29] fix: Population::remove_neurons removes the wrong
 neurons when the indexes are not sorted

---
 knp/core-library/include/knp/core/population.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/knp/core-library/include/knp/core/population.h b/knp/core-library/include/knp/core/population.h
index 63918f0..e56fd8f 100644
--- a/knp/core-library/include/knp/core/population.h
+++ b/knp/core-library/include/knp/core/population.h
@@ -27,6 +27,7 @@
 #include <knp/neuron-traits/all_traits.h>
 
 #include <functional>
+#include <set>
 #include <utility>
 #include <vector>
 
@@ -208,8 +209,10 @@ public:  // NOLINT
      */
     void remove_neurons(const std::vector<size_t> &neuron_indexes)
     {
+        // Removing a neuron shifts the ones behind it, so process every index once and in ascending order.
+        const std::set<size_t> sorted_indexes(neuron_indexes.begin(), neuron_indexes.end());
         size_t index_shift = 0;
-        for (const auto &index : neuron_indexes)
+        for (const auto &index : sorted_indexes)
         {
             remove_neuron(index - index_shift++);
         }
-- 
2.43.0


From e226d219afd24c3bdc87c442a9aca756b1f5c4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 13/29] fix: multi-threaded backend swaps the populations of
 synaptic impact messages

---
 .../backends/cpu-library/impl/projections/delta/delta_impl.h    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h
index 032a563..ff1b2a2 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h
@@ -165,8 +165,8 @@ void calculate_projection_multithreaded_impl(
         {
             knp::core::messaging::SynapticImpactMessage message_out{
                 {projection_uid, step_n},
-                postsynaptic_uid,
                 presynaptic_uid,
+                postsynaptic_uid,
                 training::stdp::is_forced(projection),
                 {value.second}};
             future_messages.insert(std::make_pair(value.first, message_out));
-- 
2.43.0


From f37913824e4763fe3fe682ed0dbb22609a015521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 14/29] fix: multi-threaded backend drops all but the first
 spike message of a projection

---
 .../impl/backend.cpp                          | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp b/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
index 8b75e80..4a3520f 100644
--- a/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
+++ b/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
@@ -232,16 +232,19 @@ void send_message(ProjectionWrapper &projection, core::MessageEndpoint &endpoint
     }
 }
 
-inline std::unordered_map<uint64_t, size_t> convert_spikes(const core::messaging::SpikeMessage &message)
+inline std::unordered_map<uint64_t, size_t> convert_spikes(const std::vector<core::messaging::SpikeMessage> &messages)
 {
     std::unordered_map<knp::core::Step, size_t> result;
-    for (auto neuron_idx : message.neuron_indexes_)
+    for (const auto &message : messages)
     {
-        auto iter = result.find(neuron_idx);
-        if (result.end() == iter)
-            result.insert({neuron_idx, 1});
-        else
-            ++(iter->second);
+        for (auto neuron_idx : message.neuron_indexes_)
+        {
+            auto iter = result.find(neuron_idx);
+            if (result.end() == iter)
+                result.insert({neuron_idx, 1});
+            else
+                ++(iter->second);
+        }
     }
     return result;
 }
@@ -264,7 +267,7 @@ void MultiThreadedCPUBackend::calculate_projections()
         }
 
         // Looping over synapses.
-        converted_message_buffer.emplace_back(convert_spikes(msg_buf[0]));
+        converted_message_buffer.emplace_back(convert_spikes(msg_buf));
         const auto proj_size = std::visit([](const auto &proj) { return proj.size(); }, projection.arg_);
         for (size_t synapse_index = 0; synapse_index < proj_size; synapse_index += projection_part_size_)
         {
-- 
2.43.0


From 05620d5def111171c6975a9f46582ce12b7cf1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:14 +0000
Subject: [PATCH 15/29] fix: inter-spike intervals are measured from the
 previous spike to the current step

---
 .../knp/backends/cpu-library/impl/populations/training/stdp.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h
index d65489e..35759f4 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h
@@ -105,13 +105,13 @@ neuron_traits::ISIPeriodType update_isi(
             neuron.first_isi_spike_ = step;
             break;
         case neuron_traits::ISIPeriodType::period_started:
-            if (neuron.last_step_ - step < neuron.isi_max_)
+            if (step - neuron.last_step_ < neuron.isi_max_)
             {
                 neuron.isi_status_ = neuron_traits::ISIPeriodType::period_continued;
             }
             break;
         case neuron_traits::ISIPeriodType::period_continued:
-            if (neuron.last_step_ - step >= neuron.isi_max_ || neuron.dopamine_value_ != 0)
+            if (step - neuron.last_step_ >= neuron.isi_max_ || neuron.dopamine_value_ != 0)
             {
                 neuron.isi_status_ = neuron_traits::ISIPeriodType::period_started;
                 neuron.first_isi_spike_ = step;
-- 
2.43.0


From 8874323826d96349957a5703219dae3f3f5d3e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:00 +0000
Subject: [PATCH 16/29] fix: the stability change of a dopamine reward wraps
 around before the end of the ISI period

---
 .../backends/cpu-library/impl/populations/altai/altai_stdp.h   | 2 +-
 .../backends/cpu-library/impl/populations/blifat/blifat_stdp.h | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/altai/altai_stdp.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/altai/altai_stdp.h
index b6ca4d1..b2d99d0 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/altai/altai_stdp.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/altai/altai_stdp.h
@@ -142,7 +142,7 @@ inline void do_dopamine_plasticity_impl(
             {
                 // A dopamine reward when non-forced changes stability by `D max(2 - |t(TSS) - ISImax| / ISImax, -1)`.
                 const double dopamine_constant = 2.0;
-                const double difference = step - neuron.first_isi_spike_ - neuron.isi_max_;
+                const double difference = static_cast<double>(step - neuron.first_isi_spike_) - neuron.isi_max_;
                 neuron.stability_ += neuron.stability_change_parameter_ * neuron.dopamine_value_ *
                                      std::max(dopamine_constant - std::fabs(difference) / neuron.isi_max_, -1.0);
             }
diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_stdp.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_stdp.h
index 7e697a7..9080a8c 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_stdp.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_stdp.h
@@ -145,7 +145,8 @@ inline void do_dopamine_plasticity_impl(
             {
                 // A dopamine reward when non-forced changes stability by `D max(2 - |t(TSS) - ISImax| / ISImax, -1)`.
                 const double dopamine_constant = 2.0;
-                const double difference = std::fabs(step - neuron.first_isi_spike_ - neuron.isi_max_);
+                const double difference =
+                    std::fabs(static_cast<double>(step - neuron.first_isi_spike_) - neuron.isi_max_);
                 neuron.stability_ += neuron.stability_change_parameter_ * neuron.dopamine_value_ *
                                      std::max(dopamine_constant - difference / neuron.isi_max_, -1.0);
             }
-- 
2.43.0


From 4365b468fb68880d370c213a6bb01e98fac6b97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:01 +0000
Subject: [PATCH 17/29] fix: additive STDP looks up the presynaptic history by
 the postsynaptic neuron

---
 .../cpu-library/impl/projections/training/stdp/additive_stdp.h  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h
index b3bcc8c..f3f2e2a 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h
@@ -156,7 +156,7 @@ inline void init_projection(
             append_spike_times(
                 projection, msg,
                 [&projection](uint32_t neuron_index)
-                { return projection.find_synapses(neuron_index, ProjectionType::Search::by_postsynaptic); },
+                { return projection.find_synapses(neuron_index, ProjectionType::Search::by_presynaptic); },
                 &knp::synapse_traits::STDPAdditiveRule<Synapse>::presynaptic_spike_times_);
         }
         if (processing_type == ProcessingType::STDPOnly)
-- 
2.43.0


From 0b9bf41a6e6c232218aa9cf0bbe1bcd03d9bd718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:22 +0000
Subject: [PATCH 18/29] fix: additive STDP computes negative spike time
 differences in unsigned arithmetic

---
 .../cpu-library/impl/projections/training/stdp/additive_stdp.h  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h
index f3f2e2a..6a36486 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h
@@ -69,7 +69,7 @@ public:
             for (const auto &t_n : postsynaptic_spikes)
             {
                 // cppcheck-suppress useStlAlgorithm
-                w_j += stdp_w(static_cast<float>(t_n - t_f));
+                w_j += stdp_w(static_cast<float>(t_n) - static_cast<float>(t_f));
             }
         }
         return w_j;
-- 
2.43.0


From db80cd266aa076e47f71d24700bae8276b02eb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:00 +0000
Subject: [PATCH 19/29] fix: refuse a population or projection variant whose
 UID is already in the network

---
 knp/base-framework/impl/network.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/knp/base-framework/impl/network.cpp b/knp/base-framework/impl/network.cpp
index 3810e94..14b00df 100644
--- a/knp/base-framework/impl/network.cpp
+++ b/knp/base-framework/impl/network.cpp
@@ -105,7 +105,7 @@ void Network::add_population(core::AllPopulationsVariant &&population)
 {
     SPDLOG_DEBUG("Adding population variant...");
 
-    // check_population_constraints(std::visit([](const auto &var_val) { return var_val; }, population));
+    std::visit([this](const auto &var_val) { check_population_constraints(var_val); }, population);
 
     populations_.emplace_back(population);
 }
@@ -202,7 +202,8 @@ void Network::add_projection(core::AllProjectionsVariant &&projection)
 {
     SPDLOG_DEBUG("Adding projection variant...");
 
-    // check_projection_constraints(std::visit([](const auto &var_val) { return var_val; }, projection));
+    std::visit([this](const auto &var_val) { check_projection_constraints(var_val); }, projection);
+
     projections_.emplace_back(projection);
 }
 
-- 
2.43.0


From ff101843a90301e353351c462965ad916a787b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:00 +0000
Subject: [PATCH 20/29] fix: warn about a missing population of a new
 projection when it is missing, not when it exists

---
 knp/base-framework/impl/network.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/knp/base-framework/impl/network.cpp b/knp/base-framework/impl/network.cpp
index 14b00df..0fa7ad4 100644
--- a/knp/base-framework/impl/network.cpp
+++ b/knp/base-framework/impl/network.cpp
@@ -337,12 +337,12 @@ void Network::check_projection_constraints(const ProjectionType &projection) con
         throw std::logic_error(msg);
     }
 
-    if (core::UID{false} != projection.get_presynaptic() && is_population_exists(projection.get_presynaptic()))
+    if (core::UID{false} != projection.get_presynaptic() && !is_population_exists(projection.get_presynaptic()))
     {
         SPDLOG_WARN("Presynaptic population with UID = {} doesn't exist.", std::string(projection.get_presynaptic()));
     }
 
-    if (is_population_exists(projection.get_postsynaptic()))
+    if (!is_population_exists(projection.get_postsynaptic()))
     {
         SPDLOG_WARN("Postsynaptic population with UID = {} doesn't exist.", std::string(projection.get_postsynaptic()));
     }
-- 
2.43.0


From 6669d2ab45f3fe1e749f0677f0534756368519ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:56 +0000
Subject: [PATCH 21/29] fix: channels of one hash bucket were merged by the
 model loader

---
 knp/base-framework/impl/model_loader.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/knp/base-framework/impl/model_loader.cpp b/knp/base-framework/impl/model_loader.cpp
index 2770968..f9bcc24 100644
--- a/knp/base-framework/impl/model_loader.cpp
+++ b/knp/base-framework/impl/model_loader.cpp
@@ -34,17 +34,16 @@ void ModelLoader::init_channels(
     knp::framework::Model &model, const std::unordered_multimap<core::UID, core::UID, core::uid_hash> &channels,
     GenType channel_gen)
 {
-    for (size_t i = 0; i < channels.bucket_count(); ++i)
+    for (auto channel_iter = channels.begin(); channel_iter != channels.end();)
     {
-        auto bucket_iter = channels.begin(i);
-        if (channels.end(i) == bucket_iter) continue;
-        auto channel_uid = bucket_iter->first;
+        const auto channel_uid = channel_iter->first;
+        // A bucket can contain several channels, so only entries of this channel must be taken.
+        const auto channel_end = channels.equal_range(channel_uid).second;
 
         std::vector<core::UID> p_uids;
-        p_uids.reserve(channels.bucket_size(i));
 
         std::transform(
-            bucket_iter, channels.end(i), std::back_inserter(p_uids),
+            channel_iter, channel_end, std::back_inserter(p_uids),
 #ifdef __clang__
 #    pragma clang diagnostic push
 #    pragma clang diagnostic ignored "-Wunused-lambda-capture"
@@ -60,6 +59,7 @@ void ModelLoader::init_channels(
 #    pragma clang diagnostic pop
 #endif
         (this->*channel_gen)(model, channel_uid, p_uids);
+        channel_iter = channel_end;
     }
 }
 
-- 
2.43.0


From e480bd46e6483645d571a760d72d0bfb0c112d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:45 +0000
Subject: [PATCH 22/29] fix: inputs were sent for a step that the run predicate
 did not allow

---
 knp/base-framework/impl/model_executor.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/knp/base-framework/impl/model_executor.cpp b/knp/base-framework/impl/model_executor.cpp
index 71c18be..75a30ab 100644
--- a/knp/base-framework/impl/model_executor.cpp
+++ b/knp/base-framework/impl/model_executor.cpp
@@ -96,13 +96,17 @@ void ModelExecutor::start(core::Backend::RunPredicate run_predicate)
     get_backend()->start(
         [this, run_predicate](knp::core::Step step)
         {
+            // Run user predicate. Inputs of a step that is not executed must not be sent.
+            if (!run_predicate(step))
+            {
+                return false;
+            }
             // Sending inputs from the channels.
             for (auto &i_ch : loader_.get_inputs())
             {
                 i_ch.send(step);
             }
-            // Run user predicate.
-            return run_predicate(step);
+            return true;
         },
         [this](knp::core::Step)
         {
-- 
2.43.0


From 780d140aa1ed467df91ba0ed98d70f82f06b61a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:45 +0000
Subject: [PATCH 23/29] fix: reading a channel buffer up to a large step tried
 to reserve that much memory

---
 knp/base-framework/impl/output_channel.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/knp/base-framework/impl/output_channel.cpp b/knp/base-framework/impl/output_channel.cpp
index 056f217..2f61a1f 100644
--- a/knp/base-framework/impl/output_channel.cpp
+++ b/knp/base-framework/impl/output_channel.cpp
@@ -56,11 +56,16 @@ std::vector<core::messaging::SpikeMessage> OutputChannel::read_some_from_buffer(
 {
     std::vector<core::messaging::SpikeMessage> result;
 
-    result.reserve(starting_step + final_step + 1);
+    if (final_step < starting_step)
+    {
+        return result;
+    }
+
     // Here we assume that buffer is sorted.
     auto begin_iter = std::lower_bound(message_buffer_.begin(), message_buffer_.end(), starting_step, comp_lower);
     auto end_iter = std::upper_bound(message_buffer_.begin(), message_buffer_.end(), final_step, comp_upper);
 
+    result.reserve(std::distance(begin_iter, end_iter));
     std::move(begin_iter, end_iter, std::back_inserter(result));
     message_buffer_.erase(begin_iter, end_iter);
     return result;
-- 
2.43.0


From 095b8ef1ee58248a0403f598ed99a3f1d1ebf979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:31 +0000
Subject: [PATCH 24/29] fix: aligned projections reached past the smaller
 population when sizes are not multiples

---
 .../include/knp/framework/projection/synapse_generators.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/knp/base-framework/include/knp/framework/projection/synapse_generators.h b/knp/base-framework/include/knp/framework/projection/synapse_generators.h
index 9333512..4374f5e 100644
--- a/knp/base-framework/include/knp/framework/projection/synapse_generators.h
+++ b/knp/base-framework/include/knp/framework/projection/synapse_generators.h
@@ -100,20 +100,18 @@ template <typename SynapseType>
             syn_gen](size_t index) -> std::optional<typename knp::core::Projection<SynapseType>::Synapse>
     {
         size_t from_index = 0;
-        size_t pack_size = 0;
         size_t to_index = 0;
 
         if (presynaptic_pop_size >= postsynaptic_pop_size)
         {
             from_index = index;
-            pack_size = presynaptic_pop_size / postsynaptic_pop_size;
-            to_index = index / pack_size;
+            // Population sizes can be not multiple of each other.
+            to_index = index * postsynaptic_pop_size / presynaptic_pop_size;
         }
         else
         {
             to_index = index;
-            pack_size = postsynaptic_pop_size / presynaptic_pop_size;
-            from_index = index / pack_size;
+            from_index = index * presynaptic_pop_size / postsynaptic_pop_size;
         }
         return std::make_tuple(syn_gen(from_index, to_index), from_index, to_index);
     };
-- 
2.43.0


From cfaf70ba628cee7f83e38c690a7a65c6206e3018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:53 +0000
Subject: [PATCH 25/29] fix: an image or a label that could not be read
 completely still became a frame

---
 .../impl/data_processing/classification/image.cpp        | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/knp/base-framework/impl/data_processing/classification/image.cpp b/knp/base-framework/impl/data_processing/classification/image.cpp
index 68f1d81..3d3c9d3 100644
--- a/knp/base-framework/impl/data_processing/classification/image.cpp
+++ b/knp/base-framework/impl/data_processing/classification/image.cpp
@@ -40,11 +40,14 @@ void Dataset::process_labels_and_images(
 
     while (images_stream.good() && labels_stream.good())
     {
-        images_stream.read(reinterpret_cast<char *>(image_reading_buffer.data()), image_size);
-        auto spikes_frame = image_to_spikes(image_reading_buffer);
+        // An image without a label or a label without an image is not a frame.
+        if (!images_stream.read(reinterpret_cast<char *>(image_reading_buffer.data()), image_size)) break;
 
         std::string str;
-        if (!std::getline(labels_stream, str).good()) break;
+        if (!std::getline(labels_stream, str)) break;
+
+        auto spikes_frame = image_to_spikes(image_reading_buffer);
+
         int label = std::stoi(str);
 
         // Push to training data set because we dont know dataset size yet for a split
-- 
2.43.0


From 60e5b06f9cee78b5237d88c69d936aae3fc167df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:53 +0000
Subject: [PATCH 26/29] fix: a dataset split with wrapping sizes was accepted

---
 .../impl/data_processing/classification/dataset.cpp             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knp/base-framework/impl/data_processing/classification/dataset.cpp b/knp/base-framework/impl/data_processing/classification/dataset.cpp
index b23f457..cea89a4 100644
--- a/knp/base-framework/impl/data_processing/classification/dataset.cpp
+++ b/knp/base-framework/impl/data_processing/classification/dataset.cpp
@@ -29,7 +29,7 @@ namespace knp::framework::data_processing::classification
 
 void Dataset::split(size_t frames_for_training, size_t frames_for_inference)
 {
-    if (dataset_.size() < frames_for_inference + frames_for_training)
+    if (dataset_.size() < frames_for_training || dataset_.size() - frames_for_training < frames_for_inference)
     {
         SPDLOG_ERROR(
             "Incorrect split size. Dataset is too small. Required {} frames for training, and {} frames for inference, "
-- 
2.43.0


From 6099f2efbad594554008840acc737e0c509870f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:28 +0000
Subject: [PATCH 27/29] fix: uninitialised values were interpreted as spikes
 after the end of the input stream

---
 .../knp/framework/io/in_converters/sequence_converter.h        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/knp/base-framework/include/knp/framework/io/in_converters/sequence_converter.h b/knp/base-framework/include/knp/framework/io/in_converters/sequence_converter.h
index fbae413..cfd8110 100644
--- a/knp/base-framework/include/knp/framework/io/in_converters/sequence_converter.h
+++ b/knp/base-framework/include/knp/framework/io/in_converters/sequence_converter.h
@@ -81,7 +81,8 @@ public:
         for (size_t i = 0; i < data_size_; ++i)
         {
             ValueType value;
-            *stream_ >> value;
+            // A value that is not in the stream is not interpreted.
+            if (!(*stream_ >> value)) break;
             if (interpret_(value))
             {
                 message_data.push_back(i);
-- 
2.43.0


From 8bb16832e2f6a3155f9a59b61b2b3b3e0ae315f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:26 +0000
Subject: [PATCH 28/29] fix: one column in the aggregated spikes header for
 each name

Senders with equal names are counted together, so rows had fewer values than the header had columns.
---
 knp/base-framework/impl/monitoring/model.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/knp/base-framework/impl/monitoring/model.cpp b/knp/base-framework/impl/monitoring/model.cpp
index 7d9e255..4ebb2d4 100644
--- a/knp/base-framework/impl/monitoring/model.cpp
+++ b/knp/base-framework/impl/monitoring/model.cpp
@@ -27,6 +27,7 @@
 
 #include <algorithm>
 #include <map>
+#include <set>
 #include <string>
 #include <tuple>
 
@@ -108,11 +109,11 @@ SpikeProcessor make_projection_weights_observer_function(
 void write_aggregated_spikes_logger_header(
     std::ostream &log_stream, const std::map<knp::core::UID, std::string> &senders_names)
 {
-    std::vector<std::string> vec(senders_names.size());
-    std::transform(senders_names.begin(), senders_names.end(), vec.begin(), [](const auto &val) { return val.second; });
-    std::sort(vec.begin(), vec.end());
+    // Senders with the same name are counted together, so every name has one column.
+    std::set<std::string> names;
+    for (const auto &val : senders_names) names.insert(val.second);
     log_stream << "Index";
-    for (const auto &name : vec) log_stream << ", " << name;
+    for (const auto &name : names) log_stream << ", " << name;
     log_stream << std::endl;
 }
 
-- 
2.43.0


From 28f56ff211e0d1480faaaee9a4a657397f4f539f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:08 +0000
Subject: [PATCH 29/29] fix: take step differences before rounding them in the
 additive STDP formula

---
 .../cpu-library/impl/projections/training/stdp/additive_stdp.h  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h
index 6a36486..a553f01 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h
@@ -69,7 +69,7 @@ public:
             for (const auto &t_n : postsynaptic_spikes)
             {
                 // cppcheck-suppress useStlAlgorithm
-                w_j += stdp_w(static_cast<float>(t_n) - static_cast<float>(t_f));
+                w_j += stdp_w(static_cast<float>(static_cast<int64_t>(t_n) - static_cast<int64_t>(t_f)));
             }
         }
         return w_j;
-- 
2.43.0

