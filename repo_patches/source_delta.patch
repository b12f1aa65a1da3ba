From ceea4146be77372dc463ae2ca626f37e1b1cbacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:13 +0000
Subject: [PATCH 01/45] verif hooks: route atomics through observable wrappers
 if IOX_VERIF_HOOKS is defined

---
 .../generic/include/iceoryx_platform/atomic.hpp     | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/iceoryx_platform/generic/include/iceoryx_platform/atomic.hpp b/iceoryx_platform/generic/include/iceoryx_platform/atomic.hpp
index 6b7f65a..17d92dd 100644
--- a/iceoryx_platform/generic/include/iceoryx_platform/atomic.hpp
+++ b/iceoryx_platform/generic/include/iceoryx_platform/atomic.hpp
@@ -21,12 +21,21 @@
 #include <iostream>
 #include <type_traits>
 
+#ifdef IOX_VERIF_HOOKS
+// verification builds only: atomics which report every operation to a monitor
+#include "iox_verif_atomic.hpp"
+#endif
+
 namespace iox
 {
 namespace concurrent
 {
+#ifdef IOX_VERIF_HOOKS
+using AtomicFlag = iox::verif::HookedAtomicFlag;
+#else
 /// @brief An alias to the std::atomic_flag
 using AtomicFlag = std::atomic_flag;
+#endif
 
 /// @brief A thin wrapper for a 'std::atomic' which ensures that all atomic operations are always lock-free in order to
 /// ensure safe usage across processes in shared memory. For detailed documentation please have a look at
@@ -524,7 +533,11 @@ class Atomic
     }
 
   private:
+#ifdef IOX_VERIF_HOOKS
+    iox::verif::HookedAtomic<T> m_value;
+#else
     std::atomic<T> m_value;
+#endif
 };
 } // namespace concurrent
 } // namespace iox
-- 
2.43.0


From 6655ddd346000306c4f31ce4c8189c2a1dff2ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:40 +0000
Subject: [PATCH 02/45] fix: MemPool minimum-free and used counters are exact
 under concurrent getChunk/freeChunk

---
 iceoryx_posh/source/mepoo/mem_pool.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/iceoryx_posh/source/mepoo/mem_pool.cpp b/iceoryx_posh/source/mepoo/mem_pool.cpp
index da60994..2492951 100644
--- a/iceoryx_posh/source/mepoo/mem_pool.cpp
+++ b/iceoryx_posh/source/mepoo/mem_pool.cpp
@@ -78,9 +78,14 @@ bool MemPool::isMultipleOfAlignment(const uint64_t value) const noexcept
 
 void MemPool::adjustMinFree() noexcept
 {
-    // @todo iox-#1714 rethink the concurrent change that can happen. do we need a CAS loop?
-    m_minFree.store(std::min(m_numberOfChunks - m_usedChunks.load(std::memory_order_relaxed),
-                             m_minFree.load(std::memory_order_relaxed)));
+    // the value must never increase, therefore concurrent updates require a CAS loop
+    const uint32_t freeChunks{m_numberOfChunks - m_usedChunks.load(std::memory_order_relaxed)};
+    uint32_t minFree{m_minFree.load(std::memory_order_relaxed)};
+    while (freeChunks < minFree
+           && !m_minFree.compare_exchange_weak(
+               minFree, freeChunks, std::memory_order_relaxed, std::memory_order_relaxed))
+    {
+    }
 }
 
 void* MemPool::getChunk() noexcept
@@ -149,12 +154,13 @@ void MemPool::freeChunk(const void* chunk) noexcept
 
     const auto index = pointerToIndex(chunk, m_chunkSize, memPoolStartAddress);
 
+    // must happen before the index can be obtained again; else the number of used chunks could exceed the total number
+    m_usedChunks.fetch_sub(1U, std::memory_order_relaxed);
+
     if (!m_freeIndices.push(index))
     {
         IOX_REPORT_FATAL(PoshError::POSH__MEMPOOL_POSSIBLE_DOUBLE_FREE);
     }
-
-    m_usedChunks.fetch_sub(1U, std::memory_order_relaxed);
 }
 
 uint64_t MemPool::getChunkSize() const noexcept
-- 
2.43.0


From 67a9a5b086651b4f09d81aa382faf44a64f75303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:32 +0000
Subject: [PATCH 03/45] fix: report missed data when the history delivery
 overflows a subscriber queue

---
 .../internal/popo/building_blocks/chunk_distributor.inl      | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_distributor.inl b/iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_distributor.inl
index 246cfe9..9bda3d6 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_distributor.inl
+++ b/iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_distributor.inl
@@ -82,7 +82,10 @@ ChunkDistributor<ChunkDistributorDataType>::tryAddQueue(not_null<ChunkQueueData_
                 (requestedHistory <= currChunkHistorySize) ? currChunkHistorySize - requestedHistory : 0u;
             for (auto i = startIndex; i < currChunkHistorySize; ++i)
             {
-                pushToQueue(queueToAdd, getMembers()->m_history[i].cloneToSharedChunk());
+                if (!pushToQueue(queueToAdd, getMembers()->m_history[i].cloneToSharedChunk()))
+                {
+                    ChunkQueuePusher_t(queueToAdd).lostAChunk();
+                }
             }
 
             return ok();
-- 
2.43.0


From f9ffa12570b172265cd4ba0946b5b828d7bbdb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:43 +0000
Subject: [PATCH 04/45] fix: STOP_OFFER of a server terminates the daemon if a
 matching client is not connected

---
 iceoryx_posh/source/roudi/port_manager.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/iceoryx_posh/source/roudi/port_manager.cpp b/iceoryx_posh/source/roudi/port_manager.cpp
index 1291567..2ef9e79 100644
--- a/iceoryx_posh/source/roudi/port_manager.cpp
+++ b/iceoryx_posh/source/roudi/port_manager.cpp
@@ -634,6 +634,12 @@ void PortManager::sendToAllMatchingClientPorts(const capro::CaproMessage& messag
     for (auto& clientPortData : m_portPool->getClientPortDataList())
     {
         popo::ClientPortRouDi clientPort(clientPortData);
+        // a STOP_OFFER concerns only connected clients, it would be a protocol violation for all others
+        if (message.m_type == capro::CaproMessageType::STOP_OFFER
+            && clientPortData.m_connectionState.load(std::memory_order_relaxed) != ConnectionState::CONNECTED)
+        {
+            continue;
+        }
         if (isCompatibleClientServer(serverSource, clientPort))
         {
             // send OFFER/STOP_OFFER to client
-- 
2.43.0


From bfdc034dd0bf3cfe6b938596a9482f2c5de4386c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:18 +0000
Subject: [PATCH 05/45] fix: announce a changed service registry when the last
 publisher or server of a still listed service is removed

---
 .../source/roudi/service_registry.cpp         | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/iceoryx_posh/source/roudi/service_registry.cpp b/iceoryx_posh/source/roudi/service_registry.cpp
index 08d9d6e..34b2966 100644
--- a/iceoryx_posh/source/roudi/service_registry.cpp
+++ b/iceoryx_posh/source/roudi/service_registry.cpp
@@ -101,12 +101,15 @@ void ServiceRegistry::removePublisher(const capro::ServiceDescription& serviceDe
 
         if (entry && entry->publisherCount >= 1U)
         {
-            if (--entry->publisherCount == 0U && entry->serverCount == 0)
+            if (--entry->publisherCount == 0U)
             {
-                entry.reset();
-                // reuse the slot in the next insertion
-                m_freeIndex = index;
                 m_dataChanged = true;
+                if (entry->serverCount == 0U)
+                {
+                    entry.reset();
+                    // reuse the slot in the next insertion
+                    m_freeIndex = index;
+                }
             }
         }
     }
@@ -121,12 +124,15 @@ void ServiceRegistry::removeServer(const capro::ServiceDescription& serviceDescr
 
         if (entry && entry->serverCount >= 1U)
         {
-            if (--entry->serverCount == 0U && entry->publisherCount == 0)
+            if (--entry->serverCount == 0U)
             {
-                entry.reset();
-                // reuse the slot in the next insertion
-                m_freeIndex = index;
                 m_dataChanged = true;
+                if (entry->publisherCount == 0U)
+                {
+                    entry.reset();
+                    // reuse the slot in the next insertion
+                    m_freeIndex = index;
+                }
             }
         }
     }
-- 
2.43.0


From c633f93e95ae116b1de7f67ed0a481dd2b16b550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:46 +0000
Subject: [PATCH 06/45] fix: add a sample to the history together with its
 delivery so that late joiners do not miss it

---
 .../internal/popo/building_blocks/chunk_distributor.inl     | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_distributor.inl b/iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_distributor.inl
index 9bda3d6..aa04fb1 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_distributor.inl
+++ b/iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_distributor.inl
@@ -173,6 +173,10 @@ inline uint64_t ChunkDistributor<ChunkDistributorDataType>::deliverToAllStoredQu
                 }
             }
         }
+
+        // must happen together with the delivery; otherwise a queue which is added in between gets the chunk neither
+        // from the delivery nor from the history
+        addToHistoryWithoutDelivery(chunk);
     }
 
     // busy waiting until every queue is served
@@ -224,8 +228,6 @@ inline uint64_t ChunkDistributor<ChunkDistributorDataType>::deliverToAllStoredQu
         }
     }
 
-    addToHistoryWithoutDelivery(chunk);
-
     return numberOfQueuesTheChunkWasDeliveredTo;
 }
 
-- 
2.43.0


From 76616518ea2c8d47d13a622acb5e0eb26133d45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:46 +0000
Subject: [PATCH 07/45] fix: assigning a value to an empty variant constructs
 the value instead of assigning to raw memory

---
 iceoryx_hoofs/vocabulary/include/iox/detail/variant.inl | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/iceoryx_hoofs/vocabulary/include/iox/detail/variant.inl b/iceoryx_hoofs/vocabulary/include/iox/detail/variant.inl
index 4dd8f8e..47f37fd 100644
--- a/iceoryx_hoofs/vocabulary/include/iox/detail/variant.inl
+++ b/iceoryx_hoofs/vocabulary/include/iox/detail/variant.inl
@@ -150,10 +150,9 @@ variant<Types...>::operator=(T&& rhs) noexcept
 {
     if (m_type_index == INVALID_VARIANT_INDEX)
     {
-        m_type_index = internal::get_index_of_type<0, T, Types...>::index;
+        emplace<T>(std::forward<T>(rhs));
     }
-
-    if (!has_bad_variant_element_access<T>())
+    else if (!has_bad_variant_element_access<T>())
     {
         // AXIVION Next Construct AutosarC++19_03-M5.2.8: conversion to typed pointer is intentional, it is correctly aligned and points to sufficient memory for a T by design
         // NOLINTNEXTLINE(cppcoreguidelines-pro-type-reinterpret-cast)
-- 
2.43.0


From 16fd83242b636605fb308e9f02a134ef59819bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:43 +0000
Subject: [PATCH 08/45] fix: multiplying a duration with infinity is well
 defined

---
 iceoryx_hoofs/time/include/iox/detail/duration.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/iceoryx_hoofs/time/include/iox/detail/duration.inl b/iceoryx_hoofs/time/include/iox/detail/duration.inl
index c13e1a8..5ad5f48 100644
--- a/iceoryx_hoofs/time/include/iox/detail/duration.inl
+++ b/iceoryx_hoofs/time/include/iox/detail/duration.inl
@@ -433,6 +433,12 @@ Duration::multiplyWith(const std::enable_if_t<std::is_floating_point<T>::value,
         return Duration::zero();
     }
 
+    // an infinite factor must be handled explicitly since '0 * INF' of one of the components results in a NAN
+    if (std::isinf(rhs))
+    {
+        return Duration::max();
+    }
+
     auto durationFromSeconds = fromFloatingPointSeconds<T>(static_cast<T>(m_seconds) * rhs);
 
     auto resultNanoseconds = static_cast<T>(m_nanoseconds) * rhs;
-- 
2.43.0


From f3179c3a7c7b8ac7e59ef618731d4847e4658c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:16 +0000
Subject: [PATCH 09/45] fix: a lookup no longer resolves addresses to
 unregistered memory segments

---
 iceoryx_hoofs/memory/include/iox/detail/pointer_repository.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/iceoryx_hoofs/memory/include/iox/detail/pointer_repository.inl b/iceoryx_hoofs/memory/include/iox/detail/pointer_repository.inl
index 2d3448a..61f3e9b 100644
--- a/iceoryx_hoofs/memory/include/iox/detail/pointer_repository.inl
+++ b/iceoryx_hoofs/memory/include/iox/detail/pointer_repository.inl
@@ -62,6 +62,7 @@ inline bool PointerRepository<id_t, ptr_t, CAPACITY>::unregisterPtr(const id_t i
         if (m_info[id].basePtr != nullptr)
         {
             m_info[id].basePtr = nullptr;
+            m_info[id].endPtr = nullptr;
 
             /// @note do not search for next lower registered index but we could do it here
             return true;
@@ -77,6 +78,7 @@ inline void PointerRepository<id_t, ptr_t, CAPACITY>::unregisterAll() noexcept
     for (auto& info : m_info)
     {
         info.basePtr = nullptr;
+        info.endPtr = nullptr;
     }
     m_maxRegistered = 0U;
 }
-- 
2.43.0


From fb337e2c99ee37a6f140c98f894ab547eeb86253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:08 +0000
Subject: [PATCH 10/45] fix: refuse user-headers whose payload offset cannot be
 stored in the chunk header

---
 iceoryx_posh/source/mepoo/chunk_settings.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/iceoryx_posh/source/mepoo/chunk_settings.cpp b/iceoryx_posh/source/mepoo/chunk_settings.cpp
index a9eb9ed..16f4831 100644
--- a/iceoryx_posh/source/mepoo/chunk_settings.cpp
+++ b/iceoryx_posh/source/mepoo/chunk_settings.cpp
@@ -117,6 +117,12 @@ expected<uint64_t, ChunkSettings::Error> ChunkSettings::calculateRequiredChunkSi
     uint64_t preUserPayloadAlignmentOverhang = align(headerSize, ALIGNMENT_OF_USER_PAYLOAD_OFFSET_T);
     uint64_t maxPadding = algorithm::maxVal(SIZE_OF_USER_PAYLOAD_OFFSET_T, static_cast<uint64_t>(userPayloadAlignment));
 
+    // the offset from the ChunkHeader to the user-payload must be representable by the type it is stored with
+    if (preUserPayloadAlignmentOverhang + maxPadding > std::numeric_limits<ChunkHeader::UserPayloadOffset_t>::max())
+    {
+        return err(ChunkSettings::Error::REQUIRED_CHUNK_SIZE_EXCEEDS_MAX_CHUNK_SIZE);
+    }
+
     if (userPayloadSize > std::numeric_limits<uint64_t>::max() - preUserPayloadAlignmentOverhang - maxPadding)
     {
         return err(ChunkSettings::Error::REQUIRED_CHUNK_SIZE_EXCEEDS_MAX_CHUNK_SIZE);
-- 
2.43.0


From afc2baa85db0ab9ef6fd9556f6278a0511d7086e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:12 +0000
Subject: [PATCH 11/45] fix: command line options with only a short or only a
 long name receive their value

---
 iceoryx_hoofs/cli/source/option_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iceoryx_hoofs/cli/source/option_manager.cpp b/iceoryx_hoofs/cli/source/option_manager.cpp
index ca114b3..42da984 100644
--- a/iceoryx_hoofs/cli/source/option_manager.cpp
+++ b/iceoryx_hoofs/cli/source/option_manager.cpp
@@ -38,7 +38,7 @@ void OptionManager::populateDefinedOptions(const char*& binaryName, int argc, ch
 
 OptionName_t OptionManager::getLookupName(const char shortName, const OptionName_t& name) noexcept
 {
-    if (shortName == NO_SHORT_OPTION)
+    if (name.empty() && shortName != NO_SHORT_OPTION)
     {
         return OptionName_t{TruncateToCapacity, &shortName, 1};
     }
-- 
2.43.0


From e342145baa77da24c2d260fbe6de04f739f22507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:04 +0000
Subject: [PATCH 12/45] fix: bool and floating point defaults of command line
 options are usable and exact

---
 .../cli/include/iox/cli/option_manager.inl    | 39 ++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/iceoryx_hoofs/cli/include/iox/cli/option_manager.inl b/iceoryx_hoofs/cli/include/iox/cli/option_manager.inl
index f73b771..b3083c4 100644
--- a/iceoryx_hoofs/cli/include/iox/cli/option_manager.inl
+++ b/iceoryx_hoofs/cli/include/iox/cli/option_manager.inl
@@ -18,10 +18,47 @@
 
 #include "iox/cli/option_manager.hpp"
 
+#include <limits>
+#include <sstream>
+#include <string>
+#include <type_traits>
+
 namespace iox
 {
 namespace cli
 {
+namespace detail
+{
+/// @brief Converts the default value of an option into the text from which exactly this value is obtained when the
+///        option is not set on the command line
+template <typename T, std::enable_if_t<!std::is_floating_point<T>::value, bool> = true>
+inline std::string defaultValueToString(const T& value) noexcept
+{
+    return convert::toString(value);
+}
+
+template <>
+inline std::string defaultValueToString(const bool& value) noexcept
+{
+    return value ? "true" : "false";
+}
+
+template <typename T, std::enable_if_t<std::is_floating_point<T>::value, bool> = true>
+inline std::string defaultValueToString(const T& value) noexcept
+{
+    auto text = convert::toString(value);
+    const auto restored = convert::from_string<T>(text.c_str());
+    if (restored.has_value() && !(restored.value() < value) && !(restored.value() > value))
+    {
+        return text;
+    }
+    std::stringstream ss;
+    ss.precision(std::numeric_limits<T>::max_digits10);
+    ss << value;
+    return ss.str();
+}
+} // namespace detail
+
 template <typename T>
 inline T OptionManager::extractOptionArgumentValue(const Arguments& arguments,
                                                    const char shortName,
@@ -61,7 +98,7 @@ inline T OptionManager::defineOption(T& referenceToMember,
 {
     constexpr bool IS_NO_SWITCH = false;
     m_optionSet.addOption(OptionWithDetails{
-        {shortName, IS_NO_SWITCH, name, into<lossy<Argument_t>>(convert::toString(defaultArgumentValue))},
+        {shortName, IS_NO_SWITCH, name, into<lossy<Argument_t>>(detail::defaultValueToString(defaultArgumentValue))},
         description,
         optionType,
         {TypeInfo<T>::NAME}});
-- 
2.43.0


From dae9f5b58989d54b75f087346e455a44f61b75f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:04 +0000
Subject: [PATCH 13/45] fix: numbers out of range in the daemon's config file
 are reported instead of terminating

---
 .../roudi/roudi_config_toml_file_provider.cpp | 25 ++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/iceoryx_posh/source/roudi/roudi_config_toml_file_provider.cpp b/iceoryx_posh/source/roudi/roudi_config_toml_file_provider.cpp
index 510028d..bf406ab 100644
--- a/iceoryx_posh/source/roudi/roudi_config_toml_file_provider.cpp
+++ b/iceoryx_posh/source/roudi/roudi_config_toml_file_provider.cpp
@@ -36,6 +36,25 @@ namespace iox
 {
 namespace config
 {
+namespace
+{
+/// @brief Reads an unsigned integer; a value which does not fit into the type is handled like a missing one since
+///        cpptoml reports it with an exception
+template <typename T>
+cpptoml::option<T> getUnsigned(const cpptoml::table& table, const char* const key) noexcept
+{
+    try
+    {
+        return table.get_as<T>(key);
+    }
+    catch (const std::exception& exception)
+    {
+        IOX_LOG(Error, "Invalid value for '" << key << "' in config file: " << exception.what());
+        return {};
+    }
+}
+} // namespace
+
 TomlRouDiConfigFileProvider::TomlRouDiConfigFileProvider(config::CmdLineArgs_t& cmdLineArgs) noexcept
 {
     /// don't print additional output if not running
@@ -124,7 +143,7 @@ TomlRouDiConfigFileProvider::parse(std::istream& stream) noexcept
     {
         return iox::err(iox::roudi::RouDiConfigFileParseError::NO_GENERAL_SECTION);
     }
-    auto configFileVersion = general->get_as<uint32_t>("version");
+    auto configFileVersion = getUnsigned<uint32_t>(*general, "version");
     if (!configFileVersion || *configFileVersion != 1)
     {
         return iox::err(iox::roudi::RouDiConfigFileParseError::INVALID_CONFIG_FILE_VERSION);
@@ -161,8 +180,8 @@ TomlRouDiConfigFileProvider::parse(std::istream& stream) noexcept
 
         for (auto mempool : *mempools)
         {
-            auto chunkSize = mempool->get_as<uint64_t>("size");
-            auto chunkCount = mempool->get_as<uint32_t>("count");
+            auto chunkSize = getUnsigned<uint64_t>(*mempool, "size");
+            auto chunkCount = getUnsigned<uint32_t>(*mempool, "count");
             if (!chunkSize)
             {
                 return iox::err(iox::roudi::RouDiConfigFileParseError::MEMPOOL_WITHOUT_CHUNK_SIZE);
-- 
2.43.0


From b6150cb7794b3c4f46e6f1493bfe4e3676912715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:22 +0000
Subject: [PATCH 14/45] fix: names that would be truncated are refused in the
 gateway's config file

---
 iceoryx_posh/source/gateway/toml_gateway_config_parser.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/iceoryx_posh/source/gateway/toml_gateway_config_parser.cpp b/iceoryx_posh/source/gateway/toml_gateway_config_parser.cpp
index 36858e9..376cf49 100644
--- a/iceoryx_posh/source/gateway/toml_gateway_config_parser.cpp
+++ b/iceoryx_posh/source/gateway/toml_gateway_config_parser.cpp
@@ -153,6 +153,13 @@ iox::config::TomlGatewayConfigParser::validate(const cpptoml::table& parsedToml)
         {
             return iox::err(TomlGatewayConfigParseError::INVALID_SERVICE_DESCRIPTION);
         }
+
+        // check for strings which would be truncated
+        constexpr auto MAX_LENGTH = iox::capro::IdString_t::capacity();
+        if (serviceName->size() > MAX_LENGTH || instance->size() > MAX_LENGTH || event->size() > MAX_LENGTH)
+        {
+            return iox::err(TomlGatewayConfigParseError::INVALID_SERVICE_DESCRIPTION);
+        }
     }
 
     return iox::ok();
-- 
2.43.0


From 697e45485392e1f0799df6eb5d8698bc9a95c90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:22 +0000
Subject: [PATCH 15/45] fix: a config file path that would be truncated is
 refused on the daemon's command line

---
 .../roudi_cmd_line_parser_config_file_option.cpp    | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/iceoryx_posh/source/roudi/roudi_cmd_line_parser_config_file_option.cpp b/iceoryx_posh/source/roudi/roudi_cmd_line_parser_config_file_option.cpp
index 655f495..1ba43a3 100644
--- a/iceoryx_posh/source/roudi/roudi_cmd_line_parser_config_file_option.cpp
+++ b/iceoryx_posh/source/roudi/roudi_cmd_line_parser_config_file_option.cpp
@@ -18,6 +18,9 @@
 #include "iceoryx_posh/roudi/roudi_cmd_line_parser_config_file_option.hpp"
 
 #include "iceoryx_platform/getopt.hpp"
+#include "iox/detail/convert.hpp"
+#include "iox/logging.hpp"
+
 #include <iostream>
 
 namespace iox
@@ -62,7 +65,15 @@ expected<CmdLineArgs_t, CmdLineParserResult> CmdLineParserConfigFileOption::pars
         }
         case 'c':
         {
-            m_cmdLineArgs.configFilePath = roudi::ConfigFilePathString_t(TruncateToCapacity, optarg);
+            auto maybePath = convert::from_string<roudi::ConfigFilePathString_t>(optarg);
+            if (!maybePath.has_value())
+            {
+                IOX_LOG(Error,
+                        "The path of the config file must not exceed " << roudi::ConfigFilePathString_t::capacity()
+                                                                       << " characters");
+                return err(CmdLineParserResult::INVALID_PARAMETER);
+            }
+            m_cmdLineArgs.configFilePath = maybePath.value();
             break;
         }
         default:
-- 
2.43.0


From 80bb137f7aa9f1362d3e297621fa28a555e6a2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:54 +0000
Subject: [PATCH 16/45] fix: notifications arriving while a WaitSet collects
 were starved and an attached state could be waited for forever

---
 iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl  | 3 ++-
 .../source/popo/building_blocks/condition_listener.cpp        | 4 +++-
 .../source/popo/building_blocks/condition_notifier.cpp        | 2 +-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl b/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl
index 686120b..59b47bf 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl
+++ b/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl
@@ -388,7 +388,8 @@ WaitSet<Capacity>::waitAndReturnTriggeredTriggers(const WaitFunction& wait) noex
 {
     if (m_conditionListener.wasNotified())
     {
-        this->acquireNotifications(wait);
+        // must not block since a state which was already acquired could still be satisfied
+        this->acquireNotifications([this] { return this->m_conditionListener.timedWait(units::Duration::zero()); });
     }
 
     NotificationInfoVector triggers = createVectorWithTriggeredTriggers();
diff --git a/iceoryx_posh/source/popo/building_blocks/condition_listener.cpp b/iceoryx_posh/source/popo/building_blocks/condition_listener.cpp
index fb82639..574a639 100644
--- a/iceoryx_posh/source/popo/building_blocks/condition_listener.cpp
+++ b/iceoryx_posh/source/popo/building_blocks/condition_listener.cpp
@@ -87,6 +87,9 @@ ConditionListener::NotificationVector_t ConditionListener::waitImpl(const functi
     bool doReturnAfterNotificationCollection = false;
     while (!m_toBeDestroyed.load(std::memory_order_relaxed))
     {
+        // must be reset before the notifications are collected, a notification which arrives while they are collected
+        // must either be collected or leave the flag set
+        getMembers()->m_wasNotified.exchange(false, std::memory_order_acq_rel);
         for (Type_t i = 0U; i < MAX_NUMBER_OF_NOTIFIERS; i++)
         {
             if (getMembers()->m_activeNotifications[i].load(std::memory_order_relaxed))
@@ -109,7 +112,6 @@ ConditionListener::NotificationVector_t ConditionListener::waitImpl(const functi
 void ConditionListener::resetUnchecked(const uint64_t index) noexcept
 {
     getMembers()->m_activeNotifications[index].store(false, std::memory_order_relaxed);
-    getMembers()->m_wasNotified.store(false, std::memory_order_relaxed);
 }
 
 const ConditionVariableData* ConditionListener::getMembers() volatile const noexcept
diff --git a/iceoryx_posh/source/popo/building_blocks/condition_notifier.cpp b/iceoryx_posh/source/popo/building_blocks/condition_notifier.cpp
index 7174331..e849582 100644
--- a/iceoryx_posh/source/popo/building_blocks/condition_notifier.cpp
+++ b/iceoryx_posh/source/popo/building_blocks/condition_notifier.cpp
@@ -39,7 +39,7 @@ ConditionNotifier::ConditionNotifier(ConditionVariableData& condVarDataRef, cons
 void ConditionNotifier::notify() noexcept
 {
     getMembers()->m_activeNotifications[m_notificationIndex].store(true, std::memory_order_release);
-    getMembers()->m_wasNotified.store(true, std::memory_order_relaxed);
+    getMembers()->m_wasNotified.store(true, std::memory_order_release);
     getMembers()->m_semaphore->post().or_else(
         [](auto) { IOX_REPORT_FATAL(PoshError::POPO__CONDITION_NOTIFIER_SEMAPHORE_CORRUPT_IN_NOTIFY); });
 }
-- 
2.43.0


From 536a8ed70b7a61fe7ee34fc6a631c7fd6d624e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:54 +0000
Subject: [PATCH 17/45] fix: WaitSet reported a stale notification of a former
 attachment for the reused index

---
 .../include/iceoryx_posh/internal/popo/wait_set.inl    | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl b/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl
index 59b47bf..27e3f9b 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl
+++ b/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl
@@ -126,6 +126,16 @@ WaitSet<Capacity>::attachImpl(T& eventOrigin,
         return err(WaitSetError::WAIT_SET_FULL);
     }
 
+    // the index could have been in use before, a notification of the former attachment must not be reported
+    m_conditionVariableDataPtr->m_activeNotifications[*index].store(false, std::memory_order_relaxed);
+    for (uint64_t i = 0U; i < m_activeNotifications.size(); ++i)
+    {
+        if (m_activeNotifications[i] == *index)
+        {
+            m_activeNotifications.erase(m_activeNotifications.begin() + i);
+            break;
+        }
+    }
 
     if (hasTriggeredCallback)
     {
-- 
2.43.0


From 1096d125fc9ffb588d43f99f7d6857b5fc7a51ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:54 +0000
Subject: [PATCH 18/45] fix: destroyed but not yet removed ports still notified
 their former WaitSet

---
 .../iceoryx_posh/internal/popo/ports/client_port_user.hpp   | 4 ++++
 .../iceoryx_posh/internal/popo/ports/server_port_user.hpp   | 4 ++++
 .../internal/popo/ports/subscriber_port_user.hpp            | 4 ++++
 iceoryx_posh/source/popo/ports/client_port_user.cpp         | 6 ++++++
 iceoryx_posh/source/popo/ports/server_port_user.cpp         | 6 ++++++
 iceoryx_posh/source/popo/ports/subscriber_port_user.cpp     | 6 ++++++
 6 files changed, 30 insertions(+)

diff --git a/iceoryx_posh/include/iceoryx_posh/internal/popo/ports/client_port_user.hpp b/iceoryx_posh/include/iceoryx_posh/internal/popo/ports/client_port_user.hpp
index d67ebff..8568632 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/popo/ports/client_port_user.hpp
+++ b/iceoryx_posh/include/iceoryx_posh/internal/popo/ports/client_port_user.hpp
@@ -138,6 +138,10 @@ class ClientPortUser : public BasePort
     /// @brief unset a condition variable from the client
     void unsetConditionVariable() noexcept;
 
+    /// @brief Marks the port for destruction. Until RouDi has removed the port, data can still arrive but a condition
+    /// variable is not notified anymore
+    void destroy() noexcept;
+
     /// @brief check if there's a condition variable set
     /// @return true if a condition variable attached, otherwise false
     bool isConditionVariableSet() const noexcept;
diff --git a/iceoryx_posh/include/iceoryx_posh/internal/popo/ports/server_port_user.hpp b/iceoryx_posh/include/iceoryx_posh/internal/popo/ports/server_port_user.hpp
index 9ace776..deba5da 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/popo/ports/server_port_user.hpp
+++ b/iceoryx_posh/include/iceoryx_posh/internal/popo/ports/server_port_user.hpp
@@ -168,6 +168,10 @@ class ServerPortUser : public BasePort
     /// @brief unset a condition variable from the client
     void unsetConditionVariable() noexcept;
 
+    /// @brief Marks the port for destruction. Until RouDi has removed the port, data can still arrive but a condition
+    /// variable is not notified anymore
+    void destroy() noexcept;
+
     /// @brief check if there's a condition variable set
     /// @return true if a condition variable attached, otherwise false
     bool isConditionVariableSet() const noexcept;
diff --git a/iceoryx_posh/include/iceoryx_posh/internal/popo/ports/subscriber_port_user.hpp b/iceoryx_posh/include/iceoryx_posh/internal/popo/ports/subscriber_port_user.hpp
index 653b7ef..5e1d88a 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/popo/ports/subscriber_port_user.hpp
+++ b/iceoryx_posh/include/iceoryx_posh/internal/popo/ports/subscriber_port_user.hpp
@@ -88,6 +88,10 @@ class SubscriberPortUser : public BasePort
     /// @brief detach a condition variable from subscriber
     void unsetConditionVariable() noexcept;
 
+    /// @brief Marks the port for destruction. Until RouDi has removed the port, data can still arrive but a condition
+    /// variable is not notified anymore
+    void destroy() noexcept;
+
     /// @brief check if there's a condition variable attached
     /// @return true if a condition variable attached, otherwise false
     bool isConditionVariableSet() noexcept;
diff --git a/iceoryx_posh/source/popo/ports/client_port_user.cpp b/iceoryx_posh/source/popo/ports/client_port_user.cpp
index 3ddf8f2..ce73562 100644
--- a/iceoryx_posh/source/popo/ports/client_port_user.cpp
+++ b/iceoryx_posh/source/popo/ports/client_port_user.cpp
@@ -166,6 +166,12 @@ void ClientPortUser::unsetConditionVariable() noexcept
     m_chunkReceiver.unsetConditionVariable();
 }
 
+void ClientPortUser::destroy() noexcept
+{
+    unsetConditionVariable();
+    BasePort::destroy();
+}
+
 bool ClientPortUser::isConditionVariableSet() const noexcept
 {
     return m_chunkReceiver.isConditionVariableSet();
diff --git a/iceoryx_posh/source/popo/ports/server_port_user.cpp b/iceoryx_posh/source/popo/ports/server_port_user.cpp
index d242d80..1ff4bf3 100644
--- a/iceoryx_posh/source/popo/ports/server_port_user.cpp
+++ b/iceoryx_posh/source/popo/ports/server_port_user.cpp
@@ -195,6 +195,12 @@ void ServerPortUser::unsetConditionVariable() noexcept
     m_chunkReceiver.unsetConditionVariable();
 }
 
+void ServerPortUser::destroy() noexcept
+{
+    unsetConditionVariable();
+    BasePort::destroy();
+}
+
 bool ServerPortUser::isConditionVariableSet() const noexcept
 {
     return m_chunkReceiver.isConditionVariableSet();
diff --git a/iceoryx_posh/source/popo/ports/subscriber_port_user.cpp b/iceoryx_posh/source/popo/ports/subscriber_port_user.cpp
index d2ced21..57dc9ae 100644
--- a/iceoryx_posh/source/popo/ports/subscriber_port_user.cpp
+++ b/iceoryx_posh/source/popo/ports/subscriber_port_user.cpp
@@ -99,6 +99,12 @@ void SubscriberPortUser::unsetConditionVariable() noexcept
     m_chunkReceiver.unsetConditionVariable();
 }
 
+void SubscriberPortUser::destroy() noexcept
+{
+    unsetConditionVariable();
+    BasePort::destroy();
+}
+
 bool SubscriberPortUser::isConditionVariableSet() noexcept
 {
     return m_chunkReceiver.isConditionVariableSet();
-- 
2.43.0


From 5f0a49a088f361d94f52f96d6724ede3316ffa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:00 +0000
Subject: [PATCH 19/45] fix: process introspection removed another process with
 the same pid when one of them ended

---
 .../introspection/process_introspection.hpp      |  5 +++++
 .../introspection/process_introspection.inl      | 16 ++++++++++++++++
 iceoryx_posh/source/roudi/process_manager.cpp    |  2 +-
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/process_introspection.hpp b/iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/process_introspection.hpp
index 02966b9..179840b 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/process_introspection.hpp
+++ b/iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/process_introspection.hpp
@@ -60,6 +60,11 @@ class ProcessIntrospection
     /// @param[in] pid is the PID of the process to remove
     void removeProcess(const int pid) noexcept;
 
+    /// @brief This function is used to remove one of multiple runtimes with the same PID from the process introspection
+    /// @param[in] pid is the PID of the process to remove
+    /// @param[in] name is the name of the process to remove
+    void removeProcess(const int pid, const RuntimeName_t& name) noexcept;
+
     /// @brief This functions registers the POSH publisher port which is used
     ///        to send the data to the instrospcetion client
     /// @param publisherPort is the publisher port for transmission
diff --git a/iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/process_introspection.inl b/iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/process_introspection.inl
index a2f6992..76165ee 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/process_introspection.inl
+++ b/iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/process_introspection.inl
@@ -73,6 +73,22 @@ inline void ProcessIntrospection<PublisherPort>::removeProcess(const int pid) no
     m_processListNewData = true;
 }
 
+template <typename PublisherPort>
+inline void ProcessIntrospection<PublisherPort>::removeProcess(const int pid, const RuntimeName_t& name) noexcept
+{
+    std::lock_guard<std::mutex> guard(m_mutex);
+
+    for (auto it = m_processList.begin(); it != m_processList.end(); ++it)
+    {
+        if (it->m_pid == pid && it->m_name == name)
+        {
+            m_processList.erase(it);
+            break;
+        }
+    }
+    m_processListNewData = true;
+}
+
 template <typename PublisherPort>
 inline void ProcessIntrospection<PublisherPort>::registerPublisherPort(PublisherPort&& publisherPort) noexcept
 {
diff --git a/iceoryx_posh/source/roudi/process_manager.cpp b/iceoryx_posh/source/roudi/process_manager.cpp
index 48406c5..2e76805 100644
--- a/iceoryx_posh/source/roudi/process_manager.cpp
+++ b/iceoryx_posh/source/roudi/process_manager.cpp
@@ -359,7 +359,7 @@ bool ProcessManager::removeProcessAndDeleteRespectiveSharedMemoryObjects(Process
     if (processIter != m_processList.end())
     {
         m_portManager.deletePortsOfProcess(processIter->getName());
-        m_processIntrospection->removeProcess(static_cast<int32_t>(processIter->getPid()));
+        m_processIntrospection->removeProcess(static_cast<int32_t>(processIter->getPid()), processIter->getName());
 
         if (feedback == TerminationFeedback::SEND_ACK_TO_PROCESS)
         {
-- 
2.43.0


From 134591b2597a00e186b16ff42ae8b2d2e4983e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:00 +0000
Subject: [PATCH 20/45] fix: node name of a publisher was lost in the request
 to RouDi

---
 iceoryx_posh/source/runtime/posh_runtime_impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iceoryx_posh/source/runtime/posh_runtime_impl.cpp b/iceoryx_posh/source/runtime/posh_runtime_impl.cpp
index d63db25..71f1dfe 100644
--- a/iceoryx_posh/source/runtime/posh_runtime_impl.cpp
+++ b/iceoryx_posh/source/runtime/posh_runtime_impl.cpp
@@ -172,7 +172,7 @@ PoshRuntimeImpl::getMiddlewarePublisher(const capro::ServiceDescription& service
 
     IpcMessage sendBuffer;
     sendBuffer << IpcMessageTypeToString(IpcMessageType::CREATE_PUBLISHER) << m_appName
-               << static_cast<Serialization>(service).toString() << publisherOptions.serialize().toString()
+               << static_cast<Serialization>(service).toString() << options.serialize().toString()
                << static_cast<Serialization>(portConfigInfo).toString();
 
     auto maybePublisher = requestPublisherFromRoudi(sendBuffer);
-- 
2.43.0


From 2a8331877e9f2ecd506c22bd2aac61cf8e04c19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:00 +0000
Subject: [PATCH 21/45] fix: port introspection did not publish the data of a
 new subscriber

---
 .../internal/roudi/introspection/port_introspection.inl          | 1 +
 1 file changed, 1 insertion(+)

diff --git a/iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/port_introspection.inl b/iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/port_introspection.inl
index 0165705..4e3c503 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/port_introspection.inl
+++ b/iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/port_introspection.inl
@@ -348,6 +348,7 @@ inline bool PortIntrospection<PublisherPort, SubscriberPort>::PortData::addSubsc
         }
     }
 
+    setNew(true);
     return true;
 }
 
-- 
2.43.0


From 480bbeca08941e2c47bdfc736ace81542891c33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:00 +0000
Subject: [PATCH 22/45] fix: iox_service_discovery_find_service left
 missedServices uninitialized

---
 iceoryx_binding_c/source/c_service_discovery.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/iceoryx_binding_c/source/c_service_discovery.cpp b/iceoryx_binding_c/source/c_service_discovery.cpp
index 7765076..a9d80ac 100644
--- a/iceoryx_binding_c/source/c_service_discovery.cpp
+++ b/iceoryx_binding_c/source/c_service_discovery.cpp
@@ -74,6 +74,7 @@ uint64_t iox_service_discovery_find_service(iox_service_discovery_t const self,
     }
 
     uint64_t currentSize = 0U;
+    *missedServices = 0U;
     auto filter = [&](const capro::ServiceDescription& s) {
         if (currentSize < serviceContainerCapacity)
         {
-- 
2.43.0


From ae8cbb52a494ac7afd5be335054f6de2253c2db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:00 +0000
Subject: [PATCH 23/45] fix: service descriptions with strings of full capacity
 were not terminated in the C API

---
 .../source/cpp2c_service_description_translation.cpp            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iceoryx_binding_c/source/cpp2c_service_description_translation.cpp b/iceoryx_binding_c/source/cpp2c_service_description_translation.cpp
index 1938d0b..9fc9c39 100644
--- a/iceoryx_binding_c/source/cpp2c_service_description_translation.cpp
+++ b/iceoryx_binding_c/source/cpp2c_service_description_translation.cpp
@@ -18,7 +18,7 @@
 
 iox_service_description_t TranslateServiceDescription(const iox::capro::ServiceDescription& serviceDescription) noexcept
 {
-    iox_service_description_t retVal;
+    iox_service_description_t retVal{}; // zero-initialized since strncpy does not terminate a string of full capacity
 
 #if defined(__GNUC__) && __GNUC__ >= 8
 #pragma GCC diagnostic push
-- 
2.43.0


From 3a4485c7244472374ff2918adbba2a32556125bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:00 +0000
Subject: [PATCH 24/45] fix: iox_pub_deinit released the port twice and could
 hit a new publisher in the same slot

---
 iceoryx_binding_c/source/c_publisher.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/iceoryx_binding_c/source/c_publisher.cpp b/iceoryx_binding_c/source/c_publisher.cpp
index 5ff63be..f5e90ce 100644
--- a/iceoryx_binding_c/source/c_publisher.cpp
+++ b/iceoryx_binding_c/source/c_publisher.cpp
@@ -109,7 +109,6 @@ void iox_pub_deinit(iox_pub_t const self)
 {
     IOX_ENFORCE(self != nullptr, "'self' must not be a 'nullptr'");
 
-    self->m_portData->m_toBeDestroyed.store(true, std::memory_order_relaxed);
     delete self;
 }
 
-- 
2.43.0


From f943ec917c2c61b00dc3b22bdd7c786bf47ad0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:00 +0000
Subject: [PATCH 25/45] fix: destroyed C subscriber could unset the condition
 variable of the port's successor

---
 iceoryx_binding_c/source/cpp2c_subscriber.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/iceoryx_binding_c/source/cpp2c_subscriber.cpp b/iceoryx_binding_c/source/cpp2c_subscriber.cpp
index e7458f5..ad2e87f 100644
--- a/iceoryx_binding_c/source/cpp2c_subscriber.cpp
+++ b/iceoryx_binding_c/source/cpp2c_subscriber.cpp
@@ -24,6 +24,8 @@ cpp2c_Subscriber::~cpp2c_Subscriber() noexcept
 {
     if (m_portData)
     {
+        // the trigger must not outlive the port since it would unset the condition variable of the port's successor
+        m_trigger.reset();
         iox::popo::SubscriberPortUser(m_portData).destroy();
     }
 }
-- 
2.43.0


From 6b3f757635fbfdd3ce1699573c1c7b6f9048a785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:00 +0000
Subject: [PATCH 26/45] fix: detached C subscriber kept notifying its former
 WaitSet or Listener

---
 iceoryx_binding_c/source/cpp2c_subscriber.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/iceoryx_binding_c/source/cpp2c_subscriber.cpp b/iceoryx_binding_c/source/cpp2c_subscriber.cpp
index ad2e87f..142600e 100644
--- a/iceoryx_binding_c/source/cpp2c_subscriber.cpp
+++ b/iceoryx_binding_c/source/cpp2c_subscriber.cpp
@@ -49,6 +49,7 @@ void cpp2c_Subscriber::disableEvent(const SubscriberEvent subscriberEvent) noexc
     {
     case SubscriberEvent::DATA_RECEIVED:
         m_trigger.reset();
+        iox::popo::SubscriberPortUser(m_portData).unsetConditionVariable();
         break;
     }
 }
@@ -72,6 +73,7 @@ void cpp2c_Subscriber::disableState(const SubscriberState subscriberState) noexc
     {
     case SubscriberState::HAS_DATA:
         m_trigger.reset();
+        iox::popo::SubscriberPortUser(m_portData).unsetConditionVariable();
         break;
     }
 }
-- 
2.43.0


From 641c0285cd9da41f571216b8e3b22aafee682496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:21 +0000
Subject: [PATCH 27/45] fix: report a failing mq_open of the MessageQueue

mq_open reports a failure with -1 but the return value was compared with
INVALID_DESCRIPTOR, the largest possible descriptor. Opening a message queue
which does not exist therefore seemed to succeed and led to an unusable queue.
---
 iceoryx_hoofs/posix/ipc/source/message_queue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iceoryx_hoofs/posix/ipc/source/message_queue.cpp b/iceoryx_hoofs/posix/ipc/source/message_queue.cpp
index 26d6ce7..7e29e49 100644
--- a/iceoryx_hoofs/posix/ipc/source/message_queue.cpp
+++ b/iceoryx_hoofs/posix/ipc/source/message_queue.cpp
@@ -215,7 +215,7 @@ expected<mqd_t, PosixIpcChannelError> MessageQueue::open(const PosixIpcChannelNa
         mode_t umaskSaved = umask(0);
         auto mqCall =
             IOX_POSIX_CALL(iox_mq_open4)(sanitizedName.c_str(), openFlags, MessageQueue::FILE_MODE, &attributes)
-                .failureReturnValue(MessageQueue::INVALID_DESCRIPTOR)
+                .failureReturnValue(MessageQueue::ERROR_CODE)
                 .suppressErrorMessagesForErrnos(ENOENT)
                 .evaluate();
 
-- 
2.43.0


From 99c2ed316d5366cbc4c01443b8cd506cc6750d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:21 +0000
Subject: [PATCH 28/45] fix: let NamedPipe::tryReceive report a received
 message

tryReceive took the message out of the pipe and returned INTERNAL_LOGIC_ERROR
nevertheless; the message was lost for the caller of the std::string variant.
---
 iceoryx_hoofs/posix/ipc/include/iox/detail/named_pipe.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/iceoryx_hoofs/posix/ipc/include/iox/detail/named_pipe.inl b/iceoryx_hoofs/posix/ipc/include/iox/detail/named_pipe.inl
index b9ec600..9fa4168 100644
--- a/iceoryx_hoofs/posix/ipc/include/iox/detail/named_pipe.inl
+++ b/iceoryx_hoofs/posix/ipc/include/iox/detail/named_pipe.inl
@@ -91,6 +91,7 @@ expected<void, PosixIpcChannelError> NamedPipe::tryReceive(iox::string<N>& messa
         {
             m_data->sendSemaphore().post().expect("'post' on a semaphore should always be successful");
             message = *msg;
+            return ok();
         }
         return err(PosixIpcChannelError::INTERNAL_LOGIC_ERROR);
     }
-- 
2.43.0


From a0e65c8b2c401ad9b187a7a270ee1bfc53fcb6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:21 +0000
Subject: [PATCH 29/45] fix: do not read in front of the buffer when an empty
 IPC message arrives

An empty datagram or an empty message queue entry led to an access of the
element with the index -1 and, depending on what is there, to a reported
length of 2^64 - 1.
---
 iceoryx_hoofs/posix/ipc/include/iox/detail/message_queue.inl    | 2 +-
 .../posix/ipc/include/iox/detail/unix_domain_socket.inl         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/iceoryx_hoofs/posix/ipc/include/iox/detail/message_queue.inl b/iceoryx_hoofs/posix/ipc/include/iox/detail/message_queue.inl
index bd46cfd..20e233b 100644
--- a/iceoryx_hoofs/posix/ipc/include/iox/detail/message_queue.inl
+++ b/iceoryx_hoofs/posix/ipc/include/iox/detail/message_queue.inl
@@ -199,7 +199,7 @@ expected<uint64_t, PosixIpcChannelError> MessageQueue::receiveVerification(not_n
     if constexpr (Terminator == Termination::NULL_TERMINATOR)
     {
         // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
-        if (msg[msgLenght - NULL_TERMINATOR_SIZE] != 0)
+        if (msgLenght < NULL_TERMINATOR_SIZE || msg[msgLenght - NULL_TERMINATOR_SIZE] != 0)
         {
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
             msg[0] = 0;
diff --git a/iceoryx_hoofs/posix/ipc/include/iox/detail/unix_domain_socket.inl b/iceoryx_hoofs/posix/ipc/include/iox/detail/unix_domain_socket.inl
index 96df645..b7ba6e6 100644
--- a/iceoryx_hoofs/posix/ipc/include/iox/detail/unix_domain_socket.inl
+++ b/iceoryx_hoofs/posix/ipc/include/iox/detail/unix_domain_socket.inl
@@ -101,7 +101,7 @@ expected<uint64_t, PosixIpcChannelError> UnixDomainSocket::timedReceiveImpl(
     if constexpr (Terminator == Termination::NULL_TERMINATOR)
     {
         // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
-        if (msg[receivedMsgLength - NULL_TERMINATOR_SIZE] != 0)
+        if (receivedMsgLength < NULL_TERMINATOR_SIZE || msg[receivedMsgLength - NULL_TERMINATOR_SIZE] != 0)
         {
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
             msg[0] = 0;
-- 
2.43.0


From 42b7f6f598a9e48807c49e8ef71b12c497a8624f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:54 +0000
Subject: [PATCH 30/45] fix: do not wait forever on a UnixDomainSocket with a
 timeout below 1 us

The timeout is converted to a timeval and one which is shorter than a
microsecond became zero, which turns the timeout of the socket off.
---
 .../ipc/include/iox/detail/unix_domain_socket.inl      | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/iceoryx_hoofs/posix/ipc/include/iox/detail/unix_domain_socket.inl b/iceoryx_hoofs/posix/ipc/include/iox/detail/unix_domain_socket.inl
index b7ba6e6..7a24e0c 100644
--- a/iceoryx_hoofs/posix/ipc/include/iox/detail/unix_domain_socket.inl
+++ b/iceoryx_hoofs/posix/ipc/include/iox/detail/unix_domain_socket.inl
@@ -38,6 +38,11 @@ expected<void, PosixIpcChannelError> UnixDomainSocket::timedSendImpl(not_null<co
     }
 
     auto tv = timeout.timeval();
+    if (tv.tv_sec == 0 && tv.tv_usec == 0 && timeout > units::Duration::zero())
+    {
+        // a timeout of zero turns the timeout off, a timeout below the resolution of a timeval must not do this
+        tv.tv_usec = 1;
+    }
     auto setsockoptCall = IOX_POSIX_CALL(iox_setsockopt)(m_sockfd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof(tv))
                               .failureReturnValue(ERROR_CODE)
                               .ignoreErrnos(EWOULDBLOCK)
@@ -74,6 +79,11 @@ expected<uint64_t, PosixIpcChannelError> UnixDomainSocket::timedReceiveImpl(
     }
 
     auto tv = timeout.timeval();
+    if (tv.tv_sec == 0 && tv.tv_usec == 0 && timeout > units::Duration::zero())
+    {
+        // a timeout of zero turns the timeout off, a timeout below the resolution of a timeval must not do this
+        tv.tv_usec = 1;
+    }
     auto setsockoptCall = IOX_POSIX_CALL(iox_setsockopt)(m_sockfd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof(tv))
                               .failureReturnValue(ERROR_CODE)
                               .ignoreErrnos(EWOULDBLOCK)
-- 
2.43.0


From a836caa4cc5036caaec1d6206afe4d424a04d5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:54 +0000
Subject: [PATCH 31/45] fix: refuse IPC channel names which would be truncated

The name of a NamedPipe was compared with the maximum size of a message instead
of the space which is left for the name and a MessageQueue name without leading
slash was truncated when the slash was added. Channels whose names differ in the
truncated part only were mixed up.
---
 iceoryx_hoofs/posix/ipc/source/message_queue.cpp | 4 ++++
 iceoryx_hoofs/posix/ipc/source/named_pipe.cpp    | 8 +++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/iceoryx_hoofs/posix/ipc/source/message_queue.cpp b/iceoryx_hoofs/posix/ipc/source/message_queue.cpp
index 7e29e49..5780b88 100644
--- a/iceoryx_hoofs/posix/ipc/source/message_queue.cpp
+++ b/iceoryx_hoofs/posix/ipc/source/message_queue.cpp
@@ -355,6 +355,10 @@ MessageQueue::sanitizeIpcChannelName(const PosixIpcChannelName_t& name) noexcept
     // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
     if (name.c_str()[0] != '/')
     {
+        if (name.size() == PosixIpcChannelName_t::capacity())
+        {
+            return err(PosixIpcChannelError::INVALID_CHANNEL_NAME);
+        }
         return ok(PosixIpcChannelName_t("/").append(iox::TruncateToCapacity, name));
     }
 
diff --git a/iceoryx_hoofs/posix/ipc/source/named_pipe.cpp b/iceoryx_hoofs/posix/ipc/source/named_pipe.cpp
index 7e99fa7..6c9ad06 100644
--- a/iceoryx_hoofs/posix/ipc/source/named_pipe.cpp
+++ b/iceoryx_hoofs/posix/ipc/source/named_pipe.cpp
@@ -38,11 +38,13 @@ constexpr units::Duration NamedPipe::NamedPipeData::WAIT_FOR_INIT_TIMEOUT;
 // NOLINTNEXTLINE(readability-function-size,readability-function-cognitive-complexity)
 expected<NamedPipe, PosixIpcChannelError> NamedPipeBuilder::create() const noexcept
 {
-    if (m_name.size() + strlen(&NamedPipe::NAMED_PIPE_PREFIX[0]) > NamedPipe::MAX_MESSAGE_SIZE)
+    // a leading slash is not part of the name of the underlying shared memory
+    const uint64_t nameLength = (!m_name.empty() && m_name[0] == '/') ? m_name.size() - 1U : m_name.size();
+    const uint64_t maxNameLength = PosixIpcChannelName_t::capacity() - strlen(&NamedPipe::NAMED_PIPE_PREFIX[0]);
+    if (nameLength > maxNameLength)
     {
         IOX_LOG(Error,
-                "The named pipe name: '" << m_name << "' is too long. Maxium name length is: "
-                                         << NamedPipe::MAX_MESSAGE_SIZE - strlen(&NamedPipe::NAMED_PIPE_PREFIX[0]));
+                "The named pipe name: '" << m_name << "' is too long. Maxium name length is: " << maxNameLength);
         return err(PosixIpcChannelError::INVALID_CHANNEL_NAME);
     }
 
-- 
2.43.0


From a2b430b8cf4a4c95888ccdb2c3bf4d7a6f511b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:54 +0000
Subject: [PATCH 32/45] fix: do not terminate when the error type of an IPC
 message is no number

stringToIpcMessageErrorType accessed the result of the conversion without
looking whether there is one.
---
 iceoryx_posh/source/runtime/ipc_interface_base.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iceoryx_posh/source/runtime/ipc_interface_base.cpp b/iceoryx_posh/source/runtime/ipc_interface_base.cpp
index c52f0bd..225113f 100644
--- a/iceoryx_posh/source/runtime/ipc_interface_base.cpp
+++ b/iceoryx_posh/source/runtime/ipc_interface_base.cpp
@@ -60,6 +60,10 @@ IpcMessageErrorType stringToIpcMessageErrorType(const char* str) noexcept
     using UnderlyingType = std::underlying_type<IpcMessageErrorType>::type;
     UnderlyingType msg;
     auto result = convert::from_string<UnderlyingType>(str);
+    if (!result.has_value())
+    {
+        return IpcMessageErrorType::NOTYPE;
+    }
 
     msg = result.value();
 
-- 
2.43.0


From 93c8049766b45d582c6cb75491788d3c128fd716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:54 +0000
Subject: [PATCH 33/45] fix: refuse a serialization with a length which
 overflows

The sum of the position and the length of an entry wrapped around for lengths
close to 2^64, which let a malformed serialization appear to be valid.
---
 iceoryx_hoofs/utility/include/iox/detail/serialization.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iceoryx_hoofs/utility/include/iox/detail/serialization.inl b/iceoryx_hoofs/utility/include/iox/detail/serialization.inl
index 502e1b1..e452010 100644
--- a/iceoryx_hoofs/utility/include/iox/detail/serialization.inl
+++ b/iceoryx_hoofs/utility/include/iox/detail/serialization.inl
@@ -121,7 +121,7 @@ inline bool Serialization::removeFirstEntry(std::string& firstEntry, std::string
 
     const auto length = result.value();
 
-    if (remainder.size() < pos + length + 1U)
+    if (remainder.size() - (pos + 1U) < length)
     {
         return false;
     }
-- 
2.43.0


From 2c65423ac8b3055b121c49ddfb5d1769b33fe40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:15 +0000
Subject: [PATCH 34/45] fix: synchronize the last owner of a chunk with the
 former owners

The reference counter of a chunk was decremented with memory_order_relaxed and
read with memory_order_relaxed before a chunk is recycled. What a former owner
read from the chunk was therefore not ordered before the memory is reused.
---
 iceoryx_posh/source/mepoo/shared_chunk.cpp             | 2 +-
 iceoryx_posh/source/mepoo/shm_safe_unmanaged_chunk.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/iceoryx_posh/source/mepoo/shared_chunk.cpp b/iceoryx_posh/source/mepoo/shared_chunk.cpp
index 035f49d..d6fe362 100644
--- a/iceoryx_posh/source/mepoo/shared_chunk.cpp
+++ b/iceoryx_posh/source/mepoo/shared_chunk.cpp
@@ -54,7 +54,7 @@ void SharedChunk::incrementReferenceCounter() noexcept
 void SharedChunk::decrementReferenceCounter() noexcept
 {
     if ((m_chunkManagement != nullptr)
-        && (m_chunkManagement->m_referenceCounter.fetch_sub(1U, std::memory_order_relaxed) == 1U))
+        && (m_chunkManagement->m_referenceCounter.fetch_sub(1U, std::memory_order_acq_rel) == 1U))
     {
         MemoryManager::freeChunk(*m_chunkManagement);
         m_chunkManagement = nullptr;
diff --git a/iceoryx_posh/source/mepoo/shm_safe_unmanaged_chunk.cpp b/iceoryx_posh/source/mepoo/shm_safe_unmanaged_chunk.cpp
index 32116ac..ff5da97 100644
--- a/iceoryx_posh/source/mepoo/shm_safe_unmanaged_chunk.cpp
+++ b/iceoryx_posh/source/mepoo/shm_safe_unmanaged_chunk.cpp
@@ -113,7 +113,7 @@ bool ShmSafeUnmanagedChunk::isNotLogicalNullptrAndHasNoOtherOwners() const noexc
 
     auto chunkMgmt =
         RelativePointer<mepoo::ChunkManagement>(m_chunkManagement.offset(), segment_id_t{m_chunkManagement.id()});
-    return chunkMgmt->m_referenceCounter.load(std::memory_order_relaxed) == 1U;
+    return chunkMgmt->m_referenceCounter.load(std::memory_order_acquire) == 1U;
 }
 
 } // namespace mepoo
-- 
2.43.0


From 252eaf1c50a19ebb3264584c272b7d98fe598487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:15 +0000
Subject: [PATCH 35/45] fix: synchronize the owners of an index of the
 MpmcIndexQueue

All operations were relaxed. The MpmcLockFreeQueue therefore could overwrite an
element while the thread which gave back its index still moved it out.
---
 .../detail/mpmc_lockfree_queue/mpmc_index_queue.inl    | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/iceoryx_hoofs/concurrent/buffer/include/iox/detail/mpmc_lockfree_queue/mpmc_index_queue.inl b/iceoryx_hoofs/concurrent/buffer/include/iox/detail/mpmc_lockfree_queue/mpmc_index_queue.inl
index 5c76800..6ab97bd 100644
--- a/iceoryx_hoofs/concurrent/buffer/include/iox/detail/mpmc_lockfree_queue/mpmc_index_queue.inl
+++ b/iceoryx_hoofs/concurrent/buffer/include/iox/detail/mpmc_lockfree_queue/mpmc_index_queue.inl
@@ -89,8 +89,10 @@ inline void MpmcIndexQueue<Capacity, ValueType>::push(const ValueType index) noe
             Index newValue(index, writePosition.getCycle());
 
             // if publish fails, another thread has published before us
+            // the release synchronizes with the acquire of the pop which gains the index; whatever the former owner did
+            // with the element of the index happens before the new owner uses it
             bool published = m_cells[writePosition.getIndex()].compare_exchange_weak(
-                oldValue, newValue, std::memory_order_relaxed, std::memory_order_relaxed);
+                oldValue, newValue, std::memory_order_release, std::memory_order_relaxed);
 
             if (published)
             {
@@ -159,7 +161,7 @@ inline bool MpmcIndexQueue<Capacity, ValueType>::pop(ValueType& index) noexcept
     auto readPosition = m_readPosition.load(std::memory_order_relaxed);
     do
     {
-        value = loadvalueAt(readPosition, std::memory_order_relaxed);
+        value = loadvalueAt(readPosition, std::memory_order_acquire);
 
         // we only dequeue if value and readPosition are in the same cycle
         auto cellIsValidToRead = readPosition.getCycle() == value.getCycle();
@@ -209,7 +211,7 @@ inline bool MpmcIndexQueue<Capacity, ValueType>::popIfFull(ValueType& index) noe
 
     const auto writePosition = m_writePosition.load(std::memory_order_relaxed);
     auto readPosition = m_readPosition.load(std::memory_order_relaxed);
-    const auto value = loadvalueAt(readPosition, std::memory_order_relaxed);
+    const auto value = loadvalueAt(readPosition, std::memory_order_acquire);
 
     auto isFull = writePosition.getIndex() == readPosition.getIndex() && readPosition.isOneCycleBehind(writePosition);
 
@@ -264,7 +266,7 @@ inline bool MpmcIndexQueue<Capacity, ValueType>::popIfSizeIsAtLeast(const uint64
     // delta is positive, therefore the conversion is fine (it surely fits into uint64_t)
     if (static_cast<uint64_t>(delta) >= minSize)
     {
-        auto value = loadvalueAt(readPosition, std::memory_order_relaxed);
+        auto value = loadvalueAt(readPosition, std::memory_order_acquire);
         Index newReadPosition(readPosition + 1U);
         auto ownershipGained = m_readPosition.compare_exchange_strong(
             readPosition, newReadPosition, std::memory_order_relaxed, std::memory_order_relaxed);
-- 
2.43.0


From 480f72f0ff3cdd434a75b005da7a5f20172305c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:15 +0000
Subject: [PATCH 36/45] fix: data race on the links of the MpmcLoFFLi

'pop' reads the link of a possibly outdated head while another thread may modify
it. The value is dropped by the compare and swap in this case but the accesses
have to be atomic nevertheless.
---
 .../buffer/include/iox/detail/mpmc_loffli.hpp    |  6 +++++-
 .../concurrent/buffer/source/mpmc_loffli.cpp     | 16 +++++++++-------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/iceoryx_hoofs/concurrent/buffer/include/iox/detail/mpmc_loffli.hpp b/iceoryx_hoofs/concurrent/buffer/include/iox/detail/mpmc_loffli.hpp
index 3cf5f4f..3fbcac7 100644
--- a/iceoryx_hoofs/concurrent/buffer/include/iox/detail/mpmc_loffli.hpp
+++ b/iceoryx_hoofs/concurrent/buffer/include/iox/detail/mpmc_loffli.hpp
@@ -71,7 +71,11 @@ class MpmcLoFFLi
     uint32_t m_size{0U};
     Index_t m_invalidIndex{0U};
     Atomic<Node> m_head{{0U, 1U}};
-    iox::RelativePointer<Index_t> m_nextFreeIndex;
+    // the links are read by 'pop' while other threads may modify them
+    using Link_t = Atomic<Index_t>;
+    static_assert(sizeof(Link_t) == sizeof(Index_t) && alignof(Link_t) == alignof(Index_t),
+                  "The links must fit into the memory provided for the indices!");
+    iox::RelativePointer<Link_t> m_nextFreeIndex;
 
   public:
     MpmcLoFFLi() noexcept = default;
diff --git a/iceoryx_hoofs/concurrent/buffer/source/mpmc_loffli.cpp b/iceoryx_hoofs/concurrent/buffer/source/mpmc_loffli.cpp
index d7e2707..6a5ba59 100644
--- a/iceoryx_hoofs/concurrent/buffer/source/mpmc_loffli.cpp
+++ b/iceoryx_hoofs/concurrent/buffer/source/mpmc_loffli.cpp
@@ -29,7 +29,8 @@ void MpmcLoFFLi::init(not_null<Index_t*> freeIndicesMemory, const uint32_t capac
     IOX_ENFORCE(capacity < (std::numeric_limits<Index_t>::max() - INTERNALLY_RESERVED_INDICES),
                 "Requested capacity exceeds limits!");
 
-    m_nextFreeIndex = freeIndicesMemory;
+    // NOLINTNEXTLINE(cppcoreguidelines-pro-type-reinterpret-cast) the links are constructed in this memory below
+    m_nextFreeIndex = reinterpret_cast<Link_t*>(static_cast<Index_t*>(freeIndicesMemory));
     m_size = capacity;
     m_invalidIndex = m_size + 1;
 
@@ -38,7 +39,7 @@ void MpmcLoFFLi::init(not_null<Index_t*> freeIndicesMemory, const uint32_t capac
         for (uint32_t i = 0; i < m_size + 1; i++)
         {
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic) upper limit of index is set by m_size
-            m_nextFreeIndex.get()[i] = i + 1;
+            new (&m_nextFreeIndex.get()[i]) Link_t(i + 1);
         }
     }
 }
@@ -57,7 +58,7 @@ bool MpmcLoFFLi::pop(Index_t& index) noexcept
         }
 
         // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic) upper limit of index set by m_size
-        newHead.indexToNextFreeIndex = m_nextFreeIndex.get()[oldHead.indexToNextFreeIndex];
+        newHead.indexToNextFreeIndex = m_nextFreeIndex.get()[oldHead.indexToNextFreeIndex].load(std::memory_order_relaxed);
         newHead.abaCounter = oldHead.abaCounter + 1;
     } while (!m_head.compare_exchange_weak(oldHead, newHead, std::memory_order_acq_rel, std::memory_order_acquire));
 
@@ -69,7 +70,7 @@ bool MpmcLoFFLi::pop(Index_t& index) noexcept
     ///         thread which performs the cleanup and during this process a synchronization
     ///         is required
     // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
-    m_nextFreeIndex.get()[index] = m_invalidIndex;
+    m_nextFreeIndex.get()[index].store(m_invalidIndex, std::memory_order_relaxed);
 
     /// we need to synchronize m_nextFreeIndex with push so that we can perform a validation
     /// check right before push to avoid double free's;
@@ -90,8 +91,9 @@ bool MpmcLoFFLi::push(const Index_t index) noexcept
 
     /// we want to avoid double free's therefore we check if the index was acquired
     /// in pop and the push argument "index" is valid
-    // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic) index is limited by capacity
-    if (index >= m_size || !m_nextFreeIndex || m_nextFreeIndex.get()[index] != m_invalidIndex)
+    if (index >= m_size || !m_nextFreeIndex
+        // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic) index is limited by capacity
+        || m_nextFreeIndex.get()[index].load(std::memory_order_relaxed) != m_invalidIndex)
     {
         return false;
     }
@@ -102,7 +104,7 @@ bool MpmcLoFFLi::push(const Index_t index) noexcept
     do
     {
         // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic) index is limited by capacity
-        m_nextFreeIndex.get()[index] = oldHead.indexToNextFreeIndex;
+        m_nextFreeIndex.get()[index].store(oldHead.indexToNextFreeIndex, std::memory_order_relaxed);
         newHead.indexToNextFreeIndex = index;
         newHead.abaCounter = oldHead.abaCounter + 1;
     } while (!m_head.compare_exchange_weak(oldHead, newHead, std::memory_order_acq_rel, std::memory_order_acquire));
-- 
2.43.0


From 46b38a9c184fff9d5776d352e7d0fe647aa8f136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:15 +0000
Subject: [PATCH 37/45] fix: order the last use of a port or condition variable
 before its destruction

The request to destroy a port or a condition variable was a relaxed store and
RouDi looked for it with a relaxed load; the last accesses of the user were
therefore not ordered before the destruction and the reuse of the memory.
---
 iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl | 2 +-
 iceoryx_posh/source/popo/listener.cpp                        | 2 +-
 iceoryx_posh/source/popo/ports/base_port.cpp                 | 4 ++--
 iceoryx_posh/source/roudi/port_manager.cpp                   | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl b/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl
index 27e3f9b..23e71a5 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl
+++ b/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl
@@ -92,7 +92,7 @@ template <uint64_t Capacity>
 inline WaitSet<Capacity>::~WaitSet() noexcept
 {
     removeAllTriggers();
-    m_conditionVariableDataPtr->m_toBeDestroyed.store(true, std::memory_order_relaxed);
+    m_conditionVariableDataPtr->m_toBeDestroyed.store(true, std::memory_order_release);
 }
 
 template <uint64_t Capacity>
diff --git a/iceoryx_posh/source/popo/listener.cpp b/iceoryx_posh/source/popo/listener.cpp
index 19c1c6f..052673e 100644
--- a/iceoryx_posh/source/popo/listener.cpp
+++ b/iceoryx_posh/source/popo/listener.cpp
@@ -39,7 +39,7 @@ Listener::~Listener() noexcept
     m_conditionListener.destroy();
 
     m_thread.join();
-    m_conditionVariableData->m_toBeDestroyed.store(true, std::memory_order_relaxed);
+    m_conditionVariableData->m_toBeDestroyed.store(true, std::memory_order_release);
 }
 
 uint64_t Listener::size() const noexcept
diff --git a/iceoryx_posh/source/popo/ports/base_port.cpp b/iceoryx_posh/source/popo/ports/base_port.cpp
index f25f5da..0032559 100644
--- a/iceoryx_posh/source/popo/ports/base_port.cpp
+++ b/iceoryx_posh/source/popo/ports/base_port.cpp
@@ -63,12 +63,12 @@ BasePort::operator bool() const noexcept
 
 void BasePort::destroy() noexcept
 {
-    getMembers()->m_toBeDestroyed.store(true, std::memory_order_relaxed);
+    getMembers()->m_toBeDestroyed.store(true, std::memory_order_release);
 }
 
 bool BasePort::toBeDestroyed() const noexcept
 {
-    return getMembers()->m_toBeDestroyed.load(std::memory_order_relaxed);
+    return getMembers()->m_toBeDestroyed.load(std::memory_order_acquire);
 }
 
 } // namespace popo
diff --git a/iceoryx_posh/source/roudi/port_manager.cpp b/iceoryx_posh/source/roudi/port_manager.cpp
index 2ef9e79..f3fd1c3 100644
--- a/iceoryx_posh/source/roudi/port_manager.cpp
+++ b/iceoryx_posh/source/roudi/port_manager.cpp
@@ -431,7 +431,7 @@ void PortManager::handleInterfaces() noexcept
         }
 
         // check if we have to destroy this interface port
-        if (currentPort->m_toBeDestroyed.load(std::memory_order_relaxed))
+        if (currentPort->m_toBeDestroyed.load(std::memory_order_acquire))
         {
             IOX_LOG(Debug,
                     "Destroy interface port from runtime '" << currentPort->m_runtimeName
@@ -495,7 +495,7 @@ void PortManager::handleConditionVariables() noexcept
     while (condVar != condVars.end())
     {
         auto currentCondVar = condVar++;
-        if (currentCondVar->m_toBeDestroyed.load(std::memory_order_relaxed))
+        if (currentCondVar->m_toBeDestroyed.load(std::memory_order_acquire))
         {
             IOX_LOG(Debug, "Destroy ConditionVariableData from runtime '" << currentCondVar->m_runtimeName << "'");
             m_portPool->removeConditionVariableData(currentCondVar.to_ptr());
-- 
2.43.0


From 5264d9a35f9594ab461b76a4c5354b703205fc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:15 +0000
Subject: [PATCH 38/45] fix: data race when findService is called concurrently

The mutex was held while the service registry was updated but not while it was
searched, so that one thread could overwrite the registry another one reads.
---
 .../include/iceoryx_posh/runtime/service_discovery.hpp        | 2 +-
 iceoryx_posh/source/runtime/service_discovery.cpp             | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/iceoryx_posh/include/iceoryx_posh/runtime/service_discovery.hpp b/iceoryx_posh/include/iceoryx_posh/runtime/service_discovery.hpp
index cf8f401..40e5e6e 100644
--- a/iceoryx_posh/include/iceoryx_posh/runtime/service_discovery.hpp
+++ b/iceoryx_posh/include/iceoryx_posh/runtime/service_discovery.hpp
@@ -77,7 +77,7 @@ class ServiceDiscovery
     // use dynamic memory to reduce stack usage
     /// @todo iox-#1155 improve solution to avoid stack usage without using dynamic memory
     std::unique_ptr<roudi::ServiceRegistry> m_serviceRegistry{new iox::roudi::ServiceRegistry};
-    std::mutex m_serviceRegistryMutex;
+    std::recursive_mutex m_serviceRegistryMutex;
 
     popo::Subscriber<roudi::ServiceRegistry> m_serviceRegistrySubscriber{
         {SERVICE_DISCOVERY_SERVICE_NAME, SERVICE_DISCOVERY_INSTANCE_NAME, SERVICE_DISCOVERY_EVENT_NAME},
diff --git a/iceoryx_posh/source/runtime/service_discovery.cpp b/iceoryx_posh/source/runtime/service_discovery.cpp
index 46473e1..248db8e 100644
--- a/iceoryx_posh/source/runtime/service_discovery.cpp
+++ b/iceoryx_posh/source/runtime/service_discovery.cpp
@@ -28,8 +28,6 @@ ServiceDiscovery::ServiceDiscovery() noexcept
 
 void ServiceDiscovery::update()
 {
-    // allows us to use update and hence findService concurrently
-    std::lock_guard<std::mutex> lock(m_serviceRegistryMutex);
     m_serviceRegistrySubscriber.take().and_then([&](popo::Sample<const roudi::ServiceRegistry>& serviceRegistrySample) {
         *m_serviceRegistry = *serviceRegistrySample;
     });
@@ -41,6 +39,8 @@ void ServiceDiscovery::findService(const optional<capro::IdString_t>& service,
                                    const function_ref<void(const capro::ServiceDescription&)> callableForEach,
                                    const popo::MessagingPattern pattern) noexcept
 {
+    // allows us to use findService concurrently; recursive since 'callableForEach' may search for further services
+    std::lock_guard<std::recursive_mutex> lock(m_serviceRegistryMutex);
     update();
 
     switch (pattern)
-- 
2.43.0


From fcab2f0462de1d9d252efdf8e6a6068dedd75c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:11 +0000
Subject: [PATCH 39/45] fix: file lock owned by two processes when released and
 acquired concurrently

---
 .../posix/filesystem/source/file_lock.cpp     | 79 +++++++++++--------
 1 file changed, 48 insertions(+), 31 deletions(-)

diff --git a/iceoryx_hoofs/posix/filesystem/source/file_lock.cpp b/iceoryx_hoofs/posix/filesystem/source/file_lock.cpp
index 86ed2d7..ec9c12c 100644
--- a/iceoryx_hoofs/posix/filesystem/source/file_lock.cpp
+++ b/iceoryx_hoofs/posix/filesystem/source/file_lock.cpp
@@ -55,38 +55,54 @@ expected<FileLock, FileLockError> FileLockBuilder::create() noexcept
     fileLockPath.unsafe_append(m_name);
     fileLockPath.unsafe_append(FileLock::LOCK_FILE_SUFFIX);
 
-    auto openCall = IOX_POSIX_CALL(iox_ext_open)(fileLockPath.c_str(),
-                                                 convertToOflags(AccessMode::ReadOnly, OpenMode::OpenOrCreate),
-                                                 m_permission.value())
-                        .failureReturnValue(-1)
-                        .evaluate();
-
-    if (openCall.has_error())
+    // the owner of the lock removes the file before it unlocks it; when this happens after the file was opened here, the
+    // lock was acquired on a file which does not exist anymore and the acquisition has to be repeated on the current one
+    while (true)
     {
-        return err(FileLock::convertErrnoToFileLockError(openCall.error().errnum, fileLockPath));
-    }
+        auto openCall = IOX_POSIX_CALL(iox_ext_open)(fileLockPath.c_str(),
+                                                     convertToOflags(AccessMode::ReadOnly, OpenMode::OpenOrCreate),
+                                                     m_permission.value())
+                            .failureReturnValue(-1)
+                            .evaluate();
+
+        if (openCall.has_error())
+        {
+            return err(FileLock::convertErrnoToFileLockError(openCall.error().errnum, fileLockPath));
+        }
 
-    auto fileDescriptor = openCall.value().value;
-    auto lockCall = IOX_POSIX_CALL(iox_flock)(fileDescriptor, static_cast<int>(FileLock::LockOperation::LOCK))
-                        .failureReturnValue(-1)
-                        .suppressErrorMessagesForErrnos(EWOULDBLOCK)
-                        .evaluate();
+        auto fileDescriptor = openCall.value().value;
+        auto lockCall = IOX_POSIX_CALL(iox_flock)(fileDescriptor, static_cast<int>(FileLock::LockOperation::LOCK))
+                            .failureReturnValue(-1)
+                            .suppressErrorMessagesForErrnos(EWOULDBLOCK)
+                            .evaluate();
+
+        if (lockCall.has_error())
+        {
+            IOX_POSIX_CALL(iox_ext_close)
+            (fileDescriptor).failureReturnValue(-1).evaluate().or_else([&](auto& result) {
+                IOX_DISCARD_RESULT(FileLock::convertErrnoToFileLockError(result.errnum, fileLockPath));
+                IOX_LOG(Error,
+                        "Unable to close file lock \"" << fileLockPath
+                                                       << "\" in error related cleanup during initialization.");
+            });
+
+            //  possible errors in iox_ext_close() are masked and we inform the user about the actual error
+            return err(FileLock::convertErrnoToFileLockError(lockCall.error().errnum, fileLockPath));
+        }
+
+        iox_stat fileStat{};
+        auto statCall = IOX_POSIX_CALL(iox_fstat)(fileDescriptor, &fileStat).failureReturnValue(-1).evaluate();
+        if (statCall.has_error() || fileStat.st_nlink > 0)
+        {
+            return ok(FileLock(fileDescriptor, fileLockPath));
+        }
 
-    if (lockCall.has_error())
-    {
         IOX_POSIX_CALL(iox_ext_close)
         (fileDescriptor).failureReturnValue(-1).evaluate().or_else([&](auto& result) {
             IOX_DISCARD_RESULT(FileLock::convertErrnoToFileLockError(result.errnum, fileLockPath));
-            IOX_LOG(Error,
-                    "Unable to close file lock \"" << fileLockPath
-                                                   << "\" in error related cleanup during initialization.");
+            IOX_LOG(Error, "Unable to close the removed file lock \"" << fileLockPath << "\".");
         });
-
-        //  possible errors in iox_ext_close() are masked and we inform the user about the actual error
-        return err(FileLock::convertErrnoToFileLockError(lockCall.error().errnum, fileLockPath));
     }
-
-    return ok(FileLock(fileDescriptor, fileLockPath));
 }
 
 FileLock::FileLock(const int32_t fileDescriptor, const FilePath_t& path) noexcept
@@ -133,6 +149,14 @@ expected<void, FileLockError> FileLock::closeFileDescriptor() noexcept
     if (m_fd != INVALID_FD)
     {
         bool cleanupFailed = false;
+        // remove the file as long as the lock is held, otherwise the lock file of the next owner could be removed
+        IOX_POSIX_CALL(remove)
+        (m_fileLockPath.c_str()).failureReturnValue(-1).evaluate().or_else([&](auto& result) {
+            cleanupFailed = true;
+            IOX_DISCARD_RESULT(FileLock::convertErrnoToFileLockError(result.errnum, m_fileLockPath));
+            IOX_LOG(Error, "Unable to remove the file lock \"" << m_fileLockPath << '"');
+        });
+
         IOX_POSIX_CALL(iox_flock)
         (m_fd, static_cast<int>(LockOperation::UNLOCK))
             .failureReturnValue(-1)
@@ -151,13 +175,6 @@ expected<void, FileLockError> FileLock::closeFileDescriptor() noexcept
             IOX_LOG(Error, "Unable to close the file handle to the file lock \"" << m_fileLockPath << '"');
         });
 
-        IOX_POSIX_CALL(remove)
-        (m_fileLockPath.c_str()).failureReturnValue(-1).evaluate().or_else([&](auto& result) {
-            cleanupFailed = true;
-            IOX_DISCARD_RESULT(FileLock::convertErrnoToFileLockError(result.errnum, m_fileLockPath));
-            IOX_LOG(Error, "Unable to remove the file lock \"" << m_fileLockPath << '"');
-        });
-
         if (cleanupFailed)
         {
             return err(FileLockError::INTERNAL_LOGIC_ERROR);
-- 
2.43.0


From 99cf9bd72523bbf1d2811f3c54813029697af68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:11 +0000
Subject: [PATCH 40/45] fix: remove the IPC channel of an application before
 its name can be used again

---
 .../iceoryx_posh/internal/runtime/ipc_interface_creator.hpp  | 4 ++++
 iceoryx_posh/source/runtime/ipc_interface_creator.cpp        | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/iceoryx_posh/include/iceoryx_posh/internal/runtime/ipc_interface_creator.hpp b/iceoryx_posh/include/iceoryx_posh/internal/runtime/ipc_interface_creator.hpp
index 528fc30..1f10f31 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/runtime/ipc_interface_creator.hpp
+++ b/iceoryx_posh/include/iceoryx_posh/internal/runtime/ipc_interface_creator.hpp
@@ -53,6 +53,10 @@ class IpcInterfaceCreator : public IpcInterfaceBase
            const uint64_t maxMessages = ROUDI_MAX_MESSAGES,
            const uint64_t messageSize = ROUDI_MESSAGE_SIZE) noexcept;
 
+    /// @brief Removes the IPC channel as long as the file lock is still held. Otherwise the IPC channel of the next owner
+    /// of the name could be removed
+    ~IpcInterfaceCreator() noexcept override;
+
     IpcInterfaceCreator(IpcInterfaceCreator&&) noexcept = default;
     IpcInterfaceCreator& operator=(IpcInterfaceCreator&&) noexcept = default;
 
diff --git a/iceoryx_posh/source/runtime/ipc_interface_creator.cpp b/iceoryx_posh/source/runtime/ipc_interface_creator.cpp
index e19613a..6e61855 100644
--- a/iceoryx_posh/source/runtime/ipc_interface_creator.cpp
+++ b/iceoryx_posh/source/runtime/ipc_interface_creator.cpp
@@ -62,5 +62,10 @@ IpcInterfaceCreator::IpcInterfaceCreator(FileLock&& fileLock,
 {
     openIpcChannel(PosixIpcChannelSide::SERVER);
 }
+
+IpcInterfaceCreator::~IpcInterfaceCreator() noexcept
+{
+    m_ipcChannel.reset();
+}
 } // namespace runtime
 } // namespace iox
-- 
2.43.0


From 3538055e1c498104cde505182a2a26fcaaf89b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:52 +0000
Subject: [PATCH 41/45] fix: the group of the daemon had write access to every
 payload segment

The access control list of a payload segment granted read and write access to
the group which owns the file, i.e. to every member of the daemon's group,
although only the configured reader and writer groups are entitled to access.
---
 .../include/iceoryx_posh/internal/mepoo/mepoo_segment.inl       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iceoryx_posh/include/iceoryx_posh/internal/mepoo/mepoo_segment.inl b/iceoryx_posh/include/iceoryx_posh/internal/mepoo/mepoo_segment.inl
index 299a950..df10483 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/mepoo/mepoo_segment.inl
+++ b/iceoryx_posh/include/iceoryx_posh/internal/mepoo/mepoo_segment.inl
@@ -56,7 +56,7 @@ inline MePooSegment<SharedMemoryObjectType, MemoryManagerType>::MePooSegment(
     }
     acl.addGroupPermission(PosixAcl::Permission::READWRITE, writerGroup.getName());
     acl.addPermissionEntry(PosixAcl::Category::USER, PosixAcl::Permission::READWRITE);
-    acl.addPermissionEntry(PosixAcl::Category::GROUP, PosixAcl::Permission::READWRITE);
+    acl.addPermissionEntry(PosixAcl::Category::GROUP, PosixAcl::Permission::NONE);
     acl.addPermissionEntry(PosixAcl::Category::OTHERS, PosixAcl::Permission::NONE);
 
     if (!acl.writePermissionsToFile(m_sharedMemoryObject.getFileHandle()))
-- 
2.43.0


From 60df62874791e39a25210a3909fab2b540d7f9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:32 +0000
Subject: [PATCH 42/45] fix: named semaphore owned by several creators when
 opened or created concurrently

---
 .../posix/sync/source/named_semaphore.cpp     | 28 +++++++++++++------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/iceoryx_hoofs/posix/sync/source/named_semaphore.cpp b/iceoryx_hoofs/posix/sync/source/named_semaphore.cpp
index 6f769ac..940d2a9 100644
--- a/iceoryx_hoofs/posix/sync/source/named_semaphore.cpp
+++ b/iceoryx_hoofs/posix/sync/source/named_semaphore.cpp
@@ -193,18 +193,28 @@ NamedSemaphoreBuilder::create(optional<NamedSemaphore>& uninitializedSemaphore)
 
     if (m_openMode == OpenMode::OpenOrCreate)
     {
-        auto result = tryOpenExistingSemaphore(uninitializedSemaphore, m_name);
-        if (result.has_error())
+        while (true)
         {
-            return result;
-        }
+            auto result = tryOpenExistingSemaphore(uninitializedSemaphore, m_name);
+            if (result.has_error())
+            {
+                return result;
+            }
 
-        if (result.value())
-        {
-            return ok();
-        }
+            if (result.value())
+            {
+                return ok();
+            }
 
-        return createSemaphore(uninitializedSemaphore, m_name, m_openMode, m_permissions, m_initialValue);
+            // the creation has to be exclusive, otherwise a semaphore which was created by someone else in the meantime
+            // would be opened but treated as own one and removed in the destructor
+            auto creationResult = createSemaphore(
+                uninitializedSemaphore, m_name, OpenMode::ExclusiveCreate, m_permissions, m_initialValue);
+            if (!creationResult.has_error() || creationResult.error() != SemaphoreError::ALREADY_EXIST)
+            {
+                return creationResult;
+            }
+        }
     }
 
     if (m_openMode == OpenMode::ExclusiveCreate)
-- 
2.43.0


From 327da68ef979f776a84d3087ebe6eb82dfe0d8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:32 +0000
Subject: [PATCH 43/45] fix: bump allocator grants sizes whose end position
 overflows

---
 iceoryx_hoofs/memory/source/bump_allocator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iceoryx_hoofs/memory/source/bump_allocator.cpp b/iceoryx_hoofs/memory/source/bump_allocator.cpp
index 783d0bc..0a4f573 100644
--- a/iceoryx_hoofs/memory/source/bump_allocator.cpp
+++ b/iceoryx_hoofs/memory/source/bump_allocator.cpp
@@ -49,7 +49,7 @@ expected<void*, BumpAllocatorError> BumpAllocator::allocate(const uint64_t size,
     void* allocation{nullptr};
 
     const uint64_t nextPosition{alignedPosition + size};
-    if (m_length >= nextPosition)
+    if (m_length >= alignedPosition && m_length - alignedPosition >= size)
     {
         // AXIVION Next Construct AutosarC++19_03-A5.2.4 : required for low level memory management
         // NOLINTNEXTLINE(cppcoreguidelines-pro-type-reinterpret-cast, performance-no-int-to-ptr)
-- 
2.43.0


From 973587c9f320d6a0c34c83c10369e5ce2c65d835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:40 +0000
Subject: [PATCH 44/45] fix: creating a file with insufficient permissions
 leaves the file behind

---
 .../posix/filesystem/source/file.cpp          | 31 ++++++++++++++++---
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/iceoryx_hoofs/posix/filesystem/source/file.cpp b/iceoryx_hoofs/posix/filesystem/source/file.cpp
index a27e0a2..44aaa79 100644
--- a/iceoryx_hoofs/posix/filesystem/source/file.cpp
+++ b/iceoryx_hoofs/posix/filesystem/source/file.cpp
@@ -20,6 +20,7 @@
 #include "iox/attributes.hpp"
 #include "iox/filesystem.hpp"
 #include "iox/posix_call.hpp"
+#include "iox/scope_guard.hpp"
 
 namespace iox
 {
@@ -42,15 +43,34 @@ expected<File, FileCreationError> FileBuilder::create(const FilePath& name) noex
 // NOLINTBEGIN(readability-function-size,readability-function-cognitive-complexity)
 expected<File, FileCreationError> FileBuilder::open(const FilePath& name) noexcept
 {
-    auto result = IOX_POSIX_CALL(iox_open)(name.as_string().c_str(),
-                                           convertToOflags(m_access_mode, m_open_mode),
-                                           static_cast<iox_mode_t>(m_permissions.value()))
-                      .failureReturnValue(-1)
-                      .evaluate();
+    auto openFile = [&](const OpenMode openMode) {
+        return IOX_POSIX_CALL(iox_open)(name.as_string().c_str(),
+                                        convertToOflags(m_access_mode, openMode),
+                                        static_cast<iox_mode_t>(m_permissions.value()))
+            .failureReturnValue(-1)
+            .suppressErrorMessagesForErrnos((m_open_mode == OpenMode::OpenOrCreate) ? EEXIST : 0)
+            .evaluate();
+    };
+
+    // try to create the file exclusively in order to know whether it has to be removed again in the failure case
+    bool removeOnFailure = (m_open_mode != OpenMode::OpenExisting);
+    auto result = openFile((m_open_mode == OpenMode::OpenOrCreate) ? OpenMode::ExclusiveCreate : m_open_mode);
+    if (result.has_error() && m_open_mode == OpenMode::OpenOrCreate && result.error().errnum == EEXIST)
+    {
+        removeOnFailure = false;
+        result = openFile(m_open_mode);
+    }
 
     if (!result.has_error())
     {
         File file(result.value().value, m_access_mode);
+        ScopeGuard removeCreatedFile([&] {
+            if (removeOnFailure)
+            {
+                IOX_DISCARD_RESULT(File::remove(name));
+            }
+        });
+
         const auto perms = file.get_permissions();
         if (perms.has_error())
         {
@@ -78,6 +98,7 @@ expected<File, FileCreationError> FileBuilder::open(const FilePath& name) noexce
             }
         }
 
+        removeOnFailure = false;
         return ok(std::move(file));
     }
 
-- 
2.43.0


From ad183959bb7f2e1da4ccd9bd79640dd8105c3c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:39 +0000
Subject: [PATCH 45/45] fix: a semaphore whose initialisation failed is
 reported as created

---
 iceoryx_hoofs/posix/sync/source/unnamed_semaphore.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/iceoryx_hoofs/posix/sync/source/unnamed_semaphore.cpp b/iceoryx_hoofs/posix/sync/source/unnamed_semaphore.cpp
index 63d5986..3bdbcd7 100644
--- a/iceoryx_hoofs/posix/sync/source/unnamed_semaphore.cpp
+++ b/iceoryx_hoofs/posix/sync/source/unnamed_semaphore.cpp
@@ -49,13 +49,13 @@ UnnamedSemaphoreBuilder::create(optional<UnnamedSemaphore>& uninitializedSemapho
         {
         case EINVAL:
             IOX_LOG(Error, "The initial value of " << m_initialValue << " exceeds " << IOX_SEM_VALUE_MAX);
-            break;
+            return err(SemaphoreError::SEMAPHORE_OVERFLOW);
         case ENOSYS:
             IOX_LOG(Error, "The system does not support process-shared semaphores");
-            break;
+            return err(SemaphoreError::UNDEFINED);
         default:
             IOX_LOG(Error, "This should never happen. An unknown error occurred.");
-            break;
+            return err(SemaphoreError::UNDEFINED);
         }
     }
 
-- 
2.43.0

