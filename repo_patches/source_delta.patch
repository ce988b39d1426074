From 924411473dabb355c7a7387aff221519a5e39cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:40 +0000
Subject: [PATCH 01/59] fix: map stores in a context request unknown values

A map_store showed 'not_in_set' for unknown keys although it declares
'trigger_read', and the context applied an upstream read (which leaves an
'unresolved' placeholder) before looking whether the value was unknown, so
the request never reached a producer.
---
 include/nbdl/context.hpp       | 53 ++++++++++++++++++++++------------
 include/nbdl/echo_producer.hpp |  9 ++++++
 include/nbdl/map_store.hpp     | 11 ++++++-
 3 files changed, 54 insertions(+), 19 deletions(-)

diff --git a/include/nbdl/context.hpp b/include/nbdl/context.hpp
index af59db8..1685d06 100644
--- a/include/nbdl/context.hpp
+++ b/include/nbdl/context.hpp
@@ -161,34 +161,51 @@ namespace nbdl
       auto& store = stores[path_type];
       if constexpr(message::is_upstream<Message> && message::is_read<Message>)
       {
-        nbdl::apply_message(store, m);
-        // send response message
+        // The store has to be looked at before the message is
+        // applied because stores may replace the unknown value
+        // with an 'unresolved' placeholder when it is.
+        bool is_unknown = false;
         nbdl::match(store, message::get_path(m), hana::overload_linearly(
           [&](nbdl::trigger_read)
           {
+            is_unknown = true;
             // The Store should create an 'unresolved'
             // placeholder to prevent duplicate upstream
             // read requests and so any StateConsumer
             // gets a value
+            nbdl::apply_message(store, m);
             propagate_upstream(m);
           },
-          [&](nbdl::unresolved)
-          {
-            // Do nothing. A read is already in progress.
-            // The Consumer should notify the appropriate requestors
-            // once the response (downstream read message)
-            // is received.
-          },
-          [&](auto&& value)
-          {
-            // There is a resolved value in the store
-            // so send it as a downstream read message,
-            // and don't bother the Producer with it.
-            propagate_downstream(
-              message::to_downstream_read(m, std::forward<decltype(value)>(value))
-            );
-          }
+          nbdl::noop
         ));
+
+        if (!is_unknown)
+        {
+          nbdl::apply_message(store, m);
+          // send response message
+          nbdl::match(store, message::get_path(m), hana::overload_linearly(
+            [&](nbdl::trigger_read)
+            {
+              propagate_upstream(m);
+            },
+            [&](nbdl::unresolved)
+            {
+              // Do nothing. A read is already in progress.
+              // The Consumer should notify the appropriate requestors
+              // once the response (downstream read message)
+              // is received.
+            },
+            [&](auto&& value)
+            {
+              // There is a resolved value in the store
+              // so send it as a downstream read message,
+              // and don't bother the Producer with it.
+              propagate_downstream(
+                message::to_downstream_read(m, std::forward<decltype(value)>(value))
+              );
+            }
+          ));
+        }
       }
       else
       {
diff --git a/include/nbdl/echo_producer.hpp b/include/nbdl/echo_producer.hpp
index e383819..e51ef7f 100644
--- a/include/nbdl/echo_producer.hpp
+++ b/include/nbdl/echo_producer.hpp
@@ -12,6 +12,7 @@
 #include <nbdl/apply_message.hpp>
 #include <nbdl/entity.hpp>
 #include <nbdl/message.hpp>
+#include <nbdl/tags.hpp>
 
 namespace nbdl
 {
@@ -77,6 +78,14 @@ namespace nbdl
           )
         );
       }
+      else if constexpr(message::is_read<Message>)
+      {
+        // there is nothing behind the store that could be read
+        nbdl::apply_message(
+          p.context
+        , message::to_downstream_read(m, nbdl::not_found{})
+        );
+      }
       else
       {
         nbdl::apply_message(
diff --git a/include/nbdl/map_store.hpp b/include/nbdl/map_store.hpp
index 7b28e80..7b398ea 100644
--- a/include/nbdl/map_store.hpp
+++ b/include/nbdl/map_store.hpp
@@ -18,6 +18,7 @@
 
 #include <boost/hana/bool.hpp>
 #include <boost/hana/equal.hpp>
+#include <type_traits>
 #include <unordered_map>
 #include <utility>
 
@@ -123,6 +124,7 @@ namespace nbdl
     public:
 
     using hana_tag = Tag;
+    using not_in_set_tag = NotInSetTag;
 
     Container map;
 
@@ -187,7 +189,14 @@ namespace nbdl
     template <typename Store, typename Key, typename Fn>
     static constexpr void apply(Store&& s, Key&& k, Fn&& fn)
     {
-      nbdl::match(s.map, std::forward<Key>(k), std::forward<Fn>(fn));
+      if (s.map.find(k) == s.map.end())
+      {
+        std::forward<Fn>(fn)(typename std::decay_t<Store>::not_in_set_tag{});
+      }
+      else
+      {
+        nbdl::match(s.map, std::forward<Key>(k), std::forward<Fn>(fn));
+      }
     }
   };
 }
-- 
2.43.0


From 10e8e3b830ff9c5265b415e4115bba9081536e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 02/59] fix: message optional parts read the part they name

get_private_payload of an upstream create returned the uid, has_private_payload
asked for the uid, and downstream_read claimed a fourth part it does not have.
---
 include/nbdl/fwd/message.hpp | 2 +-
 include/nbdl/message.hpp     | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/nbdl/fwd/message.hpp b/include/nbdl/fwd/message.hpp
index 14ecf3a..9c7b09d 100644
--- a/include/nbdl/fwd/message.hpp
+++ b/include/nbdl/fwd/message.hpp
@@ -140,7 +140,7 @@ namespace nbdl::message
 
   template <typename Message>
   constexpr bool has_private_payload = !std::is_same<const no_impl,
-    decltype(get_uid_impl<std::decay_t<Message>>)>::value;
+    decltype(get_private_payload_impl<std::decay_t<Message>>)>::value;
 
   template <typename Message>
   constexpr bool is_path_normalizable = !std::is_same<const no_impl,
diff --git a/include/nbdl/message.hpp b/include/nbdl/message.hpp
index ed79f9b..9ef429a 100644
--- a/include/nbdl/message.hpp
+++ b/include/nbdl/message.hpp
@@ -97,7 +97,7 @@ namespace nbdl::message
   NBDL_DETAIL_MESSAGE_ACCESSOR_IMPL(upstream_create, get_path_impl, 0);
   NBDL_DETAIL_MESSAGE_OPTIONAL_ACCESSOR_IMPL(upstream_create, get_uid_impl, 1);
   NBDL_DETAIL_MESSAGE_ACCESSOR_IMPL(upstream_create, get_payload_impl, 2);
-  NBDL_DETAIL_MESSAGE_OPTIONAL_ACCESSOR_IMPL(upstream_create, get_private_payload_impl, 1);
+  NBDL_DETAIL_MESSAGE_OPTIONAL_ACCESSOR_IMPL(upstream_create, get_private_payload_impl, 3);
 
   template <typename ...T>
   constexpr auto get_channel_impl<upstream_create<T...>> = channel::upstream{};
@@ -314,7 +314,6 @@ namespace nbdl::message
   NBDL_DETAIL_MESSAGE_ACCESSOR_IMPL(downstream_read, get_path_impl, 0);
   NBDL_DETAIL_MESSAGE_OPTIONAL_ACCESSOR_IMPL(downstream_read, get_uid_impl, 1);
   NBDL_DETAIL_MESSAGE_ACCESSOR_IMPL(downstream_read, get_payload_impl, 2);
-  NBDL_DETAIL_MESSAGE_OPTIONAL_ACCESSOR_IMPL(downstream_read, is_confirmed_impl, 3);
 
   template <typename ...T>
   constexpr auto get_channel_impl<downstream_read<T...>> = channel::downstream{};
-- 
2.43.0


From abde3aee45e4cbd85934b8b33fe5c21f6e7bd681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:48 +0000
Subject: [PATCH 03/59] fix: a full value discards the changes a local version
 collected before it

Deltas confirmed before the value was replaced were applied again, over the
new value, when the next local change was confirmed.
---
 include/nbdl/local_version.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nbdl/local_version.hpp b/include/nbdl/local_version.hpp
index 1e852e0..b5c2540 100644
--- a/include/nbdl/local_version.hpp
+++ b/include/nbdl/local_version.hpp
@@ -159,6 +159,9 @@ namespace nbdl
           !std::is_same<Payload, void>::value
         , "Store message must have a payload for this store."
         );
+
+        // The new value supersedes every change collected so far
+        store.pending_delta = {};
         return nbdl::apply_action(
           store.value
         , message::get_payload(std::forward<Message>(m))
-- 
2.43.0


From 040ef73c1142c66d06751925a60b93a326c8501c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:56 +0000
Subject: [PATCH 04/59] fix: a loop destroys the value hold_lazy made in its
 last turn

---
 include/nbdl/hold_lazy.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/nbdl/hold_lazy.hpp b/include/nbdl/hold_lazy.hpp
index b72c0c0..a1328eb 100644
--- a/include/nbdl/hold_lazy.hpp
+++ b/include/nbdl/hold_lazy.hpp
@@ -59,6 +59,13 @@ namespace nbdl
       template <typename Resolver, typename ...Xs>
       void operator()(Resolver& resolver, Xs&& ...xs) noexcept
       {
+        // a loop gets here again with the value of its last turn
+        if (engaged)
+        {
+          engaged = false;
+          value.~T();
+        }
+
         new(std::addressof(value)) T(this->f(resolver, std::forward<Xs>(xs)...));
         engaged = true;
       }
-- 
2.43.0


From 2745af2c6ff7afbfc9e332169cf2c2441745caee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:54 +0000
Subject: [PATCH 05/59] fix: the last frame of a websocket message is final
 when it is full

---
 include/nbdl/websocket/detail/message_sender.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/nbdl/websocket/detail/message_sender.hpp b/include/nbdl/websocket/detail/message_sender.hpp
index c1a47b3..134066c 100644
--- a/include/nbdl/websocket/detail/message_sender.hpp
+++ b/include/nbdl/websocket/detail/message_sender.hpp
@@ -138,11 +138,14 @@ namespace nbdl::websocket::detail
   void message_sender<Payload, MaxFrameSize>::
   send_message_impl(Resolver& resolver, PayloadBegin begin, PayloadEnd end)
   {
-    auto frag_end = std::next(begin, MaxFrameSize::value);
+    auto frag_end = end;
 
-    if (frag_end > end)
+    if (static_cast<std::size_t>(std::distance(begin, end)) > max_frame_size)
+    {
+      frag_end = std::next(begin, max_frame_size);
+    }
+    else
     {
-      frag_end = end;
       data.apply_fin_bit();
     }
 
-- 
2.43.0


From 54199ad10a80eeb5e76062243fa9d929c96ef271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:54 +0000
Subject: [PATCH 06/59] fix: frames state their length in 64 bits

---
 include/nbdl/websocket/detail/message_reader.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nbdl/websocket/detail/message_reader.hpp b/include/nbdl/websocket/detail/message_reader.hpp
index 03a3c3d..4ff78e5 100644
--- a/include/nbdl/websocket/detail/message_reader.hpp
+++ b/include/nbdl/websocket/detail/message_reader.hpp
@@ -145,7 +145,7 @@ namespace nbdl::websocket::detail
       // 16 bit
       for (int i = 0; i < 2; i++)
       {
-        length |= (x.extended_length_buf[1 - i] << (8 * i));
+        length |= (static_cast<uint64_t>(x.extended_length_buf[1 - i]) << (8 * i));
       }
     }
     else if(length_code == 127)
@@ -153,7 +153,7 @@ namespace nbdl::websocket::detail
       // 64 bit
       for (int i = 0; i < 8; i++)
       {
-        length |= (x.extended_length_buf[7 - i] << (8 * i));
+        length |= (static_cast<uint64_t>(x.extended_length_buf[7 - i]) << (8 * i));
       }
     }
     else
@@ -165,7 +165,7 @@ namespace nbdl::websocket::detail
 
   constexpr auto read_payload = [](auto& resolver, auto& frame_ctx)
   {
-    const int length = get_payload_length(frame_ctx);
+    const std::size_t length = get_payload_length(frame_ctx);
     // we are appending a fixed length of bytes
     // to a possibly existing payload
     auto& payload = frame_ctx.payload;
-- 
2.43.0


From 70f1cbea993ce360bb09606a89b63907e5cba0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:54 +0000
Subject: [PATCH 07/59] fix: only the new fragment of a message is unmasked

---
 include/nbdl/websocket/detail/message_reader.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nbdl/websocket/detail/message_reader.hpp b/include/nbdl/websocket/detail/message_reader.hpp
index 4ff78e5..8013985 100644
--- a/include/nbdl/websocket/detail/message_reader.hpp
+++ b/include/nbdl/websocket/detail/message_reader.hpp
@@ -175,7 +175,7 @@ namespace nbdl::websocket::detail
     asio::async_read(
       frame_ctx.socket
     , asio::buffer(&payload[current_offset], length)
-    , [&resolver, &payload, &frame_ctx, length](std::error_code error_code, std::size_t)
+    , [&resolver, &payload, &frame_ctx, length, current_offset](std::error_code error_code, std::size_t)
       {
         if (error_code)
         {
@@ -185,9 +185,9 @@ namespace nbdl::websocket::detail
         {
           if (has_mask_key(frame_ctx))
           {
-            for (int i = 0; i < length; i++)
+            for (std::size_t i = 0; i < length; i++)
             {
-              payload[i] ^= frame_ctx.mask_key[i % 4];
+              payload[current_offset + i] ^= frame_ctx.mask_key[i % 4];
             }
           }
           resolver.resolve(read_event::message);
-- 
2.43.0


From 79c1bc5c897996c5ebfc37bc9aade34ad7d45ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:14 +0000
Subject: [PATCH 08/59] fix: the payload of ping and pong frames is read

---
 .../nbdl/websocket/detail/endpoint_impl.hpp   |  2 +-
 .../nbdl/websocket/detail/message_reader.hpp  | 38 ++++++++++++++++++-
 2 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/include/nbdl/websocket/detail/endpoint_impl.hpp b/include/nbdl/websocket/detail/endpoint_impl.hpp
index 822a0e0..79c73d3 100644
--- a/include/nbdl/websocket/detail/endpoint_impl.hpp
+++ b/include/nbdl/websocket/detail/endpoint_impl.hpp
@@ -327,7 +327,7 @@ namespace nbdl::websocket::detail
     , hana::make_pair(read_event::ping, [this](auto, auto const& frame_ctx)
       {
         (void(this));
-        pending_control_frame.to_pong(std::move(frame_ctx.payload));
+        pending_control_frame.to_pong(frame_ctx.control_payload);
       })
     , hana::make_pair(read_event::pong, [](auto&& ...) { })
     , hana::make_pair(read_event::bad_input, [this](auto&& ...)
diff --git a/include/nbdl/websocket/detail/message_reader.hpp b/include/nbdl/websocket/detail/message_reader.hpp
index 8013985..d8e3bc4 100644
--- a/include/nbdl/websocket/detail/message_reader.hpp
+++ b/include/nbdl/websocket/detail/message_reader.hpp
@@ -59,6 +59,7 @@ namespace nbdl::websocket::detail
     std::array<unsigned char, 8> extended_length_buf;
     std::array<unsigned char, 4> mask_key;
     Payload payload;
+    Payload control_payload;
 
     frame_context_t(tcp::socket& s)
       : socket (s)
@@ -229,6 +230,39 @@ namespace nbdl::websocket::detail
     );
   };
 
+  // control frames can come between the fragments of a message
+  // so their payload is kept apart from it
+  constexpr auto read_control_payload = [](auto& resolver, auto& frame_ctx, auto event_type)
+  {
+    const std::size_t length = get_payload_length(frame_ctx);
+
+    auto& payload = frame_ctx.control_payload;
+    payload.resize(length);
+
+    asio::async_read(
+      frame_ctx.socket
+    , asio::buffer(payload)
+    , [&resolver, &payload, &frame_ctx, length, event_type](std::error_code error_code, std::size_t)
+      {
+        if (error_code)
+        {
+          resolver.reject(error_code);
+        }
+        else
+        {
+          if (has_mask_key(frame_ctx))
+          {
+            for (std::size_t i = 0; i < length; i++)
+            {
+              payload[i] ^= frame_ctx.mask_key[i % 4];
+            }
+          }
+          resolver.resolve(event_type);
+        }
+      }
+    );
+  };
+
   // This kind of dispatching can be done only because
   // all of the branches are stateless.
   auto opcode_dispatch = nbdl::promise([](auto& resolver, auto& frame_ctx)
@@ -244,10 +278,10 @@ namespace nbdl::websocket::detail
         read_close_payload(resolver, frame_ctx);
         break;
       case 0x9: // PING
-        resolver.resolve(read_event::ping);
+        read_control_payload(resolver, frame_ctx, read_event::ping);
         break;
       case 0xA: // PONG
-        resolver.resolve(read_event::pong);
+        read_control_payload(resolver, frame_ctx, read_event::pong);
         break;
       default:
         resolver.reject(read_event::bad_input);
-- 
2.43.0


From 1e85625427a3f84072e5314f2f9e2aa0c67fc1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:59 +0000
Subject: [PATCH 09/59] fix: an endpoint lives until its close frame is written

---
 .../nbdl/websocket/detail/endpoint_impl.hpp   | 52 ++++++++++++-------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/include/nbdl/websocket/detail/endpoint_impl.hpp b/include/nbdl/websocket/detail/endpoint_impl.hpp
index 79c73d3..4029755 100644
--- a/include/nbdl/websocket/detail/endpoint_impl.hpp
+++ b/include/nbdl/websocket/detail/endpoint_impl.hpp
@@ -105,6 +105,7 @@ namespace nbdl::websocket::detail
       , is_started(false)
       , is_stopped(false)
       , is_close_received(false)
+      , is_close_sent(false)
     {
       init(self(), socket, handler);
     }
@@ -118,6 +119,7 @@ namespace nbdl::websocket::detail
 
   private:
     void start_send_queue();
+    void handle_send_error(boost::system::error_code);
     bool is_sending_close();
     void mark_is_close_received();
     auto make_reader_handler(Handler&);
@@ -141,6 +143,7 @@ namespace nbdl::websocket::detail
     bool is_started : 1;
     bool is_stopped : 1;
     bool is_close_received : 1;
+    bool is_close_sent : 1;
   };
 
   template <typename Queue, typename Handler, typename SendMessageImpl, typename Derived>
@@ -210,26 +213,29 @@ namespace nbdl::websocket::detail
         if (is_sending_close())
         {
           sender.data.payload = pending_control_frame.payload;
+          // this outlives the loop
           nbdl::run_async(hana::make_tuple(
-            nbdl::promise([&](auto& resolver_)
+            nbdl::promise([this](auto& resolver_)
             {
+              (void(this));
               detail::send_close(resolver_, sender);
-              // keep is_send_queue_running == true to prevent more messages
-              // after sending the close frame
-              resolver.terminate();
             })
-          , [&](auto& /*sender*/)
+          , [this, shared_this](auto& /*sender*/)
             {
+              is_close_sent = true;
               if (is_close_received)
               {
                 call_handler(endpoint_event::close);
               }
             }
-          , nbdl::catch_([&](std::error_code error_code)
+          , nbdl::catch_([this, shared_this](boost::system::error_code error)
             {
-              resolver.reject(error_code);
+              handle_send_error(error);
             })
           ));
+          // keep is_send_queue_running == true to prevent more messages
+          // after sending the close frame
+          resolver.terminate();
         }
         else
         {
@@ -263,19 +269,7 @@ namespace nbdl::websocket::detail
     , nbdl::catch_([this](boost::system::error_code error)
       {
         (void(this));
-        is_send_queue_running = false;
-
-        if ( is_sending_close() 
-         && (asio::error::eof == error || asio::error::connection_reset == error)
-           )
-        {
-          //expected socket close
-          call_handler(endpoint_event::close);
-        }
-        else
-        {
-          call_handler(hana::type_c<std::error_code>, error);
-        }
+        handle_send_error(error);
       })
     , nbdl::catch_([this](auto&& error)
       {
@@ -286,6 +280,24 @@ namespace nbdl::websocket::detail
     ));
   }
 
+  template <typename Queue, typename Handler, typename SendMessageImpl, typename Derived>
+  void endpoint_impl<Queue, Handler, SendMessageImpl, Derived>::handle_send_error(boost::system::error_code error)
+  {
+    is_send_queue_running = false;
+
+    if ( is_sending_close() 
+     && (asio::error::eof == error || asio::error::connection_reset == error)
+       )
+    {
+      //expected socket close
+      call_handler(endpoint_event::close);
+    }
+    else
+    {
+      call_handler(hana::type_c<std::error_code>, error);
+    }
+  }
+
   template <typename Queue, typename Handler, typename SendMessageImpl, typename Derived>
   bool endpoint_impl<Queue, Handler, SendMessageImpl, Derived>::is_sending_close()
   {
-- 
2.43.0


From 1e6082e7eda54e72d7efc9efb265f955eb9ef899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:59 +0000
Subject: [PATCH 10/59] fix: a close is reported once, when both close frames
 have passed

---
 include/nbdl/websocket/detail/endpoint_impl.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/websocket/detail/endpoint_impl.hpp b/include/nbdl/websocket/detail/endpoint_impl.hpp
index 4029755..e2f7251 100644
--- a/include/nbdl/websocket/detail/endpoint_impl.hpp
+++ b/include/nbdl/websocket/detail/endpoint_impl.hpp
@@ -121,6 +121,7 @@ namespace nbdl::websocket::detail
     void start_send_queue();
     void handle_send_error(boost::system::error_code);
     bool is_sending_close();
+    bool has_sent_close();
     void mark_is_close_received();
     auto make_reader_handler(Handler&);
 
@@ -304,6 +305,12 @@ namespace nbdl::websocket::detail
     return pending_control_frame.is_close();
   }
 
+  template <typename Queue, typename Handler, typename SendMessageImpl, typename Derived>
+  bool endpoint_impl<Queue, Handler, SendMessageImpl, Derived>::has_sent_close()
+  {
+    return is_close_sent;
+  }
+
   template <typename Queue, typename Handler, typename SendMessageImpl, typename Derived>
   void endpoint_impl<Queue, Handler, SendMessageImpl, Derived>::mark_is_close_received()
   {
@@ -327,12 +334,13 @@ namespace nbdl::websocket::detail
         (void(this));
         mark_is_close_received();
 
-        if (is_sending_close())
+        if (has_sent_close())
         {
           call_handler(endpoint_event::close);
         }
         else
         {
+          // reported when our close frame is sent
           send_close();
         }
       })
-- 
2.43.0


From b85c8dccfc09e400adf30c5b99296341dfdb7825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:22 +0000
Subject: [PATCH 11/59] fix: a close requested before messaging starts is sent
 when it starts

---
 include/nbdl/websocket/detail/endpoint_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nbdl/websocket/detail/endpoint_impl.hpp b/include/nbdl/websocket/detail/endpoint_impl.hpp
index e2f7251..4f3167f 100644
--- a/include/nbdl/websocket/detail/endpoint_impl.hpp
+++ b/include/nbdl/websocket/detail/endpoint_impl.hpp
@@ -186,7 +186,7 @@ namespace nbdl::websocket::detail
 
       reader.keep_reading(this->shared_from_this());
 
-      if (send_queue.size() > 0)
+      if (send_queue.size() > 0 or is_sending_close())
       {
         start_send_queue();
       }
-- 
2.43.0


From a0dc6c8d281a3e2be785555caf36246bb5d9160f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:22 +0000
Subject: [PATCH 12/59] fix: a stopped endpoint reports nothing from its
 handshake

---
 include/nbdl/websocket/client_endpoint.hpp      | 6 +++---
 include/nbdl/websocket/detail/endpoint_impl.hpp | 7 ++++---
 include/nbdl/websocket/server_endpoint.hpp      | 8 ++++----
 3 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/include/nbdl/websocket/client_endpoint.hpp b/include/nbdl/websocket/client_endpoint.hpp
index 4b63e2c..ce235c6 100644
--- a/include/nbdl/websocket/client_endpoint.hpp
+++ b/include/nbdl/websocket/client_endpoint.hpp
@@ -46,7 +46,7 @@ namespace nbdl
       , std::forward<Handler>(handler)
       , [ origin = origin
         , auth_token = auth_token
-        ](auto& self, auto& socket, auto& handler)
+        ](auto& self, auto& socket, auto&)
         {
           nbdl::run_async(
             hana::make_tuple(
@@ -54,11 +54,11 @@ namespace nbdl
             , websocket::detail::parse_handshake_response()
             , [&](auto&&)
               {
-                handler[endpoint_event::ready](self);
+                self.call_handler(endpoint_event::ready);
               }
             , nbdl::catch_([&](auto&& error)
               {
-                handler[hana::typeid_(error)](self, std::forward<decltype(error)>(error));
+                self.call_handler(hana::typeid_(error), std::forward<decltype(error)>(error));
               })
             )
           , socket
diff --git a/include/nbdl/websocket/detail/endpoint_impl.hpp b/include/nbdl/websocket/detail/endpoint_impl.hpp
index 4f3167f..a85f039 100644
--- a/include/nbdl/websocket/detail/endpoint_impl.hpp
+++ b/include/nbdl/websocket/detail/endpoint_impl.hpp
@@ -117,6 +117,10 @@ namespace nbdl::websocket::detail
     void start_messaging();
     bool stop();
 
+    // calls the user's handler unless the endpoint was stopped
+    template <typename Key, typename ...Args>
+    void call_handler(Key, Args&& ...);
+
   private:
     void start_send_queue();
     void handle_send_error(boost::system::error_code);
@@ -125,9 +129,6 @@ namespace nbdl::websocket::detail
     void mark_is_close_received();
     auto make_reader_handler(Handler&);
 
-    template <typename Key, typename ...Args>
-    void call_handler(Key, Args&& ...);
-
     tcp::socket socket;
     detail::control_frame<Payload> pending_control_frame;
     Handler handler;
diff --git a/include/nbdl/websocket/server_endpoint.hpp b/include/nbdl/websocket/server_endpoint.hpp
index c3d234f..2483213 100644
--- a/include/nbdl/websocket/server_endpoint.hpp
+++ b/include/nbdl/websocket/server_endpoint.hpp
@@ -31,7 +31,7 @@ namespace nbdl
   {
     using tcp = asio::ip::tcp;
 
-    constexpr auto server_endpoint_init = [](auto& self, tcp::socket& socket, auto& handler)
+    constexpr auto server_endpoint_init = [](auto& self, tcp::socket& socket, auto&)
     {
       nbdl::run_async(
         hana::make_tuple(
@@ -39,15 +39,15 @@ namespace nbdl
         , websocket::detail::send_handshake_response()
         , [&](tcp::socket&, auto const& auth_token)
           {
-            handler[endpoint_event::ready](self, auth_token);
+            self.call_handler(endpoint_event::ready, auth_token);
           }
         , nbdl::catch_([&](hana::basic_type<event::bad_request_t>)
           {
-            handler[event::bad_request](self);
+            self.call_handler(event::bad_request);
           })
         , nbdl::catch_([&](auto&& error)
           {
-            handler[hana::typeid_(error)](self, std::forward<decltype(error)>(error));
+            self.call_handler(hana::typeid_(error), std::forward<decltype(error)>(error));
           })
         )
       , socket
-- 
2.43.0


From ced8eecb2ee88fdf6e96d8da7da7aa7db7e1d423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:35 +0000
Subject: [PATCH 13/59] fix: header lines without a colon are ignored

---
 include/nbdl/websocket/detail/parse_handshake_request.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/nbdl/websocket/detail/parse_handshake_request.hpp b/include/nbdl/websocket/detail/parse_handshake_request.hpp
index 55486fe..a5ba875 100644
--- a/include/nbdl/websocket/detail/parse_handshake_request.hpp
+++ b/include/nbdl/websocket/detail/parse_handshake_request.hpp
@@ -36,6 +36,12 @@ namespace nbdl::websocket::detail
     const auto cookie_header = "cookies"sv;
     auto token_pos = std::find(header.begin(), header.end(), ':');
 
+    if (token_pos == header.end())
+    {
+      // not a header
+      return;
+    }
+
     std::transform(header.begin(), token_pos, header.begin(), [](auto c) { return std::tolower(c); });
 
     // I'm not sure it is necessary to validate characters to see if headers are valid
-- 
2.43.0


From 3087bc61d8a76661332c1e657a789212b18b1812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 14/59] fix: base64 encodes bytes of signed types

---
 include/nbdl/util/base64_encode.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/nbdl/util/base64_encode.hpp b/include/nbdl/util/base64_encode.hpp
index 3ac2568..208b95b 100644
--- a/include/nbdl/util/base64_encode.hpp
+++ b/include/nbdl/util/base64_encode.hpp
@@ -36,6 +36,12 @@ namespace nbdl::util
       }
     }
 
+    // bytes could be signed
+    inline constexpr uint32_t to_octet(auto byte)
+    {
+      return static_cast<unsigned char>(byte);
+    }
+
     inline constexpr int encoding_length_padded(int n)
     {
       return 4*n/3 + ((4 - ((4*n/3) % 4)) % 4);
@@ -61,9 +67,9 @@ namespace nbdl::util
       for (int i = 0; i < round_length; i += 3)
       {
         uint32_t const fragment =
-            buffer[i    ] << 24
-          | buffer[i + 1] << 16
-          | buffer[i + 2] << 8
+            base64_detail::to_octet(buffer[i    ]) << 24
+          | base64_detail::to_octet(buffer[i + 1]) << 16
+          | base64_detail::to_octet(buffer[i + 2]) << 8
           ;
         base64_detail::encode_fragment(output_itr, fragment, 3);
       }
@@ -71,7 +77,7 @@ namespace nbdl::util
       uint32_t extras = 0;
       for (int i = 0; i < extra_length; i++)
       {
-        extras |= buffer[round_length + i] << (8 * (3 - i));
+        extras |= base64_detail::to_octet(buffer[round_length + i]) << (8 * (3 - i));
       }
       base64_detail::encode_fragment(output_itr, extras, extra_length);
 
-- 
2.43.0


From 9491423436028b6e07da420f36fcbde222cb8ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 15/59] fix: base64_decode refuses short texts that are no
 encoding

---
 include/nbdl/util/base64_decode.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nbdl/util/base64_decode.hpp b/include/nbdl/util/base64_decode.hpp
index 5e39a08..ebaf712 100644
--- a/include/nbdl/util/base64_decode.hpp
+++ b/include/nbdl/util/base64_decode.hpp
@@ -168,9 +168,9 @@ namespace nbdl::util
       using base64_detail::validate;
       using base64_detail::decode;
 
+      if (not validate(input)) return false;
       if (not prepare_output_buffer(output, target_decoded_length(input))) return false;
       if (output.size() == 0) return true;
-      if (not validate(input)) return false;
 
       return decode(std::forward<Input>(input), output);
     }
-- 
2.43.0


From 46c1f315c5c9eb8a066180222ee495199b691e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 16/59] fix: booleans and characters can be read from JSON

---
 include/nbdl/binder/jsoncpp.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/nbdl/binder/jsoncpp.hpp b/include/nbdl/binder/jsoncpp.hpp
index 3e7e577..c60e689 100644
--- a/include/nbdl/binder/jsoncpp.hpp
+++ b/include/nbdl/binder/jsoncpp.hpp
@@ -43,9 +43,9 @@ namespace nbdl { namespace binder { namespace jsoncpp
 
       void bind_(Json::Value const& obj, char& field)
       {
-        if (!obj.isIntegral())
+        if (!obj.isInt() || obj.asInt() != static_cast<char>(obj.asInt()))
           throw std::runtime_error("JSON Integral expected");
-        field = obj.asUInt();
+        field = obj.asInt();
       }
 
       void bind_unsigned(Json::Value const& obj, unsigned int& field)
@@ -88,7 +88,10 @@ namespace nbdl { namespace binder { namespace jsoncpp
       void bind_member(T& field)
       {
         using T_ = std::remove_reference_t<T>;
-        if constexpr(std::is_integral_v<T_> && std::is_unsigned_v<T_>) {
+        if constexpr(std::is_same_v<T_, bool> || std::is_same_v<T_, char>) {
+          bind_(json_val, field);
+        }
+        else if constexpr(std::is_integral_v<T_> && std::is_unsigned_v<T_>) {
           bind_unsigned(json_val, field);
         }
         else if constexpr(std::is_integral_v<T_>) {
-- 
2.43.0


From bfedcb7a1af380dcfcf939e0f2ff34053d4c604f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 17/59] fix: negative enumerators are read from JSON

---
 include/nbdl/binder/jsoncpp.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/binder/jsoncpp.hpp b/include/nbdl/binder/jsoncpp.hpp
index c60e689..1e2a91b 100644
--- a/include/nbdl/binder/jsoncpp.hpp
+++ b/include/nbdl/binder/jsoncpp.hpp
@@ -66,7 +66,10 @@ namespace nbdl { namespace binder { namespace jsoncpp
       void bind_enum(Json::Value const& obj, T& field) {
         if (!obj.isIntegral())
           throw std::runtime_error("JSON Integral expected");
-        field = static_cast<T>(obj.asUInt());
+        if constexpr(std::is_unsigned_v<std::underlying_type_t<T>>)
+          field = static_cast<T>(obj.asUInt());
+        else
+          field = static_cast<T>(obj.asInt());
       }
 
       void bind_(Json::Value const& obj, double& field)
-- 
2.43.0


From f6c52cc40e63d80185659507a45e694d6e01638b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 18/59] fix: empty containers are written to JSON as arrays

---
 include/nbdl/binder/jsoncpp.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nbdl/binder/jsoncpp.hpp b/include/nbdl/binder/jsoncpp.hpp
index 1e2a91b..41a05f9 100644
--- a/include/nbdl/binder/jsoncpp.hpp
+++ b/include/nbdl/binder/jsoncpp.hpp
@@ -219,6 +219,7 @@ namespace nbdl { namespace binder { namespace jsoncpp
       template <typename Container>
       void bind_container(Container const& c)
       {
+        json_val = Json::Value{Json::arrayValue};
         for (auto const& x : c)
         {
           Json::Value el;
-- 
2.43.0


From 12c37aa51a9a8db5e00d29a6c48825baadea577f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 19/59] fix: strings are read from JSON up to their end

---
 include/nbdl/binder/jsoncpp.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/binder/jsoncpp.hpp b/include/nbdl/binder/jsoncpp.hpp
index 41a05f9..2816f26 100644
--- a/include/nbdl/binder/jsoncpp.hpp
+++ b/include/nbdl/binder/jsoncpp.hpp
@@ -137,7 +137,10 @@ namespace nbdl { namespace binder { namespace jsoncpp
       {
         if (!json_val.isString())
           throw std::runtime_error("JSON String expected");
-        field = String{json_val.asCString()};
+        char const* begin;
+        char const* end;
+        json_val.getString(&begin, &end);
+        field = String(begin, end);
       }
 
       template<typename T>
-- 
2.43.0


From 4ec9f8bf665ba1cbb93349ff46f3fcf27c8c8219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 20/59] fix: a JSON string that is no encoding of the buffer is
 an error

---
 include/nbdl/binder/jsoncpp.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/binder/jsoncpp.hpp b/include/nbdl/binder/jsoncpp.hpp
index 2816f26..850d147 100644
--- a/include/nbdl/binder/jsoncpp.hpp
+++ b/include/nbdl/binder/jsoncpp.hpp
@@ -129,7 +129,8 @@ namespace nbdl { namespace binder { namespace jsoncpp
       {
         nbdl::string temp{};
         bind_string(temp);
-        nbdl::util::base64_decode(temp, b);
+        if (!nbdl::util::base64_decode(temp, b))
+          throw std::runtime_error("Base64 encoded JSON String expected");
       }
 
       template <typename String>
-- 
2.43.0


From b40934e01f2753405febaa5de7dafa5ed2100ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 21/59] fix: an unknown variant type_id in JSON is an error

---
 include/nbdl/binder/jsoncpp.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nbdl/binder/jsoncpp.hpp b/include/nbdl/binder/jsoncpp.hpp
index 850d147..caba51e 100644
--- a/include/nbdl/binder/jsoncpp.hpp
+++ b/include/nbdl/binder/jsoncpp.hpp
@@ -293,10 +293,14 @@ namespace nbdl { namespace binder { namespace jsoncpp
           [](auto&& binder, auto&& t)
             -> decltype((binder.get_variant_type_id(), void()))
           {
+            bool is_known = false;
             nbdl::bind_variant(binder.get_variant_type_id(), std::forward<T>(t), [&](auto&& ...x)
             {
+              is_known = true;
               binder.bind_sequence(std::forward<decltype(x)>(x)...);
             });
+            if (!is_known)
+              throw std::runtime_error("Variant type_id is unknown.");
           },
           [](auto&& binder, auto&& t)
           {
-- 
2.43.0


From 69fd493a94bc8757b7d9b3f41ec6a8422326313f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 22/59] fix: doubles can be read from JSON

---
 include/nbdl/binder/jsoncpp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nbdl/binder/jsoncpp.hpp b/include/nbdl/binder/jsoncpp.hpp
index caba51e..b1e808b 100644
--- a/include/nbdl/binder/jsoncpp.hpp
+++ b/include/nbdl/binder/jsoncpp.hpp
@@ -104,7 +104,7 @@ namespace nbdl { namespace binder { namespace jsoncpp
           bind_enum(json_val, field);
         }
         else {
-          bind_(json_val, std::forward<T>(field));
+          bind_(json_val, field);
         }
       }
 
-- 
2.43.0


From 619618959bfbae320d117b79d84ee978ab0b5c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 23/59] fix: match_when looks into nested variants

---
 include/nbdl/variant.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/nbdl/variant.hpp b/include/nbdl/variant.hpp
index 1cbcc41..4ca7a99 100644
--- a/include/nbdl/variant.hpp
+++ b/include/nbdl/variant.hpp
@@ -126,8 +126,17 @@ namespace nbdl {
         if constexpr(std::decay_t<Variant>::template has<T>::value) {
           if (v.template is<T>()) {
             std::forward<Fn>(fn)(std::get<T>(std::forward<Variant>(v).value_));
+            return;
           }
         }
+
+        // The matched type could be in a nested variant.
+        v.match([&](auto&& value) {
+          using Value = std::decay_t<decltype(value)>;
+          if constexpr(std::is_same_v<hana::tag_of_t<Value>, nbdl::variant_tag>) {
+            std::forward<Fn>(fn)(std::forward<decltype(value)>(value));
+          }
+        });
       }
     };
   }
-- 
2.43.0


From 69cb17280e493857471d7fb51adabe3139ab9bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 24/59] fix: variant holders can be bound

---
 include/nbdl/variant_holder.hpp | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/include/nbdl/variant_holder.hpp b/include/nbdl/variant_holder.hpp
index f1b0cb6..76fdd54 100644
--- a/include/nbdl/variant_holder.hpp
+++ b/include/nbdl/variant_holder.hpp
@@ -52,22 +52,14 @@ template <>
 struct bind_variant_impl<nbdl::variant_holder_tag> {
   template <typename VariantHolder, typename BindFn>
   static void apply(int type_id, VariantHolder&& v, BindFn&& f) {
-    using VariantTy = std::remove_cvref_t<VariantHolder>;
-    constexpr size_t variant_size = std::variant_size_v<VariantTy>;
-
-    mp11::mp_with_index<variant_size + 1>(type_id, [&](auto index) {
-      using AltType = std::variant_alternative_t<index(), VariantTy>;
-      AltType value{};
-      std::forward<BindFn>(f)(type_id, value);
-      v = value;
-    });
+    nbdl::bind_variant_impl<nbdl::variant_tag>::apply(
+      type_id, v.value, std::forward<BindFn>(f));
   }
 
   template <typename VariantHolder, typename BindFn>
-  static void apply(VariantHolder&& v, BindFn&& f) {
-    v.match([&](auto const& value) {
-      f(v.index(), value);
-    });
+  static void apply(VariantHolder const& v, BindFn&& f) {
+    nbdl::bind_variant_impl<nbdl::variant_tag>::apply(
+      v.value, std::forward<BindFn>(f));
   }
 };
 }  // namespace nbdl
-- 
2.43.0


From 99882317d7cf1998c427b99c434ebd5176e5fbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 25/59] fix: nested variants can be compared

---
 include/nbdl/variant.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nbdl/variant.hpp b/include/nbdl/variant.hpp
index 4ca7a99..6843c66 100644
--- a/include/nbdl/variant.hpp
+++ b/include/nbdl/variant.hpp
@@ -286,8 +286,9 @@ namespace boost::hana
           [&](auto const& v1)
           {
             using V = std::decay_t<decltype(v1)>;
-            t2.match(hana::overload_linearly(
-              [&](V const& v2)
+            t2.match([&](auto const& v2)
+            {
+              if constexpr(std::is_same_v<V, std::decay_t<decltype(v2)>>)
               {
                 if constexpr(std::is_empty<V>::value)
                 {
@@ -298,8 +299,7 @@ namespace boost::hana
                   result = hana::equal(v1, v2);
                 }
               }
-            , nbdl::noop
-            ));
+            });
           }
         , nbdl::noop
         ));
-- 
2.43.0


From b6e4e51f79a49c7ae9de6a78c9da50d7a0716756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:24 +0000
Subject: [PATCH 26/59] fix: echo producers give every create of a path a key
 of its own

---
 include/nbdl/echo_producer.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/nbdl/echo_producer.hpp b/include/nbdl/echo_producer.hpp
index e51ef7f..ccd7223 100644
--- a/include/nbdl/echo_producer.hpp
+++ b/include/nbdl/echo_producer.hpp
@@ -20,10 +20,11 @@ namespace nbdl
 
   namespace echo_producer_detail
   {
-    template <typename Message>
-    auto make_unique_key(Message const& m)
+    // The messages that create under a kind of path can be of
+    // different types and all of them share its keys.
+    template <typename Path>
+    auto make_unique_path_key()
     {
-      using Path = typename decltype(message::get_path_type(m))::type;
       using Key = std::decay_t<decltype(hana::back(std::declval<Path>()))>;
 
       if constexpr(std::is_empty<Key>::value)
@@ -43,6 +44,13 @@ namespace nbdl
         return Key{++key};
       }
     }
+
+    template <typename Message>
+    auto make_unique_key(Message const& m)
+    {
+      using Path = typename decltype(message::get_path_type(m))::type;
+      return make_unique_path_key<Path>();
+    }
   }
 
   template <typename Context>
-- 
2.43.0


From 8808c6ee6616f7b54ee8bff6a0aa3d92d0087dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:20 +0000
Subject: [PATCH 27/59] fix: maps can be matched without a key and inside other
 maps

---
 include/nbdl/ext/std/unordered_map.hpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/include/nbdl/ext/std/unordered_map.hpp b/include/nbdl/ext/std/unordered_map.hpp
index f767f30..4039da2 100644
--- a/include/nbdl/ext/std/unordered_map.hpp
+++ b/include/nbdl/ext/std/unordered_map.hpp
@@ -22,12 +22,6 @@ namespace nbdl
   {
     using T = std::unordered_map<MapArgs...>;
 
-    template <typename Store, typename Fn>
-    static void apply(Store&& s, Fn&& fn)
-    {
-      std::forward<Fn>(fn)(std::forward<Store>(s));
-    }
-
     template <typename Store, typename Key, typename Fn>
     static void apply(Store&& s, Key&& k, Fn&& fn)
     {
-- 
2.43.0


From d322a554a5f8571a3cbc7b8d6cc44648cd7f74bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:39 +0000
Subject: [PATCH 28/59] fix: a branch on a path that does not match selects
 nothing

---
 include/nbdl/ui_helper/match_branch.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/ui_helper/match_branch.hpp b/include/nbdl/ui_helper/match_branch.hpp
index eb29930..e75b1b1 100644
--- a/include/nbdl/ui_helper/match_branch.hpp
+++ b/include/nbdl/ui_helper/match_branch.hpp
@@ -77,7 +77,11 @@ namespace nbdl::ui_helper
   template <typename Fn>
   void match_branch_index_fn<BranchSpec>::operator()(std::size_t index, Fn&& fn) const
   {
-    mp_with_index<mp_size<mp_third<BranchSpec>>>(index, std::forward<Fn>(fn));
+    // no branch is selected when the path does not match
+    if (index < mp_size<mp_third<BranchSpec>>::value)
+    {
+      mp_with_index<mp_size<mp_third<BranchSpec>>>(index, std::forward<Fn>(fn));
+    }
   }
 
   template <typename BranchSpec>
-- 
2.43.0


From a7e28c42a824c7aa20908f4a9b8a8017facc54b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:54 +0000
Subject: [PATCH 29/59] fix: variants can be hashed

---
 include/nbdl/binder/hash.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/binder/hash.hpp b/include/nbdl/binder/hash.hpp
index c8bbd2c..4afe35f 100644
--- a/include/nbdl/binder/hash.hpp
+++ b/include/nbdl/binder/hash.hpp
@@ -42,9 +42,10 @@ namespace nbdl::binder
 
       template <BindableVariant T>
       void bind(T const& t) {
-        nbdl::bind_variant(t, [&](auto const& type_id, auto const& value) {
+        // there is no value when it is of an empty type
+        nbdl::bind_variant(t, [&](auto const& type_id, auto const& ...value) {
           bind(type_id);
-          bind(value); 
+          (bind(value), ...);
         });
       }
 
-- 
2.43.0


From 91c83e6fab656addf78ef51985fb9098920fe1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 30/59] fix: equal unordered containers have equal hashes

---
 include/nbdl/binder/hash.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/nbdl/binder/hash.hpp b/include/nbdl/binder/hash.hpp
index 4afe35f..70d34a0 100644
--- a/include/nbdl/binder/hash.hpp
+++ b/include/nbdl/binder/hash.hpp
@@ -56,6 +56,19 @@ namespace nbdl::binder
         }
       }
 
+      // The order of the elements of an unordered container depends on how
+      // it was built, so it takes no part
+      template <Container T> requires requires { typename T::hasher; }
+      void bind(T const& t) {
+        std::size_t sum = 0;
+        for (auto const& x : t) {
+          std::size_t element = 0;
+          nbdl::detail::hash_combine(element, x);
+          sum += element;
+        }
+        nbdl::detail::hash_combine(digest, sum);
+      }
+
       template <typename T>
       void bind(T const& t) {
         nbdl::detail::hash_combine(digest, t);
-- 
2.43.0


From 443c017c3129fd15a19ebaec9c72265816f61954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:29 +0000
Subject: [PATCH 31/59] fix: every row of a container is inserted with the keys
 given

---
 include/nbdl/sql_db/insert.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nbdl/sql_db/insert.hpp b/include/nbdl/sql_db/insert.hpp
index bd1d819..8a88c80 100644
--- a/include/nbdl/sql_db/insert.hpp
+++ b/include/nbdl/sql_db/insert.hpp
@@ -127,7 +127,7 @@ namespace nbdl::sql_db
         insert(
           db_insert
         , std::forward<decltype(x)>(x)
-        , std::forward<ForeignKeys>(keys)
+        , keys
         );
       }
     };
-- 
2.43.0


From 8216c91564121d71b7a3dd86704e9a8abfcce834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:29 +0000
Subject: [PATCH 32/59] fix: several criteria of a statement all have to hold

---
 include/nbdl/sql_db/statement/select.hpp |  2 +-
 include/nbdl/sql_db/statement/update.hpp | 12 +++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/sql_db/statement/select.hpp b/include/nbdl/sql_db/statement/select.hpp
index fb03913..2eb5ff7 100644
--- a/include/nbdl/sql_db/statement/select.hpp
+++ b/include/nbdl/sql_db/statement/select.hpp
@@ -33,7 +33,7 @@ namespace nbdl::sql_db::statement
     {
       return decltype(detail::string_sum(
         std::declval<Pair1>()
-      , detail::string_sum("=?,"_s, std::declval<PairN>())...
+      , detail::string_sum("=? AND "_s, std::declval<PairN>())...
       , "=?"_s
       )){};
     };
diff --git a/include/nbdl/sql_db/statement/update.hpp b/include/nbdl/sql_db/statement/update.hpp
index b574943..f5aa507 100644
--- a/include/nbdl/sql_db/statement/update.hpp
+++ b/include/nbdl/sql_db/statement/update.hpp
@@ -43,6 +43,16 @@ namespace nbdl::sql_db::statement
       , "\"=?"_s
       )){};
     };
+
+    template <typename Pair1, typename ...PairN>
+    constexpr auto criteria_list(hana::basic_tuple<Pair1, PairN...> const&)
+    {
+      return decltype(detail::string_sum(
+        detail::string_sum("\""_s, hana::first(std::declval<Pair1>()))
+      , detail::string_sum("\"=? AND \""_s, hana::first(std::declval<PairN>()))...
+      , "\"=?"_s
+      )){};
+    };
   }
 
   constexpr auto update = [](auto table_name, auto&& columns_, auto&& keys_)
@@ -56,7 +66,7 @@ namespace nbdl::sql_db::statement
       "UPDATE \""_s, table_name
     , "\" SET "_s
     , update_detail::column_value_list(columns)
-    , " WHERE "_s, update_detail::column_value_list(keys)
+    , " WHERE "_s, update_detail::criteria_list(keys)
     , " LIMIT 1;"_s
     );
 
-- 
2.43.0


From bf1fd46980472a470948888fe86e2c74954b2290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:55 +0000
Subject: [PATCH 33/59] fix: an entity of values only can be selected

---
 include/nbdl/sql_db/detail/string_sum.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/nbdl/sql_db/detail/string_sum.hpp b/include/nbdl/sql_db/detail/string_sum.hpp
index c019491..9ca6ed3 100644
--- a/include/nbdl/sql_db/detail/string_sum.hpp
+++ b/include/nbdl/sql_db/detail/string_sum.hpp
@@ -22,12 +22,24 @@ namespace nbdl::sql_db::detail
     return hana::sum<hana::string_tag>(mpdef::make_list(xs...));
   };
 
-  template <typename Delimeter = hana::string<' '>>
-  constexpr auto string_sum_join = [](auto x1, auto ...xs)
+  template <typename Delimeter>
+  struct string_sum_join_fn
   {
-    return string_sum(x1, hana::plus(Delimeter{}, xs)...);
+    constexpr auto operator()() const
+    {
+      return hana::string<>{};
+    }
+
+    template <typename X1, typename ...Xs>
+    constexpr auto operator()(X1 x1, Xs ...xs) const
+    {
+      return string_sum(x1, hana::plus(Delimeter{}, xs)...);
+    }
   };
 
+  template <typename Delimeter = hana::string<' '>>
+  constexpr string_sum_join_fn<Delimeter> string_sum_join{};
+
   using identifier_quote_string = hana::string<'"'>; // SQL implementation specific (ANSI)
 
   template <typename Identifier>
-- 
2.43.0


From fbb42ae177fc3eda7786337d85c829c3f31a62fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:11 +0000
Subject: [PATCH 34/59] fix: the key of a nested entity is named after its path
 and table

---
 include/nbdl/fwd/sql_db/select.hpp                        | 2 +-
 include/nbdl/sql_db/statement/detail/table_alias_list.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/fwd/sql_db/select.hpp b/include/nbdl/fwd/sql_db/select.hpp
index d62eebd..c450e8c 100644
--- a/include/nbdl/fwd/sql_db/select.hpp
+++ b/include/nbdl/fwd/sql_db/select.hpp
@@ -32,7 +32,7 @@ namespace nbdl::sql_db
   using select_primary_key_name = statement::detail::select_primary_key_name<Entity>;
 
   template <typename Entity, typename Member1, typename ...MemberN>
-  using select_nested_key_name = statement::detail::select_nested_key_name<Member1, MemberN...>;
+  using select_nested_key_name = statement::detail::select_nested_key_name<Entity, Member1, MemberN...>;
 }
 
 #endif
diff --git a/include/nbdl/sql_db/statement/detail/table_alias_list.hpp b/include/nbdl/sql_db/statement/detail/table_alias_list.hpp
index aed6360..6b6e0ec 100644
--- a/include/nbdl/sql_db/statement/detail/table_alias_list.hpp
+++ b/include/nbdl/sql_db/statement/detail/table_alias_list.hpp
@@ -204,7 +204,7 @@ namespace nbdl::sql_db::statement::detail
     sql_db::detail::string_sum(
       identifier_quote<concat_table_alias<table_name<Entity>, member_name<Member>...>>{}
     , table_column_separator{}
-    , identifier_quote<table_key_name<tail<Member...>>>{}
+    , identifier_quote<table_key_name<typename tail<Member...>::member_type>>{}
     )
   );
 
-- 
2.43.0


From 1d341529cf6f14ce685c0c63daa91c5e3c160266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:40 +0000
Subject: [PATCH 35/59] fix: refuse a route whose number does not fit its
 member

---
 include/nbdl/webui/route_map.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/nbdl/webui/route_map.hpp b/include/nbdl/webui/route_map.hpp
index 56f50b1..038d7fc 100644
--- a/include/nbdl/webui/route_map.hpp
+++ b/include/nbdl/webui/route_map.hpp
@@ -20,7 +20,9 @@
 #include <boost/hana/ext/std/array.hpp>
 #include <boost/hana/unpack.hpp>
 #include <boost/hana/type.hpp>
+#include <cstdint>
 #include <iterator>
+#include <limits>
 #include <mpdef/pair.hpp>
 #include <string>
 #include <string_view>
@@ -49,23 +51,30 @@ namespace nbdl::webui
     }
 
     // zero is an invalid integral param
-    inline std::size_t to_integral_param(std::string_view param)
+    template <typename Member>
+    Member to_integral_param(std::string_view param)
     {
-      std::size_t result = 0;
+      constexpr std::uintmax_t max = std::numeric_limits<Member>::max();
+      std::uintmax_t result = 0;
 
       for (char c : param)
       {
-        std::size_t digit_value = c - '0';
+        std::uintmax_t digit_value = c - '0';
         if (digit_value > 9)
         {
           // invalid character
           return 0;
         }
+        if (digit_value > max || result > (max - digit_value) / 10)
+        {
+          // does not fit
+          return 0;
+        }
         result *= 10;
         result += digit_value;
       }
 
-      return result;
+      return static_cast<Member>(result);
     }
 
     template <typename Member, typename = void>
@@ -83,7 +92,7 @@ namespace nbdl::webui
     {
       bool operator()(Member& m, std::string_view param) const
       {
-        m = to_integral_param(param);
+        m = to_integral_param<Member>(param);
         return m != 0;
       };
     };
-- 
2.43.0


From 49b201d46d65bc88a7b048a22b60e1a5ac355c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:40 +0000
Subject: [PATCH 36/59] fix: keep a tile in the last row from moving below the
 board

---
 example/tiles/game.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/example/tiles/game.hpp b/example/tiles/game.hpp
index 0d6fee7..2370581 100644
--- a/example/tiles/game.hpp
+++ b/example/tiles/game.hpp
@@ -39,7 +39,7 @@ namespace tiles
       if (i >= g.width
         && g.board[i - g.width] == 0)       return i - g.width;     // above
 
-      if (i <= g.height * g.width - g.width
+      if (i < g.height * g.width - g.width
         && g.board[i + g.width] == 0)       return i + g.width;     // below
 
       // The tile is not adjacent to the empty space.
-- 
2.43.0


From ce7475c0ae733f18604020b29b8ce99041429a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:31 +0000
Subject: [PATCH 37/59] fix: find the session cookie behind one without a value

---
 include/nbdl/app/detail/cookie_parser.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/nbdl/app/detail/cookie_parser.hpp b/include/nbdl/app/detail/cookie_parser.hpp
index fb0d5d6..53ee0f1 100644
--- a/include/nbdl/app/detail/cookie_parser.hpp
+++ b/include/nbdl/app/detail/cookie_parser.hpp
@@ -52,7 +52,6 @@ namespace nbdl::app::detail {
         return x;
       }
 
-      x = skip_past(x, '=');
       x = skip_past(x, ';');
     }
 
-- 
2.43.0


From 10a61d336b42aa0969e1797b844c3c4c9ab98554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:59 +0000
Subject: [PATCH 38/59] fix: let an event handler go on after a message that
 has the view rendered anew

A row of a for_each is replaced when the view is updated, and its listeners
with it. A handler that sent a message was left without the store and the
event it was called with.
---
 include/nbdl/webui/detail/event_receiver.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/nbdl/webui/detail/event_receiver.hpp b/include/nbdl/webui/detail/event_receiver.hpp
index 2fde6b0..90c35a4 100644
--- a/include/nbdl/webui/detail/event_receiver.hpp
+++ b/include/nbdl/webui/detail/event_receiver.hpp
@@ -49,7 +49,7 @@ namespace nbdl::webui::detail
   struct event_receiver_impl
   {
     Store store;
-    std::unique_ptr<event_receiver_vals> vals;
+    std::shared_ptr<event_receiver_vals> vals;
 
     event_receiver_impl(Store s)
       : store(s)
@@ -58,11 +58,20 @@ namespace nbdl::webui::detail
 
     void receive_event()
     {
-      auto store_with_event = nbdl::store_compose(html::event_data, std::ref(vals->event_data), store);
+      // A message may have the view rendered anew and this receiver destroyed,
+      // while the handler is still running
+      auto current_store = store;
+      auto current_vals = vals;
+
+      auto store_with_event = nbdl::store_compose(
+        html::event_data
+      , std::ref(current_vals->event_data)
+      , current_store
+      );
       auto send = [&](auto&& message)
       {
         nbdl::apply_action(
-          store
+          current_store
         , std::forward<decltype(message)>(message)
         );
       };
-- 
2.43.0


From 90dfb9416e29ea9222658d0eb9fc718f3caff591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:53 +0000
Subject: [PATCH 39/59] fix: keep no stale text, attribute or class when a path
 stops matching

---
 include/nbdl/webui/detail/dom_manips.hpp | 39 +++++++++++++++---------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/include/nbdl/webui/detail/dom_manips.hpp b/include/nbdl/webui/detail/dom_manips.hpp
index aa6cc4a..1cdc2ae 100644
--- a/include/nbdl/webui/detail/dom_manips.hpp
+++ b/include/nbdl/webui/detail/dom_manips.hpp
@@ -279,21 +279,22 @@ namespace nbdl::webui::detail
     {
       p.template call<void>("appendChild", el);
       parent_el = p;
-
-      nbdl::ui_helper::match_path_spec(store, ui_spec::path_t<PathNodes...>{}, [&](auto const& value)
-      {
-        el.set("nodeValue", to_text_val(value));
-      });
+      update();
 
       return std::forward<ParentElement>(p);
     }
 
     void update()
     {
+      // the text is empty when the path does not match
+      emscripten::val text("");
+
       nbdl::ui_helper::match_path_spec(store, ui_spec::path_t<PathNodes...>{}, [&](auto const& value)
       {
-        el.set("nodeValue", to_text_val(value));
+        text = to_text_val(value);
       });
+
+      el.set("nodeValue", text);
     }
   };
 
@@ -501,14 +502,18 @@ namespace nbdl::webui::detail
 
     void update()
     {
+      bool result = false;
+
       ui_helper::match_path_spec(store, PathSpec{}, [&](auto const& value)
       {
-        el.template call<void>(
-          Pred{}(value) ? "setAttribute" : "removeAttribute"
-        , to_json_val(AttributeName{})
-        , emscripten::val("")
-        );
+        result = Pred{}(value) ? true : false;
       });
+
+      el.template call<void>(
+        result ? "setAttribute" : "removeAttribute"
+      , to_json_val(AttributeName{})
+      , emscripten::val("")
+      );
     }
   };
 
@@ -543,13 +548,17 @@ namespace nbdl::webui::detail
 
     void update()
     {
+      bool result = false;
+
       ui_helper::match_path_spec(store, PathSpec{}, [&](auto const& value)
       {
-        el["classList"].template call<void>(
-          Pred{}(value) ? "add" : "remove"
-        , to_json_val(ClassName{})
-        );
+        result = Pred{}(value) ? true : false;
       });
+
+      el["classList"].template call<void>(
+        result ? "add" : "remove"
+      , to_json_val(ClassName{})
+      );
     }
   };
 
-- 
2.43.0


From ca7f3707c10996a778c54c730cdb6a30fbd1e4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:53 +0000
Subject: [PATCH 40/59] fix: keep all of the nodes of a view's branch in its
 place

---
 include/nbdl/webui/detail/dom_manips.hpp | 100 +++++++++++++++++------
 1 file changed, 76 insertions(+), 24 deletions(-)

diff --git a/include/nbdl/webui/detail/dom_manips.hpp b/include/nbdl/webui/detail/dom_manips.hpp
index 1cdc2ae..a3a07b9 100644
--- a/include/nbdl/webui/detail/dom_manips.hpp
+++ b/include/nbdl/webui/detail/dom_manips.hpp
@@ -76,6 +76,70 @@ namespace nbdl::webui::detail
     }
   }
 
+  /*
+   * node_range - Nodes that are replaced together.
+   *
+   * They are kept between two empty text nodes so the range has a place
+   * of its own even when there are no nodes in it or when it is moved
+   * along with an enclosing range.
+   */
+  struct node_range
+  {
+    emscripten::val first;
+    emscripten::val last;
+
+    node_range()
+      : first(make_mark())
+      , last(make_mark())
+    { }
+
+    static emscripten::val make_mark()
+    {
+      return emscripten::val::global("document").template
+        call<emscripten::val>("createTextNode", emscripten::val(""));
+    }
+
+    template <typename ParentElement>
+    void append_to(ParentElement& p)
+    {
+      p.template call<void>("appendChild", first);
+      p.template call<void>("appendChild", last);
+    }
+
+    // Moves all of the child nodes of source to the end of the range
+    void insert_from(emscripten::val source)
+    {
+      emscripten::val parent_el = last["parentNode"];
+      for (
+        emscripten::val node = source["firstChild"];
+        !node.isNull();
+        node = source["firstChild"]
+      )
+      {
+        parent_el.template call<void>("insertBefore", node, last);
+      }
+    }
+
+    // Moves all of the nodes in the range to the end of target
+    void move_to(emscripten::val target)
+    {
+      for (
+        emscripten::val node = first["nextSibling"];
+        !node.strictlyEquals(last);
+        node = first["nextSibling"]
+      )
+      {
+        target.template call<void>("appendChild", node);
+      }
+    }
+  };
+
+  inline emscripten::val make_node_container()
+  {
+    return emscripten::val::global("document").template
+      call<emscripten::val>("createElement", emscripten::val("span"));
+  }
+
   //
   // make_nested_renderer_tuple
   //
@@ -337,15 +401,15 @@ namespace nbdl::webui::detail
     using NodeContainers = std::array<emscripten::val, mp_size<FnLists>::value>;
 
     Store store;
-    emscripten::val parent_el;
     std::size_t branch_id;
+    node_range nodes;
     NodeContainers node_containers;
     Renderers renderers;
 
     mut_action_fn(Store s)
       : store(s)
-      , parent_el(emscripten::val::undefined())
       , branch_id(-1)
+      , nodes()
       , node_containers(make_branch_node_containers<NodeContainers>(
           std::make_index_sequence<mp_size<FnLists>::value>{}
         ))
@@ -354,30 +418,20 @@ namespace nbdl::webui::detail
 
     void update_branch()
     {
-      // FIXME
-      // How do we know if the child is a branch and its element changes??
-      // Options:
-      // 1. We could flatten composed branches to prevent nesting.
-      // 2. Nested renderers could have a get_element function that refers
-      //    to this node's current element.
-
       std::size_t index = nbdl::ui_helper::get_branch_index<BranchSpec>(store);
       if (index != branch_id)
       {
         // Something changed! :D
-        if (branch_id != static_cast<std::size_t>(-1))
+        // There is no branch when the index is out of range.
+        if (branch_id < node_containers.size())
         {
-          parent_el.template call<void>(
-            "replaceChild"
-          , node_containers[index]
-          , node_containers[branch_id]
-          );
+          nodes.move_to(node_containers[branch_id]);
         }
-        else
+
+        if (index < node_containers.size())
         {
-          parent_el.template call<void>("appendChild", node_containers[index]);
+          nodes.insert_from(node_containers[index]);
         }
-
       }
       branch_id = index;
     }
@@ -401,16 +455,14 @@ namespace nbdl::webui::detail
     template <typename ParentElement>
     decltype(auto) operator()(ParentElement&& p)
     {
-      parent_el = p;
-
-      auto temp_span = emscripten::val::global("document").template
-        call<emscripten::val>("createElement", emscripten::val("span"));
+      nodes.append_to(p);
 
       constexpr auto range = hana::make_range(hana::size_c<0>, mp_size<FnLists>{}); 
       hana::for_each(range, [&](auto index)
       {
-        hana::at(renderers, index).render(temp_span);
-        node_containers[decltype(index)::value] = temp_span["lastChild"];
+        auto& container = node_containers[decltype(index)::value];
+        container = make_node_container();
+        hana::at(renderers, index).render(container);
       });
 
       update_branch();
-- 
2.43.0


From b4686c6132652e458400a64eac896b5b1b353529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:53 +0000
Subject: [PATCH 41/59] fix: let a list in a view replace only its own nodes

---
 include/nbdl/webui/detail/dom_manips.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/nbdl/webui/detail/dom_manips.hpp b/include/nbdl/webui/detail/dom_manips.hpp
index a3a07b9..ed2906f 100644
--- a/include/nbdl/webui/detail/dom_manips.hpp
+++ b/include/nbdl/webui/detail/dom_manips.hpp
@@ -681,19 +681,19 @@ namespace nbdl::webui::detail
     using NodeRenderer = renderer_impl<decltype(std::declval<Range>().begin()), NodeFnList, hana::true_>;
 
     Store store;
-    emscripten::val el;
+    node_range nodes;
     std::vector<NodeRenderer> renderers;
 
     mut_action_fn(Store s)
       : store(s)
-      , el(emscripten::val::undefined())
+      , nodes()
       , renderers()
     { }
 
     template <typename ParentElement>
     decltype(auto) operator()(ParentElement&& p)
     {
-      el = p;
+      nodes.append_to(p);
       update();
       return std::forward<ParentElement>(p);
     }
@@ -701,7 +701,7 @@ namespace nbdl::webui::detail
     void update()
     {
       // This is currently very naive.
-      el.set("innerHTML", emscripten::val(""));
+      nodes.move_to(make_node_container());
       ui_helper::match_path_spec(store, PathSpec{}, [&](auto const& container)
       {
         Range range = store_range(ItrKey{}, container, store);
@@ -713,15 +713,17 @@ namespace nbdl::webui::detail
           x.destroy();
         }
 
+        emscripten::val container_el = make_node_container();
         std::vector<NodeRenderer> temp_renderers{};
         temp_renderers.reserve(container.size());
 
         for (auto x : range)
         {
           NodeRenderer temp_renderer{x};
-          temp_renderer.render(el);
+          temp_renderer.render(container_el);
           temp_renderers.push_back(std::move(temp_renderer));
         }
+        nodes.insert_from(container_el);
         renderers = std::move(temp_renderers);
       });
     }
-- 
2.43.0


From c54d4ed5c618ab09b7efa77bcb7eeb802506d0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:07 +0000
Subject: [PATCH 42/59] fix: register the values of a hidden file input that is
 the first to listen

---
 include/nbdl/webui/detail/dom_manips.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nbdl/webui/detail/dom_manips.hpp b/include/nbdl/webui/detail/dom_manips.hpp
index ed2906f..e1b27a9 100644
--- a/include/nbdl/webui/detail/dom_manips.hpp
+++ b/include/nbdl/webui/detail/dom_manips.hpp
@@ -764,6 +764,8 @@ namespace nbdl::webui::detail
     template <typename ParentElement>
     decltype(auto) operator()(ParentElement&& p)
     {
+      js_val::init_registry();
+
       js_val file_input{};
       js_val click_handler{};
 
-- 
2.43.0


From 4c1c38ce839989416e9903f592596f70ca1155a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:24 +0000
Subject: [PATCH 43/59] Revert "fix: keep a tile in the last row from moving
 below the board"

This reverts commit 49b201d46d65bc88a7b048a22b60e1a5ac355c27.
---
 example/tiles/game.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/example/tiles/game.hpp b/example/tiles/game.hpp
index 2370581..0d6fee7 100644
--- a/example/tiles/game.hpp
+++ b/example/tiles/game.hpp
@@ -39,7 +39,7 @@ namespace tiles
       if (i >= g.width
         && g.board[i - g.width] == 0)       return i - g.width;     // above
 
-      if (i < g.height * g.width - g.width
+      if (i <= g.height * g.width - g.width
         && g.board[i + g.width] == 0)       return i + g.width;     // below
 
       // The tile is not adjacent to the empty space.
-- 
2.43.0


From badbac417f82ab49d5c48668575734dc3f8edd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:00 +0000
Subject: [PATCH 44/59] fix: the JavaScript binder keeps every byte of a string

---
 include/nbdl/binder/js.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/nbdl/binder/js.hpp b/include/nbdl/binder/js.hpp
index a13a770..1667d46 100644
--- a/include/nbdl/binder/js.hpp
+++ b/include/nbdl/binder/js.hpp
@@ -124,7 +124,10 @@ namespace nbdl::binder::js
       static void apply(js_val& val, X const& x) {
         EM_ASM_(
           {
-            Module.NBDL_DETAIL_JS_SET($0, UTF8ToString($1, $2));
+            // every byte counts, a NUL included
+            var bytes = Module.HEAPU8.slice($1, $1 + $2);
+            var decoder = new TextDecoder('utf-8', { ignoreBOM: true });
+            Module.NBDL_DETAIL_JS_SET($0, decoder.decode(bytes));
           }
         , val.handle()
         , x.data()
@@ -286,9 +289,11 @@ namespace nbdl::binder::js
       {
         using String = std::decay_t<X>;
 
+        // the length in bytes
         int length = EM_ASM_INT(
           {
-            return Module.NBDL_DETAIL_JS_GET($0).length;
+            var v = Module.NBDL_DETAIL_JS_GET($0);
+            return typeof v === 'string' ? new TextEncoder().encode(v).length : v.length;
           }
         , val.handle()
         );
@@ -300,7 +305,7 @@ namespace nbdl::binder::js
             var v = Module.NBDL_DETAIL_JS_GET($0);
             if (typeof v === 'string')
             {
-              Module.stringToAscii(v, $1);
+              Module.HEAPU8.set(new TextEncoder().encode(v), $1);
             }
             else // assume its an ArrayBuffer
             {
-- 
2.43.0


From 62fcd3e4b6748f80e3af3bb5fce014971714c5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:00 +0000
Subject: [PATCH 45/59] fix: the JavaScript binder writes booleans and unsigned
 integers as such

---
 include/nbdl/binder/js.hpp | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/include/nbdl/binder/js.hpp b/include/nbdl/binder/js.hpp
index 1667d46..9b9fd1d 100644
--- a/include/nbdl/binder/js.hpp
+++ b/include/nbdl/binder/js.hpp
@@ -141,13 +141,34 @@ namespace nbdl::binder::js
     struct bind_to_impl<T> {
       template <typename X>
       static void apply(js_val& val, X x) {
-        EM_ASM_(
-          {
-            Module.NBDL_DETAIL_JS_SET($0, $1);
-          }
-        , val.handle()
-        , x
-        );
+        if constexpr (std::is_same<X, bool>::value) {
+          EM_ASM_(
+            {
+              Module.NBDL_DETAIL_JS_SET($0, !!$1);
+            }
+          , val.handle()
+          , x
+          );
+        }
+        else if constexpr (std::is_unsigned<X>::value) {
+          // an argument is seen as a signed integer
+          EM_ASM_(
+            {
+              Module.NBDL_DETAIL_JS_SET($0, $1 >>> 0);
+            }
+          , val.handle()
+          , x
+          );
+        }
+        else {
+          EM_ASM_(
+            {
+              Module.NBDL_DETAIL_JS_SET($0, $1);
+            }
+          , val.handle()
+          , x
+          );
+        }
       }
     };
 
-- 
2.43.0


From c8cd4cb20cf850c8b2dd023a7948d3869e78215b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:49 +0000
Subject: [PATCH 46/59] fix: the store follows a route that is set as a string

---
 include/nbdl/webui/nav_route.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/webui/nav_route.hpp b/include/nbdl/webui/nav_route.hpp
index d56e9b8..1b955d3 100644
--- a/include/nbdl/webui/nav_route.hpp
+++ b/include/nbdl/webui/nav_route.hpp
@@ -180,8 +180,9 @@ namespace nbdl
             }
           )
         );
-        p.receiver->virtual_(webui::detail::receive_event_s)(*p.receiver);
       }
+      // update the store with the new location
+      p.receiver->virtual_(webui::detail::receive_event_s)(*p.receiver);
     }
   };
 
-- 
2.43.0


From c869c7b9db7a7142f062eeae6eb1a2baa8dcf69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:49 +0000
Subject: [PATCH 47/59] fix: text in a route survives the page's location

---
 include/nbdl/webui/nav_route.hpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/include/nbdl/webui/nav_route.hpp b/include/nbdl/webui/nav_route.hpp
index 1b955d3..4f73d17 100644
--- a/include/nbdl/webui/nav_route.hpp
+++ b/include/nbdl/webui/nav_route.hpp
@@ -43,10 +43,13 @@ namespace nbdl::webui
     {
       EM_ASM_(
         {
-          var s = Module.NBDL_WEBUI_NAV_URI_PREFIX + UTF8ToString($0);
-          window.history.pushState(null, null, s);
+          var bytes = Module.HEAPU8.slice($0, $0 + $1);
+          var s = new TextDecoder('utf-8', { ignoreBOM: true }).decode(bytes);
+          s = s.split('/').map(encodeURIComponent).join('/');
+          window.history.pushState(null, null, Module.NBDL_WEBUI_NAV_URI_PREFIX + s);
         }
       , route.data()
+      , route.size()
       );
     }
 
@@ -65,6 +68,15 @@ namespace nbdl::webui
             if (!Module.NBDL_WEBUI_NAV_URI_PREFIX) {
               Module.NBDL_WEBUI_NAV_URI_PREFIX = "";
             }
+            // the route that is in the location
+            Module.NBDL_WEBUI_NAV_ROUTE = function()
+            {
+              var s = window.location.pathname.slice(
+                Module.NBDL_WEBUI_NAV_URI_PREFIX.length);
+              try { s = decodeURIComponent(s); }
+              catch (e) { } // not encoded
+              return new TextEncoder().encode(s);
+            };
             window.onpopstate = function()
             {
               // call the handler
@@ -78,16 +90,13 @@ namespace nbdl::webui
       void receive_event()
       {
         std::size_t length = EM_ASM_INT({
-          return window.location.pathname.length
-                 - Module.NBDL_WEBUI_NAV_URI_PREFIX.length;
+          return Module.NBDL_WEBUI_NAV_ROUTE().length;
         }, 0);
         nbdl::string route(length, '\0');
 
         EM_ASM_(
           {
-            var s = window.location.pathname.slice(
-              Module.NBDL_WEBUI_NAV_URI_PREFIX.length);
-            stringToAscii(s, $0);
+            Module.HEAPU8.set(Module.NBDL_WEBUI_NAV_ROUTE(), $0);
           }
         , route.data()
         );
-- 
2.43.0


From dc387fe63be71c20739d8c3575c66e4e4fe20a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:50 +0000
Subject: [PATCH 48/59] fix: no route is in a location outside the prefix

---
 include/nbdl/webui/nav_route.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/webui/nav_route.hpp b/include/nbdl/webui/nav_route.hpp
index 4f73d17..0d12ee5 100644
--- a/include/nbdl/webui/nav_route.hpp
+++ b/include/nbdl/webui/nav_route.hpp
@@ -71,8 +71,9 @@ namespace nbdl::webui
             // the route that is in the location
             Module.NBDL_WEBUI_NAV_ROUTE = function()
             {
-              var s = window.location.pathname.slice(
-                Module.NBDL_WEBUI_NAV_URI_PREFIX.length);
+              var s = window.location.pathname;
+              if (!s.startsWith(Module.NBDL_WEBUI_NAV_URI_PREFIX)) return [];
+              s = s.slice(Module.NBDL_WEBUI_NAV_URI_PREFIX.length);
               try { s = decodeURIComponent(s); }
               catch (e) { } // not encoded
               return new TextEncoder().encode(s);
-- 
2.43.0


From e1c7ce6ef795880c2aebc76b2450a53693cdacbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:50 +0000
Subject: [PATCH 49/59] fix: a context that is gone no longer hears of the
 browser's history

---
 include/nbdl/webui/nav_route.hpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/nbdl/webui/nav_route.hpp b/include/nbdl/webui/nav_route.hpp
index 0d12ee5..42f43f4 100644
--- a/include/nbdl/webui/nav_route.hpp
+++ b/include/nbdl/webui/nav_route.hpp
@@ -83,6 +83,27 @@ namespace nbdl::webui
               // call the handler
               Module.NBDL_DETAIL_JS_GET($0)();
             };
+            window.onpopstate.nbdl_handler = $0;
+          }
+        , vals->handler.handle()
+        );
+      }
+
+      popstate_event_receiver(popstate_event_receiver&&) = default;
+
+      ~popstate_event_receiver()
+      {
+        if (!vals)
+        {
+          // moved from
+          return;
+        }
+        EM_ASM_(
+          {
+            // it may be another's by now
+            if (window.onpopstate && window.onpopstate.nbdl_handler === $0) {
+              window.onpopstate = null;
+            }
           }
         , vals->handler.handle()
         );
-- 
2.43.0


From a467864d426486438de3ccd8b04469df960c70c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:47 +0000
Subject: [PATCH 50/59] fix: a binary message received by a websocket_api
 endpoint was always empty

---
 .../websocket_api/detail/convert_payload.hpp     | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/nbdl/websocket_api/detail/convert_payload.hpp b/include/nbdl/websocket_api/detail/convert_payload.hpp
index d72a0c9..14cce83 100644
--- a/include/nbdl/websocket_api/detail/convert_payload.hpp
+++ b/include/nbdl/websocket_api/detail/convert_payload.hpp
@@ -26,32 +26,34 @@ namespace nbdl::websocket_api::detail
   {
     static_assert(sizeof(Char) == 1);
 
-    static void apply(nbdl::detail::js_val const& val, std::vector<unsigned char>& p)
+    static void apply(nbdl::detail::js_val const& val, std::vector<Char, Allocator>& p)
     {
       int len = EM_ASM_INT(
         {
-          return Module.NBDL_DETAIL_JS_GET($0).length;
+          var v = Module.NBDL_DETAIL_JS_GET($0);
+          return typeof v === 'string' ? lengthBytesUTF8(v) : v.byteLength;
         }
       , js::detail::get_handle(val)
       );
-      p.resize(len);
-      p.clear();
+      // stringToUTF8 writes a null terminator
+      p.resize(len + 1);
       EM_ASM_(
         {
           var v = Module.NBDL_DETAIL_JS_GET($0);
           if (typeof v === 'string')
           {
-            Module.stringToAscii(v, $1);
+            stringToUTF8(v, $1, $2);
           }
           else // assume its an ArrayBuffer
           {
-            var heap = new Uint8Array(Module.HEAPU8.buffer, $1, v.length);
-            heap.set(v);
+            Module.HEAPU8.set(new Uint8Array(v), $1);
           }
         }
       , js::detail::get_handle(val)
       , p.data()
+      , len + 1
       );
+      p.resize(len);
     }
   };
 
-- 
2.43.0


From 0571bbefc230c09c5cf497331888d8c5fe7a433a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:47 +0000
Subject: [PATCH 51/59] fix: a websocket_api endpoint sent the whole heap for a
 binary message

---
 include/nbdl/websocket_api/detail/endpoint_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nbdl/websocket_api/detail/endpoint_impl.hpp b/include/nbdl/websocket_api/detail/endpoint_impl.hpp
index 0cce7b8..48032eb 100644
--- a/include/nbdl/websocket_api/detail/endpoint_impl.hpp
+++ b/include/nbdl/websocket_api/detail/endpoint_impl.hpp
@@ -220,7 +220,7 @@ namespace nbdl::websocket_api::detail
     {
       EM_ASM_(
         {
-          Module.NBDL_DETAIL_JS_GET($0).send(Module.HEAPU8.subarray($1, $2).buffer);
+          Module.NBDL_DETAIL_JS_GET($0).send(Module.HEAPU8.slice($1, $1 + $2));
         }
       , js::detail::get_handle(websocket)
       , p.data()
-- 
2.43.0


From d10c6c433eea76b2fdf5ffe8fab78c16648dee18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:54 +0000
Subject: [PATCH 52/59] fix: a websocket_api endpoint that was destroyed was
 still told of events

---
 .../websocket_api/detail/endpoint_impl.hpp    | 31 ++++++++++++++++---
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/include/nbdl/websocket_api/detail/endpoint_impl.hpp b/include/nbdl/websocket_api/detail/endpoint_impl.hpp
index 48032eb..ad637bb 100644
--- a/include/nbdl/websocket_api/detail/endpoint_impl.hpp
+++ b/include/nbdl/websocket_api/detail/endpoint_impl.hpp
@@ -56,6 +56,16 @@ namespace nbdl::websocket_api::detail
 
     endpoint_impl(endpoint_impl const&) = delete;
 
+    ~endpoint_impl()
+    {
+      EM_ASM_(
+        {
+          Module.NBDL_DETAIL_JS_GET($0).nbdl_detail_disconnect();
+        }
+      , js::detail::get_handle(websocket)
+      );
+    }
+
     void send_message(Payload const&);
     void send_close();
 
@@ -116,9 +126,18 @@ namespace nbdl::websocket_api::detail
         var s = new window.WebSocket(UTF8ToString($0, $1));
         s.binaryType = 'arraybuffer';
 
+        // The socket outlives the endpoint
+        var receiver = $2;
+        s.nbdl_detail_disconnect = function()
+        {
+          receiver = 0;
+          s.close();
+        };
+
         s.addEventListener('open', function(event)
         {
-          Module.__nbdl_endpoint_ready($2); 
+          if (!receiver) return;
+          Module.__nbdl_endpoint_ready(receiver);
         });
 
         // 'error' handler apparently needed in nodejs land
@@ -127,20 +146,22 @@ namespace nbdl::websocket_api::detail
 
         s.addEventListener('message', function(event)
         {
+          if (!receiver) return;
           Module.NBDL_DETAIL_JS_SET(
-            Module.__nbdl_endpoint_value_handle($2)
+            Module.__nbdl_endpoint_value_handle(receiver)
           , event.data
           );
-          Module.__nbdl_endpoint_message($2); 
+          Module.__nbdl_endpoint_message(receiver);
         });
 
         s.addEventListener('close', function(event)
         {
+          if (!receiver) return;
           Module.NBDL_DETAIL_JS_SET(
-            Module.__nbdl_endpoint_value_handle($2)
+            Module.__nbdl_endpoint_value_handle(receiver)
           , event.code
           );
-          Module.__nbdl_endpoint_close($2); 
+          Module.__nbdl_endpoint_close(receiver);
         });
 
         Module.NBDL_DETAIL_JS_SET($3, s);
-- 
2.43.0


From 676ea5363a1750a8c22a3ac738e2a1bd25ba67e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:08 +0000
Subject: [PATCH 53/59] fix: the callbacks of a settled NBDL_JS_PROMISE were
 never deleted

---
 include/nbdl/macros/NBDL_JS_PROMISE.hpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/include/nbdl/macros/NBDL_JS_PROMISE.hpp b/include/nbdl/macros/NBDL_JS_PROMISE.hpp
index a4245ed..3374365 100644
--- a/include/nbdl/macros/NBDL_JS_PROMISE.hpp
+++ b/include/nbdl/macros/NBDL_JS_PROMISE.hpp
@@ -13,6 +13,7 @@
 
 #include <boost/hana/tuple.hpp>
 #include <array>
+#include <memory>
 #include <utility>
 
 namespace nbdl::js::detail
@@ -23,23 +24,31 @@ namespace nbdl::js::detail
     {
       // Really weird lifetime management stuffs here
       // pair(resolve, reject)
-      std::pair<callback_t, callback_t>* delete_me{};
+      using Callbacks = std::pair<callback_t, callback_t>;
+      auto delete_me = std::make_shared<Callbacks*>(nullptr);
 
       auto resolve = callback([&resolver, delete_me](auto const& result)
       {
-        delete delete_me;
-        resolver.resolve(result);
+        // Deleting the callbacks destroys the captures and the result
+        auto& r = resolver;
+        auto* callbacks = *delete_me;
+        val result_copy{result};
+        delete callbacks;
+        r.resolve(result_copy);
       });
 
       auto reject  = callback([&resolver, delete_me](auto const& result)
       {
-        delete delete_me;
-        resolver.reject(result);
+        auto& r = resolver;
+        auto* callbacks = *delete_me;
+        val result_copy{result};
+        delete callbacks;
+        r.reject(result_copy);
       });
 
-      delete_me = new std::pair<callback_t, callback_t>(std::move(resolve), std::move(reject));
+      *delete_me = new Callbacks(std::move(resolve), std::move(reject));
 
-      js_routine(delete_me->first, delete_me->second, input_vals);
+      js_routine((*delete_me)->first, (*delete_me)->second, input_vals);
     });
   };
 
-- 
2.43.0


From d0dff8a9f97706871ffce671511e27045ecdf854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:08 +0000
Subject: [PATCH 54/59] fix: settling an NBDL_JS_PROMISE again used what was
 deleted

---
 include/nbdl/webui/detail/event_receiver.hpp | 31 ++++++++++++--------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/include/nbdl/webui/detail/event_receiver.hpp b/include/nbdl/webui/detail/event_receiver.hpp
index 90c35a4..18fdd5b 100644
--- a/include/nbdl/webui/detail/event_receiver.hpp
+++ b/include/nbdl/webui/detail/event_receiver.hpp
@@ -91,21 +91,26 @@ namespace nbdl::webui::detail
     js_val::init_registry();
     EM_ASM_(
       {
-        Module.NBDL_DETAIL_JS_SET(
-          $0
-        , function(event)
+        var handler = function(event)
+        {
+          // The receiver may be gone
+          if (Module.NBDL_DETAIL_JS_GET($0) !== handler) return;
+
+          if (event && event.type === 'submit')
           {
-            if (event && event.type === 'submit')
-            {
-              event.preventDefault();
-            }
-
-            Module.NBDL_DETAIL_JS_SET(
-              $1
-            , event
-            );
-            Module.__nbdl_webui_detail_event_callback($2);
+            event.preventDefault();
           }
+
+          Module.NBDL_DETAIL_JS_SET(
+            $1
+          , event
+          );
+          Module.__nbdl_webui_detail_event_callback($2);
+        };
+
+        Module.NBDL_DETAIL_JS_SET(
+          $0
+        , handler
         );
       }
     , receiver.virtual_(handler_s)(receiver).handle()
-- 
2.43.0


From c458c136afa15093f0e6dbcf7234f9f854917d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:28 +0000
Subject: [PATCH 55/59] fix: deltas of records with variant members could not
 be applied to deltas

---
 include/nbdl/delta.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/delta.hpp b/include/nbdl/delta.hpp
index 192b4b0..ebc5b41 100644
--- a/include/nbdl/delta.hpp
+++ b/include/nbdl/delta.hpp
@@ -14,6 +14,8 @@
 #include <nbdl/make_delta.hpp>
 #include <nbdl/variant.hpp>
 
+#include <type_traits>
+
 namespace nbdl
 {
   namespace hana = boost::hana;
@@ -105,7 +107,14 @@ namespace nbdl
             [](nbdl::nothing) { },
             [&](auto const& value)
             {
-              if (!hana::equal(value, x))
+              // members of a delta are optionals of what is applied to them
+              bool is_equal = false;
+              if constexpr(std::is_same_v<std::decay_t<decltype(value)>, std::decay_t<decltype(x)>>)
+              {
+                is_equal = hana::equal(value, x);
+              }
+
+              if (!is_equal)
               {
                 result = true;
                 x = value;
-- 
2.43.0


From 7eaa60e5845d1652f787f765f3655758382e3e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:06 +0000
Subject: [PATCH 56/59] fix: a number that an enumeration can not hold was read
 as another one

---
 include/nbdl/binder/jsoncpp.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/nbdl/binder/jsoncpp.hpp b/include/nbdl/binder/jsoncpp.hpp
index b1e808b..b0bd621 100644
--- a/include/nbdl/binder/jsoncpp.hpp
+++ b/include/nbdl/binder/jsoncpp.hpp
@@ -66,10 +66,16 @@ namespace nbdl { namespace binder { namespace jsoncpp
       void bind_enum(Json::Value const& obj, T& field) {
         if (!obj.isIntegral())
           throw std::runtime_error("JSON Integral expected");
-        if constexpr(std::is_unsigned_v<std::underlying_type_t<T>>)
-          field = static_cast<T>(obj.asUInt());
-        else
-          field = static_cast<T>(obj.asInt());
+        using Underlying = std::underlying_type_t<T>;
+        auto const value = [&] {
+          if constexpr(std::is_unsigned_v<Underlying>)
+            return obj.asLargestUInt();
+          else
+            return obj.asLargestInt();
+        }();
+        if (static_cast<Underlying>(value) != value)
+          throw std::runtime_error("JSON Integral is out of range");
+        field = static_cast<T>(value);
       }
 
       void bind_(Json::Value const& obj, double& field)
-- 
2.43.0


From 442ecb2db3c3e579e7ec7c958f89a834cd7093d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:06 +0000
Subject: [PATCH 57/59] fix: unsigned enumerations were written to JavaScript
 as negative numbers

---
 include/nbdl/binder/js.hpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/include/nbdl/binder/js.hpp b/include/nbdl/binder/js.hpp
index 9b9fd1d..c769506 100644
--- a/include/nbdl/binder/js.hpp
+++ b/include/nbdl/binder/js.hpp
@@ -177,13 +177,25 @@ namespace nbdl::binder::js
     struct bind_to_impl<T> {
       template <typename X>
       static void apply(js_val& val, X x) {
-        EM_ASM_(
-          {
-            Module.NBDL_DETAIL_JS_SET($0, $1);
-          }
-        , val.handle()
-        , static_cast<std::underlying_type_t<X>>(x)
-        );
+        if constexpr (std::is_unsigned<std::underlying_type_t<X>>::value) {
+          // an argument is seen as a signed integer
+          EM_ASM_(
+            {
+              Module.NBDL_DETAIL_JS_SET($0, $1 >>> 0);
+            }
+          , val.handle()
+          , static_cast<std::underlying_type_t<X>>(x)
+          );
+        }
+        else {
+          EM_ASM_(
+            {
+              Module.NBDL_DETAIL_JS_SET($0, $1);
+            }
+          , val.handle()
+          , static_cast<std::underlying_type_t<X>>(x)
+          );
+        }
       }
     };
 
-- 
2.43.0


From 9202497b89e77470835b4c13f9e707a48660ff2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:06 +0000
Subject: [PATCH 58/59] fix: getting from a store that gives a value returned a
 dangling reference

---
 include/nbdl/get.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/get.hpp b/include/nbdl/get.hpp
index a5985ad..7c58df2 100644
--- a/include/nbdl/get.hpp
+++ b/include/nbdl/get.hpp
@@ -18,6 +18,7 @@
 #include <boost/hana/equal.hpp>
 #include <boost/hana/functional/compose.hpp>
 #include <functional>
+#include <type_traits>
 #include <utility>
 
 namespace nbdl {
@@ -28,7 +29,17 @@ namespace nbdl {
     using Tag = hana::tag_of_t<State>;
     using Impl = get_impl<Tag>;
 
-    return get(Impl::apply(std::forward<State>(s), std::forward<Key>(k)));
+    using Value = decltype(
+      Impl::apply(std::forward<State>(s), std::forward<Key>(k)));
+
+    if constexpr(std::is_same_v<Value, std::remove_cvref_t<
+                   decltype(get(std::declval<Value>()))>>) {
+      // a value that is nobody's to refer to
+      return Impl::apply(std::forward<State>(s), std::forward<Key>(k));
+    }
+    else {
+      return get(Impl::apply(std::forward<State>(s), std::forward<Key>(k)));
+    }
   };
 
   template <typename State>
-- 
2.43.0


From f49ae4a3247055e13dd4a45359968d855565d2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:06 +0000
Subject: [PATCH 59/59] fix: routes of ten and more members were never found
 and read past the params

---
 include/nbdl/webui/route_map.hpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/webui/route_map.hpp b/include/nbdl/webui/route_map.hpp
index 038d7fc..2145d83 100644
--- a/include/nbdl/webui/route_map.hpp
+++ b/include/nbdl/webui/route_map.hpp
@@ -119,6 +119,18 @@ namespace nbdl::webui
       return std::string_view{start_ptr, end_pos};
     }
 
+    struct count_params
+    {
+      template <typename ...Param>
+      constexpr auto operator()(Param&& ...) const
+        -> std::integral_constant<std::size_t, sizeof...(Param)>
+      { return {}; }
+    };
+
+    template <typename Route>
+    using route_params_count = decltype(
+      nbdl::bind_sequence(std::declval<Route&>(), count_params{}));
+
     template <typename ...Key>
     struct route_names_impl
     {
@@ -137,9 +149,15 @@ namespace nbdl::webui
   template <typename Map>
   class route_map<Map>
   {
-    // max 10 parameters
-    using Params = std::array<std::string_view, 10>;
     using ReverseMap = mp_transform<mp_reverse, Map>;
+    // the name, every parameter, and one that would be too many
+    using Params = std::array<std::string_view, mp_apply<
+      mp_max
+    , mp_push_back<
+        mp_transform<detail::route_params_count, mp_map_keys<ReverseMap>>
+      , std::integral_constant<std::size_t, 8>
+      >
+    >::value + 2>;
     using Variant = mp_apply<route_variant, mp_map_keys<ReverseMap>>;
 
     Variant make_from_params(Params const& params, std::size_t params_count) const
-- 
2.43.0

