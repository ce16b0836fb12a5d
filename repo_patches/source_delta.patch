From 84504ed7069eaba3eb351658b9636110cce568f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:03:40 +0000
Subject: [PATCH 01/23] fix: report failed writes of wheel events

---
 src/server/unix/VirtualDevicesLinux.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/server/unix/VirtualDevicesLinux.cpp b/src/server/unix/VirtualDevicesLinux.cpp
index 72464aa..8271e8b 100644
--- a/src/server/unix/VirtualDevicesLinux.cpp
+++ b/src/server/unix/VirtualDevicesLinux.cpp
@@ -302,9 +302,11 @@ public:
       const auto vertical = (event.key == Key::WheelUp || event.key == Key::WheelDown);
       const auto negative = (event.key == Key::WheelDown || event.key == Key::WheelLeft);
       const auto value = (event.value ? event.value : 120) * (negative ? -1 : 1);
-      device->send_event(EV_REL, (vertical ? REL_WHEEL_HI_RES : REL_HWHEEL_HI_RES), value);
+      if (!device->send_event(EV_REL, (vertical ? REL_WHEEL_HI_RES : REL_HWHEEL_HI_RES), value))
+        return false;
       if (auto lowres_value = device->update_lowres_wheel(vertical, value))
-        device->send_event(EV_REL, (vertical ? REL_WHEEL : REL_HWHEEL), lowres_value);
+        if (!device->send_event(EV_REL, (vertical ? REL_WHEEL : REL_HWHEEL), lowres_value))
+          return false;
     }
     else {
       if (!device->send_event(EV_KEY, *event.key, device->update_key_state(event)))
-- 
2.43.0


From f8aa73826e314e05f9c0cefe989ad0666b7dc259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:07:28 +0000
Subject: [PATCH 02/23] fix: keep suffix of virtual device names when name is
 too long

---
 src/server/unix/VirtualDevicesLinux.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server/unix/VirtualDevicesLinux.cpp b/src/server/unix/VirtualDevicesLinux.cpp
index 8271e8b..f800ae3 100644
--- a/src/server/unix/VirtualDevicesLinux.cpp
+++ b/src/server/unix/VirtualDevicesLinux.cpp
@@ -14,7 +14,11 @@
 
 namespace {
   std::string get_forward_device_name(const std::string& device_name) {
-    return device_name + "; " + VirtualDevices::name;
+    // shorten device name, so that the suffix which identifies
+    // virtual devices does not get truncated
+    const auto suffix = std::string("; ") + VirtualDevices::name;
+    const auto max_length = UINPUT_MAX_NAME_SIZE - 1 - suffix.size();
+    return device_name.substr(0, max_length) + suffix;
   }
 
   int open_uinput_device() {
-- 
2.43.0


From e8740ff8e42c39c0a781cc34622e935eed344ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:08:45 +0000
Subject: [PATCH 03/23] fix: close socket when connecting times out

---
 src/common/Host.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/Host.cpp b/src/common/Host.cpp
index 5e1a7d2..c237b86 100644
--- a/src/common/Host.cpp
+++ b/src/common/Host.cpp
@@ -198,5 +198,6 @@ Connection Host::connect(std::optional<Duration> timeout) {
 
     std::this_thread::sleep_for(std::chrono::milliseconds(50));
   }
+  ::close(socket_fd);
   return { };
 }
-- 
2.43.0


From e722ae98e6f90f26c16a90ab035af06fd77fd92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:24:10 +0000
Subject: [PATCH 04/23] fix: send or discard all buffered output when resetting
 configuration

Output delayed by timeouts and output which could not be sent stayed in the
buffer and was sent under the next configuration.
---
 src/server/ServerState.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/server/ServerState.cpp b/src/server/ServerState.cpp
index 4dde44c..3a10432 100644
--- a/src/server/ServerState.cpp
+++ b/src/server/ServerState.cpp
@@ -103,6 +103,15 @@ bool ServerState::read_client_messages(std::optional<Duration> timeout) {
 void ServerState::reset_configuration(std::unique_ptr<MultiStage> stage) {
   release_all_keys();
   flush_send_buffer();
+  // also send output which was delayed by timeouts
+  for (auto size = m_send_buffer.size() + 1;
+       m_send_buffer.size() < size && !m_send_buffer.empty(); ) {
+    size = m_send_buffer.size();
+    flush_send_buffer();
+  }
+  // discard what could not be sent
+  if (!m_sending_key)
+    m_send_buffer.clear();
   verbose("Resetting configuration");
   m_stage = (stage ? std::move(stage) : std::make_unique<MultiStage>());
   m_virtual_keys_down.clear();
-- 
2.43.0


From 2c672637c1604cf8fee3aee226839960b4ffd438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:03:11 +0000
Subject: [PATCH 05/23] fix: only send press and release events of real keys

---
 src/server/ServerState.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/server/ServerState.cpp b/src/server/ServerState.cpp
index 3a10432..7cd56d4 100644
--- a/src/server/ServerState.cpp
+++ b/src/server/ServerState.cpp
@@ -329,6 +329,11 @@ bool ServerState::flush_send_buffer() {
       break;
     }
 
+    // only press and release real keys (injected output can contain others)
+    if (!is_device_key(event.key) ||
+        (event.state != KeyState::Up && event.state != KeyState::Down))
+      continue;
+
 #if defined(_WIN32)
     // do not release Control too quickly
     // otherwise copy/paste does not work in some input fields
-- 
2.43.0


From fcf7f8e74af2902ea9cd77aa2eb730164a6ed102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:26:12 +0000
Subject: [PATCH 06/23] fix: report virtual keys as released when resetting
 configuration

---
 src/server/ServerState.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/server/ServerState.cpp b/src/server/ServerState.cpp
index 7cd56d4..636fcaa 100644
--- a/src/server/ServerState.cpp
+++ b/src/server/ServerState.cpp
@@ -114,6 +114,9 @@ void ServerState::reset_configuration(std::unique_ptr<MultiStage> stage) {
     m_send_buffer.clear();
   verbose("Resetting configuration");
   m_stage = (stage ? std::move(stage) : std::make_unique<MultiStage>());
+  for (auto key : m_virtual_keys_down)
+    if (is_virtual_key(key))
+      m_client->send_virtual_key_state(key, KeyState::Up);
   m_virtual_keys_down.clear();
   m_flush_scheduled_at.reset();
   m_timeout_start_at.reset();
-- 
2.43.0


From 79b5c8d643785b8f8af7905e9f61c82b897f16c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:26:32 +0000
Subject: [PATCH 07/23] fix: reserve room for the state of the last virtual key

---
 src/client/ControlPort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/ControlPort.h b/src/client/ControlPort.h
index 0540b02..84bf0a7 100644
--- a/src/client/ControlPort.h
+++ b/src/client/ControlPort.h
@@ -50,7 +50,7 @@ private:
   void disconnect_by_instance_id(const std::string& id);
 
   Host m_host;
-  std::array<bool, *Key::last_virtual - *Key::first_virtual> m_virtual_keys_down{ };
+  std::array<bool, *Key::last_virtual - *Key::first_virtual + 1> m_virtual_keys_down{ };
   std::vector<std::pair<std::string, Key>> m_virtual_key_aliases;
   std::map<Socket, Control> m_controls;
 };
-- 
2.43.0


From 79b82fad0d041826d2a25c70f0a04ae07460f543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:32:54 +0000
Subject: [PATCH 08/23] fix: report unknown key when waiting for its state

---
 src/control/main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/control/main.cpp b/src/control/main.cpp
index 025638a..7aca221 100644
--- a/src/control/main.cpp
+++ b/src/control/main.cpp
@@ -152,6 +152,9 @@ namespace {
               (request.type == RequestType::wait_released && state == KeyState::Up))
             return Result::yes;
 
+          if (state != KeyState::Up && state != KeyState::Down)
+            return Result::key_not_found;
+
           return wait_until_key_state_changed(request.string, request.timeout).result;
         }
         return result;
-- 
2.43.0


From bfe0b292f0690e3496758561a8b2589486167186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:32:54 +0000
Subject: [PATCH 09/23] fix: do not report a failed connection when only
 waiting

---
 src/control/main.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/control/main.cpp b/src/control/main.cpp
index 7aca221..ca9da31 100644
--- a/src/control/main.cpp
+++ b/src/control/main.cpp
@@ -208,9 +208,11 @@ int main(int argc, char* argv[]) {
   auto connect_timeout = g_settings.requests.front().timeout;
 
 RESTART:
-  if (result == Result::connection_failed)
+  if (result == Result::connection_failed) {
     if (!g_client.connect(connect_timeout))
       return Result::connection_failed;
+    result = Result::yes;
+  }
 
   for (const auto& request : g_settings.requests)
     if (request.type == RequestType::restart) {
-- 
2.43.0


From 89c2ed16893a20a47435847aff857314486f7d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:14:29 +0000
Subject: [PATCH 10/23] fix: keep using current configuration when switching to
 a recent one fails

---
 src/client/ClientState.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/client/ClientState.cpp b/src/client/ClientState.cpp
index c526f80..eeef1ad 100644
--- a/src/client/ClientState.cpp
+++ b/src/client/ClientState.cpp
@@ -116,7 +116,11 @@ bool ClientState::load_config(std::filesystem::path filename) {
   else {
     // swap with previously loaded file
     std::swap(*it, m_config_file);
-    return m_config_file.update(false);
+    if (m_config_file.update(false))
+      return true;
+    // keep using the current file
+    std::swap(*it, m_config_file);
+    return false;
   }
 }
 
-- 
2.43.0


From b8013d5e1f9e93cb0ea967e4046c19ee14e48d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:14:29 +0000
Subject: [PATCH 11/23] fix: do not send configuration when reloading it failed

---
 src/client/unix/main.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/client/unix/main.cpp b/src/client/unix/main.cpp
index ae5d7b4..f5c4de9 100644
--- a/src/client/unix/main.cpp
+++ b/src/client/unix/main.cpp
@@ -89,9 +89,10 @@ namespace {
   }
   
   void ClientStateImpl::on_reload_config() {
-    g_state.update_config(false);
-    g_state.send_config();
-    update_options();
+    if (g_state.update_config(false)) {
+      g_state.send_config();
+      update_options();
+    }
   }
   
   void ClientStateImpl::on_request_next_key_info() {
-- 
2.43.0


From 91119ea8e7ee629d9f2f9af66b59157a1d03a0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:08:24 +0000
Subject: [PATCH 12/23] fix: do not record a grabbed device when duplicating
 its descriptor fails

---
 src/server/unix/GrabbedDevicesLinux.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server/unix/GrabbedDevicesLinux.cpp b/src/server/unix/GrabbedDevicesLinux.cpp
index b72c1f5..d4093e9 100644
--- a/src/server/unix/GrabbedDevicesLinux.cpp
+++ b/src/server/unix/GrabbedDevicesLinux.cpp
@@ -438,9 +438,13 @@ private:
     if (!grab_event_device(fd, true))
       return false;
 
+    const auto device_fd = ::dup(fd);
+    if (device_fd < 0)
+      return false;
+
     m_grabbed_devices.push_back({
       event_id,
-      ::dup(fd),
+      device_fd,
       get_device_abs_axis_range(fd, ABS_VOLUME),
       get_device_abs_axis_range(fd, ABS_MISC),
       has_highres_wheel(fd),
-- 
2.43.0


From 2d3bbf39aca14c485cf217fdd68e51adf786cbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:13:30 +0000
Subject: [PATCH 13/23] fix: close sockets when starting another program

---
 src/common/Host.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/common/Host.cpp b/src/common/Host.cpp
index c237b86..7040491 100644
--- a/src/common/Host.cpp
+++ b/src/common/Host.cpp
@@ -52,6 +52,9 @@ void make_non_blocking(Socket socket_fd) {
   ::ioctlsocket(socket_fd, FIONBIO, &mode);
 }
 
+void make_close_on_exec(Socket) {
+}
+
 #else // !defined(_WIN32)
 
 #include <csignal>
@@ -96,6 +99,10 @@ void make_non_blocking(Socket socket_fd) {
   ::fcntl(socket_fd, F_SETFL, flags | O_NONBLOCK);
 }
 
+void make_close_on_exec(Socket socket_fd) {
+  ::fcntl(socket_fd, F_SETFD, FD_CLOEXEC);
+}
+
 #endif // !defined(_WIN32)
 
 Host::~Host() {
@@ -106,6 +113,7 @@ bool Host::listen() {
   m_listen_fd = ::socket(AF_UNIX, SOCK_STREAM, 0);
   if (m_listen_fd == invalid_socket)
     return false;
+  make_close_on_exec(m_listen_fd);
 
   auto addr = sockaddr_un{ };
   addr.sun_family = AF_UNIX;
@@ -143,6 +151,7 @@ Connection Host::accept(std::optional<Duration> timeout) {
   auto socket_fd = ::accept(m_listen_fd, nullptr, nullptr);
   if (socket_fd == invalid_socket)
     return { };
+  make_close_on_exec(socket_fd);
   auto connection = Connection(socket_fd);
 
   // check if client version matches own
@@ -167,7 +176,8 @@ Connection Host::connect(std::optional<Duration> timeout) {
   auto socket_fd = ::socket(AF_UNIX, SOCK_STREAM, 0);
   if (socket_fd == invalid_socket)
     return { };
-   
+  make_close_on_exec(socket_fd);
+
   auto addr = sockaddr_un{ };
   addr.sun_family = AF_UNIX;
   set_unix_domain_socket_path(m_ipc_id, addr, false);
-- 
2.43.0


From de5ea5fcefefc6fa5aeda8580c4e0a5aef22049b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:19:33 +0000
Subject: [PATCH 14/23] fix: do not run commands when expanding the path of an
 include

---
 src/common/expand_path.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/common/expand_path.h b/src/common/expand_path.h
index 3a57b55..dad9679 100644
--- a/src/common/expand_path.h
+++ b/src/common/expand_path.h
@@ -8,9 +8,11 @@
 
 inline std::string expand_path(std::string string) {
   auto exp_result = wordexp_t{ };
-  wordexp(string.c_str(), &exp_result, 0);
-  string = exp_result.we_wordv[0];
-  wordfree(&exp_result);
+  if (wordexp(string.c_str(), &exp_result, WRDE_NOCMD) == 0) {
+    if (exp_result.we_wordc > 0)
+      string = exp_result.we_wordv[0];
+    wordfree(&exp_result);
+  }
   return string;
 }
 
-- 
2.43.0


From 1b5bbfcb04d4298653db4a277f67511137d4f05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:20:12 +0000
Subject: [PATCH 15/23] fix: start notify-send and xdg-open without a shell

---
 src/client/unix/main.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/client/unix/main.cpp b/src/client/unix/main.cpp
index f5c4de9..0606332 100644
--- a/src/client/unix/main.cpp
+++ b/src/client/unix/main.cpp
@@ -36,17 +36,24 @@ namespace {
   ClientStateImpl g_state;
   TrayIcon g_tray_icon;
 
+  template<typename... Args>
+  void start_program(const char* file, const Args*... args) {
+    if (fork() == 0) {
+      execlp(file, file, args..., nullptr);
+      _exit(1);
+    }
+  }
+
   void show_notification(const char* message) {
+#if defined(__APPLE__)
     auto escaped = std::string(message);
-    replace_all<char>(escaped, "\\", "\\\\\\");
+    replace_all<char>(escaped, "\\", "\\\\");
     replace_all<char>(escaped, "\"", "\\\"");
-    auto ss = std::stringstream();
-#if defined(__APPLE__)
-    ss << R"(osascript -e 'display notification ")" << escaped << R"(" with title "keymapper"')";
+    const auto script = "display notification \"" + escaped + "\" with title \"keymapper\"";
+    start_program("osascript", "-e", script.c_str());
 #else
-    ss << R"(notify-send -a keymapper keymapper ")" << escaped << R"(")";
+    start_program("notify-send", "-a", "keymapper", "--", "keymapper", message);
 #endif
-    [[maybe_unused]] auto result = std::system(ss.str().c_str());
   }
 
   void update_options() {
@@ -64,13 +71,12 @@ namespace {
     g_state.toggle_active();
   }
   
-  bool open(std::string command) {
+  void open(const std::string& target) {
 #if !defined(__APPLE__)
-    command = "xdg-open " + command;
+    start_program("xdg-open", target.c_str());
 #else
-    command = "open -e " + command;
+    start_program("open", "-e", target.c_str());
 #endif
-    return (std::system(command.c_str()) == 0);
   }
 
   void ClientStateImpl::on_open_config() {
-- 
2.43.0


From e19d845f26f117030df044a2bef8f68c3873b7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:33:55 +0000
Subject: [PATCH 16/23] fix: do not modify the connection in the signal handler

---
 src/server/unix/main.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/server/unix/main.cpp b/src/server/unix/main.cpp
index 5c78b8a..3951cfb 100644
--- a/src/server/unix/main.cpp
+++ b/src/server/unix/main.cpp
@@ -6,7 +6,9 @@
 #include "runtime/Timeout.h"
 #include "common/output.h"
 #include <csignal>
+#include <cerrno>
 #include <atomic>
+#include <sys/socket.h>
 
 namespace {
   class ServerStateImpl final : public ServerState {
@@ -168,7 +170,11 @@ namespace {
 
   void handle_shutdown_signal(int) {
     g_shutdown.store(true);
-    g_state.disconnect();
+
+    // interrupt waiting for input
+    const auto prev_errno = errno;
+    ::shutdown(g_interrupt_fd, SHUT_RDWR);
+    errno = prev_errno;
   }
  
   int connection_loop() {
-- 
2.43.0


From 2ac175bc072774b6cf42000df2d9914d9b76c435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:35:54 +0000
Subject: [PATCH 17/23] fix: reap all finished commands without blocking

---
 src/client/unix/main.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/client/unix/main.cpp b/src/client/unix/main.cpp
index 0606332..b9e4c04 100644
--- a/src/client/unix/main.cpp
+++ b/src/client/unix/main.cpp
@@ -6,6 +6,7 @@
 #include "common/output.h"
 #include <sstream>
 #include <csignal>
+#include <cerrno>
 #include <unistd.h>
 #include <fcntl.h>
 #include <sys/wait.h>
@@ -118,8 +119,10 @@ namespace {
   }
 
   void catch_child([[maybe_unused]] int sig_num) {
-    auto child_status = 0;
-    ::wait(&child_status);
+    const auto prev_errno = errno;
+    while (::waitpid(-1, nullptr, WNOHANG) > 0)
+      continue;
+    errno = prev_errno;
   }
 
   void main_loop() {
-- 
2.43.0


From 74b40ddaa0a7fbdb71918c55f9f22e4f5f4316c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:21:02 +0000
Subject: [PATCH 18/23] fix: do not wrap long durations

A number with many digits overflowed while it was read and a duration was
narrowed to int before it was limited. A delay of 4294967297ms became 1ms.
---
 src/config/string_iteration.h | 4 +++-
 src/runtime/Timeout.h         | 5 ++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/config/string_iteration.h b/src/config/string_iteration.h
index 6f1b321..85570cc 100644
--- a/src/config/string_iteration.h
+++ b/src/config/string_iteration.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <string>
 #include <cctype>
 #include <optional>
@@ -149,9 +150,10 @@ std::string read_ident(ForwardIt* it, ForwardIt end) {
 template<typename ForwardIt>
 std::optional<int> try_read_number(ForwardIt* it, ForwardIt end) {
   const auto begin = *it;
+  const auto max = 99999999; // prevent overflow
   auto number = 0;
   for (; *it != end && **it >= '0' && **it <= '9'; ++*it)
-    number = number * 10 + (**it - '0');
+    number = std::min(number, max) * 10 + (**it - '0');
   return (*it != begin ? std::make_optional(number) : std::nullopt);
 }
 
diff --git a/src/runtime/Timeout.h b/src/runtime/Timeout.h
index 752a18d..f37ac6f 100644
--- a/src/runtime/Timeout.h
+++ b/src/runtime/Timeout.h
@@ -10,10 +10,9 @@ template<typename R, typename P>
 KeyEvent::value_t duration_to_timeout(const std::chrono::duration<R, P>& duration) {
   const auto milliseconds = 
     std::chrono::duration_cast<std::chrono::milliseconds>(duration);
-  const auto max = (1 << KeyEvent::value_bits) - 1;
+  const auto max = std::chrono::milliseconds((1 << KeyEvent::value_bits) - 1);
   return static_cast<KeyEvent::value_t>(std::clamp(
-    static_cast<int>(milliseconds.count()),
-    0, max));
+    milliseconds, std::chrono::milliseconds::zero(), max).count());
 }
 
 inline std::chrono::milliseconds timeout_to_milliseconds(KeyEvent::value_t timeout) {
-- 
2.43.0


From 99e24ee85a1bb03f0214fa4d50ff4b5e91be750d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:21:02 +0000
Subject: [PATCH 19/23] fix: limit wheel deltas to the range of the event's
 value

A delta of 4096 or more was reduced modulo 4096. A delta of exactly 4096
became zero.
---
 src/server/unix/GrabbedDevicesLinux.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/server/unix/GrabbedDevicesLinux.cpp b/src/server/unix/GrabbedDevicesLinux.cpp
index d4093e9..4688948 100644
--- a/src/server/unix/GrabbedDevicesLinux.cpp
+++ b/src/server/unix/GrabbedDevicesLinux.cpp
@@ -591,14 +591,16 @@ std::optional<KeyEvent> to_key_event(const GrabbedDevices::Event& event) {
         return KeyEvent{ Key::none, KeyState::Down };
 
       case REL_WHEEL_HI_RES:
-      case REL_HWHEEL_HI_RES:
+      case REL_HWHEEL_HI_RES: {
+        const auto max = (1 << KeyEvent::value_bits) - 1;
         return KeyEvent{
           (event.code == REL_WHEEL_HI_RES ?
             (event.value < 0 ? Key::WheelDown : Key::WheelUp) :
             (event.value < 0 ? Key::WheelLeft : Key::WheelRight)),
           KeyState::Up,
-          static_cast<uint16_t>(std::abs(event.value))
+          static_cast<uint16_t>(std::abs(std::clamp(event.value, -max, max)))
         };
+      }
     }
   }
 
-- 
2.43.0


From cedbd3222941fa2a1b39fcd52e3ef73344bbf2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:44:42 +0000
Subject: [PATCH 20/23] fix: reject configurations with too many commands or
 logical keys

The keys of terminal commands and logical keys were numbered without a limit.
The 257th terminal command got the number of a logical key and pressed Shift.
---
 src/config/ParseConfig.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/config/ParseConfig.cpp b/src/config/ParseConfig.cpp
index b61487b..1bc8a85 100644
--- a/src/config/ParseConfig.cpp
+++ b/src/config/ParseConfig.cpp
@@ -703,6 +703,8 @@ Key ParseConfig::get_key_by_name(std::string_view name) const {
 }
 
 Key ParseConfig::add_terminal_command_action(std::string_view command) {
+  if (m_config.actions.size() > *Key::last_action - *Key::first_action)
+    throw ConfigError("Too many terminal commands");
   const auto action_key_code =
     static_cast<Key>(*Key::first_action + m_config.actions.size());
   m_config.actions.push_back({ std::string(command) });
@@ -1002,6 +1004,8 @@ void ParseConfig::add_mapping(const std::string& name, KeySequence output) {
 }
 
 Key ParseConfig::add_logical_key(std::string name, Key left, Key right) {
+  if (m_logical_keys.size() > *Key::last_logical - *Key::first_logical)
+    error("Too many logical keys");
   const auto both = static_cast<Key>(*Key::first_logical + m_logical_keys.size());
   m_logical_keys.push_back({ std::move(name), both, left, right });
   return both;
-- 
2.43.0


From 066e0d9686182eb8dfa07bf408cf24ddb503d29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:16:35 +0000
Subject: [PATCH 21/23] fix: do not treat "/i" as a regular expression

The pattern was shortened by more characters than it has, so a filter
"/i" made the parser read beyond the end of the string.
---
 src/common/parse_regex.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/parse_regex.h b/src/common/parse_regex.h
index b73911a..dd12788 100644
--- a/src/common/parse_regex.h
+++ b/src/common/parse_regex.h
@@ -5,9 +5,11 @@
 #include <cassert>
 
 inline bool is_regex(std::string_view string) {
+  if (!string.empty() && string.back() == 'i')
+    string.remove_suffix(1);
   return (string.size() >= 2 &&
           string.front() == '/' &&
-          string[string.size() - (string.back() == 'i' ? 2 : 1)] == '/');
+          string.back() == '/');
 }
 
 inline std::regex parse_regex(std::string_view string) {
-- 
2.43.0


From 368c4c081c6d04f9c194d6b6fc5fc3d932696026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:17:17 +0000
Subject: [PATCH 22/23] fix: report invalid filters received by the daemon

A filter which is not a valid regular expression raised an exception
that ended the daemon.
---
 src/server/ClientPort.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/server/ClientPort.cpp b/src/server/ClientPort.cpp
index ed5e02f..5a2c91e 100644
--- a/src/server/ClientPort.cpp
+++ b/src/server/ClientPort.cpp
@@ -1,5 +1,6 @@
 
 #include "ClientPort.h"
+#include "common/output.h"
 #include "common/parse_regex.h"
 
 namespace {
@@ -17,8 +18,14 @@ namespace {
     auto filter = Filter{ };
     filter.string = d.read_string();
     d.read(&filter.invert);
-    if (is_regex(filter.string))
-      filter.regex = parse_regex(filter.string);
+    if (is_regex(filter.string)) {
+      try {
+        filter.regex = parse_regex(filter.string);
+      }
+      catch (const std::regex_error& ex) {
+        error("Invalid filter '%s': %s", filter.string.c_str(), ex.what());
+      }
+    }
     return filter;
   }
 
-- 
2.43.0


From f656867537337e79a6ef706959b238079e744e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:23:26 +0000
Subject: [PATCH 23/23] fix: do not end the daemon when listing devices fails

Advancing the directory iterator raised an exception when reading the
device directory failed, although errors are ignored otherwise.
---
 src/server/unix/GrabbedDevicesLinux.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/server/unix/GrabbedDevicesLinux.cpp b/src/server/unix/GrabbedDevicesLinux.cpp
index 4688948..99c7768 100644
--- a/src/server/unix/GrabbedDevicesLinux.cpp
+++ b/src/server/unix/GrabbedDevicesLinux.cpp
@@ -126,7 +126,10 @@ namespace {
 
   std::string get_device_input_id(int event_id) {
     auto ec = std::error_code{ };
-    for (auto const& entry : std::filesystem::directory_iterator("/dev/input/by-id", ec)) {
+    const auto end = std::filesystem::directory_iterator();
+    for (auto it = std::filesystem::directory_iterator("/dev/input/by-id", ec);
+         it != end; it.increment(ec)) {
+      const auto& entry = *it;
       auto target_event_id = 0;
       if (!entry.is_symlink(ec))
         continue;
@@ -470,7 +473,10 @@ private:
 
     // grab new devices
     auto ec = std::error_code{ };
-    for (auto const& entry : std::filesystem::directory_iterator("/dev/input", ec)) {
+    const auto entries_end = std::filesystem::directory_iterator();
+    for (auto entry_it = std::filesystem::directory_iterator("/dev/input", ec);
+         entry_it != entries_end; entry_it.increment(ec)) {
+      const auto& entry = *entry_it;
       const auto& path = entry.path();
       auto event_id = 0;
       if (!entry.is_character_file(ec) || 
-- 
2.43.0

