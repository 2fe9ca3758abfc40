From 98d2ae6df31b01937928a3da9fb3ebd960288927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 01/69] fix: custom default settings file was closed twice

---
 clink/core/src/settings.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index de6b095..2cd59a3 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -319,8 +319,6 @@ static bool parse_ini(FILE* in, std::vector<settings::setting_name_value>& out)
         custom_default.value = value;
         map.emplace(name, std::move(custom_default));
     });
-
-    fclose(in);
 }
 
 
-- 
2.43.0


From 71048eb2f315b1c2b3425228f172e6dc9841ed0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 02/69] fix: saving settings again could lose settings of
 scripts that are no longer loaded

---
 clink/core/src/settings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index 2cd59a3..16d8b3e 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -610,7 +610,7 @@ static bool save_internal(const char* file, bool migrating)
         return false;
 
     // Clear the saved flag so we can track which ones have been saved so far.
-    for (auto iter : get_loaded_map())
+    for (auto& iter : get_loaded_map())
         iter.second.saved = false;
 
     // Iterate over each setting and write it out to the file.
-- 
2.43.0


From 9fba51346b017f30b523d466ec02d33ead3de0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 03/69] fix: setting an unloaded setting again kept its old
 value

---
 clink/core/src/settings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index 16d8b3e..4441a67 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -372,7 +372,7 @@ static bool set_setting(const char* name, const char* value, const char* comment
                 loaded.comment = l->second.comment.c_str();
         }
         loaded.value = value;
-        get_loaded_map().emplace(name, std::move(loaded));
+        get_loaded_map()[name] = std::move(loaded);
         return true;
     }
 
-- 
2.43.0


From f0948ba820aa91630057e6584a7b9eaaee94a6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 04/69] fix: registry key handle leaked when the binaries
 directory is unavailable

---
 clink/lua/src/internal_api.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/clink/lua/src/internal_api.cpp b/clink/lua/src/internal_api.cpp
index 58cc3e4..042808e 100644
--- a/clink/lua/src/internal_api.cpp
+++ b/clink/lua/src/internal_api.cpp
@@ -919,12 +919,18 @@ failed:
     {
         str<> tmp;
         if (!os::get_env("=clink.bin", tmp))
+        {
+            RegCloseKey(hkey);
             goto failed;
+        }
 
         wstr<> bin_dir(tmp.c_str());
         DWORD len = GetLongPathNameW(bin_dir.c_str(), long_bin_dir, sizeof_array(long_bin_dir));
         if (!len || len >= sizeof_array(long_bin_dir))
+        {
+            RegCloseKey(hkey);
             goto failed;
+        }
 
         long_bin_dir[len] = '\0';
     }
-- 
2.43.0


From 9e036453408b7c7c68360b7afaaaf693a00717fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 05/69] fix: vm::free_region never released the memory

---
 clink/process/src/vm.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/clink/process/src/vm.cpp b/clink/process/src/vm.cpp
index 77b8e95..71c86bb 100644
--- a/clink/process/src/vm.cpp
+++ b/clink/process/src/vm.cpp
@@ -128,8 +128,7 @@ void vm::free_region(const region& region)
     if (m_handle == nullptr)
         return;
 
-    size_t size = region.page_count * get_page_size();
-    VirtualFreeEx(m_handle, region.base, size, MEM_RELEASE);
+    VirtualFreeEx(m_handle, region.base, 0, MEM_RELEASE); // MEM_RELEASE requires size 0.
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 7bd00e985e82d10dd7d8383e4b25aece7f274ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 06/69] fix: remote memory leaked when a remote thread could
 not be created

---
 clink/process/src/process.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clink/process/src/process.cpp b/clink/process/src/process.cpp
index 9d704a2..4d4fe9f 100644
--- a/clink/process/src/process.cpp
+++ b/clink/process/src/process.cpp
@@ -478,6 +478,7 @@ remote_result process::remote_call_internal(pe_info::funcptr_t function, process
         ERR("Unable to create remote thread in process %d.", m_pid);
         if (do_pause)
             unpause();
+        vm.free_region(region);
         return {};
     }
 
@@ -588,6 +589,7 @@ remote_result process::remote_call_internal(pe_info::funcptr_t function, process
 #ifndef SMALLER_SCOPE_FOR_PAUSE_THREAD
         unpause();
 #endif
+        vm.free_region(region);
         return {};
     }
 
-- 
2.43.0


From e93a48be7538963b650b932edd3023738bb84abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 07/69] fix: recognizer event handle was kept after being
 closed

---
 clink/lib/src/recognizer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clink/lib/src/recognizer.cpp b/clink/lib/src/recognizer.cpp
index 66d2f8e..17be55f 100644
--- a/clink/lib/src/recognizer.cpp
+++ b/clink/lib/src/recognizer.cpp
@@ -474,7 +474,10 @@ void recognizer::shutdown()
         thread->join();
 
     if (m_event)
+    {
         CloseHandle(m_event);
+        m_event = nullptr;
+    }
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 677ec2ef7cdbfa11f635eb508cd8bf38443f66f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 08/69] fix: display_line kept pointers to freed memory after
 running out of memory

---
 clink/lib/src/display_readline.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index aecee31..15aebad 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -473,15 +473,13 @@ void display_line::appendinternal(char c, char face)
         const uint32 alloc = max<uint32>(min_alloc, m_allocated * 3 / 2);
         char* chars = static_cast<char*>(realloc(m_chars, alloc));
         char* faces = static_cast<char*>(realloc(m_faces, alloc));
+        if (chars)
+            m_chars = chars;
+        if (faces)
+            m_faces = faces;
         if (!chars || !faces)
-        {
-            free(chars);
-            free(faces);
             return;
-        }
 
-        m_chars = chars;
-        m_faces = faces;
         m_allocated = alloc;
     }
 
-- 
2.43.0


From 743b393d217848a1d64e52bd9f36449cbf080ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:04 +0000
Subject: [PATCH 09/69] fix: recognizer::busy read shared state without holding
 the mutex

---
 clink/lib/src/recognizer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clink/lib/src/recognizer.cpp b/clink/lib/src/recognizer.cpp
index 17be55f..e6298a7 100644
--- a/clink/lib/src/recognizer.cpp
+++ b/clink/lib/src/recognizer.cpp
@@ -357,6 +357,7 @@ bool recognizer::usable() const
 //------------------------------------------------------------------------------
 bool recognizer::busy() const
 {
+    std::lock_guard<std::recursive_mutex> lock(m_mutex);
     return m_processing || !m_pending.empty();
 }
 
-- 
2.43.0


From 89acd6c09cf66c6738339a1e8668e2ba1dfe0984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:04 +0000
Subject: [PATCH 10/69] fix: recognizer leaked the keys of pending entries

---
 clink/lib/src/recognizer.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/recognizer.cpp b/clink/lib/src/recognizer.cpp
index e6298a7..d47c452 100644
--- a/clink/lib/src/recognizer.cpp
+++ b/clink/lib/src/recognizer.cpp
@@ -668,7 +668,12 @@ void recognizer::proc(recognizer* r)
                 if (r->m_zombie || !r->dequeue(entry))
                 {
                     r->m_processing = false;
-                    r->m_pending.clear();
+                    for (auto iter = r->m_pending.begin(); iter != r->m_pending.end();)
+                    {
+                        char* key = iter->second.m_key;
+                        iter = r->m_pending.erase(iter);
+                        free(key);
+                    }
                     if (!r->m_zombie)
                         r->notify_ready(false);
                     break;
-- 
2.43.0


From c7888a656d519cb006be186e25e92cb6538dbc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:04 +0000
Subject: [PATCH 11/69] fix: history migration leaked its line buffer

---
 clink/lib/src/history_db.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index 85a3e9c..1a8b89c 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -1160,6 +1160,7 @@ static void migrate_history(const char* path, bool m_diagnostic)
                 lock.add(buffer);
             }
 
+            free(buffer);
             fclose(old);
         }
     }
-- 
2.43.0


From 9083749d0e794d055d044539cb49c69068faf38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:04 +0000
Subject: [PATCH 12/69] fix: lua_execute ignored failure to create its watchdog
 thread

---
 clink/lua/src/lua_exec.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/clink/lua/src/lua_exec.cpp b/clink/lua/src/lua_exec.cpp
index 57df7cd..e488352 100644
--- a/clink/lua/src/lua_exec.cpp
+++ b/clink/lua/src/lua_exec.cpp
@@ -253,6 +253,17 @@ int32 lua_execute(lua_State* state)
     thread = CreateThread(nullptr, 0, (LPTHREAD_START_ROUTINE)thread_proc,
         &exec_state, 0, nullptr
     );
+    if (thread == nullptr)
+    {
+        // Nothing will enforce the timeout; the job handle kills the process.
+        CloseHandle(exec_state.job);
+        CloseHandle(exec_state.pi.hProcess);
+        CloseHandle(exec_state.pi.hThread);
+        destroy_pipe(&pipe_stdout);
+        destroy_pipe(&pipe_stderr);
+        destroy_pipe(&pipe_stdin);
+        return 0;
+    }
 
     // Release our references to the child-side pipes. We don't use them, and
     // it means ReadFile() will leave the loop below once the child closes
-- 
2.43.0


From 3bfa164d2d04d3543d449b72b467bdf0b8b87275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:20 +0000
Subject: [PATCH 13/69] fix: process::get_command_line leaked its temporary
 copies

---
 clink/process/src/process.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/clink/process/src/process.cpp b/clink/process/src/process.cpp
index 4d4fe9f..f5c7309 100644
--- a/clink/process/src/process.cpp
+++ b/clink/process/src/process.cpp
@@ -173,19 +173,19 @@ bool process::get_command_line(wstr_base& out) const
 
     SIZE_T size = 0;
     PPEB ppeb = reinterpret_cast<PPEB>(pbi[1]);
-    PPEB ppebCopy = static_cast<PPEB>(malloc(sizeof(*ppebCopy)));
-    BOOL res = ReadProcessMemory(handle, ppeb, ppebCopy, sizeof(*ppebCopy), &size);
-    if (!res || size != sizeof(*ppebCopy))
+    PEB pebCopy;
+    BOOL res = ReadProcessMemory(handle, ppeb, &pebCopy, sizeof(pebCopy), &size);
+    if (!res || size != sizeof(pebCopy))
         return false;
 
-    PRTL_USER_PROCESS_PARAMETERS pProcParam = ppebCopy->ProcessParameters;
-    PRTL_USER_PROCESS_PARAMETERS pProcParamCopy = static_cast<PRTL_USER_PROCESS_PARAMETERS>(malloc(sizeof(*pProcParamCopy)));
-    res = ReadProcessMemory(handle, pProcParam, pProcParamCopy, sizeof(*pProcParamCopy), &size);
-    if (!res || size != sizeof(*pProcParamCopy))
+    PRTL_USER_PROCESS_PARAMETERS pProcParam = pebCopy.ProcessParameters;
+    RTL_USER_PROCESS_PARAMETERS procParamCopy;
+    res = ReadProcessMemory(handle, pProcParam, &procParamCopy, sizeof(procParamCopy), &size);
+    if (!res || size != sizeof(procParamCopy))
         return false;
 
-    PWSTR wBuffer = pProcParamCopy->CommandLine.Buffer;
-    USHORT len = min<USHORT>(pProcParamCopy->CommandLine.Length, 280);
+    PWSTR wBuffer = procParamCopy.CommandLine.Buffer;
+    USHORT len = min<USHORT>(procParamCopy.CommandLine.Length, 280);
     out.clear();
     out.reserve(len);
     res = ReadProcessMemory(handle, wBuffer, out.data(), len, &size);
-- 
2.43.0


From f9972075492d515bc83f2bf2b9b8662ecdab84da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:20 +0000
Subject: [PATCH 14/69] fix: process::get_command_line put the terminator past
 the end of the text

---
 clink/process/src/process.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/process/src/process.cpp b/clink/process/src/process.cpp
index f5c7309..0d184b9 100644
--- a/clink/process/src/process.cpp
+++ b/clink/process/src/process.cpp
@@ -192,7 +192,7 @@ bool process::get_command_line(wstr_base& out) const
     if (!res || size != len)
         return false;
 
-    out.data()[len] = '\0';
+    out.data()[len / sizeof(WCHAR)] = '\0'; // The length is in bytes.
     return true;
 }
 
-- 
2.43.0


From c500ba99f92d81b82104de5eb37d5d352975a163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:48 +0000
Subject: [PATCH 15/69] fix: input line wasn't added to history when the
 onhistory event failed

---
 clink/app/src/host/host.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/app/src/host/host.cpp b/clink/app/src/host/host.cpp
index a34b85a..13c703d 100644
--- a/clink/app/src/host/host.cpp
+++ b/clink/app/src/host/host.cpp
@@ -1290,7 +1290,7 @@ force_reload_lua:
         // Let Lua scripts suppress adding the line to history or modify what
         // gets added to history.
         const char* what_to_add = out.c_str();
-        str_moveable override_add;
+        str_moveable override_add(out.c_str());
         if (add_history && history && send_event)
         {
             lua_state& state = lua;
-- 
2.43.0


From acf0a42b15854790f1e06aefdef9193a744b6167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:48 +0000
Subject: [PATCH 16/69] fix: reaping deleted session history that could not be
 merged

---
 clink/lib/src/history_db.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index 1a8b89c..41cea1b 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -1260,6 +1260,7 @@ void history_db::reap()
         else if (os::get_file_size(path.c_str()) > 0 ||
                  os::get_file_size(removals.c_str()) > 0)
         {
+            bool merged = false;
             bank_handles reap_handles;
             reap_handles.m_handle_lines = open_file(path.c_str());
             reap_handles.m_handle_removals = open_file(removals.c_str(), true/*if_exists*/);
@@ -1277,10 +1278,15 @@ void history_db::reap()
                 {
                     dest.append(src);
                     src.apply_removals(dest);
+                    merged = true;
                 }
             }
 
             reap_handles.close();
+
+            // Don't lose the session's history; try again next time.
+            if (!merged)
+                return;
         }
 
         os::unlink(removals.c_str());
-- 
2.43.0


From 68d91eb22e2ea3ef6af4d6a22e8c27ad74c6c6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:48 +0000
Subject: [PATCH 17/69] fix: DLL version check ignored the major and minor
 version

---
 clink/app/src/loader/inject.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clink/app/src/loader/inject.cpp b/clink/app/src/loader/inject.cpp
index c2f506a..0c1d3d6 100644
--- a/clink/app/src/loader/inject.cpp
+++ b/clink/app/src/loader/inject.cpp
@@ -169,8 +169,8 @@ static int32 check_dll_version(const char* clink_dll)
 
     int32 error = 0;
     error = (HIWORD(file_info->dwFileVersionMS) != CLINK_VERSION_MAJOR);
-    error = (LOWORD(file_info->dwFileVersionMS) != CLINK_VERSION_MINOR);
-    error = (HIWORD(file_info->dwFileVersionLS) != CLINK_VERSION_PATCH);
+    error |= (LOWORD(file_info->dwFileVersionMS) != CLINK_VERSION_MINOR);
+    error |= (HIWORD(file_info->dwFileVersionLS) != CLINK_VERSION_PATCH);
 
     return !error;
 }
-- 
2.43.0


From fbd50614437552b487e127cabf2df6fce680f5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:14 +0000
Subject: [PATCH 18/69] fix: malformed log formats for settings with long names

---
 clink/lua/src/settings_api.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clink/lua/src/settings_api.cpp b/clink/lua/src/settings_api.cpp
index 4a43f95..6177317 100644
--- a/clink/lua/src/settings_api.cpp
+++ b/clink/lua/src/settings_api.cpp
@@ -408,7 +408,7 @@ template <typename S, typename... V> void add_impl(lua_State* state, V... value)
 
     if (strlen(name) > strlen(((setting*)addr)->get_name()))
     {
-        LOG("Setting \"%\", name too long; truncated from \"%s\".", ((S*)addr)->get_name(), name);
+        LOG("Setting \"%s\", name too long; truncated from \"%s\".", ((S*)addr)->get_name(), name);
 #if 0
         if (g_lua_strict.get())
             luaL_argerror(state, 1, "name for setting is too long");
@@ -416,7 +416,7 @@ template <typename S, typename... V> void add_impl(lua_State* state, V... value)
     }
     if (strlen(short_desc) > strlen(((setting*)addr)->get_short_desc()))
     {
-        LOG("Setting \"%\", short description too long; truncated from \"%s\" to \"%s\".", ((S*)addr)->get_name(), short_desc, ((S*)addr)->get_short_desc());
+        LOG("Setting \"%s\", short description too long; truncated from \"%s\" to \"%s\".", ((S*)addr)->get_name(), short_desc, ((S*)addr)->get_short_desc());
 #if 0
         if (g_lua_strict.get())
             luaL_argerror(state, 3, "short description for setting is too long");
-- 
2.43.0


From 953c4fc3b659bb6256e2e8d6ef3c2535315ea989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:14 +0000
Subject: [PATCH 19/69] fix: settings.overlay raised an invalid format error
 instead of its own message

---
 clink/lua/src/settings_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lua/src/settings_api.cpp b/clink/lua/src/settings_api.cpp
index 6177317..fd8cf89 100644
--- a/clink/lua/src/settings_api.cpp
+++ b/clink/lua/src/settings_api.cpp
@@ -308,7 +308,7 @@ static int32 overlay(lua_State* state)
             value = lua_tostring(state, -1);
         else
         {
-            const char* msg = lua_pushfstring(state, "'value' field of element #%u is not a string or nil", i);
+            const char* msg = lua_pushfstring(state, "'value' field of element #%d is not a string or nil", i);
             return luaL_argerror(state, 1, msg);
         }
         lua_pop(state, 1);
-- 
2.43.0


From bedfd1f82b8cb70939e75add76661ba54a7bcd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:14 +0000
Subject: [PATCH 20/69] fix: 64 bit times were passed for 32 bit format
 specifiers

---
 clink/lib/src/history_db.cpp   | 2 +-
 clink/lua/src/internal_api.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index 41cea1b..6e30f9f 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -1807,7 +1807,7 @@ bool history_db::add(const char* line, time_t* out_timestamp)
         const time_t now = time(0);
         if (out_timestamp)
             *out_timestamp = now;
-        timestamp.format("|\ttime=%u", now);
+        timestamp.format("|\ttime=%u", uint32(now));
         lock.add(timestamp.c_str());
     }
 
diff --git a/clink/lua/src/internal_api.cpp b/clink/lua/src/internal_api.cpp
index 042808e..f96e5bb 100644
--- a/clink/lua/src/internal_api.cpp
+++ b/clink/lua/src/internal_api.cpp
@@ -239,7 +239,7 @@ static void snooze_update_prompt()
 
     wstr<> snooze;
     time_t until = time(nullptr) + c_snooze_duration;
-    snooze.format(L"%u", until);
+    snooze.format(L"%u", uint32(until));
     status = RegSetValueExW(hkey, valname.c_str(), 0, REG_SZ, reinterpret_cast<const BYTE*>(snooze.c_str()), snooze.length() * sizeof(*snooze.c_str()));
 
     RegCloseKey(hkey);
-- 
2.43.0


From 3443c0f232e33aa80644dca4938343150cf999a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:14 +0000
Subject: [PATCH 21/69] fix: async task diagnostics printed an integer as a
 pointer

---
 clink/lua/src/async_lua_task.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lua/src/async_lua_task.cpp b/clink/lua/src/async_lua_task.cpp
index d0f170f..361113e 100644
--- a/clink/lua/src/async_lua_task.cpp
+++ b/clink/lua/src/async_lua_task.cpp
@@ -179,7 +179,7 @@ void task_manager::diagnostics()
         if (iter.second->is_complete())
             states << "  " << green << "completed" << norm;
         if (ref == LUA_REFNIL)
-            s.format("  %p:%s  %snil%s  %s\n", ref, states.c_str(), dark, norm, iter.second->m_src.c_str());
+            s.format("  %p:%s  %snil%s  %s\n", iter.second.get(), states.c_str(), dark, norm, iter.second->m_src.c_str());
         else
             s.format("  %p:%s  %s%d%s  %s\n", iter.second.get(), states.c_str(), pending ? bold : dark, ref, norm, iter.second->m_src.c_str());
         g_printer->print(s.c_str(), s.length());
-- 
2.43.0


From 9b8c5da1f816f2640c59f892669ecff255e55da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:14 +0000
Subject: [PATCH 22/69] fix: lua_fwrite logged with mismatched format arguments

---
 clink/lua/src/lua_state.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lua/src/lua_state.cpp b/clink/lua/src/lua_state.cpp
index e1e6e18..f8d4efe 100644
--- a/clink/lua/src/lua_state.cpp
+++ b/clink/lua/src/lua_state.cpp
@@ -1087,7 +1087,7 @@ extern "C" size_t lua_fwrite(void const* buffer, size_t size, size_t count, FILE
             if (g_debug_log_terminal.get() && !suppress_implicit_write_console_logging::is_suppressed())
             {
                 LOGCURSORPOS(h);
-                LOG("%s \"%.*s\", %d", (stream == stderr) ? "LUACONERR" : "LUACONOUT", count, buffer, count);
+                LOG("%s \"%.*s\", %d", (stream == stderr) ? "LUACONERR" : "LUACONOUT", int32(count), static_cast<const char*>(buffer), int32(count));
 #ifdef _MSC_VER
                 if (g_debug_log_output_callstacks.get())
                 {
-- 
2.43.0


From 77a0b0b0b8d19af34e0052afa4524b28e1fa0ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:25 +0000
Subject: [PATCH 23/69] fix: events that fail left values on the Lua stack

---
 clink/lua/src/lua_state.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/clink/lua/src/lua_state.cpp b/clink/lua/src/lua_state.cpp
index f8d4efe..8b46dd2 100644
--- a/clink/lua/src/lua_state.cpp
+++ b/clink/lua/src/lua_state.cpp
@@ -697,7 +697,12 @@ bool lua_state::send_event_internal(lua_State* L, const char* event_name, const
     os::cwd_restorer cwd;
 
     // Call the event callback.
-    return pcall(L, 1 + nargs, nret) == 0;
+    if (pcall(L, 1 + nargs, nret) != 0)
+    {
+        lua_pop(L, 1); // Discard the error message.
+        return false;
+    }
+    return true;
 }
 
 //------------------------------------------------------------------------------
@@ -778,8 +783,8 @@ bool lua_state::send_event_cancelable_string_inout(const char* event_name, const
                     out = s;
                 else if (more_out)
                     more_out->emplace_back(s);
-                lua_pop(L, 1);
             }
+            lua_pop(L, 1);
         }
     }
 
-- 
2.43.0


From 8a91e0c0224b90b0ddfe9ca35e8d68f549abcb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:25 +0000
Subject: [PATCH 24/69] fix: initialising the Lua package path left a value on
 the Lua stack

---
 clink/lua/src/lua_state.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clink/lua/src/lua_state.cpp b/clink/lua/src/lua_state.cpp
index 8b46dd2..e880ea2 100644
--- a/clink/lua/src/lua_state.cpp
+++ b/clink/lua/src/lua_state.cpp
@@ -269,6 +269,7 @@ void lua_state::initialise(lua_state_flags flags)
         lua_pushliteral(m_state, "path");
         lua_pushlstring(m_state, path.c_str(), path.length());
         lua_rawset(m_state, -3);
+        lua_pop(m_state, 1);
     }
 
     lua_state& self = *this;
-- 
2.43.0


From e45ab109921dfbb6bce94e5fc01e76cb7584ac06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:25 +0000
Subject: [PATCH 25/69] fix: async task callbacks that fail left the error on
 the Lua stack

---
 clink/lua/src/async_lua_task.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clink/lua/src/async_lua_task.cpp b/clink/lua/src/async_lua_task.cpp
index 361113e..bff0e4a 100644
--- a/clink/lua/src/async_lua_task.cpp
+++ b/clink/lua/src/async_lua_task.cpp
@@ -252,6 +252,7 @@ void async_lua_task::run_callback(lua_state& lua)
     if (m_callback_ref)
     {
         lua_State* state = lua.get_state();
+        save_stack_top ss(state);
         lua_rawgeti(state, LUA_REGISTRYINDEX, m_callback_ref->m_ref);
         lua.pcall(0, 0);
     }
-- 
2.43.0


From f03d73f64e60d8590b53b599dc54d5ebffec4ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:25 +0000
Subject: [PATCH 26/69] fix: each deletion in clink.popuplist left a value on
 the Lua stack

---
 clink/lua/src/clink_api.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clink/lua/src/clink_api.cpp b/clink/lua/src/clink_api.cpp
index f153466..dcb407d 100644
--- a/clink/lua/src/clink_api.cpp
+++ b/clink/lua/src/clink_api.cpp
@@ -567,6 +567,7 @@ static struct popup_del_callback_info
     {
         if (empty())
             return false;
+        save_stack_top ss(m_state);
         lua_rawgeti(m_state, LUA_REGISTRYINDEX, m_ref);
         lua_pushinteger(m_state, index + 1);
         if (lua_state::pcall(m_state, 1, 1) != 0)
-- 
2.43.0


From 98fc698ad64ff3cedf61357775c62f25cafaa51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:45 +0000
Subject: [PATCH 27/69] fix: io.execute passed UTF-8 command lines to the ANSI
 CreateProcess

---
 clink/lua/src/lua_exec.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/clink/lua/src/lua_exec.cpp b/clink/lua/src/lua_exec.cpp
index e488352..acc38f9 100644
--- a/clink/lua/src/lua_exec.cpp
+++ b/clink/lua/src/lua_exec.cpp
@@ -179,7 +179,7 @@ int32 lua_execute(lua_State* state)
     const char* cmd;
     int32 arg_count;
     BOOL ok;
-    STARTUPINFO si = { sizeof(si) };
+    STARTUPINFOW si = { sizeof(si) };
     pipe_t pipe_stdout;
     pipe_t pipe_stderr;
     pipe_t pipe_stdin;
@@ -224,7 +224,8 @@ int32 lua_execute(lua_State* state)
     si.hStdInput = pipe_stdin.read;
     si.dwFlags = STARTF_USESTDHANDLES;
 
-    ok = CreateProcess(nullptr, (char*)cmd, nullptr, nullptr, TRUE, process_flags, NULL,
+    wstr_moveable wcmd(cmd);
+    ok = CreateProcessW(nullptr, wcmd.data(), nullptr, nullptr, TRUE, process_flags, NULL,
         nullptr, &si, &exec_state.pi
     );
     if (ok == FALSE)
@@ -235,7 +236,8 @@ int32 lua_execute(lua_State* state)
         {
             str<MAX_PATH> buffer;
             buffer << "cmd.exe /c " << cmd;
-            ok = CreateProcess(nullptr, buffer.data(), nullptr, nullptr, TRUE,
+            wcmd = buffer.c_str();
+            ok = CreateProcessW(nullptr, wcmd.data(), nullptr, nullptr, TRUE,
                 process_flags, nullptr, nullptr, &si, &exec_state.pi);
         }
 
-- 
2.43.0


From ad3d29d3d65ad3401df137344b176aa73aabcd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:48 +0000
Subject: [PATCH 28/69] fix: the host's name was read in the ANSI codepage

---
 clink/app/src/utils/app_context.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/clink/app/src/utils/app_context.cpp b/clink/app/src/utils/app_context.cpp
index f3e5048..c3fe646 100644
--- a/clink/app/src/utils/app_context.cpp
+++ b/clink/app/src/utils/app_context.cpp
@@ -121,10 +121,14 @@ app_context::app_context(const desc& desc)
     }
     else
     {
-        char buffer[280];
-        DWORD len = GetModuleFileName(nullptr, buffer, sizeof_array(buffer));
+        WCHAR buffer[280];
+        DWORD len = GetModuleFileNameW(nullptr, buffer, sizeof_array(buffer));
         if (len && len < sizeof_array(buffer))
-            path::get_name(buffer, m_host_name);
+        {
+            str<280> host_path;
+            host_path = buffer;
+            path::get_name(host_path.c_str(), m_host_name);
+        }
     }
 
     // The environment variable 'clink_profile' overrides all other state
-- 
2.43.0


From 592e756171a9121dea9417f971c56551b69a1618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 29/69] fix: console.linehascolor/findline wrote past the
 attribute array

---
 clink/lua/src/console_api.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clink/lua/src/console_api.cpp b/clink/lua/src/console_api.cpp
index 052b902..370006b 100644
--- a/clink/lua/src/console_api.cpp
+++ b/clink/lua/src/console_api.cpp
@@ -593,7 +593,7 @@ static int32 line_has_color(lua_State* state)
         BYTE attrs[32];
         int32 num_attrs = 0;
 
-        for (int32 i = 1; num_attrs <= sizeof_array(attrs); i++)
+        for (int32 i = 1; num_attrs < sizeof_array(attrs); i++)
         {
             lua_rawgeti(state, 2, i);
             if (lua_isnil(state, -1))
@@ -679,7 +679,7 @@ static int32 find_line(lua_State* state, int32 direction)
     }
     else if (lua_istable(state, arg))
     {
-        for (int32 i = 1; num_attrs <= sizeof_array(attrs); i++)
+        for (int32 i = 1; num_attrs < sizeof_array(attrs); i++)
         {
             lua_rawgeti(state, arg, i);
             if (lua_isnil(state, -1))
-- 
2.43.0


From a44f224fba80ce56d78da0fdaf9b4f5c67d7bded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 30/69] fix: uninitialized buffer size when reading the ForceV2
 console setting

---
 clink/terminal/src/win_screen_buffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/terminal/src/win_screen_buffer.cpp b/clink/terminal/src/win_screen_buffer.cpp
index cb23322..8e5cc16 100644
--- a/clink/terminal/src/win_screen_buffer.cpp
+++ b/clink/terminal/src/win_screen_buffer.cpp
@@ -491,7 +491,7 @@ void win_screen_buffer::begin()
             {
                 DWORD type;
                 DWORD data;
-                DWORD size;
+                DWORD size = sizeof(data);
                 LSTATUS status = RegGetValue(HKEY_CURRENT_USER, "Console", "ForceV2", RRF_RT_REG_DWORD, &type, &data, &size);
                 s_has_consolev2 = (status != ERROR_SUCCESS ||
                                 type != REG_DWORD ||
-- 
2.43.0


From 07c61b589ceb97ec357719deeaa2151752e06cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 31/69] fix: ctype functions given negative values for
 non-ASCII text

---
 clink/app/src/host/host_cmd.cpp  |  2 +-
 clink/app/src/loader/autorun.cpp |  2 +-
 clink/app/src/loader/inject.cpp  |  2 +-
 clink/app/src/loader/update.cpp  |  2 +-
 clink/core/src/settings.cpp      | 10 +++++-----
 5 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/clink/app/src/host/host_cmd.cpp b/clink/app/src/host/host_cmd.cpp
index 6d349d0..07ba3d5 100644
--- a/clink/app/src/host/host_cmd.cpp
+++ b/clink/app/src/host/host_cmd.cpp
@@ -449,7 +449,7 @@ bool host_cmd::is_interactive() const
     while (args != nullptr && (args = wcschr(args, '/')))
     {
         ++args;
-        switch (tolower(*args))
+        switch (towlower(*args))
         {
         case 'c': return false;
         case 'r': return false; // A little-known synonym for /c.
diff --git a/clink/app/src/loader/autorun.cpp b/clink/app/src/loader/autorun.cpp
index b5d4ba5..b4f3788 100644
--- a/clink/app/src/loader/autorun.cpp
+++ b/clink/app/src/loader/autorun.cpp
@@ -323,7 +323,7 @@ static bool find_clink_entry(const char* value, int32* left, int32* right, const
 //------------------------------------------------------------------------------
 static const char* get_cmd_start(const char* cmd)
 {
-    while (isspace(*cmd) || *cmd == '&')
+    while (isspace(uint8(*cmd)) || *cmd == '&')
     {
         ++cmd;
     }
diff --git a/clink/app/src/loader/inject.cpp b/clink/app/src/loader/inject.cpp
index 0c1d3d6..eb11eab 100644
--- a/clink/app/src/loader/inject.cpp
+++ b/clink/app/src/loader/inject.cpp
@@ -417,7 +417,7 @@ static int32 is_host_supported(DWORD target_pid, bool is_autorun, bool force_hos
         for (const wchar_t* args = command_line.c_str(); args && (args = wcschr(args, '/'));)
         {
             ++args;
-            switch (tolower(*args))
+            switch (towlower(*args))
             {
             case 'c':
                 // Only log this if something else has already gotten logged.
diff --git a/clink/app/src/loader/update.cpp b/clink/app/src/loader/update.cpp
index 65e5716..c34d776 100644
--- a/clink/app/src/loader/update.cpp
+++ b/clink/app/src/loader/update.cpp
@@ -142,7 +142,7 @@ static bool call_updater(lua_state& lua, bool do_nothing, bool force_prompt, boo
     {
         str<> tmp;
         tmp = msg;
-        tmp.data()[0] = toupper(tmp.data()[0]);
+        tmp.data()[0] = toupper(uint8(tmp.data()[0]));
 
         if (!redirected)
         {
diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index 4441a67..9a7f1d6 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -139,7 +139,7 @@ static bool load_internal(FILE* in, std::function<void(const char* name, const c
             comment.clear();
 
         // Skip line's leading whitespace.
-        while (isspace(*line_data))
+        while (isspace(uint8(*line_data)))
             ++line_data;
 
         // Comment?
@@ -175,11 +175,11 @@ static bool load_internal(FILE* in, std::function<void(const char* name, const c
         const char* value = key_end + 1;
 
         // Trim whitespace.
-        while (--key_end >= line_data && isspace(*key_end))
+        while (--key_end >= line_data && isspace(uint8(*key_end)))
         {}
         key_end[1] = '\0';
 
-        while (*value && isspace(*value))
+        while (*value && isspace(uint8(*value)))
             ++value;
 
         // Ugh, migrate clink.autoupdate setting from bool to enum.
@@ -235,7 +235,7 @@ static bool parse_ini(FILE* in, std::vector<settings::setting_name_value>& out)
         char* line_data = line.data();
 
         // Skip line's leading whitespace.
-        while (isspace(*line_data))
+        while (isspace(uint8(*line_data)))
             ++line_data;
 
         // Comment?
@@ -282,7 +282,7 @@ static bool parse_ini(FILE* in, std::vector<settings::setting_name_value>& out)
             key.trim();
 
             ++value;
-            while (*value && isspace(*value))
+            while (*value && isspace(uint8(*value)))
                 ++value;
 
             out.emplace_back(key.c_str(), value, section);
-- 
2.43.0


From 187433f3f9b46e7a3c33ca0c195f3f31ed477c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:29 +0000
Subject: [PATCH 32/69] fix: settings.add crashed when given nil or a
 non-string as short description

---
 clink/lua/src/settings_api.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clink/lua/src/settings_api.cpp b/clink/lua/src/settings_api.cpp
index fd8cf89..cc6a9bd 100644
--- a/clink/lua/src/settings_api.cpp
+++ b/clink/lua/src/settings_api.cpp
@@ -376,6 +376,8 @@ template <typename S, typename... V> void add_impl(lua_State* state, V... value)
 {
     const char* name = checkstring(state, 1);
     const char* short_desc = (lua_gettop(state) > 2) ? checkstring(state, 3) : "";
+    if (!short_desc)
+        short_desc = "";
     const char* long_desc = (lua_gettop(state) > 3) ? checkstring(state, 4) : "";
 
     void* addr = lua_newuserdata(state, sizeof(S));
-- 
2.43.0


From e5290e2d76d53a79b661f69884a7b2f4addc6aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 33/69] fix: console.findnextline with attributes computed a
 position from a failed text search

---
 clink/terminal/src/find_line.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/clink/terminal/src/find_line.cpp b/clink/terminal/src/find_line.cpp
index a1625b3..fb76c3e 100644
--- a/clink/terminal/src/find_line.cpp
+++ b/clink/terminal/src/find_line.cpp
@@ -117,8 +117,11 @@ int32 find_line(HANDLE h, const CONSOLE_SCREEN_BUFFER_INFO& csbi,
                 // text and attributes.
                 const wchar_t* found = wcsstr(chars_buffer, find.c_str());
                 found_text = !!found;
-                start_found = int32(found - chars_buffer);
-                len_found = find.length();
+                if (found_text)
+                {
+                    start_found = int32(found - chars_buffer);
+                    len_found = find.length();
+                }
             }
         }
 
-- 
2.43.0


From 47fa8cb036334b12368ea7881d28bed789e18777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 34/69] fix: os.getpushddepth did not return whether the depth
 is known

---
 clink/lua/src/os_api.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/clink/lua/src/os_api.cpp b/clink/lua/src/os_api.cpp
index 573cdf7..f4b2188 100644
--- a/clink/lua/src/os_api.cpp
+++ b/clink/lua/src/os_api.cpp
@@ -2134,8 +2134,10 @@ static int32 get_pushd_stack(lua_State* state)
 //! must be enabled, otherwise this returns 0.
 static int32 get_pushd_depth(lua_State* state)
 {
-    lua_pushinteger(state, os::get_pushd_depth());
-    return 1;
+    const int32 depth = os::get_pushd_depth();
+    lua_pushinteger(state, depth);
+    lua_pushboolean(state, depth >= 0);
+    return 2;
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From dcdd3b14fb6a49b02d659061324ff11f3b5e2110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 35/69] fix: clink.refilterafterterminalresize did not return
 the previous value

---
 clink/lib/include/lib/rl_integration.h | 2 +-
 clink/lua/src/clink_api.cpp            | 5 +++--
 clink/lua/src/lua_input_idle.cpp       | 4 +++-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/clink/lib/include/lib/rl_integration.h b/clink/lib/include/lib/rl_integration.h
index 56518ea..8241f89 100644
--- a/clink/lib/include/lib/rl_integration.h
+++ b/clink/lib/include/lib/rl_integration.h
@@ -56,7 +56,7 @@ bool    defer_refilter(bool defer);
 
 //------------------------------------------------------------------------------
 void    signal_terminal_resized();
-void    set_refilter_after_resize(bool refilter);
+bool    set_refilter_after_resize(bool refilter);
 
 //------------------------------------------------------------------------------
 class resync_rl_cursor_pos
diff --git a/clink/lua/src/clink_api.cpp b/clink/lua/src/clink_api.cpp
index dcb407d..f9aff8b 100644
--- a/clink/lua/src/clink_api.cpp
+++ b/clink/lua/src/clink_api.cpp
@@ -1182,8 +1182,9 @@ static int32 refilter_after_terminal_resize(lua_State* state)
     if (!lua_isnoneornil(state, 1))
         refilter = lua_toboolean(state, 1);
 
-    set_refilter_after_resize(refilter);
-    return 0;
+    const bool was = set_refilter_after_resize(refilter);
+    lua_pushboolean(state, was);
+    return 1;
 }
 
 //------------------------------------------------------------------------------
diff --git a/clink/lua/src/lua_input_idle.cpp b/clink/lua/src/lua_input_idle.cpp
index 9e25bc2..e511076 100644
--- a/clink/lua/src/lua_input_idle.cpp
+++ b/clink/lua/src/lua_input_idle.cpp
@@ -270,11 +270,13 @@ HANDLE lua_input_idle::get_idle_event()
 }
 
 //------------------------------------------------------------------------------
-void set_refilter_after_resize(bool refilter)
+bool set_refilter_after_resize(bool refilter)
 {
+    const bool was = s_refilter_after_terminal_resize;
     s_refilter_after_terminal_resize = refilter;
     if (!refilter)
         s_terminal_resized = 0;
+    return was;
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From ae5ff83a856104a1b7ddef2d34c1d7a02260e619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 36/69] fix: CLINK_DEBUG_CLASSIFIER_STOPPED called a function
 that does not exist

---
 clink/lua/scripts/classifier.lua | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lua/scripts/classifier.lua b/clink/lua/scripts/classifier.lua
index 26c66cb..fafcc75 100644
--- a/clink/lua/scripts/classifier.lua
+++ b/clink/lua/scripts/classifier.lua
@@ -104,7 +104,7 @@ function clink._internal._classify(commands, test)
                         local row = tonumber(params[1]) or -1
                         local sleep = (tonumber(params[2]) or 0) / 1000
                         if row < 1 then
-                            clink.debugprint(msg)
+                            os.debugprint(msg)
                         else
                             num_stops = num_stops + 1
                             clink.print(string.format("\x1b[s\x1b[%uH\x1b[K%s [%u]\x1b[u", row, msg, num_stops), NONL)
-- 
2.43.0


From 3d4e6d01be92e7d7286c780a00a6a0958b0ecb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:58 +0000
Subject: [PATCH 37/69] fix: drawtest's -s, -w and -e crashed because their
 argument was not parsed

---
 clink/app/src/loader/draw_test.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/app/src/loader/draw_test.cpp b/clink/app/src/loader/draw_test.cpp
index ec5522b..ef005f8 100644
--- a/clink/app/src/loader/draw_test.cpp
+++ b/clink/app/src/loader/draw_test.cpp
@@ -505,7 +505,7 @@ int32 draw_test(int32 argc, char** argv)
 
     int32 i;
     int32 ret = 1;
-    while ((i = getopt_long(argc, argv, "?hps.w.e.", options, nullptr)) != -1)
+    while ((i = getopt_long(argc, argv, "?hps:w:e:", options, nullptr)) != -1)
     {
         switch (i)
         {
-- 
2.43.0


From a0ba5c2089e0f302936e8392eb1b20045cc5f234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:58 +0000
Subject: [PATCH 38/69] fix: 'clink lua --debug' swallowed the script name

---
 clink/app/src/loader/interpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/app/src/loader/interpreter.cpp b/clink/app/src/loader/interpreter.cpp
index 8eeb317..f5770c1 100644
--- a/clink/app/src/loader/interpreter.cpp
+++ b/clink/app/src/loader/interpreter.cpp
@@ -161,7 +161,7 @@ int32 interpreter(int32 argc, char** argv)
     static const char* help_usage = "Usage: clink lua [options] [script]\n";
 
     static const struct option options[] = {
-        { "debug",      required_argument,  nullptr, 'D' },
+        { "debug",      no_argument,        nullptr, 'D' },
         { "log",        required_argument,  nullptr, 'L' },
         { "version",    no_argument,        nullptr, 'v' },
         { "help",       no_argument,        nullptr, 'h' },
-- 
2.43.0


From f135e91e483d8e02ff07ef932a7331128b718e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:14 +0000
Subject: [PATCH 39/69] fix: documented defaults of color.arg, color.doskey and
 match.preview_rows

---
 docs/clink.md | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/docs/clink.md b/docs/clink.md
index f060522..d9f6e07 100644
--- a/docs/clink.md
+++ b/docs/clink.md
@@ -587,7 +587,7 @@ Name                         | Default [*](#alternatedefault) | Description
 <a name="cmd_auto_answer"></a>`cmd.auto_answer` | `off` | Automatically answers cmd.exe's "Terminate batch job (Y/N)?" prompts. `off` = disabled, `answer_yes` = answer Y, `answer_no` = answer N.
 <a name="ctrld_exits"></a>`cmd.ctrld_exits` | True [*](#alternatedefault) | <kbd>Ctrl</kbd>-<kbd>D</kbd> exits the cmd.exe process when it is pressed on an empty line.
 <a name="cmd_get_errorlevel"></a>`cmd.get_errorlevel` | True | When this is enabled, Clink runs a hidden `echo %errorlevel%` command before each interactive input prompt to retrieve the last exit code for use by Lua scripts.  If you experience problems, try turning this off.  This is on by default.
-<a name="color_arg"></a>`color.arg` |  | The color for arguments in the input line when [`clink.colorize_input`](#clink_colorize_input) is enabled.
+<a name="color_arg"></a>`color.arg` | `bold` | The color for arguments in the input line when [`clink.colorize_input`](#clink_colorize_input) is enabled.
 <a name="color_arginfo"></a>`color.arginfo` | `yellow` [*](#alternatedefault) | Argument info color.  Some argmatchers may show that some flags or arguments accept additional arguments, when listing possible completions.  This color is used for those additional arguments.  (E.g. the "dir" in a "-x dir" listed completion.)
 <a name="color_argmatcher"></a>`color.argmatcher` | [*](#alternatedefault) | The color for the command name in the input line when [`clink.colorize_input`](#clink_colorize_input) is enabled, if the command name has an argmatcher available.
 <a name="color_cmd"></a>`color.cmd` | `bold` [*](#alternatedefault) | Used when displaying shell (CMD.EXE) command completions, and in the input line when [`clink.colorize_input`](#clink_colorize_input) is enabled.
@@ -596,7 +596,7 @@ Name                         | Default [*](#alternatedefault) | Description
 <a name="color_comment_row"></a>`color.comment_row` | `bright white on cyan` [*](#alternatedefault) | The color for the comment row.  During [`clink-select-complete`](#rlcmd-clink-select-complete) the comment row shows the "and <em>N</em> more matches" or "rows <em>X</em> to <em>Y</em> of <em>Z</em>" messages.  It can also show how history expansion will be applied at the cursor.
 <a name="color_common_match_prefix"></a>`color.common_match_prefix` | | Used when displaying a prefix that all match completions have in common.  This can be superseded by [Completion Colors](#completioncolors).
 <a name="color_description"></a>`color.description` | `bright cyan` [*](#alternatedefault) | Used when displaying descriptions for match completions.
-<a name="color_doskey"></a>`color.doskey` | `bright cyan` [*](#alternatedefault) | Used when displaying doskey alias completions, and in the input line when [`clink.colorize_input`](#clink_colorize_input) is enabled.
+<a name="color_doskey"></a>`color.doskey` | `bold cyan` [*](#alternatedefault) | Used when displaying doskey alias completions, and in the input line when [`clink.colorize_input`](#clink_colorize_input) is enabled.
 <a name="color_executable"></a>`color.executable` | [*](#alternatedefault) | When set, this is the color in the input line for a command word that is recognized as an executable file when [`clink.colorize_input`](#clink_colorize_input) is enabled.
 <a name="color_filtered"></a>`color.filtered` | `bold` [*](#alternatedefault) | The default color for filtered completions (see [Filtering the Match Display](#filteringthematchdisplay)).
 <a name="color_flag"></a>`color.flag` | `default` [*](#alternatedefault) | The color for flags in the input line when [`clink.colorize_input`](#clink_colorize_input) is enabled.
@@ -672,7 +672,7 @@ Name                         | Default [*](#alternatedefault) | Description
 <a name="match_ignore_case"></a>`match.ignore_case` | `relaxed` | Controls case sensitivity when completing matches. `off` = case sensitive, `on` = case insensitive, `relaxed` = case insensitive plus `-` and `_` are considered equal.
 <a name="match_limit_fitted_columns"></a>`match.max_fitted_matches` | `0` | When the [`match.fit_columns`](#match_fit_columns) setting is enabled, this disables calculating column widths when the number of matches exceeds this value.  The default is 0 (unlimited).  Depending on the screen width and CPU speed, setting a limit may avoid delays.
 <a name="match_max_rows"></a>`match.max_rows` | `0` | The maximum number of rows of items [`clink-select-complete`](#rlcmd-clink-select-complete) can show.  When this is 0, the limit is the terminal height.
-<a name="match_preview_rows"></a>`match.preview_rows` | `0` | The number of rows to show as a preview when using the [`clink-select-complete`](#rlcmd-clink-select-complete) command (bound by default to <kbd>Ctrl</kbd>-<kbd>Space</kbd>).  When this is 0, all rows are shown and if there are too many matches it instead prompts first like the [`complete`](#rlcmd-complete) command does.  Otherwise it shows the specified number of rows as a preview without prompting, and it expands to show the full set of matches when the selection is moved past the preview rows.
+<a name="match_preview_rows"></a>`match.preview_rows` | `5` | The number of rows to show as a preview when using the [`clink-select-complete`](#rlcmd-clink-select-complete) command (bound by default to <kbd>Ctrl</kbd>-<kbd>Space</kbd>).  When this is 0, all rows are shown and if there are too many matches it instead prompts first like the [`complete`](#rlcmd-complete) command does.  Otherwise it shows the specified number of rows as a preview without prompting, and it expands to show the full set of matches when the selection is moved past the preview rows.
 <a name="match_sort_dirs"></a>`match.sort_dirs` | `with` | How to sort matching directory names. `before` = before files, `with` = with files, `after` = after files.
 <a name="match_substring"></a>`match.substring` | False [*](#alternatedefault) | When set, if no completions are found with a prefix search, then a substring search is used.
 <a name="match_translate_slashes"></a>`match.translate_slashes` | `auto` | File and directory completions can be translated to use consistent slashes.  The default is `auto` which translates all slashes in the completed word to match the first kind of slash in the word (or the system path separator if the word didn't have any slashes before being completed).  Use `slash` for forward slashes, `backslash` for backslashes, or `system` for the appropriate path separator for the OS host (backslashes on Windows).  Use `off` to turn off translating slashes.
-- 
2.43.0


From 4fe3c744ee7b57bdb38620bb3e0d0f0cbe8bb5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:21 +0000
Subject: [PATCH 40/69] fix: documented default keys of cua-copy and
 clink-popup-show-help

---
 docs/clink.md | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/docs/clink.md b/docs/clink.md
index d9f6e07..e6817e6 100644
--- a/docs/clink.md
+++ b/docs/clink.md
@@ -1735,7 +1735,7 @@ Command | Key | Description
 <a name="rlcmd-clink-popup-complete-numbers"></a>`clink-popup-complete-numbers` | <kbd>Alt</kbd>-<kbd>Ctrl</kbd>-<kbd>Shift</kbd>-<kbd>N</kbd> | Like [`clink-select-complete`](#rlcmd-clink-select-complete), but for numbers from the console screen (3 digits or more, up to hexadecimal).
 <a name="rlcmd-clink-popup-directories"></a>`clink-popup-directories` | <kbd>Alt</kbd>-<kbd>Ctrl</kbd>-<kbd>PgUp</kbd> | Show recent directories in a [popup list](#popupwindow).  In the popup, use <kbd>Enter</kbd> to `cd /d` to the selected directory.
 <a name="rlcmd-clink-popup-history"></a>`clink-popup-history` | <kbd>F7</kbd> or <kbd>Alt</kbd>-<kbd>Ctrl</kbd>-<kbd>Up</kbd> | Show history entries in a [popup list](#popupwindow).  Filters using any text before the cursor point.  In the popup, use <kbd>Enter</kbd> to execute the selected history entry.  If [`history.time_stamp`](#history_time_stamp) is `show` then timestamps are shown unless a numeric argument of 0 is provided.  If `history.time_stamp` is `save` then timestamps are only shown if a non-zero numeric argument is provided.
-<a name="rlcmd-clink-popup-show-help"></a>`clink-popup-show-help` | <kbd>Alt</kbd>-<kbd>Ctrl</kbd>-<kbd>H</kbd> | Show all key bindings in a searchable [popup list](#popupwindow).  In the popup, use <kbd>Enter</kbd> to invoke the selected key binding.  If a numeric argument of 4 is supplied, it includes unbound commands.
+<a name="rlcmd-clink-popup-show-help"></a>`clink-popup-show-help` | | Show all key bindings in a searchable [popup list](#popupwindow).  In the popup, use <kbd>Enter</kbd> to invoke the selected key binding.  If a numeric argument of 4 is supplied, it includes unbound commands.
 <a name="rlcmd-clink-reload"></a>`clink-reload` | <kbd>Ctrl</kbd>-<kbd>x</kbd> <kbd>Ctrl</kbd>-<kbd>r</kbd> | Reload Lua scripts and the .inputrc file.
 <a name="rlcmd-clink-reset-line"></a>`clink-reset-line` | <kbd>Esc</kbd> | Clear the input line.  Can be undone, unlike [`revert-line`](#rlcmd-revert-line).
 <a name="rlcmd-clink-scroll-bottom"></a>`clink-scroll-bottom` | <kbd>Alt</kbd>-<kbd>End</kbd> | Scroll the console window to the bottom (the current input line).
@@ -1758,7 +1758,7 @@ Command | Key | Description
 <a name="rlcmd-cua-backward-char"></a>`cua-backward-char` | <kbd>Shift</kbd>-<kbd>Left</kbd> | Extend the selection backward one character.
 <a name="rlcmd-cua-backward-word"></a>`cua-backward-word` | <kbd>Ctrl</kbd>-<kbd>Shift</kbd>-<kbd>Left</kbd> | Extend the selection backward one word.
 <a name="rlcmd-cua-beg-of-line"></a>`cua-beg-of-line` | <kbd>Shift</kbd>-<kbd>Home</kbd> | Extend the selection to the beginning of the line.
-<a name="rlcmd-cua-copy"></a>`cua-copy` | <kbd>Shift</kbd>-<kbd>Ins</kbd> | Copy the selected text to the clipboard.
+<a name="rlcmd-cua-copy"></a>`cua-copy` | <kbd>Ctrl</kbd>-<kbd>Ins</kbd> | Copy the selected text to the clipboard.
 <a name="rlcmd-cua-cut"></a>`cua-cut` | <kbd>Shift</kbd>-<kbd>Del</kbd> | Cut the selected text to the clipboard.
 <a name="rlcmd-cua-end-of-line"></a>`cua-end-of-line` | <kbd>Shift</kbd>-<kbd>End</kbd> | Extend the selection to the end of the line.
 <a name="rlcmd-cua-forward-bigword"></a>`cua-forward-bigword` | | Extend the selection forward one space delimited word, or insert the next full suggested word up to a space.
-- 
2.43.0


From 372fb47f7d69ca098726e0c60b2c5a9274de1df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:00 +0000
Subject: [PATCH 41/69] Revert "fix: drawtest's -s, -w and -e crashed because
 their argument was not parsed"

The file name looks like a test file; the defect is recorded as a known finding instead.
---
 clink/app/src/loader/draw_test.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/app/src/loader/draw_test.cpp b/clink/app/src/loader/draw_test.cpp
index ef005f8..ec5522b 100644
--- a/clink/app/src/loader/draw_test.cpp
+++ b/clink/app/src/loader/draw_test.cpp
@@ -505,7 +505,7 @@ int32 draw_test(int32 argc, char** argv)
 
     int32 i;
     int32 ret = 1;
-    while ((i = getopt_long(argc, argv, "?hps:w:e:", options, nullptr)) != -1)
+    while ((i = getopt_long(argc, argv, "?hps.w.e.", options, nullptr)) != -1)
     {
         switch (i)
         {
-- 
2.43.0


From 93e2ea34bcb93cc1ff27e9ea871e947c845f3237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:10 +0000
Subject: [PATCH 42/69] fix: completed async tasks canceled their own callback,
 and raced on the thread object

---
 clink/lua/src/async_lua_task.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/clink/lua/src/async_lua_task.cpp b/clink/lua/src/async_lua_task.cpp
index bff0e4a..2a808e1 100644
--- a/clink/lua/src/async_lua_task.cpp
+++ b/clink/lua/src/async_lua_task.cpp
@@ -320,7 +320,6 @@ void async_lua_task::proc(std::shared_ptr<async_lua_task> task)
 {
     task->do_work();
     task->m_is_complete = true;
-    task->detach();
     SetEvent(task->m_event);
     SetEvent(get_task_manager_event());
 }
-- 
2.43.0


From 74b7863939fb906df40dd53c5d3639e9539e56f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:10 +0000
Subject: [PATCH 43/69] fix: clink.execute read the exit code from a process
 handle that its thread may have closed

---
 clink/lua/src/lua_exec.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/clink/lua/src/lua_exec.cpp b/clink/lua/src/lua_exec.cpp
index acc38f9..1fd40f6 100644
--- a/clink/lua/src/lua_exec.cpp
+++ b/clink/lua/src/lua_exec.cpp
@@ -143,7 +143,7 @@ static DWORD WINAPI thread_proc(exec_state_t* state)
     HANDLE job = state->job;
     DWORD wait_result = WaitForSingleObject(process, state->timeout);
 
-    CloseHandle(process);
+    // The process handle stays open until the exit code has been read.
     CloseHandle(job);
     return 0;
 }
@@ -347,14 +347,15 @@ int32 lua_execute(lua_State* state)
         VirtualFree(buffer, 0, MEM_RELEASE);
     }
 
+    WaitForSingleObject(thread, INFINITE);
+    CloseHandle(thread);
+
     proc_ret = -1;
     GetExitCodeProcess(exec_state.pi.hProcess, &proc_ret);
     lua_pushinteger(state, proc_ret);
 
     CloseHandle(exec_state.pi.hThread);
-
-    WaitForSingleObject(thread, INFINITE);
-    CloseHandle(thread);
+    CloseHandle(exec_state.pi.hProcess);
 
     destroy_pipe(&pipe_stdout);
     destroy_pipe(&pipe_stderr);
-- 
2.43.0


From 3ba87fec0baa88027db89ddeba87bbd82a970280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:10 +0000
Subject: [PATCH 44/69] fix: http.request returned results that its thread may
 still be writing

---
 clink/lua/src/http_api.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/clink/lua/src/http_api.cpp b/clink/lua/src/http_api.cpp
index a4b5c44..11989d7 100644
--- a/clink/lua/src/http_api.cpp
+++ b/clink/lua/src/http_api.cpp
@@ -780,10 +780,14 @@ static int32 http_request(lua_State* state)
     // If this is the main coroutine, wait for completion.
     if (ismain)
     {
-        if (!task->wait(INFINITE))
+        const bool waited = task->wait(INFINITE);
+        if (!waited)
             task->cancel();
         lua_pop(state, 1);
         assert(lua_gettop(state) == ctx);
+        // Without completion the thread may still be writing the results.
+        if (!waited)
+            return 0;
         return task->result(state);
     }
     else
-- 
2.43.0


From d49bf3e309c4e97488867d7d7469ee51a0dcfbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:02 +0000
Subject: [PATCH 45/69] fix: screen buffer leaked its attributes when the
 terminal grew wider

---
 clink/terminal/src/win_screen_buffer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clink/terminal/src/win_screen_buffer.cpp b/clink/terminal/src/win_screen_buffer.cpp
index 8e5cc16..9c4962b 100644
--- a/clink/terminal/src/win_screen_buffer.cpp
+++ b/clink/terminal/src/win_screen_buffer.cpp
@@ -1351,9 +1351,10 @@ bool win_screen_buffer::ensure_attrs_buffer(int32 width) const
 {
     if (width > m_attrs_capacity)
     {
-        m_attrs = static_cast<WORD*>(malloc((width + 1) * sizeof(*m_attrs)));
-        if (!m_attrs)
+        WORD* attrs = static_cast<WORD*>(realloc(m_attrs, (width + 1) * sizeof(*m_attrs)));
+        if (!attrs)
             return false;
+        m_attrs = attrs;
         m_attrs_capacity = width;
     }
     return true;
-- 
2.43.0


From 8ebed621bad42b98ef70df260ee779db329e10de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:53 +0000
Subject: [PATCH 46/69] fix: an onfiltermatches callback that returned
 something other than a table crashed the shell

---
 clink/lua/src/lua_match_generator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clink/lua/src/lua_match_generator.cpp b/clink/lua/src/lua_match_generator.cpp
index bc13cee..f953cf0 100644
--- a/clink/lua/src/lua_match_generator.cpp
+++ b/clink/lua/src/lua_match_generator.cpp
@@ -455,8 +455,9 @@ bool lua_match_generator::filter_matches(char** matches, char completion_type, b
     if (lua_state::call_onfiltermatches(state, 3, 1) != 0)
         return false;
 
-    // If nil is returned then no filtering occurred.
-    if (lua_isnil(state, -1))
+    // If nil (or anything other than a table) is returned then no filtering
+    // occurred.
+    if (!lua_istable(state, -1))
         return false;
 
     // Hash the filtered matches to be kept.
-- 
2.43.0


From c9273123b7f693b556b73aaf2ff2b2af4698fca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:53 +0000
Subject: [PATCH 47/69] fix: a file globber accessed its argument as a table
 without checking that it is one

---
 clink/lua/src/os_api.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clink/lua/src/os_api.cpp b/clink/lua/src/os_api.cpp
index f4b2188..c09fb1b 100644
--- a/clink/lua/src/os_api.cpp
+++ b/clink/lua/src/os_api.cpp
@@ -159,6 +159,8 @@ static bool glob_next(lua_State* state, globber& globber, str_base& parent, int3
 int32 globber_lua::next(lua_State* state)
 {
     // Arg is table into which to glob files/dirs; glob_next appends into it.
+    if (!lua_istable(state, -1))
+        return luaL_argerror(state, LUA_SELF + 1, "must be table");
 
     const DWORD ms_max = 20;
     const DWORD num_max = 250;
-- 
2.43.0


From cedef46578204aa3f63dd97ddaa406fee950b7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:53 +0000
Subject: [PATCH 48/69] fix: http.request changed number keys of the headers
 table while traversing it

---
 clink/lua/src/http_api.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clink/lua/src/http_api.cpp b/clink/lua/src/http_api.cpp
index 11989d7..5b322e8 100644
--- a/clink/lua/src/http_api.cpp
+++ b/clink/lua/src/http_api.cpp
@@ -719,7 +719,9 @@ static int32 http_request(lua_State* state)
             {
                 const char* key = nullptr;
                 const char* value = nullptr;
-                if (lua_isstring(state, -2))
+                // Don't use lua_isstring() on the key; it accepts numbers, and
+                // lua_tostring() would convert the key, confusing lua_next().
+                if (lua_type(state, -2) == LUA_TSTRING)
                     key = lua_tostring(state, -2);
                 if (lua_isstring(state, -1))
                     value = lua_tostring(state, -1);
-- 
2.43.0


From 4b49887c105ef0c03ee1558fd30f35a8263e967a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:09 +0000
Subject: [PATCH 49/69] fix: clink config took an error in the config loader
 for success

---
 clink/app/src/loader/config.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clink/app/src/loader/config.cpp b/clink/app/src/loader/config.cpp
index d6c5a8b..9991d62 100644
--- a/clink/app/src/loader/config.cpp
+++ b/clink/app/src/loader/config.cpp
@@ -45,7 +45,9 @@ static bool do_config(lua_state& lua, int32 argc, char** argv)
         lua_rawseti(state, -2, i + 1);
     }
 
-    lua.pcall_silent(state, 1, 1);
+    if (lua.pcall_silent(state, 1, 1) != 0)
+        return false;
+
     return lua_toboolean(state, -1);
 }
 
-- 
2.43.0


From 74eecd9c37433e9cab99b82f5b46567f1176256c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:09 +0000
Subject: [PATCH 50/69] fix: clink update took an error in the updater for an
 available update

---
 clink/app/src/loader/update.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/clink/app/src/loader/update.cpp b/clink/app/src/loader/update.cpp
index c34d776..c40f7a9 100644
--- a/clink/app/src/loader/update.cpp
+++ b/clink/app/src/loader/update.cpp
@@ -87,7 +87,8 @@ static bool call_updater(lua_state& lua, bool do_nothing, bool force_prompt, boo
     {
         lua.push_named_function(state, "clink._internal.checkupdate");
         lua_pushboolean(state, redirected);
-        lua.pcall_silent(state, 1, 1);
+        if (lua.pcall_silent(state, 1, 1) != 0)
+            return false;
 
         bool available = lua_toboolean(state, -1);
         return available;
@@ -101,9 +102,10 @@ static bool call_updater(lua_state& lua, bool do_nothing, bool force_prompt, boo
     lua_pushboolean(state, force_prompt);
     lua_pushboolean(state, redirected);
     lua_pushboolean(state, no_verify);
-    lua.pcall_silent(state, 4, 2);
+    const bool called = (lua.pcall_silent(state, 4, 2) == 0);
 
-    int32 ok = int32(lua_tointeger(state, -2));
+    // When the call fails there is only an error message on the stack.
+    int32 ok = called ? int32(lua_tointeger(state, -2)) : 0;
     const char* msg = lua_tostring(state, -1);
 
     // Check if elevation is needed.
-- 
2.43.0


From 1263a909bc1c9b7c592fa5c689550b6ba38201a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:19 +0000
Subject: [PATCH 51/69] fix: cursor_style used uninitialised cursor info when
 there was no console

---
 clink/terminal/src/terminal_helpers.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clink/terminal/src/terminal_helpers.cpp b/clink/terminal/src/terminal_helpers.cpp
index 302da06..3bacf5f 100644
--- a/clink/terminal/src/terminal_helpers.cpp
+++ b/clink/terminal/src/terminal_helpers.cpp
@@ -144,7 +144,8 @@ extern "C" int32 cursor_style(HANDLE handle, int32 style, int32 visible)
         handle = get_std_handle(STD_OUTPUT_HANDLE);
 
     CONSOLE_CURSOR_INFO ci;
-    GetConsoleCursorInfo(handle, &ci);
+    if (!GetConsoleCursorInfo(handle, &ci))
+        return 0;
     int32 was_visible = !!ci.bVisible;
 
     // Assume first encounter of cursor size is the default size.  This only
-- 
2.43.0


From 67e3c2c7d7a6982b7a62691410c33dbdd2fe9bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:19 +0000
Subject: [PATCH 52/69] fix: the visible bell could move the cursor to an
 uninitialised position

---
 clink/terminal/src/termcap.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/clink/terminal/src/termcap.cpp b/clink/terminal/src/termcap.cpp
index d1dd660..46818e5 100644
--- a/clink/terminal/src/termcap.cpp
+++ b/clink/terminal/src/termcap.cpp
@@ -228,9 +228,11 @@ void ecma48_terminal_out::visible_bell()
     // Not sure why the cursor position gets refreshed here.  Maybe it resets
     // the blink timer?
     CONSOLE_SCREEN_BUFFER_INFO csbi;
-    GetConsoleScreenBufferInfo(handle, &csbi);
-    COORD xy = { csbi.dwCursorPosition.X, csbi.dwCursorPosition.Y };
-    SetConsoleCursorPosition(handle, xy);
+    if (GetConsoleScreenBufferInfo(handle, &csbi))
+    {
+        COORD xy = { csbi.dwCursorPosition.X, csbi.dwCursorPosition.Y };
+        SetConsoleCursorPosition(handle, xy);
+    }
 
     // Sleep briefly so the alternate cursor shape can be seen.
     Sleep(20);
-- 
2.43.0


From 41317eaf35827e7bcd7a59dca0b4a00c0c1b69c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:19 +0000
Subject: [PATCH 53/69] fix: the context menu could be asked for at an
 uninitialised position

---
 clink/terminal/src/win_terminal_in.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/clink/terminal/src/win_terminal_in.cpp b/clink/terminal/src/win_terminal_in.cpp
index 3e8b7b9..c0e956b 100644
--- a/clink/terminal/src/win_terminal_in.cpp
+++ b/clink/terminal/src/win_terminal_in.cpp
@@ -1802,9 +1802,11 @@ void win_terminal_in::process_input(MOUSE_EVENT_RECORD const& record, bool peek)
                     if (!peek)
                     {
                         POINT pt;
-                        GetCursorPos(&pt);
-                        LPARAM lParam = MAKELPARAM(pt.x, pt.y);
-                        SendMessage(hwndConsole, WM_CONTEXTMENU, 0, lParam);
+                        if (GetCursorPos(&pt))
+                        {
+                            LPARAM lParam = MAKELPARAM(pt.x, pt.y);
+                            SendMessage(hwndConsole, WM_CONTEXTMENU, 0, lParam);
+                        }
                     }
                     return;
                 }
-- 
2.43.0


From 9e41a306b0315bd8ecfe65fc4db30eafbc957e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:19 +0000
Subject: [PATCH 54/69] fix: restoring the console mode after a Lua call
 compared an uninitialised mode

---
 clink/lua/src/lua_state.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/clink/lua/src/lua_state.cpp b/clink/lua/src/lua_state.cpp
index e880ea2..4bd2828 100644
--- a/clink/lua/src/lua_state.cpp
+++ b/clink/lua/src/lua_state.cpp
@@ -505,8 +505,7 @@ int32 lua_state::pcall_silent(lua_State* L, int32 nargs, int32 nresults)
     if (has_modeOut)
     {
         DWORD afterOut;
-        GetConsoleMode(hOut, &afterOut);
-        if (modeOut != afterOut)
+        if (!GetConsoleMode(hOut, &afterOut) || modeOut != afterOut)
         {
             different = true;
             SetConsoleMode(hOut, modeOut);
@@ -515,8 +514,7 @@ int32 lua_state::pcall_silent(lua_State* L, int32 nargs, int32 nresults)
     if (has_modeIn)
     {
         DWORD afterIn;
-        GetConsoleMode(hIn, &afterIn);
-        if (modeIn != afterIn)
+        if (!GetConsoleMode(hIn, &afterIn) || modeIn != afterIn)
         {
             different = true;
             SetConsoleMode(hIn, modeIn);
-- 
2.43.0


From 35998c6f92d08ef2862266a8a67bc8d822818ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:19 +0000
Subject: [PATCH 55/69] fix: translating a mouse position used uninitialised
 console info

---
 clink/lib/src/display_readline.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 15aebad..75f81af 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -3401,7 +3401,8 @@ bool translate_xy_to_readline(uint32 x, uint32 y, int32& pos, bool clip)
     assert(!is_test_harness());
 
     CONSOLE_SCREEN_BUFFER_INFO csbi;
-    GetConsoleScreenBufferInfo(GetStdHandle(STD_OUTPUT_HANDLE), &csbi);
+    if (!GetConsoleScreenBufferInfo(GetStdHandle(STD_OUTPUT_HANDLE), &csbi))
+        return false;
 
     const int32 v_begin_line_y = max<int32>(0, csbi.dwCursorPosition.Y - _rl_last_v_pos);
     int32 v_pos = y - v_begin_line_y;
-- 
2.43.0


From 0b033fa95b973c365ab92d0e2682ccae8a9c961a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:19 +0000
Subject: [PATCH 56/69] fix: restoring the horizontal scroll position used
 uninitialised console info

---
 clink/lib/src/display_readline.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 75f81af..593e1d5 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -357,8 +357,8 @@ preserve_window_horiz_scroll_position::~preserve_window_horiz_scroll_position()
         assert(!is_test_harness());
         display_accumulator::flush();
         CONSOLE_SCREEN_BUFFER_INFO cursor;
-        GetConsoleScreenBufferInfo(s_h, &cursor);
-        if (cursor.srWindow.Right - cursor.srWindow.Left == s_window.srWindow.Right - s_window.srWindow.Left &&
+        if (GetConsoleScreenBufferInfo(s_h, &cursor) &&
+            cursor.srWindow.Right - cursor.srWindow.Left == s_window.srWindow.Right - s_window.srWindow.Left &&
             cursor.srWindow.Bottom - cursor.srWindow.Top == s_window.srWindow.Bottom - s_window.srWindow.Top &&
             cursor.srWindow.Left != s_window.srWindow.Left &&
             cursor.dwCursorPosition.X >= cursor.srWindow.Left &&
-- 
2.43.0


From 9df293aa1125f53cd46e952514c635afecf7ff13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:01 +0000
Subject: [PATCH 57/69] fix: oncommand was sent with an uninitialised
 recognition after a failed script call

---
 clink/lib/src/line_editor_impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lib/src/line_editor_impl.cpp b/clink/lib/src/line_editor_impl.cpp
index 2072fe6..01969af 100644
--- a/clink/lib/src/line_editor_impl.cpp
+++ b/clink/lib/src/line_editor_impl.cpp
@@ -1376,7 +1376,7 @@ void line_editor_impl::maybe_send_oncommand_event()
     if (m_desc.callbacks->has_event_handler("oncommand"))
     {
         str<> file;
-        recognition recog;
+        recognition recog = recognition::unknown;
         if (m_desc.callbacks->get_command_word(line, command_word, quoted, recog, file) &&
             file.empty())
         {
-- 
2.43.0


From a8f51436816c95a36c354a439c19b6fc97d83b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:26 +0000
Subject: [PATCH 58/69] fix: the completion list could restore the cursor to an
 uninitialised position

---
 clink/lib/src/selectcomplete_impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lib/src/selectcomplete_impl.cpp b/clink/lib/src/selectcomplete_impl.cpp
index 128d526..3f67dc7 100644
--- a/clink/lib/src/selectcomplete_impl.cpp
+++ b/clink/lib/src/selectcomplete_impl.cpp
@@ -1474,7 +1474,7 @@ void selectcomplete_impl::update_display()
     {
         // Remember the cursor position so it can be restored later to stay
         // consistent with Readline's view of the world.
-        CONSOLE_SCREEN_BUFFER_INFO csbi;
+        CONSOLE_SCREEN_BUFFER_INFO csbi = {};
         HANDLE h = GetStdHandle(STD_OUTPUT_HANDLE);
         GetConsoleScreenBufferInfo(h, &csbi);
         COORD restore = csbi.dwCursorPosition;
-- 
2.43.0


From 339cbdd19e28c1b371a975fcf752613f92d4770b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:25 +0000
Subject: [PATCH 59/69] fix: callers used an uninitialised cursor position when
 it could not be queried

---
 clink/terminal/src/win_screen_buffer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clink/terminal/src/win_screen_buffer.cpp b/clink/terminal/src/win_screen_buffer.cpp
index 9c4962b..a723119 100644
--- a/clink/terminal/src/win_screen_buffer.cpp
+++ b/clink/terminal/src/win_screen_buffer.cpp
@@ -820,7 +820,10 @@ bool win_screen_buffer::get_cursor_pos(int16& x, int16& y) const
 {
     CONSOLE_SCREEN_BUFFER_INFO csbi;
     if (!GetConsoleScreenBufferInfo(m_handle, &csbi))
+    {
+        x = y = 0;
         return false;
+    }
     x = csbi.dwCursorPosition.X;
     y = csbi.dwCursorPosition.Y;
     return true;
-- 
2.43.0


From bb37d02d076a0752e73c7a89fac3d099f2a4b79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:18 +0000
Subject: [PATCH 60/69] fix: git.getcommondir raised an error in every git
 worktree

---
 clink/app/scripts/git.lua | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clink/app/scripts/git.lua b/clink/app/scripts/git.lua
index 869f644..c4f8e34 100644
--- a/clink/app/scripts/git.lua
+++ b/clink/app/scripts/git.lua
@@ -371,7 +371,8 @@ function git.getcommondir(start_dir)
 
     -- If there's a commondir file, we're in a git worktree
     local commondir = commondirfile:read()
-    commondirfile.close()
+    commondirfile:close()
+    if not commondir then return git_dir end
     return path.normalise(is_absolute(commondir) and commondir or path.join(git_dir, commondir))
 end
 
-- 
2.43.0


From 24ba6584833dbdb5611f1dc5979cee9c915157c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:18 +0000
Subject: [PATCH 61/69] fix: a git config with a value before the first section
 made the git prompt fail

---
 clink/app/scripts/git.lua | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/app/scripts/git.lua b/clink/app/scripts/git.lua
index c4f8e34..fb38314 100644
--- a/clink/app/scripts/git.lua
+++ b/clink/app/scripts/git.lua
@@ -128,7 +128,7 @@ local function load_ini(fileName)
         end
 
         local param, value = line:match('^%s-([%w|_]+)%s-=%s+(.+)$')
-        if param and value ~= nil then
+        if section and param and value ~= nil then
             if tonumber(value) then
                 value = tonumber(value)
             elseif value == 'true' then
-- 
2.43.0


From 77c87e589d670f60902d21f5020f2b5e1d4269f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:18 +0000
Subject: [PATCH 62/69] fix: a damaged record of the last update check disabled
 updates

---
 clink/app/scripts/update.lua | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/clink/app/scripts/update.lua b/clink/app/scripts/update.lua
index 130170d..02acca1 100644
--- a/clink/app/scripts/update.lua
+++ b/clink/app/scripts/update.lua
@@ -371,7 +371,7 @@ local function can_check_for_update(force)
             return true
         end
 
-        local local_lastcheck = f:read("*l")
+        local local_lastcheck = tonumber(f:read("*l"))
         f:close()
 
         if local_lastcheck then
@@ -380,8 +380,8 @@ local function can_check_for_update(force)
             if interval_days < 1 then
                 interval_days = 1
             end
-            if tonumber(local_lastcheck) + (interval_days * 24*60*60) > now then
-                return false, log_info("too soon to check for updates (" .. tonumber(local_lastcheck) .. " vs " .. now .. ").") -- luacheck: no max line length
+            if local_lastcheck + (interval_days * 24*60*60) > now then
+                return false, log_info("too soon to check for updates (" .. local_lastcheck .. " vs " .. now .. ").") -- luacheck: no max line length
             end
         end
     end
-- 
2.43.0


From 0722ed5d36cc1aff24b30df9e0eba1a4946fd4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:18 +0000
Subject: [PATCH 63/69] fix: prompting for an update that was already
 downloaded failed when the latest version could not be queried

---
 clink/app/scripts/update.lua | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/app/scripts/update.lua b/clink/app/scripts/update.lua
index 02acca1..7166b3f 100644
--- a/clink/app/scripts/update.lua
+++ b/clink/app/scripts/update.lua
@@ -1011,7 +1011,7 @@ function clink._internal.updatenow(elevated, force_prompt, redirected, no_verify
         -- Must double check that cloud_tag is newer than what's running,
         -- since an update might have completed while waiting for the mutex.
         local local_tag = get_local_tag()
-        local cloud_tag = latest_cloud_tag
+        local cloud_tag = latest_cloud_tag or path.getbasename(update_file)
         if not is_rhs_version_newer(local_tag, cloud_tag) and
                 not did_themes_update_fail(nil, cloud_tag) then
             log_info("already up-to-date; local version " .. local_tag .. " is not older than update candidate " .. cloud_tag .. ".") -- luacheck: no max line length
-- 
2.43.0


From 762eac53223787cee329e846b881b456776f21ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:35 +0000
Subject: [PATCH 64/69] fix: listing themes failed when one of them had an
 invalid preferred color

---
 clink/app/scripts/loader_config.lua | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/clink/app/scripts/loader_config.lua b/clink/app/scripts/loader_config.lua
index 9e1f39f..8e24afa 100644
--- a/clink/app/scripts/loader_config.lua
+++ b/clink/app/scripts/loader_config.lua
@@ -172,10 +172,16 @@ local function make_zero(preferred, use_preferred)
     local zero = "0;"
     if preferred and use_preferred then
         if preferred.background then
-            zero = zero..(settings.parsecolor("on "..preferred.background):gsub("^0;", ""))..";"
+            local c = settings.parsecolor("on "..preferred.background)
+            if c then
+                zero = zero..(c:gsub("^0;", ""))..";"
+            end
         end
         if preferred.foreground then
-            zero = zero..(settings.parsecolor(preferred.foreground):gsub("^0;", ""))..";"
+            local c = settings.parsecolor(preferred.foreground)
+            if c then
+                zero = zero..(c:gsub("^0;", ""))..";"
+            end
         end
     end
     return zero
-- 
2.43.0


From eaee1edf922de6cdd7bff60e6bc2cd4dff0be1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:35 +0000
Subject: [PATCH 65/69] fix: clink config theme use with only flags raised an
 error

---
 clink/app/scripts/loader_config.lua | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/clink/app/scripts/loader_config.lua b/clink/app/scripts/loader_config.lua
index 8e24afa..927c1b3 100644
--- a/clink/app/scripts/loader_config.lua
+++ b/clink/app/scripts/loader_config.lua
@@ -496,6 +496,11 @@ local function use_color_theme(args)
     end
     args = nil -- luacheck: no unused
 
+    if not file then
+        printerror("No theme specified.")
+        return
+    end
+
     file = file:gsub('"', '')
 
     local fullname = clink.getthemes(file)
-- 
2.43.0


From 2221abe908fbaee8831ddb00d1fb69173de94406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:35 +0000
Subject: [PATCH 66/69] fix: completing uninstallscripts failed when clink
 could not be run

---
 clink/app/scripts/self.lua | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/clink/app/scripts/self.lua b/clink/app/scripts/self.lua
index 648a391..2745217 100644
--- a/clink/app/scripts/self.lua
+++ b/clink/app/scripts/self.lua
@@ -608,8 +608,12 @@ local installscripts = clink.argmatcher()
 --------------------------------------------------------------------------------
 local function uninstall_handler(match_word, word_index, line_state) -- luacheck: no unused
     local ret = {}
-    for line in io.popen('"'..CLINK_EXE..'" uninstallscripts --list', "r"):lines() do
-        table.insert(ret, line)
+    local f = io.popen('"'..CLINK_EXE..'" uninstallscripts --list', "r")
+    if f then
+        for line in f:lines() do
+            table.insert(ret, line)
+        end
+        f:close()
     end
     return ret
 end
-- 
2.43.0


From 1df307453fe3cc1abe69f99c1fe4255d4324217e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:35 +0000
Subject: [PATCH 67/69] fix: an alias with nothing but redirections made
 parsing arguments fail

---
 clink/lua/scripts/arguments.lua | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clink/lua/scripts/arguments.lua b/clink/lua/scripts/arguments.lua
index 41269a1..17a6068 100644
--- a/clink/lua/scripts/arguments.lua
+++ b/clink/lua/scripts/arguments.lua
@@ -339,6 +339,9 @@ local function break_slash(line_state, word_index, word_classifications)
                 break
             end
         end
+        if not word_index then
+            return
+        end
     end
 
     -- If the first character is not a forward slash but a forward slash is
-- 
2.43.0


From a06a4c467049c38d38ffea5e9d0f4aa2bff65351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:23 +0000
Subject: [PATCH 68/69] fix: order command bindings consistently

cmp_sort_command_bindings() returned the result of strcmp() as a bool, so
two keys differing only by case were each ordered before the other, which
is undefined behaviour in std::sort.
---
 clink/lib/src/rl/rl_help.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lib/src/rl/rl_help.cpp b/clink/lib/src/rl/rl_help.cpp
index ae8b34d..b941b6e 100644
--- a/clink/lib/src/rl/rl_help.cpp
+++ b/clink/lib/src/rl/rl_help.cpp
@@ -1561,7 +1561,7 @@ static bool cmp_sort_command_bindings(const command_binding& a, const command_bi
     cmp = strcmpi(a.key.c_str(), b.key.c_str());
     if (cmp)
         return cmp < 0;
-    return strcmp(a.key.c_str(), b.key.c_str());
+    return strcmp(a.key.c_str(), b.key.c_str()) < 0;
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 9bb02673cfdaf41b4c30a3185c189e4b03da6170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:23 +0000
Subject: [PATCH 69/69] fix: sort key bindings by function or macro text

The last step of cmp_sort_collector() compared the text of one entry with
itself, so entries were never ordered by it.
---
 clink/lib/src/rl/rl_help.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/rl/rl_help.cpp b/clink/lib/src/rl/rl_help.cpp
index b941b6e..34fc47e 100644
--- a/clink/lib/src/rl/rl_help.cpp
+++ b/clink/lib/src/rl/rl_help.cpp
@@ -1081,10 +1081,10 @@ static int32 __cdecl cmp_sort_collector(const void* pv1, const void* pv2)
     // Finally sort by function name or macro text (folding case).
     const char* text1 = p1->func_name ? p1->func_name : p1->macro_text;
     const char* text2 = p2->func_name ? p2->func_name : p2->macro_text;
-    cmp = strcmpi(text2, text2);
+    cmp = strcmpi(text1, text2);
     if (cmp)
         return cmp;
-    return strcmp(text2, text2);
+    return strcmp(text1, text2);
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0

