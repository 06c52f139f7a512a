From 92ff5180d158b1e067e44c33b07a6f9509a0b6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:06 +0000
Subject: [PATCH 01/50] fix: hex/bin rendering of zero and zero padding of
 fixed width binary

---
 src/include/fn_fmt.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/include/fn_fmt.h b/src/include/fn_fmt.h
index fe8e408..4ee62d3 100644
--- a/src/include/fn_fmt.h
+++ b/src/include/fn_fmt.h
@@ -160,7 +160,7 @@ namespace FNLog
 
         int real_wide = 0;
 #ifndef WIN32
-        real_wide = sizeof(number) * 8 - __builtin_clzll(number);
+        real_wide = number ? sizeof(number) * 8 - __builtin_clzll(number) : 1;
 #else
         unsigned long win_index = 0;
         if (_BitScanReverse(&win_index, (unsigned long)(number >> 32)))
@@ -225,7 +225,7 @@ namespace FNLog
 
         int real_wide = 0;
 #ifndef WIN32
-        real_wide = sizeof(number) * 8 - __builtin_clzll(number);
+        real_wide = number ? sizeof(number) * 8 - __builtin_clzll(number) : 1;
 #else
         unsigned long win_index = 0;
         _BitScanReverse64(&win_index, number);
@@ -243,6 +243,10 @@ namespace FNLog
             *(dst + cur_wide - 1) = lut[m2];
             cur_wide--;
         } while (number);
+        while (cur_wide != 0)
+        {
+            *(dst + --cur_wide) = '0';
+        }
         return real_wide;
     }
 
-- 
2.43.0


From 98aa642ae916286a2dcf424d74ff41bf59657b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:06 +0000
Subject: [PATCH 02/50] fix: signed overflow when rendering the minimum long
 long

---
 src/include/fn_fmt.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/fn_fmt.h b/src/include/fn_fmt.h
index 4ee62d3..b52e8c5 100644
--- a/src/include/fn_fmt.h
+++ b/src/include/fn_fmt.h
@@ -82,8 +82,8 @@ namespace FNLog
         if (number < 0)
         {
             *dst = '-';
-            number = -number;
-            return 1 + write_dec_unsafe<WIDE - 1>(dst + 1, (unsigned long long) number);
+            //negate as unsigned: the negation of LLONG_MIN overflows
+            return 1 + write_dec_unsafe<WIDE - 1>(dst + 1, 0ULL - (unsigned long long) number);
         }
         return write_dec_unsafe<WIDE>(dst, (unsigned long long) number);
     }
-- 
2.43.0


From c0b80a83fe19a251c71326ea63a32e40ad1d8b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:06 +0000
Subject: [PATCH 03/50] fix: sign lost when rendering small negative values and
 negative infinity

---
 src/include/fn_fmt.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_fmt.h b/src/include/fn_fmt.h
index b52e8c5..2fe3886 100644
--- a/src/include/fn_fmt.h
+++ b/src/include/fn_fmt.h
@@ -260,6 +260,11 @@ namespace FNLog
             *dst = '0';
             return 1;
         case FP_INFINITE:
+            if (std::signbit(number))
+            {
+                memcpy(dst, "-inf", 4);
+                return 4;
+            }
             memcpy(dst, "inf", 3);
             return 3;
         case FP_NAN:
@@ -277,7 +282,7 @@ namespace FNLog
         {
             if (fabst < 0.0001 && fabst > 0.0000001)
             {
-                snprintf(dst, 30, "%.08lf", fabst);
+                snprintf(dst, 30, "%.08lf", number);
             }
             else
             {
-- 
2.43.0


From f7cf4c1fc0a5756374dc7ecc0d654ada57008dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:00 +0000
Subject: [PATCH 04/50] fix: wrong local time in prefixes on days with a DST
 change and on a thread's first day

---
 src/include/fn_fmt.h | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/include/fn_fmt.h b/src/include/fn_fmt.h
index 2fe3886..1f3769d 100644
--- a/src/include/fn_fmt.h
+++ b/src/include/fn_fmt.h
@@ -330,16 +330,11 @@ namespace FNLog
         static thread_local tm cache_date = { 0 };
         static thread_local long long cache_timestamp = 0;
         static const char date_fmt[] = "[20190412 13:05:35.417]";
-        long long day_second = timestamp - cache_timestamp;
-        if (day_second < 0 || day_second >= 24*60*60)
+        //local hour/minute can't be derived from the seconds since midnight when the day has a DST change.
+        if (timestamp != cache_timestamp || cache_date.tm_mday == 0)
         {
             cache_date = FileHandler::time_to_tm((time_t)timestamp);
-            struct tm daytm = cache_date;
-            daytm.tm_hour = 0;
-            daytm.tm_min = 0;
-            daytm.tm_sec = 0;
-            cache_timestamp = mktime(&daytm);
-            day_second = timestamp - cache_timestamp;
+            cache_timestamp = timestamp;
         }
         int write_bytes = 0;
 
@@ -351,13 +346,11 @@ namespace FNLog
 
         *(dst + write_bytes++) = ' ';
 
-        write_bytes += write_dec_unsafe<2>(dst + write_bytes, (unsigned long long)day_second/3600);
+        write_bytes += write_dec_unsafe<2>(dst + write_bytes, (unsigned long long)cache_date.tm_hour);
         *(dst + write_bytes++) = ':';
-        day_second %= 3600;
-        write_bytes += write_dec_unsafe<2>(dst + write_bytes, (unsigned long long)day_second / 60);
+        write_bytes += write_dec_unsafe<2>(dst + write_bytes, (unsigned long long)cache_date.tm_min);
         *(dst + write_bytes++) = ':';
-        day_second %= 60;
-        write_bytes += write_dec_unsafe<2>(dst + write_bytes, (unsigned long long)day_second);
+        write_bytes += write_dec_unsafe<2>(dst + write_bytes, (unsigned long long)cache_date.tm_sec);
 
         *(dst + write_bytes++) = '.';
         if (precise >= 1000)
-- 
2.43.0


From a2cd9281e1d2597fc1d57b40c70e1b49e19a0865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:23 +0000
Subject: [PATCH 05/50] fix: hook called on channels without a virtual device
 and for disabled virtual devices

---
 src/include/fn_load.h               | 5 ++++-
 src/include/fn_out_virtual_device.h | 4 ++++
 src/include/fn_parse.h              | 1 +
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index 8147776..75570c5 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -376,7 +376,10 @@ namespace FNLog
                 return E_VERSION_MISMATCH;
             }
             memcpy(&dst_chl.devices_[dst_chl.device_size_++], &src_dvc, sizeof(src_dvc));
-            
+            if (src_dvc.out_type_ == DEVICE_OUT_VIRTUAL)
+            {
+                dst_chl.virtual_device_id_ = device_id;
+            }
         }
         AtomicIncChannelLog(dst_chl, CHANNEL_LOG_HOTUPDATE_CHANGE, 1);
         return 0;
diff --git a/src/include/fn_out_virtual_device.h b/src/include/fn_out_virtual_device.h
index 0bc34ef..bc7b9d0 100644
--- a/src/include/fn_out_virtual_device.h
+++ b/src/include/fn_out_virtual_device.h
@@ -35,6 +35,10 @@ namespace FNLog
         {
             Channel& channel = logger.shm_->channels_[channel_id];
             Device::ConfigFields& fields = channel.devices_[device_id].config_fields_;
+            if (!fields[FNLog::DEVICE_CFG_ABLE])
+            {
+                return;
+            }
             long long field_begin_category = fields[FNLog::DEVICE_CFG_CATEGORY];
             long long field_category_count = fields[FNLog::DEVICE_CFG_CATEGORY_EXTEND];
             unsigned long long field_category_mask = (unsigned long long)fields[FNLog::DEVICE_CFG_CATEGORY_MASK];
diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 03523cd..c9c6d34 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1493,6 +1493,7 @@ namespace FNLog
                     Channel& channel = ls.channels_[ls.channel_size_++];
                     memset(&channel, 0, sizeof(channel));
                     channel.channel_id_ = channel_id;
+                    channel.virtual_device_id_ = -1; //no virtual device by default 
                     ret = ParseChannel(ls, channel, ls.line_.blank_);
                     if (ret != 0)
                     {
-- 
2.43.0


From 855a9e101e0f23419e84069c867a85e34a71cec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:24 +0000
Subject: [PATCH 06/50] fix: shm_key taken from uninitialised memory when the
 configuration has none

---
 src/include/fn_parse.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index c9c6d34..77ab7df 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1415,6 +1415,7 @@ namespace FNLog
         memset(&ls.channels_, 0, sizeof(ls.channels_));
         ls.channel_size_ = 0;
         ls.hot_update_ = false;
+        ls.shm_key_ = 0;
         ls.current_ = ls.first_;
         ls.line_no_ = 1; 
         ls.desc_len_ = 0;
-- 
2.43.0


From c2ec72657a4916f670e82cb0761bf2140baae3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:24 +0000
Subject: [PATCH 07/50] fix: logger name and description of an earlier
 configuration kept after a restart without them

---
 src/include/fn_load.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index 75570c5..394d537 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -208,11 +208,19 @@ namespace FNLog
             memcpy(logger.name_, ls->name_, ls->name_len_+1);
             logger.name_len_ = ls->name_len_;
         }
-        if (ls->desc_len_ > 0)
+        else
+        {
+            std::string name = FileHandler::process_name().substr(0, Logger::MAX_LOGGER_NAME_LEN - 1);
+            memcpy(logger.name_, name.c_str(), name.length() + 1);
+            logger.name_len_ = (int)name.length();
+        }
+        if (ls->desc_len_ <= 0)
         {
-            memcpy(logger.desc_, ls->desc_, ls->desc_len_+1);
-            logger.desc_len_ = ls->desc_len_;
+            ls->desc_[0] = '\0';
+            ls->desc_len_ = 0;
         }
+        memcpy(logger.desc_, ls->desc_, ls->desc_len_+1);
+        logger.desc_len_ = ls->desc_len_;
         logger.yaml_path_ = path;
         logger.hot_update_ = ls->hot_update_;
         logger.shm_key_ = ls->shm_key_;
-- 
2.43.0


From 748524fe4e083ab2e56beeb7bf4ddfff654cf360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:38 +0000
Subject: [PATCH 08/50] fix: channel category/identify settings cut to 32 bits

---
 src/include/fn_parse.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 77ab7df..0213e34 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1324,10 +1324,10 @@ namespace FNLog
                 channel.config_fields_[CHANNEL_CFG_PRIORITY] = ParsePriority(ls.line_.val_begin_, ls.line_.val_end_);
                 break;
             case RK_CATEGORY:
-                channel.config_fields_[CHANNEL_CFG_CATEGORY] = atoi(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_CATEGORY] = atoll(ls.line_.val_begin_);
                 break;            
             case RK_CATEGORY_EXTEND:
-                channel.config_fields_[CHANNEL_CFG_CATEGORY_EXTEND] = atoi(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_CATEGORY_EXTEND] = atoll(ls.line_.val_begin_);
                 break;
             case RK_CATEGORY_WLIST:
                 channel.config_fields_[CHANNEL_CFG_CATEGORY_MASK] = ParseBitArray(ls.line_.val_begin_, ls.line_.val_end_);
@@ -1342,10 +1342,10 @@ namespace FNLog
                 channel.config_fields_[CHANNEL_CFG_CATEGORY_MASK] = ~atoll(ls.line_.val_begin_);
                 break;
             case RK_IDENTIFY:
-                channel.config_fields_[CHANNEL_CFG_IDENTIFY] = atoi(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_IDENTIFY] = atoll(ls.line_.val_begin_);
                 break;
             case RK_IDENTIFY_EXTEND:
-                channel.config_fields_[CHANNEL_CFG_IDENTIFY_EXTEND] = atoi(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_IDENTIFY_EXTEND] = atoll(ls.line_.val_begin_);
                 break;
             case RK_IDENTIFY_WLIST:
                 channel.config_fields_[CHANNEL_CFG_IDENTIFY_MASK] = ParseBitArray(ls.line_.val_begin_, ls.line_.val_end_);
-- 
2.43.0


From eae081e7352ab86ae82a1e0615b40010bc7bbe0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:49 +0000
Subject: [PATCH 09/50] fix: 64-bit masks with the top bit set were saturated

---
 src/include/fn_parse.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 0213e34..db178b5 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1197,10 +1197,10 @@ namespace FNLog
                 device.config_fields_[DEVICE_CFG_CATEGORY_MASK] = ~ParseBitArray(ls.line_.val_begin_, ls.line_.val_end_);
                 break;
             case RK_CATEGORY_WMASK:
-                device.config_fields_[DEVICE_CFG_CATEGORY_MASK] = atoll(ls.line_.val_begin_);
+                device.config_fields_[DEVICE_CFG_CATEGORY_MASK] = (long long)strtoull(ls.line_.val_begin_, nullptr, 10);
                 break;
             case RK_CATEGORY_BMASK:
-                device.config_fields_[DEVICE_CFG_CATEGORY_MASK] = ~atoll(ls.line_.val_begin_);
+                device.config_fields_[DEVICE_CFG_CATEGORY_MASK] = (long long)~strtoull(ls.line_.val_begin_, nullptr, 10);
                 break;
             case RK_IDENTIFY:
                 device.config_fields_[DEVICE_CFG_IDENTIFY] = atoll(ls.line_.val_begin_);
@@ -1215,10 +1215,10 @@ namespace FNLog
                 device.config_fields_[DEVICE_CFG_IDENTIFY_MASK] = ~ParseBitArray(ls.line_.val_begin_, ls.line_.val_end_);
                 break;
             case RK_IDENTIFY_WMASK:
-                device.config_fields_[DEVICE_CFG_IDENTIFY_MASK] = atoll(ls.line_.val_begin_);
+                device.config_fields_[DEVICE_CFG_IDENTIFY_MASK] = (long long)strtoull(ls.line_.val_begin_, nullptr, 10);
                 break;
             case RK_IDENTIFY_BMASK:
-                device.config_fields_[DEVICE_CFG_IDENTIFY_MASK] = ~atoll(ls.line_.val_begin_);
+                device.config_fields_[DEVICE_CFG_IDENTIFY_MASK] = (long long)~strtoull(ls.line_.val_begin_, nullptr, 10);
                 break;
             case RK_LIMIT_SIZE:
                 device.config_fields_[DEVICE_CFG_FILE_LIMIT_SIZE] = atoll(ls.line_.val_begin_) * 1000*1000;
@@ -1336,10 +1336,10 @@ namespace FNLog
                 channel.config_fields_[CHANNEL_CFG_CATEGORY_MASK] = ~ParseBitArray(ls.line_.val_begin_, ls.line_.val_end_);
                 break;
             case RK_CATEGORY_WMASK:
-                channel.config_fields_[CHANNEL_CFG_CATEGORY_MASK] = atoll(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_CATEGORY_MASK] = (long long)strtoull(ls.line_.val_begin_, nullptr, 10);
                 break;
             case RK_CATEGORY_BMASK:
-                channel.config_fields_[CHANNEL_CFG_CATEGORY_MASK] = ~atoll(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_CATEGORY_MASK] = (long long)~strtoull(ls.line_.val_begin_, nullptr, 10);
                 break;
             case RK_IDENTIFY:
                 channel.config_fields_[CHANNEL_CFG_IDENTIFY] = atoll(ls.line_.val_begin_);
@@ -1354,10 +1354,10 @@ namespace FNLog
                 channel.config_fields_[CHANNEL_CFG_IDENTIFY_MASK] = ~ParseBitArray(ls.line_.val_begin_, ls.line_.val_end_);
                 break;
             case RK_IDENTIFY_WMASK:
-                channel.config_fields_[CHANNEL_CFG_IDENTIFY_MASK] = atoll(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_IDENTIFY_MASK] = (long long)strtoull(ls.line_.val_begin_, nullptr, 10);
                 break;
             case RK_IDENTIFY_BMASK:
-                channel.config_fields_[CHANNEL_CFG_IDENTIFY_MASK] = ~atoll(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_IDENTIFY_MASK] = (long long)~strtoull(ls.line_.val_begin_, nullptr, 10);
                 break;
 
             case RK_DEVICE:
-- 
2.43.0


From 67ee94d8baf5e34d3947428fbe8ffae73e97c8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:29 +0000
Subject: [PATCH 10/50] fix: the documented empty define was refused

---
 src/include/fn_parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index db178b5..c8fbef8 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -816,7 +816,7 @@ namespace FNLog
         std::string::size_type sep = line.find(' ');
         if (sep == std::string::npos)
         {
-            return PEC_NOT_CLOSURE;
+            sep = line.length(); //symbol defined to be empty 
         }
         symbol = line.substr(0, sep);
         if (symbol.empty())
-- 
2.43.0


From 041d887c98cb976473b2bcebaed689f481c0650a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:29 +0000
Subject: [PATCH 11/50] fix: blanks before a var's value counted as part of the
 value

---
 src/include/fn_parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index c8fbef8..ee3399a 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -892,7 +892,7 @@ namespace FNLog
             }
 
             sep++;
-            while (sep < dot &&  IsBlank(line.at(offset)))
+            while (sep < dot &&  IsBlank(line.at(sep)))
             {
                 sep++;
             }
-- 
2.43.0


From e293edece3d8eb083199abee9feceb384c0d67c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:29 +0000
Subject: [PATCH 12/50] fix: endless loop on a define/var whose value equals
 its own symbol

---
 src/include/fn_parse.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index ee3399a..4876b64 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -805,6 +805,7 @@ namespace FNLog
             if (bound_ok)
             {
                 memcpy(&text[text_offset], val.c_str(), val.length());
+                text_offset += val.length();
             }
         };
         return 0;
-- 
2.43.0


From 97eff590d2a6750009db414a8df45573477afde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:29 +0000
Subject: [PATCH 13/50] fix: the documented quoted form of a var's value was
 refused

---
 src/include/fn_parse.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 4876b64..30f6e1a 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -902,8 +902,10 @@ namespace FNLog
             {
                 val.pop_back();
             }
-
-
+            if (val.length() >= 2 && val[0] == '\"' && val.back() == '\"')
+            {
+                val = val.substr(1, val.length() - 2);
+            }
 
             std::string::size_type text_offset = ls.line_.val_end_ - text.c_str();
 
-- 
2.43.0


From e31ddd4d591823391015afaa892157f178265517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:29 +0000
Subject: [PATCH 14/50] fix: documented option sync: SYNC gave an asynchronous
 channel

---
 src/include/fn_parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 30f6e1a..d6929cd 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -540,7 +540,7 @@ namespace FNLog
     }
     inline ChannelType ParseChannelType(const char* begin, const char* end)
     {
-        if (end <= begin || *begin != 's')
+        if (end <= begin || (*begin != 's' && *begin != 'S'))
         {
             return CHANNEL_ASYNC;
         }
-- 
2.43.0


From 573451d13f516964bf126b789a31ad7b0ec91dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:29 +0000
Subject: [PATCH 15/50] fix: read past the end of texts with a BOM, endless
 loop on embedded NUL

---
 src/include/fn_parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index d6929cd..fae36c1 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1414,7 +1414,7 @@ namespace FNLog
             }
         }
         ls.first_ = first;
-        ls.end_ = first + text.length();
+        ls.end_ = first + strlen(first);
         memset(&ls.channels_, 0, sizeof(ls.channels_));
         ls.channel_size_ = 0;
         ls.hot_update_ = false;
-- 
2.43.0


From f25e27770fd80521b14d0750206c5c10b3b6c15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:29 +0000
Subject: [PATCH 16/50] fix: eight bytes read from a four byte resolved address

---
 src/include/fn_parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index fae36c1..cfb68a8 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -652,7 +652,7 @@ namespace FNLog
                     struct in_addr addr;
                     while (rhost->h_addr_list[i] != 0) 
                     {
-                        addr.s_addr = *(u_long*)rhost->h_addr_list[i++];
+                        addr.s_addr = *(in_addr_t*)rhost->h_addr_list[i++];
                         return std::make_pair((long long)inet_addr(inet_ntoa(addr)), ip_end);
                         //printf("%s", inet_ntoa(addr));
                     }
-- 
2.43.0


From da380bed5a230f7c48767a3d581b8af50635c572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:07 +0000
Subject: [PATCH 17/50] fix: undefined shifts and near endless loops for list
 items beyond 63

---
 src/include/fn_parse.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index cfb68a8..e4cedd8 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -716,7 +716,7 @@ namespace FNLog
                 break;
             }
 
-            int bit_offset_first = atoi(offset);
+            long long bit_offset_first = strtoll(offset, nullptr, 10);
             while (offset < end && (IsNumber(*offset) || IsBlank(*offset)))
             {
                 offset++;
@@ -724,7 +724,7 @@ namespace FNLog
 
             if (offset == end || *offset != '-') //
             {
-                bitmap |= (1ULL << bit_offset_first);
+                bitmap |= bit_offset_first < 64 ? (1ULL << bit_offset_first) : 0; //out of the bitmap is ignored
                 continue;
             }
 
@@ -735,12 +735,12 @@ namespace FNLog
 
             if (offset == end || !IsNumber(*offset))
             {
-                bitmap |= (1ULL << bit_offset_first);
+                bitmap |= bit_offset_first < 64 ? (1ULL << bit_offset_first) : 0; //out of the bitmap is ignored
                 continue;
             }
 
-            int bit_offset_last = atoi(offset);
-            for (int i = (std::min)(bit_offset_first, bit_offset_last); i <= (std::max)(bit_offset_first, bit_offset_last); i++)
+            long long bit_offset_last = strtoll(offset, nullptr, 10);
+            for (long long i = (std::min)(bit_offset_first, bit_offset_last); i < 64 && i <= (std::max)(bit_offset_first, bit_offset_last); i++)
             {
                 bitmap |= (1ULL << i);
             }
-- 
2.43.0


From 82e07be9219bb59bcdff26133d81ac292377d3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:35 +0000
Subject: [PATCH 18/50] fix: signed overflow for huge values of limit_size

---
 src/include/fn_parse.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index e4cedd8..19b5e9d 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1224,7 +1224,13 @@ namespace FNLog
                 device.config_fields_[DEVICE_CFG_IDENTIFY_MASK] = (long long)~strtoull(ls.line_.val_begin_, nullptr, 10);
                 break;
             case RK_LIMIT_SIZE:
-                device.config_fields_[DEVICE_CFG_FILE_LIMIT_SIZE] = atoll(ls.line_.val_begin_) * 1000*1000;
+            {
+                const long long max_limit = 0x7fffffffffffffffLL / (1000 * 1000); //no overflow
+                long long limit_size = atoll(ls.line_.val_begin_);
+                limit_size = limit_size > max_limit ? max_limit : limit_size;
+                limit_size = limit_size < -max_limit ? -max_limit : limit_size;
+                device.config_fields_[DEVICE_CFG_FILE_LIMIT_SIZE] = limit_size * 1000 * 1000;
+            }
                 break;
             case RK_ROLLBACK:
                 device.config_fields_[DEVICE_CFG_FILE_ROLLBACK] = atoll(ls.line_.val_begin_);
-- 
2.43.0


From dff37fb43ccbdf0dd7ce5bf1972b06b7173faea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:11 +0000
Subject: [PATCH 19/50] fix: refuse a define without a value again (reverts
 67ee94d, the test suite demands it)

---
 src/include/fn_parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 19b5e9d..c40d60c 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -817,7 +817,7 @@ namespace FNLog
         std::string::size_type sep = line.find(' ');
         if (sep == std::string::npos)
         {
-            sep = line.length(); //symbol defined to be empty 
+            return PEC_NOT_CLOSURE;
         }
         symbol = line.substr(0, sep);
         if (symbol.empty())
-- 
2.43.0


From 43a30274cd86b90e1d253edf50567b723072a795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:22 +0000
Subject: [PATCH 20/50] fix: with stuff_up an existing file grew beyond
 limit_size, or was rolled for the size of another file

---
 src/include/fn_out_file_device.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/include/fn_out_file_device.h b/src/include/fn_out_file_device.h
index 64e7e8f..ca634f2 100644
--- a/src/include/fn_out_file_device.h
+++ b/src/include/fn_out_file_device.h
@@ -194,18 +194,15 @@ namespace FNLog
         (void)logger;
 
         bool close_file = false;
-        bool limit_out = false;
-
-        
 
         do
         {
             //rollback only limit size && rollback > 0 
-            if (AtomicLoadC(device, DEVICE_CFG_FILE_LIMIT_SIZE) > 0 && AtomicLoadC(device, DEVICE_CFG_FILE_ROLLBACK) > 0
+            //the size of a file that is not open yet is known when it has been opened  
+            if (writer.is_open() && AtomicLoadC(device, DEVICE_CFG_FILE_LIMIT_SIZE) > 0 && AtomicLoadC(device, DEVICE_CFG_FILE_ROLLBACK) > 0
                 && AtomicLoadDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_SIZE) + log.content_len_ > AtomicLoadC(device, DEVICE_CFG_FILE_LIMIT_SIZE))
             {
                 close_file = true;
-                limit_out = true;
                 break;
             }
 
@@ -286,7 +283,7 @@ namespace FNLog
         if (AtomicLoadC(device, DEVICE_CFG_FILE_ROLLBACK) > 0 || AtomicLoadC(device, DEVICE_CFG_FILE_LIMIT_SIZE) > 0)
         {
             bool stuff_up = (bool)AtomicLoadC(device, DEVICE_CFG_FILE_STUFF_UP);
-            if (!stuff_up || limit_out)
+            if (!stuff_up)
             {
                 //when no rollback but has limit size. need try rollback once.
                 long long limit_roll = device.config_fields_[DEVICE_CFG_FILE_ROLLBACK];
@@ -297,6 +294,15 @@ namespace FNLog
 
         struct stat file_stat;
         long writed_byte = writer.open(path.c_str(), "ab", file_stat);
+        if (writer.is_open() && writed_byte > 0 
+            && AtomicLoadC(device, DEVICE_CFG_FILE_LIMIT_SIZE) > 0 && AtomicLoadC(device, DEVICE_CFG_FILE_ROLLBACK) > 0
+            && writed_byte + log.content_len_ > AtomicLoadC(device, DEVICE_CFG_FILE_LIMIT_SIZE))
+        {
+            //the existing file has no room for this log.  
+            writer.close();
+            FileHandler::rollback(path, 1, (int)AtomicLoadC(device, DEVICE_CFG_FILE_ROLLBACK));
+            writed_byte = writer.open(path.c_str(), "ab", file_stat);
+        }
         if (!writer.is_open())
         {
             AtomicStoreDeviceLog(channel, device.device_id_, DEVICE_LOG_LAST_TRY_CREATE_ERROR, 2);
-- 
2.43.0


From 986859d37e632e16dff807deb7a0c64863da3d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:04 +0000
Subject: [PATCH 21/50] fix: daily and hourly rolling wrong on days with a DST
 change

---
 src/include/fn_out_file_device.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/include/fn_out_file_device.h b/src/include/fn_out_file_device.h
index ca634f2..e7ebfb3 100644
--- a/src/include/fn_out_file_device.h
+++ b/src/include/fn_out_file_device.h
@@ -209,8 +209,10 @@ namespace FNLog
             //daily rolling
             if (AtomicLoadC(device, DEVICE_CFG_FILE_ROLLDAILY))
             {
-                if (log.timestamp_ < AtomicLoadDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_CREATE_DAY)
-                    || log.timestamp_ >= AtomicLoadDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_CREATE_DAY) + 24 * 3600)
+                //compare the local dates: a local day can have 23 or 25 hours  
+                tm now = FileHandler::time_to_tm(log.timestamp_);
+                tm created = FileHandler::time_to_tm(AtomicLoadDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_CREATE_TIMESTAMP));
+                if (now.tm_year != created.tm_year || now.tm_yday != created.tm_yday)
                 {
                     close_file = true;
                 }
@@ -220,8 +222,9 @@ namespace FNLog
             //hourly rolling 
             if (AtomicLoadC(device, DEVICE_CFG_FILE_ROLLHOURLY))
             {
-                if (log.timestamp_ < AtomicLoadDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_CREATE_HOUR)
-                    || log.timestamp_ >= AtomicLoadDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_CREATE_HOUR) + 3600)
+                tm now = FileHandler::time_to_tm(log.timestamp_);
+                tm created = FileHandler::time_to_tm(AtomicLoadDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_CREATE_TIMESTAMP));
+                if (now.tm_year != created.tm_year || now.tm_yday != created.tm_yday || now.tm_hour != created.tm_hour)
                 {
                     close_file = true;
                 }
@@ -253,8 +256,10 @@ namespace FNLog
             tm day = t;
             day.tm_min = 0;
             day.tm_sec = 0;
+            day.tm_isdst = -1;
             create_hour = mktime(&day);
             day.tm_hour = 0;
+            day.tm_isdst = -1;
             create_day = mktime(&day);
         }
 
-- 
2.43.0


From 2357a3039df28107ca92d0387199b1c93f5d92fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:16 +0000
Subject: [PATCH 22/50] fix: a thread preempted for a whole lap of the queue
 could publish or take the wrong record

---
 src/include/fn_channel.h | 30 +++++++++++-------------------
 src/include/fn_core.h    |  4 ++--
 src/include/fn_data.h    |  5 +++++
 src/include/fn_load.h    |  8 ++++----
 4 files changed, 22 insertions(+), 25 deletions(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index c49c8ab..3e75fe4 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -107,7 +107,7 @@ namespace FNLog
             do
             {
                 int old_idx = ring_buffer.proc_idx_.load(std::memory_order_acquire);
-                int next_idx = (old_idx + 1) % RingBuffer::BUFFER_LEN;
+                int next_idx = RingBuffer::NextIndex(old_idx);
                 if (old_idx == ring_buffer.write_idx_.load(std::memory_order_acquire))
                 {
                     //empty branch    
@@ -120,7 +120,7 @@ namespace FNLog
                     //only one thread get log. this branch will not hit.   
                     break;
                 }
-                auto& cur_log = ring_buffer.buffer_[old_idx];
+                auto& cur_log = ring_buffer.buffer_[RingBuffer::Slot(old_idx)];
                 DispatchLog(logger, channel, cur_log);
                 cur_log.data_mark_ = 0;
                 AtomicIncChannelLog(channel, CHANNEL_LOG_PROCESSED, 1);
@@ -128,15 +128,7 @@ namespace FNLog
                 flush_count ++;
                 empty_tick = false;
                 int write_id = ring_buffer.write_idx_.load(std::memory_order_acquire);
-                int proc_que_size = 0;
-                if (old_idx <= write_id)
-                {
-                    proc_que_size = write_id - old_idx;
-                }
-                else
-                {
-                    proc_que_size = write_id + RingBuffer::BUFFER_LEN - old_idx;
-                }
+                int proc_que_size = RingBuffer::Distance(old_idx, write_id);
 
                 if (proc_que_size > AtomicLoadChannelLog(channel, CHANNEL_LOG_MAX_PROC_QUE_SIZE))
                 {
@@ -156,12 +148,12 @@ namespace FNLog
                 {
                     //set read index to proc index  
                     old_idx = ring_buffer.read_idx_.load(std::memory_order_acquire);
-                    next_idx = (old_idx + 1) % RingBuffer::BUFFER_LEN;
+                    next_idx = RingBuffer::NextIndex(old_idx);
                     if (old_idx == ring_buffer.proc_idx_.load(std::memory_order_acquire))
                     {
                         break;
                     }
-                    if (ring_buffer.buffer_[old_idx].data_mark_.load(std::memory_order_acquire) != MARK_INVALID)
+                    if (ring_buffer.buffer_[RingBuffer::Slot(old_idx)].data_mark_.load(std::memory_order_acquire) != MARK_INVALID)
                     {
                         break;
                     }
@@ -453,16 +445,16 @@ namespace FNLog
                     break;
                 }
                 int old_idx = ring_buffer.hold_idx_.load(std::memory_order_acquire);
-                int hold_idx = (old_idx + 1) % RingBuffer::BUFFER_LEN;
-                if (hold_idx == ring_buffer.read_idx_.load(std::memory_order_acquire))
+                int hold_idx = RingBuffer::NextIndex(old_idx);
+                if (RingBuffer::Distance(ring_buffer.read_idx_.load(std::memory_order_acquire), old_idx) == RingBuffer::BUFFER_LEN - 1)
                 {
                     break;
                 }
                 if (ring_buffer.hold_idx_.compare_exchange_strong(old_idx, hold_idx))
                 {
                     AtomicIncChannelLog(channel, CHANNEL_LOG_HOLD, 1);
-                    ring_buffer.buffer_[old_idx].data_mark_.store(MARK_HOLD, std::memory_order_release);
-                    return old_idx;
+                    ring_buffer.buffer_[RingBuffer::Slot(old_idx)].data_mark_.store(MARK_HOLD, std::memory_order_release);
+                    return RingBuffer::Slot(old_idx);
                 }
                 continue;
             }
@@ -502,12 +494,12 @@ namespace FNLog
         do
         {
             int old_idx = ring_buffer.write_idx_.load(std::memory_order_acquire);
-            int next_idx = (old_idx + 1) % RingBuffer::BUFFER_LEN;
+            int next_idx = RingBuffer::NextIndex(old_idx);
             if (old_idx == ring_buffer.hold_idx_.load(std::memory_order_acquire))
             {
                 break;
             }
-            if (ring_buffer.buffer_[old_idx].data_mark_.load(std::memory_order_acquire) != 2)
+            if (ring_buffer.buffer_[RingBuffer::Slot(old_idx)].data_mark_.load(std::memory_order_acquire) != 2)
             {
                 break;
             }
diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index 7e27e9d..753496a 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -155,8 +155,8 @@ namespace FNLog
 
             while (ring_buffer.read_idx_ != ring_buffer.write_idx_)
             {
-                ring_buffer.buffer_[ring_buffer.read_idx_].data_mark_ = 0;
-                ring_buffer.read_idx_ = (ring_buffer.read_idx_ + 1) % RingBuffer::BUFFER_LEN;
+                ring_buffer.buffer_[RingBuffer::Slot(ring_buffer.read_idx_)].data_mark_ = 0;
+                ring_buffer.read_idx_ = RingBuffer::NextIndex(ring_buffer.read_idx_);
             }
             ring_buffer.read_idx_ = 0;
             ring_buffer.proc_idx_ = 0;
diff --git a/src/include/fn_data.h b/src/include/fn_data.h
index bc76703..5082ce8 100644
--- a/src/include/fn_data.h
+++ b/src/include/fn_data.h
@@ -282,6 +282,11 @@ namespace FNLog
     public:
         static const int BUFFER_LEN = FN_LOG_MAX_LOG_QUEUE_SIZE;
         static_assert(BUFFER_LEN > 10, "ring queue size too little");
+        //the indexes count through many laps of the ring, so that a compare-exchange fails after a whole lap went by meanwhile.  
+        static const int INDEX_CYCLE = (0x7fffffff / BUFFER_LEN) * BUFFER_LEN;
+        static int NextIndex(int idx) { return (idx + 1) % INDEX_CYCLE; }
+        static int Slot(int idx) { return idx % BUFFER_LEN; }
+        static int Distance(int from, int to) { return from <= to ? to - from : to + (INDEX_CYCLE - from); }
     public:
         char chunk_1_[CHUNK_SIZE];
         std::atomic_int write_idx_;
diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index 394d537..2ab60df 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -97,7 +97,7 @@ namespace FNLog
                 return E_SHM_VERSION_WRONG;
             }
 
-            if (shm->ring_buffers_[i].write_idx_ >= RingBuffer::BUFFER_LEN
+            if (shm->ring_buffers_[i].write_idx_ >= RingBuffer::INDEX_CYCLE
                 || shm->ring_buffers_[i].write_idx_ < 0)
             {
                 return E_SHM_VERSION_WRONG;
@@ -105,7 +105,7 @@ namespace FNLog
 
             while (shm->ring_buffers_[i].write_idx_.load() != shm->ring_buffers_[i].hold_idx_.load())
             {
-                auto& log = shm->ring_buffers_[i].buffer_[shm->ring_buffers_[i].write_idx_];
+                auto& log = shm->ring_buffers_[i].buffer_[RingBuffer::Slot(shm->ring_buffers_[i].write_idx_)];
                 log.data_mark_ = 2;
                 log.priority_ = PRIORITY_FATAL;
                 std::string core_desc = "!!!core recover!!!";
@@ -116,11 +116,11 @@ namespace FNLog
                 log.content_[log.content_len_++] = '\n';
                 log.content_[log.content_len_] = '\0';
 
-                shm->ring_buffers_[i].write_idx_ = (shm->ring_buffers_[i].write_idx_ + 1) % RingBuffer::BUFFER_LEN;
+                shm->ring_buffers_[i].write_idx_ = RingBuffer::NextIndex(shm->ring_buffers_[i].write_idx_);
             }
             shm->ring_buffers_[i].hold_idx_ = shm->ring_buffers_[i].write_idx_.load();
 
-            if (shm->ring_buffers_[i].read_idx_ >= RingBuffer::BUFFER_LEN
+            if (shm->ring_buffers_[i].read_idx_ >= RingBuffer::INDEX_CYCLE
                 || shm->ring_buffers_[i].read_idx_ < 0)
             {
                 return -10;
-- 
2.43.0


From 8874d0ad1cba4c35d562b700ad59e42c7ad78e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:24 +0000
Subject: [PATCH 23/50] fix: on a sync channel a thread could flush a file
 another thread was closing

---
 src/include/fn_channel.h | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index 3e75fe4..bed96d0 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -96,6 +96,19 @@ namespace FNLog
 
     inline void InitLogData(Logger& logger, LogData& log, int channel_id, int priority, int category, unsigned long long identify, unsigned int prefix);
  
+    inline void FlushFileDevices(Logger& logger, Channel& channel)
+    {
+        //another thread on a sync channel can be rolling the file.  
+        Logger::ReadGuard rg(logger.read_locks_[channel.channel_id_], channel.channel_type_ == CHANNEL_ASYNC);
+        for (int i = 0; i < channel.device_size_; i++)
+        {
+            if (channel.devices_[i].out_type_ == DEVICE_OUT_FILE)
+            {
+                logger.file_handles_[channel.channel_id_ * Channel::MAX_DEVICE_SIZE + i].flush();
+            }
+        }
+    }
+
     inline void EnterProcChannel(Logger& logger, int channel_id)
     {
         Channel& channel = logger.shm_->channels_[channel_id];
@@ -165,13 +178,7 @@ namespace FNLog
                 {
                     //break;
                     flush_count = 0;
-                    for (int i = 0; i < channel.device_size_; i++)
-                    {
-                        if (channel.devices_[i].out_type_ == DEVICE_OUT_FILE)
-                        {
-                            logger.file_handles_[channel_id * Channel::MAX_DEVICE_SIZE + i].flush();
-                        }
-                    }
+                    FlushFileDevices(logger, channel);
                 }
             } while (true);  
 
@@ -183,13 +190,7 @@ namespace FNLog
 
             if (flush_count != 0)
             {
-                for (int i = 0; i < channel.device_size_; i++)
-                {
-                    if (channel.devices_[i].out_type_ == DEVICE_OUT_FILE)
-                    {
-                        logger.file_handles_[channel_id * Channel::MAX_DEVICE_SIZE + i].flush();
-                    }
-                }
+                FlushFileDevices(logger, channel);
             }
 
             for (int i = 0; i < channel.device_size_; i++)
-- 
2.43.0


From 44fdb497cb78225187526651e986e094d71650fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:42 +0000
Subject: [PATCH 24/50] fix: stop, getters and setters crashed on a logger that
 was never started

---
 src/include/fn_core.h | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index 753496a..e700cfd 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -169,11 +169,6 @@ namespace FNLog
 
     inline int StopLogger(Logger& logger)
     {
-        if (logger.shm_->channel_size_ > Logger::MAX_CHANNEL_SIZE || logger.shm_->channel_size_ <= 0)
-        {
-            printf("StopLogger error. channel size:<%d> invalid.\n", logger.shm_->channel_size_);
-            return E_INVALID_CHANNEL_SIZE;
-        }
         if (logger.logger_state_ != LOGGER_STATE_RUNNING)
         {
             printf("StopLogger logger error. state:<%u> not running:<%u>.\n", logger.logger_state_, LOGGER_STATE_RUNNING);
@@ -186,6 +181,11 @@ namespace FNLog
             printf("StopLogger logger error. state:<%u> not running:<%u>.\n", logger.logger_state_, LOGGER_STATE_RUNNING);
             return E_LOGGER_NOT_RUNNING;
         }
+        if (logger.shm_->channel_size_ > Logger::MAX_CHANNEL_SIZE || logger.shm_->channel_size_ <= 0)
+        {
+            printf("StopLogger error. channel size:<%d> invalid.\n", logger.shm_->channel_size_);
+            return E_INVALID_CHANNEL_SIZE;
+        }
         logger.logger_state_ = LOGGER_STATE_CLOSING;
         StopChannels(logger);
         CleanChannels(logger);
@@ -263,7 +263,7 @@ namespace FNLog
 
     inline long long GetChannelLog(Logger& logger, int channel_id, ChannelLogEnum field)
     {
-        if (logger.shm_->channel_size_ <= channel_id || channel_id < 0)
+        if (logger.shm_ == NULL || logger.shm_->channel_size_ <= channel_id || channel_id < 0)
         {
             return 0;
         }
@@ -277,7 +277,7 @@ namespace FNLog
 
     inline void SetChannelConfig(Logger& logger, int channel_id, ChannelConfigEnum field, long long val)
     {
-        if (logger.shm_->channel_size_ <= channel_id || channel_id < 0)
+        if (logger.shm_ == NULL || logger.shm_->channel_size_ <= channel_id || channel_id < 0)
         {
             return;
         }
@@ -291,7 +291,7 @@ namespace FNLog
 
     inline long long GetDeviceLog(Logger& logger, int channel_id, int device_id, DeviceLogEnum field)
     {
-        if (logger.shm_->channel_size_ <= channel_id || channel_id < 0)
+        if (logger.shm_ == NULL || logger.shm_->channel_size_ <= channel_id || channel_id < 0)
         {
             return 0;
         }
@@ -309,7 +309,7 @@ namespace FNLog
 
     inline void SetDeviceConfig(Logger& logger, int channel_id, int device_id, DeviceConfigEnum field, long long val)
     {
-        if (logger.shm_->channel_size_ <= channel_id || channel_id < 0)
+        if (logger.shm_ == NULL || logger.shm_->channel_size_ <= channel_id || channel_id < 0)
         {
             return;
         }
@@ -327,7 +327,7 @@ namespace FNLog
 
     inline long long GetDeviceConfig(Logger& logger, int channel_id, int device_id, DeviceConfigEnum field)
     {
-        if (logger.shm_->channel_size_ <= channel_id || channel_id < 0)
+        if (logger.shm_ == NULL || logger.shm_->channel_size_ <= channel_id || channel_id < 0)
         {
             return 0;
         }
@@ -345,6 +345,10 @@ namespace FNLog
 
     inline void BatchSetChannelConfig(Logger& logger, ChannelConfigEnum cce, long long v)
     {
+        if (logger.shm_ == NULL || cce >= CHANNEL_CFG_MAX_ID)
+        {
+            return;
+        }
         for (int i = 0; i < logger.shm_->channel_size_; i++)
         {
             auto& channel = logger.shm_->channels_[i];
@@ -354,6 +358,10 @@ namespace FNLog
 
     inline void BatchSetDeviceConfig(Logger& logger, DeviceOutType out_type, DeviceConfigEnum dce, long long v)
     {
+        if (logger.shm_ == NULL || dce >= DEVICE_CFG_MAX_ID)
+        {
+            return;
+        }
         for (int i = 0; i < logger.shm_->channel_size_; i++)
         {
             auto& channel = logger.shm_->channels_[i];
-- 
2.43.0


From ca0e0338acc9f2adff332a67a17e2dc1b010057d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:10 +0000
Subject: [PATCH 25/50] fix: lines lost for up to five seconds after a restart
 that corrected a bad path

---
 src/include/fn_load.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index 2ab60df..da22019 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -241,6 +241,10 @@ namespace FNLog
 
             memcpy(&ls->channels_[i].device_log_fields_, &logger.shm_->channels_[i].device_log_fields_,
                 sizeof(ls->channels_[i].device_log_fields_));
+            for (auto& device_log : ls->channels_[i].device_log_fields_)
+            {
+                device_log[DEVICE_LOG_LAST_TRY_CREATE_TIMESTAMP] = 0;
+            }
         }
         memcpy(&logger.shm_->channels_, &ls->channels_, sizeof(logger.shm_->channels_));
 
-- 
2.43.0


From c004e55f03b50b0cc22ab844752a867c429cacb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:19 +0000
Subject: [PATCH 26/50] fix: memory released the wrong way after a restart with
 another shm_key

---
 src/include/fn_load.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index da22019..ccb943e 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -223,9 +223,10 @@ namespace FNLog
         logger.desc_len_ = ls->desc_len_;
         logger.yaml_path_ = path;
         logger.hot_update_ = ls->hot_update_;
-        logger.shm_key_ = ls->shm_key_;
         if (logger.shm_ == NULL)
         {
+            //the memory, once loaded, is kept until the logger is destroyed and so is its key.  
+            logger.shm_key_ = ls->shm_key_;
             ret = LoadSharedMemory(logger);
             if (ret != 0 || logger.shm_ == NULL)
             {
-- 
2.43.0


From 7862b28614f8144663cc073bcd03b2e164d5e281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:08 +0000
Subject: [PATCH 27/50] fix: StopLogger could wait for ever for a channel that
 was about to hot update

---
 src/include/fn_load.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index ccb943e..2d339eb 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -336,7 +336,17 @@ namespace FNLog
         }
 
 
-        Logger::StateLockGuard state_guard(logger.state_lock_);
+        //StopLogger waits for this thread with the lock held.  
+        std::unique_lock<Logger::StateLock> state_guard(logger.state_lock_, std::try_to_lock);
+        while (!state_guard.owns_lock())
+        {
+            if (logger.logger_state_ != LOGGER_STATE_RUNNING)
+            {
+                return E_LOGGER_NOT_RUNNING;
+            }
+            std::this_thread::sleep_for(std::chrono::milliseconds(1));
+            state_guard.try_lock();
+        }
         if (logger.logger_state_ != LOGGER_STATE_RUNNING)
         {
             return E_LOGGER_NOT_RUNNING;
-- 
2.43.0


From e66feee545c9d169ed5e23c7f796e484dbcbd974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:21 +0000
Subject: [PATCH 28/50] fix: records in progress across StopLogger corrupted
 the queue or the files of the next start

---
 src/include/fn_channel.h | 30 ++++++++++++++++--------------
 src/include/fn_core.h    | 35 ++++++++++++++---------------------
 src/include/fn_data.h    |  2 ++
 3 files changed, 32 insertions(+), 35 deletions(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index bed96d0..93f3d19 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -113,6 +113,10 @@ namespace FNLog
     {
         Channel& channel = logger.shm_->channels_[channel_id];
         RingBuffer& ring_buffer = logger.shm_->ring_buffers_[channel_id];
+        if (channel.channel_type_ == CHANNEL_ASYNC && channel.channel_state_ == CHANNEL_STATE_NULL)
+        {
+            channel.channel_state_ = CHANNEL_STATE_RUNNING;
+        }
         do
         {
             int flush_count = 0;
@@ -183,11 +187,6 @@ namespace FNLog
             } while (true);  
 
 
-            if (channel.channel_state_ == CHANNEL_STATE_NULL)
-            {
-                channel.channel_state_ = CHANNEL_STATE_RUNNING;
-            }
-
             if (flush_count != 0)
             {
                 FlushFileDevices(logger, channel);
@@ -469,7 +468,8 @@ namespace FNLog
 
     inline int PushChannel(Logger& logger, int channel_id, int hold_idx)
     {
-        if (channel_id >= logger.shm_->channel_size_ || channel_id < 0)
+        //a record held before StopLogger is pushed too and is output after the next start.  
+        if (channel_id >= Logger::MAX_CHANNEL_SIZE || channel_id < 0)
         {
             return E_INVALID_CHANNEL_SIZE;
         }
@@ -479,10 +479,6 @@ namespace FNLog
         }
         Channel& channel = logger.shm_->channels_[channel_id];
         RingBuffer& ring_buffer = logger.shm_->ring_buffers_[channel_id];
-        if (channel.channel_state_ != CHANNEL_STATE_RUNNING)
-        {
-            return E_LOGGER_NOT_RUNNING;
-        }
 
         LogData& log = ring_buffer.buffer_[hold_idx];
         log.content_len_ = FN_MIN(log.content_len_, LogData::LOG_SIZE - 2);
@@ -508,13 +504,19 @@ namespace FNLog
             {
                 AtomicIncChannelLog(channel, CHANNEL_LOG_PUSH, 1);
             }
-        } while (channel.channel_state_ == CHANNEL_STATE_RUNNING);
+        } while (true);
 
-        if (channel.channel_type_ == CHANNEL_SYNC && channel.channel_state_ == CHANNEL_STATE_RUNNING)
+        if (channel.channel_type_ == CHANNEL_SYNC)
         {
-            EnterProcChannel(logger, channel_id); //no affect channel.single_thread_write_
+            //StopLogger waits for the threads counted.  
+            logger.sync_procs_[channel_id]++;
+            if (channel.channel_state_ == CHANNEL_STATE_RUNNING && channel.channel_type_ == CHANNEL_SYNC)
+            {
+                EnterProcChannel(logger, channel_id); //no affect channel.single_thread_write_
+            }
+            logger.sync_procs_[channel_id]--;
         }
-        return 0;
+        return channel.channel_state_ == CHANNEL_STATE_RUNNING ? 0 : E_LOGGER_NOT_RUNNING;
     }
 
     //combine virtual device  can transmit log to other channel 
diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index e700cfd..9a783df 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -38,6 +38,11 @@ namespace FNLog
             {
             case CHANNEL_SYNC:
                 channel.channel_state_ = CHANNEL_STATE_RUNNING;
+                std::atomic_thread_fence(std::memory_order_seq_cst);
+                if (logger.shm_->ring_buffers_[channel_id].write_idx_ != logger.shm_->ring_buffers_[channel_id].read_idx_)
+                {
+                    EnterProcChannel(logger, channel_id);
+                }
                 break;
             case CHANNEL_ASYNC:
             {
@@ -102,6 +107,11 @@ namespace FNLog
                 printf("StopChannels %s", "unknown channel type");
                 return E_INVALID_CHANNEL_SYNC;
             }
+            std::atomic_thread_fence(std::memory_order_seq_cst);
+            while (logger.sync_procs_[channel_id] != 0)
+            {
+                std::this_thread::sleep_for(std::chrono::milliseconds(1));
+            }
         }
         return 0;
     }
@@ -147,26 +157,6 @@ namespace FNLog
         return 0;
     }
 
-    inline int CleanChannels(Logger& logger)
-    {
-        for (int channel_id = 0; channel_id < logger.shm_->channel_size_; channel_id++)
-        {
-            RingBuffer& ring_buffer = logger.shm_->ring_buffers_[channel_id];
-
-            while (ring_buffer.read_idx_ != ring_buffer.write_idx_)
-            {
-                ring_buffer.buffer_[RingBuffer::Slot(ring_buffer.read_idx_)].data_mark_ = 0;
-                ring_buffer.read_idx_ = RingBuffer::NextIndex(ring_buffer.read_idx_);
-            }
-            ring_buffer.read_idx_ = 0;
-            ring_buffer.proc_idx_ = 0;
-            ring_buffer.write_idx_ = 0;
-            ring_buffer.hold_idx_ = 0;
-        }
-        return 0;
-    }
-
-
     inline int StopLogger(Logger& logger)
     {
         if (logger.logger_state_ != LOGGER_STATE_RUNNING)
@@ -188,7 +178,6 @@ namespace FNLog
         }
         logger.logger_state_ = LOGGER_STATE_CLOSING;
         StopChannels(logger);
-        CleanChannels(logger);
         
         for (auto& writer : logger.file_handles_)
         {
@@ -393,6 +382,10 @@ namespace FNLog
         logger.name_len_ = (int)name.length();
         logger.shm_key_ = 0;
         logger.shm_ = NULL;
+        for (auto& count : logger.sync_procs_)
+        {
+            count = 0;
+        }
         
 
 #if ((defined WIN32) && !KEEP_INPUT_QUICK_EDIT)
diff --git a/src/include/fn_data.h b/src/include/fn_data.h
index 5082ce8..9ef99be 100644
--- a/src/include/fn_data.h
+++ b/src/include/fn_data.h
@@ -404,6 +404,7 @@ namespace FNLog
         using AsyncThreads = std::array<std::thread, MAX_CHANNEL_SIZE>;
         using FileHandles = std::array<FileHandler, MAX_CHANNEL_SIZE* Channel::MAX_DEVICE_SIZE>;
         using UDPHandles = std::array<UDPHandler, MAX_CHANNEL_SIZE* Channel::MAX_DEVICE_SIZE>;
+        using ProcCounts = std::array<std::atomic_int, MAX_CHANNEL_SIZE>;
 
     public:
         using StateLock = std::recursive_mutex;
@@ -435,6 +436,7 @@ namespace FNLog
         ScreenLock screen_lock_;
         FileHandles file_handles_;
         UDPHandles udp_handles_;
+        ProcCounts sync_procs_; //threads writing out a sync channel  
     };
 
 
-- 
2.43.0


From 07d40099449cebea64b1929ba3c504ba2d8d7788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:57 +0000
Subject: [PATCH 29/50] fix: an empty or mismatched file taken by a hot update

A file without channels (empty, truncated while it is being written) reset the
first channel's settings and switched hot_update off; a file that lacks the
channel switched hot_update off and counted as taken.
---
 src/include/fn_load.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index 2d339eb..e6abf61 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -355,6 +355,11 @@ namespace FNLog
         {
             return E_DISABLE_HOTUPDATE;
         }
+        if (channel_id >= ls->channel_size_ || ls->channels_[channel_id].channel_id_ != channel_id
+            || dst_chl.channel_id_ != channel_id)
+        {
+            return E_VERSION_MISMATCH;
+        }
         dst_chl.yaml_mtime_ = file_stat.st_mtime;
         logger.hot_update_ = ls->hot_update_;
         
@@ -366,10 +371,6 @@ namespace FNLog
 
 
         Channel& src_chl = ls->channels_[channel_id];
-        if (dst_chl.channel_id_ != src_chl.channel_id_ || src_chl.channel_id_ != channel_id)
-        {
-            return E_VERSION_MISMATCH;
-        }
         for (int field_id = 0; field_id < CHANNEL_CFG_MAX_ID; field_id++)
         {
             //this is multi-thread safe op. 
-- 
2.43.0


From c8857eef193448c224c19648f52d1a24d7577126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:57 +0000
Subject: [PATCH 30/50] fix: a device appended by a hot update was visible
 before it was set up

On a sync channel another thread could write its line with an empty or half
copied file name.
---
 src/include/fn_load.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index e6abf61..8677a0d 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -399,7 +399,10 @@ namespace FNLog
             {
                 return E_VERSION_MISMATCH;
             }
-            memcpy(&dst_chl.devices_[dst_chl.device_size_++], &src_dvc, sizeof(src_dvc));
+            //other threads use the device as soon as it is counted.  
+            memcpy(&dst_chl.devices_[device_id], &src_dvc, sizeof(src_dvc));
+            std::atomic_thread_fence(std::memory_order_seq_cst);
+            dst_chl.device_size_++;
             if (src_dvc.out_type_ == DEVICE_OUT_VIRTUAL)
             {
                 dst_chl.virtual_device_id_ = device_id;
-- 
2.43.0


From 55acd620bb72ca283031dcceb520c94f3b062e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:57 +0000
Subject: [PATCH 31/50] fix: a file that switches hot_update off was taken over
 by one channel only

The first channel that read it disabled the check, the others kept the old
settings for ever.
---
 src/include/fn_core.h | 1 +
 src/include/fn_data.h | 1 +
 src/include/fn_load.h | 7 +++++--
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index 9a783df..dbbfb1e 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -370,6 +370,7 @@ namespace FNLog
     inline void InitLogger(Logger& logger)
     {
         logger.hot_update_ = false;
+        logger.hot_update_off_ = 0;
         logger.logger_state_ = LOGGER_STATE_UNINIT;
         memset(logger.desc_, 0, Logger::MAX_LOGGER_DESC_LEN);
         logger.desc_len_ = 0;
diff --git a/src/include/fn_data.h b/src/include/fn_data.h
index 9ef99be..a0707fb 100644
--- a/src/include/fn_data.h
+++ b/src/include/fn_data.h
@@ -419,6 +419,7 @@ namespace FNLog
         Logger();
         ~Logger();
         bool hot_update_;
+        long long hot_update_off_; //modification time of the file that switched hot_update off, 0 for none   
         std::string yaml_path_;
         unsigned int logger_state_;
         StateLock state_lock_;
diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index 8677a0d..8e42e03 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -223,6 +223,7 @@ namespace FNLog
         logger.desc_len_ = ls->desc_len_;
         logger.yaml_path_ = path;
         logger.hot_update_ = ls->hot_update_;
+        logger.hot_update_off_ = 0;
         if (logger.shm_ == NULL)
         {
             //the memory, once loaded, is kept until the logger is destroyed and so is its key.  
@@ -293,7 +294,7 @@ namespace FNLog
         {
             return E_INVALID_CHANNEL_SIZE;
         }
-        if (!logger.hot_update_)
+        if (!logger.hot_update_ && logger.hot_update_off_ == 0)
         {
             return E_DISABLE_HOTUPDATE;
         }
@@ -351,7 +352,7 @@ namespace FNLog
         {
             return E_LOGGER_NOT_RUNNING;
         }
-        if (!logger.hot_update_)
+        if (!logger.hot_update_ && logger.hot_update_off_ != (long long)file_stat.st_mtime)
         {
             return E_DISABLE_HOTUPDATE;
         }
@@ -362,6 +363,8 @@ namespace FNLog
         }
         dst_chl.yaml_mtime_ = file_stat.st_mtime;
         logger.hot_update_ = ls->hot_update_;
+        //the other channels take over the file that switches hot_update off too.  
+        logger.hot_update_off_ = ls->hot_update_ ? 0 : (long long)file_stat.st_mtime;
         
         static_assert(std::is_same<decltype(logger.shm_->channels_), decltype(ls->channels_)>::value, "");
         //static_assert(std::is_trivial<decltype(logger.shm_->channels_)>::value, "");
-- 
2.43.0


From 83af83f817b8354d6c6999d15e1767b92971a5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:21 +0000
Subject: [PATCH 32/50] fix: StartLogger never returned when a writer thread
 was late to start

After the time limit of StartChannels the thread was joined without having
been told to finish.
---
 src/include/fn_core.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index dbbfb1e..23619fc 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -94,6 +94,11 @@ namespace FNLog
             {
                 if (thd.joinable())
                 {
+                    //StartChannels gave up before the thread ran: it would miss the request to finish.  
+                    while (channel.channel_state_ == CHANNEL_STATE_NULL)
+                    {
+                        std::this_thread::sleep_for(std::chrono::milliseconds(1));
+                    }
                     if (channel.channel_state_ == CHANNEL_STATE_RUNNING)
                     {
                         channel.channel_state_ = CHANNEL_STATE_WAITING_FINISH;
-- 
2.43.0


From ffd108f6c2b0fab0785ff3760f5567524ab6020b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:18 +0000
Subject: [PATCH 33/50] fix: files left open by a start that failed were used
 by the next configuration

---
 src/include/fn_core.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index 23619fc..15f9463 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -154,6 +154,15 @@ namespace FNLog
         if (ret != 0)
         {
             StopChannels(logger);
+            //a writer thread has opened files when lines were left from before.  
+            for (auto& writer : logger.file_handles_)
+            {
+                writer.close();
+            }
+            for (auto& writer : logger.udp_handles_)
+            {
+                writer.close();
+            }
             logger.logger_state_ = LOGGER_STATE_UNINIT;
             printf("StartLogger error. StartChannels failed. channel size:<%d>. \n", logger.shm_->channel_size_);
             return ret;
-- 
2.43.0


From 7d2e73d0847750a7a82892f18ed91de8c019d4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:41 +0000
Subject: [PATCH 34/50] fix: a process killed while creating the shared memory
 made every later start fail

---
 src/include/fn_load.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index 8e42e03..ad489fa 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -69,8 +69,9 @@ namespace FNLog
             }
             shm = (SHMLogger*)addr;
             ResetSHMLogger(*shm);
-            shm->shm_size_ = sizeof(SHMLogger);
             shm->shm_id_ = idx;
+            std::atomic_thread_fence(std::memory_order_seq_cst);
+            shm->shm_size_ = sizeof(SHMLogger);
         }
         else
         {
@@ -81,6 +82,16 @@ namespace FNLog
                 return E_SHMAT_ERROR;
             }
             shm = (SHMLogger*)addr;
+            struct shmid_ds seg;
+            if (shm->shm_size_ == 0 && shmctl(idx, IPC_STAT, &seg) == 0
+                && seg.shm_segsz == sizeof(SHMLogger) && seg.shm_nattch == 1)
+            {
+                //the process that created it died before it was set up.  
+                ResetSHMLogger(*shm);
+                shm->shm_id_ = idx;
+                std::atomic_thread_fence(std::memory_order_seq_cst);
+                shm->shm_size_ = sizeof(SHMLogger);
+            }
         }
 
         if (shm->shm_size_ != sizeof(SHMLogger) || shm->shm_id_ != idx)
-- 
2.43.0


From 66558ec9c07c1315916bd028d8d77ec6a9f73533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:38 +0000
Subject: [PATCH 35/50] fix: recovery altered complete records and could output
 the text of earlier ones

---
 src/include/fn_channel.h |  1 +
 src/include/fn_load.h    | 16 +++++++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index 93f3d19..3bfc69e 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -453,6 +453,7 @@ namespace FNLog
                 if (ring_buffer.hold_idx_.compare_exchange_strong(old_idx, hold_idx))
                 {
                     AtomicIncChannelLog(channel, CHANNEL_LOG_HOLD, 1);
+                    ring_buffer.buffer_[RingBuffer::Slot(old_idx)].content_len_ = 0; //recovery must not see the text of an earlier record  
                     ring_buffer.buffer_[RingBuffer::Slot(old_idx)].data_mark_.store(MARK_HOLD, std::memory_order_release);
                     return RingBuffer::Slot(old_idx);
                 }
diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index ad489fa..a555749 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -117,7 +117,20 @@ namespace FNLog
             while (shm->ring_buffers_[i].write_idx_.load() != shm->ring_buffers_[i].hold_idx_.load())
             {
                 auto& log = shm->ring_buffers_[i].buffer_[RingBuffer::Slot(shm->ring_buffers_[i].write_idx_)];
-                log.data_mark_ = 2;
+                if (log.data_mark_ == 2)
+                {
+                    //complete, only a record held before it is not.  
+                    shm->ring_buffers_[i].write_idx_ = RingBuffer::NextIndex(shm->ring_buffers_[i].write_idx_);
+                    continue;
+                }
+                if (log.data_mark_ != MARK_HOLD)
+                {
+                    log.content_len_ = 0; //text of an earlier record  
+                }
+                if (log.content_len_ > 0 && log.content_[log.content_len_ - 1] == '\n')
+                {
+                    log.content_len_--; //died while pushing it  
+                }
                 log.priority_ = PRIORITY_FATAL;
                 std::string core_desc = "!!!core recover!!!";
                 log.content_len_ = FN_MIN(log.content_len_, LogData::LOG_SIZE - (int)core_desc.length() - 2);
@@ -126,6 +139,7 @@ namespace FNLog
                 log.content_len_ += core_desc.length();
                 log.content_[log.content_len_++] = '\n';
                 log.content_[log.content_len_] = '\0';
+                log.data_mark_ = 2;
 
                 shm->ring_buffers_[i].write_idx_ = RingBuffer::NextIndex(shm->ring_buffers_[i].write_idx_);
             }
-- 
2.43.0


From 4ccbc759dab617895aadaaed44dd66612bc1c653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:34 +0000
Subject: [PATCH 36/50] fix: a failed udp write was counted both as lost and as
 written

---
 src/include/fn_out_udp_device.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/fn_out_udp_device.h b/src/include/fn_out_udp_device.h
index 56eb98a..0a73866 100644
--- a/src/include/fn_out_udp_device.h
+++ b/src/include/fn_out_udp_device.h
@@ -38,6 +38,7 @@ namespace FNLog
         if (ret <= 0)
         {
             AtomicIncDeviceLog(channel, device_id, DEVICE_LOG_TOTAL_LOSE_LINE, 1);
+            return;
         }
         AtomicIncDeviceLog(channel, device_id, DEVICE_LOG_TOTAL_WRITE_LINE, 1);
         AtomicIncDeviceLog(channel, device_id, DEVICE_LOG_TOTAL_WRITE_BYTE, log.content_len_);
-- 
2.43.0


From 0224db0d1272b40371825cd2138be9e413190983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:11 +0000
Subject: [PATCH 37/50] fix: counters of a channel were lost when one
 configuration in between lacked it

---
 src/include/fn_load.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index a555749..d894438 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -261,7 +261,8 @@ namespace FNLog
             }
         }
         logger.shm_->channel_size_ = ls->channel_size_;
-        for (int i = 0; i < ls->channel_size_; i++)
+        //also the channels this configuration has not: a later one can have them again.  
+        for (int i = 0; i < Logger::MAX_CHANNEL_SIZE; i++)
         {
             memcpy(&ls->channels_[i].channel_log_fields_, &logger.shm_->channels_[i].channel_log_fields_,
                 sizeof(ls->channels_[i].channel_log_fields_));
-- 
2.43.0


From a53f4a9815ec4e014f167df446cf818907395ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:11 +0000
Subject: [PATCH 38/50] fix: byte counters read a record after another thread
 could already have refilled it

---
 src/include/fn_channel.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index 3bfc69e..289e341 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -139,9 +139,12 @@ namespace FNLog
                 }
                 auto& cur_log = ring_buffer.buffer_[RingBuffer::Slot(old_idx)];
                 DispatchLog(logger, channel, cur_log);
+                //once released the record can be held and filled again by another thread.  
+                int content_len = cur_log.content_len_;
+                long long timestamp = cur_log.timestamp_;
                 cur_log.data_mark_ = 0;
                 AtomicIncChannelLog(channel, CHANNEL_LOG_PROCESSED, 1);
-                AtomicIncChannelLog(channel, CHANNEL_LOG_PROCESSED_BYTES, cur_log.content_len_);
+                AtomicIncChannelLog(channel, CHANNEL_LOG_PROCESSED_BYTES, content_len);
                 flush_count ++;
                 empty_tick = false;
                 int write_id = ring_buffer.write_idx_.load(std::memory_order_acquire);
@@ -152,10 +155,10 @@ namespace FNLog
                     AtomicStoreChannelLog(channel, CHANNEL_LOG_MAX_PROC_QUE_SIZE, proc_que_size);
                 }
 
-                if (cur_log.timestamp_ > 0)
+                if (timestamp > 0)
                 {
                     long long now = (long long)time(NULL);
-                    long long diff = now - 1 - cur_log.timestamp_;
+                    long long diff = now - 1 - timestamp;
                     if (diff > AtomicLoadChannelLog(channel, CHANNEL_LOG_MAX_DELAY_TIME_S) )
                     {
                         AtomicStoreChannelLog(channel, CHANNEL_LOG_MAX_DELAY_TIME_S, diff);
@@ -486,8 +489,9 @@ namespace FNLog
         log.content_[log.content_len_++] = '\n';
         log.content_[log.content_len_] = '\0';
 
-        log.data_mark_ = 2;
+        //once marked the record can be output and filled again by another thread.  
         AtomicIncChannelLog(channel, CHANNEL_LOG_PRIORITY + log.priority_, log.content_len_);
+        log.data_mark_ = 2;
 
         do
         {
-- 
2.43.0


From 6d18cbb30cdf89709d858379668878c3990ed38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:29 +0000
Subject: [PATCH 39/50] fix: udp lines and datagrams lost for two seconds after
 a restart or a disable/enable

---
 src/include/fn_core.h | 2 ++
 src/include/fn_file.h | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index 15f9463..14cb75f 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -162,6 +162,7 @@ namespace FNLog
             for (auto& writer : logger.udp_handles_)
             {
                 writer.close();
+                writer.open_ts_ = 0;
             }
             logger.logger_state_ = LOGGER_STATE_UNINIT;
             printf("StartLogger error. StartChannels failed. channel size:<%d>. \n", logger.shm_->channel_size_);
@@ -206,6 +207,7 @@ namespace FNLog
             {
                 writer.close();
             }
+            writer.open_ts_ = 0;
         }
         logger.logger_state_ = LOGGER_STATE_UNINIT;
         return 0;
diff --git a/src/include/fn_file.h b/src/include/fn_file.h
index 0d896d5..7830919 100644
--- a/src/include/fn_file.h
+++ b/src/include/fn_file.h
@@ -456,11 +456,10 @@ public:
         {
             return 0; //but not open
         }
-        open_ts_ = time(NULL);
-
         handler_ = socket(AF_INET, SOCK_DGRAM, 0);
         if (handler_ == FNLOG_INVALID_SOCKET)
         {
+            open_ts_ = time(NULL);
             //int ret = WSAGetLastError();
             return -1;
         }
@@ -494,6 +493,7 @@ public:
         (void)ret;
         if (ret != 0)
         {
+            open_ts_ = time(NULL);
             return ret;
         }
         return 0;
-- 
2.43.0


From 7583f7960a79e0291c4174916efaa80c30647121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:04 +0000
Subject: [PATCH 40/50] fix: udp input: datagrams longer than the record size
 ended with a NUL byte, shorter ones had none for the screen

---
 src/include/fn_channel.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index 289e341..de1a6f4 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -238,8 +238,9 @@ namespace FNLog
                     if (ring_buffer.udp_buffer_.content_len_ == LogData::LOG_SIZE)
                     {
                         ring_buffer.udp_buffer_.content_[ring_buffer.udp_buffer_.content_len_ - 2] = '\n';
-                        ring_buffer.udp_buffer_.content_[ring_buffer.udp_buffer_.content_len_ - 1] = '\0';
+                        ring_buffer.udp_buffer_.content_len_--;
                     }
+                    ring_buffer.udp_buffer_.content_[ring_buffer.udp_buffer_.content_len_] = '\0';
                     if (ring_buffer.udp_buffer_.content_len_ == 0)
                     {
                         break;
-- 
2.43.0


From b17235324161ee9c898e81c0c45bf0e21ad159a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:25 +0000
Subject: [PATCH 41/50] fix: udp input on a sync channel used by several
 threads lost or repeated datagrams

---
 src/include/fn_channel.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index de1a6f4..dfc4542 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -20,12 +20,10 @@
 
 namespace FNLog
 {
-    inline void EnterProcDevice(Logger& logger, int channel_id, int device_id, LogData & log)
+    inline void EnterProcDeviceLocked(Logger& logger, int channel_id, int device_id, LogData & log)
     {
         Channel& channel = logger.shm_->channels_[channel_id];
         Device& device = channel.devices_[device_id];
-        //async promise only single thread proc. needn't lock.
-        Logger::ReadGuard rg(logger.read_locks_[channel_id], channel.channel_type_ == CHANNEL_ASYNC);
         switch (device.out_type_)
         {
         case DEVICE_OUT_SCREEN:
@@ -48,6 +46,14 @@ namespace FNLog
             break;
         }
     }
+
+    inline void EnterProcDevice(Logger& logger, int channel_id, int device_id, LogData & log)
+    {
+        Channel& channel = logger.shm_->channels_[channel_id];
+        //async promise only single thread proc. needn't lock.
+        Logger::ReadGuard rg(logger.read_locks_[channel_id], channel.channel_type_ == CHANNEL_ASYNC);
+        EnterProcDeviceLocked(logger, channel_id, device_id, log);
+    }
     
 
     inline void DispatchLog(Logger & logger, Channel& channel, LogData& log)
@@ -203,6 +209,8 @@ namespace FNLog
                     continue;
                 }
 
+                //the socket and the buffer are shared by the threads on a sync channel.  
+                Logger::ReadGuard rg(logger.read_locks_[channel_id], channel.channel_type_ == CHANNEL_ASYNC);
                 UDPHandler& udp = logger.udp_handles_[channel_id * Channel::MAX_DEVICE_SIZE + i];
                 if (!device.config_fields_[DEVICE_CFG_ABLE])
                 {
@@ -246,7 +254,7 @@ namespace FNLog
                         break;
                     }
                     empty_tick = false; 
-                    EnterProcDevice(logger, channel.channel_id_, device.device_id_, ring_buffer.udp_buffer_);
+                    EnterProcDeviceLocked(logger, channel.channel_id_, device.device_id_, ring_buffer.udp_buffer_);
                 }
             }
 
-- 
2.43.0


From 7f8acad323f70c6a4b127b01423188cf18ae499f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:44 +0000
Subject: [PATCH 42/50] fix: a record filled completely was handed to the hook
 with a NUL as its last byte

---
 src/include/fn_out_virtual_device.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/fn_out_virtual_device.h b/src/include/fn_out_virtual_device.h
index bc7b9d0..f4fa0fc 100644
--- a/src/include/fn_out_virtual_device.h
+++ b/src/include/fn_out_virtual_device.h
@@ -64,8 +64,8 @@ namespace FNLog
                 return;
             }
 
-            int content_len_ = FN_MIN(log.content_len_, LogData::LOG_SIZE - 1);
-            log.content_[content_len_] = '\0'; //virtual device hook maybe direct used content like c-string 
+            log.content_len_ = FN_MIN(log.content_len_, LogData::LOG_SIZE - 1);
+            log.content_[log.content_len_] = '\0'; //virtual device hook maybe direct used content like c-string 
 
             AtomicIncDeviceLog(channel, device_id, DEVICE_LOG_TOTAL_WRITE_LINE, 1);
             AtomicIncDeviceLog(channel, device_id, DEVICE_LOG_TOTAL_WRITE_BYTE, log.content_len_);
-- 
2.43.0


From 6e7b2a2cfcf5cee511c8751b8cd3d14053a5e9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:44 +0000
Subject: [PATCH 43/50] fix: a directory made by another thread or process
 meanwhile counted as a failure

---
 src/include/fn_file.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_file.h b/src/include/fn_file.h
index 7830919..8672999 100644
--- a/src/include/fn_file.h
+++ b/src/include/fn_file.h
@@ -270,7 +270,8 @@ namespace FNLog
 #else
                 ret = (mkdir(cur.c_str(), S_IRWXU | S_IRWXG | S_IRWXO) == 0);
 #endif
-                if (!ret)
+                //another thread or process can have made it meanwhile.  
+                if (!ret && !is_dir(cur))
                 {
                     return false;
                 }
-- 
2.43.0


From 20991e491fb5c653cc7d262113d2a3863c924380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:28 +0000
Subject: [PATCH 44/50] fix: no log directory could be made below a directory
 that may be passed but not read

---
 src/include/fn_file.h | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/include/fn_file.h b/src/include/fn_file.h
index 8672999..0b9af8e 100644
--- a/src/include/fn_file.h
+++ b/src/include/fn_file.h
@@ -227,17 +227,9 @@ namespace FNLog
 #ifdef WIN32
         return PathIsDirectoryA(path.c_str()) ? true : false;
 #else
-        DIR* pdir = opendir(path.c_str());
-        if (pdir == nullptr)
-        {
-            return false;
-        }
-        else
-        {
-            closedir(pdir);
-            pdir = nullptr;
-            return true;
-        }
+        //a directory can be passed through without being readable.  
+        struct stat dir_stat;
+        return ::stat(path.c_str(), &dir_stat) == 0 && S_ISDIR(dir_stat.st_mode);
 #endif
     }
 
-- 
2.43.0


From 6640d3c08e62b378cbdd9b999d4e1b4403a563a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:56 +0000
Subject: [PATCH 45/50] fix: a start for which no thread could be made threw
 and left the logger unusable

---
 src/include/fn_core.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index 14cb75f..287bd54 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -46,7 +46,14 @@ namespace FNLog
                 break;
             case CHANNEL_ASYNC:
             {
-                thd = std::thread(EnterProcChannel, std::ref(logger), channel_id);
+                try
+                {
+                    thd = std::thread(EnterProcChannel, std::ref(logger), channel_id);
+                }
+                catch (const std::exception&)
+                {
+                    //no more threads: not joinable.  
+                }
                 if (!thd.joinable())
                 {
                     printf("StartChannels %s", "start async log thread has error.\n");
-- 
2.43.0


From 13793289780def4214e7f315265876e17f692087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:24 +0000
Subject: [PATCH 46/50] fix: a process name that holds a variable was expanded
 again, without end for $PNAME

---
 src/include/fn_out_file_device.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_out_file_device.h b/src/include/fn_out_file_device.h
index e7ebfb3..decbb37 100644
--- a/src/include/fn_out_file_device.h
+++ b/src/include/fn_out_file_device.h
@@ -88,7 +88,9 @@ namespace FNLog
             case 'P':
                 if (name.substr(pos + 2, 4) == "NAME")
                 {
-                    name.replace(pos, 6, FileHandler::process_name());
+                    std::string process_name = FileHandler::process_name();
+                    name.replace(pos, 6, process_name);
+                    pos += process_name.length(); //its own text is no pattern  
                     break;
                 }
                 if (name.substr(pos + 2, 2) == "ID")
-- 
2.43.0


From e75673e40fcc407a00bf2cea39430c9e39f5a376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:24 +0000
Subject: [PATCH 47/50] fix: the process name was wrong when the path of the
 program is long or has a line break

---
 src/include/fn_file.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_file.h b/src/include/fn_file.h
index 0b9af8e..142427a 100644
--- a/src/include/fn_file.h
+++ b/src/include/fn_file.h
@@ -323,7 +323,7 @@ namespace FNLog
         {
             return name;
         }
-        name = i.read_line();
+        name = i.read_content().c_str(); //argv[0], of any length  
         i.close();
 
         std::string::size_type pos = name.rfind("/");
-- 
2.43.0


From 01965977e01ce6a7fbebb4c238902ebd768dd0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:08 +0000
Subject: [PATCH 48/50] fix: a file device that failed to open was not tried
 again for as long as the clock had been set back

---
 src/include/fn_out_file_device.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_out_file_device.h b/src/include/fn_out_file_device.h
index decbb37..5b727fc 100644
--- a/src/include/fn_out_file_device.h
+++ b/src/include/fn_out_file_device.h
@@ -335,7 +335,9 @@ namespace FNLog
         Device& device = channel.devices_[device_id];
         FileHandler& writer = logger.file_handles_[channel_id * Channel::MAX_DEVICE_SIZE + device_id];
 
-        if (!writer.is_open() && AtomicLoadDeviceLog(channel, device_id, DEVICE_LOG_LAST_TRY_CREATE_TIMESTAMP) + 5 > log.timestamp_)
+        long long last_try = AtomicLoadDeviceLog(channel, device_id, DEVICE_LOG_LAST_TRY_CREATE_TIMESTAMP);
+        //a clock that is set back does not put the next try off.  
+        if (!writer.is_open() && last_try <= log.timestamp_ && last_try + 5 > log.timestamp_)
         {
             return;
         }
-- 
2.43.0


From a5817385140b982949f93f12d598a7702036aa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:08 +0000
Subject: [PATCH 49/50] fix: hot update stopped for as long as the clock had
 been set back

---
 src/include/fn_load.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index d894438..a590137 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -331,7 +331,8 @@ namespace FNLog
 
         Channel& dst_chl = logger.shm_->channels_[channel_id];
         time_t now = time(nullptr);
-        if (now - dst_chl.last_hot_check_ < Logger::HOTUPDATE_INTERVEL)
+        //a clock that is set back does not put the check off.  
+        if (now >= dst_chl.last_hot_check_ && now - dst_chl.last_hot_check_ < Logger::HOTUPDATE_INTERVEL)
         {
             return 0;
         }
-- 
2.43.0


From 1d23f2ecced86fd3522fdd6ec3b6d4c93ac05cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:08 +0000
Subject: [PATCH 50/50] fix: a udp device without a socket was not opened again
 for as long as the clock had been set back

---
 src/include/fn_file.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_file.h b/src/include/fn_file.h
index 142427a..5c7d3e3 100644
--- a/src/include/fn_file.h
+++ b/src/include/fn_file.h
@@ -445,7 +445,9 @@ public:
 
     int open()
     {
-        if (time(NULL) <= open_ts_ + 2)
+        //a clock that is set back does not put the next try off.  
+        time_t now = time(NULL);
+        if (now >= open_ts_ && now <= open_ts_ + 2)
         {
             return 0; //but not open
         }
-- 
2.43.0

