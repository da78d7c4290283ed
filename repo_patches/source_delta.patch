From 80be4837b3c67a55094b9cee1b728cf55721dcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:20 +0000
Subject: [PATCH 01/20] fix: check frame size against the data remaining at its
 index

The size was compared with the length of the whole data, so a frame cut off
by the end of a torn recording was accepted and slicing its body panicked.
---
 src/qw/frame.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qw/frame.rs b/src/qw/frame.rs
index 8dab71e..2f80800 100644
--- a/src/qw/frame.rs
+++ b/src/qw/frame.rs
@@ -24,7 +24,8 @@ pub struct Info {
 
 impl Info {
     pub fn from_data_and_index(data: &[u8], index: usize) -> Result<Self> {
-        let mut cur = Cursor::new(&data[index..]);
+        let remaining = data.get(index..).unwrap_or_default();
+        let mut cur = Cursor::new(remaining);
 
         let duration = cur.read_byte()? as u32;
 
@@ -48,7 +49,7 @@ impl Info {
         let header_size = cur.position() as usize;
         let size = header_size + body_size;
 
-        if data.len() < size {
+        if remaining.len() < size {
             return Err(e!("Frame is smaller than expected size"));
         }
 
-- 
2.43.0


From 79f592d019b8b6348c81a465296db4b3f08263b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:20 +0000
Subject: [PATCH 02/20] fix: reject hidden blocks that are too small for their
 block number

The subtraction underflowed (panic or a huge size).
---
 src/qw/block.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qw/block.rs b/src/qw/block.rs
index db73330..713100d 100644
--- a/src/qw/block.rs
+++ b/src/qw/block.rs
@@ -1,6 +1,6 @@
 use std::io::Cursor;
 
-use crate::qw::primitives::{numsize, ReadPrimitives};
+use crate::qw::primitives::{err_other, numsize, ReadPrimitives};
 use crate::qw::prot::HiddenMessage;
 
 pub const HEADER_SIZE: usize = numsize::LONG + 2 * numsize::SHORT;
@@ -19,7 +19,9 @@ impl TryFrom<&[u8]> for Info {
     fn try_from(value: &[u8]) -> Result<Self, Self::Error> {
         let mut cur = Cursor::new(value);
         // exclude block number bytes from size
-        let body_size = cur.read_u32()? as usize - numsize::SHORT;
+        let body_size = (cur.read_u32()? as usize)
+            .checked_sub(numsize::SHORT)
+            .ok_or_else(|| err_other("block is smaller than expected size"))?;
 
         Ok(Info {
             body_size,
-- 
2.43.0


From 6c5f0f91f2da432165a2e316464f99f08146da8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:20 +0000
Subject: [PATCH 03/20] fix: return an error for truncated ktxstats blocks

Missing block headers and block bodies cut off by the end of the data made
ktxstats_string panic.
---
 src/ktxstats.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/ktxstats.rs b/src/ktxstats.rs
index 50f839c..d2b337b 100644
--- a/src/ktxstats.rs
+++ b/src/ktxstats.rs
@@ -18,17 +18,25 @@ pub fn ktxstats_string(data: &[u8]) -> Result<String> {
     let Some(mut offset) = data.rfind(br#"{"version": "#) else {
         return Err(e!("ktxstats not found"));
     };
-    offset -= TOTAL_HEADER_SIZE;
+    offset = offset
+        .checked_sub(TOTAL_HEADER_SIZE)
+        .ok_or_else(|| e!("ktxstats block header not found"))?;
     let mut content = Vec::new();
 
     // read blocks
-    while let Ok(info) = block::Info::try_from(&data[offset + frame::MULTI_HEADER_SIZE..]) {
+    while let Ok(info) = block::Info::try_from(
+        data.get(offset + frame::MULTI_HEADER_SIZE..)
+            .unwrap_or_default(),
+    ) {
         if info.hidden_message != HiddenMessage::Demoinfo {
             break;
         }
 
         offset += TOTAL_HEADER_SIZE;
-        content.extend_from_slice(&data[offset..offset + info.body_size]);
+        let Some(body) = data.get(offset..offset + info.body_size) else {
+            return Err(e!("ktxstats block is truncated"));
+        };
+        content.extend_from_slice(body);
 
         if info.number == 0 {
             break;
-- 
2.43.0


From f822c0e3abecc02cdadc733fcc77550e36d8e30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:20 +0000
Subject: [PATCH 04/20] fix: limit the clientinfo lookahead to the end of the
 data

A demo that ends shortly after its clients made clientinfo panic.
---
 src/clientinfo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/clientinfo.rs b/src/clientinfo.rs
index cfd775e..a204d25 100644
--- a/src/clientinfo.rs
+++ b/src/clientinfo.rs
@@ -24,7 +24,7 @@ pub fn clientinfo_strings(data: &[u8]) -> Result<Vec<String>> {
 
     let mut result: Vec<String> = vec![];
 
-    while let Some(name_offset) = data[offset..offset + MAX_LOOKAHEAD]
+    while let Some(name_offset) = data[offset..data.len().min(offset + MAX_LOOKAHEAD)]
         .find(br#"\name\"#)
         .map(|o| offset + o)
     {
-- 
2.43.0


From 5cf893183a2c7380e64ff666999b2da398c868b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:20 +0000
Subject: [PATCH 05/20] fix: limit the serverinfo window to the end of the data

Data shorter than 1280 bytes made serverinfo (and is_valid, which accepts
demos from 1024 bytes) panic.
---
 src/serverinfo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serverinfo.rs b/src/serverinfo.rs
index 2e29027..8fe3655 100644
--- a/src/serverinfo.rs
+++ b/src/serverinfo.rs
@@ -11,7 +11,7 @@ pub fn serverinfo_string(data: &[u8]) -> Result<String> {
     const MAX_OFFSET: usize = 256;
     const MAX_SIZE: usize = 1024;
     let Some((from, to)) = bytesextra::offsets_between(
-        &data[..MAX_OFFSET + MAX_SIZE],
+        &data[..data.len().min(MAX_OFFSET + MAX_SIZE)],
         br#"fullserverinfo ""#,
         &[b'"'],
     ) else {
-- 
2.43.0


From 465778bfe7f97d8dce50cce3b8f414a2bf799a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:20 +0000
Subject: [PATCH 06/20] fix: return an error for match dates with non-ASCII
 text

Slicing inside a multi-byte character panicked.
---
 src/matchdate.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/matchdate.rs b/src/matchdate.rs
index 7cd32dd..4ee39cb 100644
--- a/src/matchdate.rs
+++ b/src/matchdate.rs
@@ -18,11 +18,16 @@ pub fn matchdate(data: &[u8]) -> Result<DateTime<Utc>> {
 }
 
 fn replace_tz_abbr_with_offset(timestamp: &str) -> Result<String> {
-    let tz_abbr = &timestamp[DATETIME_LEN + 1..];
+    let (Some(datetime), Some(tz_abbr)) = (
+        timestamp.get(..DATETIME_LEN),
+        timestamp.get(DATETIME_LEN + 1..),
+    ) else {
+        return Err(e!("Invalid matchdate"));
+    };
     let Some(tz_offset) = timezone::utc_offset(tz_abbr) else {
         return Err(e!("Invalid timezone abbreviation"));
     };
-    Ok(format!("{}{}", &timestamp[..DATETIME_LEN], tz_offset))
+    Ok(format!("{}{}", datetime, tz_offset))
 }
 
 pub fn matchdate_string(data: &[u8]) -> Result<String> {
-- 
2.43.0


From df0902bf3f2be1502030e83c2e4d0352d7a30694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:20 +0000
Subject: [PATCH 07/20] fix: sum up pings without overflow

The sum of eight pings does not fit in 16 bits (e.g. 7 x 9999).
---
 src/ping.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ping.rs b/src/ping.rs
index 2d0fc13..bf1e1d1 100644
--- a/src/ping.rs
+++ b/src/ping.rs
@@ -51,8 +51,8 @@ pub fn ping_per_player_number(data: &[u8]) -> Result<HashMap<u8, u32>> {
     let mut average_ping: HashMap<u8, u32> = HashMap::new();
 
     for (pnum, pings) in total_pings.iter() {
-        let pings_sum = pings.iter().sum::<u16>();
-        let avg_ping = (pings_sum as f32 / pings.len() as f32) as u32;
+        let pings_sum = pings.iter().map(|p| *p as usize).sum::<usize>();
+        let avg_ping = (pings_sum / pings.len()) as u32;
         average_ping.insert(*pnum, avg_ping);
     }
 
-- 
2.43.0


From 6700a68e600f7ef23d127853e01bb1f28ed965f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:20 +0000
Subject: [PATCH 08/20] fix: keep durations exact to the millisecond

Single precision floats round durations (e.g. 1049.999 s to 1050.000 s) and
the 32-bit total may overflow.
---
 src/duration.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/duration.rs b/src/duration.rs
index 9e876ac..dc84991 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -59,18 +59,18 @@ pub fn match_duration_from_ktxstats(data: &[u8]) -> Result<Duration> {
 
 fn duration_until_offset(data: &[u8], target_offset: usize) -> Duration {
     let mut index = 0;
-    let mut total_ms: u32 = 0;
+    let mut total_ms: u64 = 0;
 
     while let Ok(frame_info) = frame::Info::from_data_and_index(data, index) {
         if index >= target_offset {
             break;
         }
 
-        total_ms += frame_info.duration;
+        total_ms += frame_info.duration as u64;
         index += frame_info.size;
     }
 
-    Duration::from_secs_f32(total_ms as f32 / 1000.0)
+    Duration::from_millis(total_ms)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 93bdb771344d5cf1753ba7df6bb4688d601ddd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:20 +0000
Subject: [PATCH 09/20] fix: match duration must not panic on unusual demos

The match date may come after the end of the match, and the stated duration
may be negative or not a number.
---
 src/duration.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/duration.rs b/src/duration.rs
index dc84991..fdcc00f 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -43,7 +43,7 @@ pub fn match_duration(data: &[u8]) -> Result<Duration> {
 pub fn match_duration_from_seeking(data: &[u8]) -> Result<Duration> {
     let end = demo_duration(data)?;
     let begin = countdown_duration(data).unwrap_or(Duration::ZERO);
-    Ok(end - begin)
+    Ok(end.saturating_sub(begin))
 }
 
 pub fn match_duration_from_ktxstats(data: &[u8]) -> Result<Duration> {
@@ -54,7 +54,7 @@ pub fn match_duration_from_ktxstats(data: &[u8]) -> Result<Duration> {
         return Err(e!("Duration not found in ktxstats"));
     };
     let duration_f: f64 = ktxstats_s[from..to].parse()?;
-    Ok(Duration::from_secs_f64(duration_f))
+    Ok(Duration::try_from_secs_f64(duration_f)?)
 }
 
 fn duration_until_offset(data: &[u8], target_offset: usize) -> Duration {
-- 
2.43.0


From f1591dbdb65c11eb607e5bbcbf28877969dad912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:20 +0000
Subject: [PATCH 10/20] fix: order teams whose names differ only in case
 deterministically

Their order followed the randomly seeded iteration order of a hash map.
---
 src/team.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/team.rs b/src/team.rs
index dbb4d18..32836af 100644
--- a/src/team.rs
+++ b/src/team.rs
@@ -52,7 +52,12 @@ pub fn teams_from_players(players: &[Player]) -> Vec<Team> {
         teams.push(Team::from(teamplayers.as_slice()))
     }
 
-    teams.sort_by(|a, b| a.name.to_lowercase().cmp(&b.name.to_lowercase()));
+    teams.sort_by(|a, b| {
+        a.name
+            .to_lowercase()
+            .cmp(&b.name.to_lowercase())
+            .then(a.name.cmp(&b.name))
+    });
 
     teams
 }
-- 
2.43.0


From 8a6ba22169e667c82ffe31dcedd6392f107cecdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:20 +0000
Subject: [PATCH 11/20] fix: choose the team color deterministically when
 colors tie

The choice followed the randomly seeded iteration order of a hash map; now
the first player's color wins among the most frequent. Also count in usize,
an 8-bit count overflows for 256 players.
---
 src/team.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/team.rs b/src/team.rs
index 32836af..ffe7fa6 100644
--- a/src/team.rs
+++ b/src/team.rs
@@ -69,7 +69,7 @@ fn majority_color(colors: &[[u8; 2]]) -> Option<[u8; 2]> {
         _ => {}
     };
 
-    let mut color_count: HashMap<[u8; 2], u8> = HashMap::new();
+    let mut color_count: HashMap<[u8; 2], usize> = HashMap::new();
     for color in colors.iter() {
         let count = color_count.entry(*color).or_insert(0);
         *count += 1;
@@ -77,10 +77,11 @@ fn majority_color(colors: &[[u8; 2]]) -> Option<[u8; 2]> {
 
     let mut max_color = None;
     let mut max_count = 0;
-    for (color, count) in color_count.iter() {
-        if *count > max_count {
+    for color in colors.iter() {
+        let count = color_count[color];
+        if count > max_count {
             max_color = Some(*color);
-            max_count = *count;
+            max_count = count;
         }
     }
 
-- 
2.43.0


From e3eb97254c1b79f772e354ee7b20ec1e74a2d7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:20 +0000
Subject: [PATCH 12/20] fix: keep the roster order of players that tie on frags
 and name

Their order followed the randomly seeded iteration order of a hash map.
---
 src/players.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/players.rs b/src/players.rs
index 0214868..9c52fe5 100644
--- a/src/players.rs
+++ b/src/players.rs
@@ -1,5 +1,3 @@
-use std::collections::HashMap;
-
 use anyhow::Result;
 use ktxstats::v3::KtxstatsV3;
 
@@ -28,7 +26,7 @@ pub fn players_from_parsing(data: &[u8]) -> Result<Vec<Player>> {
     let clients = clients(data)?;
     let pings = ping_per_player_number(data)?;
     let frags = frags_per_player_name(data);
-    let mut pmap: HashMap<u8, Player> = HashMap::new();
+    let mut players: Vec<Player> = vec![];
 
     for c in clients.iter().filter(|c| !c.is_spectator) {
         let player = Player {
@@ -41,10 +39,9 @@ pub fn players_from_parsing(data: &[u8]) -> Result<Vec<Player>> {
             auth_cc: c.auth_cc.clone(),
             is_bot: c.is_bot,
         };
-        pmap.insert(c.number, player);
+        players.push(player);
     }
 
-    let mut players: Vec<Player> = pmap.values().cloned().collect();
     players.sort_by(player::sort());
     Ok(players)
 }
-- 
2.43.0


From 9d90407238ed19976823e8fefc37845b9720c551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:20 +0000
Subject: [PATCH 13/20] fix: list every team name once

Names that compare equal in unicode::sort (case, colored characters) may
interleave, so removing adjacent duplicates after it is not enough.
---
 src/clients.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/clients.rs b/src/clients.rs
index 48710fd..05c6c29 100644
--- a/src/clients.rs
+++ b/src/clients.rs
@@ -70,9 +70,9 @@ pub fn team_names(data: &[u8]) -> Result<Vec<String>> {
         .map(|c| c.team.clone())
         .collect();
 
-    names = unicode::sort(&names);
+    names.sort();
     names.dedup();
-    Ok(names)
+    Ok(unicode::sort(&names))
 }
 
 #[cfg(test)]
-- 
2.43.0


From bb1b8cd4096dd3b09485f8eeff3b0e452dccee5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:25 +0000
Subject: [PATCH 14/20] fix: count flag events without overflow

The 8-bit counters overflowed at the 256th event of a player.
---
 src/flags.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/flags.rs b/src/flags.rs
index 9caeeb8..bce6c8a 100644
--- a/src/flags.rs
+++ b/src/flags.rs
@@ -12,13 +12,13 @@ use crate::qw::prot::{MessageType, PrintId};
 
 #[derive(Debug, Default, PartialEq, Eq)]
 pub struct PlayerFlagEvents {
-    captures: u8,
-    pickups: u8,
-    returns: u8,
-    carrier_frags: u8,
-    defends: u8,
-    carrier_defends: u8,
-    carrier_defends_vs_aggressive: u8,
+    captures: u32,
+    pickups: u32,
+    returns: u32,
+    carrier_frags: u32,
+    defends: u32,
+    carrier_defends: u32,
+    carrier_defends_vs_aggressive: u32,
 }
 
 pub fn flag_events_per_player_name(data: &[u8]) -> HashMap<String, PlayerFlagEvents> {
-- 
2.43.0


From 24f4e57889fdda6c03895513917e330e5ab141c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:25 +0000
Subject: [PATCH 15/20] fix: do not drop flag events that share a frame

A print following another one in the same frame was dropped (e.g. the second
of two assists) or joined with a finished announcement. Now only continues an
unfinished line.
---
 src/flags.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/flags.rs b/src/flags.rs
index bce6c8a..c884e26 100644
--- a/src/flags.rs
+++ b/src/flags.rs
@@ -40,16 +40,15 @@ pub fn flag_events_per_player_name(data: &[u8]) -> HashMap<String, PlayerFlagEve
             if mt == MessageType::Print {
                 if let Ok(p) = body.read_print() {
                     if p.id == PrintId::High && !p.content.is_empty() {
-                        if current_print.is_empty() {
-                            current_print.extend_from_slice(&p.content);
-                        } else {
-                            if is_message_suffix(&p.content) {
-                                current_print.extend_from_slice(&p.content);
-                            }
-
-                            prints.push(current_print.clone());
+                        let is_line_start =
+                            current_print.is_empty() || current_print.ends_with(b"\n");
+
+                        if is_line_start || !is_message_suffix(&p.content) {
+                            prints.push(current_print);
                             current_print = vec![];
                         }
+
+                        current_print.extend_from_slice(&p.content);
                     }
                 }
             }
-- 
2.43.0


From 8c4cb0617c2607a2df0512c281191d172efe8c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:50 +0000
Subject: [PATCH 16/20] fix: number clients by their player slot

Client numbers were positions in the roster. Ping and frag updates refer to
player slots, which differ as soon as a slot is left empty, so players got
the pings of others and anonymous team kills were charged to the wrong player.
---
 src/clientinfo.rs | 23 +++++++++++++++++++++--
 src/clients.rs    |  7 +++----
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/clientinfo.rs b/src/clientinfo.rs
index a204d25..1dc762c 100644
--- a/src/clientinfo.rs
+++ b/src/clientinfo.rs
@@ -2,6 +2,8 @@ use anyhow::{anyhow as e, Result};
 use bstr::ByteSlice;
 pub use quake_clientinfo::Clientinfo;
 
+use crate::qw::prot::MessageType;
+
 pub fn clientinfo(data: &[u8]) -> Result<Vec<Clientinfo>> {
     let info: Vec<Clientinfo> = clientinfo_strings(data)?
         .iter()
@@ -11,6 +13,14 @@ pub fn clientinfo(data: &[u8]) -> Result<Vec<Clientinfo>> {
 }
 
 pub fn clientinfo_strings(data: &[u8]) -> Result<Vec<String>> {
+    let strings = numbered_clientinfo_strings(data)?
+        .into_iter()
+        .map(|(_, string)| string)
+        .collect();
+    Ok(strings)
+}
+
+pub(crate) fn numbered_clientinfo_strings(data: &[u8]) -> Result<Vec<(u8, String)>> {
     const CMD_SPAWN: [u8; 0x0A] = [0x09, 0x63, 0x6D, 0x64, 0x20, 0x73, 0x70, 0x61, 0x77, 0x6E];
 
     let Some(mut offset) = data.find(CMD_SPAWN) else {
@@ -22,7 +32,7 @@ pub fn clientinfo_strings(data: &[u8]) -> Result<Vec<String>> {
     const MIN_LEN: usize = r#"\name\ "#.len();
     const MAX_LEN: usize = 256;
 
-    let mut result: Vec<String> = vec![];
+    let mut result: Vec<(u8, String)> = vec![];
 
     while let Some(name_offset) = data[offset..data.len().min(offset + MAX_LOOKAHEAD)]
         .find(br#"\name\"#)
@@ -40,7 +50,16 @@ pub fn clientinfo_strings(data: &[u8]) -> Result<Vec<String>> {
             break;
         }
 
-        result.push(quake_text::bytestr::to_unicode(&data[from..to]));
+        // [UpdateUserinfo] [byte] player_number [long] user_id [string] userinfo
+        let number = match data[..from] {
+            [.., msg_type, number, _, _, _, _]
+                if MessageType::from(&msg_type) == MessageType::UpdateUserinfo =>
+            {
+                number
+            }
+            _ => result.len() as u8,
+        };
+        result.push((number, quake_text::bytestr::to_unicode(&data[from..to])));
         offset = to;
 
         if offset >= max_offset {
diff --git a/src/clients.rs b/src/clients.rs
index 05c6c29..697c261 100644
--- a/src/clients.rs
+++ b/src/clients.rs
@@ -6,12 +6,11 @@ use crate::client::Client;
 use crate::clientinfo;
 
 pub fn clients(data: &[u8]) -> Result<Vec<Client>> {
-    let clients: Vec<Client> = clientinfo::clientinfo(data)?
+    let clients: Vec<Client> = clientinfo::numbered_clientinfo_strings(data)?
         .iter()
-        .enumerate()
         .map(|(number, info)| {
-            let mut client = Client::from(info);
-            client.number = number as u8;
+            let mut client = Client::from(&clientinfo::Clientinfo::from(info.as_str()));
+            client.number = *number;
             client
         })
         .collect();
-- 
2.43.0


From 529ab641881449adb8d1f31ae3e61ae3d55e18a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:14 +0000
Subject: [PATCH 17/20] fix: negative pings of statistics must not overflow the
 team ping

---
 src/player.rs | 2 +-
 src/team.rs   | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/player.rs b/src/player.rs
index a89465b..67c3fc2 100644
--- a/src/player.rs
+++ b/src/player.rs
@@ -26,7 +26,7 @@ impl From<&ktxstats::v3::Player> for Player {
             team: player.team.clone(),
             color: [player.top_color as u8, player.bottom_color as u8],
             frags: player.stats.frags,
-            ping: player.ping as u32,
+            ping: player.ping.max(0) as u32,
             is_bot: player.bot.is_some() || player.ping == BOT_PING,
             auth_username,
             auth_cc: None,
diff --git a/src/team.rs b/src/team.rs
index ffe7fa6..e892470 100644
--- a/src/team.rs
+++ b/src/team.rs
@@ -25,13 +25,14 @@ impl From<&[Player]> for Team {
             color: [0, 0],
         };
 
+        let mut total_ping: u64 = 0;
         for player in players.iter() {
             team.players.push(player.clone());
-            team.frags += player.frags;
-            team.ping += player.ping;
+            team.frags = team.frags.saturating_add(player.frags);
+            total_ping += u64::from(player.ping);
         }
 
-        team.ping = (team.ping as f32 / team.players.len() as f32).round() as u32;
+        team.ping = (total_ping as f64 / team.players.len() as f64).round() as u32;
         let player_colors: Vec<[u8; 2]> = team.players.iter().map(|p| p.color).collect();
         team.color = majority_color(&player_colors).unwrap_or(players[0].color);
 
-- 
2.43.0


From 363d02a97fecc2d3a41e9e5646af1c22b8535325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:15 +0000
Subject: [PATCH 18/20] fix: do not read hidden data as messages

Frames for multiple clients without any recipient carry hidden data (e.g.
damage or statistics blocks).  Blocks of certain sizes were taken for prints,
pings or frag updates, and all of them used up the frames that are searched
for the killer of a team mate.
---
 src/flags.rs    | 3 ++-
 src/frags.rs    | 4 ++--
 src/ping.rs     | 2 +-
 src/prints.rs   | 2 +-
 src/qw/frame.rs | 7 +++++++
 5 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/flags.rs b/src/flags.rs
index c884e26..71ee09f 100644
--- a/src/flags.rs
+++ b/src/flags.rs
@@ -27,7 +27,8 @@ pub fn flag_events_per_player_name(data: &[u8]) -> HashMap<String, PlayerFlagEve
     let mut prints: Vec<Vec<u8>> = vec![];
 
     while let Ok(frame_info) = frame::Info::from_data_and_index(data, index) {
-        if frame_info.body_size == 0 || data[frame_info.clone().body_range].find(b"flag").is_none()
+        if !frame_info.has_messages(data)
+            || data[frame_info.clone().body_range].find(b"flag").is_none()
         {
             index += frame_info.size;
             continue;
diff --git a/src/frags.rs b/src/frags.rs
index dcd8d0a..13a4b37 100644
--- a/src/frags.rs
+++ b/src/frags.rs
@@ -17,7 +17,7 @@ pub fn frags_per_player_name(data: &[u8]) -> HashMap<String, i32> {
     let mut print_frames: Vec<(Print, frame::Info)> = vec![];
 
     while let Ok(frame_info) = frame::Info::from_data_and_index(data, index) {
-        if frame_info.body_size == 0 {
+        if !frame_info.has_messages(data) {
             index += frame_info.size;
             continue;
         }
@@ -90,7 +90,7 @@ fn find_team_killer(data: &[u8], index: usize, victim_name: &str) -> Result<Stri
     while let Ok(info) = frame::Info::from_data_and_index(data, index) {
         if frame_count >= MAX_FRAME_COUNT {
             break;
-        } else if info.body_size == 0 {
+        } else if !info.has_messages(data) {
             index += info.size;
             continue;
         }
diff --git a/src/ping.rs b/src/ping.rs
index bf1e1d1..7c3d934 100644
--- a/src/ping.rs
+++ b/src/ping.rs
@@ -15,7 +15,7 @@ pub fn ping_per_player_number(data: &[u8]) -> Result<HashMap<u8, u32>> {
     let mut total_pings: HashMap<u8, Vec<u16>> = HashMap::new();
 
     while let Ok(info) = frame::Info::from_data_and_index(data, index) {
-        if info.body_size > 0 {
+        if info.has_messages(data) {
             let mut body = Cursor::new(&data[info.body_range.clone()]);
             let mut did_ping_update = false;
 
diff --git a/src/prints.rs b/src/prints.rs
index da62734..3d62bea 100644
--- a/src/prints.rs
+++ b/src/prints.rs
@@ -11,7 +11,7 @@ pub fn prints(data: &[u8]) -> Vec<Print> {
     let mut prints: Vec<Print> = Vec::new();
 
     while let Ok(info) = frame::Info::from_data_and_index(data, index) {
-        if info.body_size > 0 {
+        if info.has_messages(data) {
             let mut body = Cursor::new(&data[info.body_range]);
 
             while body
diff --git a/src/qw/frame.rs b/src/qw/frame.rs
index 2f80800..f05a961 100644
--- a/src/qw/frame.rs
+++ b/src/qw/frame.rs
@@ -65,6 +65,13 @@ impl Info {
             body_range: index + header_size..index + size,
         })
     }
+
+    /// Frames for multiple clients without any recipient carry hidden data, not messages.
+    pub fn has_messages(&self, data: &[u8]) -> bool {
+        let is_hidden = self.target == Target::Multiple
+            && data[self.header_range.clone()][2..].starts_with(&[0; numsize::LONG]);
+        self.body_size > 0 && !is_hidden
+    }
 }
 
 #[derive(Clone, Debug, PartialEq)]
-- 
2.43.0


From 5ff4ec1eb4b0a4368964b6839aa83daac475d368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:39 +0000
Subject: [PATCH 19/20] fix: take bots of statistics from the statistics

The text of the bot member may be split over two statistics blocks, and may
stand elsewhere in a demo.
---
 src/clients.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/clients.rs b/src/clients.rs
index 697c261..569b32e 100644
--- a/src/clients.rs
+++ b/src/clients.rs
@@ -1,9 +1,9 @@
 use anyhow::Result;
-use bstr::ByteSlice;
 use quake_text::unicode;
 
 use crate::client::Client;
 use crate::clientinfo;
+use crate::ktxstats::ktxstats_v3;
 
 pub fn clients(data: &[u8]) -> Result<Vec<Client>> {
     let clients: Vec<Client> = clientinfo::numbered_clientinfo_strings(data)?
@@ -22,7 +22,7 @@ pub fn has_bot_players(data: &[u8]) -> Result<bool> {
         return Ok(true);
     }
 
-    Ok(data.rfind(br#""bot": {"#).is_some())
+    Ok(ktxstats_v3(data).is_ok_and(|stats| stats.players.iter().any(|p| p.bot.is_some())))
 }
 
 pub fn has_human_players(data: &[u8]) -> Result<bool> {
-- 
2.43.0


From 5baf9854c5b34e8a04584bd5aac7d1d72673ab0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:13 +0000
Subject: [PATCH 20/20] fix: match dates need a blank before the zone

The character after the first 19 was ignored, so the zone of a match date
with single-digit fields was read from its second letter (CEST as EST).
---
 src/matchdate.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/matchdate.rs b/src/matchdate.rs
index 4ee39cb..ee006a8 100644
--- a/src/matchdate.rs
+++ b/src/matchdate.rs
@@ -20,7 +20,9 @@ pub fn matchdate(data: &[u8]) -> Result<DateTime<Utc>> {
 fn replace_tz_abbr_with_offset(timestamp: &str) -> Result<String> {
     let (Some(datetime), Some(tz_abbr)) = (
         timestamp.get(..DATETIME_LEN),
-        timestamp.get(DATETIME_LEN + 1..),
+        timestamp
+            .get(DATETIME_LEN..)
+            .and_then(|s| s.strip_prefix(' ')),
     ) else {
         return Err(e!("Invalid matchdate"));
     };
-- 
2.43.0

