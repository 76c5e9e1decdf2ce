From d0d60fb0cc6e56ba52a73b6a06565387875a23d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:29 +0000
Subject: [PATCH 01/22] fix: return an error for a too short or non-ASCII
 sentence type instead of panicking

---
 src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bcf5f6e..7b6d652 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -194,9 +194,15 @@ impl NmeaParser {
             }
         };
 
+        // The talker ID and the three-letter sentence formatter must be present
+        if (sentence_type.starts_with('$') || sentence_type.starts_with('!')) 
+            && (sentence_type.len() < 6 || !sentence_type.is_ascii()) {
+            return Err(ParseError::InvalidSentence(format!("Invalid NMEA sentence: {}", sentence)));
+        }
+
         // Recognize GNSS system by talker ID.
         let nav_system = {
-            if &sentence_type[0..1] == "$" {
+            if sentence_type.starts_with('$') {
                 match &sentence_type[1..3] {
                     "GN" => Some(gnss::NavigationSystem::Combination),
                     "GP" => Some(gnss::NavigationSystem::Gps),
@@ -220,7 +226,7 @@ impl NmeaParser {
 
         // Recognize AIS station
         let station = {
-            if &sentence_type[0..1] == "!" {
+            if sentence_type.starts_with('!') {
                 match &sentence_type[1..3] {
                     "AB" => Some(ais::Station::BaseStation),
                     "AD" => Some(ais::Station::DependentAisBaseStation),
-- 
2.43.0


From fe17e616e6328b7cec144116b02a88f61acaf519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:30 +0000
Subject: [PATCH 02/22] fix: reject AIS payload characters outside the six-bit
 alphabet instead of panicking

---
 src/lib.rs  | 6 +++---
 src/util.rs | 5 ++++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7b6d652..ab48aee 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -390,7 +390,7 @@ impl NmeaParser {
                 // Try parse the payload
                 let mut bv: Option<BitVec> = None;
                 if fragment_count == 1 {
-                    bv = parse_payload(&payload_string).ok();
+                    bv = Some(parse_payload(&payload_string)?);
                 } else if fragment_count == 2 {
                     if let Some(msg_id) = message_id {
                         let key1 = make_fragment_key(&sentence_type.to_string(), msg_id, fragment_count, 
@@ -401,7 +401,7 @@ impl NmeaParser {
                             if let Some(p) = self.pull_string(key2.into()) {
                                 let mut payload_string_combined = payload_string;
                                 payload_string_combined.push_str(p.as_str());
-                                bv = parse_payload(&payload_string_combined). ok();
+                                bv = Some(parse_payload(&payload_string_combined)?);
                             } else {
                                 self.push_string(key1.into(), payload_string);
                             }
@@ -409,7 +409,7 @@ impl NmeaParser {
                             if let Some(p) = self.pull_string(key1.into()) {
                                 let mut payload_string_combined = p.clone();
                                 payload_string_combined.push_str(payload_string.as_str());
-                                bv = parse_payload(&payload_string_combined).ok();
+                                bv = Some(parse_payload(&payload_string_combined)?);
                             } else {
                                 self.push_string(key2.into(), payload_string);
                             }
diff --git a/src/util.rs b/src/util.rs
index bbbb3b1..01b6d4d 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -28,7 +28,10 @@ pub fn make_fragment_key(sentence_type: &String, message_id: u64, fragment_count
 pub fn parse_payload(payload: &String) -> Result<BitVec, String> {   
     let mut bv = BitVec::<LocalBits, usize>::with_capacity(payload.len() * 6); // or Lsb0 or Msb0 ?
     for c in payload.chars() {
-        let mut ci = (c as u8) - 48;
+        let mut ci = match c {
+            '0' ..= 'W' | '`' ..= 'w' => (c as u8) - 48,
+            _ => { return Err(format!("Invalid character in AIS payload: {}", c)); }
+        };
         if ci > 40 {
             ci -= 8;
         }
-- 
2.43.0


From cb37666d471c1594fdb2177f1833fd1affc3902d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:30 +0000
Subject: [PATCH 03/22] fix: ETA of type 5: no panic on impossible dates,
 not-available ETA is None, past dates belong to next year

---
 src/util.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 01b6d4d..d50e5b5 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -102,7 +102,7 @@ pub fn pick_eta(bv: &BitVec, index: usize) -> Option<DateTime::<Utc>> {
     let mut minute = pick_u64(bv, index + 4 + 5 + 5, 6) as u32;
     let mut second = pick_u64(bv, index + 4 + 5 + 5 + 6, 6) as u32;
     
-    if month == 0 && day == 0 && hour == 24 && minute == 60 && second == 60 {
+    if month == 0 && day == 0 && hour == 24 && minute == 60 {
         return None;
     }
     
@@ -110,17 +110,16 @@ pub fn pick_eta(bv: &BitVec, index: usize) -> Option<DateTime::<Utc>> {
     if day == 0    { day = now.day(); }
     if hour == 24  { hour = 23; minute = 59; second = 59; }
     if minute == 60  { minute = 59; second = 59; }
-    if second == 60  { second = 59; }
+    if second >= 60  { second = 59; }
     
-    // This and next year
-    let this_year_eta = NaiveDate::from_ymd(now.year(), month, day).and_hms(hour, minute, second);
-    let next_year_eta = NaiveDate::from_ymd(now.year(), month, day).and_hms(hour, minute, second);
-
-    if now <= this_year_eta {
-        Some(DateTime::<Utc>::from_utc(this_year_eta, Utc))
-    } else {
-        Some(DateTime::<Utc>::from_utc(next_year_eta, Utc))
-    }
+    // This and next year. The date and time may also be impossible.
+    let eta_of_year = |year| {
+        NaiveDate::from_ymd_opt(year, month, day).and_then(|d| d.and_hms_opt(hour, minute, second))
+    };
+    match eta_of_year(now.year()) {
+        Some(this_year_eta) if now <= this_year_eta => Some(this_year_eta),
+        _ => eta_of_year(now.year() + 1),
+    }.map(|eta| DateTime::<Utc>::from_utc(eta, Utc))
 }
 
 /// Pick field from comma-separated sentence or None if empty field.
-- 
2.43.0


From 743a61612d3c864876aadb5c3a274c6bbc0c9670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:31 +0000
Subject: [PATCH 04/22] fix: unavailable or impossible base station timestamp
 is None instead of a panic

---
 src/ais/vdm_t4.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ais/vdm_t4.rs b/src/ais/vdm_t4.rs
index 2d0748f..33abfc6 100644
--- a/src/ais/vdm_t4.rs
+++ b/src/ais/vdm_t4.rs
@@ -82,12 +82,13 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
             pick_u64(&bv, 8, 30) as u32
         },
         timestamp: {
-            Some(Utc.ymd(pick_u64(&bv, 38, 14) as i32, 
+            Utc.ymd_opt(pick_u64(&bv, 38, 14) as i32, 
                         pick_u64(&bv, 52, 4) as u32, 
                         pick_u64(&bv, 56, 5) as u32)
-                    .and_hms(pick_u64(&bv, 61, 5) as u32, 
-                             pick_u64(&bv, 66, 6) as u32, 
-                             pick_u64(&bv, 72, 6) as u32))
+                .single()
+                .and_then(|d| d.and_hms_opt(pick_u64(&bv, 61, 5) as u32, 
+                                            pick_u64(&bv, 66, 6) as u32, 
+                                            pick_u64(&bv, 72, 6) as u32))
         },        
         high_position_accuracy: {
             pick_u64(&bv, 78, 1) != 0
-- 
2.43.0


From ff3ebc892a09e2203789cfb91b9b5bcbd70eca35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:32 +0000
Subject: [PATCH 05/22] fix: empty, short or impossible GGA/GLL time is None
 instead of a panic

---
 src/util.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index d50e5b5..e2eb0dd 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -137,11 +137,9 @@ pub fn pick_number_field<T: std::str::FromStr>(split: &Vec<&str>, num: usize) ->
 
 /// Parse time field of format HHMMSS and convert it to DateTime<Utc> using the current time.
 pub fn parse_hhmmss(hhmmss: &str, now: DateTime<Utc>) -> Result<DateTime<Utc>, String> {
-    if let Some(hour) = hhmmss[0..2].parse::<u32>().ok() {
-        if let Some(minute) = hhmmss[2..4].parse::<u32>().ok() {
-            if let Some(second) = hhmmss[4..6].parse::<u32>().ok() {
-                return Ok(Utc.ymd(now.year(), now.month(), now.day()).and_hms(hour, minute, second))
-            }
+    if let (Some(hour), Some(minute), Some(second)) = (pick_d2(hhmmss, 0), pick_d2(hhmmss, 2), pick_d2(hhmmss, 4)) {
+        if let Some(dt) = Utc.ymd(now.year(), now.month(), now.day()).and_hms_opt(hour, minute, second) {
+            return Ok(dt);
         }
     }
     return Err(format!("Invalid time format: {}", hhmmss));
@@ -173,6 +171,16 @@ fn pick_s2(s: &str, i: usize) -> String {
     s.chars().skip(i).take(2).collect()
 }
 
+/// A simple helper to pick a number of exactly two digits from the given string.
+fn pick_d2(s: &str, i: usize) -> Option<u32> {
+    let d2 = pick_s2(s, i);
+    if d2.len() == 2 && d2.bytes().all(|b| b.is_ascii_digit()) {
+        d2.parse().ok()
+    } else {
+        None
+    }
+}
+
 /// Parse latitude from two string.
 /// lat_string = DDMM.MMM representing latitude
 /// hemisphere = N for north, S for south
-- 
2.43.0


From ece9f207c639483d15143441d635b8bff789c545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:32 +0000
Subject: [PATCH 06/22] fix: short or impossible RMC date or time is None
 instead of a panic or a wrong date

---
 src/util.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index e2eb0dd..ad15980 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -148,19 +148,14 @@ pub fn parse_hhmmss(hhmmss: &str, now: DateTime<Utc>) -> Result<DateTime<Utc>, S
 /// Parse time fields of formats YYMMDD and HHMMSS and convert them to DateTime<Utc>.
 pub fn parse_yymmdd_hhmmss(yymmdd: &str, hhmmss: &str) -> Result<DateTime<Utc>, String> {
     let century = (Utc::now().year() / 100) * 100;
-    if let Some(day) = pick_s2(yymmdd, 0).parse::<u32>().ok() {
-        if let Some(month) = pick_s2(yymmdd, 2).parse::<u32>().ok() {
-            if let Some(year) = pick_s2(yymmdd, 4).parse::<i32>().ok() {
-                if let Some(hour) = pick_s2(hhmmss, 0).parse::<u32>().ok() {
-                    if let Some(minute) = pick_s2(hhmmss, 2).parse::<u32>().ok() {
-                        if let Some(second) = pick_s2(hhmmss, 4).parse::<u32>().ok() {
-                            return Ok(Utc.ymd(century + year, month, day)
-                                         .and_hms(hour, minute, second))
-                        }
-                    }
+    if let (Some(day), Some(month), Some(year)) = (pick_d2(yymmdd, 0), pick_d2(yymmdd, 2), pick_d2(yymmdd, 4)) {
+        if let Some(date) = Utc.ymd_opt(century + year as i32, month, day).single() {
+            if let (Some(hour), Some(minute), Some(second)) = (pick_d2(hhmmss, 0), pick_d2(hhmmss, 2), pick_d2(hhmmss, 4)) {
+                if let Some(dt) = date.and_hms_opt(hour, minute, second) {
+                    return Ok(dt);
                 }
-                return Err(format!("Invalid time format: {}", hhmmss));
             }
+            return Err(format!("Invalid time format: {}", hhmmss));
         }
     }
     return Err(format!("Invalid date format: {}", yymmdd));
-- 
2.43.0


From 0203560ee7e503e7fae7f187cf5b6f0f379f1e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:12 +0000
Subject: [PATCH 07/22] fix: GSV: no overflow and no search beyond the first
 missing sentence for huge message counts

---
 src/gnss/gsv.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/gnss/gsv.rs b/src/gnss/gsv.rs
index efdc429..63dc086 100644
--- a/src/gnss/gsv.rs
+++ b/src/gnss/gsv.rs
@@ -47,16 +47,9 @@ pub fn handle(sentence: &str, nav_system: NavigationSystem, store: &mut NmeaPars
     let msg_num = pick_number_field(&split, 2)?.unwrap_or(0);
     store.push_string(make_gsv_key(msg_type, msg_count, msg_num), sentence.into());
 
-    let mut found_count = 0;
-    for i in 1..(msg_count + 1) {
-        if store.contains_key(make_gsv_key(msg_type, msg_count, i)) {
-            found_count += 1;
-        }
-    }
-
-    if found_count == msg_count {
+    if (1..=msg_count).all(|i| store.contains_key(make_gsv_key(msg_type, msg_count, i))) {
         let mut v = Vec::new();
-        for i in 1..(msg_count + 1) {
+        for i in 1..=msg_count {
             if let Some(sentence) = store.pull_string(make_gsv_key(msg_type, msg_count, i)) {
                 let split: Vec<&str> = sentence.split(',').collect();
                 for j in 0..4 {
-- 
2.43.0


From bada7c0746a636ed4c4dce4000b40a4060bb6d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:12 +0000
Subject: [PATCH 08/22] fix: ship types 80-89 are tankers and 90-99 other ships

---
 src/ais/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ais/mod.rs b/src/ais/mod.rs
index bc0b8aa..e9140ba 100644
--- a/src/ais/mod.rs
+++ b/src/ais/mod.rs
@@ -452,10 +452,10 @@ impl ShipType {
                 ShipType::Cargo
             },
             80 | 81 | 82 | 83 | 84 | 85 | 86 | 87 | 88 | 89 => {
-                ShipType::Cargo
+                ShipType::Tanker
             },
             90 | 91 | 92 | 93 | 94 | 95 | 96 | 97 | 98 | 99 => {
-                ShipType::Cargo
+                ShipType::Other
             },
             _ => {
                 warn!("Unexpected ship and cargo type: {}", raw);
-- 
2.43.0


From 7fdffbe166ac719ffc5f62f7fcff5dfec5e1d3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:13 +0000
Subject: [PATCH 09/22] fix: type 5 messages come from class A stations

---
 src/ais/vdm_t5.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ais/vdm_t5.rs b/src/ais/vdm_t5.rs
index 37fb814..c1b24e9 100644
--- a/src/ais/vdm_t5.rs
+++ b/src/ais/vdm_t5.rs
@@ -20,7 +20,7 @@ use super::*;
 pub fn handle(bv: &BitVec, _station: Station, own_vessel: bool) -> Result<ParsedSentence, ParseError> {
     return Ok(ParsedSentence::VesselStaticData(VesselStaticData{
         own_vessel:              own_vessel,
-        ais_type:                AisClass::ClassB,
+        ais_type:                AisClass::ClassA,
         mmsi:                    pick_u64(&bv, 8, 30) as u32,
         ais_version_indicator:   pick_u64(&bv, 38, 2) as u8,
         imo_number: {
-- 
2.43.0


From 803d0902a0d23eea7b5ebe76c839b0e9e023a8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:14 +0000
Subject: [PATCH 10/22] fix: draught 0 means not available

---
 src/ais/vdm_t5.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ais/vdm_t5.rs b/src/ais/vdm_t5.rs
index c1b24e9..082b371 100644
--- a/src/ais/vdm_t5.rs
+++ b/src/ais/vdm_t5.rs
@@ -70,7 +70,10 @@ pub fn handle(bv: &BitVec, _station: Station, own_vessel: bool) -> Result<Parsed
             }
         },
         eta:                     pick_eta(&bv, 274),
-        draught10:               Some(pick_u64(&bv, 294, 8) as u8),
+        draught10: {
+            let raw = pick_u64(&bv, 294, 8) as u8;
+            match raw { 0 => { None }, _ => { Some(raw) } }
+        },
         destination: {
             let raw = pick_string(&bv, 302, 20);
             match raw.as_str() { "" => { None }, _ => { Some(raw) }, }
-- 
2.43.0


From 37c4097e89e939402bff89fa66e9c07b6cfb3e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:14 +0000
Subject: [PATCH 11/22] fix: rate of turn is the square of raw/4.733 (0..708
 deg/min)

---
 src/ais/vdm_t1t2t3.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ais/vdm_t1t2t3.rs b/src/ais/vdm_t1t2t3.rs
index 8a68569..b81b281 100644
--- a/src/ais/vdm_t1t2t3.rs
+++ b/src/ais/vdm_t1t2t3.rs
@@ -38,9 +38,9 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
         rot: {
             let raw = pick_i64(&bv, 42, 8);
             if -126 <= raw && raw < 0 {
-                Some(-((-raw as f64 * 708.0/126.0) / 4.733).powi(2))
+                Some(-((-raw as f64) / 4.733).powi(2))
             } else if 0 <= raw && raw <= 126 {
-                Some(((raw as f64 * 708.0/126.0) / 4.733).powi(2))
+                Some(((raw as f64) / 4.733).powi(2))
             } else {
                 None
             }
-- 
2.43.0


From 988c01edec15d89bc6bb72acf6d2113726124228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:15 +0000
Subject: [PATCH 12/22] fix: manoeuvre indicator 1 means not engaged in special
 manoeuvre

---
 src/ais/vdm_t1t2t3.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ais/vdm_t1t2t3.rs b/src/ais/vdm_t1t2t3.rs
index b81b281..f684b85 100644
--- a/src/ais/vdm_t1t2t3.rs
+++ b/src/ais/vdm_t1t2t3.rs
@@ -119,7 +119,7 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
             let raw = pick_u64(&bv, 143, 2);
             match raw {
                 0 => { None },
-                1 => { Some(true) },
+                1 => { Some(false) },
                 2 => { Some(true) },
                 _ => {
                     warn!("Unrecognized Maneuver Indicator value: {}", raw);
-- 
2.43.0


From fd3ee5fc2dcbe72d868f46ab9cd9fa014c58dc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:15 +0000
Subject: [PATCH 13/22] fix: class B and RAIM flags of type 18 are one resp.
 six bits later

---
 src/ais/vdm_t18.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ais/vdm_t18.rs b/src/ais/vdm_t18.rs
index 3201a2b..8feaeea 100644
--- a/src/ais/vdm_t18.rs
+++ b/src/ais/vdm_t18.rs
@@ -76,12 +76,12 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
         class_b_unit_flag: { 
             None 
         },
-        class_b_display:    Some(pick_u64(&bv, 141, 1) != 0),
-        class_b_dsc:        Some(pick_u64(&bv, 142, 1) != 0),
-        class_b_band_flag:  Some(pick_u64(&bv, 143, 1) != 0),
-        class_b_msg22_flag: Some(pick_u64(&bv, 144, 1) != 0),
-        class_b_mode_flag:  Some(pick_u64(&bv, 145, 1) != 0),
-        raim_flag:          pick_u64(&bv, 141, 1) != 0,
+        class_b_display:    Some(pick_u64(&bv, 142, 1) != 0),
+        class_b_dsc:        Some(pick_u64(&bv, 143, 1) != 0),
+        class_b_band_flag:  Some(pick_u64(&bv, 144, 1) != 0),
+        class_b_msg22_flag: Some(pick_u64(&bv, 145, 1) != 0),
+        class_b_mode_flag:  Some(pick_u64(&bv, 146, 1) != 0),
+        raim_flag:          pick_u64(&bv, 147, 1) != 0,
         class_b_css_flag: {
             None
         },
-- 
2.43.0


From ea70fdea00532f028f7a9246e5c755f31ad640df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:16 +0000
Subject: [PATCH 14/22] fix: off-position indicator of type 21 is bit 259

---
 src/ais/vdm_t21.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ais/vdm_t21.rs b/src/ais/vdm_t21.rs
index ddcb097..f1f1054 100644
--- a/src/ais/vdm_t21.rs
+++ b/src/ais/vdm_t21.rs
@@ -347,7 +347,7 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
             pick_u64(&bv, 253, 6) as u8
         },
         off_position_indicator: {
-            pick_u64(&bv, 243, 1) != 0
+            pick_u64(&bv, 259, 1) != 0
         },
         regional: {
             pick_u64(&bv, 260, 8) as u8
-- 
2.43.0


From 6e9cad755f3cb8bf06cebb91281329895d255edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:17 +0000
Subject: [PATCH 15/22] fix: name of type 24 part A is 20 characters (120 bits)

---
 src/ais/vdm_t24.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ais/vdm_t24.rs b/src/ais/vdm_t24.rs
index 23a4bfd..d3f47a5 100644
--- a/src/ais/vdm_t24.rs
+++ b/src/ais/vdm_t24.rs
@@ -47,7 +47,7 @@ pub fn handle(bv: &BitVec, _station: Station, store: &mut NmeaParser, own_vessel
         },
         name: {
             if part_a {
-                let raw = pick_string(&bv, 40, 120);
+                let raw = pick_string(&bv, 40, 20);
                 match raw.as_str() { "" => { None }, _ => { Some(raw) }, }
             } else {
                 None
-- 
2.43.0


From 372a6be162292881835ea6aea877454a5fb03da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:17 +0000
Subject: [PATCH 16/22] fix: a repeated part of a type 24 report does not
 complete it

---
 src/ais/vdm_t24.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/ais/vdm_t24.rs b/src/ais/vdm_t24.rs
index d3f47a5..04e17e6 100644
--- a/src/ais/vdm_t24.rs
+++ b/src/ais/vdm_t24.rs
@@ -130,11 +130,16 @@ pub fn handle(bv: &BitVec, _station: Station, store: &mut NmeaParser, own_vessel
     };
 
     // Check whether we can return a complete or incomplete response
-    if let Some(vsd2) = store.pull_vsd(vsd.mmsi) {
-        Ok(ParsedSentence::VesselStaticData(vsd.merge(&vsd2)?))
-    } else {
-        store.push_vsd(vsd.mmsi, vsd);
-        Ok(ParsedSentence::Incomplete)
+    match store.pull_vsd(vsd.mmsi) {
+        // The other part is already there (only part B has the equipment model)
+        Some(ref vsd2) if vsd2.equipment_model.is_some() != part_b => {
+            Ok(ParsedSentence::VesselStaticData(vsd.merge(vsd2)?))
+        },
+        // This is the first part or a repetition of it
+        _ => {
+            store.push_vsd(vsd.mmsi, vsd);
+            Ok(ParsedSentence::Incomplete)
+        }
     }
 }
 
-- 
2.43.0


From 700d7cbaa6552e7f8c67026969d1b18bd0d646d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:18 +0000
Subject: [PATCH 17/22] fix: recognize and print FAA mode S (simulator)

---
 src/gnss/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gnss/mod.rs b/src/gnss/mod.rs
index 0e6959e..e4ab990 100644
--- a/src/gnss/mod.rs
+++ b/src/gnss/mod.rs
@@ -110,6 +110,7 @@ impl FaaMode {
             "D" => Ok(FaaMode::Differential),
             "E" => Ok(FaaMode::Estimated),
             "N" => Ok(FaaMode::NotValid),
+            "S" => Ok(FaaMode::Simulator),
             _ => { Err(format!("Unrecognized FAA information value: {}", val)) }
         }
     }
@@ -122,7 +123,7 @@ impl std::fmt::Display for FaaMode {
             FaaMode::Differential => { write!(f, "D") }
             FaaMode::Estimated => { write!(f, "E") }
             FaaMode::NotValid => { write!(f, "N") }
-            _ => { write!(f, "?") }
+            FaaMode::Simulator => { write!(f, "S") }
         }
         
     }
-- 
2.43.0


From 4f43f185bcb44041e93d8431c5922a48bcf4bb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:19 +0000
Subject: [PATCH 18/22] fix: keep the spaces between name and name extension of
 type 21

---
 src/ais/vdm_t21.rs | 4 ++--
 src/util.rs        | 8 +++++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ais/vdm_t21.rs b/src/ais/vdm_t21.rs
index f1f1054..59221b1 100644
--- a/src/ais/vdm_t21.rs
+++ b/src/ais/vdm_t21.rs
@@ -305,9 +305,9 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
             NavAidType::new(pick_u64(&bv, 38, 5) as u8).ok().unwrap_or(NavAidType::NotSpecified)
         },
         name: {
-            let mut s = pick_string(&bv, 43, 20);
+            let mut s = pick_untrimmed_string(&bv, 43, 20);
             s.push_str(&pick_string(&bv, 272, 14));
-            s
+            s.trim_end().to_string()
         },
         high_position_accuracy: {
             pick_u64(&bv, 163, 1) != 0
diff --git a/src/util.rs b/src/util.rs
index ad15980..5ee46e2 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -74,6 +74,12 @@ pub fn pick_i64(bv: &BitVec, index: usize, len: usize) -> i64 {
 #[doc(hidden)]
 /// Pick a string from BitVec. Char_count is the length in characters. Character size is 6-bits.
 pub fn pick_string(bv: &BitVec, index: usize, char_count: usize) -> String {
+    pick_untrimmed_string(bv, index, char_count).trim_end().to_string()
+}
+
+#[doc(hidden)]
+/// Pick a string from BitVec like `pick_string` does but keep the trailing spaces.
+pub fn pick_untrimmed_string(bv: &BitVec, index: usize, char_count: usize) -> String {
     let char_size = 6;
     let mut res = String::with_capacity(char_count);
     for i in 0 .. char_count {
@@ -87,7 +93,7 @@ pub fn pick_string(bv: &BitVec, index: usize, char_count: usize) -> String {
             res.push(std::char::from_u32(ch).unwrap_or(' '))
         }
     }
-    res.trim_end().to_string()
+    res
 }
 
 #[doc(hidden)]
-- 
2.43.0


From ee685cfd831795e1f06bf2b12e28322e07ad6d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:19 +0000
Subject: [PATCH 19/22] fix: reject coordinates with trailing garbage

---
 src/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 5ee46e2..db29385 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -188,7 +188,7 @@ fn pick_d2(s: &str, i: usize) -> Option<u32> {
 pub fn parse_latitude_ddmm_mmm(lat_string: &str, hemisphere: &str) -> Result<Option<f64>, String> {
     // DDMM.MMM
     if lat_string != "" {
-        let re = Regex::new(r"^([0-9][0-9])([0-9][0-9]\.[0-9]+)").unwrap();
+        let re = Regex::new(r"^([0-9][0-9])([0-9][0-9]\.[0-9]+)$").unwrap();
         if let Some(caps) = re.captures(lat_string) {
             let d = caps.get(1).unwrap().as_str().parse::<f64>().ok().unwrap_or(0.0);
             let m = caps.get(2).unwrap().as_str().parse::<f64>().ok().unwrap_or(0.0);
@@ -208,7 +208,7 @@ pub fn parse_latitude_ddmm_mmm(lat_string: &str, hemisphere: &str) -> Result<Opt
 pub fn parse_longitude_dddmm_mmm(lon_string: &str, eastwest: &str) -> Result<Option<f64>, String> {
     // DDDMM.MMM
     if lon_string != "" {
-        let re = Regex::new(r"^([0-9][0-9][0-9])([0-9][0-9]\.[0-9]+)").unwrap();
+        let re = Regex::new(r"^([0-9][0-9][0-9])([0-9][0-9]\.[0-9]+)$").unwrap();
         if let Some(caps) = re.captures(lon_string) {
             let d = caps.get(1).unwrap().as_str().parse::<f64>().ok().unwrap_or(0.0);
             let m = caps.get(2).unwrap().as_str().parse::<f64>().ok().unwrap_or(0.0);
-- 
2.43.0


From 12230c5da87a560b327e115429ce032b5271dc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:20 +0000
Subject: [PATCH 20/22] fix: reject number fields like "nan" and "inf"

---
 src/util.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index db29385..e0abcc9 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -132,6 +132,10 @@ pub fn pick_eta(bv: &BitVec, index: usize) -> Option<DateTime::<Utc>> {
 pub fn pick_number_field<T: std::str::FromStr>(split: &Vec<&str>, num: usize) -> Result<Option<T>, String> {
     let s = split.get(num).unwrap_or(&"");
     if *s != "" {
+        // The standard parser would also accept the likes of "nan", "inf" and "1e3"
+        if s.bytes().any(|b| b.is_ascii_alphabetic()) {
+            return Err(format!("Failed to parse field {}: {}", num, s));
+        }
         match s.parse::<T>() {
             Ok(p)   => { Ok(Some(p)) }, 
             Err(_e) => { Err(format!("Failed to parse field {}: {}", num, s)) }
-- 
2.43.0


From 898828068b756c54d260f02ba9d780bf8a246bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:06 +0000
Subject: [PATCH 21/22] fix: country of MIDs 445 (KP), 660 (RE) and 676 (CD)

---
 src/ais/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ais/mod.rs b/src/ais/mod.rs
index e9140ba..851290d 100644
--- a/src/ais/mod.rs
+++ b/src/ais/mod.rs
@@ -802,7 +802,7 @@ impl VesselStaticData {
             440 => Some("KR"), // Korea
             441 => Some("KR"), // Korea
             443 => Some("PS"), // Palestine, State of
-            445 => Some("KR"), // Korea
+            445 => Some("KP"), // Korea (the Democratic People's Republic of)
             447 => Some("KW"), // Kuwait
             450 => Some("LB"), // Lebanon
             451 => Some("KG"), // Kyrgyzstan
@@ -905,7 +905,7 @@ impl VesselStaticData {
             656 => Some("NE"), // Niger
             657 => Some("NG"), // Nigeria
             659 => Some("NA"), // Namibia
-            660 => Some("TF"), // French Southern Territories
+            660 => Some("RE"), // Réunion
             661 => Some("RW"), // Rwanda
             662 => Some("SD"), // Sudan
             663 => Some("SN"), // Senegal
@@ -920,7 +920,7 @@ impl VesselStaticData {
             672 => Some("TN"), // Tunisia
             674 => Some("TZ"), // Tanzania, United Republic of
             675 => Some("UG"), // Uganda
-            676 => Some("CG"), // Congo
+            676 => Some("CD"), // Congo (the Democratic Republic of the)
             677 => Some("TZ"), // Tanzania, United Republic of
             678 => Some("ZM"), // Zambia
             679 => Some("ZW"), // Zimbabwe
-- 
2.43.0


From 567787b05f0c141123dad08c741350415147557c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:34 +0000
Subject: [PATCH 22/22] fix: reject numbers too large for their field instead
 of reporting infinity

---
 src/util.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index e0abcc9..54b8aaa 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -132,8 +132,9 @@ pub fn pick_eta(bv: &BitVec, index: usize) -> Option<DateTime::<Utc>> {
 pub fn pick_number_field<T: std::str::FromStr>(split: &Vec<&str>, num: usize) -> Result<Option<T>, String> {
     let s = split.get(num).unwrap_or(&"");
     if *s != "" {
-        // The standard parser would also accept the likes of "nan", "inf" and "1e3"
-        if s.bytes().any(|b| b.is_ascii_alphabetic()) {
+        // The standard parser would also accept the likes of "nan", "inf" and "1e3", and turn
+        // a number too large for any type into infinity
+        if s.bytes().any(|b| b.is_ascii_alphabetic()) || s.parse::<f64>().map_or(false, |v| v.is_infinite()) {
             return Err(format!("Failed to parse field {}: {}", num, s));
         }
         match s.parse::<T>() {
-- 
2.43.0

