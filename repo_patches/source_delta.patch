From 7e92e98de5dfb8f206ca545017a7417e5f294660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:58 +0000
Subject: [PATCH 01/35] fix: feed each source to its own chain

The sources were taken from the end of the list while chain ids were
counted from the start, so the first input went into the last chain and
rows with equal timestamps came out in reverse input order.
---
 src/driver/driver.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/driver/driver.rs b/src/driver/driver.rs
index ced20b7..21143fa 100644
--- a/src/driver/driver.rs
+++ b/src/driver/driver.rs
@@ -62,8 +62,7 @@ impl Driver {
 
     fn get_row_buffers(&mut self) -> CliResult<Vec<SourceRowBuffer>> {
         let mut row_buffers: Vec<SourceRowBuffer> = Vec::with_capacity(self.sources.len());
-        for i in 0..self.sources.len() {
-            let source = self.sources.pop().unwrap();
+        for (i, source) in self.sources.drain(..).enumerate() {
             row_buffers.push(SourceRowBuffer::new(source, i, &self.timestamp_range)?);
         }
         Ok(row_buffers)
-- 
2.43.0


From e28b58a6e8298fd5af20142f67824b6f2667249b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 02/35] fix: do not panic when an input has no rows in range

An empty input, or one entirely outside of the time range, has no first
row; it is done right away and its chain only needs to be flushed.
---
 src/driver/driver.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/driver/driver.rs b/src/driver/driver.rs
index 21143fa..31f6ccb 100644
--- a/src/driver/driver.rs
+++ b/src/driver/driver.rs
@@ -65,6 +65,13 @@ impl Driver {
         for (i, source) in self.sources.drain(..).enumerate() {
             row_buffers.push(SourceRowBuffer::new(source, i, &self.timestamp_range)?);
         }
+        // sources with no rows to process are already done
+        for row_buffer in &mut row_buffers {
+            if row_buffer.row().is_none() {
+                self.flush(row_buffer.chain_id(), 0)?;
+            }
+        }
+        row_buffers.retain(|row_buffer| row_buffer.row().is_some());
         Ok(row_buffers)
     }
 
-- 
2.43.0


From d26d37873e4c4189f7a3b2a924adc2b39786432f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 03/35] fix: write csv header with the same delimiter and
 columns as the rows

The header always used a comma, and ended in one when there were no
columns besides the time.
---
 src/write/csv_sink.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/write/csv_sink.rs b/src/write/csv_sink.rs
index 39253ee..08265de 100644
--- a/src/write/csv_sink.rs
+++ b/src/write/csv_sink.rs
@@ -36,17 +36,19 @@ impl CSVSink {
     fn write_csv_header(&mut self, header: &mut Header) -> CliResult<()> {
         let writer = &mut self.writer;
         let field_name = header.field_names().clone();
+        let delimiter = self.csv_output_config.delimiter();
         let mut first = true;
 
         if self.csv_output_config.print_time_col() {
-            write!(writer, "{},", self.csv_output_config.time_col_name())?;
+            write!(writer, "{}", self.csv_output_config.time_col_name())?;
+            first = false;
         }
         for name in field_name {
             if first {
                 write!(writer, "{}", name)?;
                 first = false;
             } else {
-                write!(writer, ",{}", name)?;
+                write!(writer, "{}{}", delimiter, name)?;
             }
         }
         write!(writer, "\n")?;
-- 
2.43.0


From 9a4f625f37cb935d4059def0220d8d467cbf36fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 04/35] fix: size of the null bitset in dc output

One byte too few was written for 9, 17, ... columns, which made the file
unreadable, and files of one column or none caused a panic.
---
 src/util/dc_util.rs  | 2 +-
 src/write/dc_sink.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/dc_util.rs b/src/util/dc_util.rs
index 96258c3..ccd0a5c 100644
--- a/src/util/dc_util.rs
+++ b/src/util/dc_util.rs
@@ -22,7 +22,7 @@ pub enum DisplayHint {
 }
 
 pub fn get_bitset_bytes(field_count: usize) -> usize {
-    1 + ((field_count - 1) / 8)
+    (field_count + 7) / 8
 }
 
 // map for field types
diff --git a/src/write/dc_sink.rs b/src/write/dc_sink.rs
index 04fdc09..9023fa6 100644
--- a/src/write/dc_sink.rs
+++ b/src/write/dc_sink.rs
@@ -128,7 +128,7 @@ impl DCSink {
 impl HeaderSink for DCSink {
     fn process_header(mut self: Box<Self>, header: &mut Header) -> CliResult<Box<dyn DataSink>> {
         Self::write_header(&mut self, header)?;
-        let bitset_bytes = dc_util::get_bitset_bytes(header.field_types().len() - 1);
+        let bitset_bytes = dc_util::get_bitset_bytes(header.field_types().len());
         self.bitset_bytes = bitset_bytes;
         Ok(self.boxed())
     }
-- 
2.43.0


From b551f5396309ba6f3f5b28f2cab49db54794218a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 05/35] fix: report damaged dc input instead of treating it as
 its end

Any error at the start of a row, including a failed read, a crc mismatch
or a file cut off inside of a timestamp, silently ended the input.
---
 src/source/dc_source.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/source/dc_source.rs b/src/source/dc_source.rs
index 5df54da..3548e54 100644
--- a/src/source/dc_source.rs
+++ b/src/source/dc_source.rs
@@ -1,5 +1,5 @@
 use std::collections::HashMap;
-use std::io::{self, Read};
+use std::io::{self, BufRead, Read};
 use std::str;
 
 use byteorder::{BigEndian, ReadBytesExt};
@@ -95,10 +95,10 @@ impl<R: io::Read> DCSource<R> {
     }
 
     fn next_row(&mut self) -> CliResult<Option<Row>> {
-        match self.reader.read_u64::<BigEndian>() {
-            Ok(i) => self.current_row.timestamp = i,
-            Err(_e) => return Ok(None),
-        };
+        if self.is_end_of_data()? {
+            return Ok(None);
+        }
+        self.current_row.timestamp = self.reader.read_u64::<BigEndian>()?;
 
         // bitset of null values
         let bitset_bytes = &mut self.bitset_bytes;
@@ -159,6 +159,16 @@ impl<R: io::Read> DCSource<R> {
         Ok(Some(self.current_row.clone()))
     }
 
+    fn is_end_of_data(&mut self) -> CliResult<bool> {
+        loop {
+            match self.reader.fill_buf() {
+                Ok(buf) => return Ok(buf.is_empty()),
+                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,
+                Err(e) => return Err(e.into()),
+            }
+        }
+    }
+
     fn read_string(reader: &mut io::BufReader<R>) -> CliResult<String> {
         let data_size_short = reader.read_i16::<BigEndian>()?;
         let data_size = match data_size_short {
-- 
2.43.0


From 4c2480571f561f3668fad404ef3f6c08d6e281ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 06/35] fix: report malformed dc headers and strings as errors

An unknown column type or text that is not utf-8 caused a panic, and a
damaged length aborted the process by asking for too much memory.
---
 src/source/dc_source.rs | 37 +++++++++++++++++++++++++------------
 src/util/dc_util.rs     |  7 +++++--
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/source/dc_source.rs b/src/source/dc_source.rs
index 3548e54..b754fe5 100644
--- a/src/source/dc_source.rs
+++ b/src/source/dc_source.rs
@@ -51,13 +51,11 @@ impl<R: io::Read> DCSource<R> {
 
         let map_field_string = &FIELD_STRING_MAP_NAME;
         let field_count = reader.read_u32::<BigEndian>()? as usize;
-        let bitset_byte_count = dc_util::get_bitset_bytes(field_count);
-        let bitset_bytes: Vec<u8> = vec![0 as u8; bitset_byte_count];
 
         // field descriptor (header)
-        let mut field_names: Vec<String> = Vec::with_capacity(field_count);
-        let mut field_types: Vec<FieldType> = Vec::with_capacity(field_count);
-        let mut field_values: Vec<FieldValue> = Vec::with_capacity(field_count);
+        let mut field_names: Vec<String> = Vec::new();
+        let mut field_types: Vec<FieldType> = Vec::new();
+        let mut field_values: Vec<FieldValue> = Vec::new();
         for i in 0..field_count {
             let field_descriptor = dc_util::FieldDescriptor::new(&mut reader)?;
             let mut name = field_descriptor.get_name().to_string();
@@ -66,15 +64,21 @@ impl<R: io::Read> DCSource<R> {
                 name = format!("col_{}", i);
             }
             field_names.push(name);
-            field_types.push(
-                map_field_string
-                    .get(field_descriptor.get_type_string())
-                    .unwrap()
-                    .clone(),
-            );
+            match map_field_string.get(field_descriptor.get_type_string()) {
+                Some(field_type) => field_types.push(field_type.clone()),
+                None => {
+                    return Err(Error::from(format!(
+                        "DCReader -- unknown field type - {}",
+                        field_descriptor.get_type_string()
+                    )))
+                }
+            };
             field_values.push(FieldValue::None);
         }
 
+        let bitset_byte_count = dc_util::get_bitset_bytes(field_count);
+        let bitset_bytes: Vec<u8> = vec![0 as u8; bitset_byte_count];
+
         // Header
         let header: Header = Header::new(field_names, field_types);
 
@@ -173,13 +177,22 @@ impl<R: io::Read> DCSource<R> {
         let data_size_short = reader.read_i16::<BigEndian>()?;
         let data_size = match data_size_short {
             -1 => reader.read_u32::<BigEndian>()?,
+            n if n < 0 => {
+                return Err(Error::from(format!(
+                    "DCReader -- wrong string length - {}",
+                    n
+                )))
+            }
             _ => data_size_short as u32,
         };
         let mut string: Vec<u8> = vec![0; data_size as usize];
         let string = string.as_mut_slice();
         reader.read_exact(string)?;
 
-        Ok(str::from_utf8_mut(string).unwrap().to_string())
+        match str::from_utf8(string) {
+            Ok(s) => Ok(s.to_string()),
+            Err(e) => Err(Error::from(format!("DCReader -- wrong string - {}", e))),
+        }
     }
 }
 
diff --git a/src/util/dc_util.rs b/src/util/dc_util.rs
index ccd0a5c..9d39f99 100644
--- a/src/util/dc_util.rs
+++ b/src/util/dc_util.rs
@@ -105,11 +105,14 @@ impl FieldDescriptor {
 
     fn get_sized_string<R: io::BufRead>(mut rdr: R) -> CliResult<String> {
         let size = rdr.read_u32::<BigEndian>()?;
-        let mut string_bytes: Vec<u8> = Vec::with_capacity(size as usize);
+        let mut string_bytes: Vec<u8> = Vec::new();
         for _i in 0..size as usize {
             string_bytes.push(rdr.read_u8()?);
         }
-        Ok(String::from_utf8(string_bytes).unwrap().to_string())
+        match String::from_utf8(string_bytes) {
+            Ok(string) => Ok(string),
+            Err(e) => Err(Error::from(format!("wrong string in dc header: {}", e))),
+        }
     }
 }
 
-- 
2.43.0


From fea24d6058338bea58c48750df95d83388e658d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 07/35] fix: report a missing timestamp column instead of
 panicking

---
 src/source/csv_timestamp.rs | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/source/csv_timestamp.rs b/src/source/csv_timestamp.rs
index 748517f..6570d09 100644
--- a/src/source/csv_timestamp.rs
+++ b/src/source/csv_timestamp.rs
@@ -85,7 +85,7 @@ pub fn get_timestamp(
     timestamp_fmt: &TimestampFmt,
     timezone: &ChopperTz,
 ) -> CliResult<Nanos> {
-    let timestamp = get_timestamp_string(record, timestamp_col);
+    let timestamp = get_timestamp_string(record, timestamp_col)?;
 
     let timestamp = match timestamp_fmt {
         TimestampFmt::Units(units) => {
@@ -152,7 +152,7 @@ fn get_timestamp_fmt_from_user_spec(
     format: String,
     timezone: &ChopperTz,
 ) -> CliResult<TimestampFmt> {
-    let timestamp = get_timestamp_string(first_row, timestamp_col);
+    let timestamp = get_timestamp_string(first_row, timestamp_col)?;
 
     if let Ok(_) = DateTime::parse_from_str(&timestamp, &format) {
         Ok(TimestampFmt::DateTimeIncludesTz(format))
@@ -172,19 +172,32 @@ fn get_timestamp_fmt_from_user_spec(
     }
 }
 
-fn get_timestamp_string(record: &csv::StringRecord, timestamp_col: &TimestampCol) -> String {
-    match timestamp_col {
-        TimestampCol::Index(i) => record.get(*i).unwrap().to_string(),
+fn get_field(record: &csv::StringRecord, index: usize) -> CliResult<&str> {
+    match record.get(index) {
+        Some(field) => Ok(field),
+        None => Err(Error::from(format!(
+            "Timestamp column {} is missing in csv row: {:?}",
+            index, record
+        ))),
+    }
+}
+
+fn get_timestamp_string(
+    record: &csv::StringRecord,
+    timestamp_col: &TimestampCol,
+) -> CliResult<String> {
+    Ok(match timestamp_col {
+        TimestampCol::Index(i) => get_field(record, *i)?.to_string(),
         TimestampCol::DateTimeIndex(d, t) => {
-            let date = record.get(*d).unwrap();
-            let time = record.get(*t).unwrap();
+            let date = get_field(record, *d)?;
+            let time = get_field(record, *t)?;
             let mut timestamp = String::with_capacity(date.len() + 1 + time.len());
             timestamp.push_str(date);
             timestamp.push('#');
             timestamp.push_str(time);
             timestamp
         }
-    }
+    })
 }
 
 fn get_timestamp_col(
@@ -332,7 +345,7 @@ fn get_timestamp_fmt_auto_with_index(
         return Ok(TimestampFmt::Units(units));
     }
 
-    let timestamp = first_row.get(time_idx).unwrap();
+    let timestamp = get_field(first_row, time_idx)?;
 
     for format in &TIME_FORMATS_WITH_TZ {
         if DateTime::parse_from_str(timestamp, format).is_ok() {
@@ -387,8 +400,8 @@ fn get_timestamp_fmt_auto_with_datetimeindex(
     timezone: &ChopperTz,
     first_row: &csv::StringRecord,
 ) -> CliResult<TimestampFmt> {
-    let date = first_row.get(date_idx).unwrap();
-    let time = first_row.get(time_idx).unwrap();
+    let date = get_field(first_row, date_idx)?;
+    let time = get_field(first_row, time_idx)?;
 
     let mut timestamp = String::with_capacity(date.len() + 1 + time.len());
     timestamp.push_str(date);
-- 
2.43.0


From e589b89b1e53c7b91cc94dd8e98da423aab72e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 08/35] fix: do not panic when a csv input has no rows

An empty csv file, or one with only a header, yields no rows.
---
 src/source/csv_source.rs | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/source/csv_source.rs b/src/source/csv_source.rs
index 944b6a2..61f91e9 100644
--- a/src/source/csv_source.rs
+++ b/src/source/csv_source.rs
@@ -7,7 +7,7 @@ use crate::chopper::types::{FieldType, FieldValue, Header, Nanos, Row};
 use crate::cli::util::YesNoAuto;
 use crate::error::CliResult;
 use crate::source::csv_configs::CSVInputConfig;
-use crate::source::csv_timestamp::{self, TimestampCol, TimestampFmt};
+use crate::source::csv_timestamp::{self, TimestampCol, TimestampFmt, TimestampUnits};
 use crate::util::csv_util;
 use crate::util::reader::{ChopperBufPreviewer, ChopperBufReader};
 use crate::util::tz::ChopperTz;
@@ -60,8 +60,7 @@ impl CSVSource {
             .from_reader(reader);
 
         // get first row
-        let first_row: csv::StringRecord = reader.records().next().unwrap()?;
-        let field_count = first_row.len();
+        let first_row: Option<csv::StringRecord> = reader.records().next().transpose()?;
 
         // get field names if available
         let mut field_names: Vec<String> = Vec::new();
@@ -70,12 +69,13 @@ impl CSVSource {
             for i in header_record {
                 field_names.push(i.to_string());
             }
-        } else {
+        } else if let Some(first_row) = &first_row {
             // if field name is not given, assign default name - "col_x"
-            for i in 0..field_count {
+            for i in 0..first_row.len() {
                 field_names.push(format!("col_{}", i));
             }
         }
+        let field_count = field_names.len();
 
         // initialize next_row
         let timestamp: Nanos = 0;
@@ -89,13 +89,20 @@ impl CSVSource {
 
         let timestamp_config = csv_config.timestamp_config();
         let timezone = timestamp_config.timezone();
-        let (timestamp_col, timestamp_fmt) = csv_timestamp::get_timestamp_col_and_fmt(
-            &header,
-            &first_row,
-            timestamp_config.timestamp_col(),
-            timestamp_config.timestamp_fmt(),
-            timezone,
-        )?;
+        let (timestamp_col, timestamp_fmt) = match &first_row {
+            Some(first_row) => csv_timestamp::get_timestamp_col_and_fmt(
+                &header,
+                first_row,
+                timestamp_config.timestamp_col(),
+                timestamp_config.timestamp_fmt(),
+                timezone,
+            )?,
+            // there are no timestamps to parse
+            None => (
+                TimestampCol::Index(0),
+                TimestampFmt::Units(TimestampUnits::Nanos),
+            ),
+        };
 
         let mut csv_reader = CSVSource {
             reader,
@@ -104,11 +111,13 @@ impl CSVSource {
             timestamp_fmt,
             timezone: timezone.clone(),
             next_row,
-            has_next_row: true,
+            has_next_row: first_row.is_some(),
         };
 
         // update next_row with first row
-        csv_reader.update_row(first_row)?;
+        if let Some(first_row) = first_row {
+            csv_reader.update_row(first_row)?;
+        }
 
         Ok(csv_reader)
     }
-- 
2.43.0


From c4422533297dd1b18d79c69b151e81d4cee76726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 09/35] fix: csv rows with fewer or more fields than the header

A short row kept the values of the row before it in the missing fields,
and a long one caused a panic.
---
 src/source/csv_source.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/source/csv_source.rs b/src/source/csv_source.rs
index 61f91e9..3e7cddc 100644
--- a/src/source/csv_source.rs
+++ b/src/source/csv_source.rs
@@ -5,7 +5,7 @@ use csv::{self, Trim};
 use crate::chopper::chopper::Source;
 use crate::chopper::types::{FieldType, FieldValue, Header, Nanos, Row};
 use crate::cli::util::YesNoAuto;
-use crate::error::CliResult;
+use crate::error::{CliResult, Error};
 use crate::source::csv_configs::CSVInputConfig;
 use crate::source::csv_timestamp::{self, TimestampCol, TimestampFmt, TimestampUnits};
 use crate::util::csv_util;
@@ -123,9 +123,18 @@ impl CSVSource {
     }
 
     fn update_row(&mut self, next_record: csv::StringRecord) -> CliResult<()> {
-        for i in 0..next_record.len() {
-            self.next_row.field_values[i] =
-                FieldValue::String(next_record.get(i).unwrap().to_string());
+        let field_count = self.next_row.field_values.len();
+        if next_record.len() > field_count {
+            return Err(Error::from(format!(
+                "CSVSource -- row has more fields than expected {}: {:?}",
+                field_count, next_record
+            )));
+        }
+        for i in 0..field_count {
+            self.next_row.field_values[i] = match next_record.get(i) {
+                Some(value) => FieldValue::String(value.to_string()),
+                None => FieldValue::None,
+            };
         }
 
         self.next_row.timestamp = csv_timestamp::get_timestamp(
-- 
2.43.0


From e8e48b62c0e52f94bca8e31c48d3e599b500de39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 10/35] fix: drop extra columns at the end of later files of a
 directory

When all expected columns were in place already, the rows were passed
through whole and had more values than the header has columns.
---
 src/source/multi_file_source.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/source/multi_file_source.rs b/src/source/multi_file_source.rs
index a92bcc1..18a66f0 100644
--- a/src/source/multi_file_source.rs
+++ b/src/source/multi_file_source.rs
@@ -111,7 +111,8 @@ impl SerialMultiFileSource {
         }
 
         let mut new_header = new_header.clone();
-        let mut is_identity_map = true;
+        // rows with extra columns still have to be truncated
+        let mut is_identity_map = new_header.field_names().len() == ref_header.field_names().len();
 
         let mut swap_map = Vec::with_capacity(ref_header.field_names().len());
         for (ref_idx, ref_field_name) in ref_header.field_names().iter().enumerate() {
-- 
2.43.0


From 48094884bda217dfb7603e89603e132cdad97078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 11/35] fix: detect dc contents before csv contents

The csv factory accepts any contents without invalid text in its
preview, which took dc files that happen to have none for csv.
---
 src/input/input_factory.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/input/input_factory.rs b/src/input/input_factory.rs
index 2a388ef..0de9921 100644
--- a/src/input/input_factory.rs
+++ b/src/input/input_factory.rs
@@ -153,10 +153,11 @@ pub fn create_default_source_factories(
     csv_input_config: Option<CSVInputConfig>,
 ) -> Vec<Box<dyn SourceFactory>> {
     let mut source_factories: Vec<Box<dyn SourceFactory>> = Vec::new();
+    source_factories.push(Box::new(DCFactory));
+    // csv has to be last, because it accepts almost anything when looking at contents
     if let Some(csv_input_config) = csv_input_config {
         source_factories.push(Box::new(CSVFactory::new(csv_input_config)));
     }
-    source_factories.push(Box::new(DCFactory));
     source_factories
 }
 
-- 
2.43.0


From fa50e28003a587e979434e9dc59ae7596ab20c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 12/35] fix: read all members of gzip input

Anything after the first member was silently ignored.
---
 src/decompress/decompress.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decompress/decompress.rs b/src/decompress/decompress.rs
index b081007..7bd75c0 100644
--- a/src/decompress/decompress.rs
+++ b/src/decompress/decompress.rs
@@ -2,7 +2,7 @@ use std::io;
 use std::io::{BufReader, Read};
 
 use byteorder::{BigEndian, ReadBytesExt};
-use flate2::read::GzDecoder;
+use flate2::read::MultiGzDecoder;
 use lz_fear::LZ4FrameReader;
 
 use paku::lz4_jblock::Lz4JBlockReader;
@@ -116,7 +116,7 @@ pub fn decompress(
 }
 
 fn decompress_gz(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Box<dyn Read>> {
-    let decoder = GzDecoder::new(reader);
+    let decoder = MultiGzDecoder::new(reader);
     Ok(Box::new(decoder))
 }
 
-- 
2.43.0


From b81e81a835d644a81446f6f6dc4aebd89116baa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 13/35] fix: use the first transport that can open a path

The last one was used, so a user transport could not take precedence
over the default ones, even though it is put first in the list.
---
 src/transport/seekable/seekable_factory.rs   | 5 ++++-
 src/transport/streaming/previewer_factory.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/transport/seekable/seekable_factory.rs b/src/transport/seekable/seekable_factory.rs
index c2d4999..5fc46e5 100644
--- a/src/transport/seekable/seekable_factory.rs
+++ b/src/transport/seekable/seekable_factory.rs
@@ -23,7 +23,10 @@ impl SeekableTransportFactory {
         for factory in &mut self.transports.iter() {
             match factory.can_open(path) {
                 false => continue,
-                true => reader = Some(factory.open(path)?),
+                true => {
+                    reader = Some(factory.open(path)?);
+                    break;
+                }
             }
         }
         Ok(match reader {
diff --git a/src/transport/streaming/previewer_factory.rs b/src/transport/streaming/previewer_factory.rs
index fc6452c..0c71295 100644
--- a/src/transport/streaming/previewer_factory.rs
+++ b/src/transport/streaming/previewer_factory.rs
@@ -23,7 +23,10 @@ impl PreviewerTransportFactory {
         for factory in &mut self.transports.iter() {
             match factory.can_open(path) {
                 false => continue,
-                true => reader = Some(factory.open(path)?),
+                true => {
+                    reader = Some(factory.open(path)?);
+                    break;
+                }
             }
         }
         Ok(match reader {
-- 
2.43.0


From c5d84bde8d6cc4287df254b53c86202e4e1ac9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:29 +0000
Subject: [PATCH 14/35] fix: report times that cannot be represented

Times before 1970 turned into times in the far future, as did epoch
timestamps and dates too large for 64 bits of nanoseconds (or they
caused a panic).
---
 src/source/csv_timestamp.rs | 30 ++++++++++++++++++------------
 src/util/timestamp_util.rs  | 22 +++++++++++++++++++---
 2 files changed, 37 insertions(+), 15 deletions(-)

diff --git a/src/source/csv_timestamp.rs b/src/source/csv_timestamp.rs
index 6570d09..1107342 100644
--- a/src/source/csv_timestamp.rs
+++ b/src/source/csv_timestamp.rs
@@ -5,6 +5,7 @@ use chrono::{DateTime, NaiveDate, NaiveDateTime};
 use crate::chopper::types::{Header, Nanos};
 use crate::error::{CliResult, Error};
 use crate::source::csv_configs::{DateColIdx, TimeColIdx, TimestampColConfig, TimestampFmtConfig};
+use crate::util::timestamp_util::datetime_to_nanos;
 use crate::util::tz::ChopperTz;
 
 // https://docs.rs/chrono/0.4/chrono/format/strftime/index.html
@@ -93,28 +94,33 @@ pub fn get_timestamp(
                 Ok(ts) => ts,
                 Err(err) => return Err(Error::Custom(err.to_string())),
             };
-            match units {
-                TimestampUnits::Seconds => timestamp * 1_000_000_000,
-                TimestampUnits::Millis => timestamp * 1_000_000,
-                TimestampUnits::Micros => timestamp * 1_000,
-                TimestampUnits::Nanos => timestamp,
+            let nanos = match units {
+                TimestampUnits::Seconds => timestamp.checked_mul(1_000_000_000),
+                TimestampUnits::Millis => timestamp.checked_mul(1_000_000),
+                TimestampUnits::Micros => timestamp.checked_mul(1_000),
+                TimestampUnits::Nanos => Some(timestamp),
+            };
+            match nanos {
+                Some(nanos) => nanos,
+                None => {
+                    return Err(Error::from(format!(
+                        "Timestamp is out of range: {}",
+                        timestamp
+                    )))
+                }
             }
         }
         TimestampFmt::DateTimeIncludesTz(format) => {
-            DateTime::parse_from_str(&timestamp, format)?.timestamp_nanos() as u64
+            datetime_to_nanos(&DateTime::parse_from_str(&timestamp, format)?)?
         }
         TimestampFmt::DateTimeNeedsExternalTz(format) => {
             let naive_date_time = NaiveDateTime::parse_from_str(&timestamp, format)?;
-            timezone
-                .from_local_datetime(&naive_date_time)?
-                .timestamp_nanos() as u64
+            datetime_to_nanos(&timezone.from_local_datetime(&naive_date_time)?)?
         }
         TimestampFmt::DateNeedsExternalTz(format) => {
             let naive_date = NaiveDate::parse_from_str(&timestamp, format)?;
             let naive_date_time = naive_date.and_hms(0, 0, 0);
-            timezone
-                .from_local_datetime(&naive_date_time)?
-                .timestamp_nanos() as u64
+            datetime_to_nanos(&timezone.from_local_datetime(&naive_date_time)?)?
         }
     };
     Ok(timestamp)
diff --git a/src/util/timestamp_util.rs b/src/util/timestamp_util.rs
index 5d63fe7..a09b414 100644
--- a/src/util/timestamp_util.rs
+++ b/src/util/timestamp_util.rs
@@ -1,4 +1,4 @@
-use chrono::{DateTime, NaiveDateTime};
+use chrono::{DateTime, NaiveDateTime, TimeZone};
 
 use crate::chopper::types::Nanos;
 use crate::error::{CliResult, Error};
@@ -34,6 +34,22 @@ fn create_datetime_range_formats() -> Vec<String> {
     formats
 }
 
+/// fails if the time is before 1970 or too far in the future to be represented
+pub fn datetime_to_nanos<Tz: TimeZone>(datetime: &DateTime<Tz>) -> CliResult<Nanos> {
+    if datetime.timestamp() >= 0 {
+        let nanos = (datetime.timestamp() as Nanos)
+            .checked_mul(1_000_000_000)
+            .and_then(|n| n.checked_add(datetime.timestamp_subsec_nanos() as Nanos));
+        if let Some(nanos) = nanos {
+            return Ok(nanos);
+        }
+    }
+    Err(Error::from(format!(
+        "Time is out of range: {:?}",
+        datetime.naive_utc()
+    )))
+}
+
 pub fn parse_datetime_range_element(datetime: &str, timezone: &ChopperTz) -> CliResult<Nanos> {
     let is_datetime_all_digits = datetime.chars().all(|c| c.is_ascii_digit());
     if is_datetime_all_digits {
@@ -74,14 +90,14 @@ pub fn parse_datetime_range_element(datetime: &str, timezone: &ChopperTz) -> Cli
     // try the formats that don't need external TZ first
     for format in &DATETIME_RANGE_FORMATS_WITH_TZ {
         if let Ok(dt) = DateTime::parse_from_str(&datetime, format) {
-            return Ok(dt.timestamp_nanos() as Nanos);
+            return datetime_to_nanos(&dt);
         };
     }
 
     // try available datetime formats that need external TZ
     for format in DATETIME_RANGE_FORMATS_NEED_TZ.iter() {
         if let Ok(ndt) = NaiveDateTime::parse_from_str(&datetime, &format) {
-            return Ok(timezone.from_local_datetime(&ndt)?.timestamp_nanos() as Nanos);
+            return datetime_to_nanos(&timezone.from_local_datetime(&ndt)?);
         }
     }
 
-- 
2.43.0


From 2ca9deabe06edda88f2a89167df30ecceb82e02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:29 +0000
Subject: [PATCH 15/35] fix: accept --print-time in upper case

It is declared as ignoring case, but any upper case letter caused a
panic.
---
 src/chopper_cli.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/chopper_cli.rs b/src/chopper_cli.rs
index d28800a..fcaab21 100644
--- a/src/chopper_cli.rs
+++ b/src/chopper_cli.rs
@@ -214,7 +214,12 @@ fn parse_csv_input_config(matches: &ArgMatches, timezone: ChopperTz) -> CliResul
 
 fn parse_csv_output_config(matches: &ArgMatches, timezone: ChopperTz) -> CSVOutputConfig {
     let csv_out_delimiter = matches.value_of("csv_out_delimiter").unwrap();
-    let csv_out_print_time_col = match matches.value_of("csv_out_print_time_col").unwrap() {
+    let csv_out_print_time_col = match matches
+        .value_of("csv_out_print_time_col")
+        .unwrap()
+        .to_lowercase()
+        .as_str()
+    {
         "yes" => true,
         "no" => false,
         _ => unreachable!(),
-- 
2.43.0


From 3d89f3769cfef910be7d63c0897059dbc7fe2f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:29 +0000
Subject: [PATCH 16/35] fix: allow splitting directly into a merge

The header was passed through a chain that starts with a merge before
the merge had seen all of its headers, which was reported as an error.
---
 src/chopper/header_graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chopper/header_graph.rs b/src/chopper/header_graph.rs
index 57e7964..d171013 100644
--- a/src/chopper/header_graph.rs
+++ b/src/chopper/header_graph.rs
@@ -67,7 +67,7 @@ impl HeaderGraph {
     ) -> CliResult<Self> {
         let chain: &mut HeaderChain = self.header_chains.get_mut(chain_id).unwrap();
         // check the first node of the chain.
-        if let HeaderNode::MergeHeaderSink(..) = chain.get_mut_nodes().get_mut(0).unwrap() {
+        if let Some(HeaderNode::MergeHeaderSink(..)) = chain.get_mut_nodes().get_mut(0) {
             // if MergeHeaderSink, check/process the header without removing the chain
             // pass to match_remove_chain only when all the Merge headers are processed
             self.check_merge_header(data_graph, chain_id, header)
@@ -109,7 +109,7 @@ impl HeaderGraph {
                         ));
                     }
                     for i in shs.chain_ids() {
-                        self = self.match_remove_chain(data_graph, *i, &mut header.clone())?;
+                        self = self.process_header_re(data_graph, *i, &mut header.clone())?;
                         header_count_tracker.unprocessed_count -= 1;
                     }
                     data_node = DataNode::Split(shs.chain_ids().clone());
-- 
2.43.0


From 8a90bd7e7fa3a57288c78d28aac860e8aa00132b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:29 +0000
Subject: [PATCH 17/35] fix: do not count non-ascii characters as delimiters

Only the lowest 8 bits of each character were looked at.
---
 src/util/csv_util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/csv_util.rs b/src/util/csv_util.rs
index 581611f..9a1e40f 100644
--- a/src/util/csv_util.rs
+++ b/src/util/csv_util.rs
@@ -35,7 +35,7 @@ pub fn guess_delimiter(row: &str, possible_delimiters: &[u8]) -> u8 {
         counts.insert(*d, 0);
     }
 
-    for c in row.chars() {
+    for c in row.chars().filter(|c| c.is_ascii()) {
         counts.entry(c as u8).and_modify(|count| *count += 1);
     }
 
-- 
2.43.0


From 306daa113bcbcfd7c1c4345f8583021920e1c60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:29 +0000
Subject: [PATCH 18/35] fix: report an unknown time zone as an error instead of
 panicking

---
 src/chopper_cli.rs |  2 +-
 src/util/tz.rs     | 21 ++++++++++++---------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/chopper_cli.rs b/src/chopper_cli.rs
index fcaab21..64bbb90 100644
--- a/src/chopper_cli.rs
+++ b/src/chopper_cli.rs
@@ -42,7 +42,7 @@ pub fn parse_cli_args(
         error::turn_on_backtrace()
     }
 
-    let timezone = ChopperTz::new_from_cli_arg(matches.value_of("timezone"), timezone_map);
+    let timezone = ChopperTz::new_from_cli_arg(matches.value_of("timezone"), timezone_map)?;
 
     let timestamp_range = TimestampRange::new(
         matches.value_of("begin"),
diff --git a/src/util/tz.rs b/src/util/tz.rs
index 129c0f9..147bb3c 100644
--- a/src/util/tz.rs
+++ b/src/util/tz.rs
@@ -16,9 +16,9 @@ impl ChopperTz {
     pub fn new_from_cli_arg(
         cli_timezone_arg: Option<&str>,
         timezone_map: Option<HashMap<&str, Tz>>,
-    ) -> ChopperTz {
-        let timezone = Self::resolve_timezone(cli_timezone_arg, timezone_map);
-        ChopperTz { timezone }
+    ) -> CliResult<ChopperTz> {
+        let timezone = Self::resolve_timezone(cli_timezone_arg, timezone_map)?;
+        Ok(ChopperTz { timezone })
     }
 
     pub fn new_always_fails() -> ChopperTz {
@@ -28,23 +28,26 @@ impl ChopperTz {
     fn resolve_timezone(
         cli_timezone_arg: Option<&str>,
         timezone_map: Option<HashMap<&str, Tz>>,
-    ) -> Option<Tz> {
+    ) -> CliResult<Option<Tz>> {
         let timezone_arg = match cli_timezone_arg {
             None => match env::var("CHOPPER_TZ") {
                 Ok(s) => Some(s),
                 Err(_) => None,
             },
             Some(s) => Some(s.to_owned()),
-        }?;
-
+        };
+        let timezone_arg = match timezone_arg {
+            None => return Ok(None),
+            Some(s) => s,
+        };
         let timezone: Tz = match timezone_map {
-            None => timezone_arg.parse().unwrap(),
+            None => timezone_arg.parse().map_err(Custom)?,
             Some(map) => match map.get(timezone_arg.as_str()) {
-                None => timezone_arg.parse().unwrap(),
+                None => timezone_arg.parse().map_err(Custom)?,
                 Some(s) => *s,
             },
         };
-        Some(timezone)
+        Ok(Some(timezone))
     }
 
     pub fn from_local_datetime(&self, local: &NaiveDateTime) -> CliResult<DateTime<Tz>> {
-- 
2.43.0


From 8dc0c7ab27b14f1d1db7305137dde323cadfa6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 19/35] fix: read all frames of zstd input

Anything after the first frame was silently ignored.
---
 src/decompress/zst.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/decompress/zst.rs b/src/decompress/zst.rs
index 3d6989a..de7de23 100644
--- a/src/decompress/zst.rs
+++ b/src/decompress/zst.rs
@@ -1,12 +1,12 @@
 use ruzstd::{BlockDecodingStrategy, FrameDecoder};
-use std::io::{self, Read};
+use std::io::{self, BufRead, Read};
 
 pub struct ZstReader<R> {
     inner: R,
     decoder: FrameDecoder,
 }
 
-impl<R: Read> ZstReader<R> {
+impl<R: BufRead> ZstReader<R> {
     pub fn new(reader: R) -> io::Result<ZstReader<R>> {
         let mut zst_reader = ZstReader {
             inner: reader,
@@ -24,11 +24,19 @@ impl<R: Read> ZstReader<R> {
     }
 }
 
-impl<R: Read> Read for ZstReader<R> {
+impl<R: BufRead> Read for ZstReader<R> {
     /// this impl works best with buffered reader on top of it, since it
     /// tries to fill the buf as much as possible by potentially decoding
     /// on every invocation
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        while self.decoder.is_finished() && self.decoder.can_collect() == 0 {
+            // end of frame, see if another one follows
+            if self.inner.fill_buf()?.is_empty() {
+                break;
+            }
+            self.init()?;
+        }
+
         while !self.decoder.is_finished() {
             let bytes_available = self.decoder.can_collect();
             if bytes_available >= buf.len() {
-- 
2.43.0


From 4f91383d8371a81fdc57b4d9f2758ebf4f6b0c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 20/35] fix: check the checksum of zstd frames

It was read but never compared to the data.
---
 src/decompress/zst.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/decompress/zst.rs b/src/decompress/zst.rs
index de7de23..cda63d1 100644
--- a/src/decompress/zst.rs
+++ b/src/decompress/zst.rs
@@ -30,7 +30,17 @@ impl<R: BufRead> Read for ZstReader<R> {
     /// on every invocation
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         while self.decoder.is_finished() && self.decoder.can_collect() == 0 {
-            // end of frame, see if another one follows
+            // end of frame, everything in it has been read by now
+            if let Some(checksum) = self.decoder.get_checksum_from_data() {
+                if self.decoder.get_calculated_checksum() != Some(checksum) {
+                    return Err(io::Error::new(
+                        io::ErrorKind::InvalidData,
+                        "zstd checksum mismatch",
+                    ));
+                }
+            }
+
+            // see if another one follows
             if self.inner.fill_buf()?.is_empty() {
                 break;
             }
-- 
2.43.0


From 07560811e043b43648d474928e0e041f7bfed7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 21/35] fix: read all frames of lz4 input

Anything after the first frame was silently ignored.
---
 src/decompress/decompress.rs | 10 ++----
 src/decompress/lz4.rs        | 59 ++++++++++++++++++++++++++++++++++++
 src/decompress/mod.rs        |  1 +
 3 files changed, 62 insertions(+), 8 deletions(-)
 create mode 100644 src/decompress/lz4.rs

diff --git a/src/decompress/decompress.rs b/src/decompress/decompress.rs
index 7bd75c0..9fa4ee3 100644
--- a/src/decompress/decompress.rs
+++ b/src/decompress/decompress.rs
@@ -3,11 +3,11 @@ use std::io::{BufReader, Read};
 
 use byteorder::{BigEndian, ReadBytesExt};
 use flate2::read::MultiGzDecoder;
-use lz_fear::LZ4FrameReader;
 
 use paku::lz4_jblock::Lz4JBlockReader;
 use paku::lzf::LzfReader;
 
+use crate::decompress::lz4::Lz4Reader;
 use crate::decompress::zst::ZstReader;
 use crate::error::{CliResult, Error};
 use crate::util::reader::{ChopperBufPreviewer, ChopperBufReader};
@@ -130,13 +130,7 @@ fn decompress_lz4(previewer: ChopperBufPreviewer<Box<dyn Read>>) -> CliResult<Bo
 }
 
 fn decompress_lz4_frame(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Box<dyn Read>> {
-    let frame_reader = match LZ4FrameReader::new(reader) {
-        Ok(frame_reader) => frame_reader,
-        Err(e) => {
-            return CliResult::Err(Error::Io(io::Error::new(io::ErrorKind::Other, e)));
-        }
-    };
-    Ok(Box::new(frame_reader.into_read()))
+    Ok(Box::new(Lz4Reader::new(reader)?))
 }
 
 fn decompress_lz4_jblock(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Box<dyn Read>> {
diff --git a/src/decompress/lz4.rs b/src/decompress/lz4.rs
new file mode 100644
index 0000000..f593e4f
--- /dev/null
+++ b/src/decompress/lz4.rs
@@ -0,0 +1,59 @@
+use std::cell::RefCell;
+use std::io::{self, BufRead, Read};
+use std::rc::Rc;
+
+use lz_fear::framed::LZ4FrameIoReader;
+use lz_fear::LZ4FrameReader;
+
+/// the frame reader takes ownership of its input, sharing the input makes
+/// it possible to continue with the next frame
+struct SharedReader<R>(Rc<RefCell<R>>);
+
+impl<R: Read> Read for SharedReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        self.0.borrow_mut().read(buf)
+    }
+}
+
+/// reads all the lz4 frames of the input
+pub struct Lz4Reader<R: Read> {
+    inner: Rc<RefCell<R>>,
+    frame_reader: LZ4FrameIoReader<'static, SharedReader<R>>,
+}
+
+impl<R: BufRead> Lz4Reader<R> {
+    pub fn new(reader: R) -> io::Result<Lz4Reader<R>> {
+        let inner = Rc::new(RefCell::new(reader));
+        let frame_reader = Self::next_frame(&inner)?;
+        Ok(Lz4Reader {
+            inner,
+            frame_reader,
+        })
+    }
+
+    fn next_frame(
+        inner: &Rc<RefCell<R>>,
+    ) -> io::Result<LZ4FrameIoReader<'static, SharedReader<R>>> {
+        match LZ4FrameReader::new(SharedReader(inner.clone())) {
+            Ok(frame_reader) => Ok(frame_reader.into_read()),
+            Err(e) => Err(io::Error::new(io::ErrorKind::Other, e)),
+        }
+    }
+}
+
+impl<R: BufRead> Read for Lz4Reader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        loop {
+            let bytes_read = self.frame_reader.read(buf)?;
+            if bytes_read > 0 || buf.is_empty() {
+                return Ok(bytes_read);
+            }
+
+            // end of frame, see if another one follows
+            if self.inner.borrow_mut().fill_buf()?.is_empty() {
+                return Ok(0);
+            }
+            self.frame_reader = Self::next_frame(&self.inner)?;
+        }
+    }
+}
diff --git a/src/decompress/mod.rs b/src/decompress/mod.rs
index b7b7a1f..7de53f6 100644
--- a/src/decompress/mod.rs
+++ b/src/decompress/mod.rs
@@ -1,4 +1,5 @@
 mod crc32;
 pub mod decompress;
+mod lz4;
 pub mod zip;
 mod zst;
-- 
2.43.0


From 69f1975c6579103f2a8871bd6b482360a743adad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 22/35] fix: drop extra columns of directory files if the first
 one has none

---
 src/source/multi_file_source.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/source/multi_file_source.rs b/src/source/multi_file_source.rs
index 18a66f0..ad611de 100644
--- a/src/source/multi_file_source.rs
+++ b/src/source/multi_file_source.rs
@@ -111,8 +111,7 @@ impl SerialMultiFileSource {
         }
 
         let mut new_header = new_header.clone();
-        // rows with extra columns still have to be truncated
-        let mut is_identity_map = new_header.field_names().len() == ref_header.field_names().len();
+        let mut is_identity_map = true;
 
         let mut swap_map = Vec::with_capacity(ref_header.field_names().len());
         for (ref_idx, ref_field_name) in ref_header.field_names().iter().enumerate() {
@@ -183,8 +182,11 @@ impl Source for SerialMultiFileSource {
                                 for (ref_idx, &new_idx) in self.swap_map.iter().enumerate() {
                                     next_row.field_values.swap(ref_idx, new_idx);
                                 }
-                                next_row.field_values.truncate(self.swap_map.len());
                             }
+                            // columns the first file does not have
+                            next_row
+                                .field_values
+                                .truncate(self.common_header.field_names().len());
                             return Ok(Some(next_row));
                         }
                     }
-- 
2.43.0


From 3a7aac3f1e3c34ccd5c6cc3035815e6b02b415b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:17 +0000
Subject: [PATCH 23/35] fix: refuse timestamp formats that give only part of a
 time or an unusable offset

An explicit format such as '%Y%m%d %H' fell back to parsing just a date and
silently dropped the hours; an offset that is out of range was ignored.
---
 src/source/csv_timestamp.rs | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/source/csv_timestamp.rs b/src/source/csv_timestamp.rs
index 1107342..c21bf17 100644
--- a/src/source/csv_timestamp.rs
+++ b/src/source/csv_timestamp.rs
@@ -1,5 +1,6 @@
 use std::ops::Range;
 
+use chrono::format::{Parsed, StrftimeItems};
 use chrono::{DateTime, NaiveDate, NaiveDateTime};
 
 use crate::chopper::types::{Header, Nanos};
@@ -162,10 +163,16 @@ fn get_timestamp_fmt_from_user_spec(
 
     if let Ok(_) = DateTime::parse_from_str(&timestamp, &format) {
         Ok(TimestampFmt::DateTimeIncludesTz(format))
-    } else if let Ok(naive_date_time) = NaiveDateTime::parse_from_str(&timestamp, &format) {
+    } else if let (false, Ok(naive_date_time)) = (
+        has_offset(&timestamp, &format),
+        NaiveDateTime::parse_from_str(&timestamp, &format),
+    ) {
         timezone.from_local_datetime(&naive_date_time)?;
         Ok(TimestampFmt::DateTimeNeedsExternalTz(format))
-    } else if let Ok(naive_date) = NaiveDate::parse_from_str(&timestamp, &format) {
+    } else if let (false, Ok(naive_date)) = (
+        has_offset(&timestamp, &format) || has_time(&timestamp, &format),
+        NaiveDate::parse_from_str(&timestamp, &format),
+    ) {
         let naive_date_time = naive_date.and_hms(0, 0, 0);
         timezone.from_local_datetime(&naive_date_time)?;
         Ok(TimestampFmt::DateNeedsExternalTz(format))
@@ -178,6 +185,24 @@ fn get_timestamp_fmt_from_user_spec(
     }
 }
 
+// chrono ignores the parts of a timestamp that the requested type has no place for,
+// such timestamp would silently be read as a different one
+fn has_offset(timestamp: &str, format: &str) -> bool {
+    let mut parsed = Parsed::new();
+    chrono::format::parse(&mut parsed, timestamp, StrftimeItems::new(format)).is_ok()
+        && parsed.offset().is_some()
+}
+
+fn has_time(timestamp: &str, format: &str) -> bool {
+    let mut parsed = Parsed::new();
+    chrono::format::parse(&mut parsed, timestamp, StrftimeItems::new(format)).is_ok()
+        && (parsed.hour_div_12().is_some()
+            || parsed.hour_mod_12().is_some()
+            || parsed.minute().is_some()
+            || parsed.second().is_some()
+            || parsed.nanosecond().is_some())
+}
+
 fn get_field(record: &csv::StringRecord, index: usize) -> CliResult<&str> {
     match record.get(index) {
         Some(field) => Ok(field),
-- 
2.43.0


From 947e15aba832d326b8ccaf8c42eff2ec5813485c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:49 +0000
Subject: [PATCH 24/35] fix: skip skippable frames and read past empty frames
 of zstd and lz4 input

---
 src/decompress/lz4.rs             | 46 ++++++++++++--------
 src/decompress/mod.rs             |  1 +
 src/decompress/skippable_frame.rs | 37 ++++++++++++++++
 src/decompress/zst.rs             | 70 ++++++++++++++++++-------------
 4 files changed, 109 insertions(+), 45 deletions(-)
 create mode 100644 src/decompress/skippable_frame.rs

diff --git a/src/decompress/lz4.rs b/src/decompress/lz4.rs
index f593e4f..2517270 100644
--- a/src/decompress/lz4.rs
+++ b/src/decompress/lz4.rs
@@ -1,10 +1,12 @@
 use std::cell::RefCell;
-use std::io::{self, BufRead, Read};
+use std::io::{self, Chain, Cursor, Read};
 use std::rc::Rc;
 
 use lz_fear::framed::LZ4FrameIoReader;
 use lz_fear::LZ4FrameReader;
 
+use crate::decompress::skippable_frame::read_magic_of_next_frame;
+
 /// the frame reader takes ownership of its input, sharing the input makes
 /// it possible to continue with the next frame
 struct SharedReader<R>(Rc<RefCell<R>>);
@@ -15,33 +17,43 @@ impl<R: Read> Read for SharedReader<R> {
     }
 }
 
+type FrameReader<R> = LZ4FrameIoReader<'static, Chain<Cursor<[u8; 4]>, SharedReader<R>>>;
+
 /// reads all the lz4 frames of the input
 pub struct Lz4Reader<R: Read> {
     inner: Rc<RefCell<R>>,
-    frame_reader: LZ4FrameIoReader<'static, SharedReader<R>>,
+    frame_reader: FrameReader<R>,
 }
 
-impl<R: BufRead> Lz4Reader<R> {
+impl<R: Read> Lz4Reader<R> {
     pub fn new(reader: R) -> io::Result<Lz4Reader<R>> {
         let inner = Rc::new(RefCell::new(reader));
-        let frame_reader = Self::next_frame(&inner)?;
-        Ok(Lz4Reader {
-            inner,
-            frame_reader,
-        })
+        match Self::next_frame(&inner)? {
+            Some(frame_reader) => Ok(Lz4Reader {
+                inner,
+                frame_reader,
+            }),
+            None => Err(io::Error::new(
+                io::ErrorKind::UnexpectedEof,
+                "lz4 frame missing",
+            )),
+        }
     }
 
-    fn next_frame(
-        inner: &Rc<RefCell<R>>,
-    ) -> io::Result<LZ4FrameIoReader<'static, SharedReader<R>>> {
-        match LZ4FrameReader::new(SharedReader(inner.clone())) {
-            Ok(frame_reader) => Ok(frame_reader.into_read()),
+    fn next_frame(inner: &Rc<RefCell<R>>) -> io::Result<Option<FrameReader<R>>> {
+        let mut reader = SharedReader(inner.clone());
+        let magic = match read_magic_of_next_frame(&mut reader)? {
+            Some(magic) => magic,
+            None => return Ok(None),
+        };
+        match LZ4FrameReader::new(Cursor::new(magic).chain(reader)) {
+            Ok(frame_reader) => Ok(Some(frame_reader.into_read())),
             Err(e) => Err(io::Error::new(io::ErrorKind::Other, e)),
         }
     }
 }
 
-impl<R: BufRead> Read for Lz4Reader<R> {
+impl<R: Read> Read for Lz4Reader<R> {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         loop {
             let bytes_read = self.frame_reader.read(buf)?;
@@ -50,10 +62,10 @@ impl<R: BufRead> Read for Lz4Reader<R> {
             }
 
             // end of frame, see if another one follows
-            if self.inner.borrow_mut().fill_buf()?.is_empty() {
-                return Ok(0);
+            match Self::next_frame(&self.inner)? {
+                Some(frame_reader) => self.frame_reader = frame_reader,
+                None => return Ok(0),
             }
-            self.frame_reader = Self::next_frame(&self.inner)?;
         }
     }
 }
diff --git a/src/decompress/mod.rs b/src/decompress/mod.rs
index 7de53f6..cd7b331 100644
--- a/src/decompress/mod.rs
+++ b/src/decompress/mod.rs
@@ -1,5 +1,6 @@
 mod crc32;
 pub mod decompress;
 mod lz4;
+mod skippable_frame;
 pub mod zip;
 mod zst;
diff --git a/src/decompress/skippable_frame.rs b/src/decompress/skippable_frame.rs
new file mode 100644
index 0000000..11176e4
--- /dev/null
+++ b/src/decompress/skippable_frame.rs
@@ -0,0 +1,37 @@
+use std::io::{self, Read};
+
+use byteorder::{LittleEndian, ReadBytesExt};
+
+const SKIPPABLE_FRAME_MAGIC: u32 = 0x184D_2A50;
+const SKIPPABLE_FRAME_MAGIC_MASK: u32 = 0xFFFF_FFF0;
+
+const MAGIC_SIZE: usize = 4;
+
+/// zstd and lz4 have skippable frames in common, these carry no data and can be anywhere between
+/// the other frames;
+/// this skips them and returns magic number of the next frame, or None if there are no more frames
+pub fn read_magic_of_next_frame<R: Read>(mut reader: R) -> io::Result<Option<[u8; MAGIC_SIZE]>> {
+    loop {
+        let mut magic = Vec::with_capacity(MAGIC_SIZE);
+        reader
+            .by_ref()
+            .take(MAGIC_SIZE as u64)
+            .read_to_end(&mut magic)?;
+        if magic.is_empty() {
+            return Ok(None);
+        }
+        if magic.len() < MAGIC_SIZE {
+            return Err(io::ErrorKind::UnexpectedEof.into());
+        }
+
+        let magic = [magic[0], magic[1], magic[2], magic[3]];
+        if u32::from_le_bytes(magic) & SKIPPABLE_FRAME_MAGIC_MASK != SKIPPABLE_FRAME_MAGIC {
+            return Ok(Some(magic));
+        }
+
+        let size = reader.read_u32::<LittleEndian>()? as u64;
+        if io::copy(&mut reader.by_ref().take(size), &mut io::sink())? < size {
+            return Err(io::ErrorKind::UnexpectedEof.into());
+        }
+    }
+}
diff --git a/src/decompress/zst.rs b/src/decompress/zst.rs
index cda63d1..c459572 100644
--- a/src/decompress/zst.rs
+++ b/src/decompress/zst.rs
@@ -1,35 +1,67 @@
 use ruzstd::{BlockDecodingStrategy, FrameDecoder};
-use std::io::{self, BufRead, Read};
+use std::io::{self, Read};
+
+use crate::decompress::skippable_frame::read_magic_of_next_frame;
 
 pub struct ZstReader<R> {
     inner: R,
     decoder: FrameDecoder,
 }
 
-impl<R: BufRead> ZstReader<R> {
+impl<R: Read> ZstReader<R> {
     pub fn new(reader: R) -> io::Result<ZstReader<R>> {
         let mut zst_reader = ZstReader {
             inner: reader,
             decoder: FrameDecoder::new(),
         };
-        zst_reader.init()?;
+        if !zst_reader.init()? {
+            return Err(io::Error::new(
+                io::ErrorKind::UnexpectedEof,
+                "zstd frame missing",
+            ));
+        }
         Ok(zst_reader)
     }
 
-    fn init(&mut self) -> io::Result<()> {
-        match self.decoder.init(&mut self.inner) {
-            Ok(o) => Ok(o),
+    /// returns false if there are no more frames
+    fn init(&mut self) -> io::Result<bool> {
+        let magic = match read_magic_of_next_frame(&mut self.inner)? {
+            Some(magic) => magic,
+            None => return Ok(false),
+        };
+        match self.decoder.init(&mut (&magic[..]).chain(&mut self.inner)) {
+            Ok(()) => Ok(true),
             Err(e) => Err(io::Error::new(io::ErrorKind::Other, e)),
         }
     }
 }
 
-impl<R: BufRead> Read for ZstReader<R> {
+impl<R: Read> Read for ZstReader<R> {
     /// this impl works best with buffered reader on top of it, since it
     /// tries to fill the buf as much as possible by potentially decoding
     /// on every invocation
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
-        while self.decoder.is_finished() && self.decoder.can_collect() == 0 {
+        loop {
+            while !self.decoder.is_finished() {
+                let bytes_available = self.decoder.can_collect();
+                if bytes_available >= buf.len() {
+                    break;
+                }
+
+                let additional_bytes_needed = buf.len() - bytes_available;
+                if let Err(e) = self.decoder.decode_blocks(
+                    &mut self.inner,
+                    BlockDecodingStrategy::UptoBytes(additional_bytes_needed),
+                ) {
+                    return Err(io::Error::new(io::ErrorKind::Other, e));
+                }
+            }
+
+            let bytes_read = self.decoder.read(buf)?;
+            if bytes_read > 0 || buf.is_empty() {
+                return Ok(bytes_read);
+            }
+
             // end of frame, everything in it has been read by now
             if let Some(checksum) = self.decoder.get_checksum_from_data() {
                 if self.decoder.get_calculated_checksum() != Some(checksum) {
@@ -41,27 +73,9 @@ impl<R: BufRead> Read for ZstReader<R> {
             }
 
             // see if another one follows
-            if self.inner.fill_buf()?.is_empty() {
-                break;
-            }
-            self.init()?;
-        }
-
-        while !self.decoder.is_finished() {
-            let bytes_available = self.decoder.can_collect();
-            if bytes_available >= buf.len() {
-                break;
-            }
-
-            let additional_bytes_needed = buf.len() - bytes_available;
-            if let Err(e) = self.decoder.decode_blocks(
-                &mut self.inner,
-                BlockDecodingStrategy::UptoBytes(additional_bytes_needed),
-            ) {
-                return Err(io::Error::new(io::ErrorKind::Other, e));
+            if !self.init()? {
+                return Ok(0);
             }
         }
-
-        self.decoder.read(buf)
     }
 }
-- 
2.43.0


From 8354f777e565fd849ddd1516e555ea94f2091a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:59 +0000
Subject: [PATCH 25/35] fix: accept explicit zip format of zip archives

---
 src/input/single_file.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/input/single_file.rs b/src/input/single_file.rs
index f18ad5d..e3dac8b 100644
--- a/src/input/single_file.rs
+++ b/src/input/single_file.rs
@@ -59,6 +59,14 @@ impl SingleFileInputFactory {
             if is_zip(&mut seekable)? {
                 let (reader, file_name) = new_reader_for_single_file_zip_archive(seekable)?;
                 let previewer = ChopperBufPreviewer::new(reader)?;
+                // archive has been taken care of, what's left of the format is for its contents
+                let input_format = match input_format {
+                    InputFormat::Extension(extension) if extension.ends_with(".zip") => {
+                        let end = extension.len() - ".zip".len();
+                        InputFormat::Extension(extension[..end].to_owned())
+                    }
+                    _ => input_format.clone(),
+                };
                 return Ok(Some(self.create_source_from_previewer(
                     previewer,
                     Some(file_name),
-- 
2.43.0


From 409b1b89946fa0fb9eda15e734080b9a434b2889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:10 +0000
Subject: [PATCH 26/35] fix: refuse zip archives with no files instead of
 reading them as text

---
 src/decompress/zip.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/decompress/zip.rs b/src/decompress/zip.rs
index 2d0e916..ec25067 100644
--- a/src/decompress/zip.rs
+++ b/src/decompress/zip.rs
@@ -51,7 +51,10 @@ pub fn is_zip<R: Read + Seek>(reader: &mut R) -> io::Result<bool> {
         return Ok(false);
     }
     reader.seek(SeekFrom::Start(0))?;
-    Ok(reader.read_u32::<LittleEndian>()? == LOCAL_FILE_HEADER_SIGNATURE)
+    let signature = reader.read_u32::<LittleEndian>()?;
+    // archive with no files in it has nothing before the end of central directory
+    Ok(signature == LOCAL_FILE_HEADER_SIGNATURE
+        || signature == END_OF_CENTRAL_DIR_RECORD_SIGNATURE)
 }
 
 pub fn new_reader_for_single_file_zip_archive<R: 'static + Read + Seek>(
-- 
2.43.0


From 8c7e423ccf012200d8644b3f5752bea60c464a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:48 +0000
Subject: [PATCH 27/35] fix: accept single file zip archives with zip64 end of
 central directory

---
 src/decompress/zip.rs | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/decompress/zip.rs b/src/decompress/zip.rs
index ec25067..0bd1ca5 100644
--- a/src/decompress/zip.rs
+++ b/src/decompress/zip.rs
@@ -153,11 +153,11 @@ fn get_start_of_central_dir_offset<R: Read + Seek>(
     {
         // kinda weird, but possibly just a very small compressed file with no zip64 records, so
         // assume it's a file with no zip64 records and fall back to end of central directory record
-        return Ok(eocdr.start_of_central_directory_offset as u64);
+        return eocdr.get_start_of_central_dir_offset();
     }
 
     if reader.read_u32::<LittleEndian>()? != ZIP64_END_OF_CENTRAL_DIR_LOCATOR_SIGNATURE {
-        return Ok(eocdr.start_of_central_directory_offset as u64);
+        return eocdr.get_start_of_central_dir_offset();
     }
 
     let zip64_eocdr_offset = read_zip64_eocdl_and_get_eocdr_offset(reader)?;
@@ -218,6 +218,7 @@ fn read_zip64_eocdr_and_get_central_dir_offset<T: Read + io::Seek>(
 }
 
 struct EndOfCentralDirRecord {
+    pub is_zip64: bool,
     pub central_directory_size: u32,
     pub start_of_central_directory_offset: u32,
     pub zip_file_comment_length: i64,
@@ -234,8 +235,18 @@ impl EndOfCentralDirRecord {
         let zip_file_comment_length = reader.read_u16::<LittleEndian>()? as i64;
         reader.seek(SeekFrom::Current(zip_file_comment_length))?;
 
-        if total_number_of_central_directory_entries != 1
-            || number_of_central_directory_entries_on_this_disk != 1
+        // 0xffff stands for the number being in zip64 end of central directory record
+        let is_zip64 = [
+            disk_number,
+            disk_number_with_start_of_central_directory,
+            number_of_central_directory_entries_on_this_disk,
+            total_number_of_central_directory_entries,
+        ]
+        .contains(&0xffff)
+            || start_of_central_directory_offset == 0xffff_ffff;
+
+        if ![1, 0xffff].contains(&total_number_of_central_directory_entries)
+            || ![1, 0xffff].contains(&number_of_central_directory_entries_on_this_disk)
         {
             return Err(Error::new(
                 ErrorKind::InvalidData,
@@ -243,7 +254,9 @@ impl EndOfCentralDirRecord {
             ));
         }
 
-        if disk_number != 0 || disk_number_with_start_of_central_directory != 0 {
+        if ![0, 0xffff].contains(&disk_number)
+            || ![0, 0xffff].contains(&disk_number_with_start_of_central_directory)
+        {
             return Err(Error::new(
                 ErrorKind::InvalidData,
                 "multi-disk zip archives not supported",
@@ -251,11 +264,23 @@ impl EndOfCentralDirRecord {
         }
 
         Ok(EndOfCentralDirRecord {
+            is_zip64,
             central_directory_size,
             start_of_central_directory_offset,
             zip_file_comment_length,
         })
     }
+
+    /// only if there is no zip64 end of central directory record
+    pub fn get_start_of_central_dir_offset(&self) -> io::Result<u64> {
+        if self.is_zip64 {
+            return Err(Error::new(
+                ErrorKind::InvalidData,
+                "zip64 end of central directory record missing",
+            ));
+        }
+        Ok(self.start_of_central_directory_offset as u64)
+    }
 }
 
 struct CentralDirHeader {
-- 
2.43.0


From 6a869358d1846c5c47e7cb4c2f3df8b9c65a23bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:29 +0000
Subject: [PATCH 28/35] fix: quote text of csv output that contains delimiter,
 quote or line end

---
 src/write/csv_sink.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/write/csv_sink.rs b/src/write/csv_sink.rs
index 08265de..8148a8d 100644
--- a/src/write/csv_sink.rs
+++ b/src/write/csv_sink.rs
@@ -40,20 +40,31 @@ impl CSVSink {
         let mut first = true;
 
         if self.csv_output_config.print_time_col() {
-            write!(writer, "{}", self.csv_output_config.time_col_name())?;
+            Self::write_text(writer, delimiter, self.csv_output_config.time_col_name())?;
             first = false;
         }
         for name in field_name {
             if first {
-                write!(writer, "{}", name)?;
                 first = false;
             } else {
-                write!(writer, "{}{}", delimiter, name)?;
+                write!(writer, "{}", delimiter)?;
             }
+            Self::write_text(writer, delimiter, &name)?;
         }
         write!(writer, "\n")?;
         Ok(())
     }
+
+    /// text is quoted if it could not be told apart from delimiters or end of line otherwise
+    fn write_text<W: io::Write>(writer: &mut W, delimiter: &str, text: &str) -> io::Result<()> {
+        if text.contains(&['"', '\n', '\r'][..])
+            || (!delimiter.is_empty() && text.contains(delimiter))
+        {
+            write!(writer, "\"{}\"", text.replace("\"", "\"\""))
+        } else {
+            write!(writer, "{}", text)
+        }
+    }
 }
 
 impl HeaderSink for CSVSink {
@@ -91,7 +102,11 @@ impl DataSink for CSVSink {
                 }
             };
 
-            write!(self.writer, "{}", time)?;
+            Self::write_text(
+                &mut self.writer,
+                self.csv_output_config.delimiter(),
+                &time,
+            )?;
             first_col = false;
         }
         let field_values = &row.field_values;
@@ -125,7 +140,7 @@ impl DataSink for CSVSink {
                 FieldValue::Int(x) => write!(self.writer, "{}", x)?,
                 FieldValue::Long(x) => write!(self.writer, "{}", x)?,
                 FieldValue::Short(x) => write!(self.writer, "{}", x)?,
-                FieldValue::String(x) => write!(self.writer, "{}", x)?,
+                FieldValue::String(x) => Self::write_text(&mut self.writer, delimiter, x)?,
                 FieldValue::None => (),
             };
         }
-- 
2.43.0


From ed66eec845791a2d2c405c0682aa1d87c6ae410a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:40 +0000
Subject: [PATCH 29/35] fix: print infinite and undefined floating point
 numbers as such in csv output

---
 src/write/csv_sink.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/write/csv_sink.rs b/src/write/csv_sink.rs
index 8148a8d..4b5a70b 100644
--- a/src/write/csv_sink.rs
+++ b/src/write/csv_sink.rs
@@ -131,9 +131,12 @@ impl DataSink for CSVSink {
                     ))
                 }
                 FieldValue::Char(x) => write!(self.writer, "{}", x)?,
+                // dtoa is for finite numbers only
+                FieldValue::Double(x) if !x.is_finite() => write!(self.writer, "{}", x)?,
                 FieldValue::Double(x) => {
                     dtoa::write(&mut self.writer, *x)?;
                 }
+                FieldValue::Float(x) if !x.is_finite() => write!(self.writer, "{}", x)?,
                 FieldValue::Float(x) => {
                     dtoa::write(&mut self.writer, *x)?;
                 }
-- 
2.43.0


From 05a18dd4e42a6a93a4d87956c926f1613a7be81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:58 +0000
Subject: [PATCH 30/35] fix: report http responses that end before their
 content length

---
 src/transport/streaming/http.rs | 42 ++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/src/transport/streaming/http.rs b/src/transport/streaming/http.rs
index 25de02c..487bc77 100644
--- a/src/transport/streaming/http.rs
+++ b/src/transport/streaming/http.rs
@@ -15,7 +15,21 @@ impl StreamingTransport for HttpTransport {
         let response = ureq::get(path.to_str().unwrap()).call();
 
         if response.ok() {
-            Ok(Box::new(response.into_reader()))
+            // no content length counts if there is a transfer encoding
+            let length = match response.header("transfer-encoding") {
+                Some(encoding) if !encoding.is_empty() => None,
+                _ => response
+                    .header("content-length")
+                    .and_then(|length| length.parse::<u64>().ok()),
+            };
+            let reader = response.into_reader();
+            match length {
+                Some(length) => Ok(Box::new(ContentLengthReader {
+                    reader,
+                    remaining: length,
+                })),
+                None => Ok(Box::new(reader)),
+            }
         } else {
             Err(io::Error::new(
                 io::ErrorKind::Other,
@@ -37,3 +51,29 @@ impl StreamingTransport for HttpTransport {
         "http"
     }
 }
+
+/// Reads exactly the announced number of bytes: whatever happens to the connection, ending before
+/// that is an error.
+struct ContentLengthReader<R> {
+    reader: R,
+    remaining: u64,
+}
+
+impl<R: io::Read> io::Read for ContentLengthReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        let len = std::cmp::min(self.remaining, buf.len() as u64) as usize;
+        if len == 0 {
+            return Ok(0);
+        }
+        match self.reader.read(&mut buf[..len])? {
+            0 => Err(io::Error::new(
+                io::ErrorKind::UnexpectedEof,
+                "http response ended before all of its content was read",
+            )),
+            n => {
+                self.remaining -= n as u64;
+                Ok(n)
+            }
+        }
+    }
+}
-- 
2.43.0


From 46e3551dd9e23611ba94d5763595ef29fd9779bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:47 +0000
Subject: [PATCH 31/35] fix: zip: extra field headers count towards the length
 of the extra fields

---
 src/decompress/zip.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decompress/zip.rs b/src/decompress/zip.rs
index 0bd1ca5..b7f1bef 100644
--- a/src/decompress/zip.rs
+++ b/src/decompress/zip.rs
@@ -405,7 +405,8 @@ impl CentralDirHeader {
             }
             reader.seek(SeekFrom::Current(data_size - data_read))?;
 
-            total_bytes_read += data_size as u64;
+            // header id and size count as well
+            total_bytes_read += 4 + data_size as u64;
         }
 
         Ok((uncompressed_size, compressed_size, local_header_offset))
-- 
2.43.0


From a8278a53564b66c0cdc4d58529015920265a2aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:30 +0000
Subject: [PATCH 32/35] fix: graphs with unknown, missing or surplus inputs of
 a chain are refused

Rows of such graphs were silently lost, or the process panicked or
overflowed its stack.
---
 src/chopper/header_graph.rs | 44 ++++++++++++++++++++++++++++++++-----
 src/driver/driver.rs        |  5 +++++
 2 files changed, 44 insertions(+), 5 deletions(-)

diff --git a/src/chopper/header_graph.rs b/src/chopper/header_graph.rs
index d171013..520ef28 100644
--- a/src/chopper/header_graph.rs
+++ b/src/chopper/header_graph.rs
@@ -20,6 +20,7 @@ pub struct HeaderChain {
 
 pub struct HeaderGraph {
     header_chains: Vec<HeaderChain>,
+    processed: Vec<bool>,
 }
 
 impl HeaderChain {
@@ -38,7 +39,11 @@ impl HeaderChain {
 
 impl HeaderGraph {
     pub fn new(header_chains: Vec<HeaderChain>) -> Self {
-        HeaderGraph { header_chains }
+        let processed = vec![false; header_chains.len()];
+        HeaderGraph {
+            header_chains,
+            processed,
+        }
     }
 
     pub fn len(&self) -> usize {
@@ -56,6 +61,18 @@ impl HeaderGraph {
         for i in 0..header.len() {
             self = self.process_header_re(&mut data_graph, i, header.get_mut(i).unwrap())?;
         }
+
+        // rows would silently get lost in a chain that is still waiting for inputs
+        for (i, chain) in self.header_chains.iter_mut().enumerate() {
+            if let Some(HeaderNode::MergeHeaderSink(_, header_count_tracker)) =
+                chain.get_mut_nodes().get(0)
+            {
+                return Err(Error::from(format!(
+                    "HeaderGraph -- ChainId[{}] is missing {} input(s) to merge",
+                    i, header_count_tracker.unprocessed_count
+                )));
+            }
+        }
         Ok(data_graph)
     }
 
@@ -65,7 +82,15 @@ impl HeaderGraph {
         chain_id: ChainId,
         header: &mut Header,
     ) -> CliResult<Self> {
-        let chain: &mut HeaderChain = self.header_chains.get_mut(chain_id).unwrap();
+        let chain: &mut HeaderChain = match self.header_chains.get_mut(chain_id) {
+            Some(c) => c,
+            None => {
+                return Err(Error::from(format!(
+                    "HeaderGraph -- ChainId[{}] index out of bounds",
+                    chain_id
+                )))
+            }
+        };
         // check the first node of the chain.
         if let Some(HeaderNode::MergeHeaderSink(..)) = chain.get_mut_nodes().get_mut(0) {
             // if MergeHeaderSink, check/process the header without removing the chain
@@ -89,6 +114,15 @@ impl HeaderGraph {
         chain_id: ChainId,
         header: &mut Header,
     ) -> CliResult<Self> {
+        // a chain that is not merging has only one input
+        if self.processed[chain_id] {
+            return Err(Error::from(format!(
+                "HeaderGraph -- ChainId[{}] has more than one input but does not merge",
+                chain_id
+            )));
+        }
+        self.processed[chain_id] = true;
+
         let chain = self.swap_remove(chain_id);
         // process header for all the nodes in the chain, and get DataSinks
         for node in chain.nodes {
@@ -131,8 +165,8 @@ impl HeaderGraph {
         chain_id: ChainId,
         header: &mut Header,
     ) -> CliResult<Self> {
-        let node: &mut HeaderNode = match self.get_mut_chain(chain_id) {
-            Some(c) => c.get_mut_nodes().get_mut(0).unwrap(),
+        let node: Option<&mut HeaderNode> = match self.get_mut_chain(chain_id) {
+            Some(c) => c.get_mut_nodes().get_mut(0),
             None => {
                 return Err(Error::from(format!(
                     "HeaderGraph -- ChainId[{}] index out of bounds",
@@ -141,7 +175,7 @@ impl HeaderGraph {
             }
         };
         match node {
-            HeaderNode::MergeHeaderSink(mhs, header_count_tracker) => {
+            Some(HeaderNode::MergeHeaderSink(mhs, header_count_tracker)) => {
                 if header_count_tracker.unprocessed_count <= 0 {
                     return Err(Error::from(
                         "HeaderGraph -- unprocessed header count must be at least 1",
diff --git a/src/driver/driver.rs b/src/driver/driver.rs
index 31f6ccb..7da936a 100644
--- a/src/driver/driver.rs
+++ b/src/driver/driver.rs
@@ -24,6 +24,11 @@ impl Driver {
                 each source should have at least one header chain.",
             ));
         }
+        if sources.len() != headers.len() {
+            return Err(Error::from(
+                "Driver -- each source should have exactly one header.",
+            ));
+        }
         let data_graph = header_graph.process_header(headers)?;
         Ok(Driver {
             sources,
-- 
2.43.0


From 57e8457edd0741ab5564cff7906fb0d84e3c75bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:30 +0000
Subject: [PATCH 33/35] fix: csv delimiter and header are guessed from the
 first lines with text

A byte order mark or empty lines in front made the first row of data be
taken for a header and lost.
---
 src/source/csv_source.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/source/csv_source.rs b/src/source/csv_source.rs
index 3e7cddc..e6e58d5 100644
--- a/src/source/csv_source.rs
+++ b/src/source/csv_source.rs
@@ -29,14 +29,22 @@ impl CSVSource {
         previewer: ChopperBufPreviewer<Box<dyn Read>>,
         csv_config: &CSVInputConfig,
     ) -> CliResult<Self> {
-        let (line1, line2) = match previewer.get_lines() {
-            None => (None, None),
-            Some(lines) => (lines.get(0), lines.get(1)),
-        };
+        // csv reader skips byte order mark and empty lines, they would only confuse the guesses
+        let mut lines = previewer
+            .get_lines()
+            .iter()
+            .flatten()
+            .enumerate()
+            .map(|(i, line)| match i {
+                0 => line.strip_prefix('\u{feff}').unwrap_or(line).to_string(),
+                _ => line.to_string(),
+            })
+            .filter(|line| line.chars().any(|c| c != '\r'));
+        let (line1, line2) = (lines.next(), lines.next());
 
         let delimiter = match csv_config.delimiter() {
             None => {
-                match line1 {
+                match &line1 {
                     Some(line) => csv_util::guess_delimiter(line.as_str(), DELIMITERS),
                     None => DELIMITERS[0], // doesn't really matter, since file is empty, just give something back
                 }
@@ -47,7 +55,7 @@ impl CSVSource {
         let has_header = match csv_config.has_header() {
             YesNoAuto::Yes => true,
             YesNoAuto::No => false,
-            YesNoAuto::Auto => csv_util::guess_has_header(line1, line2, delimiter),
+            YesNoAuto::Auto => csv_util::guess_has_header(line1.as_ref(), line2.as_ref(), delimiter),
         };
 
         let reader = previewer.get_reader();
-- 
2.43.0


From 37f405e6f0bb7dd804bc30b30f26bbd3d955f8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:30 +0000
Subject: [PATCH 34/35] fix: a missing value is not greater than any other, it
 does not end the process

---
 src/chopper/types.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chopper/types.rs b/src/chopper/types.rs
index 2674a13..46807a1 100644
--- a/src/chopper/types.rs
+++ b/src/chopper/types.rs
@@ -123,6 +123,8 @@ impl PartialOrd for FieldValue {
             (FieldValue::Short(x), FieldValue::Short(y)) => Some(x.cmp(y)),
             (FieldValue::String(x), FieldValue::String(y)) => Some(x.cmp(y)),
             (FieldValue::None, FieldValue::None) => Some(Ordering::Equal),
+            // a missing value is neither less nor greater than any other
+            (FieldValue::None, _) | (_, FieldValue::None) => None,
             _ => Error::from(format!(
                 "FieldValue -- cannot compare different field types - {} {}",
                 self, other
-- 
2.43.0


From 9110a2238534884667f620f71f7f9de9371a67d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:51 +0000
Subject: [PATCH 35/35] fix: an output that is one of the inputs is refused

---
 src/chopper_cli.rs | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/chopper_cli.rs b/src/chopper_cli.rs
index 64bbb90..fc8eabb 100644
--- a/src/chopper_cli.rs
+++ b/src/chopper_cli.rs
@@ -1,4 +1,6 @@
 use std::collections::HashMap;
+use std::fs;
+use std::path::Path;
 
 use chrono_tz::Tz;
 use clap::{value_t, ArgMatches};
@@ -9,7 +11,7 @@ use crate::chopper::types::{Header, TimestampRange};
 use crate::cli::util::YesNoAuto;
 use crate::cli_app::CliApp;
 use crate::driver::{driver::Driver, merge_join::MergeJoin};
-use crate::error::{self, CliResult};
+use crate::error::{self, CliResult, Error};
 use crate::input::input::{Input, InputFormat, InputType};
 use crate::input::input_factory::InputFactory;
 use crate::source::csv_configs::{
@@ -116,6 +118,10 @@ fn setup_graph(
     csv_input_config: CSVInputConfig,
     csv_output_config: CSVOutputConfig,
 ) -> CliResult<Box<dyn ChopperDriver>> {
+    if let Some(output) = output {
+        check_output_is_not_an_input(&inputs, output)?;
+    }
+
     // get sources and headers
     let mut sources: Vec<Box<dyn Source>> = Vec::new();
     let mut headers: Vec<Header> = Vec::new();
@@ -164,6 +170,34 @@ fn setup_graph(
     )?))
 }
 
+/// creating the output empties a file that is there already, and its rows would be lost
+/// if it was to be read as well
+fn check_output_is_not_an_input(inputs: &[Input], output: &str) -> CliResult<()> {
+    let output_file = match fs::canonicalize(output) {
+        Ok(file) if file.is_file() => file,
+        _ => return Ok(()),
+    };
+    let is_output = |path: &Path| fs::canonicalize(path).map_or(false, |p| p == output_file);
+
+    for input in inputs {
+        let path = match &input.input {
+            InputType::Path(path) => Path::new(path),
+            InputType::StdIn => Path::new("/dev/stdin"),
+        };
+        let is_output_in_dir = || match fs::read_dir(path) {
+            Ok(mut files) => files.any(|file| file.map_or(false, |f| is_output(&f.path()))),
+            Err(_) => false,
+        };
+        if is_output(path) || is_output_in_dir() {
+            return Err(Error::from(format!(
+                "output file '{}' is one of the inputs",
+                output
+            )));
+        }
+    }
+    Ok(())
+}
+
 fn parse_csv_input_config(matches: &ArgMatches, timezone: ChopperTz) -> CliResult<CSVInputConfig> {
     let input_delimiter = matches.value_of("csv_in_delimiter");
     let has_header = value_t!(matches, "csv_in_has_header", YesNoAuto)?;
-- 
2.43.0

